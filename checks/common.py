LIBS = ("-lpthread", "-ldl", "-ljpeg", "-lpng", "-ltiff")
