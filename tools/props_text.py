p("C01", "Every pixel is sampled exactly spp times whatever the thread schedule",
  "For every image size with a supported width, samples-per-pixel count supported by the chosen sampler and number of rendering threads, a render traces exactly spp camera samples inside every pixel of the image and none outside it, then terminates. Each 32-pixel tile is rendered by exactly one thread, whatever order the threads take tiles in.",
  ["schedules", "configurations"], "all interleavings of the rendering threads on the job queue; all widths multiple of 32, heights, spp, thread counts, both samplers",
  "No test renders with several threads or looks at which pixels are sampled; renderer tests only check that missing settings are reported.",
  ["src/renderer.cpp", "src/renderer.hpp", "src/samplers/sampler_random.cpp", "src/samplers/sampler_stratified.cpp"],
  [("tile queue guarded by a mutex", "src/renderer.cpp executor"), ("tile decomposition", "src/renderer.cpp Renderer::render"), ("samplers walk a tile", "src/samplers")],
  [("jobs", "tiles not yet taken", "src/renderer.hpp")], ["Camera::create_ray (virtual)", "LightIntegrator::radiance (virtual)"])
p("C02", "No sample contribution to the film is lost, duplicated or misplaced",
  "After all threads have handed in their samples, every pixel of the saved image is the filter-weighted average of exactly the samples whose filter support covers that pixel, each counted once; pixels with no sample are black. This holds for every partition of the image in tiles, every order in which threads add, attempt and force their contributions, and every interleaving of those operations.",
  ["schedules", "histories"], "all interleavings and orders of add / deferred attempt / forced flush by any number of threads over any tiling; all filters and sample positions",
  "The tests add a handful of samples from one thread and only look at how many contributions are deferred, never at pixel values or at two threads.",
  ["src/cameras/image_film.cpp", "src/cameras/image_film.hpp", "src/utility/array2D.hpp", "src/renderer.cpp"],
  [("instant/deferred split", "src/cameras/image_film.cpp add_pixel"), ("mutex around deferred flush", "src/cameras/image_film.cpp add_pixel_deferred/add_pixel_forced")],
  [("deferred", "contributions kept by a thread until it owns the lock", "src/cameras/image_film.hpp")], ["ImageFilm public API", "saved image"])
p("C03", "A ray always hits the closest asset of the scene",
  "For every set of assets in a scene, added in any order and with the acceleration structure (re)built any number of times in between, intersecting a ray reports a hit exactly when the ray meets some asset present at the latest build, and reports the closest one with the correct distance, point and asset. Adding more assets than the documented maximum is refused without affecting the others.",
  ["inputs", "histories"], "all add/build/intersect histories; all asset arrangements (overlapping, coincident, flat, straddling split planes) and ray origins and directions",
  "Tests build one or two fixed trees once and shoot a few rays; they never rebuild, never fill the tree and never compare with an exhaustive search.",
  ["src/accelerators/kdtree.cpp", "src/accelerators/kdtree.hpp", "src/utility/scene.cpp", "src/renderer.cpp"],
  [("kd-tree SAH build and packed nodes", "src/accelerators/kdtree.cpp"), ("front to back traversal", "src/accelerators/kdtree.cpp KdTree::intersect")],
  None, ["KdTree::intersect", "Scene"])
p("C04", "A ray always hits the closest triangle of a mesh",
  "For every mesh, whatever the number, arrangement and insertion order of its triangles, intersecting a ray with the mesh reports a hit exactly when the ray meets some triangle, and reports the closest one, its distance and point. Shooting rays never changes later answers.",
  ["inputs", "histories"], "all triangle arrangements (clustered, coincident, degenerate bounding boxes, long chains) and rays",
  "The tests intersect two small fixed meshes with a few rays.",
  ["src/accelerators/bvh.cpp", "src/accelerators/bvh.hpp", "src/primitives/mesh.cpp", "src/geometry/AABB.cpp"],
  [("SAH bvh build and packing", "src/accelerators/bvh.cpp"), ("ordered traversal", "src/accelerators/bvh.cpp Bvh::intersect")],
  None, ["Mesh::intersect", "Bvh::intersect"])
p("C05", "A scene keeps exactly what it was given, once, and frees it once",
  "A scene counts exactly the shapes and assets that were inherited, each once, enumerates exactly the lights accepted up to the documented limit in order of acceptance, makes every accepted asset up to the documented maximum visible to rays after the next build, and destroys every inherited object exactly once when it is destroyed and never before, whatever the order of insertions and however often the same object is inherited. A light refused because of the limit changes nothing in the scene and is not taken over.",
  ["histories"], "all histories of inherit_shape / inherit_asset / inherit_light / lookups, below, at and above the limits",
  "Tests inherit one or two objects and never repeat or exceed anything.",
  ["src/utility/scene.cpp", "src/utility/scene.hpp", "src/primitives/asset.cpp", "src/primitives/shape.cpp"],
  [("ownership maps", "src/utility/scene.hpp"), ("light limit", "src/utility/scene.cpp inherit_light")],
  None, ["Scene public API", "destructor calls"])
p("C06", "A Wavefront OBJ file yields exactly the meshes it describes",
  "Parsing an OBJ file with any mix of vertices, texture coordinates, normals, faces (triangles and convex polygons; absolute and relative, 1-based indices in every v, v/t, v//n, v/t/n form), objects, groups, smoothing, usemtl and comment lines yields, object after object, meshes with exactly the described names, triangles, normals, texture coordinates and per-face materials. The result does not depend on line endings, trailing blanks, a missing final newline, or how the file falls on the read buffer.",
  ["inputs", "programs"], "all OBJ files over the supported grammar, whatever their layout",
  "Tests parse about a dozen fixed files; the grammar's combinations, layouts and buffer alignments are not explored.",
  ["src/parsers/parser_obj.cpp", "src/parsers/parser_obj.hpp", "src/primitives/mesh.cpp", "src/primitives/triangle.cpp"],
  [("buffered tokenizer", "src/parsers/parser_obj.cpp"), ("face triangulation and index resolution", "src/parsers/parser_obj.cpp parse_face")],
  None, ["ParserObj public API", "Mesh/Triangle intersection"])
p("C07", "A malformed OBJ file is never fatal and never hangs the parser",
  "For every byte content of an OBJ file the parser terminates without crashing, reading outside its data or raising an exception. Faces whose indices do not designate existing data are reported and skipped, and the remaining well-formed faces are still produced.",
  ["inputs"], "all file contents: truncated lines, out of range or zero or overflowing indices, stray bytes",
  "Tests cover a few wrong faces; hostile contents and truncations at every byte are not covered.",
  ["src/parsers/parser_obj.cpp", "src/parsers/parser_obj.hpp"],
  [("index validation", "src/parsers/parser_obj.cpp parse_face")], None, ["ParserObj public API"])
p("C08", "Scene-file settings are applied, defaulted and sanitised as documented",
  "For every scene file, the resolution, samples per pixel, sampler, reconstruction filter, texture filter, camera and output file in effect are those written in the file, the last occurrence of a key winning and the files it includes overriding it, with the documented defaults (and units: degrees for angles) for those missing. A width that is not a multiple of 32 is raised to the next one and the height scaled in proportion, the samples per pixel of a stratified sampler become the nearest square, and a resolution or number of samples of zero is replaced by the default. The relative order of different settings does not matter, nor do spaces, comments and line endings between them.",
  ["configurations", "programs"], "all subsets, orders and repetitions of settings, all values, all layouts of the text",
  "Tests parse fixed files and only check that no error is reported; the settings in effect are not observable to them.",
  ["src/parsers/config_driver.cpp", "src/parsers/config_driver.hpp", "src/parsers/config_parser.y", "src/parsers/config_lexer.l"],
  [("setting variables, check_*() and build_renderer", "src/parsers/config_driver.cpp")], None, ["ConfigDriver::parse", "Renderer constructor and setters", "Camera::create_ray", "Filter::weight", "output file"])
p("C09", "Scene-file names resolve to the declared materials, textures and objects",
  "For every scene file, each world object or light is created with the mesh, transformation, material (its own, or the one of each face of the mesh) and mask its declaration names, and each material, dual material and texture with the textures, materials and mask it names, wherever in the file the declarations appear. A name of a texture that is not declared is used as the path of an image. What is not found is reported and replaced by the documented default (default material, default texture, no mask) or left out (object of an unknown mesh); a redeclared material, texture or mesh name is reported and the first declaration kept. Objects declared as lights become area lights and only those do.",
  ["programs", "configurations"], "all sequences of material, dual material, texture, mesh, light and world declarations",
  "Tests check a fixed list of files for the number of warnings.",
  ["src/parsers/config_driver.cpp", "src/parsers/config_parser.y", "src/materials/material_library.cpp", "src/textures/texture_library.cpp"],
  [("deferred mesh building and libraries", "src/parsers/config_driver.cpp")], None, ["ConfigDriver::parse", "Scene", "MtlLib", "TexLib"])
p("C10", "Relative paths in scene files resolve against the including file",
  "Every relative path written in a scene file (included files, meshes, textures and masks) is resolved against the folder of the file that contains it, whatever the number and position of the included files, with / and \\ both separating folders and . and .. understood, and absolute paths are used as they are. Declarations of an included file work as those of the main one; files included by included files are ignored. A path that is missing or can not be read is reported and the rest of the scene is still parsed.",
  ["programs", "configurations"], "all main and included files over all folder layouts, all forms of paths, all positions of the inclusions",
  "One test has a single absolute/one-level child.",
  ["src/parsers/config_driver.cpp", "src/parsers/config_parser.y", "src/utility/file.cpp"],
  [("current_dir and children", "src/parsers/config_driver.cpp")], None, ["ConfigDriver::parse", "Scene", "TexLib"])
p("C30", "Materials behave as their descriptions in the scene file say",
  "For every description of a material in a scene file, whatever the order and repetition of its keys (the last one winning), the material stored under its name scatters light exactly as one assembled by hand from the documented parts: the lobes of its type (matte, glossy, metal, glass), its diffuse and specular colours or textures, the index of refraction in each of its documented forms, the metal, and the microfacet distribution given by roughness, anisotropy and distribution, with documented defaults for what is missing and out of range roughness clamped. Value, probability and samples coincide for all directions. Descriptions are independent: one never changes what another means.",
  ["inputs", "programs", "configurations"], "all material descriptions, all combinations, orders and repetitions of keys, all values",
  "Tests parse a fixed list of descriptions and check only that a material of that name exists.",
  ["src/parsers/config_driver.cpp", "src/parsers/config_driver.hpp", "src/parsers/config_parser.y", "src/materials/bsdf.cpp"],
  [("build_materials and the ParsedMaterial fields", "src/parsers/config_driver.cpp")], None, ["ConfigDriver::parse", "MtlLib", "Bsdf value, density_probability and sample_value"])
p("C11", "Material and texture libraries are faithful name maps",
  "After any history of adding, inheriting, looking up, erasing and clearing names, the material and texture libraries answer each lookup with the object last successfully stored under that name, refuse duplicate names without losing the stored object, and always provide the default object. Stored objects are destroyed exactly once.",
  ["histories"], "all histories of library operations over any set of names, including the default's name",
  "Tests run one fixed history per library.",
  ["src/materials/material_library.cpp", "src/materials/material_library.hpp", "src/textures/texture_library.cpp", "src/textures/texture_library.hpp"],
  [("singleton maps", "src/materials/material_library.cpp, src/textures/texture_library.cpp")], None, ["MtlLib", "TexLib public API"])
p("C12", "Uncompressed and run-length image files are decoded pixel for pixel",
  "Reading any well-formed image in a supported variant returns the declared dimensions and, for every pixel, the colour (and alpha, opaque when the format stores none) the format assigns to it, whatever the size, the row padding and what surrounds the pixels. Supported are BMP with 24 or 32 bits per pixel, no palette or compression, bottom-up or top-down; TGA with 15, 16, 24 or 32 bits per pixel, raw or run-length encoded with packets of any partition, bottom-up or top-down; plain (P3) and binary (P6) PPM with comments in the header and any maximum value up to 65535; and PNG of every colour type and depth.",
  ["inputs"], "all well-formed files of the supported variants, all sizes, run partitions and sample values",
  "Tests decode one small picture per variant.",
  ["src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c", "src/utility/imageio/imageio.c"],
  [("per-format readers", "src/utility/imageio")], None, ["img_dimensions", "img_read8", "img_read8"])
p("C13", "A written image reads back as the same pixels",
  "For every image size and pixel content, writing an image in any supported lossless format (bmp, tga, ppm, png, tif) succeeds and produces a file that follows the format and reads back with the same dimensions and the same colours; lossy formats (jpg) preserve the dimensions. Writing replaces what the file held, never changes the pixels or accesses memory outside their buffer, and is reported as failed when the format can not hold the image or the file can not be stored.",
  ["inputs"], "all sizes (including odd widths and 1x1), all pixel values, all formats",
  "Tests write one fixed picture per format and check only that it can be read.",
  ["src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c", "src/utility/imageio/png.c", "src/utility/imageio/jpg.c", "src/utility/imageio/tiff.c"],
  [("per-format writers", "src/utility/imageio")], None, ["img_write", "img_read8"])
p("C14", "Broken image files are refused without touching foreign memory",
  "For every truncation or header corruption of an image file, asking its dimensions and reading it terminates without crashing or accessing memory outside the caller's buffer, and a file lacking pixel data is not reported as successfully read. The extension selects the format and unknown extensions are unsupported. A texture created from an image that can not be read is the default one.",
  ["inputs", "fault_sequences"], "all truncation points and header field values of every supported format",
  "Tests use missing files and a few wrong extensions.",
  ["src/utility/imageio/imageio.c", "src/utility/imageio/bmp.c", "src/utility/imageio/tga.c", "src/utility/imageio/ppm.c"],
  [("header validation", "src/utility/imageio")], None, ["img_dimensions", "img_read8", "img_valid", "img_supported"])
p("C15", "Path handling agrees with lexical path resolution",
  "For every starting path and sequence of append operations, the path, file name, extension and parent reported for a file are those of lexical path resolution: '.' and repeated or trailing separators vanish, '..' removes exactly the previous component and never leaves the root, a path not starting from the root is relative to the working directory, and an appended path is always relative to the current one. Copied and assigned objects are independent of the original.",
  ["inputs", "histories"], "all paths over any components and all sequences of append/copy/assign operations",
  "Tests check about ten literal paths.",
  ["src/utility/file.cpp", "src/utility/file.hpp"],
  [("append_absolute / append_relative", "src/utility/file.cpp")], None, ["File public API"])
p("C16", "A sampler visits each pixel once with well-placed samples",
  "For every tile and sample count, a sampler delivers exactly one batch per pixel of the tile, each batch holding the requested number of samples inside that pixel (its borders included), and then reports exhaustion forever after. The stratified sampler puts exactly one sample in each cell of a grid with exactly the requested number of cells, as near to square as the divisors of that number allow: anywhere in the cell when jittered, in its centre otherwise. The random numbers are those the documented generator (WELL1024a) yields for the seed, in [0,1], so the same seed yields the same samples.",
  ["inputs", "configurations"], "all tiles, sample counts and seeds, both samplers",
  "Tests draw a few batches at fixed coordinates.",
  ["src/samplers/sampler_random.cpp", "src/samplers/sampler_stratified.cpp", "src/samplers/sampler.cpp", "src/utility/wellrng.cpp"],
  [("raster walk", "src/samplers")], None, ["Sampler::get_samples"])
p("C17", "A material chooses among exactly its matching lobes, with matching density",
  "For every composition of reflecting, transmitting and specular lobes, evaluating a material sums exactly the lobes matching the requested and geometric side, sampling picks every matching lobe with equal chance and no other, and the value and density returned combine all the matching non-specular lobes with the chosen one. A material with no matching lobe returns black with zero density.",
  ["configurations", "inputs"], "all lobe lists up to the maximum, all match masks, all random numbers, both sides of the surface",
  "Tests exercise one or two lobes with one mask and fixed random numbers.",
  ["src/materials/multi_bsdf.cpp", "src/materials/bsdf.cpp", "src/materials/bdf.hpp", "src/materials/single_brdf.cpp"],
  [("lobe counting and selection", "src/materials/multi_bsdf.cpp")], None, ["Bsdf::value", "Bsdf::sample_value", "Bsdf::pdf"])
p("C18", "Masks cut out exactly the masked texels",
  "Where an object has a mask, a ray passes through exactly the points whose mask texel (of the chosen channel, at the point's texture coordinates) is below the threshold (not below it, if inverted) and sees the next surface behind them, for objects and for light-casting objects alike; a dual material shows its first material exactly where its mask is true and the second elsewhere. Without a mask nothing is cut out.",
  ["inputs", "configurations"], "all mask bitmaps, channels, thresholds, inversions, stacks of masked surfaces",
  "Tests look up a couple of texels of one bitmap.",
  ["src/textures/mask_boolean.cpp", "src/materials/dual.hpp", "src/primitives/asset.cpp", "src/accelerators/kdtree.cpp", "src/utility/occlusion_tester.cpp"],
  [("mask lookup", "src/textures/mask_boolean.cpp"), ("dual bsdf dispatch", "src/materials/dual.hpp")], None, ["MaskBoolean", "Asset intersection", "OcclusionTester"])
p("C19", "The path integrator follows the light-transport recursion",
  "For every scene and random sequence, a traced path's radiance is the sum over its vertices of emission (only where not already accounted by direct sampling) and direct light, each multiplied by the product of the scattering factors before it; the path ends exactly on escape, black scattering or a lost termination lottery, and never exceeds these. No emission seen directly or by mirror is dropped and none is counted twice. A path that survives the lottery with risk p weighs 1/(1-p), and the one light sampled at a vertex stands for all lights of the scene, chosen uniformly.",
  ["histories", "inputs"], "all sequences of surface events (diffuse, specular, emissive, black, miss) and random draws",
  "Tests check a single fixed radiance of one scene.",
  ["src/integrators/path_tracer.cpp", "src/integrators/ray_tracer.cpp"],
  [("path loop", "src/integrators/path_tracer.cpp")], None, ["LightIntegrator::radiance"])
p("C20", "Shadow tests agree with the scene whatever was tested before",
  "For every sequence of visibility queries, a query answers occluded exactly when some asset lies between the two points, excluding the emitting light itself, independently of the previously answered queries. Sampling a light from a point yields, whatever its position, rotation and scale, a point on its surface, a unit direction towards it, its radiance exactly where its outer side is visible, and the density of that direction per unit solid angle, the same the light answers for that direction; rays leaving a light start on its surface, on its outer side.",
  ["histories", "inputs"], "all histories of occlusion queries over all asset arrangements",
  "Tests issue two queries on fixed scenes.",
  ["src/utility/occlusion_tester.cpp", "src/lights/area_light.cpp"],
  [("last-hit cache per ricochet", "src/utility/occlusion_tester.cpp")], None, ["OcclusionTester::is_occluded", "AreaLight::radiance_i"])
p("C21", "Texture lookups wrap, scale and filter the right texels",
  "For every image size, shift, scale and texture coordinate (negative, beyond one, on borders), an unfiltered texture lookup returns the texel whose cell contains the scaled and shifted coordinate, the image being repeated in both directions; a trilinear one interpolates the four nearest texels of the two pyramid levels bracketing the widest scaled derivative; an EWA one averages the texels of the repeated image inside the ellipse of the footprint. No lookup reads outside the image and repeating a texture by whole units changes nothing.",
  ["inputs"], "all image sizes, coordinates, shifts, scales and footprints, in every filtering mode",
  "Tests look up a handful of coordinates of a 2x2 image, almost all at texel centres.",
  ["src/textures/texture_image.cpp", "src/textures/image_map.cpp", "src/textures/image_map.hpp", "src/utility/array2D.hpp"],
  [("wrapping", "src/textures/image_map.cpp, src/textures/texture_image.cpp"), ("pyramid and filters", "src/textures/image_map.cpp")], None, ["TextureImage::map_value", "TextureImage::map"])
p("C22", "Transformations compose, invert and move points, vectors and rays consistently",
  "For every sequence of translations, rotations and scalings, transforming by the product of matrices equals transforming step by step, the inverse undoes the transformation for points, vectors, normals, rays and boxes, whatever the scale; an object's world bounding box contains its transformed extent and is no larger than the box of its transformed object-space bounds.",
  ["histories", "inputs"], "all compositions of elementary transformations on all lattice points",
  "Tests check individual matrices on one point each.",
  ["src/geometry/matrix4.cpp", "src/geometry/point3.cpp", "src/geometry/vec3.cpp", "src/geometry/ray.cpp", "src/primitives/asset.cpp"],
  [("matrix algebra", "src/geometry/matrix4.cpp")], None, ["Matrix4", "operator*", "Asset"])
p("C23", "Bounding boxes answer overlap, containment and ray queries exactly",
  "For every sequence of box extensions, a box is the smallest one containing everything added; its surface, longest axis, containment and both ray/box tests agree with the geometric definition, for every ray origin (inside, outside, on a face) and direction including axis-parallel ones.",
  ["histories", "inputs"], "all boxes, points and rays on an integer lattice, all extension sequences",
  "Tests check a few boxes and rays.",
  ["src/geometry/AABB.cpp", "src/geometry/AABB.hpp"],
  [("slab test", "src/geometry/AABB.cpp")], None, ["AABB public API"])
p("C24", "Primitives are intersected at their first visible surface point",
  "For every sphere, box and triangle, transformed in any way, a ray reports a hit exactly when it meets the surface ahead of its origin and within its length, at the nearest such point with the outward surface normal there, and with the texture coordinates and tangents of that point; a miss leaves the result untouched; intersecting again from the hit point outward finds nothing of a convex object. Distance limits are honoured on both ends.",
  ["inputs"], "all lattice rays, from outside and inside, against all lattice-placed primitives",
  "Tests use a dozen fixed rays.",
  ["src/primitives/sphere.cpp", "src/primitives/box.cpp", "src/primitives/triangle.cpp"],
  [("analytic intersection", "src/primitives")], None, ["Shape::intersect"])
p("C25", "Neighbouring camera rays are the rays of the neighbouring pixels",
  "For every camera type, placement, resolution and sample, the differential rays produced with a primary ray are the primary rays of the samples one pixel to the right and one pixel below, and all rays are unit length and leave from the camera (parallel to the line of sight, from the sample's point of the image plane, for the orthographic one). The target is in the middle of the image; the perspective camera spans the angle of view over the shorter side with square pixels, the orthographic one its viewport; the panorama spans the whole sphere. The image is not mirrored or flipped.",
  ["inputs", "configurations"], "all camera types, resolutions and samples",
  "Tests check two or three rays per camera.",
  ["src/cameras/camera.cpp", "src/cameras/camera_perspective.cpp", "src/cameras/camera_orthographic.cpp", "src/cameras/camera360.cpp"],
  [("ray generation", "src/cameras")], None, ["Camera::create_ray"])
p("C26", "A mesh keeps every triangle with its material and samples its whole area",
  "For every sequence of triangle insertions, a mesh reports the exact bounding box, total area and triangle count, each hit uses the material assigned to the triangle hit, and points sampled on the surface cover exactly the triangles in proportion to area (and, for spheres and boxes, lie on the surface with its normal). Insertions past the documented maximum are refused without harm.",
  ["histories", "inputs"], "all insertion histories and material assignments, all random numbers",
  "Tests add two triangles.",
  ["src/primitives/mesh.cpp", "src/primitives/mesh.hpp", "src/primitives/asset.cpp"],
  [("face to material table", "src/primitives/mesh.cpp, src/primitives/asset.cpp")], None, ["Mesh", "Asset::get_material", "Mesh::sample_point"])
p("C27", "The output file always ends up at a writable, supported path",
  "For every requested output name, the image is saved at exactly that path when its folder is writable and the format supported, at that path with .ppm appended when the extension is unsupported, and a folder, an unwritable or missing location or a read-only file is reported before rendering. No other file is created or changed. The saved image has the requested size and every channel is the clamped colour of the film.",
  ["configurations", "fault_sequences"], "all output names, extensions and folder states",
  "Tests check two names for an error count and never look at the file.",
  ["src/cameras/image_film.cpp", "src/utility/file.cpp"],
  [("ImageFilm constructor", "src/cameras/image_film.cpp")], None, ["ImageFilm", "file system"])
p("C28", "Elapsed times are printed in full and within bounds",
  "For every number of seconds the formatted duration denotes exactly that number of seconds in days, hours, minutes and seconds (units that are zero are left out), fits the documented length with its terminator, and reports less than one second and one hundred days or more as such.",
  ["inputs"], "all durations",
  "Tests format a few durations.",
  ["src/utility/utility.hpp", "src/utility/console.cpp"],
  [("format_seconds", "src/utility/utility.hpp")], None, ["format_seconds"])
p("C29", "Folders are created, listed and described as they are",
  "For every state of the file system and every sequence of operations, creating a folder with its missing ancestors creates exactly the missing folders of the path and reports success exactly when the folder did not exist and does afterwards; creating a single folder succeeds exactly when its parent exists and it does not; listing a folder returns every entry once except . and ..; and a path reports existence, folder and regular file according to the entry it designates when it is constructed, extended, created or obtained as a parent.",
  ["histories", "fault_sequences"], "all histories of path operations, folder creations, listings and outside changes of a file tree",
  "Tests create one folder and list one fixed directory.",
  ["src/utility/file.cpp", "src/utility/file.hpp"],
  [("mkdirs walk over the path", "src/utility/file.cpp File::mkdirs")], None, ["File public API", "file system"])
p("C31", "Scattering lobes keep the symmetries of surfaces; mirrors and glass obey optics",
  "For every pair of directions and every lobe (diffuse, rough diffuse, microfacet reflection and transmission with each distribution, on glass or metal), value and density depend only on what they should: turning or mirroring both directions about the normal changes nothing where the surface has no marked axes, quarter turns exchange the two roughnesses where it has, exchanging the directions keeps the value (divided by the squared index of the first medium for transmission), moving both directions to the other side together with the media changes nothing, and directions on the wrong side get black and zero density. A sample is a unit direction on the right side with exactly the value and density the lobe reports when asked. Diffuse lobes and the Trowbridge-Reitz distribution have their published value. Perfect mirrors reflect to the opposite direction, perfect glass refracts by Snell's law with total reflection exactly beyond the critical angle, reflected and transmitted parts are Fresnel's, add up to one and are the same walked back.",
  ["inputs", "configurations"], "all directions, roughnesses, indexes of refraction and random numbers",
  "Tests compare single values against constants recorded from the implementation.",
  ["src/materials/microfacet.cpp", "src/materials/microfacet_distributions.cpp", "src/materials/fresnel_conditions.cpp", "src/materials/reflection.cpp", "src/materials/refraction.cpp", "src/materials/lambertian.cpp", "src/materials/oren_nayar.cpp", "src/materials/bdf.cpp"],
  [("lobe formulas in shading space", "src/materials")], None, ["Bdf::value", "Bdf::pdf", "Bdf::sample_value", "Fresnel::eval"])
p("C32", "Samples of the scattering models are drawn with the density they report",
  "For every lobe, first direction and roughness, the directions a lobe draws from evenly spread random numbers fall into every region of directions as often as the density of its model says: the cosine for diffuse lobes, the distribution of facets (Blinn, Beckmann, Trowbridge-Reitz with one or two roughnesses) turned into directions by reflection or refraction, none being lost but those the surface hides; and the density reported for any direction is that same density.",
  ["inputs", "configurations"], "all lobes, roughnesses, first directions and random numbers",
  "Tests compare the values of single draws.",
  ["src/materials/microfacet.cpp", "src/materials/microfacet_distributions.cpp", "src/materials/lambertian.cpp", "src/materials/oren_nayar.cpp", "src/materials/bdf.cpp"],
  [("importance sampling formulas", "src/materials")], None, ["Bdf::sample_value", "Bdf::pdf"])
p("C33", "Colours, spectra, black bodies and indexes of refraction keep their physics",
  "For every sRGB colour, given as bytes, as numbers or as a pixel: its XYZ value is that of the sRGB standard (D65), converting back gives the same colour, and a spectrum made of it (of a surface or a light) is seen as the same colour: exactly in the default build, and in the build that samples wavelengths with a valid spectrum between 0 and 1, within a tenth of the range for greys and 0.08 on average (0.3 for the most saturated). Any history of spectrum and colour operations (sum, difference, product, quotient, with a spectrum or a number, in place or not, also with itself) computes every component; is_black holds only when all are zero, is_valid only when all are finite, luminance is the Y of the XYZ value, and that is linear. A black body of a temperature follows Planck's law at the sampled wavelengths, scaled to a maximum of one, and is seen alike in both builds through the CIE 1931 observer; temperature zero is black. Cauchy's and Sellmeier's equations give the index at every wavelength, or its mean in the default build. Greys stay greys in Adobe RGB.",
  ["inputs", "configurations", "histories"], "all colours, temperatures and equation parameters, all sequences of operations, both builds",
  "Tests convert a few colours and temperatures and only build without sampled wavelengths.",
  ["src/utility/spectrum.cpp", "src/utility/spectrum.hpp", "src/utility/color.cpp", "src/utility/color.hpp", "src/materials/refraction.cpp", "src/utility/imageio/imageio.h"],
  [("conversions, tables and operators", "src/utility/spectrum.cpp"), ("sRGB and XYZ", "src/utility/color.cpp"), ("Cauchy and Sellmeier", "src/materials/refraction.cpp")], None, ["Spectrum public API", "ColorRGB", "ColorXYZ", "cauchy", "sellmeier"])
