// C12, C13, C14: image files read and written by the real code.
#include "vt.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <png.h>
#include <tiffio.h>
#include <jpeglib.h>
#include "textures/texture_image.hpp"
#include "textures/texture_library.hpp"
static std::string fresh(const std::string& ext)
{
    static int n = 0;
    return "f"+std::to_string(getpid())+"_"+std::to_string(n++)+"."+ext;
}
static void pixels(std::ostringstream& os, const uint32_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string s; s.reserve(n*8+1);
    for(size_t i = 0; i<n; i++)
        for(int k = 28; k>=0; k -= 4) s.push_back(d[(p[i] >> k) & 15]);
    os << (s.empty()?"-":s) << " ";
}
// asks the size of a file and reads it in a buffer of exactly that size
static void look(std::ostringstream& os, const char* f, const char* ext)
{
    int w = -7, h = -7;
    int ok = img_dimensions(f, ext, &w, &h) != 0;
    os << (img_valid(f, ext) != 0) << " " << ok << " ";
    if(!ok) { os << "0 0 0 - "; return; }
    os << w << " " << h << " ";
    bool raw = !strcmp(ext, "bmp") || !strcmp(ext, "tga") || !strcmp(ext, "ppm");
    if(w<=0 || h<=0) { os << "-1 - "; return; }
    double size = 4.0*w*h;
    if(size>(raw?3.4e10:2.6e8)) { os << "-2 - "; return; }
    size_t n = (size_t)w*h;
    bool big = size>6.7e7;
    void* m = big?mmap(NULL, n*4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)
                 :malloc(n*4);
    if(m == MAP_FAILED || !m) { os << "-2 - "; return; }
    if(!big) memset(m, 0xA5, n*4);
    int r = img_read8(f, ext, (uint32_t*)m) != 0;
    os << r << " ";
    if(r && n<=400000) pixels(os, (uint32_t*)m, n); else os << "- ";
    if(big) munmap(m, n*4); else free(m);
}
// what libraries of their own say of a written file
static void png_other(std::ostringstream& os, const char* f)
{
    png_image im; memset(&im, 0, sizeof im); im.version = PNG_IMAGE_VERSION;
    if(!png_image_begin_read_from_file(&im, f)) { os << "bad "; return; }
    im.format = PNG_FORMAT_RGBA;
    std::vector<uint8_t> b(PNG_IMAGE_SIZE(im));
    if(!png_image_finish_read(&im, NULL, b.data(), 0, NULL)) { os << "bad "; return; }
    std::vector<uint32_t> p((size_t)im.width*im.height);
    for(size_t i = 0; i<p.size(); i++)
        p[i] = (uint32_t)b[i*4+2] << 24 | b[i*4+1] << 16 | b[i*4] << 8 | b[i*4+3];
    os << im.width << " " << im.height << " "; pixels(os, p.data(), p.size());
}
static void tif_other(std::ostringstream& os, const char* f)
{
    TIFFSetWarningHandler(NULL); TIFFSetErrorHandler(NULL);
    TIFF* t = TIFFOpen(f, "r");
    if(!t) { os << "bad "; return; }
    uint32_t w = 0, h = 0;
    TIFFGetField(t, TIFFTAG_IMAGEWIDTH, &w); TIFFGetField(t, TIFFTAG_IMAGELENGTH, &h);
    std::vector<uint32_t> a((size_t)w*h+1), p((size_t)w*h);
    if(!TIFFReadRGBAImageOriented(t, w, h, a.data(), ORIENTATION_TOPLEFT, 1)) { os << "bad "; TIFFClose(t); return; }
    TIFFClose(t);
    for(size_t i = 0; i<p.size(); i++)
        p[i] = (uint32_t)TIFFGetB(a[i]) << 24 | TIFFGetG(a[i]) << 16 | TIFFGetR(a[i]) << 8 | TIFFGetA(a[i]);
    os << w << " " << h << " "; pixels(os, p.data(), p.size());
}
static void jpg_other(std::ostringstream& os, const char* f)
{
    FILE* in = fopen(f, "rb");
    if(!in) { os << "bad "; return; }
    struct jpeg_decompress_struct c; struct jpeg_error_mgr e; memset(&c, 0, sizeof c);
    c.err = jpeg_std_error(&e);
    jpeg_create_decompress(&c); jpeg_stdio_src(&c, in); jpeg_read_header(&c, TRUE);
    c.out_color_space = JCS_RGB;
    jpeg_start_decompress(&c);
    std::vector<uint32_t> p((size_t)c.output_width*c.output_height);
    std::vector<uint8_t> row(c.output_width*3u);
    JSAMPROW r = row.data();
    while(c.output_scanline<c.output_height)
    {
        size_t y = c.output_scanline;
        jpeg_read_scanlines(&c, &r, 1);
        for(size_t x = 0; x<c.output_width; x++)
            p[y*c.output_width+x] = (uint32_t)row[x*3+2] << 24 | row[x*3+1] << 16 | row[x*3] << 8 | 0xFF;
    }
    os << c.output_width << " " << c.output_height << " "; pixels(os, p.data(), p.size());
    long warn = c.err->num_warnings;
    jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c); fclose(in);
    if(warn) os << "warnings ";
}
// a grayscale, colour or progressive picture written by libjpeg
static std::string jpg_make(int w, int h, int comps, int prog, unsigned seed)
{
    unsigned char* buf = NULL; unsigned long len = 0;
    struct jpeg_compress_struct c; struct jpeg_error_mgr e; memset(&c, 0, sizeof c);
    c.err = jpeg_std_error(&e);
    jpeg_create_compress(&c); jpeg_mem_dest(&c, &buf, &len);
    c.image_width = w; c.image_height = h; c.input_components = comps;
    c.in_color_space = comps == 1?JCS_GRAYSCALE:JCS_RGB;
    jpeg_set_defaults(&c); jpeg_set_quality(&c, 95, 1);
    if(prog) jpeg_simple_progression(&c);
    jpeg_start_compress(&c, 1);
    std::vector<uint8_t> row((size_t)w*comps);
    JSAMPROW r = row.data();
    while(c.next_scanline<c.image_height)
    {
        for(uint8_t& x : row) { seed = seed*1664525u+1013904223u; x = (uint8_t)(seed >> 24); }
        jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c);
    std::string s((char*)buf, len); free(buf);
    return s;
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string op, ext, hx;
    is >> op >> ext;
    if(op == "read")
    {
        is >> hx;
        std::string f = fresh(ext);
        vt::spit(f, vt::unhex(hx));
        look(os, f.c_str(), ext.c_str());
        unlink(f.c_str());
    }
    else if(op == "make") // jpg w h comps prog seed
    {
        int w, h, c, p; unsigned s; is >> w >> h >> c >> p >> s;
        os << vt::hex(jpg_make(w, h, c, p, s));
    }
    else if(op == "jpg") // ok jpg: against the library
    {
        is >> hx;
        std::string f = fresh("jpg");
        vt::spit(f, vt::unhex(hx));
        look(os, f.c_str(), "jpg"); os << "| "; jpg_other(os, f.c_str());
        unlink(f.c_str());
    }
    else if(op == "write")
    {
        size_t w, h; is >> w >> h >> hx;
        size_t n = w*h;
        uint32_t* p = (uint32_t*)malloc(n*4);
        if(hx[0] == '*') // made here: noise from a seed
        {
            unsigned s = (unsigned)atoi(hx.c_str()+1);
            for(size_t i = 0; i<n; i++) { s = s*1664525u+1013904223u; p[i] = s ^ (s >> 13); }
        }
        else for(size_t i = 0; i<n; i++) p[i] = (uint32_t)strtoul(hx.substr(i*8, 8).c_str(), NULL, 16);
        std::vector<uint32_t> copy(p, p+n);
        std::string f = fresh(ext);
        int prev; is >> prev;
        if(prev) vt::spit(f, std::string((size_t)prev, 'x'));
        int r = img_write(f.c_str(), ext.c_str(), (int)w, (int)h, p) != 0;
        os << r << " " << (memcmp(copy.data(), p, n*4) == 0) << " ";
        free(p);
        if(hx[0] == '*')
        {   // judged here: the same colours when read back
            int ww = 0, hh = 0;
            int d = img_dimensions(f.c_str(), ext.c_str(), &ww, &hh) != 0;
            os << d << " " << ww << " " << hh << " ";
            size_t bad = 0;
            if(d && (size_t)ww == w && (size_t)hh == h)
            {
                std::vector<uint32_t> q(n, 0xA5A5A5A5u);
                os << (img_read8(f.c_str(), ext.c_str(), q.data()) != 0) << " ";
                for(size_t i = 0; i<n; i++) if(q[i] != (copy[i] | 0xFFu)) bad++;
            }
            else os << "0 ";
            os << bad << " ";
        }
        else
        {
            os << vt::hex(vt::slurp(f)) << " ";
            look(os, f.c_str(), ext.c_str());
            os << "| ";
            if(r && ext == "png") png_other(os, f.c_str());
            else if(r && (ext == "tif" || ext == "tiff")) tif_other(os, f.c_str());
            else if(r && (ext == "jpg" || ext == "jpeg")) jpg_other(os, f.c_str());
            else os << "- ";
        }
        unlink(f.c_str());
    }
    else if(op == "limit") // the device is full after a part of the file
    {
        size_t w, h; int at; is >> w >> h >> hx >> at;
        std::vector<uint32_t> p(w*h);
        for(size_t i = 0; i<w*h; i++) p[i] = (uint32_t)strtoul(hx.substr(i*8, 8).c_str(), NULL, 16);
        std::string f = fresh(ext);
        int whole = img_write(f.c_str(), ext.c_str(), (int)w, (int)h, p.data()) != 0;
        size_t size = vt::slurp(f).size();
        unlink(f.c_str());
        struct rlimit old, now; getrlimit(RLIMIT_FSIZE, &old);
        now = old; now.rlim_cur = size*at/1000;
        signal(SIGXFSZ, SIG_IGN);
        f = fresh(ext);
        setrlimit(RLIMIT_FSIZE, &now);
        int part = img_write(f.c_str(), ext.c_str(), (int)w, (int)h, p.data()) != 0;
        setrlimit(RLIMIT_FSIZE, &old);
        os << whole << " " << part << " " << size << " " << vt::slurp(f).size();
        unlink(f.c_str());
    }
    else if(op == "full") // the disk is full
    {
        size_t w, h; is >> w >> h;
        std::vector<uint32_t> p(w*h);
        unsigned s = 7;
        for(uint32_t& x : p) { s = s*1664525u+1013904223u; x = s ^ (s >> 13); }
        os << (img_write("/dev/full", ext.c_str(), (int)w, (int)h, p.data()) != 0) << " ";
        os << (img_write("missing/f", ext.c_str(), (int)w, (int)h, p.data()) != 0) << " ";
    }
    else if(op == "conv") // BGRAtoRGB and back
    {
        size_t n; is >> n;
        uint32_t* p = (uint32_t*)malloc(n*4); uint8_t* b = (uint8_t*)malloc(n*3); uint32_t* q = (uint32_t*)malloc(n*4);
        unsigned s = (unsigned)n;
        for(size_t i = 0; i<n; i++) { s = s*1664525u+1013904223u; p[i] = s ^ (s >> 13); }
        BGRAtoRGB(b, p, n); RGBtoBGRA(q, b, n*3);
        size_t bad = 0;
        for(size_t i = 0; i<n; i++)
            if(b[i*3] != ((p[i] >> 8) & 255) || b[i*3+1] != ((p[i] >> 16) & 255) || b[i*3+2] != (p[i] >> 24) ||
               q[i] != (p[i] | 0xFFu)) bad++;
        os << bad;
        free(p); free(b); free(q);
    }
    else if(op == "ext")
    {
        is >> hx;
        std::string e = hx == "-"?"":hx;
        std::string f = fresh(ext);
        int w = 0, h = 0; uint32_t d[4] = {0};
        os << (img_supported(e.c_str()) != 0) << " ";
        os << (img_valid(f.c_str(), e.c_str()) != 0) << (img_dimensions(f.c_str(), e.c_str(), &w, &h) != 0)
           << (img_read8(f.c_str(), e.c_str(), d) != 0) << " ";
        uint32_t px[4] = {0x11223344u, 0x55667788u, 0x99AABBCCu, 0xDDEEFF00u};
        os << (img_write(f.c_str(), e.c_str(), 2, 2, px) != 0) << " " << (access(f.c_str(), F_OK) == 0);
        unlink(f.c_str());
    }
    else if(op == "tex") // as a texture: name with an extension of any case
    {
        int filt; is >> filt >> hx;
        std::string f = fresh(ext);
        vt::spit(f, vt::unhex(hx));
        File src(f.c_str());
        Vec2 shift(0, 0), scale(1, 1);
        int side; is >> side;
        int same = 0;
        vt::capture([&]() {
            TextureFilter_t fl = filt == 0?UNFILTERED:filt == 1?TRILINEAR:EWA;
            TextureImage t(src, shift, scale, fl);
            TextureImage again(src, shift, scale, fl);
            TextureImage dflt(TexLib.get_dflt_map(), shift, scale, filt == 0);
            os << (TexLib.contains_map(src.absolute_path()) != 0) << " ";
            std::vector<uint32_t> a, b, c;
            for(int y = 0; y<side; y++)
                for(int x = 0; x<side; x++)
                {
                    HitPoint h; h.differentials = false;
                    h.uv = Point2((x+.5f)/side, (y+.5f)/side);
                    a.push_back(t.map_value(&h).bgra_value);
                    b.push_back(dflt.map_value(&h).bgra_value);
                    c.push_back(again.map_value(&h).bgra_value);
                }
            same = a == c;
            pixels(os, a.data(), a.size()); pixels(os, b.data(), b.size());
        });
        os << same;
        unlink(f.c_str());
    }
}
int main(int c, char** v) { return vt::run(c, v, one); }
