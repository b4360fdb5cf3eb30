// C21: lookups in textures of all kinds.
#include "vt.hpp"
#include <memory>
#include "textures/texture_image.hpp"
#include "textures/image_map.hpp"
static int pic(int seed, int x, int y, int ch) { return (x*(ch*2+35)+y*91+x*y*7+seed*ch)%256; }
static std::vector<TexelUnion> base(int side, int seed)
{
    std::vector<TexelUnion> p((size_t)side*side);
    for(int y = 0; y<side; y++)
        for(int x = 0; x<side; x++)
        {
            TexelUnion& t = p[(size_t)y*side+x];
            t.bgra_texel.r = (uint8_t)pic(seed, x, y, 1); t.bgra_texel.g = (uint8_t)pic(seed, x, y, 2);
            t.bgra_texel.b = (uint8_t)pic(seed, x, y, 3); t.bgra_texel.a = (uint8_t)pic(seed, x, y, 4);
        }
    return p;
}
static void show(std::ostringstream& os, const Texel& t)
{
    os << (int)t.r << "," << (int)t.g << "," << (int)t.b << "," << (int)t.a << " ";
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    int side, seed, n;
    is >> side >> seed >> n;
    std::vector<TexelUnion> p = base(side, seed);
    const pixBGRA* px = (const pixBGRA*)p.data();
    std::unique_ptr<ImageMap> un(new ImageMapUnfiltered(px, (uint16_t)side)),
        tr(new ImageMapTrilinear(px, (uint16_t)side)), ew(new ImageMapEWA(px, (uint16_t)side));
    for(int i = 0; i<n; i++)
    {
        std::string kind, s;
        float u, v, sx, sy, hx, hy; int diff; float d[4];
        auto f = [&](float& x) { is >> s; x = strtof(s.c_str(), NULL); };
        is >> kind; f(u); f(v); f(sx); f(sy); f(hx); f(hy);
        is >> diff; for(float& x : d) f(x);
        Vec2 shift(hx, hy), scale(sx, sy);
        const ImageMap* m = kind == "n"?un.get():kind == "t"?tr.get():ew.get();
        TextureImage t(m, shift, scale, kind == "n");
        HitPoint h;
        h.uv = Point2(u, v); h.differentials = diff != 0;
        h.du = Vec2(d[0], d[1]); h.dv = Vec2(d[2], d[3]);
        TexelUnion r = t.map_value(&h);
        show(os, r.bgra_texel);
        Spectrum a = t.map(&h), b(r.bgra_value, false);
        for(size_t k = 0; k<sizeof(a.w)/sizeof(a.w[0]); k++) if(a.w[k] != b.w[k]) os << "spectrum";
    }
}
int main(int c, char** v) { return vt::run(c, v, one); }
