// C18, C20: masked surfaces, visibility queries, light samples, dual materials
#include "vt.hpp"
#include <memory>
#include <cmath>
#include "nlohmann/json.hpp"
#include "utility/scene.hpp"
#include "utility/occlusion_tester.hpp"
#include "primitives/sphere.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "textures/mask_boolean.hpp"
#include "materials/dual.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
using nlohmann::json;
// whatever the stack held before must not matter
static void __attribute__((noinline)) poison(int c)
{
    volatile char b[12000];
    for(size_t i = 0; i<sizeof(b); i++) b[i] = (char)c;
}
static std::vector<std::unique_ptr<ImageMap>> maps;
static std::vector<std::unique_ptr<TextureImage>> texs;
static const ImageChannel CH[4] = {RED, GREEN, BLUE, ALPHA};
static MaskBoolean mask_of(const json& a)
{
    if(a["tex"].empty()) return MaskBoolean();
    int m = a["m"], flt = a.value("flt", 1);
    // filtered masks: every texel a block of 16 pixels
    int up = flt == 1?1:16, S = m*up;
    std::vector<TexelUnion> p((size_t)S*S);
    for(int y = 0; y<S; y++)
        for(int x = 0; x<S; x++)
        {
            const json& t = a["tex"][x/up][y/up];
            Texel& o = p[(size_t)y*S+x].bgra_texel;
            o.r = (uint8_t)(int)t[0]; o.g = (uint8_t)(int)t[1];
            o.b = (uint8_t)(int)t[2]; o.a = (uint8_t)(int)t[3];
        }
    const pixBGRA* px = (const pixBGRA*)p.data();
    ImageMap* im = flt == 1?(ImageMap*)new ImageMapUnfiltered(px, (uint16_t)S):
                   flt == 2?(ImageMap*)new ImageMapTrilinear(px, (uint16_t)S):
                            (ImageMap*)new ImageMapEWA(px, (uint16_t)S);
    maps.emplace_back(im);
    Vec2 shift(0.f, 0.f), scale(1.f, 1.f);
    texs.emplace_back(new TextureImage(im, shift, scale, flt == 1));
    return MaskBoolean(texs.back().get(), CH[(int)a["ch"]-1], a["inv"]);
}
static void vert(Vertex& v, float x, float y, float z, float u, float w, int f)
{
    v.p = Point3(x, y, z); v.n = Normal(0, 0, 1);
    v.t = Point2(f%2?1-u:u, f/2?1-w:w);
}
static Mesh* sheet(float x, float y, float z, float s, int f)
{
    Mesh* m = new Mesh(2);
    Vertex a, b, c, d;
    vert(a, x, y, z, 0, 0, f); vert(b, x+s, y, z, 1, 0, f);
    vert(c, x+s, y+s, z, 1, 1, f); vert(d, x, y+s, z, 0, 1, f);
    m->add_triangle(&a, &b, &c); m->add_triangle(&a, &c, &d);
    m->finalize();
    return m;
}
static Matrix4 world(const json& w)
{
    Matrix4 m, x; m.set_identity();
    x.set_translation(Vec3((float)w["t"][0], (float)w["t"][1], (float)w["t"][2])); m *= x;
    x.set_rotate_x((float)w["rx"]); m *= x;
    x.set_rotate_y((float)w["ry"]); m *= x;
    if(w.count("n")) x.set_scale(Vec3((float)w["n"][0], (float)w["n"][1], (float)w["n"][2]));
    else x.set_scale((float)w["s"]);
    m *= x;
    return m;
}
static Asset* make(const json& a, const Matrix4& M, Scene& sc, bool light)
{
    Shape* sh; Matrix4 m = M, x;
    std::string k = a["k"];
    float px = a["x"], py = a["y"], pz = a["z"], w = a["w"], n = (float)(int)a["m"];
    if(k == "sheet") sh = sheet(px, py, pz, w*n, a["f"]);
    else
    {
        x.set_translation(Vec3(px, py, pz)); m *= x;
        if(k == "sphere") { sh = new Sphere; x.set_scale(w); }
        else { sh = new Box; x.set_scale(Vec3(w*n, w*n, (float)a["h"])); }
        m *= x;
    }
    sc.inherit_shape(sh);
    if(light)
    {
        AreaLight* l = new AreaLight(sh, m, SPECTRUM_ONE);
        l->set_mask(mask_of(a));
        sc.inherit_light(l);
        return l;
    }
    Asset* r = new Asset(sh, m, 1);
    r->set_mask(mask_of(a));
    sc.inherit_asset(r);
    return r;
}
static void history(const json& j, std::ostringstream& os)
{
    Matrix4 M = world(j["w"]);
    float s = j["w"]["s"];
    {
        Scene sc;
        std::map<const Asset*, int> id;
        int n = 0;
        for(auto& a : j["scene"]) id[make(a, M, sc, a["lt"])] = ++n;
        sc.k.buildTree();
        std::unique_ptr<OcclusionTester> ot(new OcclusionTester(&sc));
        int q = 0;
        for(auto& r : j["hist"])
        {
            Vec3 d = M*Vec3(0, 0, (float)r["dir"]); d.normalize();
            Ray ray(M*Point3((float)r["x"], (float)r["y"], (float)r["z"]/1000.f), d);
            std::string o = r["o"];
            ++q;
            if(o == "i")
            {
                HitPoint h; h.differentials = false;
                h.uv = Point2(0.3f, 0.3f); h.asset_h = NULL;
                poison(q%3 == 0?0:q%3 == 1?0x41:0x3e);
                if(sc.k.intersect(&ray, &h))
                {
                    char b[64];
                    float t = ray.origin.distance(h.point_h);
                    snprintf(b, sizeof(b), "%d,%.7g ", id.count(h.asset_h)?id[h.asset_h]:-1, t/s);
                    os << b;
                }
                else os << "- ";
            }
            else
            {
                ray.ricochet = (unsigned char)(int)r["slot"];
                poison(q%3 == 0?0:q%3 == 1?0x41:0x3e);
                os << (ot->is_occluded(&ray, (float)r["d"]*s)?"1 ":"0 ");
            }
        }
    }
    texs.clear(); maps.clear();
}
// samples of a light seen from a point, with walls in between
static void light(const json& j, std::ostringstream& os)
{
    Matrix4 M = world(j["w"]), N;
    M.inverse(&N);
    float s = j["w"]["s"];
    {
        Scene sc;
        AreaLight* l = (AreaLight*)make(j["light"], M, sc, true);
        for(auto& z : j["walls"])
        {
            Mesh* m = sheet(-4000, -4004.5f, (float)z/4.f, 8000, 0);
            sc.inherit_shape(m);
            sc.inherit_asset(new Asset(m, M, 1));
        }
        sc.k.buildTree();
        std::unique_ptr<OcclusionTester> ot(new OcclusionTester(&sc));
        for(auto& h : j["hist"])
        {
            Point3 p = M*Point3((float)h["p"][0]/4.f, (float)h["p"][1]/4.f, (float)h["p"][2]/4.f);
            for(auto& r : h["r"])
            {
                Vec3 wi; float pdf = -1, dist = -1;
                Spectrum c = l->sample_visible_surface((float)r[0], (float)r[1], &p, &wi, &pdf, &dist);
                if(c.is_black()) { os << (pdf == 0?"0 ":"b "); continue; }
                Ray ray(p, wi);
                ray.ricochet = (unsigned char)(int)h["slot"];
                poison(0x41);
                bool occ = ot->is_occluded(&ray, dist);
                Point3 q = N*ray.apply(dist);       // back in light coordinates
                float other = l->pdf(&p, &wi);
                bool same = !memcmp(c.w, SPECTRUM_ONE.w, sizeof(c.w));
                char b[200];
                snprintf(b, sizeof(b), "%d,%.7g,%.7g,%.7g,%.7g,%.7g,%.7g,%d ", occ, q.x, q.y, q.z,
                         wi.length(), pdf, other, same);
                os << b;
            }
            os << "| ";
        }
        // rays leaving the light
        for(auto& r : j["out"])
        {
            Ray ray; float pdf = -1;
            Spectrum c = l->sample_surface((float)r[0], (float)r[1], (float)r[2], (float)r[3], &ray, &pdf);
            Point3 q = N*ray.origin; Vec3 d = N*ray.direction; d.normalize();
            float other = l->pdf(&ray);
            bool same = !memcmp(c.w, SPECTRUM_ONE.w, sizeof(c.w));
            char b[200];
            snprintf(b, sizeof(b), "%.7g,%.7g,%.7g,%.7g,%.7g,%.7g,%.7g,%.7g,%d ", q.x, q.y, q.z, d.x, d.y, d.z,
                     pdf, other, same);
            os << b;
        }
    }
    texs.clear(); maps.clear();
}
// which of the two materials answers
struct Spy : public Bsdf
{
    int n; mutable int calls;
    Spy(int n) : n(n), calls(0) {}
    Spectrum value(const Vec3*, const HitPoint*, const Vec3*, const ShadingSpace*, bool) const override
    { calls++; return Spectrum(ColorRGB(n*0.25f, n*0.25f, n*0.25f), false); }
    Spectrum sample_value(float, float, float, const Vec3*, const HitPoint*, const ShadingSpace*,
                          Vec3* wi, float* pdf, bool, bool* spec) const override
    { calls++; *wi = Vec3(0, 0, (float)n); *pdf = (float)n; *spec = n == 2;
      return Spectrum(ColorRGB(n*0.25f, n*0.25f, n*0.25f), false); }
    float pdf(const Vec3*, const HitPoint*, const ShadingSpace*, const Vec3*, bool) const override
    { calls++; return (float)n; }
    void gen_shading_matrix(const HitPoint*, ShadingSpace*, Normal* nn) const override
    { calls++; *nn = Normal((float)n, 0, 0); }
};
static void dual(const json& j, std::ostringstream& os)
{
    {
        MaskBoolean mk = mask_of(j["a"]);
        Spy one(1), two(2);
        DualBsdf d(&one, &two, mk);
        Vec3 wo(0, 0, 1), wi(0, 0, 1);
        ShadingSpace sh; 
        for(auto& t : j["t"])
        {
            HitPoint h; h.differentials = false;
            h.uv = Point2(((int)t[0]+0.4f)/(int)j["a"]["m"], ((int)t[1]+0.6f)/(int)j["a"]["m"]);
            one.calls = two.calls = 0;
            float pdf; bool sp; Normal n;
            Spectrum v = d.value(&wo, &h, &wi, &sh, true);
            int w = v.w[0] == one.value(0, 0, 0, 0, 0).w[0]?1:2;
            Spectrum x = d.sample_value(0.1f, 0.2f, 0.3f, &wo, &h, &sh, &wi, &pdf, true, &sp);
            float p = d.pdf(&wo, &h, &sh, &wi, true);
            d.gen_shading_matrix(&h, &sh, &n);
            bool ok = x.w[0] == v.w[0] && pdf == (float)w && wi.z == (float)w && p == (float)w
                      && n.x == (float)w && sp == (w == 2) && mk.is_visible(&h) == (w == 1)
                      && mk.is_masked(&h) == (w == 2) && (w == 1?two:one).calls == (w == 1?0:1);
            os << w << (ok?" ":"! ");
        }
    }
    texs.clear(); maps.clear();
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string k, rest; is >> k; std::getline(is, rest);
    json j = json::parse(rest);
    if(k == "H") history(j, os);
    else if(k == "L") light(j, os);
    else dual(j, os);
}
int main(int c, char** v) { return vt::run(c, v, one); }
