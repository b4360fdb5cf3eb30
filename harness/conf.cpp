// Scene files (C08, C09, C10, C30): what the parser hands to the renderer, to
// the scene and to the libraries, against what the specification says.
#include "vt.hpp"
#include <cmath>
#include <map>
#include <memory>
#include <random>
#include <set>
#include "nlohmann/json.hpp"
#include "parsers/config_driver.hpp"
#include "renderer.hpp"
#include "textures/texture_uniform.hpp"
#include "utility/utility.hpp"
using nlohmann::json;

// ---- what reaches the renderer ---------------------------------------------
struct Seen
{
    int made, width, height, spp, sampler;
    std::string out;
    Camera* camera;
    Filter* filter;
    LightIntegrator* integrator;
};
static Seen seen;
extern "C" {
void __real__ZN8RendererC1EiiiPKci(Renderer*, int, int, int, const char*, int);
void __wrap__ZN8RendererC1EiiiPKci(Renderer* r, int w, int h, int s,
                                   const char* o, int t)
{
    seen.made++; seen.width = w; seen.height = h; seen.spp = s; seen.out = o;
    __real__ZN8RendererC1EiiiPKci(r, w, h, s, o, t);
}
void __real__ZN8Renderer14inherit_cameraEP6Camera(Renderer*, Camera*);
void __wrap__ZN8Renderer14inherit_cameraEP6Camera(Renderer* r, Camera* c)
{
    seen.camera = c;
    __real__ZN8Renderer14inherit_cameraEP6Camera(r, c);
}
void __real__ZN8Renderer14inherit_filterEP6Filter(Renderer*, Filter*);
void __wrap__ZN8Renderer14inherit_filterEP6Filter(Renderer* r, Filter* f)
{
    seen.filter = f;
    __real__ZN8Renderer14inherit_filterEP6Filter(r, f);
}
void __real__ZN8Renderer11set_samplerEi(Renderer*, int);
void __wrap__ZN8Renderer11set_samplerEi(Renderer* r, int s)
{
    seen.sampler = s;
    __real__ZN8Renderer11set_samplerEi(r, s);
}
void __real__ZN8Renderer18inherit_integratorEP15LightIntegrator(
        Renderer*, LightIntegrator*);
void __wrap__ZN8Renderer18inherit_integratorEP15LightIntegrator(
        Renderer* r, LightIntegrator* l)
{
    seen.integrator = l;
    __real__ZN8Renderer18inherit_integratorEP15LightIntegrator(r, l);
}
}

// ---- comparisons -----------------------------------------------------------
static float k1(const json& j) { return (float)((double)j/1000.0); }
static Vec3 k3(const json& j) { return Vec3(k1(j[0]), k1(j[1]), k1(j[2])); }
static float rad(float d) { return (float)(d*M_PI/180.0); }
static bool near(float a, float b, float rel = 2e-3f, float abs = 2e-5f)
{
    if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if(std::isinf(a) || std::isinf(b)) return a == b;
    return fabsf(a-b)<=abs+rel*std::max(fabsf(a), fabsf(b));
}
static bool near(const Vec3& a, const Vec3& b, float r = 2e-3f, float s = 2e-5f)
{ return near(a.x, b.x, r, s) && near(a.y, b.y, r, s) && near(a.z, b.z, r, s); }
static bool near(const Spectrum& a, const Spectrum& b)
{
    for(size_t i = 0; i<sizeof(a.w)/sizeof(a.w[0]); i++)
        if(!near(a.w[i], b.w[i])) return false;
    return true;
}
static std::mt19937 rng;
static float rnd(float a, float b)
{ return a+(b-a)*(float)(rng()%1000003)/1000003.f; }

// ---- references ------------------------------------------------------------
static std::string root;
static int tex_filter;
static std::map<std::string, std::unique_ptr<ImageMap>> maps;
static std::vector<std::unique_ptr<TextureImage>> texs;
static std::vector<std::unique_ptr<TextureUniform>> unis;
static std::string path_of(const json& comps)
{
    std::string r = root;
    for(auto& c : comps) r += "/"+c.get<std::string>();
    return r;
}
static const TextureImage* texture(const json& t)
{
    if(t["file"].empty()) return TexLib.get_dflt_teximage();
    std::string p = path_of(t["file"]);
    if(maps.find(p) == maps.end())
    {
        int w = 0, h = 0;
        if(!img_dimensions(p.c_str(), "bmp", &w, &h) || w != h) _exit(120);
        std::vector<uint32_t> px((size_t)w*h);
        if(!img_read8(p.c_str(), "bmp", px.data())) _exit(120);
        ImageMap* m;
        if(tex_filter == UNFILTERED) m = new ImageMapUnfiltered(px.data(), w);
        else if(tex_filter == TRILINEAR) m = new ImageMapTrilinear(px.data(), w);
        else m = new ImageMapEWA(px.data(), w);
        maps[p].reset(m);
    }
    Vec2 shift(k1(t["shift"][0]), k1(t["shift"][1]));
    Vec2 scale(k1(t["scale"][0]), k1(t["scale"][1]));
    texs.emplace_back(new TextureImage(maps[p].get(), shift, scale,
                                       tex_filter == UNFILTERED));
    return texs.back().get();
}
static ColorRGB rgb(const json& c)
{
    return ColorRGB((unsigned char)(int)c[0], (unsigned char)(int)c[1],
                    (unsigned char)(int)c[2]);
}
static const Texture* colour(const json& c)
{
    if(!c["rgb"].get<bool>()) return texture(c["tex"]);
    unis.emplace_back(new TextureUniform(Spectrum(rgb(c["c"]), false)));
    return unis.back().get();
}
static MaskBoolean mask(const json& m)
{
    if(!m["on"].get<bool>()) return MaskBoolean();
    std::string c = m["chn"];
    return MaskBoolean(texture(m["tex"]),
                       c == "R"?RED:c == "G"?GREEN:c == "B"?BLUE:ALPHA,
                       m["inv"].get<bool>());
}
static const Metal& metal(const std::string& n)
{
    static const std::map<std::string, metal_t> m = {
        {"Ag", METAL_SILVER}, {"Al", METAL_ALUMINIUM}, {"Au", METAL_GOLD},
        {"Cu", METAL_COPPER}, {"Fe", METAL_IRON}, {"Hg", METAL_MERCURY},
        {"Pb", METAL_LEAD}, {"Pt", METAL_PLATINUM}, {"W", METAL_TUNGSTEN},
        {"Be", METAL_BERYLLIUM}, {"Bi", METAL_BISMUTH}, {"Co", METAL_COBALT},
        {"Cr", METAL_CHROMIUM}, {"Ge", METAL_GERMANIUM},
        {"K", METAL_POTASSIUM}, {"Li", METAL_LITHIUM},
        {"Mg", METAL_MAGNESIUM}, {"Mn", METAL_MANGANESE},
        {"Mo", METAL_MOLYBDENUM}, {"Na", METAL_SODIUM},
        {"Nb", METAL_NIOBIUM}, {"Ni", METAL_NICKEL}, {"Pd", METAL_PALLADIUM},
        {"Rh", METAL_RHODIUM}, {"Ta", METAL_TANTALUM},
        {"Ti", METAL_TITANIUM}, {"V", METAL_VANADIUM}, {"Zn", METAL_ZINC},
        {"Zr", METAL_ZIRCONIUM}};
    return METALS[m.at(n)];
}
static MicrofacetDist* facets(const json& s)
{
    float x = k1(s["rx"]), y = k1(s["ry"]);
    if(!s["iso"].get<bool>()) return new GGXaniso(x, y);
    std::string d = s["dist"];
    if(d == "blinn") return new Blinn(2.f/(x*x)-2);
    if(d == "beckmann") return new Beckmann(x);
    return new GGXiso(x);
}
static Spectrum index_of(const json& i)
{
    if(i.size() == 1) return cauchy(k1(i[0]), 0.f);
    if(i.size() == 2) return cauchy(k1(i[0]), k1(i[1]));
    if(i.size() == 3) return cauchy(k1(i[0]), k1(i[1]), k1(i[2]));
    return sellmeier(k1(i[0]), k1(i[1]), k1(i[2]),
                     k1(i[3]), k1(i[4]), k1(i[5]));
}
static Bsdf* material(const json& m)
{
    const json& s = m["surface"];
    std::string type = s["type"];
    const Texture* d = colour(m["diffuse"]);
    const Texture* p = colour(m["specular"]);
    float r = k1(s["rx"]);
    bool mirror = r == 0.f && s["iso"].get<bool>();
    Spectrum air = cauchy(1.f, 0.f);
    if(type == "matte")
        return r == 0.f?new SingleBRDF(new Lambertian(), d)
                       :new SingleBRDF(new OrenNayar(100.f*r), d);
    if(type == "metal")
    {
        Spectrum n = metal(s["element"]).n, k = metal(s["element"]).k;
        if(mirror) return new SingleBRDF(new ConductorReflection(n, k));
        return new SingleBRDF(new MicrofacetR(facets(s), new Conductor(n, k)));
    }
    MultiBSDF* b = new MultiBSDF();
    if(type == "glossy")
    {
        b->inherit_bdf(new Lambertian(), d);
        b->inherit_bdf(new MicrofacetR(facets(s), new Dielectric(
                air, cauchy(1.5f, 0.f))), p);
        return b;
    }
    Spectrum ior = index_of(s["ior"]);
    if(mirror)
    {
        b->inherit_bdf(new Refraction(air, ior), d);
        b->inherit_bdf(new DielectricReflection(air, ior), p);
    }
    else
    {
        b->inherit_bdf(new MicrofacetT(facets(s), air, ior), d);
        b->inherit_bdf(new MicrofacetR(facets(s), new Dielectric(air, ior)), p);
    }
    return b;
}
// the same answers everywhere
struct Answer { Spectrum s; Vec3 wi; float pdf; bool spec; };
static bool same(const Answer& a, const Answer& b)
{
    if(!near(a.pdf, b.pdf, 5e-3f)) return false;
    if(a.pdf == 0.f) return true;
    return near(a.s, b.s) && near(a.wi, b.wi, 1e-3f, 1e-3f) && a.spec == b.spec;
}
static HitPoint place()
{
    HitPoint h;
    h.point_h = Point3(0, 0, 0); h.normal_h = Normal(0, 0, 1);
    h.dpdu = Vec3(1, 0, 0); h.dpdv = Vec3(0, 1, 0);
    h.asset_h = NULL; h.index = 0;
    h.uv = Point2(rnd(-.5f, 1.5f), rnd(-.5f, 1.5f));
    h.differentials = rng()%3 != 0;
    h.du = Vec2(rnd(-.2f, .2f), rnd(-.2f, .2f));
    h.dv = Vec2(rnd(-.2f, .2f), rnd(-.2f, .2f));
    return h;
}
static Vec3 way()
{
    Vec3 d;
    do d = Vec3(rnd(-1, 1), rnd(-1, 1), rnd(-1, 1));
    while(d.length()<.2f || d.length()>1.f || fabsf(d.z)<.05f);
    d.normalize();
    return d;
}
static std::string compare(const Bsdf* got, const Bsdf* want, int tries)
{
    int wrong[3] = {0, 0, 0}, many = 0;
    for(int i = 0; i<tries; i++)
    {
        HitPoint h = place();
        Vec3 wo = way(), wi = way();
        if(i%4) { wo.z = fabsf(wo.z); }
        ShadingSpace a(&h), b(&h);
        Normal na, nb;
        got->gen_shading_matrix(&h, &a, &na);
        want->gen_shading_matrix(&h, &b, &nb);
        if(!near(na.x, nb.x) || !near(na.y, nb.y) || !near(na.z, nb.z))
            return "other shading normal";
        bool sp = i%2;
        many++;
        if(!near(got->value(&wo, &h, &wi, &a, sp),
                 want->value(&wo, &h, &wi, &b, sp))) wrong[0]++;
        if(!near(got->pdf(&wo, &h, &a, &wi, sp),
                 want->pdf(&wo, &h, &b, &wi, sp), 5e-3f)) wrong[1]++;
        // both lobes, in any order
        float r1 = rnd(.01f, .99f), r2 = rnd(.01f, .99f);
        Answer g[2], w[2];
        for(int k = 0; k<2; k++)
        {
            g[k] = {Spectrum(0.f), Vec3(0, 0, 1), 0.f, false}; w[k] = g[k];
            g[k].s = got->sample_value(.25f+.5f*k, r1, r2, &wo, &h, &a,
                                       &g[k].wi, &g[k].pdf, true, &g[k].spec);
            w[k].s = want->sample_value(.25f+.5f*k, r1, r2, &wo, &h, &b,
                                        &w[k].wi, &w[k].pdf, true, &w[k].spec);
        }
        if(!(same(g[0], w[0]) && same(g[1], w[1])) &&
           !(same(g[0], w[1]) && same(g[1], w[0]))) wrong[2]++;
    }
    const char* what[3] = {"values", "densities", "samples"};
    for(int i = 0; i<3; i++)
        if(wrong[i]>many/50)
            return std::to_string(wrong[i])+" of "+std::to_string(many)+
                   " "+what[i]+" differ";
    return "";
}

// ---- one scene -------------------------------------------------------------
static std::string ray_text(const Ray& r)
{
    char b[200];
    snprintf(b, sizeof(b), "(%g %g %g)->(%g %g %g)", r.origin.x, r.origin.y,
             r.origin.z, r.direction.x, r.direction.y, r.direction.z);
    return b;
}
static void settings(const json& s, std::ostringstream& os)
{
    if(seen.made != 1) { os << "bad renderers made: " << seen.made; return; }
    if(seen.width != (int)s["width"] || seen.height<(int)s["height"][0] ||
       seen.height>(int)s["height"][1])
    { os << "bad resolution " << seen.width << "x" << seen.height << "; "; }
    if(seen.spp != (int)s["spp"])
    { os << "bad samples per pixel " << seen.spp << "; "; }
    if(seen.out != s["out"].get<std::string>())
        os << "bad output " << seen.out << "; ";
    if(seen.sampler != (s["sampler"] == "random"?SPECTRE_SAMPLER_RANDOM
                                                :SPECTRE_SAMPLER_STRATIFIED))
        os << "bad sampler " << seen.sampler << "; ";
    if(dynamic_cast<PathTracer*>(seen.integrator) == NULL)
        os << "bad integrator; ";
    float a = k1(s["value0"]), b = k1(s["value1"]);
    std::string f = s["filter"];
    std::unique_ptr<Filter> wf;
    if(f == "box") wf.reset(new FilterBox());
    else if(f == "tent") wf.reset(new FilterTent());
    else if(f == "gaussian") wf.reset(new FilterGaussian(a));
    else if(f == "lanczos") wf.reset(new FilterLanczos(a));
    else wf.reset(new FilterMitchell(a, b));
    if(seen.filter == NULL) os << "bad no filter; ";
    else
    {
        bool ok = near(wf->range_x, seen.filter->range_x) &&
                  near(wf->range_y, seen.filter->range_y);
        for(int i = 0; i<40 && ok; i++)
        {
            float x = rnd(-1, 1)*wf->range_x, y = rnd(-1, 1)*wf->range_y;
            ok = near(wf->weight(x, y), seen.filter->weight(x, y));
        }
        if(!ok) os << "bad filter, not " << f << " " << a << " " << b << "; ";
    }
    Vec3 p = k3(s["position"]), t = k3(s["target"]), up = k3(s["up"]);
    Point3 pp(p.x, p.y, p.z), tt(t.x, t.y, t.z);
    std::string c = s["camera"];
    std::unique_ptr<Camera> wc;
    int w = seen.width, h = seen.height;
    if(c == "perspective")
        wc.reset(new CameraPerspective(&pp, &tt, &up, w, h,
                                       rad(k1(s["fov"]))));
    else if(c == "orthographic")
        wc.reset(new CameraOrthographic(&pp, &tt, &up, w, h));
    else wc.reset(new Camera360(&pp, &tt, &up, w, h));
    if(seen.camera == NULL) os << "bad no camera; ";
    else
        for(int i = 0; i<30; i++)
        {
            Sample q; q.posx = rnd(0, (float)w); q.posy = rnd(0, (float)h);
            Ray g, e;
            seen.camera->create_ray(&q, &g);
            wc->create_ray(&q, &e);
            Vec3 go(g.origin.x, g.origin.y, g.origin.z);
            Vec3 eo(e.origin.x, e.origin.y, e.origin.z);
            if(!near(go, eo, 1e-3f, 1e-3f) ||
               !near(g.direction, e.direction, 1e-3f, 1e-3f))
            {
                os << "bad camera: ray " << ray_text(g) << " and not "
                   << ray_text(e) << "; ";
                break;
            }
        }
}
static void textures(const json& ts, std::ostringstream& os)
{
    for(auto& t : ts)
    {
        std::string n = t["name"];
        if(!TexLib.contains_texture(n))
        { os << "bad no texture " << n << "; "; continue; }
        const TextureImage* g = TexLib.get_texture(n);
        const TextureImage* w = texture(t);
        int wrong = 0;
        for(int i = 0; i<60; i++)
        {
            HitPoint h = place();
            if(!near(g->map(&h), w->map(&h))) wrong++;
        }
        if(wrong>3) os << "bad texture " << n << "; ";
    }
}
static void materials(const json& c, std::ostringstream& os)
{
    std::set<std::string> good;
    std::map<std::string, std::unique_ptr<Bsdf>> ref;
    for(auto& m : c["want"]["mats"])
    {
        std::string n = m["name"];
        good.insert(n);
        const Bsdf* g = MtlLib.contains(n)?MtlLib.get(n):NULL;
        if(g == NULL) { os << "bad no material " << n << "; "; continue; }
        if(m["dual"].get<bool>())
        {
            auto pick = [&](const std::string& x) -> const Bsdf* {
                return ref.find(x) == ref.end()?MtlLib.get_default()
                                               :ref[x].get(); };
            std::string a = m["first"], b = m["second"];
            ref[n].reset(new DualBsdf(pick(a), pick(b), mask(m["mask"])));
        }
        else
            ref[n].reset(material(m));
        std::string e = compare(g, ref[n].get(), m["dual"]?120:60);
        if(!e.empty()) os << "bad material " << n << ": " << e << "; ";
    }
    for(auto& n : c["names"])
        if(good.find(n) == good.end() && n != "Default" && MtlLib.contains(n))
            os << "bad material " << n << " from nowhere; ";
}
static void objects(const json& c, Scene& scene, std::ostringstream& os,
                    int& hits)
{
    const json& ws = c["want"]["objects"];
    unsigned int lights = 0;
    for(auto& o : ws) if(o["light"]) lights++;
    if(scene.size_assets() != ws.size() || scene.size_lights() != lights)
        os << "bad number of objects " << scene.size_assets() << "/"
           << scene.size_lights() << "; ";
    if(ws.empty()) return;
    std::vector<std::unique_ptr<Shape>> shapes;
    std::vector<std::unique_ptr<Asset>> assets;
    std::vector<Spectrum> glow;
    for(auto& o : ws)
    {
        if(o["mesh"]["kind"] == "ball") shapes.emplace_back(new Sphere());
        else
        {
            Mesh* m = new Mesh((unsigned int)o["tris"].size());
            for(auto& t : o["tris"])
            {
                Vertex v[3];
                for(int i = 0; i<3; i++)
                {
                    v[i].p = Point3(t[i*5], t[i*5+1], t[i*5+2]);
                    v[i].t = Point2(t[i*5+3], t[i*5+4]);
                }
                Vec3 n = cross(v[1].p-v[0].p, v[2].p-v[0].p);
                n.normalize();
                for(Vertex& x : v) x.n = Normal(n.x, n.y, n.z);
                m->add_triangle(&v[0], &v[1], &v[2]);
            }
            m->finalize();
            shapes.emplace_back(m);
        }
        Matrix4 p, x, y, z, s;
        p.set_translation(k3(o["position"]));
        x.set_rotate_x(rad(k1(o["rotation"][0])));
        y.set_rotate_y(rad(k1(o["rotation"][1])));
        z.set_rotate_z(rad(k1(o["rotation"][2])));
        s.set_scale(k3(o["scale"]));
        assets.emplace_back(new Asset(shapes.back().get(), p*z*y*x*s, 1));
        std::vector<const Bsdf*> mats;
        std::vector<unsigned char> ix;
        for(auto& n : o["mats"])
        {
            const Bsdf* b = n == "Default"?MtlLib.get_default()
                                          :MtlLib.get(n);
            if(b == NULL) return; // already said
            ix.push_back((unsigned char)mats.size());
            mats.push_back(b);
        }
        assets.back()->set_materials(mats.data(), (unsigned char)mats.size(),
                                     ix.data());
        assets.back()->set_mask(mask(o["mask"]));
        glow.push_back(!o["light"]?Spectrum(0.f):
                       (int)o["temp"]>=0?Spectrum((int)o["temp"]):
                       Spectrum(rgb(o["color"]), true));
    }
    scene.k.buildTree();
    for(size_t i = 0; i<assets.size(); i++)
    {
        const AABB* box = assets[i]->get_AABB();
        const Point3& a = box->bounds[0];
        const Point3& b = box->bounds[1];
        float size = (b-a).length();
        int wrong[5] = {0, 0, 0, 0, 0}, rays = 120;
        std::string say[5];
        for(int n = 0; n<rays; n++)
        {
            Point3 t(rnd(a.x, b.x), rnd(a.y, b.y), rnd(a.z, b.z));
            Vec3 d = way();
            Point3 from = t+d*(size+.5f);
            Ray r(from, Vec3(-d.x, -d.y, -d.z));
            HitPoint gh, wh;
            gh.differentials = wh.differentials = false;
            bool g = scene.k.intersect(&r, &gh), w = false;
            float dist = INFINITY;
            size_t who = 0;
            for(size_t j = 0; j<assets.size(); j++)
            {
                HitPoint h; h.differentials = false;
                float before = dist;
                if(assets[j]->intersect(&r, &dist, &h) && dist<before)
                { w = true; wh = h; who = j; }
            }
            hits += w;
            int e = -1;
            if(g != w) e = 0;
            else if(!w) continue;
            else
            {
                Vec3 gp(gh.point_h.x, gh.point_h.y, gh.point_h.z);
                Vec3 wp(wh.point_h.x, wh.point_h.y, wh.point_h.z);
                bool light = ws[who]["light"];
                const AreaLight* l =
                        dynamic_cast<const AreaLight*>(gh.asset_h);
                if(!near(gp, wp, 1e-3f, 1e-2f)) e = 1;
                else if(gh.asset_h->is_light() != light) e = 2;
                else if(gh.asset_h->get_material(gh.index) !=
                        assets[who]->get_material(wh.index)) e = 3;
                else if(light && (l == NULL ||
                        !near(l->emissive_spectrum(), glow[who]))) e = 4;
            }
            if(e>=0) { wrong[e]++; say[e] = ray_text(r); }
        }
        const char* what[5] = {"visibility", "place", "kind (light or not)",
                               "material", "emission"};
        for(int e = 0; e<5; e++)
            if(wrong[e]>std::max(2, rays/20))
                os << "bad object " << i << " (" << ws[i]["mesh"]["name"]
                   << "): other " << what[e] << " for " << wrong[e]
                   << " rays of " << rays << " like " << say[e] << "; ";
    }
}
static void reports(const json& c, const std::string& log,
                    std::ostringstream& os)
{
    std::vector<std::string> lines;
    std::istringstream is(log);
    std::string l;
    while(std::getline(is, l))
        if(l.find("WARNING") != std::string::npos ||
           l.find("ERROR") != std::string::npos ||
           l.find("CRITICAL") != std::string::npos) lines.push_back(l);
    auto has = [](const std::string& line, const json& w) {
        return line.find(w.get<std::string>()) != std::string::npos; };
    for(auto& w : c["want"]["bad"])
    {
        bool ok = false;
        for(auto& x : lines) ok = ok || has(x, w);
        if(!ok) os << "bad no report about " << w << "; ";
    }
    for(auto& x : lines)
    {
        bool ok = false;
        for(auto& w : c["want"]["bad"]) ok = ok || has(x, w);
        for(auto& w : c["may"]) ok = ok || has(x, w);
        if(!ok) os << "bad report: " << x.substr(0, 200) << "; ";
    }
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string path;
    is >> path;
    json c = json::parse(vt::slurp(path));
    root = c["root"];
    rng.seed((unsigned int)c["seed"]);
    seen = Seen();
    std::string f = c["want"]["set"]["texture"];
    tex_filter = f == "unfiltered"?UNFILTERED:f == "ewa"?EWA:TRILINEAR;
    std::string main = path_of(c["main"]);
    char back[4096];
    if(getcwd(back, sizeof(back)) == NULL ||
       chdir(main.substr(0, main.rfind('/')).c_str()) != 0) _exit(120);
    Renderer* r = NULL;
    int hits = 0;
    {
        Scene scene;
        std::string log = vt::capture([&]{
            ConfigDriver d;
            r = d.parse(main, &scene);
        });
        std::ostringstream e;
        auto look = [&](const char* what)
        {
            for(auto& x : c["look"]) if(x == what) return true;
            return false;
        };
        if(look("set")) settings(c["want"]["set"], e);
        if(look("tex")) textures(c["want"]["texs"], e);
        if(look("mat")) materials(c, e);
        if(look("obj")) objects(c, scene, e, hits);
        if(look("report")) reports(c, log, e);
        if(e.str().empty()) os << "ok hits " << hits;
        else os << e.str().substr(0, 1500) << " LOG " << log.substr(0, 1500);
        delete r;
    }
    MtlLib.clear();
    TexLib.clear();
    maps.clear(); texs.clear(); unis.clear();
    if(chdir(back) != 0) _exit(120);
}
int main(int c, char** v) { return vt::run(c, v, one); }
