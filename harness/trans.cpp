// C19: paths through stacks of sheets with scripted materials and numbers
#include "vt.hpp"
#include <memory>
#include <cmath>
#include "nlohmann/json.hpp"
#include "utility/scene.hpp"
#include "utility/wellrng.hpp"
#include "utility/occlusion_tester.hpp"
#include "primitives/mesh.hpp"
#include "integrators/path_tracer.hpp"
#include "samplers/sampler_random.hpp"
#include "materials/bsdf.hpp"
using nlohmann::json;
static float current = 0.5f;
// every random number of a vertex is the one of its script
extern "C" float __wrap__ZN7WELLrng9getNumberEv(WELLrng*) { return current; }
static const float SIDE = 60.f, GAP = 10.f;
struct Walk
{
    const json* script; int vertex; Point3 last; bool wild; std::ostringstream log; Scene* sc;
    std::map<int, AreaLight*> lights;
} W;
static const json& now()
{
    int n = (int)W.script->size();
    if(W.vertex>=n) { W.wild = true; return (*W.script)[n-1]; }
    return (*W.script)[W.vertex<0?0:W.vertex];
}
static Spectrum gray(float f) { return SPECTRUM_ONE*f; }
struct Spy : public Bsdf
{
    json s; int id;
    Spy(const json& s, int id) : s(s), id(id) {}
    Spectrum value(const Vec3*, const HitPoint* h, const Vec3* wi, const ShadingSpace*, bool ms) const override
    {
        if(s["mirror"]) return SPECTRUM_BLACK;
        if(!ms)
        {
            // the only light asked about is the one of the script
            int n = (int)W.lights.size(), k = (int)(n*(int)now()["u"]/64);
            auto it = W.lights.begin();
            std::advance(it, k<n?k:n-1);
            Point3 p = h->point_h;
            char b[100];
            snprintf(b, sizeof(b), "%d,%.7g,%.7g;", W.vertex, it->second->pdf(&p, wi), fabsf(wi->z));
            W.log << b;
        }
        return gray((int)s["f"]/16.f);
    }
    float pdf(const Vec3*, const HitPoint*, const ShadingSpace*, const Vec3*, bool) const override
    { return s["mirror"]?0.f:(int)s["p"]/16.f; }
    Spectrum sample_value(float, float, float, const Vec3*, const HitPoint*, const ShadingSpace*,
                          Vec3* wi, float* pdf, bool ms, bool* spec) const override
    {
        const json& q = now();
        int go = ms?q["go"]:q["bgo"];
        // whatever is drawn after leaving is of the next vertex
        if(ms && W.vertex+1<(int)W.script->size()) current = (int)(*W.script)[W.vertex+1]["u"]/64.f;
        *spec = s["mirror"];
        if(go == 0 || W.wild)
        {
            *wi = Vec3(0, 0, 1);
            // nothing: no density, or no value
            *pdf = W.vertex%2?0.f:1.f;
            return W.vertex%2?gray(1.f):SPECTRUM_BLACK;
        }
        *wi = Vec3(0, 0, (float)go);
        if(!ms) { *pdf = (int)q["bp"]/16.f; return gray((int)q["bf"]/16.f); }
        *pdf = 3.f;
        return gray(3.f/(1 << (int)q["w"]));
    }
    void gen_shading_matrix(const HitPoint* h, ShadingSpace* m, Normal* n) const override
    {
        if(W.vertex<0 || h->point_h.distance(W.last)>1e-3f)
        {
            W.vertex++; W.last = h->point_h;
            current = (int)now()["u"]/64.f;
            W.log << "@" << id << ";";
        }
        Bsdf::gen_shading_matrix(h, m, n);
    }
};
static Mesh* sheet(float z, bool up)
{
    Mesh* m = new Mesh(2);
    Vertex v[4];
    for(int i = 0; i<4; i++)
    {
        int a = i == 1 || i == 2, b = i>1;
        v[i].p = Point3(a*SIDE-SIDE/2, b*SIDE-SIDE/2, z);
        v[i].n = Normal(0, 0, up?1.f:-1.f);
        v[i].t = Point2((float)a, (float)b);
    }
    m->add_triangle(&v[0], &v[1], &v[2]); m->add_triangle(&v[0], &v[2], &v[3]);
    m->finalize();
    return m;
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    std::vector<std::unique_ptr<Spy>> spies;
    {
        Scene sc;
        W.sc = &sc; W.script = &j["script"]; W.vertex = -1; W.wild = false; W.log.str(""); W.lights.clear();
        int i = 0;
        for(auto& s : j["sheets"])
        {
            i++;
            Mesh* m = sheet(GAP*i, s["up"]);
            sc.inherit_shape(m);
            Matrix4 id; id.set_identity();
            spies.emplace_back(new Spy(s, i));
            const Bsdf* mats[1] = {spies.back().get()};
            unsigned char idx[2] = {0, 0};
            if((int)s["light"]>0)
            {
                AreaLight* l = new AreaLight(m, id, gray((float)(int)s["light"]));
                l->set_materials(mats, 1, idx);
                sc.inherit_light(l);
                W.lights[i] = l;
            }
            else
            {
                Asset* a = new Asset(m, id, 1);
                a->set_materials(mats, 1, idx);
                sc.inherit_asset(a);
            }
        }
        sc.k.buildTree();
        unsigned int seed[WELL_R] = {1};
        SamplerRandom sam(0, 1, 0, 1, 1, seed);
        OcclusionTester ot(&sc);
        Ray r(Point3(1, 2, GAP*(int)j["z"]/2.f), Vec3(0, 0, (float)(int)j["dir"]));
        HitPoint h; h.differentials = false;
        if(!sc.k.intersect(&r, &h)) { os << "miss"; return; }
        std::unique_ptr<LightIntegrator> in(new PathTracer);
        Spectrum s = in->radiance(&sc, &h, &r, &sam, &ot);
        char b[100];
        // in units of the white
        snprintf(b, sizeof(b), "%.7g %.7g %.7g ", s.w[0]/SPECTRUM_ONE.w[0], s.w[1]/SPECTRUM_ONE.w[1],
                 s.w[2]/SPECTRUM_ONE.w[2]);
        os << b << (W.wild?"wild ":"tame ") << W.log.str();
    }
}
int main(int c, char** v) { return vt::run(c, v, one); }
