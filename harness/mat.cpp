// C17: materials made of counting lobes, and of the real ones
#include "vt.hpp"
#include <memory>
#include <cmath>
#include "nlohmann/json.hpp"
#include "materials/multi_bsdf.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "textures/texture_uniform.hpp"
using nlohmann::json;
static int destroyed;
static Spectrum gray(float f) { return SPECTRUM_ONE*f; }
static char flags_of(const json& l)
{
    return (char)((l["side"] == "R"?FLAG_BRDF:FLAG_BTDF) | (l["spec"]?FLAG_SPEC:0));
}
struct Lobe : public Bdf
{
    json l; Vec3 d;
    Lobe(const json& l, Vec3 d) : Bdf(flags_of(l)), l(l), d(d) {}
    ~Lobe() override { destroyed++; }
    bool answers(const Vec3* wo, const Vec3* wi) const
    {
        if(l["spec"]) return l["blind"] && (wo->z*wi->z>0) == (l["side"] == "R");
        return l["blind"] || (wo->z*wi->z>0) == (l["side"] == "R");
    }
    Spectrum value(const Vec3* wo, const Vec3* wi) const override
    { return answers(wo, wi)?gray((int)l["v"]/64.f):SPECTRUM_BLACK; }
    float pdf(const Vec3* wo, const Vec3* wi) const override
    { return answers(wo, wi)?(int)l["p"]/16.f:0.f; }
    Spectrum sample_value(const Vec3* wo, Vec3* wi, float, float, float* p) const override
    {
        if(l["go"] == "0") { *wi = Vec3(0, 0, 0); *p = 1.f; return gray(1.f); }
        *wi = d;
        wi->z = ((l["go"] == "R") == (wo->z>0))?d.z:-d.z;
        if(l["spec"]) { *p = 1.f; return gray((int)l["v"]/64.f); }
        *p = pdf(wo, wi);
        return value(wo, wi);
    }
};
static HitPoint place(std::istream& is, Vec3& s, Vec3& t, Vec3& n)
{
    HitPoint h; h.differentials = false; h.index = 0; h.asset_h = NULL;
    float a[6]; for(float& x : a) is >> x;
    n = Vec3(a[0], a[1], a[2]).normalize();
    Vec3 o = Vec3(a[3], a[4], a[5]);
    s = cross(n, o).normalize();
    t = cross(n, s).normalize();
    h.normal_h = Normal(n.x, n.y, n.z); h.dpdu = s; h.dpdv = t; h.uv = Point2(0.5f, 0.5f);
    h.point_h = Point3(0, 0, 0);
    return h;
}
static float level(const Spectrum& s)
{
    float r = s.w[0];
    for(float x : s.w) if(fabsf(x-r)>1e-4f*(1+fabsf(r))) return -99.f;
    return r;
}
// H <single> <6 floats of the frame> <json history>
static void history(std::istringstream& is, std::ostringstream& os)
{
    bool single; is >> single;
    Vec3 s, t, n;
    HitPoint h = place(is, s, t, n);
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    destroyed = 0;
    std::vector<std::unique_ptr<Texture>> tex;
    {
        std::unique_ptr<Bsdf> m;
        MultiBSDF* multi = NULL;
        std::vector<Vec3> dirs;
        if(!single) { multi = new MultiBSDF; m.reset(multi); }
        int k = 0;
        for(auto& q : j)
        {
            k++;
            std::string o = q["o"];
            char b[120];
            if(o == "add")
            {
                Vec3 d = Vec3(0.1f*(k%7)-0.3f, 0.07f*(k%5)-0.1f, 0.5f).normalize();
                dirs.push_back(d);
                Lobe* l = new Lobe(q["l"], d);
                int c = q["l"]["c"];
                Texture* x = NULL;
                if(c != 1) { x = new TextureUniform(gray((float)c)); tex.emplace_back(x); }
                if(single) m.reset(new SingleBRDF(l, x));
                else if(x) multi->inherit_bdf(l, x);
                else multi->inherit_bdf(l);
                os << "+ ";
                continue;
            }
            ShadingSpace sp; Normal nn;
            m->gen_shading_matrix(&h, &sp, &nn);
            float z = q["up"]?0.7f:-0.7f, e = 0.03f*(k%10);
            Vec3 wo = (s*0.3f+t*e+n*z).normalize();
            bool ms = q["ms"];
            if(o == "s")
            {
                Vec3 wi(9, 9, 9); float pdf = -7; bool spec = false;
                float r = (int)q["r"]/128.f;
                Spectrum v = m->sample_value(r, 0.4f, 0.6f, &wo, &h, &sp, &wi, &pdf, ms, &spec);
                int lobe = q["want"]["lobe"];
                bool dir = true;
                if(lobe>0)
                {
                    Vec3 d = dirs[lobe-1];
                    std::string go = multi?std::string():std::string("R");
                    if(multi) { int c = 0; for(auto& a : j) if(a["o"] == "add" && ++c == lobe) go = a["l"]["go"]; }
                    float dz = ((go == "R") == (z>0))?d.z:-d.z;
                    Vec3 x = s*d.x+t*d.y+n*dz;
                    dir = fabsf(x.x-wi.x)+fabsf(x.y-wi.y)+fabsf(x.z-wi.z)<1e-3f;
                }
                snprintf(b, sizeof(b), "%.7g,%.7g,%d,%d ", level(v), pdf, spec, dir);
            }
            else
            {
                float wz = ((q["side"] == "R") == (z>0))?0.6f:-0.6f;
                Vec3 wi = (s*-0.2f+t*(0.1f-e)+n*wz).normalize();
                if(o == "v") snprintf(b, sizeof(b), "%.7g ", level(m->value(&wo, &h, &wi, &sp, ms)));
                else snprintf(b, sizeof(b), "%.7g ", m->pdf(&wo, &h, &sp, &wi, ms));
            }
            os << b;
        }
    }
    os << "d" << destroyed;
}
// R <6 floats> <json: list of kinds>: real lobes, sampled pairs asked again
static Bdf* real(const std::string& k)
{
    Spectrum a = cauchy(1.f, 0.f), b = cauchy(1.5f, 0.f);
    if(k == "lambert") return new Lambertian;
    if(k == "oren") return new OrenNayar(40.f);
    if(k == "mirror") return new DielectricReflection(a, b);
    if(k == "glass") return new Refraction(a, b);
    if(k == "ggx") return new MicrofacetR(new GGXiso(0.4f), new Dielectric(a, b));
    if(k == "ggxa") return new MicrofacetR(new GGXaniso(0.3f, 0.6f), new Dielectric(a, b));
    if(k == "beck") return new MicrofacetR(new Beckmann(0.5f), new Dielectric(a, b));
    if(k == "blinn") return new MicrofacetR(new Blinn(20.f), new Dielectric(a, b));
    return new MicrofacetT(new GGXiso(0.4f), a, b);
}
static void reals(std::istringstream& is, std::ostringstream& os)
{
    Vec3 s, t, n;
    HitPoint h = place(is, s, t, n);
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    std::vector<std::unique_ptr<Texture>> tex;
    std::unique_ptr<Bsdf> mm;
    if(j["single"])
    {
        tex.emplace_back(new TextureUniform(gray(0.25f)));
        mm.reset(new SingleBRDF(real(j["lobes"][0]), tex.back().get()));
    }
    else
    {
        MultiBSDF* multi = new MultiBSDF;
        mm.reset(multi);
        int c = 0;
        for(auto& k : j["lobes"])
        {
            tex.emplace_back(new TextureUniform(gray(0.25f*++c)));
            multi->inherit_bdf(real(k), tex.back().get());
        }
    }
    const Bsdf& m = *mm;
    ShadingSpace sp; Normal nn;
    m.gen_shading_matrix(&h, &sp, &nn);
    for(auto& q : j["q"])
    {
        Vec3 wo = (s*(float)q[0]+t*(float)q[1]+n*(float)q[2]).normalize();
        Vec3 wi(9, 9, 9); float pdf = -7; bool spec = false, ms = q[6];
        Spectrum v = m.sample_value((float)q[3], (float)q[4], (float)q[5], &wo, &h, &sp, &wi, &pdf, ms, &spec);
        char b[160];
        if(pdf<=0 || v.is_black()) { os << "0 "; continue; }
        Spectrum w = spec?v:m.value(&wo, &h, &wi, &sp, ms);
        float p2 = spec?pdf:m.pdf(&wo, &h, &sp, &wi, ms);
        snprintf(b, sizeof(b), "%.7g,%.7g,%.7g,%.7g,%d,%.6g ", v.w[0], w.w[0], pdf, p2, spec, wi.length());
        os << b;
    }
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string k; is >> k;
    if(k == "H") history(is, os);
    else reals(is, os);
}
int main(int c, char** v) { return vt::run(c, v, one); }
