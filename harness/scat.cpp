// C31: one lobe asked along a history of symmetric pairs of directions, and perfect mirrors and glass
#include "vt.hpp"
#include <memory>
#include <set>
#include <cmath>
#include "nlohmann/json.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
#include "materials/reflection.hpp"
#include "materials/refraction.hpp"
#include "utility/console.hpp"
using nlohmann::json;
static Spectrum gray(float f) { return SPECTRUM_ONE*f; }
static const float KN = 0.2f, KK = 3.9f;
static Vec3 dir(const json& d)
{
    float n = (int)d[3];
    return Vec3((int)d[0]/n, (int)d[1]/n, (int)d[2]/n);
}
static double frac(const json& f) { return (double)(int)f[0]/(int)f[1]; }
static double diel(double c, double e, double t)
{
    double s = e/t*sqrt(std::max(0., 1-c*c));
    if(s>=1) return 1;
    double d = sqrt(1-s*s);
    double a = (e*c-t*d)/(e*c+t*d), b = (t*c-e*d)/(t*c+e*d);
    return (a*a+b*b)/2;
}
static bool upright(const Vec3& v) { return fabs(v.x)+fabs(v.y)<2e-3*fabs(v.z); }
static double cond(double c)
{
    double f = KN*KN+KK*KK, e = 2*KN*c;
    return ((f-e+c*c)/(f+e+c*c)+(f*c*c-e+1)/(f*c*c+e+1))/2;
}
static bool near(double a, double b, double rel, double abs) { return fabs(a-b)<=abs+rel*std::max(fabs(a), fabs(b)); }
static float level(const Spectrum& s)
{
    float r = s.w[0];
    for(float x : s.w) if(!(fabsf(x-r)<=1e-4f*(1+fabsf(r)))) return NAN;
    return r;
}
static Bdf* lobe(const json& l, bool crossed, bool under)
{
    std::string k = l["kind"];
    if(k.find("aniso") == std::string::npos) crossed = false; // no axes
    float ax = 1.f/(int)l[crossed?"v":"u"], ay = 1.f/(int)l[crossed?"u":"v"];
    Spectrum p = gray((float)frac(l["p"])), q = gray((float)frac(l["q"]));
    if(under) std::swap(p, q);
    if(k == "lambert") return new Lambertian;
    if(k == "oren") return new OrenNayar((int)l["sigma"]*(float)M_PI/180);
    MicrofacetDist* d;
    if(k == "blinn" || k == "tblinn") d = new Blinn(2.f/(ax*ax)-2);
    else if(k == "beckmann" || k == "tbeckmann") d = new Beckmann(ax);
    else if(k == "ggx" || k == "tggx" || k == "metal") d = new GGXiso(ax);
    else d = new GGXaniso(ax, ay);
    if(k == "metal" || k == "metalaniso") return new MicrofacetR(d, new Conductor(gray(KN), gray(KK)));
    if(k[0] == 't') return new MicrofacetT(d, p, q);
    return new MicrofacetR(d, new Dielectric(p, q));
}
// S <json>
static void history(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    const json& l = j["lobe"];
    std::string kind = l["kind"];
    bool thru = j["thru"], diffuse = kind == "lambert" || kind == "oren";
    double p = frac(l["p"]), q = frac(l["q"]), first = 0, dens[2] = {-1, -1}, tol = 1e-4;
    bool was = false;
    std::set<std::string> known;
    auto fail = [&](size_t i, const char* what, double a, double b)
    {
        char t[200];
        snprintf(t, sizeof(t), "state %zu: %s %.7g and not %.7g; ", i, what, a, b);
        if(os.str().size()<600) os << t;
    };
    for(size_t i = 0; i<j["hist"].size(); i++)
    {
        const json& h = j["hist"][i];
        const json& s = h["s"];
        Vec3 wo = dir(s["wo"]), wi = dir(s["wi"]);
        std::unique_ptr<Bdf> b(lobe(l, s["crossed"], s["under"]));
        bool other = wo.z*wi.z<0;
        double eo = h["above"]?p:q, ei = h["above"]?q:p;
        float v = level(b->value(&wo, &wi)), d = b->pdf(&wo, &wi);
        if(!std::isfinite(v) || v<0) { fail(i, "value", v, 0); continue; }
        if(!std::isfinite(d) || d<0) { fail(i, "density", d, 0); continue; }
        if(thru && other && !j["possible"]) { if(v != 0 || d != 0) known.insert("unseen"); }
        else if(other != thru)
        {
            if(d != 0) fail(i, "density of the wrong side", d, 0);
            if(v != 0 && !diffuse) fail(i, "value of the wrong side", v, 0);
        }
        else
        {
            double f = thru?v/(eo*eo):v;
            double here = tol;
            if(thru)
            {
                // faint ones are cut to zero
                Vec3 wh = -wo*(float)eo-wi*(float)ei;
                double den = (double)wh.length();
                den = den*den*fabs(wo.z*wi.z);
                here += 6e-5/std::max(den, 1e-6);
            }
            bool marked = kind.find("aniso") != std::string::npos, metal = kind.find("metal") == 0;
            bool below = wo.z<0;
            Vec3 hh = thru?-wo*(float)eo-wi*(float)ei:wo+wi;
            bool odd = marked && thru && (upright(hh) || upright(wo) || upright(wi)); // part of "normal"
            if(!j["exact"]["w"].empty())
            {
                const json& m = j["exact"];
                bool sw = s["swapped"];
                double w = frac(m["w"]), u = (int)l["u"], uv = u*(marked?(int)l["v"]:u);
                double c = (int)m["c"][0]/((int)m["c"][1]*sqrt((double)(int)m["c"][2]));
                double D = uv/(M_PI*w*w), J = fabs(hh.z)/(4*fabs(dot(wo, hh)));
                if(!sw && !near(J, frac(m["j"])/4, 1e-3, 0)) fail(i, "bad case", J, 0);
                bool dn = w == 1, on = frac(m["go"]) == 0, in = frac(m["gi"]) == 0;
                bool dok = near(d, D*J, 3e-3, 1e-4), vok = !marked;
                if(!dok && marked && dn && near(d, J, 3e-3, 1e-4)) { dok = true; known.insert("normal"); }
                if(!dok) fail(i, "density, exactly", d, D*J);
                double best = 0;
                for(int x = 0; x<16 && !vok; x++)
                {
                    if(((x&1) && !dn) || ((x&2) && !on) || ((x&4) && !in) || ((x&8) && (!below || metal))) continue;
                    double F = metal?cond(c):x&8?diel(c, ei, eo):diel(c, eo, ei);
                    double G = 1/(1+((x&2)?1:(sqrt(1+frac(m["go"]))-1)/2)+((x&4)?1:(sqrt(1+frac(m["gi"]))-1)/2));
                    double vx = F*((x&1)?1:D)*G/(4*fabs(wo.z*wi.z));
                    if(x == 0) best = vx;
                    if(!near(v, vx, 3e-3, 1e-4)) continue;
                    vok = true;
                    if(x&7) known.insert("normal");
                    if(x&8) known.insert("inside");
                }
                if(!vok) fail(i, "value, exactly", v, best);
            }
            if(!marked || thru)
            {
                if(i == 0) { first = f; was = below; }
                else if(!odd && !near(f, first, 2e-3, here))
                {
                    // reflected on the inner side with the indexes of the outer one
                    double c = fabs(dot(wi, hh))/hh.length();
                    double in = diel(c, eo, ei), out = diel(c, ei, eo);
                    if(!thru && !metal && !diffuse && below != was && near((below?f:first)*in, (below?first:f)*out, 5e-3, 1e-4))
                        known.insert("inside");
                    else fail(i, "value", f, first);
                }
                double& k = dens[s["swapped"]?1:0];
                if(k<0) k = d;
                else if(!odd && !near(d, k, 2e-3, 1e-4)) fail(i, "density", d, k);
            }
            if(diffuse && !near(d, fabs(wi.z)/M_PI, 1e-3, 1e-5)) fail(i, "density, exactly", d, fabs(wi.z)/M_PI);
            if(kind == "oren")
            {
                double sg = (int)l["sigma"]*M_PI/180, s2 = sg*sg;
                double x = (1-s2/(2*(s2+0.33))+0.45*s2/(s2+0.09)*frac(j["diffuse"]))/M_PI;
                if(!near(v, x, 2e-3, 1e-5)) fail(i, "value, exactly", v, x);
            }
            if(kind == "lambert" && !near(v, 1/M_PI, 1e-3, 0)) fail(i, "value, exactly", v, 1/M_PI);
        }
        for(auto& r : h["r"])
        {
            Vec3 w(0, 0, 0); float sp = -1;
            float sv = level(b->sample_value(&wo, &w, (int)r[0]/64.f, (int)r[1]/64.f, &sp));
            if(!std::isfinite(sv) || sv<0 || !std::isfinite(sp) || sp<0) { fail(i, "sample", sv, sp); continue; }
            double len = w.length();
            if(sp == 0)
            {
                if(sv != 0)
                {
                    Vec3 hh = -wo*(float)eo-w*(float)ei;
                    if(thru && dot(wo, hh)*wo.z*hh.z<=1e-4*hh.length()) known.insert("unseen");
                    else fail(i, "value sampled with no density", sv, 0);
                }
                // only beyond the surface, or where nothing passes
                bool far = wo.z*w.z<0;
                bool none = thru && (len == 0 || far != thru || eo>ei);
                if(kind == "lambert" || kind == "oren" || (far == thru && len != 0 && !none))
                {
                    Vec3 hh = thru?-wo*(float)eo-w*(float)ei:wo+w;
                    double a = thru?-(double)dot(wo, hh)*(double)dot(w, hh):1;
                    if(a>1e-6 && sv == 0 && b->pdf(&wo, &w)>1e-4) fail(i, "no density, sampled", sp, b->pdf(&wo, &w));
                }
                continue;
            }
            if(!near(len, 1, 0, 1e-3)) { fail(i, "length of a sample", len, 1); continue; }
            if((wo.z*w.z<0) != thru)
            {
                if(sv != 0) fail(i, "value sampled on the wrong side", sv, 0);
                continue;
            }
            if(fabsf(w.z)<1e-3f) continue;
            Vec3 hh = thru?-wo*(float)eo-w*(float)ei:wo+w;
            if(kind.find("aniso") != std::string::npos && upright(hh)) continue;
            // facets seen from behind
            if(thru && (dot(wo, hh)*wo.z*hh.z<=1e-4*hh.length() || dot(w, hh)*w.z*hh.z<=1e-4*hh.length())) continue;
            float av = level(b->value(&wo, &w)), ap = b->pdf(&wo, &w);
            if(!near(sv, av, 5e-3, 1e-3)) fail(i, "value sampled", sv, av);
            if(!near(sp, ap, 2e-2, 1e-3)) fail(i, "density sampled", sp, ap);
        }
    }
    for(const std::string& k : known) os << "#" << k << " ";
}
// M <json>
static void mirror(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    auto fail = [&](const char* what, double a, double b)
    {
        char t[200];
        snprintf(t, sizeof(t), "%s %.7g and not %.7g; ", what, a, b);
        os << t;
    };
    bool exact = j["k"] == "exact";
    Vec3 wo = dir(j["d"]);
    bool up = wo.z>0;
    double p, q; // above, below
    if(exact) { p = (int)j[up?"e":"t"]; q = (int)j[up?"t":"e"]; }
    else { p = frac(j["p"]); q = frac(j["q"]); }
    double e = up?p:q, t = up?q:p, c = fabs(wo.z);
    bool total = !exact && j["total"], edge = !exact && j["edge"];
    double R = exact?(pow(frac(j["r"][0]), 2)+pow(frac(j["r"][1]), 2))/2:total?1:diel(c, e, t);
    auto same = [&](const char* what, const Vec3& a, double x, double y, double z)
    {
        if(!near(a.x, x, 0, 1e-3) || !near(a.y, y, 0, 1e-3) || !near(a.z, z, 0, 4e-3)) fail(what, a.x*100+a.y*10+a.z, x*100+y*10+z);
    };
    DielectricReflection mirror(gray((float)p), gray((float)q));
    Refraction glass(gray((float)p), gray((float)q));
    ConductorReflection metal(gray(KN), gray(KK));
    Dielectric fd(gray((float)p), gray((float)q));
    Conductor fc(gray(KN), gray(KK));
    Vec3 w(0, 0, 0); float d = -1;
    float v = level(mirror.sample_value(&wo, &w, 0.3f, 0.6f, &d));
    same("mirrored to", w, -wo.x, -wo.y, wo.z);
    if(d != 1) fail("density of a mirror", d, 1);
    if(!edge && !near(v*c, R, 3e-3, 1e-4)) fail("reflected part", v*c, R);
    v = level(fd.eval(wo.z));
    if(!edge && !near(v, R, 3e-3, 1e-4)) fail("Fresnel", v, R);
    w = Vec3(0, 0, 0); d = -1;
    v = level(glass.sample_value(&wo, &w, 0.3f, 0.6f, &d));
    if(edge) {}
    else if(total) { if(v != 0 || d != 0) fail("transmitted beyond the critical angle", v, d); }
    else
    {
        double x, y, z;
        if(exact) { Vec3 o = dir(j["out"]); x = o.x; y = o.y; z = o.z; }
        else { x = frac(j["out"][0]); y = frac(j["out"][1]); z = sqrt(frac(j["out"][2]))*(j["out"][3]?1:-1); }
        same("transmitted to", w, x, y, z);
        if(d != 1) fail("density of glass", d, 1);
        double T = v*fabs(w.z)*t*t/(e*e);
        if(!near(T, 1-R, 3e-3, 3e-3)) fail("transmitted part", T, 1-R);
        // and back
        Vec3 b(0, 0, 0); float bd = -1;
        Vec3 from = w;
        float bv = level(glass.sample_value(&from, &b, 0.1f, 0.9f, &bd));
        if(fabs(z)>0.1)
        {
            same("back to", b, wo.x, wo.y, wo.z);
            double B = bv*fabs(b.z)*e*e/(t*t);
            if(!near(B, 1-R, 1e-2, 1e-2)) fail("transmitted part, back", B, 1-R);
        }
    }
    double m = cond(c), mw = cond(-c); // known: behind, the cosine is taken with its sign
    bool behind = false;
    auto known = [&](double x) { bool r = !up && near(x, mw, 3e-3, 1e-4); behind = behind || r; return r; };
    v = level(metal.sample_value(&wo, &w, 0.3f, 0.6f, &d));
    same("metal mirrored to", w, -wo.x, -wo.y, wo.z);
    if(d != 1) fail("density of metal", d, 1);
    if(!near(v*c, m, 3e-3, 1e-4) && !known(v*c)) fail("reflected by metal", v*c, m);
    v = level(fc.eval(wo.z));
    if(!near(v, m, 3e-3, 1e-4) && !known(v)) fail("Fresnel of metal", v, m);
    if(level(mirror.value(&wo, &w)) != 0 || level(glass.value(&wo, &w)) != 0 || level(metal.value(&wo, &w)) != 0)
        fail("value of a perfect mirror", 1, 0);
    if(mirror.pdf(&wo, &w) != 0 || glass.pdf(&wo, &w) != 0 || metal.pdf(&wo, &w) != 0)
        fail("density of a perfect mirror", 1, 0);
    if(behind) os << "#behind ";
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string k; is >> k;
    if(k == "S") history(is, os);
    else mirror(is, os);
}
int main(int c, char** v) { return vt::run(c, v, one); }
