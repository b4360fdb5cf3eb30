// C32: counts of draws in cells of equal share, and the density itself
#include "vt.hpp"
#include <memory>
#include <set>
#include <cmath>
#include "nlohmann/json.hpp"
#include "materials/lambertian.hpp"
#include "materials/oren_nayar.hpp"
#include "materials/microfacet.hpp"
using nlohmann::json;
static Spectrum gray(float f) { return SPECTRUM_ONE*f; }
struct V { double x, y, z; };
static V operator*(V a, double s) { return {a.x*s, a.y*s, a.z*s}; }
static V operator+(V a, V b) { return {a.x+b.x, a.y+b.y, a.z+b.z}; }
static double dt(V a, V b) { return a.x*b.x+a.y*b.y+a.z*b.z; }
static V unit(V a) { return a*(1/sqrt(dt(a, a))); }
static V of(const Vec3& v) { return {v.x, v.y, v.z}; }
static Vec3 dir(const json& d)
{
    float n = (int)d[3];
    return Vec3((int)d[0]/n, (int)d[1]/n, (int)d[2]/n);
}
static double frac(const json& f) { return (double)(int)f[0]/(int)f[1]; }
struct Lobe
{
    std::string kind, base; bool thru, diffuse; double ax, ay, e, p, q;
    Lobe(const json& c)
    {
        kind = c["kind"];
        ax = 1./(int)c["u"]; ay = 1./(int)c["v"]; e = 2/(ax*ax)-2;
        p = frac(c["p"]); q = frac(c["q"]);
        diffuse = kind == "lambert" || kind == "oren";
        thru = kind == "tblinn" || kind == "tbeckmann" || kind == "tggx" || kind == "taniso";
        base = diffuse?"diffuse":kind.find("blinn") != std::string::npos?"blinn":
               kind.find("beckmann") != std::string::npos?"beckmann":"ggx";
    }
    Bdf* make(const json& c) const
    {
        if(kind == "lambert") return new Lambertian;
        if(kind == "oren") return new OrenNayar((int)c["sigma"]*(float)M_PI/180);
        MicrofacetDist* d;
        if(base == "blinn") d = new Blinn((float)e);
        else if(base == "beckmann") d = new Beckmann((float)ax);
        else if(kind.find("aniso") == std::string::npos) d = new GGXiso((float)ax);
        else d = new GGXaniso((float)ax, (float)ay);
        if(kind.find("metal") == 0) return new MicrofacetR(d, new Conductor(gray(0.2f), gray(3.9f)));
        if(thru) return new MicrofacetT(d, gray((float)p), gray((float)q));
        return new MicrofacetR(d, new Dielectric(gray((float)p), gray((float)q)));
    }
    // share of the directions closer to the axis, angle around it
    double share(V h) const
    {
        double t = (h.x*h.x/(ax*ax)+h.y*h.y/(ay*ay))/(h.z*h.z);
        if(base == "diffuse") return 1-h.z*h.z;
        if(base == "ggx") return t/(1+t);
        if(base == "beckmann") return 1-exp(-t);
        return 1-pow(fabs(h.z), e+1);
    }
    double around(V h) const
    {
        double a = atan2(h.y/ay, h.x/ax)/(2*M_PI);
        return a<0?a+1:a;
    }
    V at(double f, double a) const
    {
        double t, c = cos(2*M_PI*a), s = sin(2*M_PI*a);
        if(base == "diffuse") return {sqrt(f)*c, sqrt(f)*s, sqrt(1-f)};
        if(base == "ggx") t = sqrt(f/(1-f));
        else if(base == "beckmann") t = sqrt(-log(1-f));
        else
        {
            double z = pow(1-f, 1/(e+1)), n = sqrt(1-z*z);
            return {n*c, n*s, z};
        }
        return unit(V{t*ax*c, t*ay*s, 1});
    }
    // density of the half vector
    double density(V h) const
    {
        double z = fabs(h.z), t = (h.x*h.x/(ax*ax)+h.y*h.y/(ay*ay))/(z*z);
        if(base == "ggx") return 1/(M_PI*ax*ay*z*z*z*(1+t)*(1+t));
        if(base == "beckmann") return exp(-t)/(M_PI*ax*ax*z*z*z);
        return (e+1)/(2*M_PI)*pow(z, e);
    }
};
static bool near(double a, double b, double rel, double abs) { return fabs(a-b)<=abs+rel*std::max(fabs(a), fabs(b)); }
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json c = json::parse(rest);
    Lobe l(c);
    std::unique_ptr<Bdf> b(l.make(c));
    Vec3 wo = dir(c["wo"]);
    V o = of(wo);
    double eo = o.z>0?l.p:l.q, ei = o.z>0?l.q:l.p;
    int N = c["grid"], K = c["rings"], S = c["sectors"], shown = 0;
    auto fail = [&](const char* what, double a, double b, int k, int s)
    {
        char t[200];
        snprintf(t, sizeof(t), "%s %.7g and not %.7g (%d %d); ", what, a, b, k, s);
        if(shown++<4) os << t;
    };
    std::vector<double> count(K*S, 0), want(K*S, 0);
    std::vector<bool> part(K*S, false);
    for(int i = 0; i<N; i++)
        for(int j = 0; j<N; j++)
        {
            Vec3 wi(0, 0, 0); float pdf = 0;
            b->sample_value(&wo, &wi, (2*i+1)/(2.f*N), (2*j+1)/(2.f*N), &pdf);
            if(!(pdf>0) || (wo.z*wi.z<0) != l.thru) continue;
            V h = of(wi);
            if(!l.diffuse)
            {
                h = l.thru?o*-eo+of(wi)*-ei:o+of(wi);
                h = unit(h);
                if(h.z*o.z<0) h = h*-1;
                if(dt(h, o)<=1e-4) continue;
            }
            int k = (int)(l.share(h)*K), s = (int)(l.around(h)*S);
            k = k<0?0:k>=K?K-1:k; s = s<0?0:s>=S?S-1:s;
            count[k*S+s]++;
        }
    const int M = 24;
    for(int k = 0; k<K; k++)
        for(int s = 0; s<S; s++)
        {
            int seen = 0;
            for(int x = 0; x<M; x++)
                for(int y = 0; y<M; y++)
                {
                    V h = l.at((k+(x+0.5)/M)/K, (s+(y+0.5)/M)/S);
                    if(o.z<0) h.z = -h.z;
                    if(l.diffuse) { seen++; continue; }
                    double d = dt(h, o);
                    if(d<=1e-4) continue;
                    V i;
                    if(l.thru)
                    {
                        double n = eo/ei, q = 1-n*n*(1-d*d);
                        if(q<=0) continue;
                        i = o*-n+h*(n*d-sqrt(q));
                    }
                    else i = o*-1+h*(2*d);
                    if((i.z*o.z<0) == l.thru) seen++;
                }
            want[k*S+s] = (double)N*N/(K*S)*seen/(M*M);
            part[k*S+s] = seen<M*M;
        }
    double cell = (double)N*N/(K*S), worst = 0;
    for(int k = 0; k<K*S; k++)
    {
        double d = fabs(count[k]-want[k])/cell;
        worst = std::max(worst, part[k]?d/3:d);
        if(d>(part[k]?0.18:0.06)) fail("draws in a cell", count[k], want[k], k/S, k%S);
    }
    if(getenv("SHOW")) os << "worst " << worst;
    // the density itself
    std::set<std::string> known;
    for(auto& x : c["wi"])
    {
        Vec3 wi = dir(x);
        if((wo.z*wi.z<0) != l.thru) wi.z = -wi.z;
        V i = of(wi);
        double d = b->pdf(&wo, &wi), right;
        if(l.diffuse) { if(!near(d, fabs(i.z)/M_PI, 1e-3, 1e-5)) fail("density", d, fabs(i.z)/M_PI, 0, 0); continue; }
        V h = unit(l.thru?o*-eo+i*-ei:o+i);
        if(h.z*o.z<0) h = h*-1;
        double ho = dt(h, o), hi = dt(h, i);
        if(l.thru && (ho<=1e-3 || hi*h.z*i.z<=1e-3)) continue; // no facet joins them
        double J = l.thru?ei*ei*fabs(hi)/pow(ei*hi+eo*ho, 2):1/(4*ho);
        right = l.density(h)*J;
        if(near(d, right, 3e-3, 2e-4)) continue;
        // the known ones
        double J2 = l.thru?eo*eo*fabs(ho)/pow(ei*hi+eo*ho, 2):J, z = fabs(h.z), t = (1/(z*z)-1)/(l.ax*l.ax);
        double D2 = l.base == "blinn"?(l.e+2)/(2*M_PI)*pow(z, l.e):l.base == "beckmann"?l.density(h)*exp(-t):l.density(h);
        bool up = fabs(h.x)+fabs(h.y)<2e-3*z && l.kind.find("aniso") != std::string::npos;
        if(up) D2 = z;
        if(near(d, D2*J2, 3e-3, 2e-4) || (up && near(d, l.density(h)*J2, 3e-3, 2e-4)))
        {
            if(l.base != "ggx") known.insert(l.base);
            if(l.thru) known.insert("through");
            if(up) known.insert("normal");
        }
        else fail("density", d, right, 0, 0);
    }
    for(const std::string& k : known) os << "#" << k << " ";
}
int main(int c, char** v) { return vt::run(c, v, one); }
