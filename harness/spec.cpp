// C33: colours and spectra, in the build that samples wavelengths and in the
// one that does not
#include "vt.hpp"
#include "nlohmann/json.hpp"
#include "utility/spectrum.hpp"
#include "materials/refraction.hpp"
#include <cmath>
#include <limits>
#include <algorithm>
using nlohmann::json;
#ifdef SPECTRAL
static const int N = 16;
#else
static const int N = 3;
#endif
static double soft(const json& j) { return std::ldexp((double)(int)j[0], (int)j[1]); }
static bool near(double a, double b, double rel, double abs)
{
    return std::fabs(a-b)<=abs+rel*std::max(std::fabs(a), std::fabs(b));
}
static int shown;
static void tell(std::ostringstream& os, const std::string& what, double got, double want)
{
    char t[200];
    snprintf(t, sizeof(t), "%s: %.8g and not %.8g; ", what.c_str(), got, want);
    if(shown++<4) os << t;
}
static void xyz_is(std::ostringstream& os, const char* what, const ColorXYZ& c, double x, double y, double z, double rel, double abs)
{
    if(!near(c.r, x, rel, abs)) tell(os, std::string(what)+" X", c.r, x);
    if(!near(c.g, y, rel, abs)) tell(os, std::string(what)+" Y", c.g, y);
    if(!near(c.b, z, rel, abs)) tell(os, std::string(what)+" Z", c.b, z);
}
// the light of each component value, XYZ of any colour
static void values(const json& c, std::ostringstream& os)
{
    std::vector<double> lin;
    for(auto& w : c["w"]) lin.push_back(soft(w));
    static const double M[3][3] = {{.4124564, .3575761, .1804375}, {.2126729, .7151522, .0721750}, {.0193339, .1191920, .9503041}};
    int step = c["step"], n = 0;
    double worst = 0, sum = 0, lworst = 0, lsum = 0; int at[3] = {0, 0, 0};
    auto look = [&](int r, int g, int b)
    {
        n++;
        ColorRGB a((unsigned char)r, (unsigned char)g, (unsigned char)b);
        ColorRGB p((pixBGRA)((uint32_t)b << 24 | (uint32_t)g << 16 | (uint32_t)r << 8 | 255));
        if(!near(a.r, r/255., 1e-6, 0) || !near(a.g, g/255., 1e-6, 0) || !near(a.b, b/255., 1e-6, 0)) tell(os, "component", a.r, r/255.);
        if(!near(a.r, p.r, 1e-6, 0) || !near(a.g, p.g, 1e-6, 0) || !near(a.b, p.b, 1e-6, 0)) tell(os, "pixel", p.r, a.r);
        double L[3] = {lin[r], lin[g], lin[b]}, W[3];
        for(int i = 0; i<3; i++) W[i] = M[i][0]*L[0]+M[i][1]*L[1]+M[i][2]*L[2];
        ColorXYZ x = a.to_XYZ();
        xyz_is(os, "XYZ of a colour", x, W[0], W[1], W[2], 6e-4, 1e-6);
        ColorRGB d = x.to_sRGB();
        double e = std::max(std::max(std::fabs(d.r-a.r), std::fabs(d.g-a.g)), std::fabs(d.b-a.b));
        if(!(e<0.4/255)) tell(os, "sRGB of a colour", d.r, a.r);
        for(int l = 0; l<2; l++)
        {
            Spectrum s(a, l == 1), q(p, l == 1);
            for(int i = 0; i<N; i++) if(!near(s.w[i], q.w[i], 1e-4, 1e-6)) { tell(os, "spectrum of a pixel", q.w[i], s.w[i]); break; }
            if(!s.is_valid()) tell(os, "valid", 0, 1);
            if(s.is_black() != (r+g+b == 0)) tell(os, "black", s.is_black(), r+g+b == 0);
            ColorXYZ y = s.to_xyz();
            if(!near(s.luminance(), y.g, 1e-5, 1e-7)) tell(os, "luminance", s.luminance(), y.g);
            ColorRGB f = y.to_sRGB();
            e = std::max(std::max(std::fabs(f.r-a.r), std::fabs(f.g-a.g)), std::fabs(f.b-a.b));
#ifdef SPECTRAL
            double& wo = l?lworst:worst; double& su = l?lsum:sum;
            su += e;
            if(e>wo) { wo = e; at[0] = r; at[1] = g; at[2] = b; }
            for(int i = 0; i<N; i++) if(!(s.w[i]>=0 && s.w[i]<=1)) { tell(os, "spectrum in range", s.w[i], 1); break; }
            if(!(e<=0.3)) tell(os, "spectrum of a colour", f.r, a.r);
            if(r == g && g == b && !(e<=0.1)) tell(os, "spectrum of a grey", f.r, a.r);
            if(r == g && g == b && !near(y.g, W[1], 0.1, 1e-4)) tell(os, "luminance of a grey", y.g, W[1]);
            if(!near(y.g, W[1], 0.35, 0.01)) tell(os, "luminance of a colour", y.g, W[1]);
#else
            if(!(e<0.4/255)) tell(os, "spectrum of a colour", f.r, a.r);
            xyz_is(os, "spectrum of a colour", y, W[0], W[1], W[2], 6e-4, 1e-6);
#endif
        }
    };
    for(int r = 0; r<256; r += step)
        for(int g = 0; g<256; g += step)
            for(int b = 0; b<256; b += step) look(r, g, b);
    for(int v = 0; v<256; v++)
    {
        look(v, v, v); look(v, 0, 0); look(0, v, 0); look(0, 0, v);
        look(v, 255, 128); look(10, v, 11); look(255, 0, v);
    }
#ifdef SPECTRAL
    if(sum/n>0.08) tell(os, "mean distance", sum/n, 0.06);
    if(lsum/n>0.07) tell(os, "mean distance of lights", lsum/n, 0.05);
    if(getenv("SHOW")) { char t[200]; snprintf(t, sizeof(t), "worst %g %g mean %g %g (%d %d %d)", worst, lworst, sum/n, lsum/n, at[0], at[1], at[2]); os << t; }
#endif
    (void)sum; (void)lsum; (void)worst; (void)lworst; (void)at;
    // one colour space more: white, greys
    for(int v = 1; v<=255; v += 2)
    {
        ColorRGB a = ColorXYZ(0.95047f*v/255, v/255.f, 1.08883f*v/255).to_AdobeRGB();
        double w = std::pow(v/255., 256/563.);
        if(!near(a.r, w, 3e-3, 0) || !near(a.g, w, 3e-3, 0) || !near(a.b, w, 3e-3, 0))
        {
            double z = v/255.;
            bool old = near(a.r, w, 3e-3, 0) && near(a.g, std::pow((-0.96924*.95047+1.87597+.03342*1.08883)*z, 256/563.), 3e-3, 0) &&
                       near(a.b, std::pow((.01344*.95047-.11836+1.34926*1.08883)*z, 256/563.), 3e-3, 0);
            if(old) { os << "#adobe "; break; }
            tell(os, "Adobe RGB of a grey", a.b, w);
        }
    }
}
static void body(const json& c, std::ostringstream& os)
{
    Spectrum s((int)c["t"]);
    ColorXYZ x = s.to_xyz();
    if(!s.is_valid()) tell(os, "valid", 0, 1);
    if(!near(s.luminance(), x.g, 1e-5, 1e-7)) tell(os, "luminance", s.luminance(), x.g);
    bool bent = false;
    double X[2][3];
    for(int j = 0; j<3; j++) { X[0][j] = soft(c["seen"][j]); X[1][j] = soft(c["bentseen"][j]); }
#ifdef SPECTRAL
    for(int i = 0; i<16; i++)
    {
        double w = soft(c["w"][i]), b = soft(c["bent"][i]);
        if(near(s.w[i], w, 2e-3, 1e-4)) continue;
        if(near(s.w[i], b, 2e-3, 1e-4)) { bent = true; continue; }
        tell(os, "black body at "+std::to_string(400+20*i), s.w[i], w);
    }
#endif
    for(int k = 0; k<2; k++)
    {
        std::ostringstream o; int was = shown;
        xyz_is(o, "XYZ of a black body", x, X[k][0], X[k][1], X[k][2], 0.02, 0.01);
        if(o.str().empty()) { if(k) bent = true; break; }
        if(k) os << o.str(); else shown = was;
    }
    if(bent) os << "#planck ";
    // for the other build
    char t[100]; snprintf(t, sizeof(t), " =%.7g,%.7g,%.7g", x.r, x.g, x.b);
    os << t;
}
static void observer(const json& c, std::ostringstream& os)
{
    if(!Spectrum(0).is_black()) tell(os, "no temperature", 1, 0);
#ifdef SPECTRAL
    for(int i = 0; i<16; i++)
    {
        Spectrum s(0.f);
        s.w[i] = 1;
        double n = c["sum"];
        xyz_is(os, ("observer at "+std::to_string(400+20*i)).c_str(), s.to_xyz(), (int)c["w"][i][0]/n, (int)c["w"][i][1]/n, (int)c["w"][i][2]/n, 0.03, 0.012);
    }
    xyz_is(os, "equal light", Spectrum(1.f).to_xyz(), 1, 1, 1, 0.01, 0);
    Spectrum l({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16});
    for(int i = 0; i<16; i++) if(l.w[i] != i+1) tell(os, "list", l.w[i], i+1);
#else
    (void)c;
    Spectrum l({2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2});
    for(int i = 0; i<3; i++) if(!near(l.w[i], 2, 1e-6, 0)) tell(os, "list", l.w[i], 2);
#endif
    for(int n = 15; n<=17; n += 2)
    {
        bool refused = false;
        try { if(n == 15) Spectrum({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}); else Spectrum({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}); }
        catch(const char*) { refused = true; }
        if(!refused) tell(os, "list of another length", n, 16);
    }
    for(int i = 0; i<N; i++)
    {
        if(SPECTRUM_ONE.w[i] != 1) tell(os, "ones", SPECTRUM_ONE.w[i], 1);
        if(SPECTRUM_BLACK.w[i] != 0) tell(os, "black", SPECTRUM_BLACK.w[i], 0);
        if(!near(SPECTRUM_WHITE.w[i], 1, 0.07, 0)) tell(os, "white", SPECTRUM_WHITE.w[i], 1);
    }
}
static void index(const json& c, std::ostringstream& os)
{
    bool cau = c["k"] == "cauchy";
    float f[6];
    if(cau) for(int k = 0; k<3; k++) f[k] = (int)c["g"][k]/10000.f;
    else for(int k = 0; k<3; k++) { f[k] = (int)c["b"][k]/10000.f; f[3+k] = (int)c["q"][k]/10000.f; }
    Spectrum s = cau?cauchy(f[0], f[1], f[2]):sellmeier(f[0], f[1], f[2], f[3], f[4], f[5]);
    double mean = 0;
    for(int i = 0; i<16; i++)
    {
        double w = soft(c["w"][i]);
        if(!cau) w = std::sqrt(w);
        mean += w/16;
        if(N == 16 && !near(s.w[i], w, 1e-3, 0)) tell(os, "index at "+std::to_string(400+20*i), s.w[i], w);
    }
    if(N == 3) for(int i = 0; i<3; i++) if(!near(s.w[i], mean, 1e-3, 0)) tell(os, "index", s.w[i], mean);
}
static void apply(Spectrum& a, const std::string& op, const Spectrum& b)
{
    if(op == "+=") a += b; else if(op == "-=") a -= b; else if(op == "*=") a *= b; else a /= b;
}
static void apply(Color& a, const std::string& op, const Color& b)
{
    if(op == "+=") a += b; else if(op == "-=") a -= b; else if(op == "*=") a *= b; else a /= b;
}
static void applyv(Spectrum& a, const std::string& op, float b)
{
    if(op == "+=v") a += b; else if(op == "-=v") a -= b; else if(op == "*=v") a *= b; else a /= b;
}
static void applyv(Color& a, const std::string& op, float b)
{
    if(op == "+=v") a += b; else if(op == "-=v") a -= b; else if(op == "*=v") a *= b; else a /= b;
}
template<class T> static T both(const T& a, const std::string& op, const T& b)
{
    return op == "+"?T(a+b):op == "-"?T(a-b):op == "*"?T(a*b):T(a/b);
}
template<class T> static T with(const T& a, const std::string& op, float b)
{
    return op == "+v"?T(a+b):op == "-v"?T(a-b):op == "*v"?T(a*b):T(a/b);
}
static float& at(Spectrum& s, int i) { return s.w[i]; }
static float& at(Color& c, int i) { return i == 0?c.r:i == 1?c.g:c.b; }
static int size(const Spectrum&) { return N; }
static int size(const Color&) { return 3; }
template<class T> static void step(T* r, const json& s)
{
    std::string op = s["op"];
    int d = (int)s["r"]-1, a = (int)s["a"]-1, b = (int)s["b"]-1;
    if(op == "set") { for(int i = 0; i<size(r[d]); i++) at(r[d], i) = (int)s["v"][i]/256.f; }
    else if(op == "fill") r[d] = T((int)s["v"]/256.f);
    else if(op == "copy") r[d] = r[a];
    else if(op.size() == 1) r[d] = both(r[a], op, r[b]);
    else if(op.size() == 2 && op[1] == '=') apply(r[a], op, r[b]);
    else if(op.size() == 2) r[d] = with(r[a], op, (int)s["v"]/256.f);
    else applyv(r[a], op, (int)s["v"]/256.f);
}
static void history(const json& h, std::ostringstream& os)
{
    Spectrum r[3] = {Spectrum(0.f), Spectrum(0.f), Spectrum(0.f)};
    Color c[3];
    double U[16][3];
    for(int i = 0; i<N; i++)
    {
        Spectrum u(0.f); u.w[i] = 1;
        ColorXYZ x = u.to_xyz();
        U[i][0] = x.r; U[i][1] = x.g; U[i][2] = x.b;
    }
    int k = 0;
    for(auto& s : h)
    {
        k++;
        std::string op = s["op"];
        if(op == "poison")
        {
            Spectrum p = r[(int)s["r"]-1];
            int v = s["v"], i = ((int)s["a"]-1)%N;
            p.w[i] = v == 1?std::numeric_limits<float>::quiet_NaN():(v == 2?1:-1)*std::numeric_limits<float>::infinity();
            if(p.is_valid()) tell(os, op+" in step "+std::to_string(k), 1, 0);
            if(p.is_black()) tell(os, op+" black in step "+std::to_string(k), 1, 0);
        }
        else { step(r, s); step(c, s); }
        for(int q = 0; q<3; q++)
        {
            std::string where = op+" step "+std::to_string(k)+" register "+std::to_string(q+1);
            double L[3] = {0, 0, 0}, A = 0;
            for(int i = 0; i<N; i++)
            {
                double w = (int)s["w"][q][i]/256.;
                if(!near(r[q].w[i], w, 1e-6, 0)) tell(os, where+" component "+std::to_string(i), r[q].w[i], w);
                r[q].w[i] = (float)w; // nothing piles up
                for(int j = 0; j<3; j++) L[j] += w*U[i][j];
                A += std::fabs(w);
            }
            for(int i = 0; i<3; i++)
            {
                double w = (int)s["w"][q][i]/256.;
                if(!near(at(c[q], i), w, 1e-6, 0)) tell(os, "colour "+where, at(c[q], i), w);
                at(c[q], i) = (float)w;
            }
            bool black = N == 16?s["black"][q]:s["rgb"][q];
            if(r[q].is_black() != black) tell(os, "black "+where, r[q].is_black(), black);
            if(c[q].is_black() != (bool)s["rgb"][q]) tell(os, "black colour "+where, c[q].is_black(), s["rgb"][q]);
            if(!r[q].is_valid()) tell(os, "valid "+where, 0, 1);
            ColorXYZ x = r[q].to_xyz();
            xyz_is(os, ("seen "+where).c_str(), x, L[0], L[1], L[2], 1e-5, 1e-5*A);
            if(!near(r[q].luminance(), L[1], 1e-5, 1e-5*A)) tell(os, "luminance "+where, r[q].luminance(), L[1]);
        }
        if(shown) break;
    }
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json c = json::parse(rest);
    shown = 0;
    if(c.is_array()) return history(c, os);
    std::string k = c["k"];
    if(k == "values") values(c, os);
    else if(k == "body") body(c, os);
    else if(k == "observer") observer(c, os);
    else index(c, os);
}
int main(int c, char** v) { return vt::run(c, v, one); }
