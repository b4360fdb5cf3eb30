// Runs the real Renderer under a controlled schedule and records what each
// thread samples.  Case: seed json(configuration of RenderGen)
#include "sched.hpp"
#include "vt.hpp"
#include <mutex>
#include <cmath>
#include <atomic>
#include <set>
#include "nlohmann/json.hpp"
#include "renderer.hpp"
#include "primitives/box.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/sampler_random.hpp"
#include "samplers/sampler_stratified.hpp"
#include "materials/material_library.hpp"
using nlohmann::json;
static time_t g_time = 1500000000;
extern "C" time_t time(time_t* t) { if(t) *t = g_time; return g_time; }
struct Ev { int t; int kx, ky; bool enter; long total; int lo, hi; };
struct Rec
{
    int w, h, T;
    std::vector<Ev> ev;
    std::vector<std::pair<float, float> > samples;
    long outside;
    std::map<pthread_t, int> ids;
    struct Cur { int kx, ky; std::map<std::pair<int, int>, int> cnt;
                 std::vector<std::vector<std::pair<int, int> > > vague; };

    std::map<int, Cur> cur;
    std::atomic_flag lk = ATOMIC_FLAG_INIT;
    void close(int t)
    {
        auto c = cur.find(t);
        if(c == cur.end()) return;
        for(auto& v : c->second.vague)
        {
            auto best = v[0];
            for(auto& q : v) if(c->second.cnt[q]<c->second.cnt[best]) best = q;
            c->second.cnt[best]++;
        }
        Ev e; e.t = t; e.kx = c->second.kx; e.ky = c->second.ky; e.enter = false;
        e.total = 0; e.lo = 1 << 30; e.hi = 0;
        int x1 = std::min(w, (e.kx+1)*T), y1 = std::min(h, (e.ky+1)*T);
        for(int y = e.ky*T; y<y1; y++)
            for(int x = e.kx*T; x<x1; x++)
            {
                auto f = c->second.cnt.find({x, y});
                int n = f == c->second.cnt.end()?0:f->second;
                e.lo = std::min(e.lo, n); e.hi = std::max(e.hi, n);
            }
        for(auto& v : c->second.cnt) e.total += v.second;
        ev.push_back(e);
        cur.erase(c);
    }
    void add(float sx, float sy)
    {
        while(lk.test_and_set()) {}
        auto id = ids.find(pthread_self());
        int t;
        if(id == ids.end()) { t = (int)ids.size(); ids[pthread_self()] = t; }
        else t = id->second;
        samples.push_back({sx, sy});
        int px = (int)floorf(sx), py = (int)floorf(sy);
        auto c = cur.find(t);
        // rounding may place a sample exactly on the far edge of its pixel:
        // such a sample counts for whichever of the pixels lacks one
        std::vector<std::pair<int, int> > cand;
        for(int dx = (sx == px?1:0); dx>=0; dx--)
            for(int dy = (sy == py?1:0); dy>=0; dy--)
                if(px-dx>=0 && py-dy>=0 && px-dx<w && py-dy<h)
                    cand.push_back({px-dx, py-dy});
        if(cand.size()>1 && c != cur.end())
        {
            std::vector<std::pair<int, int> > same;
            for(auto& q : cand)
                if(q.first/T == c->second.kx && q.second/T == c->second.ky)
                    same.push_back(q);
            if(!same.empty()) cand = same;
        }
        if(cand.empty()) outside++;
        else
        {
            int kx = cand[0].first/T, ky = cand[0].second/T;
            if(c == cur.end() || c->second.kx != kx || c->second.ky != ky)
            {
                close(t);
                Ev e; e.t = t; e.kx = kx; e.ky = ky; e.enter = true;
                e.total = e.lo = e.hi = 0;
                ev.push_back(e);
                cur[t].kx = kx; cur[t].ky = ky;
            }
            Cur& u = cur[t];
            if(cand.size() == 1) u.cnt[cand[0]]++;
            else u.vague.push_back(cand);
        }
        lk.clear();
    }
};
static Rec* rec;
static int g_burst = 1;
static thread_local int g_calls = 0;
static void maybe_yield() { if(++g_calls%g_burst == 0) sched::yield(); }
struct Cam:Camera
{
    Cam(const Point3* p, const Point3* t, const Vec3* u, int w, int h)
    :Camera(p, t, u, w, h) {}
    void create_ray(const Sample* s, Ray* r, Ray* rx, Ray* ry) const override
    {
        rec->add(s->posx, s->posy);
        maybe_yield();
        create_single_ray(s, &r->origin, &r->direction);
        *rx = *r; *ry = *r;
        rx->origin.x += 1; ry->origin.y += 1;
    }
protected:
    void create_single_ray(const Sample* s, Point3* o, Vec3* d) const override
    { *o = Point3(s->posx, s->posy, 0.f); *d = Vec3(0.f, 0.f, 1.f); }
};
static void colour(float x, float y, double* c)
{
    c[0] = fmod(x*0.37+y*0.11, 1.0);
    c[1] = fmod(x*0.05+y*0.41+0.3, 1.0);
    c[2] = fmod(x*0.23+y*0.29+0.6, 1.0);
}
struct Integ:LightIntegrator
{
    Spectrum radiance(const Scene*, const HitPoint*, const Ray* r, Sampler*,
                      OcclusionTester*) const override
    {
        double c[3]; colour(r->origin.x, r->origin.y, c);
        return Spectrum(ColorRGB((float)c[0], (float)c[1], (float)c[2]), true);
    }
};
struct Flat:Filter
{
    Flat(float r):Filter(r, r) {}
    float weight(float, float) const override { maybe_yield(); return 1.f; }
};
struct Bumpy:Filter
{
    Bumpy(float r):Filter(r, r) {}
    float weight(float x, float y) const override
    { return 1.f+0.4f*(x/range_x)+0.3f*(y/range_y)+0.2f*(x/range_x)*(y/range_y); }
};
static int byte(double v)
{
    v = v>0.0031308?1.055*pow(v, 1.0/2.4)-0.055:12.92*v;
    if(v<0) v = 0;
    v *= 255; if(v>255) v = 255;
    return (int)v;
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    unsigned long seed; is >> seed;
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    int w = j["w"], h = j["h"], spp = j["spp"], n = j["n"];
    std::string fname = j["filter"];
    g_time = 1500000000+(time_t)(seed%1000000);
    g_burst = j["burst"];
    Rec R; R.w = w; R.h = h; R.T = SPLIT_SIZE; R.outside = 0; rec = &R;
    Filter* f = fname == "flat"?(Filter*)new Flat(1.f):
                fname == "bumpy"?(Filter*)new Bumpy(2.f):
                fname == "box"?(Filter*)new FilterBox:
                fname == "tent"?(Filter*)new FilterTent:
                (Filter*)new FilterMitchell(0.33f, 0.33f);
    unlink("r.ppm");
    std::string err;
    {
        Renderer r(w, h, spp, "r.ppm", n);
        Point3 p(0, 0, 0), t(0, 0, 1); Vec3 u(0, 1, 0);
        r.inherit_camera(new Cam(&p, &t, &u, w, h));
        r.inherit_filter(f);
        r.inherit_integrator(new Integ);
        r.set_sampler((int)j["sampler"] == 0?SPECTRE_SAMPLER_RANDOM:
                      SPECTRE_SAMPLER_STRATIFIED);
        Scene s;
        Box* b = new Box;
        Matrix4 mt, ms;
        mt.set_translation(Vec3(-512.f, -512.f, 100.f));
        ms.set_scale(Vec3(1024.f, 1024.f, 2.f));
        Matrix4 m = mt*ms;
        s.inherit_shape(b);
        s.inherit_asset(new Asset(b, m, 1));
        std::vector<unsigned> sc;
        for(auto& v : j["sched"]) sc.push_back((unsigned)v);
        sched::reset(sc, n, seed);
        sched::auto_register = true;
        sched::active = true;
        r.render(&s);
        sched::active = false;
        // closing events in thread order: their order is not observable
        std::set<int> open;
        for(auto& c : R.cur) open.insert(c.first);
        for(int c : open) R.close(c);
        // what the picture must be, given the samples taken
        std::string s6 = vt::slurp("r.ppm");
        std::istringstream in(s6);
        std::string mg; int W = 0, H = 0, mx = 0;
        in >> mg >> W >> H >> mx; in.get();
        std::string px = s6.substr(std::min(s6.size(), (size_t)std::max(0, (int)in.tellg())));
        if(mg != "P6" || W != w || H != h || px.size() != (size_t)w*h*3)
            err = "image not saved properly";
        else
        {
            std::vector<double> acc((size_t)w*h*5, 0.0);
            for(auto& q : R.samples)
            {
                double c[3]; colour(q.first, q.second, c);
                // what the film is given for this radiance, as linear sRGB
                ColorXYZ z = Spectrum(ColorRGB((float)c[0], (float)c[1],
                                               (float)c[2]), true).to_xyz();
                c[0] = 3.2404542*z.r-1.5371385*z.g-0.4985314*z.b;
                c[1] = -0.9692660*z.r+1.8760108*z.g+0.0415560*z.b;
                c[2] = 0.0556434*z.r-0.2040259*z.g+1.0572252*z.b;
                double cx = q.first-0.5, cy = q.second-0.5;
                for(int y = std::max(0, (int)ceil(cy-f->range_y)); y<h && y<=cy+f->range_y; y++)
                    for(int x = std::max(0, (int)ceil(cx-f->range_x)); x<w && x<=cx+f->range_x; x++)
                    {
                        double wt = f->weight((float)(x-cx), (float)(y-cy));
                        double* a = &acc[(size_t)(y*w+x)*5];
                        for(int k = 0; k<3; k++) a[k] += wt*c[k];
                        a[3] += wt; a[4] += fabs(wt);
                    }
            }
            for(int i = 0; i<w*h && err.empty(); i++)
            {
                double* a = &acc[(size_t)i*5];
                if(a[4]>1e-4 && fabs(a[3])<0.05*a[4]) continue;
                for(int k = 0; k<3; k++)
                {
                    int want = a[3]>0?byte(a[k]/a[3]):0;
                    int got = (unsigned char)px[i*3+k];
                    // the colour goes through XYZ and spectra: allow for it
                    int tol = 3+(int)(a[3]>0?a[4]/a[3]:1);
                    if(abs(want-got)>tol && err.empty())
                    {
                        err = "pixel "+std::to_string(i%w)+","+std::to_string(i/w)+
                              " channel "+std::to_string(k)+" is "+std::to_string(got)+
                              " expected "+std::to_string(want);
                    }
                }
            }
        }
    }
    json o;
    o["split"] = SPLIT_SIZE; o["w"] = w; o["h"] = h; o["spp"] = spp; o["n"] = n;
    o["threads"] = R.ids.size(); o["image"] = err;
    o["switches"] = sched::switches;
    json log = json::array();
    for(auto& e : R.ev)
    {
        json v; v["e"] = e.enter?"enter":"leave"; v["t"] = e.t;
        v["k"] = {e.kx, e.ky};
        if(!e.enter) { v["lo"] = e.lo; v["hi"] = e.hi; v["total"] = e.total; }
        log.push_back(v);
    }
    json end; end["e"] = "end"; end["outside"] = R.outside;
    log.push_back(end);
    o["log"] = log;
    os << o.dump();
}
int main(int argc, char** argv) { return vt::run(argc, argv, one); }
