// Drives the real ImageFilm.  Cases:
//  G w h r x0 x1 y0 y1 qx qy          one sample (quarter pixels), custom filter
//  M seed json                        program of FilmHist on real threads
#ifndef TSAN
#include "sched.hpp"
#endif
#include "vt.hpp"
#include <thread>
#include <cmath>
#include "nlohmann/json.hpp"
#include "cameras/image_film.hpp"
#include "samplers/filter_box.hpp"
#include "samplers/filter_tent.hpp"
#include "samplers/filter_gaussian.hpp"
#include "samplers/filter_mitchell.hpp"
#include "samplers/filter_lanczos.hpp"
using nlohmann::json;
struct Flat:Filter
{
    Flat(float r):Filter(r, r) {}
    float weight(float, float) const override
    {
#ifndef TSAN
        sched::yield();
#endif
        return 1.f;
    }
};
struct Bumpy:Filter   // asymmetric, so that swapped or flipped offsets show
{
    Bumpy(float r):Filter(r, r) {}
    float weight(float x, float y) const override
    {
#ifndef TSAN
        sched::yield();
#endif
        return 1.f+0.4f*(x/range_x)+0.3f*(y/range_y)+0.2f*(x/range_x)*(y/range_y);
    }
};
static bool read_ppm(const std::string& p, int& w, int& h, std::string& px)
{
    std::string s = vt::slurp(p);
    std::istringstream in(s);
    std::string m; int mx;
    in >> m >> w >> h >> mx;
    if(m != "P6" || mx != 255) return false;
    in.get();
    px = s.substr((size_t)in.tellg());
    return px.size() == (size_t)w*h*3;
}
static ColorXYZ linear(const double* c)   // linear sRGB to XYZ (D65)
{
    return ColorXYZ((float)(0.4124564*c[0]+0.3575761*c[1]+0.1804375*c[2]),
                    (float)(0.2126729*c[0]+0.7151522*c[1]+0.0721750*c[2]),
                    (float)(0.0193339*c[0]+0.1191920*c[1]+0.9503041*c[2]));
}
static int byte(double v)
{
    v = v>0.0031308?1.055*pow(v, 1.0/2.4)-0.055:12.92*v;
    if(v<0) v = 0;
    v *= 255; if(v>255) v = 255;
    return (int)v;
}
static void geo(std::istringstream& is, std::ostringstream& os)
{
    int w, h, r, x0, x1, y0, y1, qx, qy;
    is >> w >> h >> r >> x0 >> x1 >> y0 >> y1 >> qx >> qy;
    unlink("g.ppm");
    Flat f((float)r);
    {
        ImageFilm film(w, h, "g.ppm");
        film.set_filter(&f);
        ExecutorData ex;
        ex.startx = x0; ex.endx = x1; ex.starty = y0; ex.endy = y1;
        Sample s; s.posx = qx*0.25f; s.posy = qy*0.25f;
        double one[3] = {1, 1, 1};
        film.add_pixel(&s, linear(one), &ex);
        std::stack<TodoPixel> d = ex.deferred;
        std::ostringstream ds;
        size_t n = d.size();
        while(!d.empty()) { ds << " " << d.top().x << " " << d.top().y; d.pop(); }
        os << n << ds.str();
        film.add_pixel_forced(&ex);
        os << " " << ex.deferred.size();
        if(!film.save_image()) { os << " NOSAVE"; return; }
    }
    int W, H; std::string px;
    if(!read_ppm("g.ppm", W, H, px)) { os << " BADPPM"; return; }
    os << " " << W << " " << H << " ";
    for(int i = 0; i<W*H; i++) os << ((unsigned char)px[i*3]>200?'1':
                                      (unsigned char)px[i*3]>0?'?':'0');
}
static void multi(std::istringstream& is, std::ostringstream& os)
{
    std::string fname; unsigned long seed;
    is >> seed >> fname;
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    int w = j["w"], h = j["h"], r = j["r"], n = j["n"];
    Filter* f = fname == "flat"?(Filter*)new Flat((float)r):
                fname == "bumpy"?(Filter*)new Bumpy((float)r):
                fname == "box"?(Filter*)new FilterBox:
                fname == "tent"?(Filter*)new FilterTent:
                fname == "gaussian"?(Filter*)new FilterGaussian(2.f):
                fname == "mitchell"?(Filter*)new FilterMitchell(0.33f, 0.33f):
                (Filter*)new FilterLanczos(3.f);
    std::vector<double> col(n*3), sx(n), sy(n);
    unsigned long l = seed*7919+11;
    for(double& c : col) { l = l*6364136223846793005UL+1442695040888963407UL;
                           c = (double)((l >> 33)%1000)/1000; }
    unlink("m.ppm");
    std::string left;
    {
        ImageFilm film(w, h, "m.ppm");
        film.set_filter(f);
        std::vector<std::thread> ts;
        size_t N = j["prog"].size();
        std::vector<ExecutorData> ex(N);
#ifndef TSAN
        std::vector<unsigned> sc;
        for(auto& v : j["sched"]) sc.push_back((unsigned)v);
        sched::reset(sc, (int)N, seed);
        sched::active = true; sched::auto_register = false;
#endif
        for(size_t t = 0; t<N; t++)
            ts.emplace_back([&, t]() {
#ifndef TSAN
                sched::reg();
#endif
                ExecutorData& e = ex[t];
                for(auto& op : j["prog"][t])
                {
                    std::string k = op[0];
                    if(k == "A") { e.startx = op[1]; e.endx = op[2];
                                   e.starty = op[3]; e.endy = op[4]; }
                    else if(k == "S")
                    {
                        Sample s; int id = op[1];
                        s.posx = (float)(int)op[2]/8.f;
                        s.posy = (float)(int)op[3]/8.f;
                        sx[id] = s.posx; sy[id] = s.posy;
                        film.add_pixel(&s, linear(&col[id*3]), &e);
                    }
                    else if(k == "T") film.add_pixel_deferred(&e);
                    else film.add_pixel_forced(&e);
                }
            });
        for(auto& t : ts) t.join();
#ifndef TSAN
        sched::active = false;
#endif
        for(auto& e : ex) if(!e.deferred.empty()) left = "LEFT";
        if(!film.save_image()) { os << "BAD nosave"; return; }
    }
    if(!left.empty()) { os << "BAD contributions left after a forced flush"; return; }
    int W, H; std::string px;
    if(!read_ppm("m.ppm", W, H, px) || W != w || H != h) { os << "BAD image"; return; }
    for(int y = 0; y<h; y++)
        for(int x = 0; x<w; x++)
        {
            double s[3] = {0, 0, 0}, ws = 0, wa = 0;
            for(auto& v : j["pix"][y][x])
            {
                int id = v;
                double wt = f->weight((float)(x-(sx[id]-0.5)), (float)(y-(sy[id]-0.5)));
                ws += wt; wa += fabs(wt);
                for(int k = 0; k<3; k++) s[k] += wt*col[id*3+k];
            }
            for(int k = 0; k<3; k++)
            {
                int got = (unsigned char)px[(y*w+x)*3+k], want;
                if(j["pix"][y][x].empty()) want = 0;
                else if(fabs(ws)<0.02*wa || wa<1e-4) continue; // ill conditioned
                else if(ws<0) want = 0;
                else want = byte(s[k]/ws);
                double amp = ws>0?wa/ws:1;
                if(abs(got-want)>1+(int)(amp/8))
                {
                    os << "BAD pixel " << x << "," << y << " channel " << k
                       << " is " << got << " expected " << want;
                    delete f;
                    return;
                }
            }
        }
    delete f;
#ifndef TSAN
    os << "OK " << sched::switches;
#else
    os << "OK";
#endif
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](std::istringstream& is, std::ostringstream& os)
    {
        std::string k; is >> k;
        if(k == "G") geo(is, os); else multi(is, os);
    });
}
