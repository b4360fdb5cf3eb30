// Wavefront OBJ files (C06, C07).
#include "vt.hpp"
#include <cmath>
#include <map>
#include <memory>
#include "nlohmann/json.hpp"
#include "materials/lambertian.hpp"
#include "materials/material_library.hpp"
#include "materials/single_brdf.hpp"
#include "parsers/parser_obj.hpp"
#include "primitives/mesh.hpp"
#include "utility/console.hpp"
using nlohmann::json;
#ifndef TESTS
static int errors_count[5];
#define ERROR_INDEX 0
#endif
typedef double d3[3];
static std::map<std::string, const Bsdf*> mats;
static const Bsdf* mat(const std::string& n)
{
    return n == "Default"?MtlLib.get_default():mats.at(n);
}
static void materials(int many)
{
    std::vector<std::string> names = {"Red", "Green", "Blue"};
    for(int i = 1; i<=many; i++) names.push_back("M"+std::to_string(i));
    for(auto& n : names)
        if(mats.find(n) == mats.end())
        {
            Bsdf* b = new SingleBRDF(new Lambertian());
            mats[n] = b;
            MtlLib.add_inherit(n, b);
        }
}
struct V { double p[3]; bool t; double u[2]; bool n; double m[3]; };
static void sub(const double* a, const double* b, double* o)
{ for(int i = 0; i<3; i++) o[i] = a[i]-b[i]; }
static void crs(const double* a, const double* b, double* o)
{
    o[0] = a[1]*b[2]-a[2]*b[1];
    o[1] = a[2]*b[0]-a[0]*b[2];
    o[2] = a[0]*b[1]-a[1]*b[0];
}
static double len(const double* a)
{ return sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]); }
// twice the area vector of the polygon
static void span(const std::vector<V>& f, double* o)
{
    o[0] = o[1] = o[2] = 0;
    for(size_t i = 2; i<f.size(); i++)
    {
        d3 a, b, c;
        sub(f[i-1].p, f[0].p, a); sub(f[i].p, f[0].p, b);
        crs(a, b, c);
        for(int k = 0; k<3; k++) o[k] += c[k];
    }
}
static bool like(const double* want, const Normal& got, double tol)
{
    double g[3] = {got.x, got.y, got.z}, a = len(want), b = len(g);
    if(!(b>1e-6)) return false;
    double e = 0;
    for(int k = 0; k<3; k++) e += pow(want[k]/a-g[k]/b, 2);
    return sqrt(e)<tol;
}
// shoots at point p of the face from both sides
static std::string probe(const Mesh& m, const double* p, const double* nn,
                         HitPoint* h)
{
    MaskBoolean mask;
    for(int side = -1; side<=1; side += 2)
    {
        Point3 o((float)(p[0]+side*nn[0]), (float)(p[1]+side*nn[1]),
                 (float)(p[2]+side*nn[2]));
        Vec3 d((float)(-side*nn[0]), (float)(-side*nn[1]),
               (float)(-side*nn[2]));
        Ray r(o, d);
        float dist = 1.5f;
        h->differentials = false;
        if(!m.intersect(&r, &dist, h, &mask)) return "missing";
        if(!(fabs(dist-1)<2e-3)) return "misplaced";
    }
    return "";
}
static std::string face(const Mesh& m, const std::vector<V>& f,
                        const Bsdf* want, ParserObj& p,
                        const std::vector<const Bsdf*>& list,
                        const std::vector<unsigned char>& assoc)
{
    d3 nn, c = {0, 0, 0};
    span(f, nn);
    double area = len(nn);
    for(int k = 0; k<3; k++) nn[k] /= area;
    for(auto& v : f) for(int k = 0; k<3; k++) c[k] += v.p[k]/f.size();
    bool hast = true, hasn = true;
    for(auto& v : f) { hast &= v.t; hasn &= v.n; }
    size_t n = f.size();
    for(size_t i = 0; i<n; i++)
    {
        // aligned with its neighbours: in no triangle, maybe
        d3 a, b, x;
        sub(f[(i+n-1)%n].p, f[i].p, a); sub(f[(i+1)%n].p, f[i].p, b);
        crs(a, b, x);
        bool flat = len(x)<1e-9;
        d3 q;
        // of the triangle with its neighbours, so inside any triangle with it
        for(int k = 0; k<3; k++) q[k] = f[i].p[k]+0.0112358*a[k]+0.0071828*b[k];
        // ...unless there is no such triangle
        if(flat)
            for(int k = 0; k<3; k++) q[k] = 0.98*f[i].p[k]+0.0134159*c[k]+0.0065841*f[(i+1)%n].p[k];
        HitPoint h;
        std::string e = probe(m, q, nn, &h);
        if(e != "") return e;
        if(h.index>=assoc.size() || assoc[h.index]>=list.size())
            return "without material";
        if(list[assoc[h.index]] != want) return "with another material";
        if(!hasn && !like(nn, h.normal_h, 1e-3)) return "with another normal";
        if(flat) continue;
        if(hasn && !like(f[i].m, h.normal_h, 0.08))
            return "with another normal";
        if(hast && (fabs(h.uv.x-f[i].u[0])>0.07 ||
                    fabs(h.uv.y-f[i].u[1])>0.07))
            return "with other texture coordinates";
    }
    if(n == 3) // everywhere
        for(int i = 0; i<12; i++)
        {
            double w[3] = {(1+i%4)/10., (1+i%3)/10., 0};
            w[2] = 1-w[0]-w[1];
            d3 q = {0, 0, 0}, nm = {0, 0, 0};
            double u[2] = {0, 0};
            for(int k = 0; k<3; k++)
                for(int j = 0; j<3; j++)
                {
                    q[j] += w[k]*f[k].p[j];
                    nm[j] += w[k]*f[k].m[j];
                    if(j<2) u[j] += w[k]*f[k].u[j];
                }
            HitPoint h;
            std::string e = probe(m, q, nn, &h);
            if(e != "") return e;
            if(hasn && len(nm)>0.3 && !like(nm, h.normal_h, 0.01))
                return "with another normal";
            if(hast && (fabs(h.uv.x-u[0])>0.01 || fabs(h.uv.y-u[1])>0.01))
                return "with other texture coordinates";
        }
    return "";
}
static void parse(std::istringstream& is, std::ostringstream& os)
{
    std::string rest;
    std::getline(is, rest);
    json j = json::parse(rest);
    materials(j.value("many", 0));
    for(int i = 0; i<5; i++) errors_count[i] = 0;
    ParserObj p;
    // another file before this one
    if(j.count("before"))
    {
        p.start_parsing(((std::string)j["before"]).c_str());
        Mesh m(1);
        p.get_next_mesh(&m);
        if((bool)j["closed"]) p.end_parsing();
        for(int i = 0; i<5; i++) errors_count[i] = 0;
    }
    { std::string path = j["file"]; path.reserve(300);
      p.start_parsing(path.c_str()); }
    size_t k = 0;
    int reports = 0;
    const json& want = j["meshes"];
    while(true)
    {
        Mesh m((unsigned)(1+k%3));
        for(int i = 0; i<5; i++) errors_count[i] = 0;
        bool more = p.get_next_mesh(&m);
        reports += errors_count[ERROR_INDEX];
        if(!more) break;
        if(k>=want.size()) { os << "mesh " << k << " not described"; return; }
        const json& w = want[k];
        std::string e;
        if(p.get_mesh_name() != (std::string)w["name"])
            e = "named "+vt::hex(p.get_mesh_name());
        std::vector<std::vector<V>> fs;
        unsigned tris = 0;
        double area = 0;
        for(auto& f : w["faces"])
        {
            std::vector<V> vs;
            for(auto& v : f["vs"])
            {
                V x;
                for(int i = 0; i<3; i++)
                { x.p[i] = (int)v[0][i]/8.; x.m[i] = 0; }
                x.t = !v[1].is_null(); x.n = !v[2].is_null();
                for(int i = 0; i<2; i++) x.u[i] = x.t?(int)v[1][i]/8.:0;
                for(int i = 0; i<3; i++) x.m[i] = x.n?(int)v[2][i]/8.:0;
                vs.push_back(x);
            }
            tris += (unsigned)vs.size()-2;
            d3 s;
            span(vs, s);
            area += len(s)/2;
            fs.push_back(vs);
        }
        if(e == "" && p.get_face_no() != tris)
            e = std::to_string(p.get_face_no())+" triangles instead of "+
                std::to_string(tris);
        std::vector<unsigned char> assoc(p.get_face_no()+1);
        p.get_material_association(assoc.data());
        assoc.resize(p.get_face_no());
        std::vector<const Bsdf*> list(p.get_material_no());
        p.get_materials(list.data());
        if(e == "" && !(fabs(m.surface()-area)<1e-3*area))
            e = "surface "+std::to_string(m.surface())+" instead of "+
                std::to_string(area);
        for(size_t f = 0; f<fs.size() && e == ""; f++)
        {
            e = face(m, fs[f], mat(w["faces"][f]["mat"]), p, list, assoc);
            if(e != "") e = "face "+std::to_string(f)+" "+e;
        }
        if(e != "") { os << "mesh " << k << ": " << e; return; }
        k++;
    }
    if(k<want.size()) { os << "mesh " << k << " missing"; return; }
    for(int i = 0; i<3; i++) // nothing is left
    {
        Mesh m(1);
        if(p.get_next_mesh(&m)) { os << "mesh after the last one"; return; }
        if(m.surface() != 0) { os << "triangles after the last mesh"; return; }
    }
    if((bool)j["end"]) p.end_parsing();
    os << "ok " << reports;
}
// anything: whatever is produced has to be usable
static void damaged(std::istringstream& is, std::ostringstream& os)
{
    std::string rest;
    std::getline(is, rest);
    json j = json::parse(rest);
    materials(j.value("many", 0));
    ParserObj p;
    { std::string path = j["file"]; path.reserve(300);
      p.start_parsing(path.c_str()); }
    unsigned n = 0, faces = 0;
    volatile unsigned char sink = 0;
    while(n<100000)
    {
        Mesh m(1);
        bool more = p.get_next_mesh(&m);
        unsigned char no = p.get_material_no();
        std::vector<unsigned char> assoc(p.get_face_no());
        p.get_material_association(assoc.data());
        std::vector<const Bsdf*> list(no);
        p.get_materials(list.data());
        if(more)
        {
            for(unsigned char a : assoc)
            {
                if(a>=no) { os << "material " << (int)a << " of " << (int)no;
                            return; }
                sink = sink+(list[a] != NULL);
            }
            for(char c : p.get_mesh_name()) sink = sink+(unsigned char)c;
        }
        faces += p.get_face_no();
        MaskBoolean mask;
        for(int i = 0; i<20; i++)
        {
            Ray r(Point3(i*4.f, 1.f, 50.f), Vec3(0, 0, -1));
            float d = FLT_MAX;
            HitPoint h;
            h.differentials = false;
            if(m.intersect(&r, &d, &h, &mask) && h.index>=p.get_face_no())
            { os << "triangle " << h.index << " of " << p.get_face_no();
              return; }
        }
        if(!more) break;
        n++;
    }
    if(n == 100000) { os << "meshes without end"; return; }
    p.end_parsing();
    os << "ok " << n << " " << faces;
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv,
                   [](std::istringstream& is, std::ostringstream& os)
    {
        std::string k;
        is >> k;
        if(k == "parse") parse(is, os);
        else damaged(is, os);
    });
}
