// Geometry: meshes, primitives, boxes and transformations.
#include "vt.hpp"
#include <memory>
#include <map>
#include <cmath>
#include "nlohmann/json.hpp"
#include "primitives/asset.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
#include "geometry/AABB.hpp"
#include "geometry/matrix4.hpp"
#include "materials/single_brdf.hpp"
#include "materials/lambertian.hpp"
using nlohmann::json;
static Point3 pt(const json& j)
{
    return Point3((int)j[0]*0.5f, (int)j[1]*0.5f, (int)j[2]*0.5f);
}
static Vec3 vc(const json& j)
{
    return Vec3((float)(int)j[0], (float)(int)j[1], (float)(int)j[2]);
}
static Normal up(const Point3& a, const Point3& b, const Point3& c)
{
    Normal n(cross(b-a, c-a));
    n.normalize();
    return n;
}
static void setv(Vertex& v, const Point3& p, const Normal& n, float x, float y)
{
    v.p = p; v.n = n; v.t = Point2(x, y);
}
// ---- C04 ------------------------------------------------------------------
static void mesh(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    Mesh m((unsigned)((int)j["tris"].size()%3+1));
    for(auto& t : j["tris"])
    {
        Point3 a = pt(t["a"]), b = pt(t["b"]), c = pt(t["c"]);
        m.add_triangle(a, b, c, up(a, b, c));
    }
    m.finalize();
    MaskBoolean mask;
    for(int again = 0; again<2; again++)
    for(auto& r : j["rays"])
    {
        Vec3 d = vc(r[1]);
        float len = d.length();
        d.normalize();
        Ray ray(pt(r[0]), d);
        float lim = (float)(int)r[2][0]/(int)r[2][1]*len/2;
        float dist = (int)r[2][0] == 1000?FLT_MAX:lim;
        float before = dist;
        HitPoint h; h.differentials = false; h.index = 77777;
        h.point_h = Point3(-9, -9, -9);
        bool res = m.intersect(&ray, &dist, &h, &mask);
        if(!res)
        {
            bool same = dist == before && h.index == 77777 && h.point_h.x == -9;
            os << (same?"- ":"! ");
            continue;
        }
        Vec3 v = h.point_h-ray.origin;
        Vec3 off = v-d*dist;
        char b[128];
        snprintf(b, sizeof(b), "%u,%.7g,%.3g ", h.index+1, dist*2/len, off.length());
        os << b;
    }
}
// many triangles shrinking towards a point: deep trees; against every triangle
static void deep(std::istringstream& is, std::ostringstream& os)
{
    int n, mode; unsigned long l;
    is >> n >> mode >> l;
    auto rnd = [&l]() { l = l*6364136223846793005UL+1442695040888963407UL;
                        return (float)((l >> 33)%100003)/100003.f; };
    Mesh m(1);
    std::vector<std::unique_ptr<Mesh>> one;
    std::vector<Point3> mid;
    std::vector<float> size;
    for(int i = 0; i<n; i++)
    {
        float s; Point3 p;
        if(mode == 0)
        {
            s = powf(2.f, -21.f*i/n); int k = i%3;
            p = Point3(k == 0?s:0, k == 1?s:0, k == 2?s:0);
        }
        else if(mode == 1) { s = powf(2.f, -60.f*i/n); p = Point3(s, s, s); }
        else if(mode == 2) { s = powf(2.f, -21.f*rnd()); p = Point3(s, s*rnd(), s); }
        else if(mode == 3) { s = 1; p = Point3(rnd()*40, rnd()*40, rnd()*40); }
        else { s = powf(1.05f, -(float)i); p = Point3(s, -s, s); }
        s *= 0.3f;
        Point3 a = p, b = p+Vec3(s, 0, s*0.3f), c = p+Vec3(0, s, s);
        if(mode == 3 && i%50 == 0) { b = p+Vec3(20, 3, 1); c = p+Vec3(1, 20, 9); }
        Normal up(0, 0, 1);
        size.push_back(s);
        m.add_triangle(a, b, c, up);
        one.emplace_back(new Mesh(1));
        one.back()->add_triangle(a, b, c, up);
        one.back()->finalize();
        mid.push_back(Point3((a.x+b.x+c.x)/3, (a.y+b.y+c.y)/3, (a.z+b.z+c.z)/3));
    }
    m.finalize();
    MaskBoolean mask;
    int bad = 0, hits = 0;
    for(int i = 0; i<n; i += 1+n/300)
        for(int q = 0; q<4; q++)
        {
            Vec3 d(rnd()-0.5f, rnd()-0.5f, rnd()-0.5f);
            if(q == 0) d = Vec3(1, 1, 1);
            d.normalize();
            Point3 o = q == 3?Point3(rnd(), rnd(), rnd()):mid[i]+d*(-3.f);
            Ray r(o, d);
            HitPoint h, g; h.differentials = g.differentials = false;
            float dist = FLT_MAX, best = FLT_MAX; int who = -1;
            bool res = m.intersect(&r, &dist, &h, &mask);
            for(int k = 0; k<n; k++)
                if(one[k]->intersect(&r, &best, &g, &mask)) who = k;
            if(res) hits++;
            // triangles too small for single precision may go either way
            bool clear = (who<0 || size[who]>1e-4f) && (!res || size[h.index]>1e-4f);
            if(clear && (res != (who>=0) || dist != best)) bad++;
        }
    os << bad << " " << hits;
}
// a sheet of n*n cells, two triangles each: the answer is known for every ray
static void sheet(std::istringstream& is, std::ostringstream& os)
{
    int n; is >> n;
    Mesh m(10);
    Normal up(0, 0, 1);
    for(int j = 0; j<n; j++)
        for(int i = 0; i<n; i++)
        {
            Point3 a((float)i, (float)j, 0), b((float)i+1, (float)j, 0),
                   c((float)i+1, (float)j+1, 0), d((float)i, (float)j+1, 0);
            m.add_triangle(a, b, c, up);
            m.add_triangle(a, c, d, up);
        }
    m.finalize();
    MaskBoolean mask;
    int bad = 0;
    for(int q = 0; q<20000; q++)
    {
        int k = (int)((long)q*7919%(2L*n*n));
        float x = (float)(k/2%n)+(k%2 == 0?0.75f:0.25f), y = (float)(k/2/n)+(k%2 == 0?0.25f:0.75f);
        Ray r(Point3(x, y, q%3 == 0?-5.f:5.f), Vec3(0, 0, q%3 == 0?1.f:-1.f));
        HitPoint h; h.differentials = false; float dist = FLT_MAX;
        if(!m.intersect(&r, &dist, &h, &mask) || fabsf(dist-5.f)>1e-3f ||
           (int)h.index != k) bad++;
    }
    os << bad << " " << m.get_faces_number();
}
// ---- C23 ------------------------------------------------------------------
static AABB bx(const json& b)
{
    if((bool)b["e"]) return AABB();
    return AABB(pt(b["lo"]), pt(b["hi"]));
}
static bool same(const AABB& a, const json& b)
{
    if((bool)b["e"]) return a.bounds[0].x>a.bounds[1].x;
    Point3 l = pt(b["lo"]), h = pt(b["hi"]);
    return a.bounds[0].x == l.x && a.bounds[0].y == l.y && a.bounds[0].z == l.z &&
           a.bounds[1].x == h.x && a.bounds[1].y == h.y && a.bounds[1].z == h.z;
}
static bool close(float a, double b) { return fabs(a-b)<=1e-4*(1+fabs(b)); }
static void boxes(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    AABB b;
    int n = -1;
    auto bad = [&](const std::string& w)
        { os << n << ":" << j[n].dump() << " " << w << "; "; };
    for(auto& o : j)
    {
        n++;
        std::string k = o[0];
        if(k == "p")
        {
            Point3 p = pt(o[2]);
            switch((int)o[1])
            {
                case 0: b.engulf(p); break;
                case 1: b.engulf(&p); break;
                case 2: b = b+p; break;
                default: b += p;
            }
            if(!same(b, o[3])) bad("wrong box");
        }
        else if(k == "b")
        {
            AABB p = bx(o[2]);
            switch((int)o[1])
            {
                case 0: b.engulf(p); break;
                case 1: b.engulf(&p); break;
                case 2: b = b+p; break;
                default: b += p;
            }
            if(!same(b, o[3])) bad("wrong box");
        }
        else if(k == "e")
        {
            b.expand((int)o[1]*0.5f);
            if(!same(b, o[2])) bad("wrong box");
        }
        else if(k == "n")
        {
            Point3 l = pt(o[2]["lo"]), h = pt(o[2]["hi"]);
            if((bool)o[2]["e"]) b = AABB();
            else if((int)o[1]%2 == 0 && o[2]["lo"] == o[2]["hi"]) b = AABB(l);
            else if((int)o[1]%3 == 0) b = AABB(&l, &h);
            else b = AABB(l, h);
            if(!same(b, o[3])) bad("wrong box");
        }
        else if(k == "i")
        {
            Point3 p = pt(o[1]);
            if(b.inside(&p) != (bool)o[2]) bad("containment");
        }
        else if(k == "m")
        {
            if(!close(b.surface(), (int)o[1]/4.0)) bad("surface");
            if(!close(b.volume(), (int)o[2]/8.0)) bad("volume");
            Point3 c = b.center();
            if(!close(c.x, (int)o[4][0]/4.0) || !close(c.y, (int)o[4][1]/4.0) ||
               !close(c.z, (int)o[4][2]/4.0)) bad("center");
            bool ok = false;
            for(auto& a : o[3]) ok = ok || b.longest_axis()+1 == (int)a;
            if(!ok) bad("longest axis");
        }
        else if(k == "c")
        {
            AABB c = bx(o[1]);
            int l = o[2], r = o[3];
            if((b<c) != (l<r) || (b>c) != (l>r) || (b<=c) != (l<=r) ||
               (b>=c) != (l>=r) || (b == c) != (l == r) || (b != c) != (l != r))
                bad("order");
        }
        else if(k == "r")
        {
            Vec3 d = vc(o[2]);
            int nz = o[3];
            if(d.x == 0 && (nz & 1)) d.x = -0.f;
            if(d.y == 0 && (nz & 2)) d.y = -0.f;
            if(d.z == 0 && (nz & 4)) d.z = -0.f;
            Ray r(pt(o[1]), d);
            RayProperties rp(r);
            float p[4] = {-77.f, -77.f, -77.f, -77.f};
            bool h1 = b.intersect(&r, p, p+1);
            bool h2 = b.intersect(&r, &rp, p+2, p+3);
            bool hit = o[4][0];
            double t0 = (int)o[4][1]/8.0, t1 = (int)o[4][2]/8.0;
            if(h1 != hit) bad("ray test");
            else if(hit && (!close(p[0], t0) || !close(p[1], t1))) bad("ray distances");
            if(h2 != hit) bad("ray test with properties");
            else if(hit && (!close(p[2], t0) || !close(p[3], t1)))
                bad("ray distances with properties");
        }
    }
}
// ---- C24 ------------------------------------------------------------------
static Point3 q4(const json& j)
{
    return Point3((int)j[0]*0.25f, (int)j[1]*0.25f, (int)j[2]*0.25f);
}
static void prim(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    float v[16];
    for(int r = 0; r<3; r++)
    {
        for(int c = 0; c<3; c++) v[r*4+c] = (float)(int)j["m"][r][c];
        v[r*4+3] = (int)j["tr"][r]*0.25f;
        v[12+r] = 0;
    }
    v[15] = 1;
    Matrix4 mat(v);
    Sphere sphere; Box box; Mesh mesh(1);
    std::string kind = j["kind"];
    if(kind == "tri")
    {
        auto& t = j["tri"];
        Vertex x[3];
        const char* p[3] = {"a", "b", "c"};
        for(int i = 0; i<3; i++)
        {
            Vec3 n = vc(t[std::string("n")+p[i]]);
            auto& uv = t[std::string("t")+p[i]];
            setv(x[i], q4(t[p[i]]), Normal(n.x, n.y, n.z), (float)(int)uv[0],
                 (float)(int)uv[1]);
        }
        mesh.add_triangle(x, x+1, x+2);
        mesh.finalize();
    }
    const Shape* sp = kind == "box"?(Shape*)&box:
                      kind == "sphere"?(Shape*)&sphere:(Shape*)&mesh;
    Asset a(sp, mat, 1);
    for(auto& r : j["rays"])
    {
        Vec3 d = vc(r["d"]);
        float len = d.length();
        d.normalize();
        Ray ray(q4(r["o"]), d);
        int l = r["lim"];
        float dist = l == 0?FLT_MAX:l*len/4, before = dist;
        HitPoint h; h.differentials = false; h.index = 77777;
        h.point_h = Point3(-9, -9, -9); h.normal_h = Normal(7, 7, 7);
        h.uv = Point2(-3, -3);
        bool res = a.intersect(&ray, &dist, &h);
        if(!res)
        {
            bool same = dist == before;
            os << (same?"- ":"! ");
            continue;
        }
        Vec3 off = h.point_h-ray.origin-d*dist;
        // leaving along the normal of a convex shape: nothing else to meet
        Vec3 out(h.normal_h.x, h.normal_h.y, h.normal_h.z);
        Ray away(h.point_h, out);
        float far = FLT_MAX; HitPoint g; g.differentials = false;
        bool again = kind != "tri" && a.intersect(&away, &far, &g);
        Vec3 op = h.point_h-q4(j["tr"]);
        char b[400];
        snprintf(b, sizeof(b), "%.7g,%.3g,%.5g,%.5g,%.5g,%.6g,%.6g,%.5g,%.5g,%.5g,"
                 "%.5g,%.5g,%.5g,%d,%.6g,%.6g,%.6g ",
                 dist*4/len, off.length(), h.normal_h.x, h.normal_h.y,
                 h.normal_h.z, h.uv.x, h.uv.y, h.dpdu.x, h.dpdu.y, h.dpdu.z,
                 h.dpdv.x, h.dpdv.y, h.dpdv.z, (int)again, op.x, op.y, op.z);
        os << b;
    }
}
// ---- C22 ------------------------------------------------------------------
static bool near3(float a, float b, float c, double x, double y, double z,
                  double tol = 2e-4)
{
    double m = tol*(1+fmax(fabs(x), fmax(fabs(y), fabs(z))));
    return fabs(a-x)<=m && fabs(b-y)<=m && fabs(c-z)<=m;
}
static void xform(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    Matrix4 m, acc, viamul; // operator*, operator*=, mul()
    m.set_identity(); acc.set_identity(); viamul.set_identity();
    int n = -1;
    auto bad = [&](const std::string& w)
        { os << n << ":" << j[n].dump() << " " << w << "; "; };
    for(auto& o : j)
    {
        n++;
        std::string k = o["n"];
        if(k == "0") continue;
        if(k == "L")
        {
            Vec3 pv = vc(o["pos"]), ev = vc(o["eye"]), up = vc(o["up"]);
            Point3 pos(pv.x, pv.y, pv.z), eye(ev.x, ev.y, ev.z);
            Matrix4 l; l.set_lookAt_inverse(pos, eye, up);
            Vec3 ax[3] = {vc(o["x"]), vc(o["y"]), vc(o["z"])};
            for(int i = 0; i<3; i++)
            {
                ax[i].normalize();
                Vec3 got = l*Vec3(i == 0, i == 1, i == 2);
                if(!near3(got.x, got.y, got.z, ax[i].x, ax[i].y, ax[i].z))
                    bad("camera axis");
            }
            Point3 c = l*Point3(0, 0, 0);
            if(!near3(c.x, c.y, c.z, pos.x, pos.y, pos.z)) bad("camera position");
            continue;
        }
        auto& p = o["p"]; auto& d = o["d"];
        Matrix4 x; x.set_identity();
        if(k == "T") x.set_translation(vc(p));
        else if(k == "S")
        {
            if(p[0] == p[1] && p[1] == p[2] && n%2 == 0) x.set_scale((float)(int)p[0]);
            else x.set_scale(vc(p));
        }
        else if(k == "R")
        {
            float a = (int)p[1]*1.57079632679f;
            if((int)p[0] == 1) x.set_rotate_x(a);
            else if((int)p[0] == 2) x.set_rotate_y(a);
            else x.set_rotate_z(a);
        }
        else if(k == "H") x.set_scale(powf(0.5f, (float)(int)p[0]));
        else
        {
            float v[16];
            x.to_array(v);
            v[4*((int)p[0]-1)+(int)p[1]-1] = (float)(int)p[2];
            x = Matrix4(v);
        }
        Matrix4 out; out.set_zero();
        if(o["left"]) { m = x*m; mul(&x, &viamul, &out); viamul = out;
                        Matrix4 y(x); y *= acc; acc = y; }
        else { m = m*x; mul(&viamul, &x, &out); viamul = out; acc *= x; }
        double s = pow(0.5, (int)o["e"]);
        auto D = [&](const json& a, double f) {
            return std::vector<double>{(int)a[0]*f, (int)a[1]*f, (int)a[2]*f}; };
        for(Matrix4* q : {&m, &acc, &viamul})
        {
            float v[16]; q->to_array(v);
            for(int r = 0; r<3; r++)
            {
                auto e = D(d["m"][r], s);
                if(!near3(v[4*r], v[4*r+1], v[4*r+2], e[0], e[1], e[2]) ||
                   fabs(v[4*r+3]-(int)d["t"][r]*s)>2e-4*(1+fabs((int)d["t"][r]*s)))
                { bad("product"); break; }
            }
            if(v[12] != 0 || v[13] != 0 || v[14] != 0 || v[15] != 1) bad("last row");
        }
        // from here on use the exact matrix: rounding does not pile up
        float ex[16];
        for(int r = 0; r<3; r++)
        {
            for(int c = 0; c<3; c++) ex[4*r+c] = (float)((int)d["m"][r][c]*s);
            ex[4*r+3] = (float)((int)d["t"][r]*s);
            ex[12+r] = 0;
        }
        ex[15] = 1;
        m = acc = viamul = Matrix4(ex);
        Vec3 tr = m.get_translation(), sc = m.get_scale();
        auto te = D(d["t"], s);
        if(!near3(tr.x, tr.y, tr.z, te[0], te[1], te[2])) bad("translation");
        if(!near3(sc.x, sc.y, sc.z, sqrt((int)d["cols"][0])*s,
                  sqrt((int)d["cols"][1])*s, sqrt((int)d["cols"][2])*s)) bad("scale");
        Matrix4 tp; m.transpose(&tp);
        float tv[16]; tp.to_array(tv);
        for(int r = 0; r<4; r++) for(int c = 0; c<4; c++)
            if(tv[4*r+c] != ex[4*c+r]) { bad("transpose"); r = c = 4; }
        Matrix4 sum1 = m+x, sum2(m), sum3; sum2 += x; sum(&m, &x, &sum3);
        Matrix4 b1 = sum1-x, b2(sum2), b3; b2 -= x; sub(&sum3, &x, &b3);
        if(!(b1 == m) || !(b2 == m) || !(b3 == m) || b1 != m) bad("sum and difference");
        float xa[16], sa[16]; x.to_array(xa); sum1.to_array(sa);
        for(int r = 0; r<16; r++)
            if(fabsf(sa[r]-xa[r]-ex[r])>1e-3f) { bad("sum"); break; }
        if(!(sum1 == sum2) || sum1 != sum3) bad("sums differ");
        // points, vectors, rays
        for(auto& q : d["p"])
        {
            Vec3 a = vc(q[0]); auto e = D(q[1], s);
            Point3 g = m*Point3(a.x, a.y, a.z);
            if(!near3(g.x, g.y, g.z, e[0], e[1], e[2])) bad("point");
            Ray r = m*Ray(Point3(a.x, a.y, a.z), vc(d["v"][0]));
            auto dv = D(d["v"][1], s);
            if(!near3(r.origin.x, r.origin.y, r.origin.z, e[0], e[1], e[2]) ||
               !near3(r.direction.x, r.direction.y, r.direction.z, dv[0], dv[1], dv[2]))
                bad("ray");
        }
        {
            Vec3 g = m*vc(d["v"][0]); auto e = D(d["v"][1], s);
            if(!near3(g.x, g.y, g.z, e[0], e[1], e[2])) bad("vector");
        }
        // inverse
        Matrix4 inv; inv.set_scale(123.f);
        bool ok = m.inverse(&inv);
        int det = d["det"];
        if(ok != (det != 0)) { bad("invertible"); continue; }
        if(!ok)
        {
            float v[16]; inv.to_array(v);
            if(v[0] != 123.f || v[5] != 123.f || v[15] != 1.f || v[3] != 0.f)
                bad("a singular matrix writes an inverse");
            m.set_identity(); // the specification goes on with singular ones
            m = Matrix4(ex);
            continue;
        }
        float v[16]; inv.to_array(v);
        for(int r = 0; r<3; r++)
        {
            auto e = D(d["adj"][r], 1.0/s/det);
            if(!near3(v[4*r], v[4*r+1], v[4*r+2], e[0], e[1], e[2]) ||
               fabs(v[4*r+3]+(double)(int)d["adjt"][r]/det)>
               1e-3*(1+fabs((double)(int)d["adjt"][r]/det)))
            { bad("inverse"); break; }
        }
        for(auto& q : d["p"])
        {
            Vec3 a = vc(q[0]); auto e = D(q[1], s);
            Point3 g = inv*Point3((float)e[0], (float)e[1], (float)e[2]);
            if(!near3(g.x, g.y, g.z, a.x, a.y, a.z, 2e-3)) bad("point back");
        }
        {
            Vec3 a = vc(d["n"][0]);
            if(a.length()>0)
            {
                Normal g = transform_normal(Normal(a.x, a.y, a.z), &inv);
                Vec3 e = vc(d["n"][1]);
                g.normalize(); e.normalize();
                if(!near3(g.x, g.y, g.z, e.x, e.y, e.z, 1e-3)) bad("normal");
            }
        }
        // world bounding boxes
        Sphere ball; Box box; Mesh mesh(1);
        Vec3 c[3] = {vc(d["p"][0][0]), vc(d["p"][1][0]), vc(d["p"][2][0])};
        mesh.add_triangle(Point3(c[0].x, c[0].y, c[0].z), Point3(c[1].x, c[1].y, c[1].z),
                          Point3(c[2].x, c[2].y, c[2].z), Normal(0, 0, 1));
        mesh.finalize();
        Asset ab(&ball, m, 1), bb(&box, m, 1), mb(&mesh, m, 1);
        const AABB* w[3] = {ab.get_AABB(), bb.get_AABB(), mb.get_AABB()};
        for(int i = 0; i<3; i++)
        {
            const json& outer = i == 0?d["ball"]:i == 1?d["box"]:d["mesh"][1];
            const json& inner = i == 1?d["box"]:d["mesh"][0];
            for(int a = 0; a<3; a++)
            {
                double il, ih, rt = sqrt((int)d["rows"][a])*s, ce = (int)d["t"][a]*s;
                if(i == 0) { il = ce-rt; ih = ce+rt; }
                else { il = (int)inner[0][a]*s; ih = (int)inner[1][a]*s; }
                double ol = (int)outer[0][a]*s, oh = (int)outer[1][a]*s;
                double tol = 1e-4*(1+fabs(oh)+fabs(ol));
                float lo = w[i]->bounds[0][a], hi = w[i]->bounds[1][a];
                if(!(lo<=il+tol && lo>=ol-tol && hi>=ih-tol && hi<=oh+tol))
                { bad("world box of shape "+std::to_string(i)); break; }
            }
        }
    }
}
// ---- C26 ------------------------------------------------------------------
static bool rel(double a, double b, double t = 1e-3) { return fabs(a-b)<=t*(1e-6+fabs(b)); }
static void book(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    auto bad = [&](const std::string& w) { os << w << "; "; };
    Mesh m((unsigned)(int)j["size"]);
    int i = 0, n = j["n"], ax = j["axis"];
    for(auto& t : j["ops"])
    {
        Point3 a = pt(t[0]), b = pt(t[1]), c = pt(t[2]);
        if(i++%2 == 0) m.add_triangle(a, b, c, up(a, b, c));
        else
        {
            Vertex x[3];
            setv(x[0], a, up(a, b, c), 0, 0); setv(x[1], b, up(a, b, c), 1, 0);
            setv(x[2], c, up(a, b, c), 0, 1);
            m.add_triangle(x, x+1, x+2);
        }
    }
    if(m.get_faces_number() != n) bad("count before finalize");
    m.finalize();
    if(m.get_faces_number() != n) bad("count");
    double total = (int)j["total"]/8.0;
    if(!rel(m.surface(), total)) bad("area");
    AABB box = m.compute_AABB();
    Point3 lo = pt(j["lo"]), hi = pt(j["hi"]);
    for(int k = 0; k<3; k++)
        if(!close(box.bounds[0][k], lo[k]) || !close(box.bounds[1][k], hi[k]))
        { bad("bounding box"); break; }
    // scaled, turned and moved
    Matrix4 s, r, t; Vec3 sc = vc(j["scale"]);
    s.set_scale(sc); t.set_translation(vc(j["move"]));
    float an = (int)j["turn"][1]*1.57079632679f;
    switch((int)j["turn"][0])
    {
        case 1: r.set_rotate_x(an); break;
        case 2: r.set_rotate_y(an); break;
        default: r.set_rotate_z(an);
    }
    Matrix4 w = t*r*s;
    double f = ax == 1?sc.y*sc.z:ax == 2?sc.x*sc.z:sc.x*sc.y;
    if(!rel(m.surface(&w), total*f)) bad("transformed area");
    // materials follow the faces
    Asset a(&m, w, 1);
    static char pool[256];
    for(auto& mm : j["mats"])
    {
        int nm = mm["n"];
        std::vector<const Bsdf*> ptr;
        for(int k = 0; k<nm; k++) ptr.push_back((const Bsdf*)(pool+k));
        std::vector<unsigned char> idx;
        for(auto& x : mm["idx"]) idx.push_back((unsigned char)(int)x);
        a.set_materials(ptr.data(), (unsigned char)nm, idx.data());
        for(int k = 0; k<nm; k++) ptr[k] = NULL;   // the asset has its own copy
        std::vector<unsigned char> want(idx);
        idx.assign(idx.size(), 77);
        for(int k = 0; k<n; k++)
        {
            auto& v = j["tris"][k]["v"];
            Point3 p = pt(v[0]), q = pt(v[1]), u = pt(v[2]);
            Point3 g((2*p.x+q.x+u.x)/4, (2*p.y+q.y+u.y)/4, (2*p.z+q.z+u.z)/4);
            Vec3 d(ax == 1, ax == 2, ax == 3);
            if(k%2) d *= -1.f;
            Ray ray = w*Ray(g-d*3.f, d);
            ray.direction.normalize();
            HitPoint h; h.differentials = false; float dist = FLT_MAX;
            if(!a.intersect(&ray, &dist, &h)) { bad("face "+std::to_string(k)+" not hit"); break; }
            if(a.get_material(h.index) != (const Bsdf*)(pool+want[k]))
            { bad("material of face "+std::to_string(k)); break; }
        }
    }
    // points of the surface
    std::vector<float> cd(n+1, -1.f);
    m.get_densities_array(&w, cd.data());
    if(cd[n] != -1.f) bad("densities past the end");
    for(int k = 1; k<n; k++) if(cd[k]<cd[k-1]) bad("densities not increasing");
    if(!rel(cd[n-1], total*f)) bad("total density");
    int units = (int)j["total"]/4, per = 32;
    std::vector<int> hits(n, 0);
    std::map<int, int> where;
    for(int k = 0; k<n; k++) where[(int)j["tris"][k]["cell"]] = k;
    long quarter[4] = {0, 0, 0, 0};
    std::string err;
    for(int k = 0; k<units*per && err.empty(); k++)
    {
        float r0 = (float)((k+0.5)/((double)units*per));
        float r1 = (float)fmod(k*0.6180339887498949+0.11, 1.0);
        Point3 p; Normal nn;
        m.sample_point(r0, r1, cd.data(), &p, &nn);
        float x = ax == 1?p.y:ax == 2?p.z:p.x, y = ax == 1?p.z:ax == 2?p.x:p.y;
        int cell = (int)floor(x/4+1e-4)+16*(int)floor(y/4+1e-4);
        if(!where.count(cell)) { err = "sampled point outside every face"; break; }
        auto& tr = j["tris"][where[cell]];
        Point3 A = pt(tr["v"][0]), B = pt(tr["v"][1]), C = pt(tr["v"][2]);
        Vec3 ba = B-A, ca = C-A, pa = p-A;
        Vec3 N = cross(ba, ca);
        double den = N.dot(N), v = cross(pa, ca).dot(N)/den, u = cross(ba, pa).dot(N)/den;
        if(fabs(pa.dot(N))>1e-3 || v<-1e-3 || u<-1e-3 || u+v>1.001)
            err = "sampled point off the face";
        N.normalize();
        if(fabs(N.x-nn.x)+fabs(N.y-nn.y)+fabs(N.z-nn.z)>1e-3) err = "normal of the sampled point";
        hits[where[cell]]++;
        quarter[v>0.5?0:u>0.5?1:u+v<0.5?2:3]++;
    }
    if(!err.empty()) bad(err);
    else
    {
        for(int k = 0; k<n; k++)
        {
            int want = (int)j["tris"][k]["wh"]/4*per;
            if(abs(hits[k]-want)>2) { bad("face "+std::to_string(k)+" sampled "+
                std::to_string(hits[k])+" times instead of "+std::to_string(want)); break; }
        }
        if(units*per>1000)
            for(long q : quarter)
                if(fabs(q/(double)(units*per)-0.25)>0.03)
                { bad("a face is not sampled uniformly"); break; }
    }
}
// sampling a box or a sphere: equal areas are drawn equally often
static void solids(std::istringstream& is, std::ostringstream& os)
{
    int sx, sy, sz; is >> sx >> sy >> sz;
    Matrix4 s; s.set_scale(Vec3((float)sx, (float)sy, (float)sz));
    Box b; Sphere sp;
    double A = 2.0*(sx*sy+sx*sz+sy*sz);
    if(!rel(b.surface(&s), A) || !rel(b.surface(), 6)) os << "area of a box; ";
    float cd[7]; cd[6] = -1;
    b.get_densities_array(&s, cd);
    if(!rel(cd[5], A)) os << "density of a box; ";
    int per = 400, N = (int)A*per;
    long hits[3][2][4] = {};
    for(int k = 0; k<N; k++)
    {
        float r0 = (float)((k+0.5)/N), r1 = (float)fmod(k*0.6180339887498949+0.11, 1.0);
        Point3 p; Normal n;
        b.sample_point(r0, r1, cd, &p, &n);
        int ax = n.x != 0?0:n.y != 0?1:2;
        if(fabs(fabs(n.x)+fabs(n.y)+fabs(n.z)-1)>1e-5 ||
           fabs(p[ax]-(n[ax]>0?1:0))>1e-5) { os << "point not on its face; "; return; }
        for(int i = 0; i<3; i++) if(p[i]<-1e-4 || p[i]>1.0001) { os << "point outside; "; return; }
        hits[ax][n[ax]>0][(p[(ax+1)%3]>0.5)+2*(p[(ax+2)%3]>0.5)]++;
    }
    int ar[3] = {sy*sz, sx*sz, sx*sy};
    for(int a = 0; a<3; a++) for(int h = 0; h<2; h++)
    {
        long t = 0;
        for(int q = 0; q<4; q++)
        {
            t += hits[a][h][q];
            if(fabs(hits[a][h][q]-ar[a]*per/4.0)>6+ar[a]*per*0.02) { os << "face not sampled uniformly; "; a = 3; h = 2; break; }
        }
        if(a<3 && labs(t-(long)ar[a]*per)>3) { os << "faces not sampled by their area; "; a = 3; break; }
    }
    long oct[8] = {};
    int M = 200;
    for(int x = 0; x<M; x++) for(int y = 0; y<M; y++)
    {
        Point3 p; Normal n;
        sp.sample_point((x+0.5f)/M, (y+0.5f)/M, cd, &p, &n);
        if(fabs(p.x*p.x+p.y*p.y+p.z*p.z-1)>1e-4) { os << "point off the sphere; "; return; }
        if(fabs(p.x-n.x)+fabs(p.y-n.y)+fabs(p.z-n.z)>1e-4) { os << "normal of a sphere; "; return; }
        oct[(p.x>0)+2*(p.y>0)+(fabs(p.z)>0.5?4:0)]++;
    }
    for(int k = 0; k<8; k++) if(fabs(oct[k]-M*M/8.0)>M*M*0.01) { os << "sphere not sampled uniformly; "; break; }
    Matrix4 u; u.set_scale((float)sx);
    if(!rel(sp.surface(&u), 4*3.14159265*sx*sx) || !rel(sp.surface(), 4*3.14159265)) os << "area of a sphere; ";
}
static void crowd(std::istringstream& is, std::ostringstream& os)
{
    int n; is >> n;
    Mesh m(3);
    Point3 a(0, 0, 0), b(1, 0, 0), c(0, 1, 0); Normal up(0, 0, 1);
    for(int i = 0; i<n; i++) m.add_triangle(a, b, c, up);
    os << m.get_faces_number();
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](std::istringstream& is, std::ostringstream& os)
    {
        std::string k; is >> k;
        if(k == "M") mesh(is, os);
        else if(k == "D") deep(is, os);
        else if(k == "G") sheet(is, os);
        else if(k == "K") book(is, os);
        else if(k == "W") solids(is, os);
        else if(k == "N") crowd(is, os);
        else if(k == "X") xform(is, os);
        else if(k == "P") prim(is, os);
        else if(k == "B") boxes(is, os);
    });
}
