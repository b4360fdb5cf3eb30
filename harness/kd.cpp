// Drives the real KdTree.  Cases:
//  H json      history of spec KdHist (lattice coordinates, half units)
//  L n         n assets in a row, one ray at each of them
//  S n m       n assets sharing m layers, so that leaves hold many references
#include "vt.hpp"
#include <memory>
#include "nlohmann/json.hpp"
#include "accelerators/kdtree.hpp"
#include "primitives/box.hpp"
#include "primitives/mesh.hpp"
#include "primitives/sphere.hpp"
using nlohmann::json;
static Point3 pt(const json& j)
{
    return Point3((int)j[0]*0.5f, (int)j[1]*0.5f, (int)j[2]*0.5f);
}
struct World
{
    std::vector<std::unique_ptr<Mesh>> meshes;
    std::vector<std::unique_ptr<Asset>> assets;
    Box box; Sphere sphere; Matrix4 id;
    World() { id.set_identity(); }
    const Asset* addbox(const Point3& lo, const Point3& hi)
    {
        Matrix4 s, t, m;
        s.set_scale(hi-lo);
        t.set_translation(Vec3(lo.x, lo.y, lo.z));
        m = t*s;
        assets.emplace_back(new Asset(&box, m, 1));
        return assets.back().get();
    }
    const Asset* addtri(const Point3& a, const Point3& b, const Point3& c)
    {
        std::unique_ptr<Mesh> m(new Mesh(1));
        Normal n(cross(b-a, c-a));
        n.normalize();
        m->add_triangle(a, b, c, n);
        m->finalize();
        assets.emplace_back(new Asset(m.get(), id, 1));
        meshes.push_back(std::move(m));
        return assets.back().get();
    }
};
static void history(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    World w;
    KdTree tree;
    std::vector<const Asset*> as(j["shapes"].size()+1, (const Asset*)NULL);
    std::vector<bool> good(as.size(), false);
    for(auto& g : j["good"]) good[(int)g] = true;
    bool open = true;
    for(auto& op : j["ops"])
    {
        std::string k = op[0];
        if(k == "A")
            for(int i = op[1]; i<=(int)op[2]; i++)
            {
                if(!good[i]) continue;
                auto& s = j["shapes"][i-1];
                if(s["kind"] == "box") as[i] = w.addbox(pt(s["lo"]), pt(s["hi"]));
                else as[i] = w.addtri(pt(s["a"]), pt(s["b"]), pt(s["c"]));
                tree.addAsset(as[i]);
                open = true;
            }
        else if(k == "B")
            tree.buildTree();
        else if(k == "R")
        {
            Point3 o = pt(op[1]);
            Vec3 d((float)(int)op[2][0], (float)(int)op[2][1], (float)(int)op[2][2]);
            float len = d.length();
            d.normalize();
            Ray r(o, d);
            HitPoint h;
            h.asset_h = NULL; h.differentials = false;
            bool res = tree.intersect(&r, &h);
            if(!res) { os << "- "; continue; }
            int who = 0;
            for(size_t i = 1; i<as.size(); i++)
                if(as[i] != NULL && as[i] == h.asset_h) who = (int)i;
            Vec3 v = h.point_h-o;
            // distance along the ray in lattice steps, and drift off the ray
            float t = v.dot(d);
            Vec3 off = v-d*t;
            char b[128];
            snprintf(b, sizeof(b), "%d,%.6g,%.3g ", who, t*2/len, off.length());
            os << b;
        }
    }
    (void)open;
}
static void rows(std::istringstream& is, std::ostringstream& os)
{
    int n; is >> n;
    World w;
    KdTree tree;
    for(int i = 0; i<n; i++)
    {
        float x = (float)(i%64)*2, y = (float)(i/64)*2;
        tree.addAsset(w.addbox(Point3(x, y, 0), Point3(x+1, y+1, 1)));
    }
    tree.buildTree();
    int good = 0, wrong = 0, extra = 0, refused = 0;
    for(int i = 0; i<n; i++)
    {
        float x = (float)(i%64)*2+0.5f, y = (float)(i/64)*2+0.5f;
        Ray r(Point3(x, y, -3), Vec3(0, 0, 1));
        HitPoint h; h.differentials = false; h.asset_h = NULL;
        bool res = tree.intersect(&r, &h);
        if(i<_MAX_ASSETS_) { if(res && h.asset_h == w.assets[i].get()) good++; else wrong++; }
        else if(res) extra++; else refused++;
    }
    os << good << " " << wrong << " " << extra << " " << refused;
}
static void layers(std::istringstream& is, std::ostringstream& os)
{
    // long needles crossing each other: every split keeps many on both sides
    int n; is >> n;
    World w;
    KdTree tree;
    std::vector<Point3> lo, hi;
    for(int i = 0; i<n; i++)
    {
        float k = (float)(i/3)*3;
        Point3 a, b;
        float big = (float)n*1.5f;
        if(i%3 == 0) { a = Point3(0, k, k); b = Point3(big, k+1, k+1); }
        else if(i%3 == 1) { a = Point3(k, 0, k+1); b = Point3(k+1, big, k+2); }
        else { a = Point3(k+1, k+1, 0); b = Point3(k+2, k+2, big); }
        lo.push_back(a); hi.push_back(b);
        tree.addAsset(w.addbox(a, b));
    }
    tree.buildTree();
    unsigned long l = 12345;
    int bad = 0, hits = 0;
    for(int q = 0; q<400; q++)
    {
        float v[6];
        for(float& f : v) { l = l*6364136223846793005UL+1442695040888963407UL;
                            f = (float)((l >> 33)%100000)/100000.f; }
        Ray r(Point3(v[0]*n, v[1]*n, v[2]*n), Vec3(v[3]-0.5f, v[4]-0.5f, v[5]-0.5f));
        r.direction.normalize();
        HitPoint h; h.differentials = false; h.asset_h = NULL;
        bool res = tree.intersect(&r, &h);
        // every asset, one after the other
        HitPoint g; g.differentials = false;
        float best = FLT_MAX; const Asset* who = NULL; bool near = false;
        for(auto& a : w.assets)
        {
            float before = best;
            if(a->intersect(&r, &best, &g))
            { if(before-best<1e-2f) near = true; who = a.get(); }
        }
        if(res) hits++;
        if(res != (who != NULL) || (res && h.asset_h != who && !near)) bad++;
    }
    os << bad << " " << hits;
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](std::istringstream& is, std::ostringstream& os)
    {
        std::string k; is >> k;
        if(k == "H") history(is, os);
        else if(k == "L") rows(is, os);
        else layers(is, os);
    });
}
