// Replays histories of a scene.  Every object counts its destructions.
#include "vt.hpp"
#include "utility/scene.hpp"
#include "primitives/sphere.hpp"
#include <map>
static std::map<int, int> dead;
struct CShape : public Sphere
{ int n; CShape(int n):n(n) {} ~CShape() { dead[n]++; } };
struct CAsset : public Asset
{ int n; CAsset(int n, const Shape* s, const Matrix4& m):Asset(s, m, 1), n(n) {}
  ~CAsset() { dead[n]++; } };
struct CLight : public AreaLight
{ int n; CLight(int n, const Shape* s, const Matrix4& m):AreaLight(s, m, SPECTRUM_WHITE), n(n) {}
  ~CLight() { dead[n]++; } };
// objects sit on a grid, one cell each; the crowd is far above
static Matrix4 place(int n)
{
    Matrix4 m;
    if(n<100000) m.set_translation(Vec3(4.f*(n%40), 4.f*(n/40), 0));
    else m.set_translation(Vec3(4.f*(n%64), 4.f*((n-100000)/64), 500));
    return m;
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    dead.clear();
    Sphere model;
    std::map<int, Shape*> shapes; std::map<int, Asset*> assets;
    std::map<const Asset*, int> name;
    std::vector<Asset*> crowd;
    Scene* sc = new Scene;
    std::string op; int x;
    bool built = false;
    while(is >> op >> x)
    {
        if(op == "s")
        { if(!shapes.count(x)) shapes[x] = new CShape(x); sc->inherit_shape(shapes[x]); }
        else if(op == "a" || op == "l" || op == "al")
        {
            if(!assets.count(x))
            {
                if(x<1000) assets[x] = new CAsset(x, &model, place(x));
                else assets[x] = new CLight(x, &model, place(x));
                name[assets[x]] = x;
            }
            if(op == "l") sc->inherit_light((AreaLight*)assets[x]);
            else sc->inherit_asset(assets[x]);
        }
        else if(op == "c")
            for(int i = 1; i<=x; i++)
            {
                CAsset* a = new CAsset(100000+i, &model, place(100000+i));
                crowd.push_back(a); sc->inherit_asset(a);
            }
        else if(op == "b") { sc->k.buildTree(); built = true; }
        os << "| " << sc->size_shapes() << " " << sc->size_assets() << " "
           << sc->size_lights() << " ";
        for(unsigned int i = 0; i<sc->size_lights(); i++)
            os << name[sc->get_light(i)] << " ";
        os << ": ";
        if(op == "b") for(auto& a : assets)
        {
            Point3 c = place(a.first)*Point3(0, 0, 0);
            Ray r(Point3(c.x, c.y, c.z-5), Vec3(0, 0, 1));
            HitPoint h; h.differentials = false;
            if(sc->k.intersect(&r, &h) && h.point_h.z<100)
                os << (h.asset_h == a.second?a.first:-1) << " ";
        }
        if(!dead.empty()) { os << "early destruction"; return; }
    }
    delete sc;
    os << "| ";
    for(auto& d : dead) if(d.first<100000) os << d.first << "x" << d.second << " ";
    size_t c = 0; bool once = true;
    for(auto& d : dead) if(d.first>=100000) { c++; once = once && d.second == 1; }
    os << ": " << (c == crowd.size() && once);
    // what was refused still is the caller's
    for(auto& a : assets) if(!dead.count(a.first)) delete a.second;
}
int main(int c, char** v) { return vt::run(c, v, one); }
