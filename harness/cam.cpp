// C25: rays of cameras
#include "vt.hpp"
#include <memory>
#include <cmath>
#include "nlohmann/json.hpp"
#include "cameras/camera_perspective.hpp"
#include "cameras/camera_orthographic.hpp"
#include "cameras/camera360.hpp"
using nlohmann::json;
static void put(std::ostringstream& os, const Ray& r)
{
    char b[200];
    snprintf(b, sizeof(b), "%.9g,%.9g,%.9g,%.9g,%.9g,%.9g ", r.origin.x, r.origin.y, r.origin.z,
             r.direction.x, r.direction.y, r.direction.z);
    os << b;
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest), c = j["c"];
    Point3 pos(c["pos"][0], c["pos"][1], c["pos"][2]), at(c["target"][0], c["target"][1], c["target"][2]);
    Vec3 up(c["up"][0], c["up"][1], c["up"][2]); up.normalize();
    int w = c["w"], h = c["h"];
    std::unique_ptr<Camera> cam;
    if(c["kind"] == "persp")
        cam.reset(new CameraPerspective(&pos, &at, &up, w, h, (float)(2*std::atan2((double)c["p"], (double)c["q"]))));
    else if(c["kind"] == "ortho") cam.reset(new CameraOrthographic(&pos, &at, &up, w, h));
    else cam.reset(new Camera360(&pos, &at, &up, w, h));
    // the rays are reused as the renderer does
    Ray r, rx, ry, alone;
    for(auto& e : j["h"])
    {
        Sample s; s.posx = (int)e["x"]/8.f; s.posy = (int)e["y"]/8.f;
        Sample k = s;
        cam->create_ray(&s, &r, &rx, &ry);
        cam->create_ray(&s, &alone);
        if(s.posx != k.posx || s.posy != k.posy) { os << "sample changed"; return; }
        put(os, r); put(os, rx); put(os, ry); put(os, alone);
        if(r.ricochet || rx.ricochet || ry.ricochet) { os << "ricochet"; return; }
    }
}
int main(int c, char** v) { return vt::run(c, v, one); }
