// C27: the film and the place of its image, as an unprivileged user inside a
// scratch tree.  Case: json of OutHist.  Result: reported saved | tree | image
#include "vt.hpp"
#include <dirent.h>
#include <grp.h>
#include <cmath>
#include "nlohmann/json.hpp"
#include "cameras/image_film.hpp"
using nlohmann::json;
struct Flat:Filter
{
    float w;
    Flat(float w):Filter(0.25f, 0.25f), w(w) {}
    float weight(float, float) const override { return w; }
};
static double level(int c, int d)   // linear value shown as the byte c
{
    if(c == 300) return 2.5+d;
    if(c == 400) return -0.01;
    double v = (c+0.3)/255;
    return v<=0.04045?v/12.92:pow((v+0.055)/1.055, 2.4);
}
static std::string path(const std::string& root, const json& names)
{
    std::string s = root;
    for(const json& n : names) s += "/"+n.get<std::string>();
    return s;
}
// folders, then files (with a mark when their content changed)
static void list(const std::string& dir, const std::string& rel, std::vector<std::string>& out)
{
    DIR* d = opendir(dir.c_str());
    if(!d) return;
    while(struct dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if(n == "." || n == "..") continue;
        std::string p = dir+"/"+n;
        struct stat st;
        if(lstat(p.c_str(), &st) != 0) continue;
        if(S_ISDIR(st.st_mode)) { out.push_back("D"+rel+"/"+n); list(p, rel+"/"+n, out); }
        else out.push_back((vt::slurp(p) == "old"?"F":"N")+rel+"/"+n);
    }
    closedir(d);
}
static void wipe(const std::string& dir)
{
    DIR* d = opendir(dir.c_str());
    if(!d) return;
    std::vector<std::string> all;
    while(struct dirent* e = readdir(d))
        if(strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) all.push_back(e->d_name);
    closedir(d);
    for(const std::string& n : all)
    {
        std::string p = dir+"/"+n; struct stat st;
        if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str());
    }
    rmdir(dir.c_str());
}
static int film(const json& j, const std::string& root, std::string name)
{
    if(geteuid() == 0)
    {
        gid_t none = 65534;
        if(setgroups(1, &none) != 0 || setresgid(65534, 65534, 65534) != 0 ||
           setresuid(65534, 65534, 65534) != 0) return 77;
    }
    if(chdir((root+"/w/d").c_str()) != 0) return 77;
    const json& p = j["pic"];
    int w = p["w"], h = p["h"];
    errors_count[CRITICAL_INDEX] = 0;
    ImageFilm f(w, h, name.c_str());
    if(errors_count[CRITICAL_INDEX]>0) return 10;
    Flat fl(0.25f*p["wt"].get<int>());
    f.set_filter(&fl);
    ExecutorData ex;
    ex.startx = 0; ex.endx = w; ex.starty = 0; ex.endy = h;
    for(int k = 0; k<w*h; k++)
        for(int n = 0; n<p["n"][k].get<int>(); n++)
        {
            double c[3];
            for(int i = 0; i<3; i++) c[i] = level(p["px"][k][i], n);
            ColorXYZ xyz((float)(0.4124564*c[0]+0.3575761*c[1]+0.1804375*c[2]),
                         (float)(0.2126729*c[0]+0.7151522*c[1]+0.0721750*c[2]),
                         (float)(0.0193339*c[0]+0.1191920*c[1]+0.9503041*c[2]));
            Sample s; s.posx = k%w+0.5f; s.posy = k/w+0.5f;
            f.add_pixel(&s, xyz, &ex);
        }
    f.add_pixel_forced(&ex);
    return f.save_image()?11:12;
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string rest; std::getline(is, rest);
    json j = json::parse(rest);
    char tmpl[] = "/tmp/vtoutXXXXXX";
    if(!mkdtemp(tmpl)) _exit(121);
    std::string root = tmpl;
    chmod(tmpl, 0755);
    std::vector<std::string> ds, fs;
    for(const json& d : j["dirs"]) if(!d.empty()) ds.push_back(path(root, d));
    for(const json& d : j["files"]) fs.push_back(path(root, d));
    std::sort(ds.begin(), ds.end(), [](const std::string& a, const std::string& b) { return a.size()<b.size(); });
    for(const std::string& d : ds) { mkdir(d.c_str(), 0777); chmod(d.c_str(), 0777); }
    for(const std::string& f : fs) { vt::spit(f, "old"); chmod(f.c_str(), 0666); }
    for(const json& l : j["locked"])
    {
        std::string p = path(root, l); struct stat st;
        if(lstat(p.c_str(), &st) == 0) chmod(p.c_str(), S_ISDIR(st.st_mode)?0555:0444);
    }
    const json& r = j["req"];
    std::string name = r["ab"].get<bool>()?root+"/w/d/":"";
    for(size_t i = 0; i<r["names"].size(); i++) name += (i?"/":"")+r["names"][i].get<std::string>();
    name += r["tr"].get<std::string>();
    pid_t pid = fork();
    if(pid == 0) _exit(film(j, root, name));
    int st = 0;
    waitpid(pid, &st, 0);
    int rc = WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st);
    os << rc << " |";
    std::vector<std::string> tree;
    list(root, "", tree);
    std::sort(tree.begin(), tree.end());
    for(const std::string& t : tree) os << " " << vt::hex(t);
    os << " | ";
    if(rc == 11)
    {
        std::string t = path(root, j["target"]);
        std::string e = j["ext"];
        int w = 0, h = 0;
        if(!img_dimensions(t.c_str(), e.c_str(), &w, &h)) os << "unreadable";
        else
        {
            std::vector<uint32_t> px((size_t)w*h);
            if(!img_read8(t.c_str(), e.c_str(), px.data())) os << "unreadable";
            else
            {
                os << w << " " << h;
                for(uint32_t p : px) os << " " << BGRA_RED(p) << " " << BGRA_GREEN(p) << " " << BGRA_BLUE(p);
            }
        }
    }
    wipe(root);
}
int main(int c, char** v) { return vt::run(c, v, one); }
