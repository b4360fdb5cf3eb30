// Replays histories of the material and texture libraries; every history runs
// in a process of its own up to its regular end, where the libraries go away.
#include "vt.hpp"
#include "materials/material_library.hpp"
#include "textures/texture_library.hpp"
#include "textures/texture_image.hpp"
#include "textures/image_map.hpp"
#include <sys/mman.h>
#include <map>
static int* dead;
static pixBGRA pix[1] = {0xFF00FF00};
struct CMat : public SingleBRDF
{ int n; CMat(int n):SingleBRDF(new Lambertian()), n(n) {} ~CMat() { dead[n]++; } };
struct CImg : public ImageMapUnfiltered
{ int n; CImg(int n):ImageMapUnfiltered(pix, 1), n(n) {} ~CImg() { dead[n]++; } };
static Vec2 nosh(0.f), nosc(1.f);
struct CTex : public TextureImage
{ int n; CTex(int n, const ImageMap* m):TextureImage(m, nosh, nosc, false), n(n) {} ~CTex() { dead[n]++; } };
static void one(std::istringstream& is, std::ostringstream& os)
{
    const int MAX = 4096;
    dead = (int*)mmap(NULL, MAX*sizeof(int), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    int fd[2]; if(pipe(fd) != 0) _exit(123);
    pid_t p = fork();
    if(p == 0)
    {
        close(fd[0]);
        std::ostringstream o;
        int nn; is >> nn; std::vector<std::string> names;
        for(int i = 0; i<nn; i++) { std::string s; is >> s; names.push_back(vt::unhex(s)); }
        std::map<const void*, int> num; int made = 0;
        const Bsdf* dm = MtlLib.get_default();
        const ImageMap* di = TexLib.get_dflt_map();
        const Texture* dt = TexLib.get_dflt_texture();
        const TextureImage* dti = TexLib.get_dflt_teximage();
        num[dm] = -1; num[NULL] = 0;
        std::map<int, void*> obj;
        std::string op, k; int n, x;
        while(is >> op >> k >> n >> x)
        {
            const std::string& nm = names[n];
            if(op == "add" || op == "again")
            {
                if(op == "add")
                {
                    made++;
                    if(k == "m") obj[made] = (Bsdf*)new CMat(made);
                    else if(k == "t") obj[made] = (TextureImage*)new CTex(made, di);
                    else obj[made] = (ImageMap*)new CImg(made);
                    num[obj[made]] = made; x = made;
                }
                if(k == "m") MtlLib.add_inherit(nm, (Bsdf*)obj[x]);
                else if(k == "t") TexLib.inherit_texture(nm, (TextureImage*)obj[x]);
                else TexLib.inherit_map(nm, (ImageMap*)obj[x]);
            }
            else if(op == "anon")
            { made++; CTex* t = new CTex(made, di); TexLib.inherit_texture(t); }
            else if(op == "erase")
            {
                if(k == "m") MtlLib.erase(nm);
                else if(k == "t") TexLib.erase_texture(nm);
                else TexLib.erase_map(nm);
            }
            else if(op == "clear") { if(k == "m") MtlLib.clear(); else TexLib.clear(); }
            o << "| ";
            for(int i = 0; i<nn; i++)
            {
                const void* m = MtlLib.get(names[i]);
                const void* t = TexLib.get_texture(names[i]);
                const void* g = TexLib.get_map(names[i]);
                o << (num.count(m)?num[m]:-9) << "," << (num.count(t)?num[t]:-9) << ","
                  << (num.count(g)?num[g]:-9) << "," << MtlLib.contains(names[i])
                  << TexLib.contains_texture(names[i]) << TexLib.contains_map(names[i]) << " ";
            }
            o << ": ";
            for(int i = 1; i<MAX; i++) if(dead[i]) o << i << "x" << dead[i] << " ";
            if(MtlLib.get_default() != dm || TexLib.get_dflt_map() != di ||
               TexLib.get_dflt_texture() != dt || TexLib.get_dflt_teximage() != dti)
                o << "defaults changed ";
            if(di->filter(0.3f, 0.4f, 0, 0, 0, 0).bgra_value != 0xFFFFFFFF) o << "default image ";
        }
        std::string s = o.str();
        size_t w = 0;
        while(w<s.size()) { ssize_t r = write(fd[1], s.data()+w, s.size()-w); if(r<=0) break; w += r; }
        close(fd[1]);
        exit(0);
    }
    close(fd[1]);
    char b[65536]; ssize_t r;
    while((r = read(fd[0], b, sizeof(b)))>0) os.write(b, r);
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "history ended with status %d\n", st); abort(); }
    os << "| ";
    for(int i = 1; i<MAX; i++) if(dead[i]) os << i << "x" << dead[i] << " ";
    munmap(dead, MAX*sizeof(int));
}
int main(int c, char** v) { return vt::run(c, v, one); }
