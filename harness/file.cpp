// Replays histories of File objects.  Folder creation is confined to the
// scratch directory of the case: other targets are refused and reported.
#include "vt.hpp"
#include "utility/file.hpp"
#include <memory>
#include <errno.h>
#include <sys/syscall.h>
static std::string root;
static int escaped = 0;
extern "C" int mkdir(const char* p, mode_t m) noexcept
{
    std::string s(p);
    if(root.empty() || s.compare(0, root.size()+1, root+"/") != 0 ||
       s.find("/../") != std::string::npos ||
       (s.size()>2 && s.substr(s.size()-3) == "/.."))
    {
        escaped++;
        errno = EACCES;
        return -1;
    }
    return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
static int counter = 0;
static void one(std::istringstream& is, std::ostringstream& os)
{
    static std::string home;
    if(home.empty()) { char b[4096]; home = getcwd(b, sizeof(b)); }
    char nm[64]; snprintf(nm, sizeof(nm), "/w%d_%d", (int)getpid(), counter++);
    root = home; escaped = 0;
    std::string w = home+nm;
    mkdir(w.c_str(), 0755);
    if(chdir(w.c_str()) != 0) _exit(122);
    root = w;
    os << vt::hex(w);
    std::unique_ptr<File> f[4];
    std::string op;
    while(is >> op)
    {
        int s; std::string a; is >> s >> a;
        os << " | ";
        if(op == "new") f[s].reset(new File(vt::unhex(a).c_str()));
        else if(op == "app") f[s]->append(vt::unhex(a).c_str());
        else if(op == "copy") f[s].reset(new File(*f[atoi(a.c_str())]));
        else if(op == "asg") *f[s] = *f[atoi(a.c_str())];
        else if(op == "par") f[s].reset(new File(f[atoi(a.c_str())]->get_parent()));
        else if(op == "mkdir") os << "r" << (f[s]->mkdir()?1:0) << " ";
        else if(op == "mkdirs") os << "r" << (f[s]->mkdirs()?1:0) << " ";
        else if(op == "touch") { FILE* x = fopen((w+vt::unhex(a)).c_str(), "w"); if(x) fclose(x); }
        else if(op == "remove") ::remove((w+vt::unhex(a)).c_str());
        else if(op == "ls")
        {
            std::vector<File> v; f[s]->ls(&v);
            for(File& x : v) os << "l" << vt::hex(x.absolute_path()) << " ";
        }
        for(int i = 1; i<4; i++) if(f[i])
            os << "s" << i << ":" << vt::hex(f[i]->absolute_path()) << ":"
               << vt::hex(f[i]->filename()) << ":" << vt::hex(f[i]->extension())
               << ":" << f[i]->exists() << f[i]->is_folder() << f[i]->is_file() << " ";
    }
    os << " | e" << escaped;
    if(chdir(home.c_str()) != 0) _exit(122);
}
int main(int c, char** v) { return vt::run(c, v, one); }
