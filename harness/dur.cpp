// All durations of a range: the text must be the concatenation of the pieces
// given by the specification (four tables), and stay within its buffer.
#include "vt.hpp"
#include "utility/utility.hpp"
static const size_t LIM = 17;
static std::string f(unsigned int s, bool& over)
{
    // exactly the documented room, so that anything beyond is noticed
    char* b = (char*)malloc(LIM); memset(b, 'x', LIM);
    format_seconds(s, b);
    over = strnlen(b, LIM) >= LIM;
    std::string r(b, strnlen(b, LIM));
    free(b);
    while(!r.empty() && r.back() == ' ') r.pop_back();
    return r;
}
static void one(std::istringstream& is, std::ostringstream& os)
{
    std::string op; is >> op;
    bool over;
    if(op == "T")
    {
        std::string x; is >> x; int bad = 0;
        std::vector<std::string> t[4];
        std::ifstream in(x.c_str());
        for(int k = 0; k<4; k++)
        { int n; in >> n; for(int i = 0; i<n; i++) { std::string v; in >> v; t[k].push_back(vt::unhex(v)); } }
        unsigned long a, b; is >> a >> b;
        for(unsigned long s = a; s<b && bad<5; s++)
        {
            std::string w = t[0][s/86400]+t[1][s/3600%24]+t[2][s/60%60]+t[3][s%60];
            while(!w.empty() && w.back() == ' ') w.pop_back();
            std::string g = f((unsigned int)s, over);
            if(g != w || over) { os << s << " gives '" << g << "' not '" << w << "'; "; bad++; }
        }
    }
    else
    {
        std::string w; unsigned long s; is >> s >> w; w = vt::unhex(w);
        std::string g = f((unsigned int)s, over);
        if(g != w || over) os << s << " gives '" << g << "' not '" << w << "'";
    }
}
int main(int c, char** v) { return vt::run(c, v, one); }
