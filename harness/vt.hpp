// Case runner shared by the harnesses: one case per input line, one result
// line per case; a case that crashes, exits or hangs is reported as such and
// the run goes on with the next one.
#ifndef VT_HPP
#define VT_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <functional>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
namespace vt {
typedef std::function<void(std::istringstream&, std::ostringstream&)> fn;
inline std::string unhex(const std::string& s)
{
    std::string r;
    if(s == "-") return r;
    for(size_t i = 0; i+1<s.size(); i += 2)
        r.push_back((char)strtol(s.substr(i, 2).c_str(), NULL, 16));
    return r;
}
inline std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for(unsigned char c : s) { r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
    return r.empty()?"-":r;
}
inline void spit(const std::string& p, const std::string& s)
{
    FILE* f = fopen(p.c_str(), "wb");
    if(!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(120); }
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
inline std::string slurp(const std::string& p)
{
    std::ifstream f(p.c_str(), std::ios::binary);
    std::ostringstream o; o << f.rdbuf(); return o.str();
}
// runs f with stdout+stderr captured into a string
inline std::string capture(const std::function<void()>& f)
{
    fflush(stdout); fflush(stderr); std::cout.flush();
    char path[] = "capXXXXXX";
    int fd = mkstemp(path);
    int o = dup(1), e = dup(2);
    dup2(fd, 1); dup2(fd, 2);
    f();
    fflush(stdout); fflush(stderr); std::cout.flush();
    dup2(o, 1); dup2(e, 2); close(o); close(e); close(fd);
    std::string r = slurp(path);
    unlink(path);
    return r;
}
inline int run(int argc, char** argv, const fn& f)
{
    if(argc<4) return 3;
    std::vector<std::string> cases;
    { std::ifstream in(argv[1]); std::string l;
      while(std::getline(in, l)) cases.push_back(l); }
    int timeout = atoi(argv[3]);
    size_t next = 0;
    // progress shared with the child through the output file
    { FILE* o = fopen(argv[2], "w"); if(!o) return 4; fclose(o); }
    while(next<cases.size())
    {
        int pfd[2];
        if(pipe(pfd) != 0) return 5;
        pid_t pid = fork();
        if(pid<0) return 6;
        if(pid == 0)
        {
            close(pfd[0]);
            setpgid(0, 0);
            signal(SIGALRM, SIG_DFL);
            int nul = open("log.child", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(nul, 1); dup2(nul, 2);
            FILE* o = fopen(argv[2], "a");
            for(size_t i = next; i<cases.size(); i++)
            {
                unsigned int me = (unsigned int)i;
                if(write(pfd[1], &me, sizeof(me)) != sizeof(me)) _exit(121);
                alarm(timeout);
                std::istringstream is(cases[i]);
                std::ostringstream os;
                f(is, os);
                alarm(0);
                std::string r = os.str();
                for(char& c : r) if(c == '\n') c = ' ';
                fprintf(o, "R %u %s\n", me, r.c_str());
                fflush(o);
            }
            fclose(o);
            unsigned int fin = 0xFFFFFFFFu;
            if(write(pfd[1], &fin, sizeof(fin)) != sizeof(fin)) _exit(121);
            _exit(0);
        }
        close(pfd[1]);
        unsigned int cur = (unsigned int)next, got;
        bool fin = false;
        while(read(pfd[0], &got, sizeof(got)) == (ssize_t)sizeof(got))
        {
            if(got == 0xFFFFFFFFu) fin = true;
            else cur = got;
        }
        close(pfd[0]);
        int st;
        waitpid(pid, &st, 0);
        kill(-pid, SIGKILL);
        if(fin) break;
        std::string why;
        if(WIFSIGNALED(st))
            why = WTERMSIG(st) == SIGALRM?"TIMEOUT":
                  "SIGNAL "+std::to_string(WTERMSIG(st));
        else
            why = "EXIT "+std::to_string(WEXITSTATUS(st));
        std::string log = slurp("log.child");
        // keep the interesting part of the log (asan headline or last lines)
        size_t p = log.find("ERROR: AddressSanitizer");
        size_t q = log.find("SUMMARY: ThreadSanitizer");
        if(p != std::string::npos) log = log.substr(p, 160);
        else if(q != std::string::npos) log = log.substr(q, 200);
        else if(log.size()>600) log = log.substr(log.size()-600);
        for(char& c : log) if(c == '\n' || c == '\r') c = ' ';
        FILE* o = fopen(argv[2], "a");
        fprintf(o, "X %u %s | %s\n", cur, why.c_str(), log.c_str());
        fclose(o);
        next = cur+1;
    }
    return 0;
}
}
#endif
