// Controlled scheduler: the threads of the code under test run one at a time
// and hand over only at mutex operations, sleeps and the yields of the harness,
// following a schedule chosen by the specification.  Works by symbol
// interposition on the public pthread API, so it does not depend on the code.
// Include in exactly one translation unit.
#ifndef SCHED_HPP
#define SCHED_HPP
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <stdio.h>
#include <atomic>
#include <map>
#include <vector>
namespace sched {
struct Th { sem_t sem; bool finished; void* blocked; };
static bool active = false;      // set by the harness
static bool auto_register = false;
static int expected = 0;
static std::vector<unsigned> schedule;
static size_t pos = 0;
static unsigned long lcg = 12345;
static std::vector<Th*> th;
static std::map<void*, int> owner;
static std::atomic_flag spin = ATOMIC_FLAG_INIT;
static std::atomic<int> registered(0);
static bool started = false;
static unsigned long switches = 0;
static thread_local int me = -1;
static thread_local bool excluded = false;
struct Fin { bool on; Fin():on(false){} ~Fin(); };
static thread_local Fin fin;
typedef int (*mfn)(pthread_mutex_t*);
static mfn real(const char* n) { return (mfn)dlsym(RTLD_NEXT, n); }
static mfn r_lock() { static mfn f = real("pthread_mutex_lock"); return f; }
static mfn r_unlock() { static mfn f = real("pthread_mutex_unlock"); return f; }
static mfn r_try() { static mfn f = real("pthread_mutex_trylock"); return f; }
static int pick()
{
    std::vector<int> run;
    for(size_t i = 0; i<th.size(); i++)
        if(!th[i]->finished && !th[i]->blocked) run.push_back((int)i);
    if(run.empty()) return -1;
    unsigned c;
    if(pos<schedule.size()) c = schedule[pos++];
    else { lcg = lcg*6364136223846793005UL+1442695040888963407UL;
           c = (unsigned)(lcg >> 33); }
    return run[c%run.size()];
}
// hand over the token (the caller holds it)
static void pass(bool come_back)
{
    switches++;
    int n = pick();
    if(n<0)
    {
        for(size_t i = 0; i<th.size(); i++)
            if(!th[i]->finished) { fprintf(stderr, "DEADLOCK\n"); _exit(77); }
        return;
    }
    if(n == me) { if(come_back) return; }
    sem_post(&th[n]->sem);
    if(come_back) while(sem_wait(&th[me]->sem) != 0) {}
}
Fin::~Fin()
{
    if(!on || me<0) return;
    th[me]->finished = true;
    pass(false);
    me = -1; excluded = true;
}
static void reg()
{
    while(spin.test_and_set()) usleep(10);
    me = (int)th.size();
    Th* t = new Th; sem_init(&t->sem, 0, 0); t->finished = false;
    t->blocked = NULL; th.push_back(t);
    fin.on = true;
    int r = ++registered;
    bool late = started;
    bool starter = !started && r == expected;
    if(starter) started = true;
    spin.clear();
    if(starter) { int n = pick(); if(n == me) return;
                  sem_post(&th[n]->sem); }
    (void)late;
    while(sem_wait(&t->sem) != 0) {}
}
static void yield() { if(active && me>=0) pass(true); }
static inline bool mine()
{
    if(!active || excluded) return false;
    if(me>=0) return true;
    if(!auto_register) return false;
    reg();
    return true;
}
static void reset(const std::vector<unsigned>& s, int n, unsigned long seed)
{
    schedule = s; pos = 0; lcg = seed; expected = n; th.clear(); owner.clear();
    registered = 0; started = false; switches = 0; excluded = true;
}
static void block_until_free(void* m)
{
    while(owner.count(m)) { th[me]->blocked = m; pass(true); }
    owner[m] = me;
}
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if(!sched::mine()) return sched::r_lock()(m);
    sched::pass(true);
    sched::block_until_free(m);
    int r = sched::r_lock()(m);
    sched::pass(true);
    return r;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if(!sched::mine()) return sched::r_try()(m);
    sched::pass(true);
    if(sched::owner.count(m)) return EBUSY;
    int r = sched::r_try()(m);
    if(r == 0) { sched::owner[m] = sched::me; sched::pass(true); }
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = sched::r_unlock()(m);
    if(sched::active && sched::me>=0)
    {
        sched::owner.erase(m);
        for(size_t i = 0; i<sched::th.size(); i++)
            if(sched::th[i]->blocked == m) sched::th[i]->blocked = NULL;
        sched::pass(true);
    }
    return r;
}
extern "C" int nanosleep(const struct timespec*, struct timespec*)
{
    if(sched::active && sched::me>=0) sched::pass(true);
    else { usleep(1000); }
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*,
                               struct timespec*)
{
    if(sched::active && sched::me>=0) sched::pass(true);
    else { usleep(1000); }
    return 0;
}
#endif
