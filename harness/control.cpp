#include "control.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <algorithm>
#include <map>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <thread>
namespace sched {
static thread_local int me = -1;
static thread_local bool allowed = false, inside = false;
std::function<void(std::string const&)> on_deadlock;
std::vector<Choice> choices;
struct Th { sem_t sem; bool done = false; bool (*can)(void*) = nullptr; void *arg = nullptr; bool yielding = false; int prio = 0; char const *what = ""; };
static std::deque<Th> th;
static Config cfg;
static std::mt19937 rng;
static long steps;
static std::vector<long> change_at;
static int low;
int self() { return me; }
Allow::Allow(bool on): old(allowed) { allowed = on; }
Allow::~Allow() { allowed = old; }

// locks
struct Lock { int owner = -1, count = 0; std::vector<int> readers; int waiting_writer = 0; };
static std::map<void*, Lock> *locks;
static std::map<void*, int> *guards;
static std::map<void*, long> *signals;
struct Busy { bool old = inside; Busy() { inside = true; } ~Busy() { inside = old; } };

static int pick(bool lock_level) {
    std::vector<int> en;
    bool cur = false;
    for (int i = 0; i < int(th.size()); ++i) if (!th[i].done && (!th[i].can || th[i].can(th[i].arg))) { en.push_back(i); cur = cur || i == me; }
    if (en.empty()) return -1;
    if (en.size() == 1) { for (auto &t: th) t.yielding = false; return en[0]; }
    // a thread which gives way goes on only after the others
    std::vector<int> el;
    for (int i: en) if (!th[i].yielding) el.push_back(i);
    if (el.empty()) { for (auto &t: th) t.yielding = false; el = en; }
    bool mine = false;
    for (int i: el) mine = mine || i == me;
    ++steps;
    int r = -1;
    if (cfg.mode == "dfs") {
        if (!lock_level && mine) return me;
        auto k = choices.size();
        if (k < cfg.prefix.size()) { for (int i: el) if (i == cfg.prefix[k]) r = i; }
        if (r < 0) r = mine ? me : el[0];
        choices.push_back({r, mine ? me : -1, el});
    } else if (cfg.mode == "pct") {
        while (!change_at.empty() && steps >= change_at.back()) { change_at.pop_back(); if (me >= 0) th[me].prio = --low; }
        r = el[0];
        for (int i: el) if (th[i].prio > th[r].prio) r = i;
    } else {
        if (mine && std::uniform_real_distribution<>()(rng) >= cfg.p) r = me;
        else r = el[rng() % el.size()];
    }
    return r;
}
static void switch_to(int r) {
    if (r == me) return;
    int was = me;
    sem_post(&th[r].sem);
    if (!th[was].done) while (sem_wait(&th[was].sem)) {}
}
static void yield(bool lock_level) {
    Busy b;
    int r = pick(lock_level);
    switch_to(r < 0 ? me : r);
}
// somebody waiting for another one without blocking: let the others go on; none of the programs runs that long otherwise
static int last = -1;
static long alone, total;
static void starved() {
    if (me != last) { last = me; alone = 0; }
    ++total;
    if (++alone < 50000) return;
    alone = 0;
    Busy b;
    th[me].prio = --low;
    if (total > 30000000) { on_deadlock("the calls don't end"); _Exit(3); }
    int n = int(th.size());
    for (int k = 1; k < n; ++k) { int i = (me + k) % n; if (!th[i].done && (!th[i].can || th[i].can(th[i].arg))) return switch_to(i); }
}
void point() { if (me >= 0 && allowed && !inside) yield(true); }
static void block(bool (*can)(void*), void *arg, char const *what) {
    Busy b;
    if (allowed) { int r = pick(true); switch_to(r); }
    while (!can(arg)) {
        th[me].can = can; th[me].arg = arg; th[me].what = what;
        int r = pick(true);
        if (r < 0) {
            std::string s;
            for (int i = 0; i < int(th.size()); ++i) s += std::string(i ? ", " : "") + "thread " + std::to_string(i + 1) + (th[i].done ? " finished" : std::string(" waits for ") + th[i].what);
            on_deadlock(s);
            _Exit(3);
        }
        switch_to(r);
        th[me].can = nullptr;
    }
    th[me].can = nullptr;
}
void run(Config const &c, std::vector<std::function<void()>> const &threads) {
    cfg = c; rng.seed(c.seed); steps = 0; last = -1; alone = total = 0; choices.clear(); low = 0; change_at.clear();
    if (!locks) { locks = new std::map<void*, Lock>; guards = new std::map<void*, int>; signals = new std::map<void*, long>; }
    th.clear();
    for (std::size_t i = 0; i < threads.size(); ++i) { th.emplace_back(); sem_init(&th[i].sem, 0, 0); th[i].prio = 10 + int(rng() % 1000); }
    for (int i = 0; i < c.changes; ++i) change_at.push_back(1 + long(rng() % (c.fine ? 3000 : 150)));
    std::sort(change_at.rbegin(), change_at.rend());
    sem_t end; sem_init(&end, 0, 0);
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < threads.size(); ++i)
        ts.emplace_back([&, i] {
            while (sem_wait(&th[i].sem)) {}
            me = int(i);
            threads[i]();
            Busy b;
            th[i].done = true;
            int r = pick(true);
            bool all = true;
            for (auto &t: th) all = all && t.done;
            if (all) { me = -1; sem_post(&end); return; }
            if (r < 0) { me = int(i); std::string s; for (int j = 0; j < int(th.size()); ++j) if (!th[j].done) s += std::string(s.empty() ? "" : ", ") + "thread " + std::to_string(j + 1) + " waits for " + th[j].what; on_deadlock(s); _Exit(3); }
            me = -1;
            sem_post(&th[r].sem);
        });
    me = -1;
    int first = cfg.mode == "dfs" && !cfg.prefix.empty() ? 0 : 0;
    {
        Busy b;
        first = pick(true);
    }
    sem_post(&th[first].sem);
    while (sem_wait(&end)) {}
    for (auto &t: ts) t.join();
}
} // namespace sched
using namespace sched;
#ifndef FREE_RUNNING
template<typename F> static F real(char const *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
static bool ctl() { return me >= 0 && !inside; }

static bool mutex_can(void *p) {        // asked by any thread for the thread blocked on it: a recursive owner never blocks
    auto &l = (*locks)[p]; return l.owner < 0 && l.readers.empty();
}
static bool read_can(void *p) { return (*locks)[p].owner < 0; }
extern "C" {
#define PASS(R, name, ...) static auto f = real<R>(#name); return f(__VA_ARGS__)
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!ctl()) { if (me >= 0 && inside) { PASS(int(*)(pthread_mutex_t*), pthread_mutex_lock, m); } if (locks && me < 0 && (*locks)[m].owner >= 0) {} PASS(int(*)(pthread_mutex_t*), pthread_mutex_lock, m); }
    { Busy b; auto &l = (*locks)[m]; if (l.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l.count; return 0; } }
    block(mutex_can, m, "a mutex");
    Busy b; auto &l = (*locks)[m]; l.owner = me; l.count = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_mutex_t*), pthread_mutex_trylock, m); }
    point();
    Busy b; auto &l = (*locks)[m];
    if (l.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++l.count; return 0; }
    if (!mutex_can(m)) return EBUSY;
    l.owner = me; l.count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_mutex_t*), pthread_mutex_unlock, m); }
    { Busy b; auto &l = (*locks)[m]; if (--l.count == 0) l.owner = -1; }
    point();
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_rwlock_t*), pthread_rwlock_wrlock, m); }
    block(mutex_can, m, "a lock (exclusive)");
    Busy b; auto &l = (*locks)[m]; l.owner = me; l.count = 1;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_rwlock_t*), pthread_rwlock_rdlock, m); }
    block(read_can, m, "a lock (shared)");
    Busy b; (*locks)[m].readers.push_back(me);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_rwlock_t*), pthread_rwlock_trywrlock, m); }
    point();
    Busy b; if (!mutex_can(m)) return EBUSY;
    auto &l = (*locks)[m]; l.owner = me; l.count = 1;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_rwlock_t*), pthread_rwlock_tryrdlock, m); }
    point();
    Busy b; if (!read_can(m)) return EBUSY;
    (*locks)[m].readers.push_back(me);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_rwlock_t*), pthread_rwlock_unlock, m); }
    {
        Busy b; auto &l = (*locks)[m];
        if (l.owner == me) l.owner = -1;
        else for (auto i = l.readers.begin(); i != l.readers.end(); ++i) if (*i == me) { l.readers.erase(i); break; }
    }
    point();
    return 0;
}
struct Waiting { void *cond; long gen; };
static bool cond_can(void *p) { auto w = static_cast<Waiting*>(p); return (*signals)[w->cond] != w->gen; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!ctl()) { PASS(int(*)(pthread_cond_t*, pthread_mutex_t*), pthread_cond_wait, c, m); }
    int count;
    Waiting w{c, 0};
    { Busy b; auto &l = (*locks)[m]; count = l.count; l.count = 0; l.owner = -1; w.gen = (*signals)[c]; }
    block(cond_can, &w, "a condition");
    block(mutex_can, m, "a mutex");
    Busy b; auto &l = (*locks)[m]; l.owner = me; l.count = count;
    return 0;
}
// time passes when nobody else can go on
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *t) {
    if (!ctl()) { PASS(int(*)(pthread_cond_t*, pthread_mutex_t*, timespec const*), pthread_cond_timedwait, c, m, t); }
    pthread_mutex_unlock(m); th[me].yielding = true; point(); pthread_mutex_lock(m);
    return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, timespec const *t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!ctl()) { PASS(int(*)(pthread_cond_t*), pthread_cond_signal, c); }
    { Busy b; ++(*signals)[c]; }        // waking more than one is allowed
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!ctl()) { PASS(int(*)(pthread_cond_t*), pthread_cond_broadcast, c); }
    { Busy b; ++(*signals)[c]; }
    point();
    return 0;
}
int sched_yield() {
    if (!ctl()) return 0;
    th[me].yielding = true;
    Busy b; int r = pick(true); if (r >= 0) switch_to(r);
    return 0;
}
// initialisation of local statics and call_once
static bool guard_can(void *g) { return !guards->count(g); }
int __cxa_guard_acquire(unsigned long long *g) {
    auto done = reinterpret_cast<char volatile*>(g);
    if (!ctl()) return !*done;
    point();
    if (*done) return 0;
    block(guard_can, g, "initialisation of a static variable");
    if (*done) return 0;
    Busy b; (*guards)[g] = me;
    return 1;
}
void __cxa_guard_release(unsigned long long *g) {
    *reinterpret_cast<char volatile*>(g) = 1;
    if (ctl()) { { Busy b; guards->erase(g); } point(); }
}
void __cxa_guard_abort(unsigned long long *g) { if (ctl()) { { Busy b; guards->erase(g); } point(); } }
int pthread_once(pthread_once_t *o, void (*f)()) {
    if (!ctl()) { if (!*o) { f(); *o = 2; } return 0; }
    point();
    if (*o == 2) return 0;
    block(guard_can, o, "call_once");
    if (*o == 2) return 0;
    { Busy b; (*guards)[o] = me; }
    try { f(); } catch (...) { { Busy b; guards->erase(o); } throw; }
    *o = 2;
    { Busy b; guards->erase(o); }
    point();
    return 0;
}
void __sanitizer_cov_trace_pc() {
    if (me >= 0 && allowed && !inside) starved();
    if (me >= 0 && allowed && !inside && cfg.fine && cfg.mode != "dfs") yield(false);
}
} // extern "C"
#else
extern "C" void __sanitizer_cov_trace_pc() {}
#endif
