#include "sim.h"
#include "result.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <climits>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <signal.h>
#include <sys/sem.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>

namespace sim {

Config cfg;
bool active = false;
bool g_trace = false;
uint64_t g_points = 0;
int64_t g_now = 1700000000000000000LL;
std::string g_sample, g_tier = "quick";
Result *g_res = nullptr;

// ------------------------------------------------------------------ rng
static uint64_t rs[4];
static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnext() { uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17; rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45); return r; }
double runif() { return (rnext() >> 11) * (1.0 / 9007199254740992.0); }

// ------------------------------------------------------------------ decisions
static bool replaying = false;
static std::unordered_map<uint64_t, uint32_t> ordinals;
static std::vector<Entry> recorded;
static std::map<uint64_t, std::map<uint64_t, uint32_t>> replay;
static inline uint64_t key(Stream s) { return ((uint64_t) s.cls << 32) | s.idx; }

void decisions_seed(uint64_t seed) { uint64_t x = seed * 0x2545F4914F6CDD1DULL + 77; for (auto &r : rs) r = sm(x); replaying = false; }
void decisions_replay(const std::vector<Entry> &e) { replaying = true; replay.clear(); for (auto &x : e) replay[((uint64_t) x.cls << 32) | x.idx][x.ord] = x.val; uint64_t y = 1; for (auto &r : rs) r = sm(y); }
const std::vector<Entry> &decisions() { return recorded; }
static void record(Stream s, uint64_t ord, uint32_t v) { if (v) recorded.push_back(Entry{s.cls, s.idx, ord, v}); }
static uint32_t lookup(Stream s, uint64_t ord) { auto i = replay.find(key(s)); if (i == replay.end()) return 0; auto j = i->second.find(ord); return j == i->second.end() ? 0 : j->second; }

uint32_t choose(Stream s, uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t ord = ordinals[key(s)]++;
    uint32_t v = replaying ? lookup(s, ord) : (uint32_t) (rnext() % n);
    if (v >= n) v = n - 1;
    record(s, ord, v);
    return v;
}
uint32_t choose_p(Stream s, uint32_t n, double p)
{
    if (n <= 1) return 0;
    uint32_t ord = ordinals[key(s)]++;
    uint32_t v = 0;
    if (replaying) v = lookup(s, ord);
    else if (p > 0 && runif() < p) v = 1 + (uint32_t) (rnext() % (n - 1));
    if (v >= n) v = n - 1;
    record(s, ord, v);
    return v;
}
bool flip(Stream s, double p) { return choose_p(s, 2, p) != 0; }

// ------------------------------------------------------------------ trace
uint64_t fnv(const void *p, size_t n, uint64_t h) { const unsigned char *c = (const unsigned char *) p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
static uint64_t trace_hash = 1469598103934665603ULL;
static uint64_t n_events = 0;
std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void ev(const char *f, ...)
{
    char b[700];
    va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n >= (int) sizeof b) n = sizeof b - 1;
    trace_hash = fnv(b, n, trace_hash);
    n_events++;
    if (g_trace) { char o[800]; int m = snprintf(o, sizeof o, "[%llu t%d] %s\n", (unsigned long long) g_points, cur_thread() ? cur_thread()->id : -1, b); syscall(SYS_write, 2, o, m); }
}
static void counter(Counter *tab, const char *name, uint64_t n) { for (int i = 0; i < NCOUNTERS; i++) { if (!tab[i].name[0]) { snprintf(tab[i].name, sizeof tab[i].name, "%s", name); tab[i].n = n; return; } if (!strcmp(tab[i].name, name)) { tab[i].n += n; return; } } }
void probe(const char *name, uint64_t n) { if (g_res) counter(g_res->probes, name, n); }
void fired(const char *name, uint64_t n) { ev("fault %s", name); if (g_res) counter(g_res->faults, name, n); }
void nontrivial() { if (g_res) g_res->nontrivial = 1; }

static std::string dump_path;
void set_dump(const std::string &p) { dump_path = p; }
static void sync_points();
void finish_result(int status, const char *msg)
{
    sync_points();
    if (g_res) {
        g_res->hash = trace_hash; g_res->points = g_points; g_res->events = n_events;
        g_res->simns = g_now - 1700000000000000000LL;
        snprintf(g_res->sample, sizeof g_res->sample, "%s", g_sample.c_str());
        if (msg) snprintf(g_res->msg, sizeof g_res->msg, "%s", msg);
        g_res->status = status;
    }
    if (!dump_path.empty()) {
        FILE *f = nullptr;
        int fd = (int) syscall(SYS_open, dump_path.c_str(), 01101, 0644);
        (void) f;
        if (fd >= 0) {
            std::string o;
            for (auto &e : recorded) { char b[100]; snprintf(b, sizeof b, "%u.%u %llu %u\n", e.cls, e.idx, (unsigned long long) e.ord, e.val); o += b; }
            size_t off = 0; while (off < o.size()) { long r = syscall(SYS_write, fd, o.data() + off, o.size() - off); if (r <= 0) break; off += r; }
            syscall(SYS_close, fd);
        }
    }
}
void violate(const char *f, ...)
{
    char b[1900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    active = false;
    if (g_trace) { syscall(SYS_write, 2, "VIOLATION: ", 11); syscall(SYS_write, 2, b, strlen(b)); syscall(SYS_write, 2, "\n", 1); }
    finish_result(R_VIOLATION, b);
    _exit(1);
}

// ------------------------------------------------------------------ threads
static std::vector<Thread *> threads;
static std::vector<Proc *> procs;
static Thread *current = nullptr;
static __thread Thread *tls_me = nullptr;
static int noyield = 0;
static uint64_t switches = 0;
static uint64_t hook_no = 0;

NoYield::NoYield() { noyield++; }
NoYield::~NoYield() { noyield--; }
Proc *cur_proc() { return tls_me ? tls_me->proc : nullptr; }
Thread *cur_thread() { return tls_me; }
bool in_sim() { return active && tls_me; }

static void futex_wait(int *a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void futex_wake(int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// memory-access points
extern "C" { int64_t g_cd = INT64_MAX; }
static int64_t cd_start = INT64_MAX;
static uint64_t next_preempt = UINT64_MAX, next_crash = UINT64_MAX;
static void sync_points() { g_points += (uint64_t) (cd_start - g_cd); cd_start = g_cd; }
static uint64_t sample_gap(double mean) { double u = runif(); double g = -std::log(1 - u) * mean; if (g > 1e15) g = 1e15; return 1 + (uint64_t) g; }
static void set_cd()
{
    uint64_t n = std::min(next_preempt, next_crash);
    n = std::min<uint64_t>(n, cfg.point_cap + 1);
    int64_t d = n > g_points ? (int64_t) (n - g_points) : 1;
    g_cd = cd_start = d;
}
static void arm_preempt()
{
    if (replaying) {
        next_preempt = UINT64_MAX;
        auto i = replay.find(key(S(C_PREEMPT, 0)));
        if (i != replay.end()) { auto j = i->second.upper_bound(g_points); if (j != i->second.end()) next_preempt = j->first; }
    } else next_preempt = cfg.preempt_mean > 0 ? g_points + sample_gap(cfg.preempt_mean) : UINT64_MAX;
}
static void arm_crash()
{
    if (!cfg.crash_enabled) { next_crash = UINT64_MAX; return; }
    if (replaying) {
        next_crash = UINT64_MAX;
        auto i = replay.find(key(S(C_CRASHPT, 0)));
        if (i != replay.end()) { auto j = i->second.upper_bound(g_points); if (j != i->second.end()) next_crash = j->first; }
    } else next_crash = cfg.crash_pt_mean > 0 ? g_points + sample_gap(cfg.crash_pt_mean) : UINT64_MAX;
}
void rearm() { sync_points(); arm_preempt(); arm_crash(); set_cd(); }

static std::vector<Thread *> runnable_except(Thread *me) { std::vector<Thread *> r; for (auto t : threads) if (t != me && t->st == T_RUN && !t->killed) r.push_back(t); return r; }

static void switch_to(Thread *n)
{
    Thread *me = tls_me;
    if (n == me) return;
    sync_points();
    g_now += 1000;
    if (++switches > cfg.switch_cap) violate("no progress: %llu context switches", (unsigned long long) switches);
    ev("switch %d->%d", me ? me->id : -1, n->id);
    current = n;
    futex_wake(&n->go);
    if (me) futex_wait(&me->go);
}

static const char *stname(TState s) { static const char *n[] = { "runnable", "mutex", "cond", "join", "sleep", "event", "sem", "rwlock", "done" }; return n[s]; }
static void deadlock()
{
    std::string m = "deadlock:";
    for (auto t : threads) if (!t->killed && t->st != T_DONE) m += fmt(" [thread %d of %s waits for %s in %s]", t->id, t->proc->name.c_str(), stname(t->st), t->what);
    violate("%s", m.c_str());
}
// pick and run another thread; current thread is not runnable
static void schedule_away()
{
    Thread *me = tls_me;
    for (;;) {
        if (cfg.spurious > 0 || replaying) {
            std::vector<Thread *> cw;
            for (auto t : threads) if (t->st == T_COND && !t->killed) cw.push_back(t);
            if (!cw.empty()) { uint32_t v = choose_p(S(C_SPURIOUS), cw.size() + 1, cfg.spurious); if (v) { fired("spurious-wakeup"); cw[v - 1]->st = T_RUN; cw[v - 1]->wait = nullptr; } }
        }
        std::vector<Thread *> r;
        for (auto t : threads) if (t->st == T_RUN && !t->killed) r.push_back(t);
        if (!r.empty()) {
            Thread *n = r[choose(S(C_SCHED), r.size())];
            if (n == me) return;
            switch_to(n);
            return;
        }
        Thread *first = nullptr;
        for (auto t : threads) if (!t->killed && t->st != T_DONE && t->deadline >= 0 && (!first || t->deadline < first->deadline)) first = t;
        if (!first) deadlock();
        if (first->deadline > g_now) g_now = first->deadline;
        first->timed_out = true; first->deadline = -1; first->st = T_RUN; first->wait = nullptr;
    }
}
void park_forever()
{
    // hand the baton over and never come back
    Thread *me = tls_me;
    std::vector<Thread *> r;
    for (;;) {
        r.clear();
        for (auto t : threads) if (t->st == T_RUN && !t->killed && t != me) r.push_back(t);
        if (!r.empty()) break;
        Thread *first = nullptr;
        for (auto t : threads) if (!t->killed && t->st != T_DONE && t->deadline >= 0 && (!first || t->deadline < first->deadline)) first = t;
        if (!first) deadlock();
        if (first->deadline > g_now) g_now = first->deadline;
        first->timed_out = true; first->deadline = -1; first->st = T_RUN; first->wait = nullptr;
    }
    Thread *n = r[choose(S(C_SCHED), r.size())];
    sync_points();
    ev("switch %d->%d (parked)", me->id, n->id);
    current = n;
    futex_wake(&n->go);
    for (;;) { int z = 0; syscall(SYS_futex, &z, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
}
void block(TState st, void *obj, int64_t deadline, const char *what)
{
    Thread *me = tls_me;
    me->st = st; me->wait = obj; me->deadline = deadline; me->timed_out = false; me->what = what;
    schedule_away();
}
void wake_all(TState st, void *obj) { for (auto t : threads) if (t->st == st && t->wait == obj && !t->killed) { t->st = T_RUN; t->wait = nullptr; t->deadline = -1; } }
bool wake_one(TState st, void *obj)
{
    std::vector<Thread *> w;
    for (auto t : threads) if (t->st == st && t->wait == obj && !t->killed) w.push_back(t);
    if (w.empty()) return false;
    Thread *t = w[choose(S(C_SIGNALPICK), w.size())];
    t->st = T_RUN; t->wait = nullptr; t->deadline = -1;
    return true;
}
static void preempt_now(Stream s, uint64_t ord)
{
    auto r = runnable_except(tls_me);
    if (r.empty()) return;
    uint32_t v = replaying ? lookup(s, ord) : 1 + (uint32_t) (rnext() % r.size());
    if (!v) return;
    if (v > r.size()) v = r.size();
    record(s, ord, v);
    if (g_res) g_res->preemptions++;
    switch_to(r[v - 1]);
}
static double hook_p = 0;
void set_hook_p(double p) { hook_p = p; }
void sched_point(const char *what)
{
    (void) what;
    if (!in_sim() || noyield) return;
    g_now += 200;
    hook_no++;
    auto r = runnable_except(tls_me);
    if (r.empty()) return;
    uint32_t v = choose_p(S(C_PREEMPT, 1), r.size() + 1, hook_p);
    if (v) { if (g_res) g_res->preemptions++; switch_to(r[v - 1]); }
}
extern "C" void sim_slow_point()
{
    sync_points();
    if (!in_sim() || noyield) { g_cd = cd_start = active ? 64 : INT64_MAX; return; }
    if (g_points > cfg.point_cap) violate("no progress: %llu steps without finishing", (unsigned long long) g_points);
    if (g_points >= next_crash) {
        uint64_t at = next_crash; next_crash = UINT64_MAX;
        if (cfg.crash_enabled && tls_me->proc->pid != 1) {
            uint32_t v = replaying ? lookup(S(C_CRASHPT, 0), at) : 1;
            if (v) { record(S(C_CRASHPT, 0), at, 1); ev("crash at step %llu", (unsigned long long) at); fired(cfg.crash_machine ? "crash-machine@step" : "crash-process@step"); crash_proc(tls_me->proc); }
        }
    }
    if (g_points >= next_preempt) { uint64_t at = next_preempt; arm_preempt(); set_cd(); preempt_now(S(C_PREEMPT, 0), at); return; }
    set_cd();
}
void crash_point(const char *what)
{
    if (!in_sim() || noyield || !cfg.crash_enabled || tls_me->proc->pid == 1) return;
    if (flip(S(C_CRASH), cfg.crash_sys)) { ev("crash at %s", what); fired(cfg.crash_machine ? "crash-machine@syscall" : "crash-process@syscall"); crash_proc(tls_me->proc); }
}
void yield(const char *what) { sched_point(what); }

static void unlock_all_of_dead();
void crash_proc(Proc *p)
{
    p->alive = false; p->crashed = true;
    bool self = false;
    for (auto t : threads) if (t->proc == p && t->st != T_DONE) { t->killed = true; t->st = T_DONE; if (t == tls_me) self = true; }
    p->live_threads = 0;
    unlock_all_of_dead();
    release_locks_of(p);
    close_fds_of(p);
    wake_all(T_EVENT, p);
    if (self) park_forever();
}
void proc_exit(int code)
{
    Proc *p = tls_me->proc;
    p->exited = true; p->alive = false; p->exit_code = code;
    for (auto t : threads) if (t->proc == p && t->st != T_DONE) { t->killed = true; t->st = T_DONE; }
    p->live_threads = 0;
    unlock_all_of_dead();
    release_locks_of(p);
    close_fds_of(p);
    wake_all(T_EVENT, p);
    park_forever();
}
int live_threads_of(Proc *p) { int n = 0; for (auto t : threads) if (t->proc == p && t->st != T_DONE && !t->killed) n++; return n; }

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void *tramp(void *a)
{
    Thread *t = (Thread *) a;
    tls_me = t;
    futex_wait(&t->go);
    t->ret = t->fn(t->arg);
    t->st = T_DONE;
    t->proc->live_threads--;
    ev("thread %d done", t->id);
    wake_all(T_JOIN, t);
    wake_all(T_EVENT, t->proc);
    park_forever();   // the real thread never ends, so nothing runs outside the scheduler's control
}
int max_threads = 0;
static Thread *new_thread(Proc *p, void *(*fn)(void *), void *arg)
{
    Thread *t = new Thread();
    t->id = threads.size(); t->proc = p; t->fn = fn; t->arg = arg;
    threads.push_back(t);
    p->live_threads++;
    max_threads = std::max(max_threads, p->live_threads);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 2 << 20);
    if (real_create(&t->real, &a, tramp, t) != 0) { fprintf(stderr, "real pthread_create failed\n"); finish_result(R_BROKEN, "pthread_create failed"); _exit(3); }
    pthread_attr_destroy(&a);
    return t;
}
static void *run_body(void *a) { auto *f = (std::function<void()> *) a; (*f)(); return nullptr; }
Thread *spawn_thread(std::function<void()> body) { auto *f = new std::function<void()>(std::move(body)); Thread *t = new_thread(tls_me->proc, run_body, f); ev("spawn %d", t->id); return t; }
Proc *spawn_proc(const char *name, std::function<void()> body)
{
    Proc *p = new Proc(); p->pid = 1000 + (int) procs.size(); p->name = name; procs.push_back(p);
    auto *f = new std::function<void()>([body, p]() { body(); p->exited = true; if (tls_me->proc->pid != 1) { Thread *me = tls_me; for (auto t : threads) if (t->proc == p && t != me && t->st != T_DONE) { t->killed = true; t->st = T_DONE; } unlock_all_of_dead(); release_locks_of(p); close_fds_of(p); p->alive = false; wake_all(T_EVENT, p); } });
    Thread *t = new_thread(p, run_body, f);
    ev("proc %s pid %d main thread %d", name, p->pid, t->id);
    return p;
}
void wait_proc(Proc *p) { while (p->alive) block(T_EVENT, p, -1, p->name.c_str()); }
void join_thread(Thread *t) { while (t->st != T_DONE) block(T_JOIN, t, -1, "join"); }
void ev_wait(Event &e) { while (!e.set) block(T_EVENT, &e, -1, "event"); }
void ev_set(Event &e) { e.set = true; wake_all(T_EVENT, &e); sched_point("event-set"); }

void sim_start()
{
    Proc *h = new Proc(); h->pid = 1; h->name = "harness"; procs.push_back(h);
    Thread *t = new Thread(); t->id = 0; t->proc = h; threads.push_back(t); h->live_threads = 1;
    t->real = pthread_self();
    tls_me = t; current = t;
    active = true;
    rearm();
}
void sim_stop() { active = false; }

// ------------------------------------------------------------------ mutex / cond / rwlock state
struct Mtx { Thread *owner = nullptr; int count = 0; int type = 0; };
static std::unordered_map<void *, Mtx> mtxs;
static bool containers_ready = (mtxs.size() == 0);   // false while library constructors run before ours
struct Rw { int readers = 0; Thread *writer = nullptr; };
static std::unordered_map<void *, Rw> rws;
struct Sem { int val = 0; };
static std::map<int, Sem> sems;
static int next_sem = 1;
static std::map<int, std::map<int, int>> sem_undo;   // pid -> sem -> adj
static void unlock_all_of_dead()
{
    std::vector<void *> w;
    for (auto &m : mtxs) if (m.second.owner && m.second.owner->killed) { m.second.owner = nullptr; m.second.count = 0; w.push_back(m.first); }
    for (auto p : w) wake_all(T_MUTEX, p);
    for (auto &r : rws) if (r.second.writer && r.second.writer->killed) { r.second.writer = nullptr; wake_all(T_RW, r.first); }
    for (auto p : procs) if (!p->alive && sem_undo.count(p->pid)) { for (auto &u : sem_undo[p->pid]) { sems[u.first].val += u.second; wake_all(T_SEM, (void *) (intptr_t) u.first); } sem_undo.erase(p->pid); }
}
} // namespace sim

using namespace sim;
namespace sim { int fault_thread_create(); int fault_mutex_init(); }

template <class F> static F realf(const char *n, const char *v = nullptr) { void *p = v ? dlvsym(RTLD_NEXT, n, v) : nullptr; if (!p) p = dlsym(RTLD_NEXT, n); return (F) p; }
#define REAL(ret, name, ver, ...) static ret (*r)(__VA_ARGS__) = realf<ret (*)(__VA_ARGS__)>(#name, ver)

__attribute__((constructor)) static void init_real() { real_create = realf<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create"); }

extern "C" {

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    if (!in_sim()) return real_create(out, attr, fn, arg);
    if (int e = fault_thread_create()) return e;
    Thread *t = new_thread(tls_me->proc, fn, arg);
    int ds = 0;
    if (attr && pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) t->detached = true;
    *out = t->real;
    ev("pthread_create -> %d", t->id);
    sched_point("pthread_create");
    return 0;
}
static Thread *find_real(pthread_t p) { for (auto t : threads) if (pthread_equal(t->real, p)) return t; return nullptr; }
int pthread_join(pthread_t p, void **ret)
{
    REAL(int, pthread_join, nullptr, pthread_t, void **);
    if (!in_sim()) return r(p, ret);
    sched_point("join");
    Thread *t = find_real(p);
    if (!t || t->joined || t->detached) violate("pthread_join is called with a thread that %s", !t ? "was never created" : "has been joined or detached before");
    if (t == tls_me) return EDEADLK;
    while (t->st != T_DONE) block(T_JOIN, t, -1, "pthread_join");
    t->joined = true;
    if (ret) *ret = t->ret;
    ev("joined %d", t->id);
    return 0;
}
int pthread_detach(pthread_t p) { REAL(int, pthread_detach, nullptr, pthread_t); if (!in_sim()) return r(p); Thread *t = find_real(p); if (t) t->detached = true; return 0; }
void pthread_exit(void *ret)
{
    if (in_sim()) {
        Thread *t = tls_me; t->ret = ret; t->st = T_DONE; t->proc->live_threads--; wake_all(T_JOIN, t); wake_all(T_EVENT, t->proc); park_forever();
    }
    static void (*r)(void *) = realf<void (*)(void *)>("pthread_exit"); r(ret); __builtin_unreachable();
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    REAL(int, pthread_mutex_init, nullptr, pthread_mutex_t *, const pthread_mutexattr_t *);
    if (in_sim()) { if (int e = fault_mutex_init()) return e; }
    int rc = r(m, a);
    if (!containers_ready) return rc;
    Mtx &x = mtxs[m]; x = Mtx();
    if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); x.type = t; }
    return rc;
}
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!in_sim()) { REAL(int, pthread_mutex_destroy, nullptr, pthread_mutex_t *); return r(m); } auto i = mtxs.find(m); if (i != mtxs.end() && i->second.owner) { return EBUSY; } mtxs.erase(m); return 0; }
// the real call reads what it is given, so an object that was never made is found out
static void touch_sync(const void *p) { (void) *(const volatile char *) p; }
static int lock_common(pthread_mutex_t *m, bool tryit, int64_t deadline)
{
    touch_sync(m);
    if (!tryit) sched_point("lock");
    Mtx *x = &mtxs[m];
    if (x->owner == tls_me) {
        if (x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
        if (tryit) return EBUSY;
        if (x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (mtxs[m].owner) {
        if (tryit) return EBUSY;
        block(T_MUTEX, m, deadline, "mutex lock");
        if (tls_me->timed_out) return ETIMEDOUT;
    }
    x = &mtxs[m];
    x->owner = tls_me; x->count = 1;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { REAL(int, pthread_mutex_lock, nullptr, pthread_mutex_t *); if (!in_sim()) return r(m); return lock_common(m, false, -1); }
int pthread_mutex_trylock(pthread_mutex_t *m) { REAL(int, pthread_mutex_trylock, nullptr, pthread_mutex_t *); if (!in_sim()) return r(m); sched_point("trylock"); return lock_common(m, true, -1); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { REAL(int, pthread_mutex_timedlock, nullptr, pthread_mutex_t *, const struct timespec *); if (!in_sim()) return r(m, ts); return lock_common(m, false, ts->tv_sec * 1000000000LL + ts->tv_nsec); }
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(int, pthread_mutex_unlock, nullptr, pthread_mutex_t *);
    if (!in_sim()) return r(m);
    Mtx &x = mtxs[m];
    if (x.owner != tls_me) { ev("unlock of mutex not owned"); if (x.type != PTHREAD_MUTEX_NORMAL || !x.owner) return EPERM; }
    if (--x.count > 0) return 0;
    x.owner = nullptr; x.count = 0;
    wake_all(T_MUTEX, m);
    sched_point("unlock");
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { REAL(int, pthread_cond_init, "GLIBC_2.3.2", pthread_cond_t *, const pthread_condattr_t *); if (in_sim()) if (int e = fault_mutex_init()) return e; return r(c, a); }
int pthread_cond_destroy(pthread_cond_t *c) { REAL(int, pthread_cond_destroy, "GLIBC_2.3.2", pthread_cond_t *); if (!in_sim()) return r(c); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl)
{
    touch_sync(c); touch_sync(m);
    Mtx &x = mtxs[m];
    if (x.owner != tls_me) { ev("cond_wait without mutex"); }
    int cnt = x.count;
    x.owner = nullptr; x.count = 0;
    wake_all(T_MUTEX, m);
    ev("cond-wait");
    block(T_COND, c, dl, "condition wait");
    bool to = tls_me->timed_out;
    while (mtxs[m].owner) block(T_MUTEX, m, -1, "mutex re-lock");
    Mtx &y = mtxs[m]; y.owner = tls_me; y.count = cnt ? cnt : 1;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { REAL(int, pthread_cond_wait, "GLIBC_2.3.2", pthread_cond_t *, pthread_mutex_t *); if (!in_sim()) return r(c, m); return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { REAL(int, pthread_cond_timedwait, "GLIBC_2.3.2", pthread_cond_t *, pthread_mutex_t *, const struct timespec *); if (!in_sim()) return r(c, m, ts); return cond_wait(c, m, ts->tv_sec * 1000000000LL + ts->tv_nsec); }
int pthread_cond_signal(pthread_cond_t *c) { REAL(int, pthread_cond_signal, "GLIBC_2.3.2", pthread_cond_t *); if (!in_sim()) return r(c); touch_sync(c); sched_point("signal"); ev("signal"); wake_one(T_COND, c); sched_point("signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { REAL(int, pthread_cond_broadcast, "GLIBC_2.3.2", pthread_cond_t *); if (!in_sim()) return r(c); touch_sync(c); sched_point("broadcast"); ev("broadcast"); wake_all(T_COND, c); sched_point("broadcast"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { REAL(int, pthread_rwlock_rdlock, nullptr, pthread_rwlock_t *); if (!in_sim()) return r(l); sched_point("rdlock"); while (rws[l].writer) block(T_RW, l, -1, "rdlock"); rws[l].readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { REAL(int, pthread_rwlock_wrlock, nullptr, pthread_rwlock_t *); if (!in_sim()) return r(l); sched_point("wrlock"); while (rws[l].writer || rws[l].readers) block(T_RW, l, -1, "wrlock"); rws[l].writer = tls_me; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { REAL(int, pthread_rwlock_tryrdlock, nullptr, pthread_rwlock_t *); if (!in_sim()) return r(l); if (rws[l].writer) return EBUSY; rws[l].readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { REAL(int, pthread_rwlock_trywrlock, nullptr, pthread_rwlock_t *); if (!in_sim()) return r(l); if (rws[l].writer || rws[l].readers) return EBUSY; rws[l].writer = tls_me; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { REAL(int, pthread_rwlock_unlock, nullptr, pthread_rwlock_t *); if (!in_sim()) return r(l); Rw &x = rws[l]; if (x.writer) x.writer = nullptr; else if (x.readers) x.readers--; wake_all(T_RW, l); sched_point("rwunlock"); return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) { REAL(int, pthread_once, nullptr, pthread_once_t *, void (*)(void)); NoYield ny; return r(o, f); }
pid_t getpid(void) { if (in_sim()) return tls_me->proc->pid; return (pid_t) syscall(SYS_getpid); }
int sched_yield(void) { if (!in_sim()) return (int) syscall(SYS_sched_yield); sched_point("sched_yield"); g_now += 10000; auto r = runnable_except(tls_me); if (!r.empty()) switch_to(r[choose(S(C_SCHED), r.size())]); return 0; }

// SysV semaphores (APR process mutexes)
int semget(key_t, int, int) { int id = next_sem++; sems[id] = Sem(); return id; }
int semctl(int id, int, int cmd, ...)
{
    va_list a; va_start(a, cmd); union { int val; void *p; } u; u.p = nullptr; u.val = va_arg(a, int); va_end(a);
    if (!sems.count(id)) { errno = EINVAL; return -1; }
    if (cmd == SETVAL) { sems[id].val = u.val; return 0; }
    if (cmd == GETVAL) return sems[id].val;
    if (cmd == IPC_RMID) { sems.erase(id); wake_all(T_SEM, (void *) (intptr_t) id); return 0; }
    return 0;
}
static int sem_do(int id, struct sembuf *s, size_t n, int64_t dl)
{
    for (size_t i = 0; i < n; i++) {
        sched_point("semop");
        if (!sems.count(id)) { errno = EINVAL; return -1; }
        if (s[i].sem_op < 0) {
            while (sems.count(id) && sems[id].val + s[i].sem_op < 0) {
                if (s[i].sem_flg & IPC_NOWAIT) { errno = EAGAIN; return -1; }
                block(T_SEM, (void *) (intptr_t) id, dl, "process lock");
                if (tls_me->timed_out) { errno = EAGAIN; return -1; }
            }
            if (!sems.count(id)) { errno = EIDRM; return -1; }
        }
        sems[id].val += s[i].sem_op;
        if (s[i].sem_flg & SEM_UNDO) sem_undo[tls_me->proc->pid][id] -= s[i].sem_op;
        if (s[i].sem_op > 0) wake_all(T_SEM, (void *) (intptr_t) id);
        sched_point("semop");
    }
    return 0;
}
int semop(int id, struct sembuf *s, size_t n) { if (!in_sim()) { for (size_t i = 0; i < n; i++) sems[id].val += s[i].sem_op; return 0; } return sem_do(id, s, n, -1); }
int semtimedop(int id, struct sembuf *s, size_t n, const struct timespec *t) { if (!in_sim()) return 0; return sem_do(id, s, n, t ? g_now + t->tv_sec * 1000000000LL + t->tv_nsec : -1); }

// time
int gettimeofday(struct timeval *tv, void *) { if (!in_sim()) return (int) syscall(SYS_gettimeofday, tv, nullptr); g_now += 1000; tv->tv_sec = g_now / 1000000000LL; tv->tv_usec = g_now % 1000000000LL / 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { if (!in_sim()) return (int) syscall(SYS_clock_gettime, c, ts); g_now += 1000; ts->tv_sec = g_now / 1000000000LL; ts->tv_nsec = g_now % 1000000000LL; return 0; }
time_t time(time_t *t) { time_t v = in_sim() ? (time_t) (g_now / 1000000000LL) : (time_t) syscall(SYS_time, nullptr); if (t) *t = v; return v; }
static void vsleep(int64_t ns) { sched_point("sleep"); block(T_SLEEP, nullptr, g_now + ns, "sleep"); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!in_sim()) return (int) syscall(SYS_nanosleep, a, b); vsleep(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; }
int usleep(useconds_t u) { if (!in_sim()) { struct timespec t = { (time_t) (u / 1000000), (long) (u % 1000000) * 1000 }; return (int) syscall(SYS_nanosleep, &t, nullptr); } vsleep(u * 1000LL); return 0; }
unsigned sleep(unsigned s) { if (!in_sim()) { struct timespec t = { (time_t) s, 0 }; syscall(SYS_nanosleep, &t, nullptr); return 0; } vsleep(s * 1000000000LL); return 0; }
int select(int n, fd_set *a, fd_set *b, fd_set *c, struct timeval *tv) { if (in_sim() && n == 0 && tv) { vsleep(tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL); return 0; } return (int) syscall(SYS_select, n, a, b, c, tv); }
int rand(void) { if (in_sim()) return (int) choose(S(C_MISC, 1), 1 << 30); static unsigned s = 1; s = s * 1103515245 + 12345; return s & 0x7fffffff; }

// ------------------------------------------------------------------ compiler-inserted access points
#define PT() do { if (__builtin_expect(--g_cd <= 0, 0)) sim_slow_point(); } while (0)
void __tsan_init() {}
void lib_points() { PT(); PT(); PT(); PT(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define AC(a, n) do { PT(); if (__builtin_expect((size_t) ((const char *) (a) - arena) < ARENA_SIZE, 0)) arena_check((const void *) (a), n, __builtin_return_address(0)); } while (0)
#define RW(n) void __tsan_read##n(void *a) { AC(a, n); } \
    void __tsan_write##n(void *a) { AC(a, n); } \
    void __tsan_unaligned_read##n(void *a) { AC(a, n); } \
    void __tsan_unaligned_write##n(void *a) { AC(a, n); } \
    void __tsan_volatile_read##n(void *a) { AC(a, n); } \
    void __tsan_volatile_write##n(void *a) { AC(a, n); } \
    void __tsan_read_write##n(void *a) { AC(a, n); } \
    void __tsan_unaligned_read_write##n(void *a) { AC(a, n); } \
    void __tsan_unaligned_volatile_read##n(void *a) { AC(a, n); } \
    void __tsan_unaligned_volatile_write##n(void *a) { AC(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { AC(a, n); }
void __tsan_write_range(void *a, unsigned long n) { AC(a, n); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { AC(d, n); AC(s, n); size_t h = n > 64 ? n / 2 : n; memmove(d, s, h); if (h < n) { PT(); memmove((char *) d + h, (const char *) s + h, n - h); } return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { AC(d, n); AC(s, n); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { AC(d, n); size_t h = n > 64 ? n / 2 : n; memset(d, c, h); if (h < n) { PT(); memset((char *) d + h, c, n - h); } return d; }
#define AT(T, n) \
    T __tsan_atomic##n##_load(const volatile T *a, int) { AC(a, sizeof(T)); return *a; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { AC(a, sizeof(T)); *a = v; } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { AC(a, sizeof(T)); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { AC(a, sizeof(T)); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { AC(a, sizeof(T)); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { AC(a, sizeof(T)); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { AC(a, sizeof(T)); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { AC(a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { AC(a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { AC(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { AC(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { AC(a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int) { PT(); }
void __tsan_atomic_signal_fence(int) {}
} // extern C
