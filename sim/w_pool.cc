// Worlds over the thread pool: exactly-once execution, wait as a barrier, start-up and shutdown.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <memory>
extern "C" {
#include "napr_threadpool.h"
#include "napr_heap.h"
}
#include <apr_pools.h>
#include <apr_time.h>
#include <sched.h>

using namespace sim;
namespace sim { void set_hook_p(double); }
namespace tp {
struct Task { int id; int runs = 0; bool submitted = false, done = false, busy = false; int dur = 0; int children = 0; bool fails = false; uint32_t effect = 0; struct Meet *meet = nullptr; };
struct Meet { int need = 0, here = 0, left = 0; Event all, gone; };     // tasks of a group wait for each other
struct PoolW {
    std::vector<std::unique_ptr<Task>> tasks;
    napr_threadpool_t *pool = nullptr;
    int ctx_magic = 0x51ab;
    int running = 0, max_running = 0;
    bool closed = false;
    Task *make(Stream s, int depth)
    {
        NoYield ny;
        tasks.emplace_back(new Task);
        Task *t = tasks.back().get();
        t->id = (int) tasks.size() - 1;
        t->dur = (int) choose(s, 4);
        t->fails = choose(s, 6) == 5;
        t->children = depth ? 0 : (choose(s, 8) == 7 ? 1 + (int) choose(s, 2) : 0);
        return t;
    }
    void submit(Task *t)
    {
        ev("submit %d", t->id);
        apr_status_t s = napr_threadpool_add(pool, t);
        if (s != APR_SUCCESS) violate("adding task %d failed with status %d", t->id, s);
        t->submitted = true;
    }
};
static PoolW *P;
static bool allow_children;
static apr_status_t work(void *ctx, void *data)
{
    Task *t = (Task *) data;
    if (ctx != &P->ctx_magic) violate("the callback got a wrong context pointer");
    if (P->closed) violate("task %d was executed after shutdown had returned", t->id);
    t->runs++;
    if (t->runs > 1) violate("task %d was executed %d times", t->id, t->runs);
    P->running++; P->max_running = std::max(P->max_running, P->running);
    ev("task %d starts", t->id);
    if (Meet *m = t->meet) {
        bool last; { NoYield ny; last = ++m->here == m->need; }
        if (last) { ev("everyone of the group is here"); ev_set(m->all); } else ev_wait(m->all);
    }
    for (int i = 0; i < t->dur; i++) { if (i == 1) apr_sleep(1000); else yield("task"); }
    if (allow_children) for (int i = 0; i < t->children; i++) { P->submit(P->make(S(C_OP, 5000 + t->id), 1)); probe("task-adds-task"); }
    t->effect = 0xfeed0000u + t->id;
    t->done = true;
    P->running--;
    if (Meet *m = t->meet) { bool last; { NoYield ny; last = ++m->left == m->need; } if (last) ev_set(m->gone); }
    ev("task %d ends", t->id);
    return t->fails ? APR_EGENERAL : APR_SUCCESS;
}
static void sched_cfg(Stream c)
{
    static const double pm[] = { 0, 3, 10, 40, 200 };
    cfg.preempt_mean = pm[choose(c, 5)];
    static const double hp[] = { 0.3, 0, 0.1, 0.7 };
    set_hook_p(hp[choose(c, 4)]);
    static const double sp[] = { 0, 0, 0.05, 0.3 };
    cfg.spurious = sp[choose(c, 4)];
    cfg.switch_cap = 200000;
    rearm();
}
// Many tasks or many workers: fewer preemptions and spurious wake-ups (each of them wakes some idle worker), more steps
static void sched_big()
{
    cfg.switch_cap = 4000000;
    if (cfg.preempt_mean > 0 && cfg.preempt_mean < 40) cfg.preempt_mean = 40;
    if (cfg.spurious > 0.01) cfg.spurious = 0.01;
    rearm();
}
static void exactly_once()
{
    Stream c = S(C_CFG);
    int nt = 1 + (int) choose(c, 6), rounds = 1 + (int) choose(c, 4), max = (int) choose(c, 4) == 3 ? 30 : 8;
    if (choose(c, 80) == 79) { max = 1200; rounds = 1; probe("long-queue"); }
    if (choose(c, 40) == 39) { nt = 7 + (int) choose(c, 60); probe("many-workers"); }
    int helpers = choose(c, 4) == 3 ? 1 + (int) choose(c, 2) : 0;
    allow_children = choose(c, 4) == 3;
    bool waiters = helpers && choose(c, 2);
    sched_cfg(c);
    if (max > 100 || nt > 8) sched_big();
    P = new PoolW;
    int total = 0;
    Proc *p = spawn_proc("pool", [&]() {
        apr_pool_t *pool; apr_pool_create(&pool, nullptr);
        apr_status_t s = napr_threadpool_init(&P->pool, &P->ctx_magic, nt, work, pool);
        if (s != APR_SUCCESS) violate("creating the pool failed with status %d", s);
        for (int r = 0; r < rounds; r++) {
            int n = (int) choose(S(C_OP, r), max + 1);
            std::vector<Thread *> hs;
            for (int h = 0; h < helpers; h++) { int m = (int) choose(S(C_OP, 1000 + r * 10 + h), 5); hs.push_back(spawn_thread([r, h, m, nt, waiters]() {
                Stream o = S(C_OP, 2000 + r * 10 + h);
                std::vector<Task *> mine;
                for (int i = 0; i < m; i++) { Task *t = P->make(o, 0); mine.push_back(t); P->submit(t); if (choose(o, 3) == 2) apr_sleep(500); }
                if (!waiters || choose(o, 2)) return;
                probe("several-waiters");
                ev("helper waits");
                apr_status_t ws = napr_threadpool_wait(P->pool);
                if (ws != APR_SUCCESS) violate("wait failed with status %d", ws);
                for (auto t : mine) if (!t->done) violate("wait returned although task %d, submitted before it by the same thread, %s (%d workers, round %d, several threads wait)", t->id, t->runs ? "is still running" : "has not run", nt, r);
            })); }
            bool join_first = choose(S(C_OP, r), 2);
            for (int i = 0; i < n; i++) {
                P->submit(P->make(S(C_OP, 100 + r), 0));
                uint32_t g = choose(S(C_OP, 100 + r), 12);
                if (g == 11) apr_sleep(100); else if (g > 8) yield("submitter");
            }
            if (join_first) for (auto h : hs) join_thread(h);
            std::vector<Task *> before;
            { NoYield ny; for (auto &t : P->tasks) if (t->submitted) before.push_back(t.get()); }
            ev("wait");
            s = napr_threadpool_wait(P->pool);
            ev("wait returned");
            if (s != APR_SUCCESS) violate("wait failed with status %d", s);
            for (auto t : before) { if (!t->done) violate("wait returned although task %d, submitted before it, %s (%d workers, round %d)", t->id, t->runs ? "is still running" : "has not run", nt, r); if (t->effect != 0xfeed0000u + t->id) violate("effect of task %d is not visible", t->id); }
            if (!join_first) for (auto h : hs) join_thread(h);
            total = (int) P->tasks.size();
        }
        s = napr_threadpool_wait(P->pool);
        for (auto &t : P->tasks) if (t->runs != 1 || !t->done) violate("task %d was executed %d times when the last wait returned", t->id, t->runs);
        s = napr_threadpool_shutdown(P->pool);
        if (s != APR_SUCCESS) violate("shutdown failed with status %d", s);
        P->closed = true;
        for (auto &t : P->tasks) if (t->runs != 1 || !t->done) violate("task %d was executed %d times", t->id, t->runs);
        if (live_threads_of(cur_proc()) != 1) violate("%d threads still exist after shutdown", live_threads_of(cur_proc()) - 1);
        apr_pool_destroy(pool);
    });
    wait_proc(p);
    if (P->max_running > 1) probe("parallel-tasks");
    if (total > 0) nontrivial();
    g_sample = fmt("workers=%d rounds=%d tasks=%zu submitters=%d nested=%d parallel=%d", nt, rounds, P->tasks.size(), 1 + helpers, (int) allow_children, P->max_running);
}
static void lifecycle()
{
    Stream c = S(C_CFG);
    int nt = 1 + (int) choose(c, 6), cycles = 1 + (int) choose(c, 3);
    bool fail = choose(c, 2);
    double fp = choose(c, 2) ? 0.15 : 0.4;
    int max = 7;
    if (choose(c, 60) == 59) { max = 900; cycles = 1; probe("long-queue"); }
    if (choose(c, 40) == 39) { nt = 7 + (int) choose(c, 60); fp = 0.03; probe("many-workers"); }
    sched_cfg(c);
    if (max > 100 || nt > 8) sched_big();
    int failed = 0, dropped = 0;
    allow_children = false;
    Proc *p = spawn_proc("pool", [&]() {
        for (int cy = 0; cy < cycles; cy++) {
            P = new PoolW;
            apr_pool_t *pool; apr_pool_create(&pool, nullptr);
            if (fail) { fault_p[F_THREAD] = fp; fault_p[F_MUTEXINIT] = fp / 4; }
            apr_status_t s = napr_threadpool_init(&P->pool, &P->ctx_magic, nt, work, pool);
            fault_p[F_THREAD] = fault_p[F_MUTEXINIT] = 0;
            ev("init -> %d", s);
            if (s != APR_SUCCESS) {
                failed++; probe("init-failed");
                if (!fail) violate("creating the pool failed with status %d without a fault", s);
                if (live_threads_of(cur_proc()) != 1) violate("creating a pool of %d workers failed, but %d workers are left running", nt, live_threads_of(cur_proc()) - 1);
                apr_pool_destroy(pool);
                continue;
            }
            if (live_threads_of(cur_proc()) != 1 + nt) violate("a pool of %d workers reported success, but %d workers exist", nt, live_threads_of(cur_proc()) - 1);
            int n = (int) choose(S(C_OP, cy), max + 1);
            uint32_t how = choose(S(C_OP, cy), 3);
            for (int i = 0; i < n; i++) { P->submit(P->make(S(C_OP, 100 + cy), 0)); if (choose(S(C_OP, 100 + cy), 4) == 3) yield("submitter"); }
            if (how == 0) { napr_threadpool_wait(P->pool); for (auto &t : P->tasks) if (!t->done) violate("wait returned although task %d %s", t->id, t->runs ? "is still running" : "has not run"); }
            else if (how == 1) apr_sleep(choose(S(C_OP, cy), 3) * 700);
            ev("shutdown");
            s = napr_threadpool_shutdown(P->pool);
            ev("shutdown -> %d", s);
            if (s != APR_SUCCESS) violate("shutdown failed with status %d", s);
            P->closed = true;
            for (auto &t : P->tasks) { if (t->runs && !t->done) violate("shutdown returned while task %d was running", t->id); if (!t->runs) dropped++; }
            if (live_threads_of(cur_proc()) != 1) violate("%d workers still exist after shutdown", live_threads_of(cur_proc()) - 1);
            apr_pool_destroy(pool);
        }
    });
    wait_proc(p);
    if (dropped) probe("shutdown-before-all-started");
    nontrivial();
    g_sample = fmt("workers=%d cycles=%d creation faults=%d failed=%d not started=%d", nt, cycles, (int) fail, failed, dropped);
}
// Tasks that wait for each other: n workers give room for n tasks at once, so groups of together at most n such tasks
// always get past their meeting point; a lost wake-up or a worker that goes missing shows as a deadlock.
static void parallel()
{
    Stream c = S(C_CFG);
    int nt = 2 + (int) choose(c, 7), rounds = 1 + (int) choose(c, 5);
    int subm = 1 + (int) choose(c, 3);           // threads that submit groups, each with its share of the workers
    int fill = (int) choose(c, 4);               // independent tasks in between
    if (choose(c, 60) == 59) { fill = 150; rounds = 1; nt = 2 + (int) choose(c, 4); probe("long-queue"); }
    else if (choose(c, 40) == 39) { nt = 9 + (int) choose(c, 60); rounds = 1 + (int) choose(c, 2); probe("many-workers"); }
    sched_cfg(c);
    if (fill > 100 || nt > 8) sched_big();
    allow_children = choose(c, 6) == 5;
    if (subm > nt) subm = nt;
    P = new PoolW;
    int met = 0;
    Proc *p = spawn_proc("pool", [&]() {
        apr_pool_t *pool; apr_pool_create(&pool, nullptr);
        apr_status_t s = napr_threadpool_init(&P->pool, &P->ctx_magic, nt, work, pool);
        if (s != APR_SUCCESS) violate("creating the pool failed with status %d", s);
        auto submitter = [&](int id, int share) {
            for (int r = 0; r < rounds; r++) {
                Stream o = S(C_OP, 100 * id + r);
                Meet *m = new Meet;
                m->need = choose(o, 3) ? share : 1 + (int) choose(o, share);
                for (int i = 0; i < m->need; i++) {
                    for (int f = (int) choose(o, fill + 1); f > 0; f--) P->submit(P->make(S(C_OP, 7000 + 100 * id + r), 0));
                    Task *t = P->make(S(C_OP, 8000 + 100 * id + r), 1);
                    t->meet = m;
                    P->submit(t);
                    uint32_t g = choose(o, 6);
                    if (g == 5) apr_sleep(2000); else if (g == 4) yield("submitter");
                }
                if (id == 0 && choose(o, 2)) { ev("wait"); s = napr_threadpool_wait(P->pool); if (s != APR_SUCCESS) violate("wait failed with status %d", s); if (m->left != m->need) violate("wait returned although a group of %d tasks has not ended (%d workers)", m->need, nt); }
                else ev_wait(m->gone);
                met++;
            }
        };
        std::vector<Thread *> hs;
        for (int i = 1; i < subm; i++) { int share = nt / subm; hs.push_back(spawn_thread([&, i, share]() { submitter(i, share); })); }
        submitter(0, nt - (subm - 1) * (nt / subm));
        for (auto h : hs) join_thread(h);
        s = napr_threadpool_wait(P->pool);
        if (s != APR_SUCCESS) violate("wait failed with status %d", s);
        for (auto &t : P->tasks) if (t->runs != 1 || !t->done) violate("task %d was executed %d times when the last wait returned", t->id, t->runs);
        s = napr_threadpool_shutdown(P->pool);
        if (s != APR_SUCCESS) violate("shutdown failed with status %d", s);
        P->closed = true;
        apr_pool_destroy(pool);
    });
    wait_proc(p);
    if (met != subm * rounds) violate("%d of %d groups of tasks got past their meeting point", met, subm * rounds);
    if (P->max_running > nt) violate("%d tasks ran at once on %d workers", P->max_running, nt);
    if (P->max_running > 1) { probe("parallel-tasks"); nontrivial(); }
    g_sample = fmt("workers=%d submitters=%d groups=%d tasks=%zu parallel=%d", nt, subm, met, P->tasks.size(), P->max_running);
}
// The thread-safe heap: threads insert at the same time, in between one of them looks at it or takes elements out.
struct Elem { int key, owner, seq; bool in = false, out = false; };
static int elem_cmp(const void *a, const void *b) { int x = ((const Elem *) a)->key, y = ((const Elem *) b)->key; return x < y ? -1 : x > y; }
static void heap()
{
    Stream c = S(C_CFG);
    static const double pm[] = { 40, 0, 3, 10, 200 };
    cfg.preempt_mean = pm[choose(c, 5)];
    static const double hp[] = { 0.3, 0, 0.1, 0.7 };
    set_hook_p(hp[choose(c, 4)]);
    cfg.switch_cap = 400000;
    rearm();
    int nthr = 1 + (int) choose(c, 6), phases = 1 + (int) choose(c, 4);
    static const int pre[] = { 0, 250, 256, 300, 505, 512, 1020 };
    int fill = pre[choose(c, 7)];
    static const int per[] = { 3, 10, 40, 120 };
    int most = per[choose(c, 4)], keys = choose(c, 2) ? 1 + (int) choose(c, 5) : 1000;
    bool faults = choose(c, 3) == 2, cfaults = choose(c, 8) == 7, down = choose(c, 3) == 2;
    static const double fps[] = { 1, 0.5, 0.1 };
    double fp = fps[choose(c, 3)];
    int grew = 0, refused = 0, taken = 0;
    std::vector<std::unique_ptr<Elem>> all;
    Proc *p = spawn_proc("heap", [&]() {
        apr_pool_t *pool; apr_pool_create(&pool, nullptr);
        napr_heap_t *h = nullptr;
        if (cfaults) { fault_p[F_MUTEXINIT] = 0.5; fault_p[F_ALLOC] = 0.3; }
        for (int i = 0; i < 20 && !h; i++) { h = napr_heap_make_r(pool, elem_cmp); if (!h && !cfaults) violate("creating a heap failed without a fault"); if (!h) probe("creation-failed"); }
        fault_p[F_MUTEXINIT] = fault_p[F_ALLOC] = 0;
        if (!h) { h = napr_heap_make_r(pool, elem_cmp); if (!h) violate("creating a heap failed without a fault"); }
        std::multiset<int> model;
        auto put = [&](int owner, int seq, Stream o) {
            Elem *e; { NoYield ny; all.emplace_back(new Elem{ down ? 100000 - (int) all.size() : (int) choose(o, keys), owner, seq }); e = all.back().get(); }
            int r = napr_heap_insert_r(h, e);
            NoYield ny;
            ev("insert %d -> %d", e->key, r);
            if (r == 0) { e->in = true; model.insert(e->key); }
            else { if (fault_p[F_PALLOC] <= 0) violate("an insertion failed with status %d without a fault", r); refused++; probe("insertion-refused"); }
        };
        auto look = [&](const char *when) {
            NoYield ny;
            unsigned n = napr_heap_size(h);
            if (n != model.size()) violate("the heap says it holds %u elements, %zu were inserted and not taken out (%s)", n, model.size(), when);
            std::set<Elem *> seen;
            for (unsigned i = 0; i < n; i++) {
                Elem *e = (Elem *) napr_heap_get_nth(h, i);
                if (!e || !e->in || e->out) violate("place %u of %u holds something that is not an element of the heap (%s)", i, n, when);
                if (!seen.insert(e).second) violate("an element is in the heap twice (%s)", when);
            }
            if (napr_heap_get_nth(h, n) || napr_heap_get_nth(h, n + 5)) violate("a place beyond the last of %u elements is not empty (%s)", n, when);
        };
        auto take = [&](const char *when) {
            NoYield ny;
            Elem *e = (Elem *) napr_heap_extract(h);
            if (model.empty()) { if (e) violate("an empty heap gave an element (%s)", when); return false; }
            if (!e) violate("the heap gave nothing although it holds %zu elements (%s)", model.size(), when);
            if (!e->in) violate("the heap gave an element whose insertion had failed (%s)", when);
            if (e->out) violate("the heap gave an element twice (%s)", when);
            if (e->key != *model.rbegin()) violate("the heap gave %d although it holds %d, which comes first (%s)", e->key, *model.rbegin(), when);
            e->out = true; model.erase(model.find(e->key)); taken++;
            return true;
        };
        for (int i = 0; i < fill; i++) put(-1, i, S(C_OP, 1));
        for (int ph = 0; ph < phases; ph++) {
            size_t before = model.size();
            if (faults && choose(S(C_OP, 50 + ph), 3)) fault_p[F_PALLOC] = fp;
            std::vector<Thread *> ts;
            for (int t = 0; t < nthr; t++) { int n = (int) choose(S(C_OP, 100 + ph * 10 + t), most + 1); ts.push_back(spawn_thread([&, ph, t, n]() { Stream o = S(C_OP, 200 + ph * 10 + t); for (int i = 0; i < n; i++) { put(t, i, o); if (choose(o, 6) == 5) yield("inserter"); } })); }
            for (auto t : ts) join_thread(t);
            fault_p[F_PALLOC] = 0;
            for (size_t m = 256; m < 4096; m *= 2) if (before <= m && model.size() > m) grew++;
            look("after the insertions");
            uint32_t n = choose(S(C_OP, 300 + ph), 4);
            size_t k = n == 0 ? 0 : n == 1 ? 3 : n == 2 ? model.size() / 2 : model.size();
            for (size_t i = 0; i < k; i++) take("between insertions");
            if (k) look("after taking elements out");
        }
        put(-2, 0, S(C_OP, 2));
        while (take("at the end")) { }
        if (take("when empty")) violate("an empty heap gave an element");
        for (auto &e : all) if (e->in != e->out) violate("an inserted element never came out");
        apr_pool_destroy(pool);
    });
    wait_proc(p);
    if (grew) probe("grown-by-threads", grew);
    if (nthr > 1 && taken > 10) nontrivial();
    g_sample = fmt("threads=%d phases=%d elements=%zu before=%d refused=%d", nthr, phases, all.size(), fill, refused);
}
} // namespace tp
void world_pool(const std::string &prop)
{
    if (prop == "T04") { tp::heap(); return; }
    if (prop == "T03") { tp::parallel(); return; } if (prop == "T01") tp::exactly_once(); else tp::lifecycle();
}
