// Worlds over the file hash cache: exclusivity, mark and sweep, atomic durable updates.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <memory>
extern "C" {
#include "napr_cache.h"
}
#include <apr_pools.h>

using namespace sim;
namespace sim { void set_hook_p(double); }
namespace ca {
static const char *PATH = "/sim/db/cache";
struct Ent { int64_t m, c, s; uint64_t lo, hi; bool operator==(const Ent &o) const { return m == o.m && c == o.c && s == o.s && lo == o.lo && hi == o.hi; } bool operator!=(const Ent &o) const { return !(*this == o); } };
typedef std::map<std::string, Ent> State;
static std::vector<std::string> paths;
static uint64_t ctr;
static State st;                       // committed
static std::vector<State> doubt;       // other states a crash or failure may have left
static std::set<std::string> marks;
static napr_cache_t *C;
static apr_pool_t *pool;
static int n_commits, n_aborts, n_failed, n_sweeps, n_sweep_failed, n_crashes;
static bool faulty, refused_ok;

static void gen_paths(Stream c)
{
    static const int nn[] = { 5, 25, 80, 250 };
    uint32_t many = choose(c, 60);
    int n = many == 59 ? 400 + (int) choose(c, 1200) : nn[many % 4]; uint32_t style = choose(c, 4);
    for (int i = 0; i < n; i++) {
        std::string p = "/home/u/";
        if (style == 0) p += fmt("f%d", i);
        else if (style == 1) p += fmt("dir%d/sub/", i % 5) + std::string((i * 31) % 180, 'x') + fmt("%d", i);
        else if (style == 2) p += std::string(300 + (i * 7) % 200, 'y') + fmt("%d.jpg", i);
        else { p = "/"; p.append(1 + i, 'a' + i % 3); if (p.size() > 400) p = fmt("/z%d", i); }
        if (std::find(paths.begin(), paths.end(), p) == paths.end()) paths.push_back(p);
    }
}
static Ent gen()
{
    ctr++; uint64_t x = ctr * 0x9e3779b97f4a7c15ULL;
    if (x >> 63) {                       // like others but for a single field
        Ent e{ 1600000000000000LL, 77, 4096, 11, 22 };
        switch ((x >> 40) % 5) { case 0: e.m += ctr; break; case 1: e.c += ctr; break; case 2: e.s += ctr; break; case 3: e.lo += ctr; break; default: e.hi += ctr; }
        return e;
    }
    return Ent{ (int64_t) (1600000000000000LL + ctr), (int64_t) (x >> 20), (int64_t) (ctr % 7 ? ctr * 1000 : 0), x, ~x * 3 };
}
static napr_cache_entry_t to(const Ent &e) { napr_cache_entry_t r; memset(&r, 0, sizeof r); r.mtime = e.m; r.ctime = e.c; r.size = e.s; r.hash.low64 = e.lo; r.hash.high64 = e.hi; return r; }
static Ent from(const napr_cache_entry_t *r) { napr_cache_entry_t t; memcpy(&t, r, sizeof t); return Ent{ t.mtime, t.ctime, t.size, t.hash.low64, t.hash.high64 }; }
static std::string sp(const std::string &p) { return p.size() > 30 ? p.substr(0, 12) + "..." + p.substr(p.size() - 12) : p; }

static bool lookup(const std::string &p, Ent &e)
{
    const napr_cache_entry_t *r = nullptr;
    apr_status_t s = napr_cache_lookup_in_txn(C, p.c_str(), &r);
    if (s == APR_NOTFOUND) { if (r) violate("lookup of %s: not found but an entry is returned", sp(p).c_str()); return false; }
    if (s != APR_SUCCESS || !r) violate("lookup of %s failed with status %d", sp(p).c_str(), s);
    e = from(r);
    return true;
}
static void expect(const State &w, const std::string &p, const char *when)
{
    Ent e{}; bool f = lookup(p, e); auto i = w.find(p);
    if (f != (i != w.end())) violate("%s: entry %s %s", when, sp(p).c_str(), f ? "exists but should not" : "is missing");
    if (f && e != i->second) violate("%s: entry %s has size %lld mtime %lld instead of size %lld mtime %lld%s", when, sp(p).c_str(), (long long) e.s, (long long) e.m, (long long) i->second.s, (long long) i->second.m, e.s == i->second.s && e.m == i->second.m ? " (other fields differ)" : "");
}
static void check_all(const char *when)
{
    apr_status_t s = napr_cache_begin_read(C, pool);
    if (s != APR_SUCCESS) violate("%s: read transaction refused with status %d", when, s);
    for (auto &p : paths) expect(st, p, when);
    s = napr_cache_end_read(C);
    if (s != APR_SUCCESS) violate("%s: ending a read failed with status %d", when, s);
    ev("checked %s: %zu entries", when, st.size());
}
// after a restart: contents must be st or one of doubt
static bool durable;                   // the machine has just restarted: what is read is what is on disk
static void recover(const char *when)
{
    State got;
    apr_status_t s = napr_cache_begin_read(C, pool);
    if (s != APR_SUCCESS) violate("%s: read transaction refused with status %d", when, s);
    for (auto &p : paths) { Ent e; if (lookup(p, e)) got[p] = e; }
    napr_cache_end_read(C);
    if (!(got == st)) {
        bool hit = false;
        for (auto &d : doubt) if (d == got) hit = true;
        if (!hit) {
            std::string why;
            for (auto &e : st) { auto i = got.find(e.first); if (i == got.end()) { why = "missing " + sp(e.first); break; } if (i->second != e.second) { why = "wrong value of " + sp(e.first); break; } }
            if (why.empty()) for (auto &e : got) if (!st.count(e.first)) { why = "unexpected " + sp(e.first); break; }
            violate("%s: the cache holds neither the last committed entries nor those of the update in flight (%zu found, %zu committed, %zu alternatives; %s)", when, got.size(), st.size(), doubt.size(), why.c_str());
        }
        probe("in-flight-present");
        if (!durable) doubt.push_back(st);   // seen in the page cache only: until the next commit a power cut may still undo it
        st = got;
    }
    if (durable) doubt.clear();
}
static bool open_cache(const char *when)
{
    apr_pool_create(&pool, nullptr);
    apr_status_t s = napr_cache_open(&C, PATH, pool);
    if (s != APR_SUCCESS) violate("%s: the cache cannot be opened although nobody holds it: status %d", when, s);
    marks.clear();
    return true;
}
static void close_cache(const char *when) { apr_status_t s = napr_cache_close(C); if (s != APR_SUCCESS) violate("%s: close failed with status %d", when, s); C = nullptr; apr_pool_destroy(pool); }

// outside a transaction every operation of one is refused, without effect
static void no_txn(const char *when, uint32_t slot)
{
    uint32_t m = choose(S(C_OP, slot), 16);
    const napr_cache_entry_t *r = nullptr; Ent e = gen(); napr_cache_entry_t ce = to(e); apr_status_t s;
    if ((m & 1) && napr_cache_lookup_in_txn(C, paths[0].c_str(), &r) != APR_EINVAL) violate("%s: a lookup outside a transaction is not refused", when);
    if ((m & 2) && napr_cache_upsert_in_txn(C, paths[0].c_str(), &ce) != APR_EINVAL) violate("%s: an update outside a transaction is not refused", when);
    if ((m & 4) && (s = napr_cache_abort_write(C)) != APR_EINVAL) violate("%s: an abort without a transaction returns %d", when, s);
    if ((m & 8) && (s = napr_cache_commit_write(C)) != APR_EINVAL) violate("%s: a commit without a transaction returns %d", when, s);
    if (m) probe("used-outside-transaction");
}
// one batch of updates; returns false when the store refuses writers after an earlier failure
static bool batch(uint32_t slot, int max)
{
    Stream o = S(C_OP, slot);
    apr_status_t s = napr_cache_begin_write(C, pool);
    if (s == APR_ENOMEM && fault_p[F_ALLOC] > 0) { probe("out-of-memory"); no_txn("after a refused begin", slot); return true; }
    if (s != APR_SUCCESS && (fault_p[F_WRITE] > 0 || fault_p[F_FSYNC] > 0 || fault_p[F_LSEEK] > 0)) { probe("writer-refused-by-fault"); refused_ok = true; return true; }
    if (s != APR_SUCCESS) { if (refused_ok) { probe("writer-refused-after-failure"); return false; } violate("write transaction refused with status %d", s); }
    State w = st;
    int n = (int) choose(o, max + 1);
    for (int i = 0; i < n; i++) {
        const std::string p = paths[choose(o, paths.size())];
        uint32_t k = choose(o, 4);
        if (k == 3) { expect(w, p, "inside a batch"); continue; }
        Ent e = gen(); napr_cache_entry_t ce = to(e);
        if (choose(o, 24) == 23) {   // a path that cannot be a key is refused, and nothing else changes
            std::string big = p + std::string(4100 + choose(o, 2) * 70000, 'L');
            s = napr_cache_upsert_in_txn(C, big.c_str(), &ce);
            if (s == APR_SUCCESS) { const napr_cache_entry_t *r = nullptr; if (napr_cache_lookup_in_txn(C, big.c_str(), &r) != APR_SUCCESS || !r || from(r) != e) violate("an update of a path of %zu bytes reported success but cannot be looked up", big.size()); }
            else { probe("path-too-long"); expect(w, p, "after a refused update"); }
            if (s == APR_SUCCESS) { w[big] = e; if (std::find(paths.begin(), paths.end(), big) == paths.end()) paths.push_back(big); }
            continue;
        }
        bool again = w.count(p) && !(st.count(p) && st[p] == w[p]);
        if (again) probe("same-path-twice-in-batch");
        s = napr_cache_upsert_in_txn(C, p.c_str(), &ce);
        memset(&ce, 0x5a, sizeof ce);
        if (s != APR_SUCCESS) violate("update of %s failed with status %d%s", sp(p).c_str(), s, again ? " (the path had been updated before in the same batch)" : "");
        w[p] = e;
        if (k == 2) expect(w, p, "right after an update");
    }
    if (choose(o, 5) == 4) { s = napr_cache_abort_write(C); if (s != APR_SUCCESS) violate("abort failed with status %d", s); n_aborts++; ev("abort"); if (choose(o, 4) == 3) no_txn("after an abort", slot); return true; }
    doubt.push_back(w);
    s = napr_cache_commit_write(C);
    ev("commit -> %d", s);
    if (s != APR_SUCCESS) { if (!faulty) violate("commit failed with status %d without a fault", s); n_failed++; if (s != APR_ENOMEM) refused_ok = true; if (choose(o, 2)) no_txn("after a failed commit", slot); return true; }
    st = w; doubt.clear(); n_commits++;
    if (choose(o, 4) == 3) no_txn("after a commit", slot);
    return true;
}
static void mark_some(uint32_t slot, bool threads)
{
    std::vector<std::vector<std::string>> per(threads ? 2 + choose(S(C_OP, slot), 3) : 1);
    uint32_t dens = choose(S(C_OP, slot), 5);
    for (auto &p : paths) { bool m = dens == 0 ? false : dens == 4 ? true : choose(S(C_OP, slot), 4) < dens; if (m) { marks.insert(p); per[choose(S(C_OP, slot), per.size())].push_back(p); if (threads && choose(S(C_OP, slot), 8) == 7) per[choose(S(C_OP, slot), per.size())].push_back(p); } }
    if (choose(S(C_OP, slot), 2)) per[0].push_back("/not/in/the/cache");
    auto run = [](const std::vector<std::string> &v) { for (auto &p : v) { std::string tmp = p; apr_status_t s = napr_cache_mark_visited(C, tmp.c_str()); if (s != APR_SUCCESS) violate("marking failed with status %d", s); tmp.assign(tmp.size(), '#'); } };
    if (per.size() == 1) run(per[0]);
    else { std::vector<Thread *> ts; for (auto &v : per) ts.push_back(spawn_thread([&run, &v]() { run(v); })); for (auto t : ts) join_thread(t); probe("threads-mark"); }
    ev("marked %zu", marks.size());
}
static bool sweep()
{
    State w;
    for (auto &e : st) if (marks.count(e.first)) w.insert(e);
    doubt.push_back(w);
    apr_status_t s = napr_cache_sweep(C);
    ev("sweep -> %d, %zu of %zu stay", s, w.size(), st.size());
    if (s != APR_SUCCESS) { if (!faulty && !refused_ok) violate("sweep failed with status %d without a fault", s); n_sweep_failed++; if (s == APR_ENOMEM && fault_p[F_ALLOC] > 0) probe("out-of-memory"); else refused_ok = true; return false; }
    if (w.size() < st.size()) probe("sweep-removed"); if (w.size()) probe("sweep-kept");
    st = w; doubt.clear(); marks.clear(); n_sweeps++;
    return true;
}
static void sched_cfg(Stream c)
{
    static const double pm[] = { 0, 40, 400, 5000 };
    cfg.preempt_mean = pm[choose(c, 4)];
    static const double hp[] = { 0, 0.05, 0.3 };
    set_hook_p(hp[choose(c, 3)]);
    rearm();
}
static void set_faults(bool on, double p, uint32_t mask) { static const Site ss[] = { F_WRITE, F_FSYNC, F_LSEEK, F_CLOSE, F_ALLOC }; for (int i = 0; i < 5; i++) fault_p[ss[i]] = on && (mask >> i & 1) ? p : 0; }

static void updates(bool sweeps)
{
    Stream c = S(C_CFG);
    gen_paths(c);
    int gens = 1 + (int) choose(c, 3), steps = 2 + (int) choose(c, 6), maxb = choose(c, 2) ? 8 : 40;
    uint32_t mode = choose(c, 4);          // 0 plain, 1 crashes, 2 faults, 3 both
    bool crash = mode & 1; faulty = mode & 2;
    uint32_t how = choose(c, 4);          // 0: processes are killed; 3: now this, now that; else the power fails
    cfg.crash_machine = how != 0;
    double psys = choose(c, 2) ? 0.01 : 0.06, ptm = choose(c, 3) == 2 ? 5000 : 0, fp = choose(c, 2) ? 0.1 : 0.4;
    uint32_t fmask = 1 + choose(c, 31);
    p_short_io = choose(c, 3) == 2 ? 0.1 : 0;
    sched_cfg(c);
    for (int g = 0; g <= gens; g++) {
        bool last = g == gens;
        Proc *p = spawn_proc("ftwin", [&, g, last]() {
            open_cache(g ? "after a restart" : "first open");
            refused_ok = false;
            if (g) recover("after a restart");
            bool was = faulty;
            if (last || g == 0) { faulty = false; batch(100 + g, paths.size() > 300 ? 3000 : 60); if (last) { batch(200, 20); if (sweeps) { mark_some(300, true); sweep(); check_all("after the last sweep"); mark_some(301, false); sweep(); } check_all("at the end"); close_cache("at the end"); faulty = was; return; } faulty = was; }
            if (how == 3) cfg.crash_machine = choose(S(C_OP, 970 + g), 2);
            if (crash) { cfg.crash_enabled = true; cfg.crash_sys = psys; cfg.crash_pt_mean = ptm; rearm(); }
            for (int t = 0; t < steps; t++) {
                uint32_t slot = 1000 + g * 100 + t;
                bool on = faulty && choose(S(C_OP, slot), 3) != 0;
                uint32_t what = sweeps ? choose(S(C_OP, slot), 3) : 0;
                if (what == 0) { set_faults(on, fp, fmask); bool ok = batch(slot, maxb); set_faults(false, 0, 0); if (!ok) break; }
                else {
                    if (what == 2 || choose(S(C_OP, slot), 3)) mark_some(5000 + slot, choose(S(C_OP, slot), 2));
                    set_faults(on, fp, fmask); bool ok = sweep(); set_faults(false, 0, 0);
                    if (!ok) {
                        check_all("after a failed sweep");
                        // the marks still count: a retry without faults either is refused or removes exactly the unmarked
                        if (sweep()) probe("sweep-retried"); else break;
                    }
                }
                if (choose(S(C_OP, slot), 2)) check_all(n_failed || n_sweep_failed ? "after a failed update" : "in process");
            }
            check_all("before the end");
            if (choose(S(C_OP, 900 + g), 2)) { cfg.crash_enabled = false; rearm(); close_cache("in between"); if (open_fds()) violate("closing the cache left descriptors open: %s", open_fd_names().c_str()); }
        });
        wait_proc(p);
        cfg.crash_enabled = false; set_faults(false, 0, 0); rearm();
        if (p->crashed) { n_crashes++; if (cfg.crash_machine) machine_crash(); }
        durable = p->crashed && cfg.crash_machine;
        if (last) break;
    }
    if (sweeps ? n_sweeps > 2 || n_sweep_failed : n_commits > 2) nontrivial();
    g_sample = fmt("paths=%zu commits=%d aborts=%d failed=%d sweeps=%d failed sweeps=%d crashes=%d machine=%d faults=%d", paths.size(), n_commits, n_aborts, n_failed, n_sweeps, n_sweep_failed, n_crashes, (int) cfg.crash_machine, (int) faulty);
}

// several processes compete for the cache; the model knows who holds it
static void exclusive()
{
    Stream c = S(C_CFG);
    int np = 2 + (int) choose(c, 3), rounds = 1 + (int) choose(c, 4);
    bool crash = choose(c, 2), faults = choose(c, 3) == 2;
    cfg.crash_machine = false;
    sched_cfg(c);
    if (cfg.preempt_mean == 0) { cfg.preempt_mean = 400; rearm(); }
    Proc *holder = nullptr; uint64_t epoch = 0;          // who holds it; bumped on every grant and release
    std::set<Proc *> in_open, in_close, in_fault;
    auto live = [](Proc *p) { return p->alive && !p->crashed && !p->exited; };
    int opens = 0, refused = 0, crashes = 0, failed = 0;
    uint64_t committed = 0, maybe = 0;
    std::vector<Proc *> ps;
    auto contender = [&](int id) {
        for (int r = 0; r < rounds; r++) {
            Stream o = S(C_OP, 100 * id + r);
            Proc *me = cur_proc();
            apr_pool_t *pl; apr_pool_create(&pl, nullptr);
            napr_cache_t *h = nullptr;
            uint64_t e0; bool held0; { NoYield ny; held0 = false; for (auto q : in_open) if (live(q)) held0 = true; for (auto q : in_close) if (live(q)) held0 = true; if (holder && live(holder)) held0 = true; if (!in_fault.empty()) held0 = true; in_open.insert(me); e0 = ++epoch; }
            bool f = faults && choose(o, 2);
            if (f) { NoYield ny; in_fault.insert(me); epoch++; e0 = 0; }
            if (f) for (Site s : { F_OPEN, F_FTRUNC, F_MMAP, F_FSYNC, F_MUTEXINIT, F_FLOCK, F_WRITE, F_READ, F_LSEEK, F_STAT }) fault_p[s] = 0.08;
            apr_status_t s = napr_cache_open(&h, PATH, pl);
            { NoYield ny; in_open.erase(me); }
            if (f) { NoYield ny; for (auto &q : fault_p) q = 0; in_fault.erase(me); epoch++; }
            ev("process %d open -> %d", id, s);
            if (s != APR_SUCCESS) {
                NoYield ny;
                // a refusal needs a reason: somebody held it, or was opening or closing it, at some time during the attempt
                if (!held0 && epoch == e0) violate("process %d could not open the cache (status %d) although nobody else held or was opening it", id, s);
                refused++; if (f) failed++;
            } else {
                if (holder && holder->alive && !holder->crashed && !holder->exited) violate("processes %s and %s hold the cache open at the same time", holder->name.c_str(), me->name.c_str());
                { NoYield ny; holder = me; epoch++; opens++; }
                // use it: read the counter of the previous holder, add one
                apr_status_t t = napr_cache_begin_write(h, pl);
                if (t != APR_SUCCESS && !faults) violate("the new holder cannot write: status %d", t);
                if (t == APR_SUCCESS) {
                const napr_cache_entry_t *en = nullptr; uint64_t got = 0;
                t = napr_cache_lookup_in_txn(h, "/counter", &en);
                if (t == APR_SUCCESS) got = en->size;
                if (got != committed && got != maybe) violate("the new holder finds counter %llu, committed was %llu", (unsigned long long) got, (unsigned long long) committed);
                napr_cache_entry_t ne; memset(&ne, 0, sizeof ne); ne.size = got + 1;
                t = napr_cache_upsert_in_txn(h, "/counter", &ne);
                if (t != APR_SUCCESS) violate("update failed with status %d", t);
                for (uint32_t y = choose(o, 3); y > 0; y--) yield("holder works");
                { NoYield ny; committed = got; maybe = got + 1; }
                t = napr_cache_commit_write(h);
                if (t != APR_SUCCESS && !faults) violate("commit failed with status %d", t);
                { NoYield ny; if (t == APR_SUCCESS) committed = maybe; else if (committed != maybe) probe("commit-failed"); }
                } else probe("holder-refused-by-fault");
                for (uint32_t y = choose(o, 4); y > 0; y--) yield("holder");
                if (holder != me) violate("another process took the cache while %s held it", me->name.c_str());
                { NoYield ny; in_close.insert(me); holder = nullptr; epoch++; }
                t = napr_cache_close(h);
                { NoYield ny; in_close.erase(me); epoch++; }
                if (t != APR_SUCCESS && !faults) violate("close failed with status %d", t);
            }
            apr_pool_destroy(pl);
            for (uint32_t y = choose(o, 3); y > 0; y--) yield("between");
        }
    };
    // while a holder waits for the result, an attempt must return at once (a blocked attempt is a deadlock)
    Event got; bool second_done = false;
    if (choose(c, 2)) {
        Event up;
        Proc *a = spawn_proc("holder", [&]() { apr_pool_t *pl; apr_pool_create(&pl, nullptr); napr_cache_t *h = nullptr; if (napr_cache_open(&h, PATH, pl) != APR_SUCCESS) violate("the cache cannot be opened although nobody holds it"); ev_set(up); ev_wait(got); if (napr_cache_close(h) != APR_SUCCESS) violate("close failed"); });
        Proc *b = spawn_proc("second", [&]() { ev_wait(up); int64_t t0 = g_now; apr_pool_t *pl; apr_pool_create(&pl, nullptr); napr_cache_t *h = nullptr; if (napr_cache_open(&h, PATH, pl) == APR_SUCCESS) violate("a second process opened the cache while the first held it"); if (g_now - t0 > 1000000000LL) violate("a refused open waited %lld ms", (long long) ((g_now - t0) / 1000000)); if (open_fds() && choose(S(C_CFG, 5), 1)) {} second_done = true; ev_set(got); });
        wait_proc(b); wait_proc(a);
        probe("open-while-held");
    }
    (void) second_done;
    if (crash) { cfg.crash_enabled = true; cfg.crash_sys = 0.01; cfg.crash_pt_mean = choose(c, 2) ? 3000 : 0; rearm(); }
    for (int i = 0; i < np; i++) ps.push_back(spawn_proc(fmt("p%d", i).c_str(), [&, i]() { contender(i); }));
    for (auto p : ps) {
        wait_proc(p);
        if (p->crashed) { crashes++; NoYield ny; in_open.erase(p); in_close.erase(p); in_fault.erase(p); if (in_fault.empty()) for (auto &q : fault_p) q = 0; if (holder == p) { holder = nullptr; probe("holder-crashed"); } epoch++; }
    }
    cfg.crash_enabled = false; rearm(); for (auto &q : fault_p) q = 0;
    Proc *p = spawn_proc("last", [&]() {
        for (int i = 0; i < 2; i++) {
            apr_pool_t *pl; apr_pool_create(&pl, nullptr); napr_cache_t *h = nullptr;
            apr_status_t s = napr_cache_open(&h, PATH, pl);
            if (s != APR_SUCCESS) violate("after %s ended, the cache cannot be opened: status %d", crashes ? "all processes crashed or" : "all processes", s);
            s = napr_cache_close(h);
            if (s != APR_SUCCESS) violate("close failed with status %d", s);
            apr_pool_destroy(pl);
        }
    });
    wait_proc(p);
    if (open_fds()) violate("descriptors are left open: %s", open_fd_names().c_str());
    if (opens > 1) nontrivial();
    if (refused) probe("refused-open", refused);
    if (failed) probe("open-failed-by-fault", failed);
    g_sample = fmt("processes=%d rounds=%d opens=%d refused=%d crashes=%d faults=%d counter=%llu", np, rounds, opens, refused, crashes, (int) faults, (unsigned long long) committed);
}
} // namespace ca
void world_cache(const std::string &prop) { if (prop == "K01") ca::exclusive(); else ca::updates(prop == "K02"); }
