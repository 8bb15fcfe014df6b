// Worlds over the key-value store (napr_db): crash, fault and schedule exploration against a map model.
#include "sim.h"
#include "result.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <memory>
extern "C" {
#include "napr_db.h"
}
#include <apr_pools.h>

using namespace sim;
namespace sim { void set_hook_p(double); }

namespace db {
typedef std::map<std::string, std::string> State;
typedef std::shared_ptr<State> SP;
static const char *PATH = "/sim/db/store";

static std::string show(const std::string &s) { std::string o; for (size_t i = 0; i < s.size() && i < 24; i++) { unsigned char c = s[i]; if (c > 32 && c < 127) o += c; else { char b[5]; snprintf(b, 5, "\\%02x", c); o += b; } } if (s.size() > 24) o += fmt("..(%zu)", s.size()); return o; }

// ------------------------------------------------------------------ run parameters and model
struct Hist { SP st; int status; };                 // 0 pending, 1 committed, 2 failed
struct World {
    std::string prop;
    bool faulty = false, crashy = false, alloc = false;   // alloc: memory may run out
    unsigned flags = 0;
    size_t mapsize = 8 << 20;
    std::vector<Hist> h;                             // commit order; h[0] = initial contents
    int writer_active = 0;
    std::vector<std::string> keys;
    std::vector<int> vsizes;
    uint64_t vctr = 0;
    napr_db_env_t *env = nullptr;
    apr_pool_t *pool = nullptr;
    bool map_full_ok = false;                        // ENOSPC from puts is legitimate
    bool refused_ok = false;                         // after an unknown outcome the store may refuse writers
    std::vector<SP> alts;                            // other states a power cut may bring back until the next commit
    bool durable = true;                             // the machine has just restarted: what is read is on disk
    int overlaps = 0;                                // readers that were open across a commit
    int commits = 0, aborts = 0, failed = 0;
    int last_committed() const { for (int i = (int) h.size() - 1; i >= 0; i--) if (h[i].status == 1) return i; return 0; }
    SP latest() const { return h[last_committed()].st; }
};
static World *W;

static napr_db_val_t V(const std::string &s) { napr_db_val_t v; v.size = s.size(); v.data = (void *) s.data(); return v; }
static std::string str(const napr_db_val_t &v) { return std::string((const char *) v.data, v.size); }

static void gen_keys(int n, int style)
{
    W->keys.clear();
    for (int i = 0; i < n; i++) {
        std::string k;
        switch (style) {
        case 0: k = fmt("k%04d", i); break;
        case 1: k = fmt("%d", i * 7919 % 1000); break;                                    // different lengths, prefixes of each other
        case 2: { k = fmt("key%03d", i); k.append((i * 37) % 200, (char) ('a' + i % 26)); break; }
        case 3: { k.assign(1 + i % 5, (char) (255 - i)); k += (char) i; break; }          // high bytes
        case 5: { k = fmt("%03d", i * 37 % 1000); k.append(880 + (i * 53) % 420, (char) ('a' + i % 26)); break; }   // three or four to a page: deep trees
        case 6: { k = fmt("%03d", i * 37 % 1000); if (i % 3) k.append(i % 3 == 1 ? 1990 + i % 30 : (i * 71) % 1500, '-'); break; }   // from tiny to nearly the largest key
        case 4: { k = std::string(100 + (i * 53) % 380, 'p'); k += fmt("%03d", i); break; }   // long keys, long common prefix
        }
        if (std::find(W->keys.begin(), W->keys.end(), k) == W->keys.end()) W->keys.push_back(k);
    }
}
static std::string gen_val(Stream s)
{
    int sz = W->vsizes[choose(s, W->vsizes.size())];
    std::string v = fmt("v%llu.", (unsigned long long) ++W->vctr);
    if (sz == 0) return "";
    while ((int) v.size() < sz) v += (char) ('A' + (W->vctr + v.size()) % 50);
    return v;
}

// ------------------------------------------------------------------ single operations checked against a working state
struct Txn { napr_db_txn_t *t; SP base; State w; bool dead = false; };

// memory may have run out: operations that need some may be refused
static bool no_mem(apr_status_t s) { if (s != APR_ENOMEM || fault_p[F_ALLOC] <= 0) return false; probe("out-of-memory"); return true; }
static bool io_err(apr_status_t s) { return s != APR_SUCCESS && s != APR_NOTFOUND && s != APR_EEXIST && s != APR_EINVAL; }

static void op_get(Txn &x, const std::string &k)
{
    napr_db_val_t key = V(k), d{};
    apr_status_t s = napr_db_get(x.t, &key, &d);
    auto i = x.w.find(k);
    if (i == x.w.end()) { if (s != APR_NOTFOUND) violate("get %s: expected not-found, got status %d", show(k).c_str(), s); return; }
    if (s != APR_SUCCESS) violate("get %s: expected a value, got status %d", show(k).c_str(), s);
    std::string got = str(d);
    if (got != i->second) violate("get %s: expected %s, got %s", show(k).c_str(), show(i->second).c_str(), show(got).c_str());
}
// returns false when the operation was refused and the transaction should be given up
static bool op_put(Txn &x, const std::string &k, const std::string &v)
{
    std::string kc = k, vc = v;
    napr_db_val_t key = V(kc), d = V(vc);
    ev("put %s %zu", show(k).c_str(), v.size());
    apr_status_t s = napr_db_put(x.t, &key, &d);
    bool in_w = x.w.count(k), in_base = x.base->count(k);
    memset(&kc[0], 'X', kc.size()); memset(&vc[0], 'Y', vc.size());      // the store must have copied the caller's buffers
    if (s == APR_SUCCESS) { x.w[k] = v; return true; }
    if (s == APR_EEXIST && in_w && !in_base) { probe("eexist-same-txn"); return true; }
    bool oversized = k.size() > 2020 || k.size() + v.size() > 4060 || k.empty();
    if (oversized) { probe("refused-oversized"); return true; }
    if (W->faulty && io_err(s)) { probe("put-failed"); return false; }
    if (W->map_full_ok && s != APR_EEXIST) { probe("put-refused-full"); return true; }
    violate("put %s (%zu bytes) failed with status %d", show(k).c_str(), v.size(), s);
}
static bool op_del(Txn &x, const std::string &k)
{
    std::string kc = k;
    napr_db_val_t key = V(kc);
    ev("del %s", show(k).c_str());
    apr_status_t s = napr_db_del(x.t, &key, nullptr);
    bool in_w = x.w.count(k);
    if (s == APR_SUCCESS) { if (!in_w) violate("del %s succeeded but the key does not exist", show(k).c_str()); x.w.erase(k); return true; }
    if (s == APR_NOTFOUND) { if (in_w) violate("del %s: not-found although the key exists", show(k).c_str()); return true; }
    if (W->faulty && io_err(s)) { probe("del-failed"); return false; }
    if (W->map_full_ok) return true;
    violate("del %s failed with status %d", show(k).c_str(), s);
}
static void step_check(const State &w, State::const_iterator i, apr_status_t s, const napr_db_val_t &k, const napr_db_val_t &d, const char *what)
{
    if (i == w.end()) { if (s != APR_NOTFOUND) violate("cursor %s: expected end, got status %d key %s", what, s, s == APR_SUCCESS ? show(str(k)).c_str() : "-"); return; }
    if (s != APR_SUCCESS) violate("cursor %s: expected key %s, got status %d", what, show(i->first).c_str(), s);
    if (str(k) != i->first) violate("cursor %s: expected key %s, got %s", what, show(i->first).c_str(), show(str(k)).c_str());
    if (str(d) != i->second) violate("cursor %s: key %s: expected %s, got %s", what, show(i->first).c_str(), show(i->second).c_str(), show(str(d)).c_str());
}
static void full_scan(napr_db_txn_t *t, const State &w, bool backward)
{
    napr_db_cursor_t *c = nullptr; napr_db_val_t k{}, d{};
    apr_status_t s = napr_db_cursor_open(t, &c);
    if (no_mem(s)) return;
    if (s != APR_SUCCESS) violate("cursor_open failed with status %d", s);
    if (!backward) {
        auto i = w.begin();
        for (size_t n = 0; n <= w.size(); n++) { s = napr_db_cursor_get(c, &k, &d, n ? NAPR_DB_NEXT : NAPR_DB_FIRST); step_check(w, i, s, k, d, n ? "next" : "first"); if (i == w.end()) break; ++i; }
    } else {
        auto i = w.rbegin();
        for (size_t n = 0; n <= w.size(); n++) { s = napr_db_cursor_get(c, &k, &d, n ? NAPR_DB_PREV : NAPR_DB_LAST); step_check(w, i == w.rend() ? w.end() : std::prev(i.base()), s, k, d, n ? "prev" : "last"); if (i == w.rend()) break; ++i; }
    }
    napr_db_cursor_close(c);
}
static void cursor_walk(napr_db_txn_t *t, const State &w, Stream st, int steps)
{
    napr_db_cursor_t *c = nullptr; napr_db_val_t k{}, d{};
    if (apr_status_t o = napr_db_cursor_open(t, &c)) { if (no_mem(o)) return; violate("cursor_open failed with status %d", o); }
    State::const_iterator pos = w.end();
    int lost = 0;
    for (int n = 0; n < steps; n++) {
        uint32_t op = choose(st, 7);
        apr_status_t s;
        if (op >= 4 && pos == w.end()) {
            // not positioned yet or run off an end: there is nothing to step to; after a failed exact search the place is unspecified
            if (lost) op = choose(st, 4);
            else {
                s = napr_db_cursor_get(c, &k, &d, op == 4 ? NAPR_DB_NEXT : op == 5 ? NAPR_DB_PREV : NAPR_DB_GET_CURRENT);
                step_check(w, pos, s, k, d, op == 4 ? "next without a position" : op == 5 ? "prev without a position" : "current without a position");
                probe("step-off-the-end");
                continue;
            }
        }
        lost = 0;
        switch (op) {
        case 0: s = napr_db_cursor_get(c, &k, &d, NAPR_DB_FIRST); pos = w.begin(); step_check(w, pos, s, k, d, "first"); break;
        case 1: s = napr_db_cursor_get(c, &k, &d, NAPR_DB_LAST); pos = w.empty() ? w.end() : std::prev(w.end()); step_check(w, pos, s, k, d, "last"); break;
        case 2: { std::string q = W->keys[choose(st, W->keys.size())]; uint32_t mut = choose(st, 4); if (mut == 1) q += '\0'; else if (mut == 2 && q.size() > 1) q.pop_back(); else if (mut == 3) q += "zz"; k = V(q); s = napr_db_cursor_get(c, &k, &d, NAPR_DB_SET_RANGE); pos = w.lower_bound(q); step_check(w, pos, s, k, d, "set-range"); break; }
        case 3: { std::string q = W->keys[choose(st, W->keys.size())]; k = V(q); s = napr_db_cursor_get(c, &k, &d, NAPR_DB_SET); pos = w.find(q); if (pos == w.end()) { lost = 1; if (s != APR_NOTFOUND) violate("cursor set %s: expected not-found, got %d", show(q).c_str(), s); } else { if (s != APR_SUCCESS) violate("cursor set %s: status %d", show(q).c_str(), s); if (str(d) != pos->second) violate("cursor set %s: expected %s, got %s", show(q).c_str(), show(pos->second).c_str(), show(str(d)).c_str()); } break; }
        case 4: s = napr_db_cursor_get(c, &k, &d, NAPR_DB_NEXT); ++pos; step_check(w, pos, s, k, d, "next"); break;
        case 5: s = napr_db_cursor_get(c, &k, &d, NAPR_DB_PREV); if (pos == w.begin()) pos = w.end(); else --pos; step_check(w, pos, s, k, d, "prev"); break;
        default: s = napr_db_cursor_get(c, &k, &d, NAPR_DB_GET_CURRENT); step_check(w, pos, s, k, d, "current"); break;
        }
    }
    napr_db_cursor_close(c);
}

// ------------------------------------------------------------------ environment
static napr_db_env_t *open_env(apr_pool_t *pool, unsigned flags, size_t mapsize, apr_status_t *st)
{
    napr_db_env_t *e = nullptr;
    *st = napr_db_env_create(&e, pool);
    if (*st == APR_SUCCESS) *st = napr_db_env_set_mapsize(e, mapsize);
    if (*st == APR_SUCCESS) *st = napr_db_env_open(e, PATH, flags);
    return e;
}
static apr_pool_t *new_pool() { apr_pool_t *p = nullptr; apr_pool_create(&p, nullptr); return p; }

// ------------------------------------------------------------------ writer
static bool w_begin(Txn &x)
{
    ev("begin write");
    apr_status_t s = napr_db_txn_begin(W->env, 0, &x.t);
    if (s != APR_SUCCESS) {
        if (no_mem(s)) return false;
        if (W->faulty && (dying >= 0 || fault_p[F_WRITE] > 0 || fault_p[F_FSYNC] > 0 || fault_p[F_LSEEK] > 0)) { probe("writer-refused-by-fault"); W->refused_ok = true; return false; }
        if (W->faulty && W->refused_ok) { probe("writer-refused"); return false; }
        violate("write transaction could not begin: status %d", s);
    }
    NoYield ny;
    // a commit still on its way out has already released the lock: it is committed
    for (auto &e : W->h) if (e.status == 0) e.status = 1;
    if (W->writer_active) violate("two write transactions are open at the same time");
    W->writer_active = 1;
    x.base = W->latest(); x.w = *x.base;
    return true;
}
static bool w_commit(Txn &x)
{
    int idx;
    { NoYield ny; W->writer_active = 0; idx = W->h.size(); W->h.push_back(Hist{ std::make_shared<State>(x.w), 0 }); }
    ev("commit start %d", idx);
    uint64_t p0 = page01_writes();
    apr_status_t s = napr_db_txn_commit(x.t);
    NoYield ny;
    ev("commit %d -> %d", idx, s);
    if (s == APR_SUCCESS) { W->h[idx].status = 1; W->commits++; W->alts.clear(); return true; }
    if (W->h[idx].status == 1 && !W->faulty) violate("a commit failed with status %d after its effects were visible to another writer", s);
    if (!W->faulty && !W->map_full_ok) violate("commit failed with status %d without any fault", s);
    W->h[idx].status = page01_writes() != p0 ? 3 : 2;          // 3: outcome on disk unknown
    W->refused_ok = true;                                        // allowed by the property: work, or be refused with an error
    probe(W->h[idx].status == 3 ? "commit-in-doubt" : "commit-failed-clean");
    W->failed++;
    return false;
}
static void w_abort(Txn &x)
{
    { NoYield ny; W->writer_active = 0; }
    apr_status_t s = napr_db_txn_abort(x.t);
    ev("abort -> %d", s);
    if (s != APR_SUCCESS && !W->faulty) violate("abort failed with status %d", s);
    W->aborts++;
}
struct Mix { int put = 5, upd = 3, del = 2, get = 3, scan = 1, max_ops = 12; double p_abort = 0.15; };
// one write transaction; slot identifies the decision stream
static bool write_txn(uint32_t slot, const Mix &m)
{
    Stream st = S(C_OP, slot);
    uint32_t nops = choose(st, m.max_ops + 1);
    if (!nops) return true;
    Txn x;
    if (!w_begin(x)) return false;
    bool alive = true;
    for (uint32_t i = 0; i < nops && alive; i++) {
        Stream os = S(C_OP, slot * 64 + 100000 + i);
        uint32_t tot = m.put + m.upd + m.del + m.get + m.scan;
        uint32_t r = choose(os, tot + 1);
        if (!r) continue;
        r--;
        if (r < (uint32_t) m.put) alive = op_put(x, W->keys[choose(os, W->keys.size())], gen_val(os));
        else if ((r -= m.put) < (uint32_t) m.upd) {
            if (x.w.empty()) continue;
            auto it = x.w.begin(); std::advance(it, choose(os, x.w.size())); std::string k = it->first; alive = op_put(x, k, gen_val(os));
        } else if ((r -= m.upd) < (uint32_t) m.del) {
            std::string k; if (!x.w.empty() && choose(os, 4)) { auto it = x.w.begin(); std::advance(it, choose(os, x.w.size())); k = it->first; } else k = W->keys[choose(os, W->keys.size())];
            alive = op_del(x, k);
        } else if ((r -= m.del) < (uint32_t) m.get) op_get(x, W->keys[choose(os, W->keys.size())]);
        else { uint32_t how = choose(os, 3); if (how == 0) full_scan(x.t, x.w, false); else if (how == 1) full_scan(x.t, x.w, true); else cursor_walk(x.t, x.w, os, 8); }
    }
    if (!alive) { w_abort(x); return true; }
    if (flip(st, m.p_abort)) { w_abort(x); return true; }
    return w_commit(x) || W->faulty;
}
// what a fresh reader in this process must see
static void check_now(const char *when)
{
    napr_db_txn_t *t = nullptr;
    apr_status_t s = napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &t);
    if (s != APR_SUCCESS) violate("%s: read transaction could not begin: status %d", when, s);
    Txn x{ t, W->latest(), *W->latest() };
    ev("check %s: %zu keys", when, x.w.size());
    full_scan(t, x.w, false);
    full_scan(t, x.w, true);
    for (auto &k : W->keys) op_get(x, k);
    napr_db_txn_abort(t);
}

// ------------------------------------------------------------------ reader with candidate snapshots
struct Reader {
    napr_db_txn_t *t = nullptr;
    std::vector<int> cand;
    struct Saved { const char *p; std::string v; std::string k; };
    std::vector<Saved> saved;
    int id = 0, at = 0;
    bool begin(int i)
    {
        id = i;
        int lo; { NoYield ny; lo = W->last_committed(); }
        apr_status_t s = napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &t);
        if (s == APR_ENOMEM && W->alloc) { probe("out-of-memory"); return false; }
        if (s != APR_SUCCESS) violate("read transaction could not begin: status %d", s);
        NoYield ny;
        at = W->commits;
        for (int j = lo; j < (int) W->h.size(); j++) if (W->h[j].status < 2) cand.push_back(j);
        ev("reader %d begins, %zu candidate snapshots", id, cand.size());
        return true;
    }
    template <class F> void filter(const char *what, F ok)
    {
        NoYield ny;
        std::vector<int> c;
        for (int j : cand) if (W->h[j].status < 2 && ok(*W->h[j].st)) c.push_back(j);
        if (c.empty()) violate("reader %d: %s matches no committed snapshot (had %zu candidates, first %d, %zu versions exist)", id, what, cand.size(), cand.empty() ? -1 : cand[0], W->h.size());
        cand = c;
    }
    void keep(const napr_db_val_t &k, const napr_db_val_t &d) { if (saved.size() < 40) { saved.push_back(Saved{ (const char *) d.data, str(d), "value" }); saved.push_back(Saved{ (const char *) k.data, str(k), "key" }); } }
    void get(const std::string &k)
    {
        napr_db_val_t key = V(k), d{};
        apr_status_t s = napr_db_get(t, &key, &d);
        if (s == APR_NOTFOUND) { filter(fmt("get %s = not found", show(k).c_str()).c_str(), [&](const State &w) { return !w.count(k); }); return; }
        if (s != APR_SUCCESS) violate("reader %d: get %s failed with status %d", id, show(k).c_str(), s);
        std::string v = str(d);
        filter(fmt("get %s = %s", show(k).c_str(), show(v).c_str()).c_str(), [&](const State &w) { auto i = w.find(k); return i != w.end() && i->second == v; });
        if (saved.size() < 40) saved.push_back(Saved{ (const char *) d.data, v, "value" });
    }
    void scan(bool fwd, int limit)
    {
        napr_db_cursor_t *c = nullptr; napr_db_val_t k{}, d{};
        if (apr_status_t o = napr_db_cursor_open(t, &c)) { if (o == APR_ENOMEM && W->alloc) { probe("out-of-memory"); return; } violate("cursor_open failed with status %d", o); }
        std::string prev; bool have = false;
        for (int n = 0; n < limit; n++) {
            apr_status_t s = napr_db_cursor_get(c, &k, &d, n ? (fwd ? NAPR_DB_NEXT : NAPR_DB_PREV) : (fwd ? NAPR_DB_FIRST : NAPR_DB_LAST));
            auto pos = [&](const State &w) { if (!have) return fwd ? w.begin() : (w.empty() ? w.end() : std::prev(w.end())); auto i = w.find(prev); if (i == w.end()) return i; if (fwd) return ++i; return i == w.begin() ? w.end() : --i; };
            if (s == APR_NOTFOUND) { filter("cursor end", [&](const State &w) { return pos(w) == w.end(); }); break; }
            if (s != APR_SUCCESS) violate("reader %d: cursor step failed with status %d", id, s);
            std::string ks = str(k), ds = str(d);
            filter(fmt("cursor %s at %s = %s", fwd ? "next" : "prev", show(ks).c_str(), show(ds).c_str()).c_str(), [&](const State &w) { auto i = pos(w); return i != w.end() && i->first == ks && i->second == ds; });
            keep(k, d);
            prev = ks; have = true;
        }
        napr_db_cursor_close(c);
    }
    void range(const std::string &q, int steps)
    {
        napr_db_cursor_t *c = nullptr; napr_db_val_t k = V(q), d{};
        if (apr_status_t o = napr_db_cursor_open(t, &c)) { if (o == APR_ENOMEM && W->alloc) { probe("out-of-memory"); return; } violate("cursor_open failed with status %d", o); }
        std::string prev; bool have = false;
        for (int n = 0; n < steps; n++) {
            apr_status_t s = napr_db_cursor_get(c, &k, &d, n ? NAPR_DB_NEXT : NAPR_DB_SET_RANGE);
            auto pos = [&](const State &w) { return have ? w.upper_bound(prev) : w.lower_bound(q); };
            if (s == APR_NOTFOUND) { filter("range end", [&](const State &w) { return pos(w) == w.end(); }); break; }
            if (s != APR_SUCCESS) violate("reader %d: cursor range failed with status %d", id, s);
            std::string ks = str(k), ds = str(d);
            filter(fmt("range at %s", show(ks).c_str()).c_str(), [&](const State &w) { auto i = pos(w); return i != w.end() && i->first == ks && i->second == ds; });
            prev = ks; have = true;
        }
        napr_db_cursor_close(c);
    }
    void recheck()
    {
        NoYield ny;
        for (auto &s : saved) if (s.v.size() && memcmp(s.p, s.v.data(), s.v.size()) != 0) violate("reader %d: the bytes behind a returned %s changed from %s to %s while the reader was open", id, s.k.c_str(), show(s.v).c_str(), show(std::string(s.p, s.v.size())).c_str());
    }
    void end(bool commit)
    {
        recheck();
        if (W->commits != at) W->overlaps++;
        apr_status_t s = commit ? napr_db_txn_commit(t) : napr_db_txn_abort(t);
        if (s != APR_SUCCESS) violate("ending a read transaction failed with status %d", s);
        t = nullptr;
        ev("reader %d ends", id);
    }
};
static void reader_life(uint32_t slot, int id, int steps)
{
    Stream st = S(C_OP, slot);
    uint32_t n = choose(st, steps + 1);
    if (!n) return;
    Reader r;
    if (!r.begin(id)) return;
    for (uint32_t i = 0; i < n; i++) {
        switch (choose(st, 6)) {
        case 0: sim::yield("reader"); break;
        case 1: case 2: r.get(W->keys[choose(st, W->keys.size())]); break;
        case 3: r.scan(true, choose(st, 2) ? 100000 : 5); break;
        case 4: r.scan(false, choose(st, 2) ? 100000 : 5); break;
        case 5: r.range(W->keys[choose(st, W->keys.size())], 4); break;
        }
        r.recheck();
    }
    if (choose(st, 2)) r.scan(true, 100000);
    for (auto &k : W->keys) r.get(k);
    r.end(choose(st, 2));
    probe("reader-lives");
}

// ------------------------------------------------------------------ raw file inspection
struct Raw {
    std::string f; uint64_t txnid = 0, root = 0, last = 0, fdb = 0; bool ok = false;
    std::map<uint64_t, const char *> owner;
    std::string err; size_t tree = 0, freedb = 0, freep = 0; int depth = 0;
    template <class T> T rd(size_t o) const { T v{}; if (o + sizeof(T) <= f.size()) memcpy(&v, f.data() + o, sizeof(T)); return v; }
    void own(uint64_t p, const char *who) { if (!err.empty()) return; if (p < 2 || p > last) { err = fmt("page %llu (%s) out of range 2..%llu", (unsigned long long) p, who, (unsigned long long) last); return; } auto r = owner.emplace(p, who); if (!r.second) err = fmt("page %llu is %s and also %s", (unsigned long long) p, r.first->second, who); }
    void walk(uint64_t p, bool is_free, int d)
    {
        if (!err.empty()) return;
        if (d > 40) { err = "tree too deep"; return; }
        depth = std::max(depth, d);
        own(p, is_free ? "a free-space record page" : "a key tree page");
        if (!err.empty()) return;
        (is_free ? freedb : tree)++;
        size_t b = p * 4096;
        if (b + 4096 > f.size()) { err = fmt("page %llu lies beyond the end of the file", (unsigned long long) p); return; }
        uint16_t fl = rd<uint16_t>(b + 8), n = rd<uint16_t>(b + 10);
        if (rd<uint64_t>(b) != p) { err = fmt("page %llu carries number %llu", (unsigned long long) p, (unsigned long long) rd<uint64_t>(b)); return; }
        if (n > 2000) { err = "bad key count"; return; }
        for (int i = 0; i < n; i++) {
            uint16_t o = rd<uint16_t>(b + 18 + 2 * i);
            if (o < 18 || o > 4092) { err = fmt("bad node offset in page %llu", (unsigned long long) p); return; }
            if (fl & 1) walk(rd<uint64_t>(b + o), is_free, d + 1);
            else if (is_free) {
                uint16_t ks = rd<uint16_t>(b + o), ds = rd<uint16_t>(b + o + 2);
                if (o + 4 + ks + ds > 4096 || ds % 8) { err = "bad free-space record"; return; }
                for (int j = 0; j < ds / 8; j++) { own(rd<uint64_t>(b + o + 4 + ks + 8 * j), "a free page"); freep++; }
            }
        }
    }
    bool load()
    {
        if (!fs_read_file(PATH, f) || f.size() < 8192) { err = "store file missing or too short"; return false; }
        int best = -1;
        for (int m = 0; m < 2; m++) { size_t b = m * 4096; if (rd<uint32_t>(b) != 0xDECAFBAD || rd<uint32_t>(b + 4) != 1) continue; uint64_t t = rd<uint64_t>(b + 8); if (best < 0 || t > txnid) { best = m; txnid = t; } }
        if (best < 0) { err = "no valid meta page"; return false; }
        size_t b = best * 4096; root = rd<uint64_t>(b + 16); last = rd<uint64_t>(b + 24); fdb = rd<uint64_t>(b + 32);
        if (root) walk(root, false, 0);
        if (fdb) walk(fdb, true, 0);
        if (err.empty()) for (uint64_t p = 2; p <= last; p++) if (!owner.count(p)) { err = fmt("page %llu belongs to nobody (leaked); last page %llu", (unsigned long long) p, (unsigned long long) last); break; }
        return err.empty();
    }
};
static void check_pages(const char *when)
{
    NoYield ny;
    Raw r;
    if (!r.load()) violate("%s: %s", when, r.err.c_str());
    ev("pages %s: txn %llu tree %zu freedb %zu free %zu last %llu depth %d", when, (unsigned long long) r.txnid, r.tree, r.freedb, r.freep, (unsigned long long) r.last, r.depth);
    if (r.freep) probe("free-list-nonempty");
    if (r.depth > 0) probe("multi-level-tree");
    if (r.depth > 1) probe("three-level-tree");
    probe("page-audits");
}

// ------------------------------------------------------------------ configuration helpers
static void cfg_workload(bool small)
{
    Stream c = S(C_CFG);
    W->flags = NAPR_DB_CREATE | (choose(c, 2) ? 0 : NAPR_DB_INTRAPROCESS_LOCK);
    static const int nk[] = { 6, 20, 60, 200 };
    int n = nk[choose(c, small ? 3 : 4)];
    gen_keys(n, choose(c, 7));
    static const std::vector<std::vector<int>> vs = { { 10 }, { 10, 100, 700 }, { 0, 10, 900 }, { 1500, 2000, 10 }, { 300 }, { 3000, 20 } };
    W->vsizes = vs[choose(c, vs.size())];
    W->mapsize = 16 << 20;
}
static void cfg_sched(double lo_mean, double hi_mean)
{
    static const double hp[] = { 0, 0.02, 0.1, 0.4 };
    set_hook_p(hp[choose(S(C_CFG, 1), 4)]);
    uint32_t k = choose(S(C_CFG, 1), 4);
    cfg.preempt_mean = k == 0 ? 0 : k == 1 ? hi_mean : k == 2 ? (lo_mean + hi_mean) / 4 : lo_mean;
    rearm();
}
static void describe(const char *extra) { g_sample = fmt("keys=%zu flags=%u versions=%zu commits=%d aborts=%d failed=%d %s", W->keys.size(), W->flags, W->h.size(), W->commits, W->aborts, W->failed, extra); }
static void open_or_die(const char *when)
{
    apr_status_t s;
    W->pool = new_pool();
    W->env = open_env(W->pool, W->flags, W->mapsize, &s);
    if (s != APR_SUCCESS) violate("%s: the store cannot be opened: status %d", when, s);
}
// close and open again in the same process, also through the handle that was used before
static void reopen_here(Stream o, const char *when)
{
    napr_db_env_close(W->env);
    if (choose(o, 2)) {
        probe("same-handle");
        if (choose(o, 4) == 3) napr_db_env_close(W->env);      // closing twice does nothing
        if (choose(o, 2)) napr_db_env_set_mapsize(W->env, W->mapsize);
        apr_status_t s = napr_db_env_open(W->env, PATH, W->flags);
        if (s != APR_SUCCESS) violate("%s: the store cannot be opened through the same handle: status %d", when, s);
        return;
    }
    apr_pool_destroy(W->pool);
    open_or_die(when);
}
static void preload(int n)
{
    // fill the store without faults so that interesting trees exist from the start
    if (!n) return;
    Txn x;
    w_begin(x);
    for (int i = 0; i < n; i++) op_put(x, W->keys[choose(S(C_OP, 1), W->keys.size())], gen_val(S(C_OP, 1)));
    w_commit(x);
}

// ------------------------------------------------------------------ crash worlds (D01, also D06 with crashes)
// after a restart: the store must hold one of the allowed states; the model continues from the one found
static void recover_check(const std::vector<SP> &allowed, const char *when)
{
    napr_db_txn_t *t = nullptr;
    apr_status_t s = napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &t);
    if (s != APR_SUCCESS) violate("%s: read transaction could not begin: status %d", when, s);
    State got; napr_db_cursor_t *c = nullptr; napr_db_val_t k{}, d{};
    if (napr_db_cursor_open(t, &c) != APR_SUCCESS) violate("cursor_open failed");
    for (size_t n = 0;; n++) {
        s = napr_db_cursor_get(c, &k, &d, n ? NAPR_DB_NEXT : NAPR_DB_FIRST);
        if (s == APR_NOTFOUND) break;
        if (s != APR_SUCCESS) violate("%s: cursor step failed with status %d", when, s);
        if (n > 5000) violate("%s: scan does not end", when);
        got[str(k)] = str(d);
    }
    napr_db_cursor_close(c);
    SP hit;
    for (auto &a : allowed) if (*a == got) hit = a;
    if (!hit) {
        std::string why; auto &a = *allowed[0];
        for (auto &e : a) { auto i = got.find(e.first); if (i == got.end()) { why = fmt("key %s is missing", show(e.first).c_str()); break; } if (i->second != e.second) { why = fmt("key %s is %s instead of %s", show(e.first).c_str(), show(i->second).c_str(), show(e.second).c_str()); break; } }
        if (why.empty()) for (auto &e : got) if (!a.count(e.first)) { why = fmt("unexpected key %s", show(e.first).c_str()); break; }
        violate("%s: contents are none of the %zu allowed states (%zu keys found, last committed state has %zu; %s)", when, allowed.size(), got.size(), a.size(), why.c_str());
    }
    if (allowed.size() > 1) probe(hit == allowed[0] ? "in-flight-absent" : "in-flight-present");
    // seen in the page cache only: until the next commit a power cut may still bring back another of them
    W->alts.clear();
    if (!W->durable) for (auto &a : allowed) if (a != hit) W->alts.push_back(a);
    W->h.clear(); W->h.push_back(Hist{ hit, 1 });
    Txn x{ t, hit, *hit };
    full_scan(t, x.w, true);
    for (auto &q : W->keys) op_get(x, q);
    napr_db_txn_abort(t);
}
static void w_crash(const std::string &prop)
{
    cfg_workload(false);
    Stream c = S(C_CFG, 2);
    bool faults = prop == "D02";
    int gens = 1 + choose(c, 3), txns = 2 + choose(c, 5);
    uint32_t how = choose(c, 5);           // 0: processes are killed; 4: now this, now that; else the power fails
    cfg.crash_machine = how != 0;
    static const double ps[] = { 0.01, 0.03, 0.1, 0 };
    double psys = ps[choose(c, 4)];
    static const double pm[] = { 0, 3000, 20000, 600 };
    double ptm = pm[choose(c, 4)];
    if (psys == 0 && ptm == 0) psys = 0.03;
    if (faults) { psys = choose(c, 2) ? 0.01 : 0; ptm = 0; }
    double fp = 0;
    uint32_t fmask = 0;
    if (faults) { static const double fps[] = { 0.02, 0.06, 0.2, 0.5 }; fp = fps[choose(c, 4)]; fmask = 1 + choose(c, 31); W->alloc = fmask & 16; }
    bool dies = faults && choose(c, 4) == 3;        // the disk stops accepting anything at some point of a commit, and works again after a restart
    if (dies) { how = 4; fp = 0; fmask = 0; W->alloc = false; gens = 3; }
    int nreaders = choose(c, 3) == 2 ? 1 : 0;
    W->faulty = faults;
    p_short_io = choose(c, 3) == 2 ? 0.1 : 0;
    cfg_sched(200, 5000);
    int crashes = 0;
    bool preloaded = false;
    for (int g = 0; g <= gens; g++) {
        bool last_gen = g == gens;
        bool ready = false, checked = g == 0;
        std::vector<SP> allowed;
        allowed.push_back(W->latest());
        { int lc = W->last_committed(); for (int i = lc + 1; i < (int) W->h.size(); i++) if (W->h[i].status == 0 || W->h[i].status == 3) allowed.push_back(W->h[i].st); if (allowed.size() > 1 && W->h.back().status == 0) probe("crash-in-commit"); }
        for (auto &a : W->alts) allowed.push_back(a);
        W->writer_active = 0;
        Proc *p = spawn_proc("store", [&, g, last_gen]() {
            open_or_die(g ? "after a crash" : "first open");
            if (g) recover_check(allowed, "after a crash"); else W->h[0].status = 1;
            checked = true;
            W->refused_ok = false;
            if (prop == "D06") check_pages("after restart");
            if (!preloaded) { bool f = W->faulty; W->faulty = false; preload(choose(S(C_OP, 0), 40)); W->faulty = f; preloaded = true; }
            ready = true;
            if (last_gen) {
                // faults have stopped: a new write transaction must work and be kept
                bool f = W->faulty; W->faulty = false;
                for (int i = 0; i < 2; i++) write_txn(9000 + g * 100 + i, Mix());
                Txn x; w_begin(x); op_put(x, W->keys[0], "final"); w_commit(x);
                check_now("after recovery");
                W->faulty = f;
                napr_db_env_close(W->env);
                return;
            }
            if (how == 4) cfg.crash_machine = choose(S(C_OP, 970 + g), 2);
            cfg.crash_enabled = true; cfg.crash_sys = psys; cfg.crash_pt_mean = ptm; rearm();
            Thread *rt = nullptr; bool stop = false;
            if (nreaders) rt = spawn_thread([&, g]() { for (int i = 0; i < 6 && !stop; i++) reader_life(7000 + g * 100 + i, i, 4); });
            for (int t = 0; t < txns; t++) {
                if (faults) { bool on = choose(S(C_OP, 500 + g * 50 + t), 3) != 0; for (int s = 0; s < 4; s++) { static const Site ss[] = { F_WRITE, F_FSYNC, F_LSEEK, F_CLOSE }; fault_p[ss[s]] = on && (fmask >> s & 1) ? fp : 0; } if (W->alloc) fault_p[F_ALLOC] = on ? fp : 0; }
                if (dies && choose(S(C_OP, 510 + g * 50 + t), 3) == 2) { dying = (int) choose(S(C_OP, 510 + g * 50 + t), 6); dying_sites = choose(S(C_OP, 510 + g * 50 + t), 2) ? 1u << F_FSYNC : 1u << F_FSYNC | 1u << F_WRITE; }
                bool ok = write_txn(1000 + g * 100 + t, Mix());
                if (faults) for (auto &q : fault_p) q = 0;
                dying = -1;
                if (faults || t + 1 == txns) check_now(W->failed ? "after a failed commit" : "in process");
                if (faults && prop == "D06" && !W->failed) check_pages("in process");
                if (!ok && !faults) break;
                if (!nreaders && choose(S(C_OP, 520 + g * 50 + t), 8) == 7) {
                    std::vector<SP> may{ W->latest() };
                    for (int i = W->last_committed() + 1; i < (int) W->h.size(); i++) if (W->h[i].status == 3) may.push_back(W->h[i].st);
                    for (auto &a : W->alts) may.push_back(a);
                    probe("reopen-in-process");
                    bool ce = cfg.crash_enabled; cfg.crash_enabled = false; rearm();
                    reopen_here(S(C_OP, 520 + g * 50 + t), "reopened in the process");
                    W->durable = false;
                    recover_check(may, "reopened in the process");
                    W->refused_ok = false;
                    cfg.crash_enabled = ce; rearm();
                }
            }
            stop = true;
            if (rt) join_thread(rt);
            if (choose(S(C_OP, 900 + g), 2)) { probe("clean-close"); napr_db_env_close(W->env); }
        });
        wait_proc(p);
        cfg.crash_enabled = false; for (auto &q : fault_p) q = 0; dying = -1; rearm();
        if (p->crashed) { crashes++; if (!ready && g) probe("crash-in-recovery"); }
        if (last_gen) break;
        // after an unfinished first preload nothing is known to be committed except what the model says
        if (!p->crashed && !faults && !choose(S(C_OP, 950 + g), 2)) { /* clean stop, then power cut */ }
        (void) checked;
        W->durable = cfg.crash_machine;
        if (cfg.crash_machine) machine_crash(); else if (how == 4) probe("killed-then-power-cut");
    }
    std::string fin;
    if (prop == "D06") check_pages("at the end");
    describe(fmt("generations=%d crashes=%d crash mode=%d faults=%d", gens + 1, crashes, (int) how, (int) faults).c_str());
    if (prop == "D02" ? W->failed > 0 : W->commits > 1 && (crashes > 0 || prop == "D06")) nontrivial();
}

// ------------------------------------------------------------------ concurrency worlds (D03, D04)
static void w_conc(const std::string &prop)
{
    cfg_workload(true);
    Stream c = S(C_CFG, 2);
    int nw = prop == "D04" ? 2 + choose(c, 3) : 1 + choose(c, 2);
    int nr = prop == "D04" ? choose(c, 2) : 1 + choose(c, 4);
    int txns = 1 + choose(c, prop == "D04" ? 4 : 6);
    bool faults = prop == "D03" && choose(c, 4) == 3;
    if (faults) { nw = 1; W->faulty = true; W->refused_ok = true; }
    cfg_sched(40, 2000);
    p_short_io = choose(c, 4) == 3 ? 0.05 : 0;
    bool rmw = prop == "D04" || choose(c, 3) == 2;
    Proc *p = spawn_proc("store", [&]() {
        open_or_die("open");
        { bool f = W->faulty; W->faulty = false; preload(choose(S(C_OP, 0), 60)); W->faulty = f; }
        std::vector<Thread *> ts;
        int lives = 1 + choose(c, 4);
        for (int r = 0; r < nr; r++) ts.push_back(spawn_thread([=]() { for (int i = 0; i < lives; i++) reader_life(3000 + r * 100 + i, r * 100 + i, 6); }));
        for (int w = 0; w < nw; w++) ts.push_back(spawn_thread([=]() {
            for (int t = 0; t < txns; t++) {
                uint32_t slot = 1000 + w * 100 + t;
                if (faults) { bool on = choose(S(C_OP, slot), 2); fault_p[F_WRITE] = fault_p[F_FSYNC] = on ? 0.15 : 0; }
                if (rmw && choose(S(C_OP, slot), 4)) {
                    Txn x; if (!w_begin(x)) continue;
                    int n = 1 + choose(S(C_OP, slot), 3);
                    for (int i = 0; i < n; i++) {
                        std::string k = W->keys[choose(S(C_OP, slot), std::min<size_t>(3, W->keys.size()))];
                        op_get(x, k);
                        auto it = x.w.find(k); long v = it == x.w.end() ? 0 : atol(it->second.c_str());
                        op_put(x, k, fmt("%ld by %d", v + 1, w));
                    }
                    if (flip(S(C_OP, slot), 0.2)) w_abort(x); else w_commit(x);
                } else { Mix m; m.max_ops = 6; m.scan = 1; write_txn(slot, m); }
            }
        }));
        for (auto t : ts) join_thread(t);
        fault_p[F_WRITE] = fault_p[F_FSYNC] = 0;
        for (auto &e : W->h) if (e.status == 0) violate("a commit never finished");
        check_now("at the end");
        bool multi = choose(S(C_CFG, 3), 3) == 2;
        if (multi) {   // one thread holding several readers at different snapshots, ended in any order
            std::vector<Reader *> rs;
            std::vector<napr_db_txn_t *> others;       // short readers that were there first, so that the lasting ones get late places
            if (choose(S(C_CFG, 3), 3) == 2) {
                for (uint32_t n = choose(S(C_CFG, 3), 122); n; n--) { napr_db_txn_t *t = nullptr; if (apr_status_t s = napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &t)) violate("a reader is refused with status %d", s); others.push_back(t); }
                probe("late-reader-places");
            }
            for (int i = 0; i < 3; i++) { Reader *r = new Reader; r->begin(900 + i); r->get(W->keys[0]); r->scan(true, 100); rs.push_back(r); bool f = W->faulty; W->faulty = false; if (!W->refused_ok) { Txn x; w_begin(x); op_put(x, W->keys[0], gen_val(S(C_OP, 7))); w_commit(x); } W->faulty = f; }
            for (auto t : others) if (napr_db_txn_abort(t) != APR_SUCCESS) violate("ending a reader failed");
            while (!rs.empty()) { size_t i = choose(S(C_OP, 8), rs.size()); Reader *r = rs[i]; rs.erase(rs.begin() + i); r->end(choose(S(C_OP, 8), 2)); if (!W->refused_ok) for (int q = 0; q < 3; q++) { Txn x; w_begin(x); op_put(x, W->keys[q % W->keys.size()], gen_val(S(C_OP, 7))); w_commit(x); } for (auto o : rs) { o->recheck(); o->scan(true, 100000); for (auto &k : W->keys) o->get(k); } }
            probe("several-readers-per-thread");
        }
        napr_db_env_close(W->env);
    });
    wait_proc(p);
    if (prop == "D03" ? W->overlaps > 0 : W->commits > 2) nontrivial();
    describe(fmt("writers=%d readers=%d rmw=%d faults=%d", nw, nr, (int) rmw, (int) faults).c_str());
}

// ------------------------------------------------------------------ long histories (D05, D06)
// few transactions that each rewrite much of a large store: hundreds of pages are freed at once and reused later
static void w_bulk(const std::string &prop)
{
    cfg_workload(false);
    Stream c = S(C_CFG, 2);
    static const int nk[] = { 150, 300, 500 };
    int n = nk[choose(c, 3)], txns = 3 + choose(c, 6);
    gen_keys(n, choose(c, 2) ? 0 : 5);
    W->vsizes = choose(c, 2) ? std::vector<int>{ 1400 } : std::vector<int>{ 1300, 1900, 900 };
    W->mapsize = 64 << 20;
    cfg_sched(20000, 2000000);
    Proc *p = spawn_proc("store", [&]() {
        open_or_die("open");
        std::vector<Reader *> held;
        for (int t = 0; t < txns; t++) {
            Stream o = S(C_OP, 1000 + t);
            Txn x; w_begin(x);
            uint32_t how = t ? choose(o, 6) : 0; size_t lo = 0, hi = W->keys.size();
            if (how >= 4) { lo = choose(o, W->keys.size()); hi = std::min(W->keys.size(), lo + 1 + choose(o, 60)); }
            for (size_t i = lo; i < hi; i++) { const std::string &k = W->keys[i]; if (how == 3 && i % 3 && x.w.count(k)) op_del(x, k); else if (how != 2 || i % 2) op_put(x, k, gen_val(o)); }
            if (choose(o, 6) == 5) w_abort(x); else w_commit(x);
            if (prop == "D06") check_pages("after a large transaction");
            if (choose(o, 4) == 3 && held.size() < 2) { Reader *r = new Reader; r->begin(t); r->scan(true, 20); held.push_back(r); }
            else if (choose(o, 3) == 2 && !held.empty()) { Reader *r = held.front(); held.erase(held.begin()); r->scan(false, 100000); r->end(true); delete r; }
            if (held.empty() && choose(o, 4) == 3) reopen_here(o, "reopen");
        }
        for (auto r : held) { r->scan(true, 100000); r->end(false); }
        check_now("at the end");
        napr_db_env_close(W->env);
    });
    wait_proc(p);
    probe("bulk-runs");
    nontrivial();
    describe(fmt("bulk txns=%d", txns).c_str());
}
static void w_hist(const std::string &prop)
{
    cfg_workload(false);
    Stream c = S(C_CFG, 2);
    if (choose(c, prop == "D06" ? 6 : 16) == 5) { w_bulk(prop); return; }
    int txns = 3 + choose(c, 20);
    bool full = prop == "D05" && choose(c, 4) == 3;
    if (full) { W->mapsize = 4096 * (8 + choose(c, 24)); W->map_full_ok = true; }
    if (choose(c, 3) == 2) { std::vector<int> v = { 4000, 10, 2030, 4060 }; W->vsizes = v; }
    Mix m; m.max_ops = 5 + 10 * choose(c, 5);
    if (choose(c, 3) == 1) { m.del = 8; m.put = 4; }
    if (choose(c, 3) == 2) { m.put = 12; m.upd = 0; }
    m.p_abort = choose(c, 3) ? 0.1 : 0.4;
    p_short_io = choose(c, 3) == 2 ? 0.1 : 0;
    cfg_sched(500, 20000);
    Proc *p = spawn_proc("store", [&]() {
        open_or_die("open");
        std::vector<Reader *> held;
        for (int t = 0; t < txns; t++) {
            write_txn(1000 + t, m);
            if (prop == "D06") check_pages("after a transaction");
            else if (choose(S(C_OP, 200 + t), 3) == 0) {
                napr_db_txn_t *rt = nullptr;
                if (napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &rt) != APR_SUCCESS) violate("read transaction could not begin");
                cursor_walk(rt, *W->latest(), S(C_OP, 300 + t), 20);
                napr_db_txn_commit(rt);
            }
            if (choose(S(C_OP, 400 + t), 6) == 5 && held.size() < 3) { Reader *r = new Reader; r->begin(t); r->scan(true, 100000); held.push_back(r); probe("held-reader"); }
            else if (choose(S(C_OP, 400 + t), 6) == 4 && !held.empty()) { Reader *r = held.front(); held.erase(held.begin()); r->scan(false, 100000); r->end(true); delete r; }
            if (held.empty() && choose(S(C_OP, 600 + t), 8) == 7) { probe("reopen"); reopen_here(S(C_OP, 600 + t), "reopen"); check_now("after reopen"); }
        }
        for (auto r : held) { r->scan(true, 100000); for (auto &k : W->keys) r->get(k); r->end(false); }
        check_now("at the end");
        if (prop == "D06") check_pages("at the end");
        napr_db_env_close(W->env);
    });
    wait_proc(p);
    if (W->commits > 1) nontrivial();
    describe(fmt("txns=%d full=%d maxops=%d", txns, (int) full, m.max_ops).c_str());
}
static void w_growth()
{
    Stream c = S(C_CFG, 2);
    cfg_workload(false);
    static const std::vector<std::vector<int>> vs = { { 10 }, { 60 }, { 300 }, { 900, 100 } };
    W->vsizes = vs[choose(c, 4)];
    W->mapsize = 64 << 20;
    int nk = std::min<int>(W->keys.size(), 1 + choose(c, 120)), per = 1 + choose(c, 6), rounds = 150 + choose(c, 150);
    bool deletes = choose(c, 3) == 2;
    uint64_t hi = 0, live = 0, at_half = 0;
    Proc *p = spawn_proc("store", [&]() {
        open_or_die("open");
        { Txn x; w_begin(x); for (int i = 0; i < nk; i++) op_put(x, W->keys[i], gen_val(S(C_OP, 1))); w_commit(x); }
        for (int r = 0; r < rounds; r++) {
            Txn x; w_begin(x);
            std::set<int> used;
            for (int i = 0; i < per; i++) {
                int q = (r * per + i * 7) % nk;
                if (!used.insert(q).second) continue;
                if (deletes && (r + i) % 3 == 2 && x.w.count(W->keys[q])) op_del(x, W->keys[q]); else op_put(x, W->keys[q], gen_val(S(C_OP, 1)));
            }
            w_commit(x);
            if (r % 16 == 15 || r < 8) check_pages("steady workload");
            NoYield ny; Raw raw; raw.load(); hi = std::max(hi, raw.last); live = std::max<uint64_t>(live, raw.tree);
            if (r == rounds / 2) at_half = raw.last;
        }
        check_now("at the end");
        napr_db_env_close(W->env);
    });
    wait_proc(p);
    uint64_t bound = 6 * live + 100;
    if (hi > bound) violate("a workload rewriting %d keys in %d transactions grew the file to %llu pages; the key tree never needed more than %llu (half-way: %llu)", nk, rounds, (unsigned long long) hi, (unsigned long long) live, (unsigned long long) at_half);
    probe("growth-runs");
    nontrivial();
    describe(fmt("growth rounds=%d keys=%d per=%d high=%llu live=%llu half=%llu", rounds, nk, per, (unsigned long long) hi, (unsigned long long) live, (unsigned long long) at_half).c_str());
}

// ------------------------------------------------------------------ opening (D07)
static void try_use(apr_status_t s, const char *what, State *got)
{
    if (s != APR_SUCCESS) { probe("open-refused"); return; }
    probe("open-accepted");
    napr_db_txn_t *t = nullptr;
    if (napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &t) != APR_SUCCESS) violate("%s: opened, but no read transaction can begin", what);
    napr_db_cursor_t *c = nullptr; napr_db_val_t k{}, d{};
    if (napr_db_cursor_open(t, &c) != APR_SUCCESS) violate("cursor_open failed");
    uint64_t sum = 0;
    for (int n = 0; n < 20000; n++) { apr_status_t r = napr_db_cursor_get(c, &k, &d, n ? NAPR_DB_NEXT : NAPR_DB_FIRST); if (r != APR_SUCCESS) break; sum += fnv(k.data, k.size) + fnv(d.data, d.size); (*got)[str(k)] = str(d); }
    napr_db_cursor_close(c); napr_db_txn_abort(t);
    ev("used %s sum %llx", what, (unsigned long long) sum);
}
static void w_open(const std::string &)
{
    Stream c = S(C_CFG, 2);
    cfg_workload(false);
    W->mapsize = 4 << 20;
    uint32_t scen = choose(c, 4);
    cfg_sched(200, 5000);
    if (scen <= 1) {
        // creating / opening under crashes and faults; afterwards the same open must succeed
        bool existing = choose(c, 2);
        int tries = 1 + choose(c, 4);
        bool machine = choose(c, 3) != 0; cfg.crash_machine = machine;
        if (existing) { Proc *p = spawn_proc("store", [&]() { open_or_die("first open"); for (int i = 0; i < 3; i++) write_txn(1000 + i, Mix()); napr_db_env_close(W->env); }); wait_proc(p); }
        int crashes = 0;
        static const Site ss[] = { F_OPEN, F_FTRUNC, F_MMAP, F_FSYNC, F_STAT, F_MUTEXINIT, F_LSEEK, F_CLOSE, F_WRITE, F_READ };
        for (int i = 0; i < tries; i++) {
            bool crash = choose(c, 2) == 0 || scen == 0;
            Proc *p = spawn_proc("opener", [&]() {
                cfg.crash_enabled = crash; cfg.crash_sys = 0.25; cfg.crash_pt_mean = choose(c, 2) ? 60 : 0; rearm();
                if (!crash) for (auto s : ss) fault_p[s] = 0.15;
                apr_status_t s; apr_pool_t *pool = new_pool();
                napr_db_env_t *e = open_env(pool, W->flags, W->mapsize, &s);
                for (auto &q : fault_p) q = 0;
                ev("open attempt -> %d", s);
                if (s == APR_SUCCESS) { probe("open-ok-despite-faults"); napr_db_env_close(e); } else { probe("open-failed"); }
                if (!crash && e && choose(c, 2)) {
                    // the same handle once more, without faults
                    if (choose(c, 2)) napr_db_env_close(e);
                    s = napr_db_env_set_mapsize(e, W->mapsize);
                    if (s == APR_SUCCESS) s = napr_db_env_open(e, PATH, W->flags);
                    if (s != APR_SUCCESS) violate("the store cannot be opened through a handle whose opening had failed or that had been closed: status %d", s);
                    probe("same-handle");
                    W->pool = pool; W->env = e;
                    check_now("through a handle that was used before");
                    write_txn(3000 + i, Mix());
                    check_now("through a handle that was used before");
                    napr_db_env_close(e);
                }
                apr_pool_destroy(pool);
            });
            wait_proc(p);
            cfg.crash_enabled = false; rearm(); for (auto &q : fault_p) q = 0;
            if (p->crashed) { crashes++; probe("crash-in-open"); }
            else if (open_fds()) violate("a failed or closed open left descriptors open: %s", open_fd_names().c_str());
            if (machine && choose(c, 3)) machine_crash();
        }
        Proc *p = spawn_proc("store", [&]() {
            open_or_die("after interrupted opens");
            check_now("after interrupted opens");
            for (int i = 0; i < 2; i++) write_txn(2000 + i, Mix());
            check_now("after interrupted opens and new commits");
            napr_db_env_close(W->env);
        });
        wait_proc(p);
        g_sample = fmt("interrupted opens: existing=%d tries=%d crashes=%d machine=%d", (int) existing, tries, crashes, (int) machine);
    } else {
        // damaged files
        uint32_t kind = choose(c, 11);
        std::string img;
        Proc *p = spawn_proc("store", [&]() { open_or_die("first open"); int n = 1 + choose(c, 6); for (int i = 0; i < n; i++) { Mix m; m.max_ops = 40; m.p_abort = 0; write_txn(1000 + i, m); } napr_db_env_close(W->env); });
        wait_proc(p);
        fs_read_file(PATH, img);
        size_t mapsize = W->mapsize;
        std::string orig = img; bool contents_kept = false;
        switch (kind) {
        case 0: img.clear(); break;
        case 1: img.resize(choose(c, img.size())); break;
        case 2: { size_t pages = img.size() / 4096; img.resize(4096 * choose(c, pages)); break; }
        case 3: { img.assign(choose(c, 20000), 0); for (size_t i = 0; i < img.size(); i++) img[i] = (char) (i * 131 + 7); break; }
        case 4: img.assign(choose(c, 4) * 4096 + choose(c, 2), 0); break;
        case 5: mapsize = 4096 * (1 + choose(c, 12)); contents_kept = true; break;
        case 6: img.clear(); break;                        // no file at all
        case 7: contents_kept = true; break;               // nothing wrong with it
        case 8: { uint32_t w = choose(c, 2); for (int m = 0; m < 2; m++) { size_t at = m * 4096 + (w ? 4 : 0) + choose(c, 4); img[at] = (char) (img[at] ^ (1 << choose(c, 8))); } break; }   // another magic number or version in both meta pages
        case 9: {                                          // a root beyond the last page, in both meta pages
            bool free_root = choose(c, 2); uint64_t far = choose(c, 2) ? img.size() / 4096 + choose(c, 3) : choose(c, 2) ? W->mapsize / 4096 + choose(c, 1000) : ~0ull >> choose(c, 20);
            for (int m = 0; m < 2; m++) memcpy(&img[m * 4096 + (free_root ? 32 : 16)], &far, sizeof far);
            break; }
        case 10: {                                         // one meta page is gone: what the other one refers to is still there
            uint32_t m = choose(c, 2), w = choose(c, 3);
            if (w == 0) memset(&img[m * 4096], 0, 4096); else if (w == 1) for (int i = 0; i < 4096; i++) img[m * 4096 + i] = (char) (i * 37 + 5); else img[m * 4096 + choose(c, 8)] ^= 1 << choose(c, 8);
            contents_kept = true; break; }
        }
        fs_unlink(PATH);
        if (kind != 6) fs_write_file(PATH, img);
        unsigned flags = choose(c, 3) == 0 ? W->flags : choose(c, 2) ? (W->flags & ~NAPR_DB_CREATE) : (NAPR_DB_RDONLY | NAPR_DB_INTRAPROCESS_LOCK);
        int rep = 0;
        Proc *q = spawn_proc("store", [&]() {
            apr_status_t s; W->pool = new_pool();
            W->env = open_env(W->pool, flags, mapsize, &s);
            State got;
            try_use(s, "damaged file", &got);
            std::string now; bool there = fs_read_file(PATH, now);
            const char *what = kind == 0 ? "an empty file" : kind <= 2 ? "a truncated store" : kind == 6 ? "a missing file" : kind == 5 ? "a store and a map that is too small" : kind == 7 ? "an intact store" : kind == 9 ? "a store with a root beyond its end" : kind == 10 ? "a store with one damaged meta page" : "a file that is not a store";
            if (s != APR_SUCCESS && kind == 7) violate("an intact store is refused with status %d (flags %u)", s, flags);
            if (s != APR_SUCCESS && (there != (kind != 6) || now != img)) violate("%s is refused with status %d (flags %u), but the file was changed", what, s, flags);
            if (s == APR_SUCCESS) {
                rep = 1;
                if (kind == 10) { State last = *W->latest(); int l = W->last_committed(); while (l > 0 && (W->h[l].status != 1 || *W->h[l].st == last)) l--;   /* transactions that changed nothing wrote nothing */
                    if (got != last && got != *W->h[l].st) violate("%s is accepted (flags %u), but shows %zu keys, which is neither the last nor the previous committed state", what, flags, got.size()); }
                else if (contents_kept) { if (got != *W->latest()) violate("%s is accepted (flags %u), but shows %zu keys instead of %zu or other values", what, flags, got.size(), W->latest()->size()); }
                else if (!(flags & NAPR_DB_CREATE)) violate("%s is accepted (flags %u) although creation was not asked for", what, flags);
                else if (!got.empty()) violate("%s is accepted and shows %zu keys", what, got.size());
                if (flags & NAPR_DB_RDONLY) {
                    // nothing can be changed through it
                    napr_db_txn_t *t = nullptr;
                    if (napr_db_txn_begin(W->env, 0, &t) == APR_SUCCESS) {
                        std::string k1 = "rdonly", v1 = "x"; napr_db_val_t kk = V(k1), vv = V(v1);
                        if (napr_db_put(t, &kk, &vv) == APR_SUCCESS) { if (napr_db_txn_commit(t) == APR_SUCCESS) violate("a store opened read-only accepts a commit"); }
                        else napr_db_txn_abort(t);
                    }
                    fs_read_file(PATH, now);
                    if (now != img) violate("a store opened read-only was changed");
                    probe("read-only-store");
                }
                napr_db_env_close(W->env);
            }
        });
        wait_proc(q);
        if (open_fds()) violate("a refused open left descriptors open: %s", open_fd_names().c_str());
        if (kind == 5 || kind == 7) { // the original, opened properly again, is intact
            Proc *r = spawn_proc("store", [&]() { open_or_die("after a refused open"); check_now("after a refused open"); napr_db_env_close(W->env); });
            wait_proc(r);
        }
        g_sample = fmt("damaged file kind=%u size=%zu flags=%u mapsize=%zu accepted=%d", kind, img.size(), flags, mapsize, rep);
    }
    nontrivial();
}

// ------------------------------------------------------------------ readers and writers progress (D08)
static void w_readers(const std::string &)
{
    Stream c = S(C_CFG, 2);
    cfg_workload(true);
    const int MAXR = 126;
    int rounds = 1 + choose(c, 4);
    cfg_sched(40, 2000);
    bool threads = choose(c, 3) != 0;
    Proc *p = spawn_proc("store", [&]() {
        open_or_die("open");
        preload(10);
        std::vector<napr_db_txn_t *> open;
        auto begin = [&](bool expect) {
            napr_db_txn_t *t = nullptr;
            apr_status_t s = napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &t);
            if (expect && s != APR_SUCCESS) violate("only %zu of %d readers are open, but another one is refused with status %d", open.size(), MAXR, s);
            if (!expect && s == APR_SUCCESS) violate("%zu readers are open and one more was accepted although the maximum is %d", open.size(), MAXR);
            if (s == APR_SUCCESS) open.push_back(t);
        };
        auto end = [&](size_t i) { napr_db_txn_t *t = open[i]; open.erase(open.begin() + i); apr_status_t s = choose(S(C_OP, 2), 2) ? napr_db_txn_commit(t) : napr_db_txn_abort(t); if (s != APR_SUCCESS) violate("ending a reader failed with status %d", s); };
        for (int r = 0; r < rounds; r++) {
            if (threads) {
                // concurrent short readers, more lifetimes than there are places, some ended by another thread
                int nt = 2 + choose(S(C_OP, 3), 4); int lives = 10 + choose(S(C_OP, 3), 40);
                int hold = choose(S(C_OP, 3), MAXR - 20); std::vector<napr_db_txn_t *> passed; int now = 0, maxnow = 0;
                while ((int) open.size() < hold) begin(true);
                std::vector<Thread *> ts;
                for (int k = 0; k < nt; k++) ts.push_back(spawn_thread([&, k]() {
                    for (int i = 0; i < lives; i++) {
                        napr_db_txn_t *t = nullptr; apr_status_t s = napr_db_txn_begin(W->env, NAPR_DB_RDONLY, &t);
                        if (s != APR_SUCCESS) violate("reader %d of thread %d refused with status %d while at most %d of %d are open", i, k, s, hold + nt, MAXR);
                        { NoYield ny; now++; maxnow = std::max(maxnow, now); }
                        napr_db_val_t key = V(W->keys[i % W->keys.size()]), d{}; napr_db_get(t, &key, &d);
                        s = i % 2 ? napr_db_txn_commit(t) : napr_db_txn_abort(t);
                        if (s != APR_SUCCESS) violate("ending a reader failed with status %d", s);
                        { NoYield ny; now--; }
                    }
                }));
                ts.push_back(spawn_thread([&]() { for (int i = 0; i < 3; i++) { Mix m; m.max_ops = 4; write_txn(1000 + r * 10 + i, m); } }));
                for (auto t : ts) join_thread(t);
                probe("concurrent-reader-lives", nt * lives);
                if (maxnow > 1) probe("overlapping-readers");
            }
            while ((int) open.size() < MAXR) begin(true);
            begin(false);
            // a writer makes progress and sees its own work while every place is taken
            { Mix m; m.max_ops = 6; write_txn(2000 + r, m); }
            uint32_t k = 1 + choose(S(C_OP, 4), MAXR);
            for (uint32_t i = 0; i < k && !open.empty(); i++) end(choose(S(C_OP, 4), 3) ? 0 : open.size() - 1);
            for (uint32_t i = 0; i < k; i++) begin(true);
            begin(false);
            probe("capacity-rounds");
            // end some in other threads than the one that began them
            if (choose(S(C_OP, 5), 2)) { std::vector<napr_db_txn_t *> give(open.begin(), open.begin() + 20); open.erase(open.begin(), open.begin() + 20); Thread *t = spawn_thread([give]() { for (auto x : give) if (napr_db_txn_abort(x) != APR_SUCCESS) violate("ending a reader from another thread failed"); }); join_thread(t); for (int i = 0; i < 20; i++) begin(true); begin(false); probe("ended-by-other-thread"); }
            while (!open.empty()) end(choose(S(C_OP, 4), 2) ? 0 : open.size() - 1);
        }
        for (int i = 0; i < MAXR; i++) begin(true);
        begin(false);
        while (!open.empty()) end(open.size() - 1);
        check_now("at the end");
        napr_db_env_close(W->env);
    });
    wait_proc(p);
    nontrivial();
    g_sample = fmt("rounds=%d threads=%d keys=%zu commits=%d", rounds, (int) threads, W->keys.size(), W->commits);
}
} // namespace db

void world_db(const std::string &prop)
{
    db::W = new db::World();
    db::W->prop = prop;
    db::W->h.push_back(db::Hist{ std::make_shared<db::State>(), 1 });
    if (prop == "D01" || prop == "D02") db::w_crash(prop);
    else if (prop == "D03" || prop == "D04") db::w_conc(prop);
    else if (prop == "D05") db::w_hist(prop);
    else if (prop == "D06") { uint32_t k = choose(S(C_CFG, 9), 10); if (k < 5) db::w_hist(prop); else if (k < 9) db::w_crash(prop); else db::w_growth(); }
    else if (prop == "D07") db::w_open(prop);
    else if (prop == "D08") db::w_readers(prop);
}
