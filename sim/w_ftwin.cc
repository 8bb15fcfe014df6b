// Worlds over the whole program: ftwin_main on a generated tree, with a content-level oracle.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include <jansson.h>
#include "xxhash.h"
extern "C" {
int ftwin_main(int argc, const char **argv);
void ft_config_set_should_exit_on_error(int);
void ft_config_set_should_terminate_apr(int);
extern int sim_cpus;
extern int sim_tty, sim_noname;
}
using namespace sim;
namespace sim { void set_hook_p(double); }
namespace fw {

// ------------------------------------------------------------------ the tree
struct File {
    std::string vpath;             // where it lives
    std::string data;              // current contents
    int64_t mtime = 0;
    std::set<std::string> seen;    // versions of the contents the program has completely read
    bool bad = false;              // some access to it failed, or it changed
    int opens = 0, reads = 0, stats = 0;
    int64_t opened = 0, delivered = 0, mapped = 0;      // successful opens, bytes read or mapped, largest mapping
    int kind = 0, k = 0, err = 0, until = 1 << 30;  // planned trouble: what, from which to which access
    bool done = false;
};
struct Entry {                     // one path under which the program can meet a file
    std::string shown, abs;        // as printed / absolute
    File *f;
    bool bad = false, optional = false, prio = false;
    bool unwritable = false;       // JSON cannot express its name
};
enum { B_NONE, B_STAT, B_OPEN, B_READ, B_EOF, B_VANISH, B_TRUNC, B_GROW, B_REPLACE, B_MMAP, B_CLOSE, B_NKINDS };
static const char *kind_name[] = { "-", "stat fails", "open fails", "read fails", "early end of file", "vanishes", "shrinks", "grows", "replaced", "mmap fails", "close fails" };

static std::vector<File *> files;
static std::vector<Entry> entries;
static std::map<std::string, File *> by_path;
static std::map<std::string, std::pair<int, int>> bad_dirs;   // vdir -> (0 opendir | 1 readdir | 2 stat, n / errno)
static bool gi_faulted;
static double p_rand;              // transient random faults on any file
static std::set<std::string> gi_optional;
static std::map<File *, int64_t> cuts;       // files that are cut short once they are mapped

static std::string blob(uint64_t id, size_t n)
{
    std::string s(n, 0);
    uint64_t x = id * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = (char) (x >> 24); }
    return s;
}
static std::string norm(const std::string &p)
{
    std::vector<std::string> c;
    std::string a = p[0] == '/' ? p : "/sim/" + p;
    size_t i = 0;
    while (i < a.size()) { while (i < a.size() && a[i] == '/') i++; size_t j = i; while (j < a.size() && a[j] != '/') j++; if (j > i) { std::string x = a.substr(i, j - i); if (x == "..") { if (!c.empty()) c.pop_back(); } else if (x != ".") c.push_back(x); } i = j; }
    std::string r; for (auto &x : c) r += "/" + x;
    return r.empty() ? "/" : r;
}
// follow symbolic links of the simulated tree
static std::string resolve(const std::string &v)
{
    char buf[PATH_MAX];
    std::string rp = real_path(v);
    // real realpath, outside the seam
    if (!::realpath(v.c_str(), buf)) return "";
    return buf;
}
static File *file_of(const std::string &v)
{
    std::string n = norm(v);
    auto i = by_path.find(n);
    if (i != by_path.end()) return i->second;
    std::string r = resolve(n);
    i = by_path.find(r);
    if (i == by_path.end() && r.empty()) {     // it may have vanished
        size_t sl = n.rfind('/');
        r = resolve(n.substr(0, sl));
        if (!r.empty()) i = by_path.find(r + n.substr(sl));
    }
    return i == by_path.end() ? nullptr : i->second;
}
static void mark_prefix(const std::string &v)
{
    std::string n = norm(v);
    for (auto &e : entries) if (e.abs == n || e.abs.compare(0, n.size() + 1, n + "/") == 0) e.bad = true;
}
static void store(File *f, const std::string &d)
{
    f->data = d;
    fs_write_file(f->vpath, d, f->mtime + 1000);
}
static int denied(Site s, const std::string &v);
static int errs[] = { EACCES, EIO, ENOENT, EMFILE, ENFILE, ENOMEM, ELOOP, ESTALE };
static int plan(Site s, const std::string &v0, int64_t off)
{
    std::string v = norm(v0);
    if (v.compare(0, 7, "/sim/t/") != 0 && v != "/sim/t") return 0;
    if (sim_uid && off != -1 && (s == F_OPEN || s == F_OPENDIR || s == F_STAT)) { if (int e = denied(s, v)) return e; }
    if (v.size() > 11 && v.compare(v.size() - 11, 11, "/.gitignore") == 0) {
        if (p_rand > 0 && (s == F_STAT || s == F_OPEN || s == F_READ) && choose_p(S(C_FAULT, 120), 2, p_rand * 4)) { gi_faulted = true; if (File *g = file_of(v)) g->bad = true; return s == F_READ ? EIO : EACCES; }
        return 0;
    }
    auto d = bad_dirs.find(v);
    if (d != bad_dirs.end()) {
        if (s == F_OPENDIR && d->second.first == 0) { mark_prefix(v); return d->second.second; }
        if (s == F_READDIR && d->second.first == 1 && off >= d->second.second) { mark_prefix(v); return EIO; }
        if (s == F_STAT && d->second.first == 2) { mark_prefix(v); return d->second.second; }
    }
    if (p_rand > 0 && (s == F_OPENDIR || s == F_READDIR) && choose_p(S(C_FAULT, 100 + s), 2, p_rand / 2)) { mark_prefix(v); return s == F_OPENDIR ? EMFILE : EIO; }
    File *f = file_of(v);
    if (!f) {
        if (s == F_STAT && p_rand > 0 && choose_p(S(C_FAULT, 121), 2, p_rand)) { mark_prefix(v); return EIO; }
        return 0;
    }
    int e = 0;
    if (s == F_OPEN) {
        int n = ++f->opens;
        if (n >= f->k && !f->done) {
            switch (f->kind) {
            case B_VANISH: fs_unlink(f->vpath); f->done = true; f->bad = true; fired("file:vanishes"); ev("%s vanishes", f->vpath.c_str()); break;
            case B_TRUNC: if (f->data.size() > 1) { size_t to = choose(S(C_FAULT, 122), f->data.size() > 70000 ? 3 : 2); size_t n2 = to == 0 ? f->data.size() / 2 : to == 1 ? f->data.size() - 1 : 65536; store(f, f->data.substr(0, n2)); f->done = true; f->bad = true; fired("file:shrinks"); ev("%s shrinks to %zu", f->vpath.c_str(), n2); } break;
            case B_GROW: store(f, f->data + blob(991, 1 + f->k * 5000)); f->done = true; f->bad = true; fired("file:grows"); ev("%s grows", f->vpath.c_str()); break;
            case B_REPLACE: store(f, blob(7000 + fnv(f->vpath.data(), f->vpath.size()) % 100000, f->data.size())); f->done = true; f->bad = true; fired("file:replaced"); ev("%s is replaced", f->vpath.c_str()); break;
            }
        }
        if (f->kind == B_OPEN && n >= f->k && n <= f->until) e = f->err;
    } else if (s == F_READ) {
        int n = ++f->reads;
        if (f->kind == B_READ && n >= f->k && n <= f->until) e = EIO;
        if (f->kind == B_EOF && n >= f->k && n <= f->until) e = PF_SHORT_EOF;
    } else if (s == F_MMAP) {
        if (f->kind == B_MMAP || f->kind == B_READ || f->kind == B_EOF) return ENOMEM;
    } else if (s == F_STAT) {
        if (off != -1 && f->kind == B_STAT && ++f->stats >= f->k) { if (f->err == ENOENT || f->err == EACCES || f->err == EIO || f->err == ELOOP || f->err == ESTALE) e = f->err; else e = EIO; mark_prefix(v); }
    } else if (s == F_CLOSE) {
        if (f->kind == B_CLOSE) e = EIO;
    } else return 0;
    if (!e && p_rand > 0 && choose_p(S(C_FAULT, 100 + s), 2, p_rand)) e = s == F_OPEN ? EMFILE : s == F_MMAP ? ENOMEM : EIO;
    if (e && s != F_MMAP) { f->bad = true; if (s == F_STAT && off != -1) mark_prefix(v); }
    return e;
}

// what the program has read of each file
struct Seen { File *f; std::string ver; std::vector<std::pair<int64_t, int64_t>> iv; };
static std::map<int, Seen> open_now;
static std::set<std::string> odd_opens;     // opened things that are not files of the tree
static void observe(Obs k, const std::string &v, int fd, int64_t off, int64_t n)
{
    if (k == OBS_OPEN) { File *f = file_of(v); if (f) f->opened++; else odd_opens.insert(resolve(norm(v))); open_now.erase(fd); if (f) open_now[fd] = Seen{ f, f->data, {} }; return; }
    auto i = open_now.find(fd);
    if (i == open_now.end()) return;
    Seen &s = i->second;
    if (k == OBS_CLOSE) { open_now.erase(i); return; }
    if (k == OBS_MMAP && cuts.count(s.f)) return;      // cut short before anything was read through the mapping
    if (n > 0) { s.iv.push_back({ off, off + n }); s.f->delivered += n; if (k == OBS_MMAP) s.f->mapped = std::max(s.f->mapped, n); }
    std::sort(s.iv.begin(), s.iv.end());
    int64_t to = 0;
    for (auto &x : s.iv) { if (x.first > to) break; to = std::max(to, x.second); }
    if (to >= (int64_t) s.ver.size()) s.f->seen.insert(s.ver);
}

// ------------------------------------------------------------------ run description
struct Rule { bool neg, dir_only, path; std::string glob; };        // one line of an ignore file
struct Run {
    std::vector<std::string> argv;
    bool json = false, follow = false, norec = false, all = false, sized = false, icase = false, tty = false;
    char sep = '\n';
    int64_t minsize = 0, maxsize = 0;
    std::string prio;
    int argmode = 0, threads = 0;
    bool asked = false;    // -j was given
    int64_t excess = -1;
    size_t ncls = 0, depth = 0;
    bool bad_args = false;                                          // an argument leads nowhere
    std::set<std::string> ig_names;
    std::function<bool(const std::string &)> ig, wl;                // -e, -w
    std::map<std::string, std::vector<Rule>> gi;                    // directory -> rules
    size_t first_arg = 1;
    std::map<std::string, Owner> own;                               // simulated ownership
} R;
struct Dir { std::string v; int depth; };
struct Node { int type = 0; File *f = nullptr; std::string target; };   // 0 file, 1 directory, 2 link, 3 other
static std::map<std::string, Node> tree;                            // by real virtual path

static std::string lower(std::string s) { for (auto &ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
static bool is_prio(const std::string &p)
{
    if (R.prio.empty() || p.size() < R.prio.size()) return false;
    std::string h = p.substr(0, R.prio.size());
    return R.icase ? lower(h) == lower(R.prio) : h == R.prio;
}
static void add_entry(const std::string &abs, const std::string &shown, File *f, bool optional)
{
    Entry e; e.abs = abs; e.shown = shown; e.f = f; e.optional = optional; e.prio = is_prio(shown);
    entries.push_back(e);
}
static bool size_ok(File *f) { int64_t n = f->data.size(); return n >= R.minsize && (R.maxsize == 0 || n <= R.maxsize); }
static void make_symlink(const std::string &target, const std::string &v) { syscall(SYS_symlink, target.c_str(), real_path(v).c_str()); }

// ------------------------------------------------------------------ reference model of the selection rules
// glob as in a gitignore file: * and ? stop at slashes, **/ is any number of directories, trailing ** is everything
static bool glob(const char *p, const char *s)
{
    for (; *p; ) {
        if (p[0] == '*' && p[1] == '*' && p[2] == '/') {
            if (glob(p + 3, s)) return true;
            for (; *s; s++) if (*s == '/' && glob(p + 3, s + 1)) return true;
            return false;
        }
        if (p[0] == '*' && p[1] == '*') { for (;; s++) { if (glob(p + 2, s)) return true; if (!*s) return false; } }
        if (*p == '*') { for (;; s++) { if (glob(p + 1, s)) return true; if (!*s || *s == '/') return false; } }
        if (!*s) return false;
        if (*p == '?') { if (*s == '/') return false; p++; s++; continue; }
        if (*p == '[') {
            p++; bool neg = *p == '!' || *p == '^'; if (neg) p++;
            bool in = false;
            while (*p && *p != ']') { if (*p == '\\' && p[1]) { p++; if (*s == *p) in = true; p++; } else if (p[1] == '-' && p[2] && p[2] != ']') { if (*s >= p[0] && *s <= p[2]) in = true; p += 3; } else { if (*s == *p) in = true; p++; } }
            if (*p) p++;
            if (in == neg) return false;
            s++; continue;
        }
        if (*p == '\\' && p[1]) p++;
        if (*p != *s) return false;
        p++; s++;
    }
    return !*s;
}
static Rule rule(std::string l)
{
    Rule r{ false, false, false, "" };
    while (!l.empty() && l.back() == ' ' && (l.size() < 2 || l[l.size() - 2] != '\\')) l.pop_back();
    if (l[0] == '!') { r.neg = true; l.erase(0, 1); }
    if (l[0] == '/') { r.path = true; l.erase(0, 1); }
    if (l.size() > 1 && l.back() == '/') { r.dir_only = true; l.pop_back(); }
    if (l.find('/') != std::string::npos) r.path = true;
    r.glob = l;
    return r;
}
static bool rule_hits(const Rule &r, const std::string &rel, bool dir)
{
    if (r.dir_only && !dir) return false;
    std::string s = r.path ? rel : rel.substr(rel.rfind('/') == std::string::npos ? 0 : rel.rfind('/') + 1);
    return glob(r.glob.c_str(), s.c_str());
}
static const char *const default_rules[] = { ".git/", ".hg/", ".svn/", "build/", "dist/", "out/", "target/", "bin/", "*.o", "*.class", "*.pyc", "*.pyo", "node_modules/", "vendor/", ".venv/", ".DS_Store", "Thumbs.db", "*.swp", "*~", ".idea/", ".vscode/" };
struct Ctx { const std::vector<Rule> *rules; std::string base; const Ctx *up; };
static std::vector<Rule> defaults;
static int may(const Owner &o)
{
    if (!sim_uid) return 7;
    if (o.uid == sim_uid) return o.mode >> 6 & 7;
    if (o.gid == sim_gid || std::find(sim_groups.begin(), sim_groups.end(), o.gid) != sim_groups.end()) return o.mode >> 3 & 7;
    return o.mode & 7;
}
static int may(const std::string &v) { auto i = R.own.find(v); return !sim_uid || i == R.own.end() ? 7 : may(i->second); }
static bool reachable(const std::string &real)           // every directory above can be searched
{
    if (!sim_uid) return true;
    for (size_t i = 6; (i = real.find('/', i)) != std::string::npos; i++) if (!(may(real.substr(0, i)) & 1)) return false;
    return true;
}
static std::string follow(std::string real) { for (int i = 0; i < 40; i++) { auto n = tree.find(real); if (n == tree.end()) return ""; if (n->second.type != 2) return real; real = n->second.target; } return ""; }
static void walk(const std::string &shown, const std::string &abs, std::string real, const std::vector<std::string> &above, const Ctx *ctx, bool touched)
{
    auto n = tree.find(real);
    if (n == tree.end()) return;
    if (n->second.type == 2) { if (!R.follow) return; real = follow(real); n = tree.find(real); if (n == tree.end()) return; }
    if (!reachable(real)) return;
    bool dir = n->second.type == 1;
    bool ignored = false, decided = false;
    for (const Ctx *c = ctx; c; c = c->up) {
        if (shown.compare(0, c->base.size(), c->base)) continue;
        std::string rel = shown.substr(c->base.size());
        while (!rel.empty() && rel[0] == '/') rel.erase(0, 1);
        while (!rel.empty() && rel.back() == '/') rel.pop_back();
        bool hit = false, ig = false;
        for (auto &r : *c->rules) if (rule_hits(r, rel, dir)) { hit = true; ig = !r.neg; }
        if (hit && c->rules != &defaults) touched = true;
        if (hit && !decided) { decided = true; ignored = ig; }
    }
    // what an ignore file says about it is only certain while that file can be read
    if (ignored && !touched) return;
    if (dir) {
        if (ignored) { for (auto &m : tree) if (m.second.f && m.first.compare(0, real.size() + 1, real + "/") == 0) gi_optional.insert(shown + m.first.substr(real.size())); return; }
        if ((may(real) & 5) != 5) return;
        if (std::find(above.begin(), above.end(), real) != above.end()) return;
        std::vector<std::string> ab = above; ab.push_back(real);
        R.depth = std::max(R.depth, ab.size());
        Ctx here{ nullptr, shown, ctx };
        auto g = R.gi.find(real);
        if (g != R.gi.end() && (may(follow(real + "/.gitignore")) & 4)) { here.rules = &g->second; ctx = &here; }
        for (auto m = tree.upper_bound(real + "/"); m != tree.end() && m->first.compare(0, real.size() + 1, real + "/") == 0; ++m) {
            std::string nm = m->first.substr(real.size() + 1);
            if (nm.find('/') != std::string::npos) continue;
            if (R.ig_names.count(nm) || (nm[0] == '.' && !R.all)) continue;
            if (R.norec && m->second.type == 1) continue;
            std::string s = shown + (shown.back() == '/' ? "" : "/") + nm;
            if (R.ig && R.ig(s)) continue;
            walk(s, abs + "/" + nm, m->first, ab, ctx, touched);
        }
        return;
    }
    if (n->second.type != 0 || !(may(real) & 4) || !size_ok(n->second.f) || (!above.empty() && R.wl && !R.wl(shown))) return;
    if (touched) gi_optional.insert(shown);
    if (!ignored) add_entry(abs, shown, n->second.f, false);
}

static int denied(Site s, const std::string &v)        // what the kernel would not let this user do
{
    std::string n = norm(v), dir = resolve(n.substr(0, n.rfind('/')));
    if (dir.empty()) return 0;
    std::string real = dir + n.substr(n.rfind('/'));
    if (!reachable(real)) { fired("no-permission"); return EACCES; }
    std::string t = s != F_STAT || R.follow ? follow(real) : real;
    if (t.empty()) return 0;
    if (!reachable(t) || (s != F_STAT && !(may(t) & 4))) { fired("no-permission"); return EACCES; }
    return 0;
}
static int plan_denied(Site s, const std::string &v0, int64_t off) { std::string v = norm(v0); if (off == -1 || (v.compare(0, 7, "/sim/t/") != 0 && v != "/sim/t") || (s != F_OPEN && s != F_OPENDIR && s != F_STAT)) return 0; return denied(s, v); }
enum { W_CLEAN = 1, W_FAULTS = 2 };
static bool contains(const std::string &s, const char *x) { return s.find(x) != std::string::npos; }
static bool ends(const std::string &s, const char *x) { size_t n = strlen(x); return s.size() >= n && s.compare(s.size() - n, n, x) == 0; }
static bool wl_rule(const std::string &s0)       // \.(txt|log)$|/[a-z][^./]*$
{
    std::string s = R.icase ? lower(s0) : s0;
    if (ends(s, ".txt") || ends(s, ".log")) return true;
    std::string b = s.substr(s.rfind('/') + 1);
    return !b.empty() && b[0] >= 'a' && b[0] <= 'z' && b.find('.') == std::string::npos;
}
static void set_own(const std::string &v, Owner o) { R.own[v] = o; owners[fs_inode(v)] = o; }

static void build(int mode, const std::string &prop)
{
    Stream c = S(C_CFG), o = S(C_CFG, 2);
    R = Run();
    bool small = prop == "F04", rules = prop == "F09" || (prop == "F10" && choose(c, 2));
    R.json = prop == "F05" || choose(c, 3) == 2;
    R.argmode = choose(c, 7);
    bool big = !small && choose(c, prop == "F07" ? 3 : 16) == (prop == "F07" ? 2u : 15u);
    uint32_t nopt = rules ? 1 : choose(c, 3) == 0 ? 0 : 1;      // a third of the runs use few options
    auto opt = [&](uint32_t n) -> uint32_t { return nopt ? choose(o, n) : 0; };
    auto rare = [&](uint32_t n) -> bool { return opt(rules ? (n + 1) / 2 : n) + 1 == (rules ? (n + 1) / 2 : n) && nopt; };
    std::vector<std::vector<std::string>> opts;
    bool lng = false;
    auto flag = [&](const char *s, const char *l) { opts.push_back({ lng ? l : s }); };
    auto arg = [&](const char *s, const char *l, const std::string &v) { if (lng && opt(2)) opts.push_back({ std::string(l) + "=" + v }); else opts.push_back({ lng ? l : s, v }); };
    lng = opt(4) == 3;
    int th = (int) choose(c, 7);
    int nth[] = { 1, 2, 3, 4, 8, 16 };
    if (th == 6 && choose(c, 8) == 7) { nth[5] = choose(c, 2) ? 256 : 100; probe("hundreds-of-threads"); }
    if (th) arg("-j", "--threads", fmt("%d", nth[th - 1]));
    sim_cpus = 1 + (int) choose(c, 7);
    if (sim_cpus == 7) { static const int odd[] = { -1, 0, 40 }; sim_cpus = odd[choose(c, 3)]; probe("odd-number-of-cpus"); }
    R.asked = th > 0;
    R.threads = th ? nth[th - 1] : sim_cpus > 0 ? sim_cpus : 8;      // without an answer the program may choose a small number itself
    if (uint32_t x = choose(c, 7)) { static const char *xs[] = { "0", "1", "4097", "65536", "100000", "4K" }; static const int64_t xv[] = { 0, 1, 4097, 65536, 100000, 4096 }; R.excess = xv[x - 1]; arg("-x", "--excessive-size", xs[x - 1]); }
    if (R.json) flag("-J", "--json");
    if (rare(4)) { R.sep = ",:;|"[opt(4)]; arg("-s", "--separator", std::string(1, R.sep)); }
    if (prop == "F08" ? choose(o, 2) == 0 : rare(5)) { R.sized = true; flag("-d", "--display-size"); }
    if (prop == "F08") R.tty = choose(o, 2) == 1;
    if (rare(6)) flag("-v", "--verbose");
    if (rare(8)) flag("-n", "--dry-run");
    if (rare(8)) flag("-o", "--optimize-memory");
    if (rare(8)) flag("-t", "--tar-cmp");
    if (rare(8)) { R.icase = true; flag("-c", "--case-unsensitive"); }
    if (rare(6)) { static const std::pair<const char *, int64_t> ms[] = { { "1", 1 }, { "4096", 4096 }, { "8191", 8191 }, { "4K", 4096 }, { "1.5k", 1536 }, { "0", 0 }, { "0.5K", 512 }, { "2 k", 2048 }, { "0.001953125M", 2048 }, { "2G", 1LL << 31 }, { "4294967297", 4294967297LL }, { "1T", 1LL << 40 } }; auto &m = ms[opt(prop == "F09" ? 12 : 9)]; R.minsize = m.second; arg("-m", "--minimal-length", m.first); }
    if (rare(8)) { static const std::pair<const char *, int64_t> ms[] = { { "4096", 4096 }, { "65537", 65537 }, { "64K", 65536 }, { "1M", 1048576 }, { "4294967297", 4294967297LL }, { "3G", 3LL << 30 }, { "0", 0 }, { "1t", 1LL << 40 }, { "0.0000001t", 109951 } }; auto &m = ms[opt(9)]; R.maxsize = m.second; arg("-M", "--max-size", m.first); }
    if (rare(6)) { R.all = true; flag("-a", "--hidden"); }
    if (rare(4)) { R.follow = true; flag("-f", "--follow-symlink"); }
    if (!R.follow && rare(8)) { R.norec = true; flag("-R", "--no-recurse"); }
    else if (rare(8)) flag("-r", "--recurse-subdir");
    dt_unknown = choose(c, 4) == 3;
    if (rare(6)) {
        uint32_t w = opt(4);
        static const char *re[] = { ".*skip.*", "\\.tmp$", "/a0/", "^(\\./|/sim/)?t/a0(/|$)" };
        arg("-e", "--regex-ignore-file", re[w]);
        R.ig = [w](const std::string &s0) { std::string s = R.icase ? lower(s0) : s0; return w == 0 ? contains(s, "skip") : w == 1 ? ends(s, ".tmp") : w == 2 ? contains(s, "/a0/") : contains((s.compare(0, 2, "./") == 0 ? s.substr(2) : s.compare(0, 5, "/sim/") == 0 ? s.substr(5) : s).insert(0, "^") + "/", "^t/a0/"); };
    }
    if (rare(6)) {
        uint32_t w = opt(rules ? 5 : 2);
        R.ig_names = { "lost", "found" };
        if (w == 0) arg("-i", "--ignore-list", "lost,found");
        else if (w == 1) { arg("-i", "--ignore-list", "found"); arg("-i", "--ignore-list", "lost"); }
        else if (w == 2) { std::string l = "lost"; for (uint32_t k = 5 + opt(12); k; k--) l += k & 1 ? ",lost" : ",found"; arg("-i", "--ignore-list", l); probe("repeated-ignore-names"); }
        else { std::string l; for (int k = 0; k < (w == 3 ? 40 : 400); k++) { std::string n = fmt("f%d", 3 * k + 1); l += n + ","; R.ig_names.insert(n); } arg("-i", "--ignore-list", l + "found,lost" + (w == 4 ? "," : "")); probe("long-ignore-list"); }
    }
    if (rare(10)) {
        uint32_t w = opt(3);
        static const char *re[] = { "\\.(txt|log)$|/[a-z][^./]*$", "^.*\\.(txt|log)$", "/b1/.*\\.txt$|/f[0-9]+$" };
        arg("-w", "--whitelist-regex-file", re[w]);
        R.wl = wl_rule;
        if (w) R.wl = [w](const std::string &s0) { std::string s = R.icase ? lower(s0) : s0; if (w == 1) return ends(s, ".txt") || ends(s, ".log");
            if (contains(s, "/b1/") && ends(s, ".txt")) return true;
            std::string n = s.substr(s.rfind('/') + 1); return s.find('/') != std::string::npos && n.size() > 1 && n[0] == 'f' && n.find_first_not_of("0123456789", 1) == std::string::npos; };
    }
    bool perms = choose(c, rules ? 4 : 12) == (rules ? 3u : 11u);
    if (perms) { sim_uid = 1000; sim_gid = 1000; sim_groups = choose(c, 2) ? std::vector<int>{ 1000, 50 } : std::vector<int>{};
        uint32_t gl = choose(c, 4);
        if (gl == 2) sim_groups = { 118, 420, 2263, 2470, 3331, 3703, 6091, 8796, 9888, 11115, 12974, 50 };      // as many in one bucket of the table of groups as it takes to make it grow
        if (gl == 3) for (int k = 0, n = (int) choose(c, 2) ? 254 : 400; k < n; k++) sim_groups.push_back(7000 + k);
        sim_noname = choose(c, 4) == 3;
        if (gl > 1) probe("many-groups");
    }
    auto give = [&](const std::string &v, bool dir) {
        if (!perms) return;
        Stream q = S(C_CFG, 5);
        if (choose(q, 3) == 0) { set_own(v, Owner{ 1000, 1000, dir ? 0755 : 0644 }); return; }
        static const int us[] = { 1000, 2000 }, gs[] = { 1000, 50, 3000 }, fm[] = { 0644, 0600, 0640, 0604, 0400, 0040, 0004, 0000, 0222, 0077, 0707 }, dm[] = { 0755, 0755, 0755, 0700, 0750, 0705, 0000, 0050 };
        int u = us[choose(q, 2)], g = gs[choose(q, 3)];
        if (sim_groups.size() > 4 && choose(q, 2)) g = sim_groups[choose(q, sim_groups.size())];
        set_own(v, Owner{ u, g, dir ? dm[choose(q, 8)] : fm[choose(q, 11)] });
    };

    // contents
    size_t nsz = 1 + choose(c, 4), ncls = 1 + choose(c, rules ? 3 : 6), nf = 1 + choose(c, small ? 8 : 18);
    if (rules) nf += 6;
    if (prop == "F10") { nsz += choose(c, 6); ncls += choose(c, 8); }
    if (big) { nsz += choose(c, 12); ncls += choose(c, 40); nf = 40 + choose(c, 260); }
    // crowds: more files than fit in any first guess of a table's size, in many groups or in a few huge ones
    Stream cr = S(C_CFG, 21);
    bool crowd = big && choose(cr, prop == "F07" ? 12 : 4) == 3;
    if (crowd) { nf = 300 + choose(cr, mode == W_FAULTS ? 400 : choose(cr, 2) ? 600 : 2000); if (choose(cr, 2)) { ncls = 1 + choose(cr, 3); nsz = 1; } else { ncls = 20 + choose(cr, 300); nsz = 1 + choose(cr, 150); } probe("crowd"); }
    static const size_t szs[] = { 100, 0, 1, 2, 511, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 131073, 200001 };
    std::vector<size_t> sz;
    for (size_t i = 0; i < nsz; i++) sz.push_back(crowd ? 1 + choose(cr, 700) : big ? (i == 0 ? szs[choose(c, 15)] : 50 + choose(c, 3000)) : szs[choose(c, 15)]);
    // sizes that share a bucket of the table of sizes, enough of them to make it grow
    if (!small && !crowd && choose(c, rules ? 30 : 12) == 11) { sz = { 2571, 2684, 5683, 8086, 8302, 8965, 9512, 9645, 9878, 10765, 11694 }; nsz = sz.size(); ncls = nsz + choose(c, 6); nf = ncls + nsz + choose(c, 20); probe("colliding-sizes"); }
    else if (!big && !small && choose(c, 24) == 23) sz.back() = 1200000 + choose(c, 3) * 524288;
    std::vector<std::string> cls;
    for (size_t i = 0; i < ncls; i++) {
        size_t n = nsz > 10 && !big ? sz[i % nsz] : sz[choose(c, nsz)];
        std::string d = blob(i + 1, n);
        uint32_t nd = choose(c, 6);      // near-duplicate of an earlier class of the same size
        if (nd && i) for (size_t j = i; j-- > 0;) if (cls[j].size() == n && n > 0) {
            d = cls[j];
            size_t pos = nd == 1 ? 0 : nd == 2 ? n - 1 : nd == 3 ? n / 2 : nd == 4 ? std::min<size_t>(n - 1, 65536) : std::min<size_t>(n - 1, 4096);
            d[pos] = (char) (d[pos] ^ (1 << (i & 7)));
            if (std::find(cls.begin(), cls.end(), d) != cls.end()) d = blob(100 + i, n);
            break;
        }
        cls.push_back(d);
    }
    R.ncls = ncls;
    // directories
    std::vector<Dir> dirs = { { "/sim/t", 0 } };
    fs_mkdirs("/sim/t");
    tree["/sim/t"].type = 1;
    size_t nd = choose(c, rules ? 9 : 6);
    uint32_t deep = 0;
    if (big) { nd += choose(c, prop == "F07" ? 60 : 20); deep = choose(c, 3) ? 0 : 26; }
    bool longdirs = false;
    if (deep && choose(cr, 2)) { nd += 30 + choose(cr, 60); deep = 26 + choose(cr, 60); longdirs = choose(cr, 2); probe("very-deep-tree"); }
    static const char *dn[] = { "a", "b", "sub dir", "c.d", "e\xc3\xa9" };
    static const char *special_dirs[] = { ".hid", "build", "node_modules", ".git", "vendor", "target", "Skip" };
    for (size_t i = 0; i < nd; i++) {
        Dir p = dirs[deep && choose(c, 4) ? dirs.size() - 1 : choose(c, dirs.size())];
        if (p.depth >= (int) (deep ? deep : 4)) continue;
        std::string nm = dn[i % 5] + fmt("%zu", i);
        if (R.argmode < 5 && choose(c, rules ? 5 : 12) == (rules ? 4u : 11u)) nm = special_dirs[choose(c, 7)];
        if (longdirs) { size_t room = 1500 - std::min<size_t>(1500, p.v.size() + nm.size()); if (room > 130) nm += std::string(100, 'd'); }
        std::string v = p.v + "/" + nm;
        if (tree.count(v) || v.size() > 1600) continue;
        fs_mkdirs(v); tree[v].type = 1; dirs.push_back({ v, p.depth + 1 });
    }
    if (perms) for (size_t i = 1; i < dirs.size(); i++) give(dirs[i].v, true);
    auto add_file = [&](const std::string &v, const std::string &d, int64_t mtime) {
        File *f = new File; f->vpath = v; f->data = d; f->mtime = mtime;
        fs_write_file(v, d, mtime);
        by_path[v] = f; tree[v].f = f;
        give(v, false);
        return f;
    };
    // ignore files
    if (R.argmode < 5) {
        static const char *lines[] = { "*.ign", "*.log", "!keep.log", "**/*.tmp", "/top.txt", "/a0/", "b1/", "x?.log", "[xy]*.tmp", "!*.txt", "f1*", "\\#hash", "\\!bang", "a+b(1).txt", "!f12", "/*/top.txt", "[!a-m]*.ign", "sub dir2/", "/b1/**", "Skip/", "a0/top.txt", "b1/x1.log", "*/f1*", "b1/**/k.ign", "*.ign  ", "b1/ ", "x\\ 7.txt", "!b1/", "a0/b1/", "**/b1/", "\\f1*", "[e\\-g]1*", "[\\wx]1.log", "\\x1.lo\\g" };
        size_t ng = choose(c, rules ? 2 : 5) == (rules ? 1u : 4u) ? 1 + choose(c, rules ? 3 : 1) : 0;
        if (prop == "F07" && choose(c, 2)) ng = dirs.size();
        for (size_t i = 0; i < ng; i++) {
            std::string d = dirs[ng == dirs.size() ? i : choose(c, dirs.size())].v;
            if (tree.count(d + "/.gitignore")) continue;
            std::string text = choose(c, 2) ? "# comment\n\n" : "";
            std::vector<Rule> rs;
            const char *nl = choose(c, 5) == 4 ? "\r\n" : "\n";
            size_t k = 1 + choose(c, rules ? 5 : 2);
            if (rules && choose(c, 6) == 5) { for (std::string l : { std::string("*"), choose(c, 2) ? "!" + dirs.back().v.substr(dirs.back().v.rfind('/') + 1) + "/" : std::string("!*/"), std::string("!*.txt") }) { rs.push_back(rule(l)); text += std::string(l) + nl; } }
            if (rules && choose(c, 8) == 7) for (int q = 0; q < 90; q++) text += fmt("# %d %s%s", q, std::string(60, 'x').c_str(), nl);
            if (choose(c, rules ? 6 : 12) == 5) {        // a very long line, which names nothing a file can be called
                static const char *unit[] = { "?", "(", "?a", "\\.", "[a]" };
                std::string u = unit[choose(c, 5)], l = choose(c, 2) ? "!" : "";
                for (size_t len = 1000 + choose(c, 3000); l.size() + u.size() < len; ) l += u;
                rs.push_back(rule(l)); text += l + nl; probe("long-ignore-line");
            }
            std::vector<std::string> below;     // names of directories below this one, for rules that speak of them
            for (auto &x : dirs) if (x.v.size() > d.size() && x.v.compare(0, d.size() + 1, d + "/") == 0) below.push_back(x.v.substr(d.size() + 1));
            if (rules && choose(cr, 6) == 5) { for (size_t q = 20 + choose(cr, 80); q; q--) { std::string l = fmt(q & 1 ? "/none%zu.?" : "!none%zu/", q); rs.push_back(rule(l)); text += l + nl; } probe("many-ignore-rules"); }
            for (size_t j = 0; j < k; j++) {
                std::string l = lines[rules || choose(c, 2) ? choose(c, 34) : 0];
                if (rules && !below.empty() && choose(c, 2)) {
                    std::string rel = below[choose(c, below.size())], base = rel.substr(rel.rfind('/') + 1);
                    size_t sl = rel.rfind('/', rel.size() - base.size() > 1 ? rel.size() - base.size() - 2 : 0);
                    std::string two = sl == std::string::npos ? rel : rel.substr(sl + (rel[sl] == '/'));
                    switch (choose(c, 12)) { case 0: l = base + "/"; break; case 1: l = rel + "/"; break; case 2: l = "/" + rel; break; case 3: l = "!" + base + "/"; break; case 4: l = rel + "/**"; break; case 5: l = rel + "/*.txt"; break; case 6: l = two; break; case 7: l = "**/" + base; break; case 8: l = "*/" + base + "/"; break; case 9: l = "!" + rel + "/f*"; break; case 10: l = two + "/f*"; break; default: l = base; }
                    probe("rule-about-a-directory");
                }
                rs.push_back(rule(l)); text += l + (j + 1 == k && choose(c, 4) == 3 ? "" : nl);
            }
            R.gi[d] = rs;
            if (mode == W_CLEAN && choose(cr, 6) == 5) {         // kept elsewhere, or not an ignore file at all
                uint32_t how = choose(cr, 4);
                std::string at = fmt("/sim/rules%zu/.gitignore", i);
                if (how == 3) { R.gi.erase(d); fs_mkdirs(d + "/.gitignore"); tree[d + "/.gitignore"].type = 1; probe("ignore-file-is-a-directory"); continue; }
                make_symlink(how == 2 ? "nowhere" : real_path(at), d + "/.gitignore");
                tree[d + "/.gitignore"].type = 2; tree[d + "/.gitignore"].target = how == 2 ? d + "/nowhere" : at;
                if (how == 2) R.gi.erase(d); else add_file(at, text, 1234567890);
                probe(how == 2 ? "ignore-file-is-a-broken-link" : "ignore-file-is-a-link");
                continue;
            }
            add_file(d + "/.gitignore", text, 1234567890);
            probe("ignore-file");
        }
    }
    auto priority = [&](std::string d) {
        if (!R.json) { static const char *pre[] = { "/sim/t", "t", "t/", "/sim/t/", "./t" }; if (R.argmode < 5) { std::string b = pre[R.argmode]; if (b.back() == '/') b.pop_back(); d = b + d.substr(6); } else if (R.argmode == 6) d = d.substr(5); }
        if (R.icase && opt(2)) for (auto &ch : d) if (ch >= 'a' && ch <= 'z') ch -= 32;
        R.prio = d; arg("-p", "--priority-path", d);
    };
    bool prio_file = false;
    if (opt(3) == 2) { uint32_t how = opt(6); if (how == 5) prio_file = true; else priority(dirs[choose(c, dirs.size())].v + (how == 4 ? "/" : "")); }
    // files
    bool raw_json = R.json && (prop == "F04" || prop == "F05") && choose(c, 6) == 5;
    for (size_t i = 0; i < nf; i++) {
        Dir &d = dirs[choose(c, dirs.size())];
        std::string n = fmt("f%zu", i);
        uint32_t st = choose(c, 12);
        if (st == 7) n = fmt("x %zu.txt", i); else if (st == 8) n = fmt("\xc3\xa9t\xc3\xa9%zu", i); else if (st == 9) n = fmt("q\"%zu\\n'", i);
        else if (st == 10) { bool raw = !R.json || raw_json; n = fmt(raw ? "\xff\xc3raw%zu" : "\xf0\x9f\x98\x80%zu", i); if (raw && R.json) probe("name-json-cannot-express"); }
        else if (st == 11) n = fmt(R.json && !R.ig && !R.wl ? "new\n\nline\t\x01\x7f%zu" : "tab\t\x01\x7f%zu", i);
        uint32_t special = R.argmode < 5 ? choose(c, rules ? 30 : 40) : 0;
        static const char *sn[] = { "keep.log", "top.txt", "#hash", "!bang", "a+b(1).txt", "Thumbs.db", "x1.log", "y.tmp", "k.ign", "z.ign", "lost", "found" };
        if (special >= 11 && special < 23) n = sn[special - 11];
        else if (special >= 23) switch (special) {
            case 23: n = std::string(i % 3 ? "." : i & 1 ? ".." : "...") + n; break;
            case 24: n += i & 1 ? ".o" : "~"; break;
            case 25: n += ".ign"; break;
            case 26: n += i & 1 ? "skip" : "SKIP"; break;
            case 27: n += ".log"; break;
            case 28: n += ".tmp"; break;
            case 29: n = "F" + n + ".TXT"; break;
            default: break;
        }
        if (big && choose(c, 40) == 39) n += std::string(std::min<size_t>(150 + choose(c, 90), 250 - n.size()), 'n');
        std::string v = d.v + "/" + n;
        if (tree.count(v)) continue;
        std::string data = cls[choose(c, ncls)];
        static const int64_t odd[] = { 0, 1, 951827696, 1709210096, 2147483647LL, 2147483648LL, 4294967296LL, 4102444799LL, -2, -86400, -1234567890 };   // the epoch, leap days, more than 31 and 32 bits, before the epoch
        files.push_back(add_file(v, data, choose(c, 12) == 11 ? odd[choose(c, 11)] : 1000000000 + (int64_t) choose(c, 700000000)));
    }
    // another file system mounted somewhere below: its root may have the inode number of a directory above it
    if (choose(c, 8) == 7 && dirs.size() > 1) {
        Dir &d = dirs[1 + choose(c, dirs.size() - 1)];
        std::string a = d.v; for (uint32_t k = 1 + choose(c, d.depth); k; k--) a = a.substr(0, a.rfind('/'));
        mounts[fs_inode(d.v)] = { 0x7777, fs_inode(a) }; probe("mount-point");
    }
    if (prio_file && !files.empty()) { priority(files[choose(c, files.size())]->vpath); probe("priority-is-a-file"); }
    // different contents with the same hash
    if (!crowd && (prop == "F01" || prop == "F02" || prop == "F03") && choose(S(C_CFG, 13), 8) == 7) { weak_hash = 1 + choose(S(C_CFG, 13), 2); probe("hash-collisions"); }
    // further names of the same file
    if (mode == W_CLEAN && choose(c, 5) == 4 && !files.empty()) for (size_t i = 1 + choose(c, 3); i; i--) {
        File *f = files[choose(c, files.size())];
        std::string v = dirs[choose(c, dirs.size())].v + fmt("/hard%zu", i);
        if (tree.count(v) || syscall(SYS_link, real_path(f->vpath).c_str(), real_path(v).c_str())) continue;
        File *l = new File; l->vpath = v; l->data = f->data; l->mtime = f->mtime;
        by_path[v] = l; tree[v].f = l; files.push_back(l);
        auto ow = R.own.find(f->vpath); if (ow != R.own.end()) R.own[v] = ow->second;
        probe("hard-link");
    }
    // trouble
    std::vector<std::string> broken;
    if (mode == W_FAULTS) {
        Stream b = S(C_CFG, 3);
        size_t nb = choose(b, 4);
        if (big && !crowd && choose(b, 2)) nb = choose(b, files.size());
        bool epidemic = choose(b, 6) == 5 && !files.empty() && !crowd;      // most files share one trouble
        int common = 0;
        if (epidemic) { nb = 3 * files.size(); common = 1 + (int) choose(b, B_NKINDS - 1); }
        for (size_t i = 0; i < nb && !files.empty(); i++) {
            File *f = files[choose(b, files.size())];
            f->kind = 1 + choose(b, B_NKINDS - 1); f->k = choose(b, 3) ? 1 : 1 + (int) choose(b, 4); f->err = errs[choose(b, 8)];
            if (common) f->kind = common;
            f->until = choose(b, 3) == 2 ? f->k + (int) choose(b, 2) : 1 << 30;
            if (f->data.empty() && f->kind >= B_VANISH && f->kind <= B_REPLACE) f->kind = 0;    // nothing of an empty file is ever read
            if (prop == "F06" && f->kind >= B_VANISH && f->kind <= B_REPLACE) f->kind = B_READ;
        }
        if (prop == "F03" && choose(S(C_CFG, 11), 60) == 59 && !files.empty()) {         // another process cuts a file short while it is mapped (a log being rotated)
            File *f = files[choose(S(C_CFG, 11), files.size())];
            if (f->data.size() > 1) { uint32_t to = choose(S(C_CFG, 11), 3); cuts[f] = to == 0 ? 0 : to == 1 ? (int64_t) f->data.size() / 2 : (int64_t) f->data.size() - 1; f->bad = true; }
        }
        // the same within the last page, where no signal tells: files of one size lose their ends and show zeros there
        if (prop == "F01" && choose(S(C_CFG, 11), 25) == 24 && !files.empty()) {
            File *f = files[choose(S(C_CFG, 11), files.size())];
            size_t n = f->data.size(), page = n ? (n - 1) / 4096 * 4096 : 0;
            if (n > page + 1) { int64_t to = (int64_t) (page + 1 + choose(S(C_CFG, 11), n - page - 1)); uint32_t all = choose(S(C_CFG, 11), 2); for (auto x : files) if (x == f || (x->data.size() == n && (all || x->data == f->data))) { cuts[x] = to; x->bad = true; x->kind = 0; } }
        }
        if (choose(b, 4) == 3) { Dir &d = dirs[choose(b, dirs.size())]; if (d.depth) { int w = (int) choose(b, 3); bad_dirs[d.v] = { w, w == 1 ? (int) choose(b, 4) : errs[choose(b, 3)] }; } }
        static const double pr[] = { 0, 0, 0.003, 0.02, 0.1 };
        p_rand = pr[choose(b, crowd ? 4 : 5)];
        if (prop == "F01" || prop == "F06" || prop == "F07") { if (choose(b, 6) == 5) fault_p[F_ALLOC] = choose(b, 2) ? 0.05 : 0.5; }    // the workers run out of memory
        if (choose(b, 3) == 2 && prop != "F07") fd_limit = 10 + 2 * 16 + (deep ? 4 + deep : 0);
        if (choose(b, 8) == 7) broken.push_back("missing");
        static const double si[] = { 0, 0.05, 0.4 };
        p_short_io = si[choose(b, 3)];
    } else { if (prop == "F04" && choose(S(C_CFG, 3), 10) == 9) broken.push_back("missing"); static const double si[] = { 0, 0, 0.05, 0.4 }; p_short_io = si[choose(S(C_CFG, 3), 4)]; }
    // files of more than 4 GiB, each the only one of its size: never a duplicate of anything, and never read
    if (mode == W_CLEAN && prop != "F04" && !R.follow && choose(c, 8) == 7) {
        size_t nh = 1 + choose(c, 2);
        for (size_t i = 0; i < nh; i++) {
            std::string v = dirs[choose(c, dirs.size())].v + fmt("/huge%zu", i);
            if (tree.count(v)) continue;
            int64_t n = ((int64_t) (1 + i) << (choose(c, 2) ? 32 : 31)) + (int64_t) sz[choose(c, nsz)] + (i ? 1 << 20 : 0);
            fs_write_file(v, "", 1234567890);
            if (syscall(SYS_truncate, real_path(v).c_str(), n)) continue;
            give(v, false); tree[v].type = 3; probe("file-over-2GiB");
        }
    }
    // special nodes and links
    if (choose(c, 6) == 5) { std::string v = dirs[choose(c, dirs.size())].v + "/pipe"; syscall(SYS_mknod, real_path(v).c_str(), S_IFIFO | 0644, 0); tree[v].type = 3; }
    size_t nl = choose(c, 4) == 3 ? 1 + choose(c, 3) : 0;
    for (size_t i = 0; i < nl; i++) {
        Dir &d = dirs[choose(c, dirs.size())];
        std::string v = d.v + fmt("/ln%zu", i);
        std::string up; for (int k = 0; k < d.depth; k++) up += "../";
        uint32_t kind = choose(c, 5);
        std::string t;
        if (kind < 2 && !files.empty()) t = files[choose(c, files.size())]->vpath;
        else if (kind == 2 && dirs.size() > 1) {
            t = dirs[1 + choose(c, dirs.size() - 1)].v;
            bool linked = false;        // no link inside a linked directory: the number of paths would explode
            for (auto &m : tree) if (m.second.type == 2) { if ((m.first + "/").compare(0, t.size() + 1, t + "/") == 0) linked = true; if ((d.v + "/").compare(0, m.second.target.size() + 1, m.second.target + "/") == 0) linked = true; }
            if (linked || (v + "/").compare(0, t.size() + 1, t + "/") == 0) t.clear(); else probe("link-to-directory");
        }
        else if (kind == 3) { make_symlink("nowhere", v); tree[v].type = 2; tree[v].target = d.v + "/nowhere"; probe("broken-link"); continue; }
        else if (kind == 4) { bool self = i & 1; make_symlink(self ? fmt("ln%zu", i) : up.empty() ? std::string(".") : up + ".", v); tree[v].type = 2; tree[v].target = self ? v : "/sim/t"; probe("link-cycle"); continue; }
        if (t.empty()) continue;
        make_symlink(up + t.substr(7), v); tree[v].type = 2; tree[v].target = t;
    }
    // options in any order, then the arguments and the files they lead to
    for (size_t i = 0; i + 1 < opts.size(); i++) std::swap(opts[i], opts[i + opt(opts.size() - i)]);
    R.argv = { "ftwin" };
    for (auto &x : opts) for (auto &y : x) R.argv.push_back(y);
    R.first_arg = R.argv.size();
    std::vector<std::pair<std::string, std::string>> args;     // shown prefix, absolute
    static const char *pre[] = { "/sim/t", "t", "t/", "/sim/t/", "./t" };
    if (R.argmode < 5) args.push_back({ pre[R.argmode], "/sim/t" });
    else for (auto &m : tree) {
        if (m.first.size() < 8 || m.first.find('/', 7) != std::string::npos) continue;
        std::string n = m.first.substr(7);
        if (n[0] == '.') continue;
        args.push_back({ R.argmode == 5 ? m.first : "t/" + n, m.first });
    }
    if (R.argmode >= 5) for (size_t i = 0; i + 1 < args.size(); i++) std::swap(args[i], args[i + choose(c, args.size() - i)]);
    for (auto &b : broken) args.insert(args.begin() + choose(c, args.size() + 1), { "/sim/t/" + b, "/sim/t/" + b });
    for (auto &a : args) R.argv.push_back(a.first);
    defaults.clear();
    for (auto r : default_rules) defaults.push_back(rule(r));
    for (auto &a : args) { std::string t = R.follow ? follow(a.second) : a.second; if (t.empty() || !tree.count(t) || !reachable(t)) R.bad_args = true; }
    for (auto &a : args) { Ctx top{ &defaults, R.json ? a.second : a.first, nullptr }; walk(top.base, a.second, a.second, {}, &top, false); }
    if (R.json) for (auto &e : entries) e.shown = norm(e.shown);
    for (auto &e : entries) e.shown = R.json ? e.abs : e.shown;
    if (R.json) for (auto &e : entries) if (e.shown.find('\xff') != std::string::npos && !e.optional) e.optional = e.unwritable = true;
}
static std::string cmdline() { std::string s; for (auto &a : R.argv) s += (s.empty() ? "" : " ") + a; return s; }

// ------------------------------------------------------------------ running and reading the report
static bool unwritable_names() { for (auto &f : by_path) if (f.first.find('\xff') != std::string::npos) return true; return false; }
static std::map<std::string, std::vector<Entry *>> classes(const std::function<bool(const Entry &)> &take);
struct Group { std::vector<std::string> paths; long long size = -1; std::string hash, size_text; std::vector<std::string> mtimes; std::vector<int> prio; };
static bool parse_text(const std::string &s, std::vector<Group> &g, std::string &why)
{
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find("\n\n", i);
        if (e == std::string::npos) { why = "the report ends in the middle of a group"; return false; }
        std::string b = s.substr(i, e - i);
        i = e + 2;
        Group x;
        if (R.sized) { if (b.compare(0, 6, "Size: ")) { why = "a group has no size line"; return false; } size_t n = b.find('\n'); if (n == std::string::npos) { why = "a group has no paths"; return false; } x.size_text = b.substr(6, n - 6); b = b.substr(n + 1); }
        size_t k = 0;
        for (;;) { size_t n = b.find(R.sep, k); x.paths.push_back(b.substr(k, n == std::string::npos ? n : n - k)); if (n == std::string::npos) break; k = n + 1; }
        g.push_back(x);
    }
    return true;
}
static bool parse_json(int rc, const std::string &s, std::vector<Group> &g, std::string &why)
{
    json_error_t er;
    json_t *r = json_loadb(s.data(), s.size(), JSON_REJECT_DUPLICATES, &er);
    if (!r) { why = std::string("not valid JSON: ") + er.text; return false; }
    if (!json_is_array(r)) { why = "not a JSON array"; return false; }
    for (size_t i = 0; i < json_array_size(r); i++) {
        json_t *o = json_array_get(r, i);
        Group x;
        json_t *sz = json_object_get(o, "size_bytes"), *h = json_object_get(o, "hash_xxh128"), *d = json_object_get(o, "duplicates");
        if (!json_is_integer(sz) || !json_is_string(h) || !json_is_array(d)) { why = "a group lacks its size, hash or members"; return false; }
        x.size = json_integer_value(sz); x.hash = json_string_value(h);
        for (size_t j = 0; j < json_array_size(d); j++) {
            json_t *m = json_array_get(d, j), *p = json_object_get(m, "path"), *t = json_object_get(m, "mtime_utc"), *pr = json_object_get(m, "prioritized");
            if (!p && rc != 0 && unwritable_names()) continue;
            if (!json_is_string(p) || !json_is_string(t) || !json_is_boolean(pr)) { why = "a member lacks its path, time or priority"; return false; }
            x.paths.push_back(json_string_value(p)); x.mtimes.push_back(json_string_value(t)); x.prio.push_back(json_is_true(pr));
        }
        g.push_back(x);
    }
    json_decref(r);
    return true;
}
// identical files, one of which has a name that JSON cannot express: the report cannot be complete
static bool unwritable_group()
{
    for (auto &c : classes([](const Entry &e) { return (!e.optional || e.unwritable) && !e.bad && !e.f->bad; })) if (c.second.size() > 1) for (auto e : c.second) if (e->unwritable) return true;
    return false;
}
static int64_t cut_now(const std::string &v)
{
    File *f = file_of(v);
    auto i = f ? cuts.find(f) : cuts.end();
    if (i == cuts.end()) return -1;
    syscall(SYS_truncate, real_path(f->vpath).c_str(), i->second);
    return i->second;
}
static int run_program(std::string &o, const std::function<void()> &setup)
{
    int rc = -999;
    Proc *p = spawn_proc("ftwin", [&]() {
        std::vector<const char *> av;
        for (auto &a : R.argv) av.push_back(a.c_str());
        av.push_back(nullptr);
        alloc_spare = cur_thread()->id;
        static const char *zones[] = { "UTC", "AAA-05:45", "BBB+11", "CET-1CEST" };
        setenv("TZ", zones[choose(S(C_CFG, 77), 4)], 1); tzset();
        std_begin();
        setup();
        ft_config_set_should_terminate_apr(0);
        ft_config_set_should_exit_on_error(0);
        ev("start %s", cmdline().c_str());
        if (!cuts.empty()) cut_after_map = cut_now;
        rc = ftwin_main((int) av.size() - 1, av.data());
        std_end();
        ev("end %d, %zu bytes of output, hash %llx", rc, out.data.size(), (unsigned long long) fnv(out.data.data(), out.data.size()));
    });
    wait_proc(p);
    path_fault = nullptr; io_obs = nullptr; cut_after_map = nullptr; fd_limit = 0; p_rand = 0; p_short_io = 0; fault_p[F_ALLOC] = 0; alloc_spare = 0;
    o = out.data;
    return rc;
}
static std::string head(const std::string &s) { std::string r; for (char ch : s.substr(0, 160)) r += ch == '\n' ? ' ' : ch; return r; }
static Entry *entry_of(const std::string &shown) { for (auto &e : entries) if (e.shown == shown) return &e; return nullptr; }
static void sched_cfg()
{
    Stream c = S(C_CFG, 1);
    static const double pm[] = { 0, 200, 20, 5, 2000 };
    cfg.preempt_mean = pm[choose(c, 5)];
    static const double hp[] = { 0.3, 0, 0.1, 0.7 };
    set_hook_p(hp[choose(c, 4)]);
    static const double sp[] = { 0, 0, 0.05, 0.3 };
    cfg.spurious = sp[choose(c, 4)];
    if (R.threads > 40) { cfg.spurious = 0; if (cfg.preempt_mean > 0) cfg.preempt_mean = std::max(cfg.preempt_mean, 2000.0); }
    cfg.switch_cap = 2000000;
    cfg.point_cap = 200000000;
    rearm();
}
static std::string utc(int64_t t) { struct tm tm; time_t x = t; gmtime_r(&x, &tm); return fmt("%04d-%02d-%02dT%02d:%02d:%02dZ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec); }
static std::vector<Group> parsed(int rc, const std::string &o)
{
    std::vector<Group> g; std::string why;
    if (rc != 0 && o.empty()) return g;      // no report at all, and it said so
    bool ok = R.json ? parse_json(rc, o, g, why) : parse_text(o, g, why);
    if (!ok) violate("%s: the report (status %d) is malformed, %s: \"%s\"", cmdline().c_str(), rc, why.c_str(), head(o).c_str());
    return g;
}
// expected classes over a subset of the entries
static std::map<std::string, std::vector<Entry *>> classes(const std::function<bool(const Entry &)> &take)
{
    std::map<std::string, std::vector<Entry *>> m;
    for (auto &e : entries) if (take(e)) m[e.f->data].push_back(&e);
    return m;
}
static std::string list(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ", ") + x; return "{" + s + "}"; }

// the set of groups is exactly the partition of the eligible files
static void check_exact(int rc, const std::string &o)
{
    std::vector<Group> g = parsed(rc, o);
    std::set<std::set<std::string>> want, got;
    std::set<std::string> opt;
    for (auto &e : entries) if (e.optional) opt.insert(e.shown);
    for (auto &c : classes([](const Entry &e) { return !e.optional; })) if (c.second.size() > 1) { std::set<std::string> s; for (auto e : c.second) s.insert(e->shown); want.insert(s); }
    for (auto &x : g) {
        std::set<std::string> s;
        for (auto &p : x.paths) { if (opt.count(p)) continue; if (!s.insert(p).second) violate("%s: %s is listed twice in one group", cmdline().c_str(), p.c_str()); }
        if (s.size() < 2 && s.size() < x.paths.size()) continue;       // a group formed by an optional member
        if (!got.insert(s).second) violate("%s: a group is reported twice: %s", cmdline().c_str(), list(x.paths).c_str());
    }
    for (auto &w : want) if (!got.count(w)) violate("%s: the identical files %s are not reported as one group; report: \"%s\"", cmdline().c_str(), list({ w.begin(), w.end() }).c_str(), head(o).c_str());
    for (auto &w : got) if (!want.count(w)) violate("%s: the group %s is reported, which is not a set of all identical files", cmdline().c_str(), list({ w.begin(), w.end() }).c_str());
    // files below the priority path come first
    if (!R.prio.empty()) for (auto &x : g) { bool other = false; for (auto &p : x.paths) { bool pr = is_prio(p); if (!pr) other = true; else if (other) violate("%s: %s lies below the priority path but is listed after other files", cmdline().c_str(), p.c_str()); } }
}
static void known_paths(const std::vector<Group> &g)
{
    for (auto &x : g) for (auto &p : x.paths) if (!entry_of(p)) {
        File *f = file_of(p);
        if (f) { Entry e; e.shown = p; e.abs = norm(p); e.f = f; e.optional = true; entries.push_back(e); continue; }
        violate("%s: reports %s, which is not a file of the tree", cmdline().c_str(), p.c_str());
    }
}
static void check_healthy(int rc, const std::string &o)
{
    std::vector<Group> g = parsed(rc, o);
    known_paths(g);
    std::map<std::string, int> where;
    for (size_t i = 0; i < g.size(); i++) for (auto &p : g[i].paths) { Entry *e = entry_of(p); if (where.count(p)) { if (!e->bad && !e->f->bad) violate("%s: %s is reported twice", cmdline().c_str(), p.c_str()); } where[p] = (int) i; }
    for (auto &c : classes([](const Entry &e) { return !e.optional && !e.bad && !e.f->bad; })) {
        if (c.second.size() < 2) continue;
        std::vector<std::string> names; for (auto e : c.second) names.push_back(e->shown);
        int in = -1;
        for (auto e : c.second) {
            auto w = where.find(e->shown);
            if (w == where.end()) violate("%s (status %d): healthy identical files %s are not reported together: %s is missing; report \"%s\"", cmdline().c_str(), rc, list(names).c_str(), e->shown.c_str(), head(o).c_str());
            if (in < 0) in = w->second; else if (in != w->second) violate("%s (status %d): healthy identical files %s are split over several groups; report \"%s\"", cmdline().c_str(), rc, list(names).c_str(), head(o).c_str());
        }
    }
}
static void check_truthful(const std::vector<Group> &g)
{
    for (auto &x : g) {
        if (x.paths.size() < 2) violate("%s: a group of %zu file is reported", cmdline().c_str(), x.paths.size());
        std::set<std::string> common; bool first = true;
        for (auto &p : x.paths) {
            Entry *e = entry_of(p);
            std::set<std::string> s = e->f->seen;
            if (e->f->data.empty() && !e->f->done) s.insert("");
            if (s.empty()) violate("%s: %s is reported as a duplicate although it was never read completely (trouble: %s)", cmdline().c_str(), p.c_str(), kind_name[e->f->kind]);
            if (first) { common = s; first = false; } else { std::set<std::string> r; std::set_intersection(common.begin(), common.end(), s.begin(), s.end(), std::inserter(r, r.begin())); common = r; }
            if (common.empty()) violate("%s: %s are reported as duplicates, but %s (trouble: %s) never had the contents of the others", cmdline().c_str(), list(x.paths).c_str(), p.c_str(), kind_name[e->f->kind]);
        }
    }
}
static void check_json_facts(const std::vector<Group> &g)
{
    for (auto &x : g) {
        for (size_t i = 0; i < x.paths.size(); i++) {
            Entry *e = entry_of(x.paths[i]);
            if (x.paths[i][0] != '/') violate("%s: path %s is not absolute", cmdline().c_str(), x.paths[i].c_str());
            if (norm(x.paths[i]) != x.paths[i]) violate("%s: path %s is not a clean absolute path", cmdline().c_str(), x.paths[i].c_str());
            bool pr = is_prio(x.paths[i]);
            if (x.prio[i] != (int) pr) violate("%s: %s has the wrong priority mark", cmdline().c_str(), x.paths[i].c_str());
            if (e->f->done) continue;      // it changed; failures alone do not excuse wrong facts
            if (x.mtimes[i] != utc(e->f->mtime)) violate("%s: %s has modification time %s in the report but %s in fact", cmdline().c_str(), x.paths[i].c_str(), x.mtimes[i].c_str(), utc(e->f->mtime).c_str());
            if (x.size != (long long) e->f->data.size()) violate("%s: %s has %zu bytes, the report says %lld", cmdline().c_str(), x.paths[i].c_str(), e->f->data.size(), x.size);
            XXH128_hash_t h = XXH3_128bits(e->f->data.data(), e->f->data.size());
            if (x.hash != fmt("%016llx%016llx", (unsigned long long) h.high64, (unsigned long long) h.low64)) violate("%s: the hash %s reported for %s is not that of its contents", cmdline().c_str(), x.hash.c_str(), x.paths[i].c_str());
        }
    }
}
static bool any_group(const std::function<bool(const Entry &)> &t) { for (auto &c : classes(t)) if (c.second.size() > 1) return true; return false; }
static size_t eligible() { size_t n = 0; for (auto &e : entries) if (!e.optional) n++; return n; }

static void drop_gi_optional() { if (gi_faulted) for (auto &p : gi_optional) { if (Entry *old = entry_of(p)) { old->optional = true; old->unwritable = false; continue; } File *f = file_of(p); if (f) { Entry e; e.shown = p; e.abs = norm(p); e.f = f; e.optional = true; entries.push_back(e); } } }

static void exact_world(const std::string &prop)
{
    build(W_CLEAN, prop);
    sched_cfg();
    io_obs = observe;
    if (sim_uid) path_fault = plan_denied;
    std::string o;
    // a command line with something in it that cannot be understood
    Stream u = S(C_CFG, 12);
    if (prop == "F09" && choose(u, 40) == 39) {
        static const std::vector<std::string> bad[] = { { "-Z" }, { "--bogus" }, { "--no-such-option=1" }, { "-j", "0" }, { "-j", "257" }, { "-j", "-1" }, { "-j", "4x" }, { "-j", "" }, { "-m", "x" }, { "-m", "-1" }, { "-m", "" },
            { "-M", "5Q" }, { "-M", "-4K" }, { "-x", "?" }, { "-x", "-1" }, { "-e", "(" }, { "-w", "[" }, { "-T", "9" }, { "-T", "" } };
        auto &b = bad[choose(u, 19)];
        R.argv.insert(R.argv.begin() + R.first_arg, b.begin(), b.end());
        bool lone = choose(u, 10) == 9;
        if (lone) { R.argv = { "ftwin" }; static const char *need[] = { "-m", "-M", "-x", "-j", "-e", "-w", "-i", "-p", "-s", "-T" }; if (choose(u, 3)) { R.argv.push_back("-r"); if (choose(u, 2)) R.argv.push_back(need[choose(u, 10)]); } }
        int rc = run_program(o, []() {});
        probe(lone ? "nothing-to-do" : "bad-option"); nontrivial();
        g_sample = fmt("%s status=%d", cmdline().c_str(), rc);
        if (rc == 0) violate("%s: the command line cannot be understood, but the program ended with success", cmdline().c_str());
        for (auto &e : entries) if (o.find(e.shown) != std::string::npos) violate("%s: the command line cannot be understood, but %s was reported", cmdline().c_str(), e.shown.c_str());
        return;
    }
    int rc = run_program(o, []() {});
    size_t n = eligible();
    if (n == 0) { if (!o.empty() && rc == 0) check_exact(rc, o); g_sample = cmdline() + " (no eligible file)"; return; }
    if (rc != 0 && !R.bad_args) violate("%s: ended with status %d without any fault; stderr: \"%s\"", cmdline().c_str(), rc, head(err_out.data).c_str());
    check_exact(rc, o);
    if (any_group([](const Entry &e) { return !e.optional; })) nontrivial();
    g_sample = fmt("%s files=%zu classes=%zu output=%zu bytes", cmdline().c_str(), entries.size(), R.ncls, o.size());
}
static void fault_world(const std::string &prop)
{
    build(W_FAULTS, prop);
    sched_cfg();
    path_fault = plan; io_obs = observe;
    std::string o;
    int rc = run_program(o, []() {});
    drop_gi_optional();
    size_t healthy = 0, troubled = 0;
    for (auto &e : entries) if (!e.optional) { if (!e.bad && !e.f->bad) healthy++; else troubled++; }
    std::string tr; for (auto f : files) if (f->kind) tr += fmt(" %s@%d", kind_name[f->kind], f->k);
    g_sample = fmt("%s files=%zu healthy=%zu troubled=%zu%s status=%d", cmdline().c_str(), entries.size(), healthy, troubled, tr.c_str(), rc);
    if (troubled) probe("troubled-files", troubled);
    if (healthy == 0) { if (o.empty()) return; }
    if (prop == "F03") { check_healthy(rc, o); if (troubled && any_group([](const Entry &e) { return !e.optional && !e.bad && !e.f->bad; })) nontrivial(); return; }
    std::vector<Group> g = parsed(rc, o);
    known_paths(g);
    if (prop == "F01") { check_truthful(g); if (!g.empty()) nontrivial(); }
    else {
        if (rc == 0 && unwritable_group()) violate("%s: success although the report has to name a file whose name JSON cannot express", cmdline().c_str());
        check_healthy(rc, o); check_json_facts(g); if (!g.empty()) nontrivial();
    }
}
// nothing that was scanned is touched, and nothing is left behind
static void readonly_world()
{
    build(W_FAULTS, "F06");
    sched_cfg();
    path_fault = plan; io_obs = observe;
    Stream c = S(C_CFG, 4);
    uint32_t how = choose(c, 4), at = choose(c, 400);
    auto before = fs_snapshot("/sim"), tmp = fs_snapshot("/tmp");
    std::string o;
    int rc = run_program(o, [&]() { if (how == 3) { out.fail_at = at; out.fail_errno = ENOSPC; } });
    auto same = [&](std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
        for (auto &x : b) { auto i = a.find(x.first); if (i == a.end()) violate("%s (status %d): %s was created", cmdline().c_str(), rc, x.first.c_str()); if (i->second != x.second) violate("%s (status %d): %s was changed: %s, now %s", cmdline().c_str(), rc, x.first.c_str(), i->second.c_str(), x.second.c_str()); }
        for (auto &x : a) if (!b.count(x.first)) violate("%s (status %d): %s was removed", cmdline().c_str(), rc, x.first.c_str());
    };
    same(before, fs_snapshot("/sim")); same(tmp, fs_snapshot("/tmp"));
    if (!entries.empty()) nontrivial();
    g_sample = fmt("%s files=%zu status=%d, %zu nodes unchanged", cmdline().c_str(), entries.size(), rc, before.size());
}
// descriptors and mappings in use do not grow with the number of files, and all are given back
static void bounded_world()
{
    build(W_FAULTS, "F07");
    sched_cfg();
    path_fault = plan; io_obs = observe;
    max_open = max_mapped = 0; max_threads = 0;
    std::string o;
    int fd0 = open_fds(), m0 = live_maps;
    int rc = run_program(o, []() {});
    g_sample = fmt("%s files=%zu depth=%zu threads=%d status=%d open<=%d mapped<=%d left=%d/%d", cmdline().c_str(), entries.size(), R.depth, R.threads, rc, max_open, max_mapped, open_fds() - fd0, live_maps - m0);
    int levels = (int) R.depth;
    for (auto &m : tree) if (m.second.type == 1) levels = std::max(levels, (int) std::count(m.first.begin(), m.first.end(), '/') - 1);
    if (gi_faulted) levels *= 2;
    int limit = levels + 2 * R.threads + 8, mlimit = 2 * R.threads + 8;
    if (max_open > limit) violate("%s: %d files and directories were open at once, with %d directory levels and %d threads (%zu files)", cmdline().c_str(), max_open, levels, R.threads, entries.size());
    if (R.asked && max_threads > 1 + R.threads) violate("%s: %d threads worked at once besides the main one, %d were asked for", cmdline().c_str(), max_threads - 1, R.threads);
    if (max_threads > 1 && R.asked) probe("asked-for-threads");
    if (max_mapped > mlimit) violate("%s: %d files were mapped at once, with %d threads (%zu files)", cmdline().c_str(), max_mapped, R.threads, entries.size());
    if (!entries.empty()) nontrivial();
}
// a tie may be rounded up or to even: apr_psprintf and printf differ
static std::string human(long long n, double up = 0)
{
    static const char *u[] = { "B", "KiB", "MiB", "GiB" };
    if (n < 1024) return fmt("%lld B", n);
    double d = (double) n; int k = 0;
    while (d >= 1024 && k < 3) { d /= 1024; k++; }
    return fmt("%.1f %s", d + up, u[k]);
}
static bool human_ok(const std::string &t, long long n) { return t == human(n) || t == human(n, 1e-9) || t == human(n, -1e-9); }
// largest groups first, each with its true size when asked for, colours on a terminal and nowhere else
static void format_world()
{
    build(W_CLEAN, "F08");
    sched_cfg();
    io_obs = observe;
    if (sim_uid) path_fault = plan_denied;
    Stream c = S(C_CFG, 4);
    bool shorts = choose(c, 3) == 2;
    sim_tty = R.tty | (choose(c, 2) ? 2 : 0);
    std::string o;
    int rc = run_program(o, [&]() { out.shorts = shorts; });
    sim_tty = 0;
    g_sample = fmt("%s files=%zu classes=%zu terminal=%d output=%zu bytes", cmdline().c_str(), entries.size(), R.ncls, (int) R.tty, o.size());
    if (eligible() == 0) return;
    if (rc != 0 && !R.bad_args) violate("%s: ended with status %d without any fault", cmdline().c_str(), rc);
    if (!R.tty || R.json) { if (o.find('\x1b') != std::string::npos) violate("%s: the output is %s but contains escape codes", cmdline().c_str(), R.json ? "JSON" : "not a terminal"); }
    else {
        std::string p; size_t n = 0; bool on = false;
        for (size_t i = 0; i < o.size(); i++) {
            if (o[i] != '\x1b') { if (!on && o[i] != '\n' && o[i] != R.sep) violate("%s: on a terminal, \"%s\" is not coloured", cmdline().c_str(), head(o.substr(i, 40)).c_str()); p += o[i]; continue; }
            size_t e = o.find('m', i);
            if (e == std::string::npos) violate("%s: an escape code is cut off", cmdline().c_str());
            on = o.substr(i, e - i + 1) != "\x1b[0m"; n++;
            i = e;
        }
        if (on) violate("%s: the terminal is left coloured", cmdline().c_str());
        if (!p.empty() && !n) violate("%s: no colours on a terminal", cmdline().c_str());
        o = p; probe("coloured-report");
    }
    check_exact(rc, o);
    std::vector<Group> g = parsed(rc, o);
    long long last = -1;
    for (auto &x : g) {
        Entry *e = entry_of(x.paths[0]);
        long long n = (long long) e->f->data.size();
        if (last >= 0 && n > last) violate("%s: a group of %lld bytes is listed after one of %lld bytes", cmdline().c_str(), n, last);
        last = n;
        if (R.json && x.size != n) violate("%s: %s has %lld bytes, the report says %lld", cmdline().c_str(), x.paths[0].c_str(), n, x.size);
        if (R.sized && !R.json && !human_ok(x.size_text, n)) violate("%s: the group of %s has %lld bytes, but its size is given as \"%s\"", cmdline().c_str(), x.paths[0].c_str(), n, x.size_text.c_str());
    }
    if (g.size() > 1 || R.tty) nontrivial();
    if (g.size() > 1) probe("several-groups");
}
// files that cannot have a twin are not opened, the others no more often than needed, and large ones are never mapped
static void frugal_world()
{
    build(W_CLEAN, "F10");
    sched_cfg();
    io_obs = observe;
    if (sim_uid) path_fault = plan_denied;
    std::string o;
    int rc = run_program(o, []() {});
    g_sample = fmt("%s files=%zu status=%d", cmdline().c_str(), entries.size(), rc);
    std::map<size_t, int> of_size;
    std::map<File *, int> times;
    for (auto &e : entries) { of_size[e.f->data.size()]++; times[e.f]++; }
    auto same = classes([](const Entry &) { return true; });
    int64_t lone = 0, twins = 0;
    for (auto &b : by_path) {
        File *f = b.second;
        if (ends(f->vpath, "/.gitignore")) continue;
        int64_t n = (int64_t) f->data.size();
        if (R.excess >= 0 && f->mapped && n >= R.excess) violate("%s: %s of %lld bytes was mapped into memory, the limit is %lld bytes", cmdline().c_str(), f->vpath.c_str(), (long long) n, (long long) R.excess);
        if (!times.count(f)) { if (f->opened) violate("%s: %s is not selected but was opened", cmdline().c_str(), f->vpath.c_str()); continue; }
        if (of_size[f->data.size()] < 2) { lone++; if (f->opened) violate("%s: %s is the only file of %lld bytes but was opened", cmdline().c_str(), f->vpath.c_str(), (long long) n); continue; }
        int64_t max = times[f] * (int64_t) same[f->data].size();
        twins++;
        if (f->opened > max) violate("%s: %s, of which there are %zu identical files, was opened %lld times", cmdline().c_str(), f->vpath.c_str(), same[f->data].size(), (long long) f->opened);
        if (f->delivered > max * n) violate("%s: %lld bytes of %s were read, which has %lld bytes and %zu identical files", cmdline().c_str(), (long long) f->delivered, f->vpath.c_str(), (long long) n, same[f->data].size());
    }
    for (auto &v : odd_opens) { auto i = tree.find(v); if (i != tree.end() && i->second.type == 3) violate("%s: %s was opened, which %s", cmdline().c_str(), v.c_str(), contains(v, "huge") ? "is the only file of its size" : "is not a regular file"); }
    if (lone && twins) nontrivial();
    probe("lone-files", lone); probe("possible-twins", twins);
}
static void stdout_world()
{
    build(W_CLEAN, "F04");
    sched_cfg();
    Stream c = S(C_CFG, 4);
    uint32_t how = choose(c, 6);     // 0 nothing, 1 short writes, 2.. failure from some byte on, 5 a single failure
    uint32_t at = choose(c, 4) ? choose(c, 600) : choose(c, 9000);
    static const int er[] = { ENOSPC, EIO, EPIPE, EBADF, EDQUOT };
    int en = er[choose(c, 5)];
    bool thr = choose(c, 8) == 7;
    uint32_t buf = choose(c, 4), tail = choose(c, 5) == 4 ? 1 + choose(c, 3) : 0;
    std::string o;
    int rc = run_program(o, [&]() {
        if (buf >= 2) { setvbuf(stdout, nullptr, buf == 2 ? _IOLBF : _IONBF, 0); probe(buf == 2 ? "line-buffered" : "unbuffered"); }
        if (tail) { how = 5; out.fail_errno = en; out.fail_tail = R.json ? "]\n" : "\n"; out.tail_skip = (int) tail - 1; if (!R.json || tail == 1) out.tail_skip = 0; }
        if (how == 1) out.shorts = true;
        if (how >= 2 && !tail) { out.fail_at = at; out.fail_errno = en; out.transient = how == 5; if (how == 4) out.shorts = true; }
        if (thr) fault_p[F_THREAD] = 0.2;
        if (sim_uid) path_fault = plan_denied;
    });
    fault_p[F_THREAD] = 0;
    bool failed = out.failed;
    if (eligible() == 0) { g_sample = cmdline() + " (no eligible file)"; return; }
    if (rc == 0 && R.bad_args) violate("%s: success although an argument could not be examined", cmdline().c_str());
    if (rc == 0 && unwritable_group()) violate("%s: success although the report has to name a file whose name JSON cannot express", cmdline().c_str());
    if (rc == 0) check_exact(rc, o);      // success: everything must have been written
    else if (!failed && !thr && !R.bad_args && !unwritable_group()) violate("%s: ended with status %d although nothing failed; stderr: \"%s\"", cmdline().c_str(), rc, head(err_out.data).c_str());
    if (failed) { probe("output-failed"); nontrivial(); }
    if (how == 1) { probe("short-writes"); if (!o.empty()) nontrivial(); }
    g_sample = fmt("%s output=%zu bytes fault=%u at %u %s%s status=%d", cmdline().c_str(), o.size(), how, at, how >= 2 ? strerrorname_np(en) : "-", thr ? " thread-creation faults" : "", rc);
}

// Files of several GiB with equal sizes: contents are zeros with single other bytes, made up by the file seam, so that they
// are really read, hashed and compared by the program.
struct Giant { std::string v; int cls = 0; std::map<int64_t, char> patch; int64_t upto = 0, mapped = 0, eof = -1; bool complete = false; };
static void giant_world(const std::string &prop)
{
    Stream c = S(C_CFG, 20);
    static const int64_t ns[] = { (1LL << 32) + 7, (1LL << 31) + 5, 1LL << 32, (1LL << 31) - 1, (1LL << 32) + 65536 * 3 };
    int64_t n = ns[choose(c, 5)];
    int nf = 2 + (choose(c, 3) == 2), threads = 1 + (int) choose(c, 3);
    bool mapped = choose(c, 2);
    R.json = prop == "F05" || (prop != "F08" && choose(c, 3) == 2);
    R.sized = !R.json && (prop == "F08" || choose(c, 4) == 3);
    fs_mkdirs("/sim/t");
    const int64_t at[] = { n - 1, n / 2, 0, 1LL << 31, (1LL << 32) - 1, 1LL << 32, (1LL << 32) + 3, 65536 };
    std::vector<Giant> g(nf);
    int64_t pos[2];
    for (auto &p : pos) { p = at[choose(c, 8)]; if (p >= n) p = n - 1; }
    for (int i = 0; i < nf; i++) {
        g[i].v = fmt("/sim/t/g%d", i); g[i].cls = choose(c, 2) ? (int) choose(c, 2) + 1 : 0;
        if (g[i].cls) g[i].patch[pos[g[i].cls - 1]] = (char) (g[i].cls == 1 ? 1 : pos[0] == pos[1] ? 1 : 2);
        if (g[i].cls == 2 && pos[0] == pos[1]) g[i].cls = 1;
        fs_write_file(g[i].v, "", 1234567890);
        if (syscall(SYS_truncate, real_path(g[i].v).c_str(), n)) { g_sample = "no room for a large sparse file"; return; }
        giants[g[i].v] = g[i].patch;
        if (prop == "F01" && choose(c, 3) == 2) g[i].eof = std::min<int64_t>(n - 1, at[choose(c, 8)] / 65536 * 65536);
    }
    // a pair of small files whose size is that of the large ones modulo 2^32
    std::vector<std::string> lows = { "/sim/t/s0", "/sim/t/s1" };
    int64_t low = n & 0xffffffffLL;
    if (low > 1 << 20 || low == 0) low = 4099;
    for (auto &l : lows) fs_write_file(l, std::string(low, 0), 1234567890);
    R.argv = { "ftwin", "-j", fmt("%d", threads), "-x", mapped ? "8G" : choose(c, 2) ? "1M" : "2147483647" };
    if (R.json) R.argv.push_back("-J");
    if (R.sized) R.argv.push_back("-d");
    R.argv.push_back("/sim/t");
    R.excess = mapped ? 8LL << 30 : R.argv[4] == "1M" ? 1 << 20 : 2147483647LL;
    cfg.preempt_mean = 0; set_hook_p(0.1); cfg.switch_cap = 20000000; cfg.point_cap = 2000000000; rearm();
    std::map<int, std::pair<Giant *, int64_t>> fdpos;
    io_obs = [&](Obs k, const std::string &v, int fd, int64_t off, int64_t len) {
        if (k == OBS_OPEN) { fdpos.erase(fd); for (auto &x : g) if (x.v == v) fdpos[fd] = { &x, 0 }; return; }
        auto i = fdpos.find(fd);
        if (i == fdpos.end()) return;
        if (k == OBS_CLOSE) { fdpos.erase(i); return; }
        if (off <= i->second.second) i->second.second = std::max(i->second.second, off + len);
        if (k == OBS_MMAP) i->second.first->mapped = std::max(i->second.first->mapped, len);
        if (i->second.second >= n) i->second.first->complete = true;
    };
    path_fault = [&](Site s, const std::string &v, int64_t off) -> int {
        for (auto &x : g) if (x.v == v && x.eof >= 0) { if (s == F_MMAP) return ENOMEM; if (s == F_READ && off >= x.eof) return PF_SHORT_EOF; }
        return 0;
    };
    std::string o;
    int rc = run_program(o, []() {});
    std::string what; for (auto &x : g) what += fmt(" %s:%s", x.v.c_str() + 7, x.patch.empty() ? "zeros" : fmt("byte %lld=%d", (long long) x.patch.begin()->first, x.patch.begin()->second).c_str()) + (x.eof >= 0 ? fmt(" ends early at %lld", (long long) x.eof) : "");
    g_sample = fmt("%s files of %lld bytes:%s status=%d", cmdline().c_str(), (long long) n, what.c_str(), rc);
    nontrivial(); probe("giant-files");
    std::vector<Group> got = parsed(rc, o);
    auto of = [&](const std::string &p) -> Giant * { for (auto &x : g) if (x.v == p) return &x; return nullptr; };
    std::set<std::set<std::string>> have, want;
    long long last = -1;
    for (auto &x : got) {
        std::set<std::string> s(x.paths.begin(), x.paths.end());
        have.insert(s);
        Giant *first = of(x.paths[0]);
        for (auto &p : x.paths) {
            Giant *q = of(p);
            if ((!q) != (!first) || (q && q->cls != first->cls)) violate("%s: %s are reported as duplicates but differ (%lld bytes each:%s)", cmdline().c_str(), list(x.paths).c_str(), (long long) n, what.c_str());
            if (q && !q->complete) violate("%s: %s of %lld bytes is reported as a duplicate although it was never read completely (%s)", cmdline().c_str(), p.c_str(), (long long) n, what.c_str());
        }
        long long sz = first ? n : low;
        if (last >= 0 && sz > last) violate("%s: a group of %lld bytes is listed after one of %lld bytes", cmdline().c_str(), sz, last);
        last = sz;
        if (R.json && x.size != sz) violate("%s: %s has %lld bytes, the report says %lld", cmdline().c_str(), x.paths[0].c_str(), sz, x.size);
        if (R.sized && !human_ok(x.size_text, sz)) violate("%s: the group of %s has %lld bytes, but its size is given as \"%s\"", cmdline().c_str(), x.paths[0].c_str(), sz, x.size_text.c_str());
        if (R.json && first && prop == "F05") {
            XXH3_state_t *st = XXH3_createState(); XXH3_128bits_reset(st);
            std::string z(1 << 20, 0);
            for (int64_t k = 0; k < n; k += z.size()) {
                size_t len = std::min<int64_t>(z.size(), n - k);
                bool pt = !first->patch.empty() && first->patch.begin()->first >= k && first->patch.begin()->first < k + (int64_t) len;
                if (pt) z[first->patch.begin()->first - k] = first->patch.begin()->second;
                XXH3_128bits_update(st, z.data(), len);
                if (pt) z[first->patch.begin()->first - k] = 0;
            }
            XXH128_hash_t h = XXH3_128bits_digest(st); XXH3_freeState(st);
            if (x.hash != fmt("%016llx%016llx", (unsigned long long) h.high64, (unsigned long long) h.low64)) violate("%s: the hash %s reported for %s of %lld bytes is not that of its contents (%s)", cmdline().c_str(), x.hash.c_str(), x.paths[0].c_str(), (long long) n, what.c_str());
        }
    }
    if (R.excess <= n) for (auto &x : g) if (x.mapped) violate("%s: %s of %lld bytes was mapped into memory, the limit is %lld bytes", cmdline().c_str(), x.v.c_str(), (long long) n, (long long) R.excess);
    want.insert({ lows.begin(), lows.end() });
    std::map<int, std::set<std::string>> cl; for (auto &x : g) if (x.eof < 0) cl[x.cls].insert(x.v);
    for (auto &k : cl) if (k.second.size() > 1) want.insert(k.second);
    if (prop != "F01") for (auto &w : want) if (!have.count(w)) violate("%s: the identical files %s are not reported as one group (%lld bytes each:%s); report: \"%s\"", cmdline().c_str(), list({ w.begin(), w.end() }).c_str(), (long long) n, what.c_str(), head(o).c_str());
}
} // namespace fw
void world_image(const std::string &);
void world_ftwin(const std::string &prop)
{
    if (prop == "F04" && choose(S(C_CFG, 9), 8) == 7) { world_image(prop); return; }
    if ((prop == "F01" || prop == "F02" || prop == "F05" || prop == "F08" || prop == "F10") && choose(S(C_CFG, 10), 400) == 399) { fw::giant_world(prop); return; }
    if (prop == "F02" || prop == "F09") fw::exact_world(prop);
    else if (prop == "F06") fw::readonly_world();
    else if (prop == "F07") fw::bounded_world();
    else if (prop == "F08") fw::format_world();
    else if (prop == "F10") fw::frugal_world();
    else if (prop == "F04") fw::stdout_world();
    else fw::fault_world(prop);
}
