// System call seams: file system (with a durability model), locks, directory listings, standard output, environment.
#include "sim.h"
#include <unordered_map>
#include "result.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/file.h>
#include <sys/time.h>
#include <utime.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <pwd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <apr_hash.h>
#include <apr_file_io.h>
#include <apr_mmap.h>
#include <apr_tables.h>
#include <apr_strings.h>
#include "xxhash.h"

namespace sim {

double fault_p[F_NSITES];
uint64_t weak_hash = 0;
int dying = -1; uint32_t dying_sites = 0;
std::function<int(Site, const std::string &, int64_t)> path_fault;
bool sys_short_io = false;
double p_short_io = 0;
std::string scratch, durable_prefix = "/sim/db/";
bool dt_unknown = false, shuffle_dirs = true;
std::function<void(Obs, const std::string &, int, int64_t, int64_t)> io_obs;
int fd_limit = 0;
static void obs(Obs k, const std::string &v, int fd, int64_t off, int64_t n) { if (io_obs) { NoYield ny; io_obs(k, v, fd, off, n); } }
Out out, err_out;

static long xsys(long r) { return r; }
#define SYS(...) xsys(syscall(__VA_ARGS__))

// ------------------------------------------------------------------ paths
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
std::string real_path(const std::string &v)
{
    if (v == "/sim" || v == "/tmp" || starts(v, "/sim/") || starts(v, "/tmp/")) return scratch + v;
    return v;
}
static bool is_virtual(const std::string &v) { return v == "/sim" || v == "/tmp" || starts(v, "/sim/") || starts(v, "/tmp/"); }
static std::string vabs(const char *p) { if (p && p[0] != '/' && p[0]) return std::string("/sim/") + p; return p ? p : ""; }
static void mkdirs(const std::string &rp) { for (size_t i = 1; i <= rp.size(); i++) if (i == rp.size() || rp[i] == '/') SYS(SYS_mkdir, rp.substr(0, i).c_str(), 0755); }
void fs_mkdirs(const std::string &v) { mkdirs(real_path(v)); }
void fs_write_file(const std::string &v, const std::string &data, int64_t mtime)
{
    std::string rp = real_path(v);
    size_t sl = rp.rfind('/'); mkdirs(rp.substr(0, sl));
    int fd = SYS(SYS_open, rp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { finish_result(R_BROKEN, "fs_write_file"); _exit(3); }
    size_t o = 0; while (o < data.size()) { long r = SYS(SYS_write, fd, data.data() + o, data.size() - o); if (r <= 0) { finish_result(R_BROKEN, "fs_write_file write"); _exit(3); } o += r; }
    if (mtime != -1) { struct timespec ts[2] = { { mtime, mtime < 0 ? 0 : 987654321 }, { mtime, mtime < 0 ? 0 : 123456789 } }; SYS(SYS_utimensat, fd, nullptr, ts, 0); }
    SYS(SYS_close, fd);
}
static bool slurp(const std::string &rp, std::string &o)
{
    int fd = SYS(SYS_open, rp.c_str(), O_RDONLY, 0);
    if (fd < 0) return false;
    struct stat st; SYS(SYS_fstat, fd, &st);
    o.assign(st.st_size, 0);
    size_t n = 0; while (n < o.size()) { long r = SYS(SYS_read, fd, &o[n], o.size() - n); if (r <= 0) break; n += r; }
    o.resize(n);
    SYS(SYS_close, fd);
    return true;
}
bool fs_read_file(const std::string &v, std::string &o) { return slurp(real_path(v), o); }
bool fs_exists(const std::string &v) { struct stat st; return SYS(SYS_lstat, real_path(v).c_str(), &st) == 0; }
void fs_unlink(const std::string &v) { SYS(SYS_unlink, real_path(v).c_str()); }
template <class F> static F realf(const char *n) { return (F) dlsym(RTLD_NEXT, n); }
static DIR *r_opendir(const char *p) { static auto f = realf<DIR *(*)(const char *)>("opendir"); return f(p); }
static struct dirent *r_readdir(DIR *d) { static auto f = realf<struct dirent *(*)(DIR *)>("readdir"); return f(d); }
static int r_closedir(DIR *d) { static auto f = realf<int (*)(DIR *)>("closedir"); return f(d); }
std::vector<std::string> fs_list(const std::string &v)
{
    std::vector<std::string> r;
    DIR *d = r_opendir(real_path(v).c_str());
    if (!d) return r;
    while (struct dirent *e = r_readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); }
    r_closedir(d);
    std::sort(r.begin(), r.end());
    return r;
}
static void snap(const std::string &v, std::map<std::string, std::string> &o)
{
    struct stat st;
    std::string rp = real_path(v);
    if (SYS(SYS_lstat, rp.c_str(), &st) != 0) return;
    std::string d = fmt("mode %o", st.st_mode);
    if (S_ISDIR(st.st_mode)) { o[v] = d; for (auto &n : fs_list(v)) snap(v + "/" + n, o); return; }
    d += fmt(" size %lld mtime %lld.%09ld", (long long) st.st_size, (long long) st.st_mtim.tv_sec, st.st_mtim.tv_nsec);
    if (S_ISREG(st.st_mode)) { std::string c; slurp(rp, c); d += fmt(" contents %016llx", (unsigned long long) fnv(c.data(), c.size())); }
    if (S_ISLNK(st.st_mode)) { char b[PATH_MAX]; long n = SYS(SYS_readlink, rp.c_str(), b, sizeof b); d += " -> " + std::string(b, n > 0 ? n : 0); }
    o[v] = d;
}
std::map<std::string, std::string> fs_snapshot(const std::string &v) { std::map<std::string, std::string> o; snap(v, o); return o; }
static void rm_tree(const std::string &rp)
{
    struct stat st;
    if (SYS(SYS_lstat, rp.c_str(), &st) != 0) return;
    if (S_ISDIR(st.st_mode)) {
        SYS(SYS_chmod, rp.c_str(), 0700);
        std::vector<std::string> n;
        DIR *d = r_opendir(rp.c_str());
        if (d) { while (struct dirent *e = r_readdir(d)) { std::string x = e->d_name; if (x != "." && x != "..") n.push_back(x); } r_closedir(d); }
        for (auto &x : n) rm_tree(rp + "/" + x);
        SYS(SYS_rmdir, rp.c_str());
    } else SYS(SYS_unlink, rp.c_str());
}
void fs_init(const std::string &s) { scratch = s; mkdirs(s + "/sim/db"); mkdirs(s + "/tmp"); }
void fs_cleanup() { if (scratch.size() > 9 && starts(scratch, "/dev/shm/") ) rm_tree(scratch); else if (starts(scratch, "/tmp/") && scratch.size() > 6) rm_tree(scratch); }

// ------------------------------------------------------------------ durability model
enum { SEC = 512, PG = 4096 };
struct Node {
    std::string vpath;
    std::string dur;                                   // what survives a power cut for certain
    bool dur_exists = false;
    std::string shadow;                                // contents at the last comparison
    std::map<uint64_t, std::vector<std::string>> dirty;   // sector -> versions written since it was last made durable
    std::vector<uint64_t> order;                       // write order of (sector) events
    std::vector<size_t> sizes;                         // file sizes reached since the last sync
    bool dropped = false;                              // a failed sync has dropped writes: cache and disk differ for good
};
static std::map<std::string, Node> nodes;
static uint64_t n_page01 = 0;
uint64_t page01_writes() { return n_page01; }
static bool durable(const std::string &v) { return starts(v, durable_prefix.c_str()); }
static std::string sector_of(const std::string &f, uint64_t s) { std::string x(SEC, 0); size_t o = s * SEC; if (o < f.size()) memcpy(&x[0], f.data() + o, std::min<size_t>(SEC, f.size() - o)); return x; }
// compare the file with the shadow and note every changed sector as dirty
static void node_diff(Node &n)
{
    std::string cur;
    if (!slurp(real_path(n.vpath), cur)) return;
    if (cur.size() != n.shadow.size()) n.sizes.push_back(cur.size());
    size_t a = n.shadow.size(), b = cur.size(), ns = (std::max(a, b) + SEC - 1) / SEC;
    for (uint64_t s = 0; s < ns; s++) {
        size_t o = s * SEC;
        bool same;
        if (o + SEC <= a && o + SEC <= b) same = memcmp(n.shadow.data() + o, cur.data() + o, SEC) == 0;
        else same = sector_of(n.shadow, s) == sector_of(cur, s);
        if (!same) { n.dirty[s].push_back(sector_of(cur, s)); n.order.push_back(s); if (o < 2 * PG) n_page01++; }
    }
    n.shadow.swap(cur);
}
// note the effect of one write call (and of stores through a mapping to the first two pages)
static void node_range(Node &n, uint64_t off, size_t len)
{
    std::string rp = real_path(n.vpath);
    int fd = (int) SYS(SYS_open, rp.c_str(), O_RDONLY, 0);
    if (fd < 0) return;
    struct stat st; SYS(SYS_fstat, fd, &st);
    if ((size_t) st.st_size != n.shadow.size()) { n.sizes.push_back(st.st_size); n.shadow.resize(st.st_size, 0); }
    auto scan = [&](uint64_t a, uint64_t b, bool wr) {
        a = a / SEC * SEC; b = std::min<uint64_t>((b + SEC - 1) / SEC * SEC, st.st_size);
        if (a >= b) return;
        std::string buf(b - a, 0);
        SYS(SYS_pread64, fd, &buf[0], b - a, a);
        for (uint64_t o = a; o < b; o += SEC) {
            size_t k = std::min<uint64_t>(SEC, b - o);
            if (memcmp(&n.shadow[o], &buf[o - a], k) == 0) {
                // a write marks the page dirty even if it changes nothing: that matters when a failed sync had marked it clean
                if (!wr || n.dirty.count(o / SEC) || (n.dur.size() >= o + k && memcmp(&n.dur[o], &buf[o - a], k) == 0)) continue;
            }
            memcpy(&n.shadow[o], &buf[o - a], k);
            n.dirty[o / SEC].push_back(sector_of(n.shadow, o / SEC)); n.order.push_back(o / SEC);
            if (o < 2 * PG) n_page01++;
        }
    };
    scan(0, 2 * PG, false);
    scan(off, off + len, true);
    SYS(SYS_close, fd);
}
static void put_sector(std::string &img, uint64_t s, const std::string &d) { size_t o = s * SEC; if (o >= img.size()) return; memcpy(&img[o], d.data(), std::min<size_t>(SEC, img.size() - o)); }
static void node_sync(Node &n)
{
    node_diff(n);
    n.dur.resize(n.shadow.size(), 0);
    for (auto &d : n.dirty) put_sector(n.dur, d.first, d.second.back());
    n.dirty.clear(); n.order.clear(); n.sizes.clear();
    n.dur_exists = true;
}
// a failing fsync: some dirty data reaches the disk, and (as Linux does) the rest is dropped from the dirty set
static void node_sync_failed(Node &n)
{
    node_diff(n);
    uint32_t mode = choose(S(C_LOSS, 1), 4);   // 0: nothing written, stays dirty; 1: nothing written, marked clean; 2: random part, rest marked clean; 3: everything written, error anyway
    if (mode == 0) return;
    if (mode == 3) { node_sync(n); return; }
    if (mode == 2) {
        if (n.dur.size() < n.shadow.size() && choose(S(C_LOSS, 1), 2)) n.dur.resize(n.shadow.size(), 0);
        for (auto &d : n.dirty) if (choose(S(C_LOSS, 1), 2)) put_sector(n.dur, d.first, d.second.back());
        n.dur_exists = true;
    }
    n.dirty.clear(); n.order.clear(); n.dropped = true;
    // a lost size change cannot be marked clean for ever: the inode stays dirty
}
void machine_crash()
{
    for (auto &kv : nodes) {
        Node &n = kv.second;
        node_diff(n);
        std::string img = n.dur;
        bool exists = n.dur_exists;
        size_t nd = n.dirty.size();
        uint32_t mode = 0;
        if (nd || !n.sizes.empty() || !exists) {
            mode = choose(S(C_LOSS), 7);
            if (!exists && mode) exists = true;
            if (mode && !n.sizes.empty()) { size_t sz = n.sizes.back(); if (mode == 3) { uint32_t k = choose(S(C_LOSS), n.sizes.size() + 1); sz = k ? n.sizes[k - 1] : n.dur.size(); } img.resize(sz, 0); }
            switch (mode) {
            case 0: break;                                                                                             // nothing unsynced survives
            case 1: for (auto &d : n.dirty) put_sector(img, d.first, d.second.back()); break;                          // everything survives
            case 2:                                                                                                    // every dirty sector independently, any version
            case 3: for (auto &d : n.dirty) { uint32_t v = choose(S(C_LOSS), d.second.size() + 1); if (v) put_sector(img, d.first, d.second[v - 1]); } break;
            case 4: { uint32_t skip = choose(S(C_LOSS), nd ? nd : 1), i = 0; for (auto &d : n.dirty) if (i++ != skip) put_sector(img, d.first, d.second.back()); break; }   // all but one
            case 5: { std::set<uint64_t> pgs; for (auto &d : n.dirty) pgs.insert(d.first * SEC / PG); uint32_t k = choose(S(C_LOSS), pgs.size() ? pgs.size() : 1), i = 0; for (auto p : pgs) if (i++ == k) for (auto &d : n.dirty) if (d.first * SEC / PG == p) put_sector(img, d.first, d.second.back()); break; } // one page only
            case 6: { uint32_t k = choose(S(C_LOSS), n.order.size() + 1); std::map<uint64_t, size_t> seen; for (uint32_t i = 0; i < k; i++) { uint64_t s = n.order[i]; auto &v = n.dirty[s]; size_t &x = seen[s]; if (x < v.size()) put_sector(img, s, v[x++]); } break; }        // prefix in write order
            }
            // the sector the disk was writing when the power went may hold neither the old nor the new contents
            if (nd && mode && !n.dropped && choose(S(C_LOSS), 4) == 3) {
                uint32_t k = choose(S(C_LOSS), nd);
                if (choose(S(C_LOSS), 2)) { uint64_t hdr = 0; for (auto &d : n.dirty) if (d.first * SEC < 2 * PG) hdr = d.first + 1; if (hdr) { k = 0; for (auto &d : n.dirty) { if (d.first + 1 == hdr) break; k++; } } }
                bool formed = n.dur.size() >= 2 * PG && n.dur.find_first_not_of('\0') < 2 * PG;        // an unfinished creation leaves zeros, not garbage
                auto d = n.dirty.begin(); std::advance(d, k);
                put_sector(img, d->first, std::string(SEC, formed && choose(S(C_LOSS), 2) ? '\xa5' : '\0'));
                fired("destroyed-sector");
            }
            if (nd) { static const char *mn[] = { "lost-all-unsynced", "kept-all-unsynced", "torn-sectors", "torn-sectors+size", "lost-one-sector", "kept-one-page", "prefix-of-writes" }; fired(mn[mode]); }
        }
        ev("machine crash %s: %zu dirty sectors, mode %u, image %zu bytes %llx", n.vpath.c_str(), nd, mode, img.size(), (unsigned long long) fnv(img.data(), img.size()));
        SYS(SYS_unlink, real_path(n.vpath).c_str());
        if (exists) fs_write_file(n.vpath, img);
        n.dur = img; n.shadow = img; n.dur_exists = exists; n.dirty.clear(); n.order.clear(); n.sizes.clear(); n.dropped = false;
    }
}

// ------------------------------------------------------------------ descriptors
struct FdInfo { std::string v; Proc *p = nullptr; bool wr = false; };
static std::map<int, FdInfo> fds;
static std::map<std::string, std::pair<int, int>> plocks;   // vpath -> (pid, type) : POSIX record locks (whole file)
typedef std::pair<uint64_t, uint64_t> Ino;
static std::map<Ino, std::map<int, bool>> flocks;           // inode -> descriptor -> exclusive : BSD locks belong to the open file, not to its name
static void drop_flock(int fd) { for (auto i = flocks.begin(); i != flocks.end();) { if (i->second.erase(fd)) wake_all(T_EVENT, &flocks); if (i->second.empty()) i = flocks.erase(i); else ++i; } }
static void drop_locks(const std::string &v, int pid) { auto i = plocks.find(v); if (i != plocks.end() && i->second.first == pid) { plocks.erase(i); wake_all(T_EVENT, &plocks); } }
int max_open = 0, max_mapped = 0, live_maps = 0;
static std::set<void *> fmaps;                              // live mappings of files
static std::set<void *> simdirs;
static void count_open() { max_open = std::max<int>(max_open, (int) (fds.size() + simdirs.size())); }
static FdInfo *info(int fd) { auto i = fds.find(fd); return i == fds.end() ? nullptr : &i->second; }
void close_fds_of(Proc *p)
{
    std::vector<int> c;
    for (auto &f : fds) if (f.second.p == p) c.push_back(f.first);
    for (int fd : c) { drop_flock(fd); fds.erase(fd); SYS(SYS_close, fd); }
}
void release_locks_of(Proc *p) { std::vector<std::string> d; for (auto &l : plocks) if (l.second.first == p->pid) d.push_back(l.first); for (auto &v : d) drop_locks(v, p->pid); }
int open_fds() { return (int) fds.size(); }
std::string open_fd_names() { std::string s; for (auto &f : fds) s += f.second.v + " "; return s; }

// ------------------------------------------------------------------ faults
static const int errs_open[] = { EMFILE, EACCES, ENOENT, EIO, ENFILE, ENOMEM };
static const int errs_read[] = { EIO };
static const int errs_write[] = { EIO, ENOSPC, EDQUOT };
static const int errs_fsync[] = { EIO, ENOSPC };
static const int errs_lseek[] = { EIO };
static const int errs_trunc[] = { EIO, ENOSPC, EFBIG };
static const int errs_mmap[] = { ENOMEM, ENODEV, EAGAIN };
static const int errs_stat[] = { EACCES, ENOENT, EIO };
static const int errs_opendir[] = { EACCES, EMFILE, ENOENT, EIO };
static const int errs_readdir[] = { EIO };
static const int errs_close[] = { EIO, EINTR };
static const int errs_lock[] = { ENOLCK, EIO };
static const int errs_unlink[] = { EACCES, EIO };
static const int errs_mkstemp[] = { ENOSPC, EMFILE, EACCES };
static const int errs_thread[] = { EAGAIN };
static const int errs_munmap[] = { ENOMEM };
static const int errs_mutex[] = { ENOMEM, EAGAIN };
static const int errs_fchmod[] = { EPERM, EIO };
static const int errs_alloc[] = { ENOMEM };
static const struct { const char *name; const int *e; int n; } sites[F_NSITES] = {
    { "?", errs_read, 1 }, { "open", errs_open, 6 }, { "read", errs_read, 1 }, { "write", errs_write, 3 }, { "fsync", errs_fsync, 2 }, { "lseek", errs_lseek, 1 },
    { "ftruncate", errs_trunc, 3 }, { "mmap", errs_mmap, 3 }, { "stat", errs_stat, 3 }, { "opendir", errs_opendir, 4 }, { "readdir", errs_readdir, 1 }, { "close", errs_close, 2 },
    { "lock", errs_lock, 2 }, { "unlink", errs_unlink, 2 }, { "mkstemp", errs_mkstemp, 3 }, { "thread-create", errs_thread, 1 }, { "stdout", errs_write, 3 }, { "munmap", errs_munmap, 1 },
    { "mutex-init", errs_mutex, 2 }, { "chmod", errs_fchmod, 2 }, { "alloc", errs_alloc, 1 }, { "out-of-memory", errs_alloc, 1 } };
int tls_proc_pid();
static bool faultable() { return in_sim() && tls_proc_pid() != 1; }
static int fault(Site s, const std::string &v, int64_t off = 0)
{
    if (!faultable()) return 0;
    if (path_fault) { int e = path_fault(s, v, off); if (e) { fired((std::string(sites[s].name) + (e == PF_SHORT_EOF ? ":early-eof" : e == PF_SHORT ? ":short" : std::string(":") + strerrorname_np(e))).c_str()); return e; } }
    if (dying >= 0 && (dying_sites >> s & 1)) {            // after a while all calls of these kinds fail
        if (dying == 0) { fired((std::string(sites[s].name) + ":EIO-from-now-on").c_str()); return EIO; }
        dying--;
    }
    if (fault_p[s] <= 0) return 0;
    uint32_t k = choose_p(S(C_FAULT, s), sites[s].n + 1, fault_p[s]);
    if (!k) return 0;
    int e = sites[s].e[k - 1];
    fired((std::string(sites[s].name) + ":" + strerrorname_np(e)).c_str());
    return e;
}
int tls_proc_pid() { Proc *p = cur_proc(); return p ? p->pid : 0; }
int fault_thread_create() { return fault(F_THREAD, "thread"); }
int fault_mutex_init() { return fault(F_MUTEXINIT, "mutex"); }

// ------------------------------------------------------------------ standard streams
static FILE *real_stdout, *real_stderr;
static ssize_t out_write(Out &o, const char *b, size_t n)
{
    o.attempts++;
    if (!o.fail_tail.empty() && !o.failed && n >= o.fail_tail.size() && !memcmp(b + n - o.fail_tail.size(), o.fail_tail.data(), o.fail_tail.size()) && (n == o.fail_tail.size() || b[n - o.fail_tail.size() - 1] == '\n') && o.tail_skip-- == 0) {
        o.failed = true;
        fired((std::string("stdout:") + strerrorname_np(o.fail_errno) + "-at-end").c_str());
        errno = o.fail_errno;
        return -1;
    }
    if (o.fail_at >= 0 && (int64_t) (o.data.size() + n) > o.fail_at && !(o.transient && o.failed)) {
        size_t can = (int64_t) o.data.size() < o.fail_at ? o.fail_at - o.data.size() : 0;
        if (can && !(o.transient)) { o.data.append(b, can); fired("stdout:short-write"); return can; }
        o.failed = true;
        fired((std::string("stdout:") + strerrorname_np(o.fail_errno)).c_str());
        errno = o.fail_errno;
        return -1;
    }
    if (o.shorts && n > 1) {
        uint32_t k = choose_p(S(C_FAULT, F_STDOUT), 3, 0.5);
        if (k == 1) { size_t m = 1 + choose(S(C_FAULT, F_STDOUT), std::min<size_t>(n - 1, 4096)); fired("stdout:short-write"); o.data.append(b, m); return m; }
    }
    o.data.append(b, n);
    return n;
}
// like the libc stream layer over a descriptor: a short write is continued, an error ends it with what went out so far
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    size_t t = 0;
    while (t < n) { ssize_t r = out_write(*(Out *) c, b + t, n - t); if (r < 0) break; t += r; }
    return t;
}
void std_begin()
{
    out = Out(); err_out = Out();
    cookie_io_functions_t io = { nullptr, ck_write, nullptr, nullptr };
    real_stdout = stdout; real_stderr = stderr;
    stdout = fopencookie(&out, "w", io);
    stderr = fopencookie(&err_out, "w", io);
    setvbuf(stderr, nullptr, _IONBF, 0);
}
void std_end()
{
    fflush(stdout);
    stdout = real_stdout; stderr = real_stderr;
}

// deterministic hashing instead of APR's address/time/random seeded one
static unsigned int det_hash(const char *k, apr_ssize_t *len) { if (*len == APR_HASH_KEY_STRING) *len = strlen(k); return (unsigned) (fnv(k, *len) >> 7); }
// simulated ownership: what stat reports, and who the program runs as
std::map<uint64_t, Owner> owners;
std::map<uint64_t, std::pair<uint64_t, uint64_t>> mounts;
int sim_uid = 0, sim_gid = 0;
std::vector<int> sim_groups;
static int own(int r, struct stat *st)
{
    if (r == 0 && !owners.empty()) { auto i = owners.find((uint64_t) st->st_ino); if (i != owners.end()) { st->st_uid = i->second.uid; st->st_gid = i->second.gid; st->st_mode = (st->st_mode & ~07777u) | i->second.mode; } }
    if (r == 0 && !mounts.empty()) { auto i = mounts.find((uint64_t) st->st_ino); if (i != mounts.end()) { st->st_dev = i->second.first; st->st_ino = i->second.second; } }
    return r;
}
int alloc_spare = 0;
uint64_t fs_inode(const std::string &v) { struct stat st; return SYS(SYS_lstat, real_path(v).c_str(), &st) == 0 ? (uint64_t) st.st_ino : 0; }
} // namespace sim

using namespace sim;

extern "C" {
// What the program allocates from pools it created itself comes from an arena that is never reused in a run: filled with garbage
// at first (pool memory is not zeroed by contract), fenced, and closed when the pool ends. Accesses of the program's own code are
// checked against it, and string functions of libc are caught by the fence bytes they overwrite.
static std::unordered_map<apr_pool_t *, std::vector<std::pair<char *, size_t>>> pool_mem;
static const size_t ARENA = ARENA_SIZE, FENCE = 32;
} // extern "C"
namespace sim {
char *arena;                     // the arena
uint8_t *arena_shadow;           // per 8 bytes: 0 all usable, 1..7 that many usable, 254 pool ended, 255 fence
static size_t arena_used;
[[noreturn]] static void bad_access(const char *a, size_t n, void *pc)
{
    uint8_t k = 0; for (size_t i = 0; i <= n / 8; i++) k = std::max(k, arena_shadow[(a - arena) / 8 + i]);
    Dl_info d; const char *f = dladdr(pc, &d) && d.dli_sname ? d.dli_sname : "a static function";
    violate("invalid memory access in %s: %s", f, k == 254 ? "the memory belonged to a pool that has been destroyed" : "outside of the memory that was allocated");
}
void arena_check(const void *p, size_t n, void *pc)
{
    const char *a = (const char *) p;
    if (!n || !arena || (size_t) (a - arena) >= ARENA || !in_sim()) return;
    for (const char *g = (const char *) ((uintptr_t) a & ~7ul); g < a + n; g += 8) {
        uint8_t k = arena_shadow[(g - arena) / 8];
        if (!k) continue;
        if (k < 8 && std::min(a + n, g + 8) <= g + k) continue;
        bad_access(a, n, pc);
    }
}
static char *arena_alloc(apr_pool_t *p, size_t n)
{
    if (!in_sim()) return nullptr;
    auto i = pool_mem.find(p);
    if (i == pool_mem.end()) return nullptr;
    if (!arena) {
        arena = (char *) syscall(SYS_mmap, nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        arena_shadow = (uint8_t *) syscall(SYS_mmap, nullptr, ARENA / 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    size_t need = ((n + 15) & ~15ul) + FENCE;
    if (arena_used + need + FENCE > (size_t) 400 << 20) return nullptr;       // afterwards ordinary pool memory
    if (!arena_used) { arena_used = FENCE; memset(arena_shadow, 255, FENCE / 8); }
    char *r = arena + arena_used;
    arena_used += need;
    memset(r, 0xa5, n); memset(r + n, 0xfa, need - n);
    memset(arena_shadow + (r - arena) / 8, 0, n / 8);
    memset(arena_shadow + (r - arena) / 8 + n / 8, 255, (need - n / 8 * 8) / 8);
    if (n & 7) arena_shadow[(r - arena) / 8 + n / 8] = n & 7;
    i->second.push_back({ r, n });
    return r;
}
static void check_fence(const std::pair<char *, size_t> &m)
{
    size_t need = ((m.second + 15) & ~15ul) + FENCE;
    for (size_t k = m.second; k < need; k++) if (m.first[k] != (char) 0xfa) violate("memory behind an allocation of %zu bytes was overwritten", m.second);
}
}
extern "C" {
static apr_status_t pool_ends(void *v)
{
    auto i = pool_mem.find((apr_pool_t *) v);
    if (i == pool_mem.end()) return APR_SUCCESS;
    auto mem = std::move(i->second);
    pool_mem.erase(i);
    for (auto &m : mem) { check_fence(m); memset(m.first, 0xdd, m.second); memset(arena_shadow + (m.first - arena) / 8, 254, (m.second + 7) / 8); }
    return APR_SUCCESS;
}
// Pools, tables and arrays of APR are not made for use by several threads at once. Their functions are not preempted inside, so
// being inside is made visible: other threads may run meanwhile, and none of them may enter for the same object.
void lib_points();
struct InUse {
    static std::unordered_map<const void *, std::vector<std::pair<Thread *, bool>>> &all() { static std::unordered_map<const void *, std::vector<std::pair<Thread *, bool>>> m; return m; }
    const void *o = nullptr; Thread *t = nullptr;
    InUse(const void *obj, bool write, const char *what)
    {
        if (!in_sim() || !obj) return;
        auto &m = all(); auto i = m.find(obj);
        t = cur_thread();
        if (i != m.end()) for (auto &e : i->second) if (e.first != t && !e.first->killed && e.first->proc->alive && (write || e.second)) violate("two threads use the same %s at the same time without a lock", what);
        o = obj; m[obj].push_back({ t, write });
        lib_points();
    }
    ~InUse() { if (!o) return; auto i = all().find(o); if (i == all().end()) return; auto &v = i->second; for (size_t k = v.size(); k--;) if (v[k].first == t) { v.erase(v.begin() + k); break; } if (v.empty()) all().erase(i); }
};
static void pool_watch(apr_pool_t *p) { pool_mem[p].clear(); apr_pool_cleanup_register(p, p, pool_ends, apr_pool_cleanup_null); }
void apr_hash_set(apr_hash_t *h, const void *k, apr_ssize_t n, const void *v) { static auto f = realf<void (*)(apr_hash_t *, const void *, apr_ssize_t, const void *)>("apr_hash_set"); InUse u(h, true, "hash table"); f(h, k, n, v); }
void *apr_hash_get(apr_hash_t *h, const void *k, apr_ssize_t n) { static auto f = realf<void *(*)(apr_hash_t *, const void *, apr_ssize_t)>("apr_hash_get"); InUse u(h, false, "hash table"); return f(h, k, n); }
void apr_hash_clear(apr_hash_t *h) { static auto f = realf<void (*)(apr_hash_t *)>("apr_hash_clear"); InUse u(h, true, "hash table"); f(h); }
void *apr_array_push(apr_array_header_t *a) { static auto f = realf<void *(*)(apr_array_header_t *)>("apr_array_push"); InUse u(a, true, "array"); return f(a); }
void *apr_palloc(apr_pool_t *p, apr_size_t n)
{
    InUse u(p, true, "memory pool");
    if (fault_p[F_PALLOC] > 0 && in_sim() && fault(F_PALLOC, "memory")) return nullptr;
    if (void *r = arena_alloc(p, n)) return r;
    static auto f = realf<void *(*)(apr_pool_t *, apr_size_t)>("apr_palloc");
    void *r = f(p, n);
    if (r && n) memset(r, 0xa5, n);
    return r;
}
void *apr_pmemdup(apr_pool_t *p, const void *s, apr_size_t n) { if (!s) return nullptr; void *r = apr_palloc(p, n); if (r) memcpy(r, s, n); return r; }
char *apr_pstrdup(apr_pool_t *p, const char *s) { return s ? (char *) apr_pmemdup(p, s, strlen(s) + 1) : nullptr; }
char *apr_pstrmemdup(apr_pool_t *p, const char *s, apr_size_t n) { if (!s) return nullptr; char *r = (char *) apr_palloc(p, n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
char *apr_pstrndup(apr_pool_t *p, const char *s, apr_size_t n) { return s ? apr_pstrmemdup(p, s, strnlen(s, n)) : nullptr; }
char *apr_pstrcat(apr_pool_t *p, ...)
{
    va_list a; size_t n = 0;
    va_start(a, p); while (const char *s = va_arg(a, const char *)) n += strlen(s); va_end(a);
    char *r = (char *) apr_palloc(p, n + 1), *o = r;
    if (!r) return r;
    va_start(a, p); while (const char *s = va_arg(a, const char *)) { size_t k = strlen(s); memcpy(o, s, k); o += k; } va_end(a);
    *o = 0;
    return r;
}
char *apr_psprintf(apr_pool_t *p, const char *fm, ...) { va_list a; va_start(a, fm); char *r = apr_pvsprintf(p, fm, a); va_end(a); return apr_pstrdup(p, r); }
void apr_pool_clear(apr_pool_t *p)
{
    static auto f = realf<void (*)(apr_pool_t *)>("apr_pool_clear");
    bool w = in_sim() && pool_mem.count(p);
    f(p);
    if (w) pool_watch(p);
}
// memory running out shows as a pool that cannot be created (apr_pcalloc and friends end the program instead); only pools of the program itself, not those inside libraries
apr_status_t apr_pool_create_ex(apr_pool_t **o, apr_pool_t *p, apr_abortfunc_t ab, apr_allocator_t *a)
{
    static auto f = realf<apr_status_t (*)(apr_pool_t **, apr_pool_t *, apr_abortfunc_t, apr_allocator_t *)>("apr_pool_create_ex");
    extern char __executable_start, etext;
    char *ra = (char *) __builtin_return_address(0);
    if (fault_p[F_ALLOC] > 0 && in_sim() && cur_thread()->id != alloc_spare && ra >= &__executable_start && ra < &etext && fault(F_ALLOC, "memory")) { *o = nullptr; return APR_ENOMEM; }
    apr_status_t r = f(o, p, ab, a);
    if (r == APR_SUCCESS && in_sim() && ra >= &__executable_start && ra < &etext) pool_watch(*o);
    return r;
}
// what is opened is allocated in the pool that is given
apr_status_t apr_file_open(apr_file_t **o, const char *n, apr_int32_t fl, apr_fileperms_t pm, apr_pool_t *p) { static auto f = realf<apr_status_t (*)(apr_file_t **, const char *, apr_int32_t, apr_fileperms_t, apr_pool_t *)>("apr_file_open"); InUse u(p, true, "memory pool"); return f(o, n, fl, pm, p); }
apr_status_t apr_mmap_create(apr_mmap_t **o, apr_file_t *fi, apr_off_t off, apr_size_t n, apr_int32_t fl, apr_pool_t *p) { static auto f = realf<apr_status_t (*)(apr_mmap_t **, apr_file_t *, apr_off_t, apr_size_t, apr_int32_t, apr_pool_t *)>("apr_mmap_create"); InUse u(p, true, "memory pool"); return f(o, fi, off, n, fl, p); }
apr_hash_t *apr_hash_make(apr_pool_t *p) { return apr_hash_make_custom(p, det_hash); }
ssize_t getrandom(void *b, size_t n, unsigned) { if (!in_sim()) return syscall(SYS_getrandom, b, n, 0); memset(b, 0x5a, n); return n; }
void arc4random_buf(void *b, size_t n) { memset(b, 0x5a, n); }
int getentropy(void *b, size_t n) { memset(b, 0x5a, n); return 0; }

static int do_open(const char *path, int flags, mode_t mode)
{
    if (!in_sim()) return (int) syscall(SYS_open, path, flags, mode);
    std::string v = vabs(path);
    if (!is_virtual(v)) return (int) syscall(SYS_open, path, flags, mode);
    sched_point("open"); crash_point("open");
    bool existed = fs_exists(v);
    if (int e = fault(F_OPEN, v)) { if (e == ENOENT && (flags & O_CREAT)) e = EACCES; errno = e; return -1; }
    if (fd_limit && faultable() && (int) fds.size() >= fd_limit) { fired("open:EMFILE(limit)"); ev("open %s: descriptor limit", v.c_str()); errno = EMFILE; return -1; }
    int fd = (int) syscall(SYS_open, real_path(v).c_str(), flags, mode);
    ev("open %s %x -> %s", v.c_str(), flags, fd < 0 ? strerrorname_np(errno) : "ok");
    if (fd < 0) return -1;
    fds[fd] = FdInfo{ v, cur_proc(), (flags & O_ACCMODE) != O_RDONLY }; count_open();
    obs(OBS_OPEN, v, fd, 0, 0);
    if (durable(v) && (flags & O_ACCMODE) != O_RDONLY) {
        auto it = nodes.find(v);
        if (it == nodes.end()) { Node n; n.vpath = v; if (existed) { slurp(real_path(v), n.dur); n.shadow = n.dur; n.dur_exists = true; } nodes[v] = n; }
        if (flags & O_TRUNC) node_diff(nodes[v]);
    }
    return fd;
}
int open(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_open(p, f, m); }
int open64(const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_open(p, f, m); }
int __open_2(const char *p, int f) { return do_open(p, f, 0); }
int __open64_2(const char *p, int f) { return do_open(p, f, 0); }
int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int do_openat(int d, const char *p, int f, mode_t m) { if (d == AT_FDCWD || (p && p[0] == '/')) return do_open(p, f, m); return (int) syscall(SYS_openat, d, p, f, m); }
int openat(int d, const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_openat(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_openat(d, p, f, m); }
int __openat_2(int d, const char *p, int f) { return do_openat(d, p, f, 0); }
int __openat64_2(int d, const char *p, int f) { return do_openat(d, p, f, 0); }

int close(int fd)
{
    if (!in_sim()) return (int) syscall(SYS_close, fd);
    FdInfo *i = info(fd);
    if (!i) return (int) syscall(SYS_close, fd);
    std::string v = i->v; Proc *p = i->p;
    if (p != cur_proc()) { errno = EBADF; return -1; }
    sched_point("close");
    drop_flock(fd);
    obs(OBS_CLOSE, v, fd, 0, 0);
    fds.erase(fd);
    drop_locks(v, p->pid);
    syscall(SYS_close, fd);
    ev("close %s", v.c_str());
    if (int e = fault(F_CLOSE, v)) { errno = e; return -1; }
    return 0;
}
} // extern C
namespace sim {
std::map<std::string, std::map<int64_t, char>> giants;
std::function<int64_t(const std::string &)> cut_after_map;
static std::vector<std::pair<char *, char *>> cut_ranges;
bool cut_map(void *a) { for (auto &r : cut_ranges) if ((char *) a >= r.first && (char *) a < r.second) return true; return false; }
}
extern "C" {
static ssize_t do_read(int fd, void *b, size_t n, int64_t at)
{
    FdInfo *i = in_sim() ? info(fd) : nullptr;
    if (!i) return at < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, at);
    std::string v = i->v;
    sched_point("read");
    int64_t off = at >= 0 ? at : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    int e = fault(F_READ, v, off);
    if (e == PF_SHORT_EOF) return 0;
    if (e && e != PF_SHORT) { errno = e; return -1; }
    if (faultable() && n > 1 && (e == PF_SHORT || p_short_io > 0)) {
        uint32_t k = e == PF_SHORT ? 1 : choose_p(S(C_FAULT, 40), 3, p_short_io);
        if (k == 1) { n = 1 + choose(S(C_FAULT, 41), std::min<size_t>(n - 1, 8192)); fired("read:short"); }
        else if (k == 2) { fired("read:EINTR"); errno = EINTR; return -1; }
    }
    ssize_t r;
    auto gi = giants.empty() ? giants.end() : giants.find(v);
    if (gi != giants.end()) {
        struct stat st; syscall(SYS_fstat, fd, &st);
        r = off >= st.st_size ? 0 : (ssize_t) std::min<int64_t>((int64_t) n, st.st_size - off);
        memset(b, 0, r);
        for (auto k = gi->second.lower_bound(off); k != gi->second.end() && k->first < off + r; ++k) ((char *) b)[k->first - off] = k->second;
        if (at < 0) syscall(SYS_lseek, fd, off + r, SEEK_SET);
    } else r = at < 0 ? syscall(SYS_read, fd, b, n) : syscall(SYS_pread64, fd, b, n, at);
    ev("read %s %lld %zu -> %zd", v.c_str(), (long long) off, n, r);
    if (r >= 0) obs(OBS_READ, v, fd, off, r);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return do_read(fd, b, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o); }
// Storage model: a file on disk changes in whole 512-byte sectors, so a write to a durable file is cut at
// sector boundaries only (0 = nothing went out).
static size_t cut(bool dur, int64_t off, size_t k)
{
    if (!dur) return k;
    int64_t e = (off + (int64_t) k) / 512 * 512 - off;
    return e > 0 ? (size_t) e : 0;
}
static ssize_t do_write(int fd, const void *b, size_t n, int64_t at)
{
    if (!in_sim()) return at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
    if (fd == 1 || fd == 2) { if (tls_proc_pid() == 1) return syscall(SYS_write, fd, b, n); return out_write(fd == 1 ? out : err_out, (const char *) b, n); }
    FdInfo *i = info(fd);
    if (!i) return at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
    std::string v = i->v;
    sched_point("write"); crash_point("before write");
    int64_t off = at >= 0 ? at : syscall(SYS_lseek, fd, 0, SEEK_CUR);
    bool dur = durable(v) && nodes.count(v);
    if (int e = fault(F_WRITE, v, off)) {
        if (dur && off < 2 * PG) n_page01++;     // outcome of an attempted write to the first pages is counted as an attempt
        if (n > 1 && choose(S(C_FAULT, 42), 2)) {   // part of the data went out before the error; the caller sees a short count first
            size_t k = cut(dur, off, 1 + choose(S(C_FAULT, 42), n - 1));
            if (!k) { errno = e; return -1; }
            ssize_t r = at < 0 ? syscall(SYS_write, fd, b, k) : syscall(SYS_pwrite64, fd, b, k, at);
            if (r > 0 && dur) node_range(nodes[v], off, r);
            ev("write %s %lld %zu -> partial %zd", v.c_str(), (long long) off, n, r);
            fired("write:short");
            // remainder fails on the next attempt
            extern std::map<std::string, int> pending_write_error; pending_write_error[v] = e;
            return r;
        }
        errno = e; return -1;
    }
    extern std::map<std::string, int> pending_write_error;
    auto pe = pending_write_error.find(v);
    if (pe != pending_write_error.end() && faultable()) { int e = pe->second; pending_write_error.erase(pe); if (e && fault_p[F_WRITE] > 0) { errno = e; return -1; } }
    if (faultable() && n > 1 && p_short_io > 0) {
        uint32_t k = choose_p(S(C_FAULT, 43), 3, p_short_io);
        if (k == 1) { size_t c = cut(dur, off, 1 + choose(S(C_FAULT, 44), n - 1)); if (c) { n = c; fired("write:short"); } }
        else if (k == 2) { fired("write:EINTR"); errno = EINTR; return -1; }
    }
    // a crash in the middle of a write leaves a prefix of it in the page cache
    if (faultable() && cfg.crash_enabled && n > 1 && flip(S(C_CRASH, 1), cfg.crash_sys / 2)) {
        size_t k = cut(dur, off, choose(S(C_CRASH, 2), n));
        if (k) { if (at < 0) syscall(SYS_write, fd, b, k); else syscall(SYS_pwrite64, fd, b, k, at); }
        if (dur) node_range(nodes[v], off, k);
        ev("crash inside write %s %lld, %zu of %zu bytes", v.c_str(), (long long) off, k, n);
        fired("crash@partial-write");
        crash_proc(cur_proc());
    }
    ssize_t r = at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
    ev("write %s %lld %zu -> %zd %llx", v.c_str(), (long long) off, n, r, (unsigned long long) (r > 0 ? fnv(b, r) : 0));
    if (dur && r > 0) node_range(nodes[v], off, r);
    crash_point("after write");
    return r;
}
std::map<std::string, int> pending_write_error;
ssize_t readv(int fd, const struct iovec *v, int n)
{
    if (!in_sim() || !info(fd)) return syscall(SYS_readv, fd, v, n);
    ssize_t t = 0;
    for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if ((size_t) r < v[i].iov_len) break; }
    return t;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!in_sim() || (fd > 2 && !info(fd))) return syscall(SYS_writev, fd, v, n);
    ssize_t t = 0;
    for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if ((size_t) r < v[i].iov_len) break; }
    return t;
}
off_t lseek(int fd, off_t o, int w)
{
    FdInfo *i = in_sim() ? info(fd) : nullptr;
    if (i) { sched_point("lseek"); if (int e = fault(F_LSEEK, i->v)) { errno = e; return -1; } }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
static int do_sync(int fd, const char *what)
{
    FdInfo *i = in_sim() ? info(fd) : nullptr;
    if (!i) return in_sim() ? 0 : (int) syscall(SYS_fsync, fd);
    std::string v = i->v;
    sched_point("fsync"); crash_point("before fsync");
    bool d = durable(v) && nodes.count(v);
    if (int e = fault(F_FSYNC, v)) { if (d) node_sync_failed(nodes[v]); errno = e; return -1; }
    if (d) node_sync(nodes[v]);
    ev("%s %s", what, v.c_str());
    crash_point("after fsync");
    return 0;
}
int fsync(int fd) { return do_sync(fd, "fsync"); }
int fdatasync(int fd) { return do_sync(fd, "fdatasync"); }
int sync_file_range(int, off_t, off_t, unsigned) { return 0; }
int msync(void *a, size_t n, int f) { int r = (int) syscall(SYS_msync, a, n, f); if (in_sim() && (f & MS_SYNC)) { extern void msync_range(void *); msync_range(a); } return r; }
int ftruncate(int fd, off_t n)
{
    FdInfo *i = in_sim() ? info(fd) : nullptr;
    if (!i) return (int) syscall(SYS_ftruncate, fd, n);
    std::string v = i->v;
    sched_point("ftruncate"); crash_point("before ftruncate");
    if (int e = fault(F_FTRUNC, v)) { errno = e; return -1; }
    int r = (int) syscall(SYS_ftruncate, fd, n);
    ev("ftruncate %s %lld -> %d", v.c_str(), (long long) n, r);
    if (durable(v) && nodes.count(v)) node_diff(nodes[v]);
    crash_point("after ftruncate");
    return r;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int posix_fallocate(int fd, off_t o, off_t l) { struct stat st; syscall(SYS_fstat, fd, &st); if (st.st_size < o + l) return ftruncate(fd, o + l) ? errno : 0; return 0; }

static std::map<void *, std::pair<std::string, size_t>> maps;
void msync_range(void *a) { for (auto &m : maps) if (a >= m.first && (char *) a < (char *) m.first + m.second.second && nodes.count(m.second.first)) node_sync(nodes[m.second.first]); }
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    FdInfo *i = in_sim() && fd >= 0 ? info(fd) : nullptr;
    if (!i) return (void *) syscall(SYS_mmap, a, n, prot, flags, fd, o);
    std::string v = i->v;
    sched_point("mmap");
    if (int e = fault(F_MMAP, v)) { errno = e; return MAP_FAILED; }
    void *r;
    auto gi = giants.empty() ? giants.end() : giants.find(v);
    if (gi != giants.end()) {
        r = (void *) syscall(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (r != MAP_FAILED) {
            madvise(r, n, MADV_HUGEPAGE);
            for (auto k = gi->second.lower_bound(o); k != gi->second.end() && k->first < o + (int64_t) n; ++k) ((char *) r)[k->first - o] = k->second;
            mprotect(r, n, prot);
        }
    } else r = (void *) syscall(SYS_mmap, a, n, prot, flags, fd, o);
    ev("mmap %s %zu -> %s", v.c_str(), n, r == MAP_FAILED ? strerrorname_np(errno) : "ok");
    if (r != MAP_FAILED && (flags & MAP_SHARED) && (prot & PROT_WRITE)) maps[r] = { v, n };
    if (r != MAP_FAILED) { fmaps.insert(r); max_mapped = std::max<int>(max_mapped, (int) fmaps.size()); live_maps = (int) fmaps.size(); }
    if (r != MAP_FAILED) obs(OBS_MMAP, v, fd, o, n);
    if (r != MAP_FAILED && cut_after_map) {
        int64_t to = cut_after_map(v);
        if (to >= 0) { fired("file:shrinks-mapped"); ev("%s is cut to %lld bytes while mapped", v.c_str(), (long long) to); cut_ranges.push_back({ (char *) r, (char *) r + n }); }
    }
    return r;
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t o) { return mmap(a, n, prot, flags, fd, o); }
int munmap(void *a, size_t n)
{
    if (in_sim()) {
        auto i = maps.find(a);
        if (i != maps.end()) { if (nodes.count(i->second.first)) node_diff(nodes[i->second.first]); maps.erase(i); }
        if (int e = fault(F_MUNMAP, "map")) { errno = e; return -1; }
        fmaps.erase(a); live_maps = (int) fmaps.size();
    }
    return (int) syscall(SYS_munmap, a, n);
}
static int do_stat(int dirfd, const char *p, struct stat *st, int flags)
{
    if (!in_sim()) return (int) syscall(SYS_newfstatat, dirfd, p, st, flags);
    if (dirfd != AT_FDCWD && p && p[0] != '/') {
        FdInfo *i = info(dirfd);
        if (i && p[0]) { std::string v = i->v + "/" + p; if (int e = fault(F_STAT, v)) { errno = e; return -1; } }
        return own((int) syscall(SYS_newfstatat, dirfd, p, st, flags), st);
    }
    std::string v = vabs(p);
    if (!is_virtual(v)) return (int) syscall(SYS_newfstatat, AT_FDCWD, p, st, flags);
    sched_point("stat");
    if (int e = fault(F_STAT, v)) { errno = e; return -1; }
    int r = own((int) syscall(SYS_newfstatat, AT_FDCWD, real_path(v).c_str(), st, flags), st);
    ev("stat %s -> %s", v.c_str(), r ? strerrorname_np(errno) : "ok");
    return r;
}
int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *) s, 0); }
int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *) s, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, (struct stat *) s, f); }
int fstat(int fd, struct stat *s)
{
    FdInfo *i = in_sim() ? info(fd) : nullptr;
    if (i) { sched_point("fstat"); if (int e = fault(F_STAT, i->v, -1)) { errno = e == ENOENT ? EIO : e; return -1; } }
    int r = (int) syscall(SYS_fstat, fd, s);
    return i ? own(r, s) : r;
}
uid_t getuid(void) { return in_sim() && sim_uid ? (uid_t) sim_uid : (uid_t) syscall(SYS_getuid); }
uid_t geteuid(void) { return in_sim() && sim_uid ? (uid_t) sim_uid : (uid_t) syscall(SYS_geteuid); }
gid_t getgid(void) { return in_sim() && sim_uid ? (gid_t) sim_gid : (gid_t) syscall(SYS_getgid); }
gid_t getegid(void) { return in_sim() && sim_uid ? (gid_t) sim_gid : (gid_t) syscall(SYS_getegid); }
int getgroups(int n, gid_t *l)
{
    if (!in_sim() || !sim_uid) return (int) syscall(SYS_getgroups, n, l);
    if (n == 0) return (int) sim_groups.size();
    if (n < (int) sim_groups.size()) { errno = EINVAL; return -1; }
    for (size_t k = 0; k < sim_groups.size(); k++) l[k] = (gid_t) sim_groups[k];
    return (int) sim_groups.size();
}
int sim_noname = 0;              // the user has no entry in the user database
int getpwuid_r(uid_t u, struct passwd *pw, char *b, size_t n, struct passwd **res)
{
    static auto f = realf<int (*)(uid_t, struct passwd *, char *, size_t, struct passwd **)>("getpwuid_r");
    if (!in_sim() || !sim_uid || n < 64) return f(u, pw, b, n, res);
    if (sim_noname) { *res = nullptr; return 0; }
    memset(pw, 0, sizeof *pw); snprintf(b, n, "user%u", (unsigned) u);
    pw->pw_name = b; pw->pw_passwd = pw->pw_gecos = pw->pw_dir = pw->pw_shell = b + strlen(b); pw->pw_uid = u; pw->pw_gid = (gid_t) sim_gid;
    *res = pw; return 0;
}
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *) s); }
int access(const char *p, int m) { if (!in_sim()) return (int) syscall(SYS_access, p, m); return (int) syscall(SYS_access, real_path(vabs(p)).c_str(), m); }
int euidaccess(const char *p, int m) { return access(p, m); }
int eaccess(const char *p, int m) { return access(p, m); }
ssize_t readlink(const char *p, char *b, size_t n) { if (!in_sim()) return syscall(SYS_readlink, p, b, n); return syscall(SYS_readlink, real_path(vabs(p)).c_str(), b, n); }
ssize_t __readlink_chk(const char *p, char *b, size_t n, size_t) { return readlink(p, b, n); }
char *realpath(const char *p, char *o)
{
    static auto f = realf<char *(*)(const char *, char *)>("realpath");
    if (!in_sim()) return f(p, o);
    std::string v = vabs(p);
    if (!is_virtual(v)) return f(p, o);
    char buf[PATH_MAX]; if (!f(real_path(v).c_str(), buf)) return nullptr;
    std::string r = buf; if (starts(r, scratch.c_str())) r = r.substr(scratch.size());
    if (!o) return strdup(r.c_str());
    strcpy(o, r.c_str()); return o;
}
char *getcwd(char *b, size_t n) { if (in_sim()) { if (!b) return strdup("/sim"); snprintf(b, n, "/sim"); return b; } long r = syscall(SYS_getcwd, b, n); return r < 0 ? nullptr : b; }
int unlink(const char *p)
{
    if (!in_sim()) return (int) syscall(SYS_unlink, p);
    std::string v = vabs(p);
    sched_point("unlink"); crash_point("unlink");
    if (int e = fault(F_UNLINK, v)) { errno = e; return -1; }
    ev("unlink %s", v.c_str());
    nodes.erase(v);
    return (int) syscall(SYS_unlink, real_path(v).c_str());
}
int unlinkat(int d, const char *p, int f) { if (in_sim() && (d == AT_FDCWD || p[0] == '/') && !(f & AT_REMOVEDIR)) return unlink(p); return (int) syscall(SYS_unlinkat, d, in_sim() ? real_path(vabs(p)).c_str() : p, f); }
int remove(const char *p) { return unlink(p); }
int rmdir(const char *p) { return (int) syscall(SYS_rmdir, in_sim() ? real_path(vabs(p)).c_str() : p); }
int rename(const char *a, const char *b)
{
    if (!in_sim()) return (int) syscall(SYS_rename, a, b);
    std::string va = vabs(a), vb = vabs(b);
    sched_point("rename"); crash_point("rename");
    int r = (int) syscall(SYS_rename, real_path(va).c_str(), real_path(vb).c_str());
    if (r == 0 && nodes.count(va)) { Node n = nodes[va]; nodes.erase(va); n.vpath = vb; nodes[vb] = n; }
    return r;
}
mode_t umask(mode_t m) { if (in_sim()) sched_point("umask"); return (mode_t) syscall(SYS_umask, m); }
int mkdir(const char *p, mode_t m) { return (int) syscall(SYS_mkdir, in_sim() ? real_path(vabs(p)).c_str() : p, m); }
int chmod(const char *p, mode_t m) { if (in_sim()) { std::string v = vabs(p); if (int e = fault(F_FCHMOD, v)) { errno = e; return -1; } return (int) syscall(SYS_chmod, real_path(v).c_str(), m); } return (int) syscall(SYS_chmod, p, m); }
int lchmod(const char *p, mode_t m) { return chmod(p, m); }
int fchmodat(int d, const char *p, mode_t m, int) { if (d == AT_FDCWD || p[0] == '/') return chmod(p, m); return (int) syscall(SYS_fchmodat, d, p, m); }
int fchmod(int fd, mode_t m) { FdInfo *i = in_sim() ? info(fd) : nullptr; if (i) if (int e = fault(F_FCHMOD, i->v)) { errno = e; return -1; } return (int) syscall(SYS_fchmod, fd, m); }
int lchown(const char *p, uid_t u, gid_t g) { return (int) syscall(SYS_lchown, in_sim() ? real_path(vabs(p)).c_str() : p, u, g); }
int chown(const char *p, uid_t u, gid_t g) { return (int) syscall(SYS_chown, in_sim() ? real_path(vabs(p)).c_str() : p, u, g); }
int utimensat(int d, const char *p, const struct timespec ts[2], int f) { return (int) syscall(SYS_utimensat, d, in_sim() && d == AT_FDCWD ? real_path(vabs(p)).c_str() : p, ts, f); }
int truncate(const char *p, off_t n) { return (int) syscall(SYS_truncate, in_sim() ? real_path(vabs(p)).c_str() : p, n); }
int truncate64(const char *p, off_t n) { return truncate(p, n); }
int utimes(const char *p, const struct timeval tv[2]) { return (int) syscall(SYS_utimes, in_sim() ? real_path(vabs(p)).c_str() : p, tv); }
int utime(const char *p, const struct utimbuf *t) { return (int) syscall(SYS_utime, in_sim() ? real_path(vabs(p)).c_str() : p, t); }
int link(const char *a, const char *b) { return in_sim() ? (int) syscall(SYS_link, real_path(vabs(a)).c_str(), real_path(vabs(b)).c_str()) : (int) syscall(SYS_link, a, b); }
int symlink(const char *a, const char *b) { return (int) syscall(SYS_symlink, a, in_sim() ? real_path(vabs(b)).c_str() : b); }
int chdir(const char *p) { if (in_sim()) return 0; return (int) syscall(SYS_chdir, p); }
int fchdir(int fd) { if (in_sim()) return 0; return (int) syscall(SYS_fchdir, fd); }

// directory streams
struct SimDir { uint32_t magic; std::string v; std::vector<struct dirent> e; size_t pos; bool failed; };
DIR *opendir(const char *p)
{
    if (!in_sim()) return r_opendir(p);
    std::string v = vabs(p);
    sched_point("opendir");
    if (int e = fault(F_OPENDIR, v)) { errno = e; return nullptr; }
    DIR *d = r_opendir(real_path(v).c_str());
    ev("opendir %s -> %s", v.c_str(), d ? "ok" : strerrorname_np(errno));
    if (!d) return nullptr;
    auto *s = new SimDir{ 0x51d1, v, {}, 0, false };
    while (struct dirent *e = r_readdir(d)) s->e.push_back(*e);
    r_closedir(d);
    std::sort(s->e.begin(), s->e.end(), [](const struct dirent &a, const struct dirent &b) { return strcmp(a.d_name, b.d_name) < 0; });
    if (shuffle_dirs) for (size_t i = 0; i + 1 < s->e.size(); i++) { size_t j = i + choose(S(C_DIR), s->e.size() - i); std::swap(s->e[i], s->e[j]); }
    if (dt_unknown) for (auto &e : s->e) e.d_type = DT_UNKNOWN;
    simdirs.insert(s); count_open();
    return (DIR *) s;
}
struct dirent *readdir(DIR *d)
{
    if (!simdirs.count(d)) return r_readdir(d);
    auto *s = (SimDir *) d;
    if (s->failed) return nullptr;
    if (s->pos < s->e.size() && faultable()) if (int e = fault(F_READDIR, s->v, s->pos)) { s->failed = true; errno = e; return nullptr; }
    if (s->pos >= s->e.size()) return nullptr;
    return &s->e[s->pos++];
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *) readdir(d); }
int closedir(DIR *d) { if (!simdirs.count(d)) return r_closedir(d); simdirs.erase(d); delete (SimDir *) d; return 0; }
void rewinddir(DIR *d) { if (simdirs.count(d)) { ((SimDir *) d)->pos = 0; return; } static auto f = realf<void (*)(DIR *)>("rewinddir"); f(d); }
int sim_open_dirs() { return (int) simdirs.size(); }

// locks
static int do_fcntl(int fd, int cmd, void *arg)
{
    FdInfo *i = in_sim() ? info(fd) : nullptr;
    if (!i || (cmd != F_SETLK && cmd != F_SETLKW && cmd != F_GETLK)) return (int) syscall(SYS_fcntl, fd, cmd, arg);
    struct flock *l = (struct flock *) arg;
    std::string v = i->v; int pid = i->p->pid;
    sched_point("fcntl-lock"); crash_point("fcntl-lock");
    if (l->l_type == F_UNLCK) { if (int e = fault(F_FLOCK, v)) { errno = e; return -1; } drop_locks(v, pid); ev("unlock %s pid %d", v.c_str(), pid); return 0; }
    if (int e = fault(F_FLOCK, v)) { errno = e; return -1; }
    for (;;) {
        auto h = plocks.find(v);
        bool conflict = h != plocks.end() && h->second.first != pid && (l->l_type == F_WRLCK || h->second.second == F_WRLCK);
        if (cmd == F_GETLK) { if (!conflict) l->l_type = F_UNLCK; else l->l_pid = h->second.first; return 0; }
        if (!conflict) break;
        if (cmd == F_SETLK) { ev("lock %s pid %d busy", v.c_str(), pid); errno = EAGAIN; return -1; }
        block(T_EVENT, &plocks, -1, "fcntl lock");
    }
    plocks[v] = { pid, l->l_type };
    ev("lock %s pid %d", v.c_str(), pid);
    return 0;
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *x = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *x = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, x); }
int flock(int fd, int op)
{
    FdInfo *i = in_sim() ? info(fd) : nullptr;
    if (!i) return (int) syscall(SYS_flock, fd, op);
    std::string v = i->v;
    sched_point("flock"); crash_point("flock");
    if (int e = fault(F_FLOCK, v)) { errno = e; return -1; }
    struct stat st;
    if (SYS(SYS_fstat, fd, &st)) { errno = EBADF; return -1; }
    Ino k{ st.st_dev, st.st_ino };
    if (op & LOCK_UN) { drop_flock(fd); ev("unlock %s", v.c_str()); return 0; }
    bool ex = op & LOCK_EX;
    for (;;) {
        bool conflict = false;
        auto h = flocks.find(k);
        if (h != flocks.end()) for (auto &o : h->second) if (o.first != fd && (ex || o.second)) conflict = true;
        if (!conflict) break;
        if (op & LOCK_NB) { ev("lock %s busy", v.c_str()); errno = EWOULDBLOCK; return -1; }
        block(T_EVENT, &flocks, -1, "flock");
    }
    flocks[k][fd] = ex;
    ev("lock %s", v.c_str());
    return 0;
}

static uint32_t tmp_counter = 0;
int mkostemp(char *t, int fl)
{
    if (!in_sim()) { static auto f = realf<int (*)(char *, int)>("mkostemp"); return f(t, fl); }
    size_t n = strlen(t);
    std::string v0 = vabs(t);
    sched_point("mkstemp");
    if (int e = fault(F_MKSTEMP, v0)) { errno = e; return -1; }
    for (int k = 0; k < 1000; k++) {
        char s[7]; snprintf(s, sizeof s, "%06u", tmp_counter++ % 1000000); memcpy(t + n - 6, s, 6);
        std::string v = vabs(t);
        int fd = (int) syscall(SYS_open, real_path(v).c_str(), O_RDWR | O_CREAT | O_EXCL | fl, 0600);
        if (fd >= 0) { fds[fd] = FdInfo{ v, cur_proc(), true }; count_open(); ev("mkstemp %s", v.c_str()); return fd; }
        if (errno != EEXIST) return -1;
    }
    errno = EEXIST; return -1;
}
int mkstemp(char *t) { return mkostemp(t, 0); }
int mkstemp64(char *t) { return mkostemp(t, 0); }

// stdio opened files run over the seams above
static ssize_t fr(void *c, char *b, size_t n) { return do_read((int) (intptr_t) c, b, n, -1); }
static ssize_t fw(void *c, const char *b, size_t n) { ssize_t r = do_write((int) (intptr_t) c, b, n, -1); return r < 0 ? 0 : r; }
static int fs_(void *c, off64_t *o, int w) { off_t r = lseek((int) (intptr_t) c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int fc(void *c) { return close((int) (intptr_t) c); }
FILE *fopen(const char *p, const char *m)
{
    static auto f = realf<FILE *(*)(const char *, const char *)>("fopen");
    if (!in_sim() || !is_virtual(vabs(p))) return f(p, m);
    int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = do_open(p, fl, 0666);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = { fr, fw, fs_, fc };
    return fopencookie((void *) (intptr_t) fd, m, io);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m)
{
    static auto f = realf<FILE *(*)(int, const char *)>("fdopen");
    if (!in_sim() || !info(fd)) return f(fd, m);
    cookie_io_functions_t io = { fr, fw, fs_, fc };
    return fopencookie((void *) (intptr_t) fd, m, io);
}

int sim_tty = 0;
int isatty(int fd) { if (in_sim() && ((fd == 1 && (sim_tty & 1)) || (fd == 2 && (sim_tty & 2)))) return 1; errno = ENOTTY; return 0; }
int fileno(FILE *f) { if (in_sim() && tls_proc_pid() != 1) { if (f == stdout) return 1; if (f == stderr) return 2; } static auto r = realf<int (*)(FILE *)>("fileno"); return r(f); }
int fileno_unlocked(FILE *f) { return fileno(f); }
int sim_cpus = 4;
long sysconf(int n) { static auto f = realf<long (*)(int)>("sysconf"); if (in_sim() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return sim_cpus; return f(n); }
// hashes with few bits, so that different contents collide (linked with --wrap)
XXH128_hash_t __real_XXH3_128bits(const void *, size_t);
XXH128_hash_t __real_XXH3_128bits_digest(const XXH3_state_t *);
static XXH128_hash_t weaken(XXH128_hash_t h) { if (weak_hash && in_sim()) { h.high64 = 0; h.low64 &= weak_hash - 1; fired("hash-of-few-bits"); } return h; }
XXH128_hash_t __wrap_XXH3_128bits(const void *p, size_t n) { return weaken(__real_XXH3_128bits(p, n)); }
XXH128_hash_t __wrap_XXH3_128bits_digest(const XXH3_state_t *s) { return weaken(__real_XXH3_128bits_digest(s)); }
void exit(int code) { if (in_sim() && tls_proc_pid() != 1) proc_exit(code); static auto f = realf<void (*)(int)>("exit"); f(code); __builtin_unreachable(); }
void abort(void) { if (in_sim()) violate("the program called abort()"); static auto f = realf<void (*)(void)>("abort"); f(); __builtin_unreachable(); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (in_sim()) violate("assertion failed: %s in %s (%s:%u)", e, fn, f, l); _exit(3); }
pid_t fork(void) { if (in_sim()) { errno = EAGAIN; return -1; } static auto f = realf<pid_t (*)(void)>("fork"); return f(); }
} // extern C
