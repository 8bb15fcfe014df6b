// World over archive member extraction: exact bytes in a private file, or a clean failure.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <errno.h>
#include <archive.h>
#include <archive_entry.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <apr_pools.h>
extern "C" {
#define register
#include "ft_types.h"
#include "ft_archive.h"
#undef register
}
using namespace sim;
namespace sim { void set_hook_p(double); }
namespace aw {
struct Member { std::string name, data, target; int type; };    // type: 0 regular, 1 directory, 2 symlink, 3 hardlink
struct Arch { std::string path, bytes; std::vector<Member> m; int damage = 0; };
static std::vector<Arch> archs;

static std::string blob(uint64_t id, size_t n, bool text)
{
    std::string s(n, 0);
    uint64_t x = id * 0x9E3779B97F4A7C15ULL + 77;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = text ? (char) ("abcd\n"[(x >> 24) % 5]) : (char) (x >> 24); }
    return s;
}
static const char *formats[] = { "ustar", "pax", "gnutar", "zip", "7z", "cpio", "v7tar" };
static const char *filters[] = { "none", "gzip", "bzip2", "xz" };
static la_ssize_t mem_write(struct archive *, void *c, const void *b, size_t n) { ((std::string *) c)->append((const char *) b, n); return (la_ssize_t) n; }
// pack the members; runs outside the simulated processes
static bool pack(Arch &a, int fm, int fl, bool store)
{
    struct archive *w = archive_write_new();
    bool ok = true;
    switch (fm) {
    case 0: ok = archive_write_set_format_ustar(w) == ARCHIVE_OK; break;
    case 1: ok = archive_write_set_format_pax_restricted(w) == ARCHIVE_OK; break;
    case 2: ok = archive_write_set_format_gnutar(w) == ARCHIVE_OK; break;
    case 3: ok = archive_write_set_format_zip(w) == ARCHIVE_OK; if (ok && store) archive_write_zip_set_compression_store(w); break;
    case 4: ok = archive_write_set_format_7zip(w) == ARCHIVE_OK; if (ok) archive_write_set_options(w, store ? "compression=store" : "compression=deflate"); break;
    case 5: ok = archive_write_set_format_cpio_newc(w) == ARCHIVE_OK; break;
    default: ok = archive_write_set_format_v7tar(w) == ARCHIVE_OK; break;
    }
    if (ok && fm != 3 && fm != 4) switch (fl) {
    case 1: ok = archive_write_add_filter_gzip(w) == ARCHIVE_OK; archive_write_set_filter_option(w, "gzip", "timestamp", nullptr); break;
    case 2: ok = archive_write_add_filter_bzip2(w) == ARCHIVE_OK; break;
    case 3: ok = archive_write_add_filter_xz(w) == ARCHIVE_OK; archive_write_set_filter_option(w, "xz", "compression-level", "0"); break;
    }
    ok = ok && archive_write_open(w, &a.bytes, nullptr, mem_write, nullptr) == ARCHIVE_OK;
    for (auto &m : a.m) {
        if (!ok) break;
        struct archive_entry *e = archive_entry_new();
        archive_entry_set_pathname(e, m.name.c_str());
        archive_entry_set_mtime(e, 1000000000, 0);
        archive_entry_set_uid(e, 0); archive_entry_set_gid(e, 0);
        archive_entry_set_nlink(e, 1);
        if (m.type) archive_entry_set_size(e, 0);
        switch (m.type) {
        case 1: archive_entry_set_filetype(e, AE_IFDIR); archive_entry_set_perm(e, 0755); break;
        case 2: archive_entry_set_filetype(e, AE_IFLNK); archive_entry_set_symlink(e, m.target.c_str()); archive_entry_set_perm(e, 0777); break;
        case 3: archive_entry_set_filetype(e, AE_IFREG); archive_entry_set_hardlink(e, m.target.c_str()); archive_entry_set_perm(e, 0644); break;
        default: archive_entry_set_filetype(e, AE_IFREG); archive_entry_set_perm(e, m.data.size() % 3 ? 0644 : m.data.size() % 2 ? 0777 : 0444); archive_entry_set_size(e, m.data.size()); break;
        }
        ok = archive_write_header(w, e) == ARCHIVE_OK;
        if (ok && m.type == 0 && m.data.size()) ok = archive_write_data(w, m.data.data(), m.data.size()) == (la_ssize_t) m.data.size();
        archive_entry_free(e);
    }
    if (archive_write_close(w) != ARCHIVE_OK) ok = false;
    archive_write_free(w);
    return ok;
}
// what an independent reader gets for a name: 1 the bytes in d, 0 nothing to extract or the archive is damaged before its end
struct Src { const Arch *a; bool done; };
static la_ssize_t mem_read(struct archive *, void *c, const void **b) { Src *s = (Src *) c; if (s->done) return 0; s->done = true; *b = s->a->bytes.data(); return (la_ssize_t) s->a->bytes.size(); }
static int reference(const Arch &a, const std::string &name, std::string &d, bool stream = false)
{
    Src src{ &a, false };
    struct archive *r = archive_read_new();
    archive_read_support_filter_all(r); archive_read_support_format_all(r);
    int res = 0;
    struct archive_entry *e;
    if ((stream ? archive_read_open(r, &src, nullptr, mem_read, nullptr) : archive_read_open_memory(r, a.bytes.data(), a.bytes.size())) == ARCHIVE_OK)
        while (archive_read_next_header(r, &e) == ARCHIVE_OK) {
            const char *p = archive_entry_pathname(e);
            if (!p || name != p) continue;
            if (archive_entry_filetype(e) != AE_IFREG || archive_entry_hardlink(e)) break;
            const void *b; size_t n; la_int64_t off; int k;
            d.clear();
            while ((k = archive_read_data_block(r, &b, &n, &off)) == ARCHIVE_OK) { if (off + n > (1u << 26)) break; if (d.size() < off + n) d.resize(off + n); memcpy(&d[off], b, n); }
            if (k == ARCHIVE_EOF) {
                res = 1;
                if (archive_entry_size_is_set(e) && (size_t) archive_entry_size(e) > d.size() && archive_entry_size(e) < (1 << 26)) d.resize(archive_entry_size(e));
            }
            break;
        }
    archive_read_free(r);
    return res;
}
static int kind, after, en;
static int nread, nwrite;
static bool fault_hit;
static double p_rand;
static int plan(Site s, const std::string &v, int64_t)
{
    int e = 0;
    if (s == F_READ) { nread++; if (kind == 1 && nread > after) e = EIO; if (kind == 2 && nread > after) e = PF_SHORT_EOF; }
    else if (s == F_WRITE) { nwrite++; if (kind == 3 && nwrite > after) e = en; }
    else if (s == F_OPEN) { if (kind == 4 && choose_p(S(C_FAULT, 131), 2, 0.5)) e = en == EDQUOT ? EMFILE : en; }
    else if (s == F_MKSTEMP) { if (kind == 5 && choose_p(S(C_FAULT, 132), 2, 0.6)) e = en == EIO ? EMFILE : en; }
    else if (s == F_LSEEK) { if (kind == 6 && choose_p(S(C_FAULT, 133), 2, 0.3)) e = EIO; }
    else if (s == F_UNLINK || s == F_FLOCK || s == F_THREAD || s == F_MUTEXINIT) return 0;
    if (!e && p_rand > 0 && (s == F_READ || s == F_WRITE || s == F_OPEN || s == F_MKSTEMP || s == F_FCHMOD || s == F_CLOSE || s == F_FTRUNC) && choose_p(S(C_FAULT, 140 + s), 2, p_rand)) e = s == F_MKSTEMP || s == F_OPEN ? EMFILE : s == F_WRITE ? ENOSPC : EIO;
    if (e) fault_hit = true;
    return e;
}
static mode_t mask_now() { mode_t m = (mode_t) syscall(SYS_umask, 0); syscall(SYS_umask, m); return m; }

static void world()
{
    Stream c = S(C_CFG);
    static const size_t szs[] = { 100, 0, 1, 511, 512, 513, 4096, 10239, 10240, 10241, 30000, 65536, 131073 };
    size_t na = 1 + (choose(c, 3) == 2);
    std::string desc;
    for (size_t i = 0; i < na; i++) {
        Arch a;
        int fm = (int) choose(c, 7), fl = (int) choose(c, 4);
        bool store = choose(c, 3) == 2;
        size_t nm = 1 + choose(c, 6);
        bool text = choose(c, 2);
        static const char *const rel[] = { "doc.old", "doc", "Doc", "x/doc", "doc/", "doc.old.txt", "DOC", "x/y/doc", "do", "d", "x/doc.old", " doc", "doc ", "y/doc" };
        bool related = choose(c, 2);
        std::vector<std::string> pool_names;
        for (auto r : rel) if (r[strlen(r) - 1] != '/') pool_names.push_back(r);
        for (size_t k = 0; k < nm; k++) {
            Member m; m.type = 0;
            m.name = k % 3 == 1 ? fmt("dir/sub/m%zu.txt", k) : k % 3 == 2 ? fmt("m %zu", k) : fmt("m%zu", k);
            if (related && !pool_names.empty()) { size_t w = choose(c, pool_names.size()); m.name = pool_names[w]; pool_names.erase(pool_names.begin() + w); }
            m.data = blob(i * 100 + k + 1, szs[choose(c, 13)], text);
            a.m.push_back(m);
            uint32_t sp = choose(c, 12);
            if (sp == 9) { Member d; d.type = 1; d.name = fmt("d%zu/", k); a.m.push_back(d); }
            if (sp == 10 && fm != 4) { Member d; d.type = 2; d.name = fmt("l%zu", k); d.target = choose(c, 2) ? "/sim/secret" : m.name; a.m.push_back(d); }
            if (sp == 11 && fm <= 2) { Member d; d.type = 3; d.name = fmt("h%zu", k); d.target = m.name; d.data = m.data; a.m.push_back(d); }
        }
        a.path = fmt("/sim/t/a%zu.bin", i);
        if (!pack(a, fm, fl, store)) violate("BROKEN-HARNESS cannot pack %s", formats[fm]);
        a.damage = (int) choose(c, 5);     // 0..2 intact, 3 truncated, 4 bytes flipped
        if (a.damage == 3) a.bytes.resize(choose(c, a.bytes.size() + 1));
        if (a.damage == 4) { size_t nf = 1 + choose(c, 3); for (size_t k = 0; k < nf && !a.bytes.empty(); k++) { size_t p = choose(c, a.bytes.size()); a.bytes[p] = (char) (a.bytes[p] ^ (1 << choose(c, 8))); } }
        fs_write_file(a.path, a.bytes);
        desc += fmt("%s/%s %zu members %zu bytes%s; ", formats[fm], fm == 3 || fm == 4 ? (store ? "store" : "deflate") : filters[fl], a.m.size(), a.bytes.size(), a.damage == 3 ? " truncated" : a.damage == 4 ? " corrupted" : "");
        archs.push_back(std::move(a));
    }
    fs_write_file("/sim/secret", "not part of any archive");
    Stream b = S(C_CFG, 3);
    kind = (int) choose(b, 9); if (kind >= 7) kind = 0;
    after = choose(b, 3) ? (int) choose(b, 12) : (int) choose(b, 3);
    static const int er[] = { ENOSPC, EIO, EDQUOT, EMFILE, EACCES };
    en = er[choose(b, kind == 3 ? 3 : 5)];
    static const double pr[] = { 0, 0, 0.01, 0.1 };
    p_rand = pr[choose(b, 4)];
    static const double si[] = { 0, 0, 0.05, 0.4 };
    p_short_io = si[choose(b, 4)];
    static const mode_t masks[] = { 022, 0, 077, 027 };
    mode_t mask = masks[choose(c, 4)];
    size_t nth = 1 + choose(c, 4), per = 1 + choose(c, 4);
    if (choose(b, 6) == 5) fd_limit = 1 + (int) choose(b, 3);
    { Stream q = S(C_CFG, 1); static const double hp[] = { 0.3, 0, 0.1, 0.7 }; set_hook_p(hp[choose(q, 4)]); static const double pm[] = { 0, 200, 20, 5 }; cfg.preempt_mean = pm[choose(q, 4)]; rearm(); }
    size_t done = 0, failed = 0;
    bool limited = fd_limit > 0 || p_short_io > 0;      // libarchive does not continue an interrupted write
    syscall(SYS_umask, mask);
    Proc *p = spawn_proc("extract", [&]() {
        path_fault = plan;
        std::vector<Thread *> th;
        auto body = [&, per](size_t t) {
            apr_pool_t *pool; { NoYield ny; if (apr_pool_create(&pool, nullptr) != APR_SUCCESS) violate("BROKEN-HARNESS pool"); }
            for (size_t k = 0; k < per; k++) {
                std::string name, want, ar; int ok, ok2; std::string want2; bool link = false, hit0; std::string alt; bool shared = nth > 1;
                ft_file_t f;
                {
                    NoYield ny;
                    Stream o = S(C_OP, (uint32_t) (t * 64 + k));
                    Arch &a = archs[choose(o, archs.size())];
                    ar = a.path;
                    if (choose(o, 10) == 9) name = "no-such-member"; else { Member &m = a.m[choose(o, a.m.size())]; name = m.name; link = m.type != 0; if (m.type == 3) alt = m.data; if (m.type == 2) alt = m.target; }
                    ok = reference(a, name, want); ok2 = reference(a, name, want2, true);
                    memset(&f, 0, sizeof f);
                    f.path = (char *) ar.c_str(); f.subpath = (char *) name.c_str(); f.size = want.size();
                    hit0 = fault_hit; fault_hit = shared ? fault_hit : false;
                    ev("extract %s from %s", name.c_str(), ar.c_str());
                }
                char *tmp = ft_archive_untar_file(&f, pool);
                NoYield ny;
                ev("extracted %s: %s", name.c_str(), tmp ? tmp : "failed");
                (void) hit0;
                if (!tmp) {
                    failed++;
                    if (ok == 1 && !fault_hit && !limited) violate("member '%s' of an intact archive could not be extracted although nothing failed (%s)", name.c_str(), desc.c_str());
                    continue;
                }
                done++;
                struct stat st;
                if (syscall(SYS_lstat, real_path(tmp).c_str(), &st)) violate("extraction of '%s' returned %s, which does not exist", name.c_str(), tmp);
                if (!S_ISREG(st.st_mode)) violate("extraction of '%s' returned %s, which is not a regular file", name.c_str(), tmp);
                if (st.st_mode & 077) violate("the extracted file %s can be accessed by others (mode %o)", tmp, st.st_mode & 07777);
                std::string got; fs_read_file(tmp, got);
                if (fault_hit && ok2 == 1 && got == want2) { if (ok != 1 || got != want) probe("read-without-seeking"); }   // a failing seek makes the library read from front to back, which a damaged archive may answer differently
                else if (ok != 1) { if (!(link && !alt.empty() && got == alt)) violate("extraction of '%s' succeeded with %zu bytes although the archive does not contain that member intact (%s)", name.c_str(), got.size(), desc.c_str()); }
                else if (got != want) violate("the extracted file has %zu bytes that differ from the %zu bytes of member '%s' (%s)", got.size(), want.size(), name.c_str(), desc.c_str());
                fs_unlink(tmp);
            }
            NoYield ny; apr_pool_destroy(pool);
        };
        for (size_t t = 1; t < nth; t++) th.push_back(spawn_thread([&, t]() { body(t); }));
        body(0);
        for (auto t : th) join_thread(t);
        path_fault = nullptr; p_short_io = 0; fd_limit = 0;
        NoYield ny;
        auto left = fs_list("/tmp");
        if (!left.empty()) violate("the temporary file /tmp/%s was left behind (%s)", left[0].c_str(), desc.c_str());
        if (open_fds() != 0) violate("descriptors were left open: %s(%s)", open_fd_names().c_str(), desc.c_str());
        if (mask_now() != mask) violate("the file creation mask was %03o and is %03o afterwards", mask, mask_now());
    });
    wait_proc(p);
    syscall(SYS_umask, 022);
    if (done || failed) nontrivial();
    if (done) probe("extracted", done);
    if (failed) probe("clean-failures", failed);
    g_sample = fmt("%s%zu threads x %zu members, fault kind %d after %d, %zu extracted, %zu failed", desc.c_str(), nth, per, kind, after, done, failed);
}
} // namespace aw
void world_archive(const std::string &) { aw::world(); }
