// World over image comparison: the pairs of similar images equal those of a sequential comparison.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <errno.h>
#include <gd.h>
extern "C" {
#include <puzzle.h>
int ftwin_main(int argc, const char **argv);
void ft_config_set_should_exit_on_error(int);
void ft_config_set_should_terminate_apr(int);
extern int sim_cpus;
}
using namespace sim;
namespace sim { void set_hook_p(double); }
namespace iw {
struct Img { std::string v, shown; bool ok = false, bad = false; PuzzleCvec cv; int trouble = 0, k = 0, opens = 0, reads = 0; };
static std::vector<Img> imgs;
static double p_rand;

// a picture: pattern p, variant w (small changes), side s
static std::string draw(uint32_t p, uint32_t w, int s, int enc)
{
    gdImagePtr im = gdImageCreateTrueColor(s, s);
    for (int y = 0; y < s; y++) for (int x = 0; x < s; x++) {
        double u = (double) x / s, v = (double) y / s;
        int c;
        switch (p % 8) {
        case 0: c = (int) (255 * u); break;
        case 1: c = (int) (255 * v); break;
        case 2: c = ((int) (u * 4) + (int) (v * 4)) & 1 ? 230 : 20; break;
        case 3: c = (u - .5) * (u - .5) + (v - .5) * (v - .5) < .1 ? 240 : 30; break;
        case 4: c = (int) (127 + 127 * ((u < v) ? 1 : -1)); break;
        case 5: c = (int) (255 * (1 - u) * v); break;
        case 6: c = ((int) (u * 7) & 1) ? 200 : 60; break;
        default: c = ((int) (v * 5) & 1) ? 210 : 40; break;
        }
        if (w == 1 && x < s / 8 && y < s / 8) c = 255 - c;
        if (w == 2 && x > s / 2 && y > s / 3) c = (c + 90) & 255;
        if (w == 3) c = (c * 7) / 8;
        gdImageSetPixel(im, x, y, gdTrueColor(c, c, c));
    }
    int n = 0; void *d = enc == 0 ? gdImagePngPtrEx(im, &n, 1) : enc == 1 ? gdImageGifPtr(im, &n) : gdImageJpegPtr(im, &n, 90);
    std::string r((char *) d, n);
    gdFree(d); gdImageDestroy(im);
    return r;
}
static Img *find(const std::string &v) { for (auto &i : imgs) if (i.v == v) return &i; return nullptr; }
static int plan(Site s, const std::string &v, int64_t)
{
    Img *i = find(v);
    if (!i) return 0;
    int e = 0;
    if (s == F_OPEN) { i->opens++; if (i->trouble == 1 && i->opens >= i->k) e = EACCES; }
    else if (s == F_READ) { i->reads++; if (i->trouble == 2 && i->reads >= i->k) e = EIO; if (i->trouble == 3 && i->reads >= i->k) e = PF_SHORT_EOF; if (!e && i->trouble == 5) return PF_SHORT; }
    else if (s == F_STAT) { if (i->trouble == 4) e = EACCES; }
    else return 0;
    if (!e && p_rand > 0 && s != F_STAT && choose_p(S(C_FAULT, 100 + s), 2, p_rand)) e = s == F_OPEN ? EMFILE : EIO;
    if (e) i->bad = true;
    return e;
}
typedef std::set<std::pair<std::string, std::string>> Pairs;
static Pairs::value_type pr(const std::string &a, const std::string &b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
static std::string cmd(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + x; return s; }

static void world(const std::string &prop)
{
    bool outw = prop == "F04";
    Stream c = S(C_CFG);
    size_t n = choose(c, 9);
    if (n == 8 && choose(c, 3) == 2) n = 12 + choose(c, 24);
    std::vector<std::string> av = { "ftwin", "-I" };
    double th = 0.2, hi = 0.2; static const double ths[] = { 0.2, 0.3, 0.3, 0.6, 0.7 };     // level 3 lies between levels 2 and 4
    if (uint32_t t = choose(c, 6)) { th = hi = ths[t - 1]; if (t == 3) hi = 0.6; bool first = choose(c, 3) == 2; av.insert(first ? av.begin() + 1 : av.end(), { "-T", fmt("%u", t) }); }
    char sep = '\n';
    if (choose(c, 4) == 3) { sep = ",|"[choose(c, 2)]; av.push_back("-s"); av.push_back(std::string(1, sep)); }
    if (choose(c, 5) == 4) av.push_back("-v");
    sim_cpus = 1 + (int) choose(c, 4);
    if (choose(c, 6) == 5) { av.push_back("-j"); av.push_back(fmt("%d", 1 + (int) choose(c, 5))); }
    bool per_file = choose(c, 4) == 3;
    PuzzleContext ctx; puzzle_init_context(&ctx); puzzle_set_max_width(&ctx, 5000); puzzle_set_max_height(&ctx, 5000); puzzle_set_lambdas(&ctx, 13);
    Stream b = S(C_CFG, 3);
    static const char *ext[] = { "png", "gif", "jpg" };
    fs_mkdirs("/sim/t");
    bool nested = !per_file && choose(c, 3) == 2;
    static const char *dirs[] = { "", "a/", "b c/", "a/d.png/" };
    if (nested) for (auto x : dirs) fs_mkdirs(std::string("/sim/t/") + x);
    if (!per_file && choose(c, 3) == 2) for (int i = 0; i < 3; i++) fs_write_file(fmt("/sim/t/%s", i == 0 ? "note.txt" : i == 1 ? "copy.txt" : "png"), "no image");     // not selected
    for (size_t i = 0; i < n; i++) {
        Img im;
        uint32_t p = choose(c, 4) + (choose(c, 2) ? 4 : 0), w = choose(c, 4);
        int s = 40 + 16 * (int) choose(c, 3), enc = (int) choose(c, 3);
        std::string d = draw(p, w, s, enc);
        im.v = im.shown = fmt("/sim/t/%si%zu.%s", nested ? dirs[choose(c, 4)] : "", i, choose(c, 8) == 7 ? (enc == 2 ? "JPEG" : "PNG") : ext[enc]);
        if (!outw) switch (choose(b, 9)) {
        case 5: im.trouble = 1 + (int) choose(b, 4); im.k = 1 + (int) choose(b, 3); break;
        case 6: im.bad = true; d.resize(choose(b, d.size())); break;                                     // truncated
        case 7: im.bad = true; for (int k = 0; k < 20; k++) d[choose(b, d.size())] ^= (char) (1 << choose(b, 8)); break;    // corrupt
        case 8: im.trouble = 5; break;
        default: break;
        }
        fs_write_file(im.v, d);
        puzzle_init_cvec(&ctx, &im.cv);
        if (!im.bad) { im.ok = puzzle_fill_cvec_from_file(&ctx, &im.cv, im.v.c_str()) == 0; if (!im.ok) im.bad = true; }
        imgs.push_back(im);
        if (per_file) av.push_back(im.v);
    }
    if (!per_file) av.push_back("/sim/t");
    static const double prs[] = { 0, 0, 0, 0.02 };
    p_rand = outw ? 0 : prs[choose(b, 4)];
    uint32_t how = 0, at = 0; int en = 0;
    if (outw) { Stream q = S(C_CFG, 4); how = choose(q, 4); at = choose(q, 400); static const int er[] = { ENOSPC, EIO, EPIPE, EBADF }; en = er[choose(q, 4)]; }
    { Stream q = S(C_CFG, 1); static const double hp[] = { 0.3, 0, 0.1, 0.7 }; set_hook_p(hp[choose(q, 4)]); static const double pm[] = { 0, 200, 20, 5 }; cfg.preempt_mean = pm[choose(q, 4)]; static const double sp[] = { 0, 0, 0.05, 0.3 }; cfg.spurious = sp[choose(q, 4)]; cfg.point_cap = 200000000; cfg.switch_cap = 2000000; rearm(); }
    int rc = -999;
    Proc *p = spawn_proc("ftwin", [&]() {
        std::vector<const char *> a;
        for (auto &x : av) a.push_back(x.c_str());
        a.push_back(nullptr);
        std_begin();
        if (how == 1) out.shorts = true;
        if (how >= 2) { out.fail_at = at; out.fail_errno = en; out.transient = how == 3; }
        path_fault = plan;
        ft_config_set_should_terminate_apr(0);
        ft_config_set_should_exit_on_error(0);
        ev("start %s", cmd(av).c_str());
        rc = ftwin_main((int) a.size() - 1, a.data());
        std_end();
        ev("end %d, %zu bytes of output, hash %llx", rc, out.data.size(), (unsigned long long) fnv(out.data.data(), out.data.size()));
    });
    wait_proc(p);
    path_fault = nullptr;
    std::string o = out.data;
    size_t troubled = 0, healthy = 0;
    for (auto &i : imgs) if (i.bad) troubled++; else healthy++;
    g_sample = fmt("%s: %zu images, %zu bad, %zu bytes of output, status %d", cmd(av).c_str(), n, troubled, o.size(), rc);
    if (troubled) probe("bad-images", troubled);
    bool failed = out.failed;
    if (outw && failed) { probe("image-output-failed"); nontrivial(); }
    if (rc != 0) {
        if (outw ? !failed && n > 0 : healthy > 0) { if (!(per_file && troubled)) violate("%s: ended with status %d although nothing but single images failed", cmd(av).c_str(), rc); }
        if (outw && failed) return;
        if (n == 0 || healthy == 0) return;
    }
    Pairs got, want;
    size_t i = 0;
    while (i < o.size()) {
        size_t e = o.find("\n\n", i);
        if (e == std::string::npos) violate("%s: the report (status %d) ends in the middle of a group", cmd(av).c_str(), rc);
        std::string g = o.substr(i, e - i); i = e + 2;
        std::vector<std::string> ps; size_t k = 0;
        for (;;) { size_t x = g.find(sep, k); ps.push_back(g.substr(k, x == std::string::npos ? x : x - k)); if (x == std::string::npos) break; k = x + 1; }
        if (ps.size() < 2) violate("%s: a group of one image is reported", cmd(av).c_str());
        for (auto &x : ps) if (!find(x)) violate("%s: reports %s, which is no image of the directory", cmd(av).c_str(), x.c_str());
        for (size_t x = 1; x < ps.size(); x++) if (!got.insert(pr(ps[0], ps[x])).second) violate("%s: the pair %s, %s is reported twice", cmd(av).c_str(), ps[0].c_str(), ps[x].c_str());
    }
    for (size_t x = 0; x < imgs.size(); x++) for (size_t y = x + 1; y < imgs.size(); y++) {
        if (imgs[x].bad || imgs[y].bad) continue;
        double d = puzzle_vector_normalized_distance(&ctx, &imgs[x].cv, &imgs[y].cv, 0);
        bool in = got.count(pr(imgs[x].v, imgs[y].v));
        if (d < th && !in) violate("%s (status %d): %s and %s are similar (distance %.3f) but not reported", cmd(av).c_str(), rc, imgs[x].v.c_str(), imgs[y].v.c_str(), d);
        if (!(d < hi) && in) violate("%s: %s and %s are reported although their distance is %.3f", cmd(av).c_str(), imgs[x].v.c_str(), imgs[y].v.c_str(), d);
        if (d < th) { want.insert(pr(imgs[x].v, imgs[y].v)); }
    }
    if (!want.empty() && !outw) nontrivial();
    if (outw && !o.empty()) nontrivial();
    if (!outw && open_fds() != 0) probe("open-fds");
}
} // namespace iw
void world_image(const std::string &p) { iw::world(p); }
