// simrun: batch runner, single runs and replays.
#include "sim.h"
#include "result.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <apr_general.h>
#include <dlfcn.h>
#include <execinfo.h>

using namespace sim;
static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static WorldFn find(const std::string &p) { for (int i = 0; worlds[i].prop; i++) if (p == worlds[i].prop) return worlds[i].fn; return nullptr; }
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

static const char *where(void *pc, char *buf, size_t n) { Dl_info i; if (dladdr(pc, &i) && i.dli_sname) snprintf(buf, n, "%s", i.dli_sname); else if (i.dli_fname) snprintf(buf, n, "%s", i.dli_fname); else snprintf(buf, n, "?"); return buf; }
static void on_signal(int sig, siginfo_t *si, void *uc)
{
    active = false;
    char m[400], w[200] = "?";
    if (sig != SIGALRM) { void *pc = (void *) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP]; where(pc, w, sizeof w); void *bt[24]; int n = backtrace(bt, 24); std::string s; for (int i = 2; i < n && s.size() < 200; i++) { char x[200]; where(bt[i], x, sizeof x); s += std::string(" < ") + x; } snprintf(m, sizeof m, "signal %s in %s%s", strsignal(sig), w, s.c_str()); }
    else snprintf(m, sizeof m, "no progress: the run did not finish in real time");
    if (g_res) g_res->sig = sig;
    if (sig == SIGBUS && cut_map(si->si_addr)) { std::string t = std::string("file truncated while it is mapped: ") + m; finish_result(R_KNOWN, t.substr(0, 390).c_str()); _exit(1); }
    finish_result(sig == SIGALRM ? R_HANG : R_SIGNAL, m);
    _exit(1);
}
static int g_alarm = 30;
static void run_child(const std::string &prop, WorldFn fn, const std::string &scr)
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO;
    void *warm[4]; backtrace(warm, 4);
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }) sigaction(s, &sa, nullptr);
    alarm(g_alarm);
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_PERTURB, 0xa5);
    mallopt(M_MMAP_THRESHOLD, 1 << 22);
    fs_init(scr);
    apr_initialize();
    sim_start();
    fn(prop);
    sim_stop();
    finish_result(R_FINE, nullptr);
    _exit(0);
}
static Result *shared_results(int n) { return (Result *) mmap(nullptr, sizeof(Result) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void rm_scratch(const std::string &s) { scratch = s; fs_cleanup(); scratch.clear(); }

struct Fail { uint64_t seed; int status; std::string msg; uint64_t hash; };
int main(int argc, char **argv)
{
    if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); setenv("MALLOC_ARENA_MAX", "1", 1); setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1); if (personality(0xffffffff) != -1 && personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    if (argc < 4) { fprintf(stderr, "usage: simrun batch PROP SEED0 COUNT JOBS BUDGET_S TIER OUT | one PROP SEED DUMP [trace] | replay PROP FILE DUMP [trace]\n"); return 2; }
    std::string mode = argv[1], prop = argv[2];
    WorldFn fn = find(prop);
    if (!fn) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    const char *base = "/dev/shm";
    { std::string t = std::string(base) + "/ftwsim.probe." + std::to_string(syscall(SYS_getpid)); if (syscall(SYS_mkdir, t.c_str(), 0700) != 0) base = "/tmp"; else syscall(SYS_rmdir, t.c_str()); }
    if (getenv("SIM_TIER")) g_tier = getenv("SIM_TIER");
    if (mode == "one" || mode == "replay") {
        Result *r = shared_results(1);
        std::string scr = std::string(base) + "/ftwsim." + std::to_string(syscall(SYS_getpid));
        g_res = r;
        int pid = fork();
        if (pid == 0) {
            if (argc > 5) g_trace = !strcmp(argv[5], "trace");
            if (mode == "one") { decisions_seed(strtoull(argv[3], nullptr, 10)); r->seed = strtoull(argv[3], nullptr, 10); }
            else {
                std::vector<Entry> e; FILE *f = fopen(argv[3], "r"); if (!f) { fprintf(stderr, "cannot read %s\n", argv[3]); _exit(2); }
                char line[600];
                while (fgets(line, sizeof line, f)) { Entry x; unsigned long long o; if (line[0] == '#') continue; if (sscanf(line, "%u.%u %llu %u", &x.cls, &x.idx, &o, &x.val) == 4) { x.ord = o; e.push_back(x); } }
                fclose(f); decisions_replay(e);
            }
            if (argc > 4 && argv[4][0] && strcmp(argv[4], "-")) set_dump(argv[4]);
            g_alarm = 90;
            run_child(prop, fn, scr);
        }
        int st; waitpid(pid, &st, 0);
        rm_scratch(scr);
        int status = r->status;
        if (status == R_UNSET) { status = R_BROKEN; snprintf(r->msg, sizeof r->msg, "child ended without a result (wait status %x)", st); }
        printf("{\"status\":%d,\"hash\":\"%016llx\",\"points\":%llu,\"events\":%llu,\"preemptions\":%llu,\"msg\":\"%s\",\"sample\":\"%s\"}\n", status, (unsigned long long) r->hash, (unsigned long long) r->points, (unsigned long long) r->events, (unsigned long long) r->preemptions, jesc(r->msg).c_str(), jesc(r->sample).c_str());
        return status == R_FINE ? 0 : 1;
    }
    if (mode != "batch" || argc < 9) return 2;
    uint64_t seed0 = strtoull(argv[3], nullptr, 10); uint64_t count = strtoull(argv[4], nullptr, 10);
    int jobs = atoi(argv[5]); double budget = atof(argv[6]); g_tier = argv[7]; const char *outf = argv[8];
    int *stop = (int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now_s();
    std::vector<int> pids;
    std::string tag = std::to_string(syscall(SYS_getpid));
    for (int w = 0; w < jobs; w++) {
        fflush(stdout);
        int pid = fork();
        if (pid == 0) {
            Result *r = shared_results(1);
            g_res = r;
            std::string of = std::string(outf) + "." + std::to_string(w);
            FILE *f = fopen(of.c_str(), "w");
            std::string scr = std::string(base) + "/ftwsim." + tag + "." + std::to_string(w);
            std::map<std::string, std::pair<uint64_t, uint64_t>> faults, probes;   // total, runs
            uint64_t known = 0, runs = 0, nt = 0, points = 0, events = 0, pre = 0; double simns = 0;
            for (uint64_t i = w; i < count; i += jobs) {
                if (*stop >= 4 || now_s() - t0 > budget) break;
                memset(r, 0, sizeof *r);
                r->seed = seed0 + i;
                fflush(f);
                int c = fork();
                if (c == 0) { decisions_seed(r->seed); run_child(prop, fn, scr); }
                double r0 = now_s(); int st; waitpid(c, &st, 0);
                if (getenv("SIM_SLOW") && now_s() - r0 > atof(getenv("SIM_SLOW"))) fprintf(stderr, "slow %s %llu %.1fs\n", prop.c_str(), (unsigned long long) r->seed, now_s() - r0);
                rm_scratch(scr);
                if (r->status == R_UNSET) { r->status = R_BROKEN; snprintf(r->msg, sizeof r->msg, "child ended without a result (wait status %x)", st); }
                runs++; nt += r->nontrivial; points += r->points; events += r->events; pre += r->preemptions; simns += r->simns;
                for (auto &k : r->faults) { if (!k.name[0]) break; auto &x = faults[k.name]; x.first += k.n; x.second++; }
                for (auto &k : r->probes) { if (!k.name[0]) break; auto &x = probes[k.name]; x.first += k.n; x.second++; }
                fprintf(f, "H %016llx %d\n", (unsigned long long) r->hash, r->nontrivial);
                if (runs <= 2) fprintf(f, "S {\"seed\":%llu,\"run\":\"%s\",\"hash\":\"%016llx\"}\n", (unsigned long long) r->seed, jesc(r->sample).c_str(), (unsigned long long) r->hash);
                if (r->status != R_FINE && (r->status != R_KNOWN || ++known <= 3)) { fprintf(f, "F {\"seed\":%llu,\"status\":%d,\"hash\":\"%016llx\",\"msg\":\"%s\"}\n", (unsigned long long) r->seed, r->status, (unsigned long long) r->hash, jesc(r->msg).c_str()); if (r->status != R_KNOWN) __atomic_add_fetch(stop, 1, __ATOMIC_SEQ_CST); fflush(f); }
            }
            fprintf(f, "T {\"runs\":%llu,\"nontrivial\":%llu,\"points\":%llu,\"events\":%llu,\"preemptions\":%llu,\"simns\":%.0f,\"faults\":{", (unsigned long long) runs, (unsigned long long) nt, (unsigned long long) points, (unsigned long long) events, (unsigned long long) pre, simns);
            const char *s = ""; for (auto &k : faults) { fprintf(f, "%s\"%s\":[%llu,%llu]", s, k.first.c_str(), (unsigned long long) k.second.first, (unsigned long long) k.second.second); s = ","; }
            fprintf(f, "},\"probes\":{"); s = ""; for (auto &k : probes) { fprintf(f, "%s\"%s\":[%llu,%llu]", s, k.first.c_str(), (unsigned long long) k.second.first, (unsigned long long) k.second.second); s = ","; }
            fprintf(f, "}}\n"); fclose(f);
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (int p : pids) { int st; waitpid(p, &st, 0); }
    return 0;
}
