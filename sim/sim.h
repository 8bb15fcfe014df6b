// Deterministic simulator core: scheduler, decisions, trace, disk model, results.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <pthread.h>

namespace sim {

// ---------------------------------------------------------------- decisions
// Every decision is choose(stream, n) in [0,n). 0 is always the benign default (no fault, no preemption, op
// skipped, smallest parameter). Only non-zero decisions are recorded; a replay file is the list of them.
enum Class : uint32_t {
    C_CFG = 1,      // run configuration (swarm)
    C_OP,           // workload operations (index = slot)
    C_PREEMPT,      // preemption at memory-access / hook points: ordinal = point number
    C_SCHED,        // who runs next when the running thread blocks
    C_SPURIOUS,     // spurious condition wake-ups
    C_SIGNALPICK,   // which waiter a signal wakes
    C_CRASH,        // crash at a system call
    C_CRASHPT,      // crash at a memory access: ordinal = point number
    C_LOSS,         // what survives a crash
    C_FAULT,        // system call faults (index = fault site)
    C_DIR,          // directory order / d_type
    C_MISC,
};
struct Stream { uint32_t cls; uint32_t idx; };
inline Stream S(Class c, uint32_t i = 0) { return Stream{c, i}; }

uint32_t choose(Stream s, uint32_t n);                 // uniform
uint32_t choose_p(Stream s, uint32_t n, double p);     // non-zero with probability p
bool flip(Stream s, double p);                         // choose_p(s,2,p)
double runif();                                        // raw rng, only for values that are then recorded as decisions

// ---------------------------------------------------------------- processes and threads
struct Proc {
    int pid = 0;
    bool alive = true;
    bool crashed = false;
    bool exited = false;
    int exit_code = 0;
    int live_threads = 0;
    std::string name;
};

enum TState { T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_EVENT, T_SEM, T_RW, T_DONE };
struct Thread {
    int id = 0;
    Proc *proc = nullptr;
    TState st = T_RUN;
    void *wait = nullptr;
    int64_t deadline = -1;
    bool timed_out = false;
    bool killed = false;
    bool detached = false;
    bool joined = false;
    pthread_t real{};
    int go = 0;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    const char *what = "";
};

struct Event {              // harness-level blocking primitive
    bool set = false;
};

Proc *spawn_proc(const char *name, std::function<void()> body);  // main thread of a new simulated process
void wait_proc(Proc *p);                                         // until exited or crashed
void crash_proc(Proc *p);                                        // kill -9
Thread *spawn_thread(std::function<void()> body);                // harness thread inside the current process
void join_thread(Thread *t);
void ev_wait(Event &e);
void ev_set(Event &e);
void yield(const char *what = "yield");
Proc *cur_proc();
Thread *cur_thread();
int live_threads_of(Proc *p);
extern int max_threads;     // most threads that a process had at once

struct NoYield { NoYield(); ~NoYield(); };   // no scheduling or crash inside harness sections

// ---------------------------------------------------------------- run control
struct Config {
    double preempt_mean = 0;   // mean number of points between preemptions (0: never)
    double spurious = 0;       // probability of spurious wake-up per blocked condition wait at switch time
    double crash_sys = 0;      // probability of crash per tracked system call
    double crash_pt_mean = 0;  // mean number of points until a crash at a memory access (0: never)
    bool crash_machine = true; // crash loses unsynced data
    bool crash_enabled = false;
    uint64_t point_cap = 40000000;
    uint64_t switch_cap = 400000;
};
extern Config cfg;
extern uint64_t g_points;                  // memory-access points passed
extern int64_t g_now;                      // virtual nanoseconds

[[noreturn]] void violate(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace event (hashed)
void probe(const char *name, uint64_t n = 1);                          // reach counters
void fired(const char *fault, uint64_t n = 1);                         // fault counters
extern bool g_trace;

void rearm();                              // re-arm preemption countdown after a cfg change

// ---------------------------------------------------------------- checked memory
static const size_t ARENA_SIZE = 1ul << 30;
extern char *arena;                        // where the program's pool allocations live
void arena_check(const void *a, size_t n, void *pc);   // reports an access of the program outside of its allocations

// ---------------------------------------------------------------- fault plan for system calls
// Site classes for C_FAULT decisions.
enum Site : uint32_t {
    F_OPEN = 1, F_READ, F_WRITE, F_FSYNC, F_LSEEK, F_FTRUNC, F_MMAP, F_STAT, F_OPENDIR, F_READDIR, F_CLOSE,
    F_FLOCK, F_UNLINK, F_MKSTEMP, F_THREAD, F_STDOUT, F_MUNMAP, F_MUTEXINIT, F_FCHMOD, F_ALLOC, F_PALLOC, F_NSITES
};
extern uint64_t weak_hash;      // number of different hashes of contents (0: all of them)
extern int dying; extern uint32_t dying_sites;   // that many more calls of these kinds succeed, then none (-1: off)
extern double fault_p[F_NSITES];           // per-call probability of a random fault, 0 = none
// optional path-directed plan: return 0 or errno (or special code) for the call on this virtual path
enum { PF_NONE = 0, PF_SHORT_EOF = 10001, PF_SHORT = 10002 };
extern std::function<int(Site, const std::string &vpath, int64_t off)> path_fault;
// what the program under test got to see of a file
enum Obs { OBS_OPEN, OBS_READ, OBS_MMAP, OBS_CLOSE };
extern std::function<void(Obs, const std::string &vpath, int fd, int64_t off, int64_t n)> io_obs;
// files too large to exist: a sparse file on disk, zeros with a few other bytes made up when it is read or mapped
extern std::map<std::string, std::map<int64_t, char>> giants;
// files that another process cuts short right after they were mapped: the hook gives the new size or -1; cut_map tells whether an address lies in such a mapping
extern std::function<int64_t(const std::string &vpath)> cut_after_map;
bool cut_map(void *addr);
extern int fd_limit;                       // descriptors a simulated program may hold open at once (0: no limit)
extern bool sys_short_io;                  // legal short reads / writes / EINTR, transparent to callers
extern double p_short_io;
extern int alloc_spare;                    // thread whose allocations do not fail (0: none)

// ---------------------------------------------------------------- simulated file system
// Virtual prefix /sim (and /tmp) is mapped to a scratch directory.
extern std::string scratch;
std::string real_path(const std::string &v);
void fs_write_file(const std::string &v, const std::string &data, int64_t mtime_s = -1);
bool fs_read_file(const std::string &v, std::string &out);
bool fs_exists(const std::string &v);
void fs_mkdirs(const std::string &v);
void fs_unlink(const std::string &v);
std::vector<std::string> fs_list(const std::string &vdir);
extern std::string durable_prefix;         // files below it are under the durability model
void machine_crash();                      // apply loss to all durable-model files; all processes must be dead
uint64_t page01_writes();                  // number of tracked writes that touched the first two pages of a file
int open_fds();
extern int max_open, max_mapped, live_maps;   // most descriptors (files and directories) and file mappings held at once; mappings now
std::map<std::string, std::string> fs_snapshot(const std::string &v);   // path -> type, mode, size, mtime, contents
struct Owner { int uid, gid, mode; };
extern std::map<uint64_t, Owner> owners;   // inode -> what stat reports
extern std::map<uint64_t, std::pair<uint64_t, uint64_t>> mounts;   // inode -> the device and inode that stat reports (another file system)
extern int sim_uid, sim_gid;               // who the program runs as (0: as the real process)
extern std::vector<int> sim_groups;
uint64_t fs_inode(const std::string &v);
std::string open_fd_names();
extern bool dt_unknown;                    // readdir returns DT_UNKNOWN
extern bool shuffle_dirs;

// standard output capture
struct Out {
    std::string data;
    bool failed = false;
    int64_t fail_at = -1;                  // byte position at which output starts failing
    int fail_errno = 0;
    bool transient = false;                // only one failure, later writes succeed
    bool shorts = false;                   // short writes
    std::string fail_tail;                 // the write that ends with this line fails, once
    int tail_skip = 0;                     // ... after this many such writes
    uint64_t attempts = 0;
};
extern Out out, err_out;
void std_begin();
void std_end();                            // flush like exit() does

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- worlds
typedef void (*WorldFn)(const std::string &prop);
struct World { const char *prop; WorldFn fn; };
extern const World worlds[];
extern std::string g_sample;               // short human description of the run
extern std::string g_tier;
void nontrivial();                         // mark this run as exercising its property

// internals shared between sim.cc and sys.cc
extern bool active;
bool in_sim();                             // current thread is a simulated thread and sim is active
void sched_point(const char *what);        // potential preemption at a hook (not counted as memory access)
void crash_point(const char *what);        // potential crash at a tracked system call
void block(TState st, void *obj, int64_t deadline, const char *what);
void wake_all(TState st, void *obj);
bool wake_one(TState st, void *obj);
[[noreturn]] void park_forever();
void close_fds_of(Proc *p);
void release_locks_of(Proc *p);
void proc_exit(int code);
} // namespace sim
