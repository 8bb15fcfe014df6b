#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
enum { NCOUNTERS = 48 };
enum { R_UNSET = 0, R_FINE = 1, R_VIOLATION = 2, R_SIGNAL = 3, R_BROKEN = 4, R_HANG = 5, R_KNOWN = 6 };
struct Counter { char name[32]; uint64_t n; };
struct Result {
    int status; int sig; uint64_t seed; uint64_t hash, points, events, preemptions; int64_t simns; int nontrivial;
    Counter faults[NCOUNTERS]; Counter probes[NCOUNTERS];
    char msg[2000]; char sample[700];
};
struct Entry { uint32_t cls, idx; uint64_t ord; uint32_t val; };
extern Result *g_res;
void decisions_seed(uint64_t);
void decisions_replay(const std::vector<Entry> &);
const std::vector<Entry> &decisions();
void set_dump(const std::string &);
void finish_result(int status, const char *msg);
void sim_start();
void sim_stop();
void set_hook_p(double);
void fs_init(const std::string &scratch);
void fs_cleanup();
}
