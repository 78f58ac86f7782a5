// simrt: deterministic runtime.  Real threads, exactly one runs; every blocking primitive, clock, sleep,
// random source and disk operation of the process is interposed and decided by a seeded scheduler.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace rt {

// ---- outcome of one incarnation, kept in shared memory
enum Outcome : uint32_t {
    OUT_NONE = 0,      // still running / vanished
    OUT_DONE = 1,      // workload finished normally
    OUT_CRASHED = 2,   // injected crash fired
    OUT_VIOLATION = 3, // a property was violated
    OUT_EXIT = 4,      // application called exit/_exit (code in exit_code)
    OUT_ABORT = 5,     // abort / assert / terminate / fatal signal
    OUT_DEADLOCK = 6,
    OUT_BUDGET = 7,    // step budget exhausted
    OUT_HANG = 8,      // wall-clock watchdog (set by supervisor)
    OUT_MACHINERY = 9, // the simulator itself cannot continue
    OUT_STUCK = 10,    // simulated-time watchdog
};

// ---- scheduler configuration of a run
struct Sched {
    uint64_t seed = 1;
    int mode = 0;             // 0: run until block, 1: random preemption, 2: PCT
    uint32_t preempt_gap = 0; // mode 1: mean number of sync points between preemptions
    uint32_t mem_gap = 0;     // mean number of instrumented plain memory accesses between preemptions, 0: off
    uint32_t pct_depth = 3;   // mode 2: number of priority change points
    uint32_t pct_len = 4000;  // mode 2: assumed length
    uint32_t spurious_gap = 0;// mean points between spurious condition wakeups, 0: off
    uint32_t stall_gap = 0;   // mean points between stalls, 0: off
    uint32_t stall_max_us = 0;
    uint32_t tick_us = 1;     // simulated time cost of a sync point
    int dir_order = 0;        // 0: by name, 1: in order of creation, 2: shuffled
    uint64_t max_steps = 6000000;
    uint64_t max_time_us = 0; // simulated time limit, 0: none
};

enum FaultKind : uint32_t { F_NONE, F_CRASH, F_TORN, F_EIO, F_ENOSPC, F_SHORT, F_SLOW, F_KINDS };
extern const char* const fault_names[F_KINDS];
struct DiskFault {
    uint32_t kind = 0;
    int32_t mark = -1;   // fires only while this mark is current (-1: any)
    uint32_t k = 0;      // ordinal of the disk operation since the mark (0-based)
    uint32_t n = 1;      // how many consecutive operations are affected (EIO/ENOSPC)
    uint64_t arg = 0;    // torn/short: permille of the write that lands; slow: microseconds
    char filter[24] = {0}; // substring of path, empty: any
};

// ---- deviations from the default schedule
enum DevKind : uint32_t { D_SCHED = 0, D_MEM = 1, D_SPUR = 2, D_STALL = 3, D_SIGNAL = 4, D_KINDS = 5 };
struct Dev { uint32_t kind; uint32_t val; uint64_t idx; };

struct Thread;
constexpr int MAX_DEVS = 400000;
constexpr int MAX_INC = 40;
constexpr size_t LOG_CAP = 6u << 20;
constexpr size_t JOURNAL_CAP = 24u << 20;
constexpr size_t PLAN_CAP = 2u << 20;

struct IncStat {
    uint32_t outcome, exit_code;
    uint64_t steps, switches, sim_us, disk_ops, preempts;
    uint64_t hash;      // hash of everything observable in the schedule
    uint64_t ilv;       // hash of the context switch sequence
    uint32_t dev_begin, dev_end;
};
constexpr int MAX_PROBES = 128;
struct Probe { char name[40]; uint64_t n; };
struct Shm {
    uint64_t magic;
    // run-global
    uint32_t n_inc, cur_inc;
    IncStat inc[MAX_INC];
    char violation[4096];   // first violation message: "<property>: text" (empty: none)
    char abort_msg[4096];
    uint64_t faults[F_KINDS];
    uint64_t spurious, stalls, clockjumps, restarts, net_drop, net_dup, net_delay, net_reorder;
    Probe probes[MAX_PROBES];
    uint32_t walbad;                          // 1 + first incarnation in which a log was written to after a failed append (known finding K01)
    uint32_t n_devs; uint32_t replay;         // replay!=0: rdevs are followed, nothing is drawn
    uint32_t n_rdevs; uint32_t verbose;
    size_t log_len, journal_len, plan_len;
    Dev devs[MAX_DEVS];
    Dev rdevs[MAX_DEVS];                      // sorted per incarnation; rdev_off indexes them
    uint32_t rdev_off[MAX_INC + 1];
    char log[LOG_CAP];
    char journal[JOURNAL_CAP];
    char plan[PLAN_CAP];
    uint64_t powtab[1 << 20]; uint32_t pow_ready;   // generator only: top bits of the hashes of small prices; survives reset_shm
};
Shm& shm();
void shm_create();      // once, in the zygote

// ---- in an incarnation
void start(const Sched& s, const char* root);   // calling thread becomes simulated thread 0
bool active();
[[noreturn]] void finish(Outcome o = OUT_DONE, int code = 0);
[[noreturn]] void violation(const char* prop, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void crash_now(const char* why);
void set_faults(const DiskFault* f, int n);
void mark(int m);        // start a new mark (resets the per-mark disk op counter)
int cur_mark();
uint64_t now_us();       // simulated monotonic clock
uint64_t step();         // global event sequence number
void advance_us(uint64_t us);
void clock_jump_us(int64_t us);  // wall clock jump
int64_t wall_us();
void set_root_enabled(bool on);
void point(const char* why = "user");   // explicit scheduling point
uint64_t app_random();   // deterministic random source seen by the application
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void observe(const void* p, size_t n);  // mix into the run hash
void observe(const std::string& s);
void probe(const char* name, uint64_t n = 1);
void watchdog(uint64_t us_from_now, const char* what); // 0: disarm; fires OUT_STUCK
void thread_name(const char* n);
int self();
int live_threads();      // threads not finished
std::string thread_dump();
// block until pred() holds; pred is evaluated by the scheduler (must not block).  returns false on timeout
bool block_until(bool (*pred)(void*), void* arg, uint64_t timeout_us = 0, const char* why = "harness");
uint64_t disk_ops();
// suppress preemption/scheduling inside harness-only sections
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
typedef void (*ExitHook)(int code);      // called when the application calls exit/_exit in the simulation
void set_exit_hook(ExitHook h);
void set_property(const char* p);        // property blamed for abort/deadlock/hang
const char* property();
}  // namespace rt
namespace rt { int disk_point( const char* what, const char* path ); }   // errno to inject, or 0; may crash
