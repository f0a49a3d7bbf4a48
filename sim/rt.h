// Deterministic simulator runtime: interface used by the workload modules.
#pragma once
#include <exception>
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <new>
#include <initializer_list>

namespace sim {

constexpr int MAXT = 6;          // thread 0 (driver) + up to 5 workers
constexpr int MAXKNOWN = 16;
constexpr int MAXPROBE = 64;

enum FaultKind : int16_t { F_NONE = 0, F_ALLOC = 1, F_THROW = 2, F_EXIT = 3, F_KINDS = 4 };

struct Switch { uint32_t ev; int32_t to; };   // at event `ev` of the op, hand the processor to thread `to`

struct Op
{
    uint32_t uid = 0;
    int32_t kind = 0;
    int32_t a = 0, b = 0, c = 0, d = 0;
    int16_t fk = F_NONE;         // fault attached to this op
    int16_t fk2 = 0;             // allocations: 1: every one from fn on fails (not only the fn-th); call-outs: flavour of the exception
    int32_t fn = 0;
    std::vector<Switch> sw;      // replayed schedule decisions
};

// A plan is one complete simulated execution: setup ops (thread 0, alone), one op list per worker, final ops.
struct Plan
{
    int nthreads = 0;            // workers
    std::vector<Op> setup;
    std::vector<Op> th[MAXT];    // th[1..nthreads]
    std::vector<Op> fin;
    int32_t cfg[8] = {};
    std::vector<Switch> endsw[MAXT]; // decisions taken when a worker finishes or before its first op
};

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
};

// Kinds of simulated configuration of one run, chosen by the engine, visible to generators
struct RunCfg
{
    bool faults = false;         // fault-injecting configuration
    bool threads = true;
    int size = 1;                // 1 small .. 3 large
    bool thorough = false;
};

struct Module
{
    const char *prop;
    bool concurrent;             // schedule is searched
    unsigned faultKinds;         // bit mask over FaultKind the module's ops can take
    bool leakcheck;
    void (*gen)(Rng &, RunCfg const &, Plan &);
    void (*begin)(Plan const &);            // thread 0, before setup ops
    void (*exec)(int tid, Op const &);      // run one op
    void (*check)(Plan const &);            // thread 0, after all ops
    void (*atexit_check)();                 // thread 0, after static destruction (may be null)
    std::string (*show)(Op const &);        // human readable op
    const char *real;            // components running real code
    const char *stub;
};
void add_module(Module const *);
struct Reg { explicit Reg(Module const *m) { add_module(m); } };

// ---- used inside runs --------------------------------------------------------------------------
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void known(int index, const char *what);     // a finding was met again in this run: a violation unless it is listed
void rec(uint64_t v);                        // fold an observable result into the run's hash
uint64_t stamp();                            // next global event sequence number
int tid();                                   // current simulated thread (0 = driver)
void probe(int i);                           // "this condition was reached"
const char *probe_name(int i, const char *name);
int name_probes(int first, std::initializer_list<const char *> names);   // at static initialisation
bool fault_fired();                          // a fault fired inside the current op
bool replaying();
const char *prop();                          // the property being checked

struct Mute                                  // harness-internal code: no faults, scheduling, checking, leak accounting
{
    Mute(); ~Mute();
    Mute(Mute const &) = delete;
};

struct Calm                                  // library calls made by the harness to look: scheduled and checked, but no faults
{
    int was; Calm(); ~Calm();
    Calm(Calm const &) = delete;
};

// what injected user failures throw: the plain Injected, or (by flavour) an exception class derived from it and another one
struct Injected { int serial; int flavour = 0; };
extern int flavours;                         // how many the worlds provide
extern void (*throw_flavour)(int flavour, int serial);
extern bool (*is_ours)();
inline bool ours(std::exception const &) { return is_ours && is_ours(); }   // is the exception being handled an injected one?
void user_point(int kind);                   // a call-out into user code: may throw Injected
bool user_flag(int kind);                    // a call-out that reports failure by value: true = report failure
int user_points_seen();
void sched_hint();                           // explicit preemption point in user code

// object lifetime oracle
void obj_ctor(void const *p, int type, int value);
void obj_dtor(void const *p, int type);
bool obj_alive(void const *p, int type);
int  obj_count(int type);
uint64_t live_blocks();                      // blocks allocated by unmuted code and still live
[[noreturn]] void exit_now(bool leaks);      // simulated process exit from the current thread (leaks: look for leaked blocks)

} // namespace sim
