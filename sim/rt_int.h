// Internal to the simulator (never instrumented): state shared by rt.cpp (runtime) and engine.cpp (search engine).
#pragma once
#include "rt.h"
#include <cstring>

namespace sim {

constexpr uint32_t UID_END = 0xFFFFFF00u;   // pseudo op "thread end / before first op", +tid
constexpr int MAXSW = 60000;

struct SwRec { uint32_t uid, ev; int32_t to; };

enum Strategy { ST_NONE, ST_SYNC, ST_ACCESS, ST_PCT, ST_STALL, ST_REPLAY, ST_KINDS };

struct RunSpec
{
    Strategy st = ST_NONE;
    uint64_t seed = 0;
    uint32_t p_den = 5;          // switch probability at synchronisation points: 1/p_den
    uint32_t mean = 200;         // mean distance of preemptions inside straight-line code
    int depth = 3;               // PCT depth
    uint64_t est = 4000;         // estimated events of a run (for PCT/stall placement)
    bool writer_pref = false;    // simulated platform: writer-preferring rwlocks
    bool spurious = false;       // weak CAS / condvar spurious failures
};

struct Result
{
    volatile int status;         // 0 none, 1 ok, 2 violation, 3 internal error
    char cls[48];
    char msg[1600];
    uint32_t npc, npc2;
    uint32_t pcs[32], pcs2[32];
    uint64_t hash, events, schedsig, opsdone;
    uint64_t fired[F_KINDS], armed[F_KINDS];
    uint64_t stalls, preempts, blocks, spurious;
    uint64_t allocs;
    uint32_t nsw;
    uint32_t knownmask;
    uint8_t probes[MAXPROBE];
    uint32_t viol_uid; int32_t viol_tid;
    SwRec sw[MAXSW];
};

extern Result *g_res;
extern Module const *g_mod;
void child_run(Plan const &plan, RunSpec const &spec, Result *res);  // never returns
void host_mode(bool on);             // the engine's own processes allocate with malloc
extern uint32_t g_known_listed;
extern const char *g_probe_names[MAXPROBE];

} // namespace sim
