// Deterministic simulator runtime. Implements the instrumentation interface the compiler targets with
// -fsanitize=thread, so that every shared access, atomic, lock, static-initialisation guard and allocation of the code
// under test goes through one seeded scheduler.
#include "rt_int.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start[], _end[];
// the runtime's own block operations bypass the interposed ones
extern "C" void *__real_memcpy(void *, const void *, size_t);
extern "C" void *__real_memset(void *, int, size_t);
#define RT_COPY(d, s, n) __real_memcpy(d, s, n)
#define RT_FILL(d, c, n) __real_memset(d, c, n)

namespace sim {

// ------------------------------------------------------------------------------------------------ state
constexpr uintptr_t ARENA = 0x610000000000ull;
constexpr size_t ARENA_SZ = 64ull << 20;
constexpr uintptr_t SHADOW = 0x620000000000ull;         // arena shadow: 64 bytes per 8
constexpr uintptr_t DSHADOW = 0x640000000000ull;        // data/bss shadow
constexpr uintptr_t STACKS = 0x600000000000ull;
constexpr uintptr_t HARENA = 0x630000000000ull;         // memory outside the simulated heap (harness, before main, at exit)
constexpr size_t HARENA_SZ = 16ull << 30;
constexpr size_t STACK_SZ = 1ull << 20;
constexpr int REDZONE = 32;

struct Rec { uint32_t pc, epoch; uint8_t tid, mask, fl, pad; };      // fl: 1 write, 2 atomic, 4 free
struct Cell { uint8_t valid, next, pad[2]; Rec rec[5]; };
static_assert(sizeof(Cell) == 64, "");

using VC = uint32_t[MAXT];

struct Sync
{
    uintptr_t key;
    uint32_t idx;
    VC vc, rvc;
    int16_t writer;              // -1 none
    int16_t depth;
    int16_t readers[MAXT];
    int16_t wwait;
    uint8_t once;                // guards / once: 0 new, 1 in progress, 2 done
    int8_t onceby;
    uint32_t signals;
};

enum TS { T_NONE, T_READY, T_BLOCKED, T_DONE };

struct Tcb
{
    int id;
    std::atomic<int> go;
    TS st;
    Sync *wait;
    bool timed;                  // a timed wait: may be released when nothing else can run
    bool timedout;
    int mute;
    uint64_t ev, ev_next;
    uint64_t total;
    VC vc, pend;                 // pend: clocks seen by relaxed loads (for fences)
    VC relf; bool hasrelf;
    Op const *op;
    uint32_t opuid;
    std::vector<Switch> const *sw;
    size_t swi;
    int armed;
    int allocs, points;
    bool fired;
    int held;                    // locks held
    uint32_t sp;
    uint32_t stack[256];
    uint32_t prio;
    bool stalled;
    uint64_t spin;               // events since anything else ran
    pthread_t pt;
    int indtor;
    uint64_t optotal;
};

struct Block { uintptr_t addr; uint32_t size; uint8_t st, tid, counted, pad; uint16_t al; uint32_t uid; uint32_t pcs[8]; uint32_t fpcs[6]; };

Result *g_res;
Module const *g_mod;
const char *g_probe_names[MAXPROBE];

static bool g_active;
static Tcb g_t[MAXT];
static int g_nt;                 // worker count
static int g_live = 1;           // threads that exist and are not done
static __thread Tcb *self __attribute__((tls_model("initial-exec")));
static Plan const *g_plan;
static RunSpec g_spec;
static Rng g_rng{1};
static uint64_t g_total;
static uint64_t g_stamp;
static uint64_t g_hash;
static uint64_t g_schedsig;
static uintptr_t g_brk;
static Block *g_blk; static uint32_t g_nblk; constexpr uint32_t MAXBLK = 400000;
static Sync *g_sync; constexpr uint32_t NSYNC = 1u << 16; static uint32_t g_nsync;
static uint64_t g_cps[16]; static int g_ncp;
static int g_stall_victim; static uint64_t g_stall_at;
static bool g_fair; static bool g_exiting;
constexpr uint64_t CAP1 = 4000000, CAP2 = 12000000;
static Mute *dummy_ [[maybe_unused]];

static inline void mix(uint64_t v) { g_hash = (g_hash ^ v) * 0x100000001B3ull; g_hash ^= g_hash >> 29; }

static void die(int status)
{
    Result *r = g_res;
    r->hash = g_hash; r->events = g_total; r->schedsig = g_schedsig;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    r->status = status;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

static void put_stack(Tcb *t, uint32_t *out, uint32_t &n, uint32_t pc)
{
    n = 0;
    if (pc) out[n++] = pc;
    if (!t) return;
    uint32_t sp = t->sp > 256 ? 256 : t->sp;
    while (sp && n < 32) out[n++] = t->stack[--sp];
}

[[noreturn]] static void vviolation(uint32_t pc, const char *cls, const char *fmt, va_list ap)
{
    Result *r = g_res;
    if (self) ++self->mute;
    snprintf(r->cls, sizeof r->cls, "%s", cls);
    vsnprintf(r->msg, sizeof r->msg, fmt, ap);
    Tcb *t = self;
    put_stack(t, r->pcs, r->npc, pc);
    r->viol_tid = t ? t->id : -1;
    r->viol_uid = t ? t->opuid : 0;
    mix(0xdead);
    for (char *p = r->cls; *p; ++p) mix(uint8_t(*p));
    die(2);
    __builtin_unreachable();
}

void violation(const char *cls, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vviolation(0, cls, fmt, ap);
}
[[noreturn]] static void violation_pc(uint32_t pc, const char *cls, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vviolation(pc, cls, fmt, ap);
}
[[noreturn]] static void internal(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (self) ++self->mute;
    vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    snprintf(g_res->cls, sizeof g_res->cls, "internal");
    die(3);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------ threads
static void fwait(Tcb *t)
{
    while (!t->go.load(std::memory_order_acquire))
        syscall(SYS_futex, reinterpret_cast<int *>(&t->go), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void fwake(Tcb *t)
{
    t->go.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int *>(&t->go), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void arm_next(Tcb *t)     // set the next event at which straight-line code is preempted
{
    uint64_t const NEVER = ~0ull;
    if (t->mute) { t->ev_next = NEVER; return; }
    if (g_spec.st == ST_REPLAY)
    {
        t->ev_next = NEVER;
        if (t->sw) while (t->swi < t->sw->size() && (*t->sw)[t->swi].ev < t->ev) ++t->swi;
        if (t->sw && t->swi < t->sw->size()) t->ev_next = (*t->sw)[t->swi].ev;
        uint64_t lim = t->ev + 300000;
        if (t->ev_next > lim) t->ev_next = lim;
        return;
    }
    if (g_fair) { t->ev_next = t->ev + 500; return; }
    uint64_t d = 300000;
    if (g_spec.st == ST_ACCESS)
    {
        uint64_t k = 1 + g_rng.below(2 * g_spec.mean);
        if (k < d) d = k;
    }
    else if (g_spec.st == ST_PCT)
    {
        for (int i = 0; i < g_ncp; ++i)
            if (g_cps[i] > g_total && g_cps[i] - g_total < d) d = g_cps[i] - g_total;
    }
    else if (g_spec.st == ST_STALL && t->id == g_stall_victim && t->total < g_stall_at)
    {
        if (g_stall_at - t->total < d) d = g_stall_at - t->total;
    }
    t->ev_next = t->ev + d;
}

static bool runnable(Tcb *t) { return t->st == T_READY; }

static void describe_blocked(char *buf, size_t n)
{
    size_t k = 0; buf[0] = 0;
    for (int i = 0; i <= g_nt; ++i)
    {
        Tcb &t = g_t[i];
        if (t.st != T_BLOCKED || !t.wait) continue;
        k += snprintf(buf + k, n - k, " thread %d (op %u) waits for object #%u", i, t.opuid, t.wait->idx);
        if (t.wait->writer >= 0) k += snprintf(buf + k, n - k, " held by %d", t.wait->writer);
        for (int r = 0; r < MAXT; ++r) if (t.wait->readers[r]) k += snprintf(buf + k, n - k, " read-held by %d", r);
        if (t.wait->once == 1) k += snprintf(buf + k, n - k, " being initialised by %d", t.wait->onceby);
        k += snprintf(buf + k, n - k, ";");
        if (k + 100 > n) break;
    }
}

// Choose who runs next. must: the current thread cannot continue.
static Tcb *pick(Tcb *t, bool must, bool yielding)
{
    Tcb *c[MAXT]; int n = 0;
    for (int i = 0; i <= g_nt; ++i)
        if (runnable(&g_t[i]) && (&g_t[i] != t || !must)) c[n++] = &g_t[i];
    if (!n)
    {
        // simulated time jumps to the next deadline of a timed wait
        for (int i = 0; i <= g_nt; ++i)
            if (g_t[i].st == T_BLOCKED && g_t[i].timed) { g_t[i].st = T_READY; g_t[i].timedout = true; return &g_t[i]; }
        ++t->mute;
        char b[900]; describe_blocked(b, sizeof b);
        put_stack(nullptr, g_res->pcs2, g_res->npc2, 0);
        for (int i = 0; i <= g_nt; ++i) if (&g_t[i] != t && g_t[i].st == T_BLOCKED && i) { put_stack(&g_t[i], g_res->pcs2, g_res->npc2, 0); break; }
        violation("deadlock", "no thread can make progress:%s", b);
    }
    if (g_spec.st == ST_REPLAY)
    {
        if (t->sw)
        {
            while (t->swi < t->sw->size() && (*t->sw)[t->swi].ev < t->ev) ++t->swi;
            if (t->swi < t->sw->size() && (*t->sw)[t->swi].ev == t->ev)
            {
                int to = (*t->sw)[t->swi].to; ++t->swi;
                if (to >= 0 && to <= g_nt && runnable(&g_t[to]) && (&g_t[to] != t || !must)) return &g_t[to];
            }
        }
        if (must || yielding || t->spin > 250000)
        {
            for (int i = 0; i < n; ++i) if (c[i] != t) { if (yielding || t->spin > 250000) { for (int j = 0; j < n; ++j) if (c[j]->id > t->id) return c[j]; } return c[i]; }
            return c[0];
        }
        return t;
    }
    if (g_fair)
    {
        for (int j = 0; j < n; ++j) if (c[j]->id > t->id) return c[j];
        return c[0];
    }
    bool forced = must || yielding || t->spin > 250000;
    switch (g_spec.st)
    {
    case ST_PCT:
    {
        for (int i = 0; i < g_ncp; ++i)
            if (g_cps[i] && g_cps[i] <= g_total) { g_cps[i] = 0; t->prio = uint32_t(g_ncp - i); }
        if (forced && !must) t->prio = 0;
        Tcb *best = c[0];
        for (int i = 1; i < n; ++i) if (c[i]->prio > best->prio) best = c[i];
        if (forced && best == t) for (int i = 0; i < n; ++i) if (c[i] != t) best = c[i];
        return best;
    }
    case ST_STALL:
    {
        Tcb &v = g_t[g_stall_victim];
        if (!v.stalled && v.total >= g_stall_at && v.st != T_DONE && g_stall_victim) { v.stalled = true; ++g_res->stalls; }
        if (n > 1 && v.stalled) { int m = 0; for (int i = 0; i < n; ++i) if (c[i] != &v) c[m++] = c[i]; n = m; }
        bool in = false; for (int i = 0; i < n; ++i) in |= (c[i] == t);
        if (in && !forced && !g_rng.chance(1, g_spec.p_den)) return t;
        break;
    }
    case ST_SYNC: case ST_ACCESS:
        if (!forced && t->ev < t->ev_next && !g_rng.chance(1, g_spec.p_den)) return t;
        break;
    default:
        if (!forced) return t;
    }
    if (forced && n > 1) { int m = 0; for (int i = 0; i < n; ++i) if (c[i] != t) c[m++] = c[i]; n = m; }
    return c[g_rng.below(n)];
}

static void reschedule(Tcb *t, bool must, bool yielding = false)
{
    if (g_exiting && !must) return;
    if (g_live <= 1 && !must) { arm_next(t); if (g_total > CAP2) violation("livelock", "an operation does not terminate (%llu steps, nothing else runs)", (unsigned long long)g_total); return; }
    if (g_total > CAP1 && !g_fair) g_fair = true;
    if (g_total > CAP2)
        violation("livelock", "operations do not finish within %llu fairly scheduled steps", (unsigned long long)(CAP2 - CAP1));
    Tcb *n = pick(t, must, yielding);
    if (n == t) { arm_next(t); return; }
    {
        Result *r = g_res;
        mix((uint64_t(t->id) << 56) ^ (uint64_t(n->id) << 48) ^ (uint64_t(t->opuid) << 24) ^ t->ev);
        if (r->nsw < MAXSW) r->sw[r->nsw++] = SwRec{t->opuid, uint32_t(t->ev), n->id};
        g_schedsig = (g_schedsig ^ ((uint64_t(t->opuid) << 32) ^ (uint64_t(t->ev) << 4) ^ n->id)) * 0x9E3779B97F4A7C15ull;
        g_schedsig ^= g_schedsig >> 31;
        if (must) ++r->blocks; else ++r->preempts;
    }
    n->spin = 0;
    t->spin = 0;
    if (t->stalled && n != t) {}
    bool done = t->st == T_DONE;
    fwake(n);
    if (done) return;
    fwait(t);
    t->spin = 0;
    arm_next(t);
}

static void slow(Tcb *t)
{
    uint64_t before = t->ev;
    reschedule(t, false);
    if (t->ev_next <= before) arm_next(t);
}

static inline void event(Tcb *t)
{
    ++t->total; ++g_total; ++t->spin;
    if (__builtin_expect(++t->ev >= t->ev_next, 0)) slow(t);
}
static void sync_point(Tcb *t, uint32_t what)
{
    if (t->mute) return;
    ++t->total; ++g_total; ++t->ev; ++t->spin;
    mix(what);
    reschedule(t, false);
}
static void block_on(Tcb *t, Sync *o)
{
    t->st = T_BLOCKED; t->wait = o;
    ++t->ev; ++t->total; ++g_total;
    reschedule(t, true);
    t->wait = nullptr;
}
static void wake_all(Sync *o)
{
    for (int i = 0; i <= g_nt; ++i)
        if (g_t[i].st == T_BLOCKED && g_t[i].wait == o) { g_t[i].st = T_READY; }
}

// ------------------------------------------------------------------------------------------------ clocks
static inline void join(VC a, VC const b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static inline void tick(Tcb *t) { ++t->vc[t->id]; }

static Sync *sync_of(void const *p)
{
    uintptr_t k = reinterpret_cast<uintptr_t>(p);
    uint32_t h = uint32_t((k * 0x9E3779B97F4A7C15ull) >> 48) & (NSYNC - 1);
    for (;; h = (h + 1) & (NSYNC - 1))
    {
        if (g_sync[h].key == k) return &g_sync[h];
        if (!g_sync[h].key)
        {
            if (g_nsync > NSYNC * 3 / 4) internal("sync table full");
            g_sync[h].key = k; g_sync[h].idx = ++g_nsync; g_sync[h].writer = -1;
            return &g_sync[h];
        }
    }
}

// ------------------------------------------------------------------------------------------------ memory
static Block *find_block(uintptr_t a)
{
    if (!g_nblk) return nullptr;
    uint32_t lo = 0, hi = g_nblk;
    while (hi - lo > 1) { uint32_t m = (lo + hi) / 2; if (g_blk[m].addr <= a) lo = m; else hi = m; }
    return &g_blk[lo];
}

[[noreturn]] static void bad_access(uintptr_t a, size_t n, bool w, uint32_t pc)
{
    Block *b = find_block(a);
    const char *what = "outside any live allocation";
    if (b && a < b->addr + b->size + REDZONE)
    {
        what = (b->st == 2) ? "of freed memory" : "past the end of an allocation";
        if (b->st == 2) { g_res->npc2 = 0; for (int i = 0; i < 6 && b->fpcs[i]; ++i) g_res->pcs2[g_res->npc2++] = b->fpcs[i]; }
        else { g_res->npc2 = 0; for (int i = 0; i < 8 && b->pcs[i]; ++i) g_res->pcs2[g_res->npc2++] = b->pcs[i]; }
        violation_pc(pc, b->st == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu bytes %s (block of %u bytes, offset %ld)",
                     w ? "write" : "read", n, what, b->size, long(a - b->addr));
    }
    violation_pc(pc, "out-of-bounds", "%s of %zu bytes %s", w ? "write" : "read", n, what);
}

static void race(Tcb *t, Rec const &r, uintptr_t a, bool w, bool at, uint32_t pc)
{
    g_res->npc2 = 0; g_res->pcs2[g_res->npc2++] = r.pc;
    Block *b = (a - ARENA < ARENA_SZ) ? find_block(a) : nullptr;
    violation_pc(pc, "race", "data race: %s%s by thread %d conflicts with earlier %s%s by thread %d%s", at ? "atomic " : "",
                 w ? "write" : "read", t->id, (r.fl & 2) ? "atomic " : "", (r.fl & 4) ? "release of the memory" : (r.fl & 1) ? "write" : "read", r.tid,
                 b ? " (heap object)" : " (global object)");
}

static inline void touch(Tcb *t, Cell *c, uintptr_t a, uint8_t mask, uint8_t fl, uint32_t pc)
{
    uint32_t ep = t->vc[t->id];
    int slot = -1, evict = -1;
    for (int i = 0; i < 5; ++i)
    {
        Rec &r = c->rec[i];
        if (!r.mask) { if (slot < 0) slot = i; continue; }
        if (r.tid == t->id)
        {
            if ((r.mask & ~mask) == 0 && (fl & 1) >= (r.fl & 1) && (fl & 2) <= (r.fl & 2)) slot = i;
            continue;
        }
        if (r.epoch > t->vc[r.tid])
        {
            if ((r.mask & mask) && ((fl | r.fl) & 1) && !(fl & r.fl & 2)) race(t, r, a, fl & 1, fl & 2, pc);
        }
        else evict = i;
    }
    if (slot < 0) slot = evict >= 0 ? evict : (c->next = uint8_t((c->next + 1) % 5));
    c->rec[slot] = Rec{pc, ep, uint8_t(t->id), mask, fl, 0};
}

static inline Cell *cell_of(uintptr_t a, bool &arena)
{
    if (a - ARENA < ARENA_SZ) { arena = true; return reinterpret_cast<Cell *>(SHADOW + ((a - ARENA) >> 3) * 64); }
    arena = false;
    uintptr_t d0 = reinterpret_cast<uintptr_t>(__data_start) & ~7ull;
    if (a >= d0 && a < reinterpret_cast<uintptr_t>(_end)) return reinterpret_cast<Cell *>(DSHADOW + ((a - d0) >> 3) * 64);
    return nullptr;
}

static inline void access1(Tcb *t, uintptr_t a, size_t n, uint8_t fl, uint32_t pc)
{
    // n <= 8 bytes within one or two granules
    while (n)
    {
        bool arena; Cell *c = cell_of(a, arena);
        if (!c) return;
        size_t off = a & 7, m = 8 - off < n ? 8 - off : n;
        if (arena && (c->valid == 0xFF || off + m > c->valid)) bad_access(a, n, fl & 1, pc);
        if (g_live > 1) touch(t, c, a, uint8_t(((1u << m) - 1) << off), fl, pc);
        a += m; n -= m;
    }
}

static inline void hook(void *p, size_t n, uint8_t fl, void *pc)
{
    Tcb *t = self;
    if (!t || t->mute || !g_active) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    bool ar; if (!cell_of(a, ar)) { if (a < 4096) violation_pc(uint32_t(uintptr_t(pc)), "crash", "%s through a null pointer (address %#lx)", (fl & 1) ? "write" : "read", (unsigned long)a); return; }
    event(t);
    access1(t, a, n, fl, uint32_t(uintptr_t(pc)));
}
static void hook_range(void *p, size_t n, uint8_t fl, void *pc)
{
    Tcb *t = self;
    if (!t || t->mute || !g_active || !n) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    bool ar; if (!cell_of(a, ar)) return;
    event(t);
    access1(t, a, n, fl, uint32_t(uintptr_t(pc)));
}

static void *arena_alloc(Tcb *t, size_t size, size_t align)
{
    size_t asked = align;                                   // 0: default
    if (align < 16) align = 16;
    if (size > ARENA_SZ / 4) return nullptr;
    uintptr_t a = (g_brk + align - 1) & ~(align - 1);
    if (align == 16) a |= 16;                               // never aligned more than promised
    if (a + size + REDZONE > ARENA + ARENA_SZ || g_nblk >= MAXBLK) internal("simulated memory exhausted");
    g_brk = a + size + REDZONE;
    Block &b = g_blk[g_nblk++];
    b.addr = a; b.size = uint32_t(size); b.st = 1; b.al = uint16_t(asked); b.tid = uint8_t(t->id); b.uid = t->opuid; b.counted = 1;
    for (int i = 0; i < 8; ++i) { uint32_t sp = t->sp > 256 ? 256 : t->sp; b.pcs[i] = uint32_t(i) < sp ? t->stack[sp - 1 - i] : 0; }
    Cell *c = reinterpret_cast<Cell *>(SHADOW + ((a - ARENA) >> 3) * 64);
    size_t left = size ? size : 0;
    while (left) { c->valid = left >= 8 ? 8 : uint8_t(left); left -= c->valid; ++c; }
    RT_FILL(reinterpret_cast<void *>(a), 0xAB, size);
    ++g_res->allocs;
    return reinterpret_cast<void *>(a);
}

static void arena_free(void *p, void *pc, size_t al)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    Block *b = find_block(a);
    uint32_t upc = uint32_t(uintptr_t(pc));
    if (!b || b->addr != a) violation_pc(upc, "bad-free", "release of an address that was never allocated");
    if (b->st == 2)
    {
        g_res->npc2 = 0; for (int i = 0; i < 6 && b->fpcs[i]; ++i) g_res->pcs2[g_res->npc2++] = b->fpcs[i];
        violation_pc(upc, "double-free", "a block of %u bytes is released twice", b->size);
    }
    if (b->al != al) violation_pc(upc, "bad-free", "a block allocated with alignment %u (0: default) is released with alignment %u", unsigned(b->al), unsigned(al));
    Tcb *t = self;
    if (t && !t->mute && g_active) { event(t); if (b->st == 2) violation_pc(upc, "double-free", "a block of %u bytes is released twice", b->size); }
    b->st = 2;
    for (int i = 0; i < 6; ++i) b->fpcs[i] = 0;
    if (t) { b->fpcs[0] = upc; uint32_t sp = t->sp > 256 ? 256 : t->sp; for (int i = 1; i < 6 && uint32_t(i) <= sp; ++i) b->fpcs[i] = t->stack[sp - i]; }
    Cell *c = reinterpret_cast<Cell *>(SHADOW + ((a - ARENA) >> 3) * 64);
    for (size_t k = 0; k < b->size; k += 8, ++c)
    {
        if (t && !t->mute && g_live > 1) touch(t, c, a + k, 0xFF, 1 | 4, upc);
        c->valid = 0xFF;
    }
    RT_FILL(p, 0xDD, b->size);
}

// ------------------------------------------------------------------------------------------------ locks
static int lk_rd(void *l, bool tr)
{
    Tcb *t = self; Sync *o = sync_of(l);
    sync_point(t, 0x100 + o->idx);
    if (o->writer == t->id) return tr ? EBUSY : EDEADLK;
    while (o->writer != -1 || (g_spec.writer_pref && o->wwait > 0))
    {
        if (tr) return EBUSY;
        block_on(t, o);
    }
    ++o->readers[t->id]; ++t->held;
    join(t->vc, o->vc);
    return 0;
}
static bool any_reader(Sync *o) { for (int i = 0; i < MAXT; ++i) if (o->readers[i]) return true; return false; }
static int lk_wr(void *l, bool tr)
{
    Tcb *t = self; Sync *o = sync_of(l);
    sync_point(t, 0x200 + o->idx);
    if (o->writer == t->id) return tr ? EBUSY : EDEADLK;
    bool waiting = false;
    while (o->writer != -1 || any_reader(o))
    {
        if (tr) return EBUSY;
        if (!waiting) { waiting = true; ++o->wwait; }
        block_on(t, o);
    }
    if (waiting) { --o->wwait; }
    o->writer = int16_t(t->id); ++t->held;
    join(t->vc, o->vc); join(t->vc, o->rvc);
    return 0;
}
static int lk_unlock(void *l)
{
    Tcb *t = self; Sync *o = sync_of(l);
    sync_point(t, 0x300 + o->idx);
    if (o->writer == t->id) { o->writer = -1; RT_COPY(o->vc, t->vc, sizeof(VC)); join(o->vc, o->rvc); }
    else if (o->readers[t->id]) { --o->readers[t->id]; join(o->rvc, t->vc); }
    else violation("bad-unlock", "a lock is released by a thread that does not hold it");
    --t->held; tick(t);
    wake_all(o);
    return 0;
}
static int mx_lock(void *m, int kind, bool tr)
{
    Tcb *t = self; Sync *o = sync_of(m);
    sync_point(t, 0x400 + o->idx);
    if (o->writer == t->id)
    {
        if (kind == 1) { ++o->depth; return 0; }
        if (tr) return EBUSY;
        if (kind == 2) return EDEADLK;
    }
    while (o->writer != -1)
    {
        if (tr) return EBUSY;
        block_on(t, o);
    }
    o->writer = int16_t(t->id); o->depth = 0; ++t->held;
    join(t->vc, o->vc);
    return 0;
}
static int mx_unlock(void *m)
{
    Tcb *t = self; Sync *o = sync_of(m);
    sync_point(t, 0x500 + o->idx);
    if (o->writer != t->id) violation("bad-unlock", "a mutex is released by a thread that does not hold it");
    if (o->depth) { --o->depth; return 0; }
    o->writer = -1; --t->held;
    RT_COPY(o->vc, t->vc, sizeof(VC)); tick(t);
    wake_all(o);
    return 0;
}
static bool spurious(Tcb *t)
{
    if (!g_spec.spurious) return false;
    uint64_t h = (g_spec.seed ^ (uint64_t(t->opuid) << 32) ^ t->ev) * 0x9E3779B97F4A7C15ull;
    return ((h >> 40) & 3) == 0;
}
static int cv_wait(void *cv, void *m, bool timed)
{
    Tcb *t = self; Sync *o = sync_of(cv);
    int saved = sync_of(m)->depth; sync_of(m)->depth = 0;
    mx_unlock(m);
    if (spurious(t)) ++g_res->spurious;
    else
    {
        t->timed = timed; t->timedout = false;
        uint32_t s = o->signals;
        while (o->signals == s && !t->timedout) block_on(t, o);
        t->timed = false;
    }
    join(t->vc, o->vc);
    int r = t->timedout ? ETIMEDOUT : 0;
    t->timedout = false;
    mx_lock(m, 1, false);
    sync_of(m)->depth = int16_t(saved);
    return r;
}
static int cv_signal(void *cv)
{
    Tcb *t = self; Sync *o = sync_of(cv);
    sync_point(t, 0x600 + o->idx);
    ++o->signals; join(o->vc, t->vc); tick(t);
    wake_all(o);                 // waking more than one is allowed (spurious wake-ups)
    return 0;
}

static inline bool simulated() { return self && g_active; }

// ------------------------------------------------------------------------------------------------ public API
void rec(uint64_t v) { mix(v ^ 0x5151); }
uint64_t stamp() { return ++g_stamp; }
int tid() { return self ? self->id : 0; }
void probe(int i) { if (i >= 0 && i < MAXPROBE && g_res) g_res->probes[i] = 1; }
int name_probes(int f, std::initializer_list<const char *> n) { for (auto *x: n) probe_name(f++, x); return f; }
const char *probe_name(int i, const char *n) { g_probe_names[i] = n; return n; }
bool fault_fired() { return self && self->fired; }
const char *prop() { return g_mod ? g_mod->prop : ""; }
bool replaying() { return g_spec.st == ST_REPLAY; }
uint32_t g_known_listed;
void known(int i, const char *what)
{
    if (!(g_known_listed >> i & 1)) violation("finding", "%s", what);
    if (g_res) g_res->knownmask |= 1u << i;
}
Mute::Mute() { if (self) { ++self->mute; } }
Calm::Calm(): was(self ? self->armed : 0) { if (self) self->armed = 0; }
Calm::~Calm() { if (self) self->armed = was; }
Mute::~Mute() { if (self) { --self->mute; } }
int user_points_seen() { return self ? self->points : 0; }
uint64_t live_blocks() { uint64_t n = 0; for (uint32_t i = 0; i < g_nblk; ++i) n += (g_blk[i].st == 1); return n; }
void sched_hint() { Tcb *t = self; if (t && g_active) sync_point(t, 0x700); }

int flavours = 0;
void (*throw_flavour)(int, int) = nullptr;
bool (*is_ours)() = nullptr;
void user_point(int kind)
{
    Tcb *t = self;
    if (!t || !g_active || t->mute) return;
    sync_point(t, 0x800 + kind);
    if (!t->armed) return;
    ++t->points;
    if (t->op && t->op->fk == F_THROW && t->points == t->op->fn && !t->fired)
    {
        t->fired = true; ++g_res->fired[F_THROW];
        mix(0x7777);
        if (t->op->fk2 && throw_flavour) throw_flavour(t->op->fk2, int(t->opuid));
        throw Injected{int(t->opuid)};
    }
}
bool user_flag(int kind)
{
    Tcb *t = self;
    if (!t || !g_active || t->mute) return false;
    sync_point(t, 0x900 + kind);
    if (!t->armed) return false;
    ++t->points;
    if (t->op && t->op->fk == F_THROW && t->points == t->op->fn && !t->fired)
    {
        t->fired = true; ++g_res->fired[F_THROW];
        return true;
    }
    return false;
}

// object lifetimes: small open-addressing table keyed by address and type
struct Obj { uintptr_t p; int16_t type; uint8_t alive; uint8_t pad; int32_t value; uint32_t pc; };
constexpr uint32_t NOBJ = 1u << 16;
static Obj *g_obj; static uint32_t g_nobj;
static int g_objcount[256];
static Obj *obj_slot(void const *p, int type)
{
    uintptr_t k = reinterpret_cast<uintptr_t>(p);
    uint32_t h = uint32_t(((k ^ (uint64_t(type) << 50)) * 0x9E3779B97F4A7C15ull) >> 48) & (NOBJ - 1);
    for (;; h = (h + 1) & (NOBJ - 1))
    {
        if (g_obj[h].p == k && g_obj[h].type == type) return &g_obj[h];
        if (!g_obj[h].p)
        {
            if (++g_nobj > NOBJ * 3 / 4) internal("object table full");
            g_obj[h].p = k; g_obj[h].type = int16_t(type);
            return &g_obj[h];
        }
    }
}
void obj_ctor(void const *p, int type, int value)
{
    Obj *o = obj_slot(p, type);
    if (o->alive) violation("lifetime", "object of type %d constructed over a living one", type);
    o->alive = 1; o->value = value; ++g_objcount[type & 255];
}
void obj_dtor(void const *p, int type)
{
    Obj *o = obj_slot(p, type);
    if (!o->alive) violation("lifetime", "object of type %d destroyed while not alive (never constructed, or destroyed twice)", type);
    o->alive = 0; --g_objcount[type & 255];
}
bool obj_alive(void const *p, int type) { return obj_slot(p, type)->alive; }
int obj_count(int type) { return g_objcount[type & 255]; }

// ------------------------------------------------------------------------------------------------ run
static void begin_op(Tcb *t, Op const &op)
{
    t->op = &op; t->opuid = op.uid; t->ev = 0; t->sw = &op.sw; t->swi = 0;
    t->allocs = 0; t->points = 0; t->fired = false; t->optotal = g_total;
    if (op.fk != F_NONE) ++g_res->armed[op.fk];
    t->ev_next = 0;
    arm_next(t);
}
static void end_op(Tcb *t)
{
    mix(t->ev ^ (uint64_t(t->allocs) << 40) ^ (uint64_t(t->points) << 50));
    if (t->held) violation("lock-held", "a lock stays held after operation %u returned", t->opuid);
    ++g_res->opsdone;
}
static void pseudo_op(Tcb *t)
{
    t->op = nullptr; t->opuid = UID_END + uint32_t(t->id); t->sw = &g_plan->endsw[t->id];
}
static void run_ops(Tcb *t, std::vector<Op> const &ops)
{
    for (auto const &op: ops)
    {
        begin_op(t, op);
        if (g_live > 1) sync_point(t, 0xA00);
        t->armed = 1;
        g_mod->exec(t->id, op);
        t->armed = 0;
        end_op(t);
    }
}

static void sig_handler(int s, siginfo_t *si, void *uc_)
{
    auto *uc = static_cast<ucontext_t *>(uc_);
    uint32_t pc = uint32_t(uc->uc_mcontext.gregs[REG_RIP]);
    if (s == SIGVTALRM || s == SIGPROF) violation_pc(pc, "hang", "an operation does not return");
    if (s == SIGABRT) violation_pc(0, "abort", "the process aborts");
    violation_pc(pc, "crash", "signal %d (%s)", s, s == SIGSEGV ? "invalid memory access" : s == SIGFPE ? "arithmetic" : s == SIGILL ? "illegal instruction" : "bus error");
    (void)si;
}
static void install_signals()
{
    struct sigaction sa; RT_FILL(&sa, 0, sizeof sa);
    sa.sa_sigaction = sig_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask);
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGPROF, SIGTRAP};
    for (int s: sigs) sigaction(s, &sa, nullptr);
    struct itimerval it = {{0, 0}, {20, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void altstack(int id)
{
    stack_t ss; RT_FILL(&ss, 0, sizeof ss);
    ss.ss_size = 64 * 1024;
    ss.ss_sp = mmap(reinterpret_cast<void *>(STACKS + (MAXT + 2) * (2 * STACK_SZ) + id * 0x20000), ss.ss_size, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    sigaltstack(&ss, nullptr);
}
[[noreturn]] static void on_terminate()
{
    const char *what = "no exception";
    if (auto *ti = abi::__cxa_current_exception_type()) what = ti->name();
    violation("terminate", "std::terminate called (%s)", what);
}

static void *worker_main(void *p)
{
    Tcb *t = static_cast<Tcb *>(p);
    altstack(t->id);
    self = t;
    fwait(t);
    t->mute = 0;
    pseudo_op(t); t->ev = 0; arm_next(t);
    run_ops(t, g_plan->th[t->id]);
    pseudo_op(t); t->ev = 1; t->swi = 0;
    t->st = T_DONE; --g_live;
    tick(t);
    join(g_t[0].vc, t->vc);
    bool all = true;
    for (int i = 1; i <= g_nt; ++i) all &= g_t[i].st == T_DONE;
    if (all) g_t[0].st = T_READY;
    reschedule(t, true);
    self = nullptr;
    for (;;) pause();
}

static void start(Tcb *t, void *(*f)(void *))
{
    pthread_attr_t at; pthread_attr_init(&at);
    char *s = reinterpret_cast<char *>(STACKS + t->id * 2 * STACK_SZ);
    if (mmap(s, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) internal("stack mmap");
    pthread_attr_setstack(&at, s, STACK_SZ);
    extern int real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (real_pthread_create(&t->pt, &at, f, t)) internal("pthread_create");
}

static bool g_finished, g_noleaks;
static void *t0_main(void *p)
{
    Tcb *t = static_cast<Tcb *>(p);
    altstack(0);
    self = t; t->st = T_READY;
    g_active = true;
    Plan const &pl = *g_plan;
    { Mute m; g_mod->begin(pl); }
    run_ops(t, pl.setup);
    if (g_nt)
    {
        for (int i = 1; i <= g_nt; ++i)
        {
            Tcb &w = g_t[i];
            w.id = i; w.st = T_READY; w.mute = 1;
            RT_COPY(w.vc, t->vc, sizeof(VC)); w.vc[i] = 1;
            w.prio = 100 + g_rng.below(1000000);
            start(&w, worker_main);
        }
        tick(t);
        g_live = g_nt + 1;
        pseudo_op(t); t->ev = 1; t->swi = 0;
        t->st = T_BLOCKED; t->wait = sync_of(&g_live); --g_live;
        reschedule(t, true);
        t->wait = nullptr;
        g_live = 1;
    }
    run_ops(t, pl.fin);
    pseudo_op(t); t->ev = 0; t->ev_next = ~0ull;
    { Mute m; g_mod->check(pl); }
    g_finished = true;
    g_exiting = true;
    exit(0);
}

void exit_now(bool leaks)
{
    self->armed = 0; pseudo_op(self); self->ev = 0; self->ev_next = ~0ull;
    g_noleaks = !leaks; g_finished = true; g_exiting = true;
    exit(0);
}

static void last_atexit()
{
    if (!g_active || !self) return;      // parent process
    if (!g_finished) violation("exit", "the process exits unexpectedly");
    Tcb *t = self;
    ++t->mute;
    if (g_mod->atexit_check) g_mod->atexit_check();
    if (g_mod->leakcheck && !g_noleaks)
        for (uint32_t i = 0; i < g_nblk; ++i)
            if (g_blk[i].st == 1)
            {
                g_res->npc2 = 0;
                for (int k = 0; k < 8 && g_blk[i].pcs[k]; ++k) g_res->pcs2[g_res->npc2++] = g_blk[i].pcs[k];
                t->opuid = g_blk[i].uid;
                violation("leak", "a block of %u bytes allocated by operation %u is never released", g_blk[i].size, g_blk[i].uid);
            }
    mix(g_total);
    die(1);
}
__attribute__((constructor(101))) static void reg_last() { atexit(last_atexit); }

void host_mode(bool on);
void child_run(Plan const &plan, RunSpec const &spec, Result *res)
{
    host_mode(false);
    g_plan = &plan; g_spec = spec; g_res = res; g_rng = Rng(spec.seed);
    g_nt = plan.nthreads;
    g_hash = 0xcbf29ce484222325ull;
    auto mm = [](uintptr_t at, size_t n) -> void * {
        void *p = mmap(reinterpret_cast<void *>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED : 0), -1, 0);
        if (p == MAP_FAILED) internal("mmap");
        return p;
    };
    mm(ARENA, ARENA_SZ); mm(SHADOW, ARENA_SZ * 8);
    mm(DSHADOW, (size_t(_end - __data_start) + 64) * 8);
    g_brk = ARENA + 4096;
    g_blk = static_cast<Block *>(mm(0x650000000000ull, sizeof(Block) * MAXBLK));
    g_sync = static_cast<Sync *>(mm(0x660000000000ull, sizeof(Sync) * NSYNC));
    g_obj = static_cast<Obj *>(mm(0x670000000000ull, sizeof(Obj) * NOBJ));
    std::set_terminate(on_terminate);
    install_signals();
    if (spec.st == ST_PCT)
    {
        g_ncp = spec.depth - 1; if (g_ncp > 15) g_ncp = 15;
        for (int i = 0; i < g_ncp; ++i) g_cps[i] = 1 + g_rng.next() % (spec.est ? spec.est : 1);
    }
    if (spec.st == ST_STALL && g_nt)
    {
        g_stall_victim = 1 + int(g_rng.below(uint32_t(g_nt)));
        g_stall_at = 1 + g_rng.next() % (spec.est / uint64_t(g_nt) + 1);
    }
    for (int i = 0; i < MAXT; ++i) g_t[i].id = i;
    g_t[0].vc[0] = 1; g_t[0].ev_next = ~0ull; g_t[0].prio = 1;
    start(&g_t[0], t0_main);
    for (;;) pause();
}

// real threads created by code under test would be adopted here; the library creates none
} // namespace sim

using namespace sim;

// ---------------------------------------------------------------------------------------------------- interposition
extern "C" {
#define REAL(r, n, ...) r __real_##n(__VA_ARGS__)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
REAL(int, pthread_cond_signal, pthread_cond_t *);
REAL(int, pthread_cond_broadcast, pthread_cond_t *);
REAL(int, pthread_once, pthread_once_t *, void (*)(void));
REAL(int, sched_yield, void);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(void *, memcpy, void *, const void *, size_t);
REAL(void *, memmove, void *, const void *, size_t);
REAL(void *, memset, void *, int, size_t);
REAL(int, memcmp, const void *, const void *, size_t);
REAL(size_t, strlen, const char *);

int __wrap_pthread_create(pthread_t *a, const pthread_attr_t *b, void *(*c)(void *), void *d)
{
    if (simulated()) sim::internal("the code under test creates a thread: not simulated");
    return __real_pthread_create(a, b, c, d);
}
static int mkind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return simulated() ? mx_lock(m, mkind(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return simulated() ? mx_lock(m, mkind(m), true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return simulated() ? mx_unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return simulated() ? mx_lock(m, mkind(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return simulated() ? mx_lock(m, mkind(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { return simulated() ? lk_rd(l, false) : __real_pthread_rwlock_rdlock(l); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return simulated() ? lk_rd(l, true) : __real_pthread_rwlock_tryrdlock(l); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { return simulated() ? lk_wr(l, false) : __real_pthread_rwlock_wrlock(l); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return simulated() ? lk_wr(l, true) : __real_pthread_rwlock_trywrlock(l); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) { return simulated() ? lk_unlock(l) : __real_pthread_rwlock_unlock(l); }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return simulated() ? cv_wait(c, m, false) : __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return simulated() ? cv_wait(c, m, true) : __real_pthread_cond_timedwait(c, m, ts); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return simulated() ? cv_wait(c, m, true) : __real_pthread_cond_clockwait(c, m, k, ts); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return simulated() ? cv_signal(c) : __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return simulated() ? cv_signal(c) : __real_pthread_cond_broadcast(c); }
int __wrap_sched_yield(void)
{
    if (!simulated()) return __real_sched_yield();
    Tcb *t = self; if (t->mute) return 0;
    ++t->ev; ++t->total; ++g_total; reschedule(t, false, true);
    return 0;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!simulated()) return __real_nanosleep(a, b); return __wrap_sched_yield(); }
int __wrap_usleep(unsigned) { return __wrap_sched_yield(); }

static void once_run(Sync *o, void (*f)(void))
{
    Tcb *t = self;
    for (;;)
    {
        sync_point(t, 0xB00 + o->idx);
        if (o->once == 2) { join(t->vc, o->vc); return; }
        if (o->once == 0) break;
        if (o->onceby == t->id) violation("deadlock", "one-time initialisation re-entered by the thread running it");
        block_on(t, o);
    }
    join(t->vc, o->vc);
    o->once = 1; o->onceby = int8_t(t->id);
    try { f(); }
    catch (...) { o->once = 0; join(o->vc, t->vc); tick(t); wake_all(o); throw; }
    o->once = 2; RT_COPY(o->vc, t->vc, sizeof(VC)); tick(t); wake_all(o);
}
int __wrap_pthread_once(pthread_once_t *c, void (*f)(void))
{
    if (!simulated()) return __real_pthread_once(c, f);
    if (*c == 2) { Sync *o = sync_of(c); join(self->vc, o->vc); return 0; }
    once_run(sync_of(c), f);
    *c = 2;
    return 0;
}

// static-initialisation guards
int __cxa_guard_acquire(uint64_t *g)
{
    auto *b = reinterpret_cast<volatile uint8_t *>(g);
    if (!simulated()) { if (b[0]) return 0; if (b[1]) abort(); b[1] = 1; return 1; }
    Tcb *t = self; Sync *o = sync_of(g);
    for (;;)
    {
        sync_point(t, 0xC00 + o->idx);
        if (b[0]) { join(t->vc, o->vc); return 0; }
        if (!o->once) break;
        if (o->onceby == t->id) violation("deadlock", "a function-local static is initialised recursively");
        probe(MAXPROBE - 1);
        block_on(t, o);
    }
    join(t->vc, o->vc);          // an earlier attempt may have failed
    o->once = 1; o->onceby = int8_t(t->id);
    return 1;
}
void __cxa_guard_release(uint64_t *g)
{
    auto *b = reinterpret_cast<volatile uint8_t *>(g);
    if (!simulated()) { b[0] = 1; b[1] = 0; return; }
    Tcb *t = self; Sync *o = sync_of(g);
    sync_point(t, 0xD00 + o->idx);
    b[0] = 1; o->once = 0; join(o->vc, t->vc); tick(t); wake_all(o);
}
void __cxa_guard_abort(uint64_t *g)
{
    auto *b = reinterpret_cast<volatile uint8_t *>(g);
    if (!simulated()) { b[1] = 0; return; }
    Tcb *t = self; Sync *o = sync_of(g);
    o->once = 0; join(o->vc, t->vc); tick(t); wake_all(o);
}

// memory functions
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (__builtin_expect(g_active && self != nullptr, 0)) { hook_range(const_cast<void *>(s), n, 0, __builtin_return_address(0)); hook_range(d, n, 1, __builtin_return_address(0)); }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (__builtin_expect(g_active && self != nullptr, 0)) { hook_range(const_cast<void *>(s), n, 0, __builtin_return_address(0)); hook_range(d, n, 1, __builtin_return_address(0)); }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    if (__builtin_expect(g_active && self != nullptr, 0)) hook_range(d, n, 1, __builtin_return_address(0));
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
    if (__builtin_expect(g_active && self != nullptr, 0)) { hook_range(const_cast<void *>(a), n, 0, __builtin_return_address(0)); hook_range(const_cast<void *>(b), n, 0, __builtin_return_address(0)); }
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char *s)
{
    size_t n = __real_strlen(s);
    if (__builtin_expect(g_active && self != nullptr, 0)) hook_range(const_cast<char *>(s), n + 1, 0, __builtin_return_address(0));
    return n;
}

// plain accesses
#define PC __builtin_return_address(0)
#define ACC(n) \
    void __tsan_read##n(void *p) { hook(p, n, 0, PC); } \
    void __tsan_write##n(void *p) { hook(p, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *p) { hook(p, n, 0, PC); } \
    void __tsan_unaligned_write##n(void *p) { hook(p, n, 1, PC); } \
    void __tsan_volatile_read##n(void *p) { hook(p, n, 0, PC); } \
    void __tsan_volatile_write##n(void *p) { hook(p, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { hook(p, n, 0, PC); } \
    void __tsan_unaligned_volatile_write##n(void *p) { hook(p, n, 1, PC); } \
    void __tsan_read_write##n(void *p) { hook(p, n, 1, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { hook_range(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { hook_range(p, n, 1, PC); }
void __tsan_vptr_update(void **p, void *nv) { hook(p, 8, 1, PC); (void)nv; }
void __tsan_vptr_read(void **p) { hook(p, 8, 0, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc)
{
    Tcb *t = self; if (!t) return;
    if (t->sp < 256) t->stack[t->sp] = uint32_t(uintptr_t(pc));
    if (++t->sp > 6000 && !t->mute) violation("runaway", "unbounded recursion");
}
void __tsan_func_exit(void) { Tcb *t = self; if (t && t->sp) --t->sp; }

// atomics
#define MO_ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define MO_REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
static void at_pre(void const volatile *p, size_t n, bool w, void *pc)
{
    Tcb *t = self; if (!t || !g_active || t->mute) return;
    void *q = const_cast<void *>(p);
    bool ar; if (!cell_of(uintptr_t(q), ar) && uintptr_t(q) < 4096) violation_pc(uint32_t(uintptr_t(pc)), "crash", "atomic access through a null pointer");
    sync_point(t, w ? 0xE01 : 0xE00);
    access1(t, uintptr_t(q), n, uint8_t((w ? 1 : 0) | 2), uint32_t(uintptr_t(pc)));
}
static void at_load(void const volatile *p, int mo)
{
    Tcb *t = self; if (!t || !g_active) return;
    Sync *o = sync_of(const_cast<void *>(p));
    if (MO_ACQ(mo)) join(t->vc, o->vc); else join(t->pend, o->vc);
}
static void at_store(void const volatile *p, int mo, bool rmw)
{
    Tcb *t = self; if (!t || !g_active) return;
    Sync *o = sync_of(const_cast<void *>(p));
    if (MO_REL(mo)) { if (rmw) join(o->vc, t->vc); else RT_COPY(o->vc, t->vc, sizeof(VC)); tick(t); }
    else if (t->hasrelf) { if (rmw) join(o->vc, t->relf); else RT_COPY(o->vc, t->relf, sizeof(VC)); }
    else if (!rmw) RT_FILL(o->vc, 0, sizeof(VC));       // a relaxed store ends the release sequence
}
void __tsan_atomic_thread_fence(int mo)
{
    Tcb *t = self; if (!t || !g_active) return;
    if (MO_ACQ(mo)) join(t->vc, t->pend);
    if (MO_REL(mo)) { RT_COPY(t->relf, t->vc, sizeof(VC)); t->hasrelf = true; tick(t); }
    sync_point(t, 0xE05);
}
void __tsan_atomic_signal_fence(int) {}

#define ATOMICS(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { at_pre(a, sizeof(T), false, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, mo); return v; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_store(a, mo, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
static bool cas##bits(volatile T *a, T *c, T v, int mo, int fmo, bool weak) { \
    Tcb *t = self; \
    if (weak && t && g_active && !t->mute && spurious(t)) { ++g_res->spurious; *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, fmo); return false; } \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) { at_load(a, mo); at_store(a, mo, true); } else at_load(a, fmo); \
    return ok; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { at_pre(a, sizeof(T), true, PC); return cas##bits(a, c, v, mo, fmo, false); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { at_pre(a, sizeof(T), true, PC); return cas##bits(a, c, v, mo, fmo, true); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { at_pre(a, sizeof(T), true, PC); cas##bits(a, &c, v, mo, fmo, false); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
} // extern "C"

namespace sim {
int real_pthread_create(pthread_t *a, const pthread_attr_t *b, void *(*c)(void *), void *d) { return __real_pthread_create(a, b, c, d); }

// Memory of the harness, and of the code under test before main(), at exit and inside muted sections: at fixed addresses
// too, because addresses can decide what the code under test does (the registry hashes type ids, which are addresses).
// Only the engine's own processes use malloc.
static bool g_host;
static uintptr_t g_hbrk;
static void *g_hfree[64];
void host_mode(bool on) { g_host = on; }
static void *host_alloc(size_t n, size_t al)
{
    if (g_host) return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!g_hbrk)
    {
        void *p = mmap(reinterpret_cast<void *>(HARENA), HARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        if (p == MAP_FAILED) abort();
        g_hbrk = HARENA;
    }
    size_t k = (n + 15) / 16;
    if (al <= 16 && k < 64 && g_hfree[k]) { void *p = g_hfree[k]; g_hfree[k] = *static_cast<void **>(p); return p; }
    if (al < 16) al = 16;
    uintptr_t a = (g_hbrk + 16 + al - 1) & ~(al - 1);
    g_hbrk = a + (k ? k : 1) * 16;
    if (g_hbrk > HARENA + HARENA_SZ) abort();
    reinterpret_cast<size_t *>(a)[-1] = k ? k : 1;
    return reinterpret_cast<void *>(a);
}
static bool host_free(void *p)
{
    if (reinterpret_cast<uintptr_t>(p) - HARENA >= HARENA_SZ) return false;
    size_t k = static_cast<size_t *>(p)[-1];
    if (k < 64 && !g_host) { *static_cast<void **>(p) = g_hfree[k]; g_hfree[k] = p; }
    return true;
}

static void *op_new(size_t n, size_t al, bool nothrow)
{
    Tcb *t = self;
    if (!t || !g_active || t->mute)
    {
        void *p = host_alloc(n, al);
        if (!p) abort();
        return p;
    }
    event(t);
    if (t->armed)
    {
        ++t->allocs;
        Op const *op = t->op;
        if (op && op->fk == F_ALLOC && (t->allocs == op->fn || (op->fk2 == 1 && t->allocs > op->fn)))
        {
            t->fired = true; ++g_res->fired[F_ALLOC];
            mix(0x6666);
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void *p = arena_alloc(t, n, al);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void op_delete(void *p, void *pc, size_t al = 0)
{
    if (!p) return;
    if (reinterpret_cast<uintptr_t>(p) - ARENA < ARENA_SZ) arena_free(p, pc, al);
    else if (reinterpret_cast<uintptr_t>(p) >= STACKS && reinterpret_cast<uintptr_t>(p) < STACKS + 0x1000000000ull)
        violation_pc(uint32_t(uintptr_t(pc)), "bad-free", "release of memory on a stack");
    else if (!host_free(p)) free(p);
}
} // namespace sim

void *operator new(size_t n) { return op_new(n, 0, false); }
void *operator new[](size_t n) { return op_new(n, 0, false); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return op_new(n, 0, true); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return op_new(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, size_t(a), false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, size_t(a), false); }
void *operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return op_new(n, size_t(a), true); }
void *operator new[](size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return op_new(n, size_t(a), true); }
#define D op_delete(p, __builtin_return_address(0));
#define DA op_delete(p, __builtin_return_address(0), size_t(a));
void operator delete(void *p) noexcept { D }
void operator delete[](void *p) noexcept { D }
void operator delete(void *p, size_t) noexcept { D }
void operator delete[](void *p, size_t) noexcept { D }
void operator delete(void *p, std::nothrow_t const &) noexcept { D }
void operator delete[](void *p, std::nothrow_t const &) noexcept { D }
void operator delete(void *p, std::align_val_t a) noexcept { DA }
void operator delete[](void *p, std::align_val_t a) noexcept { DA }
void operator delete(void *p, size_t, std::align_val_t a) noexcept { DA }
void operator delete[](void *p, size_t, std::align_val_t a) noexcept { DA }
void operator delete(void *p, std::align_val_t a, std::nothrow_t const &) noexcept { DA }
void operator delete[](void *p, std::align_val_t a, std::nothrow_t const &) noexcept { DA }

extern "C" { __attribute__((used)) void *sim_keep_weak[] = {reinterpret_cast<void *>(&pthread_key_create), reinterpret_cast<void *>(&pthread_mutex_lock)}; }
