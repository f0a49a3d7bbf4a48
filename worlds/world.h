// Workload building blocks: a world is a set of operations over its own corner of the registry, with its own oracle.
// Checks combine one or several worlds.
#pragma once
#include "../sim/rt.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace worlds {

using sim::Op; using sim::Plan; using sim::Rng; using sim::RunCfg; using sim::Mute;

struct World
{
    const char *name;
    bool throws;                                            // ops pass through user call-outs that may fail
    void (*setup)(Rng &, RunCfg const &, Plan &);           // generator: setup ops, reset of generator state
    Op (*op)(Rng &, RunCfg const &, int tid);               // generator: one random operation
    void (*fin)(Rng &, RunCfg const &, Plan &);             // generator: final ops
    void (*begin)(Plan const &);
    void (*exec)(int tid, Op const &);
    void (*check)(Plan const &);
    void (*atexit_check)();
    std::string (*show)(Op const &);
};

// kinds are numbered world*1000 + k inside a check
struct Mix
{
    struct Part { World const *w; int weight; };
    std::vector<Part> parts;
    int ops_lo = 3, ops_hi = 8;                             // per thread
    int thr_lo = 2, thr_hi = 3;
    bool all = false;                                       // use every world in each run (otherwise a random non-empty subset)
};

inline void shift(std::vector<Op> &v, size_t from, int w) { for (size_t i = from; i < v.size(); ++i) v[i].kind += w * 1000; }

inline void attach_fault(Rng &g, RunCfg const &c, unsigned kinds, bool throws, int den, Op &o)
{
    if (!c.faults || !g.chance(1, uint32_t(den))) return;
    std::vector<int> k;
    if (kinds & (1u << sim::F_ALLOC)) k.push_back(sim::F_ALLOC);
    if (throws && (kinds & (1u << sim::F_THROW))) k.push_back(sim::F_THROW);
    if (k.empty()) return;
    o.fk = int16_t(k[g.below(uint32_t(k.size()))]);
    if (o.fk == sim::F_ALLOC)
    {
        uint32_t span[] = {2, 6, 14, 40};
        o.fn = int32_t(1 + g.below(span[g.below(4)]));
        o.fk2 = g.chance(1, 6);
    }
    else { o.fn = int32_t(1 + g.below(g.chance(1, 2) ? 2 : 6)); o.fk2 = sim::flavours ? int16_t(g.below(uint32_t(sim::flavours))) : int16_t(0); }
}

inline void mix_gen(Mix const &m, unsigned kinds, bool threads, int fault_den, Rng &g, RunCfg const &c, Plan &p)
{
    std::vector<int> use;
    for (int i = 0; i < int(m.parts.size()); ++i) if (m.all || m.parts[size_t(i)].weight >= 100 || g.chance(1, 2)) use.push_back(i);
    if (use.empty()) use.push_back(int(g.below(uint32_t(m.parts.size()))));
    p.nthreads = threads ? int(g.range(uint32_t(m.thr_lo), uint32_t(m.thr_hi + (c.size >= 3)))) : 0;
    if (p.nthreads >= sim::MAXT) p.nthreads = sim::MAXT - 1;
    int total = 0;
    for (int i: use) { total += m.parts[size_t(i)].weight; auto n = p.setup.size(); m.parts[size_t(i)].w->setup(g, c, p); shift(p.setup, n, i); }
    std::vector<Op> past[sim::MAXT];
    auto one = [&](int tid) {
        auto &h = past[tid];
        if (h.size() > 1 && g.chance(1, 8))                 // ask (or do) again what was asked (or done) a moment ago
        {
            Op o = h[h.size() - 1 - g.below(uint32_t(std::min<size_t>(h.size(), 4)))];
            h.push_back(o);
            return o;
        }
        int r = int(g.below(uint32_t(total))), pick = use.back();
        for (int i: use) { r -= m.parts[size_t(i)].weight; if (r < 0) { pick = i; break; } }
        Op o = m.parts[size_t(pick)].w->op(g, c, tid);
        o.kind += pick * 1000;
        h.push_back(o);
        attach_fault(g, c, kinds, m.parts[size_t(pick)].w->throws, fault_den, o);
        return o;
    };
    int lo = m.ops_lo, hi = m.ops_hi * (c.size == 1 ? 1 : c.size == 2 ? 2 : 3) / 2;
    if (hi < lo) hi = lo;
    if (threads)
    {
        int pre = int(g.below(3)) ? int(g.below(4)) : 0;       // some history before the threads start
        for (int i = 0; i < pre; ++i) p.setup.push_back(one(0));
        for (int t = 1; t <= p.nthreads; ++t)
        {
            int n = int(g.range(uint32_t(lo), uint32_t(hi)));
            for (int i = 0; i < n; ++i) p.th[t].push_back(one(t));
        }
    }
    else
    {
        int n = int(g.range(uint32_t(lo), uint32_t(hi)));
        for (int i = 0; i < n; ++i) p.setup.push_back(one(0));
    }
    for (int i: use) { auto n = p.fin.size(); m.parts[size_t(i)].w->fin(g, c, p); shift(p.fin, n, i); }
    p.cfg[7] = 0; for (int i: use) p.cfg[7] |= 1 << i;
}
inline int begin_index = 0;                                 // while begin() runs: the world's number inside its check
inline void mix_begin(Mix const &m, Plan const &p) { for (int i = 0; i < int(m.parts.size()); ++i) if (p.cfg[7] >> i & 1) { begin_index = i; m.parts[size_t(i)].w->begin(p); } }
inline void mix_check(Mix const &m, Plan const &p) { for (int i = 0; i < int(m.parts.size()); ++i) if ((p.cfg[7] >> i & 1) && m.parts[size_t(i)].w->check) m.parts[size_t(i)].w->check(p); }
// the operation without its schedule decisions: a run must not depend on whether it is replayed
inline Op bare(Op const &o)
{
    Op l; l.uid = o.uid; l.kind = o.kind % 1000; l.a = o.a; l.b = o.b; l.c = o.c; l.d = o.d; l.fk = o.fk; l.fk2 = o.fk2; l.fn = o.fn;
    return l;
}
inline void mix_exec(Mix const &m, int tid, Op const &o)
{
    Op l = bare(o);
    m.parts[size_t(o.kind / 1000)].w->exec(tid, l);
}
inline std::string mix_show(Mix const &m, Op const &o)
{
    Op l = o; l.kind = o.kind % 1000;
    auto *w = m.parts[size_t(o.kind / 1000)].w;
    return std::string(w->name) + "." + w->show(l);
}

// Declare the check for one property as a combination of worlds.
#define SIM_CHECK(ID, MIX, CONCURRENT, FAULTS, FAULT_DEN, ATEXIT, REAL, STUB) \
    namespace { \
    void ID##_gen(sim::Rng &g, sim::RunCfg const &c, sim::Plan &p) { worlds::mix_gen(MIX, FAULTS, CONCURRENT, FAULT_DEN, g, c, p); } \
    void ID##_begin(sim::Plan const &p) { worlds::mix_begin(MIX, p); } \
    void ID##_exec(int t, sim::Op const &o) { worlds::mix_exec(MIX, t, o); } \
    void ID##_check(sim::Plan const &p) { worlds::mix_check(MIX, p); } \
    std::string ID##_show(sim::Op const &o) { return worlds::mix_show(MIX, o); } \
    sim::Module const ID##_mod = {#ID, CONCURRENT, FAULTS, true, ID##_gen, ID##_begin, ID##_exec, ID##_check, ATEXIT, ID##_show, REAL, STUB}; \
    sim::Reg const ID##_reg{&ID##_mod}; \
    }

// ---------------------------------------------------------------------------------------- append-only list oracle
// A list that only grows, one position at a time. Histories over it are linearizable exactly if there are increasing
// instants T_0 < T_1 < ... at which position i was appended such that every operation sees, at some instant between
// its invocation and its return, a length consistent with what it returned. All constraints are one-dimensional, so
// the check is exact and linear.
struct ListHist
{
    struct Need { uint64_t inv, ret; int lo, hi; };      // at some instant in (inv, ret): lo <= length <= hi (-1: unbounded)
    struct Add { uint64_t inv, ret; int idx; bool maybe; bool winner; uint32_t uid; };
    std::vector<Need> needs;
    std::vector<Add> adds;

    void need(uint64_t inv, uint64_t ret, int lo, int hi) { needs.push_back({inv, ret, lo, hi}); }
    void add(uint64_t inv, uint64_t ret, int idx, bool maybe, bool winner, uint32_t uid) { adds.push_back({inv, ret, idx, maybe, winner, uid}); }

    // n: final length. Throws a violation when there is no linearization.
    void check(int n, const char *what) const
    {
        std::vector<uint64_t> lower(size_t(n), 0), upper(size_t(n), ~0ull);
        for (auto const &a: adds)
        {
            if (a.idx < 0) continue;
            if (a.idx >= n) sim::violation("linearizability", "%s: an item that was added is missing at the end", what);
            if (!a.maybe) upper[size_t(a.idx)] = std::min(upper[size_t(a.idx)], a.ret);
        }
        for (int i = 0; i < n; ++i)
        {
            uint64_t lo = ~0ull, hi = 0; bool w = false, any = false;
            for (auto const &a: adds) if (a.idx == i && a.winner) { lo = std::min(lo, a.inv); hi = std::max(hi, a.ret); w = any = true; }   // an operation and its retry
            if (!w) for (auto const &a: adds) if (a.idx == i) { any = true; lo = std::min(lo, a.inv); hi = std::max(hi, a.ret); }
            if (!any) sim::violation("linearizability", "%s: the item at index %d was never added by anyone", what, i);
            lower[size_t(i)] = std::max(lower[size_t(i)], lo);
            upper[size_t(i)] = std::min(upper[size_t(i)], hi);
        }
        for (auto const &q: needs)
        {
            if (q.lo > n) sim::violation("linearizability", "%s: an operation saw %d items, at the end there are %d", what, q.lo, n);
            if (q.lo > 0) upper[size_t(q.lo - 1)] = std::min(upper[size_t(q.lo - 1)], q.ret);
            if (q.hi >= 0 && q.hi < n) lower[size_t(q.hi)] = std::max(lower[size_t(q.hi)], q.inv);
        }
        // append instants strictly increase; stamps are unique integers, instants lie strictly between them
        uint64_t t = 0;
        for (int i = 0; i < n; ++i)
        {
            t = std::max(t, lower[size_t(i)]);
            if (t >= upper[size_t(i)])
                sim::violation("linearizability", "%s: no order of the operations explains their results (position %d of %d)", what, i, n);
        }
    }
};

} // namespace worlds
