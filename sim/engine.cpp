// Search engine: draws runs from a seed, forks one process per simulated execution, minimises and gates violations,
// writes replay files and statistics.
#include "rt_int.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/personality.h>
#include <sys/prctl.h>

namespace sim {

static std::vector<Module const *> &modules() { static std::vector<Module const *> m; return m; }
void add_module(Module const *m) { modules().push_back(m); }

static double now()
{
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}
static Result *new_result()
{
    return static_cast<Result *>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}
static void clear(Result *r) { memset(r, 0, offsetof(Result, sw)); }

static void run_one(Plan const &p, RunSpec const &s, Result *r)
{
    clear(r);
    pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); child_run(p, s, r); _exit(9); }
    if (pid < 0) { r->status = 3; snprintf(r->cls, sizeof r->cls, "internal"); snprintf(r->msg, sizeof r->msg, "fork failed"); return; }
    // wall-clock guard against real blocking (not a verdict)
    int st = 0; double t0 = now(); useconds_t nap = 0;
    for (;;)
    {
        pid_t w = waitpid(pid, &st, nap ? WNOHANG : WNOHANG);
        if (w == pid) break;
        double el = now() - t0;
        if (el < 0.0015) { sched_yield(); continue; }
        nap = el < 0.02 ? 200 : 2000; usleep(nap);
        if (el > 150) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r->status = 3; snprintf(r->cls, sizeof r->cls, "internal"); snprintf(r->msg, sizeof r->msg, "simulated process blocked in real time"); return; }
    }
    if (!r->status)
    {
        r->status = 3; snprintf(r->cls, sizeof r->cls, "internal");
        snprintf(r->msg, sizeof r->msg, "simulated process died without a verdict (wait status %#x)", st);
    }
}

static void number(Plan &p)
{
    uint32_t u = 1;
    for (auto &o: p.setup) if (!o.uid) o.uid = u++; else u = std::max(u, o.uid + 1);
    for (auto &t: p.th) for (auto &o: t) if (!o.uid) o.uid = u++;
    for (auto &o: p.fin) if (!o.uid) o.uid = u++;
}
static uint64_t planhash(Plan const &p)
{
    uint64_t h = 1469598103934665603ull;
    auto m = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 31; };
    auto ops = [&](std::vector<Op> const &v) { m(v.size()); for (auto &o: v) { m(o.kind); m(o.a); m(o.b); m(o.c); m(o.d); m(uint64_t(o.fk) << 32 | uint32_t(o.fn)); } };
    ops(p.setup); for (auto &t: p.th) ops(t); ops(p.fin);
    for (auto c: p.cfg) m(uint32_t(c));
    return h;
}

// recorded decisions -> explicit plan
static Plan with_decisions(Plan p, Result const *r)
{
    std::map<uint32_t, Op *> by;
    auto reset = [&](std::vector<Op> &v) { for (auto &o: v) { o.sw.clear(); by[o.uid] = &o; } };
    reset(p.setup); for (auto &t: p.th) reset(t); reset(p.fin);
    for (auto &e: p.endsw) e.clear();
    for (uint32_t i = 0; i < r->nsw; ++i)
    {
        auto const &s = r->sw[i];
        if (s.uid >= UID_END) { if (s.uid - UID_END < MAXT) p.endsw[s.uid - UID_END].push_back({s.ev, s.to}); }
        else if (auto f = by.find(s.uid); f != by.end()) f->second->sw.push_back({s.ev, s.to});
    }
    return p;
}

static void put_ops(std::ostream &o, const char *sec, std::vector<Op> const &v, Module const *m)
{
    o << sec << " " << v.size() << "\n";
    for (auto const &x: v)
    {
        o << "op " << x.uid << " " << x.kind << " " << x.a << " " << x.b << " " << x.c << " " << x.d << " " << x.fk << " " << x.fk2 << " " << x.fn << " " << x.sw.size();
        for (auto const &s: x.sw) o << " " << s.ev << ">" << s.to;
        o << "   # " << (m->show ? m->show(x) : "");
        if (x.fk == F_ALLOC) o << "  [fault: allocation #" << x.fn << " fails" << (x.fk2 ? " and all later ones" : "") << "]";
        if (x.fk == F_THROW) o << "  [fault: user call-out #" << x.fn << " fails" << (x.fk2 ? ", exception class " + std::to_string(x.fk2) : "") << "]";
        o << "\n";
    }
}
static void write_replay(std::string const &file, Module const *m, Plan const &p, RunSpec const &s, Result const *r, uint64_t seed, uint64_t index)
{
    std::ofstream o(file);
    o << "rtti-sim-replay 1\n";
    o << "property " << m->prop << "\n";
    o << "class " << r->cls << "\n";
    o << "hash " << r->hash << "\n";
    o << "origin seed " << seed << " run " << index << "\n";
    o << "spec " << s.seed << " " << int(s.writer_pref) << " " << int(s.spurious) << "\n";
    o << "threads " << p.nthreads << "\n";
    o << "cfg"; for (auto c: p.cfg) o << " " << c; o << "\n";
    put_ops(o, "setup", p.setup, m);
    for (int i = 1; i <= p.nthreads; ++i) put_ops(o, "thread", p.th[i], m);
    put_ops(o, "final", p.fin, m);
    for (int i = 0; i < MAXT; ++i)
    {
        o << "end " << i << " " << p.endsw[i].size();
        for (auto const &x: p.endsw[i]) o << " " << x.ev << ">" << x.to;
        o << "\n";
    }
    o << "# message: " << r->msg << "\n# at thread " << r->viol_tid << " op " << r->viol_uid << "\n";
    o << "# stack"; for (uint32_t i = 0; i < r->npc; ++i) { char b[32]; snprintf(b, sizeof b, " %#x", r->pcs[i]); o << b; } o << "\n";
    o << "# other"; for (uint32_t i = 0; i < r->npc2; ++i) { char b[32]; snprintf(b, sizeof b, " %#x", r->pcs2[i]); o << b; } o << "\n";
}
static bool get_ops(std::istream &in, const char *sec, std::vector<Op> &v)
{
    std::string w; size_t n = 0;
    if (!(in >> w >> n) || w != sec) return false;
    in.ignore(1 << 20, '\n');
    for (size_t i = 0; i < n; ++i)
    {
        std::string line; if (!std::getline(in, line)) return false;
        auto h = line.find('#'); if (h != std::string::npos) line.resize(h);
        std::istringstream l(line); Op x; size_t k = 0;
        if (!(l >> w >> x.uid >> x.kind >> x.a >> x.b >> x.c >> x.d >> x.fk >> x.fk2 >> x.fn >> k)) return false;
        for (size_t j = 0; j < k; ++j) { Switch s; char c; if (!(l >> s.ev >> c >> s.to)) return false; x.sw.push_back(s); }
        v.push_back(x);
    }
    return true;
}
struct Replay { std::string prop, cls; uint64_t hash = 0; Plan p; RunSpec s; };
static bool read_replay(std::string const &file, Replay &r)
{
    std::ifstream in(file); std::string w, line; int one;
    if (!(in >> w >> one) || w != "rtti-sim-replay") return false;
    in >> w >> r.prop >> w >> r.cls >> w >> r.hash;
    std::getline(in, line); std::getline(in, line);
    int a, b; in >> w >> r.s.seed >> a >> b; r.s.writer_pref = a; r.s.spurious = b; r.s.st = ST_REPLAY;
    in >> w >> r.p.nthreads >> w; for (auto &c: r.p.cfg) in >> c;
    if (r.p.nthreads < 0 || r.p.nthreads >= MAXT) return false;
    if (!get_ops(in, "setup", r.p.setup)) return false;
    for (int i = 1; i <= r.p.nthreads; ++i) if (!get_ops(in, "thread", r.p.th[i])) return false;
    if (!get_ops(in, "final", r.p.fin)) return false;
    for (int i = 0; i < MAXT; ++i)
    {
        int id; size_t n; if (!(in >> w >> id >> n)) return false;
        for (size_t k = 0; k < n; ++k) { Switch s; char c; in >> s.ev >> c >> s.to; r.p.endsw[i].push_back(s); }
    }
    return bool(in);
}

// ------------------------------------------------------------------------------------------------ drawing a run
static uint64_t hash2(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + 0x165667B19E3779F9ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static void draw(Module const *m, uint64_t seed, uint64_t index, bool thorough, Plan &p, RunSpec &s, RunCfg &c)
{
    uint64_t base = hash2(seed, index);
    for (const char *q = m->prop; *q; ++q) base = hash2(base, uint8_t(*q));
    Rng g(base);
    c.thorough = thorough;
    // fault-free and fault-injecting configurations are separate runs
    c.faults = m->faultKinds && (m->concurrent ? g.chance(1, 2) : g.chance(7, 8));
    c.threads = m->concurrent;
    c.size = int(1 + g.below(thorough ? 4 : 3));
    Rng gp(g.next());
    p = Plan{};
    m->gen(gp, c, p);
    number(p);
    s = RunSpec{};
    s.seed = g.next();
    if (p.nthreads > 0)
    {
        size_t ops = 0; for (auto &t: p.th) ops += t.size();
        s.est = 60 + ops * 120;
        switch (g.below(10))
        {
        case 0: s.st = ST_NONE; break;
        case 1: case 2: case 3: { s.st = ST_SYNC; uint32_t d[] = {2, 4, 8, 20}; s.p_den = d[g.below(4)]; break; }
        case 4: case 5: { s.st = ST_ACCESS; uint32_t d[] = {8, 30, 120, 600}; s.mean = d[g.below(4)]; s.p_den = 12; break; }
        case 6: case 7: s.st = ST_PCT; s.depth = int(1 + g.below(4)); s.est = uint64_t(s.est * (1 + g.below(4))); break;
        default: s.st = ST_STALL; s.p_den = 6; break;
        }
        s.spurious = g.chance(1, 4);
        if (thorough) s.writer_pref = g.chance(1, 4);
    }
}

// ------------------------------------------------------------------------------------------------ minimisation
struct Mini
{
    Module const *m; RunSpec spec; std::string cls; Result *r; int runs = 0; double deadline;
    bool fails(Plan const &p)
    {
        ++runs;
        run_one(p, spec, r);
        return r->status == 2 && cls == r->cls;
    }
    bool budget() const { return runs < 1500 && now() < deadline; }
    // keep `p` always in the form "explicit decisions that reproduce"
    bool accept(Plan &p, Plan const &cand)
    {
        if (!budget() || !fails(cand)) return false;
        p = with_decisions(cand, r);
        return true;
    }
    void shrink_ops(Plan &p, std::function<std::vector<Op> &(Plan &)> f)
    {
        for (size_t chunk = std::max<size_t>(1, f(p).size() / 2); budget(); chunk /= 2)
        {
            for (size_t at = 0; at < f(p).size() && budget();)
            {
                Plan c = p; auto &v = f(c);
                size_t e = std::min(v.size(), at + chunk);
                v.erase(v.begin() + long(at), v.begin() + long(e));
                if (!accept(p, c)) at += chunk;
            }
            if (chunk <= 1) break;
        }
    }
    void run(Plan &p)
    {
        bool again = true;
        for (int round = 0; round < 3 && again && budget(); ++round)
        {
            size_t before = size(p);
            for (int t = 1; t <= p.nthreads; ++t)
            {
                if (p.th[t].empty()) continue;
                Plan c = p; c.th[t].clear(); accept(p, c);
            }
            for (int t = 1; t <= p.nthreads; ++t) shrink_ops(p, [t](Plan &q) -> std::vector<Op> & { return q.th[t]; });
            shrink_ops(p, [](Plan &q) -> std::vector<Op> & { return q.setup; });
            // faults
            auto each = [&](std::function<std::vector<Op> &(Plan &)> f) {
                for (size_t i = 0; i < f(p).size() && budget(); ++i)
                    if (f(p)[i].fk != F_NONE) { Plan c = p; f(c)[i].fk = F_NONE; f(c)[i].fn = 0; f(c)[i].fk2 = 0; accept(p, c); }
            };
            each([](Plan &q) -> std::vector<Op> & { return q.setup; });
            for (int t = 1; t <= p.nthreads; ++t) each([t](Plan &q) -> std::vector<Op> & { return q.th[t]; });
            each([](Plan &q) -> std::vector<Op> & { return q.fin; });
            // schedule decisions
            shrink_switches(p);
            again = size(p) < before;
        }
    }
    static size_t size(Plan const &p)
    {
        size_t n = p.setup.size() + p.fin.size();
        auto sw = [&](std::vector<Op> const &v) { for (auto &o: v) n += o.sw.size() + (o.fk != 0); };
        sw(p.setup); sw(p.fin);
        for (auto &t: p.th) { n += t.size(); sw(t); }
        for (auto &e: p.endsw) n += e.size();
        return n;
    }
    void shrink_switches(Plan &p)
    {
        // list every decision; drop in chunks. accept() re-records decisions, so drop only those whose removal persists.
        for (size_t chunk = 64; budget(); chunk /= 2)
        {
            for (size_t at = 0; budget();)
            {
                Plan c = p; size_t k = 0, removed = 0;
                auto strip = [&](std::vector<Switch> &v) {
                    std::vector<Switch> o;
                    for (auto &s: v) { if (k >= at && k < at + chunk) ++removed; else o.push_back(s); ++k; }
                    v = o;
                };
                for (auto &t: c.th) for (auto &o: t) strip(o.sw);
                for (auto &e: c.endsw) strip(e);
                if (!removed) break;
                ++runs;
                run_one(c, spec, r);
                if (r->status == 2 && cls == r->cls) p = c;     // keep the sparse form
                else at += chunk;
            }
            if (chunk <= 1) break;
        }
    }
};

// ------------------------------------------------------------------------------------------------ batch
struct Shared
{
    std::atomic<uint64_t> runs, faulty, concurrent, events, ops, preempts, blocks, stalls, spurious, allocs;
    std::atomic<uint64_t> fired[F_KINDS], armed[F_KINDS];
    std::atomic<uint64_t> strat[ST_KINDS];
    std::atomic<uint64_t> probes[MAXPROBE];
    std::atomic<uint64_t> known[MAXKNOWN];
    std::atomic<int> stop;
    std::atomic<uint64_t> found, internal, next, nondet, rechecked;
    std::atomic<uint64_t> nsigs, nontrivial;
    char internal_msg[1600];
    uint64_t internal_index;
    std::atomic<uint64_t> sig[1 << 22];
};

static bool add_sig(Shared *sh, uint64_t h)
{
    if (!h) h = 1;
    size_t N = size_t(1) << 22;
    size_t i = size_t(h >> 7) & (N - 1);
    for (size_t k = 0; k < 64; ++k, i = (i + 1) & (N - 1))
    {
        uint64_t e = 0;
        if (sh->sig[i].compare_exchange_strong(e, h)) { ++sh->nsigs; return true; }
        if (e == h) return false;
    }
    return false;
}

static std::string jstr(std::string const &s)
{
    std::string o = "\"";
    for (char c: s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (uint8_t(c) < 32) o += ' '; else o += c; }
    return o + "\"";
}
static const char *st_name[] = {"run-to-block", "random-at-sync", "random-preemption", "pct", "stall-one-thread", "replay"};
static const char *fk_name[] = {"none", "allocation-failure", "user-code-failure", "exit"};

static std::string plan_text(Module const *m, Plan const &p, size_t max = 14)
{
    std::string o; size_t n = 0;
    auto ops = [&](const char *name, std::vector<Op> const &v) {
        if (v.empty()) return;
        o += std::string(name) + ":";
        for (auto &x: v) { if (++n > max) { o += " ..."; break; } o += " " + m->show(x); if (x.fk) o += std::string("!") + fk_name[x.fk] + "@" + std::to_string(x.fn); o += ";"; }
        o += " | ";
    };
    ops("setup", p.setup);
    for (int i = 1; i <= p.nthreads; ++i) ops(("T" + std::to_string(i)).c_str(), p.th[i]);
    ops("final", p.fin);
    return o;
}

int main(int argc, char **argv)
{
    // The simulated address space is fixed by construction; this also pins what libc and the dynamic parts of the process place.
    if (int pers = personality(0xffffffff); pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("RTTI_SIM_REEXEC"))
    {
        setenv("RTTI_SIM_REEXEC", "1", 1);
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    unsetenv("RTTI_SIM_REEXEC");
    host_mode(true);
    std::string prop, replay, statsfile = "", replaydir = "."; uint64_t seed = 1, maxruns = 0; double tmax = 30; int workers = 8; bool thorough = false;
    int64_t only = -1; bool hashes = false; std::string knownarg;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto v = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = v(); else if (a == "--replay") replay = v(); else if (a == "--stats") statsfile = v();
        else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--runs") maxruns = strtoull(v().c_str(), 0, 10);
        else if (a == "--time") tmax = atof(v().c_str()); else if (a == "--workers") workers = atoi(v().c_str());
        else if (a == "--thorough") thorough = true; else if (a == "--replaydir") replaydir = v(); else if (a == "--only") only = atoll(v().c_str());
        else if (a == "--hashes") hashes = true;
        else if (a == "--known") { std::string k = v(); knownarg = k; std::istringstream l(k); int x; char c; while (l >> x) { if (x >= 0 && x < MAXKNOWN) g_known_listed |= 1u << x; l >> c; } }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    std::string self = argv[0];
    if (!replay.empty())
    {
        Replay r; if (!read_replay(replay, r)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        for (auto *x: modules()) if (r.prop == x->prop) g_mod = x;
        if (!g_mod) { fprintf(stderr, "no module for %s\n", r.prop.c_str()); return 2; }
        // the parent does here what it does before a searched run, so that one-time initialisation is in the same state
        { Plan p; RunSpec s; RunCfg c; draw(g_mod, seed, 0, false, p, s, c); plan_text(g_mod, p); }
        Result *res = new_result();
        run_one(r.p, r.s, res);
        printf("status=%d class=%s hash=%llu msg=%s\n", res->status, res->cls, (unsigned long long)res->hash, res->msg);
        printf("stack"); for (uint32_t i = 0; i < res->npc; ++i) printf(" %#x", res->pcs[i]); printf("\n");
        printf("other"); for (uint32_t i = 0; i < res->npc2; ++i) printf(" %#x", res->pcs2[i]); printf("\n");
        if (res->status == 3) return 2;
        return res->status == 2 ? 1 : 0;
    }
    for (auto *x: modules()) if (prop == x->prop) g_mod = x;
    if (!g_mod) { fprintf(stderr, "no module for %s\n", prop.c_str()); return 2; }
    Module const *m = g_mod;
    if (only >= 0)
    {
        Plan p; RunSpec s; RunCfg c; draw(m, seed, uint64_t(only), thorough, p, s, c);
        Result *r = new_result(); run_one(p, s, r);
        printf("%s\nstatus=%d class=%s msg=%s events=%llu strategy=%s nsw=%u hash=%llu\n", plan_text(m, p, 1000).c_str(), r->status, r->cls, r->msg, (unsigned long long)r->events, st_name[s.st], r->nsw, (unsigned long long)r->hash);
        printf("stack"); for (uint32_t i = 0; i < r->npc; ++i) printf(" %#x", r->pcs[i]); printf("\n");
        printf("other"); for (uint32_t i = 0; i < r->npc2; ++i) printf(" %#x", r->pcs2[i]); printf("\n");
        if (hashes)
        {
            Result *r2 = new_result(); uint64_t h = r->hash; Plan rp = with_decisions(p, r);
            run_one(p, s, r2); printf("again   hash=%llu status=%d events=%llu nsw=%u\n", (unsigned long long)r2->hash, r2->status, (unsigned long long)r2->events, r2->nsw);
            RunSpec rs = s; rs.st = ST_REPLAY; run_one(rp, rs, r2);
            printf("replay  hash=%llu status=%d events=%llu nsw=%u %s\n", (unsigned long long)r2->hash, r2->status, (unsigned long long)r2->events, r2->nsw, h == r2->hash ? "same" : "DIFFERENT");
            for (uint32_t i = 0; i < r->nsw && i < r2->nsw; ++i) if (memcmp(&r->sw[i], &r2->sw[i], sizeof(SwRec)))
            { printf("first different decision %u: %u@%u>%d / %u@%u>%d\n", i, r->sw[i].uid, r->sw[i].ev, r->sw[i].to, r2->sw[i].uid, r2->sw[i].ev, r2->sw[i].to); break; }
        }
        return r->status == 1 ? 0 : 1;
    }
    auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    sh->found = ~0ull;
    double t0 = now();
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w)
    {
        pid_t pid = fork();
        if (pid) { pids.push_back(pid); continue; }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        cpu_set_t all, one; CPU_ZERO(&one);
        if (sched_getaffinity(0, sizeof all, &all) == 0)
        {
            int n = CPU_COUNT(&all), k = n ? w % n : 0;
            for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; }
        }
        Result *r = new_result(), *r2 = new_result();
        for (;;)
        {
            if (sh->stop.load()) break;
            uint64_t idx = sh->next++;
            if (maxruns && idx >= maxruns) break;
            if (now() - t0 > tmax) break;
            Plan p; RunSpec s; RunCfg c; draw(m, seed, idx, thorough, p, s, c);
            run_one(p, s, r);
            if (hashes) dprintf(1, "%llu %llu\n", (unsigned long long)idx, (unsigned long long)r->hash);
            ++sh->runs; sh->faulty += c.faults; sh->concurrent += (p.nthreads > 1); sh->events += r->events; sh->ops += r->opsdone;
            sh->preempts += r->preempts; sh->blocks += r->blocks; sh->stalls += r->stalls; sh->spurious += r->spurious; sh->allocs += r->allocs;
            for (int k = 0; k < F_KINDS; ++k) { sh->fired[k] += r->fired[k]; sh->armed[k] += r->armed[k]; }
            ++sh->strat[s.st];
            for (int k = 0; k < MAXPROBE; ++k) sh->probes[k] += r->probes[k];
            for (int k = 0; k < MAXKNOWN; ++k) sh->known[k] += (r->knownmask >> k) & 1;
            uint64_t hit = r->preempts + r->blocks; for (int k = 1; k < F_KINDS; ++k) hit += r->fired[k];
            if (add_sig(sh, hash2(r->schedsig, planhash(p))) && hit) ++sh->nontrivial;
            if (r->status == 2)
            {
                uint64_t f = sh->found.load();
                while (idx < f && !sh->found.compare_exchange_weak(f, idx)) {}
                sh->stop = 1; break;
            }
            if (r->status == 3) { if (!sh->internal++) { snprintf(sh->internal_msg, sizeof sh->internal_msg, "%s", r->msg); sh->internal_index = idx; } sh->stop = 1; break; }
            // determinism audit: a sample of the runs is executed twice, and once more as an explicit replay
            if (idx % 97 == 5)
            {
                ++sh->rechecked;
                uint64_t h = r->hash; Plan rp = with_decisions(p, r); bool full = r->nsw < MAXSW;
                run_one(p, s, r2);
                bool bad = r2->hash != h;
                if (!bad && full) { RunSpec rs = s; rs.st = ST_REPLAY; run_one(rp, rs, r2); bad = r2->hash != h; }
                if (bad) { ++sh->nondet; sh->internal_index = idx; sh->stop = 1; break; }
            }
        }
        fflush(stdout);
        _exit(0);
    }
    for (pid_t p: pids) { int st; waitpid(p, &st, 0); }
    double wall = now() - t0;

    int rc = 0; std::string replayfile, vcls, vmsg; int minruns = 0; std::string stack;
    if (sh->found != ~0ull)
    {
        uint64_t idx = sh->found;
        Plan p; RunSpec s; RunCfg c; draw(m, seed, idx, thorough, p, s, c);
        Result *r = new_result();
        run_one(p, s, r); uint64_t h1 = r->hash; int st1 = r->status; std::string c1 = r->cls;
        run_one(p, s, r);
        if (st1 != 2 || r->status != 2 || h1 != r->hash || c1 != r->cls)
        { fprintf(stderr, "NONDETERMINISM: run %llu of seed %llu is not repeatable (%d %s %llu / %d %s %llu)\n", (unsigned long long)idx, (unsigned long long)seed, st1, c1.c_str(), (unsigned long long)h1, r->status, r->cls, (unsigned long long)r->hash); return 2; }
        RunSpec rs = s; rs.st = ST_REPLAY;
        Plan ex = with_decisions(p, r);
        Mini mini{m, rs, c1, r, 0, now() + 60};
        if (!mini.fails(ex)) { fprintf(stderr, "NONDETERMINISM: explicit replay of run %llu differs (%d %s %s)\n", (unsigned long long)idx, r->status, r->cls, r->msg); return 2; }
        mini.run(ex);
        minruns = mini.runs;
        mini.fails(ex); mini.runs--;
        if (r->status != 2) { fprintf(stderr, "NONDETERMINISM: minimised plan does not reproduce\n"); return 2; }
        replayfile = replaydir + "/" + m->prop + ".replay";
        write_replay(replayfile, m, ex, rs, r, seed, idx);
        vcls = r->cls; vmsg = r->msg;
        // gate: a fresh process must reproduce class and hash from the file
        std::string cmd = "'" + self + "' --replay '" + replayfile + "'" + (knownarg.empty() ? "" : " --known " + knownarg) + " 2>&1";
        FILE *f = popen(cmd.c_str(), "r"); char buf[4096]; std::string out;
        while (f && fgets(buf, sizeof buf, f)) out += buf;
        if (f) pclose(f);
        std::string want = "status=2 class=" + vcls + " hash=" + std::to_string(r->hash);
        std::string wantcls = "status=2 class=" + vcls + " ";
        if (out.compare(0, want.size(), want) != 0 && out.compare(0, wantcls.size(), wantcls) == 0)
            printf("note: the replay shows the same violation, but not event for event the same execution: what the code did depends on something outside the simulation\n");
        else if (out.compare(0, want.size(), want) != 0) { fprintf(stderr, "NONDETERMINISM: fresh-process replay differs\nwant %s\ngot %s\n", want.c_str(), out.c_str()); return 2; }
        printf("violation class=%s\nmessage: %s\n", vcls.c_str(), vmsg.c_str());
        printf("plan: %s\n", plan_text(m, ex, 60).c_str());
        printf("stack"); for (uint32_t i = 0; i < r->npc; ++i) printf(" %#x", r->pcs[i]); printf("\n");
        printf("other"); for (uint32_t i = 0; i < r->npc2; ++i) printf(" %#x", r->pcs2[i]); printf("\n");
        rc = 1;
    }
    else if (sh->internal || sh->nondet)
    {
        fprintf(stderr, "%s at run %llu: %s\n", sh->nondet ? "NONDETERMINISM" : "INTERNAL ERROR", (unsigned long long)sh->internal_index, sh->internal_msg);
        rc = 2;
    }
    if (!statsfile.empty())
    {
        std::ofstream o(statsfile);
        o << "{\n";
        auto kv = [&](const char *k, uint64_t v, bool comma = true) { o << "  \"" << k << "\": " << v << (comma ? ",\n" : "\n"); };
        kv("runs", sh->runs); kv("faulty_runs", sh->faulty); kv("concurrent_runs", sh->concurrent); kv("events", sh->events); kv("ops", sh->ops);
        kv("preemptions", sh->preempts); kv("blocks", sh->blocks); kv("stalls", sh->stalls); kv("spurious", sh->spurious); kv("allocations", sh->allocs);
        kv("distinct", sh->nsigs); kv("distinct_nontrivial", sh->nontrivial); kv("rechecked", sh->rechecked); kv("minimise_runs", uint64_t(minruns));
        o << "  \"wall_search\": " << wall << ",\n  \"faults_fired\": {";
        for (int k = 1; k < F_KINDS; ++k) o << (k > 1 ? ", " : "") << "\"" << fk_name[k] << "\": " << sh->fired[k];
        o << "},\n  \"faults_armed\": {";
        for (int k = 1; k < F_KINDS; ++k) o << (k > 1 ? ", " : "") << "\"" << fk_name[k] << "\": " << sh->armed[k];
        o << "},\n  \"strategies\": {";
        for (int k = 0; k < ST_REPLAY; ++k) o << (k ? ", " : "") << "\"" << st_name[k] << "\": " << sh->strat[k];
        o << "},\n  \"probes\": {";
        bool first = true;
        for (int k = 0; k < MAXPROBE; ++k) if (g_probe_names[k]) { o << (first ? "" : ", ") << jstr(g_probe_names[k]) << ": " << sh->probes[k]; first = false; }
        o << "},\n  \"known\": [";
        for (int k = 0; k < MAXKNOWN; ++k) o << (k ? ", " : "") << sh->known[k];
        o << "],\n  \"samples\": [";
        for (int k = 0; k < 4; ++k) { Plan p; RunSpec s; RunCfg c; draw(m, seed, uint64_t(k * 3), thorough, p, s, c); o << (k ? ", " : "") << jstr("run " + std::to_string(k * 3) + " strategy " + st_name[s.st] + " " + plan_text(m, p)); }
        o << "],\n  \"real\": " << jstr(m->real ? m->real : "") << ",\n  \"stub\": " << jstr(m->stub ? m->stub : "") << ",\n";
        o << "  \"class\": " << jstr(vcls) << ",\n  \"message\": " << jstr(vmsg) << ",\n  \"replay\": " << jstr(replayfile) << "\n}\n";
    }
    return rc;
}
} // namespace sim

int main(int argc, char **argv) { return sim::main(argc, argv); }
