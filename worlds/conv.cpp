// Converter world: threads register, unregister, query and use converters of all kinds for a few type pairs; converters
// report failure, throw, and call back into the library.
//
// Oracle: per pair the history of registrations, removals, queries and of the converter each conversion really ran is
// linearizable against the model "no converter, or one of them" (exhaustive search over the recorded history); a
// conversion runs at most one converter, once, with its own source, and its result is that converter's.
#include "shared.h"
#include "tracked.h"
#include <rtti/metatype.h>
#include <rtti/metaclass.h>
#include <rtti/variant.h>
#include <unordered_set>

namespace worlds { namespace convw {

using namespace rtti;

constexpr int NP = 6, NN = 10;
int ran(int pair, int which, int src);                     // a converter runs: log, fail, re-enter; returns the value of the result
inline int code(int which, int src) { return which * 100000 + src; }

struct TA: Trk<40, 20> { using Trk::Trk; bool operator==(TA const &o) const { return Trk::operator==(o); } };
struct TB: Trk<41, 40, false> { using Trk::Trk; TB(struct FB const &f); bool operator==(TB const &o) const { return Trk::operator==(o); } };
struct FA: Trk<42, 20>
{
    using Trk::Trk;
    TA m0() const { return TA{ran(1, 4, read())}; } TA m1() const { return TA{ran(1, 5, read())}; }
    TA m2(bool &ok) const { TA r{ran(1, 6, read())}; ok = !sim::user_flag(4); return r; }
};
struct FB: Trk<43, 60, false>
{
    using Trk::Trk;
    TB m0() const { return TB{ran(3, 4, read())}; } TB m1() const { return TB{ran(3, 5, read())}; }
    TB m2(bool &ok) const { TB r{ran(3, 6, read())}; ok = !sim::user_flag(4); return r; }
};
TB::TB(FB const &f): Trk(ran(3, 7, f.read())) {}

template<int P> struct types;
template<> struct types<0> { using F = int; using T = TA; };
template<> struct types<1> { using F = FA; using T = TA; };
template<> struct types<2> { using F = FA; using T = int; };
template<> struct types<3> { using F = FB; using T = TB; };
template<> struct types<4> { using F = int; using T = std::string; };
template<> struct types<5> { using F = TA; using T = FA; };           // the way back of pair 1
char const *const pname[NP] = {"int->TA", "FA->TA", "FA->int", "FB->TB", "int->string", "TA->FA"};
char const *const nname[NN] = {"functor", "functor(bool&)", "function", "another function", "method", "another method", "method(bool&)", "constructor", "functor with state", "lambda by value"};

template<typename X> int value(X const &x) { if constexpr (std::is_same_v<X, int>) return x; else if constexpr (std::is_same_v<X, std::string>) return atoi(x.c_str()); else return x.read(); }
template<typename X> X make(int v) { if constexpr (std::is_same_v<X, std::string>) return std::to_string(v) + " is a rather long text"; else return X{v}; }

template<int P, int N> struct Plain { using F = typename types<P>::F; using T = typename types<P>::T; T operator()(F const &f) const { return make<T>(ran(P, N, value(f))); } };
template<int P, int N> struct Ok { using F = typename types<P>::F; using T = typename types<P>::T; T operator()(F const &f, bool &ok) const { T r{make<T>(ran(P, N, value(f)))}; ok = !sim::user_flag(4); return r; } };
template<int P, int N> struct State
{
    using F = typename types<P>::F; using T = typename types<P>::T;
    Trk<44, 40> s{N}; std::string text = "some state that needs memory of its own";
    T operator()(F const &f) const { if (s.read() != N || text.size() != 39) sim::violation("lifetime", "a converter's state is gone"); return make<T>(ran(P, N, value(f))); }
};
template<int P, int N> typename types<P>::T fun(typename types<P>::F const &f) { return make<typename types<P>::T>(ran(P, N, value(f))); }

bool has_kind(int p, int n) { if (n >= 4 && n <= 6) return p == 1 || p == 3; if (n == 7) return p == 3; return true; }
int klass(int n) { return n == 3 ? 2 : n == 5 ? 4 : n; }
template<int P> bool do_reg(int n)
{
    using F = typename types<P>::F; using T = typename types<P>::T;
    switch (n)
    {
    case 0: return MetaType::registerConverter<F, T>(Plain<P, 0>{});
    case 1: { Ok<P, 1> const f; return MetaType::registerConverter<F const &, T>(f); }
    case 2: return MetaType::registerConverter(&fun<P, 2>);
    case 3: return MetaType::registerConverter(&fun<P, 3>);
    case 8: { State<P, 8> f; return MetaType::registerConverter<F, T>(f); }
    case 9: return MetaType::registerConverter<F, T>([](F f) { return make<T>(ran(P, 9, value(f))); });
    }
    if constexpr (P == 1 || P == 3)
    {
        if (n == 4) return MetaType::registerConverter(&F::m0);
        if (n == 5) return MetaType::registerConverter(&F::m1);
        if (n == 6) return MetaType::registerConverter(&F::m2);
    }
    if constexpr (P == 3) if (n == 7) return MetaType::registerConverter<FB, TB>();
    sim::violation("harness", "no such converter");
}
template<int P> void do_unreg(int how)
{
    using F = typename types<P>::F; using T = typename types<P>::T;
    if (how == 0) MetaType::unregisterConverter<F, T>();
    else if (how == 1) MetaType::unregisterConverter<F const &, T>();
    else MetaType::unregisterConverter(metaTypeId<F>(), metaTypeId<T const>());
}
template<int P> bool do_has(int how)
{
    using F = typename types<P>::F; using T = typename types<P>::T;
    switch (how)
    {
    case 0: return MetaType::hasConverter<F, T>();
    case 1: return MetaType::hasConverter<F const &, T &&>();
    case 2: return MetaType::hasConverter(metaType<F>(), metaType<T const &>());
    case 3: { variant const v{make<F>(5)}; return v.canConvert<T>(); }
    default: { variant v{make<F>(5)}; return v.canConvert<T>(); }
    }
}

enum Type { REG, UNREG, HAS, READ };
struct Ev { int type, n; bool flag, maybe; uint64_t inv, ret; uint32_t uid; };
struct Side { int pair, src; int runs = 0, which = -1; bool failed = false; uint64_t start = 0; };
struct Frame { Side s[2]; Side *find(int p) { return s[0].pair == p ? &s[0] : s[1].pair == p ? &s[1] : nullptr; } };
struct Hist
{
    std::vector<Ev> ev[NP];
    std::vector<Frame *> frames[sim::MAXT];
    int depth[sim::MAXT];
    variant shared[NP]; bool have[NP];
};
Hist *H;
enum { P_none = 8, P_failed, P_nested, P_again, P_lost, P_long };
int const probes_ = sim::name_probes(P_none, {"conversion without converter", "converter failed", "converter re-entered the library", "pair registered again after removal", "registration refused", "history too long to check"});

void push(int p, Type t, int n, bool flag, bool maybe, uint64_t inv, uint64_t ret) { Mute m; H->ev[p].push_back({t, n, flag, maybe, inv, ret, 0}); }

void op_reg(int p, int n, Op const &o)
{
    for (int attempt = 0; attempt < 2; ++attempt)
    {
        uint64_t inv = sim::stamp(); bool r = false;
        bool done = guarded(o, [&] {
            switch (p) { case 0: r = do_reg<0>(n); break; case 1: r = do_reg<1>(n); break; case 2: r = do_reg<2>(n); break; case 3: r = do_reg<3>(n); break; case 4: r = do_reg<4>(n); break; default: r = do_reg<5>(n); break; }
        }, false);
        push(p, REG, n, r, !done, inv, sim::stamp());
        if (done && !r) sim::probe(P_lost);
        if (done || (o.fk == sim::F_ALLOC && o.fk2)) break;
    }
}
void op_unreg(int p, int how, Op const &o)
{
    uint64_t inv = sim::stamp();
    bool done = guarded(o, [&] {
        switch (p) { case 0: do_unreg<0>(how); break; case 1: do_unreg<1>(how); break; case 2: do_unreg<2>(how); break; case 3: do_unreg<3>(how); break; case 4: do_unreg<4>(how); break; default: do_unreg<5>(how); break; }
    }, false);
    push(p, UNREG, 0, false, !done, inv, sim::stamp());
}
void op_has(int p, int how, Op const &o)
{
    uint64_t inv = sim::stamp(); bool r = false;
    if (guarded(o, [&] {
        switch (p) { case 0: r = do_has<0>(how); break; case 1: r = do_has<1>(how); break; case 2: r = do_has<2>(how); break; case 3: r = do_has<3>(how); break; case 4: r = do_has<4>(how); break; default: r = do_has<5>(how); break; }
    }, false)) push(p, HAS, 0, r, false, inv, sim::stamp());
}

enum How { TO_CONST, TO, CONVERT, TRY, SHARED, EQ, EQ_REV, HOWS };
template<int P> void conv1(int how, int src, Op const &o)
{
    using F = typename types<P>::F; using T = typename types<P>::T;
    constexpr int alt = P == 1 ? 5 : P == 5 ? 1 : -1;        // the pair that leads back
    Frame fr{{{P, src}, {-1, 0}}}; Side &f = fr.s[0], &f2 = fr.s[1];
    bool const eq = how == EQ || how == EQ_REV;
    int guess = code(src % 3, src);                         // what eq compares with
    if (how == SHARED && !H->have[P]) how = TO;
    if (how == SHARED) f.src = src = 7;
    if (eq && alt >= 0) { f2.pair = alt; f2.src = guess; }
    enum { OK, NO, FAULT } out = FAULT; int got = 0; bool flag = false;
    uint64_t inv = 0;
    auto call = [&]
    {
        variant v; variant const *s = &v;
        if (how == SHARED) s = &H->shared[P];
        else if (how == EQ_REV) { v = make<T>(guess); }
        else { v = make<F>(src); }
        struct Scope { Frame &f; Scope(Frame &x): f(x) { Mute m; H->frames[sim::tid()].push_back(&f); } ~Scope() { Mute m; H->frames[sim::tid()].pop_back(); } };
        {
            Scope scope{fr};
            inv = sim::stamp();
            try
            {
                switch (how)
                {
                case TO_CONST: case SHARED: { auto r = s->to<T>(); got = value(r); break; }
                case TO: { auto r = v.to<T>(); got = value(r); break; }
                case CONVERT: v.convert<T>(); break;
                case TRY: if (!v.tryConvert<T>()) throw bad_variant_convert{""}; break;
                case EQ: flag = v.eq(make<T>(guess)); break;
                case EQ_REV: flag = v.eq(make<F>(src)); break;
                }
                out = OK;
            }
            catch (bad_variant_convert const &) { out = NO; }
        }
        // the source is what it was, or the variant holds the result
        Mute m;
        if (how == EQ_REV) { if (value(v.ref<T>()) != guess) sim::violation("conversion", "a comparison changed the value"); return; }
        if (how == CONVERT || how == TRY)
            if (out == OK)
            {
                if (!v.is<T>()) sim::violation("conversion", "after a successful conversion the variant does not hold the result");
                got = value(v.ref<T>());
                return;
            }
        if (!s->is<F>() || value(s->ref<F>()) != src) sim::violation("conversion", "a conversion changed its source");
    };
    bool done = guarded(o, call, false);
    bool fired = o.fk != sim::F_NONE && sim::fault_fired();
    if (!done) out = FAULT;
    if (inv == 0) return;                                   // did not even get to it
    if (!done && o.fk == sim::F_THROW && ((f.runs && f.failed) || (f2.runs && f2.failed)))
        sim::violation("conversion", "the exception of a converter left the conversion %s instead of being reported as its failure", pname[P]);
    if (f.runs > 1 || f2.runs > 1) sim::violation("conversion", "one conversion ran a converter %d times", std::max(f.runs, f2.runs));
    auto read = [&](Side &x) { if (x.runs) push(x.pair, READ, x.which, true, false, inv, x.start); else if (x.pair >= 0 && !fired) { sim::probe(P_none); push(x.pair, READ, -1, false, false, inv, sim::stamp()); } if (x.failed) sim::probe(P_failed); };
    if (eq)
    {
        Side &a = how == EQ ? f : f2, &b = how == EQ ? f2 : f;
        auto good = [](Side &x) { return x.runs && !x.failed; };
        auto same = [&](Side &x) { return code(x.which, x.src) == (&x == &f ? guess : src); };
        if (good(a) && b.runs && !fired) sim::violation("conversion", "a comparison converted although it was decided");
        read(a);
        if (!good(a)) read(b);
        bool want = good(a) ? same(a) : good(b) ? same(b) : false;
        if (out == OK && !fired && flag != want) sim::violation("conversion", "values compare %s although conversion says otherwise", flag ? "equal" : "different");
        if (out == OK && flag && !good(a) && !good(b)) sim::violation("conversion", "values of different types compare equal without a conversion");
        if (out == NO) sim::violation("conversion", "a comparison raised a conversion error");
        return;
    }
    read(f);
    if (f.runs)
    {
        if (f.failed) { if (out == OK) sim::violation("conversion", "conversion %s succeeded although its converter failed", pname[P]); return; }
        if (out == OK && got != code(f.which, src)) sim::violation("conversion", "conversion %s yields %d instead of its converter's result %d", pname[P], got, code(f.which, src));
        if (out != OK && !fired) sim::violation("conversion", "conversion %s failed although its converter succeeded", pname[P]);
    }
    else if (out == OK) sim::violation("conversion", "conversion %s succeeded without running a converter", pname[P]);
}
void op_conv(int p, int how, int src, Op const &o)
{
    switch (p) { case 0: conv1<0>(how, src, o); break; case 1: conv1<1>(how, src, o); break; case 2: conv1<2>(how, src, o); break; case 3: conv1<3>(how, src, o); break; case 4: conv1<4>(how, src, o); break; default: conv1<5>(how, src, o); break; }
}

Op const *Cur[sim::MAXT];
bool functions;                                             // different functions of one type for a pair
int ran(int pair, int which, int src)
{
    int t = sim::tid(); Side *f = nullptr;
    {
        Mute m;
        if (H->frames[t].empty()) sim::violation("conversion", "a converter ran although nobody converts");
        f = H->frames[t].back()->find(pair);
        if (!f) sim::violation("conversion", "the converter of %s ran in a conversion %s", pname[pair], pname[H->frames[t].back()->s[0].pair]);
        if (f->src != src) sim::violation("conversion", "a converter was given %d instead of its source %d", src, f->src);
        ++f->runs; f->which = which; f->failed = true; f->start = sim::stamp();
    }
    sim::user_point(4);
    if (H->depth[t] < 2 && src > 7)
    {
        int act = src & 7, q = (src >> 3) % NP;
        ++H->depth[t];
        struct Back { int t; ~Back() { --H->depth[t]; } } back{t};
        if (act >= 4) sim::probe(P_nested);
        switch (act)
        {
        case 4: op_has(q, 0, *Cur[t]); break;
        case 5: op_conv(q, TO, src & ~7, *Cur[t]); break;
        case 6: { int n = (src >> 6) % NN; if (has_kind(q, n) && (functions || klass(n) == n)) op_reg(q, n, *Cur[t]); break; }
        case 7: op_unreg(q, 0, *Cur[t]); break;
        }
    }
    f->failed = false;
    return code(which, src);
}

enum Kind { K_REG, K_UNREG, K_HAS, K_CONV, K_INIT, K_FINAL, K_REG2 };
void exec(int t, Op const &o)
{
    Cur[t] = &o;
    switch (o.kind)
    {
    case K_REG: op_reg(o.a, o.b, o); break;
    case K_UNREG: op_unreg(o.a, o.b, o); break;
    case K_HAS: op_has(o.a, o.b, o); break;
    case K_CONV: op_conv(o.a, o.b, o.c, o); break;
    case K_INIT:
        H->shared[0] = 7; H->shared[1] = FA{7}; H->shared[2] = FA{7}; H->shared[3] = FB{7}; H->shared[4] = 7; H->shared[5] = TA{7};
        for (auto &h: H->have) h = true;
        break;
    case K_FINAL: for (auto &v: H->shared) v.clear(); for (auto &h: H->have) h = false; break;
    }
    Cur[t] = nullptr;
}

// Is there an order of the operations, consistent with real time, that explains every result?
struct Lin
{
    std::vector<Ev> const &e; bool collapse;
    std::unordered_set<uint64_t> seen[NN + 1];
    bool same(int a, int b) const { return collapse && a >= 0 && b >= 0 ? klass(a) == klass(b) : a == b; }
    bool go(uint64_t done, int state)
    {
        if (!seen[state + 1].insert(done).second) return false;
        uint64_t first = ~0ull; bool left = false;
        for (size_t i = 0; i < e.size(); ++i) if (!(done >> i & 1) && !e[i].maybe) { first = std::min(first, e[i].ret); left = true; }
        if (!left) return true;
        for (size_t i = 0; i < e.size(); ++i)
        {
            if ((done >> i & 1) || e[i].inv > first) continue;
            auto const &x = e[i]; int next = state;
            switch (x.type)
            {
            case REG:
                if (x.maybe) { if (state >= 0) continue; next = x.n; }
                else { if (x.flag != (state < 0)) continue; if (x.flag) next = x.n; }
                break;
            case UNREG: next = -1; break;
            case HAS: if (x.flag != (state >= 0)) continue; break;
            default: if (!same(x.n, state)) continue; break;
            }
            if (go(done | 1ull << i, next)) return true;
        }
        return false;
    }
};
void check(Plan const &)
{
    for (int id = 40; id <= 43; ++id) if (sim::obj_count(id)) sim::violation("lifetime", "%d objects made by conversions were never destroyed", sim::obj_count(id));
    for (int p = 0; p < NP; ++p)
    {
        auto &e = H->ev[p];
        if (e.size() > 64) { sim::probe(P_long); continue; }
        bool reg = false, again = false; for (auto &x: e) { if (x.type == REG && x.flag) { if (reg) again = true; reg = true; } }
        if (again) sim::probe(P_again);
        if (Lin{e, false, {}}.go(0, -1)) continue;
        auto show = [&] { std::string s; for (auto &x: e) s += std::string(x.type == REG ? " reg(" : x.type == UNREG ? " unreg(" : x.type == HAS ? " has(" : " ran(") + (x.type == HAS || x.type == UNREG ? "" : x.n < 0 ? "none" : nname[x.n]) + ")" + (x.type == READ || x.type == UNREG ? "" : x.maybe ? "=?" : x.flag ? "=yes" : "=no"); return s; };
        // the recorded finding: converters of one static type share the first one's function
        bool collapsible = Lin{e, true, {}}.go(0, -1);
        if (collapsible) for (auto &x: e) for (auto &y: e) if (x.type == READ && y.type == READ && x.n >= 0 && y.n >= 0 && klass(x.n) == klass(y.n) && x.n != y.n) collapsible = false;
        if (!collapsible) sim::violation("linearizability", "converters %s: no order of the operations explains:%s", pname[p], show().c_str());
        sim::known(0, "a different function registered for a pair after unregistering: the first function of that type still runs");
    }
}
void begin(Plan const &p)
{
    H = new Hist; for (auto &d: H->depth) d = 0; for (auto &h: H->have) h = false; for (auto &c: Cur) c = nullptr;
    functions = p.cfg[5] != 0;
}
int hot[2]; bool gfunctions;
void setup(Rng &g, RunCfg const &, Plan &p)
{
    hot[0] = int(g.below(NP)); hot[1] = int(g.below(NP));
    gfunctions = !strcmp(sim::prop(), "C06") && g.chance(1, 4);
    p.cfg[5] = gfunctions;
    Op o; o.kind = K_INIT; if (g.chance(2, 3)) p.setup.push_back(o);
}
int pick(Rng &g, int p)
{
    for (;;) { int n = int(g.below(NN)); if (has_kind(p, n) && (gfunctions || klass(n) == n)) return n; }
}
Op op(Rng &g, RunCfg const &, int)
{
    Op o; int r = int(g.below(100));
    o.a = g.chance(3, 4) ? hot[g.below(2)] : int(g.below(NP));
    if (r < 28) { o.kind = K_REG; o.b = pick(g, o.a); if (gfunctions && g.chance(1, 2)) o.b = int(2 + g.below(2)); }
    else if (r < 43) { o.kind = K_UNREG; o.b = int(g.below(3)); }
    else if (r < 55) { o.kind = K_HAS; o.b = int(g.below(5)); }
    else
    {
        o.kind = K_CONV; o.b = int(g.below(HOWS));
        int q = g.chance(1, 2) ? hot[g.below(2)] : int(g.below(NP));
        int act = g.chance(1, 3) ? int(4 + g.below(4)) : int(g.below(4));
        o.c = act + 8 * (q + NP * int(1 + g.below(8))) + 64 * 6 * int(g.below(3));
    }
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = K_FINAL; p.fin.push_back(o); }
std::string show(Op const &o)
{
    char const *const how[] = {"to (const)", "to", "convert", "tryConvert", "to (shared source)", "eq", "eq, other way round"};
    switch (o.kind)
    {
    case K_REG: return std::string("register ") + nname[o.b] + " for " + pname[o.a];
    case K_UNREG: return std::string("unregister ") + pname[o.a];
    case K_HAS: return std::string("has converter ") + pname[o.a];
    case K_CONV: return std::string("convert ") + pname[o.a] + " by " + how[o.b] + ", source " + std::to_string(o.c);
    case K_INIT: return "make the shared values";
    default: return "drop the shared values";
    }
}
}
World const conv = {"conv", true, convw::setup, convw::op, convw::fin, convw::begin, convw::exec, convw::check, nullptr, convw::show};
}
