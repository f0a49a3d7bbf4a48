// Process exit world: threads make the first uses of the library's global state in every order and create static objects
// of their own in between; then the process exits, possibly from inside a callback, and the static objects' destructors,
// the destructors of attribute values and the captures of converters and pending definitions ask the library questions.
//
// Oracle: no destroyed library object is touched and everything is freed once (simulated heap and lifetime oracle); every
// answer is right or "unknown"; a static object constructed after the first use of a registry gets right answers only.
#include "shared.h"
#include "tracked.h"
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/variant.h>

namespace worlds { namespace exitww {

using namespace rtti;

enum { P_unknown = 32, P_strong, P_in_callback, P_late_use, P_pending, P_withdrawn, P_notype, P_never };
int const probes_ = sim::name_probes(P_unknown, {"destructor got the answer 'unknown'", "destructor of a younger static object got right answers", "exit from inside a callback", "first use of a type while the process exits", "exit with a deferred definition pending", "static converter gone before its users", "value outlived the type registry", "exit although nothing was ever used"});

enum { ID_VAL = 70 };
struct Val: Trk<ID_VAL, 40> { using Trk<ID_VAL, 40>::Trk; };
constexpr int NT = 6, NREG = 4, NC = 4, NP = 8, NV = 4, NL = 3;
template<int I> struct Ty { DECLARE_CLASSINFO public: int v = I; explicit Ty(int x = I): v(x) {} virtual ~Ty() = default; int get(int a) const { return v + a; } };
template<> struct Ty<1>: Ty<0> { DECLARE_CLASSINFO public: int v = 1; explicit Ty(int x = 1): v(x) {} int get(int a) const { return v + a; } };
template<> struct Ty<3>: Ty<2>, Ty<1> { DECLARE_CLASSINFO public: int v = 3; explicit Ty(int x = 3): v(x) {} int get(int a) const { return v + a; } };

struct State
{
    bool types = false, ns = false;                         // a first use of the registry has completed
    MetaType_ID id[NT];
    MetaClass const *cls[NREG] = {};
    bool conv[NC] = {}, ever[NC] = {}, tried[NC] = {};
    bool cls_tried[NREG] = {};
    bool nested = false, exiting = false, used = false;
    int pending = 0;
};
State *G;
struct Know { bool types = false, ns = false, conv[NC] = {}; };
Know know() { Know k; k.types = G->types; k.ns = G->ns; for (int i = 0; i < NC; ++i) k.conv[i] = G->conv[i]; return k; }

[[noreturn]] void wrong(char const *what, int i) { sim::violation("exit", "%s of #%d %s", what, i, G->exiting ? "in a static destructor" : "before exit"); }
template<int I> void see_type(MetaType t, char const *what, bool strong)
{
    if (!t.valid())
    {
        if (strong) wrong(what, I);
        sim::probe(P_unknown);
        return;
    }
    if (strong) sim::probe(P_strong);
    if (t.typeName() != type_name<Ty<I>>() || t.typeSize() != sizeof(Ty<I>) || t.typeId() != metaTypeId<Ty<I>>() || !t.isClass()) wrong(what, I);
}
template<int I> void look_type(Know const &k, unsigned sel)
{
    auto known = G->id[I];
    bool was = known.valid();
    if (!was && !(sel & 1)) return;
    if (!was && G->exiting) sim::probe(P_late_use);
    auto id = metaTypeId<Ty<I>>();
    if (id.valid() && was && id != known) wrong("another type identifier", I);
    if (!id.valid() && (k.types || !G->exiting)) wrong("no type identifier", I);
    bool strong = k.types || !G->exiting;
    see_type<I>(MetaType{id}, "wrong type", strong);
    see_type<I>(MetaType{type_name<Ty<I>>()}, "wrong type found by name", strong);
    if constexpr (I < NREG)
    {
        for (int how = 0; how < 2; ++how)
        {
            bool there = G->cls[I];
            auto *c = how ? MetaClass::find(type_name<Ty<I>>()) : MetaClass::find(id);
            if (!c) { if (there && ((k.types && k.ns) || !G->exiting)) wrong("a class is not found", I); continue; }
            if (!G->cls_tried[I] || (G->cls[I] && c != G->cls[I])) wrong("another class", I);
            static char const *const name[] = {"_T0", "_T1", "_T2", "_T3"};
            if (c->name() != name[I] || c->metaTypeId() != id) wrong("garbage for a class", I);
            if (c->getMethod("get"))
            {
                Ty<I> o{50};
                variant r = c->getMethod("get")->invoke(o, 5);
                if (r.cref<int>() != 55) wrong("a wrong result from a method", I);
            }
            else if (there) wrong("a method is gone from", I);
        }
    }
}
template<int I> struct Pair { using From = Ty<I>; using To = Ty<I + 1>; };
template<int I> void look_conv(Know const &k)
{
    using F = typename Pair<I>::From; using T = typename Pair<I>::To;
    bool strong = (k.conv[I] && k.types && G->conv[I]) || (!G->exiting && G->conv[I]);
    if (!G->tried[I] && !G->id[I].valid()) return;
    bool has = MetaType::hasConverter<F, T>();
    if (has && !G->tried[I]) wrong("a converter nobody registered", I);
    if (!has && strong) wrong("a lost converter", I);
    if (!has && G->ever[I] && G->exiting) sim::probe(P_withdrawn);
    variant v{F{20}};
    int got = -1;
    try { got = v.template to<T>().v; } catch (bad_variant_cast const &) {}
    if constexpr (I != 2)                                   // (Ty<3> is a Ty<2>: no conversion the other way round)
    {
        if (has && got != 120 + I) wrong("a wrong conversion", I);
        if (!has && got != -1) { if (!G->exiting && G->tried[I]) return; wrong("a conversion without converter", I); }
    }
}
void look_cast(Know const &k)
{
    Ty<3> o;
    bool strong = ((k.types && k.ns) || !G->exiting) && G->cls[0] && G->cls[1] && G->cls[2] && G->cls[3];
    auto *p3 = &o;
    if (auto *p = meta_cast<Ty<0>>(static_cast<Ty<2> *>(p3))) { if (p != static_cast<Ty<0> *>(p3)) wrong("a wrong cast", 0); } else if (strong) wrong("a lost cast", 0);
    if (auto *p = meta_cast<Ty<1>>(static_cast<Ty<0> *>(p3))) { if (p != static_cast<Ty<1> *>(p3)) wrong("a wrong cast", 1); } else if (strong) wrong("a lost cast", 1);
    if (auto *p = meta_cast<Ty<3>>(static_cast<Ty<1> *>(p3))) { if (p != p3) wrong("a wrong cast", 3); } else if (strong) wrong("a lost cast", 3);
    Ty<0> z;
    if (meta_cast<Ty<1>>(&z)) wrong("an impossible cast", 1);
}
void look_value(variant const &v, int x, Know const &k)
{
    bool strong = k.types || !G->exiting;
    bool known = true;
    if (v.empty()) wrong("a value is gone", x);
    try { if (v.cref<Val>().read() != x) wrong("a wrong value", x); } catch (bad_variant_cast const &) { known = false; if (strong) wrong("no access to a value", x); }
    if (!known) sim::probe(P_notype);
    variant c{v};                                           // values can still be copied, compared, moved and destroyed
    if (!(c == v) && strong) wrong("an unequal copy", x);
    variant d{std::move(c)};
    c = v; std::swap(d, c); d.clear();
    if (v.is<Val>() != known && strong) wrong("the wrong type of a value", x);
}
void look(Know const &k, unsigned sel)
{
    sim::Calm calm;
    try
    {
        if (sel & 2) { look_type<0>(k, sel); look_type<1>(k, sel >> 1); }
        if (sel & 4) { look_type<3>(k, sel); look_type<4>(k, sel >> 2); }
        if (sel & 8) { look_conv<0>(k); look_conv<3>(k); }
        if (sel & 16) { look_conv<1>(k); look_type<5>(k, sel); }
        if (sel & 32) look_cast(k);
        if (sel & 64) { look_type<2>(k, sel); look_conv<2>(k); }
        if ((sel & 128) && k.ns && k.types)                 // the whole registry must still be there
        {
            auto *g = MetaNamespace::global();
            if (auto *n = g->getNamespace("_ex"))
            {
                for (std::size_t i = 0; i < n->classCount(); ++i) { auto *c = n->getClass(i); if (!c || (G->exiting && MetaClass::find(c->metaTypeId()) != c) || c->owner() != n || c->qualifiedName() != "::_ex::" + c->name()) wrong("a damaged class", int(i)); }
                for (std::size_t i = 0; G->exiting && i < n->attributeCount(); ++i) if (n->attribute(i).empty()) wrong("a lost attribute", int(i));
            }
        }
    }
    catch (std::exception const &e) { sim::violation("exit", "a query ended with an unexpected exception: %s", e.what()); }
}
struct Spy                                                  // asks questions whenever one of it is destroyed
{
    unsigned sel; Val v;
    Spy(unsigned s, int x): sel(s), v(x) {}
    Spy(Spy const &) = default;
    ~Spy() { v.read(); look(Know{}, sel & ~128u); }
    bool operator==(Spy const &o) const { return v == o.v; }
};

// ------------------------------------------------------------------------------------------------ uses
template<int I> void use_type(int how)
{
    auto id = how == 1 ? metaType<Ty<I>>().typeId() : metaTypeId<Ty<I>>();
    if (how == 2) { variant v{Ty<I>{}}; if (v.typeId() != id) wrong("another type of a value", I); }
    if (!id.valid()) wrong("no type identifier", I);
    G->id[I] = id; G->types = true;
}
template<int I> void use_conv(unsigned sel)
{
    G->tried[I] = true;
    Spy s{sel, 1000 + I};
    MetaType::registerConverter<typename Pair<I>::From, typename Pair<I>::To>([s](typename Pair<I>::From const &f) { s.v.read(); return typename Pair<I>::To{f.v + 100 + I}; });
    G->conv[I] = G->ever[I] = true; G->types = true;
}
template<int I> void drop_conv() { G->conv[I] = false; MetaType::unregisterConverter<typename Pair<I>::From, typename Pair<I>::To>(); G->types = true; }
template<int I> void use_class()
{
    G->cls_tried[I] = true;
    static char const *const name[] = {"_T0", "_T1", "_T2", "_T3"};
    if constexpr (I == 1) use_class<0>();
    if constexpr (I == 3) { use_class<2>(); use_class<1>(); }
    auto g = global_define(); auto n = g._namespace("_ex");
    auto c = n._class<Ty<I>>(name[I]);
    c._method("get", &Ty<I>::get)._property("v", &Ty<I>::v);
    if constexpr (I == 1) c.template _base<Ty<0>>();
    if constexpr (I == 3) c.template _base<Ty<2>, Ty<1>>();
    auto *k = MetaClass::find(metaTypeId<Ty<I>>());
    if (!k) wrong("a registered class is not found", I);
    G->cls[I] = k; G->types = G->ns = true; G->id[I] = k->metaTypeId();
}
void use_global() { if (!MetaNamespace::global()) wrong("no global namespace", 0); G->ns = true; }
void attribute(int t, int k, int x, unsigned sel)
{
    static char const *const an[sim::MAXT] = {"at0", "at1", "at2", "at3", "at4", "at5"};
    auto g = global_define(); auto n = g._namespace("_ex");
    G->ns = true;
    if (k % 3 == 0) n._attribute(an[t], Spy{sel, x});
    else if (k % 3 == 1) n._attribute(an[t], Val{x});
    else
    {
        G->cls_tried[0] = true;
        auto c = n._class<Ty<0>>("_T0");
        G->types = true;
        c._attribute(an[t], Spy{sel, x});
    }
}
void pending(int k, int x, unsigned sel)
{
    static char const *const ln[NL] = {"_l0", "_l1", "_l2"};
    auto g = global_define(); auto n = g._namespace("_ex"); auto l = n._namespace(ln[k]);
    G->ns = true;
    Spy s{sel, x};
    try { l._lazy([s](meta_define<void> d) { s.v.read(); d._attribute("lazy", s.v.v); }); G->pending |= 1 << k; } catch (definition_error const &) {}
}
void force(int k)
{
    static char const *const ln[NL] = {"_l0", "_l1", "_l2"};
    auto *n = MetaNamespace::global()->getNamespace("_ex");
    G->ns = true;
    auto *l = n ? n->getNamespace(ln[k]) : nullptr;
    if (!l) return;
    l->forceDeferredDefine();
    G->pending &= ~(1 << k);
}
template<template<int> class> struct Dummy;
template<int N, typename F> void pick(int i, F &&f) { if (i == N - 1) f(std::integral_constant<int, N - 1>{}); else if constexpr (N > 1) pick<N - 1>(i, f); }

struct Probe
{
    int x; unsigned how; Know k; variant v; std::vector<variant> more;
    Probe(int x, unsigned how): x(x), how(how)
    {
        if (how & 1) use_type<4>(0);                        // what the constructor uses outlives the object
        if (how & 2) use_conv<0>(0);
        if (how & 4) use_global();
        if (how & 8) use_class<1>();
        v = Val{x};
        more.resize((how >> 4) % 4);
        for (auto &m: more) m = v;
        k = know();
    }
    ~Probe()
    {
        G->exiting = true;
        look(k, how >> 6);
        sim::Calm calm;
        look_value(v, x, k);
        for (auto &m: more) look_value(m, x, k);
    }
};
template<int I> void probe(unsigned how) { static Probe p{I + 1, how}; }
template<int I> variant &svar() { static variant v; return v; }

// ------------------------------------------------------------------------------------------------ exits
struct Bomb
{
    Val v; bool armed;
    Bomb(int x, bool a): v(x), armed(a) {}
    Bomb(Bomb const &o);
    Bomb(Bomb &&o) noexcept: v(std::move(o.v)), armed(o.armed) {}
};
[[noreturn]] void leave(bool nested)
{
    if (!G->used) sim::probe(P_never);
    if (G->pending) sim::probe(P_pending);
    if (nested) sim::probe(P_in_callback);
    G->nested = nested; G->exiting = true;
    sim::exit_now(!nested);
}
Bomb::Bomb(Bomb const &o): v(o.v), armed(o.armed) { if (armed) leave(true); }
struct From { int x = 4; }; struct To { int x = 5; };
int method_exit(int) { leave(true); }
template<int I> struct Static { Static() { leave(true); } };
void leave_how(int how)
{
    switch (how)
    {
    case 1: { auto g = global_define(); auto n = g._namespace("_ex"); auto l = n._namespace("_le"); G->ns = true; l._lazy([](meta_define<void> d) { d._attribute("x", 1); leave(true); }); MetaNamespace::global()->getNamespace("_ex")->getNamespace("_le")->methodCount(); break; }
    case 2: use_class<1>(); MetaNamespace::global()->getNamespace("_ex")->for_each_class([](MetaClass const *) -> bool { leave(true); }); break;
    case 3: MetaType::registerConverter<From, To>([](From const &) -> To { leave(true); }); G->types = true; { variant v{From{}}; v.to<To>(); } break;
    case 4: { auto g = global_define(); auto n = g._namespace("_ex"); n._method("leave", &method_exit); G->ns = true; G->types = true; MetaNamespace::global()->getNamespace("_ex")->getMethod("leave")->invoke(1); break; }
    case 5: { Bomb b{3, true}; variant v{b}; break; }
    case 6: { static Static<0> s; break; }
    default: leave(false);
    }
}
void exit_op(int how) { leave_how(how % 10); sim::violation("exit", "the process did not exit"); }

enum Kind { TYPE, CONV, UNCONV, GLOBAL, CLASS, ATTR, LAZY, FORCE, PROBE, VAR, LOOK, EXIT, KINDS };
char const *const kind_name[] = {"first use of type", "register converter", "unregister converter", "global namespace", "register class", "set attribute", "pending definition", "run definition", "create static object", "set static value", "ask", "exit"};
void exec1(int t, Op const &o)
{
    switch (o.kind)
    {
    case TYPE: pick<NT>(o.a % NT, [&](auto i) { use_type<i>(o.b % 3); }); break;
    case CONV: pick<NC>(o.a % NC, [&](auto i) { use_conv<i>(unsigned(o.c)); }); break;
    case UNCONV: if (t == 0) pick<NC>(o.a % NC, [&](auto i) { drop_conv<i>(); }); break;
    case GLOBAL: use_global(); break;
    case CLASS: pick<NREG>(o.a % NREG, [&](auto i) { use_class<i>(); }); break;
    case ATTR: attribute(t, o.a, o.b, unsigned(o.c)); break;
    case LAZY: pending(o.a % NL, o.b, unsigned(o.c)); break;
    case FORCE: force(o.a % NL); break;
    case PROBE: pick<NP>(o.a % NP, [&](auto i) { probe<i>(unsigned(o.c)); }); break;
    case VAR: { variant w; if (o.b & 1) w = Val{o.b}; else w = Spy{unsigned(o.c), o.b}; switch (t % NV) { case 0: svar<0>() = w; break; case 1: svar<1>() = w; break; case 2: svar<2>() = w; break; default: svar<3>() = w; } break; }
    default: look(know(), unsigned(o.c)); break;
    }
}
void exec(int t, Op const &o)
{
    if (o.kind == EXIT) { exit_op(o.a); return; }
    G->used = true;
    guarded(o, [&] { exec1(t, o); }, true);
}
void begin(Plan const &) { G = new State; }
void check(Plan const &) { G->exiting = true; if (G->pending) sim::probe(P_pending); if (!G->used) sim::probe(P_never); }
} // namespace

void exit_check()
{
    using namespace exitww;
    if (!G || G->nested) return;
    if (int n = sim::obj_count(ID_VAL)) sim::violation("exit", "%d object(s) inside library values are never destroyed", n);
}
namespace exitww {
Op op(Rng &g, RunCfg const &, int)
{
    static int const weight[] = {12, 12, 3, 6, 10, 9, 8, 4, 24, 8, 4};
    int total = 0; for (int w: weight) total += w;
    Op o; int r = int(g.below(uint32_t(total)));
    for (o.kind = 0; r >= weight[o.kind]; ++o.kind) r -= weight[o.kind];
    o.a = int(g.below(24)); o.b = int(g.range(1, 99)); o.c = int(g.next() & 0x3FFF);
    if (o.kind == PROBE && g.chance(1, 2)) o.c &= ~15;
    return o;
}
void some(Rng &g, RunCfg const &c, std::vector<Op> &v, uint32_t n) { for (uint32_t i = g.below(n); i > 0; --i) v.push_back(op(g, c, 0)); }
void setup(Rng &g, RunCfg const &c, Plan &p)
{
    if (g.chance(1, 2)) some(g, c, p.setup, 7);
    if (g.chance(1, 12)) { Op o; o.kind = EXIT; o.a = int(g.below(10)); p.setup.push_back(o); }
}
void fin(Rng &g, RunCfg const &c, Plan &p)
{
    some(g, c, p.fin, 6);
    if (g.chance(2, 3)) { Op o; o.kind = EXIT; o.a = int(g.below(10)); p.fin.push_back(o); }
}
std::string show(Op const &o)
{
    static char const *const where[] = {"", " inside a deferred definition", " inside an enumeration", " inside a converter", " inside a method", " inside a copy constructor", " inside a static initialisation", "", "", ""};
    std::string s = kind_name[o.kind % KINDS];
    if (o.kind == EXIT) s += where[o.a % 10]; else if (o.kind != GLOBAL && o.kind != LOOK) s += " #" + std::to_string(o.a);
    return s;
}
} // namespace
World const exitw = {"exit", false, exitww::setup, exitww::op, exitww::fin, exitww::begin, exitww::exec, exitww::check, nullptr, exitww::show};
}
