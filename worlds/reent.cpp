// Callback world: every kind of user code the library calls (enumeration callbacks, deferred definitions, converters,
// methods, property accessors, constructors, value copies and comparisons) calls the library again: queries, registers,
// converts, invokes, nested several levels deep, from several threads, and possibly fails with an exception.
//
// Oracle: every call returns (the scheduler reports deadlocks and lack of progress), exceptions arrive unchanged, nothing
// whose registration returned is ever missing later, results are right, and no lock or object is left behind.
#include "shared.h"
#include "tracked.h"
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/variant.h>
#include <cstring>

namespace worlds { namespace reentw {

using namespace rtti;

enum { P_deep = 56, P_enum_reg, P_lazy_lazy, P_conv_lazy, P_copy_reg, P_meth_lazy, P_threw_deep, P_prop_reg };
int const probes_ = sim::name_probes(P_deep, {"callback inside a callback inside a callback", "enumeration callback registered something", "definition ran another definition", "converter ran a definition", "value copy registered something", "method or constructor ran a definition", "nested callback threw", "property accessor registered something"});

enum { ID_VAL = 75 };
enum Ctx { X_OP, X_ENUM, X_LAZY, X_CONV, X_METHOD, X_PROP, X_COPY, X_CTOR };
void nested(Ctx);
struct Val: Trk<ID_VAL, 40>
{
    using B = Trk<ID_VAL, 40>;
    explicit Val(int x): B(x) {}
    Val(Val const &o): B(o) { nested(X_COPY); }
    Val(Val &&o) noexcept: B(std::move(o)) {}
    Val &operator=(Val const &) = default;
    Val &operator=(Val &&) = default;
    bool operator==(Val const &o) const { nested(X_COPY); return read() == o.read(); }
};
struct ValTo { int v; };
struct ValTo2 { int v; };

constexpr int NM = 12, NCL = 6, NZ = 6, NTY = 16;
struct R0 { DECLARE_CLASSINFO public: int x = 3; R0() { nested(X_CTOR); } R0(R0 const &o): x(o.x) { nested(X_COPY); } explicit R0(int a, Val const &b): x(a + b.read()) { nested(X_CTOR); } virtual ~R0() = default;
    int m(int a) { nested(X_METHOD); return x + a; }
    int cm(Val v) const { nested(X_METHOD); return x + v.read(); }
    int get() const { nested(X_PROP); return x; }
    void set(int a) { nested(X_PROP); x = a; } };
template<int I> struct K: R0 { DECLARE_CLASSINFO public: int k = I; };
template<int I> struct T { int t[I + 1]; };
enum E { e0 };
int target(int a) { nested(X_METHOD); return a + 1; }
Val vtarget(Val const &a) { nested(X_METHOD); return Val{a.read() + 1}; }

char const *const mn[NM] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "m10", "m11"};
char const *const cn[NCL] = {"_K0", "_K1", "_K2", "_K3", "_K4", "_K5"};
char const *const zn[NZ] = {"_z0", "_z1", "_z2", "_z3", "_z4", "_z5"};
char const *const an[sim::MAXT] = {"a0", "a1", "a2", "a3", "a4", "a5"};
char const *const en[sim::MAXT] = {"x0", "x1", "x2", "x3", "x4", "x5"};

struct Thread { uint32_t rng = 0; int depth = 0, budget = 0; int lazy = 0; Ctx chain[8] = {}; bool attr = false; };
struct State
{
    bool ready = false;
    bool meth[NM] = {}, cls[NCL] = {}, zdef[NZ] = {}, elem[sim::MAXT] = {}, conv2 = false;
    MetaType_ID ty[NTY];
    Thread t[sim::MAXT];
};
State *G;
uint32_t draw(uint32_t n) { auto &t = G->t[sim::tid()]; t.rng = t.rng * 1664525u + 1013904223u; return (t.rng >> 8) % n; }

[[noreturn]] void lost(char const *what, char const *name) { sim::violation("lost", "%s '%s' was registered but is not found", what, name); }
MetaNamespace const *ns() { auto *n = MetaNamespace::global()->getNamespace("_rw"); if (!n) lost("namespace", "_rw"); return n; }
template<int I = 0> void reg_class(int i)
{
    if (i == I)
    {
        auto g = global_define(); auto n = g._namespace("_rw"); auto c = n._class<K<I>>(cn[I]);
        c.template _base<R0>(); c._method("k", &target);
    }
    else if constexpr (I + 1 < NCL) reg_class<I + 1>(i);
}
template<int I = 0> MetaType_ID class_id(int i) { if (i == I) return metaTypeId<K<I>>(); if constexpr (I + 1 < NCL) return class_id<I + 1>(i); return MetaType_ID{}; }
template<int I = 0> MetaType_ID type_id(int i) { if (i == I) return metaTypeId<T<I>>(); if constexpr (I + 1 < NTY) return type_id<I + 1>(i); return MetaType_ID{}; }
template<int I = 0> void derived_cast(int i)
{
    if (i == I)
    {
        K<I> k; R0 *b = &k;
        bool must = G->cls[I];
        auto *p = meta_cast<K<I>>(b);
        if (p ? p != &k : must) sim::violation("cast", "a cast to '%s' gives something wrong", cn[I]);
    }
    else if constexpr (I + 1 < NCL) derived_cast<I + 1>(i);
}
void define_z(meta_define<void> d, int k)
{
    auto &t = G->t[sim::tid()];
    if (t.lazy) sim::probe(P_lazy_lazy);
    struct In { int &l; In(int &l): l(l) { ++l; } ~In() { --l; } } in{t.lazy};
    nested(X_LAZY);
    d._method("d", &target);
    nested(X_LAZY);
    d._method("d2", &target);
    G->zdef[k] = true;
}
bool registering(int a) { return a == 2 || a == 3 || a == 4 || a == 5 || a == 7 || a == 12; }
void act(int a, int s)
{
    auto tid = sim::tid();
    switch (a)
    {
    case 0:
    {
        auto *n = ns();
        std::size_t want = 0; for (bool b: G->meth) want += b;
        if (n->methodCount() < want) sim::violation("lost", "the method count went back");
        n->classCount(); n->namespaceCount(); n->propertyCount(); n->enumCount(); n->attributeCount(); n->name(); n->qualifiedName();
        break;
    }
    case 1:
    {
        auto *n = ns();
        int i = s % NM; bool had = G->meth[i];
        if (!n->getMethod<int>(mn[i]) && had) lost("method", mn[i]);
        i = s % NCL; had = G->cls[i];
        auto *c = n->getClass(cn[i]);
        if (!c && had) lost("class", cn[i]);
        if (c && had && MetaClass::find(class_id(i)) != c) lost("class of type", cn[i]);
        break;
    }
    case 2: { int i = s % NM; auto g = global_define(); g._namespace("_rw")._method(mn[i], &target); G->meth[i] = true; break; }
    case 3:
    {
        if (G->t[tid].attr) break;                          // the attribute is not replaced while it is being set
        struct Busy { bool &b; Busy(bool &b): b(b) { b = true; } ~Busy() { b = false; } } busy{G->t[tid].attr};
        { auto g = global_define(); auto n = g._namespace("_rw"); Val v{s}; n._attribute(an[tid], v); }
        sim::Calm calm;
        if (ns()->attribute(an[tid]).cref<Val>().read() != s) sim::violation("lost", "an attribute that was set has another value");
        break;
    }
    case 4: { int i = s % NCL; reg_class(i); G->cls[i] = true; break; }
    case 5:
    {
        int k = s % NZ;
        auto g = global_define(); auto n = g._namespace("_rw"); auto z = n._namespace(zn[k]);
        try { z._lazy([k](meta_define<void> d) { define_z(d, k); }); } catch (definition_error const &e) { if (sim::ours(e)) throw; }
        break;
    }
    case 6:
    {
        int k = s % NZ;
        auto *z = ns()->getNamespace(zn[k]);
        if (!z) break;
        bool had = G->zdef[k];
        bool found = z->getMethod("d") != nullptr;
        if (!found && had) lost("method of a deferred definition", zn[k]);
        if (found && had && !z->getMethod("d2")) lost("second method of a deferred definition", zn[k]);
        break;
    }
    case 7:
        if (s & 1) MetaType::registerConverter<ValTo, ValTo2>([](ValTo const &x) { nested(X_CONV); return ValTo2{x.v + 3}; });
        else MetaType::unregisterConverter<ValTo, ValTo2>();
        break;
    case 8:
    {
        if (s & 1)
        {
            variant v{Val{s}};
            if (v.to<ValTo>().v != s + 2) sim::violation("wrong-result", "a conversion gave a wrong value");
        }
        else
        {
            variant v{ValTo{s}};
            try { if (v.to<ValTo2>().v != s + 3) sim::violation("wrong-result", "a conversion gave a wrong value"); }
            catch (bad_variant_convert const &) { if (sim::fault_fired()) throw sim::Injected{-1}; }
        }
        break;
    }
    case 9:
    {
        auto *n = ns();
        if (s % 3 == 0) { variant r = n->getMethod("call")->invoke(s); if (r.to<int>() != s + 1) sim::violation("wrong-result", "a method gave a wrong result"); }
        else if (s % 3 == 1) { Val v{s}; variant r = n->getMethod("vcall")->invoke(v); if (r.cref<Val>().read() != s + 1) sim::violation("wrong-result", "a method gave a wrong result"); }
        else { R0 o; variant in{std::ref(o)}; Val v{s}; variant r = (s & 1) ? in.invoke("cm", v) : in.invoke("m", s); if (r.to<int>() != 3 + s) sim::violation("wrong-result", "a method gave a wrong result"); }
        break;
    }
    case 10:
    {
        auto *n = ns();
        int left = 1 + s % 3;
        auto cb = [&left] { nested(X_ENUM); return --left > 0; };
        switch (s / 3 % 7)
        {
        case 0: n->for_each_method([cb](MetaMethod const *) mutable { return cb(); }); break;
        case 1: n->for_each_class([cb](MetaClass const *) mutable { return cb(); }); break;
        case 2: case 3: n->for_each_attribute([cb](std::string_view, variant const &) mutable { return cb(); }); break;
        case 4: n->getClass("_R0")->for_each_method([cb](MetaMethod const *) mutable { return cb(); }); break;
        case 5: MetaNamespace::global()->for_each_class([cb](MetaClass const *) mutable { return cb(); }); break;
        default: n->getEnum("_re")->for_each_element([cb](std::string const &, variant const &) mutable { return cb(); }); break;
        }
        break;
    }
    case 11: { int i = s % NTY; auto id = type_id(i); if (!id.valid() || (G->ty[i].valid() && G->ty[i] != id)) sim::violation("identity", "a type has two identifiers or none"); G->ty[i] = id; break; }
    case 12:
    {
        int i = tid; auto g = global_define(); auto n = g._namespace("_rw"); auto e = n._enum<E>("_re"); e._element(en[i], i); G->elem[i] = true;
        break;
    }
    case 13:
    {
        R0 o; variant in{std::ref(o)};
        auto *p = MetaClass::find(metaTypeId<R0>())->getProperty("p");
        if (s & 1) { p->set(in, s); if (o.x != s) sim::violation("wrong-result", "a property was not set"); }
        else if (p->get(in).to<int>() != o.x) sim::violation("wrong-result", "a property has a wrong value");
        break;
    }
    case 14:
    {
        auto *c = MetaClass::find(metaTypeId<R0>());
        if (s & 1) { variant r = c->defaultConstructor()->invoke(); if (r.cref<R0>().x != 3) sim::violation("wrong-result", "a constructor made a wrong object"); }
        else { Val v{s}; variant r = c->getConstructor("c")->invoke(5, v); if (r.cref<R0>().x != 5 + s) sim::violation("wrong-result", "a constructor made a wrong object"); }
        break;
    }
    case 15: derived_cast(s % NCL); break;
    case 16:
    {
        variant v{Val{s}}, w{v};
        if (!(v == w)) sim::violation("wrong-result", "a copy is unequal");
        w = v; if (w.cref<Val>().read() != s) sim::violation("wrong-result", "a copy is wrong");
        break;
    }
    case 17: ns()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); break;
    default: { auto *e = ns()->getEnum("_re"); int i = tid; bool had = G->elem[i]; if (!e) lost("enum", "_re"); if (had && e->element(en[i]).empty()) lost("element", en[i]); e->elementCount(); break; }
    }
}
void nested(Ctx x)
{
    if (!G || !G->ready) return;
    auto &t = G->t[sim::tid()];
    if (!t.budget) return;
    if (t.depth < 7) t.chain[t.depth] = x;
    struct In { int &d; In(int &d): d(d) { ++d; } ~In() { --d; } } in{t.depth};
    if (t.depth <= 3 && draw(2))
    {
        --t.budget;
        int a = int(draw(19)), s = int(draw(60));
        if (t.depth >= 3) sim::probe(P_deep);
        if (registering(a)) { if (x == X_ENUM) sim::probe(P_enum_reg); if (x == X_COPY) sim::probe(P_copy_reg); if (x == X_PROP) sim::probe(P_prop_reg); }
        if (a == 6 || a == 17) { if (x == X_CONV) sim::probe(P_conv_lazy); if (x == X_METHOD || x == X_CTOR) sim::probe(P_meth_lazy); }
        act(a, s);
    }
    try { sim::user_point(7); } catch (...) { if (t.depth >= 2) sim::probe(P_threw_deep); throw; }
}

enum Kind { ACT, SETUP, FINAL };
void exec(int tid, Op const &o)
{
    if (o.kind == SETUP)
    {
        auto g = global_define(); auto n = g._namespace("_rw");
        n._method("call", &target)._method("vcall", &vtarget);
        auto e = n; e._enum<E>("_re")._element("first", 0);
        auto c = n._class<R0>("_R0");
        c._constructor<int, Val const &>("c")._method("m", &R0::m)._method("cm", &R0::cm)._property("p", &R0::get, &R0::set);
        MetaType::registerConverter<Val, ValTo>([](Val const &v) { nested(X_CONV); return ValTo{v.read() + 2}; });
        MetaType::registerConverter<ValTo, ValTo2>([](ValTo const &x) { nested(X_CONV); return ValTo2{x.v + 3}; });
        G->ready = true;
        return;
    }
    if (!G->ready) return;
    auto &t = G->t[tid];
    if (o.kind == FINAL)
    {
        t.budget = 0;
        for (int i = 0; i < 19; ++i) for (int s = 0; s < 12; ++s) if (i <= 1 || i == 6 || i == 9 || i == 13 || i == 14 || i == 15 || i == 18) act(i, s);
        auto *n = ns();
        int got = 0;
        n->for_each_method([&got](MetaMethod const *) { ++got; return true; });
        if (got != int(n->methodCount())) sim::violation("inconsistent", "enumeration and count disagree");
        for (std::size_t i = 0; i < n->methodCount(); ++i) if (n->getMethod(n->getMethod(i)->name()) != n->getMethod(i)) sim::violation("inconsistent", "a method is not found by its name");
        for (std::size_t i = 0; i < n->classCount(); ++i) if (n->getClass(n->getClass(i)->name()) != n->getClass(i) || MetaClass::find(n->getClass(i)->metaTypeId()) != n->getClass(i)) sim::violation("inconsistent", "a class is not found by its name");
        for (int i = 0; i < NCL; ++i) if (G->cls[i] && !MetaClass::find(class_id(i))->inheritedFrom(MetaClass::find(metaTypeId<R0>()))) sim::violation("inconsistent", "an inheritance link is missing");
        return;
    }
    auto once = [&] {
        t.rng = uint32_t(o.c) * 2654435761u + 77; t.budget = o.d; t.depth = 0; t.lazy = 0; t.attr = false;
        try { act(o.a, o.b); }
        catch (bad_variant_convert const &) { if (!sim::fault_fired()) throw; }
        catch (sim::Injected const &i) { if (i.serial != -1) throw; }          // (a converter's failure is reported as a conversion error)
    };
    guarded(o, once, false);
    t.budget = 0;
}
void begin(Plan const &) { G = new State; }
void check(Plan const &)
{
    int n = 0; for (bool b: G->meth) n += b; for (bool b: G->cls) n += 100 * b;
    sim::rec(uint64_t(n));
}
int favour[3];
void setup(Rng &g, RunCfg const &, Plan &p) { Op o; o.kind = SETUP; p.setup.push_back(o); for (auto &f: favour) f = int(g.below(19)); }
Op op(Rng &g, RunCfg const &, int)
{
    Op o; o.kind = ACT;
    o.a = g.chance(1, 3) ? favour[g.below(3)] : int(g.below(19)); o.b = int(g.below(60)); o.c = int(g.below(1u << 20)); o.d = int(g.below(7));
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; p.fin.push_back(o); }
char const *const act_name[] = {"counts", "look up by name", "register a method", "set an attribute", "register a class", "attach a deferred definition", "use a lazy container", "register/unregister a converter", "convert", "invoke", "enumerate", "first use of a type", "set an enum element", "property", "construct", "cast", "copy and compare", "force all definitions", "look up an element"};
std::string show(Op const &o)
{
    if (o.kind == SETUP) return "define";
    if (o.kind == FINAL) return "final look";
    return std::string(act_name[o.a % 19]) + " #" + std::to_string(o.b) + ", up to " + std::to_string(o.d) + " nested calls (script " + std::to_string(o.c) + ")";
}
}
World const reent = {"callbacks", true, reentw::setup, reentw::op, reentw::fin, reentw::begin, reentw::exec, reentw::check, nullptr, reentw::show};
}
