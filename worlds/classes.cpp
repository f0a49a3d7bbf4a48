// Class world: threads register C++ types as classes under competing names and owners, declare base classes, and query
// identity, inheritance and casts on real objects (single, multiple, virtual and repeated inheritance).
//
// Oracle: one registration instant per type and access path explains every outcome (ListHist, exact); links are
// append-only and symmetric in the end; inheritance answers are justified by the links possibly / certainly declared;
// every cast address is one the compiler's own upcasts produce along a declared path.
#include "shared.h"
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <memory>
#include <functional>

namespace worlds { namespace classesw {

using namespace rtti;

#define CI DECLARE_CLASSINFO public:
struct V0 { CI int a = 1; virtual ~V0() = default; };
struct V1: virtual V0 { CI int b = 2; };
struct V2: virtual V0 { CI int c = 3; };
struct V3: V1, V2 { CI int d = 4; };
struct M1 { CI int e = 5; virtual ~M1() = default; };
struct M2 { CI int f = 6; virtual ~M2() = default; };
struct M3: M1, M2 { CI int g = 7; };
struct M4: M3, V3 { CI int h = 8; };
struct N1: M1 { CI int i = 9; };
struct N2: M1 { CI int j = 10; };
struct N3: N1, N2 { CI int k = 11; };
struct Q0 { long l = 12; };
struct Q1: Q0 { long m = 13; };
struct Q2 { long n = 14; };
struct Q3: Q1, Q2 { long o = 15; };
struct Q4: Q2, virtual Q1 { long p = 16; };
struct Host { int q = 17; };

constexpr int NT = 16;
template<int I> struct TypeAt;
#define T_(I, C) template<> struct TypeAt<I> { using type = C; };
T_(0, V0) T_(1, V1) T_(2, V2) T_(3, V3) T_(4, M1) T_(5, M2) T_(6, M3) T_(7, M4) T_(8, N1) T_(9, N2) T_(10, N3) T_(11, Q0) T_(12, Q1) T_(13, Q2) T_(14, Q3) T_(15, Q4)
#undef T_
template<int I> using At = typename TypeAt<I>::type;
char const *const tname[NT] = {"V0", "V1", "V2", "V3", "M1", "M2", "M3", "M4", "N1", "N2", "N3", "Q0", "Q1", "Q2", "Q3", "Q4"};
template<typename F> void dispatch(int i, F &&f)
{
    switch (i)
    {
#define C_(I) case I: f(std::integral_constant<int, I>{}); break;
    C_(0) C_(1) C_(2) C_(3) C_(4) C_(5) C_(6) C_(7) C_(8) C_(9) C_(10) C_(11) C_(12) C_(13) C_(14) C_(15)
#undef C_
    }
}
struct Link { int d, b; void const *(*up)(void const *); };
template<int D, int B> void const *up(void const *p) { return static_cast<At<B> const *>(static_cast<At<D> const *>(p)); }
#define L_(D, B) {D, B, &up<D, B>}
Link const links[] = {L_(1, 0), L_(2, 0), L_(3, 1), L_(3, 2), L_(3, 0), L_(6, 4), L_(6, 5), L_(7, 6), L_(7, 3), L_(7, 4), L_(7, 0), L_(8, 4), L_(9, 4), L_(10, 8), L_(10, 9),
                      L_(12, 11), L_(14, 12), L_(14, 13), L_(14, 11), L_(15, 13), L_(15, 12)};
#undef L_
constexpr int NL = int(sizeof links / sizeof *links);
constexpr int SLOTS = 6;                                  // name variant + 2 * owner (global, namespace, class)
char const *const owner_name[] = {"global", "_cw", "_cwHost"};
char const *const cls_name[2][NT] = {
    {"_V0", "_V1", "_V2", "_V3", "_M1", "_M2", "_M3", "_M4", "_N1", "_N2", "_N3", "_Q0", "_Q1", "_Q2", "_Q3", "_Q4"},
    {"_aV0", "_aV1", "_aV2", "_aV3", "_aM1", "_aM2", "_aM3", "_aM4", "_aN1", "_aN2", "_aN3", "_aQ0", "_aQ1", "_aQ2", "_aQ3", "_aQ4"}};
inline char const *slot_name(int t, int s) { return cls_name[s & 1][t]; }

template<typename T, typename MB> struct Peek: meta_define<T, MB>
{
    template<typename P> static auto get(meta_define<T, MB> &d, int) -> decltype(static_cast<MetaItem *>(d.*(&P::m_currentItem))) { return d.*(&P::m_currentItem); }
    template<typename P> static MetaItem *get(meta_define<T, MB> &, long) { return nullptr; }
    static MetaItem *item(meta_define<T, MB> &d) { return get<Peek>(d, 0); }
};
template<typename T, typename MB> MetaItem *current(meta_define<T, MB> &d) { return Peek<T, MB>::item(d); }

template<typename F> void with(int slot, F &&f)
{
    auto g = global_define();
    switch (slot >> 1)
    {
    case 0: f(g); break;
    case 1: { auto n = g._namespace("_cw"); f(n); break; }
    default: { auto k = g._class<Host>("_cwHost"); f(k); break; }
    }
}

// -------------------------------------------------------------------------------------------------- history
struct RegE { int t, slot; uint64_t inv, ret; bool maybe, ok; void const *p; };
struct FindE { int t, path; uint64_t inv, ret; void const *p; };            // path 0: by type, 1: through its container
struct LinkE { int l; uint64_t inv, ret; bool maybe; };
struct NoBase { int b; uint64_t inv, ret; };
struct ListE { int t; bool derived; int idx; uint64_t inv, ret; int n; void const *p; };   // idx -1: count
struct InhE { int d, b; uint64_t inv, ret; bool yes; };
struct Hist { std::vector<RegE> regs; std::vector<FindE> finds; std::vector<LinkE> links; std::vector<NoBase> nobase; std::vector<ListE> lists; std::vector<InhE> inh; };
Hist *H;
struct Final { MetaClass const *cls[NT]; int slot[NT]; std::vector<int> bases[NT], derived[NT]; };
Final *S;
MetaType_ID tid_of(int t) { MetaType_ID r; dispatch(t, [&](auto i) { r = metaTypeId<At<i.value>>(); }); return r; }

// an attempt that is abandoned by an exception stays "maybe"
template<typename E> struct Attempt
{
    std::vector<E> &v; size_t i;
    Attempt(std::vector<E> &v, E e): v(v) { Mute m; e.inv = sim::stamp(); e.maybe = true; i = v.size(); v.push_back(e); }
    void done() { Mute m; v[i].ret = sim::stamp(); v[i].maybe = false; }
    E &e() { return v[i]; }
    ~Attempt() { if (v[i].maybe) { Mute m; v[i].ret = sim::stamp(); } }
};
bool sure_registered(int t, uint64_t before) { for (auto &r: H->regs) if (r.t == t && !r.maybe && r.ok && r.ret < before) return true; return false; }
bool may_registered(int t, uint64_t before) { for (auto &r: H->regs) if (r.t == t && (r.maybe || r.ok) && r.inv < before) return true; return false; }
// links that were certainly declared / possibly declared before an instant
unsigned sure_links(uint64_t before) { unsigned m = 0; for (auto &l: H->links) if (!l.maybe && l.ret < before) m |= 1u << l.l; return m; }
unsigned may_links(uint64_t before) { unsigned m = 0; for (auto &l: H->links) if (l.inv < before) m |= 1u << l.l; return m; }
bool reach(unsigned mask, int d, int b) { if (d == b) return true; for (int i = 0; i < NL; ++i) if ((mask >> i & 1) && links[i].d == d && reach(mask, links[i].b, b)) return true; return false; }
bool address_ok(unsigned mask, int d, int b, void const *obj, void const *got)
{
    if (d == b) return obj == got;
    for (int i = 0; i < NL; ++i) if ((mask >> i & 1) && links[i].d == d && address_ok(mask, links[i].b, b, links[i].up(obj), got)) return true;
    return false;
}

// -------------------------------------------------------------------------------------------------- definitions
// opens the class; false: rejected
template<int I, typename D, typename F> bool open_class(D &owner, int slot, F &&f)
{
    using T = At<I>;
    Attempt<RegE> a(H->regs, {I, slot, 0, 0, true, false, nullptr});
    try
    {
        auto k = owner.template _class<T>(slot_name(I, slot));
        { Mute m; a.e().ok = true; a.e().p = current(k); }
        a.done();
        f(k);
        return true;
    }
    catch (duplicate_metaclass const &)
    {
        if (a.e().maybe) { Mute m; a.e().ok = false; a.done(); }
        return false;
    }
}
template<typename K, int B> void declare1(K &k, int l)
{
    Attempt<LinkE> a(H->links, {l, 0, 0, true});
    try { k.template _base<At<B>>(); a.done(); }
    catch (unregistered_metaclass const &) { Mute m; auto inv = a.e().inv; H->links.erase(H->links.begin() + long(a.i)); H->nobase.push_back({B, inv, sim::stamp()}); H->links.insert(H->links.begin() + long(a.i), LinkE{l, inv, inv, false}); H->links[a.i].l = 31; }
}
template<int D, int B0, int B1, typename K> void declare2(K &k, int l0, int l1)
{
    uint64_t inv = sim::stamp();
    bool ok = false;
    size_t i0, i1;
    { Mute m; i0 = H->links.size(); H->links.push_back({l0, inv, 0, true}); i1 = H->links.size(); H->links.push_back({l1, inv, 0, true}); }
    auto end = [&](bool first, bool second) { Mute m; auto r = sim::stamp(); H->links[i0].ret = H->links[i1].ret = r; H->links[i0].maybe = !first; H->links[i1].maybe = !second; };
    try { k.template _base<At<B0>, At<B1>>(); ok = true; end(true, true); }
    catch (unregistered_metaclass const &)
    {   // one of the two was not registered; the ones named before it stay
        end(false, false);
        Mute m;
        if (sure_registered(B0, inv) && sure_registered(B1, inv)) sim::violation("inheritance", "declaring registered bases of %s was rejected", tname[D]);
        if (sure_registered(B0, inv)) H->links[i0].maybe = false;
        if (!sure_registered(B1, inv) && sure_registered(B0, inv)) H->links[i1].l = 31;       // the second was the missing one
    }
    catch (...) { if (!ok) end(false, false); throw; }
}

enum Kind { REG, BASE, BASE2, FIND, INH, CAST, VCAST, LISTS, FINAL, KINDS };
char const *const kind_name[] = {"register", "declare base", "declare two bases", "find", "inheritance query", "cast", "cast value", "base/derived lists", "final look"};

void define(Op const &o)
{
    if (o.kind == REG)
        with(o.b, [&](auto &d) { dispatch(o.a, [&](auto i) { open_class<i.value>(d, o.b, [](auto &) {}); }); });
    else if (o.kind == BASE)
    {
        auto const &L = links[o.a];
        with(o.b, [&](auto &d) { dispatch(L.d, [&](auto i) { open_class<i.value>(d, o.b, [&](auto &k)
        {
            dispatch(L.b, [&](auto b) { if constexpr (std::is_convertible_v<At<i.value> *, At<b.value> *>) declare1<std::decay_t<decltype(k)>, b.value>(k, o.a); });
        }); }); });
    }
    else
    {
#define TWO(D, B0, B1, L0, L1) with(o.b, [&](auto &d) { open_class<D>(d, o.b, [&](auto &k) { declare2<D, B0, B1>(k, L0, L1); }); })
        switch (o.a)
        {
        case 0: TWO(3, 1, 2, 2, 3); break;
        case 1: TWO(6, 4, 5, 5, 6); break;
        case 2: TWO(10, 8, 9, 13, 14); break;
        case 3: TWO(14, 12, 13, 16, 17); break;
        case 4: TWO(7, 6, 3, 7, 8); break;
        default: TWO(15, 13, 12, 19, 20); break;
        }
#undef TWO
    }
}

// -------------------------------------------------------------------------------------------------- queries
MetaContainer const *owner_of(int slot)
{
    auto *g = MetaNamespace::global();
    if (slot >> 1 == 0) return g;
    if (slot >> 1 == 1) return static_cast<MetaContainer const *>(g->getNamespace("_cw"));
    return static_cast<MetaContainer const *>(g->getClass("_cwHost"));
}
void same_class(int t, MetaClass const *c, int slot)
{
    if (!c) return;
    if (c->metaTypeId() != tid_of(t)) sim::violation("identity", "a class found for %s has another type", tname[t]);
    if (slot >= 0 && c->name() != slot_name(t, slot)) sim::violation("identity", "the class found as '%s' is called '%s'", slot_name(t, slot), c->name().c_str());
}
MetaClass const *find(int t, int how)
{
    MetaClass const *c = nullptr;
    auto id = tid_of(t);
    std::string_view name; if (how == 1) name = MetaType{id}.typeName();
    auto inv = sim::stamp();
    switch (how)
    {
    case 0: c = MetaClass::find(id); break;
    case 1: c = MetaClass::find(name); break;
    case 2: c = MetaType{id}.metaClass(); break;
    default: dispatch(t, [&](auto i) { static At<i.value> const obj{}; variant v{std::cref(obj)}; inv = sim::stamp(); c = v.metaClass(); }); break;
    }
    auto ret = sim::stamp();
    { Mute m; H->finds.push_back({t, 0, inv, ret, c}); }
    same_class(t, c, -1);
    return c;
}
void find_in(int t, int slot, int how)
{
    auto *o = owner_of(slot);
    if (!o) return;
    MetaClass const *c = nullptr;
    auto inv = sim::stamp();
    if (how == 0) c = o->getClass(slot_name(t, slot));
    else if (how == 1) { for (std::size_t i = 0, n = o->classCount(); i < n && !c; ++i) { auto *k = o->getClass(i); if (!k) sim::violation("identity", "a counted class is not there"); if (k->name() == slot_name(t, slot)) c = k; } }
    else { struct X { MetaClass const **c; char const *n; } x{&c, slot_name(t, slot)}; auto *px = &x; o->for_each_class([px](MetaClass const *k) { if (k->name() == px->n) { *px->c = k; return false; } return true; }); }
    auto ret = sim::stamp();
    { Mute m; H->finds.push_back({t, 1 + slot, inv, ret, c}); }
    same_class(t, c, slot);
}
void inherit(int d, int b)
{
    auto *cd = find(d, 0); auto *cb = find(b, 0);
    if (!cd || !cb) return;
    auto inv = sim::stamp();
    bool yes = cd->inheritedFrom(cb);
    auto ret = sim::stamp();
    Mute m; H->inh.push_back({d, b, inv, ret, yes});
}
// judged at once: which answers were possible for converting dynamic type d at obj to b
void judge(int d, int b, void const *obj, void const *got, uint64_t inv, char const *how)
{
    auto ret = sim::stamp();
    Mute m;
    if (!got)
    {
        if (sure_registered(d, inv) && sure_registered(b, inv) && reach(sure_links(inv), d, b))
            sim::violation("cast", "%s: %s -> %s gives nothing although the path is declared", how, tname[d], tname[b]);
        return;
    }
    if (!may_registered(d, ret) || !may_registered(b, ret) || !reach(may_links(ret), d, b)) sim::violation("cast", "%s: %s -> %s succeeds without a declared path", how, tname[d], tname[b]);
    if (!address_ok(may_links(ret), d, b, obj, got)) sim::violation("cast", "%s: %s -> %s gives a wrong address", how, tname[d], tname[b]);
}
template<int D> At<D> &object() { static At<D> *o = nullptr; if (!o) { Mute m; o = new At<D>; } return *o; }
void cast(Op const &o)
{
    // dynamic type a, static type b, target c
    dispatch(o.a, [&](auto d) { dispatch(o.b, [&](auto f) {
        if constexpr (d.value < 11 && f.value < 11 && std::is_convertible_v<At<d.value> *, At<f.value> *>)
        {
            At<d.value> &obj = object<d.value>(); At<f.value> *stat = &obj;
            dispatch(o.c, [&](auto t) {
                if constexpr (t.value < 11)
                {
                    using To = At<t.value>;
                    auto inv = sim::stamp();
                    void const *got = nullptr;
                    switch (o.d & 3)
                    {
                    case 0: got = meta_cast<To>(stat); break;
                    case 1: got = meta_cast<To>(const_cast<At<f.value> const *>(stat)); break;
                    case 2: try { got = &meta_cast<To>(*stat); } catch (bad_meta_cast const &) {} break;
                    default: try { got = &meta_cast<To>(*const_cast<At<f.value> const *>(stat)); } catch (bad_meta_cast const &) {} break;
                    }
                    judge(d.value, t.value, &obj, got, inv, "meta_cast");
                }
            });
        }
    }); });
}
template<int D> variant make(int mode)
{
    auto &obj = object<D>();
    switch (mode)
    {
    case 0: return variant{obj};
    case 1: return variant{std::ref(obj)};
    case 2: return variant{std::cref(obj)};
    case 3: return variant{&obj};
    default: return variant{const_cast<At<D> const *>(&obj)};
    }
}
template<int F> variant make_base(At<F> &o, int mode)       // a reference / pointer to a base of the object
{
    switch (mode) { case 0: return variant{std::ref(o)}; case 1: return variant{std::cref(o)}; case 2: return variant{&o}; default: return variant{const_cast<At<F> const *>(&o)}; }
}
void judge_is(int d, int t, bool same, bool is, uint64_t inv)
{
    auto ret = sim::stamp();
    Mute m;
    if (same) { if (!is) sim::violation("cast", "a value does not hold its own type %s", tname[t]); }
    else if (is && (!may_registered(d, ret) || !may_registered(t, ret) || !reach(may_links(ret), d, t))) sim::violation("cast", "%s is a %s without a declared path", tname[d], tname[t]);
    else if (!is && sure_registered(d, inv) && sure_registered(t, inv) && reach(sure_links(inv), d, t)) sim::violation("cast", "%s is not a %s although that is declared", tname[d], tname[t]);
}
template<int T> void query(variant &v, bool ptr, int d, int f, void const *obj, void const *stat, int how)
{
    using To = At<T>;
    auto inv = sim::stamp();
    if (!ptr)
    {
        if (how == 0) { judge_is(d, T, T == f, static_cast<variant const &>(v).is<To>(), inv); return; }
        void const *got = nullptr;
        try { if (how == 1) got = &v.cref<To>(); else if (how == 2) got = static_cast<variant const &>(v).data<To>(); else got = &static_cast<variant const &>(v).ref<To>(); } catch (bad_variant_cast const &) {}
        if (sim::fault_fired() && how == 2) return;          // data() hides the failure by design
        if (T == f) { if (got != stat) sim::violation("cast", "a value of type %s is not at its own address", tname[T]); }
        else judge(d, T, obj, got, inv, "value cast");
        return;
    }
    if (how == 0) { judge_is(d, T, T == f, static_cast<variant const &>(v).is<To const *>(), inv); return; }
    if (how == 1 || how == 2)                                // a reference to the pointer: only where the pointer held serves as is
    {
        To const *const *got = nullptr; bool refused = false;
        try { if (how == 1) got = &v.cref<To const *>(); else got = static_cast<variant const &>(v).data<To const *>(); } catch (bad_variant_cast const &) { refused = true; }
        if (sim::fault_fired() && how == 2) return;
        auto ret = sim::stamp();
        Mute m;
        if (got && *got != stat && T == f) sim::violation("cast", "a pointer to %s does not come back unchanged", tname[T]);
        if (!got && T == f) sim::violation("cast", "a pointer to %s is not at hand", tname[T]);
        if (got && T != f) judge(d, T, obj, *got, inv, "pointer reference");
        if (got && T != f && static_cast<void const *>(*got) != stat) sim::violation("cast", "a pointer to %s is handed out as one to %s with another address", tname[f], tname[T]);
        (void)ret; (void)refused;
        return;
    }
    void const *got = nullptr;
    try { got = static_cast<variant const &>(v).to<To const *>(); } catch (bad_variant_convert const &) {}
    if (T == f) { if (got != stat) sim::violation("cast", "a pointer to %s does not come back unchanged", tname[T]); }
    else judge(d, T, obj, got, inv, "pointer cast");
}
template<int D, int T> void query_null(int how)              // null pointers are cast like any others
{
    using To = At<T>;
    variant const v = how & 4 ? variant{static_cast<At<D> *>(nullptr)} : variant{static_cast<At<D> const *>(nullptr)};
    auto inv = sim::stamp();
    if ((how & 3) == 0) { judge_is(D, T, D == T, v.is<To const *>(), inv); return; }
    if ((how & 3) == 1)
    {
        auto *c = v.metaClass();
        auto ret = sim::stamp(); Mute m;
        if (c ? !may_registered(D, ret) || c->metaTypeId() != tid_of(D) : sure_registered(D, inv)) sim::violation("identity", "the class of a null pointer to %s is another one", tname[D]);
        return;
    }
    To const *got = reinterpret_cast<To const *>(&got); bool ok = false;
    try { got = v.to<To const *>(); ok = true; } catch (bad_variant_convert const &) {}
    if (ok && got) sim::violation("cast", "a null pointer to %s became %p", tname[D], static_cast<void const *>(got));
    judge_is(D, T, D == T, ok, inv);
}
void vcast(Op const &o)
{
    int mode = o.d & 7, how = o.d >> 3 & 3;
    dispatch(o.a, [&](auto d) {
        constexpr int D = d.value;
        if (o.d & 32) { dispatch(o.c, [&](auto t) { query_null<D, t.value>(o.d & 7); }); return; }
        if (mode < 5)
        {
            variant v = make<D>(mode);
            bool ptr = mode >= 3;
            void const *obj = ptr ? static_cast<void const *>(&object<D>()) : static_cast<void const *>(&v.template cref<At<D>>());
            dispatch(o.c, [&](auto t) { query<t.value>(v, ptr, D, D, obj, obj, how); });
        }
        else dispatch(o.b, [&](auto f) {
            if constexpr (D < 11 && f.value < 11 && std::is_convertible_v<At<D> *, At<f.value> *>)
            {
                At<f.value> &stat = object<D>();
                int k = mode == 5 ? how & 1 : 2 + (mode & 1);
                variant v = make_base<f.value>(stat, k);
                dispatch(o.c, [&](auto t) { query<t.value>(v, k >= 2, D, f.value, &object<D>(), &stat, how); });
            }
        });
    });
}
void lists(Op const &o)
{
    auto *c = find(o.a, 0);
    if (!c) return;
    for (int der = 0; der < 2; ++der)
    {
        auto inv = sim::stamp();
        auto n = der ? c->derivedClassCount() : c->baseClassCount();
        auto ret = sim::stamp();
        { Mute m; H->lists.push_back({o.a, der != 0, -1, inv, ret, int(n), nullptr}); }
        for (std::size_t i = 0; i <= n; ++i)
        {
            inv = sim::stamp();
            auto *k = der ? c->derivedClass(i) : c->baseClass(i);
            ret = sim::stamp();
            Mute m; H->lists.push_back({o.a, der != 0, int(i), inv, ret, int(i), k});
        }
    }
}
int index_of(MetaClass const *k) { for (int t = 0; t < NT; ++t) if (S->cls[t] == k && k) return t; return -1; }
void finalize()
{
    { Mute m; if (S) delete S; S = new Final; }
    for (int t = 0; t < NT; ++t) S->cls[t] = find(t, 0), S->slot[t] = -1;
    for (int t = 0; t < NT; ++t)
        for (int s = 0; s < SLOTS; ++s)
        {
            auto *o = owner_of(s);
            auto *k = o ? o->getClass(slot_name(t, s)) : nullptr;
            if (!k) continue;
            if (S->slot[t] >= 0) sim::violation("identity", "%s is registered as '%s' and '%s'", tname[t], slot_name(t, S->slot[t]), slot_name(t, s));
            S->slot[t] = s;
            if (k != S->cls[t]) sim::violation("identity", "the class '%s' is not the one found for its type", slot_name(t, s));
            if (k->owner() != o) sim::violation("identity", "the class '%s' has another owner", slot_name(t, s));
        }
    for (int t = 0; t < NT; ++t)
    {
        if (!S->cls[t]) continue;
        if (S->slot[t] < 0) sim::violation("identity", "the class found for %s is in no container", tname[t]);
        if (MetaClass::find(MetaType{tid_of(t)}.typeName()) != S->cls[t]) sim::violation("identity", "%s is not found by type name", tname[t]);
        same_class(t, S->cls[t], S->slot[t]);
        auto *c = S->cls[t];
        for (std::size_t i = 0, n = c->baseClassCount(); i < n; ++i) { int x = index_of(c->baseClass(i)); if (x < 0) sim::violation("inheritance", "a base class of %s is unknown", tname[t]); Mute m; S->bases[t].push_back(x); }
        for (std::size_t i = 0, n = c->derivedClassCount(); i < n; ++i) { int x = index_of(c->derivedClass(i)); if (x < 0) sim::violation("inheritance", "a derived class of %s is unknown", tname[t]); Mute m; S->derived[t].push_back(x); }
        if (c->baseClass(c->baseClassCount()) || c->derivedClass(c->derivedClassCount())) sim::violation("inheritance", "a class list of %s goes beyond its end", tname[t]);
    }
    for (int d = 0; d < NT; ++d) for (int b = 0; b < NT; ++b) if (S->cls[d] && S->cls[b]) inherit(d, b);
    for (int d = 0; d < 11; ++d) { Op o; o.a = d; o.b = d; for (o.c = 0; o.c < 11; ++o.c) if ((S->cls[d] && S->cls[o.c]) || (d + o.c) % 11 == 0) { o.d = o.c & 3; cast(o); } }
    for (int d = 0; d < NT; ++d) { Op o; o.a = d; o.b = d; for (o.c = 0; o.c < NT; ++o.c) if ((S->cls[d] && S->cls[o.c]) || (d + o.c) % 11 == 0) { o.d = 8 + (o.c + d) % 5; vcast(o); } }
}

void exec1(Op const &o)
{
    switch (o.kind)
    {
    case REG: case BASE: case BASE2: define(o); break;
    case FIND: if (o.b < 4) find(o.a, o.b); else find_in(o.a, (o.b - 4) % SLOTS, o.c); break;
    case INH: inherit(o.a, o.b); break;
    case CAST: cast(o); break;
    case VCAST: vcast(o); break;
    case LISTS: lists(o); break;
    case FINAL: finalize(); break;
    }
}
Op asked[sim::MAXT];                                       // the last question of each thread
void exec(int t, Op const &o)
{
    bool defines = o.kind <= BASE2;
    auto ask = [&] {
        sim::Calm calm;
        if (o.kind == BASE && (o.d & 1)) { inherit(links[o.a].d, links[o.a].b); Op c; c.a = c.b = links[o.a].d; c.c = links[o.a].b; c.d = o.d >> 2 & 3; if (c.a < 11 && c.c < 11) cast(c); }
        if (o.d & 2) exec1(asked[t]);
    };
    if (defines) ask(); else if (o.kind == INH || o.kind == CAST || o.kind == VCAST) asked[t] = sim::Op{}, asked[t].kind = o.kind, asked[t].a = o.a, asked[t].b = o.b, asked[t].c = o.c, asked[t].d = o.d;
    guarded(o, [&] { exec1(o); }, o.kind != FINAL);
    if (defines) ask();
}

void check(Plan const &)
{
    for (int t = 0; t < NT; ++t)
    {
        bool there = S->cls[t] != nullptr;
        ListHist byid, claim, bycont;
        for (auto &r: H->regs)
        {
            if (r.t != t) continue;
            if (r.maybe) { if (!there || r.slot == S->slot[t]) for (auto *l: {&byid, &claim, &bycont}) l->add(r.inv, r.ret, there ? 0 : -1, true, false, 0); continue; }
            if (r.ok)
            {
                if (!there) sim::violation("identity", "the registration of %s was lost", tname[t]);
                if (r.slot != S->slot[t]) sim::violation("identity", "%s was registered as '%s' and as '%s'", tname[t], slot_name(t, r.slot), slot_name(t, S->slot[t]));
                if (r.p && r.p != S->cls[t]) sim::violation("identity", "registering %s gave another class", tname[t]);
                for (auto *l: {&byid, &claim, &bycont}) l->add(r.inv, r.ret, 0, false, false, 0);
            }
            else
            {
                if (!there || r.slot == S->slot[t]) sim::violation("identity", "the registration of %s as '%s' was rejected for no reason", tname[t], slot_name(t, r.slot));
                claim.need(r.inv, r.ret, 1, -1);
            }
        }
        for (auto &f: H->finds)
        {
            if (f.t != t) continue;
            if (f.p && f.p != S->cls[t]) sim::violation("identity", "%s was found as another class than at the end", tname[t]);
            if (f.path == 0) { if (f.p) byid.need(f.inv, f.ret, 1, -1); else byid.need(f.inv, f.ret, 0, 0); }
            else if (f.path - 1 == S->slot[t]) { if (f.p) bycont.need(f.inv, f.ret, 1, -1); else bycont.need(f.inv, f.ret, 0, 0); }
            else if (f.p) sim::violation("identity", "%s was found as '%s'", tname[t], slot_name(t, f.path - 1));
        }
        for (auto &n: H->nobase) if (n.b == t) byid.need(n.inv, n.ret, 0, 0);
        byid.check(there, tname[t]); claim.check(there, tname[t]); bycont.check(there, tname[t]);
        sim::rec(uint64_t(S->slot[t] + 1));
    }
    // links
    unsigned fin = 0;
    auto link_of = [&](int d, int b) { for (int i = 0; i < NL; ++i) if (links[i].d == d && links[i].b == b) return i; return -1; };
    for (int d = 0; d < NT; ++d)
    {
        for (int b: S->bases[d])
        {
            int l = link_of(d, b);
            if (l < 0) sim::violation("inheritance", "%s lists %s among its bases: never declared", tname[d], tname[b]);
            if (fin >> l & 1) sim::violation("inheritance", "%s lists %s twice among its bases", tname[d], tname[b]);
            fin |= 1u << l;
            if (std::count(S->derived[b].begin(), S->derived[b].end(), d) != 1) sim::violation("inheritance", "%s is a base of %s but does not list it once among its derived classes", tname[b], tname[d]);
        }
        for (int x: S->derived[d]) if (std::count(S->bases[x].begin(), S->bases[x].end(), d) != 1) sim::violation("inheritance", "%s lists %s as derived, but that does not list it once among its bases", tname[d], tname[x]);
    }
    for (auto &l: H->links) if (l.l < NL && !l.maybe && !(fin >> l.l & 1)) sim::violation("inheritance", "the base %s of %s was lost", tname[links[l.l].b], tname[links[l.l].d]);
    for (int t = 0; t < NT; ++t)
        for (int der = 0; der < 2; ++der)
        {
            auto const &lst = der ? S->derived[t] : S->bases[t];
            ListHist L;
            for (size_t i = 0; i < lst.size(); ++i)
            {
                int l = der ? link_of(lst[i], t) : link_of(t, lst[i]);
                bool any = false;
                for (auto &e: H->links) if (e.l == l) { L.add(e.inv, e.ret, int(i), e.maybe, false, 0); any = true; }
                if (!any) sim::violation("inheritance", "%s has a relation to %s that was never declared", tname[t], tname[lst[i]]);
            }
            for (auto &q: H->lists)
            {
                if (q.t != t || q.derived != (der != 0)) continue;
                if (q.idx < 0) { L.need(q.inv, q.ret, q.n, q.n); continue; }
                if (!q.p) { L.need(q.inv, q.ret, 0, q.idx); continue; }
                if (q.idx >= int(lst.size()) || S->cls[lst[size_t(q.idx)]] != q.p) sim::violation("inheritance", "a class list of %s changed at index %d", tname[t], q.idx);
                L.need(q.inv, q.ret, q.idx + 1, -1);
            }
            L.check(int(lst.size()), der ? "derived classes" : "base classes");
        }
    for (auto &q: H->inh)
    {
        if (q.yes && !reach(may_links(q.ret), q.d, q.b)) sim::violation("inheritance", "%s was said to inherit %s, which was not declared", tname[q.d], tname[q.b]);
        if (!q.yes && reach(sure_links(q.inv), q.d, q.b)) sim::violation("inheritance", "%s was said not to inherit %s, which was declared", tname[q.d], tname[q.b]);
        if (q.yes) for (auto &r: H->inh) if (!r.yes && r.d == q.d && r.b == q.b && r.inv > q.ret) sim::violation("inheritance", "inheritance of %s from %s disappeared", tname[q.d], tname[q.b]);
    }
    sim::rec(fin);
}
void begin(Plan const &)
{
    H = new Hist; S = nullptr;
    H->regs.reserve(512); H->links.reserve(512);
    for (auto &q: asked) { q = Op{}; q.kind = FIND; }
    for (int t = 0; t < 11; ++t) dispatch(t, [&](auto i) { (void)object<i.value>(); });
    for (int t = 11; t < NT; ++t) dispatch(t, [&](auto i) { (void)object<i.value>(); });
}
int focus;                                                 // family: 0 virtual, 1 multiple, 2 plain, 3 all
int hot;
void setup(Rng &g, RunCfg const &, Plan &) { focus = int(g.below(4)); hot = int(g.below(NT)); }
int pick(Rng &g)
{
    static int const f0[] = {0, 1, 2, 3, 3, 7}, f1[] = {4, 5, 6, 8, 9, 10, 7}, f2[] = {11, 12, 13, 14, 15};
    switch (g.chance(1, 10) ? 3 : focus) { case 0: return f0[g.below(6)]; case 1: return f1[g.below(7)]; case 2: return f2[g.below(5)]; default: return int(g.below(NT)); }
}
int slot_for(Rng &g, int t) { return g.chance(4, 5) ? (t * 5 + hot) % SLOTS : int(g.below(SLOTS)); }
Op op(Rng &g, RunCfg const &, int)
{
    Op o;
    int r = int(g.below(100));
    if (r < 28) { o.kind = REG; o.a = pick(g); o.b = slot_for(g, o.a); }
    else if (r < 48)
    {
        o.kind = BASE;
        int fam = pick(g);
        for (int k = 0; k < 30; ++k) { o.a = int(g.below(NL)); if (links[o.a].d == fam || links[o.a].b == fam) break; }
        o.b = slot_for(g, links[o.a].d);
    }
    else if (r < 56) { o.kind = BASE2; static int const d[] = {3, 6, 10, 14, 7, 15}; o.a = int(g.below(6)); o.b = slot_for(g, d[o.a]); }
    else if (r < 66) { o.kind = FIND; o.a = pick(g); o.b = g.chance(1, 2) ? int(g.below(4)) : 4 + slot_for(g, o.a); o.c = int(g.below(3)); }
    else if (r < 76) { o.kind = INH; o.a = pick(g); o.b = pick(g); }
    else if (r < 85) { o.kind = CAST; o.a = pick(g) % 11; o.b = g.chance(1, 2) ? o.a : pick(g) % 11; o.c = pick(g) % 11; o.d = int(g.below(4)); }
    else if (r < 94) { o.kind = VCAST; o.a = pick(g); o.b = pick(g) % 11; o.c = pick(g); o.d = int(g.below(64)); }
    else { o.kind = LISTS; o.a = pick(g); }
    if (o.kind <= BASE2 && g.chance(1, 2)) o.d = int(g.below(16));
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; p.fin.push_back(o); }
std::string show(Op const &o)
{
    std::string s = kind_name[o.kind % KINDS];
    switch (o.kind)
    {
    case REG: s += std::string(" ") + tname[o.a] + " as '" + slot_name(o.a, o.b) + "' in " + owner_name[o.b >> 1]; break;
    case BASE: s += std::string(" ") + tname[links[o.a].b] + " of " + tname[links[o.a].d] + " opened as slot " + std::to_string(o.b); break;
    case BASE2: s += " group " + std::to_string(o.a) + " opened as slot " + std::to_string(o.b); break;
    case FIND: s += std::string(" ") + tname[o.a] + " way " + std::to_string(o.b); break;
    case INH: s += std::string(" ") + tname[o.a] + " from " + tname[o.b]; break;
    case CAST: case VCAST: s += std::string(" ") + tname[o.a] + " seen as " + tname[o.b] + " to " + tname[o.c] + " mode " + std::to_string(o.d); break;
    case LISTS: s += std::string(" of ") + tname[o.a]; break;
    default: break;
    }
    return s;
}
}
World const classes = {"classes", false, classesw::setup, classesw::op, classesw::fin, classesw::begin, classesw::exec, classesw::check, nullptr, classesw::show};
}
