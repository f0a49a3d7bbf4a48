// Order world: one conflict-free set of definitions is spread over threads, eager and deferred, in whatever order the
// schedule gives. The final registry must equal the model computed from the set alone.
#include "shared.h"
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/metaconstructor.h>

namespace worlds { namespace orderw {

using namespace rtti;

struct O0 { int v = 0; O0() = default; O0(int x): v(x) {} O0(int x, int y): v(x + y) {} };
struct O1: virtual O0 { O1() = default; O1(int) {} O1(int, int) {} };
struct O2: virtual O0 { O2() = default; O2(int) {} O2(int, int) {} };
struct O3: O1, O2 { O3() = default; O3(int) {} O3(int, int) {} };
struct O4: O3 { O4() = default; O4(int) {} O4(int, int) {} };
struct O5: O2 { O5() = default; O5(int) {} O5(int, int) {} };
enum OE { oe };
constexpr int NC = 8;                                      // 0..5 classes, 6..7 namespaces
char const *const cname[NC] = {"O0", "O1", "O2", "O3", "O4", "O5", "_in", "_in2"};
char const *const qname[NC] = {"::_ow::O0", "::_ow::O1", "::_ow::O1::O2", "::_ow::_in::O3", "::_ow::O4", "::_ow::_in::_in2::O5", "::_ow::_in", "::_ow::_in::_in2"};
int const parent[NC] = {-1, -1, 1, 6, -1, 7, -1, 6};
int const bases[6][3] = {{-1}, {0, -1}, {0, -1}, {1, 2, -1}, {3, -1}, {2, -1}};
inline bool is_class(int c) { return c < 6; }
constexpr int NM = 15;
char const *const sig[NM] = {"m0(int)", "m0(double)", "m0(int, int)", "m1(int)", "m1(double)", "m2(int)", "p0", "p1", "p2", "e0", "e1", "a0", "a1", "constructor(int)", "other(int, int)"};
template<int V> int f1(int) { return V; }
template<int V> int f2(double) { return V; }
template<int V> int f3(int, int) { return V; }
using F1 = int(*)(int); using F2 = int(*)(double); using F3 = int(*)(int, int);
F1 t1[NC * 16]; F2 t2[NC * 16]; F3 t3[NC * 16]; int pv[NC * 16];
template<int... V> void fill(std::integer_sequence<int, V...>) { ((t1[V] = f1<V>, t2[V] = f2<V>, t3[V] = f3<V>, pv[V] = V), ...); }

template<typename D> struct elem_type;
template<typename T, typename MB> struct elem_type<meta_define<T, MB>> { using type = T; };
template<> struct elem_type<meta_global> { using type = void; };
template<typename D> void member(D &d0, int c, int k, int part)
{
    using T = typename elem_type<D>::type;
    D d = d0;
    int v = c * 16 + k;
    switch (k)
    {
    case 0: d._method("m0", t1[v]); break; case 1: d._method("m0", t2[v]); break; case 2: d._method("m0", t3[v]); break;
    case 3: d._method("m1", t1[v]); break; case 4: d._method("m1", t2[v]); break; case 5: d._method("m2", t1[v]); break;
    case 6: case 7: case 8: d._property(sig[k], &pv[v]); break;
    case 9: case 10: d.template _enum<OE>(sig[k]); if (part & 1) d._element("x", v); if (part & 2) d._element("y", v + 1); if (part & 4) d._attribute("ea", v + 2); break;
    case 11: case 12: d._attribute(sig[k], v); break;
    case 13: if constexpr (std::is_class_v<T>) d.template _constructor<int>(); break;
    default: if constexpr (std::is_class_v<T>) d.template _constructor<int, int>("other"); break;
    }
}
template<typename D> void members(D &d, int c, int mask, int part) { for (int i = 0; i < NM; ++i) { int k = (part >> 4) & 1 ? NM - 1 - i : i; if (mask >> k & 1) { sim::user_point(3); member(d, c, k, part); } } }

template<typename F> void with(int c, F &&f)
{
    auto g = global_define();
    auto r = g._namespace("_ow");
    switch (c)
    {
    case 0: { auto k = r.template _class<O0>("O0"); f(k); break; }
    case 1: { auto k = r.template _class<O1>("O1"); f(k); break; }
    case 2: { auto k = r.template _class<O1>("O1"); auto l = k.template _class<O2>("O2"); f(l); break; }
    case 3: { auto n = r._namespace("_in"); auto k = n.template _class<O3>("O3"); f(k); break; }
    case 4: { auto k = r.template _class<O4>("O4"); f(k); break; }
    case 5: { auto n = r._namespace("_in"); auto m = n._namespace("_in2"); auto k = m.template _class<O5>("O5"); f(k); break; }
    case 6: { auto n = r._namespace("_in"); f(n); break; }
    default: { auto n = r._namespace("_in"); auto m = n._namespace("_in2"); f(m); break; }
    }
}
template<typename D> void declare(D &d, int c)
{
    using T = typename elem_type<D>::type;
    (void)c;
    if constexpr (std::is_same_v<T, O1>) d.template _base<O0>();
    else if constexpr (std::is_same_v<T, O2>) d.template _base<O0>();
    else if constexpr (std::is_same_v<T, O3>) d.template _base<O1, O2>();
    else if constexpr (std::is_same_v<T, O4>) d.template _base<O3>();
    else if constexpr (std::is_same_v<T, O5>) d.template _base<O2>();
}
void register_bases(int c) { for (int const *b = bases[c]; *b >= 0; ++b) with(*b, [](auto &) {}); }

enum Kind { DEF, BASES, LAZY, LOOK, FORCE, FINAL, KINDS };
MetaContainer const *reach(int c)
{
    auto *r = MetaNamespace::global()->getNamespace("_ow");
    MetaContainer const *p = r;
    if (r && parent[c] >= 0) p = reach(parent[c]);
    if (!p) return nullptr;
    return is_class(c) ? static_cast<MetaContainer const *>(p->getClass(cname[c])) : p->getNamespace(cname[c]);
}
struct Saw { int c, k, got; uint64_t inv, ret; };          // full-signature lookups on the way
struct Hist { std::vector<Saw> saw; };
Hist *H;
int look(MetaContainer const *p, int k)                    // value id of what the lookup resolves to, -1: nothing
{
    if (k < 6)
    {
        auto *m = p->getMethod(sig[k]);
        if (!m) return -1;
        return (k == 1 || k == 4 ? m->invoke(1.0) : k == 2 ? m->invoke(1, 2) : m->invoke(1)).to<int>();
    }
    if (k < 9) { auto *q = p->getProperty(sig[k]); return q ? q->get().to<int>() : -1; }
    return -1;
}
void attach(int c, int mask, int part, bool with_bases)
{
    if (with_bases && is_class(c)) register_bases(c);
    with(c, [&](auto &d)
    {
        using T = typename elem_type<std::decay_t<decltype(d)>>::type;
        auto body = [c, mask, part, with_bases](auto x) { if (with_bases && (part & 8)) declare(x, c); members(x, c, mask, part); if (with_bases && !(part & 8)) declare(x, c); };
        try { d._lazy([body](meta_define<T> x) { body(x); }); }
        catch (definition_error const &) { if (with_bases) declare(d, c); members(d, c, mask, part); }      // one is pending already: define at once
    });
}
void finalize(Plan const &p);
Plan const *P; int W;
void exec1(Op const &o)
{
    switch (o.kind)
    {
    case DEF: with(o.a, [&](auto &d) { members(d, o.a, o.b, o.c); }); break;
    case BASES: register_bases(o.a); with(o.a, [&](auto &d) { declare(d, o.a); }); break;
    case LAZY: attach(o.a, o.b, o.c, o.d != 0); break;
    case LOOK:
        if (auto *p = reach(o.a))
        {
            auto inv = sim::stamp();
            int r = look(p, o.b % 9);
            auto ret = sim::stamp();
            Mute m; H->saw.push_back({o.a, o.b % 9, r, inv, ret});
        }
        break;
    case FORCE: if (auto *p = o.b ? reach(o.a) : MetaNamespace::global()) p->forceDeferredDefine(o.b & 1 ? MetaContainer::ForceDeferred::SelfOnly : MetaContainer::ForceDeferred::Recursive); break;
    case FINAL: finalize(*P); break;
    }
}
void exec(int, Op const &o) { guarded(o, [&] { exec1(o); }, true); }

struct Model { bool there[NC] = {}, base[6] = {}; unsigned m[NC] = {}; unsigned part[NC][2] = {}; };
void add(Model &M, int c) { if (M.there[c]) return; M.there[c] = true; if (parent[c] >= 0) add(M, parent[c]); }
int resolve(Model const &M, int c, int k)
{
    if (M.m[c] >> k & 1) return c * 16 + k;
    if (is_class(c) && M.base[c]) for (int const *b = bases[c]; *b >= 0; ++b) { int r = resolve(M, *b, k); if (r >= 0) return r; }
    return -1;
}
Model model(Plan const &p)
{
    Model M; int const w = W;
    auto one = [&](Op const &o)
    {
        if (o.kind / 1000 != w) return;
        int k = o.kind % 1000;
        if (k > LAZY) return;
        add(M, o.a);
        bool b = k == BASES || (k == LAZY && o.d);
        if (b && is_class(o.a)) { M.base[o.a] = true; for (int const *x = bases[o.a]; *x >= 0; ++x) add(M, *x); }
        if (k == BASES) return;
        unsigned mask = unsigned(o.b) & 0x7fff;
        if (!is_class(o.a)) mask &= 0x1fff;
        M.m[o.a] |= mask;
        for (int e = 0; e < 2; ++e) if (mask >> (9 + e) & 1) M.part[o.a][e] |= unsigned(o.c) & 7;
    };
    for (auto &o: p.setup) one(o);
    for (auto &t: p.th) for (auto &o: t) one(o);
    return M;
}
void finalize(Plan const &p)
{
    Model M; { Mute m; M = model(p); }
    auto *g = MetaNamespace::global();
    g->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
    for (int c = 0; c < NC; ++c)
    {
        auto *k = reach(c);
        if ((k != nullptr) != M.there[c]) sim::violation("order", "'%s' is %s", qname[c], k ? "there although nobody defined it" : "missing");
        if (!k) continue;
        if (k->qualifiedName() != qname[c]) sim::violation("order", "'%s' calls itself '%s'", qname[c], k->qualifiedName().c_str());
        auto expect = [&](char const *what, std::size_t got, int want) { if (got != std::size_t(want)) sim::violation("order", "'%s' has %zu %s instead of %d", qname[c], got, what, want); };
        int n[16] = {}; for (int i = 0; i < NM; ++i) n[i] = M.m[c] >> i & 1;
        expect("methods", k->methodCount(), n[0] + n[1] + n[2] + n[3] + n[4] + n[5]);
        expect("properties", k->propertyCount(), n[6] + n[7] + n[8]);
        expect("enums", k->enumCount(), n[9] + n[10]);
        expect("attributes", k->attributeCount(), n[11] + n[12]);
        expect("constructors", k->constructorCount(), is_class(c) ? 3 + n[13] + n[14] : 0);
        int nc = 0, nn = 0; for (int x = 0; x < NC; ++x) if (parent[x] == c && M.there[x]) ++(is_class(x) ? nc : nn);
        expect("classes", k->classCount(), nc); expect("namespaces", k->namespaceCount(), nn);
        for (int m = 0; m < 9; ++m)
        {
            int want = resolve(M, c, m), got = look(k, m);
            if (got != want) sim::violation("order", "'%s' in '%s' resolves to %s%s instead of %s%s", sig[m], qname[c], got < 0 ? "nothing" : "the one of ", got < 0 ? "" : qname[got / 16], want < 0 ? "nothing" : "the one of ", want < 0 ? "" : qname[want / 16]);
        }
        // the name alone leads to an overload of the class itself when there is one
        for (int m = 0; m < 6; ++m)
        {
            std::string s; { Mute q; s = std::string(sig[m], 2); }
            auto *x = k->getMethod(s);
            bool own = false; for (int i = 0; i < 6; ++i) if (n[i] && sig[i][1] == sig[m][1]) own = true;
            if (own && (!x || x->owner() != k)) sim::violation("order", "'%s' in '%s' does not lead to the class's own method", sig[m], qname[c]);
            { Mute q; std::string().swap(s); }
        }
        for (int e = 0; e < 2; ++e)
            if (n[9 + e])
            {
                auto *en = k->getEnum(sig[9 + e]);
                if (!en) sim::violation("order", "the enum '%s' of '%s' is missing", sig[9 + e], qname[c]);
                int v = c * 16 + 9 + e;
                unsigned pt = M.part[c][e];
                expect("enum elements", en->elementCount(), int((pt & 1) + (pt >> 1 & 1))); expect("enum attributes", en->attributeCount(), int(pt >> 2 & 1));
                if ((pt & 1) && en->element("x").to<int>() != v) sim::violation("order", "an element of '%s' has a wrong value", qname[c]);
                if ((pt & 2) && en->element("y").to<int>() != v + 1) sim::violation("order", "an element of '%s' has a wrong value", qname[c]);
                if ((pt & 4) && en->attribute("ea").to<int>() != v + 2) sim::violation("order", "an attribute of '%s' has a wrong value", qname[c]);
            }
        for (int a = 11; a < 13; ++a) if (n[a]) { auto &at = k->attribute(sig[a]); if (at.empty() || at.to<int>() != c * 16 + a) sim::violation("order", "the attribute '%s' of '%s' is wrong", sig[a], qname[c]); }
        if (is_class(c))
        {
            for (int i = 13; i < 15; ++i) if ((k->getConstructor(sig[i]) != nullptr) != (n[i] != 0)) sim::violation("order", "the constructor '%s' of '%s' is %s", sig[i], qname[c], n[i] ? "missing" : "there");
            auto *cl = static_cast<MetaClass const *>(k);
            int nb = 0; if (M.base[c]) for (int const *b = bases[c]; *b >= 0; ++b) ++nb;
            expect("base classes", cl->baseClassCount(), nb);
            for (int i = 0; i < nb; ++i) if (cl->baseClass(std::size_t(i)) != reach(bases[c][i])) sim::violation("order", "base %d of '%s' is wrong", i, qname[c]);
            int nd = 0; for (int x = 0; x < 6; ++x) if (M.base[x]) for (int const *b = bases[x]; *b >= 0; ++b) if (*b == c) { ++nd; if (!static_cast<MetaClass const *>(reach(x))->inheritedFrom(cl)) sim::violation("order", "'%s' does not inherit '%s'", qname[x], qname[c]); }
            expect("derived classes", cl->derivedClassCount(), nd);
        }
    }
    sim::rec(M.m[0] + M.m[1] * 3 + M.m[3] * 5);
}
void check(Plan const &p)
{
    Model M = model(p);
    for (auto &s: H->saw)
    {
        if (s.got < 0) continue;
        bool ok = false;
        // own or inherited along the (possible) bases
        struct R { Model const &M; int k; bool can(int c, int got) const { if ((M.m[c] >> k & 1) && c * 16 + k == got) return true; if (is_class(c) && M.base[c]) for (int const *b = bases[c]; *b >= 0; ++b) if (can(*b, got)) return true; return false; } } r{M, s.k};
        ok = r.can(s.c, s.got);
        if (!ok) sim::violation("order", "'%s' in '%s' was resolved to a member that is not visible there", sig[s.k], qname[s.c]);
        if (s.got / 16 == s.c)
            for (auto &t: H->saw) if (t.c == s.c && t.k == s.k && t.inv > s.ret && t.got != s.got) sim::violation("order", "'%s' in '%s' no longer resolves to the class's own member", sig[s.k], qname[s.c]);
    }
}
void begin(Plan const &p)
{
    static bool once = (fill(std::make_integer_sequence<int, NC * 16>{}), true); (void)once;
    H = new Hist; P = &p; W = begin_index;
}
int lazyp;
void setup(Rng &g, RunCfg const &, Plan &) { lazyp = int(g.below(4)); }
Op op(Rng &g, RunCfg const &, int)
{
    Op o;
    int r = int(g.below(100));
    o.a = int(g.below(g.chance(2, 3) ? 4 : NC));
    auto mask = [&] { int m = 0; int n = int(1 + g.below(g.chance(1, 2) ? 3 : 9)); for (int i = 0; i < n; ++i) m |= 1 << (g.chance(1, 2) ? g.below(4) : g.below(NM)); return m; };
    if (r < 30) { o.kind = DEF; o.b = mask(); o.c = int(g.below(32)); }
    else if (r < 48) { o.kind = BASES; o.a = int(1 + g.below(5)); }
    else if (r < 48 + lazyp * 8) { o.kind = LAZY; o.b = mask(); o.c = int(g.below(32)); o.d = int(g.below(2)) && is_class(o.a); }
    else if (r < 92) { o.kind = LOOK; o.b = int(g.below(9)); if (g.chance(1, 2)) o.b = int(g.below(2)); }
    else { o.kind = FORCE; o.b = int(g.below(3)); }
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; p.fin.push_back(o); }
std::string show(Op const &o)
{
    auto ms = [&] { std::string s; for (int i = 0; i < NM; ++i) if (o.b >> i & 1) s += std::string(" ") + sig[i]; return s; };
    switch (o.kind)
    {
    case DEF: return std::string("define in ") + qname[o.a] + ms();
    case BASES: return std::string("declare bases of ") + qname[o.a];
    case LAZY: return std::string("define lazily in ") + qname[o.a] + ms() + (o.d ? " and bases" : "");
    case LOOK: return std::string("look up ") + sig[o.b % 9] + " in " + qname[o.a];
    case FORCE: return "force definitions";
    default: return "compare with the model";
    }
}
}
World const order = {"order", false, orderw::setup, orderw::op, orderw::fin, orderw::begin, orderw::exec, orderw::check, nullptr, orderw::show};
}
