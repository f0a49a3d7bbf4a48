// Deferred definition world: namespaces and classes get lazy definitions which, when they run, query themselves, force
// and extend one another, define more, and sometimes fail; threads race for the accesses that trigger them.
//
// Oracle: per accepted definition at most one run, inside an access, completed before any access that needed it returns;
// everything another thread sees of it is all or nothing; rejected definitions never run; a failing definition passes
// its exception to exactly the access that triggered it and leaves what it had defined.
#include "shared.h"
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>

namespace worlds { namespace lazyw {

using namespace rtti;

struct LB { int x = 0; };
template<int I> struct LC: LB { DECLARE_CLASSINFO public: int y = I; };
struct LD: LC<0>, LC<1> { DECLARE_CLASSINFO public: int z = 2; };     // its bases are defined lazily
enum LE { le };
struct LN: LB { DECLARE_CLASSINFO public: int w = 3; };              // a class inside _k1
constexpr int NC = 7;
char const *const cname[NC] = {"_n0", "_n1", "_n2", "_k0", "_k1", "_n5", "_k6"};
inline bool is_class(int c) { return c == 3 || c == 4 || c == 6; }
int f0(int) { return 1; }

struct Item { int kind; uint64_t stamp = 0; };             // 0,1 method 2 property 3 enum 4 attribute 5 base
struct Gen
{
    int c, uid, nitems, script, where, target;
    uint64_t set_inv = 0, set_ret = 0; int state = 0;      // 0 maybe 1 accepted 2 rejected
    int runs = 0, runner = -1; uint64_t run_start = 0, run_end = 0; bool failed = false;
    int defined = 0; bool boundary = false;                // items surely there; the next one may be there
    int kinds[8]; uint64_t stamp[8];
    std::string name[8];
};
struct Q { int g, idx; uint64_t inv, ret; bool found, own; };
struct Cnt { int c, n; uint64_t inv, ret; };
struct Force { int c; uint64_t inv, ret; };
struct Hist
{
    std::vector<Gen *> gens; std::vector<Q> qs; std::vector<Cnt> cnts; std::vector<Force> forces;
    std::vector<int> running[sim::MAXT]; int naming[sim::MAXT], setting[sim::MAXT]; int depth[sim::MAXT];
    LC<0> o0; LC<1> o1; LD o2; LN o6;
    bool derived = false;                                  // the class derived from _k0 and _k1 is registered
};
Hist *H;
enum { P_run, P_nested, P_reject, P_second, P_fail, P_inherited, P_count };
int const probes_ = sim::name_probes(P_run, {"deferred definition ran", "definition re-entered the library", "second definition rejected", "container defined lazily twice", "deferred definition failed", "inherited member looked up through a derived class"});

bool in_own(int c) { for (int x: H->running[sim::tid()]) if (x == c) return true; return false; }
void access(int c, int how, unsigned sel);
void set_lazy(int c, int nitems, int script, int where, int target);

template<typename F> void with(int c, F &&f)
{
    auto g = global_define();
    auto r = g._namespace("_lz");
    switch (c)
    {
    case 0: case 1: case 2: { auto n = r._namespace(cname[c]); f(n); break; }
    case 3: { auto k = r.template _class<LC<0>>("_k0"); f(k); break; }
    case 4: { auto k = r.template _class<LC<1>>("_k1"); f(k); break; }
    case 6: { auto k = r.template _class<LC<1>>("_k1"); auto m = k.template _class<LN>("_k6"); f(m); break; }
    default: { auto n = r._namespace("_n0"); auto m = n._namespace("_n5"); f(m); break; }
    }
}
MetaContainer const *root() { return MetaNamespace::global()->getNamespace("_lz"); }
MetaContainer const *reach(int c)
{
    auto *r = root();
    if (!r) return nullptr;
    if (c == 6) { auto *p = r->getClass("_k1"); return p ? p->getClass("_k6") : nullptr; }
    if (is_class(c)) return r->getClass(cname[c]);
    if (c == 5) { auto *p = r->getNamespace("_n0"); return p ? p->getNamespace("_n5") : nullptr; }
    return r->getNamespace(cname[c]);
}

// ---------------------------------------------------------------------------------------------------- the definitions
template<typename D> void define_item(D &d, Gen &g, int i)
{
    { Mute m; g.boundary = true; }
    auto const &n = g.name[i];
    switch (g.kinds[i])
    {
    case 0: case 1: d._method(n, &f0); break;
    case 2: { static int v; d._property(n, &v); break; }
    case 3: { auto e = d.d; e.template _enum<LE>(n); e._element("e", 1); break; }   // (a copy: attributes go to the current item)
    case 5: if constexpr (!std::is_void_v<typename D::rtti_world_class>) { d.d.template _base<LB>(); break; } [[fallthrough]];
    default: d._attribute(n, g.uid); break;
    }
    Mute m; g.boundary = false; g.defined = i + 1; g.stamp[i] = sim::stamp();
}
// gives define_item one shape for namespaces and classes
template<typename T, typename D> struct Def
{
    using rtti_world_class = T;
    D &d;
    template<typename... A> void _method(A &&...a) { d._method(std::forward<A>(a)...); }
    template<typename... A> void _property(A &&...a) { d._property(std::forward<A>(a)...); }
    template<typename... A> void _attribute(A &&...a) { d._attribute(std::forward<A>(a)...); }
};
void nested(Gen &g)
{
    sim::probe(P_nested);
    switch (g.script)
    {
    case 1: access(g.c, 0, unsigned(g.uid)); break;
    case 2: access(g.target, 7, 0); break;
    case 3: access(g.target, g.uid % 7, unsigned(g.uid / 7)); break;
    case 4: if (auto *r = root()) r->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); break;
    case 5: { auto d = global_define()._namespace("_lz")._namespace("_extra"); d._method("f", &f0); break; }
    case 6: set_lazy(g.target, 2, 0, 0, 0); break;
    case 7: set_lazy(g.c, 2, 0, 0, 0); break;
    case 8: access(g.target, 8, 0); access(g.c, 1, 0); break;
    case 9: { auto *gl = MetaNamespace::global(); gl->getNamespace("_lz"); gl->classCount(); break; }
    default: break;
    }
}
template<typename T, typename D> void body(D &d, Gen &g)
{
    auto t = sim::tid();
    {
        Mute m;
        sim::probe(P_run);
        if (g.state == 2) sim::violation("lazy", "a rejected deferred definition was run");
        if (g.runs++) sim::violation("lazy", "a deferred definition ran twice");
        if (H->setting[t] == g.uid) sim::violation("lazy", "a deferred definition ran at once instead of on the first access");
        if (H->naming[t] == g.c) sim::violation("lazy", "a deferred definition ran although only the name of its container was asked for");
        g.runner = t; g.run_start = sim::stamp();
        H->running[t].push_back(g.c);
    }
    struct End { Gen &g; int t; bool ok = false; ~End() { Mute m; g.run_end = sim::stamp(); g.failed = !ok; if (!ok) sim::probe(P_fail); H->running[t].pop_back(); } } end{g, t};
    Def<T, D> w{d};
    for (int i = 0; i <= g.nitems; ++i)
    {
        sim::user_point(2);
        if (g.where == i) nested(g);
        if (i < g.nitems) define_item(w, g, i);
    }
    sim::user_point(2);
    end.ok = true;
}
template<typename D> struct Opened;
template<typename T, typename MB> struct Opened<meta_define<T, MB>> { using type = T; };
void set_lazy(int c, int nitems, int script, int where, int target)
{
    Gen *g;
    {
        Mute m;
        g = new Gen;
        g->c = c; g->uid = int(H->gens.size()); g->nitems = nitems; g->script = script; g->where = where; g->target = target;
        static int const order[] = {0, 2, 0, 3, 5, 1, 4, 1};
        for (int i = 0; i < 8; ++i)
        {
            int k = order[(i + g->uid) % 8];
            if (k == 5 && !is_class(c)) k = 0;
            for (auto *o: H->gens) if (k == 5 && o->c == c) k = 0;        // one definition declares the base
            for (int j = 0; j < i; ++j) if (k == 5 && g->kinds[j] == 5) k = 0;
            g->kinds[i] = k; g->stamp[i] = 0;
            g->name[i] = std::string(1, "mMpeab"[k]) + std::to_string(g->uid) + "_" + std::to_string(i) + (k < 2 ? "(int)" : "");
            if (k < 2) g->name[i].resize(g->name[i].size() - 5);
        }
        H->gens.push_back(g);
    }
    int t = sim::tid();
    int save = H->setting[t];
    g->set_inv = sim::stamp();
    struct Out { int t, save; Gen *g; ~Out() { Mute m; H->setting[t] = save; if (!g->set_ret) g->set_ret = sim::stamp(); } } out{t, save, g};
    with(c, [&](auto &d)
    {
        H->setting[t] = g->uid;
        try
        {
            using T = typename Opened<std::decay_t<decltype(d)>>::type;
            d._lazy([g](meta_define<T> x) { body<T>(x, *g); });
            Mute m; g->state = 1; g->set_ret = sim::stamp();
        }
        catch (definition_error const &e) { if (sim::ours(e)) throw; Mute m; g->state = 2; g->set_ret = sim::stamp(); sim::probe(P_reject); }
    });
}

// ---------------------------------------------------------------------------------------------------- accesses
bool look(MetaContainer const *p, Gen const &g, int i)
{
    if (p->name() == "_kd" && (g.kinds[i] == 3 || g.kinds[i] == 4)) p = p->owner()->getClass(cname[g.c]);   // not inherited

    auto const &n = g.name[i];
    switch (g.kinds[i])
    {
    case 0: return p->getMethod<int>(n) != nullptr;
    case 1: return p->getMethod(n) != nullptr;
    case 2: return p->getProperty(n) != nullptr;
    case 3: return p->getEnum(n) != nullptr;
    case 5:
        if ((g.uid + i + int(sim::stamp())) % 2) return static_cast<MetaClass const *>(p)->inheritedFrom(MetaClass::find(metaTypeId<LB>()));
        else
        {
            LB *b = nullptr, *want = nullptr;
            if (p->name() == "_kd") b = meta_cast<LB>(&H->o2);
            else if (g.c == 6) b = meta_cast<LB>(&H->o6), want = &H->o6;
            else if (g.c == 3) b = meta_cast<LB>(&H->o0), want = &H->o0;
            else b = meta_cast<LB>(&H->o1), want = &H->o1;
            if (!b) return false;
            if (want ? b != want : b != static_cast<LC<0> *>(&H->o2) && b != static_cast<LC<1> *>(&H->o2)) sim::violation("lazy", "a cast gives a wrong address");
            return true;
        }
    default: return !p->attribute(n).empty();
    }
}
void access(int c, int how, unsigned sel)
{
    auto *p = reach(c);
    if (!p) return;
    bool own = in_own(c);
    switch (how)
    {
    case 0: case 1: case 2: case 3:
    {   // one item of one of its definitions
        Gen *g = nullptr; int gi = -1;
        { Mute m; std::vector<int> v; for (size_t i = 0; i < H->gens.size(); ++i) if (H->gens[i]->c == c) v.push_back(int(i)); if (!v.empty()) { gi = v[(how & 1) ? v.size() - 1 : sel % v.size()]; g = H->gens[size_t(gi)]; } }
        if (!g) { p->methodCount(); return; }
        int first = int(sel % unsigned(g->nitems)), step = how >= 2 ? 1 : 8;
        for (int i = first; i < g->nitems; i += step)
        {
            auto inv = sim::stamp();
            bool f = look(p, *g, i);
            auto ret = sim::stamp();
            Mute m; H->qs.push_back({gi, i, inv, ret, f, own});
        }
        break;
    }
    case 4: { auto inv = sim::stamp(); auto n = p->methodCount(); auto ret = sim::stamp(); if (!own) { Mute m; H->cnts.push_back({c, int(n), inv, ret}); } break; }
    case 5:
    {
        struct X { int n; } x{0}; auto *px = &x;
        auto inv = sim::stamp();
        p->for_each_method([px](MetaMethod const *) { sim::user_point(1); ++px->n; return true; });
        auto ret = sim::stamp();
        if (!own) { Mute m; H->cnts.push_back({c, x.n, inv, ret}); }
        break;
    }
    case 6:
    {   // other kinds of queries that need the content
        auto inv = sim::stamp();
        switch (sel % 13)
        {
        case 8: p->for_each_class([](MetaClass const *) { sim::user_point(1); return true; }); break;
        case 9: p->for_each_attribute([](std::string_view, variant const &) { sim::user_point(1); return true; }); break;
        case 10: p->copyConstructor(); break;
        case 11: if (is_class(c)) static_cast<MetaClass const *>(p)->baseClass(0); else p->namespaceCount(); break;
        case 12: p->attributeName(0); break;
        case 0: p->getMethod(std::size_t(0)); break; case 1: p->propertyCount(); break; case 2: p->attributeCount(); break; case 3: p->getNamespace("nothing"); break;
        case 4: p->getConstructor("nothing"); break; case 5: p->getClass("nothing"); break;
        case 6: if (is_class(c)) static_cast<MetaClass const *>(p)->baseClassCount(); else p->enumCount(); break;
        default: if (is_class(c)) static_cast<MetaClass const *>(p)->derivedClassCount(); else p->getEnum(std::size_t(0)); break;
        }
        auto ret = sim::stamp();
        if (!own) { Mute m; H->forces.push_back({c, inv, ret}); }
        break;
    }
    case 7: { auto inv = sim::stamp(); p->forceDeferredDefine(); auto ret = sim::stamp(); if (!own) { Mute m; H->forces.push_back({c, inv, ret}); } break; }
    case 8:
    {
        auto inv = sim::stamp();
        p->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
        auto ret = sim::stamp();
        if (!own) { Mute m; H->forces.push_back({c, inv, ret}); }
        break;
    }
    case 9:
    {
        int t = sim::tid(), save = H->naming[t];
        H->naming[t] = c;
        struct Out { int t, save; ~Out() { H->naming[t] = save; } } out{t, save};
        auto const &n = p->name(); p->qualifiedName(); p->owner(); p->category();
        if (is_class(c)) static_cast<MetaClass const *>(p)->metaTypeId();
        if (n != cname[c]) sim::violation("lazy", "a container has lost its name");
        break;
    }
    case 11:
    {   // members of its lazily defined bases through a derived class
        bool there; { Mute m; there = H->derived; }
        if (!there) return;
        auto *d = root()->getClass("_kd");
        Gen *g = nullptr; int gi = -1;
        { Mute m; std::vector<int> v; for (size_t i = 0; i < H->gens.size(); ++i) if (H->gens[i]->c == 3 || H->gens[i]->c == 4) v.push_back(int(i)); if (!v.empty()) { gi = v[sel % 3 ? v.size() - 1 - sel % 2 % v.size() : sel % v.size()]; g = H->gens[size_t(gi)]; } }
        if (!g) return;
        sim::probe(P_inherited);
        bool mine = in_own(g->c);
        for (int i = int(sel % unsigned(g->nitems)); i < g->nitems; ++i)
        {
            auto inv = sim::stamp();
            bool f = look(d, *g, i);
            auto ret = sim::stamp();
            Mute m; H->qs.push_back({gi, i, inv, ret, f, mine});
        }
        break;
    }
    default:
    {   // whole tree
        auto inv = sim::stamp();
        auto *r = root();
        r->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
        auto ret = sim::stamp();
        Mute m; bool any = false;
        for (auto &x: H->running) any = any || (&x == &H->running[sim::tid()] && !x.empty());
        if (!any) for (int i = 0; i < NC; ++i) { bool reg = false; for (auto *g: H->gens) if (g->c == i && g->state == 1 && g->set_ret < inv) reg = true; if (reg) H->forces.push_back({i, inv, ret}); }
    }
    }
}

enum Kind { SET, ACCESS, DIRECT, FINAL, DERIVE, KINDS };
char const *const how_name[] = {"an item", "a new item", "items", "new items", "method count", "enumerate methods", "other query", "force", "force recursively", "name only", "force the whole tree", "inherited items"};
void exec1(Op const &o)
{
    switch (o.kind)
    {
    case SET: set_lazy(o.a, 1 + (o.b & 7), o.c % 10, (o.b >> 3) % 9, o.d % NC); break;
    case ACCESS: access(o.a, o.b, unsigned(o.c)); break;
    case DERIVE:
    {
        auto g = global_define();
        auto r = g._namespace("_lz");
        r._class<LC<0>>("_k0")._end()._class<LC<1>>("_k1")._end()._class<LD>("_kd")._base<LC<0>, LC<1>>();
        Mute m; H->derived = true;
        break;
    }
    case DIRECT: { auto d = global_define()._namespace("_lz")._namespace("_extra"); d._method("f", &f0); break; }
    case FINAL:
        for (int c = 0; c < NC; ++c)
        {
            access(c, 4, 0); access(c, 5, 0);
            size_t n; { Mute m; n = H->gens.size(); }
            for (size_t i = 0; i < n; ++i)
            {
                Gen *g = H->gens[i];
                if (g->c != c) continue;
                auto *p = reach(c);
                for (int k = 0; p && k < g->nitems; ++k) { auto inv = sim::stamp(); bool f = look(p, *g, k); auto ret = sim::stamp(); Mute m; H->qs.push_back({int(i), k, inv, ret, f, false}); }
            }
        }
        break;
    }
}
void exec(int, Op const &o) { guarded(o, [&] { exec1(o); }, true); }

void check(Plan const &)
{
    for (auto *g: H->gens)
    {
        if (g->state == 2 && g->runs) sim::violation("lazy", "a rejected deferred definition was run");
        if (g->runs > 1) sim::violation("lazy", "a deferred definition ran %d times", g->runs);
        // rejected only when another one was pending, accepted only when none was
        if (g->state == 2)
        {
            bool why = false;
            for (auto *o: H->gens) if (o != g && o->c == g->c && o->state != 2 && o->set_inv < g->set_ret && (!o->run_end || o->run_end > g->set_inv)) why = true;
            if (!why) sim::violation("lazy", "a deferred definition of '%s' was rejected although none was pending", cname[g->c]);
        }
        if (g->state == 1)
            for (auto *o: H->gens)
                if (o != g && o->c == g->c && o->state == 1 && o->set_ret < g->set_inv && (!o->run_end || o->run_end > g->set_ret))
                    sim::violation("lazy", "a second deferred definition of '%s' was accepted while one was pending", cname[g->c]);
    }
    auto done_before = [&](Gen *g, uint64_t t) { return g->run_end && g->run_end < t; };
    for (auto &q: H->qs)
    {
        Gen *g = H->gens[size_t(q.g)];
        if (q.found)
        {
            if (g->kinds[q.idx] == 5) continue;
            if (!g->runs || g->run_start > q.ret) sim::violation("lazy", "'%s' is there although its definition has not run", g->name[q.idx].c_str());
            if (!(q.idx < g->defined || (q.idx == g->defined && g->boundary))) sim::violation("lazy", "'%s' is there although it was never defined", g->name[q.idx].c_str());
            // (an access that began before the definition was attached may overlap it)
            if (!q.own && g->state == 1 && g->set_ret < q.inv && !done_before(g, q.ret)) sim::violation("lazy", "another thread saw '%s' before the definition of '%s' was complete", g->name[q.idx].c_str(), cname[g->c]);
        }
        else
        {
            if (g->state == 1 && g->set_ret < q.inv && !q.own && !g->runs) sim::violation("lazy", "an access to '%s' did not run its deferred definition", cname[g->c]);
            if (q.idx < g->defined && ((g->stamp[q.idx] && g->stamp[q.idx] < q.inv) || (g->state == 1 && g->set_ret < q.inv && !q.own)))
                sim::violation("lazy", "'%s' was not seen although the definition of '%s' comes before", g->name[q.idx].c_str(), cname[g->c]);
        }
    }
    for (auto &f: H->forces)
        for (auto *g: H->gens)
            if (g->c == f.c && g->state == 1 && g->set_ret < f.inv && !done_before(g, f.ret)) sim::violation("lazy", "an access to '%s' returned before its deferred definition was complete", cname[g->c]);
    for (auto &q: H->cnts)
    {
        std::vector<Gen *> v;
        for (auto *g: H->gens) if (g->c == q.c && g->runs) v.push_back(g);
        std::sort(v.begin(), v.end(), [](Gen *a, Gen *b) { return a->run_start < b->run_start; });
        bool ok = false, must = false;
        int lo = 0, hi = 0;
        for (size_t k = 0; k <= v.size(); ++k)
        {
            must = false;
            for (size_t j = k; j < v.size(); ++j) if ((v[j]->state == 1 && v[j]->set_ret < q.inv) || done_before(v[j], q.inv)) must = true;
            if (!must && q.n >= lo && q.n <= hi) ok = true;
            if (k == v.size()) break;
            bool late = v[k]->set_ret > q.inv;               // attached while the access was under way: may be seen growing
            if (!done_before(v[k], q.ret) && !late) break;
            for (int i = 0; i < v[k]->defined; ++i) if (v[k]->kinds[i] < 2) { if (!late) ++lo; ++hi; }
            if (v[k]->boundary && v[k]->defined < v[k]->nitems && v[k]->kinds[v[k]->defined] < 2) ++hi;
        }
        if (!ok) sim::violation("lazy", "'%s' was seen with %d methods: that is no whole number of definitions", cname[q.c], q.n);
    }
    int n[NC] = {}; for (auto *g: H->gens) { sim::rec(uint64_t(g->state * 100 + g->runs * 10 + g->defined)); if (g->runs && ++n[g->c] == 2) sim::probe(P_second); }
}
void begin(Plan const &)
{
    H = new Hist;
    H->gens.reserve(256);
    for (int i = 0; i < sim::MAXT; ++i) H->naming[i] = -1, H->setting[i] = -1;
    global_define()._class<LB>("_LB");
}
int hot;
Op op_set(Rng &g, int c)
{
    Op o; o.kind = SET; o.a = c; o.b = int(g.below(g.chance(1, 2) ? 4 : 8)) + 8 * int(g.below(9)); o.c = g.chance(1, 3) ? 0 : int(g.below(10)); o.d = int(g.below(NC));
    return o;
}
void setup(Rng &g, RunCfg const &, Plan &p)
{
    hot = int(g.below(NC));
    for (int c = 0; c < NC; ++c) if (c == hot || g.chance(2, 3)) p.setup.push_back(op_set(g, c));
    if (g.chance(1, 2)) { Op o; o.kind = DERIVE; p.setup.push_back(o); }
}
Op op(Rng &g, RunCfg const &, int)
{
    Op o;
    int c = g.chance(1, 2) ? hot : int(g.below(NC));
    int r = int(g.below(100));
    if (r < 15) return op_set(g, c);
    if (r < 18) { o.kind = DIRECT; return o; }
    if (r < 24) { o.kind = DERIVE; return o; }
    o.kind = ACCESS; o.a = c; o.b = int(g.below(12)); if (o.b == 9 && g.chance(1, 2)) o.b = 4; o.c = int(g.below(64));
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; p.fin.push_back(o); }
std::string show(Op const &o)
{
    switch (o.kind)
    {
    case SET: return std::string("lazy definition of '") + cname[o.a] + "' (" + std::to_string(1 + (o.b & 7)) + " items, action " + std::to_string(o.c % 10) + " at " + std::to_string((o.b >> 3) % 9) + " on '" + cname[o.d % NC] + "')";
    case ACCESS: return std::string(how_name[o.b]) + " of '" + cname[o.a] + "' (" + std::to_string(o.c) + ")";
    case DIRECT: return "define in '_extra'";
    case DERIVE: return "register '_kd' derived from '_k0' and '_k1'";
    default: return "final look";
    }
}
}
World const lazy = {"lazy", true, lazyw::setup, lazyw::op, lazyw::fin, lazyw::begin, lazyw::exec, lazyw::check, nullptr, lazyw::show};
}
