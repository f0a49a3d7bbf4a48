// Registry world: several threads define and query namespaces, classes, methods, properties, enums, constructors,
// attributes and enum elements in a small tree of shared containers.
//
// Oracle: every container list is append-only with first-wins semantics, so the recorded history must be explained by
// one order of appends per list (ListHist: exact), plus agreement of all access paths in the final snapshot, plus
// stability of every handle obtained on the way.
#include "world.h"
#include "shared.h"
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/metaconstructor.h>
#include <memory>
#include <set>

namespace worlds { namespace regw {

using namespace rtti;

template<int I> struct K { int v = I; K() = default; K(int x): v(x) {} K(int x, int y): v(x * 100 + y) {} };
enum En { EnA, EnB };

constexpr int NC = 8;                                       // containers
constexpr int NAMES = 4, OVER = 3, MAXV = 96;
enum List { L_NS, L_CLASS, L_PROP, L_METHOD, L_ENUM, L_CTOR, L_ATTR, L_CATS };
char const *const list_name[] = {"namespaces", "classes", "properties", "methods", "enums", "constructors", "attributes"};
char const *const cpath[NC] = {"", "::n0", "::n1", "::n0::n2", "::k0", "::n0::k1", "::n1::k2", "::k0::k3"};
int const cparent[NC] = {-1, 0, 0, 1, 0, 1, 2, 4};
char const *const cname[NC] = {"global", "n0", "n1", "n2", "k0", "k1", "k2", "k3"};
inline bool is_class(int c) { return c >= 4; }
// list ids: container lists, then per enum its attributes and its elements
inline int lid(int c, int cat) { return c * 8 + cat; }
inline int eattr(int c, int e) { return 1000 + (c * NAMES + e) * 2; }
inline int eelem(int c, int e) { return 1000 + (c * NAMES + e) * 2 + 1; }
inline std::string lname(int l)
{
    if (l < 1000) return std::string(list_name[l % 8]) + " of '" + (cpath[l / 8][0] ? cpath[l / 8] : "global") + "'";
    int e = (l - 1000) / 2;
    return std::string((l & 1) ? "elements" : "attributes") + " of enum a" + std::to_string(e % NAMES) + " in '" + cpath[e / NAMES] + "'";
}

// functions whose identity tells which definition won
template<int V> int f1(int) { return V; }
template<int V> int f2(double) { return V; }
template<int V> int f3(int, int) { return V; }
using F1 = int(*)(int); using F2 = int(*)(double); using F3 = int(*)(int, int);
F1 t1[MAXV]; F2 t2[MAXV]; F3 t3[MAXV];
template<int... V> void fill(std::integer_sequence<int, V...>) { ((t1[V] = f1<V>, t2[V] = f2<V>, t3[V] = f3<V>), ...); }
int props[MAXV];
char const *const oversig[OVER] = {"(int)", "(double)", "(int, int)"};
char const *const short_names[NAMES] = {"a0", "a1", "a2", "a3"};

// the entity a fluent definition has just made (not public: used when it is there)
template<typename T, typename MB> struct Peek: meta_define<T, MB>
{
    template<typename P> static auto get(meta_define<T, MB> &d, int) -> decltype(static_cast<MetaItem *>(d.*(&P::m_currentItem))) { return d.*(&P::m_currentItem); }
    template<typename P> static MetaItem *get(meta_define<T, MB> &, long) { return nullptr; }
    static MetaItem *item(meta_define<T, MB> &d) { return get<Peek>(d, 0); }
};
template<typename T, typename MB> MetaItem *current(meta_define<T, MB> &d) { return Peek<T, MB>::item(d); }

// ------------------------------------------------------------------------------------------------ history
struct Ev
{
    enum T { ADD, NAME, INDEX, COUNT, ENUM, BARE, SET } t;
    int list; uint32_t op; int tid;
    uint64_t inv = 0, ret = 0;
    std::string name; void const *p = nullptr;
    int n = 0; bool maybe = false, full = false; int value = -1;
    std::vector<void const *> seq;
};
struct Handle { MetaItem const *it; void const *nameaddr, *qaddr; std::string name, qname; MetaContainer const *owner; MetaCategory cat; };
struct Ref { variant const *v; int value; };
struct NameRef { std::string const *p; std::string text; };
struct Hist
{
    std::vector<std::unique_ptr<Ev>> ev;
    std::vector<Handle> h[sim::MAXT];
    std::vector<Ref> r[sim::MAXT];
    std::vector<NameRef> nr[sim::MAXT];
};
Hist *H;

Ev *open(Ev::T t, int list, std::string const &name, int value = -1)
{
    sim::Mute m;
    H->ev.push_back(std::make_unique<Ev>());
    auto *e = H->ev.back().get();
    e->t = t; e->list = list; e->tid = sim::tid(); e->name = name; e->value = value; e->maybe = true;
    e->inv = sim::stamp();
    return e;
}
void close(Ev *e, void const *p = nullptr) { sim::Mute m; e->p = p; e->maybe = false; e->ret = sim::stamp(); }
struct Hop            // an add that may be abandoned by an exception
{
    Ev *e;
    Hop(int list, std::string const &name, int v = -1): e(open(Ev::ADD, list, name, v)) {}
    void done(void const *p) { close(e, p); }
    ~Hop() { if (e->maybe) { sim::Mute m; e->ret = sim::stamp(); } }
};

void take(MetaItem const *it)         // remember a handle
{
    if (!it) return;
    auto const &n = it->name(); auto const &q = it->qualifiedName();
    auto *o = it->owner(); auto c = it->category();
    if (o)
    {
        auto const &oq = o->qualifiedName();
        sim::Mute m;
        if (q != oq + "::" + n) sim::violation("bad-name", "'%s' in '%s' reports the qualified name '%s'", n.c_str(), oq.c_str(), q.c_str());
    }
    sim::Mute m;
    auto &h = H->h[sim::tid()];
    for (auto const &x: h) if (x.it == it) return;
    h.push_back({it, &n, &q, n, q, o, c});
}

// ------------------------------------------------------------------------------------------------ definitions
template<typename D> void add_ctors(D &, int c)
{
    close(open(Ev::ADD, lid(c, L_CTOR), "default constructor()"));
    (void)c;
}

// every (re)definition of a class also defines its implicit constructors
struct ClassHop
{
    Hop k, d, c, m; int id;
    ClassHop(int parent, int cls, std::string const &name)
        : k(lid(parent, L_CLASS), name), d(cls >= 0 ? lid(cls, L_CTOR) : 9999, DEFAULT_CONSTRUCTOR_SIG),
          c(cls >= 0 ? lid(cls, L_CTOR) : 9999, COPY_CONSTRUCTOR_SIG), m(cls >= 0 ? lid(cls, L_CTOR) : 9999, MOVE_CONSTRUCTOR_SIG), id(cls) {}
    void done(void const *p) { k.done(p); d.done(nullptr); c.done(nullptr); m.done(nullptr); }
};

template<typename F> void with(int c, F &&f)
{
    switch (c)
    {
    case 0: { auto g = global_define(); f(g); break; }
    case 1: case 3: case 5:
    {
        auto g = global_define();
        Hop h(lid(0, L_NS), "n0");
        auto n = g._namespace("n0"); h.done(current(n));
        if (c == 1) f(n);
        else if (c == 3) { Hop h2(lid(1, L_NS), "n2"); auto n2 = n._namespace("n2"); h2.done(current(n2)); f(n2); }
        else { ClassHop h2(1, 5, "k1"); auto k = n.template _class<K<1>>("k1"); h2.done(current(k)); f(k); }
        break;
    }
    case 2: case 6:
    {
        auto g = global_define();
        Hop h(lid(0, L_NS), "n1");
        auto n = g._namespace("n1"); h.done(current(n));
        if (c == 2) f(n);
        else { ClassHop h2(2, 6, "k2"); auto k = n.template _class<K<2>>("k2"); h2.done(current(k)); f(k); }
        break;
    }
    case 4: case 7:
    {
        auto g = global_define();
        ClassHop h(0, 4, "k0");
        auto k = g.template _class<K<0>>("k0"); h.done(current(k));
        if (c == 4) f(k);
        else { ClassHop h2(4, 7, "k3"); auto k3 = k.template _class<K<3>>("k3"); h2.done(current(k3)); f(k3); }
        break;
    }
    }
}
template<typename D> struct elem_type;
template<typename T, typename MB> struct elem_type<meta_define<T, MB>> { using type = T; };
template<> struct elem_type<meta_global> { using type = void; };
template<typename D> using elem_t = typename elem_type<D>::type;

enum Kind { DEF_NS, DEF_CLASS, DEF_METHOD, DEF_PROP, DEF_ENUM, DEF_CTOR, SET_ATTR, SET_ELEM, DEF_ATTR1, DEF_ELEM1, DEF_CHAIN, DEF_BULK,
            Q_NAME, Q_INDEX, Q_COUNT, Q_FOREACH, Q_BARE, Q_ATTR, Q_ELEM, Q_HANDLE, FINAL, KINDS };
char const *const kind_name[] = {"define namespace", "define class", "define method", "define property", "define enum", "define constructor",
    "set shared attribute", "set shared element", "add own attribute", "add own element", "define chain", "define many",
    "get by name", "get by index", "count", "for_each", "get method by bare name", "attribute query", "element query", "re-read handles", "final snapshot"};

template<typename D> void def_method(D &d, int c, int nm, int ov, int v)
{
    std::string sig = std::string(short_names[nm]) + oversig[ov];
    Hop h(lid(c, L_METHOD), sig, v);
    if (ov == 0) d._method(short_names[nm], t1[v]);
    else if (ov == 1) d._method(short_names[nm], t2[v]);
    else d._method(short_names[nm], t3[v]);
    h.done(nullptr);
}
template<typename D> void def_prop(D &d, int c, int nm, int v)
{
    Hop h(lid(c, L_PROP), short_names[nm], v);
    d._property(short_names[nm], &props[v]); h.done(nullptr);
}
template<typename D> void def_enum(D &d, int c, int nm)
{
    Hop h(lid(c, L_ENUM), short_names[nm]);
    d.template _enum<En>(short_names[nm]); h.done(current(d));
}

// names of items defined in bulk: short ones, ones around the size a std::string holds in place, long ones that differ
// only at the end or only in the middle, ones that are prefixes of each other
std::string bulk_name(int uid, int i, int style)
{
    std::string id = "b" + std::to_string(uid) + "_" + std::to_string(i);
    switch (style % 6)
    {
    case 1: if (id.size() < std::size_t(13 + i % 5)) id += std::string(std::size_t(13 + i % 5) - id.size(), 'z'); return id;
    case 2: return std::string(std::size_t(40 + 20 * (uid % 12)), 'q') + id;
    case 3: return "b" + std::to_string(uid) + std::string(std::size_t(i + 1), 'p');
    case 4: return "b" + std::string(i & 1 ? "" : "0") + std::to_string(i * 7 % 100) + std::string(70, 'r') + std::to_string(uid) + "_" + std::to_string(i);
    case 5: return i % 4 == 1 ? "" : id;                     // a name like any other for namespaces, classes, enums
    default: return id;
    }
}

void define(Op const &o)
{
    int c = o.a, v = int(o.uid % MAXV);
    if (o.kind == DEF_BULK && o.b == 6)                     // namespaces, every third one with a chain of further ones inside
    {
        for (int i = 0; i < o.c; ++i) with(c, [&](auto &d)
        {
            if constexpr (std::is_void_v<elem_t<std::decay_t<decltype(d)>>>)
            {
                std::string n = bulk_name(int(o.uid), i, o.d);
                Hop h(lid(c, L_NS), n); auto ns = d._namespace(n); h.done(current(ns)); take(current(ns));
                if (i % 3) return;
                auto n1 = ns._namespace(n); take(current(n1)); auto n2 = n1._namespace("deep"); take(current(n2)); auto n3 = n2._namespace(n); take(current(n3));
                n3._method(n, t1[v]);
            }
        });
        return;
    }
    with(c, [&](auto &d)
    {
        using D = std::decay_t<decltype(d)>; using T = elem_t<D>;
        switch (o.kind)
        {
        case DEF_NS:
            if constexpr (std::is_void_v<T>) { Hop h(lid(c, L_NS), short_names[o.b]); auto n = d._namespace(short_names[o.b]); h.done(current(n)); take(current(n)); }
            break;
        case DEF_CLASS:
            switch (c)            // one leaf class type per container
            {
#define LEAF(I) case I: { ClassHop h(I, -1, "a0"); auto k = d.template _class<K<10 + I>>("a0"); h.done(current(k)); take(current(k)); break; }
            LEAF(0) LEAF(1) LEAF(2) LEAF(3) LEAF(4) LEAF(5) LEAF(6) LEAF(7)
#undef LEAF
            }
            break;
        case DEF_METHOD: def_method(d, c, o.b, o.c, v); break;
        case DEF_PROP: def_prop(d, c, o.b, v); break;
        case DEF_ENUM: def_enum(d, c, o.b); take(current(d)); break;
        case DEF_CTOR:
            if constexpr (std::is_class_v<T>)
            {
                if (o.b == 0) { Hop h(lid(c, L_CTOR), std::string(CONSTRUCTOR_SIG) + "(int)"); d.template _constructor<int>(); h.done(nullptr); }
                else if (o.b == 1) { Hop h(lid(c, L_CTOR), std::string(CONSTRUCTOR_SIG) + "(int, int)"); d.template _constructor<int, int>(); h.done(nullptr); }
                else { std::string nm = short_names[o.b]; Hop h(lid(c, L_CTOR), nm + "(int, int)"); d.template _constructor<int, int>(nm); h.done(nullptr); }
            }
            break;
        case SET_ATTR: { std::string n = "s" + std::to_string(o.b); Hop h(lid(c, L_ATTR), n, v); d._attribute(n, v); h.done(nullptr); break; }
        case DEF_ATTR1: { std::string n = "w" + std::to_string(o.uid); Hop h(lid(c, L_ATTR), n, v); d._attribute(n, v); h.done(nullptr); break; }
        case SET_ELEM: case DEF_ELEM1:
        {
            def_enum(d, c, o.b);
            std::string n = o.kind == SET_ELEM ? "s" + std::to_string(o.c) : "w" + std::to_string(o.uid);
            { Hop h(eelem(c, o.b), n, v); d._element(n, v); h.done(nullptr); }
            if (o.d & 1) { Hop h(eattr(c, o.b), n, v); d._attribute(n, v); h.done(nullptr); }
            break;
        }
        case DEF_BULK:
            for (int i = 0; i < o.c; ++i)
            {
                std::string n = bulk_name(int(o.uid), i, o.d);
                switch (o.b)
                {
                case 0: { Hop h(lid(c, L_METHOD), n + oversig[0], v); d._method(n, t1[v]); h.done(nullptr); break; }
                case 1: { if (n.empty()) { d._property(n, &props[v]); break; } Hop h(lid(c, L_PROP), n, v); d._property(n, &props[v]); h.done(nullptr); break; }
                case 2: { Hop h(lid(c, L_ENUM), n); d.template _enum<En>(n); h.done(current(d)); if (i % 4 == 0) take(current(d)); break; }
                case 3: { if (n.empty()) { d._attribute(n, v); break; } Hop h(lid(c, L_ATTR), n, v); d._attribute(n, v); h.done(nullptr); break; }
                case 4: { if (i == 0) def_enum(d, c, 0); if (n.empty()) { d._element(n, v); break; } Hop h(eelem(c, 0), n, v); d._element(n, v); h.done(nullptr); break; }
                case 5: { if (i == 0) def_enum(d, c, 1); if (n.empty()) { d._attribute(n, v); break; } Hop h(eattr(c, 1), n, v); d._attribute(n, v); h.done(nullptr); break; }
                default:
                    if constexpr (std::is_class_v<T>) { Hop h(lid(c, L_CTOR), (n.empty() ? std::string(CONSTRUCTOR_SIG) : n) + "(int)"); d.template _constructor<int>(n); h.done(nullptr); }
                    break;
                }
            }
            break;
        case DEF_CHAIN:      // several definitions in one fluent chain
            for (int i = 0; i < NAMES; ++i) if (o.b >> i & 1) def_method(d, c, i, (o.c >> i) % OVER, v);
            for (int i = 0; i < NAMES; ++i) if (o.d >> i & 1) def_prop(d, c, i, v);
            break;
        }
    });
}

// ------------------------------------------------------------------------------------------------ queries
// handle getters by list
MetaItem const *by_name(MetaContainer const *c, int cat, std::string const &n)
{
    switch (cat)
    {
    case L_NS: return c->getNamespace(n); case L_CLASS: return c->getClass(n); case L_PROP: return c->getProperty(n);
    case L_METHOD: return c->getMethod(n); case L_ENUM: return c->getEnum(n); default: return c->getConstructor(n);
    }
}
MetaItem const *by_index(MetaContainer const *c, int cat, std::size_t i)
{
    switch (cat)
    {
    case L_NS: return c->getNamespace(i); case L_CLASS: return c->getClass(i); case L_PROP: return c->getProperty(i);
    case L_METHOD: return c->getMethod(i); case L_ENUM: return c->getEnum(i); default: return c->getConstructor(i);
    }
}
std::size_t count(MetaContainer const *c, int cat)
{
    switch (cat)
    {
    case L_NS: return c->namespaceCount(); case L_CLASS: return c->classCount(); case L_PROP: return c->propertyCount();
    case L_METHOD: return c->methodCount(); case L_ENUM: return c->enumCount(); default: return c->constructorCount();
    }
}
MetaItem const *q_name(MetaContainer const *c, int ci, int cat, std::string const &n)
{
    auto *e = open(Ev::NAME, lid(ci, cat), n);
    auto *p = by_name(c, cat, n);
    close(e, p);
    take(p);
    return p;
}
MetaContainer const *reach(int c)         // navigate by lookups; each hop is a recorded query
{
    if (c == 0) { auto *g = MetaNamespace::global(); take(g); return g; }
    auto *p = reach(cparent[c]);
    if (!p) return nullptr;
    return static_cast<MetaContainer const *>(q_name(p, cparent[c], is_class(c) ? L_CLASS : L_NS, cname[c]));
}

void exec(int tid, Op const &o);

struct Walk { Ev *e; int stop; Op const *o; int seen = 0; };
bool step(Walk &w, void const *p)
{
    { sim::Mute m; w.e->seq.push_back(p); ++w.seen; }
    sim::user_point(1);
    if (w.o->d && w.seen == 1)             // call back into the library from the callback
    {
        Op n = *w.o;                          // keeps the fault: it may fire in here
        static Kind const nested[] = {Q_COUNT, Q_NAME, DEF_METHOD, DEF_PROP, Q_FOREACH, DEF_ENUM, Q_INDEX, DEF_ATTR1};
        n.kind = nested[(w.o->d - 1) % 8]; n.d = 0;
        if (n.kind == DEF_METHOD || n.kind == DEF_PROP || n.kind == DEF_ENUM) { n.b = w.o->d % NAMES; n.c = w.o->d % OVER; }
        if (n.kind == Q_COUNT || n.kind == Q_NAME || n.kind == Q_INDEX) n.b %= is_class(n.a) ? 6 : 5;
        exec(sim::tid(), n);
    }
    if (w.stop && w.seen >= w.stop) return false;
    return true;
}
// enumeration callbacks capture one pointer so that std::function itself never allocates
void walk(Walk &w, MetaContainer const *c, int cat, MetaEnum const *en, int which)
{
    auto *pw = &w;
    if (cat == L_CLASS) c->for_each_class([pw](MetaClass const *k) { return step(*pw, k); });
    else if (cat == L_METHOD) c->for_each_method([pw](MetaMethod const *k) { return step(*pw, k); });
    else if (cat == L_ATTR) c->for_each_attribute([pw](std::string_view, variant const &v) { return step(*pw, &v); });
    else if (which == 0) en->for_each_attribute([pw](std::string_view, variant const &v) { return step(*pw, &v); });
    else en->for_each_element([pw](std::string const &, variant const &v) { return step(*pw, &v); });
}
void q_foreach(Op const &o, MetaContainer const *c, int list, int cat, MetaEnum const *en, int which)
{
    auto *e = open(Ev::ENUM, list, "");
    Walk w{e, o.c, &o};
    try { walk(w, c, cat, en, which); }
    catch (...) { sim::Mute m; e->full = false; e->ret = sim::stamp(); e->maybe = false; e->n = w.seen; throw; }
    sim::Mute m;
    e->n = w.seen;
    e->full = !(w.stop && w.seen >= w.stop);
    e->maybe = false; e->ret = sim::stamp();
}

template<typename A> void q_values(Op const &o, int list, A a)
{
    switch (o.c & 3)
    {
    case 0: { auto *e = open(Ev::COUNT, list, ""); auto n = a.count(); { sim::Mute m; e->n = int(n); } close(e); break; }
    case 1:
    {
        std::string n = "w" + std::to_string(o.d);
        auto *e = open(Ev::NAME, list, n);
        variant const &v = a.byname(n);
        close(e, v.empty() ? nullptr : &v);
        if (!v.empty())
        {
            int x = v.template to<int>();
            sim::Mute m; e->value = x;
            H->r[sim::tid()].push_back({&v, x});
        }
        break;
    }
    case 2:
    {
        auto *e = open(Ev::INDEX, list, ""); { sim::Mute m; e->n = o.d & 32 ? o.d % 128 : o.d % 8; }
        variant const &v = a.byindex(std::size_t(e->n));
        bool none = &v == &variant::empty_variant;
        close(e, none ? nullptr : &v);
        break;
    }
    default:
    {
        auto *e = open(Ev::INDEX, list, "?"); { sim::Mute m; e->n = o.d & 32 ? o.d % 128 : o.d % 8; }
        std::string const &n = a.nameof(std::size_t(e->n));
        { sim::Mute m; e->name = n; }
        close(e, nullptr);
        sim::Mute m; e->full = true;         // answered with the name, not the value
        if (!n.empty()) H->nr[sim::tid()].push_back({&n, n});
    }
    }
}
template<typename I> struct AttrAccess
{
    I const *i;
    std::size_t count() { return i->attributeCount(); }
    variant const &byname(std::string const &n) { return i->attribute(n); }
    variant const &byindex(std::size_t k) { return i->attribute(k); }
    std::string const &nameof(std::size_t k) { return i->attributeName(k); }
};
struct ElemAccess
{
    MetaEnum const *i;
    std::size_t count() { return i->elementCount(); }
    variant const &byname(std::string const &n) { return i->element(n); }
    variant const &byindex(std::size_t k) { return i->element(k); }
    std::string const &nameof(std::size_t k) { return i->elementName(k); }
};

std::string query_name(int cat, Op const &o)
{
    int nm = o.c % NAMES, x = o.c / NAMES % 6;
    if (o.d) return bulk_name(o.d % 32, o.d / 32 % 16, o.d / 512) + (cat == L_METHOD || cat == L_CTOR ? oversig[0] : "");
    switch (cat)
    {
    case L_METHOD: return std::string(short_names[nm]) + oversig[x % OVER];
    case L_CTOR:
    {
        char const *s[] = {DEFAULT_CONSTRUCTOR_SIG, COPY_CONSTRUCTOR_SIG, MOVE_CONSTRUCTOR_SIG};
        if (x < 3) return s[x];
        if (x == 3) return std::string(CONSTRUCTOR_SIG) + "(int)";
        if (x == 4) return std::string(CONSTRUCTOR_SIG) + "(int, int)";
        return std::string(short_names[nm]) + "(int, int)";
    }
    default: return short_names[nm];
    }
}
void reread(int tid)
{
    auto &h = H->h[tid];
    size_t n; { sim::Mute m; n = h.size(); }
    for (size_t i = 0; i < n; ++i)
    {
        Handle x; { sim::Mute m; x = h[i]; }
        auto const &nm = x.it->name(); auto const &q = x.it->qualifiedName();
        bool same = &nm == x.nameaddr && nm == x.name && &q == x.qaddr && q == x.qname && x.it->owner() == x.owner && x.it->category() == x.cat;
        if (!same) sim::violation("handle-changed", "an entity handle obtained earlier ('%s') no longer reads the same", x.qname.c_str());
    }
    auto &nr = H->nr[tid];
    { sim::Mute m; n = nr.size(); }
    for (size_t i = 0; i < n; ++i)
    {
        std::string const *p; { sim::Mute m; p = nr[i].p; }
        if (*p != nr[i].text) sim::violation("handle-changed", "a reference to the name '%s' obtained earlier reads differently", nr[i].text.c_str());
    }
    auto &r = H->r[tid];
    { sim::Mute m; n = r.size(); }
    for (size_t i = 0; i < n; ++i)
    {
        Ref x; { sim::Mute m; x = r[i]; }
        if (x.v->empty() || x.v->to<int>() != x.value) sim::violation("handle-changed", "a value reference obtained earlier changed");
    }
}

// ------------------------------------------------------------------------------------------------ final snapshot
struct Item { std::string name; void const *p; int winner = -1; };
struct Snap { std::map<int, std::vector<Item>> lists; } *S;

template<typename A> void snap_values(int list, A a, MetaContainer const *c, int cat, MetaEnum const *en, int which)
{
    std::vector<Item> v;
    auto n = a.count();
    for (std::size_t i = 0; i < n; ++i)
    {
        auto const &name = a.nameof(i);
        variant const &val = a.byindex(i);
        if (&a.byname(name) != &val) sim::violation("inconsistent", "%s: name '%s' and index %zu lead to different values", lname(list).c_str(), name.c_str(), i);
        int w = val.template is<int>() ? val.template to<int>() : -1;
        sim::Mute m; v.push_back({name, &val, w});
    }
    if (&a.byindex(n) != &variant::empty_variant || &a.byname("no such") != &variant::empty_variant || &a.byname("") != &variant::empty_variant || !a.nameof(n).empty())
        sim::violation("inconsistent", "%s: an absent entry is not reported as absent", lname(list).c_str());
    struct Seen { std::vector<void const *> v; } seen; auto *ps = &seen;
    auto push = [ps](variant const &x) { sim::Mute m; ps->v.push_back(&x); return true; };
    if (cat == L_ATTR) c->for_each_attribute([push](std::string_view, variant const &x) { return push(x); });
    else if (which == 0) en->for_each_attribute([push](std::string_view, variant const &x) { return push(x); });
    else en->for_each_element([push](std::string const &, variant const &x) { return push(x); });
    sim::Mute m;
    bool ok = seen.v.size() == v.size();
    for (size_t i = 0; ok && i < v.size(); ++i) ok = seen.v[i] == v[i].p;
    if (!ok) sim::violation("inconsistent", "%s: enumeration and index access disagree", lname(list).c_str());
    S->lists[list] = v;
}
void deep(MetaNamespace const *ns)                           // namespaces inside namespaces defined in bulk
{
    auto const &q = ns->qualifiedName();
    for (std::size_t i = 0, n = ns->namespaceCount(); i < n; ++i)
    {
        auto *k = ns->getNamespace(i);
        if (!k || ns->getNamespace(k->name()) != k || k->owner() != ns) sim::violation("inconsistent", "namespaces of '%s': index %zu and name disagree", q.c_str(), i);
        std::string want; { sim::Mute m; want = q + "::" + k->name(); }
        if (k->qualifiedName() != want) sim::violation("bad-name", "'%s' reports the qualified name '%s'", want.c_str(), k->qualifiedName().c_str());
        if (k->methodCount() && !k->getMethod(k->getMethod(std::size_t(0))->name())) sim::violation("inconsistent", "a method of '%s' is not found", want.c_str());
        deep(k);
    }
}
void snapshot()
{
    for (int c = 0; c < NC; ++c)
    {
        auto *p = reach(c);
        if (!p) continue;
        if (!is_class(c) && static_cast<MetaNamespace const *>(p)->isGlobal() != (c == 0)) sim::violation("inconsistent", "container '%s' is wrong about being the global namespace", cpath[c]);
        if (p->qualifiedName() != cpath[c] || p->name() != cname[c])
            sim::violation("bad-name", "container '%s' reports the qualified name '%s'", cpath[c], p->qualifiedName().c_str());
        for (int cat = 0; cat < L_ATTR; ++cat)
        {
            if (!is_class(c) && cat == L_CTOR) { if (count(p, cat)) sim::violation("inconsistent", "a namespace has constructors"); continue; }
            auto n = count(p, cat);
            std::vector<Item> v;
            for (std::size_t i = 0; i < n; ++i)
            {
                auto *it = by_index(p, cat, i);
                if (!it) sim::violation("inconsistent", "%s: count is %zu but index %zu is empty", lname(lid(c, cat)).c_str(), n, i);
                auto *bn = by_name(p, cat, it->name());
                if (bn != it) sim::violation("inconsistent", "%s: looking up '%s' does not lead to the item at index %zu", lname(lid(c, cat)).c_str(), it->name().c_str(), i);
                if (it->owner() != p || int(it->category()) != cat)
                    sim::violation("inconsistent", "%s: '%s' has the wrong owner or category", lname(lid(c, cat)).c_str(), it->name().c_str());
                std::string q; { sim::Mute m; q = std::string(cpath[c]) + "::" + it->name(); }
                if (it->qualifiedName() != q) sim::violation("bad-name", "'%s' reports the qualified name '%s'", q.c_str(), it->qualifiedName().c_str());
                int w = -1;
                if (cat == L_METHOD)
                {
                    auto *me = static_cast<MetaMethod const *>(it);
                    auto const &nm = it->name();
                    variant r = nm.find("(int)") != std::string::npos ? me->invoke(1) : nm.find("double") != std::string::npos ? me->invoke(1.0) : me->invoke(1, 2);
                    w = r.to<int>();
                }
                else if (cat == L_PROP) w = static_cast<MetaProperty const *>(it)->get().to<int>();
                { sim::Mute m; v.push_back({it->name(), it, w}); }
                take(it);
                if (cat == L_NS && it->name()[0] == 'b') deep(static_cast<MetaNamespace const *>(it));
                if (cat == L_NS && it->name()[0] == 'q') deep(static_cast<MetaNamespace const *>(it));
            }
            std::set<std::string> there; { sim::Mute m; for (auto &x: v) there.insert(x.name); }
            for (std::size_t i = 0; i < n; i += 1 + n / 8)
            {
                std::string near[4], real;
                {
                    sim::Mute m; real = v[i].name; near[0] = real + "x"; if (real.empty()) continue; near[1] = real.substr(0, real.size() - 1); near[2] = "x" + real; near[3] = real.substr(1);
                    if (cat == L_METHOD) { auto k = real.find('('); near[0] = real.substr(0, k) + "x" + real.substr(k); near[1] = real.substr(0, real.size() - 1); near[3] = real.substr(0, k - 1); }
                }
                for (auto const &q: near)
                {
                    bool known; { sim::Mute m; known = there.count(q) != 0; if (cat == L_METHOD && q == near[3]) for (auto const &x: there) if (x.compare(0, q.size() + 1, q + "(") == 0) known = true; }
                    if (!known && by_name(p, cat, q)) sim::violation("inconsistent", "%s: looking up '%s', which is not there, gives an item", lname(lid(c, cat)).c_str(), q.c_str());
                }
            }
            if (by_index(p, cat, n) || by_index(p, cat, n + 1) || by_index(p, cat, std::size_t(-1)) || by_name(p, cat, "no such")) sim::violation("inconsistent", "%s: an absent item is reported as present", lname(lid(c, cat)).c_str());
            struct Seen { std::vector<void const *> v; } seen; auto *ps = &seen;
            if (cat == L_CLASS) p->for_each_class([ps](MetaClass const *k) { sim::Mute m; ps->v.push_back(k); return true; });
            if (cat == L_METHOD) p->for_each_method([ps](MetaMethod const *k) { sim::Mute m; ps->v.push_back(k); return true; });
            if (cat == L_CLASS || cat == L_METHOD)
            {
                bool ok = seen.v.size() == n;
                for (size_t i = 0; ok && i < n; ++i) ok = seen.v[i] == v[i].p;
                if (!ok) sim::violation("inconsistent", "%s: enumeration and index access disagree", lname(lid(c, cat)).c_str());
            }
            if (cat == L_ENUM)
                for (auto &x: v)
                {
                    auto *en = static_cast<MetaEnum const *>(x.p);
                    int nm = x.name.size() == 2 ? x.name[1] - '0' : 0;
                    if (x.name.size() != 2 || x.name[0] != 'a') { if (en->elementCount() || en->attributeCount()) sim::violation("inconsistent", "an enum has elements or attributes nobody gave it"); continue; }
                    snap_values(eattr(c, nm), AttrAccess<MetaEnum>{en}, nullptr, -1, en, 0);
                    snap_values(eelem(c, nm), ElemAccess{en}, nullptr, -1, en, 1);
                }
            sim::Mute m; S->lists[lid(c, cat)] = v;
        }
        if (is_class(c))
        {
            auto name = [&](MetaConstructor const *k, char const *sig) { return !k || k->name() == sig; };
            if (!name(p->defaultConstructor(), DEFAULT_CONSTRUCTOR_SIG) || !name(p->copyConstructor(), COPY_CONSTRUCTOR_SIG) || !name(p->moveConstructor(), MOVE_CONSTRUCTOR_SIG))
                sim::violation("inconsistent", "a default/copy/move constructor query returned another constructor");
            auto *k = static_cast<MetaClass const *>(p);
            MetaType_ID id = c == 4 ? metaTypeId<K<0>>() : c == 5 ? metaTypeId<K<1>>() : c == 6 ? metaTypeId<K<2>>() : metaTypeId<K<3>>();
            if (k->metaTypeId() != id || MetaClass::find(id) != k) sim::violation("inconsistent", "class '%s' is not found through its type", cpath[c]);
        }
        snap_values(lid(c, L_ATTR), AttrAccess<MetaContainer>{p}, p, L_ATTR, nullptr, 0);
    }
    for (int t = 0; t < sim::MAXT; ++t) reread(t);
}

// ------------------------------------------------------------------------------------------------ run
void exec1(Op const &o)
{
    if (o.kind <= DEF_BULK) { define(o); return; }
    if (o.kind == Q_HANDLE) { reread(sim::tid()); return; }
    if (o.kind == FINAL) { snapshot(); return; }
    auto *p = reach(o.a);
    if (!p) return;
    switch (o.kind)
    {
    case Q_NAME: q_name(p, o.a, o.b, query_name(o.b, o)); break;
    case Q_INDEX:
    {
        auto *e = open(Ev::INDEX, lid(o.a, o.b), ""); { sim::Mute m; e->n = o.c; }
        auto *r = by_index(p, o.b, std::size_t(o.c)); close(e, r); take(r); break;
    }
    case Q_COUNT: { auto *e = open(Ev::COUNT, lid(o.a, o.b), ""); auto n = count(p, o.b); { sim::Mute m; e->n = int(n); } close(e); break; }
    case Q_FOREACH:
    {
        int which = o.b & 3;
        if (which == 0) q_foreach(o, p, lid(o.a, L_CLASS), L_CLASS, nullptr, 0);
        else if (which == 1) q_foreach(o, p, lid(o.a, L_METHOD), L_METHOD, nullptr, 0);
        else if (which == 2) q_foreach(o, p, lid(o.a, L_ATTR), L_ATTR, nullptr, 0);
        else if (auto *en = static_cast<MetaEnum const *>(q_name(p, o.a, L_ENUM, short_names[o.c % NAMES])))
            q_foreach(o, p, (o.b & 4) ? eelem(o.a, o.c % NAMES) : eattr(o.a, o.c % NAMES), -1, en, (o.b & 4) ? 1 : 0);
        break;
    }
    case Q_BARE:
    {
        if (o.c & 4)
        {   // typed lookup
            auto *e = open(Ev::NAME, lid(o.a, L_METHOD), std::string(short_names[o.b % NAMES]) + "(int)");
            auto *m = p->getMethod<int>(short_names[o.b % NAMES]); close(e, m); take(m); break;
        }
        auto *e = open(Ev::BARE, lid(o.a, L_METHOD), short_names[o.b % NAMES]);
        auto *m = p->getMethod(short_names[o.b % NAMES]); close(e, m); take(m); break;
    }
    case Q_ATTR: q_values(o, lid(o.a, L_ATTR), AttrAccess<MetaContainer>{p}); break;
    case Q_ELEM:
        if (auto *en = static_cast<MetaEnum const *>(q_name(p, o.a, L_ENUM, short_names[o.b % NAMES])))
        {
            if (o.b & 4) q_values(o, eattr(o.a, o.b % NAMES), AttrAccess<MetaEnum>{en});
            else q_values(o, eelem(o.a, o.b % NAMES), ElemAccess{en});
        }
        break;
    }
}
void exec(int, Op const &o)
{
    guarded(o, [&] { exec1(o); }, o.kind <= DEF_BULK);
}

void check(Plan const &)
{
    std::map<int, ListHist> lh;
    std::map<int, std::map<std::string, int>> idx;
    std::map<int, std::map<void const *, int>> pidx;
    for (auto &l: S->lists)
        for (size_t i = 0; i < l.second.size(); ++i)
        {
            if (!idx[l.first].emplace(l.second[i].name, int(i)).second) sim::violation("duplicate", "%s: '%s' is there twice", lname(l.first).c_str(), l.second[i].name.c_str());
            pidx[l.first][l.second[i].p] = int(i);
        }
    // the classes defined by DEF_CLASS are leaves whose constructors are not followed (list 9999)
    for (auto &pe: H->ev)
    {
        Ev &e = *pe;
        if (e.list == 9999) continue;
        auto const &items = S->lists[e.list];
        auto &names = idx[e.list]; auto &ptrs = pidx[e.list];
        auto what = lname(e.list);
        auto find = [&](std::string const &n) { auto f = names.find(n); return f == names.end() ? -1 : f->second; };
        auto &L = lh[e.list];
        bool values = e.list >= 1000 || e.list % 8 == L_ATTR;
        switch (e.t)
        {
        case Ev::ADD:
        {
            int i = find(e.name);
            if (i < 0) { if (!e.maybe) sim::violation("lost", "%s: '%s' was registered but is not there at the end", what.c_str(), e.name.c_str()); break; }
            if (e.p && ptrs.count(e.p) && ptrs[e.p] != i) sim::violation("wrong-item", "%s: registering '%s' gave another entity", what.c_str(), e.name.c_str());
            if (e.p && !ptrs.count(e.p)) sim::violation("wrong-item", "%s: registering '%s' gave an entity that is not in the registry", what.c_str(), e.name.c_str());
            bool win = !values && e.value >= 0 && items[size_t(i)].winner == e.value;
            L.add(e.inv, e.ret, i, e.maybe, win, 0);
            if (values && e.value >= 0 && !e.maybe)
            {   // last write wins: the final value's writer must not be followed by another complete write
                int w = items[size_t(i)].winner;
                bool possible = false;
                for (auto &q: H->ev) if (q->t == Ev::ADD && q->list == e.list && q->name == e.name && q->value == w && (q->maybe || q->ret > e.inv)) possible = true;
                if (!possible) sim::violation("lost", "%s: the last value set for '%s' was not kept", what.c_str(), e.name.c_str());
            }
            break;
        }
        case Ev::NAME:
        {
            if (e.maybe) break;
            int i = find(e.name);
            if (e.p)
            {
                if (i < 0 || items[size_t(i)].p != e.p) sim::violation("wrong-item", "%s: looking up '%s' gave a different entity than at the end", what.c_str(), e.name.c_str());
                L.need(e.inv, e.ret, i + 1, -1);
                if (values && e.value >= 0 && items[size_t(i)].winner != e.value) sim::violation("wrong-item", "%s: '%s' had another value", what.c_str(), e.name.c_str());
            }
            else if (i >= 0) L.need(e.inv, e.ret, 0, i);
            break;
        }
        case Ev::BARE:
        {
            if (e.maybe) break;
            int first = -1;
            for (size_t i = 0; i < items.size() && first < 0; ++i)
                if (items[i].name.compare(0, e.name.size() + 1, e.name + "(") == 0) first = int(i);
            if (e.p)
            {
                if (first < 0 || items[size_t(first)].p != e.p) sim::violation("wrong-item", "%s: looking up '%s' gave something other than the first overload", what.c_str(), e.name.c_str());
                L.need(e.inv, e.ret, first + 1, -1);
            }
            else if (first >= 0) L.need(e.inv, e.ret, 0, first);
            break;
        }
        case Ev::INDEX:
            if (e.maybe) break;
            if (e.full)
            {   // attributeName / elementName
                if (!e.name.empty())
                {
                    if (find(e.name) != e.n) sim::violation("wrong-item", "%s: index %d changed its name", what.c_str(), e.n);
                    L.need(e.inv, e.ret, e.n + 1, -1);
                }
                else L.need(e.inv, e.ret, 0, e.n);
                break;
            }
            if (e.p)
            {
                if (size_t(e.n) >= items.size() || items[size_t(e.n)].p != e.p) sim::violation("wrong-item", "%s: index %d changed its item", what.c_str(), e.n);
                L.need(e.inv, e.ret, e.n + 1, -1);
            }
            else L.need(e.inv, e.ret, 0, e.n);
            break;
        case Ev::COUNT: if (!e.maybe) L.need(e.inv, e.ret, e.n, e.n); break;
        case Ev::ENUM:
            for (size_t i = 0; i < e.seq.size(); ++i)
                if (i >= items.size() || items[i].p != e.seq[i]) sim::violation("wrong-item", "%s: an enumeration gave something else at position %zu", what.c_str(), i);
            if (e.maybe) break;
            L.need(e.inv, e.ret, e.n, e.full ? e.n : -1);
            break;
        default: break;
        }
    }
    // entities of other worlds (their names begin with '_') may have appeared at any time
    for (auto &l: S->lists) if (l.first < 1000 && l.first % 8 != L_ATTR)
        for (size_t i = 0; i < l.second.size(); ++i) if (!l.second[i].name.empty() && l.second[i].name[0] == '_') lh[l.first].add(0, ~0ull, int(i), true, false, 0);
    for (auto &l: S->lists) { lh[l.first].check(int(l.second.size()), lname(l.first).c_str()); sim::rec(l.second.size()); for (auto &i: l.second) sim::rec(uint64_t(i.winner) * 31 + i.name.size()); }
    for (auto &l: lh) if (!S->lists.count(l.first)) l.second.check(0, lname(l.first).c_str());
}

void begin(Plan const &)
{
    static bool once = (fill(std::make_integer_sequence<int, MAXV>{}), true); (void)once;
    for (int i = 0; i < MAXV; ++i) props[i] = i;
    H = new Hist; S = new Snap;
}

int focus_c, focus_nm;
void setup(Rng &g, RunCfg const &, Plan &) { focus_c = int(g.below(NC)); focus_nm = int(g.below(NAMES)); }
Op op(Rng &g, RunCfg const &, int)
{
    Op o;
    static int const w[] = {4, 4, 16, 8, 6, 4, 6, 4, 8, 6, 6, 1,   8, 6, 6, 12, 6, 8, 6, 4};
    int tot = 0; for (int x: w) tot += x;
    int r = int(g.below(uint32_t(tot)));
    for (int i = 0; i < int(sizeof w / sizeof *w); ++i) { r -= w[i]; if (r < 0) { o.kind = i; break; } }
    o.a = g.chance(3, 4) ? focus_c : int(g.below(NC));
    auto nm = [&] { return g.chance(1, 2) ? focus_nm : int(g.below(NAMES)); };
    switch (o.kind)
    {
    case DEF_NS: o.b = nm(); if (is_class(o.a)) o.a = int(g.below(4)); break;
    case DEF_METHOD: o.b = nm(); o.c = g.chance(1, 2) ? 0 : int(g.below(OVER)); break;
    case DEF_PROP: case DEF_ENUM: o.b = nm(); break;
    case DEF_CTOR: o.b = int(g.below(NAMES)); if (!is_class(o.a)) o.a = int(4 + g.below(4)); break;
    case SET_ATTR: o.b = int(g.below(3)); break;
    case SET_ELEM: case DEF_ELEM1: o.b = nm(); o.c = int(g.below(3)); o.d = int(g.below(2)); break;
    case DEF_CHAIN: o.b = int(g.below(16)); o.c = int(g.below(81)); o.d = int(g.below(16)); break;
    case Q_NAME: o.b = int(g.below(is_class(o.a) ? 6 : 5)); o.c = nm() + NAMES * int(g.below(6)); if (g.chance(1, 12)) o.d = int(1 + g.below(512 * 6 - 1)); break;
    case Q_INDEX: o.b = int(g.below(is_class(o.a) ? 6 : 5)); o.c = int(g.below(g.chance(1, 2) ? 3 : g.chance(3, 4) ? 10 : 70)); break;
    case Q_COUNT: o.b = int(g.below(is_class(o.a) ? 6 : 5)); break;
    case Q_FOREACH: o.b = int(g.below(8)); if (g.chance(1, 2)) o.b = 1; o.c = g.chance(1, 3) ? int(1 + g.below(3)) : (o.b & 3) == 3 ? 0 : 0; o.d = g.chance(1, 3) ? int(1 + g.below(8)) : 0; break;
    case Q_BARE: o.b = nm(); o.c = int(g.below(8)); break;
    case Q_ATTR: o.c = int(g.below(4)); o.d = int(1 + g.below(24)); break;
    case Q_ELEM: o.b = nm() + 4 * int(g.below(2)); o.c = int(g.below(4)); o.d = int(1 + g.below(24)); break;
    case DEF_BULK:
        o.b = int(g.below(8)); o.d = int(g.below(6));
        if (o.b == 6 && is_class(o.a)) o.a = int(g.below(4));
        if (o.b == 7 && !is_class(o.a)) o.a = int(4 + g.below(4));
        o.c = int(g.chance(1, 2) ? 2 + g.below(6) : g.chance(3, 4) ? 8 + g.below(12) : 20 + g.below(50));
        if (o.b == 6) o.c = 1 + o.c / 3;
        break;
    default: break;
    }
    if ((o.kind == Q_ATTR || o.kind == Q_ELEM) && (o.c & 2) && g.chance(1, 6)) o.d = 32 + int(g.below(96));
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; p.fin.push_back(o); }
std::string show(Op const &o)
{
    std::string s = o.kind < KINDS ? kind_name[o.kind] : "?";
    if (o.kind == FINAL || o.kind == Q_HANDLE) return s;
    s += std::string(" in '") + (cpath[o.a][0] ? cpath[o.a] : "global") + "'";
    auto nm = [&](int i) { return std::string(" ") + short_names[i % NAMES]; };
    switch (o.kind)
    {
    case DEF_METHOD: s += nm(o.b) + oversig[o.c]; break;
    case DEF_NS: case DEF_PROP: case DEF_ENUM: case SET_ELEM: case DEF_ELEM1: case Q_ELEM: case Q_BARE: s += nm(o.b); break;
    case DEF_BULK: { char const *const what[] = {"methods", "properties", "enums", "attributes", "elements", "enum attributes", "namespaces", "constructors"}; s += " " + std::to_string(o.c) + " " + what[o.b] + " like " + bulk_name(int(o.uid), 0, o.d); break; }
    case SET_ATTR: s += " s" + std::to_string(o.b); break;
    case Q_NAME: s += std::string(" ") + list_name[o.b] + " '" + query_name(o.b, o) + "'"; break;
    case Q_INDEX: s += std::string(" ") + list_name[o.b] + "[" + std::to_string(o.c) + "]"; break;
    case Q_COUNT: s += std::string(" ") + list_name[o.b]; break;
    case Q_FOREACH: s += std::string(" ") + ((o.b & 3) == 0 ? "classes" : (o.b & 3) == 1 ? "methods" : (o.b & 3) == 2 ? "attributes" : "enum") + (o.c ? " stop after " + std::to_string(o.c) : "") + (o.d ? " with nested call " + std::to_string(o.d) : ""); break;
    default: break;
    }
    return s;
}

}
World const reg = {"registry", true, regw::setup, regw::op, regw::fin, regw::begin, regw::exec, regw::check, nullptr, regw::show};
}
