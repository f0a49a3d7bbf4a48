// Type identity world: threads race for the first use of types, look types up by name, and re-read the descriptors they
// already hold. Fresh types in every run (each run is a forked process whose library state is untouched).
//
// Oracle: one identifier per type over the whole run, distinct types distinct; a type whose first use completed before a
// lookup began is found by name, one nobody has mentioned is not; every descriptor equals the language's own traits.
#include "shared.h"
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <rtti/metaclass.h>
#include <cstring>
#include "types.h"

namespace worlds { namespace typesw {

template<int I> struct Plain { int x = I; bool operator==(Plain const &o) const { return x == o.x; } };
template<int I> struct Big { double d[6] = {I}; };
template<int I> struct Poly { virtual ~Poly() = default; int v = I; };
template<int I> struct Abst { virtual ~Abst() = default; virtual void f() = 0; };
template<int I> struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly &&) = default; };
enum class Enm1 { a }; enum class Enm2: char { b }; enum Enm3 { ec };
union Un1 { int a; double b; }; union Un2 { char c[7]; };
struct Nest { struct In { int z; }; template<typename T> struct Tm { T t; }; };
namespace other { template<int I> struct Plain { char c; }; struct Nest { struct In { int z; }; }; }

Table table_; Table *const E = &table_; int groups;
int twin_at, twin_per;
int build()
{
    family<Plain<0>>(); family<Plain<1>>(); family<Big<0>>(); family<Poly<0>>(); family<Abst<0>>(); family<MoveOnly<0>>();
    family<Enm1>(); family<Enm2>(); family<Enm3>(); family<Un1>(); family<Un2>(); family<Nest>(); family<Nest::In>(); family<other::Nest>(); family<other::Nest::In>();
    family<other::Plain<0>>(); family<Nest::Tm<Plain<2>>>(); family<Nest::Tm<Nest::Tm<Plain<3>>>>(); family<Plain<10>>(); family<Plain<11>>(); family<Poly<1>>(); family<Poly<12>>();
    int g = groups++;
    for (auto &x: {entry<int Plain<0>::*>(g), entry<void (Plain<0>::*)()>(g), entry<void (Plain<0>::*)() const>(g), entry<unsigned long long volatile *>(g), entry<void *>(g), entry<void const *>(g), entry<void **>(g)}) E->push_back(x);
    int const first = E->n, g1 = groups;
    family<Twin<0>>(); family<Twin<1>>(); family<TwinE>();
    int const per = E->n - first;
    twin_at = first; twin_per = per;
    twins(); groups = g1 + 3;
    for (int i = first; i < first + per; ++i) { auto &twin = E->e[i + per]; twin.tag = E->e[i].tag; twin.dtag = E->e[i].dtag; twin.group = E->e[i].group; }
    for (int i = 0; i < E->n; ++i) { E->dec[i] = -1; for (int j = 0; j < E->n; ++j) if (E->e[j].tag == E->e[i].dtag) { E->dec[i] = j; break; } }
    return E->n;
}
int const built = build();

enum Kind { FIRST, GROUP, NAME, MISS, REREAD, FINAL, KINDS };
char const *const kind_name[] = {"first use of", "first uses from", "look up by name", "look up a name that does not exist", "re-read descriptors", "final look at all types"};

struct Seen { MetaType t; int e; };
struct State
{
    std::vector<std::vector<MetaType_ID::type>> ids;   // per entry
    std::vector<uint64_t> inv, done;                  // earliest mention of the group / completed first use
    struct Look { int e; uint64_t inv, ret; bool found; };
    std::vector<Look> looks;
    std::vector<Seen> seen[sim::MAXT];
};
State *S;

void verify(MetaType t, int e)
{
    auto const &x = (*E)[size_t(e)];
    auto bad = [&](char const *what) { auto n = x.name(); sim::violation("descriptor", "%s is wrong for %.*s", what, int(n.size()), n.data()); };
    if (!t.valid()) { auto n = x.name(); sim::violation("identity", "%.*s has no valid type", int(n.size()), n.data()); }
    if (t.typeName() != x.name()) bad("name");
    if (t.typeSize() != x.size) bad("size");
    if (int(t.pointerArity()) != x.arity) bad("indirection");
    if (t.isConst() != x.cnst) bad("const flag");
    if (t.isLvalueReference() != x.lref || t.isRvalueReference() != x.rref || t.isReference() != (x.lref || x.rref)) bad("reference flags");
    if (t.isPointer() != x.ptr) bad("pointer flag");
    if (t.isArray() != x.arr) bad("array flag");
    if (!x.arr && !x.ptr && t.isClass() != x.cls) bad("class flag");
    if (t.isVoidPtr() != x.vptr || t.isClassPtr() != x.cptr || t.isFunctionPtr() != x.fptr) bad("kind of pointer");
    auto has = [&](TypeFlags f) { return (t.typeFlags() & f) == f; };
    if (!x.arr && (has(TypeFlags::Integral) != x.integral || has(TypeFlags::Polymorphic) != x.poly || has(TypeFlags::Abstract) != x.abst)) bad("a trait flag");
    auto const ignore = TypeFlags::Array | TypeFlags::EQ_Comparable;
    if (!x.arr && (t.typeFlags() | ignore) != (x.flags | ignore)) bad("a flag");
    if (t.decayed() != (x.tag == x.dtag)) bad("decayed state");
    if (t.metaClass()) bad("class");
    auto d = MetaType{t.decayId()};
    if (!d.valid() || d.decayId() != t.decayId() || !d.decayed()) bad("decayed type");
    if (MetaType{t.typeId()}.typeId() != t.typeId()) bad("identifier");
    // the decayed type is the identity of that very type
    if (int i = E->dec[e]; i >= 0) { MetaType_ID::type k = 0; { Mute m; if (!S->ids[size_t(i)].empty()) k = S->ids[size_t(i)][0]; } if (k && k != t.decayId().value()) bad("decayed type"); }
    auto byname = MetaType{t.typeName()};
    if (!byname.valid() || byname.typeId() != t.typeId()) bad("lookup by name");
}
void note(int e, MetaType_ID id)
{
    Mute m;
    auto &v = S->ids[size_t(e)];
    if (!v.empty() && v[0] != id.value()) { auto n = (*E)[size_t(e)].name(); sim::violation("identity", "%.*s has two identifiers", int(n.size()), n.data()); }
    if (v.empty()) v.push_back(id.value());
}
void first(Op const &o, int e, int how)
{
    auto const &x = (*E)[size_t(e)];
    { Mute m; auto &i = S->inv[size_t(x.group)]; auto s = sim::stamp(); if (!i) i = s; }
    MetaType_ID id; MetaType t;
    switch (how)
    {
    case 0: id = x.id(); t = MetaType{id}; break;
    case 1: t = x.mt(); id = t.typeId(); break;
    case 2: x.var(); id = x.id(); t = MetaType{id}; break;
    default: id = x.id(); if (MetaClass::find(id)) sim::violation("identity", "an unregistered type has a class"); t = MetaType{id}; break;
    }
    if (!id.valid()) { auto n = x.name(); sim::violation("identity", "%.*s has no valid identifier", int(n.size()), n.data()); }
    note(e, id);
    { Mute m; auto &d = S->done[size_t(e)]; auto s = sim::stamp(); if (!d) d = s; }
    verify(t, e);
    Mute m; S->seen[sim::tid()].push_back({t, e});
    (void)o;
}
void exec1(Op const &o)
{
    auto N = int(E->size());
    switch (o.kind)
    {
    case FIRST: first(o, o.a % N, o.b); break;
    case GROUP: for (int i = 0; i < o.b; ++i) first(o, (o.a + i * o.c) % N, o.d); break;
    case NAME:
    {
        int e = o.a % N;
        auto n = (*E)[size_t(e)].name();
        auto inv = sim::stamp();
        MetaType t{n};
        auto ret = sim::stamp();
        { Mute m; S->looks.push_back({e, inv, ret, t.valid()}); }
        if (t.valid()) { note(e, t.typeId()); verify(t, e); Mute m; S->seen[sim::tid()].push_back({t, e}); }
        break;
    }
    case MISS:
    {
        auto n = (*E)[size_t(o.a % N)].name();
        char buf[512]; std::size_t l = std::min<std::size_t>(n.size(), 500);
        std::memcpy(buf, n.data(), l);
        if (o.b == 0) l = 0;
        else if (o.b == 1) buf[l++] = ' ';
        else if (o.b == 2) buf[0] ^= 0x20;
        else buf[l++] = char('0' + o.b);
        if (MetaType{std::string_view{buf, l}}.valid()) sim::violation("identity", "a type is found under a name no type has");
        if (MetaType{MetaType_ID{}}.valid() || metaTypeId<void>().valid() || MetaType{}.valid()) sim::violation("identity", "the invalid identifier leads to a type");
        break;
    }
    case REREAD:
    {
        std::vector<Seen> v; { Mute m; v = S->seen[sim::tid()]; }
        for (auto const &s: v) { verify(s.t, s.e); if (s.t.typeId().value() != S->ids[size_t(s.e)][0]) sim::violation("identity", "a held descriptor changed its identifier"); }
        Mute m; std::vector<Seen>().swap(v);
        break;
    }
    case FINAL:
        for (int i = 0; i < N; ++i) { bool used; { Mute m; used = !S->ids[size_t(i)].empty() || ((i + o.a) % 5 == 0 && S->inv[size_t((*E)[size_t(i)].group)]); } if (used || i % 97 == o.a) first(o, i, 0); }
        for (int t = 0; t < sim::MAXT; ++t) for (auto const &s: S->seen[t]) verify(s.t, s.e);
        break;
    }
}
void exec(int, Op const &o) { guarded(o, [&] { exec1(o); }, true); }
void check(Plan const &)
{
    std::map<MetaType_ID::type, int> owner;
    for (size_t i = 0; i < E->size(); ++i)
        for (auto id: S->ids[i])
        {
            auto r = owner.emplace(id, int(i));
            if (!r.second && (*E)[size_t(r.first->second)].tag != (*E)[i].tag) sim::violation("identity", "two different types share an identifier");
        }
    for (size_t i = 0; i < E->size(); ++i) for (size_t j = 0; j < i; ++j)
        if (!S->ids[i].empty() && (*E)[i].tag == (*E)[j].tag && !S->ids[i].empty() && !S->ids[j].empty() && S->ids[i][0] != S->ids[j][0]) sim::violation("identity", "a type has two identifiers");
    for (auto const &l: S->looks)
    {
        auto n = (*E)[size_t(l.e)].name();
        auto inv = S->inv[size_t((*E)[size_t(l.e)].group)], done = S->done[size_t(l.e)];
        if (l.found && (!inv || inv > l.ret)) sim::violation("identity", "%.*s was found by name before anyone used it", int(n.size()), n.data());
        if (!l.found && done && done < l.inv) sim::violation("identity", "%.*s was in use but not found by its name", int(n.size()), n.data());
    }
    int used = 0; for (auto &v: S->ids) used += !v.empty();
    sim::rec(uint64_t(used));
}
void begin(Plan const &)
{
    S = new State;
    S->ids.resize(E->size()); S->inv.resize(size_t(groups)); S->done.resize(E->size());
}
int focus;
void setup(Rng &g, RunCfg const &, Plan &) { focus = g.chance(1, 4) ? twin_at + int(g.below(uint32_t(twin_per))) : int(g.below(uint32_t(E->n))); }
Op op(Rng &g, RunCfg const &, int)
{
    Op o;
    int r = int(g.below(100));
    auto pick = [&] { return g.chance(2, 3) ? focus + int(g.below(g.chance(1, 2) ? 3 : 21)) : int(g.below(uint32_t(E->n))); };
    o.a = pick();
    if (o.a >= twin_at && o.a < twin_at + twin_per && g.chance(1, 2)) o.a += twin_per;
    if (r < 40) { o.kind = FIRST; o.b = int(g.below(4)); }
    else if (r < 58) { o.kind = GROUP; o.b = int(1 + g.below(8)); o.c = g.chance(1, 2) ? 1 : g.chance(1, 2) ? 21 : int(g.below(50)); o.d = int(g.below(4)); }
    else if (r < 82) o.kind = NAME;
    else if (r < 88) { o.kind = MISS; o.b = int(g.below(6)); }
    else o.kind = REREAD;
    return o;
}
void fin(Rng &g, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; o.a = int(g.below(97)); p.fin.push_back(o); }
std::string show(Op const &o)
{
    std::string s = kind_name[o.kind % KINDS];
    if (o.kind == FIRST || o.kind == NAME || o.kind == MISS) s += " type #" + std::to_string(o.a);
    if (o.kind == GROUP) s += " #" + std::to_string(o.a) + " (" + std::to_string(o.b) + " types, step " + std::to_string(o.c) + ")";
    return s;
}
}
World const types = {"types", false, typesw::setup, typesw::op, typesw::fin, typesw::begin, typesw::exec, typesw::check, nullptr, typesw::show};
}
