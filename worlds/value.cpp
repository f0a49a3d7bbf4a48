// Value world: every thread owns a few value containers (and all share some constant ones) and puts them through every
// operation, with objects of all storage classes whose construction, copy, move and comparison can fail, and memory that
// can run out at any allocation.
//
// Oracle: a model of what each container holds. An operation that reports failure leaves every container (and a named
// source) as it was; one that succeeds has exactly its effect. Objects are tracked: constructed and destroyed once, used
// only in between, properly aligned, and objects held by reference or pointer are left alone.
#include "shared.h"
#include "tracked.h"
#include <rtti/metatype.h>
#include <rtti/metaclass.h>
#include <rtti/variant.h>
#include <cstring>
#include <functional>
#include <set>

namespace worlds { namespace valuew {

using namespace rtti;

enum Id { ID_SMALL = 50, ID_LARGE, ID_TMOVE, ID_COPY, ID_MOVE, ID_ARR, ID_ALIGN, ID_PIN, ID_NOEQ };
struct Hist;
enum { P_fail = 16, P_husk, P_growth, P_wrong, P_shared, P_noncopy };
extern Hist *H;

// In-place storage: the library relocates such values without ending the life of the moved-from object (recorded finding).
// Anything but a moved-from object in that state is a violation.
std::set<void const *> *husks;
bool strict() { return !strcmp(sim::prop(), "C11"); }
struct Small
{
    int v; int w;
    explicit Small(int x): v(x), w(~x) { sim::user_point(1); born(); }
    Small(Small const &o): v(o.read()), w(~v) { sim::user_point(1); born(); }
    Small(Small &&o) noexcept: v(o.read()), w(~v) { born(); o.v = MOVED; o.w = ~MOVED; Mute m; husks->insert(&o); }
    ~Small() { { Mute m; husks->erase(this); } sim::obj_dtor(this, ID_SMALL); }
    Small &operator=(Small const &) = delete;
    int read() const { if (!sim::obj_alive(this, ID_SMALL) || w != ~v) sim::violation("lifetime", "an object that does not exist was used"); return v; }
    bool operator==(Small const &o) const { sim::user_point(5); return read() == o.read(); }
private:
    void born()
    {
        Mute m;
        if (sim::obj_alive(this, ID_SMALL) && husks->count(this))
        {
            sim::probe(P_husk);
            if (strict()) sim::known(0, "swapping or moving a container relocates an in-place value without destroying the moved-from object");
            husks->erase(this); sim::obj_dtor(this, ID_SMALL);
        }
        sim::obj_ctor(this, ID_SMALL, v);
    }
};
using Large = Trk<ID_LARGE, 60>;
using TMove = Trk<ID_TMOVE, 4, false>;
struct CopyOnly: Trk<ID_COPY, 12> { using B = Trk<ID_COPY, 12>; explicit CopyOnly(int x): B(x) {} CopyOnly(CopyOnly const &o): B(o) {} };
struct MoveOnly: Trk<ID_MOVE, 40> { using B = Trk<ID_MOVE, 40>; explicit MoveOnly(int x): B(x) {} MoveOnly(MoveOnly &&) = default; MoveOnly(MoveOnly const &) = delete; };
struct Elem: Trk<ID_ARR, 6> { using Trk::Trk; Elem(): Trk(0) {} };
struct alignas(64) Aligned: Trk<ID_ALIGN, 8>
{
    using B = Trk<ID_ALIGN, 8>;
    explicit Aligned(int x): B((at(this), x)) {} Aligned(Aligned const &o): B((at(this), o)) {} Aligned(Aligned &&o) noexcept: B((at(this), std::move(o))) {}
    static void at(void const *p) { if (reinterpret_cast<uintptr_t>(p) % 64) sim::violation("lifetime", "an object was constructed at an address its type does not allow"); }
};
thread_local bool pin_copy;                                // the operation may copy the referenced object
struct Pin: Trk<ID_PIN, 12>
{
    using B = Trk<ID_PIN, 12>;
    explicit Pin(int x): B(x) {}
    Pin(Pin const &o): B(o) { if (!pin_copy) sim::violation("lifetime", "an object held by reference was copied"); }
    Pin(Pin &&o) noexcept: B(std::move(o)) { if (!pin_copy) sim::violation("lifetime", "an object held by reference was moved"); }
};
struct Seed { int v; explicit Seed(int x): v(x) {} };         // converts to everything tracked, with possible failure
struct NoEq
{
    int v; char pad[20];
    explicit NoEq(int x): v(x) { sim::user_point(1); sim::obj_ctor(this, ID_NOEQ, x); }
    NoEq(NoEq const &o): v(o.v) { sim::user_point(1); sim::obj_ctor(this, ID_NOEQ, v); }
    NoEq(NoEq &&o) noexcept: v(o.v) { sim::obj_ctor(this, ID_NOEQ, v); o.v = MOVED; }
    ~NoEq() { sim::obj_dtor(this, ID_NOEQ); }
    int read() const { if (!sim::obj_alive(this, ID_NOEQ)) sim::violation("lifetime", "an object that does not exist was used"); return v; }
};

enum K { INT, SMALL, LARGE, TMOVE, COPY, MOVE, ARR, ALIGN, STR, REF, PTR, NOEQ, CREF, DBL, NK };
char const *const kname[NK] = {"int", "small", "large", "throwing-move", "copy-only", "move-only", "array", "over-aligned", "string", "reference", "pointer", "not-comparable", "const reference", "double"};
template<int> struct kt;
template<> struct kt<INT> { using T = int; };
template<> struct kt<SMALL> { using T = Small; };
template<> struct kt<LARGE> { using T = Large; };
template<> struct kt<TMOVE> { using T = TMove; };
template<> struct kt<COPY> { using T = CopyOnly; };
template<> struct kt<MOVE> { using T = MoveOnly; };
template<> struct kt<ARR> { using T = Elem[3]; };
template<> struct kt<ALIGN> { using T = Aligned; };
template<> struct kt<STR> { using T = std::string; };
template<> struct kt<REF> { using T = Pin; };
template<> struct kt<PTR> { using T = Pin *; };
template<> struct kt<NOEQ> { using T = NoEq; };
template<> struct kt<CREF> { using T = Pin; };
template<> struct kt<DBL> { using T = double; };
template<int N> using num = std::integral_constant<int, N>;
template<typename F> void with(int k, F &&f)
{
    switch (k)
    {
    case INT: f(num<INT>{}); break; case SMALL: f(num<SMALL>{}); break; case LARGE: f(num<LARGE>{}); break; case TMOVE: f(num<TMOVE>{}); break;
    case COPY: f(num<COPY>{}); break; case MOVE: f(num<MOVE>{}); break; case ARR: f(num<ARR>{}); break; case ALIGN: f(num<ALIGN>{}); break;
    case STR: f(num<STR>{}); break; case REF: f(num<REF>{}); break; case PTR: f(num<PTR>{}); break; case NOEQ: f(num<NOEQ>{}); break;
    case CREF: f(num<CREF>{}); break; case DBL: f(num<DBL>{}); break;
    }
}

struct Model { int kind = -1; int val = 0; };              // REF, CREF, PTR: val = which target
constexpr int NS = 5, NTG = 2, NSH = 8;
struct Mine
{
    variant s[NS]; Model m[NS];
    Pin *target[NTG]; int tval[NTG];
    bool ready = false;
};
struct Hist { Mine *mine[sim::MAXT]; variant shared[NSH]; Model sm[NSH]; Pin *starget = nullptr; bool ready = false; };
Hist *H;
int const probes_ = sim::name_probes(P_fail, {"operation failed part-way and was compared with the model", "value relocated in place", "container of values grew", "access with a wrong type", "shared constant value read", "copy of a non-copyable value refused"});

std::string text(int v) { std::string s = std::to_string(v); while (s.size() < 40) s += '.'; return s; }
[[noreturn]] void bad(int k, char const *what) { sim::violation("value", "%s value: %s", kname[k], what); }

// a fresh object of the kind, named x, for the callback
template<int N, typename F> void fresh(Mine &me, int c, F &&f)
{
    using T = typename kt<N>::T;
    if constexpr (N == INT || N == DBL) { T x = T(c); f(x); }
    else if constexpr (N == ARR) { Elem x[3] = {Elem{c}, Elem{c + 1}, Elem{c + 2}}; f(x); }
    else if constexpr (N == STR) { std::string x = text(c); f(x); }
    else if constexpr (N == REF) { auto x = std::ref(*me.target[c % NTG]); f(x); }
    else if constexpr (N == CREF) { auto x = std::cref(*me.target[c % NTG]); f(x); }
    else if constexpr (N == PTR) { Pin *x = me.target[c % NTG]; f(x); }
    else { T x{c}; f(x); }
}
template<typename F> struct OnExit { F f; ~OnExit() { f(); } };
template<typename F> OnExit(F) -> OnExit<F>;
template<int N> int norm(int c) { return N == REF || N == PTR || N == CREF ? c % NTG : c; }
// does the object read as the model says?
template<int N, typename X> void same(Mine &me, X const &x, int val)
{
    if constexpr (N == INT || N == DBL) { if (x != X(val)) bad(N, "the value changed"); }
    else if constexpr (N == ARR) { for (int i = 0; i < 3; ++i) if (x[i].read() != val + i) bad(N, "an element changed"); }
    else if constexpr (N == STR) { if (x != text(val)) bad(N, "the text changed"); }
    else if constexpr (N == REF || N == CREF) { if (&x != me.target[val]) bad(N, "it refers to another object"); if (x.read() != me.tval[val]) bad(N, "the referenced object changed"); }
    else if constexpr (N == PTR) { if (x != me.target[val]) bad(N, "it points to another object"); }
    else { if (x.read() != val) bad(N, "the value changed"); if constexpr (N == ALIGN) Aligned::at(&x); }
}
void verify(Mine &me, variant const &v, Model const &m)
{
    if (v.empty() != (m.kind < 0)) sim::violation("value", m.kind < 0 ? "a container that should be empty holds something" : "a container lost its value");
    if (m.kind < 0) { if (v) sim::violation("value", "empty container says it is not"); return; }
    with(m.kind, [&](auto n) {
        constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
        if (!v.template is<T>()) bad(N, "the type changed");
        if (v.typeId() != metaTypeId<std::conditional_t<N == CREF, T const, T>>()) bad(N, "the type id is wrong");
        same<N>(me, v.template cref<T>(), m.val);
    });
}
void verify_all(Mine &me)
{
    sim::Calm calm;
    for (int i = 0; i < NS; ++i) verify(me, me.s[i], me.m[i]);
    for (int i = 0; i < NTG; ++i) if (me.target[i]->read() != me.tval[i]) sim::violation("value", "a referenced object changed");
}

enum Kind { SET_L, SET_R, CTOR_L, CTOR_R, COPYA, COPYC, MOVEA, SWAP, CLEAR, EQ, EQT, TO, MODIFY, TAKE, WRONG, MT, VEC, ARG, SHARED, SETUP, FINAL, EMPTY, CONVERT, EQCONV, KINDS };

// run one step; `effect` describes the model change on success. refused: an error of the library the step always ends with
template<typename F> bool step(Op const &o, F &&f, bool refused = false)
{
    bool got = false;
    bool ok = guarded(o, [&] { try { f(); } catch (rtti::runtime_error const &e) { if (sim::ours(e)) throw; got = true; if (!refused && !sim::fault_fired()) throw; } }, false);
    if (!ok || (got && !refused)) { sim::probe(P_fail); return false; }
    if (refused && !got) sim::violation("value", "an operation the type does not support succeeded");
    return !got;
}
bool comparable(int k) { return k != NOEQ; }
bool same_type(int a, int b) { auto n = [](int k) { return k == CREF ? int(REF) : k; }; return a >= 0 && b >= 0 && n(a) == n(b); }
bool equal(Mine &me, Model const &a, Model const &b)
{
    if (a.kind < 0 || b.kind < 0) return a.kind < 0 && b.kind < 0;
    if (!same_type(a.kind, b.kind)) return false;
    if (a.kind == REF || a.kind == CREF) return me.tval[a.val] == me.tval[b.val];
    return a.val == b.val;
}
void exec(int t, Op const &o)
{
    if (o.kind == SETUP)
    {
        for (int i = 0; i < NSH; ++i)
        {
            int k = (o.a + i * 3) % NK; if (k == REF || k == PTR || k == CREF) k = LARGE;
            with(k, [&](auto n) { constexpr int N = decltype(n)::value; fresh<N>(*H->mine[0], 900 + i, [&](auto &x) { if constexpr (N == ARR) { H->shared[i] = std::move(x); } else H->shared[i] = std::move(x); }); });
            H->sm[i] = {k, 900 + i};
        }
        H->ready = true;
        return;
    }
    if (o.kind == FINAL)
    {
        for (auto &v: H->shared) v.clear();
        H->ready = false;
        for (auto *m: H->mine) { for (int i = 0; i < NS; ++i) { verify(*m, m->s[i], m->m[i]); m->s[i].clear(); m->m[i] = {}; } }
        for (int id = ID_SMALL; id <= ID_NOEQ; ++id)
        {
            int left = sim::obj_count(id), want = id == ID_PIN ? sim::MAXT * NTG : id == ID_SMALL ? int(husks->size()) : 0;
            if (left != want) sim::violation("lifetime", "%d %s object(s) too many are still alive although every container is empty", left - want, id == ID_ARR ? "array element" : id == ID_SMALL ? "small" : "tracked");
        }
        if (strict() && !husks->empty()) sim::known(0, "swapping or moving a container relocates an in-place value without destroying the moved-from object");
        return;
    }
    Mine &me = *H->mine[t];
    int a = o.a % NS, b = o.b % NS, c = o.c;
    Model &ma = me.m[a], &mb = me.m[b];
    variant &va = me.s[a], &vb = me.s[b];
    switch (o.kind)
    {
    case SET_L: case SET_R: case CTOR_L: case CTOR_R:
        with(o.b % NK, [&](auto n) {
            constexpr int N = decltype(n)::value;
            bool r = o.kind == SET_R || o.kind == CTOR_R || N == MOVE, done = false;
            step(o, [&] { fresh<N>(me, c, [&](auto &x) {
                bool made = false;
                // a failed operation must not have touched its source either
                OnExit src{[&] { if (made && r) return; sim::Calm calm; if constexpr (N == REF || N == CREF) { if (&x.get() != me.target[c % NTG]) bad(N, "the source changed"); } else same<N>(me, x, norm<N>(c)); }};
                if constexpr (N == MOVE) { if (o.kind == CTOR_R) { variant v{std::move(x)}; made = true; va = std::move(v); } else { va = std::move(x); made = true; } }
                else if (o.kind == SET_L) { va = x; made = true; }
                else if (o.kind == SET_R) { va = std::move(x); made = true; }
                else if (o.kind == CTOR_L) { variant v{x}; made = true; va = std::move(v); }
                else { variant v{std::move(x)}; made = true; va = std::move(v); }
                done = true;
            }); });
            if (done) ma = {N, norm<N>(c)};
        });
        break;
    case COPYA: if (step(o, [&] { va = vb; }, mb.kind == MOVE && a != b)) ma = mb; else if (mb.kind == MOVE) sim::probe(P_noncopy); break;
    case COPYC:
        if (step(o, [&] { variant v{vb}; { sim::Calm calm; verify(me, v, mb); } va = v; }, mb.kind == MOVE)) ma = mb;
        break;
    case MOVEA:
        if (o.c & 1) { variant v{std::move(vb)}; if (!vb.empty()) sim::violation("value", "a moved-from container is not empty"); va = std::move(v); if (a != b) { ma = mb; mb = {}; } }
        else { va = std::move(vb); if (a != b) { ma = mb; mb = {}; } }
        break;
    case SWAP: { using std::swap; if (o.c & 1) std::swap(va, vb); else swap(va, vb); std::swap(ma, mb); break; }
    case CLEAR: va.clear(); ma = {}; break;
    case EMPTY: { variant e; va = o.c & 1 ? variant{} : e; ma = {}; break; }
    case EQ:
    {
        bool r = false, thr = ma.kind == NOEQ && mb.kind == NOEQ;
        if (step(o, [&] { r = o.c & 1 ? !(va != vb) : va == vb; }, thr) && r != equal(me, ma, mb)) sim::violation("value", "comparing %s with %s gives %s", ma.kind < 0 ? "nothing" : kname[ma.kind], mb.kind < 0 ? "nothing" : kname[mb.kind], r ? "equal" : "different");
        break;
    }
    case EQT:
        with(o.b % NK, [&](auto n) {
            constexpr int N = decltype(n)::value;
            if constexpr (N != REF && N != CREF)
            {
                bool r = false; Model mx{N, norm<N>(c)};
                if (same_type(ma.kind, N) && (o.d & 2)) { mx.val = ma.val; }
                if (step(o, [&] { fresh<N>(me, mx.val, [&](auto &x) { r = (o.d & 1) ? va.eq(x) : va == x; sim::Calm calm; same<N>(me, x, mx.val); }); }, N == NOEQ && ma.kind == NOEQ) && r != equal(me, ma, mx))
                    sim::violation("value", "comparing %s with a %s gives %s", ma.kind < 0 ? "nothing" : kname[ma.kind], kname[N], r ? "equal" : "different");
            }
        });
        break;
    case TO:
        if (ma.kind < 0) { bool r = false; step(o, [&] { try { va.to<int>(); } catch (bad_variant_convert const &) { r = true; throw; } }, true); break; }
        with(ma.kind, [&](auto n) {
            constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
            if constexpr (N != ARR)
            {
                pin_copy = true;
                step(o, [&] {
                    auto see = [&](auto const &x) { sim::Calm calm; if constexpr (N == REF || N == CREF) { if (x.read() != me.tval[ma.val]) bad(N, "the copy differs"); } else same<N>(me, x, ma.val); };
                    if (o.c & 1) { auto x = va.template to<T>(); see(x); } else { auto x = static_cast<variant const &>(va).template to<T>(); see(x); }
                }, N == MOVE);
                pin_copy = false;
            }
        });
        break;
    case MODIFY:
        if (ma.kind < 0) break;
        with(ma.kind, [&](auto n) {
            constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
            if constexpr (N == INT || N == DBL) { if (step(o, [&] { va.template ref<T>() = T(c); })) ma.val = c; }
            else if constexpr (N == LARGE || N == ALIGN) { if (step(o, [&] { va.template ref<T>().v = c; })) ma.val = c; }
            else if constexpr (N == STR) { if (step(o, [&] { auto s = text(c); va.template ref<T>() = s; })) ma.val = c; }
            else if constexpr (N == REF) { if (step(o, [&] { va.template ref<Pin>().v = c; })) me.tval[ma.val] = c; }
            else if constexpr (N == CREF) { step(o, [&] { va.template ref<Pin>().v = c; }, true); sim::Calm calm; if (va.template data<Pin>()) bad(N, "a reference to a constant gives write access"); }
            else if constexpr (N == ARR) { if (step(o, [&] { auto &x = va.template ref<T>(); for (int i = 0; i < 3; ++i) x[i].v = c + i; })) ma.val = c; }
            else if constexpr (N == PTR) { if (step(o, [&] { va.template ref<T>() = me.target[c % NTG]; })) ma.val = c % NTG; }
        });
        break;
    case TAKE:                                              // move the object out
        if (ma.kind < 0) break;
        with(ma.kind, [&](auto n) {
            constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
            if constexpr (N == LARGE || N == TMOVE || N == MOVE || N == NOEQ)
            {
                bool moved = false;
                step(o, [&] { T x{std::move(va).template rref<T>()}; moved = true; sim::Calm calm; same<N>(me, x, ma.val); });
                if (moved) ma.val = MOVED;
            }
        });
        break;
    case WRONG:
        sim::probe(P_wrong);
        with(o.b % NK, [&](auto n) {
            constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
            if (same_type(ma.kind, N) || (N == REF && ma.kind == PTR)) return;
            auto fails = [&](auto &&f, bool convert) {
                bool err = false;
                guarded(o, [&] { try { f(); } catch (bad_variant_convert const &) { err = convert || sim::fault_fired(); if (!err) throw; } catch (bad_variant_cast const &e) { if (sim::ours(e)) throw; err = !convert || sim::fault_fired(); if (!err) throw; } }, false);
                if (!err && !sim::fault_fired()) sim::violation("value", "a %s could be read from a container of %s", kname[N], ma.kind < 0 ? "nothing" : kname[ma.kind]);
            };
            switch (c % 6)
            {
            case 0: fails([&] { va.template ref<T>(); }, false); break;
            case 1: fails([&] { va.template cref<T>(); }, false); break;
            case 2: fails([&] { std::move(va).template rref<T>(); }, false); break;
            case 3: if constexpr (N != ARR) { fails([&] { va.template to<T>(); }, true); } break;
            case 4: if constexpr (N != ARR && N != MOVE && N != CREF && N != REF) { fails([&] { va.template convert<T>(); }, true); } break;
            case 5: { bool r = false; guarded(o, [&] { r = va.template data<T>() != nullptr || va.template is<T>(); if constexpr (N != ARR && N != MOVE && N != REF && N != CREF) r = r || va.template tryConvert<T>(); }, false); if (r) sim::violation("value", "a %s could be read from a container of %s", kname[N], ma.kind < 0 ? "nothing" : kname[ma.kind]); break; }
            }
        });
        break;
    case MT:
        with(o.b % NK, [&](auto n) {
            constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
            if constexpr (N != REF && N != CREF && N != PTR)
            {
                constexpr bool copyable = N != MOVE;
                constexpr bool dflt = N == INT || N == DBL || N == STR || N == ARR;
                int how = o.d % 3;
                if (how == 0) step(o, [&] { auto mt = metaType<T>(); void *p = mt.construct(); if (!p) bad(N, "nothing was constructed"); if constexpr (N == STR) { sim::Calm calm; if (!static_cast<std::string *>(p)->empty()) bad(N, "not default constructed"); } if constexpr (N == ARR) { sim::Calm calm; for (int i = 0; i < 3; ++i) if ((*static_cast<Elem(*)[3]>(p))[i].read() != 0) bad(N, "an element was not constructed"); } mt.destruct(p); }, !dflt);
                else step(o, [&] { fresh<N>(me, c, [&](auto &x) {
                    auto mt = metaType<T>();
                    void *p = nullptr; bool made = false;
                    OnExit src{[&] { if (!made) { sim::Calm calm; same<N>(me, x, c); } }};
                    p = mt.construct(&x, how == 2);
                    made = how == 2;
                    { sim::Calm calm; if (!p) bad(N, "nothing was constructed"); same<N>(me, *static_cast<T *>(p), c); }
                    mt.destruct(p);
                }); }, how == 1 && !copyable);
            }
        });
        break;
    case VEC:
    {
        bool nc = false; for (auto &m: me.m) if (m.kind == MOVE) nc = true;
        sim::probe(P_growth);
        step(o, [&] {
            std::vector<variant> v; std::vector<Model> m;
            for (int i = 0; i < NS; ++i) { v.push_back(me.s[(i + c) % NS]); Mute q; m.push_back(me.m[(i + c) % NS]); }
            if (o.b & 1) { v.insert(v.begin() + 1, v[3]); Mute q; m.insert(m.begin() + 1, Model(m[3])); }
            if (o.b & 2) { v.erase(v.begin()); Mute q; m.erase(m.begin()); }
            if (o.b & 4) { std::vector<variant> w(v); v.swap(w); }
            { sim::Calm calm; for (size_t i = 0; i < v.size(); ++i) verify(me, v[i], m[i]); }
            Mute q; m = {};
        }, nc);
        break;
    }
    case ARG:                                               // the way values travel into calls
        with(o.b % NK, [&](auto n) {
            constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
            if constexpr (N != REF && N != CREF && N != ARR && N != PTR)
            {
                bool moved = false;
                step(o, [&] { fresh<N>(me, c, [&](auto &x) {
                    switch (o.d % 6)
                    {
                    case 0: { argument g{x}; auto &r = g.template value<T &>(); if (&r != &x) bad(N, "an argument refers to another object"); break; }
                    case 1: { argument g{x}; auto &r = g.template value<T const &>(); if (&r != &x) bad(N, "an argument refers to another object"); break; }
                    case 2: if constexpr (N != MOVE) { argument g{x}; auto r = g.template value<T>(); sim::Calm calm; same<N>(me, r, c); } else { argument g{x}; auto &r = g.template value<T &>(); (void)r; } break;
                    case 3: { argument g{std::move(x)}; T y{g.template value<T &&>()}; moved = true; sim::Calm calm; same<N>(me, y, c); break; }
                    case 4: { argument g{va}; if (same_type(ma.kind, N) && N != MOVE) { if constexpr (N != MOVE) { auto y = g.template value<T>(); sim::Calm calm; same<N>(me, y, ma.val); } } else { argument h{x}; auto &r = h.template value<T const &>(); sim::Calm calm; same<N>(me, r, c); } break; }
                    default: { argument g{va}; if (same_type(ma.kind, N)) { auto &r = g.template value<T const &>(); if (&r != &va.template cref<T>()) bad(N, "an argument made a copy"); auto &w = g.template value<T &>(); (void)w; } break; }
                    }
                    if (!moved) { sim::Calm calm; same<N>(me, x, c); }
                }); });
            }
        });
        break;
    case CONVERT:                                           // replace a value by its conversion
        with(o.b % NK, [&](auto n) {
            constexpr int N = decltype(n)::value; using T = typename kt<N>::T;
            if constexpr (N == SMALL || N == LARGE || N == TMOVE || N == COPY || N == ALIGN || N == STR)
            {
                variant v;
                { sim::Calm calm; v = Seed{c}; }
                auto is_seed = [&] { sim::Calm calm; if (!v.is<Seed>() || v.cref<Seed>().v != c) bad(N, "a failed conversion lost the value it should have replaced"); };
                bool done = false, said = true;
                step(o, [&] {
                    switch (o.d % 4)
                    {
                    case 0: v.convert<T>(); done = true; break;
                    case 1: done = said = v.tryConvert<T>(); break;
                    case 2: { T x{v.to<T>()}; sim::Calm calm; same<N>(me, x, c); break; }
                    default: { T x{static_cast<variant const &>(v).to<T>()}; { sim::Calm calm; same<N>(me, x, c); } v = x; done = true; break; }
                    }
                });
                if (!said && !sim::fault_fired()) bad(N, "a conversion failed for no reason");
                if (!done) { is_seed(); if (!said) sim::probe(P_fail); }
                else { sim::Calm calm; verify(me, v, {N, c}); va = std::move(v); ma = {N, c}; }
            }
        });
        break;
    case EQCONV:                                            // comparison of different types through a converter, either way round
        with(o.b % NK, [&](auto n) {
            constexpr int N = decltype(n)::value;
            if constexpr (N == SMALL || N == LARGE || N == TMOVE || N == COPY || N == ALIGN || N == STR)
            {
                variant v; int d = o.d & 4 ? c : c + 1; bool r = false, ok = false;
                { sim::Calm calm; if (o.d & 1) v = Seed{c}; else fresh<N>(me, c, [&](auto &x) { v = x; }); }
                ok = step(o, [&] {
                    if (o.d & 1) fresh<N>(me, d, [&](auto &x) { r = o.d & 2 ? v.eq(x) : !v.neq(x); sim::Calm calm; same<N>(me, x, d); });
                    else { Seed s{d}; r = o.d & 2 ? v.eq(s) : !v.neq(s); }
                });
                if (ok && !sim::fault_fired() && r != (c == d)) sim::violation("value", "comparing a %s with what converts to it gives %s", kname[N], r ? "equal" : "different");
                sim::Calm calm;
                if (o.d & 1) { if (!v.is<Seed>() || v.cref<Seed>().v != c) bad(N, "a comparison changed the value"); } else verify(me, v, {N, c});
            }
        });
        break;
    case SHARED:
    {
        if (!H->ready) break;
        sim::probe(P_shared);
        int i = o.a % NSH, j = o.b % NSH;
        variant const &v = H->shared[i]; Model const &m = H->sm[i];
        switch (c % 5)
        {
        case 0: { sim::Calm calm; verify(me, v, m); break; }
        case 1: if (m.kind != MOVE) step(o, [&] { variant w{v}; sim::Calm calm; verify(me, w, m); }); break;
        case 2: { bool r = false; if (step(o, [&] { r = v == H->shared[j]; }, m.kind == NOEQ && H->sm[j].kind == NOEQ) && r != equal(me, m, H->sm[j])) sim::violation("value", "comparing shared values gives %d", int(r)); break; }
        case 3: if (m.kind != MOVE && a < NS) { if (step(o, [&] { va = v; })) ma = m; } break;
        default: with(m.kind, [&](auto n) { constexpr int N = decltype(n)::value; using T = typename kt<N>::T; if constexpr (N != ARR && N != MOVE && N != REF && N != CREF) step(o, [&] { auto x = v.template to<T>(); sim::Calm calm; same<N>(me, x, m.val); }); }); break;
        }
        break;
    }
    }
    verify_all(me);
    sim::rec(uint64_t(ma.kind * 1000003 + ma.val));
}
template<int N> void converter()
{
    using T = typename kt<N>::T;
    MetaType::registerConverter<Seed, T>([](Seed const &s) { sim::user_point(3); if constexpr (N == STR) return text(s.v); else return T{s.v}; });
}
void begin(Plan const &p)
{
    converter<SMALL>(); converter<LARGE>(); converter<TMOVE>(); converter<COPY>(); converter<ALIGN>(); converter<STR>();
    H = new Hist; husks = new std::set<void const *>;
    for (auto &m: H->mine) { m = new Mine; for (int i = 0; i < NTG; ++i) { m->target[i] = new Pin(500 + i); m->tval[i] = 500 + i; } }
    if (p.cfg[4] & 1)                                       // types known before anything fails
        for (int k = 0; k < NK; ++k) with(k, [&](auto n) { using T = typename kt<decltype(n)::value>::T; metaTypeId<T>(); metaTypeId<T &>(); metaTypeId<T const &>(); metaTypeId<T &&>(); metaTypeId<T const>(); });
}
void check(Plan const &) {}
int favour[3];
void setup(Rng &g, RunCfg const &, Plan &p)
{
    p.cfg[4] = int(g.below(2));
    for (auto &f: favour) f = int(g.below(NK));
    Op o; o.kind = SETUP; o.a = int(g.below(NK)); if (g.chance(2, 3)) p.setup.push_back(o);
}
Op op(Rng &g, RunCfg const &, int)
{
    static int const weight[] = {10, 10, 6, 6, 9, 6, 10, 8, 3, 8, 8, 8, 7, 4, 6, 8, 4, 8, 5};
    int total = 0; for (int w: weight) total += w;
    Op o; int r = int(g.below(uint32_t(total)));
    for (o.kind = 0; r >= weight[o.kind]; ++o.kind) r -= weight[o.kind];
    if (g.chance(1, 60)) o.kind = EMPTY;
    if (g.chance(1, 16)) o.kind = CONVERT;
    if (g.chance(1, 20)) o.kind = EQCONV;
    o.a = int(g.below(NS));
    bool takes_kind = o.kind >= CONVERT || o.kind <= CTOR_R || o.kind == EQT || o.kind == WRONG || o.kind == MT || o.kind == ARG;
    o.b = takes_kind ? (g.chance(2, 3) ? favour[g.below(3)] : int(g.below(NK))) : int(g.below(o.kind == VEC ? 8 : NS));
    o.c = int(g.below(90)); o.d = int(g.below(60));
    if (o.kind == SHARED) { o.a = int(g.below(40)); o.b = int(g.below(40)); }
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; p.fin.push_back(o); }
std::string show(Op const &o)
{
    char const *const n[] = {"assign lvalue", "assign rvalue", "construct from lvalue", "construct from rvalue", "copy-assign", "copy-construct", "move", "swap", "clear", "compare", "compare with value", "copy out", "modify in place", "move out", "access as wrong type", "MetaType construct/destruct", "vector of containers", "argument", "read shared constant", "make shared constants", "clear everything", "assign empty", "convert in place", "compare through a converter"};
    bool takes_kind = o.kind >= CONVERT || o.kind <= CTOR_R || o.kind == EQT || o.kind == WRONG || o.kind == MT || o.kind == ARG;
    std::string s = n[o.kind]; s += " slot " + std::to_string(o.a);
    s += takes_kind ? std::string(" ") + kname[o.b % NK] : " slot " + std::to_string(o.b);
    return s + " c=" + std::to_string(o.c) + " d=" + std::to_string(o.d);
}
}
World const value = {"value", true, valuew::setup, valuew::op, valuew::fin, valuew::begin, valuew::exec, valuew::check, nullptr, valuew::show};
}
