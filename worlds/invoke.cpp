// Reflection world: threads call registered methods and constructors and use registered properties with every kind of
// argument and instance, while other methods register and a converter comes and goes, and while copies, conversions,
// targets and allocations fail.
//
// Oracle: every target reports its runs (which one, on which object, with which arguments). A call that returns ran
// exactly the named target once with the arguments and instance given and hands back its result; a call that C++ would
// not allow (constness, value category, type, count) is an error and runs nothing; other errors need an injected fault.
#include "shared.h"
#include "tracked.h"
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/variant.h>
#include <functional>
#include <cstring>

namespace worlds { namespace invokew {

using namespace rtti;

enum { P_badcount = 24, P_refused, P_target_threw, P_result_lost, P_flaky_yes, P_flaky_no, P_late, P_nested };
int const probes_ = sim::name_probes(P_badcount, {"call with a wrong number of arguments", "call C++ would not allow refused", "target threw", "result of a completed call lost to a failure", "call used a converter that comes and goes", "call failed because the converter was gone", "method registered meanwhile called", "target calls another one reflectively"});

enum { ID_ARG = 60 };
struct Arg: Trk<ID_ARG, 24>
{
    using B = Trk<ID_ARG, 24>;
    explicit Arg(int x): B(x) {}
    Arg(Arg const &o): B(o) {}
    Arg(Arg &&o) noexcept: B(std::move(o)) {}
    Arg &operator=(Arg const &) = default;
    Arg &operator=(Arg &&) = default;
};
struct Flaky { int v; };                                    // its converter to Arg comes and goes
struct Never { int v; };                                    // no converter at all

// ------------------------------------------------------------------------------------------------ what targets report
struct Frame
{
    int runs = 0, id = -1, n = 0;
    void const *self = nullptr;
    int val[10]; void const *addr[10];
    bool threw = false;
    bool conv = false;                                      // a converter ran (its failures are reported as conversion errors)
};
Frame *cur[sim::MAXT];
void converting() { if (auto *f = cur[sim::tid()]) f->conv = true; }
enum Target { SVAL, SCREF, SLREF, SRREF, S3, S10, SFUNC, SINT, SVOID0, SNEST, SREF, SCREFR, SOBJ, SPTR, SLATE,
              MGET, MSET, MREF, MCREF, MV0, MV1, MI1, MRV, MVOIDC, MVOID, M9, MZ, CDEF, CCOPY, CMOVE, CARG, CINT2, PGET, PSET, DECOY };
char const *const target_name[] = {"value function", "const reference function", "reference function", "rvalue function", "three-parameter function", "ten-parameter function", "function object", "int function", "void function", "nesting function", "reference-returning function", "const-reference-returning function", "object function", "pointer function", "late function",
    "const method", "method", "reference-returning method", "const-reference-returning method", "virtual method", "overridden virtual method", "derived method", "rvalue method", "const void method", "void method", "nine-parameter method", "unrelated method", "default constructor", "copy constructor", "move constructor", "constructor from Arg", "constructor from two", "getter", "setter", "replaced target"};

void reported(Target id, void const *self, std::initializer_list<std::pair<int, void const *>> args)
{
    auto *f = cur[sim::tid()];
    if (!f) sim::violation("call", "the %s ran although nobody called it", target_name[id]);
    ++f->runs; f->id = id; f->self = self; f->n = 0;
    for (auto &a: args) { f->val[f->n] = a.first; f->addr[f->n++] = a.second; }
    if (f->runs > 1) sim::violation("call", "the %s ran twice for one call", target_name[id]);
    try { sim::user_point(6); } catch (...) { f->threw = true; sim::probe(P_target_threw); throw; }
}
template<typename... A> void hit(Target id, void const *self, A const &...a) { reported(id, self, {{a.read(), static_cast<void const *>(&a)}...}); }

Arg f_val(Arg a) { hit(SVAL, nullptr, a); return Arg{a.v + 1}; }
Arg f_cref(Arg const &a) { hit(SCREF, nullptr, a); return Arg{a.v + 2}; }
int f_lref(Arg &a) { hit(SLREF, nullptr, a); a.v += 100; return a.v; }
Arg f_rref(Arg &&a) { hit(SRREF, nullptr, a); return Arg{std::move(a)}; }
void f_3(Arg a, Arg const &b, Arg &c) { hit(S3, nullptr, a, b, c); c.v += 100; }
int f_10(int a, int b, int c, int d, int e, int f, int g, int h, int i, Arg const &j) { reported(S10, nullptr, {{a, 0}, {b, 0}, {c, 0}, {d, 0}, {e, 0}, {f, 0}, {g, 0}, {h, 0}, {i, 0}, {j.read(), 0}}); return a + b + c + d + e + f + g + h + i + j.v; }
Arg f_func(Arg const &a) noexcept(false) { hit(SFUNC, nullptr, a); return Arg{a.v + 5}; }
int f_int(int x) { reported(SINT, nullptr, {{x, nullptr}}); return x * 2; }
void f_void0(Arg const &a) { hit(SVOID0, nullptr, a); }
Arg *per_thread[sim::MAXT];
Arg &f_ref(Arg const &a) { hit(SREF, nullptr, a); return *per_thread[sim::tid()]; }
Arg const &f_crefr(Arg const &a) { hit(SCREFR, nullptr, a); return *per_thread[sim::tid()]; }
int f_nest(Arg const &a);
Arg decoy(Arg a) { hit(DECOY, nullptr, a); return a; }
Arg decoy_c(Arg const &a) { hit(DECOY, nullptr, a); return a; }

struct Front { long pad = 7; virtual ~Front() = default; };
struct I0
{
    DECLARE_CLASSINFO
public:
    Arg a; int n; int const k; Arg g;
    I0(): a(1), n(2), k(3), g(4) { reported_ctor(CDEF, {}); }
    I0(I0 const &o): a(o.a), n(o.n), k(o.k), g(o.g) { copied(o); }
    I0(I0 &&o) noexcept: a(std::move(o.a)), n(o.n), k(o.k), g(std::move(o.g)) {}
    explicit I0(Arg const &x): a(x), n(2), k(3), g(4) { reported_ctor(CARG, {{x.read(), &x}}); }
    I0(int x, Arg y): a(y), n(x), k(3), g(4) { reported_ctor(CINT2, {{x, nullptr}, {y.read(), nullptr}}); }
    virtual ~I0() = default;
    Arg mget(Arg const &x) const { hit(MGET, this, x); return Arg{a.read() + x.v}; }
    int mset(Arg x) { hit(MSET, this, x); a.v = x.v; return a.v; }
    Arg &mref(Arg const &x) { hit(MREF, this, x); return a; }
    Arg const &mcref(Arg const &x) const { hit(MCREF, this, x); return a; }
    int mrv(Arg &&x) { hit(MRV, this, x); Arg y{std::move(x)}; return y.v; }
    virtual int mv(Arg const &x) const { hit(MV0, this, x); return 0; }
    void mvoidc(Arg const &x) const { hit(MVOIDC, this, x); }
    void mvoid(Arg x) { hit(MVOID, this, x); a.v = x.v; }
    int m9(int a0, int b, int c, int d, int e, int f, int g_, int h, Arg const &j) const { reported(M9, this, {{a0, 0}, {b, 0}, {c, 0}, {d, 0}, {e, 0}, {f, 0}, {g_, 0}, {h, 0}, {j.read(), &j}}); return a0 + b + c + d + e + f + g_ + h + j.v; }
    Arg const &get_g() const { reported(PGET, this, {}); return g; }
    void set_g(Arg const &x) { hit(PSET, this, x); g.v = x.v; }
    static bool quiet;                                      // constructions that are not calls
private:
    void reported_ctor(Target t, std::initializer_list<std::pair<int, void const *>> args) { if (!sim_quiet()) reported(t, this, args); }
    void copied(I0 const &) {}
    static bool sim_quiet();
};
bool counting[sim::MAXT];
bool I0::sim_quiet() { return !counting[sim::tid()]; }
struct I1: Front, I0
{
    DECLARE_CLASSINFO
public:
    I1() {}
    int mv(Arg const &x) const override { hit(MV1, static_cast<I0 const *>(this), x); return 1; }
    int mi1(Arg const &x) const { hit(MI1, this, x); return 5; }
};
struct Z { DECLARE_CLASSINFO public: int z = 9; virtual ~Z() = default; int mz(Arg const &x) { hit(MZ, this, x); return 6; } };
struct Unreg { int u = 1; };
int f_obj(I0 const &o, Arg const &x) { reported(SOBJ, nullptr, {{o.a.read(), &o}, {x.read(), &x}}); return o.a.v; }
int f_ptr(I0 *o) { reported(SPTR, nullptr, {{o->a.read(), o}}); return o->a.v; }

int const const_static = 77;
int int_static[sim::MAXT];

// ------------------------------------------------------------------------------------------------ world state
struct Hist
{
    bool ready = false;
    I0 *o0[sim::MAXT]; I1 *o1[sim::MAXT]; Z *z[sim::MAXT];
    int late = 0;                                           // late functions surely registered
    int base_args = 0;
};
Hist *H;
char const *const ps_name[sim::MAXT] = {"ps0", "ps1", "ps2", "ps3", "ps4", "ps5"};
char const *const pi_name[sim::MAXT] = {"pi0", "pi1", "pi2", "pi3", "pi4", "pi5"};
constexpr int NLATE = 6;
char const *const late_name[NLATE] = {"late0", "late1", "late2", "late3", "late4", "late5"};

template<int N> Arg f_late(Arg const &a) { hit(SLATE, nullptr, a); return Arg{a.v + 10 + N}; }
template<int N = 0> void define_late(int n) { if (n == N) { auto d_ = global_define(); auto d = d_._namespace("_iv"); d._method(late_name[N], &f_late<N>); } else if constexpr (N + 1 < NLATE) define_late<N + 1>(n); }

void define()
{
    auto d_ = global_define(); auto d = d_._namespace("_iv");
    d._method("sval", &f_val)._method("scref", &f_cref)._method("slref", &f_lref)._method("srref", &f_rref)._method("s3", &f_3)._method("s10", &f_10)
     ._method("sfunc", &f_func)._method("sint", &f_int)._method("svoid", &f_void0)._method("snest", &f_nest)._method("sref", &f_ref)._method("screfr", &f_crefr)
     ._method("sobj", &f_obj)._method("sptr", &f_ptr);
    d._property("pc", &const_static);
    for (int t = 0; t < sim::MAXT; ++t) d._property(ps_name[t], per_thread[t])._property(pi_name[t], &int_static[t]);
    auto k0 = d._class<I0>("_I0");
    k0._constructor<Arg const &>("ca")._constructor<int, Arg>("cia");
    k0._method("mget", &I0::mget)._method("mset", &I0::mset)._method("mref", &I0::mref)._method("mcref", &I0::mcref)._method("mrv", &I0::mrv)._method("mv", &I0::mv)._method("mvoidc", &I0::mvoidc)._method("mvoid", &I0::mvoid)._method("m9", &I0::m9);
    k0._property("a", &I0::a)._property("n", &I0::n)._property("k", &I0::k)._property("g", &I0::get_g, &I0::set_g);
    auto e_ = global_define(); auto e = e_._namespace("_iv");
    auto k1 = e._class<I1>("_I1");
    k1._base<I0>()._method("mi1", &I1::mi1);
    auto h_ = global_define(); auto h = h_._namespace("_iv");
    auto kz = h._class<Z>("_Z");
    kz._method("mz", &Z::mz);
}
// the same signatures again with other targets: must change nothing
void redefine(int what)
{
    auto d_ = global_define(); auto d = d_._namespace("_iv");
    switch (what % 4)
    {
    case 0: d._method("sval", &decoy); break;
    case 1: d._method("scref", &decoy_c); break;
    case 2: d._method("sfunc", &decoy_c); break;
    default: { auto k = d._class<I0>("_I0"); k._property("n", &I0::k); break; }
    }
}
MetaNamespace const *ns() { auto *n = MetaNamespace::global()->getNamespace("_iv"); if (!n) sim::violation("call", "the namespace is gone"); return n; }
MetaMethod const *method(char const *name, int how)
{
    MetaMethod const *m = ns()->getMethod(name);
    if (!m) return m;
    if (how & 1) { auto *x = ns()->getMethod(m->name()); if (x != m) sim::violation("call", "the full signature does not find the method its name finds"); }
    return m;
}
MetaClass const *cls(int t) { auto *c = t == 0 ? MetaClass::find(metaTypeId<I0>()) : t == 1 ? MetaClass::find(metaTypeId<I1>()) : MetaClass::find(metaTypeId<Z>()); if (!c) sim::violation("call", "a class is gone"); return c; }

// ------------------------------------------------------------------------------------------------ judging one call
enum { YES, NO, MAYBE };                                    // does C++ allow it? MAYBE: depends on the flaky converter
struct Call
{
    Frame f; Frame *prev; int t; bool was;
    explicit Call(int t, bool ctor = false): prev(cur[t]), t(t), was(counting[t]) { cur[t] = &f; counting[t] = ctor; }
    ~Call() { cur[t] = prev; counting[t] = was; }
};
// runs the call and judges errors; true: it returned
template<typename F> bool attempt(Op const &o, Call &c, int can, char const *what, F &&call)
{
    bool ok = false, error = false;
    guarded(o, [&] { try { call(); ok = true; } catch (rtti::runtime_error const &e) { if (sim::ours(e)) throw; error = true; } }, false);
    if (ok)
    {
        if (can == NO) sim::violation("call", "%s: a call that must be refused was accepted", what);
        if (c.f.runs != 1) sim::violation("call", "%s: the call returned but its target ran %d times", what, c.f.runs);
        if (c.f.threw) sim::violation("call", "%s: the target threw but the call returned", what);
        return true;
    }
    if (error)
    {
        if (c.f.runs && !sim::fault_fired()) sim::violation("call", "%s: the call was reported as an error but the target ran", what);
        if (c.f.threw) sim::violation("call", "%s: the target's exception was replaced", what);
        if (can == YES && !(sim::fault_fired() && c.f.conv)) sim::violation("call", sim::fault_fired() ? "%s: another error was reported in place of a failure that is not a converter's" : "%s: a valid call was refused", what);
        if (can == NO) sim::probe(P_refused);
        if (can == MAYBE) sim::probe(P_flaky_no);
    }
    if (can == NO && c.f.runs) sim::violation("call", "%s: a refused call ran the target", what);
    if (c.f.runs && !c.f.threw) sim::probe(P_result_lost);
    return false;
}
void expect_arg(Call &c, int i, int val, void const *addr, char const *what)
{
    if (c.f.val[i] != val) sim::violation("call", "%s: the target got %d as argument %d instead of %d", what, c.f.val[i], i, val);
    if (addr && c.f.addr[i] != addr) sim::violation("call", "%s: the target got another object as argument %d", what, i);
}
template<typename T> T const &result_of(variant const &r, char const *what)
{
    if (r.typeId() != metaTypeId<T>()) sim::violation("call", "%s: the result has another type", what);
    return r.cref<T>();
}

// ------------------------------------------------------------------------------------------------ arguments
enum Mode { A_LV, A_RV, A_CLV, A_VLV, A_VC, A_VRV, A_INT, A_INTR, A_FLAKY, A_NEVER, A_EMPTY, A_VREF, A_VCREF, A_VINT, A_STR, A_MODES };
char const *const mode_name[] = {"lvalue", "rvalue", "const lvalue", "variant", "const variant", "rvalue variant", "int", "int rvalue", "value with flaky converter", "value without converter", "empty variant", "variant of reference", "variant of const reference", "rvalue variant of int", "string"};
enum PK { P_VAL, P_CREF, P_LREF, P_RREF };
int allowed(int mode, int pk)
{
    static int const table[A_MODES][4] = {
        /* lvalue   */ {YES, YES, YES, NO}, /* rvalue */ {YES, YES, NO, YES}, /* const lvalue */ {YES, YES, NO, NO},
        /* variant  */ {YES, YES, YES, NO}, /* const variant */ {YES, YES, NO, NO}, /* rvalue variant */ {YES, YES, NO, YES},
        /* int      */ {YES, YES, NO, NO}, /* int rvalue */ {YES, YES, NO, YES}, /* flaky */ {MAYBE, MAYBE, NO, MAYBE},
        /* never    */ {NO, NO, NO, NO}, /* empty */ {NO, NO, NO, NO}, /* vref */ {YES, YES, YES, NO}, /* vcref */ {YES, YES, NO, NO},
        /* rv int   */ {YES, YES, NO, YES}, /* string */ {NO, NO, NO, NO}};
    return table[mode][pk];
}
bool identity(int mode, int pk) { return pk != P_VAL && (mode <= A_VRV || mode == A_VREF || mode == A_VCREF); }
// calls f(argument) with an argument of the mode whose value is x; where: the object a reference must be bound to;
// afterwards the argument must be as the call may leave it
template<typename F> struct OnExit { F f; ~OnExit() { f(); } };
template<typename F> OnExit(F) -> OnExit<F>;
template<typename F> void with_arg(int mode, int x, Call const &c, int pk, F &&f)
{
    auto check = [&](Arg const &a) {
        sim::Calm calm;
        int want = x;
        if (c.f.runs && !c.f.threw && pk == P_LREF) want = x + 100;
        if (c.f.runs && pk == P_RREF) { if (a.read() != x && a.read() != MOVED) sim::violation("call", "an argument was changed"); return; }
        if (a.read() != want) sim::violation("call", "an argument of the call was changed from %d to %d", x, a.v);
    };
    auto run = [&](auto &&arg, void const *where, Arg const *watch) {
        OnExit guard{[&] { if (watch) check(*watch); }};
        f(std::forward<decltype(arg)>(arg), where);
    };
    switch (mode)
    {
    case A_LV: { Arg a{x}; run(a, &a, &a); break; }
    case A_RV: { Arg a{x}; run(std::move(a), &a, &a); break; }
    case A_CLV: { Arg const a{x}; run(a, &a, &a); break; }
    case A_VLV: { variant v{Arg{x}}; auto *p = &v.cref<Arg>(); run(v, p, p); break; }
    case A_VC: { variant const v{Arg{x}}; auto *p = &v.cref<Arg>(); run(v, p, p); break; }
    case A_VRV: { variant v{Arg{x}}; auto *p = &v.cref<Arg>(); run(std::move(v), p, p); break; }
    case A_INT: { int a = x; run(a, nullptr, nullptr); if (a != x) sim::violation("call", "an argument was changed"); break; }
    case A_INTR: run(int(x), nullptr, nullptr); break;
    case A_FLAKY: run(Flaky{x}, nullptr, nullptr); break;
    case A_NEVER: run(Never{x}, nullptr, nullptr); break;
    case A_EMPTY: { variant v; run(v, nullptr, nullptr); break; }
    case A_VREF: { Arg a{x}; variant v{std::ref(a)}; run(v, &a, &a); break; }
    case A_VCREF: { Arg a{x}; variant v{std::cref(a)}; run(v, &a, &a); break; }
    case A_VINT: run(variant{x}, nullptr, nullptr); break;
    default: { std::string s{"seven"}; run(s, nullptr, nullptr); break; }
    }
}
void name_call(char *buf, size_t n, Target t, int mode) { snprintf(buf, n, "%s with %s", target_name[t], mode_name[mode]); }

// ------------------------------------------------------------------------------------------------ operations
enum Kind { CALL1, CALL3, CALL10, COUNT, METHOD, VINVOKE, OBJ, PTR, CTOR, PROP_S, PROP_M, LATE, DEF_LATE, REDEF, FLIP, SETUP, FINAL, KINDS };

struct S1 { char const *name; Target t; int pk; };
S1 const s1[] = {{"sval", SVAL, P_VAL}, {"scref", SCREF, P_CREF}, {"slref", SLREF, P_LREF}, {"srref", SRREF, P_RREF}, {"sfunc", SFUNC, P_CREF}, {"svoid", SVOID0, P_CREF}, {"sref", SREF, P_CREF}, {"screfr", SCREFR, P_CREF}, {"snest", SNEST, P_CREF}};
void check_result(S1 const &s, int x, variant const &r, char const *what)
{
    sim::Calm calm;
    int t = sim::tid();
    auto num = [&](int want) { if (result_of<Arg>(r, what).read() != want) sim::violation("call", "%s: wrong result", what); };
    switch (s.t)
    {
    case SVAL: num(x + 1); break;
    case SCREF: num(x + 2); break;
    case SLREF: if (result_of<int>(r, what) != x + 100) sim::violation("call", "%s: wrong result", what); break;
    case SRREF: num(x); break;
    case SFUNC: num(x + 5); break;
    case SVOID0: if (!r.empty()) sim::violation("call", "%s: a void call has a result", what); break;
    case SREF: { variant w = r; if (&w.ref<Arg>() != per_thread[t]) sim::violation("call", "%s: the returned reference is another one", what); break; }
    case SCREFR: { variant w = r; if (&w.cref<Arg>() != per_thread[t] || w.data<Arg>()) sim::violation("call", "%s: the returned constant reference is another one", what); break; }
    case SNEST: if (result_of<int>(r, what) != x + 3) sim::violation("call", "%s: wrong result", what); break;
    default: break;
    }
}
int f_nest(Arg const &a)
{
    hit(SNEST, nullptr, a);
    sim::probe(P_nested);
    int t = sim::tid();
    Call c(t);
    variant r = ns()->getMethod("scref")->invoke(Arg{a.v + 1});
    if (c.f.runs != 1 || c.f.id != SCREF || c.f.val[0] != a.v + 1) sim::violation("call", "a nested call went wrong");
    return r.cref<Arg>().read();
}
void call1(int t, Op const &o)
{
    auto const &s = s1[unsigned(o.a) % (sizeof s1 / sizeof *s1)];
    int mode = o.b % A_MODES, x = o.c;
    char what[96]; name_call(what, sizeof what, s.t, mode);
    Call c(t);
    attempt(o, c, allowed(mode, s.pk), what, [&] {
        auto *m = method(s.name, o.d);
        if (!m) sim::violation("call", "%s: the method is not there", what);
        with_arg(mode, x, c, s.pk, [&](auto &&arg, void const *where) {
            variant r = m->invoke(std::forward<decltype(arg)>(arg));
            if (c.f.id != s.t) sim::violation("call", "%s: %s ran instead", what, c.f.id < 0 ? "nothing" : target_name[c.f.id]);
            expect_arg(c, 0, x, identity(mode, s.pk) ? where : nullptr, what);
            if (mode == A_FLAKY) sim::probe(P_flaky_yes);
            check_result(s, x, r, what);
        });
    });
}
void late(int t, Op const &o)
{
    int k = o.a % NLATE, mode = o.b % A_MODES, x = o.c;
    char what[96]; name_call(what, sizeof what, SLATE, mode);
    bool must = H->late >> k & 1;
    auto *m = method(late_name[k], o.d);
    if (!m) { if (must) sim::violation("call", "%s: a registered method is not found", what); return; }
    sim::probe(P_late);
    Call c(t);
    attempt(o, c, allowed(mode, P_CREF), what, [&] {
        with_arg(mode, x, c, P_CREF, [&](auto &&arg, void const *where) {
            variant r = m->invoke(std::forward<decltype(arg)>(arg));
            if (c.f.id != SLATE) sim::violation("call", "%s: another target ran", what);
            expect_arg(c, 0, x, identity(mode, P_CREF) ? where : nullptr, what);
            sim::Calm calm; if (result_of<Arg>(r, what).read() != x + 10 + k) sim::violation("call", "%s: wrong result", what);
        });
    });
}
template<typename F> void with_arg_few(int mode, int x, F &&f)   // for several parameters at once
{
    switch (mode)
    {
    case 0: { Arg a{x}; f(a, &a, A_LV); break; }
    case 1: { variant v{Arg{x}}; auto *p = &v.cref<Arg>(); f(v, p, A_VLV); break; }
    case 2: f(int(x), nullptr, A_INTR); break;
    default: { Never n{x}; f(n, nullptr, A_NEVER); break; }
    }
}
void call3(int t, Op const &o)
{
    int m0 = o.a % 4, m1 = o.a / 4 % 4, m2 = o.a / 16 % 4, x = o.c;
    Call c(t);
    static int const mode_of[] = {A_LV, A_VLV, A_INTR, A_NEVER};
    int can = YES; int const modes[] = {mode_of[m0], mode_of[m1], mode_of[m2]}, pks[] = {P_VAL, P_CREF, P_LREF};
    for (int i = 0; i < 3; ++i) if (allowed(modes[i], pks[i]) == NO) can = NO;
    attempt(o, c, can, "three-parameter function", [&] {
        auto *m = method("s3", o.d);
        with_arg_few(m0, x, [&](auto &&a0, void const *, int) { with_arg_few(m1, x + 1, [&](auto &&a1, void const *w1, int k1) { with_arg_few(m2, x + 2, [&](auto &&a2, void const *w2, int k2) {
            OnExit guard{[&] {
                if (!w2) return;
                sim::Calm calm;
                int want = x + 2 + (c.f.runs && !c.f.threw ? 100 : 0);
                if (static_cast<Arg const *>(w2)->read() != want) sim::violation("call", "a reference argument of a failed or finished call has a wrong value");
            }};
            m->invoke(std::forward<decltype(a0)>(a0), std::forward<decltype(a1)>(a1), std::forward<decltype(a2)>(a2));
            if (c.f.id != S3) sim::violation("call", "another target ran");
            expect_arg(c, 0, x, nullptr, "three-parameter function");
            expect_arg(c, 1, x + 1, identity(k1, P_CREF) ? w1 : nullptr, "three-parameter function");
            expect_arg(c, 2, x + 2, identity(k2, P_LREF) ? w2 : nullptr, "three-parameter function");
        }); }); });
    });
}
void call10(int t, Op const &o)
{
    Call c(t);
    int x = o.c;
    if (o.a & 2)
    {
        attempt(o, c, YES, "nine-parameter method", [&] {
            bool der = o.a & 4; I0 *self = der ? static_cast<I0 *>(H->o1[t]) : H->o0[t];
            variant i = o.a & 8 ? variant{std::cref(*self)} : variant{self}; Arg a{x + 8}; variant w{x + 3}, r; auto const &ci = i;
            auto *m = cls(0)->getMethod("m9");
            if (o.a & 16) r = m->invoke(i, x, x + 1, x + 2, w, x + 4, variant{x + 5}, x + 6, x + 7, a);
            else if (o.a & 32) r = i.invoke("m9", x, x + 1, x + 2, w, x + 4, variant{x + 5}, x + 6, x + 7, a);
            else r = ci.invoke("m9", x, x + 1, x + 2, w, x + 4, variant{x + 5}, x + 6, x + 7, a);
            if (c.f.id != M9 || c.f.self != self) sim::violation("call", "nine-parameter method: another target or object");
            for (int k = 0; k < 9; ++k) expect_arg(c, k, x + k, k == 8 ? &a : nullptr, "nine-parameter method");
            sim::Calm calm; if (result_of<int>(r, "nine-parameter method") != 9 * x + 36) sim::violation("call", "nine-parameter method: wrong result");
        });
        return;
    }
    attempt(o, c, YES, "ten-parameter function", [&] {
        auto *m = method("s10", o.d);
        variant r, v{x + 4}; Arg a{x + 9};
        if (o.a & 1) r = m->invoke(x, x + 1, x + 2, x + 3, v, x + 5, variant{x + 6}, x + 7, x + 8, a);
        else r = m->invoke(x, x + 1, x + 2, x + 3, v, std::ref(v).get(), x + 6, x + 7, x + 8, x + 9);
        for (int i = 0; i < 10; ++i) { int want = x + i; if (!(o.a & 1) && i == 5) want = x + 4; expect_arg(c, i, want, nullptr, "ten-parameter function"); }
        sim::Calm calm;
        int sum = 10 * x + 45 - ((o.a & 1) ? 0 : 1);
        if (result_of<int>(r, "ten-parameter function") != sum) sim::violation("call", "ten-parameter function: wrong result");
    });
}
void count(int t, Op const &o)                              // wrong number of arguments
{
    sim::probe(P_badcount);
    Call c(t);
    int x = o.c;
    attempt(o, c, NO, "wrong argument count", [&] {
        Arg a{x}, b{x}; variant v{Arg{x}};
        switch (o.a % 15)
        {
        case 8: { variant i{std::ref(*H->o0[t])}; i.invoke("nothing of that name", a); break; }
        case 9: { variant const i{H->o1[t]}; i.invoke("mi2", a); break; }
        case 10: { variant i{Unreg{}}; i.invoke("mget", a); break; }
        case 11: { variant const i{x}; i.invoke("mget", a); break; }
        case 12: { variant i{std::ref(*H->o0[t])}; i.invoke("mget", a, b); break; }
        case 13: { variant i{std::ref(*H->o0[t])}; i.invoke("mvoid"); break; }
        case 14: { variant i{std::cref(*H->o1[t])}; cls(0)->getMethod("m9")->invoke(i, 1, 2, 3, 4, 5, 6, 7, 8); break; }
        case 0: method("sval", 0)->invoke(a, b); break;
        case 1: method("scref", 0)->invoke(v, a, b); break;
        case 2: method("s3", 0)->invoke(a, b); break;
        case 3: method("s3", 0)->invoke(a, b, v, a); break;
        case 4: method("s10", 0)->invoke(1, 2, 3, 4, 5, 6, 7, 8, 9); break;
        case 5: { variant i{std::ref(*H->o0[t])}; cls(0)->getMethod("mget")->invoke(i); break; }
        case 6: { variant i{std::ref(*H->o0[t])}; cls(0)->getMethod("mset")->invoke(i, a, b); break; }
        default: cls(0)->getConstructor("ca")->invoke(a, b); break;
        }
    });
}

// instances a method can be called on; f(instance, object or null, dynamic: 0 I0, 1 I1)
enum Inst { N_VAL, N_CVAL, N_RAW, N_REF, N_CREFV, N_REFC, N_PTR, N_PTRC, N_CPTR, N_DVAL, N_DPTR, N_DCPTR, N_BPTR, N_DREF, N_INT, N_EMPTY, N_Z, N_ZPTR, N_RVAL, N_UNREG, N_INTPTR, N_STR, N_KINDS };
char const *const inst_name[] = {"value", "const value", "object", "reference", "const reference", "const holder of reference", "pointer", "const holder of pointer", "pointer to const", "derived value", "derived pointer", "derived pointer to const", "base pointer to derived", "derived reference", "int", "nothing", "unrelated object", "unrelated pointer", "rvalue", "object of unregistered class", "int pointer", "string"};
int inst_ok(int i, bool writes)
{
    switch (i)
    {
    case N_VAL: case N_REF: case N_PTR: case N_PTRC: case N_DVAL: case N_DPTR: case N_BPTR: case N_DREF: return YES;
    case N_CVAL: case N_RAW: case N_CREFV: case N_REFC: case N_CPTR: case N_DCPTR: case N_RVAL: return writes ? NO : YES;
    default: return NO;
    }
}
bool inst_derived(int i) { return i == N_DVAL || i == N_DPTR || i == N_DCPTR || i == N_BPTR || i == N_DREF; }
template<typename F> void with_inst(int i, int t, F &&f)
{
    I0 &o0 = *H->o0[t]; I1 &o1 = *H->o1[t];
    I0 *none = nullptr;
    switch (i)
    {
    case N_VAL: { variant v{o0}; f(v, const_cast<I0 *>(&v.cref<I0>())); break; }
    case N_CVAL: { variant const v{o0}; f(v, const_cast<I0 *>(&v.cref<I0>())); break; }
    case N_RAW: f(o0, none); break;
    case N_REF: { variant v{std::ref(o0)}; f(v, &o0); break; }
    case N_CREFV: { variant v{std::cref(o0)}; f(v, &o0); break; }
    case N_REFC: { variant const v{std::ref(o0)}; f(v, &o0); break; }
    case N_PTR: { variant v{&o0}; f(v, &o0); break; }
    case N_PTRC: { variant const v{&o0}; f(v, &o0); break; }
    case N_CPTR: { variant v{const_cast<I0 const *>(&o0)}; f(v, &o0); break; }
    case N_DVAL: { variant v{o1}; f(v, static_cast<I0 *>(const_cast<I1 *>(&v.cref<I1>()))); break; }
    case N_DPTR: { variant v{&o1}; f(v, static_cast<I0 *>(&o1)); break; }
    case N_DCPTR: { variant v{const_cast<I1 const *>(&o1)}; f(v, static_cast<I0 *>(&o1)); break; }
    case N_BPTR: { variant v{static_cast<I0 *>(&o1)}; f(v, static_cast<I0 *>(&o1)); break; }
    case N_DREF: { variant v{std::ref(o1)}; f(v, static_cast<I0 *>(&o1)); break; }
    case N_INT: { variant v{5}; f(v, none); break; }
    case N_EMPTY: { variant v; f(v, none); break; }
    case N_Z: { variant v{std::ref(*H->z[t])}; f(v, none); break; }
    case N_ZPTR: { variant v{H->z[t]}; f(v, none); break; }
    case N_RVAL: { variant v{o0}; auto *p = const_cast<I0 *>(&v.cref<I0>()); f(std::move(v), p); break; }
    case N_UNREG: { variant v{Unreg{}}; f(v, none); break; }
    case N_INTPTR: { int x = 1; variant v{&x}; f(v, none); break; }
    default: { variant v{std::string{"x"}}; f(v, none); break; }
    }
}
int both(int a, int b) { return a == NO || b == NO ? NO : a == MAYBE || b == MAYBE ? MAYBE : YES; }

struct M1 { char const *name; Target t; bool writes; int pk; };
M1 const m1[] = {{"mget", MGET, false, P_CREF}, {"mset", MSET, true, P_VAL}, {"mref", MREF, true, P_CREF}, {"mcref", MCREF, false, P_CREF}, {"mrv", MRV, true, P_RREF}, {"mv", MV0, false, P_CREF}, {"mvoidc", MVOIDC, false, P_CREF}, {"mvoid", MVOID, true, P_VAL}};
// o0/o1 keep a recognisable state; a non-const call may change it
void unchanged(int t, int a0, int a1, char const *what)
{
    sim::Calm calm;
    if (H->o0[t]->a.read() != a0 || H->o1[t]->a.read() != a1) sim::violation("call", "%s: an object that must not change did", what);
}
void method_call(int t, Op const &o, bool through_variant)
{
    auto const &m = m1[unsigned(o.a) % (sizeof m1 / sizeof *m1)];
    int inst = o.b % N_KINDS, x = o.c;
    static int const modes[] = {A_LV, A_RV, A_CLV, A_VRV, A_INTR, A_FLAKY, A_NEVER, A_EMPTY};
    int mode = modes[o.d % 8];
    if (through_variant && inst == N_RAW) inst = N_VAL;
    if (through_variant && inst == N_RVAL) inst = N_CVAL;
    char what[128]; snprintf(what, sizeof what, "%s on %s with %s", target_name[m.t], inst_name[inst], mode_name[mode]);
    int can = both(inst_ok(inst, m.writes), allowed(mode, m.pk));
    int a0 = H->o0[t]->a.v, a1 = H->o1[t]->a.v;
    Call c(t);
    int value = inst_derived(inst) ? a1 : a0;
    bool ok = attempt(o, c, can, what, [&] {
        with_inst(inst, t, [&](auto &&in, I0 *self) { with_arg(mode, x, c, m.pk, [&](auto &&arg, void const *where) {
            variant r;
            if constexpr (std::is_same_v<std::decay_t<decltype(in)>, variant>)
            {
                if (through_variant) r = in.invoke(m.name, std::forward<decltype(arg)>(arg));
                else r = cls(inst_derived(inst) && (o.d & 8) ? 1 : 0)->getMethod(m.name)->invoke(std::forward<decltype(in)>(in), std::forward<decltype(arg)>(arg));
            }
            else r = cls(0)->getMethod(m.name)->invoke(std::forward<decltype(in)>(in), std::forward<decltype(arg)>(arg));
            Target want = m.t == MV0 && inst_derived(inst) ? MV1 : m.t;
            if (c.f.id != want) sim::violation("call", "%s: %s ran instead", what, c.f.id < 0 ? "nothing" : target_name[c.f.id]);
            if (self && c.f.self != self) sim::violation("call", "%s: it ran on another object", what);
            expect_arg(c, 0, x, identity(mode, m.pk) ? where : nullptr, what);
            sim::Calm calm;
            switch (m.t)
            {
            case MGET: if (result_of<Arg>(r, what).read() != value + x) sim::violation("call", "%s: wrong result", what); break;
            case MSET: case MRV: if (result_of<int>(r, what) != x) sim::violation("call", "%s: wrong result", what); if (m.t == MSET && self->a.read() != x) sim::violation("call", "%s: the object was not changed", what); break;
            case MVOID: case MVOIDC: if (!r.empty()) sim::violation("call", "%s: a void call has a result", what); if (m.t == MVOID && self->a.read() != x) sim::violation("call", "%s: the object was not changed", what); break;
            case MREF: if (&r.ref<Arg>() != &self->a) sim::violation("call", "%s: the returned reference is another one", what); break;
            case MCREF: if ((self && &r.cref<Arg>() != &self->a) || r.data<Arg>()) sim::violation("call", "%s: the returned constant reference is another one", what); break;
            default: if (result_of<int>(r, what) != (want == MV1 ? 1 : 0)) sim::violation("call", "%s: wrong result", what); break;
            }
        }); });
    });
    (void)ok;
    bool external = inst != N_VAL && inst != N_DVAL;        // the object lives outside the container
    if ((m.t == MSET || m.t == MVOID) && external && c.f.runs && !c.f.threw) (inst_derived(inst) ? a1 : a0) = x;
    unchanged(t, a0, a1, what);
}
void obj(int t, Op const &o)                                // objects as arguments, with a base class parameter
{
    Call c(t);
    int k = o.a % 6, x = o.c;
    static int const ok[] = {YES, YES, YES, NO, NO, YES};
    I0 &o0 = *H->o0[t]; I1 &o1 = *H->o1[t];
    int a0 = o0.a.v, a1 = o1.a.v;
    attempt(o, c, ok[k], "object function", [&] {
        auto *m = method("sobj", o.d);
        Arg g{x};
        I0 const *want = nullptr; variant r; variant const copy{o1};
        switch (k)
        {
        case 0: want = &o0; r = m->invoke(o0, g); break;
        case 1: want = &o1; r = m->invoke(o1, g); break;
        case 2: { variant v{std::cref(o1)}; want = &o1; r = m->invoke(v, g); break; }
        case 3: r = m->invoke(*H->z[t], g); break;
        case 4: r = m->invoke(&o0, g); break;
        default: want = &copy.cref<I1>(); r = m->invoke(copy, g); break;
        }
        if (c.f.id != SOBJ || c.f.addr[0] != want) sim::violation("call", "object function: it got another object");
        expect_arg(c, 1, x, &g, "object function");
        sim::Calm calm; if (result_of<int>(r, "object function") != want->a.read()) sim::violation("call", "object function: wrong result");
    });
    unchanged(t, a0, a1, "object function");
}
void ptr(int t, Op const &o)
{
    Call c(t);
    int k = o.a % 7;
    static int const ok[] = {YES, YES, NO, NO, NO, YES, NO};
    I0 &o0 = *H->o0[t]; I1 &o1 = *H->o1[t];
    attempt(o, c, ok[k], "pointer function", [&] {
        auto *m = method("sptr", o.d);
        I0 const *want = nullptr; variant r;
        switch (k)
        {
        case 0: want = &o0; r = m->invoke(&o0); break;
        case 1: want = &o1; r = m->invoke(&o1); break;
        case 2: r = m->invoke(const_cast<I0 const *>(&o0)); break;
        case 3: r = m->invoke(H->z[t]); break;
        case 4: r = m->invoke(o0); break;
        case 5: { variant const v{&o1}; want = &o1; r = m->invoke(v); break; }
        default: r = m->invoke(const_cast<I1 const *>(&o1)); break;
        }
        if (c.f.id != SPTR || c.f.addr[0] != want) sim::violation("call", "pointer function: it got another object");
        sim::Calm calm; if (result_of<int>(r, "pointer function") != want->a.read()) sim::violation("call", "pointer function: wrong result");
    });
}
void ctor(int t, Op const &o)
{
    int k = o.a % 5, x = o.c, mode = o.b % A_MODES;
    I0 &o0 = *H->o0[t];
    int a0 = o0.a.v, a1 = H->o1[t]->a.v;
    Call c(t, true);
    auto made = [&](variant const &r, int a, int n) { sim::Calm calm; if (!r.is<I0>()) sim::violation("call", "a constructor gave something else"); auto &m = r.cref<I0>(); if (m.a.read() != a || m.n != n || m.k != 3) sim::violation("call", "a constructor made a wrong object"); };
    switch (k)
    {
    case 0: attempt(o, c, YES, "default constructor", [&] { variant r = cls(0)->defaultConstructor()->invoke(); if (c.f.id != CDEF) sim::violation("call", "another constructor ran"); made(r, 1, 2); }); break;
    case 1: attempt(o, c, allowed(mode, P_CREF), "constructor from Arg", [&] { with_arg(mode, x, c, P_CREF, [&](auto &&arg, void const *where) {
        variant r = cls(0)->getConstructor("ca")->invoke(std::forward<decltype(arg)>(arg));
        if (c.f.id != CARG) sim::violation("call", "another constructor ran");
        expect_arg(c, 0, x, identity(mode, P_CREF) ? where : nullptr, "constructor from Arg");
        made(r, x, 2);
    }); }); break;
    case 2: attempt(o, c, allowed(mode, P_VAL), "constructor from two", [&] { with_arg(mode, x, c, P_VAL, [&](auto &&arg, void const *) {
        variant r = cls(0)->getConstructor("cia")->invoke(x + 1, std::forward<decltype(arg)>(arg));
        if (c.f.id != CINT2) sim::violation("call", "another constructor ran");
        expect_arg(c, 0, x + 1, nullptr, "constructor from two"); expect_arg(c, 1, x, nullptr, "constructor from two");
        made(r, x, x + 1);
    }); }); break;
    default:                                                // copy and move constructors: the result tells
        { bool ok = guarded(o, [&] {
            variant r;
            if (k == 3) { int how = o.b % 3; if (how == 0) r = cls(0)->copyConstructor()->invoke(o0); else { variant v{std::cref(o0)}; if (how == 1) r = cls(0)->copyConstructor()->invoke(v); else r = cls(0)->copyConstructor()->invoke(std::move(v)); } }
            else { variant v{o0}; r = cls(0)->moveConstructor()->invoke(std::move(v)); sim::Calm calm; if (v.cref<I0>().a.read() != MOVED) sim::violation("call", "a move constructor copied"); }
            made(r, a0, o0.n);
            sim::Calm calm; if (&r.cref<I0>() == &o0) sim::violation("call", "a constructor made no new object");
        }, false); (void)ok; }
        break;
    }
    unchanged(t, a0, a1, "constructor");
}
void prop_s(int t, Op const &o)                             // static properties
{
    int k = o.a % 8, x = o.c, mode = o.b % A_MODES;
    int own = per_thread[t]->v, oi = int_static[t];
    bool wrote = false;
    Call c(t);
    auto run = [&](int can, char const *what, auto &&f) {
        bool ok = false, err = false;
        guarded(o, [&] { try { f(); ok = true; } catch (rtti::runtime_error const &e) { if (sim::ours(e)) throw; err = true; } }, false);
        if (ok && can == NO) sim::violation("property", "%s must be refused", what);
        if (err && can == YES && !(sim::fault_fired() && c.f.conv)) sim::violation("property", sim::fault_fired() ? "%s: another error was reported in place of a failure that is not a converter's" : "%s was refused", what);
        if (err && can == NO) sim::probe(P_refused);
        return ok;
    };
    switch (k)
    {
    case 0: run(YES, "reading a static property", [&] { variant r = ns()->getProperty(ps_name[t])->get(); sim::Calm calm; if (&r.cref<Arg>() != per_thread[t] || r.data<Arg>()) sim::violation("property", "a static property reads another object"); }); break;
    case 1: case 2: case 3:
    {
        char what[96]; snprintf(what, sizeof what, "writing a static property with %s", mode_name[mode]);
        wrote = run(allowed(mode, P_VAL), what, [&] { with_arg(mode, x, c, P_VAL, [&](auto &&arg, void const *) { ns()->getProperty(ps_name[t])->set(std::forward<decltype(arg)>(arg)); }); });
        if (wrote) own = x;
        break;
    }
    case 4: { auto *p = ns()->getProperty("pc"); run(NO, "writing a constant", [&] { p->set(x); }); sim::Calm calm; if (!p->readOnly() || const_static != 77) sim::violation("property", "a constant property is not constant"); break; }
    case 5: if (run(YES, "writing an int property", [&] { if (o.b & 1) ns()->getProperty(pi_name[t])->set(x); else { variant v{x}; ns()->getProperty(pi_name[t])->set(v); } })) oi = x; break;
    case 6: if (o.b & 1) run(NO, "reading a field property without instance", [&] { cls(0)->getProperty("a")->get(); }); else run(NO, "writing a field property without instance", [&] { Arg a{x}; cls(0)->getProperty("a")->set(a); }); break;
    default: run(NO, "using a static property with an instance", [&] { variant v{std::ref(*H->o0[t])}; Arg a{x}; switch (o.b % 4) { case 0: ns()->getProperty(ps_name[t])->get(v); break; case 1: ns()->getProperty(ps_name[t])->set(v, a); break; case 2: { variant const w{std::ref(*H->o0[t])}; ns()->getProperty(ps_name[t])->set(w, a); break; } default: if (o.c & 1) v.get_property(ps_name[t]); else v.set_property("nothing of that name", a); break; } }); break;
    }
    sim::Calm calm;
    if (per_thread[t]->read() != own || int_static[t] != oi) sim::violation("property", "a static property has a wrong value");
}
void prop_m(int t, Op const &o)                             // field properties
{
    static char const *const pn[] = {"a", "n", "k", "g"};
    int which = o.a % 4, set = o.a / 4 % 2, inst = o.b % N_KINDS, x = o.c;
    static int const modes[] = {A_LV, A_RV, A_VRV, A_INTR, A_NEVER, A_EMPTY, A_VREF, A_FLAKY};
    int mode = modes[o.d % 8];
    bool through = o.d & 8;
    if (inst == N_RAW) through = false;
    if (inst == N_RVAL) inst = N_CVAL;
    char what[128]; snprintf(what, sizeof what, "%s property '%s' of %s with %s", set ? "writing" : "reading", pn[which], inst_name[inst], set ? mode_name[mode] : "nothing");
    I0 &o0 = *H->o0[t]; I1 &o1 = *H->o1[t];
    struct St { int a, n, g; } s0{o0.a.v, o0.n, o0.g.v}, s1{o1.a.v, o1.n, o1.g.v};
    auto &mine = inst_derived(inst) ? s1 : s0;
    int can = inst_ok(inst, set);
    if (set && which == 2) can = NO;
    if (set && which != 1 && which != 2) can = both(can, allowed(mode, which == 3 ? P_CREF : P_VAL));
    if (set && which == 1) can = both(can, mode == A_INTR ? YES : NO);
    Call c(t);
    bool ok = false, err = false;
    bool external = inst != N_VAL && inst != N_DVAL;
    guarded(o, [&] { try
    {
        with_inst(inst, t, [&](auto &&in, I0 *self) {
            constexpr bool is_var = std::is_same_v<std::decay_t<decltype(in)>, variant>;
            auto *p = cls(0)->getProperty(pn[which]);
            if (!p) sim::violation("property", "%s: not found", what);
            if (!set)
            {
                variant r;
                if constexpr (is_var) { if (through) r = in.get_property(pn[which]); else r = p->get(in); } else r = p->get(in);
                sim::Calm calm;
                bool good = true;
                if (!is_var) good = which == 0 || which == 3 || true;      // it read a temporary copy, gone by now
                else switch (which)
                {
                case 0: good = &r.cref<Arg>() == &self->a && !r.data<Arg>(); break;
                case 1: good = &r.cref<int>() == &self->n && !r.data<int>(); break;
                case 2: good = &r.cref<int>() == &self->k && !r.data<int>(); break;
                default: good = &r.cref<Arg>() == &self->g && !r.data<Arg>() && c.f.id == PGET && c.f.self == self; break;
                }
                if (!good) sim::violation("property", "%s: it reads something else", what);
            }
            else with_arg(mode, x, c, P_CREF, [&](auto &&arg, void const *) {
                if constexpr (std::is_same_v<std::remove_reference_t<decltype(in)>, variant>) { if (through) in.set_property(pn[which], std::forward<decltype(arg)>(arg)); else p->set(in, std::forward<decltype(arg)>(arg)); }
                else p->set(in, std::forward<decltype(arg)>(arg));
                sim::Calm calm;
                int got = which == 0 ? self->a.read() : which == 1 ? self->n : self->g.read();
                if (got != x) sim::violation("property", "%s: the value was not set", what);
                if (which == 3 && (c.f.id != PSET || c.f.self != self || c.f.val[0] != x)) sim::violation("property", "%s: the setter was not called properly", what);
            });
        });
        ok = true;
    } catch (rtti::runtime_error const &e) { if (sim::ours(e)) throw; err = true; } }, false);
    if (ok && can == NO) sim::violation("property", "%s must be refused", what);
    if (err && can == YES && !(sim::fault_fired() && c.f.conv)) sim::violation("property", sim::fault_fired() ? "%s: another error was reported in place of a failure that is not a converter's" : "%s was refused", what);
    if (err && c.f.threw) sim::violation("property", "%s: the accessor's exception was replaced", what);
    if (err && can == NO) sim::probe(P_refused);
    if (which == 3 && ok && c.f.runs != 1) sim::violation("property", "%s: the accessor ran %d times", what, c.f.runs);
    if (which == 3 && can == NO && c.f.runs) sim::violation("property", "%s: the accessor ran", what);
    if (which == 3 && err && c.f.runs && !sim::fault_fired()) sim::violation("property", "%s: the accessor ran", what);
    if (set && external && (ok || (which == 3 && c.f.runs && !c.f.threw))) { if (which == 0) mine.a = x; else if (which == 1) mine.n = x; else mine.g = x; }
    sim::Calm calm;
    if (o0.a.read() != s0.a || o0.n != s0.n || o0.g.read() != s0.g || o1.a.read() != s1.a || o1.n != s1.n || o1.g.read() != s1.g || o0.k != 3 || o1.k != 3) sim::violation("property", "%s: an object has a wrong value now", what);
}
void exec(int t, Op const &o)
{
    switch (o.kind)
    {
    case SETUP:
        define();
        MetaType::registerConverter<int, Arg>([](int const &x) { converting(); sim::user_point(3); return Arg{x}; });
        H->ready = true;
        return;
    case FINAL:
        if (sim::obj_count(ID_ARG) != H->base_args) sim::violation("lifetime", "%d argument object(s) too many are alive after all calls", sim::obj_count(ID_ARG) - H->base_args);
        MetaType::unregisterConverter<Flaky, Arg>();
        return;
    default: break;
    }
    if (!H->ready) return;
    switch (o.kind)
    {
    case CALL1: call1(t, o); break;
    case CALL3: call3(t, o); break;
    case CALL10: call10(t, o); break;
    case COUNT: count(t, o); break;
    case METHOD: method_call(t, o, false); break;
    case VINVOKE: method_call(t, o, true); break;
    case OBJ: obj(t, o); break;
    case PTR: ptr(t, o); break;
    case CTOR: ctor(t, o); break;
    case PROP_S: prop_s(t, o); break;
    case PROP_M: prop_m(t, o); break;
    case LATE: late(t, o); break;
    case DEF_LATE: if (guarded(o, [&] { define_late(o.a % NLATE); }, true)) H->late |= 1 << o.a % NLATE; break;
    case REDEF: guarded(o, [&] { redefine(o.a); }, true); break;
    case FLIP:
        guarded(o, [&] {
            if (o.a & 1) MetaType::registerConverter<Flaky, Arg>([](Flaky const &x) { converting(); sim::user_point(3); return Arg{x.v}; });
            else MetaType::unregisterConverter<Flaky, Arg>();
        }, true);
        break;
    }
    if (sim::tid() == t) sim::rec(uint64_t(per_thread[t]->v));
}
void begin(Plan const &)
{
    H = new Hist;
    for (int t = 0; t < sim::MAXT; ++t)
    {
        cur[t] = nullptr; counting[t] = false;
        per_thread[t] = new Arg(200 + t); int_static[t] = 300 + t;
        H->o0[t] = new I0; H->o1[t] = new I1; H->z[t] = new Z;
        H->o1[t]->a.v = 1001;
    }
    H->base_args = sim::obj_count(ID_ARG);
}
void check(Plan const &) {}
int favour[2];
void setup(Rng &g, RunCfg const &, Plan &p)
{
    Op o; o.kind = SETUP; p.setup.push_back(o);
    for (auto &f: favour) f = int(g.below(A_MODES));
}
Op op(Rng &g, RunCfg const &, int)
{
    static int const weight[] = {22, 6, 3, 5, 18, 8, 6, 4, 8, 8, 14, 6, 5, 3, 8};
    int total = 0; for (int w: weight) total += w;
    Op o; int r = int(g.below(uint32_t(total)));
    for (o.kind = 0; r >= weight[o.kind]; ++o.kind) r -= weight[o.kind];
    o.a = int(g.below(240)); o.b = g.chance(1, 3) ? favour[g.below(2)] : int(g.below(A_MODES)); o.c = int(g.range(20, 89)); o.d = int(g.below(64));
    if (o.kind == METHOD || o.kind == VINVOKE || o.kind == PROP_M) o.b = int(g.below(N_KINDS));
    return o;
}
void fin(Rng &, RunCfg const &, Plan &p) { Op o; o.kind = FINAL; p.fin.push_back(o); }
std::string show(Op const &o)
{
    static char const *const n[] = {"call function", "call three-parameter function", "call ten-parameter function", "wrong argument count", "call method", "variant::invoke", "object argument", "pointer argument", "constructor", "static property", "field property", "call late function", "define late function", "redefine", "flip converter", "define", "finish"};
    return std::string(n[o.kind]) + " a=" + std::to_string(o.a) + " b=" + std::to_string(o.b) + " c=" + std::to_string(o.c) + " d=" + std::to_string(o.d);
}
}
World const invoke = {"invoke", true, invokew::setup, invokew::op, invokew::fin, invokew::begin, invokew::exec, invokew::check, nullptr, invokew::show};
}
