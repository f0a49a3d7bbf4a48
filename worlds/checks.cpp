// One check per property: which worlds it runs and which faults it injects.
#include "shared.h"
#include <rtti/metaerror.h>
#include <cxxabi.h>
using namespace worlds;
namespace worlds {
// what failing user code throws: something unrelated to std::exception, a standard error, and errors the library itself uses
namespace {
template<typename E> struct Like: E, sim::Injected { explicit Like(int f, int serial): E("injected"), sim::Injected{serial, f} {} };
struct LikeAlloc: std::bad_alloc, sim::Injected { explicit LikeAlloc(int f, int serial): sim::Injected{serial, f} {} };
using F1 = Like<std::runtime_error>; using F2 = Like<rtti::bad_variant_cast>; using F3 = Like<rtti::invoke_error>; using F4 = Like<rtti::definition_error>;
std::type_info const *const flavour_types[] = {&typeid(sim::Injected), &typeid(F1), &typeid(F2), &typeid(F3), &typeid(F4), &typeid(LikeAlloc)};
void thrower(int f, int serial)
{
    sim::Mute m;
    switch (f)
    {
    case 1: throw F1(f, serial);
    case 2: throw F2(f, serial);
    case 3: throw F3(f, serial);
    case 4: throw F4(f, serial);
    case 5: throw LikeAlloc(f, serial);
    }
}
bool mine()                                                  // (by the dynamic class: library code may be compiled without vtable type information)
{
    auto *t = abi::__cxa_current_exception_type();
    for (auto f: flavour_types) if (t && *f == *t) return true;
    return false;
}
bool const registered = (sim::flavours = 6, sim::throw_flavour = &thrower, sim::is_ours = &mine, true);
}
std::type_info const &flavour_type(int f) { return *flavour_types[f]; }
std::type_info const &flavour_now() { return *abi::__cxa_current_exception_type(); }
}
static const char *const REAL = "all library sources and headers, std::shared_mutex/std::mutex/std::thread primitives above the simulated scheduler, real libstdc++ containers";
static const char *const STUB = "pthread locks, condition variables and thread creation (simulated), operator new/delete (simulated heap), static-initialisation guards";
constexpr unsigned FA = 1u << sim::F_ALLOC, FT = 1u << sim::F_THROW;
static Mix const C02m = {{{&reg, 1}}};
SIM_CHECK(C02, C02m, true, FA, 4, nullptr, REAL, STUB)
static Mix const C01m = {{{&types, 1}}};
SIM_CHECK(C01, C01m, true, FA, 4, nullptr, REAL, STUB)
static Mix const C03m = {{{&classes, 1}}};
SIM_CHECK(C03, C03m, true, FA, 4, nullptr, REAL, STUB)
static Mix const C05m = {{{&classes, 1}}};
SIM_CHECK(C05, C05m, true, FA, 5, nullptr, REAL, STUB)
static Mix const C04m = {{{&lazy, 1}}};
SIM_CHECK(C04, C04m, true, FA | FT, 5, nullptr, REAL, STUB)
static Mix const C16m = {{{&order, 1}}, 3, 9};
SIM_CHECK(C16, C16m, true, 0u, 5, nullptr, REAL, STUB)
static Mix const C06m = {{{&conv, 1}}};
SIM_CHECK(C06, C06m, true, FA | FT, 5, nullptr, REAL, STUB)
static Mix const C10m = {{{&value, 1}}, 10, 30};
SIM_CHECK(C10, C10m, false, FA | FT, 2, nullptr, REAL, STUB)
static Mix const C11m = {{{&value, 1}}, 10, 40};
SIM_CHECK(C11, C11m, false, FA | FT, 3, nullptr, REAL, STUB)
static Mix const C12m = {{{&invoke, 1}}, 4, 10};
SIM_CHECK(C12, C12m, true, FA | FT, 3, nullptr, REAL, STUB)
static Mix const C14m = {{{&exitw, 1}}, 2, 6};
SIM_CHECK(C14, C14m, true, FA, 5, exit_check, REAL, STUB)
static Mix const C07m = {{{&reent, 4}, {&lazy, 2}, {&conv, 1}, {&classes, 1}, {&reg, 1}}, 3, 7};
SIM_CHECK(C07, C07m, true, FA | FT, 10, nullptr, REAL, STUB)
static Mix const C08m = {{{&reg, 2}, {&types, 1}, {&classes, 2}, {&lazy, 2}, {&conv, 2}, {&value, 1}, {&invoke, 1}, {&reent, 2}}, 3, 8};
SIM_CHECK(C08, C08m, true, FA | FT, 12, nullptr, REAL, STUB)
static Mix const C09m = {{{&reg, 3}, {&types, 1}, {&classes, 2}, {&lazy, 2}, {&conv, 1}}, 4, 10, 1, 2};
SIM_CHECK(C09, C09m, true, FA, 2, nullptr, REAL, STUB)
static Mix const C13m = {{{&reent, 3}, {&lazy, 2}, {&reg, 1}, {&value, 1}, {&invoke, 3}}, 4, 9, 1, 3};
SIM_CHECK(C13, C13m, true, FT, 2, nullptr, REAL, STUB)
static Mix const C15m = {{{&reg, 3}, {&types, 1}, {&classes, 1}, {&lazy, 1}}, 4, 10};
SIM_CHECK(C15, C15m, true, FA, 8, nullptr, REAL, STUB)
