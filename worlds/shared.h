// Shared by the worlds that use the library.
#pragma once
#include "world.h"
#include <exception>
#include <new>
#include <typeinfo>

namespace worlds {

extern World const reg, order, types, classes, lazy, conv, value, invoke, exitw, reent;
void exit_check();                                          // after static destruction
std::type_info const &flavour_type(int flavour);            // class of the injected exceptions
std::type_info const &flavour_now();                        // class of the exception being handled

// Run one library operation. A failing allocation or user call-out is allowed to come out as an exception; with `retry`
// the same operation is then repeated without the fault and has to succeed.
template<typename F> bool guarded(Op const &o, F &&f, bool retry)
{
    try { f(); return true; }
    catch (sim::Injected const &i)
    {
        if (o.fk != sim::F_THROW || !sim::fault_fired()) sim::violation("wrong-exception", "an injected exception appeared out of nowhere");
        auto const &is = flavour_now();
        if (i.serial >= 0 && (i.flavour != o.fk2 || i.serial != int(o.uid) || is != flavour_type(o.fk2))) sim::violation("wrong-exception", "the exception of user code arrived changed");
    }
    catch (std::bad_alloc const &)
    {
        if (o.fk != sim::F_ALLOC || !sim::fault_fired()) sim::violation("wrong-exception", "bad_alloc although no allocation failed");
    }
    catch (std::exception const &e) { sim::violation("wrong-exception", "unexpected exception: %s", e.what()); }
    catch (...) { sim::violation("wrong-exception", "unexpected exception of unknown type"); }
    if (retry && !(o.fk == sim::F_ALLOC && o.fk2))
    {
        try { f(); return true; }
        catch (std::exception const &e) { sim::violation("retry-failed", "the operation still fails after its fault is gone: %s", e.what()); }
        catch (...) { sim::violation("retry-failed", "the operation still fails after its fault is gone"); }
    }
    return false;
}

} // namespace worlds
