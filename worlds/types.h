// The types a run can mention, shared by the two translation units that mention them.
#pragma once
#include "shared.h"
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <rtti/metaclass.h>

namespace worlds { namespace typesw {

using namespace rtti;

template<typename T> char tag_v;
template<typename T> struct strip_ptr { using type = std::remove_cv_t<T>; };
template<typename T> struct strip_ptr<T *> { using type = typename strip_ptr<std::remove_cv_t<T>>::type *; };
template<typename T> using strip = typename strip_ptr<std::remove_cv_t<T>>::type;
template<typename T> using decayed = strip<std::decay_t<T>>;
template<typename T> constexpr int arity() { if constexpr (std::is_pointer_v<T>) return 1 + arity<std::remove_cv_t<std::remove_pointer_t<T>>>(); else return 0; }
template<typename T> struct innermost { using type = std::remove_cv_t<T>; };
template<typename T> struct innermost<T *> { using type = typename innermost<std::remove_cv_t<T>>::type; };
template<typename T> using base_of = typename innermost<std::remove_cv_t<std::remove_reference_t<T>>>::type;

struct Entry
{
    MetaType_ID (*id)(); MetaType (*mt)(); std::string_view (*name)(); void (*var)();
    void const *tag, *dtag; int group;
    std::size_t size; int arity; bool cnst, lref, rref, ptr, arr, cls, vptr, cptr, fptr, integral, poly, abst; TypeFlags flags; int fam;
};
template<typename T> void via_variant()
{
    if constexpr (std::is_object_v<T> && !std::is_const_v<T> && !std::is_array_v<T> && std::is_default_constructible_v<T> && std::is_copy_constructible_v<T>)
    { T t{}; variant v{t}; if (v.typeId() != metaTypeId<T>()) sim::violation("identity", "a value reports another type id than its type"); }
    else metaTypeId<T>();
}
// the descriptor's flags from the language's traits (arrays and equality apart)
template<typename T> constexpr TypeFlags all_flags()
{
    using N = std::remove_reference_t<T>; using B = base_of<T>; using F = TypeFlags;
    auto f = F::None;
    auto add = [&](bool b, F x) { if (b) f = f | x; };
    add(std::is_const_v<N>, F::Const); add(std::is_pointer_v<N>, F::Pointer); add(std::is_member_pointer_v<N>, F::MemberPointer);
    add(std::is_lvalue_reference_v<T>, F::LvalueReference); add(std::is_rvalue_reference_v<T>, F::RvalueReference);
    add(std::is_void_v<B>, F::Void); add(std::is_integral_v<B>, F::Integral); add(std::is_floating_point_v<B>, F::FloatPoint); add(std::is_enum_v<B>, F::Enum);
    add(std::is_function_v<B>, F::Function); add(std::is_union_v<B>, F::Union); add(std::is_class_v<B>, F::Class); add(std::is_standard_layout_v<B>, F::StandardLayout);
    add(std::is_trivial_v<B>, F::Trivial); add(std::is_abstract_v<B>, F::Abstract); add(std::is_polymorphic_v<B>, F::Polymorphic);
    add(std::is_default_constructible_v<B>, F::DefaultConstructible); add(std::is_copy_constructible_v<B>, F::CopyConstructible); add(std::is_copy_assignable_v<B>, F::CopyAssignable);
    add(std::is_move_constructible_v<B>, F::MoveConstructible); add(std::is_move_assignable_v<B>, F::MoveAssignable); add(std::is_destructible_v<B>, F::Destructible);
    return f;
}
template<typename T> Entry entry(int group)
{
    using N = std::remove_reference_t<T>; using B = base_of<std::remove_all_extents_t<std::remove_reference_t<T>>>;
    constexpr int ar = arity<std::remove_cv_t<N>>();
    constexpr bool p = std::is_pointer_v<N>;
    using Bp = base_of<T>;
    std::size_t sz; if constexpr (std::is_function_v<N>) sz = 1; else sz = sizeof(T);
    return {&metaTypeId<T>, [] { return metaType<T>(); }, &type_name<T>, &via_variant<T>, &tag_v<T>, &tag_v<decayed<T>>, group, sz, ar,
            std::is_const_v<N>, std::is_lvalue_reference_v<T>, std::is_rvalue_reference_v<T>, p, std::is_array_v<N>, std::is_class_v<B> && !p && !std::is_array_v<N>,
            p && std::is_void_v<Bp>, p && ar == 1 && std::is_class_v<Bp>, p && ar == 1 && std::is_function_v<Bp>, std::is_integral_v<Bp>, std::is_polymorphic_v<Bp>, std::is_abstract_v<Bp>, all_flags<T>(), -1};
}
struct Table                                            // fixed storage, filled before main
{
    Entry e[760]; int dec[760]; int n = 0;
    void push_back(Entry const &x) { if (n < 760) e[n++] = x; }
    Entry const &operator[](size_t i) const { return e[i]; }
    size_t size() const { return size_t(n); }
};
extern Table table_; extern Table *const E; extern int groups;
template<typename T> void family()
{
    int g = groups++;
    auto &e = *E; int const at = e.n;
    e.push_back(entry<T>(g)); e.push_back(entry<T const>(g)); e.push_back(entry<T &>(g)); e.push_back(entry<T const &>(g)); e.push_back(entry<T &&>(g));
    e.push_back(entry<T *>(g)); e.push_back(entry<T const *>(g)); e.push_back(entry<T *const>(g)); e.push_back(entry<T const *const &>(g));
    e.push_back(entry<T **>(g)); e.push_back(entry<T const *const *>(g)); e.push_back(entry<T *&>(g)); e.push_back(entry<T *&&>(g));
    if constexpr (!std::is_abstract_v<T>) { e.push_back(entry<T[3]>(g)); e.push_back(entry<T const[3]>(g)); e.push_back(entry<T[4]>(g)); e.push_back(entry<T (&)[3]>(g)); e.push_back(entry<T *[2]>(g)); }
    if constexpr (!std::is_abstract_v<T>) e.push_back(entry<T (*)(T)>(g));
    e.push_back(entry<void (*)(T const &)>(g)); e.push_back(entry<void (*)(T &)>(g));
    e.push_back(entry<T ***>(g)); e.push_back(entry<T *const *>(g)); e.push_back(entry<T const **>(g));
    for (int i = at; i < e.n; ++i) e.e[i].fam = i - at;
}

// Types of internal linkage: each translation unit instantiates the library's templates for its own, as two plugins with
// hidden symbols do for one type. They have the same qualified name, hence the same identity.
namespace {
template<int I> struct Twin { int v = I; int w = I; };
enum class TwinE { a };
}
void twins();                                            // those of the other translation unit
} }
