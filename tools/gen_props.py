import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
ST="The existing tests are single-threaded, register once in a fixed order and never fail an allocation or throw from user code"
p("C01","One identity per type, whichever thread or failure comes first",
"Every distinct C++ type (types are told apart by their qualified names) has exactly one valid type identifier: all threads get the same one however they race with the type's first use, and different types never share one. Once obtained, the type is found by its name and its descriptor (name, size, decayed type, indirection, const-ness, flags) is complete and never changes. A first use interrupted by a failed allocation reports that failure and can simply be retried, yielding the same single identity.",
["schedules","fault_sequences"],"all interleavings of first uses and name lookups of types by several threads, with any allocation on the way failing",
ST+"; the first-use race of a type and the retry after a failed first use are never executed.",
["src/metatype.cpp","include/rtti/metatype.h"],
[("CustomTypes::m_items/m_names","process-wide type descriptors and their name index","src/metatype.cpp"),("meta_type<T> holder","per-type cached identifier","include/rtti/metatype.h metaTypeId<T>()")],
[("unique lock, get-or-add by name","CustomTypes::addTypeInfo"),("function-local static initialisation","metaTypeId<T>()")],
["metaTypeId<T>()","MetaType(name)","MetaType accessors"])
p("C02","Registration and lookup are linearizable per container",
"Concurrent registrations and queries on one namespace, class or enum behave as if they ran one at a time in an order consistent with real time: the first registration of a name (or signature) wins forever, later ones return or leave the winner and change nothing, and what a completed registration added is visible to every later query. Every item keeps the index it got; count, access by index, access by name and enumeration (in index order, stopping when the callback asks) always agree with each other. Setting an attribute or enum element again replaces its value in place.",
["schedules","histories"],"all interleavings of define/query operations by several threads on shared containers, for every item category (namespace, class, method, property, enum, constructor, attribute, enum element)",
ST+"; a lost update, a duplicate or an index/name disagreement needs two registrations or a registration and a query to overlap.",
["src/metacontainer.cpp","src/private/metacontainer_p.h","src/private/metaitem_p.h","src/metaitem.cpp","src/metanamespace.cpp","src/metamethod.cpp","src/metaproperty.cpp","src/metaenum.cpp","src/metaconstructor.cpp"],
[("MetaItemList","ordered items plus name index under a shared mutex","src/private/metacontainer_p.h"),("NamedVariantList","attributes / enum elements","src/private/metaitem_p.h")],
[("add-if-absent under exclusive lock, create() re-reads the winner","MetaItemList::add, MetaX::create"),("shared lock on every read","MetaItemList::get/size/for_each")],
["global_define() chain","getX by name/index, xCount, for_each_*, attribute*, element*"])
p("C03","A C++ type is registered as a class under at most one name",
"At any time and under any interleaving at most one class entity exists for a C++ type. Registering the type again under the same name in the same container gives back that class; registering it under another name or elsewhere is rejected with an error and leaves no trace. Finding a class by type, by type name, or through its container always gives that one entity with that type.",
["schedules","fault_sequences"],"all interleavings of class registrations for shared types under equal and different names and owners, with lookups, allocation failures and retries",
ST+"; the check-then-register window between threads is never exercised.",
["src/metaclass.cpp","src/metatype.cpp","src/private/metatype_p.h"],
[("TypeInfo::metaClass","the class registered for the type","src/private/metatype_p.h")],
[("lookup, check, add, publish sequence","MetaClass::create")],
["_class<C>(name)","MetaClass::find","getClass"])
p("C04","A deferred definition runs exactly once and is never seen half done",
"A deferred (lazy) definition runs exactly once, on the first access that needs its container's contents (or when forced), no matter how many threads get there together. An access that another thread begins after the definition was attached never observes the container partly defined: it waits for the definition and then sees all of it. The definition itself may query and extend its own container and other lazily defined ones, and a second deferred definition for a container that still has one pending is rejected with an error.",
["schedules"],"all interleavings of first accesses (every kind of query and of forcing) by several threads to containers with deferred definitions, including nested and mutually referring ones",
ST+"; deferred definitions are only triggered by one thread, so duplicate execution, half-defined views and re-entrancy across threads are unreachable.",
["src/metacontainer.cpp","src/private/metacontainer_p.h","include/rtti/metadefine.h"],
[("pending definition callback and its state","per container","src/private/metacontainer_p.h")],
[("take-and-run before every content query","MetaContainer::checkDeferredDefine"),("recursive forcing","MetaContainer::forceDeferredDefine")],
["_lazy(...)","any content query","forceDeferredDefine"])
p("C05","Inheritance links stay symmetric and casts stay exact while classes register",
"Whenever no registration is in progress, a class lists another among its bases exactly if that one lists it among its derived classes, each once, and inheritance queries equal the transitive closure of the declared links. While registration is going on, inheritance only grows: a query that answered yes never later answers no. A cast through the registry gives exactly the address the compiler's own conversion gives (virtual and multiple bases included) or null when no declared path exists, never anything else, and declaring a base that is not registered is rejected with an error and adds no link to it (bases named before it in the same call stay).",
["schedules","fault_sequences"],"all interleavings of class and base declarations for a class lattice (single, multiple, virtual inheritance) with inheritance queries, casts and failing allocations",
ST+"; casts during growth and link symmetry after races or failures are not reached.",
["src/metaclass.cpp","src/private/metaclass_p.h","include/rtti/metaclass.h","include/rtti/metadefine.h"],
[("BaseClassList / DerivedClassList","direct links with cast functions","src/private/metaclass_p.h")],
[("add base then add back-link","MetaClass::addBaseClass/addDerivedClass"),("depth-first walk","MetaClass::inheritedFrom, MetaClass::cast")],
["_base<B...>()","baseClass*/derivedClass*","inheritedFrom","meta_cast","variant is/ref/to on class values and pointers"])
p("C06","The converter registry is linearizable and conversions use what it holds",
"Registering, unregistering and querying converters behave as if executed one at a time in an order consistent with real time: for an ordered pair of types the first registration wins until it is unregistered, and a registered pair is reported as convertible. A conversion uses the converter registered for its pair at some instant during the call, exactly once, and yields that converter's result; with none registered, or when the converter throws or reports failure, it raises a conversion error (or reports false), leaving the source intact and no half-made result behind.",
["schedules","fault_sequences","histories"],"all interleavings of register/unregister/has/convert operations on several type pairs by several threads, with converters and allocations that fail",
ST+"; converters are registered once and never removed while in use.",
["src/metatype.cpp","include/rtti/metatype.h","include/rtti/variant.h"],
[("MetaTypeFunctionList::m_items","(from,to) -> converter","src/metatype.cpp")],
[("add-if-absent / erase under exclusive lock","MetaTypeFunctionList"),("convert adapters","ConvertFunctor/ConvertFunctorOk")],
["MetaType::registerConverter/unregisterConverter/hasConverter","variant::to/convert/tryConvert/canConvert/eq"])
p("C07","No operation deadlocks or starves, re-entrant callbacks included",
"Every library call returns in a bounded number of its own steps once the other threads are scheduled fairly, however slowly or in whatever order they ran before. This includes calls made from inside enumeration callbacks, deferred definitions, converters, methods, property accessors and copy constructors of values that themselves query or register. No set of threads doing so can block each other forever.",
["schedules","configurations"],"all schedules, stalls and nestings of library calls inside user callbacks, by several threads",
ST+"; lock-order and self-deadlocks need a second thread or a callback that calls back into the library.",
["src/metacontainer.cpp","src/private/metacontainer_p.h","src/private/metaclass_p.h","src/private/metaitem_p.h","src/metatype.cpp"],
[("every shared mutex and the deferred-definition state","","src/")],
[("no lock held while user code runs; consistent lock order","MetaItemList/NamedVariantList/BaseClassList::for_each, deferred definition")],
["every public call"])
p("C08","Shared use of the library is free of data races",
"Any mix of registrations, queries, enumerations, conversions, invocations and reads of constant values by different threads on shared entities is free of unsynchronised conflicting memory accesses inside the library. The user only has to synchronise what he shares himself: mutable values, his own objects, and replacing an attribute another thread is reading.",
["schedules"],"all interleavings of library calls from several threads on shared library state",
ST+"; no test starts a thread at all.",
["src/metacontainer.cpp","src/metaitem.cpp","src/metaclass.cpp","src/metatype.cpp","include/rtti/metatype.h","include/rtti/variant.h"],
[("all process-wide registry state","","src/")],
[("shared mutexes, atomics, static-initialisation guards","src/")],
["every public call"])
p("C09","Registration is all-or-nothing when memory runs out",
"If any single memory allocation made by a registration call fails, the call reports it as an exception (or succeeds): an item is then either fully present, with name, index and enumeration agreeing, or entirely absent. Nothing registered earlier is lost or changed, nothing is leaked, and simply repeating the failed definition completes it as if nothing had happened.",
["fault_sequences","histories"],"every position of a failing allocation (one or several) in arbitrary sequences of definitions, alone or while other threads register and query",
ST+"; operator new never fails in the tests.",
["src/metacontainer.cpp","src/metaclass.cpp","src/metaitem.cpp","src/private/metaitem_p.h","src/private/metaclass_p.h","src/metatype.cpp","include/rtti/metadefine.h"],
[("item vector vs. name map; base vs. derived links","must change together","src/metacontainer.cpp, src/private/*.h")],
[("ownership handed to the list, rollback on exception","MetaItemList::add, NamedVariantList::set, MetaX::create")],
["global_define() chain under injected std::bad_alloc"])
p("C10","Value operations give the strong guarantee under exceptions",
"If copying, moving, constructing, converting, comparing or allocating fails inside an operation on a value container, the exception reaches the caller (or the failure is reported where the call promises that), and every value that existed before still holds exactly what it held. A failing operation never terminates the process, leaks memory or destroys an object that was not constructed.",
["fault_sequences"],"every operation sequence on values of small, large, array, reference, pointer, over-aligned, copy-only, move-only and throwing-move types, with each allocation and each user-supplied copy/move/convert/compare failing at any point",
ST+"; the tested types never throw.",
["include/rtti/variant.h","include/rtti/detail/variant_impl.h","include/rtti/detail/argument_impl.h","include/rtti/metatype.h","src/variant.cpp"],
[("variant storage and manager","the held value and how to handle it","include/rtti/variant.h")],
[("construct aside then swap without throwing","variant::operator=, variant::swap"),("allocation released when construction throws","type_function_table_impl, variant_function_table_impl")],
["variant API","MetaType::construct/destruct"])
p("C11","Every object a value container creates is destroyed exactly once",
"Over any sequence of operations on value containers, including ones that fail part-way, each object the library constructs is destroyed exactly once none is destroyed, read or assigned outside its lifetime, and each is constructed at an address its type allows. Every memory block it allocates is released exactly once. Objects held by reference or pointer are never copied, moved or destroyed.",
["fault_sequences","histories"],"every operation sequence on values of all storage kinds, with failures of user code and allocations at any point",
ST+"; lifetime counts are only checked for a handful of happy paths.",
["include/rtti/detail/variant_impl.h","include/rtti/metatype.h","include/rtti/variant.h","src/variant.cpp"],
[("variant storage","in place up to two words, heap above","include/rtti/detail/variant_impl.h")],
[("copy/move/destroy tables per type","variant_function_table_impl"),("scope guards on temporaries","variant::to, variant::eq")],
["variant API with lifetime-tracking types"])
p("C12","A reflective call runs the target exactly once or not at all",
"Invoking a registered method or constructor, or getting or setting a registered property, either runs the registered target exactly once with the arguments (converted where a converter applies) and instance given and hands back its result, or raises an error without running it at all (only a failure to hand the result back is reported although the target did run, once). A constant instance or read-only property is never modified. This holds whichever thread calls, while other registrations go on, and whatever conversions, copies or allocations fail on the way.",
["schedules","fault_sequences"],"all interleavings of invocations with registrations and converter changes, every argument combination the workload generates, each user copy/convert/target call and allocation failing at any point",
ST+"; failures between argument conversion and the call, and concurrent invocations, are not reached.",
["include/rtti/metadefine.h","include/rtti/detail/argument_impl.h","include/rtti/detail/variant_impl.h","src/metamethod.cpp","src/metaproperty.cpp","src/metaconstructor.cpp"],
[("argument","reference to the caller's value plus conversion scratch","include/rtti/variant.h")],
[("argument count check and conversion before the call","pack_arguments, argument::value"),("const dispatch on the instance","method_invoker/property_invoker")],
["MetaMethod::invoke","MetaConstructor::invoke","MetaProperty::get/set","variant::invoke/get_property/set_property"])
p("C13","An exception from user code passes through and leaves the library usable",
"When user code called by the library throws (an enumeration callback, deferred definition, method, property accessor, constructor or value copy), that exception reaches the caller unchanged. No lock stays held, no entity is lost or corrupted, and every later call by any thread works as if the failed call had ended normally at that point.",
["schedules","fault_sequences"],"every call-out point throwing on any of its invocations, alone or while other threads use the same entities",
ST+"; no callback or definition in the tests throws.",
["src/metacontainer.cpp","src/private/metacontainer_p.h","src/private/metaitem_p.h","include/rtti/metadefine.h","include/rtti/finally.h"],
[("locks and deferred-definition state held around call-outs","","src/metacontainer.cpp")],
[("scoped locks, scope guards","MetaItemList::for_each, checkDeferredDefine")],
["for_each_*","_lazy","invoke/get/set","variant operations"])
p("C14","Process exit is safe in every order of static destruction",
"However the first uses of the library's global state were ordered, and whenever the process begins to exit, tearing down the registries and the user's own static objects touches no destroyed library object, frees everything once and finishes. Type, class and converter queries made by static destructors return either correct answers or 'unknown', never garbage. Converters with static lifetime withdraw themselves harmlessly. (Exit begins when no other thread uses the library any more.)",
["crash_points","schedules","configurations"],"every order in which types, converters, classes and the global namespace are first used (hence destroyed), exit at any point of a registration workload, and any supported query from a static destructor",
ST+" and every test run exits in one fixed order.",
["src/metatype.cpp","src/metanamespace.cpp","src/metaclass.cpp","include/rtti/metatype.h"],
[("Destroyed flags","registries already torn down","src/metatype.cpp"),("TypeInfo::metaClass","link from a type to its class","src/private/metatype_p.h")],
[("destroyed checks in the accessors","customTypes(), customConverters()")],
["exit()","static destructors calling MetaClass::find, MetaType(name), hasConverter, variant operations"])
p("C15","Handles stay valid as the registry grows",
"Every entity pointer, name, qualified name, attribute or element reference and type descriptor handed out stays valid, keeps its address and keeps its value for as long as the registry lives, however much any thread registers afterwards (an attribute's value changes only when that attribute is set again). The qualified name of an entity is always the path of names from the global namespace, in every thread.",
["schedules","histories"],"all growth histories interleaved with reads through previously obtained handles, in any thread",
ST+"; containers in the tests hold a few items and handles are not re-read after growth.",
["src/private/metacontainer_p.h","src/private/metaitem_p.h","src/metaitem.cpp","src/metatype.cpp"],
[("owned items by pointer; forward_list of descriptors","stable addresses","src/private/*.h, src/metatype.cpp")],
[("items held through unique_ptr, names as std::string const in the item","MetaItemList, NamedVariantList")],
["all getters returning pointers or references"])
p("C16","The defined registry does not depend on the order of definition",
"For a set of definitions without conflicts, the resulting registry (which entities exist where, with which members, values and inheritance, and what each full-signature lookup resolves to) is the same for every interleaving and every order that registers base classes before they are named as bases. In particular a member defined on a derived class is always that class's own member and is found before an inherited one of the same signature, whether or not the base had it already.",
["schedules","histories"],"all interleavings and orders of a conflict-free set of definitions spread over several threads, eager or deferred",
ST+"; each definition set runs in exactly one order.",
["src/metaclass.cpp","src/metamethod.cpp","src/metaproperty.cpp","src/metacontainer.cpp"],
[("member lists of a class and its bases","","src/private/metaclass_p.h")],
[("get-or-create against the class's own members; own-first lookup","MetaMethod/MetaProperty::create, getMethodInternal, getPropertyInternal")],
["definition chains, then getMethod/getProperty by signature, counts"])
PF="A pure function of its arguments; deciding it needs input coverage, not schedules or faults."
p("C17","Type compatibility is the C++ conversion relation",
"Whether a value of one type may be viewed as another follows the C++ qualification and reference binding rules for every pair of types.",
["inputs"],"all pairs of types",PF+" The tests check samples.",["src/metatype.cpp"],[],[("compatible","src/metatype.cpp")],["variant::is/ref/data"])
p("C18","Type descriptors state the true traits of the type",
"The name, size, indirection count, const mask and flags in a type's descriptor equal the language's own traits for every type.",
["inputs"],"all types",PF+" The tests check samples.",["include/rtti/metatype.h","include/rtti/typename.h"],[],[("type_flags, pointer_arity, const_bitset","include/rtti")],["MetaType accessors"])
p("C19","Signatures distinguish exactly the overloads that differ",
"Two callables registered under one name in one container collide exactly when their parameter lists are equal, and a full-signature lookup text selects that one.",
["inputs"],"all parameter lists",PF+" The tests check samples.",["include/rtti/signature.h","src/metacontainer.cpp"],[],[("signature text and prefix match","findMethod")],["getMethod(signature)"])
p("C20","Value equality and hashing are coherent",
"Values that compare equal hash equally, and equality of values of one type is that type's own equality.",
["inputs"],"all pairs of values",PF+" The tests check samples.",["src/variant.cpp","include/rtti/detail/variant_impl.h"],[],[("operator==, std::hash","variant")],["variant ==, std::hash"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,S); assert len(x['title'])<=80,x['id']
print(len(P))
