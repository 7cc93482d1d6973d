#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the statements live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

V = ["include/rtti/variant.h", "include/rtti/detail/variant_impl.h", "src/variant.cpp"]
T = ["include/rtti/metatype.h", "include/rtti/misc_traits.h", "src/metatype.cpp"]
D = ["include/rtti/metadefine.h"]
C = ["src/metacontainer.cpp", "src/metaitem.cpp", "include/rtti/metacontainer.h"]
K = ["src/metaclass.cpp", "src/private/metaclass_p.h", "include/rtti/metaclass.h"]

p("C01", "A variant is an independent value under copy, move, swap, assign and clear",
  "After any history of constructing, copying, moving, swapping, assigning, converting and clearing variants, every variant is either empty or holds exactly the value and type the history put there; copies are independent of the original, swap exchanges both, self-assignment and self-swap change nothing. A moved-from variant and a cleared variant are empty and reusable. A variant built from a reference wrapper refers to the original object and its copies refer to that same object.",
  ["histories", "inputs"], "All sequences of operations over several variants, for every combination of small/large, trivial/non-trivial, copy-only/move-only, array, pointer and by-reference contents.",
  "The tests run a dozen straight-line scripts, almost all with one variant and one content type; pairs of content kinds across swap/assign are not covered.",
  V, [("type-erased function table per held type", "variant_function_table_impl in include/rtti/detail/variant_impl.h"), ("copy-and-swap assignment", "variant::operator=, variant::swap in src/variant.cpp")],
  [("storage/manager", "held value and its type", "class variant")], ["typeId()", "is<T>()", "cref<T>()", "empty()"])
p("C02", "Each held value is constructed and destroyed exactly once, aligned, never leaked",
  "For any history of operations on variants and on objects made by MetaType::construct/destruct, including operations whose constructors, copies or converters throw, every value that was constructed is destroyed exactly once, at a suitably aligned address, and no memory is leaked or touched after release. When copying into a variant fails the exception reaches the caller and every existing variant keeps its previous value.",
  ["histories", "fault_sequences"], "All operation sequences with a constructor/copy failure injected at every possible point; types of any size and alignment; arrays with the failure at any element.",
  "Tests count constructions on success paths of one class; no test injects a throwing constructor, an over-aligned type, or an array element failure.",
  V + ["include/rtti/metatype.h", "src/metatype.cpp"], [("allocate_and_construct guard", "include/rtti/detail/variant_impl.h"), ("type_function_table_impl (incl. arrays)", "include/rtti/metatype.h"), ("MetaType::construct/destruct", "src/metatype.cpp")])
p("C03", "Typed access to a variant never drops const and aliases the held object",
  "is, ref, cref, rref and data on a variant succeed exactly when C++ would let an expression of the held type, with the constness of the held object and of the variant, bind to the requested reference (exact type up to qualification, or a registered base class). On success they designate the held object itself (or its base sub-object); otherwise is returns false, data returns null and the others throw a bad_cast error, leaving the variant unchanged. No access ever yields a mutable path to an object that is const through that variant.",
  ["inputs", "configurations"], "All held types (values, pointers of any depth and constness, arrays, classes and class pointers in hierarchies, by value or by reference wrapper) x all requested types x const/non-const/rvalue variant x all access operations.",
  "Tests sample a few dozen pairs; the space of (held type, requested type, value category, operation) has many thousands of combinations with subtle const rules.",
  V, [("metafunc_is / metafunc_cast + MetaType::compatible", "include/rtti/variant.h, src/metatype.cpp")], [], ["is<T>", "ref<T>", "cref<T>", "rref<T>", "data<T>"])
p("C04", "to, convert, tryConvert and canConvert agree and never corrupt the variant",
  "to<T> returns a copy of the held value when the types match up to C++ qualification, an upcast value or pointer when T is a registered base, otherwise the result of a registered converter, and otherwise throws a bad_cast error; canConvert<T> is true exactly when one of these routes exists (for the same type it may be true although the type can't be copied). convert/tryConvert replace the content with exactly to<T>'s result on success, and on any failure leave the variant as it was (tryConvert returns false instead of throwing).",
  ["inputs", "histories"], "All held types x requested types x registered-converter sets (ok, refusing, throwing) x const/non-const variant.",
  "Tests exercise a handful of successful conversions; failing and throwing converters with tryConvert, pointers to sub-objects and the route priority are not covered.",
  V + ["src/metatype.cpp"], [("metafunc_to", "include/rtti/variant.h"), ("MetaType::convert", "src/metatype.cpp")])
p("C05", "The converter registry is an exact map: first registration wins until removed",
  "hasConverter<From,To> is true exactly when a converter for that ordered pair of types, ignoring references and const, has been registered and not unregistered since. Registering an already present pair returns false and changes nothing, registering an absent one returns true and the converter then used is the one just registered; every kind of converter (free function, functor, method, implicit, with or without an ok flag, converting constructor) is applied to the given value with the direction From to To. A converter that reports failure, leaves its ok flag unset or throws yields no value.",
  ["histories", "inputs"], "All sequences of register/unregister/query/convert over several type pairs and converter kinds.",
  "Tests register each converter once and use it; re-registration, duplicates, reversed pairs and failure reports are not exercised as histories.",
  T + V, [("map keyed by (decay from, decay to)", "MetaTypeFunctionList in src/metatype.cpp"), ("ConvertFunctor*/ConvertMethod*, ConverterStorage", "include/rtti/metatype.h")])
p("C06", "Variant equality is an equivalence by type and value; hash and eq agree with it",
  "operator== between variants is reflexive, symmetric and transitive: true exactly when both are empty, or both hold the same type up to const/reference (arrays only with arrays of equal length) and their values compare equal, no matter whether a value is held directly or by reference; != is its negation and comparing values of a non-comparable type is an error, not a crash. Equal variants have equal std::hash. For values that aren't equal by ==, eq compares the held value converted to the given type or, when that conversion isn't registered or fails, the given value converted to the held type; without converters eq agrees with ==, and neq is the negation of eq.",
  ["inputs"], "All pairs and triples of variants over all content kinds, by value and by reference, arrays of different length, pointers, classes, plus converter sets.",
  "Tests compare a few equal and a few different values and never check hash or symmetry/transitivity.",
  V + ["include/rtti/metatype.h"], [("variant::operator==, eq", "src/variant.cpp, include/rtti/detail/variant_impl.h"), ("type_function_table_impl::compare_eq/hash", "include/rtti/metatype.h")])
p("C07", "MetaType::compatible is exactly C++ qualification and reference compatibility",
  "For any two types of the same base and any pointer depth, compatible(from,to) says true exactly when an expression of type from can initialise to by C++ rules: equal pointer depth, no const dropped at any level, const added at an inner level only if every outer level considered is const, a non-const lvalue reference only from an lvalue, an rvalue reference never from an lvalue, top-level const ignored unless binding a reference. Arrays decay to pointers that cannot be reseated and may only be viewed as arrays that are not longer. On types without references it is reflexive, and on those that are not arrays transitive, and invalid types are compatible with nothing.",
  ["inputs"], "All pairs of (pointer depth, const mask, reference kind, array length) types.",
  "Tests list about a hundred pairs up to depth 2-3; the qualification rule is a global condition on all levels whose mistakes show at depth 3 and more.",
  T, [("MetaType::compatible", "src/metatype.cpp"), ("const_bitset, pointer_arity", "include/rtti/misc_traits.h")], [], ["MetaType::compatible"])
p("C08", "MetaType identifies a type one to one and describes it truthfully",
  "Within a process each C++ type that has the same name everywhere, however and wherever it is used (any translation unit, shared library, or its textual name once known), has one valid identifier and different types have different identifiers; void and unknown names are invalid. typeName, typeSize, pointerArity, decayId, every type flag and predicate, and the printed form agree with the C++ type, and the decay of a type is its version without reference, array extent and const at every level, itself decayed.",
  ["inputs", "configurations"], "All types composed of a base type, pointers, const, references and arrays, queried in any order and from any module.",
  "Tests check flags of a few dozen types in one executable with the library; cross-module identity and printing are not tested.",
  T + ["include/rtti/typename.h", "include/rtti/tagged_id.h"], [("registration by name", "CustomTypes::addTypeInfo in src/metatype.cpp"), ("type_flags, meta_type", "include/rtti/metatype.h")])
p("C09", "Metadata containers keep items unique, ordered, stable and correctly named",
  "After any sequence of definitions, a container lists for each category exactly the items defined in it, each name once, in first-definition order; lookup by index, by name and enumeration agree, a re-definition of a name keeps the first item, unknown or out-of-range requests give null, and returned items stay valid and unchanged forever. Each item reports its category, its owner and a qualified name equal to its owner's qualified name, '::' and its own name. Namespaces reopen: defining an existing namespace again continues it.",
  ["histories", "programs"], "All definition programs over nested namespaces and classes with repeated names in any order.",
  "Tests check one fixed registration script; re-definitions and interleaved re-openings are not explored.",
  C + ["src/metanamespace.cpp", "src/private/metacontainer_p.h", "src/private/metaitem_p.h"], [("MetaItemList add/get", "src/metacontainer.cpp"), ("MetaItemPrivate qualified name", "src/private/metaitem_p.h, src/metaitem.cpp")])
p("C10", "Classes register once, bases mirror derived, failed steps change nothing",
  "A C++ class corresponds to at most one metaclass and a metaclass to one C++ class: registering it again under the same owner and name continues it, any other attempt (other owner, other name, or a name taken by another class) throws duplicate_metaclass. A base can be declared only if it is already registered, otherwise unregistered_metaclass is thrown; A is listed as a direct base of B exactly when B is listed as directly derived from A, each once, in declaration order. A definition step that throws (each base of a list being a step) leaves all metadata and the definition scope as they were before it.",
  ["histories", "programs"], "All definition programs including erroneous steps at any position.",
  "Tests check that two erroneous definitions throw, not what the registry looks like afterwards, nor the other conflict orders.",
  K + D, [("MetaClass::create", "src/metaclass.cpp"), ("addBaseClass/addDerivedClass", "src/metaclass.cpp"), ("scope stack", "meta_define::_class/_namespace/_end in include/rtti/metadefine.h")])
p("C11", "Inheritance queries and casts follow the declared class graph exactly",
  "inheritedFrom is the reflexive transitive closure of the declared base relation. meta_cast and variant access to a class or class pointer succeed exactly when the object's dynamic class (static class if it does not declare classInfo) inherits from the target, and then designate the correct sub-object of the complete object for any multiple-inheritance layout, preserving const; otherwise (and for null) pointer casts give null, reference casts throw bad_meta_cast and variants refuse. meta_cast from a class without classInfo succeeds only to that class.",
  ["inputs", "configurations"], "All (static type, dynamic type, target) triples over hierarchies with chains, multiple inheritance, non-zero offsets and lazily declared bases.",
  "Tests use one small hierarchy; wrong-offset and depth-dependent errors need other shapes.",
  K + ["include/rtti/variant.h"], [("MetaClass::cast, inheritedFrom", "src/metaclass.cpp"), ("meta_cast, DECLARE_CLASSINFO", "include/rtti/metaclass.h"), ("metacast_to_base", "include/rtti/metadefine.h")])
p("C12", "Member lookup: own before inherited, first overload by name, exact by signature",
  "getMethod and getConstructor with a bare name return the first defined overload and with a full signature exactly the overload with that signature; a different or partial signature finds nothing. In a class, methods and properties are searched in the class itself and then in its bases depth first in declaration order, so a redefinition in a derived class hides the inherited item while the base keeps its own; constructors, enums, counts and enumeration never include inherited items.",
  ["inputs", "histories"], "All hierarchies, overload sets, definition orders and query strings (bare names, signatures, prefixes, unknown names).",
  "Tests look up existing names in one hierarchy; hiding, diamonds, prefix names and wrong signatures are not explored.",
  C + K + ["src/metamethod.cpp", "src/metaproperty.cpp"], [("findMethod", "src/metacontainer.cpp"), ("getMethodInternal/getPropertyInternal", "src/metaclass.cpp"), ("signature", "include/rtti/signature.h")])
p("C13", "Invoking a metamethod passes arguments exactly as the C++ call would",
  "Invoking a method calls the registered function once with each argument in its own position: lvalue-reference parameters alias the caller's object, rvalue and value parameters get the value (converted or upcast if needed), and the result is returned as value or as reference to the very object returned. An argument or instance that is const is never passed where it could be modified, an rvalue never binds to a non-const lvalue reference, an lvalue never to an rvalue reference; those cases, a wrong argument count, an unconvertible argument or a missing or unsuitable instance throw and the function is not called. Exceptions of the function propagate.",
  ["inputs"], "All parameter kinds x argument forms (lvalue, const lvalue, rvalue, variant of each) x arity 0..10 x function kinds (free, static, member, const member) x instance forms.",
  "Tests use a few functions with one or two argument forms; positions beyond the second and const/rvalue refusals are sampled only.",
  ["include/rtti/metadefine.h", "include/rtti/detail/argument_impl.h", "include/rtti/detail/metamethod_impl.h", "include/rtti/variant.h", "include/rtti/function_traits.h"],
  [("argument::value<T>", "include/rtti/detail/argument_impl.h"), ("method_invoker, pack_arguments", "include/rtti/metadefine.h")])
p("C14", "Properties access exactly the object they denote, respecting const and read-only",
  "After any sequence of accesses, get returns the current value of the property of the given instance (or of the static variable), set changes that value and nothing else, and accessor properties call their getter/setter exactly once. Setting a read-only property, or through a const instance held by value or a pointer to const, and static/instance mix-ups throw and change nothing; unconvertible values throw and change nothing. Access by property object and by name through a variant agree, including inherited properties.",
  ["histories", "inputs"], "All property kinds (static, member, const, accessor pairs, inherited) x instance forms x value forms x access sequences.",
  "Tests get and set each property once through one or two instance forms.",
  ["include/rtti/metadefine.h", "include/rtti/variant.h", "src/metaproperty.cpp", "src/variant.cpp"],
  [("property_invoker, PropertyInvokerEx", "include/rtti/metadefine.h"), ("variant::get_property/set_property", "src/variant.cpp, include/rtti/detail/variant_impl.h")])
p("C15", "Metaconstructors exist exactly for what C++ allows and build the right object",
  "Registering a class provides default, copy and move metaconstructors exactly when the class has them, retrievable through the dedicated accessors, plus those declared explicitly, by default or custom name. Invoking one returns a variant holding a new object constructed with precisely the given arguments (copy leaves the source intact, move takes it), and a declared converting constructor makes its argument type convertible to the class. Wrong arguments throw and construct nothing.",
  ["inputs"], "All combinations of special member availability, explicit constructors of arity 0..10, argument forms.",
  "Tests cover one class with all constructors.",
  ["include/rtti/metadefine.h", "include/rtti/metaconstructor.h", "src/metaconstructor.cpp", "src/metacontainer.cpp"],
  [("constructor_invoker, define_*_constructor", "include/rtti/metadefine.h")])
p("C16", "A deferred definition runs exactly once, before anyone observes the container",
  "A pending deferred definition of a container runs at most once, and completely before any lookup, count, enumeration, attribute or inheritance query or forced definition on that container returns, in whichever thread it happens. Nested and mutually dependent definitions run each once without deadlock, a definition may access its own container, adding a second one while one is pending or running throws definition_error, and forcing recursively runs all definitions in the subtree including newly added ones. If a definition throws, the exception reaches the observer and the definition is not run again.",
  ["histories", "schedules", "fault_sequences"], "All trees of pending definitions, all first-observing operations, all interleavings of observing threads, definitions that observe other containers or throw.",
  "Tests have two single-threaded lazy definitions; concurrent first use and mutual dependencies are never exercised.",
  C + D + ["src/private/metacontainer_p.h"], [("checkDeferredDefine/setDeferredDefine/forceDeferredDefine", "src/metacontainer.cpp")],
  [("m_deferredDefine, pending, running", "pending definition of a container", "src/private/metacontainer_p.h")])
p("C17", "Attributes and enum elements are ordered maps with last value and first position",
  "After any sequence of sets, an item's attributes (and an enum's elements) contain each non-empty name once, at the position of its first set, with the value of its last set; count, access by index, by name and ordered enumeration (stopping when told to) agree, and unknown names or indexes give an empty variant or empty name. Setting attributes or elements affects only the item being defined, and references obtained earlier stay valid.",
  ["histories"], "All sequences of sets (new, repeated, empty names; values of any type) over several items.",
  "Tests set a few distinct names once each; overwriting keeps-position and reference stability are not covered.",
  ["src/metaitem.cpp", "src/metaenum.cpp", "src/private/metaitem_p.h", "include/rtti/metadefine.h"],
  [("NamedVariantList", "src/private/metaitem_p.h"), ("_attribute/_element current item", "include/rtti/metadefine.h")])
p("C18", "Concurrent registration and lookup behave as if performed one at a time",
  "When threads concurrently define namespaces, classes, members, attributes and converters, ask for type identifiers and look things up, every result is one that some order of the calls, one at a time, would give (registering a class with its default constructors, adding a base with its derived list, and running a deferred definition before the lookup itself count as consecutive steps of one call): names, classes and converters stay unique, every thread obtains the same object for the same name, nothing is lost, items become visible fully formed, and there is no data race or deadlock. Callbacks of enumerations may define and look up further items.",
  ["schedules"], "All interleavings of several threads' registry operations. Outside: reading an attribute's value by reference while another thread sets it again; attaching a deferred definition to a container other threads already observe.",
  "The test suite is single-threaded.",
  C + K + ["src/metatype.cpp", "src/metaitem.cpp", "src/private/metacontainer_p.h", "src/private/metaitem_p.h"],
  [("shared_mutex per list", "MetaItemList, NamedVariantList, BaseClassList, CustomTypes, MetaTypeFunctionList"), ("creation mutex", "MetaClass::create in src/metaclass.cpp")])
p("C19", "The library can be used during static initialization and destruction",
  "Types, converters, classes and variants may be used by the constructors and destructors of objects with static storage, before, in and after main. An object whose construction has asked for a type identifier or used the global namespace finds, in its destructor, the registry of types and all types working as in main, and having used the global namespace also everything defined in it, base classes and inherited members included, whenever it was defined; converters registered before its construction was finished work as well. What is already gone - types, converters or classes whose registry came to life after the object - is not found or refused by the usual exception, never answered wrongly and never a crash. Variants alive at that time can still be copied, moved, swapped, cleared and destroyed, and every value held is destroyed exactly once. Every RTTI_REGISTER block runs exactly once, before main. (An object constructed before the first use of the global namespace must not ask for it in its destructor.)",
  ["histories", "crash_points"], "All orders of construction of user objects and registries, all uses in constructors, main and destructors.",
  "Tests use the library in main only; what destructors of static objects see depends on the order of first uses, which unit tests in one process can't vary.",
  ["src/metatype.cpp", "src/metanamespace.cpp", "src/metaclass.cpp", "src/variant.cpp", "include/rtti/metatype.h", "include/rtti/metadefine.h"],
  [("Destroyed flags of CustomTypes and MetaTypeFunctionList", "src/metatype.cpp"), ("static local registries", "customTypes, customConverters, MetaNamespace::global"), ("~MetaClass, converter storages' destructors", "src/metaclass.cpp, include/rtti/metatype.h"), ("RTTI_REGISTER", "include/rtti/metadefine.h")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
