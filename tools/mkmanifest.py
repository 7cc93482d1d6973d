#!/usr/bin/env python3
"""Writes MANIFEST.json. One entry per claimed property; the rest are not_applicable with a reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; conformance: "
C = {
 "C04": ("histories covering the transitions of the model and random ones, and accesses over class hierarchies, are performed on real variants and validated by TLC",
         "11 types (in place, heap, move-only, not comparable, strings, a class hierarchy, pointers to objects and to const, arrays) and 25 ordered pairs with 9 kinds of converters that succeed, refuse or throw by value; 2 variants; plus to/canConvert of every sub-object of fixed and random hierarchies."),
 "C05": ("histories of registrations, removals, queries and uses of converters covering the transitions of the model and random ones validated by TLC",
         "25 ordered pairs of types, 9 kinds of callables with identity (every use tells which converter ran), spelled in several ways; the whole registry is observed after every step."),
 "C06": ("matrix of comparisons and hashes of several hundred contents, and histories of eq with converters, validated by TLC",
         "All pairs of ~420 contents per run (fixed and random; every way of holding them, arrays of length 1-4, equal values with different bytes). Which values are equal is stated by the driver for each content. Types whose own == is not an equivalence (NaN) and arrays of several dimensions are not covered."),
 "C01": ("histories covering the transitions of the model and random ones are performed on real variants and validated step by step by TLC",
         "24 kinds of contents (small/large/over-aligned, copy-only, move-only, arrays, pointers, std types), each held by value, reference and const reference; model transitions of pairs of kinds over 2 variants, random histories over 4 variants. Every variant and every referred object is observed after every step."),
 "C02": ("histories with injected constructor failures are performed on real variants and constructed objects; observed values, live objects, memory and alignment are validated step by step by TLC",
         "Tracked objects (address-checked) of 12 kinds; the f-th constructor call of an operation throws; model transitions of single kinds and pairs, random histories over 3 variants and 2 constructed objects; AddressSanitizer and replaced operator new/delete as observers. Which internal copies and moves are made is left open. One known finding (copy-only small types)."),
 "C03": ("every access of a table of held objects x requested types x operations validated by TLC against the access specification",
         "Exhaustive over held types (scalar pointers up to depth 2, arrays, a heap-stored class; by value, moved in, by reference, by const reference, empty) x requested types x 18 operations; class access over fixed and random hierarchies. Design: TLC proves that no permitted access drops const. Aliasing is observed by addresses. Bounded depth."),
 "C11": ("casts and accesses over generated class hierarchies validated by TLC against the class-graph specification",
         "All class graphs of 4 classes for the design; for the implementation 8 fixed and several seeded random hierarchies (virtual, repeated, indirect, undeclared, unregistered, lazily declared bases, with and without classInfo), every sub-object of every complete object, every target. Sub-object layout facts come from static_cast."),
 "C07": ("exhaustive table of the real relation validated against the specification by TLC",
         "Exhaustive for pointer depth <=4 (arrays of depth <=2, length <=3) with every constness and reference kind: design (relation = C++ rule = algorithm, sound, reflexive, transitive) and implementation (every pair). Deeper types (depth 5..15) by families of near neighbours. Trusts the compiler for the meaning of type spellings."),
 "C08": ("descriptions of a type lattice and histories of identifier questions from several modules validated by TLC",
         "Every flag, predicate, size, name and decay of ~1300 types; model-generated (every edge) and random histories of mentions/lookups from an executable and two dlopened modules with hidden visibility. Facts about base types come from the compiler's own type traits."),
}
REG = "5 classes, up to 3 levels, ~%s; definition programs of up to ~60 operations plus all transitions of small model universes (the uncovered part is design-checked by TLC only). The programs are run by the real fluent interface, one process each."
C.update({
 "C09": ("definition programs (model transitions and random ones) run on the real registry; everything a container tells is validated by TLC", REG % "namespaces, classes, enums, methods, properties, constructors with repeated names" + " Item addresses are watched for stability."),
 "C10": ("definition programs with conflicting registrations, bases and failing deferred definitions run on the real registry and validated by TLC", REG % "class names, namespaces and base lists, erroneous steps at any position"),
 "C12": ("definition programs over class hierarchies with overloads, hiding, diamonds, and lookups by name/signature/near misses validated by TLC", REG % "4 method names x 5 signatures, 3 property names, constructors"),
 "C16": ("definition programs with nested, mutually dependent and throwing deferred definitions and every first observation run on the real registry; the journal of what ran when is validated by TLC", REG % "deferred definitions nested up to 4 levels"),
 "C17": ("definition programs setting attributes and elements run on the real registry and validated by TLC", REG % "5 attribute names including the empty one, two value types"),
})
C["C13"] = ("calls of generated functions - every kind of parameter with every kind of argument, every instance, model transitions and random calls of up to 10 arguments - performed by the real metamethods and validated by TLC",
  "13 parameter types + variant x 4 forms x 228 arguments (plain or variant, lvalue/rvalue/const, held by value/reference/const reference) exhaustively for one parameter at the first and second position; functions of 0..10 parameters at random; member functions of 3 classes with every argument as instance, by object and by name. Plain objects passed where a variant is wanted, rvalue-reference results and arrays by reference are outside of the claim.")
C["C14"] = ("reads and writes of every property through every instance with every value, model transitions and random histories performed by the real metaproperties and validated by TLC",
  "Fields of 7 kinds of types (const, mutable, pointer, move-only), getters/setters of every form, static variables and accessors, in 3 classes; ~100 properties x all instances (plain, variants by value/reference/const reference, pointers) x ~150 values. All variables of all objects are observed after every step. Temporary plain objects as instances are outside of the claim.")
C["C15"] = ("special members of generated classes, lookups and calls of generated constructors - every parameter with every argument, model transitions and random calls of up to 10 arguments - performed by the real metaconstructors and validated by TLC",
  "~250 (thorough: ~900) of the combinations of declared/deleted/private/implicit default, copy and move constructors, member kinds, abstractness; 56 classes with ~280 further constructors of 1..10 parameters under default and custom names; arguments as in C13; conversions by converting constructors. Classes which can be neither copied nor moved but constructed can't be registered at all (compile-time error), so they are outside of the claim.")
C["C16"] = (C["C16"][0] + "; programs of several threads under a controlled scheduler, their histories validated by TLC as interleavings of the specification's steps", C["C16"][1] +
  " Concurrency: as in C18, about classes with (nested, mutually dependent, throwing) deferred definitions; the design model also shows that one mutex for all definitions can't deadlock while a mutex per definition does.")
C["C18"] = ("programs of several threads run by the real library under a controlled scheduler (random, priority-based and bounded-preemption systematic schedules); every recorded history is validated by TLC as a linearization of the specification; the same programs in parallel under ThreadSanitizer",
  "2-3 threads of up to ~6 operations each; every two kinds of operations at the same time in three situations and callbacks of enumerations, with systematic schedules of at most 2 preemptions (bounded number of them), plus random programs. Preemption points: every lock operation and every basic block of the library. Data races (which no interleaving shows) are ThreadSanitizer's finding on free-running executions. Design: every interleaving of small universes of the step specification, checked for consistency, equivalence with one-at-a-time execution, and absence of deadlock.")
C["C19"] = ("programs of constructors, main and destructors - every transition of the model and random ones - run by the real library, one process each; what is seen until the very end of the process is validated by TLC",
  "Up to 4 objects of real static storage in 3 translation units with RTTI_REGISTER blocks and 4 registered with __cxa_atexit in main; 5 types, 4 pairs of converters, 2 related classes (also defined lazily). Design: registries as static objects constructed at first use and destroyed in reverse order, all programs of small universes; types destroyed before namespaces is shown to break the promises. AddressSanitizer observes uses of destroyed registries. Destructors running in several threads are not covered.")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=p, quick_cmd="./check.sh %s" % p, thorough_cmd="./check.sh %s thorough" % p,
                      technique=TECH + C[p][0], level="model_checking", level_note=C[p][1]) for p in ids if p in C],
         not_applicable=[dict(property=p, reason="not built yet") for p in ids if p not in C],
         notes="No hooks: the checks use the public API of /repo only. TLA+ (TLC).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
