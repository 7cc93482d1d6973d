------------------------------ MODULE TypesMC ------------------------------
(* Exhaustive check of the relation on the bounded type space, one state per *)
(* source type; also prints the type space which the conformance driver      *)
(* instantiates in C++.                                                      *)
EXTENDS Types, TLC, Json
CONSTANTS MaxA, MaxArrA, MaxN

Plain  == TypesOf(0..MaxA, {"n", "l", "r"}, {0})
Arrays == TypesOf(0..MaxArrA, {"n", "l", "r"}, 1..MaxN)
Space  == Plain \cup Arrays
NoRefs == { t \in Space : t.r = "n" }

VARIABLES f, done
vars == <<f, done>>

Init == f \in Space /\ done = FALSE
Next == /\ ~done
        /\ PrintT(<<"TYPE", ToJson(f)>>)
        /\ done' = TRUE
        /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

Inv == /\ \A t \in Space : Sound(f, t) /\ SameRelation(f, t)
       /\ Reflexive(f)
       /\ (f.r = "n" /\ f.a <= 3) =>
             \A t \in NoRefs : t.a <= 3 => (Compatible(f, t) => \A u \in NoRefs : u.a <= 3 => Transitive(f, t, u))
=============================================================================
