------------------------------- MODULE Types -------------------------------
(* Structure of C++ types as rtti::MetaType sees them, and the compatibility *)
(* relation between them (property C07), stated as the C++ rules and also as *)
(* the bit-mask algorithm of the design; TLC proves both equal on the whole  *)
(* bounded space (TypesMC).                                                  *)
(*                                                                           *)
(* A type is [a, c, r, n]:                                                   *)
(*   a  pointer depth (of the element, for arrays)                           *)
(*   c  sequence of a+1 BOOLEANs: constness of every level, c[1] innermost   *)
(*   r  "n" not a reference, "l" lvalue reference, "r" rvalue reference      *)
(*   n  0 not an array, otherwise array length                               *)
EXTENDS Naturals, Sequences, FiniteSets

Masks(a) == [1..(a+1) -> BOOLEAN]

TypesOf(as, rs, ns) ==
    UNION { { [a |-> a, c |-> c, r |-> r, n |-> n] : c \in Masks(a), r \in rs, n \in ns } : a \in as }

Top(t)   == t.a + 1
Const(t) == t.c[Top(t)]

(* An array decays to a pointer to its elements which can't be reseated *)
Decays(f, t) == f.n > 0 /\ t.n = 0
Depth(f, t)  == IF Decays(f, t) THEN f.a + 1 ELSE f.a
Consts(f, t) == IF Decays(f, t) THEN Append(f.c, TRUE) ELSE f.c

RefOk(f, t) ==
    /\ (t.r = "l" /\ ~Const(t)) => f.r = "l"
    /\ t.r = "r" => f.r # "l"

ArrayOk(f, t) == t.n > 0 => (f.n >= t.n)

(* [conv.qual]: levels taken into account; top-most one is ignored when a copy is made *)
Levels(t) == IF t.r = "n" THEN 1..t.a ELSE 1..(t.a + 1)

QualOk(fc, tc, L) ==
    /\ \A i \in L : fc[i] => tc[i]
    /\ \A i \in L : (tc[i] /\ ~fc[i]) => \A j \in L : j > i => tc[j]

Compatible(f, t) ==
    /\ RefOk(f, t)
    /\ ArrayOk(f, t)
    /\ Depth(f, t) = t.a
    /\ QualOk(Consts(f, t), t.c, Levels(t))

-----------------------------------------------------------------------------
(* The same relation as an algorithm over bit masks (as the library does it) *)
Bit(c, i) == IF i <= Len(c) THEN c[i] ELSE FALSE

RECURSIVE Scan(_, _, _, _)
Scan(fc, tc, i, top) ==
    IF i > top THEN TRUE
    ELSE IF Bit(fc, i) /\ ~Bit(tc, i) THEN FALSE
    ELSE IF ~Bit(fc, i) /\ Bit(tc, i) THEN \A j \in (i+1)..top : Bit(tc, j)
    ELSE Scan(fc, tc, i + 1, top)

CompatibleAlgorithm(f, t) ==
    IF f.r # "l" /\ t.r = "l" /\ ~Const(t) THEN FALSE
    ELSE IF f.r = "l" /\ t.r = "r" THEN FALSE
    ELSE IF f.n = 0 /\ t.n > 0 THEN FALSE
    ELSE IF f.n > 0 /\ t.n > 0 /\ f.n < t.n THEN FALSE
    ELSE LET ar  == IF f.n > 0 /\ t.n = 0 THEN f.a + 1 ELSE f.a
             top == IF t.r = "n" THEN ar ELSE ar + 1
             fc  == IF f.n > 0 /\ t.n = 0 THEN Append(f.c, t.r # "n") ELSE f.c
         IN  IF ar # t.a THEN FALSE
             ELSE IF t.r = "n" /\ ar = 0 THEN TRUE
             ELSE Scan(fc, t.c, 1, top)

-----------------------------------------------------------------------------
(* Properties of the relation itself *)
NoRef(t) == [t EXCEPT !.r = "n"]

(* a mutable path through t to an object which f protects *)
LosesConst(f, t) ==
    /\ Depth(f, t) = t.a
    /\ \E i \in Levels(t) : Consts(f, t)[i] /\ ~t.c[i]

Sound(f, t) == Compatible(f, t) => ~LosesConst(f, t)
Reflexive(t) == t.r = "n" => Compatible(t, t)
(* (a copy of a const array isn't const, so arrays are left out)             *)
Transitive(f, t, u) ==
    ((\A x \in {f, t, u} : x.r = "n" /\ x.n = 0) /\ Compatible(f, t) /\ Compatible(t, u))
        => Compatible(f, u)
SameRelation(f, t) == Compatible(f, t) = CompatibleAlgorithm(f, t)

-----------------------------------------------------------------------------
(* full decay: no reference, no array, no const at any level *)
Decay(t) == [a |-> IF t.n > 0 THEN t.a + 1 ELSE t.a,
             c |-> [i \in 1..(IF t.n > 0 THEN t.a + 2 ELSE t.a + 1) |-> FALSE],
             r |-> "n", n |-> 0]
SameDecay(f, t) == Decay(f) = Decay(t)
=============================================================================
