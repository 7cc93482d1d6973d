----------------------------- MODULE AccessMC -----------------------------
EXTENDS Access, TLC, Json
CONSTANTS MaxA, Big
(* base 1: a scalar, pointers up to MaxA; base 2: a big class, by value and arrays *)
B(ts, b) == { [a |-> t.a, c |-> t.c, r |-> t.r, n |-> t.n, b |-> b] : t \in ts }
Held == B(TypesOf(0..MaxA, {"n"}, {0, 2}), 1) \cup B(TypesOf(0..1, {"n"}, {0, 2}), 2)
Asked == B(TypesOf(0..(MaxA + 1), {"n"}, {0}), 1) \cup B(TypesOf(0..MaxA, {"n"}, {1, 2, 3}), 1) \cup B(TypesOf(0..1, {"n"}, {0, 2, 3}), 2)
VARIABLES U, done
Init == U \in Held \cup Asked /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ U' = U
        /\ U \in Held => PrintT(<<"HELD", ToJson(U)>>)
        /\ U \in Asked => PrintT(<<"ASKED", ToJson(U)>>)
Spec == Init /\ [][Next]_<<U, done>>
Inv == U \in Held => \A T \in Asked : Laws(U, T)
=============================================================================
