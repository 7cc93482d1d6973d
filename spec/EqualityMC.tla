----------------------------- MODULE EqualityMC -----------------------------
EXTENDS Equality
Contents == { [e |-> TRUE, d |-> 0, n |-> 0, cmp |-> TRUE, x |-> 0] }
       \cup { [e |-> FALSE, d |-> d, n |-> n, cmp |-> d # 3, x |-> x] : d \in 1..3, n \in 0..2, x \in 0..2 }
VARIABLES a, b, c
Init == a \in Contents /\ b \in Contents /\ c \in Contents
Spec == Init /\ [][FALSE]_<<a, b, c>>
Inv == /\ Equal(a, a) # "false"
       /\ Equal(a, b) = Equal(b, a)
       /\ (Equal(a, b) = "true" /\ Equal(b, c) = "true") => Equal(a, c) = "true"
       /\ Equal(a, b) = "true" <=> (a = b /\ a.cmp)
=============================================================================
