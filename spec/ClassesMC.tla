----------------------------- MODULE ClassesMC -----------------------------
(* All class graphs with up to N classes (bases have smaller numbers), every *)
(* order of declaration, every subset of registered classes.                 *)
EXTENDS Classes, TLC, SequencesExt
CONSTANT N
Perms(S) == SetToSeqs(S)
Orders == [c \in 1..N |-> UNION { Perms(S) : S \in SUBSET (1..(c-1)) }]
VARIABLES decl, reg, step
vars == <<decl, reg, step>>
G == [n |-> N, decl |-> decl, reg |-> reg]
Init == decl = [c \in 1..N |-> <<>>] /\ reg \in SUBSET (1..N) /\ step = 1
(* define classes one by one; only registered bases of a registered class can be declared *)
Next == /\ step <= N
        /\ step' = step + 1 /\ reg' = reg
        /\ \E o \in Orders[step] :
             /\ \A i \in DOMAIN o : o[i] \in reg
             /\ (o # <<>> => step \in reg)
             /\ decl' = [decl EXCEPT ![step] = o]
Spec == Init /\ [][Next]_vars
Reach(c) == { b \in 1..N : Inherited(G, c, b) }
Inv == /\ \A c \in 1..N : (c \in reg) = Inherited(G, c, c)
       /\ \A a, b, c \in 1..N : (Inherited(G, a, b) /\ Inherited(G, b, c)) => Inherited(G, a, c)
       /\ \A a, b \in 1..N : (Inherited(G, a, b) /\ Inherited(G, b, a)) => a = b
       /\ \A a, b \in 1..N : Inherited(G, a, b) /\ a # b => \E i \in DOMAIN decl[a] : Inherited(G, decl[a][i], b)
       \* the cast path exists exactly for inherited classes, is a chain of declared bases and ends at the target
       /\ \A a, b \in 1..N : Inherited(G, a, b) =>
            LET p == CastPath(G, a, b) IN
            /\ (IF p = <<>> THEN a ELSE p[Len(p)]) = b
            /\ \A i \in DOMAIN p : LET from == IF i = 1 THEN a ELSE p[i-1]
                                   IN  \E j \in DOMAIN decl[from] : decl[from][j] = p[i]
(* declaring more never revokes an inheritance nor changes a cast path that existed *)
Monotone == [][\A a, b \in 1..N : Inherited(G, a, b) =>
                 /\ Inherited(G, a, b)'
                 /\ (a < step => CastPath(G, a, b)' = CastPath(G, a, b))]_vars
=============================================================================
