---------------------------- MODULE EqualityTrace ----------------------------
(* ROWS: row i: [c: content, h: hash class, eq, ne, val: results against every content *)
(* (val: variant i against the plain value j; "" if there is none), copyHash]          *)
EXTENDS Equality, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.ROWS)
N == Len(Rows)
VARIABLE i
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == i \in (1..N) \ Skip
Not(r) == CASE r = "true" -> "false" [] r = "false" -> "true" [] OTHER -> r
Bad == { j \in 1..N : LET q == Equal(Rows[i].c, Rows[j].c) IN
            \/ Rows[i].eq[j] # q
            \/ Rows[i].ne[j] # Not(q)
            \/ Rows[i].val[j] # "" /\ Rows[i].val[j] # q
            \/ ~HashOk(Rows[i].c, Rows[j].c, Rows[i].h, Rows[j].h)
            \/ (i = j /\ Rows[i].copyHash # Rows[i].h) }
SetToSeq2(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Check == Bad = {} \/ PrintT(<<"BAD", ToJson([i |-> i, b |-> SetToSeq2(Bad)])>>)
Spec == Init /\ [][FALSE]_i
Inv == Check
=============================================================================
