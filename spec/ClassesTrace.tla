---------------------------- MODULE ClassesTrace ----------------------------
(* Rows recorded from the real library:                                       *)
(*  kind "inherit": [g, c, b, ok]              MetaClass::inheritedFrom       *)
(*  kind "meta":    [g, d, s, b, op, res]      meta_cast                      *)
(*  kind "held":    [g, h, ask, res, same, mc] variant access                 *)
(* res: sequence of sub-objects which the result may be, <<>> when refused    *)
(* properly, <<-1>> when anything else happened                               *)
EXTENDS Classes, TLC, Json, IOUtils, SequencesExt, Integers
A    == INSTANCE Access
Rows == ndJsonDeserialize(IOEnv.ROWS)
Raw  == ndJsonDeserialize(IOEnv.GRAPHS)
Asks == ndJsonDeserialize(IOEnv.ASKS)       \* per graph: [ask |-> seq of [b, a, c, r, n]]
Gs   == [k \in 1..Len(Raw) |-> [Raw[k] EXCEPT !.reg = ToSet(@), !.ci = ToSet(@),
                                              !.base = [c \in 1..Len(@) |-> ToSet(@[c])]]]

IsOps == {"is", "is const", "is l", "is l const", "is r", "is r const", "canConvert", "canConvert const"}

Strip(t) == [a |-> t.a, c |-> t.c, r |-> t.r, n |-> t.n]

(* expected: set of acceptable sub-objects, {} = has to be refused; -2: boolean true *)
Expected(G, H, op, T) ==
    LET U == H.t
        cls == IF H.c = T.b THEN SameDecay(U, Strip(T)) ELSE SameShape(H, T)
    IN  IF ~A!Binds(op, U, Strip(T)) \/ ~cls THEN {}
        ELSE IF op \in IsOps
             THEN IF H.c = T.b \/ IsClass(G, H, T.b) THEN {-2} ELSE {}
        ELSE IF op \in {"to", "to const"}
             THEN IF ToOkClass(G, H, T.b) THEN {Target(G, H, T.b)} ELSE {}
        ELSE IF RefOkClass(G, H, T.b) THEN {Target(G, H, T.b)} ELSE {}

Agrees(exp, res) == IF exp = {} THEN res = <<>> ELSE \E x \in exp : x \in ToSet(res)

BadHeld(row) ==
    LET G == Gs[row.g] IN
    { <<k, j>> \in (1..Len(row.ask)) \X (1..Len(A!Ops)) :
        /\ row.res[k][j] # <<-9>>
        /\ ~Agrees(Expected(G, row.h, A!Ops[j], Asks[row.g].ask[row.ask[k]]), row.res[k][j]) }

(* class reported by variant::metaClass: the dynamic one, if registered *)
MetaClassOf(G, H) == LET x == IF H.t.a > 1 \/ H.t.n > 0 THEN 0
                              ELSE IF H.s = 0 THEN H.c ELSE G.sub[H.d][Dynamic(G, H.d, H.s)].c
                     IN  IF x \in G.reg THEN x ELSE 0

Wrong(row) ==
  LET G == Gs[row.g] IN
  CASE row.kind = "inherit" -> IF row.ok = Inherited(G, row.c, row.b) THEN {} ELSE {<<0, 0>>}
    [] row.kind = "meta"    -> LET x == IF row.s = 0 THEN 0 ELSE MetaCast(G, row.d, row.s, row.b)
                               IN IF Agrees(IF x = 0 THEN {} ELSE {x}, row.res) THEN {} ELSE {<<0, 0>>}
    [] row.kind = "held"    -> BadHeld(row) \cup (IF row.same THEN {} ELSE {<<0, 1>>})
                                            \cup (IF row.mc = MetaClassOf(G, row.h) THEN {} ELSE {<<0, 2>>})

VARIABLE i, done
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == i \in (1..Len(Rows)) \ Skip /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET b == Wrong(Rows[i]) IN
           b = {} \/ PrintT(<<"BAD", ToJson([i |-> i, b |-> SetToSeq(b)])>>)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
