----------------------------- MODULE LifetimeMC -----------------------------
(* All programs over a few operations, together with the way registries are   *)
(* implemented: static objects constructed when first used and destroyed in   *)
(* the reverse order with the program's own. gone: what was destroyed.         *)
EXTENDS Lifetime, Json
CONSTANTS NO, Held, P, Ops0, TypesFirst, MaxUp
VARIABLES st, order, gone, op, res
vars == <<st, order, gone, op, res>>
Ops == { O("hold", 1, k, 1) : k \in Held } \cup { O(p, 1, k, 0) : p \in {"is", "get", "to"}, k \in Held } \cup { O("drop", 1, 0, 0) }
  \cup { O(p, q[1], q[2], 1) : p \in {"reg", "has"}, q \in P }
  \cup { O("def", 0, k, 0) : k \in Held \cap Cls } \cup { O(p, 0, k, 0) : p \in {"cls", "glob", "id"}, k \in Held \cap Cls }
  \cup { O(p, 0, 0, 1) : p \in {"inh", "meta", "invoke"} } \cup { O("call", 1, 0, 0) }
  \cup { O(p, i, 0, 0) : p \in {"done", "exit"}, i \in 1..NO }
On == { o \in Ops : o.op \in Ops0 \cup {"done", "exit"} }
Init == st = Start(1, NO) /\ order = <<>> /\ gone = {} /\ op = O("init", 0, 0, 0) /\ res = "ok"

In(s, x) == \E i \in DOMAIN s : s[i] = x
Push(s, x) == IF In(s, x) \/ x \in gone THEN s ELSE Append(s, x)
(* registries come to life when they are used first *)
Built(o) == LET a == IF o.op \in UsesTypes \ UsesSpace \/ (TypesFirst /\ o.op \in UsesSpace) THEN Push(order, "types") ELSE order
                b == IF o.op \in UsesSpace THEN Push(a, "space") ELSE a
                c == IF o.op \in {"def", "invoke"} THEN Push(b, "types") ELSE b IN
            IF o.op = "reg" /\ ~HasConv(st, o.s, o.k) THEN Push(c, ConvThing(<<o.s, o.k>>)) ELSE c
Alive(s, x) == In(s, x)
(* what the implementation answers, from what is alive *)
Answer(ord, o) == IF \A x \in Needs(st, o) : Alive(ord, x) THEN {Usual(st, o)}
                  ELSE IF o.op \in UsesSpace THEN {R("crash", 0)} ELSE {Nothing(st, o)}
Pos(i) == CHOOSE k \in DOMAIN order : order[k] = "u" \o ToString(i)
Next == \E o \in On :
    /\ Enabled(st, o)
    /\ (o.op = "exit" => TRUE) /\ (o.op = "done" => o.s = 1 + Cardinality({ i \in 1..NO : In(order, "u" \o ToString(i)) \/ "u" \o ToString(i) \in gone }))
    /\ (st.now = 0 /\ o.op = "exit" => Len(st.up) = NO)
    /\ op' = o /\ st' = After(st, o)
    /\ IF o.op = "exit" THEN LET k == Pos(o.s) IN order' = SubSeq(order, 1, k - 1) /\ gone' = gone \cup { order[j] : j \in k..Len(order) }
       ELSE IF o.op = "done" THEN order' = Append(order, "u" \o ToString(o.s)) /\ gone' = gone
       ELSE IF st.now # 0 THEN order' = order /\ gone' = gone
       ELSE order' = Built(o) /\ gone' = gone
    /\ res' \in Answer(order', o)
Spec == Init /\ [][Next]_vars
View == <<st, order, gone>>
(* the way of implementation gives what was promised *)
Laws == [][ /\ res' \in Allowed(st, op')
            /\ (st.now # 0 /\ \A x \in st.ent[st.now] : Alive(order, x)) \/ st.now = 0
            /\ ("space" \in { order'[i] : i \in DOMAIN order' } => "types" \in { order'[i] : i \in DOMAIN order' })
            /\ (op'.op \notin {"hold", "drop"} => st'.v = st.v)
            /\ (Entitled(st, op') => Cardinality(Allowed(st, op')) = 1) ]_vars
Emit == PrintT(<<"EDGE", ToJson([s |-> [v |-> st, o |-> order], o |-> op', t |-> [v |-> st', o |-> order']])>>)
=============================================================================
