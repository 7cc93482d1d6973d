------------------------------ MODULE ConvertMC ------------------------------
EXTENDS Convert
CONSTANTS Pairs,      \* pairs of types converters are registered for
          Held,       \* targets which are held
          Ids, Tokens, Kinds
VARIABLES st, op, out
vars == <<st, op, out>>
O(p, a, b, k, t, w) == [op |-> p, a |-> a, b |-> b, k |-> k, t |-> t, w |-> w]
Ops == { O("reg", p[1], p[2], k, i, 0) : p \in Pairs, k \in Kinds, i \in Ids }
  \cup { O("unreg", p[1], p[2], "", 0, 0) : p \in Pairs }
  \cup { O("has", p[1], p[2], "", 0, 0) : p \in Pairs }
  \cup { O("hold", 1, n, "val", t, 0) : n \in Held, t \in Tokens }
  \cup { O("hold", 1, n, "cref", 0, 0) : n \in {1} }
  \cup { O(p, 1, n, "", 0, w) : p \in {"to", "can"}, n \in Held, w \in 0..1 }
  \cup { O(p, 1, n, "", 0, 0) : p \in {"conv", "try"}, n \in Held }
  \cup { O("eq", 1, n, "", t, 0) : n \in { h \in Held : h <= Len(TypeTable) }, t \in Tokens }
  \cup { O("x", 1, 0, "", t, 0) : t \in Tokens }
Init == st = Start(1) /\ op = O("init", 0, 0, "", 0, 0) /\ out = "ok"
Next == \E o \in Ops : op' = o /\ out' \in Outcomes(st, o) /\ st' = After(st, o, out')
Spec == Init /\ [][Next]_vars
View == st
Bounded == st.v[1].t < 100
Emit == PrintT(<<"EDGE", ToJson([s |-> st, o |-> op', t |-> st'])>>)

Laws == [][
    \* the registry is a map, first registration wins until removed
    /\ (op'.op = "reg" /\ out' = "false") => st' = st
    /\ (op'.op = "reg") => <<op'.a, op'.b>> \in DOMAIN st'.reg
    /\ \A p \in DOMAIN st.reg : (p \in DOMAIN st'.reg => st'.reg[p] = st.reg[p]) /\ (p \notin DOMAIN st'.reg => op'.op = "unreg" /\ p = <<op'.a, op'.b>>)
    /\ (op'.op \in {"has", "to", "can", "eq"}) => st' = st
    \* to, canConvert, convert and tryConvert agree
    /\ \A n \in Held : LET r == To(st, st.v[1], n, FALSE) IN
           /\ r.ok => Can(st, st.v[1], n, FALSE) = {"true"}
           /\ Can(st, st.v[1], n, FALSE) = {"false"} => ~r.ok
           /\ To(st, st.v[1], n, TRUE).ok => r = To(st, st.v[1], n, TRUE)
    /\ (op'.op \in {"conv", "try"} /\ out' = "ok") =>
           LET r == To(st, st.v[1], op'.b, FALSE) IN r.ok /\ st'.v[1].t = r.t /\ st'.v[1].k = TT(op'.b).d 
                /\ (TypeTable[TT(op'.b).d].copy => To(st', st'.v[1], op'.b, FALSE) = r)
    /\ (op'.op \in {"conv", "try"} /\ out' # "ok") => st' = st
    \* eq never contradicts equality
    /\ (op'.op = "eq" /\ st.v[1].f # "none" /\ Same(st.v[1], op'.b) /\ TypeTable[op'.b].eq /\ Token(st, st.v[1]) = op'.t) => out' = "true"
    /\ (op'.op = "eq" /\ <<st.v[1].k, op'.b>> \notin DOMAIN st.reg /\ <<op'.b, st.v[1].k>> \notin DOMAIN st.reg /\ ~Same(st.v[1], op'.b)) => out' = "false"
    ]_vars
=============================================================================
