--------------------------- MODULE VariantLifeMC ---------------------------
(* Exhaustive exploration for two kinds (constants), two variants, two tokens *)
EXTENDS VariantLife, TLC, Json, IOUtils
CONSTANTS Faults, Pool, Tokens
KS == DOMAIN KindTable
S == 1..2
Op(op, a, b, k, t, w, f) == [op |-> op, a |-> a, b |-> b, k |-> k, t |-> t, w |-> w, f |-> f]
F(k) == IF K(k).thr THEN Faults ELSE {0}
FC(st, a) == IF st.v[a].f = "val" THEN F(st.v[a].k) ELSE IF st.v[a].f # "none" THEN F(st.v[a].k) ELSE {0}
Ops(st) ==
    { Op(op, a, 1, k, t, w, f) : op \in {"mk", "mkc"}, a \in S, k \in KS, t \in Tokens, w \in 0..1, f \in UNION { F(k2) : k2 \in KS } }
    \cup { Op(op, a, 1, k, 1, w, f) : op \in {"in", "inm", "rf", "crf"}, a \in S, k \in KS, w \in 0..1, f \in UNION { F(k2) : k2 \in KS } }
    \cup UNION { { Op("cp", a, b, 1, 1, w, f) : b \in S, w \in 0..1, f \in FC(st, a) } : a \in S }
    \cup { Op(op, a, b, 1, 1, w, 0) : op \in {"mv", "sw"}, a \in S, b \in S, w \in 0..1 }
    \cup { Op("cl", a, 1, 1, 1, w, 0) : a \in S, w \in 0..3 }
    \cup { Op("re", a, 1, 1, 1, 0, 0) : a \in S }
    \cup { Op("set", a, 1, 1, t, 0, 0) : a \in S, t \in Tokens }
    \cup UNION { { Op(op, a, 1, 1, 1, 0, f) : op \in {"ss", "sm"}, f \in FC(st, a) } : a \in S }
    \cup { Op("rr", a, 1, 1, 1, 0, 0) : a \in S }
    \cup UNION { { Op("to", a, b, 1, 1, 0, f) : b \in S, f \in FC(st, a) } : a \in S }
    \cup { Op("cv", a, 1, k, 1, w, f) : a \in S, k \in KS, w \in 0..1, f \in UNION { F(k2) : k2 \in KS } }
    \cup { Op("x", 1, 1, k, t, 0, 0) : k \in KS, t \in Tokens }
    \cup (IF Pool THEN { Op("mc", a, 1, k, 1, w, f) : a \in {1}, k \in KS, w \in 0..2, f \in UNION { F(k2) : k2 \in KS } } ELSE {})
    \cup (IF Pool THEN { Op("md", 1, 1, 1, 1, 0, 0) } ELSE {})
Sensible(st, o) ==
    /\ Enabled(st, o)
    \* faults only where constructors of throwing kinds run; a throwing move of array elements leaves the source half moved
    /\ o.f > 0 => /\ (o.op \in {"mk", "mkc", "in", "inm", "mc", "cv"} => K(o.k).thr)
                  /\ (o.op \in {"inm"} \/ (o.op = "mc" /\ o.w = 2) => (K(o.k).n = 1))
                  /\ (o.op = "sm" => K(st.v[o.a].k).n = 1)
                  /\ ~(o.op \in {"rf", "crf"})
                  /\ (o.op = "mc" => o.w # 0 \/ K(o.k).dflt)
VARIABLES st, op, out
vars == <<st, op, out>>
Init == st = Start(2, IF Pool THEN 1 ELSE 0, 1) /\ op = [op |-> "init"] /\ out = "ok"
Next == \E o \in Ops(st) : /\ Sensible(st, o)
                           /\ op' = o
                           /\ out' \in Outcomes(st, o)
                           /\ st' = After(st, o, out')
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT(<<"EDGE", ToJson([s |-> st, o |-> op', t |-> st'])>>)

(* The laws of the properties, on the specification *)
OtherSlots(o) == { i \in S : i # o.a /\ ~(o.op \in {"cp", "mv", "sw", "to"} /\ i = o.b) }
Laws == [][ /\ (out' # "ok" => st' = st)                                            \* failure changes nothing
            /\ \A i \in OtherSlots(op') : st'.v[i] = st.v[i]                         \* independence
            /\ (op'.op = "cp" /\ out' = "ok") => /\ st'.v[op'.b] = st.v[op'.a] /\ st'.v[op'.a] = st.v[op'.a]
                                                 /\ Token(st', st'.v[op'.b]) = Token(st, st.v[op'.a])
            /\ (op'.op = "mv" /\ op'.a # op'.b) => st'.v[op'.b] = st.v[op'.a] /\ st'.v[op'.a] = None
            /\ (op'.op \in {"mv", "sw", "cp"} /\ op'.a = op'.b) => st' = st
            /\ (op'.op \in {"mv", "sw", "re"}) => (op'.op # "mv" => Live(st') = Live(st))
            /\ (op'.op = "sw") => st'.v[op'.a] = st.v[op'.b] /\ st'.v[op'.b] = st.v[op'.a]
            /\ (op'.op = "cl") => st'.v[op'.a] = None ]_vars
TypeOK == \A i \in S : st.v[i] = None \/ (st.v[i].k \in KS /\ st.v[i].f \in {"val", "ref", "cref"})
=============================================================================
