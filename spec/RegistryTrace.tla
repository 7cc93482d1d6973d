---------------------------- MODULE RegistryTrace ----------------------------
(* SCRIPTS: [n, names, lz, ev]; lz: deferred definitions; ev: seq of [o, out, res, log, look]: operation, *)
(* outcome, result, what deferred definitions did meanwhile, content for dump                      *)
EXTENDS Registry, Json, IOUtils
CONSTANT Judge
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES s, l, st
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == s \in (1..Len(Scripts)) \ Skip /\ l = 1 /\ st = Start(Scripts[s].n, Scripts[s].names)

Order == <<"name", "qn", "k", "owner", "ns", "class", "prop", "method", "enum", "ctor", "attr", "bases", "derived", "sane">>
Differs(exp, got) == { f \in Range(Order) : exp[f] # got[f] }
Aspect(f) == CASE f \in {"bases", "derived"} -> "base"
               [] f = "attr" -> "attr"
               [] OTHER -> "list"
EnumAspect(exp, got) == IF [i \in DOMAIN exp |-> exp[i].name] # [i \in DOMAIN got |-> got[i].name] THEN "list" ELSE "attr"
OpAspect(o) == CASE o.op \in {"class", "find"} -> "class" [] o.op \in {"base", "inherits"} -> "base"
                 [] o.op \in {"methodBy", "propBy"} -> "lookup" [] o.op = "obs" /\ o.m \in {"ctor", "dflt", "copy", "move"} -> "lookup"
                 [] o.op = "obs" /\ o.m \in {"attrCount", "attrName0", "attr0", "attrBy", "eachAttr", "elemCount", "elem0", "eachElem"} -> "attr"
                 [] o.op = "obs" /\ o.m \in {"baseCount", "base0", "derivedCount", "derived0"} -> "base"
                 [] o.op \in {"attr", "elem"} -> "attr"
                 [] o.op \in {"lazy", "force"} -> "lazy" [] OTHER -> "list"
Thrown(log) == \E i \in DOMAIN log : log[i].out \notin {"", "ok"}
Why(e, r) ==
         (IF e.log # r.log THEN {"lazy"} ELSE {})
    \cup (IF e.out # r.out \/ e.res # r.res THEN {OpAspect(e.o)} \cup (IF Thrown(r.log) \/ e.log # r.log THEN {"lazy"} ELSE {}) ELSE {})
    \cup (IF e.o.op = "dump" /\ e.out = "ok" /\ r.out = "ok" /\ e.o.a <= Len(r.st.co)
          THEN LET exp == Look(r.st, e.o.a) IN
               UNION { IF f = "enum" THEN {EnumAspect(exp.enum, e.look.enum)} ELSE {Aspect(f)} : f \in Differs(exp, e.look) } ELSE {})
Fields(e, r) == IF e.o.op = "dump" /\ e.out = "ok" /\ r.out = "ok" /\ e.o.a <= Len(r.st.co) THEN Differs(Look(r.st, e.o.a), e.look) ELSE {}
Next == LET ev == Scripts[s].ev IN
        /\ l <= Len(ev) /\ s' = s
        /\ LET e == ev[l] r == Apply(st, e.o, Scripts[s].lz) w == Why(e, r) IN
           IF w = {} THEN l' = l + 1 /\ st' = r.st
           ELSE /\ (w \cap Judge # {} => PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> w, fields |-> Fields(e, r), out |-> r.out, res |-> r.res, log |-> r.log,
                                                             look |-> IF Fields(e, r) = {} THEN <<>> ELSE <<Look(r.st, e.o.a)>>])>>))
                /\ l' = Len(ev) + 1 /\ st' = st
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
