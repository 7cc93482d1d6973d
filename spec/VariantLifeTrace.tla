-------------------------- MODULE VariantLifeTrace --------------------------
(* SCRIPTS: recorded histories [ev |-> seq of [o, out, v, ext, pool, live, err]] *)
EXTENDS VariantLife, TLC, Json, IOUtils
CONSTANT Judge   \* "values" or "all"
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES s, l, st
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == /\ s \in (1..Len(Scripts)) \ Skip /\ l = 1
        /\ st = Start(Scripts[s].nv, Scripts[s].np, 1)
Seen(c) == [f |-> c[1], k |-> c[2], t |-> c[3]]
(* what is observed of a content: form, kind, token *)
Shown(x, c) == [f |-> c.f, k |-> c.k, t |-> Token(x, c)]
Why(e) ==
    IF ~Enabled(st, e.o) THEN {"script"}
    ELSE IF e.out \notin Outcomes(st, e.o) THEN {"outcome"}
    ELSE LET n == After(st, e.o, e.out) IN
           (IF \E i \in DOMAIN n.v : Seen(e.v[i]) # Shown(n, n.v[i]) THEN {"variants"} ELSE {})
      \cup (IF \E k \in DOMAIN n.ext : e.ext[k] # n.ext[k] THEN {"objects outside"} ELSE {})
      \cup (IF Judge = "all" /\ \E i \in DOMAIN n.pool : Seen(e.pool[i]) # n.pool[i] THEN {"constructed objects"} ELSE {})
      \cup (IF Judge = "all" /\ e.live # Live(n) THEN {"number of live values"} ELSE {})
      \cup (IF Judge = "all" /\ e.err # <<>> THEN {"lifetime error"} ELSE {})
Next == LET ev == Scripts[s].ev IN
        /\ l <= Len(ev) /\ s' = s
        /\ LET e == ev[l] IN
           IF e.o.op = "end"
           THEN /\ l' = l + 1 /\ st' = st
                /\ (Judge = "all" /\ (e.live # 0 \/ e.err # <<>> \/ e.mem # 0)) =>
                       PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> {"leak or lifetime error at the end"}])>>)
           ELSE LET w == Why(e) IN
                IF w = {} THEN l' = l + 1 /\ st' = After(st, e.o, e.out)
                ELSE /\ PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> w])>>)
                     /\ l' = Len(ev) + 1 /\ st' = st
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
