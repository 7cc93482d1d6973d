---------------------------- MODULE ConvertTrace ----------------------------
(* SCRIPTS: [n, ev]: seq of [o, out, r, v, has, live]. Judge: kinds of operations that are judged *)
EXTENDS Convert
CONSTANT Judge
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES s, l, st
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == s \in (1..Len(Scripts)) \ Skip /\ l = 1 /\ st = Start(Scripts[s].n)
Seen(c) == [f |-> c[1], k |-> c[2], pc |-> c[3] = 1, t |-> c[4]]
Shown(x, c) == [c EXCEPT !.t = Token(x, c)]
Pairs(h) == { <<h[i][1], h[i][2]>> : i \in DOMAIN h }
Why(e) ==
    IF e.out \notin Outcomes(st, e.o) THEN {"outcome"}
    ELSE LET n == After(st, e.o, e.out) IN
           (IF e.o.op = "to" /\ e.out = "ok" /\ e.r # Result(st, e.o) THEN {"value"} ELSE {})
      \cup (IF \E i \in DOMAIN n.v : Seen(e.v[i]) # Shown(n, n.v[i]) THEN {"variants"} ELSE {})
      \cup (IF Pairs(e.has) # DOMAIN n.reg THEN {"registered converters"} ELSE {})
      \cup (IF e.live # Live(n) THEN {"number of live values"} ELSE {})
      \cup (IF e.bad THEN {"lifetime"} ELSE {})
Next == LET ev == Scripts[s].ev IN
        /\ l <= Len(ev) /\ s' = s
        /\ LET e == ev[l] w == Why(e) IN
           IF w = {} THEN l' = l + 1 /\ st' = After(st, e.o, e.out)
           ELSE /\ (e.o.op \in Judge => PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> w, exp |-> Outcomes(st, e.o)])>>))
                /\ l' = Len(ev) + 1 /\ st' = st
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
