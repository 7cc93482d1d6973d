---------------------------- MODULE LifetimeTrace ----------------------------
(* SCRIPTS: recorded programs [ns, no, nb, ev |-> seq of [o, r, v, live]] *)
EXTENDS Lifetime, Json, IOUtils
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES s, l, st
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == s \in (1..Len(Scripts)) \ Skip /\ l = 1 /\ st = Start(Scripts[s].ns, Scripts[s].no)
Why(e) ==
    IF e.o.op \in {"exit", "end", "block", "main"} /\ ~Enabled(st, e.o) THEN {"order of construction and destruction"}
    ELSE IF ~Enabled(st, e.o) THEN {"script"}
    ELSE LET n == After(st, e.o) IN
           (IF R(e.r, e.v) \notin Allowed(st, e.o) THEN {"answer"} ELSE {})
      \cup (IF e.live # Live(n) THEN {"number of live values"} ELSE {})
      \cup (IF e.o.op = "main" /\ st.blk # 1..Scripts[s].nb THEN {"blocks which have run before main"} ELSE {})
Next == LET ev == Scripts[s].ev IN
        /\ l <= Len(ev) /\ s' = s
        /\ LET e == ev[l] w == Why(e) IN
           IF w = {} THEN l' = l + 1 /\ st' = After(st, e.o)
           ELSE /\ PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> w, exp |-> Allowed(st, e.o)])>>)
                /\ l' = Len(ev) + 1 /\ st' = st
Spec == Init /\ [][Next]_<<s, l, st>>
=============================================================================
