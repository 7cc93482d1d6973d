---------------------------- MODULE PropertyTrace ----------------------------
(* SCRIPTS: [ev]: seq of [o: [op, p, by, s, v, thr, k, t], out, gets, sets, res, st, ch, live, bad] *)
EXTENDS Property
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES s, l, tok, st
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == s \in (1..Len(Scripts)) \ Skip /\ l = 1 /\ tok = [k \in DOMAIN SLOTS |-> 0] /\ st = Start
Tok2(e) == IF e.o.op = "set" THEN [tok EXCEPT ![e.o.s] = e.o.t] ELSE LET K == { e.ch[i][1] : i \in DOMAIN e.ch } IN [k \in K |-> LET i == CHOOSE j \in DOMAIN e.ch : e.ch[j][1] = k IN e.ch[i][2]] @@ tok
(* variables after the event, as observed *)
St2(e) == FoldLeft(LAMBDA x, c : [x EXCEPT ![c[1]][c[2]] = c[3]], st, e.st)
Why(e) ==
    LET o == e.o t2 == Tok2(e) s2 == St2(e) IN
    CASE o.op = "set"  -> IF s2 # st \/ e.ch # <<>> THEN {"something else changed"} ELSE {}
      [] o.op = "poke" -> IF t2 # tok \/ s2 # [st EXCEPT ![o.s][o.k] = o.t] THEN {"something else changed"} ELSE {}
      [] o.op = "get"  -> LET g == Get(o.p, o.s, o.by, tok, st) IN
               (IF e.out # (IF g.ok THEN "ok" ELSE "refused") THEN {"outcome"} ELSE
                IF e.res # g.res THEN {"result"} ELSE {})
          \cup (IF e.gets # g.gets \/ e.sets # 0 THEN {"accessors called"} ELSE {})
          \cup (IF s2 # st \/ t2 # tok THEN {"something changed"} ELSE {})
      [] o.op = "put"  -> LET c == Set(o.p, o.s, o.by, o.v, o.thr, tok, st) IN
            IF ~\E x \in c : x.out = e.out THEN {"outcome"}
            ELSE IF ~\E x \in c : x.out = e.out /\ x.sets = e.sets /\ e.gets = 0 THEN {"accessors called"}
            ELSE IF ~\E x \in c : x.out = e.out /\ x.st = s2 THEN {"property or something else"}
            ELSE IF ~\E x \in c : x.out = e.out /\ t2 = [tok EXCEPT ![o.v] = x.src] THEN {"value passed"} ELSE {}
Why2(e) == Why(e) \cup (IF e.bad THEN {"lifetime"} ELSE {}) \cup (IF e.live # Live(Tok2(e)) + LiveObjects(St2(e)) THEN {"number of live values"} ELSE {})
Next == LET ev == Scripts[s].ev IN
        /\ l <= Len(ev) /\ s' = s
        /\ LET e == ev[l] w == Why2(e) IN
           IF w = {} THEN l' = l + 1 /\ tok' = Tok2(e) /\ st' = St2(e)
           ELSE /\ PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> w,
                        exp |-> CASE e.o.op = "get" -> ToJson(Get(e.o.p, e.o.s, e.o.by, tok, st)) [] e.o.op = "put" -> ToJson({ [out |-> x.out, sets |-> x.sets, src |-> x.src] : x \in Set(e.o.p, e.o.s, e.o.by, e.o.v, e.o.thr, tok, st) }) [] OTHER -> ""])>>)
                /\ l' = Len(ev) + 1 /\ tok' = tok /\ st' = st
Spec == Init /\ [][Next]_<<s, l, tok, st>>
=============================================================================
