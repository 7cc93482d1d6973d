----------------------------- MODULE InvokeTrace -----------------------------
(* SCRIPTS: [ev]: seq of [o, out, times, seen, res, ch, live, bad] *)
EXTENDS Invoke
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES s, l, tok
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == s \in (1..Len(Scripts)) \ Skip /\ l = 1 /\ tok = [k \in DOMAIN SLOTS |-> 0]
Changed(t, ch) == LET m == [k \in { ch[i][1] : i \in DOMAIN ch } |-> LET i == CHOOSE j \in DOMAIN ch : ch[j][1] = k IN ch[i][2]] IN m @@ t

SeenOk(exp, got) == Len(exp) = Len(got) /\ \A i \in DOMAIN exp : exp[i].t = got[i][1] /\ (exp[i].w = got[i][2] \/ (exp[i].any /\ got[i][2] = 0))
ResultOk(o, e) ==
    LET r == Result(o, tok) g == e.res[1] m == IF Fun(o).cls = 0 THEN 0 ELSE 1
        w == e.seen[IF Fun(o).res.k = "self" THEN 1 ELSE m + Fun(o).res.j][2]     \* what it refers to
    IN  IF IsRefResult(o) THEN g[1] = r[1] /\ g[2] = r[2] /\ (IF w = 0 THEN g[3] = -1 ELSE g[3] = r[3] /\ g[4] = r[4])
        ELSE g = r
CallWhy(e) ==
    LET o == e.o
        f == IF MayCall(o, tok) THEN {IF o.thr THEN "thrown" ELSE "ok"} ELSE {}
        r == Reported(Failures(o, tok)) \cup (IF MayRefuse(o, tok) THEN {"refused"} ELSE {})
        got == Changed(tok, e.ch)
    IN IF e.out \in f THEN
            LET x == After(o, tok) IN
               (IF e.times # 1 THEN {"not called once"} ELSE {})
          \cup (IF ~SeenOk(x.seen, e.seen) THEN {"arguments"} ELSE
                IF e.out = "ok" /\ ~ResultOk(o, e) THEN {"result"} ELSE {})
          \cup (IF ~TokensOk(o, tok, e.out, x.tok, got) THEN {"objects of the caller"} ELSE {})
       ELSE IF e.out \in r THEN
               (IF e.times # 0 THEN {"called"} ELSE {})
          \cup (IF ~TokensOk(o, tok, e.out, tok, got) THEN {"objects of the caller"} ELSE {})
       ELSE {"outcome"}
Why(e) == (IF e.o.op = "set" THEN (IF \E c \in { e.ch[i] : i \in DOMAIN e.ch } : c[1] # e.o.s THEN {"objects of the caller"} ELSE {}) ELSE CallWhy(e))
     \cup (IF e.live # Live(IF e.o.op = "set" THEN [tok EXCEPT ![e.o.s] = e.o.t] ELSE Changed(tok, e.ch)) THEN {"number of live values"} ELSE {})
     \cup (IF e.bad THEN {"lifetime"} ELSE {})
Next == LET ev == Scripts[s].ev IN
        /\ l <= Len(ev) /\ s' = s
        /\ LET e == ev[l] w == Why(e) IN
           IF w = {} THEN l' = l + 1 /\ tok' = IF e.o.op = "set" THEN [tok EXCEPT ![e.o.s] = e.o.t] ELSE Changed(tok, e.ch)
           ELSE /\ PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> w, calls |-> IF e.o.op = "set" THEN {} ELSE Calls(e.o, tok)])>>)
                /\ l' = Len(ev) + 1 /\ tok' = tok
Spec == Init /\ [][Next]_<<s, l, tok>>
=============================================================================
