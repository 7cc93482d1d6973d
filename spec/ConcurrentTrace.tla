--------------------------- MODULE ConcurrentTrace ---------------------------
(* HIST: [n, names, nt, lz, ev]: recorded histories. ev: call(t, o), run(t, c, i) and end(t, out) of deferred  *)
(* definitions, item(t) of an enumeration, ret(t, out, res), final(looks). A history is accepted when some    *)
(* behaviour of Concurrent has these events; steps happen between the call and the return.                  *)
EXTENDS Concurrent, Json, IOUtils
CONSTANT Verbose
Hist == ndJsonDeserialize(IOEnv.HIST)
VARIABLES s, l, g, T
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == /\ s \in (1..Len(Hist)) \ Skip /\ l = 1
        /\ LET x == Start2(Hist[s].n, Hist[s].names, Hist[s].nt) IN g = x.g /\ T = x.T
Ev == Hist[s].ev
e == Ev[l]

Looks(st) == { LookQ(st, c) : c \in DOMAIN st.co }
FinalOk == Looks(g.st) = Range(e.looks) /\ Len(e.looks) = Len(g.st.co) /\ Invariants(AsBool(g.st))
ItemReady == LET th == T[e.t] IN Busy(th) /\ Head(Last(th.fr).todo).s = "items" /\ Head(Last(th.fr).todo).l # <<>>
(* the next event can happen now; then nothing is gained by doing other steps first *)
Ready == CASE e.e = "call" -> TRUE
           [] e.e = "ret" -> Complete(T[e.t])
           [] e.e = "run" -> Busy(T[e.t]) /\ LET c == Head(Last(T[e.t].fr).todo).c IN MayRun(g, T[e.t], c, e.i)
           [] e.e = "end" -> TRUE
           [] e.e = "item" -> ItemReady
           [] e.e = "final" -> TRUE
(* what the call beginning at event k will return *)
RetOf(k) == LET t == Ev[k].t
                RECURSIVE Find2(_, _)
                Find2(j, d) == IF j > Len(Ev) THEN 0 ELSE IF Ev[j].t = t /\ Ev[j].e = "call" THEN Find2(j + 1, d + 1)
                               ELSE IF Ev[j].t = t /\ Ev[j].e = "ret" THEN IF d = 0 THEN j ELSE Find2(j + 1, d - 1) ELSE Find2(j + 1, d)
            IN  Find2(k + 1, 0)
Consume ==
    LET t == e.t th == T[t] IN
    /\ Ready /\ l' = l + 1 /\ s' = s
    /\ CASE e.e = "call" -> LET r == RetOf(l) IN T' = [T EXCEPT ![t] = Call(g, th, e.o, Ev[r].out, Ev[r].res)] /\ g' = g
         [] e.e = "ret" -> Agrees(Last(th.fr)) /\ T' = [T EXCEPT ![t] = Return(th)] /\ g' = g
         [] e.e = "run" -> LET c == Head(Last(th.fr).todo).c r == RunIt(g, t, th, c, e.i) IN
                           Qn(g.st, c) = e.c /\ g' = r.g /\ T' = [T EXCEPT ![t] = r.th]
         [] e.e = "end" -> Last(th.fr).k = "lazy" /\ Last(th.fr).i = e.i /\ T' = [T EXCEPT ![t] = EndIt(th, e.out)] /\ g' = g
         [] e.e = "item" -> LET f == Last(th.fr) x == Head(f.todo) IN
                            /\ Head(x.l) = e.res[1] /\ g' = g
                            /\ T' = [T EXCEPT ![t].fr = Front(th.fr) \o << [f EXCEPT !.todo = << [x EXCEPT !.l = Tail(@)] >> \o Tail(f.todo)] >>]
         [] e.e = "final" -> FinalOk /\ g' = g /\ T' = T /\ PrintT(<<"DONE", ToString(s)>>)
    /\ (Verbose => PrintT(<<"AT", ToString(l)>>))
Step == /\ ~Ready /\ s' = s /\ l' = l
        /\ \E t \in DOMAIN T : Busy(T[t]) /\ \E r \in StepOf(g, t, T[t], TRUE) : g' = r.g /\ T' = [T EXCEPT ![t] = r.th]
Next == l <= Len(Ev) /\ (Consume \/ Step)
Spec == Init /\ [][Next]_<<s, l, g, T>>
(* for a rejected history: what was expected in the end *)
Told == (Verbose /\ l <= Len(Ev) /\ e.e = "final" /\ ~FinalOk) =>
            PrintT(<<"LOOKS", ToJson([got |-> Range(e.looks) \ Looks(g.st), exp |-> Looks(g.st) \ Range(e.looks)])>>)
=============================================================================
