---------------------------- MODULE ConcurrentMC ----------------------------
(* Two threads, each doing one of Progs after Prefix, every interleaving of the steps.                       *)
(* Exclusive: a deferred definition runs only while no other thread runs one (one mutex for all of them, the *)
(* design of the library). Sequential: the programs' calls are single steps, so the outcome must be that of  *)
(* doing the calls one at a time.                                                                            *)
EXTENDS Concurrent
CONSTANTS Progs, LZ, Prefix, Exclusive, Sequential
Names5 == <<"K1&", "K1 const&", "K2&", "K2 const&", "K3&", "K3 const&", "K4&", "K4 const&", "K5&", "K5 const&">>
O(p, a, b, n, m, l) == [op |-> p, a |-> a, b |-> b, n |-> n, m |-> m, l |-> l]

(* one operation from beginning to end without interference *)
RECURSIVE Alone(_, _, _)
Alone(g, t, th) ==
    LET f == Last(th.fr) IN
    IF f.k = "lazy" THEN
        IF f.todo = <<>> THEN Alone(g, t, EndIt(th, "ok"))
        ELSE Alone(g, t, Call(g, [th EXCEPT !.fr = Front(@) \o << [f EXCEPT !.todo = Tail(@)] >>], f.todo[1], "", <<>>))
    ELSE IF f.todo = <<>> THEN
        IF Len(th.fr) = 1 THEN [g |-> g, th |-> Return(th), out |-> f.out, res |-> f.res]
        ELSE LET r == Return(th) IN Alone(g, t, IF f.out = "ok" THEN r ELSE EndIt(r, f.out))
    ELSE LET x == f.todo[1] IN
         IF x.s \in {"trig", "trig2"} /\ g.st.co[x.c].lazy # 0 /\ g.st.co[x.c].run = 0
         THEN LET r == RunIt(g, t, th, x.c, g.st.co[x.c].lazy) IN
              Alone(r.g, t, [r.th EXCEPT !.fr = Front(@) \o << [Last(@) EXCEPT !.todo = LZ[g.st.co[x.c].lazy]] >>])
         ELSE IF x.s = "items" THEN Alone(g, t, [th EXCEPT !.fr = Front(@) \o << [f EXCEPT !.todo = Tail(@)] >>])
         ELSE LET r == CHOOSE y \in StepOf(g, t, th, FALSE) : TRUE IN Alone(r.g, t, r.th)
One(g, t, th, o) == Alone(g, t, Call(g, th, o, "", <<>>))
RECURSIVE Outcomes(_, _, _, _)
Outcomes(g, ths, progs, res) ==
    IF \A t \in DOMAIN progs : progs[t] = <<>> THEN { [st |-> [g.st EXCEPT !.ran = <<>>], conv |-> g.conv, res |-> res] }
    ELSE UNION { LET r == One(g, t, ths[t], progs[t][1]) IN
                 Outcomes(r.g, [ths EXCEPT ![t] = r.th], [progs EXCEPT ![t] = Tail(@)], [res EXCEPT ![t] = Append(@, <<r.out, r.res>>)])
                 : t \in { u \in DOMAIN progs : progs[u] # <<>> } }

VARIABLES g, T, prog, first, res
vars == <<g, T, prog, first, res>>
Begin == LET x == Start2(5, Names5, 2) a == FoldLeft(LAMBDA s, o : LET r == One(s.g, 1, s.th, o) IN [g |-> r.g, th |-> r.th], [g |-> x.g, th |-> x.T[1]], Prefix)
         IN  [g |-> a.g, T |-> x.T]
Init == /\ g = Begin.g /\ T = Begin.T /\ prog \in [1..2 -> Progs] /\ first = prog /\ res = [t \in 1..2 |-> <<>>]
Thread(t) ==
    LET th == T[t] n == Len(th.fr) f == Last(th.fr) Others == UNCHANGED <<prog, first, res>> IN
    \/ n = 0 /\ prog[t] # <<>> /\ T' = [T EXCEPT ![t] = Call(g, th, prog[t][1], "", <<>>)] /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<g, first, res>>
    \/ n > 0 /\ f.k = "lazy" /\ g' = g /\ Others
       /\ T' = [T EXCEPT ![t] = IF f.todo = <<>> THEN EndIt(th, "ok") ELSE Call(g, [th EXCEPT !.fr = Front(@) \o << [f EXCEPT !.todo = Tail(@)] >>], f.todo[1], "", <<>>)]
    \/ n > 0 /\ f.k = "op" /\ f.todo = <<>> /\ g' = g /\ UNCHANGED <<prog, first>>
       /\ T' = [T EXCEPT ![t] = LET r == Return(th) IN IF n = 1 \/ f.out = "ok" THEN r ELSE EndIt(r, f.out)]
       /\ res' = IF n = 1 THEN [res EXCEPT ![t] = Append(@, <<f.out, f.res>>)] ELSE res
    \/ Busy(th) /\ f.todo[1].s \in {"trig", "trig2"} /\ Others /\ LET c == f.todo[1].c i == g.st.co[c].lazy IN
       /\ i # 0 /\ g.st.co[c].run = 0 /\ (Exclusive => \A d \in DOMAIN g.st.co : g.st.co[d].run \in {0, t})
       /\ LET r == RunIt(g, t, th, c, i) IN g' = r.g /\ T' = [T EXCEPT ![t] = [r.th EXCEPT !.fr = Front(@) \o << [Last(@) EXCEPT !.todo = LZ[i]] >>]]
    \/ Busy(th) /\ f.todo[1].s = "items" /\ Others /\ g' = g /\ T' = [T EXCEPT ![t].fr = Front(@) \o << [f EXCEPT !.todo = Tail(@)] >>]
    \/ Busy(th) /\ f.todo[1].s # "items" /\ Others /\ \E r \in StepOf(g, t, th, FALSE) : g' = r.g /\ T' = [T EXCEPT ![t] = r.th]
Next == Thread(1) \/ Thread(2)
Spec == Init /\ [][Next]_vars
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A t \in 1..2 : prog[t] = <<>> /\ T[t].fr = <<>>
NoDeadlock == Done \/ ENABLED Next
Termination == <>Done
st == g.st
Added(i) == LET N(l) == Cardinality({ j \in DOMAIN l : l[j].op = "lazy" /\ l[j].a = i }) IN
            N(Prefix) + N(first[1]) + N(first[2]) + FoldLeft(LAMBDA n, l : n + N(l), 0, LZ)
UniqueRuns == \A i \in DOMAIN st.ran : Cardinality({ j \in DOMAIN st.ran : st.ran[j][2] = st.ran[i][2] }) <= Added(st.ran[i][2])   \* each definition at most as often as it was made
Consistent == Unique(AsBool(st)) /\ Owned(AsBool(st)) /\ Classes(st) /\ UniqueRuns /\ \A c \in DOMAIN st.co : st.co[c].run # 0 => st.co[c].lazy # 0
InTheEnd == Done => Mirrored(st) /\ Resting(AsBool(st))
OneAtATime == (Done /\ Sequential) => [st |-> [st EXCEPT !.ran = <<>>], conv |-> g.conv, res |-> res] \in Outcomes(Begin.g, Begin.T, first, [t \in 1..2 |-> <<>>])
(* whoever looks at a container finds its definition done (or does it himself), and nobody sees it half done *)
Looking == \A t \in 1..2 : (Busy(T[t]) /\ T[t].fr[Len(T[t].fr)].todo[1].s \in {"core", "own"} /\ Last(T[t].fr).o.op \in {"obs", "methodBy", "propBy"}
                            /\ \A u \in 1..2 : \A i \in DOMAIN first[u] : first[u][i].op # "lazy")
               => LET c == T[t].fr[Len(T[t].fr)].todo[1].c IN st.co[c].lazy = 0 \/ st.co[c].run = t
Monotone == [][Stable(AsBool(st), AsBool(st'))]_vars
=============================================================================
