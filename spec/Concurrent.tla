----------------------------- MODULE Concurrent -----------------------------
(* Property C18 and the concurrent part of C16: threads define, look up and convert at the same time.   *)
(*                                                                                                     *)
(* A call of the interface is a sequence of atomic steps. What a user relies on is which steps these   *)
(* are: creating an item, adding one base, setting an attribute, one lookup in one container are        *)
(* atomic; opening a class creates it and then adds each special constructor; adding a base adds it to  *)
(* the class and the class to the base; before a container is observed its deferred definition has run. *)
(* A behaviour interleaves the steps of the calls of all threads.                                       *)
(*                                                                                                     *)
(* State                                                                                               *)
(*   g    what is shared: the registry st (see Registry; its cur is not used, run says which thread     *)
(*        runs the definition), conv: registered converters, tid: identifiers of types                 *)
(*   T    T[t] = [cur, fr]: where thread t's definition is; the calls it is executing, outermost first, *)
(*        each call either an operation or a deferred definition                                       *)
(* Operations are those of Registry on the container where the thread is (a = 0) or on the class number *)
(* a, and further ones. Containers are reported by their qualified names.                              *)
EXTENDS Registry

Start2(n, names, nthreads) ==
    [ g |-> [st |-> [Start(n, names) EXCEPT !.co[1].run = 0], conv |-> <<>>, tid |-> [j \in 1..6 |-> 0]],
      T |-> [t \in 1..nthreads |-> [cur |-> [c |-> 1, e |-> 0, stk |-> <<>>, d |-> 0], fr |-> <<>>]] ]

Qn(st, c) == IF c = 0 THEN "" ELSE IF c = 1 THEN "global" ELSE st.co[c].qn
S1(s, c) == [s |-> s, c |-> c, x |-> 0, l |-> <<>>]
S2(s, c, x) == [s |-> s, c |-> c, x |-> x, l |-> <<>>]
S3(s, c, l) == [s |-> s, c |-> c, x |-> 0, l |-> l]

-----------------------------------------------------------------------------
(* Steps of an operation which begins where the thread is *)
OnContainer(o, c, st) ==
    CASE o.op = "obs" -> << S1("trig", c), S1("core", c) >>
      [] o.op \in {"methodBy", "propBy"} -> IF o.n = "" THEN <<>> ELSE << S1("visit", c) >>
      [] o.op = "inherits" -> IF st.co[c].k = 0 THEN <<>> ELSE << S1("inh", c) >>
      [] o.op = "force" -> << S1("force", c) >>
      [] o.op = "each" -> << S1("trig", c), S1("snap", c) >>
Scoped == {"ns", "class", "nsx", "clsx", "enum", "method", "ctor", "prop"}
OnClass == {"obs", "methodBy", "propBy", "inherits", "force", "each"}
AsSeq(o) == IF o.op = "nsx" THEN [o EXCEPT !.op = "ns"] ELSE IF o.op = "clsx" THEN [o EXCEPT !.op = "class"] ELSE o
WithCur(st, cur) == [st EXCEPT !.cur = cur]
Steps(st, cur, o) ==
    IF o.op \notin OnClass \cup {"find", "creg", "cunreg", "chas", "cuse", "type", "tname"} /\ ~Applies(WithCur(st, cur), AsSeq(o)) THEN <<>>
    ELSE CASE o.op \in Scoped -> IF o.op = "prop" /\ o.n = "" THEN <<>> ELSE << S1("trig", cur.c), S1(IF o.op \in {"class", "clsx"} THEN "mk" ELSE IF o.op = "ns" THEN "mkns" ELSE "core", cur.c) >>
           [] o.op = "base" -> [i \in DOMAIN o.l |-> S2("base", cur.c, o.l[i])]
           [] o.op \in OnClass -> IF o.a = 0 THEN OnContainer(o, cur.c, st) ELSE << S2("class", 0, o.a) >>
           [] o.op = "type" -> IF o.a > 3 THEN << S2("type", 0, o.a - 3), S2("type", 1, o.a) >> ELSE << S2("type", 1, o.a) >>
           [] OTHER -> << S1("core", cur.c) >>

(* An operation done in one step, as in Registry with nothing pending *)
Core(st, cur, c, o) ==
    LET p == AsSeq(IF o.op = "obs" THEN [o EXCEPT !.a = c] ELSE o)
        masked == [st EXCEPT !.cur = cur, !.co = [i \in DOMAIN @ |-> [@[i] EXCEPT !.run = FALSE, !.lazy = IF o.op = "lazy" THEN @ ELSE 0]]]
        r == Apply(masked, p, <<>>)
        back == [r.st EXCEPT !.cur = st.cur, !.co = [i \in DOMAIN @ |-> [@[i] EXCEPT !.run = IF i \in DOMAIN st.co THEN st.co[i].run ELSE 0,
                                                                                      !.lazy = IF i \in DOMAIN st.co /\ o.op # "lazy" THEN st.co[i].lazy ELSE @]]]
        named == IF o.op = "obs" /\ o.m \in {"nsBy", "classBy"}
                 THEN << Qn(st, FindBy(st, IF o.m = "nsBy" THEN st.co[c].ns ELSE st.co[c].class, o.n)) >>
                 ELSE IF o.op = "find" THEN << Qn(st, st.cls[o.a]) >> ELSE r.res
    IN  [st |-> back, cur |-> IF o.op \in {"nsx", "clsx"} THEN cur ELSE r.st.cur, out |-> r.out, res |-> named]

ConvOf(conv, p) == LET i == SelectInSeq(conv, LAMBDA x : x[1] = p) IN IF i = 0 THEN 0 ELSE conv[i][2]

(* One step: from g, thread state th and the first step x of frame f (an operation), the possible outcomes:   *)
(* a set of [g, cur, todo, out, res, done], todo: what replaces the step                                  *)
Res(g, cur, todo) == [g |-> g, cur |-> cur, todo |-> todo, out |-> "ok", res |-> <<>>, set |-> FALSE, stop |-> FALSE]
Give(g, cur, out, res) == [g |-> g, cur |-> cur, todo |-> <<>>, out |-> out, res |-> res, set |-> TRUE, stop |-> TRUE]
St(g, st) == [g EXCEPT !.st = st]
Do(g, t, cur, o, x, xres) ==
    LET st == g.st c == x.c IN
    CASE x.s \in {"trig", "trig2"} -> IF st.co[c].lazy = 0 \/ st.co[c].run = t THEN { Res(g, cur, <<>>) } ELSE {}
      [] x.s = "core" ->
            ( CASE o.op = "creg" -> IF ConvOf(g.conv, o.a) # 0 THEN { Give(g, cur, "ok", <<"0">>) }
                                   ELSE { Give([g EXCEPT !.conv = Append(@, <<o.a, o.b>>)], cur, "ok", <<"1">>) }
                [] o.op = "cunreg" -> { Give([g EXCEPT !.conv = SelectSeq(@, LAMBDA y : y[1] # o.a)], cur, "ok", <<>>) }
                [] o.op = "chas" -> { Give(g, cur, "ok", << IF ConvOf(g.conv, o.a) # 0 THEN "1" ELSE "0" >>) }
                [] o.op = "cuse" -> { Give(g, cur, "ok", << ToString(ConvOf(g.conv, o.a)) >>) }
                [] o.op = "tname" -> IF g.tid[o.a] = 0 THEN { Give(g, cur, "ok", <<"0">>) }
                                     ELSE { Give([g EXCEPT !.tid[o.a] = v], cur, "ok", << ToString(v) >>) :
                                            v \in IF g.tid[o.a] > 0 THEN { g.tid[o.a] } ELSE { y \in 1..12 : xres = << ToString(y) >> /\ \A j \in DOMAIN g.tid : g.tid[j] # y } }
                [] OTHER -> LET r == Core(st, cur, c, o) IN { Give(St(g, r.st), r.cur, r.out, r.res) } )
      [] x.s = "type" -> IF x.c = 0 THEN { Res([g EXCEPT !.tid[x.x] = IF @ = 0 THEN -1 ELSE @], cur, <<>>) }
                         ELSE { Give([g EXCEPT !.tid[x.x] = v], cur, "ok", << ToString(v) >>) :
                                v \in IF g.tid[x.x] > 0 THEN { g.tid[x.x] } ELSE { y \in 1..12 : xres = << ToString(y) >> /\ \A j \in DOMAIN g.tid : g.tid[j] # y } }
      \* the driver looks for the namespace it has opened, regardless of what definitions throw meanwhile
      [] x.s = "mkns" -> LET r == Core(st, cur, c, o) IN { Res(St(g, r.st), cur, << S1("trig2", c), S1("enter", r.cur.c) >>) }
      [] x.s = "mk" ->
            LET f == FindBy(st, st.co[c].class, o.n) n == Len(st.co) + 1
                Then(y) == << S1("trig", y), S2("auto", y, 1), S1("trig", y), S2("auto", y, 2), S1("trig", y), S2("auto", y, 3), S1("enter", y) >>
            IN  IF f # 0 THEN IF st.co[f].k = o.a THEN { Res(g, cur, Then(f)) } ELSE { Give(g, cur, "duplicate", <<>>) }
                ELSE IF st.cls[o.a] # 0 THEN { Give(g, cur, "duplicate", <<>>) }
                ELSE { Res(St(g, [st EXCEPT !.co = Append([@ EXCEPT ![c].class = Append(@, n)], [NewContainer(st, o.a, o.n, c) EXCEPT !.run = 0]), !.cls[o.a] = n]), cur, Then(n)) }
      [] x.s = "auto" -> { Res(St(g, [st EXCEPT !.co[c].ctor = AddOnce(@, AutoCtors[x.x])]), cur, <<>>) }
      [] x.s = "enter" -> { Res(g, IF o.op = "clsx" THEN cur ELSE [c |-> c, e |-> 0, stk |-> Append(cur.stk, cur.c), d |-> cur.d], <<>>) }
      [] x.s = "base" -> IF st.cls[x.x] = 0 THEN { Give(g, cur, "unregistered", <<>>) }
                         ELSE { Res(g, cur, << S2("addb", c, x.x), S2("addd", c, x.x) >>), Res(g, cur, << S2("addd", c, x.x), S2("addb", c, x.x) >>) }
      [] x.s = "addb" -> { Res(St(g, [st EXCEPT !.co[c].bases = AddTo(@, x.x)]), cur, <<>>) }
      [] x.s = "addd" -> { Res(St(g, [st EXCEPT !.co[st.cls[x.x]].derived = AddTo(@, st.co[c].k)]), cur, <<>>) }
      [] x.s = "class" -> IF st.cls[x.x] = 0 THEN { Give(g, cur, "ok", <<"null">>) } ELSE { Res(g, cur, OnContainer(o, st.cls[x.x], st)) }
      \* lookup of members: the class itself, then its bases
      [] x.s = "visit" -> { Res(g, cur, << S1("trig", c), S1("own", c) >>) }
      [] x.s = "own" -> LET i == IF o.op = "methodBy" THEN FindMember(st.co[c].method, o.n) ELSE Find(st.co[c].prop, o.n)
                            m == IF o.op = "methodBy" THEN st.co[c].method[i] ELSE st.co[c].prop[i]
                        IN  IF i # 0 THEN { Give(g, cur, "ok", << Qn(st, c), m[1], ToString(m[2]) >>) } ELSE { Res(g, cur, << S1("up", c) >>) }
      [] x.s = "up" -> { Res(g, cur, [i \in DOMAIN st.co[c].bases |-> S1("visit", st.cls[st.co[c].bases[i]])]) }
      \* o.b: the class searched for
      [] x.s = "inh" -> IF st.cls[o.b] = 0 THEN { Give(g, cur, "ok", <<"null">>) } ELSE { Res(g, cur, << S1("inh1", c) >>) }
      [] x.s = "inh1" -> IF c = st.cls[o.b] THEN { Give(g, cur, "ok", <<"1">>) } ELSE { Res(g, cur, << S1("trig", c), S1("inh2", c) >>) }
      [] x.s = "inh2" -> { Res(g, cur, [i \in DOMAIN st.co[c].bases |-> S1("inh1", st.cls[st.co[c].bases[i]])]) }
      [] x.s = "force" -> { Res(g, cur, << S1("trig", c), S2("fcls", c, 1), S2("fns", c, 1) >>) }
      [] x.s = "fcls" -> { Res(g, cur, IF x.x > Len(st.co[c].class) THEN <<>> ELSE << S1("force", st.co[c].class[x.x]), S2("fcls", c, x.x + 1) >>) }
      [] x.s = "fns" -> { Res(g, cur, IF x.x > Len(st.co[c].ns) THEN <<>> ELSE << S1("force", st.co[c].ns[x.x]), S2("fns", c, x.x + 1) >>) }
      \* enumerations with a callback
      [] x.s = "snap" -> LET names == IF o.m = "class" THEN Names(st, st.co[c].class) ELSE IF o.m = "method" THEN Firsts(st.co[c].method) ELSE Firsts(st.co[c].attr) IN
                         { Res(g, cur, << S3("items", c, names) >>) }
      [] x.s = "items" -> IF x.l # <<>> THEN {} ELSE { Res(g, cur, <<>>) }
      [] x.s = "fin" -> { [Res(St(g, [st EXCEPT !.co[c].lazy = 0, !.co[c].run = 0]), cur, <<>>) EXCEPT !.out = x.l[1], !.set = x.l[1] # "ok", !.stop = x.l[1] # "ok"] }

(* Lookups which found nothing *)
Default(o) == CASE o.op = "inherits" -> <<"0">> [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* Frames *)
Call(g, th, o, out, res) ==
    LET todo == Steps(g.st, th.cur, o) IN
    [th EXCEPT !.fr = Append(@, [k |-> "op", o |-> o, todo |-> todo, out |-> "ok", res |-> IF todo = <<>> THEN <<>> ELSE Default(o), xout |-> out, xres |-> res, saved |-> th.cur, c |-> 0, i |-> 0])]
Busy(th) == th.fr # <<>> /\ Last(th.fr).k = "op" /\ Last(th.fr).todo # <<>>
Complete(th) == th.fr # <<>> /\ Last(th.fr).k = "op" /\ Last(th.fr).todo = <<>>
Agrees(f) == f.out = f.xout /\ (f.out = "ok" => f.res = f.xres)
Return(th) == [th EXCEPT !.fr = Front(@)]

(* all possible next [g, th] of one step of thread t. check: only those which agree with what the call will return *)
StepOf(g, t, th, check) ==
    LET f == Last(th.fr) x == Head(f.todo)
        R1(r) == LET f2 == [f EXCEPT !.todo = IF r.stop THEN <<>> ELSE r.todo \o Tail(@), !.out = IF r.set THEN r.out ELSE @, !.res = IF r.set THEN r.res ELSE @]
                 IN  [g |-> r.g, th |-> [cur |-> r.cur, fr |-> Front(th.fr) \o <<f2>>], f |-> f2]
        all == { R1(r) : r \in Do(g, t, th.cur, f.o, x, f.xres) }
    IN  { [g |-> y.g, th |-> y.th] : y \in { z \in all : (check /\ z.f.todo = <<>>) => Agrees(z.f) } }

(* The deferred definition i of container c begins in thread t. The thread is about to observe or extend c *)
AboutTo(th, c) == Busy(th) /\ Head(Last(th.fr).todo).c = c /\ Head(Last(th.fr).todo).s \in {"trig", "trig2"}
MayRun(g, th, c, i) == AboutTo(th, c) /\ g.st.co[c].lazy = i /\ g.st.co[c].run = 0
RunIt(g, t, th, c, i) ==
    [ g |-> St(g, [g.st EXCEPT !.co[c].run = t, !.ran = Append(@, <<c, i>>)]),
      th |-> [cur |-> [c |-> c, e |-> 0, stk |-> <<>>, d |-> IF g.st.co[c].k = 0 THEN 0 ELSE 1],
              fr |-> Append(th.fr, [k |-> "lazy", o |-> 0, todo |-> <<>>, out |-> "ok", res |-> <<>>, xout |-> "", xres |-> <<>>, saved |-> th.cur, c |-> c, i |-> i])] ]
EndIt(th, out) ==
    LET f == Last(th.fr) rest == Front(th.fr) p == Last(rest)
        p2 == [p EXCEPT !.todo = << S3("fin", f.c, <<IF p.todo[1].s = "trig2" THEN "ok" ELSE out>>) >> \o @]
    IN  [cur |-> f.saved, fr |-> Front(rest) \o <<p2>>]

-----------------------------------------------------------------------------
(* what is seen of a container in the end *)
LookQ(st, c) == LET x == Look(st, c) IN
    [k |-> x.k, qn |-> x.qn, name |-> x.name, owner |-> Qn(st, x.owner), ns |-> x.ns, class |-> x.class, prop |-> x.prop, method |-> x.method,
     enum |-> x.enum, ctor |-> x.ctor, attr |-> x.attr, bases |-> x.bases, derived |-> x.derived, sane |-> <<>>]
AsBool(st) == [st EXCEPT !.co = [i \in DOMAIN @ |-> [@[i] EXCEPT !.run = @ # 0]]]
=============================================================================
