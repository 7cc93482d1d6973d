------------------------------ MODULE InvokeMC ------------------------------
(* Model checking of Invoke: calls of the functions FN with the slots SN, one *)
(* after another; laws of the calls and of the final contents.                *)
EXTENDS Invoke
CONSTANTS MaxDepth
Universe == ndJsonDeserialize(IOEnv.UNIVERSE)     \* [f, by, thr, a]
SetTo == {0, 8}
VARIABLES tok, last, n
vars == <<tok, last, n>>
Used == UNION { { Universe[i].a[j] : j \in DOMAIN Universe[i].a } : i \in DOMAIN Universe }
Nothing == [op |-> "set", f |-> 0, by |-> "", thr |-> FALSE, a |-> <<>>, s |-> 0, t |-> 0]
Init == tok \in { [s \in DOMAIN SLOTS |-> 0] } /\ last = [o |-> Nothing, out |-> "ok", times |-> 0, seen |-> <<>>] /\ n = 0
Set == \E s \in Used, t \in SetTo : /\ SLOTS[s].k # 0 /\ tok[s] # t
            /\ tok' = [tok EXCEPT ![s] = t]
            /\ last' = [o |-> [Nothing EXCEPT !.s = s, !.t = t], out |-> "ok", times |-> 0, seen |-> <<>>]
Call == \E i \in DOMAIN Universe : LET o == Universe[i] IN
            \E c \in Calls(o, tok) :
                /\ \E lost \in { {}, Taken(o, tok) \cup Plain(o) } : tok' = [s \in DOMAIN tok |-> IF s \in lost THEN 0 ELSE c.tok[s]]
                /\ last' = [o |-> o, out |-> c.out, times |-> c.times, seen |-> c.seen]
Next == n < MaxDepth /\ n' = n + 1 /\ (Set \/ Call)
Spec == Init /\ [][Next]_vars
View == <<tok, n>>
Emit == (last'.o.op = "call") => PrintT(<<"CALL", ToJson([t |-> [s \in Used |-> tok[s]], o |-> last'.o])>>)

Constant(s) == Const(SLOTS[s].u) \/ ConstVar(s)

(* laws of one step: o is called when contents are t1, afterwards they are t2 *)
OneOutcome(o, t1, t2, x) ==
    /\ Calls(o, t1) # {}
    /\ (x.times = 0) = (x.out \in {"refused", "stopped"})
    /\ x.times = 1 => Len(Args(o)) = Len(Params(o)) /\ (Fun(o).cls # 0 => o.a # <<>>)
(* nothing constant is changed, nor anything that isn't passed *)
Protected(o, t1, t2, x) ==
    \A s \in DOMAIN t1 : t2[s] # t1[s] =>
        /\ \E j \in DOMAIN o.a : o.a[j] = s
        /\ ~Constant(s)
        /\ SLOTS[s].r = "l" => \/ \E i \in DOMAIN Args(o) : Args(o)[i] = s /\ Params(o)[i].f = "l"
                               \/ (o.by = "name" /\ o.a[1] = s)
                               \/ (Fun(o).cls # 0 /\ ~Fun(o).const /\ o.a[1] = s)
        /\ x.times = 0 => SLOTS[s].r = "r"     \* given away when it was passed
(* value categories and constness of what is passed *)
Categories(o, t1, t2, x) ==
    x.times = 1 => \A i \in DOMAIN Args(o) :
        LET a == Args(o)[i] p == Params(o)[i] S == SLOTS[a] b == Bound(o, t1, i) IN
        /\ p.f = "l" => Cat(o, i) = "l" /\ (~Constant(a) \/ (p.t = VARIANT /\ ~S.c))
        /\ p.f = "r" => Cat(o, i) = "r" /\ ~ConstVar(a)
        /\ (p.f \in {"l", "c", "r"} /\ p.t = S.k /\ S.u.n = 0 /\ ~(p.f = "r" /\ Constant(a))) => IsObject(b)
        /\ (p.f = "v" /\ p.t = Move) => Cat(o, i) = "r"
(* every argument is at its place, and seen as it is (unless something before it changed it) *)
Positions(o, t1, t2, x) ==
    x.times = 1 => \A i \in DOMAIN Args(o) :
        LET off == Len(o.a) - Len(Args(o)) e == x.seen[i + off] IN
        (\A j \in DOMAIN o.a : j # i + off => o.a[j] # Args(o)[i]) => e.t = t1[Args(o)[i]]
Instances(o, t1, t2, x) ==
    (x.times = 1 /\ Fun(o).cls # 0) => LET i == Instance(o.a[1], o.f, o.by) IN
        /\ i \in {"object", "copy", "pointer"}
        /\ (i = "object" /\ ~Fun(o).const) => ~Constant(o.a[1])
        /\ (i = "copy") => Fun(o).const

Step(Law(_, _, _, _)) == last'.o.op = "call" => Law(last'.o, tok, tok', last')
OneOutcomeP == [][Step(OneOutcome)]_vars
ProtectedP  == [][Step(Protected)]_vars
CategoriesP == [][Step(Categories)]_vars
PositionsP  == [][Step(Positions)]_vars
InstancesP  == [][Step(Instances)]_vars
=============================================================================
