------------------------------ MODULE RegistryMC ------------------------------
(* The registry over a small universe: every definition program up to Len operations whose state stays within *)
(* the bounds. Steps are the operations in Ops (a sequence), LZ the deferred definitions.                    *)
EXTENDS Registry, TLCExt, Json
CONSTANTS Containers, Items, MaxRuns
Names5 == <<"K1&", "K1 const&", "K2&", "K2 const&", "K3&", "K3 const&", "K4&", "K4 const&", "K5&", "K5 const&">>
O(p, a, b, n, m, l) == [op |-> p, a |-> a, b |-> b, n |-> n, m |-> m, l |-> l]
VARIABLES st, op, out, log
vars == <<st, op, out, log>>
CONSTANTS Ops, LZ, Prefix      \* Prefix: operations done before
Init == st = FoldLeft(LAMBDA s, o : Apply(s, o, LZ).st, Start(5, Names5), Prefix) /\ op = O("init", 0, 0, "", "", <<>>) /\ out = "ok" /\ log = <<>>
        /\ PrintT(<<"INIT", ToJson(ToString(TLCFP(st)))>>)
Next == \E o \in Ops : /\ Applies(st, o)
                       /\ LET r == Apply(st, o, LZ) IN st' = r.st /\ out' = r.out /\ log' = r.log
                       /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Size(x) == Len(x.prop) + Len(x.method) + Len(x.attr) + FoldLeft(LAMBDA s, e : s + 1 + Len(e.el) + Len(e.attr), 0, x.enum)
              + Len(x.ctor) - (IF x.k = 0 THEN 0 ELSE 3)
Bounded == /\ Len(st.co) <= Containers /\ FoldLeft(LAMBDA s, x : s + Size(x), 0, st.co) <= Items
           /\ Len(st.ran) <= MaxRuns /\ Len(st.cur.stk) <= 2
Emit == PrintT(<<"EDGE", ToJson([s |-> ToString(TLCFP(st)), o |-> op', t |-> ToString(TLCFP(st'))])>>)
Hold == Invariants(st)

Observed == CASE op'.op \in {"dump", "obs", "methodBy", "propBy", "force"} -> op'.a
              [] op'.op = "inherits" /\ st.co[op'.a].k # 0 /\ st.cls[op'.b] \notin {0, op'.a} -> op'.a
              [] op'.op \in {"ns", "class", "enum", "method", "ctor"} -> st.cur.c [] OTHER -> 0
Runs == SubSeq(st'.ran, Len(st.ran) + 1, Len(st'.ran))
RunBodies(i) == \E j \in DOMAIN LZ : \E x \in DOMAIN LZ[j] : LZ[j][x].op = "lazy" /\ LZ[j][x].a = i
SubOf(s, c, d) == LET RECURSIVE Up(_) Up(x) == x = c \/ (x # 0 /\ x # 1 /\ Up(s.co[x].owner)) IN Up(d)
Closure(s, c, b) == LET RECURSIVE Up(_, _)
                        Up(x, n) == x = b \/ (n > 0 /\ \E i \in DOMAIN s.co[x].bases : Up(s.cls[s.co[x].bases[i]], n - 1)) IN Up(c, 5)
Obs2(s, c, what, q) == IF what = "methodBy" THEN FindMember(s.co[c].method, q) ELSE Find(s.co[c].prop, q)
Laws == [][
    /\ Stable(st, st')
    \* a step which fails leaves everything as it was
    /\ (out' \in {"duplicate", "definition"} /\ log' = <<>>) => st' = st
    /\ (op'.op = "base" /\ out' # "ok") => out' = "unregistered" /\ \E i \in DOMAIN op'.l : st.cls[op'.l[i]] = 0
    /\ (out' # "ok") => st'.cur = st.cur
    \* deferred definitions: nobody runs them but observation; after an observation nothing is pending; none is lost or repeated
    /\ Observed # 0 => st'.co[Observed].lazy = 0
    /\ \A i \in DOMAIN Runs : (Runs[i][1] \in DOMAIN st.co /\ st.co[Runs[i][1]].lazy = Runs[i][2]) \/ RunBodies(Runs[i][2])
    /\ \A c \in DOMAIN st.co : Cardinality({ i \in DOMAIN Runs : Runs[i] = <<c, st.co[c].lazy>> }) = 1
                               \/ st'.co[c].lazy = st.co[c].lazy \/ (st.co[c].lazy = 0 /\ st'.co[c].lazy # 0) \/ RunBodies(st.co[c].lazy)
    /\ (op'.op = "force" /\ out' = "ok") => \A d \in DOMAIN st'.co : SubOf(st', op'.a, d) => st'.co[d].lazy = 0
    /\ (op'.op = "lazy") => (out' = "definition" <=> st.co[st.cur.c].lazy # 0)
    \* inheritance is the closure of the declared bases
    /\ (op'.op = "inherits" /\ out' = "ok" /\ Apply(st', op', LZ).res # <<>>) => Apply(st', op', LZ).res = (IF Closure(st', op'.a, st'.cls[op'.b]) THEN <<"1">> ELSE <<"0">>)
    \* an own member hides inherited ones, an absent one is found in a base if at all
    /\ (op'.op \in {"methodBy", "propBy"} /\ out' = "ok") =>
           LET f == Apply(st', op', LZ) own == Obs2(st', op'.a, op'.op, op'.n) IN
           /\ (own # 0 /\ op'.n # "") => f.res[1] = ToString(op'.a)
           /\ (f.res # <<>>) => \E d \in DOMAIN st'.co : f.res[1] = ToString(d) /\ (d = op'.a \/ Closure(st', op'.a, d)) /\ Obs2(st', d, op'.op, op'.n) # 0
           /\ (f.res = <<>> /\ op'.n # "" /\ op'.a # 1) => \A d \in DOMAIN st'.co : (st'.co[d].k # 0 /\ st'.co[op'.a].k # 0 /\ Closure(st', op'.a, d)) => Obs2(st', d, op'.op, op'.n) = 0
    ]_vars
=============================================================================
