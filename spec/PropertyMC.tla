----------------------------- MODULE PropertyMC -----------------------------
(* Model checking of Property: gets and sets of UNIVERSE, one after another,  *)
(* between changes of what is passed; laws of the steps.                      *)
EXTENDS Property
CONSTANTS MaxDepth
Universe == ndJsonDeserialize(IOEnv.UNIVERSE)     \* [op, p, by, s, v, thr, k, t]
VARIABLES tok, st, last, n
vars == <<tok, st, last, n>>
Passed == UNION { { Universe[i].v } \cup (IF SLOTS[Universe[i].v].u.a = 1 THEN {Universe[i].v} ELSE {}) : i \in { j \in DOMAIN Universe : Universe[j].v # 0 } }
Used == { x \in Passed \cup { Universe[i].s : i \in DOMAIN Universe } : x # 0 }
Pointers == { x \in Used : SLOTS[x].u.a = 1 }
Nothing == [op |-> "set", p |-> 0, by |-> "prop", s |-> 0, v |-> 0, thr |-> FALSE, k |-> 0, t |-> 0]
Init == tok = [s \in DOMAIN SLOTS |-> 0] /\ st = Start /\ last = [o |-> Nothing, out |-> "ok", sets |-> 0] /\ n = 0
Change == \E s \in Passed \cup Pointers, t \in {0, 2} : /\ SLOTS[s].k # 0 /\ tok[s] # t /\ tok' = [tok EXCEPT ![s] = t] /\ st' = st
            /\ last' = [o |-> [Nothing EXCEPT !.s = s, !.t = t], out |-> "ok", sets |-> 0]
Read == \E i \in DOMAIN Universe : LET o == Universe[i] g == Get(o.p, o.s, o.by, tok, st) IN
            /\ o.op = "get" /\ UNCHANGED <<tok, st>>
            /\ last' = [o |-> o, out |-> IF g.ok THEN "ok" ELSE "refused", sets |-> 0]
Write == \E i \in DOMAIN Universe : LET o == Universe[i] IN
            /\ o.op = "put"
            /\ \E x \in Set(o.p, o.s, o.by, o.v, o.thr, tok, st) :
                /\ tok' = [tok EXCEPT ![o.v] = x.src] /\ st' = x.st
                /\ last' = [o |-> o, out |-> x.out, sets |-> x.sets]
Next == n < MaxDepth /\ n' = n + 1 /\ (Change \/ Read \/ Write)
Spec == Init /\ [][Next]_vars
View == <<tok, st, n>>
Changed == { x \in UNION { { <<o, k>> : k \in DOMAIN st[o] } : o \in DOMAIN st } : st[x[1]][x[2]] # Start[x[1]][x[2]] }
Emit == (last'.o.op # "set") => PrintT(<<"ACCESS", ToJson([t |-> { <<s, tok[s]>> : s \in Used }, st |-> { <<x[1], x[2], st[x[1]][x[2]]>> : x \in Changed }, o |-> last'.o])>>)

P(o) == PROPS[o.p]
Differ(a, b) == UNION { { <<o, k>> : k \in { j \in DOMAIN a[o] : a[o][j] # b[o][j] } } : o \in DOMAIN a }
(* ---- laws *)
(* a read never changes anything and succeeds exactly when it fits *)
ReadsChangeNothing == last'.o.op = "get" => UNCHANGED <<tok, st>>
(* a write that isn't done changes no variable; one that is, at most the one it denotes; read-only ones never change *)
OneVariable == last'.o.op = "put" => LET D == Differ(st, st') IN
    /\ last'.out # "ok" => D = {}
    /\ Cardinality(D) <= 1
    /\ \A x \in D : x[2] = P(last'.o).store /\ ~P(last'.o).ro /\ (P(last'.o).static => x[1] = 0) /\ (~P(last'.o).static => x[1] # 0)
(* what was written is read, by any property of the same variable *)
WrittenIsRead == (last'.o.op = "put" /\ last'.out = "ok") => LET o == last'.o IN
    \A q \in DOMAIN PROPS : (PROPS[q].store = P(o).store /\ PROPS[q].cls = P(o).cls /\ PROPS[q].static = P(o).static) =>
        LET g == Get(q, o.s, "prop", tok', st') IN
        (g.ok /\ g.res[1][3] # -1 /\ (o.s = 0 \/ SetHow(o.p, o.s, o.by) # "copy") /\ ~(o.s # 0 /\ GetHow(q, o.s) = "copy" /\ P(o).t = Move)) => g.res[1][4] = tok[o.v]
(* writing fails on constants: through constant variants, references to const and pointers to const, unless the setter is const *)
Constants == (last'.o.op = "put" /\ last'.out # "refused" /\ last'.o.s # 0 /\ ~P(last'.o).set.const) =>
    LET s == last'.o.s U == SLOTS[s].u IN
    /\ U.a = 0 => ~U.c[1] /\ ~SeenConstant(s, last'.o.by)
    /\ U.a = 1 => ~U.c[1]
(* what is passed is changed only when it is given away *)
Values == last'.o.op = "put" => \A s \in DOMAIN tok : tok'[s] # tok[s] => s = last'.o.v /\ SLOTS[s].r = "r" /\ ~(Const(SLOTS[s].u)) /\ tok'[s] = 0
Accessors == last'.o.op = "put" => last'.sets = (IF last'.out \in {"ok", "thrown"} /\ P(last'.o).acc THEN 1 ELSE 0)
ReadsP == [][ReadsChangeNothing]_vars
OneVariableP == [][OneVariable]_vars
WrittenIsReadP == [][WrittenIsRead]_vars
ConstantsP == [][Constants]_vars
ValuesP == [][Values]_vars
AccessorsP == [][Accessors]_vars
=============================================================================
