--------------------------- MODULE ConstructTrace ---------------------------
(* SCRIPTS: [kind, ...]:                                                     *)
(*  "specials"  [D, has: <<d, c, m>>, flags: <<d, c, m>>, n, got: seq of [w, out, t, src, live]] *)
(*  "lookup"    [decl, n, byType, byName: indexes, special: indexes]         *)
(*  "calls"     [ev: seq of [o, out, times, seen, res, ch, live, bad]]       *)
EXTENDS Construct
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
VARIABLES s, l, tok
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == s \in (1..Len(Scripts)) \ Skip /\ l = 1 /\ tok = [k \in DOMAIN SLOTS |-> 0]

(* ---- special members *)
Number(D) == (IF HasDefault(D) THEN 1 ELSE 0) + (IF HasCopy(D) THEN 1 ELSE 0) + (IF HasMove(D) THEN 1 ELSE 0)
SpecialsWhy(x) ==
    LET has == <<HasDefault(x.D), HasCopy(x.D), HasMove(x.D)>> IN
       (IF x.flags # has THEN {"rules of C++"} ELSE {})
  \cup (IF x.has # has THEN {"special constructors"} ELSE {})
  \cup (IF x.n # Number(x.D) THEN {"number of constructors"} ELSE {})
  \cup UNION { LET g == x.got[i] e == Attempt(x.D, g.w) IN
               (IF g.out # e.out \/ (e.out = "ok" /\ g.t # e.t) \/ g.src # e.src THEN {g.w} ELSE {}) \cup
               (IF g.live # (IF e.t # 0 THEN 1 ELSE 0) + (IF e.src = 0 THEN -1 ELSE 0) THEN {"number of live values"} ELSE {}) : i \in DOMAIN x.got }
  \cup (IF x.bad THEN {"lifetime"} ELSE {})

(* ---- lookup *)
LookupWhy(x) ==
       (IF x.n # 3 + Distinct(x.decl) THEN {"number of constructors"} ELSE {})
  \cup (IF 0 \in Range(x.byType) \/ 0 \in Range(x.byName) \/ 0 \in Range(x.special) \/ Cardinality(Range(x.special)) # 3 THEN {"not found"} ELSE {})
  \cup (IF x.byType # x.byName THEN {"by signature"} ELSE {})
  \cup (IF \E i, j \in DOMAIN x.decl : (x.byType[i] = x.byType[j]) # Same2(x.decl[i], x.decl[j]) THEN {"one constructor for each signature"} ELSE {})
  \cup (IF Range(x.byType) \cap Range(x.special) # {} THEN {"special constructors"} ELSE {})
  \cup (IF x.foreign # 0 THEN {"found what isn't there"} ELSE {})

(* ---- calls *)
Changed(t, ch) == LET m == [k \in { ch[i][1] : i \in DOMAIN ch } |-> LET i == CHOOSE j \in DOMAIN ch : ch[j][1] = k IN ch[i][2]] IN m @@ t
SeenOk(exp, got) == Len(exp) = Len(got) /\ \A i \in DOMAIN exp : exp[i].t = got[i][1] /\ (exp[i].w = got[i][2] \/ (exp[i].any /\ got[i][2] = 0))
CallWhy(e) ==
    LET o == e.o
        f == IF MayCall(o, tok) THEN {IF o.thr THEN "thrown" ELSE "ok"} ELSE {}
        r == Reported(Failures(o, tok)) \cup (IF MayRefuse(o, tok) THEN {"refused"} ELSE {})
        got == Changed(tok, e.ch)
    IN IF e.out \in f THEN
               (IF ~Special(o) /\ e.times # 1 THEN {"not called once"} ELSE {})
          \cup (IF ~Special(o) /\ ~SeenOk(After(o, tok).seen, e.seen) THEN {"arguments"} ELSE {})
          \cup (IF e.out = "ok" /\ e.res # NewObject(o, tok) THEN {"new object"} ELSE {})
          \cup (IF ~TokensOk(o, tok, e.out, Final(o, tok), got) THEN {"objects of the caller"} ELSE {})
       ELSE IF e.out \in r THEN
               (IF e.times # 0 THEN {"called"} ELSE {})
          \cup (IF ~TokensOk(o, tok, e.out, tok, got) THEN {"objects of the caller"} ELSE {})
       ELSE {"outcome"}
ConvWhy(e) ==
    LET o == e.o c == Converted(o) early == Fun(o).taken IN
       (IF e.can # c THEN {"convertible"} ELSE {})
  \cup (IF e.out \notin (IF ~c THEN {"refused"} ELSE IF o.thr /\ ~early THEN {"refused", "thrown"} ELSE {"ok"}) THEN {"outcome"} ELSE {})
  \cup (IF e.times # (IF c /\ ~early THEN 1 ELSE 0) THEN {"not called once"} ELSE {})
  \cup (IF c /\ ~early /\ (Len(e.seen) # 1 \/ e.seen[1][1] # tok[o.a[1]]) THEN {"arguments"} ELSE {})
  \cup (IF e.out = "ok" /\ e.res # <<Fun(o).res.j, IF early THEN 98 ELSE (o.f % 97) + 1>> THEN {"new object"} ELSE {})
  \cup (IF e.ch # <<>> THEN {"objects of the caller"} ELSE {})
After2(e) == IF e.o.op = "set" THEN [tok EXCEPT ![e.o.s] = e.o.t] ELSE Changed(tok, e.ch)
Why(e) == (CASE e.o.op = "set" -> (IF \E c \in { e.ch[i] : i \in DOMAIN e.ch } : c[1] # e.o.s THEN {"objects of the caller"} ELSE {})
             [] e.o.op = "conv" -> ConvWhy(e)
             [] OTHER -> CallWhy(e))
     \cup (IF e.live # Live(After2(e)) + (IF e.out = "ok" /\ e.o.op # "set" /\ e.res[2] # 0 THEN 1 ELSE 0) THEN {"number of live values"} ELSE {})
     \cup (IF e.bad THEN {"lifetime"} ELSE {})
Next == LET x == Scripts[s] IN
        /\ s' = s
        /\ IF x.kind = "calls" THEN
             /\ l <= Len(x.ev)
             /\ LET e == x.ev[l] w == Why(e) IN
                IF w = {} THEN l' = l + 1 /\ tok' = After2(e)
                ELSE /\ PrintT(<<"BAD", ToJson([s |-> s, l |-> l, why |-> w, exp |-> ToJson(IF e.o.op = "call" THEN Calls(e.o, tok) ELSE {})])>>)
                     /\ l' = Len(x.ev) + 1 /\ tok' = tok
           ELSE /\ l = 1 /\ l' = 2 /\ tok' = tok
                /\ LET w == IF x.kind = "specials" THEN SpecialsWhy(x) ELSE LookupWhy(x) IN
                   w # {} => PrintT(<<"BAD", ToJson([s |-> s, l |-> 1, why |-> w, exp |-> ""])>>)
Spec == Init /\ [][Next]_<<s, l, tok>>
=============================================================================
