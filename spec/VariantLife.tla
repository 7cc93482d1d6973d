---------------------------- MODULE VariantLife ----------------------------
(* Properties C01 and C02: variants as independent values, and the lifetime  *)
(* of what they hold.                                                        *)
(*                                                                           *)
(* State: v     variants: contents                                           *)
(*        ext   ext[k]: token of the one object of kind k outside variants   *)
(*        pool  objects made by MetaType::construct                          *)
(* Content: [f |-> "none"], [f |-> "val", k |-> kind, t |-> token],          *)
(*          [f |-> "ref" / "cref", k |-> kind, t |-> 0] (refers to ext[k])   *)
(* Token 0 is the value of an object whose value was moved away.             *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils

KindTable == ndJsonDeserialize(IOEnv.KINDS)   \* sequence of [copy, move, dflt, n, live, thr, arr]: can be copied; moving takes
                     \* the value away; default constructible; number of elements; tracked lifetime;
                     \* constructors may throw; is an array
K(k) == KindTable[k]
DefaultToken == 99

None == [f |-> "none", k |-> 0, t |-> 0]
Val(k, t) == [f |-> "val", k |-> k, t |-> t]
Ref(k) == [f |-> "ref", k |-> k, t |-> 0]
CRef(k) == [f |-> "cref", k |-> k, t |-> 0]

(* token visible through a content *)
Token(st, c) == CASE c.f = "none" -> 0
                  [] c.f = "val" -> c.t
                  [] OTHER -> st.ext[c.k]
AfterMove(k, t) == IF K(k).move THEN 0 ELSE t

(* number of tracked values alive *)
Add(x, y) == x + y
Sum(w) == FoldLeft(Add, 0, w)   \* of a sequence
Weight(c) == IF c.f = "val" /\ c.t # 0 THEN K(c.k).live * K(c.k).n ELSE 0
Live(st) == Sum([i \in DOMAIN st.v |-> Weight(st.v[i])])
          + Sum([i \in DOMAIN st.pool |-> Weight(st.pool[i])])
          + Sum([k \in DOMAIN st.ext |-> IF st.ext[k] # 0 THEN K(k).live * K(k).n ELSE 0])

-----------------------------------------------------------------------------
(* Operations. o = [op, a, b, k, t, w, f]: a, b variants; k kind; t token;   *)
(* w way; f: the f-th constructor called by the operation throws (0: none)   *)

(* Operations which do not make sense (would not compile, or have undefined behaviour) are not enabled *)
Enabled(st, o) ==
    LET c == IF o.op \in {"mc", "md"} THEN st.pool[o.a] ELSE IF o.op = "x" THEN None ELSE st.v[o.a] IN
    CASE o.op \in {"mkc", "in"} -> K(o.k).copy
      [] o.op = "set" -> c.f # "none"
      [] o.op = "ss" -> c.f # "none" /\ K(c.k).copy
      [] o.op = "sm" -> c.f \in {"val", "ref"}
      [] o.op = "rr" -> c.f = "val"
      [] o.op = "to" -> c.f # "none" /\ ~K(c.k).arr
      [] o.op = "cv" -> ~K(o.k).arr
      [] o.op = "mc" -> c.f = "none"
      [] o.op = "md" -> c.f # "none"
      [] OTHER -> TRUE

(* constructors that have to be called at least; the f-th of them throwing fails the operation *)
Needed(st, o) ==
    LET c == IF o.op = "x" THEN None ELSE IF o.op \in {"mc", "md"} THEN st.pool[o.a] ELSE st.v[o.a] IN
    CASE o.op \in {"mk", "mkc", "in", "inm", "mc"} -> K(o.k).n
      [] o.op = "cp" -> IF o.a # o.b /\ c.f = "val" THEN K(c.k).n ELSE 0
      [] o.op \in {"ss", "sm", "to"} -> K(c.k).n
      [] o.op = "cv" -> 1
      [] OTHER -> 0

(* conversions which exist besides the identity: kind -> kind *)
Converters == LET c == ndJsonDeserialize(IOEnv.CONVS) IN { <<c[i][1], c[i][2]>> : i \in 1..Len(c) }
CanConvert(st, o) == LET c == st.v[o.a] IN c.f # "none" /\ ((c.k = o.k /\ K(c.k).copy) \/ <<c.k, o.k>> \in Converters)

(* failure which is certain: "" or its category *)
Refusal(st, o) ==
    CASE o.op = "cp" /\ (o.a # o.b \/ o.w = 1) /\ st.v[o.a].f = "val" /\ ~K(st.v[o.a].k).copy -> "runtime"
      [] o.op = "set" /\ st.v[o.a].f = "cref" -> "cast"
      [] o.op = "to" /\ ~K(st.v[o.a].k).copy -> "runtime"
      [] o.op = "cv" /\ ~CanConvert(st, o) ->
            IF o.w = 1 THEN "false" ELSE IF st.v[o.a].f # "none" /\ st.v[o.a].k = o.k THEN "runtime" ELSE "cast"
      [] o.op = "mc" /\ ((o.w = 0 /\ ~K(o.k).dflt) \/ (o.w = 1 /\ ~K(o.k).copy)) -> "runtime"
      [] OTHER -> ""

(* a failing conversion function is reported as a failed conversion *)
FaultNames(st, o) == IF o.op = "cv" THEN (IF o.w = 1 THEN {"false"} ELSE {"cast", "injected"}) ELSE {"injected"}

Outcomes(st, o) ==
    IF Refusal(st, o) # "" THEN {Refusal(st, o)}
    ELSE IF o.f = 0 THEN {"ok"}
    ELSE IF o.f <= Needed(st, o) THEN FaultNames(st, o)
    ELSE {"ok"} \cup FaultNames(st, o)

-----------------------------------------------------------------------------
Set(st, a, c)   == [st EXCEPT !.v[a] = c]
SetExt(st, k, t) == [st EXCEPT !.ext[k] = t]

(* effect of a successful operation *)
Effect(st, o) ==
    LET c == IF o.op \in {"mc", "md"} THEN st.pool[o.a] ELSE IF o.op = "x" THEN None ELSE st.v[o.a] IN
    CASE o.op \in {"mk", "mkc"} -> Set(st, o.a, Val(o.k, o.t))
      [] o.op = "in"  -> Set(st, o.a, Val(o.k, st.ext[o.k]))
      [] o.op = "inm" -> SetExt(Set(st, o.a, Val(o.k, st.ext[o.k])), o.k, AfterMove(o.k, st.ext[o.k]))
      [] o.op = "rf"  -> Set(st, o.a, Ref(o.k))
      [] o.op = "crf" -> Set(st, o.a, CRef(o.k))
      [] o.op = "cp"  -> Set(st, o.b, c)
      [] o.op = "mv"  -> IF o.a = o.b THEN st ELSE Set(Set(st, o.b, c), o.a, None)
      [] o.op = "sw"  -> Set(Set(st, o.a, st.v[o.b]), o.b, c)
      [] o.op = "cl"  -> Set(st, o.a, None)
      [] o.op = "re"  -> st
      [] o.op = "set" -> IF c.f = "val" THEN Set(st, o.a, Val(c.k, o.t)) ELSE SetExt(st, c.k, o.t)
      [] o.op = "ss"  -> Set(st, o.a, Val(c.k, Token(st, c)))
      [] o.op = "sm"  -> IF c.f = "val" THEN st
                         ELSE SetExt(Set(st, o.a, Val(c.k, st.ext[c.k])), c.k, AfterMove(c.k, st.ext[c.k]))
      [] o.op = "rr"  -> \* value moved out of the variant into ext
                         SetExt(Set(st, o.a, Val(c.k, AfterMove(c.k, c.t))), c.k, c.t)
      [] o.op = "to"  -> Set(st, o.b, Val(c.k, Token(st, c)))
      [] o.op = "cv"  -> Set(st, o.a, Val(o.k, Token(st, c)))
      [] o.op = "x"   -> SetExt(st, o.k, o.t)
      [] o.op = "mc"  -> (CASE o.w = 0 -> [st EXCEPT !.pool[o.a] = Val(o.k, DefaultToken)]
                           [] o.w = 1 -> [st EXCEPT !.pool[o.a] = Val(o.k, st.ext[o.k])]
                           [] o.w = 2 -> SetExt([st EXCEPT !.pool[o.a] = Val(o.k, st.ext[o.k])], o.k, AfterMove(o.k, st.ext[o.k])))
      [] o.op = "md"  -> [st EXCEPT !.pool[o.a] = None]

(* a failed operation changes nothing *)
After(st, o, out) == IF out = "ok" THEN Effect(st, o) ELSE st

Start(nv, np, tok) == [v |-> [i \in 1..nv |-> None], ext |-> [k \in DOMAIN KindTable |-> tok], pool |-> [i \in 1..np |-> None]]
=============================================================================
