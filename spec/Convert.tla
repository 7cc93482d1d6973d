------------------------------- MODULE Convert -------------------------------
(* Properties C04, C05 and the conversion part of C06: the converter registry *)
(* and the conversions of variants.                                           *)
(*                                                                            *)
(* State: reg  partial map <<from, to>> -> converter [i |-> id, k |-> kind]   *)
(*        v    variants: [f, k, pc, t]: form, type, points to const, value    *)
(*        ext  ext[k]: value of the object of type k variants refer to        *)
(* Types are numbers: rows of TypeTable [copy, eq, live], targets of a        *)
(* conversion are rows of TargetTable [d, pc]: type and constness of pointee. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

TypeTable == ndJsonDeserialize(IOEnv.TYPES)
TargetTable == ndJsonDeserialize(IOEnv.TARGETS)
Upcasts == { <<6, 5>>, <<8, 7>> }            \* class to base class, pointer to pointer
TT(n) == TargetTable[n]

None == [f |-> "none", k |-> 0, pc |-> FALSE, t |-> 0]
Token(st, c) == IF c.f \in {"ref", "cref"} THEN st.ext[c.k] ELSE c.t

(* What a converter does to a value *)
CanRefuse(k) == k \in {"ok lambda", "ok method", "ok function"}
CanThrow(k) == k # "implicit"
Converted(r, x) ==
    IF CanThrow(r.k) /\ x % 10 = 7 THEN "thrown"
    ELSE IF CanRefuse(r.k) /\ x % 10 = 8 THEN "refused"
    ELSE "ok"
Value(r, x) == IF r.i = 0 THEN x ELSE (x % 10) + 10 * r.i

-----------------------------------------------------------------------------
(* Routes of conversion of content c to target n. const: through a constant variant *)
Direct(c, n, const) == /\ c.f # "none"
                       /\ c.k = TT(n).d \/ <<c.k, TT(n).d>> \in Upcasts
                       /\ (c.pc => TT(n).pc)
                       /\ (c.f = "arr" /\ const => TT(n).pc)
HasConv(st, c, n) == c.f # "none" /\ <<c.k, TT(n).d>> \in DOMAIN st.reg

(* result: [ok, t, errs]: the value, or the allowed ways to fail *)
Fail(errs) == [ok |-> FALSE, t |-> 0, errs |-> errs]
Ok(t) == [ok |-> TRUE, t |-> t, errs |-> {}]
To(st, c, n, const) ==
    IF Direct(c, n, const)
    THEN IF TypeTable[TT(n).d].copy THEN Ok(Token(st, c)) ELSE Fail({"runtime", "cast"})
    ELSE IF HasConv(st, c, n)
    THEN LET r == st.reg[<<c.k, TT(n).d>>] IN
         CASE Converted(r, Token(st, c)) = "ok" -> Ok(Value(r, Token(st, c)))
           [] Converted(r, Token(st, c)) = "refused" -> Fail({"cast"})
           [] OTHER -> Fail({"cast", "thrown"})
    ELSE Fail({"cast"})

Can(st, c, n, const) ==
    IF Direct(c, n, const) THEN (IF TypeTable[TT(n).d].copy THEN {"true"} ELSE {"true", "false"})
    ELSE IF HasConv(st, c, n) THEN {"true"} ELSE {"false"}

(* eq of content c with a value t of type (not target) d. cv: the value is given as an array *)
Same(c, d) == c.k = d /\ c.f # "arr"
EqBy(st, c, d, t) ==
    IF c.f = "none" THEN {"false"}
    ELSE IF Same(c, d) /\ ~TypeTable[d].eq THEN {"runtime"}
    ELSE IF Same(c, d) /\ Token(st, c) = t THEN {"true"}
    ELSE LET there == IF <<c.k, d>> \in DOMAIN st.reg THEN Converted(st.reg[<<c.k, d>>], Token(st, c)) ELSE "none"
             back == IF <<d, c.k>> \in DOMAIN st.reg THEN Converted(st.reg[<<d, c.k>>], t) ELSE "none"
             Bool(b) == IF b THEN {"true"} ELSE {"false"}
             Back == CASE back = "ok" -> IF ~TypeTable[c.k].eq THEN {"runtime"}
                                         ELSE Bool(c.f # "arr" /\ Value(st.reg[<<d, c.k>>], t) = Token(st, c))   \* (addresses of arrays aren't those of the objects pointed to)
                       [] back = "thrown" -> {"false", "thrown"}
                       [] OTHER -> {"false"}
         IN  CASE there = "ok" -> IF ~TypeTable[d].eq THEN {"runtime"}
                                  ELSE Bool(Value(st.reg[<<c.k, d>>], Token(st, c)) = t)
               [] there = "thrown" -> Back \cup {"thrown"}
               [] OTHER -> Back

-----------------------------------------------------------------------------
(* Operations o = [op, a, b, k, t, w] *)
Has(st, o) == IF <<o.a, o.b>> \in DOMAIN st.reg THEN "true" ELSE "false"
Const(o) == o.w % 2 = 1

Outcomes(st, o) ==
    CASE o.op = "reg"  -> IF <<o.a, o.b>> \in DOMAIN st.reg THEN {"false"} ELSE {"true"}
      [] o.op = "has"  -> {Has(st, o)}
      [] o.op \in {"to", "conv", "try"} ->
            LET r == To(st, st.v[o.a], o.b, o.op = "to" /\ Const(o)) IN
            IF r.ok THEN {"ok"} ELSE IF o.op = "try" THEN {"false"} ELSE r.errs
      [] o.op = "can"  -> Can(st, st.v[o.a], o.b, Const(o))
      [] o.op = "eq"   -> EqBy(st, st.v[o.a], o.b, o.t)
      [] OTHER -> {"ok"}

(* value returned by to *)
Result(st, o) == IF o.op = "to" /\ To(st, st.v[o.a], o.b, Const(o)).ok THEN To(st, st.v[o.a], o.b, Const(o)).t ELSE 0

After(st, o, out) ==
    CASE o.op = "reg" -> IF out = "true" THEN [st EXCEPT !.reg = [p \in {<<o.a, o.b>>} |-> [i |-> o.t, k |-> o.k]] @@ @] ELSE st
      [] o.op = "unreg" -> [st EXCEPT !.reg = [p \in DOMAIN @ \ {<<o.a, o.b>>} |-> @[p]]]
      [] o.op = "hold" -> [st EXCEPT !.v[o.a] = CASE o.k = "none" -> None
                                                  [] o.k \in {"val", "arr"} -> [f |-> o.k, k |-> TT(o.b).d, pc |-> TT(o.b).pc, t |-> o.t]
                                                  [] OTHER -> [f |-> o.k, k |-> TT(o.b).d, pc |-> FALSE, t |-> 0]]
      [] o.op = "x" -> [st EXCEPT !.ext[o.a] = o.t]
      [] o.op \in {"conv", "try"} /\ out = "ok" ->
            [st EXCEPT !.v[o.a] = [f |-> "val", k |-> TT(o.b).d, pc |-> TT(o.b).pc, t |-> To(st, st.v[o.a], o.b, FALSE).t]]
      [] OTHER -> st

Live(st) == FoldLeft(LAMBDA x, y : x + y, 0, [i \in DOMAIN st.v |-> IF st.v[i].f = "val" THEN TypeTable[st.v[i].k].live ELSE 0])
Start(n) == [reg |-> [p \in {} |-> 0], v |-> [i \in 1..n |-> None], ext |-> [k \in DOMAIN TypeTable |-> 1]]
=============================================================================
