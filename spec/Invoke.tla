------------------------------- MODULE Invoke -------------------------------
(* Property C13: calls of metamethods.                                       *)
(*                                                                           *)
(* A slot is an object (or a variant) of the caller together with the        *)
(* expression by which it is passed:                                         *)
(*   via "plain" | "var";  r "l" lvalue, "r" rvalue;  c  const variant       *)
(*   u   type of the object itself (const when it can't be modified)         *)
(*   h   "val" held by the variant, "ref", "cref" referred to by it, "empty" *)
(*   k   number of its type in TY                                            *)
(* State: tok[s], contents of the objects.                                   *)
(* A function is [cls, const, own, params: seq of [t, f], res: [k, j]], f: "v" by *)
(* value, "l" T&, "c" T const&, "r" T&&. What it does is fixed: it looks at  *)
(* its arguments in order, replaces contents seen through a non-const lvalue *)
(* reference (and through non-const this) by Next, takes what is given by    *)
(* rvalue reference (leaving 0), and then throws or returns.                 *)
EXTENDS Access, Integers, SequencesExt, Json, IOUtils, TLC

SLOTS == ndJsonDeserialize(IOEnv.SLOTS)
FUNS  == ndJsonDeserialize(IOEnv.FUNS)
TY    == ndJsonDeserialize(IOEnv.TY)
VARIANT == Len(TY)

Move == 6  \* type which can only be moved
Class == {3, 4, 5}
NextTok(t) == ((t + 11) % 97) + 1
Copyable(k) == k # Move

(* converters registered: int -> string, string -> A (throws), A -> N (refuses), N -> int *)
Converter(k, t) == <<k, t>> \in { <<1, 2>>, <<2, 3>>, <<3, 7>>, <<7, 1>> }
Converts(k, t, x) == CASE k = 2 /\ x % 10 = 7 -> "stopped" [] k = 3 /\ x % 10 = 8 -> "refused" [] OTHER -> "ok"

-----------------------------------------------------------------------------
(* reading a variant, classes taken into account *)
(* (all objects pointed to are of class Derived, so a pointer to Base can be cast down) *)
UpTo(op, U, T) == /\ U.n = 0
                  /\ \/ U.a = 0 /\ U.b = 5 /\ T.b = 4
                     \/ U.a = 1 /\ {U.b, T.b} = {4, 5} /\ op \in {"to", "to const"}
                  /\ Succeeds(op, [U EXCEPT !.b = T.b], T)
Reads(op, U, T) == Succeeds(op, U, T) \/ UpTo(op, U, T)
(* a reference has to designate the object itself, not something made of it *)
Same(U, T) == U.a = T.a /\ U.n = T.n /\ \A i \in 1..U.a : U.c[i] = T.c[i]

(* outcome of initialising a parameter:                                      *)
(*   k  "object" the object itself, "any" it or a copy, "value", "refused", "stopped" *)
(*   may  may be refused as well, taken  the object may be left empty         *)
B(k) == [k |-> k, may |-> FALSE, taken |-> FALSE]
ByConv(s, t, x) == LET c == Converts(SLOTS[s].k, t, x) IN IF c = "ok" THEN B("value") ELSE B(c)
ToValue(op, s, t, x) ==
    IF Reads(op, SLOTS[s].u, TY[t]) THEN IF Copyable(t) THEN B("value") ELSE B("refused")
    ELSE IF Converter(SLOTS[s].k, t) THEN ByConv(s, t, x)
    ELSE B("refused")

ObjectOr(s, t, x, yes, op) == IF yes THEN (IF Same(SLOTS[s].u, TY[t]) THEN B("object") ELSE B("any")) ELSE ToValue(op, s, t, x)

ConstVar(s) == SLOTS[s].via = "var" /\ SLOTS[s].c

(* r: value category of the expression the slot is passed by *)
Bind(s, r, p, x) ==
    LET S == SLOTS[s] U == S.u t == p.t T == TY[t] IN
    IF t = VARIANT THEN
        \* (what a plain object does when a variant is wanted isn't specified: not asked for)
        CASE S.via = "plain" -> B("refused")
          [] p.f = "v" -> IF S.k = Move /\ S.h = "val" THEN B("refused") ELSE [B("value") EXCEPT !.taken = (r = "r" /\ ~S.c /\ S.h = "val")]
          [] p.f = "c" -> B("object")
          [] p.f = "l" -> IF r = "l" /\ ~S.c THEN B("object") ELSE B("refused")
          [] p.f = "r" -> IF r = "r" /\ ~S.c THEN B("object") ELSE B("refused")
    ELSE IF S.h = "empty" THEN B("refused")
    ELSE CASE p.f = "l" -> IF r = "l" /\ ~ConstVar(s) /\ Reads("ref&", U, T) THEN B("object") ELSE B("refused")
           [] p.f = "r" -> IF r = "l" \/ ConstVar(s) THEN B("refused")
                           ELSE IF Reads("data", U, T) THEN ObjectOr(s, t, x, TRUE, "to")
                           ELSE [ToValue("to", s, t, x) EXCEPT !.may = Const(U)]   \* const T&& may be copied or refused
           [] p.f = "c" -> ObjectOr(s, t, x, Reads("data const", U, T), IF ConstVar(s) THEN "to const" ELSE "to")
           [] p.f = "v" -> IF Copyable(t) THEN [ToValue(IF ConstVar(s) THEN "to const" ELSE "to", s, t, x) EXCEPT !.taken = (r = "r" /\ ~ConstVar(s) /\ ~Const(U))]
                           ELSE IF r = "r" /\ ~ConstVar(s) /\ Reads("data", U, T) THEN [B("value") EXCEPT !.taken = TRUE]
                           ELSE B("refused")

(* the object of class k (const or not) a member is accessed in: "object", "copy", "pointer" or "refused". *)
(* constant: what is passed is seen as constant                                                          *)
InstanceOf(s, k, const, constant) ==
    LET S == SLOTS[s] U == S.u
        C == [TY[k] EXCEPT !.c = <<const>>]
        P == [b |-> C.b, a |-> 1, c |-> <<const, FALSE>>, r |-> "n", n |-> 0]
    IN  IF S.h = "empty" \/ U.n > 0 THEN "refused"
        ELSE IF U.a = 1 THEN IF U.b \in Class /\ Reads(IF constant THEN "to const" ELSE "to", U, P) THEN "pointer" ELSE "refused"
        ELSE IF U.b \notin Class THEN "refused"
        ELSE IF S.via = "plain" THEN IF const /\ Reads("ref const&", U, C) THEN "copy" ELSE "refused"
        ELSE IF constant /\ ~const THEN "refused"
        ELSE IF Reads(IF constant THEN "ref const&" ELSE "ref&", U, C) THEN "object" ELSE "refused"
SeenConstant(s, by) == SLOTS[s].via = "plain" \/ SLOTS[s].c \/ (SLOTS[s].r = "r" /\ by # "name")
Instance(s, f, by) == InstanceOf(s, FUNS[f].cls, FUNS[f].const, SeenConstant(s, by))

-----------------------------------------------------------------------------
(* One call o = [f, by, thr, a]. by: "first" first argument or instance given directly, *)
(* "name" method of that name of the instance (a static one gets it as its argument).   *)
Fun(o) == FUNS[o.f]
Params(o) == Fun(o).params
Args(o) == IF Fun(o).cls # 0 /\ Len(o.a) > 0 THEN Tail(o.a) ELSE o.a
Cat(o, i) == IF o.by = "name" /\ Fun(o).cls = 0 /\ i = 1 THEN "l" ELSE SLOTS[Args(o)[i]].r    \* by name: instance is an lvalue
Bound(o, tok, i) == Bind(Args(o)[i], Cat(o, i), Params(o)[i], tok[Args(o)[i]])
(* members of class k are found by name in what s holds *)
HasMembersOf(s, k) == LET U == SLOTS[s].u IN
    SLOTS[s].h # "empty" /\ U.n = 0 /\ U.b \in Class /\ (U.b = k \/ (U.b = 5 /\ k = 4) \/ (U.a = 1 /\ {U.b, k} = {4, 5}))
Found(o) == HasMembersOf(o.a[1], Fun(o).own)
Kinds(o, tok) == { Bound(o, tok, i).k : i \in DOMAIN Params(o) }

(* {} if not even called; otherwise possible reasons *)
Wrong(o) == Len(Args(o)) # Len(Params(o)) \/ (o.by = "name" /\ ~Found(o)) \/ (Fun(o).cls # 0 /\ (o.a = <<>> \/ Instance(o.a[1], o.f, o.by) = "refused"))
Failures(o, tok) ==
    IF Wrong(o) THEN {"refused"}
    ELSE Kinds(o, tok) \cap {"refused", "stopped"}
(* a stopped converter may be reported as it is, or as refused conversion *)
Reported(F) == F \cup (IF "stopped" \in F THEN {"refused"} ELSE {})
MayRefuse(o, tok) == ~Wrong(o) /\ \E i \in DOMAIN Params(o) : Bound(o, tok, i).may
MayCall(o, tok) == Failures(o, tok) = {}

(* objects which may be left empty by passing them *)
Taken(o, tok) == IF Wrong(o) THEN {}
                 ELSE { Args(o)[i] : i \in { j \in DOMAIN Params(o) : Bound(o, tok, j).taken } }
MustBeTaken(o, tok) == { Args(o)[i] : i \in { j \in DOMAIN Params(o) : Params(o)[j].f = "v" /\ Params(o)[j].t = Move } }
Plain(o) == IF Fun(o).cls # 0 /\ o.a # <<>> /\ SLOTS[o.a[1]].via = "plain" /\ SLOTS[o.a[1]].r = "r" /\ ~SLOTS[o.a[1]].c /\ SLOTS[o.a[1]].u.a = 0 THEN {o.a[1]} ELSE {}

(* What the function does. x: [tok, vals, seen]; vals: contents of parameters which aren't objects of the caller *)
IsObject(b) == b.k \in {"object", "any"}
Begin(o, tok) ==
    LET t1 == [s \in DOMAIN tok |-> IF s \in MustBeTaken(o, tok) THEN 0 ELSE tok[s]] IN
    IF Fun(o).cls = 0 THEN [tok |-> t1, seen |-> <<>>, vals |-> <<>>]
    ELSE LET s == o.a[1] i == Instance(s, o.f, o.by)
             w == IF i = "object" THEN s ELSE 0
         IN [tok |-> IF w # 0 /\ ~Fun(o).const THEN [t1 EXCEPT ![s] = NextTok(@)] ELSE t1, seen |-> <<[t |-> tok[s], w |-> w, any |-> FALSE]>>, vals |-> <<>>]
Look(o, tok, x, i) ==
    LET p == Params(o)[i] s == Args(o)[i] b == Bound(o, tok, i)
        obj == IsObject(b) /\ p.t # VARIANT
        t == IF obj THEN x.tok[s] ELSE tok[s]
        e == [t |-> IF p.t = VARIANT /\ ~(p.f = "v" /\ SLOTS[s].h = "val") THEN x.tok[s] ELSE t, w |-> IF p.f # "v" /\ IsObject(b) THEN s ELSE 0, any |-> b.k = "any"]
        n == CASE p.f = "l" -> NextTok(t) [] p.f = "r" -> 0 [] OTHER -> t
    IN [tok |-> IF obj THEN [x.tok EXCEPT ![s] = n] ELSE x.tok, seen |-> Append(x.seen, e), vals |-> Append(x.vals, n)]
After(o, tok) == FoldLeft(LAMBDA x, i : Look(o, tok, x, i), Begin(o, tok), [i \in 1..Len(Params(o)) |-> i])

(* result: [kind, const, where, token], where = -1 when it refers to something gone *)
Result(o, tok) ==
    LET x == After(o, tok) r == Fun(o).res m == IF Fun(o).cls = 0 THEN 0 ELSE 1
        val == IF IsObject(Bound(o, tok, r.j)) THEN x.tok[Args(o)[r.j]] ELSE x.vals[r.j]
    IN CASE r.k = "void" -> <<0, 0, 0, 0>>
         [] r.k = "new"  -> <<r.j, 0, 0, (o.f % 97) + 1>>
         [] r.k = "val"  -> <<Params(o)[r.j].t, 0, 0, val>>
         [] r.k \in {"ref", "cref"} -> <<Params(o)[r.j].t, IF r.k = "cref" THEN 1 ELSE 0, x.seen[m + r.j].w, val>>
         [] r.k = "self" -> <<Fun(o).cls, IF Fun(o).const THEN 1 ELSE 0, x.seen[1].w, IF x.seen[1].w = 0 THEN 0 ELSE x.tok[o.a[1]]>>
IsRefResult(o) == Fun(o).res.k \in {"ref", "cref", "self"}

(* may the objects be like this afterwards *)
TokensOk(o, tok, out, exp, got) ==
    \A s \in DOMAIN tok : got[s] = exp[s] \/ (s \in (Taken(o, tok) \cup Plain(o)) /\ got[s] = 0)

Tracked(s) == SLOTS[s].k \in {3, 4, 5, 6, 7}
Live(tok) == Cardinality({ s \in DOMAIN tok : Tracked(s) /\ tok[s] # 0 })

-----------------------------------------------------------------------------
(* everything a call may do: set of [out, times, seen, res, tok]; objects which may be left empty are left as they are *)
Calls(o, tok) ==
    LET x == After(o, tok) IN
       (IF MayCall(o, tok) THEN { [out |-> IF o.thr THEN "thrown" ELSE "ok", times |-> 1, seen |-> x.seen, tok |-> x.tok] } ELSE {})
  \cup { [out |-> r, times |-> 0, seen |-> <<>>, tok |-> tok] : r \in Reported(Failures(o, tok)) \cup (IF MayRefuse(o, tok) THEN {"refused"} ELSE {}) }
=============================================================================
