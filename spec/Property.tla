------------------------------ MODULE Property ------------------------------
(* Property C14: metaproperties. A property p of PROPS is                    *)
(*   [cls, own, static, acc, t, store, get: [const, f], set: [const, f], ro] *)
(* cls: class of the instance, own: class it is registered in, t: its type,  *)
(* store: number of the variable it denotes, get.f: "v" value, "l" reference,*)
(* "c" reference to const; set.f: form of the parameter of the setter.       *)
(* State: tok[s] contents of the slots (values passed, pointers), as in      *)
(* Invoke; st[o][k] variables: o = slot (object of a class in it), 1000 + i  *)
(* object a pointer points to, 0 static ones.                                *)
EXTENDS Invoke
PROPS == ndJsonDeserialize(IOEnv.PROPS)
STORES == ndJsonDeserialize(IOEnv.STORES)     \* [o, k: kinds of the variables]

ObjectAt(s, how, tok) == CASE how = "object" -> s [] how = "copy" -> s [] how = "pointer" -> 1000 + tok[s] [] OTHER -> -1

(* instance needed when there is none, and the other way around; name not found *)
Misfit(p, s, by) == (by = "name" /\ ~HasMembersOf(s, PROPS[p].own)) \/ (s = 0) # PROPS[p].static

(* ---- get: [ok, res, gets] *)
GetHow(p, s) == InstanceOf(s, PROPS[p].cls, PROPS[p].get.const, TRUE)
Get(p, s, by, tok, st) ==
    LET P == PROPS[p]
        how == IF s = 0 THEN "static" ELSE GetHow(p, s)
        o == IF s = 0 THEN 0 ELSE ObjectAt(s, how, tok)
        gone == how = "copy" /\ P.get.f # "v"
    IN  IF Misfit(p, s, by) \/ how = "refused" THEN [ok |-> FALSE, res |-> <<>>, gets |-> 0]
        ELSE [ok |-> TRUE, gets |-> IF P.acc THEN 1 ELSE 0,
              res |-> << <<P.t, IF P.get.f = "c" THEN 1 ELSE 0, IF P.get.f = "v" THEN 0 ELSE IF gone THEN -1 ELSE o * 100 + P.store + 1,
                           IF gone THEN 0 ELSE IF how = "copy" /\ P.t = Move THEN 0 ELSE st[o][P.store]>> >>]

(* ---- set: reasons to refuse; binding of the value *)
SetHow(p, s, by) == InstanceOf(s, PROPS[p].cls, PROPS[p].set.const, SeenConstant(s, by))
SetBind(p, v, tok) == Bind(v, SLOTS[v].r, [t |-> PROPS[p].t, f |-> PROPS[p].set.f], tok[v])
SetFails(p, s, by, v, tok) ==
    IF Misfit(p, s, by) \/ PROPS[p].ro THEN {"refused"}
    ELSE (IF s # 0 /\ SetHow(p, s, by) = "refused" THEN {"refused"} ELSE {}) \cup Reported({SetBind(p, v, tok).k} \cap {"refused", "stopped"})
SetMayRefuse(p, s, by, v, tok) == ~Misfit(p, s, by) /\ ~PROPS[p].ro /\ SetBind(p, v, tok).may

SetTarget(p, s, by, tok) == IF s = 0 THEN 0 ELSE ObjectAt(s, SetHow(p, s, by), tok)
(* contents of the value afterwards: possible ones *)
SourceAfter(p, v, tok, assigned) ==
    LET b == SetBind(p, v, tok) IN
    IF PROPS[p].set.f = "r" /\ IsObject(b) THEN (IF assigned THEN {0} ELSE {tok[v]})
    ELSE IF PROPS[p].set.f = "v" /\ PROPS[p].t = Move THEN {0}
    ELSE IF b.taken THEN {tok[v], 0} ELSE {tok[v]}
(* a refused one could have been moved from already *)
SourceRefused(p, s, by, v, tok) == {tok[v]} \cup (IF ~Misfit(p, s, by) /\ SetBind(p, v, tok).taken THEN {0} ELSE {})

(* set: [out, sets, st, src] possible outcomes *)
Set(p, s, by, v, thr, tok, st) ==
    LET P == PROPS[p] fails == SetFails(p, s, by, v, tok) o == SetTarget(p, s, by, tok) thrown == thr /\ P.acc IN
       (IF fails = {} THEN { [out |-> IF thrown THEN "thrown" ELSE "ok", sets |-> IF P.acc THEN 1 ELSE 0,
                              st |-> IF thrown \/ (s # 0 /\ SetHow(p, s, by) = "copy") THEN st ELSE [st EXCEPT ![o][P.store] = tok[v]], src |-> x] : x \in SourceAfter(p, v, tok, ~thrown) } ELSE {})
  \cup { [out |-> r, sets |-> 0, st |-> st, src |-> x] : r \in fails \cup (IF SetMayRefuse(p, s, by, v, tok) THEN {"refused"} ELSE {}), x \in SourceRefused(p, s, by, v, tok) }

Start == [o \in { STORES[i].o : i \in DOMAIN STORES } |-> LET i == CHOOSE j \in DOMAIN STORES : STORES[j].o = o IN [k \in DOMAIN STORES[i].k |-> STORES[i].v[k]]]
LiveObjects(st) == Cardinality(UNION { { <<i, k>> : k \in { j \in DOMAIN STORES[i].k : STORES[i].k[j] \in {6, 7} /\ st[STORES[i].o][j] # 0 } } : i \in DOMAIN STORES })
=============================================================================
