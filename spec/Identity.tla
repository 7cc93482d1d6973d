----------------------------- MODULE Identity -----------------------------
(* Property C08, the history part: identifiers of types. A type becomes     *)
(* known when it is mentioned in code, anywhere in the process; then it has *)
(* one identifier, shared with no other type, which every way of asking, in *)
(* any module of the process, answers. Asking by name never invents types.  *)
(* State: ids, a function from the known types to identifiers; 0 = invalid. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

(* mentioning T may or may not make its relatives known (its decay is)      *)
Related(BaseOf, ids, t) == \E u \in DOMAIN ids : BaseOf[u] = BaseOf[t]

Allowed(BaseOf, ids, op, t, id) ==
    IF t \in DOMAIN ids THEN id = ids[t]
    ELSE LET fresh == id > 0 /\ \A u \in DOMAIN ids : ids[u] # id
         IN  CASE op = "mention" -> fresh
               [] op = "lookup"  -> id = 0 \/ (Related(BaseOf, ids, t) /\ fresh)

After(ids, t, id) == IF id = 0 THEN ids ELSE (t :> id) @@ ids

Injective(ids) == \A t, u \in DOMAIN ids : ids[t] = ids[u] => t = u
=============================================================================
