--------------------------- MODULE IdentityTrace ---------------------------
(* Each script is a recorded history of one process: [ev |-> seq of          *)
(* [op, t, d, id]]; BASES: base of every type.                               *)
EXTENDS Identity, Json, IOUtils
Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)
BaseOf  == ndJsonDeserialize(IOEnv.BASES)
VARIABLES s, l, ids
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == s \in (1..Len(Scripts)) \ Skip /\ l = 1 /\ ids = <<>>
Next == LET ev == Scripts[s].ev IN
        /\ l <= Len(ev)
        /\ s' = s
        /\ LET e == ev[l] IN
           IF Allowed(BaseOf, ids, e.op, e.t, e.id)
           THEN l' = l + 1 /\ ids' = After(ids, e.t, e.id)
           ELSE /\ PrintT(<<"BAD", ToJson([s |-> s, l |-> l])>>)
                /\ l' = Len(ev) + 1 /\ ids' = ids
Spec == Init /\ [][Next]_<<s, l, ids>>
Inv == Injective(ids)
=============================================================================
