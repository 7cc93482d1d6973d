---------------------------- MODULE AccessTrace ----------------------------
(* ROWS: one per held object: [u: type held, mode, ask: indexes into TYPES,   *)
(* res: for every type asked, for every op: 0 refused properly, 1 succeeded   *)
(* and designated the held object, 2 anything else; -1 not asked; same: the   *)
(* variant still holds what it held]                                          *)
EXTENDS Access, TLC, Json, IOUtils, SequencesExt
T    == ndJsonDeserialize(IOEnv.TYPES)
Rows == ndJsonDeserialize(IOEnv.ROWS)
VARIABLES i, done
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == i \in (1..Len(Rows)) \ Skip /\ done = FALSE
Bad(row) == { <<k, j>> \in (1..Len(row.ask)) \X (1..Len(Ops)) :
                /\ row.res[k][j] # -1
                /\ row.res[k][j] # (IF ~row.empty /\ Succeeds(Ops[j], row.u, T[row.ask[k]]) THEN 1 ELSE 0) }
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET b == Bad(Rows[i]) IN
           (b = {} /\ Rows[i].same) \/ PrintT(<<"BAD", ToJson([i |-> i, same |-> Rows[i].same, b |-> SetToSeq(b)])>>)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
