----------------------------- MODULE TypesTrace -----------------------------
(* Conformance: rows recorded from the real MetaType::compatible are checked *)
(* against the relation. TYPES: type structures (1-based). ROWS: one per     *)
(* source type: [f, cand (type indexes asked), yes (indexes answered true)]. *)
EXTENDS Types, TLC, Json, IOUtils, SequencesExt

T    == ndJsonDeserialize(IOEnv.TYPES)
Rows == ndJsonDeserialize(IOEnv.ROWS)

VARIABLE i, done
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == i \in (1..Len(Rows)) \ Skip /\ done = FALSE

Bad(row) == LET yes == ToSet(row.yes)
            IN  { k \in ToSet(row.cand) :
                    (k \in yes) # (row.valid /\ T[k].valid /\ Compatible(T[row.f], T[k])) }

Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET b == Bad(Rows[i])
           IN  b = {} \/ PrintT(<<"BAD", ToJson([f |-> Rows[i].f, t |-> SetToSeq(b)])>>)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
