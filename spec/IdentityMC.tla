---------------------------- MODULE IdentityMC ----------------------------
EXTENDS Identity, Json
BaseOf == <<1, 1, 2, 2, 3>>
N == Len(BaseOf)
VARIABLES ids, op
vars == <<ids, op>>
NextId == Cardinality(DOMAIN ids) + 1
Init == ids = <<>> /\ op = [op |-> "init"]
Next == \E o \in {"mention", "lookup"}, t \in 1..N, d \in 0..2, id \in 0..N :
          /\ id \in {0, NextId} \cup { ids[u] : u \in DOMAIN ids }
          /\ Allowed(BaseOf, ids, o, t, id)
          /\ ids' = After(ids, t, id)
          /\ op' = [op |-> o, t |-> t, d |-> d]
Spec == Init /\ [][Next]_vars
Inv == Injective(ids)
Stable == [][\A t \in DOMAIN ids : t \in DOMAIN ids' /\ ids'[t] = ids[t]]_vars
View == DOMAIN ids
Emit == PrintT(<<"EDGE", ToJson([s |-> DOMAIN ids, o |-> op', t |-> DOMAIN ids'])>>)
=============================================================================
