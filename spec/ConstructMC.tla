---------------------------- MODULE ConstructMC ----------------------------
(* all declarations of special members; laws *)
EXTENDS Construct
VARIABLES D
Init == D \in [d: {"none", "user", "explicit", "deleted", "private"}, c: {"none", "user", "mutable", "deleted", "private"},
               m: {"none", "user", "default", "deleted", "private"}, x: {"plain", "moveonly", "copyonly", "copied", "reference"}, o: BOOLEAN, a: BOOLEAN]
Next == UNCHANGED D
Spec == Init /\ [][Next]_D
Defined == \A w \in Attempts : Attempt(D, w).out \in {"ok", "refused", "none"}
(* nothing is made unless a constructor exists, refused attempts change nothing *)
Harmless == \A w \in Attempts : Attempt(D, w).out # "ok" => Attempt(D, w).t = 0 /\ Attempt(D, w).src = Given
(* contents of the source are either still there or in the new object; copies leave the source alone *)
Conserved == \A w \in Attempts \ {"default"} : LET x == Attempt(D, w) IN x.out = "ok" => x.t = Given
Intact == \A w \in {"copy", "copy const", "copy rvalue", "copy variant"} : Attempt(D, w).src = Given
(* an abstract class has no constructors; a class whose copies are forbidden has no copy constructor *)
AbstractHasNone == D.a => \A w \in Attempts : Attempt(D, w).out = "none"
Forbidden == (D.c \in {"deleted", "private"} => ~HasCopy(D)) /\ (D.m \in {"deleted", "private"} => ~HasMove(D)) /\ (D.d \in {"deleted", "private"} => ~HasDefault(D))
(* a class which can be copied can be moved unless that is forbidden *)
CopyableIsMovable == (HasCopy(D) /\ D.m = "none") => HasMove(D)
=============================================================================
