------------------------------ MODULE Access ------------------------------
(* Property C03: typed access to a variant.                                  *)
(* A variant which is not empty holds an object of type U (Types.tla; no     *)
(* reference; const only if the variant refers to a const object). Reading   *)
(* it is an expression whose type depends on the way of access and on the    *)
(* constness of the variant; access to T succeeds exactly when C++ would let *)
(* this expression initialise T (T& etc.) and the types are the same up to   *)
(* qualification (class hierarchies are in Classes.tla).                     *)
EXTENDS Types

Ops == << "is", "is const", "is l", "is l const", "is r", "is r const",
          "ref&", "ref const&", "ref&&", "rref&&", "cref", "cref const",
          "data", "data const", "to", "to const", "canConvert", "canConvert const" >>

AsConst(t)  == [t EXCEPT !.c[Top(t)] = TRUE]
AsRef(t, r) == [t EXCEPT !.r = r]

(* the expression *)
From(op, U) ==
    CASE op \in {"is", "is l", "is r", "ref&", "cref", "data", "to", "canConvert"} -> AsRef(U, "l")
      [] op \in {"is const", "is l const", "is r const", "ref const&", "cref const", "data const", "to const", "canConvert const"}
            -> AsRef(AsConst(U), "l")
      [] op = "ref&&"  -> U
      [] op = "rref&&" -> AsRef(U, "r")

(* what it has to initialise *)
To(op, T) ==
    CASE op \in {"is", "is const", "to", "to const", "canConvert", "canConvert const"} -> T
      [] op \in {"is l", "is l const", "ref&", "data"} -> AsRef(T, "l")
      [] op \in {"is r", "is r const", "rref&&"} -> AsRef(T, "r")
      [] op \in {"ref const&", "ref&&", "cref", "cref const", "data const"} -> AsRef(AsConst(T), "l")

Binds(op, U, T) == Compatible(From(op, U), To(op, T))

Succeeds(op, U, T) == Binds(op, U, T) /\ U.b = T.b /\ SameDecay(U, T)

-----------------------------------------------------------------------------
(* Laws, checked by TLC over the whole bounded space *)

(* a path through which the object (of type U, seen through op) can be modified although it is const *)
NoMutablePath(op, U, T) == Succeeds(op, U, T) => ~LosesConst(From(op, U), To(op, T))

Laws(U, T) ==
    LET S(op) == Succeeds(op, U, T) IN
    /\ \A k \in 1..Len(Ops) : NoMutablePath(Ops[k], U, T)
    /\ S("ref&") = S("data") /\ S("ref const&") = S("data const")
    /\ S("is l") = S("ref&")
    /\ S("ref&") => S("cref")                   \* mutable access implies constant one
    /\ S("cref const") => S("cref")             \* a const variant gives no more than a mutable one
    /\ S("ref const&") = S("cref const")
    /\ S("to const") => S("to")
    /\ S("is") = S("to") /\ S("is") = S("canConvert")
    /\ U.n = 0 /\ T.n = 0 => ((U.a = T.a /\ U.b = T.b /\ U.c = T.c) => S("cref"))   \* the very type held is always readable
    /\ ~S("is r") /\ ~S("is r const")           \* a variant isn't a temporary
=============================================================================
