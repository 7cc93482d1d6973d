------------------------------ MODULE Classes ------------------------------
(* Properties C11 (and the class part of C03, C04): the declared class graph, *)
(* inheritance queries, casts and access to classes and class pointers held   *)
(* by variants.                                                               *)
(*                                                                            *)
(* A graph G is a record                                                      *)
(*   n     number of classes, 1..n                                            *)
(*   decl  decl[c]: sequence of declared bases of c (in declaration order)    *)
(*   reg   set of registered classes                                          *)
(*   ci    set of classes which declare classInfo themselves                  *)
(*   base  base[c]: set of direct C++ bases of c                              *)
(*   sub   the C++ object layouts: sub[d][s] = [c |-> class, to |-> to[b]] is  *)
(*         sub-object s of a complete object of class d (1 is the object       *)
(*         itself): its class and, for every class b which is an unambiguous   *)
(*         base of it, the sub-object designated by conversion to b, else 0    *)
EXTENDS Types

-----------------------------------------------------------------------------
(* C++ facts about classInfo: inherited from the only base having it *)
RECURSIVE HasCI(_, _)
HasCI(G, c) == c \in G.ci \/ Cardinality({ b \in G.base[c] : HasCI(G, b) }) = 1

(* Class reported for a complete object of class d (the final overrider), as path of direct bases *)
RECURSIVE InfoPath(_, _)
InfoPath(G, d) == IF d \in G.ci THEN <<>>
                  ELSE LET b == CHOOSE b \in G.base[d] : HasCI(G, b) IN <<b>> \o InfoPath(G, b)

RECURSIVE Walk(_, _, _, _)
Walk(G, d, s, path) == IF path = <<>> THEN s ELSE Walk(G, d, G.sub[d][s].to[path[1]], Tail(path))

RECURSIVE Within(_, _, _, _)
Within(G, d, x, s) == \/ x = s
                      \/ \E b \in G.base[G.sub[d][x].c] : LET y == G.sub[d][x].to[b] IN y # 0 /\ Within(G, d, y, s)

(* several bases have classInfo: nobody overrides all of them *)
RECURSIVE Overrider(_, _, _, _)
Overrider(G, d, x, s) ==
    LET c == G.sub[d][x].c IN
    IF HasCI(G, c) THEN Walk(G, d, x, InfoPath(G, c))
    ELSE LET b == CHOOSE b \in G.base[c] : Within(G, d, G.sub[d][x].to[b], s)
         IN  Overrider(G, d, G.sub[d][x].to[b], s)

(* the object which sub-object s of a complete object d says it is *)
Dynamic(G, d, s) == IF HasCI(G, G.sub[d][s].c) THEN Overrider(G, d, 1, s) ELSE s

-----------------------------------------------------------------------------
(* Inheritance is the reflexive transitive closure of the declared relation *)
RECURSIVE Closure(_, _)
Closure(G, S) == LET T == S \cup UNION { { G.decl[c][i] : i \in DOMAIN G.decl[c] } : c \in S }
                 IN  IF T = S THEN S ELSE Closure(G, T)
Inherited(G, c, b) == c \in G.reg /\ b \in G.reg /\ b \in Closure(G, {c})

(* Casting follows the first declared base through which the target can be reached *)
RECURSIVE CastPath(_, _, _)
CastPath(G, c, b) ==
    IF c = b THEN <<>>
    ELSE LET i == CHOOSE i \in DOMAIN G.decl[c] : /\ Inherited(G, G.decl[c][i], b)
                                                  /\ \A j \in 1..(i-1) : ~Inherited(G, G.decl[c][j], b)
         IN  <<G.decl[c][i]>> \o CastPath(G, G.decl[c][i], b)

(* cast of sub-object s of d (already the dynamic one) to class b; 0 when refused *)
Cast(G, d, s, b) == IF Inherited(G, G.sub[d][s].c, b) THEN Walk(G, d, s, CastPath(G, G.sub[d][s].c, b)) ELSE 0

(* meta_cast<b> of sub-object s. A class that does not declare classInfo is only ever itself *)
MetaCast(G, d, s, b) ==
    IF HasCI(G, G.sub[d][s].c) THEN Cast(G, d, Dynamic(G, d, s), b)
    ELSE IF G.sub[d][s].c = b THEN s ELSE 0

-----------------------------------------------------------------------------
(* Variants. Content: a class object or a class pointer.                     *)
(*   H = [t: type of what is held (Types.tla, base symbol = class), c: class, *)
(*        d, s: designated (pointed to) sub-object s of a complete object d;  *)
(*        s = 0: null pointer; own: pointer stored in the variant itself]     *)
Target(G, H, b) ==       \* sub-object designated when H is seen as b, 0 if it can't be
    IF H.c = b THEN H.s ELSE IF H.s = 0 THEN 0 ELSE Cast(G, H.d, Dynamic(G, H.d, H.s), b)

SameShape(H, T) == H.t.a = T.a /\ H.t.n = 0 /\ T.n = 0 /\ H.t.a <= 1

(* is: null pointers have no dynamic class, their static class counts *)
IsClass(G, H, b) == IF H.c = b THEN TRUE
                    ELSE IF H.s = 0 THEN Inherited(G, H.c, b)
                    ELSE Inherited(G, G.sub[H.d][Dynamic(G, H.d, H.s)].c, b)

(* A pointer to base is a different object than the held pointer to derived: *)
(* it can be designated only when both are the same address                  *)
RefOkClass(G, H, b) == \/ H.c = b
                       \/ /\ Target(G, H, b) # 0
                          /\ (H.t.a = 0 \/ (H.own /\ H.addr[Target(G, H, b)] = H.addr[H.s]))
ToOkClass(G, H, b)  == H.c = b \/ Target(G, H, b) # 0
=============================================================================
