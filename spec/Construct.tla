----------------------------- MODULE Construct -----------------------------
(* Property C15: metaconstructors.                                          *)
(* A constructor is a function of Invoke: res.k "object" (declared one, its *)
(* objects hold the number of the constructor), "default", "copy" or "move";*)
(* res.j: class of the object. conv: declared with one parameter and not    *)
(* explicit; taken: a converter of the same types was registered earlier    *)
(* and stays.                                                               *)
EXTENDS Invoke

-----------------------------------------------------------------------------
(* Which of the special constructors a class has by the rules of C++. Class *)
(* D = [d, c, m, x, o, a]:                                                  *)
(*   d default constructor: "none" not declared, "user", "explicit", "deleted", "private" *)
(*   c copy constructor:    "none", "user" (const&), "mutable" (&), "deleted", "private"  *)
(*   m move constructor:    "none", "user", "deleted", "private", "default"     *)
(*   x member: "plain", "moveonly", "copyonly" (its move constructor is deleted), "copied" (no move constructor), "reference" *)
(*   o another constructor is declared; a abstract                           *)
UserCtor(D) == D.o \/ D.c # "none" \/ D.m # "none"
HasDefault(D) == ~D.a /\ CASE D.d \in {"user", "explicit"} -> TRUE
                           [] D.d = "none" -> ~UserCtor(D) /\ D.x # "reference"
                           [] OTHER -> FALSE
HasCopy(D) == ~D.a /\ CASE D.c = "user" -> TRUE
                        [] D.c = "none" -> D.m = "none" /\ D.x # "moveonly"
                        [] OTHER -> FALSE
(* own move constructor, declared or implicit *)
OwnMove(D) == CASE D.m = "user" -> TRUE
                [] D.m = "default" -> D.x # "copyonly"
                [] D.m = "none" -> D.c = "none" /\ D.x # "copyonly"
                [] OTHER -> FALSE
(* rvalues are copied when there is no move constructor at all *)
HasMove(D) == ~D.a /\ (OwnMove(D) \/ (D.m \in {"none", "default"} /\ HasCopy(D)))
Storable(D) == HasCopy(D) \/ HasMove(D)

Fresh == 5    \* what a default constructor makes
Given == 9    \* what is copied or moved
(* attempts: outcome, contents of the new object, contents of the source afterwards *)
Attempt(D, w) ==
    LET no == [out |-> "none", t |-> 0, src |-> Given] refused == [no EXCEPT !.out = "refused"]
        made(t, src) == [out |-> "ok", t |-> t, src |-> src]
        after == IF OwnMove(D) THEN 0 ELSE Given
    IN CASE w \in {"default", "default 1"} -> IF ~HasDefault(D) THEN no ELSE IF w = "default" THEN made(Fresh, Given) ELSE refused
         [] w \in {"copy", "copy const", "copy rvalue", "copy variant"} -> IF ~HasCopy(D) THEN no ELSE made(Given, Given)
         [] w \in {"copy 0", "copy 2", "copy int"} -> IF ~HasCopy(D) THEN no ELSE refused
         [] w \in {"move", "move variant"} -> IF ~HasMove(D) THEN no ELSE made(Given, after)
         [] w \in {"move 0", "move 2", "move int", "move lvalue", "move lvalue variant"} -> IF ~HasMove(D) THEN no ELSE refused
Attempts == {"default", "default 1", "copy", "copy const", "copy rvalue", "copy variant", "copy 0", "copy 2", "copy int",
             "move", "move variant", "move 0", "move 2", "move int", "move lvalue", "move lvalue variant"}

-----------------------------------------------------------------------------
(* Calls of constructors, results <<class, token>> *)
Special(o) == Fun(o).res.k # "object"
NewToken(o, tok) == CASE Fun(o).res.k = "object" -> (o.f % 97) + 1
                      [] Fun(o).res.k = "default" -> 0
                      [] OTHER -> IF IsObject(Bound(o, tok, 1)) THEN After(o, tok).seen[1].t ELSE tok[o.a[1]]
NewObject(o, tok) == <<Fun(o).res.j, NewToken(o, tok)>>
(* moving from an object of a class without move constructor copies it *)
Keeps(o) == Fun(o).res.k = "move" /\ Fun(o).params[1].t = 7
Final(o, tok) == IF Keeps(o) THEN tok ELSE After(o, tok).tok

-----------------------------------------------------------------------------
(* variants are converted by converting constructors; parameter: by value or reference to const *)
Simple == {1, 2, 3, 7}
Asked(o) == LET p == Params(o)[1] k == SLOTS[o.a[1]].k IN k = p.t \/ {k, p.t} \subseteq Simple \/ SLOTS[o.a[1]].h = "empty"
Converted(o) == (Fun(o).conv \/ Fun(o).taken) /\ SLOTS[o.a[1]].h # "empty" /\ SLOTS[o.a[1]].k = Params(o)[1].t

-----------------------------------------------------------------------------
(* what a class tells about its constructors: decl is a sequence of [n, p] (name, parameters), 0 stands for the usual name; *)
(* constructors are the same exactly when names and parameters are the same                                    *)
Same2(a, b) == a.n = b.n /\ a.p = b.p
Distinct(decl) == Cardinality({ decl[i] : i \in DOMAIN decl })
=============================================================================
