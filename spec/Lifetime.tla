------------------------------ MODULE Lifetime ------------------------------
(* Property C19: the library used during static initialization and           *)
(* destruction. Objects with static storage are constructed one after another *)
(* (before main or in it), use the library in their constructors and are      *)
(* destroyed in the reverse order; the library's own registries are static    *)
(* objects as well, which come to life when they are first used.              *)
(*                                                                            *)
(* State: used   what has been used so far: "types", "space", converters      *)
(*        ent    ent[i]: what object i is entitled to in its destructor: all  *)
(*               that had been used when its construction was finished        *)
(*        now    0 as long as the program runs, else the object being         *)
(*               destroyed                                                    *)
(*        up     objects constructed and not destroyed, in order              *)
(*        conv   map <<from, to>> -> who registered it                        *)
(*        v      variants; def: defined classes; seen, may: types which are,   *)
(*               and may be, registered                                       *)
(*        blk    blocks of RTTI_REGISTER which have run                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Cls == {1, 2, 3}                       \* classes; 3 is derived from 2; 4 is std::string
Pairs == { <<4, 1>>, <<1, 4>>, <<2, 4>>, <<4, 5>> }
None == [k |-> 0, t |-> 0]
O(p, s, k, t) == [op |-> p, s |-> s, k |-> k, t |-> t]
Start(ns, no) == [used |-> {}, ent |-> [i \in 1..no |-> {}], now |-> 0, up |-> <<>>, conv |-> [p \in {} |-> 0],
                  v |-> [i \in 1..ns |-> None], seen |-> {}, may |-> {}, def |-> {}, blk |-> {}, main |-> FALSE]

ConvThing(p) == "c" \o ToString(p[1]) \o ToString(p[2])
UsesSpace == {"def", "glob", "mark", "inh", "invoke"}
UsesTypes == {"hold", "is", "get", "to", "can", "reg", "unreg", "has", "id", "make", "name", "def", "cls", "call", "meta", "glob", "mark", "inh", "invoke"}
\* operations after which the registry of types is sure to be there (a variant may not need it to hold a value)
GivesTypes == {"reg", "unreg", "has", "id", "make", "def", "cls", "meta"} \cup UsesSpace
WithType == {"hold", "is", "get", "to", "can", "id", "make", "cls", "def"}
SureType == {"id", "make", "cls", "def"}
ProgramOnly == {"reg", "def", "block", "main", "return", "done"}

IsA(st, a, b) == a # 0 /\ (a = b \/ (a = 3 /\ b = 2 /\ {2, 3} \subseteq st.def))
HasConv(st, a, b) == <<a, b>> \in DOMAIN st.conv

(* What is needed for the usual answer *)
Needs(st, o) ==
    LET h == IF o.s \in DOMAIN st.v THEN st.v[o.s].k ELSE 0
        isa == {"types"} \cup (IF IsA(st, h, o.k) /\ h # o.k THEN {"space"} ELSE {}) IN
    CASE o.op \in {"is", "get"} -> isa
      [] o.op \in {"to", "can"} -> IF HasConv(st, h, o.k) /\ ~IsA(st, h, o.k) THEN isa \cup {ConvThing(<<h, o.k>>)} ELSE isa
      [] o.op = "has" -> IF HasConv(st, o.s, o.k) THEN {"types", ConvThing(<<o.s, o.k>>)} ELSE {"types"}
      [] o.op \in {"cls", "meta", "call"} \cup UsesSpace -> {"types", "space"}
      [] o.op \in UsesTypes -> {"types"}
      [] OTHER -> {}
Entitled(st, o) == st.now = 0 \/ Needs(st, o) \subseteq st.ent[st.now]

R(r, t) == [r |-> r, v |-> t]
B(b) == R(IF b THEN "true" ELSE "false", 0)
Refused == R("refused", 0)

Usual(st, o) ==
    LET c == IF o.s \in DOMAIN st.v THEN st.v[o.s] ELSE None IN
    CASE o.op = "is" -> B(IsA(st, c.k, o.k))
      [] o.op = "get" -> IF IsA(st, c.k, o.k) THEN R("ok", c.t) ELSE Refused
      [] o.op = "to" -> IF IsA(st, c.k, o.k) THEN R("ok", c.t)
                        ELSE IF HasConv(st, c.k, o.k) THEN R("ok", c.t + 10 * st.conv[<<c.k, o.k>>]) ELSE Refused
      [] o.op = "can" -> B(IsA(st, c.k, o.k) \/ HasConv(st, c.k, o.k))
      [] o.op = "reg" -> B(~HasConv(st, o.s, o.k))
      [] o.op = "has" -> B(HasConv(st, o.s, o.k))
      [] o.op = "id" -> B(TRUE)
      [] o.op = "make" -> R("true", o.t)
      [] o.op = "name" -> B(o.k \in st.seen)
      [] o.op \in {"cls", "glob"} -> B(o.k \in st.def)
      [] o.op = "mark" -> IF o.k \in st.def \cap {2, 3} THEN R("ok", o.k) ELSE R("none", 0)
      [] o.op = "meta" -> B({2, 3} \subseteq st.def)
      [] o.op = "inh" -> B({2, 3} \subseteq st.def)
      [] o.op = "call" -> IF c.k \in {2, 3} \cap st.def THEN R("ok", c.t) ELSE Refused
      [] o.op = "invoke" -> IF {2, 3} \subseteq st.def THEN R("ok", o.t) ELSE R("none", 0)
      [] OTHER -> R("ok", 0)

(* The answer when what is needed is gone *)
Nothing(st, o) ==
    CASE o.op \in {"is", "can", "has", "id", "make", "name", "cls", "meta"} -> B(FALSE)
      [] o.op \in {"get", "to", "call"} -> Refused
      [] OTHER -> R("ok", 0)

Allowed(st, o) ==
    IF o.op = "name" /\ o.k \in st.may \ st.seen THEN {B(TRUE), B(FALSE)} ELSE IF Entitled(st, o) THEN {Usual(st, o)} ELSE {Usual(st, o), Nothing(st, o)}

Last(s) == s[Len(s)]
Enabled(st, o) ==
    /\ (st.now # 0 => o.op \notin ProgramOnly)
    \* the global namespace is not asked for by objects which were there before it
    /\ (st.now # 0 /\ o.op \in UsesSpace => "space" \in st.ent[st.now])
    /\ (o.op = "def" => o.k \notin st.def /\ (o.k = 3 => 2 \in st.def))
    /\ (o.op = "done" => o.s \in DOMAIN st.ent /\ st.ent[o.s] = {} /\ o.s \notin { st.up[i] : i \in DOMAIN st.up })
    /\ (o.op = "exit" => st.up # <<>> /\ o.s = Last(st.up))
    /\ (o.op = "end" => st.up = <<>>)
    \* blocks of RTTI_REGISTER run once, before main
    /\ (o.op = "block" => ~st.main /\ o.s \notin st.blk)
    /\ (o.op = "main" => ~st.main)

Used(st, o) == st.used \cup (IF o.op \in GivesTypes THEN {"types"} ELSE {}) \cup (IF o.op \in UsesSpace THEN {"space"} ELSE {})
                       \cup (IF o.op = "reg" THEN {ConvThing(<<o.s, o.k>>)} ELSE {})
Restrict(f, D) == [x \in D |-> f[x]]
After(st, o) ==
    LET sure == IF o.op \in SureType THEN {o.k} ELSE IF o.op \in {"reg", "unreg", "has"} THEN {o.s, o.k} ELSE {}
        may == sure \cup (IF o.op \in WithType THEN {o.k} ELSE {}) \cup (IF o.op \in {"meta", "invoke"} THEN {2, 3} ELSE {})
                    \cup (IF o.op = "mark" THEN {4} ELSE {}) \cup (IF o.op = "invoke" THEN {2, 3} ELSE {})
        n == [st EXCEPT !.used = Used(st, o), !.seen = @ \cup sure, !.may = @ \cup may] IN
    CASE o.op = "hold" -> [n EXCEPT !.v[o.s] = [k |-> o.k, t |-> o.t]]
      [] o.op \in {"copy", "ctor"} -> [n EXCEPT !.v[o.k] = st.v[o.s]]
      [] o.op = "swap" -> [n EXCEPT !.v[o.k] = st.v[o.s], !.v[o.s] = st.v[o.k]]
      [] o.op = "drop" -> [n EXCEPT !.v[o.s] = None]
      [] o.op = "reg" -> IF HasConv(st, o.s, o.k) THEN n ELSE [n EXCEPT !.conv = (<<o.s, o.k>> :> o.t) @@ @]
      [] o.op = "unreg" -> [n EXCEPT !.conv = Restrict(@, DOMAIN @ \ {<<o.s, o.k>>}),
                                     !.ent = [i \in DOMAIN @ |-> @[i] \ {ConvThing(<<o.s, o.k>>)}], !.used = @ \ {ConvThing(<<o.s, o.k>>)}]
      [] o.op = "def" -> [n EXCEPT !.def = @ \cup {o.k}]
      [] o.op = "done" -> [n EXCEPT !.up = Append(@, o.s), !.ent[o.s] = st.used]
      [] o.op = "exit" -> [n EXCEPT !.up = SubSeq(@, 1, Len(@) - 1), !.now = o.s]
      [] o.op = "end" -> [n EXCEPT !.v = [i \in DOMAIN @ |-> None]]
      [] o.op = "block" -> [n EXCEPT !.blk = @ \cup {o.s}]
      [] o.op = "main" -> [n EXCEPT !.main = TRUE]
      [] OTHER -> n
(* Tracked objects alive: strings aren't counted *)
Live(st) == Cardinality({ i \in DOMAIN st.v : st.v[i].k \notin {0, 4} })
=============================================================================
