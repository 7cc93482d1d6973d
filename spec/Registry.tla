------------------------------ MODULE Registry ------------------------------
(* Properties C09, C10, C12, C17 and the sequential part of C16: the registry *)
(* of metadata - containers, classes, members, attributes, enums - and the    *)
(* definition language which fills it, with deferred definitions.             *)
(*                                                                            *)
(* State                                                                      *)
(*   co   containers in order of creation, co[1] is the global namespace      *)
(*   cls  cls[k]: container of C++ class k, 0 when not registered             *)
(*   cur  where the definition is: container, enum (0: none), open scopes     *)
(*   ran  how many times each deferred definition was run                     *)
(* A deferred definition number i is the sequence of operations LZ[i].        *)
(* Items of a container: prop, method: <<name, identity>>, enum: records,     *)
(* ctor: names; attr, el: <<name, value>>.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Start(n, names) ==
    [ kn |-> names,    \* how references to the classes are written: kn[2k-1] K&, kn[2k] K const&
      co  |-> << [k |-> 0, name |-> "global", qn |-> "", owner |-> 0, ns |-> <<>>, class |-> <<>>, prop |-> <<>>, method |-> <<>>,
                  enum |-> <<>>, ctor |-> <<>>, attr |-> <<>>, bases |-> <<>>, derived |-> <<>>, lazy |-> 0, run |-> FALSE] >>,
      cls |-> [k \in 1..n |-> 0],
      cur |-> [c |-> 1, e |-> 0, stk |-> <<>>, d |-> 0],
      ran |-> <<>> ]

-----------------------------------------------------------------------------
(* lists *)
NameOf(x) == x[1]
Find(list, name) == SelectInSeq(list, LAMBDA x : x[1] = name)        \* 0 when absent
AddOnce(list, x) == IF x[1] # "" /\ Find(list, x[1]) = 0 THEN Append(list, x) ELSE list
SetIn(list, name, v) == IF name = "" THEN list
                        ELSE LET i == Find(list, name) IN IF i = 0 THEN Append(list, <<name, v>>) ELSE [list EXCEPT ![i] = <<name, v>>]
FindBy(st, list, name) == LET i == SelectInSeq(list, LAMBDA c : st.co[c].name = name) IN IF i = 0 THEN 0 ELSE list[i]
AddTo(list, x) == IF \E i \in DOMAIN list : list[i] = x THEN list ELSE Append(list, x)
Names(st, list) == [i \in DOMAIN list |-> st.co[list[i]].name]
FirstOf(s) == IF s = <<>> THEN "" ELSE s[1]

(* a method or constructor is found by its full signature or by its bare name *)
Bare(m, q) == m[3] = q \/ m[1] = q
FindMember(list, q) == IF q = "" THEN 0 ELSE SelectInSeq(list, LAMBDA m : Bare(m, q))

Signature(st, shape, name) ==
    LET k == st.co[st.cur.c].k IN
    name \o (CASE shape = 0 -> "()" [] shape = 1 -> "(int)" [] shape = 2 -> "(int, char)"
               [] shape = 3 -> "(" \o st.kn[2 * k - 1] \o ")"
               [] OTHER -> "(" \o st.kn[2 * k] \o ", int)")

-----------------------------------------------------------------------------
(* Results: [st, out, res, log] *)
R(st, out, res, log) == [st |-> st, out |-> out, res |-> res, log |-> log]
Ok(st, log) == R(st, "ok", <<>>, log)

NewContainer(st, k, name, owner) ==
    [k |-> k, name |-> name, qn |-> st.co[owner].qn \o "::" \o name, owner |-> owner, ns |-> <<>>, class |-> <<>>, prop |-> <<>>, method |-> <<>>,
     enum |-> <<>>, ctor |-> <<>>, attr |-> <<>>, bases |-> <<>>, derived |-> <<>>, lazy |-> 0, run |-> FALSE]

RECURSIVE Apply(_, _, _), Trigger(_, _, _), Run(_, _, _), Search(_, _, _, _, _), SearchBases(_, _, _, _, _, _, _),
          Inherits(_, _, _, _), InheritsAny(_, _, _, _, _, _), Force(_, _, _), ForceList(_, _, _, _, _)

(* The pending definition of c runs before anybody observes c; whoever runs it sees its failure *)
Trigger(st, c, LZ) ==
    IF st.co[c].lazy = 0 \/ st.co[c].run THEN Ok(st, <<>>)
    ELSE LET i == st.co[c].lazy
             a == [st EXCEPT !.co[c].run = TRUE, !.cur = [c |-> c, e |-> 0, stk |-> <<>>, d |-> IF st.co[c].k = 0 THEN 0 ELSE 1], !.ran = Append(@, <<c, i>>)]
             r == Run(a, LZ[i], LZ)
             b == [r.st EXCEPT !.co[c].run = FALSE, !.co[c].lazy = 0, !.cur = st.cur]
         IN  R(b, r.out, <<>>, <<[e |-> "run", o |-> i, out |-> "", res |-> <<ToString(c)>>]>> \o r.log
                               \o <<[e |-> "end", o |-> i, out |-> r.out, res |-> <<ToString(c)>>]>>)

(* the first operation which fails ends the definition *)
Run(st, ops, LZ) ==
    IF ops = <<>> THEN Ok(st, <<>>)
    ELSE LET r == Apply(st, ops[1], LZ)
             log == r.log \o <<[e |-> "op", o |-> 0, out |-> r.out, res |-> r.res]>>
         IN  IF r.out # "ok" THEN R(r.st, r.out, <<>>, log)
             ELSE LET q == Run(r.st, Tail(ops), LZ) IN R(q.st, q.out, <<>>, log \o q.log)

(* trigger c, then F(state): [st, out, res] without a log of its own *)
After(t, F(_)) == IF t.out # "ok" THEN t ELSE LET r == F(t.st) IN R(r.st, r.out, r.res, t.log \o r.log)

-----------------------------------------------------------------------------
(* lookup in a class and then in its bases, depth first, in order of declaration. what: "method" | "prop" *)
Search(st, c, what, q, LZ) ==
    LET F(s) == LET i == IF what = "method" THEN FindMember(s.co[c].method, q) ELSE Find(s.co[c].prop, q) IN
                IF i # 0 THEN LET m == IF what = "method" THEN s.co[c].method[i] ELSE s.co[c].prop[i] IN
                              R(s, "ok", <<ToString(c), m[1], ToString(m[2])>>, <<>>)
                ELSE SearchBases(s, s.co[c].bases, 1, what, q, LZ, <<>>)
    IN  IF q = "" THEN Ok(st, <<>>) ELSE After(Trigger(st, c, LZ), F)
SearchBases(st, bs, i, what, q, LZ, log) ==
    IF i > Len(bs) THEN Ok(st, log)
    ELSE LET r == Search(st, st.cls[bs[i]], what, q, LZ) IN
         IF r.out # "ok" \/ r.res # <<>> THEN R(r.st, r.out, r.res, log \o r.log)
         ELSE SearchBases(r.st, bs, i + 1, what, q, LZ, log \o r.log)

(* inheritance: reflexive transitive closure, deferred definitions of classes on the way run *)
Inherits(st, c, b, LZ) ==
    IF c = b THEN R(st, "ok", <<"1">>, <<>>)
    ELSE LET F(s) == InheritsAny(s, s.co[c].bases, 1, b, LZ, <<>>) IN After(Trigger(st, c, LZ), F)
InheritsAny(st, bs, i, b, LZ, log) ==
    IF i > Len(bs) THEN R(st, "ok", <<"0">>, log)
    ELSE LET r == Inherits(st, st.cls[bs[i]], b, LZ) IN
         IF r.out # "ok" \/ r.res = <<"1">> THEN R(r.st, r.out, r.res, log \o r.log)
         ELSE InheritsAny(r.st, bs, i + 1, b, LZ, log \o r.log)

(* all definitions in the subtree, including those which they add *)
Force(st, c, LZ) ==
    LET F(s) == LET a == ForceList(s, c, "class", 1, LZ) IN
                IF a.out # "ok" THEN a
                ELSE LET b == ForceList(a.st, c, "ns", 1, LZ) IN R(b.st, b.out, <<>>, a.log \o b.log)
    IN  After(Trigger(st, c, LZ), F)
ForceList(st, c, what, i, LZ) ==
    LET list == IF what = "class" THEN st.co[c].class ELSE st.co[c].ns IN
    IF i > Len(list) THEN Ok(st, <<>>)
    ELSE LET r == Force(st, list[i], LZ) IN
         IF r.out # "ok" THEN r
         ELSE LET q == ForceList(r.st, c, what, i + 1, LZ) IN R(q.st, q.out, <<>>, r.log \o q.log)

-----------------------------------------------------------------------------
(* definitions *)
Enter(st, c) == [st EXCEPT !.cur = [c |-> c, e |-> 0, stk |-> Append(@.stk, @.c), d |-> @.d]]

DefNamespace(st, name) ==
    LET c == st.cur.c f == FindBy(st, st.co[c].ns, name) IN
    IF f # 0 THEN R(Enter(st, f), "ok", <<>>, <<>>)
    ELSE LET n == Len(st.co) + 1
             a == [st EXCEPT !.co = Append(@, NewContainer(st, 0, name, c))]
         IN  R(Enter([a EXCEPT !.co[c].ns = Append(@, n)], n), "ok", <<>>, <<>>)

AutoCtors == << <<"d_constructor", 0, "d_constructor">>, <<"c_constructor", 0, "c_constructor">>, <<"m_constructor", 0, "m_constructor">> >>
DefClass(st, k, name, LZ) ==
    LET c == st.cur.c
        f == FindBy(st, st.co[c].class, name)
        Ctors(s, x) == [s EXCEPT !.co[x].ctor = FoldLeft(AddOnce, @, AutoCtors)]
        Open(x) == LET F(s) == R(Enter([Ctors(s, x) EXCEPT !.cur = st.cur], x), "ok", <<>>, <<>>) IN After(Trigger(st, x, LZ), F)
    IN  IF f # 0 THEN IF st.co[f].k = k THEN Open(f) ELSE R(st, "duplicate", <<>>, <<>>)
        ELSE IF st.cls[k] # 0 THEN R(st, "duplicate", <<>>, <<>>)
        ELSE LET n == Len(st.co) + 1
                 a == [st EXCEPT !.co = Append(@, NewContainer(st, k, name, c)), !.cls[k] = n]
             IN  R(Enter(Ctors([a EXCEPT !.co[c].class = Append(@, n)], n), n), "ok", <<>>, <<>>)

DefEnum(st, name) ==
    LET c == st.cur.c
        i == SelectInSeq(st.co[c].enum, LAMBDA e : e.name = name) IN
    IF i # 0 THEN R([st EXCEPT !.cur.e = i], "ok", <<>>, <<>>)
    ELSE R([st EXCEPT !.co[c].enum = Append(@, [name |-> name, el |-> <<>>, attr |-> <<>>]), !.cur.e = Len(st.co[c].enum) + 1], "ok", <<>>, <<>>)

(* each base of the list is a step *)
RECURSIVE DefBases(_, _)
DefBases(st, bs) ==
    IF bs = <<>> THEN Ok(st, <<>>)
    ELSE LET c == st.cur.c b == bs[1] IN
         IF st.cls[b] = 0 THEN R(st, "unregistered", <<>>, <<>>)
         ELSE DefBases([st EXCEPT !.co[c].bases = AddTo(@, b), !.co[st.cls[b]].derived = AddTo(@, st.co[c].k)], Tail(bs))

-----------------------------------------------------------------------------
(* everything that can be seen of a container once its definition has run *)
Look(st, c) == LET x == st.co[c] IN
    [ k |-> x.k, qn |-> x.qn, name |-> x.name, owner |-> x.owner, ns |-> Names(st, x.ns), class |-> Names(st, x.class),
      prop |-> [i \in DOMAIN x.prop |-> <<x.prop[i][1], x.prop[i][2]>>], method |-> [i \in DOMAIN x.method |-> <<x.method[i][1], x.method[i][2]>>],
      enum |-> x.enum, ctor |-> [i \in DOMAIN x.ctor |-> x.ctor[i][1]], attr |-> x.attr, bases |-> x.bases, derived |-> x.derived, sane |-> <<>> ]

(* single observations *)
Obs(st, c, what, q) == LET x == st.co[c] S(n) == <<ToString(n)>> IN
    CASE what = "nsCount" -> S(Len(x.ns))             [] what = "ns0" -> <<FirstOf(Names(st, x.ns))>>
      [] what = "classCount" -> S(Len(x.class))       [] what = "class0" -> <<FirstOf(Names(st, x.class))>>
      [] what = "propCount" -> S(Len(x.prop))         [] what = "prop0" -> <<IF x.prop = <<>> THEN "" ELSE x.prop[1][1]>>
      [] what = "methodCount" -> S(Len(x.method))     [] what = "method0" -> <<IF x.method = <<>> THEN "" ELSE x.method[1][1]>>
      [] what = "enumCount" -> S(Len(x.enum))         [] what = "enum0" -> <<IF x.enum = <<>> THEN "" ELSE x.enum[1].name>>
      [] what = "ctorCount" -> S(Len(x.ctor))         [] what = "ctor0" -> <<IF x.ctor = <<>> THEN "" ELSE x.ctor[1][1]>>
      [] what = "attrCount" -> S(Len(x.attr))         [] what = "attrName0" -> <<IF x.attr = <<>> THEN "" ELSE x.attr[1][1]>>
      [] what = "attr0" -> <<IF x.attr = <<>> THEN "" ELSE ToString(x.attr[1][2])>>
      [] what = "baseCount" -> S(Len(x.bases))        [] what = "base0" -> S(IF x.bases = <<>> THEN 0 ELSE x.bases[1])
      [] what = "derivedCount" -> S(Len(x.derived))   [] what = "derived0" -> S(IF x.derived = <<>> THEN 0 ELSE x.derived[1])
      [] what = "eachClass" -> Names(st, x.class)     [] what = "eachMethod" -> [i \in DOMAIN x.method |-> x.method[i][1]]
      [] what = "eachAttr" -> [i \in DOMAIN x.attr |-> x.attr[i][1]]
      [] what = "nsBy" -> S(FindBy(st, x.ns, q))      [] what = "classBy" -> S(FindBy(st, x.class, q))
      [] what = "enumBy" -> <<IF SelectInSeq(x.enum, LAMBDA e : e.name = q) # 0 THEN q ELSE "">>
      [] what = "elemCount" -> LET i == SelectInSeq(x.enum, LAMBDA e : e.name = q) IN IF i = 0 THEN <<>> ELSE S(Len(x.enum[i].el))
      [] what = "elem0" -> LET i == SelectInSeq(x.enum, LAMBDA e : e.name = q) IN IF i = 0 THEN <<>> ELSE <<IF x.enum[i].el = <<>> THEN "" ELSE x.enum[i].el[1][1]>>
      [] what = "eachElem" -> LET i == SelectInSeq(x.enum, LAMBDA e : e.name = q) IN IF i = 0 THEN <<>> ELSE [j \in DOMAIN x.enum[i].el |-> x.enum[i].el[j][1]]
      [] what = "attrBy" -> LET i == Find(x.attr, q) IN <<IF i = 0 THEN "" ELSE ToString(x.attr[i][2])>>
      [] what = "ctor" -> LET i == FindMember(x.ctor, q) IN IF i = 0 THEN <<>> ELSE <<x.ctor[i][1]>>
      [] what = "dflt" -> S(FindMember(x.ctor, "d_constructor"))
      [] what = "copy" -> S(FindMember(x.ctor, "c_constructor"))
      [] what = "move" -> S(FindMember(x.ctor, "m_constructor"))
      [] what = "force" -> <<>>

(* Operations o = [op, a, b, n, m, l]. Operations which the interface doesn't offer in a scope do nothing *)
(* (nesting is limited by the driver)                                                                     *)
CanBase == { <<2, 1>>, <<3, 1>>, <<3, 5>>, <<4, 2>>, <<4, 3>> }
Applies(st, o) ==
    LET k == st.co[st.cur.c].k depth == Len(st.cur.stk) + st.cur.d open == IF k = 0 THEN depth < 3 ELSE depth < 2 IN
    CASE o.op = "ns" -> k = 0 /\ open
      [] o.op = "class" -> k # o.a /\ open
      [] o.op = "end" -> st.cur.stk # <<>>
      [] o.op = "elem" -> st.cur.e # 0
      [] o.op = "method" -> k # 0 \/ o.a < 3
      [] o.op = "prop" -> k # 0 \/ o.a = 0
      [] o.op = "ctor" -> k # 0
      [] o.op = "base" -> \A i \in DOMAIN o.l : <<k, o.l[i]>> \in CanBase
      [] o.op \in {"attr", "enum", "lazy", "throw", "find"} -> TRUE
      [] OTHER -> o.a <= Len(st.co)

Apply(st, o, LZ) ==
    LET c == st.cur.c
        OwnerFirst(F(_)) == After(Trigger(st, c, LZ), F)
    IN
    IF ~Applies(st, o) THEN Ok(st, <<>>) ELSE
    CASE o.op = "ns"    -> LET F(s) == DefNamespace(s, o.n) IN OwnerFirst(F)
      [] o.op = "class" -> LET F(s) == DefClass(s, o.a, o.n, LZ) IN OwnerFirst(F)
      [] o.op = "end"   -> Ok([st EXCEPT !.cur = [c |-> Last(@.stk), e |-> 0, stk |-> Front(@.stk), d |-> @.d]], <<>>)
      [] o.op = "attr"  -> Ok(IF st.cur.e = 0 THEN [st EXCEPT !.co[c].attr = SetIn(@, o.n, o.a)]
                              ELSE [st EXCEPT !.co[c].enum[st.cur.e].attr = SetIn(@, o.n, o.a)], <<>>)
      [] o.op = "elem"  -> Ok([st EXCEPT !.co[c].enum[st.cur.e].el = SetIn(@, o.n, o.a)], <<>>)
      [] o.op = "enum"  -> LET F(s) == DefEnum(s, o.n) IN OwnerFirst(F)
      [] o.op = "method" -> LET F(s) == Ok([s EXCEPT !.co[c].method = AddOnce(@, <<Signature(s, o.a, o.n), o.b, o.n>>)], <<>>) IN OwnerFirst(F)
      [] o.op = "ctor"   -> LET F(s) == Ok([s EXCEPT !.co[c].ctor = AddOnce(@, <<o.m, 0, o.n>>)], <<>>) IN OwnerFirst(F)
      [] o.op = "prop"   -> IF o.n = "" THEN Ok(st, <<>>)
                            ELSE LET F(s) == Ok([s EXCEPT !.co[c].prop = AddOnce(@, <<o.n, o.b>>)], <<>>) IN OwnerFirst(F)
      [] o.op = "base"  -> DefBases(st, o.l)
      [] o.op = "lazy"  -> IF st.co[c].lazy # 0 THEN R(st, "definition", <<>>, <<>>) ELSE Ok([st EXCEPT !.co[c].lazy = o.a], <<>>)
      [] o.op = "throw" -> R(st, "thrown", <<>>, <<>>)
      [] o.op = "dump"  -> Trigger(st, o.a, LZ)
      [] o.op = "obs"   -> LET F(s) == R(s, "ok", Obs(s, o.a, o.m, o.n), <<>>) IN After(Trigger(st, o.a, LZ), F)
      [] o.op \in {"methodBy", "propBy"} -> Search(st, o.a, IF o.op = "methodBy" THEN "method" ELSE "prop", o.n, LZ)
      [] o.op = "inherits" -> IF st.co[o.a].k = 0 \/ st.cls[o.b] \in {0, o.a} THEN Ok(st, <<>>) ELSE Inherits(st, o.a, st.cls[o.b], LZ)
      [] o.op = "find"  -> R(st, "ok", <<ToString(st.cls[o.a])>>, <<>>)
      [] o.op = "force" -> Force(st, o.a, LZ)

-----------------------------------------------------------------------------
(* What holds in every state *)
UniqueNames(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Firsts(s) == [i \in DOMAIN s |-> s[i][1]]
Unique(st) == \A c \in DOMAIN st.co : LET x == st.co[c] IN
    /\ UniqueNames(Names(st, x.ns)) /\ UniqueNames(Names(st, x.class)) /\ UniqueNames(Firsts(x.prop)) /\ UniqueNames(Firsts(x.method))
    /\ UniqueNames(Firsts(x.ctor)) /\ UniqueNames(Firsts(x.attr)) /\ UniqueNames([i \in DOMAIN x.enum |-> x.enum[i].name])
    /\ \A i \in DOMAIN x.enum : UniqueNames(Firsts(x.enum[i].el)) /\ UniqueNames(Firsts(x.enum[i].attr))
    /\ UniqueNames(x.bases) /\ UniqueNames(x.derived)
Owned(st) == \A c \in DOMAIN st.co : LET x == st.co[c] IN
    /\ c # 1 => /\ x.owner < c /\ x.qn = st.co[x.owner].qn \o "::" \o x.name
                /\ IF x.k = 0 THEN \E i \in DOMAIN st.co[x.owner].ns : st.co[x.owner].ns[i] = c
                              ELSE \E i \in DOMAIN st.co[x.owner].class : st.co[x.owner].class[i] = c
    /\ x.k # 0 => st.cls[x.k] = c
Classes(st) == \A k \in DOMAIN st.cls : st.cls[k] # 0 => st.co[st.cls[k]].k = k
Mirrored(st) == \A c \in DOMAIN st.co :
    /\ \A i \in DOMAIN st.co[c].bases : LET b == st.cls[st.co[c].bases[i]] IN b # 0 /\ \E j \in DOMAIN st.co[b].derived : st.co[b].derived[j] = st.co[c].k
    /\ \A i \in DOMAIN st.co[c].derived : LET d == st.cls[st.co[c].derived[i]] IN d # 0 /\ \E j \in DOMAIN st.co[d].bases : st.co[d].bases[j] = st.co[c].k
Resting(st) == \A c \in DOMAIN st.co : ~st.co[c].run
Invariants(st) == Unique(st) /\ Owned(st) /\ Classes(st) /\ Mirrored(st) /\ Resting(st)

Grown(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Stable(st, nx) == \A c \in DOMAIN st.co : LET x == st.co[c] y == nx.co[c] IN
    /\ x.name = y.name /\ x.qn = y.qn /\ x.owner = y.owner /\ x.k = y.k
    /\ Grown(x.ns, y.ns) /\ Grown(x.class, y.class) /\ Grown(x.prop, y.prop) /\ Grown(x.method, y.method) /\ Grown(x.ctor, y.ctor)
    /\ Grown(x.bases, y.bases) /\ Grown(x.derived, y.derived) /\ Grown(Firsts(x.attr), Firsts(y.attr))
    /\ Grown([i \in DOMAIN x.enum |-> x.enum[i].name], [i \in DOMAIN y.enum |-> y.enum[i].name])
    /\ \A i \in DOMAIN x.enum : Grown(Firsts(x.enum[i].el), Firsts(y.enum[i].el))
=============================================================================
