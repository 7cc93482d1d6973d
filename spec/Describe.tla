------------------------------ MODULE Describe ------------------------------
(* Property C08: what a MetaType must say about a type, given the structure  *)
(* of the type and facts about its base type taken from the compiler.        *)
EXTENDS Types, TLC, Json, IOUtils, SequencesExt, Integers

Rows == ndJsonDeserialize(IOEnv.ROWS)

(* bit position -> flag *)
FlagName == <<"Const", "Pointer", "MemberPointer", "LvalueReference", "RvalueReference", "Array",
              "Void", "Integral", "FloatPoint", "Enum", "Function", "Union", "Class",
              "StandardLayout", "Trivial", "Abstract", "Polymorphic", "DefaultConstructible",
              "CopyConstructible", "CopyAssignable", "MoveConstructible", "MoveAssignable",
              "Destructible", "EQ_Comparable">>

(* t: structure; b: set of names of flags which the compiler says the base type has *)
Flags(t, b) ==
       (b \ {"MemberPointer", "EQ_Comparable"})
  \cup (IF Const(t) THEN {"Const"} ELSE {})
  \cup (IF t.a > 0 /\ t.n = 0 THEN {"Pointer"} ELSE {})
  \cup (IF t.a = 0 /\ t.n = 0 /\ "MemberPointer" \in b THEN {"MemberPointer"} ELSE {})
  \cup (IF t.r = "l" THEN {"LvalueReference"} ELSE {})
  \cup (IF t.r = "r" THEN {"RvalueReference"} ELSE {})
  \cup (IF t.n > 0 THEN {"Array"} ELSE {})
  \cup (IF t.a > 0 \/ t.n > 0 \/ "EQ_Comparable" \in b THEN {"EQ_Comparable"} ELSE {})

Size(t, s, ptr) == (IF t.a > 0 THEN ptr ELSE s) * (IF t.n > 0 THEN t.n ELSE 1)

Predicates(t, b) ==
       (IF Const(t) THEN {"isConst"} ELSE {})
  \cup (IF t.r = "l" THEN {"isLvalueReference"} ELSE {})
  \cup (IF t.r = "r" THEN {"isRvalueReference"} ELSE {})
  \cup (IF t.r # "n" THEN {"isReference"} ELSE {})
  \cup (IF t.n = 0 /\ t.a = 0 /\ "Class" \in b THEN {"isClass"} ELSE {})
  \cup (IF t.n = 0 /\ t.a > 0 THEN {"isPointer"} ELSE {})
  \cup (IF t.n = 0 /\ t.a > 0 /\ "Void" \in b THEN {"isVoidPtr"} ELSE {})
  \cup (IF t.n = 0 /\ t.a = 1 /\ "Class" \in b THEN {"isClassPtr"} ELSE {})
  \cup (IF t.n = 0 /\ t.a = 1 /\ "Function" \in b THEN {"isFunctionPtr"} ELSE {})
  \cup (IF t.n > 0 THEN {"isArray"} ELSE {})
  \cup {"valid"}
  \cup (IF t = Decay(t) THEN {"decayed"} ELSE {})

BitSet(bits) == { FlagName[k + 1] : k \in ToSet(bits) }

Wrong(row) ==
  CASE row.kind = "type" ->
       LET b == ToSet(row.base) IN
          (IF BitSet(row.bits) # Flags(row.t, b) THEN {"typeFlags"} ELSE {})
     \cup (IF ToSet(row.preds) \ {"isClass"} # Predicates(row.t, b) \ {"isClass"} THEN {"predicates"} ELSE {})
          \* an array of classes is class-like or not: not claimed
     \cup (IF row.t.n = 0 /\ ("isClass" \in ToSet(row.preds)) # ("isClass" \in Predicates(row.t, b)) THEN {"isClass"} ELSE {})
     \cup (IF row.size # Size(row.t, row.bsize, row.ptr) THEN {"typeSize"} ELSE {})
     \cup (IF row.t.n = 0 /\ row.arity # row.t.a THEN {"pointerArity"} ELSE {})
     \cup (IF row.idof # row.self THEN {"typeId is shared with another type"} ELSE {})
     \cup (IF row.decay # row.xdecay THEN {"decayId"} ELSE {})
     \cup (IF row.byname # row.self THEN {"lookup by typeName"} ELSE {})
     \cup (IF row.byid # row.self THEN {"typeId round trip"} ELSE {})
     \cup (IF row.name # row.xname THEN {"typeName"} ELSE {})
     \cup (IF row.pname # row.xname THEN {"printed name"} ELSE {})
     \cup (IF ToSet(row.printed) # Flags(row.t, b) \/ Len(row.printed) # Cardinality(Flags(row.t, b))
             THEN {"printed flags"} ELSE {})
  [] row.kind = "flags" ->
       IF ToSet(row.printed) # (IF row.bits = <<>> THEN {"None"} ELSE BitSet(row.bits)) THEN {"printed flags value"} ELSE {}
  [] row.kind = "invalid" ->
       IF row.ok THEN {} ELSE {"invalid type: " \o row.what}
  [] OTHER -> {"unknown row"}

VARIABLE i, done
Skip == LET x == ndJsonDeserialize(IOEnv.SKIP) IN { x[k] : k \in DOMAIN x }
Init == i \in (1..Len(Rows)) \ Skip /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ i' = i
        /\ LET w == Wrong(Rows[i])
           IN  w = {} \/ PrintT(<<"BAD", ToJson([i |-> i, wrong |-> SetToSeq(w)])>>)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
