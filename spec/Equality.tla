------------------------------ MODULE Equality ------------------------------
(* Property C06: equality and hash of variants.                              *)
(* Content: [e: empty, d: type without const, reference and extent,          *)
(*           n: array length (0: not an array), cmp: type has ==, x: value]  *)
EXTENDS Naturals, Sequences, FiniteSets
Equal(c, d) ==
    IF c.e \/ d.e THEN (IF c.e /\ d.e THEN "true" ELSE "false")
    ELSE IF c.d # d.d \/ c.n # d.n THEN "false"
    ELSE IF ~c.cmp THEN "error"
    ELSE IF c.x = d.x THEN "true" ELSE "false"
HashOk(c, d, hc, hd) == Equal(c, d) = "true" => hc = hd
=============================================================================
