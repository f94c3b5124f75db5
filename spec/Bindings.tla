------------------------------ MODULE Bindings ------------------------------
(***************************************************************************)
(* What the bindings make of an option value of JavaScript.                *)
(*                                                                         *)
(* <<0>> undefined, <<1>> null, <<2, n>> a number, <<3, text>>,            *)
(* <<4, b>>, <<5, fields>> an object, <<6>> an array, <<7, t>> the number  *)
(* of t tenths, <<8, text>> a number beyond every size there is, <<9>> no  *)
(* number.  An option that is not there, or is not of its kind, takes its  *)
(* default; option values that are neither an object nor left out are      *)
(* refused.  A number counts with its fraction cut off, none below zero.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

JsIndent == <<105, 110, 100, 101, 110, 116>>
JsDelimiter == <<100, 101, 108, 105, 109, 105, 116, 101, 114>>
JsKeyFolding == <<107, 101, 121, 70, 111, 108, 100, 105, 110, 103>>
JsFlattenDepth == <<102, 108, 97, 116, 116, 101, 110, 68, 101, 112, 116, 104>>
JsStrict == <<115, 116, 114, 105, 99, 116>>
JsExpandPaths == <<101, 120, 112, 97, 110, 100, 80, 97, 116, 104, 115>>
JsSafe == <<115, 97, 102, 101>>

Accepts(js) == js[1] \in {0, 1, 5, 6}
Fields(js) == IF js[1] = 5 THEN js[2] ELSE <<>>
Field(js, name) ==
    LET at == {i \in 1..Len(Fields(js)) : Fields(js)[i][1] = name} IN
    IF at = {} THEN <<0>> ELSE Fields(js)[CHOOSE i \in at : TRUE][2]
Numeral(js, name, default) ==
    LET f == Field(js, name) IN
    CASE f[1] = 2 -> f[2]
      [] f[1] = 7 -> IF f[2] < 0 THEN 0 ELSE f[2] \div 10
      [] f[1] = 8 -> 1000000
      [] f[1] = 9 -> 0
      [] OTHER -> default
Truth(js, name, default) == LET f == Field(js, name) IN IF f[1] = 4 THEN f[2] = 1 ELSE default
IsSafe(js, name) == Field(js, name) = <<3, JsSafe>>

EncOptions(js) ==
    [indent |-> Numeral(js, JsIndent, 2),
     delim |-> LET f == Field(js, JsDelimiter) IN IF f[1] = 3 /\ f[2] # <<>> THEN f[2][1] ELSE 44,
     fold |-> IsSafe(js, JsKeyFolding),
     flat |-> Numeral(js, JsFlattenDepth, 1000000)]
DecOptions(js) ==
    [indent |-> Numeral(js, JsIndent, 2),
     strict |-> Truth(js, JsStrict, TRUE),
     x |-> IsSafe(js, JsExpandPaths)]
=============================================================================
