------------------------------ MODULE WireRaw ------------------------------
(***************************************************************************)
(* Arbitrary input: all byte strings over an alphabet of tags, lengths and *)
(* varint pieces, up to MaxLen bytes.  Each is a case for the real         *)
(* deserializer (P05); WireTrace judges the result.                        *)
(***************************************************************************)
EXTENDS Wire, TLC, Json
CONSTANTS Types, MaxLen, Emit
VARIABLES t, b
vars == <<t, b>>
Tag(n, w) == n * 8 + w
Alphabet(ty) ==
  {0, 1, 2, 128, 255} \cup
  (CASE ty = "Scalars" -> {Tag(1,0), Tag(5,0), Tag(14,2), Tag(13,0), Tag(11,5), 3, 12}
     [] ty = "Repeats" -> {Tag(1,2), Tag(1,0), Tag(7,2), Tag(7,5), Tag(14,2), 4, 7}
     [] ty = "Outer"   -> {Tag(1,2), Tag(2,2), Tag(3,0), Tag(1,0), 6}
     [] ty = "Mid"     -> {Tag(2,2), Tag(3,2), Tag(1,0), 3, 5}
     [] ty = "Maps"    -> {Tag(1,2), Tag(2,2), Tag(12,2), Tag(1,0), Tag(2,0), 4}
     [] OTHER          -> {Tag(1,0), Tag(3,2), Tag(4,2), Tag(1,2), 3})
Init == t \in Types /\ b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Alphabet(t) : b' = Append(b, x) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
\* rejecting is definite: no extension of the input revives it unless it was merely too short
Total == Decode(t, b).st \in {"ok", "bad", "any"}
EmitCase == Emit => PrintT("CASE " \o ToJson([t |-> t, b |-> b]))
=============================================================================
