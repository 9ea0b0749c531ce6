------------------------------ MODULE WireCost ------------------------------
(***************************************************************************)
(* Time.  Every shape is an input that consists of k equal units; eight    *)
(* times as many units are an input of eight times the size (Scale), which *)
(* may take eight times as long.  Fair allows three times that, and does   *)
(* not look at times that are too short to be measured (microseconds).     *)
(* Growing are the shapes in which each unit adds an element to a field.   *)
(***************************************************************************)
EXTENDS WireBig
Growing == {"texts", "blobs", "msgs", "unpacked"}
CType(s) == CASE s \in {"over", "num"} -> "Scalars" [] s \in {"blobs", "unpacked"} -> "Repeats" [] s = "key" -> "Maps" [] s = "merge" -> "Outer"
              [] s \in {"unks", "unkv"} -> "Leaf" [] OTHER -> Type(s)
Units(s, k) == CASE s = "over" -> <<Run(Tag(14, 2) \o <<1, 97>>, k)>>
                 [] s = "num" -> <<Run(Tag(1, 0) \o <<5>>, k)>>
                 [] s = "blobs" -> <<Run(Tag(15, 2) \o <<1, 97>>, k)>>
                 [] s = "unpacked" -> <<Run(Tag(1, 0) \o <<5>>, k)>>
                 [] s = "key" -> <<Run(Tag(2, 2) \o <<4, 8, 1, 16, 1>>, k)>>
                 [] s = "merge" -> <<Run(Tag(1, 2) \o <<2, 8, 6>>, k)>>
                 [] s = "unks" -> <<Run(Tag(200, 2) \o <<1, 7>>, k)>>
                 [] s = "unkv" -> <<Run(Tag(200, 0) \o <<7>>, k)>>
                 [] OTHER -> Encoding(s, k)
\* all inputs of the smallest size are valid, so that it is decoding that is measured
Valid == n <= Small => Decode(CType(shape), Expand(Units(shape, n))).st = "ok"
Scale == LET a == Size(Units(shape, n)) b == Size(Units(shape, 8 * n)) IN b <= 8 * a /\ b * 2 >= 8 * a - 200
EmitCost == (Emit /\ n > Small) => PrintT("CASE " \o ToJson([op |-> "time", t |-> CType(shape), shape |-> shape, n |-> n,
                       segs |-> Units(shape, n), segs8 |-> Units(shape, 8 * n)]))
CInit == shape \in Shapes /\ n \in ({10} \cup (IF shape \in Growing THEN Few ELSE Sizes)) /\ damage = "none"
CSpec == CInit /\ [][Next]_vars

Fair(one, eight) == eight <= 20000 \/ eight <= 24 * one
=============================================================================
