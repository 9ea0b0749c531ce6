---- MODULE SchemaGen ----
(* Schemas: a catalogue with every kind of field, and random ones. *)
EXTENDS Schema, Json, Randomization
CONSTANTS Emit, MaxMsgs, MaxEnums, MaxFields
VARIABLES s, n
vars == <<s, n>>
Any_(S) == RandomElement(S)
F(m, nm, num, card, type, ref, key) == [m |-> m, n |-> nm, num |-> num, card |-> card, type |-> type, ref |-> ref, key |-> key, js |-> FALSE]
J(f) == [f EXCEPT !.js = TRUE]
Vals(e) == << [p |-> "V" \o ToString(e) \o "_NONE", c |-> "V" \o ToString(e) \o "_NONE", v |-> 0], [p |-> "w" \o ToString(e) \o "_some", c |-> "W" \o ToString(e) \o "_some", v |-> 5],
              [p |-> "NEG" \o ToString(e), c |-> "NEG" \o ToString(e), v |-> -7], [p |-> "BIG" \o ToString(e), c |-> "BIG" \o ToString(e), v |-> 2147483647], [p |-> "Last" \o ToString(e), c |-> "Last" \o ToString(e), v |-> 1] >>
Empty == [pk |-> << <<"vg", "one">>, <<"vg", "two">> >>, msgs |-> <<>>, enums |-> <<>>, fields |-> <<>>, svcs |-> <<>>]
Msg(name, file, parent) == [name |-> name, file |-> file, parent |-> parent]
Enum(name, file, owner, e) == [name |-> name, file |-> file, owner |-> owner, vals |-> Vals(e)]
RECURSIVE Seq_(_)
Seq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seq_(S \ {x})
Sc == Seq_(Scalars)
Ks == Seq_(Keys)
\* every scalar alone, repeated, as value and as key of a map; enums of all scopes; nested, recursive and imported messages
Rpc(j, a, b, st) == [p |-> Rpcs[j].p, up |-> Rpcs[j].up, in |-> a, out |-> b, stream |-> st]
Catalogue ==
  [Empty EXCEPT
   !.svcs = << [name |-> SvcNames[1], file |-> 1, rpcs |-> << Rpc(1, 1, 5, FALSE), Rpc(2, 5, 1, TRUE), Rpc(3, 1, 1, FALSE), Rpc(4, 1, 5, TRUE) >>], [name |-> SvcNames[2], file |-> 1, rpcs |-> << Rpc(1, 5, 5, TRUE) >>],
               [name |-> SvcNames[3], file |-> 2, rpcs |-> << Rpc(5, 9, 9, FALSE), Rpc(6, 9, 9, TRUE) >>] >>,
   !.msgs = << Msg("Alpha", 1, 0), Msg("BetaMax", 1, 0), Msg("Gamma_ray", 1, 0), Msg("D4", 1, 0), Msg("Epsilon", 1, 0), Msg("URLLoader", 1, 5), Msg("Eta", 1, 6), Msg("Theta2", 1, 0), Msg("Iota", 2, 0), Msg("KappaKappa", 1, 5), Msg("Lambda", 1, 0), Msg("KappaKappa", 1, 11), Msg("Alpha", 1, 11), Msg("Alpha", 2, 0) >>,
   !.enums = << Enum("Kind", 1, 0, 1), Enum("State", 1, 5, 2), Enum("ColorSet", 1, 6, 3), Enum("E4", 2, 0, 4), Enum("State", 1, 0, 5), Enum("State", 1, 11, 6), Enum("Kind", 2, 0, 7) >>,
   !.fields = [j \in 1..15 |-> F(1, j, j, "one", Sc[j], 0, "")] \o [j \in 1..15 |-> F(2, j, 14 + j, "rep", Sc[j], 0, "")]
     \o [j \in 1..15 |-> F(3, j, 2040 + j, "map", Sc[j], 0, "string")] \o [j \in 1..12 |-> F(4, j, 20 * j, "map", "int32", 0, Ks[j])]
     \o << F(5, 1, 1, "one", "msg", 6, ""), F(5, 2, 2, "rep", "msg", 6, ""), F(5, 3, 3, "map", "msg", 6, "int32"), F(5, 4, 4, "one", "enum", 1, ""), F(5, 5, 5, "rep", "enum", 1, ""), F(5, 6, 6, "map", "enum", 1, "string"),
           F(5, 7, 7, "one", "enum", 2, ""), F(5, 8, 8, "rep", "enum", 2, ""), F(5, 9, 9, "map", "enum", 2, "uint64"), F(5, 10, 10, "one", "msg", 1, ""), F(5, 11, 11, "one", "enum", 2, ""), F(5, 12, 536870911, "one", "string", 0, ""),
           F(5, 13, 13, "rep", "msg", 5, ""),
           F(6, 1, 1, "one", "int32", 0, ""), F(6, 2, 2, "one", "enum", 3, ""), F(6, 3, 3, "rep", "enum", 3, ""), F(6, 4, 4, "one", "msg", 7, ""), F(6, 5, 5, "rep", "msg", 7, ""),
           F(7, 1, 1, "one", "double", 0, ""), F(7, 2, 2, "rep", "msg", 1, ""),
           F(8, 1, 1, "one", "enum", 2, ""), F(8, 2, 2, "rep", "enum", 2, ""), F(8, 3, 3, "one", "msg", 6, ""), F(8, 4, 4, "one", "msg", 5, ""), F(8, 5, 16, "rep", "msg", 8, ""), F(8, 6, 17, "map", "msg", 8, "bool"),
           F(9, 1, 1, "one", "msg", 1, ""), F(9, 2, 2, "rep", "msg", 5, ""), F(9, 3, 3, "one", "enum", 1, ""), F(9, 4, 4, "one", "enum", 2, ""), F(9, 5, 5, "map", "msg", 6, "sint32"), F(9, 6, 6, "rep", "enum", 4, ""), F(9, 7, 7, "one", "bytes", 0, ""),
           F(10, 1, 1, "one", "sint64", 0, ""),
           F(5, 14, 14, "one", "enum", 5, ""), J(F(5, 15, 15, "rep", "enum", 5, "")), F(5, 16, 20, "map", "enum", 5, "int64"),
           F(11, 1, 1, "one", "msg", 12, ""), F(11, 2, 2, "rep", "msg", 12, ""), F(11, 3, 3, "one", "msg", 10, ""), F(11, 4, 4, "map", "msg", 10, "string"), F(11, 5, 5, "one", "msg", 13, ""), F(11, 6, 6, "one", "msg", 1, ""),
           F(11, 7, 7, "one", "enum", 6, ""), F(11, 8, 8, "one", "enum", 5, ""), F(11, 9, 9, "rep", "enum", 6, ""), J(F(11, 10, 10, "one", "enum", 2, "")),
           J(F(12, 1, 1, "one", "uint32", 0, "")), F(12, 2, 3, "one", "enum", 5, ""), J(F(13, 1, 2, "one", "string", 0, "")), F(13, 2, 3, "rep", "msg", 1, ""),
           F(14, 1, 1, "one", "fixed64", 0, ""), J(F(14, 2, 2, "one", "msg", 1, "")), F(14, 3, 3, "one", "enum", 7, ""), F(14, 4, 4, "one", "enum", 1, ""), F(14, 5, 5, "rep", "enum", 7, "") >> ]

AddMsg(x) == IF Len(x.msgs) >= MaxMsgs THEN x ELSE
  LET tops == {m \in 1..Len(x.msgs) : x.msgs[m].parent = 0 \/ x.msgs[x.msgs[m].parent].parent = 0}
      p == IF tops # {} /\ Any_(1..3) = 1 THEN Any_(tops) ELSE 0
      file == IF p # 0 THEN x.msgs[p].file ELSE IF Any_(1..4) = 1 THEN 2 ELSE 1
      free == {MsgNames[j] : j \in 1..Len(x.msgs)} \ {x.msgs[j].name : j \in {k \in 1..Len(x.msgs) : (x.msgs[k].parent = p /\ (p # 0 \/ x.msgs[k].file = file)) \/ k = p}}
  IN [x EXCEPT !.msgs = Append(@, Msg(IF p # 0 /\ free # {} /\ Any_(1..2) = 1 THEN Any_(free) ELSE MsgNames[Len(@) + 1], file, p))]
AddEnum(x) == IF Len(x.enums) >= MaxEnums \/ x.msgs = <<>> THEN x ELSE
  LET o == IF Any_(1..2) = 1 THEN 0 ELSE Any_(1..Len(x.msgs))
      file == IF o = 0 THEN Any_({1, 1, 2}) ELSE x.msgs[o].file
      e == Len(x.enums) + 1
      v == Vals(e)
      free == {x.enums[j].name : j \in 1..Len(x.enums)} \ {x.enums[j].name : j \in {k \in 1..Len(x.enums) : x.enums[k].owner = o /\ (o # 0 \/ x.enums[k].file = file)}}
  IN [x EXCEPT !.enums = Append(@, [Enum(IF free # {} /\ Any_(1..3) = 1 THEN Any_(free) ELSE EnumNames[e], file, o, e) EXCEPT !.vals = SubSeq(v, 1, Any_(2..5))])]
AddField(x) == IF x.msgs = <<>> THEN x ELSE
  LET m == Any_(1..Len(x.msgs))
      nm == {j \in 1..Len(Names) : \A k \in 1..Len(x.fields) : x.fields[k].m = m => x.fields[k].n # j}
      nu == {j \in Numbers : \A k \in 1..Len(x.fields) : x.fields[k].m = m => x.fields[k].num # j}
      r == Any_(1..5)
      type == IF r <= 2 THEN "msg" ELSE IF r = 3 /\ x.enums # <<>> THEN "enum" ELSE Any_(Scalars)
      card == Any_({"one", "rep", "map"})
      f == F(m, Any_(nm), Any_(nu), card, type, IF type = "msg" THEN Any_(1..Len(x.msgs)) ELSE IF type = "enum" THEN Any_(1..Len(x.enums)) ELSE 0, IF card = "map" THEN Any_(Keys) ELSE "")
  IN IF Cardinality(nm) > 1 /\ Supported(x, f) THEN [x EXCEPT !.fields = Append(@, IF Any_(1..6) = 1 THEN J(f) ELSE f)] ELSE x
AddSvc(x) == LET file == Any_({1, 1, 2}) tops == {m \in 1..Len(x.msgs) : x.msgs[m].parent = 0 /\ x.msgs[m].file = file} IN
  IF tops = {} \/ Len(x.svcs) = Len(SvcNames) THEN x ELSE
  [x EXCEPT !.svcs = Append(@, [name |-> SvcNames[Len(@) + 1], file |-> file, rpcs |-> [j \in 1..Any_(1..4) |-> Rpc(IF j % 2 = 0 THEN j - 1 ELSE j + 1, Any_(tops), Any_(tops), Any_(BOOLEAN))]])]
Grow(x) == IF Len(x.msgs) < 2 THEN AddMsg(x) ELSE LET r == Any_(1..24) IN IF r <= 2 THEN AddMsg(x) ELSE IF r <= 4 THEN AddEnum(x) ELSE IF r = 5 THEN AddSvc(x) ELSE AddField(x)
Init == n = 0 /\ s \in {Catalogue, Empty}
Next == /\ s # Catalogue /\ Len(s.fields) < MaxFields /\ n < 200
        /\ n' = n + 1 /\ s' = TLCEval(Grow(s))
Spec == Init /\ [][Next]_vars
EmitCase == (Emit /\ (s = Catalogue \/ Len(s.fields) = MaxFields)) => PrintT("CASE " \o ToJson(s))

Ok == WellFormed(s)
Refs == \A j \in 1..Len(s.fields) : LET f == s.fields[j] IN (f.type = "msg" => (f.ref \in 1..Len(s.msgs) /\ s.msgs[f.ref].file <= s.msgs[f.m].file)) /\ (f.type = "enum" => f.ref \in 1..Len(s.enums))
Opts == [qml : BOOLEAN, fieldenum : BOOLEAN, extra : {"", "xn"}]
\* each field has a property of its own in every mode, and its wire form begins with its own number
OwnProperty == \A q \in BOOLEAN : LET o == [qml |-> q, fieldenum |-> TRUE, extra |-> ""] IN Cardinality({<<p.m, p.name>> : p \in Props(s, o)}) = Len(s.fields)
Number(b) == LET RECURSIVE V(_, _) 
                 V(k, w) == (b[k] % 128) * w + (IF b[k] >= 128 THEN V(k + 1, w * 128) ELSE 0)
             IN IF b[1] < 128 THEN b[1] \div 8 ELSE ((b[1] - 128) \div 8) + 16 * V(2, 1)
OwnNumber == \A w \in WireForms(s) : Number(w.b) = s.fields[w.j].num
====
