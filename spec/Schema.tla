---- MODULE Schema ----
(* What the generator has to make of a proto3 schema: for every message a class with one property per field, bound to the
   field's number, for every enum the declared keys and values, and the wire form of every field - for every combination
   of generator options.
   A schema is a record
     pk     packages of the files, each a sequence of names; file 2 imports file 1
     msgs   messages [name, file, parent]; parent 0: top level
     enums  enums [name, file, owner, vals]; owner 0: global, else the message it is declared in
     fields [m, n, num, card, type, ref, key, js]: message, index into Names, number, "one"/"rep"/"map", type, index of the
            message or enum it refers to, type of the key of a map, has a json_name of its own?
     names of nested messages and of enums are unique in their scope only
     svcs   services [name, file, rpcs]; rpcs are [p, up, in, out, stream]: name, capitalised name, messages, server stream? *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N(p, c, cap, e) == [p |-> p, c |-> c, cap |-> cap, e |-> e]
Names == <<
  N("a", "a", "A", "AEntry"), N("two_words", "twoWords", "TwoWords", "TwoWordsEntry"), N("camelCase", "camelCase", "CamelCase", "CamelCaseEntry"),
  N("Upper", "upper", "Upper", "UpperEntry"), N("id", "id_proto", "Id_proto", "IdEntry"), N("property", "property_proto", "Property_proto", "PropertyEntry"),
  N("import", "import_proto", "Import_proto", "ImportEntry"), N("x1_y2", "x1Y2", "X1Y2", "X1Y2Entry"), N("with_3_digits", "with3Digits", "With3Digits", "With3DigitsEntry"),
  N("ALLCAPS", "aLLCAPS", "ALLCAPS", "ALLCAPSEntry"), N("data", "data", "Data", "DataEntry"), N("b", "b", "B", "BEntry"), N("c", "c", "C", "CEntry"), N("d", "d", "D", "DEntry"),
  N("e", "e", "E", "EEntry"), N("f", "f", "F", "FEntry"), N("g", "g", "G", "GEntry"), N("h", "h", "H", "HEntry"), N("value", "value", "Value", "ValueEntry"), N("key", "key", "Key", "KeyEntry"),
  N("status_", "status", "Status", "StatusEntry"), N("error", "error", "Error", "ErrorEntry") >>
MsgNames == << "Alpha", "BetaMax", "Gamma_ray", "D4", "Epsilon", "URLLoader", "Eta", "Theta2", "Iota", "KappaKappa", "Lambda", "Mu" >>
SvcNames == << "First", "SecondService", "third_svc" >>
Rpcs == << [p |-> "one", up |-> "One"], [p |-> "Two", up |-> "Two"], [p |-> "three_way", up |-> "Three_way"], [p |-> "getX2", up |-> "GetX2"], [p |-> "ABC", up |-> "ABC"], [p |-> "z", up |-> "Z"] >>
EnumNames == << "Kind", "State", "ColorSet", "E4", "Phase", "Q_q", "Rank" >>
Scalars == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "float", "double", "string", "bytes"}
Keys == Scalars \ {"float", "double", "bytes"}
Numbers == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 127, 128, 2047, 2048, 18999, 20000, 262143, 262144, 33554432, 536870911}

\* ------------------------------------------------------------------ structure
RECURSIVE Top(_, _)
Top(s, m) == IF s.msgs[m].parent = 0 THEN m ELSE Top(s, s.msgs[m].parent)
Fields(s, m) == SelectSeq(s.fields, LAMBDA f : f.m = m)
RECURSIVE Reach(_, _, _)
Reach(s, M, left) == IF left = 0 THEN M ELSE
  LET T == M \cup {s.fields[j].ref : j \in {x \in 1..Len(s.fields) : s.fields[x].card = "one" /\ s.fields[x].type = "msg" /\ s.fields[x].m \in M}}
  IN IF T = M THEN M ELSE Reach(s, T, left - 1)
\* all references between messages, for the order of declarations
RECURSIVE Needs(_, _, _)
Needs(s, M, left) == IF left = 0 THEN M ELSE
  LET T == M \cup {Top(s, s.fields[j].ref) : j \in {x \in 1..Len(s.fields) : s.fields[x].type = "msg" /\ Top(s, s.fields[x].m) \in M}}
             \cup {Top(s, s.enums[s.fields[j].ref].owner) : j \in {x \in 1..Len(s.fields) : s.fields[x].type = "enum" /\ s.enums[s.fields[x].ref].owner # 0 /\ Top(s, s.fields[x].m) \in M}}
  IN IF T = M THEN M ELSE Needs(s, T, left - 1)
\* The schemas the generator supports: a message does not contain itself through singular fields; an enum of a nested message is
\* used by that message only; an enum of another message is used after that message only, and that one does not need the user.
Supported(s, f) ==
  /\ f.type = "msg" => /\ s.msgs[f.ref].file <= s.msgs[f.m].file
                       /\ f.card = "one" => f.m \notin Reach(s, {f.ref}, Len(s.msgs))
                       /\ \A j \in 1..Len(s.fields) : LET g == s.fields[j] IN     \* no circle through the enum of a neighbour
                            (g.type = "enum" /\ s.enums[g.ref].owner # 0 /\ Top(s, s.enums[g.ref].owner) # Top(s, g.m)) =>
                            LET u == [s EXCEPT !.fields = Append(@, f)] IN Top(s, g.m) \notin Needs(u, {Top(s, s.enums[g.ref].owner)}, Len(s.msgs))
  /\ f.type = "enum" => LET e == s.enums[f.ref] IN
       \/ e.owner = f.m
       \/ e.owner = 0 /\ e.file <= s.msgs[f.m].file
       \/ /\ e.owner # 0 /\ s.msgs[e.owner].parent = 0 /\ s.msgs[f.m].parent = 0 /\ e.owner < f.m /\ e.file <= s.msgs[f.m].file
          /\ Top(s, f.m) \notin Needs(s, {e.owner}, Len(s.msgs))
Distinct(S, n) == Cardinality(S) = n
WellFormed(s) ==
  /\ Distinct({<<s.msgs[m].name, s.msgs[m].parent, IF s.msgs[m].parent = 0 THEN s.msgs[m].file ELSE 0>> : m \in 1..Len(s.msgs)}, Len(s.msgs))
  /\ Distinct({<<s.enums[m].name, s.enums[m].owner, IF s.enums[m].owner = 0 THEN s.enums[m].file ELSE 0>> : m \in 1..Len(s.enums)}, Len(s.enums))
  /\ \A j, k \in 1..Len(s.fields) : (j # k /\ s.fields[j].m = s.fields[k].m) => (s.fields[j].num # s.fields[k].num /\ s.fields[j].n # s.fields[k].n)

\* ------------------------------------------------------------------ names of the generated types
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o "::" \o Join(Tail(q))
Ns(s, o, file) == (IF o.extra = "" THEN "" ELSE o.extra \o "::") \o Join(s.pk[file])
RECURSIVE MsgType(_, _, _)
MsgType(s, o, m) == IF s.msgs[m].parent = 0 THEN Ns(s, o, s.msgs[m].file) \o s.msgs[m].name ELSE MsgType(s, o, s.msgs[m].parent) \o "::" \o s.msgs[m].name
EnumScope(s, o, e) == IF s.enums[e].owner = 0 THEN Ns(s, o, s.enums[e].file) \o s.enums[e].name \o "Gadget" ELSE MsgType(s, o, s.enums[e].owner)
EnumType(s, o, e) == EnumScope(s, o, e) \o "::" \o s.enums[e].name
CppScalar(t) == CASE t = "string" -> "QString" [] t = "bytes" -> "QByteArray" [] t \in {"bool", "float", "double"} -> t [] OTHER -> "QtProtobuf::" \o t
CppList(t) == CASE t = "string" -> "QStringList" [] t = "bytes" -> "QByteArrayList" [] t = "bool" -> "QtProtobuf::BoolList" [] t = "float" -> "QtProtobuf::FloatList"
                [] t = "double" -> "QtProtobuf::DoubleList" [] OTHER -> "QtProtobuf::" \o t \o "List"
PropType(s, o, f) ==
  IF f.card = "map" THEN MsgType(s, o, f.m) \o "::" \o Names[f.n].e
  ELSE IF f.type = "msg" THEN MsgType(s, o, f.ref) \o (IF f.card = "one" THEN "*" ELSE "Repeated")
  ELSE IF f.type = "enum" THEN IF f.card = "one" THEN IF s.enums[f.ref].owner = f.m THEN s.enums[f.ref].name ELSE EnumType(s, o, f.ref) ELSE EnumType(s, o, f.ref) \o "Repeated"
  ELSE IF f.card = "one" THEN CppScalar(f.type) ELSE CppList(f.type)
PropName(s, o, f) == Names[f.n].c \o
  (IF f.card = "one" /\ f.type \in {"int32", "sfixed32", "fixed32"} /\ o.qml THEN "_p" ELSE IF f.card = "rep" /\ f.type = "msg" THEN "Data" ELSE "")
JsonName(f) == LET n == f.n IN IF f.js THEN "j-" \o Names[n].p ELSE IF Names[n].p \in {"Upper", "ALLCAPS", "id", "property", "import"} THEN Names[n].p ELSE Names[n].c
\* with QML, integers of 32 bits and lists of messages have a second property for it
Aliased(f) == (f.card = "one" /\ f.type \in {"int32", "sfixed32", "fixed32"}) \/ (f.card = "rep" /\ f.type = "msg")
Aliases(s, o) == IF ~o.qml THEN {} ELSE {[m |-> f.m, name |-> Names[f.n].c, type |-> IF f.card = "rep" THEN "QQmlListProperty<" \o MsgType(s, o, f.ref) \o ">" ELSE IF f.type = "fixed32" THEN "uint" ELSE "int"] :
  f \in {s.fields[j] : j \in {x \in 1..Len(s.fields) : Aliased(s.fields[x])}}}
\* bound to the number, writable, with a signal of its own
Props(s, o) == {[m |-> f.m, num |-> f.num, name |-> PropName(s, o, f), type |-> PropType(s, o, f), json |-> JsonName(f), sig |-> Names[f.n].c \o "Changed", w |-> 1] : f \in {s.fields[j] : j \in 1..Len(s.fields)}}
EnumKeys(s) == {[e |-> e, keys |-> {[k |-> v.c, v |-> v.v] : v \in {s.enums[e].vals[j] : j \in 1..Len(s.enums[e].vals)}}] : e \in 1..Len(s.enums)}
FieldKeys(s, o, m) == IF ~o.fieldenum THEN {} ELSE {[k |-> Names[f.n].cap \o "ProtoFieldNumber", v |-> f.num] : f \in {Fields(s, m)[j] : j \in 1..Len(Fields(s, m))}}

\* ------------------------------------------------------------------ wire form of one value per field
Tag(num, wt) == IF num < 16 THEN <<num * 8 + wt>> ELSE
  LET RECURSIVE V(_) 
      V(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o V(n \div 128)
  IN <<((num % 16) * 8 + wt) + 128>> \o V(num \div 16)
RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o Varint(n \div 128)
Neg(n) == <<(127 - ((n - 1) % 128)) + 128>> \o (LET r == (n - 1) \div 128 IN <<(127 - (r % 128)) + 128, (127 - ((r \div 128) % 128)) + 128, (127 - ((r \div 16384) % 128)) + 128, (127 - ((r \div 2097152) % 128)) + 128>>) \o <<255, 255, 255, 255, 1>>
WireOf(t) == CASE t \in {"fixed64", "sfixed64", "double"} -> 1 [] t \in {"string", "bytes", "msg"} -> 2 [] t \in {"fixed32", "sfixed32", "float"} -> 5 [] OTHER -> 0
\* value of each scalar type used by the harness, as it has to appear
Sample(t) == CASE t = "int32" -> <<5>> [] t = "int64" -> Varint(600) [] t = "uint32" -> Varint(300) [] t = "uint64" -> Varint(70000) [] t = "sint32" -> <<3>> [] t = "sint64" -> <<5>>
  [] t = "fixed32" -> <<2, 1, 0, 0>> [] t = "fixed64" -> <<3, 1, 0, 0, 0, 0, 0, 0>> [] t = "sfixed32" -> <<254, 255, 255, 255>> [] t = "sfixed64" -> <<253, 255, 255, 255, 255, 255, 255, 255>>
  [] t = "bool" -> <<1>> [] t = "float" -> <<0, 0, 192, 63>> [] t = "double" -> <<0, 0, 0, 0, 0, 0, 4, 192>> [] t = "string" -> <<104, 195, 164>> [] t = "bytes" -> <<0, 255>>
EnumSample(s, e) == LET v == s.enums[e].vals[Len(s.enums[e].vals)].v IN IF v < 0 THEN Neg(-v) ELSE Varint(v)
Len_(b) == Varint(Len(b)) \o b
\* the first singular scalar of a message gives its sample
ScalarOf(s, m) == LET q == SelectSeq(Fields(s, m), LAMBDA f : f.card = "one" /\ f.type \in Scalars) IN IF q = <<>> THEN 0 ELSE CHOOSE j \in 1..Len(s.fields) : s.fields[j] = q[1]
Body(s, f) == IF f.type = "enum" THEN EnumSample(s, f.ref)
              ELSE IF f.type = "msg" THEN LET g == s.fields[ScalarOf(s, f.ref)] IN Tag(g.num, WireOf(g.type)) \o (IF WireOf(g.type) = 2 THEN Len_(Sample(g.type)) ELSE Sample(g.type))
              ELSE Sample(f.type)
One(s, num, f) == LET w == WireOf(f.type) IN Tag(num, w) \o (IF w = 2 THEN Len_(Body(s, f)) ELSE Body(s, f))
HasSample(s, f) == f.type = "msg" => ScalarOf(s, f.ref) # 0
Encoded(s, f) ==
  CASE f.card = "one" -> One(s, f.num, f)
    [] f.card = "rep" -> IF WireOf(f.type) = 2 THEN One(s, f.num, f) \o One(s, f.num, f) ELSE Tag(f.num, 2) \o Len_(Body(s, f) \o Body(s, f))
    [] f.card = "map" -> Tag(f.num, 2) \o Len_((Tag(1, WireOf(f.key)) \o (IF WireOf(f.key) = 2 THEN Len_(Sample(f.key)) ELSE Sample(f.key))) \o One(s, 2, f))
WireForms(s) == {[j |-> j, b |-> Encoded(s, s.fields[j])] : j \in {x \in 1..Len(s.fields) : HasSample(s, s.fields[x])}}

\* Fields of fixed size are written also when they are zero, messages also when they are empty; what is written besides them is the value.
RECURSIVE Skip(_, _), Num(_, _, _)
Skip(b, i) == IF i > Len(b) THEN Len(b) + 9 ELSE IF b[i] >= 128 THEN Skip(b, i + 1) ELSE i + 1               \* position after the varint at i
Num(b, i, w) == IF i > Len(b) \/ w > 2097152 THEN 0 ELSE IF b[i] >= 128 THEN (b[i] - 128) * w + Num(b, i + 1, w * 128) ELSE b[i] * w
TagNum(b, i) == IF b[i] < 128 THEN b[i] \div 8 ELSE ((b[i] - 128) \div 8) + 16 * Num(b, i + 1, 1)
RECURSIVE Canon(_, _, _, _)
\* m: the message, or minus the index of the map whose entry this is
Canon(s, m, b, i) ==
  IF i > Len(b) THEN <<>> ELSE
  LET wt == b[i] % 8  num == TagNum(b, i)  p == Skip(b, i)
      F_ == IF m > 0 THEN {j \in 1..Len(s.fields) : s.fields[j].m = m /\ s.fields[j].num = num} ELSE {-m}
      j == IF F_ = {} THEN 0 ELSE CHOOSE x \in F_ : TRUE
      end == CASE wt = 0 -> Skip(b, p) [] wt = 1 -> p + 8 [] wt = 5 -> p + 4 [] wt = 2 -> Skip(b, p) + Num(b, p, 1) [] OTHER -> Len(b) + 1
      sub == IF wt # 2 \/ j = 0 THEN 0 ELSE IF m > 0 /\ s.fields[j].card = "map" THEN -j ELSE IF m > 0 /\ s.fields[j].type = "msg" THEN s.fields[j].ref ELSE IF m < 0 /\ num = 2 /\ s.fields[j].type = "msg" THEN s.fields[j].ref ELSE 0
      body == SubSeq(b, IF wt = 2 THEN Skip(b, p) ELSE p, end - 1)
      zero == wt \in {1, 5} /\ m > 0 /\ \A x \in 1..Len(body) : body[x] = 0
  IN IF end > Len(b) + 1 THEN <<-1>> ELSE (IF zero THEN <<>> ELSE IF sub = 0 THEN SubSeq(b, i, end - 1) ELSE LET c == Canon(s, sub, body, 1) IN IF c = <<>> /\ m > 0 /\ s.fields[j].card = "one" THEN <<>> ELSE SubSeq(b, i, p - 1) \o Len_(c)) \o Canon(s, m, b, end)
\* ------------------------------------------------------------------ constructors
\* one for each number of leading fields: the object is the one the setters make
Ctors(s) == UNION {{[m |-> m, k |-> k, ok |-> 1] : k \in 1..Len(Fields(s, m))} : m \in 1..Len(s.msgs)}
\* ------------------------------------------------------------------ calls of a service
RECURSIVE Dots(_)
Dots(q) == IF Len(q) = 0 THEN "" ELSE q[1] \o "." \o Dots(Tail(q))
SampleOf(s, m) == IF ScalarOf(s, m) = 0 THEN <<>> ELSE Body(s, [type |-> "msg", ref |-> m])
\* what the channel is asked for when the method is called with the sample of its argument; the sample of the result comes back
Ways(r) == IF r.stream THEN {"stream", "into"} ELSE {"call", "sync", "then"}
Calls(s) == UNION {UNION {{[svc |-> Dots(s.pk[v.file]) \o v.name, m |-> r.p, way |-> w, arg |-> SampleOf(s, r.in), got |-> TRUE] : w \in Ways(r)} : r \in {v.rpcs[j] : j \in 1..Len(v.rpcs)}} : v \in {s.svcs[j] : j \in 1..Len(s.svcs)}}
====
