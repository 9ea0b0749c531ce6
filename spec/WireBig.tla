------------------------------ MODULE WireBig -------------------------------
(***************************************************************************)
(* Large values.  Byte strings are lists of runs [u, n]: n copies of the   *)
(* bytes u, so that values of megabytes stay small here.  A shape is a way *)
(* a field of n units sits in a message: plain text, packed list, list of  *)
(* texts, list of messages, map value, two messages deep, unknown field.   *)
(* Encoding(shape, n) follows the wire format of module Wire: for small n  *)
(* TLC checks that Wire's Decode reads exactly the intended value; for all *)
(* n the runs differ from the small ones in counts and length prefixes     *)
(* only, and Lengths checks these.  Each state is a case for the real      *)
(* serializer (WireBigTrace).                                              *)
(***************************************************************************)
EXTENDS Wire, TLC, Json
CONSTANTS Shapes, Sizes, Few, Damages, Emit
VARIABLES shape, n, damage
vars == <<shape, n, damage>>

Run(u, k) == [u |-> u, n |-> k]
One(u) == Run(u, 1)
Size(segs) == LET RECURSIVE S(_) S(i) == IF i > Len(segs) THEN 0 ELSE Len(segs[i].u) * segs[i].n + S(i + 1) IN S(1)
VNat(k) == Varint(FromNat(k))
Tag(f, w) == VNat(f * 8 + w)
\* a length delimited field f that holds the runs s
Field(f, s) == <<One(Tag(f, 2) \o VNat(Size(s)))>> \o s
Expand(segs) == LET RECURSIVE X(_, _) X(i, k) == IF i > Len(segs) THEN <<>> ELSE IF k >= segs[i].n THEN X(i + 1, 0) ELSE segs[i].u \o X(i, k + 1) IN X(1, 0)

\* type, the runs of the large part, the message around it, its value (runs in values mark copies of elements)
Type(s) == CASE s \in {"str", "byt"} -> "Scalars" [] s \in {"packed", "wide", "texts", "msgs"} -> "Repeats"
             [] s = "map" -> "Maps" [] s = "sub" -> "Outer" [] OTHER -> "Leaf"
Large(s, k) == CASE s \in {"str", "sub"} -> <<Run(<<120>>, k)>>
                 [] s \in {"byt", "map", "unk"} -> <<Run(<<255>>, k)>>
                 [] s = "packed" -> <<Run(<<5>>, k)>>
                 [] s = "wide" -> <<Run(<<1, 2, 3, 132>>, k)>>
                 [] s = "texts" -> <<Run(Tag(14, 2) \o <<2, 97, 98>>, k)>>
                 [] s = "msgs" -> <<Run(Tag(17, 2) \o <<2, 8, 6>>, k)>>
Encoding(s, k) ==
  LET l == Large(s, k)
  IN CASE s = "str" -> Field(14, l) \o <<One(Tag(16, 0) \o <<1>>)>>
       [] s = "byt" -> Field(15, l) \o <<One(Tag(16, 0) \o <<2>>)>>
       [] s = "packed" -> Field(3, l)
       [] s = "wide" -> Field(7, l)
       [] s \in {"texts", "msgs"} -> l
       [] s = "map" -> Field(4, <<One(Tag(1, 0) \o <<7>>)>> \o Field(2, l))
       [] s = "sub" -> Field(2, Field(1, Field(2, l))) \o <<One(Tag(3, 0) \o <<9>>)>>
       [] s = "unk" -> <<One(Tag(1, 0) \o <<6>>)>> \o Field(200, l) \o <<One(Tag(2, 2) \o <<1, 65>>)>>
I(k) == FromNat(k)
\* JSON form of the value: fields <<number, value>>; a run stands for that many elements
Value(s, k) ==
  CASE s = "str" -> <<<<14, <<Run(<<120>>, k)>>>>, <<16, I(1)>>>>
    [] s = "byt" -> <<<<15, <<Run(<<255>>, k)>>>>, <<16, I(2)>>>>
    [] s = "packed" -> <<<<3, <<Run(<<I(5)>>, k)>>>>>>
    [] s = "wide" -> <<<<7, <<Run(<<<<1, 2, 3, 132, 0, 0, 0, 0>>>>, k)>>>>>>
    [] s = "texts" -> <<<<14, <<Run(<<<<97, 98>>>>, k)>>>>>>
    [] s = "msgs" -> <<<<17, <<Run(<<<<<<1, I(3)>>>>>>, k)>>>>>>
    [] s = "map" -> <<<<4, <<<<I(7), <<Run(<<255>>, k)>>>>>>>>>>
    [] s = "sub" -> <<<<2, <<<<1, <<<<2, <<Run(<<120>>, k)>>>>>>>>>>>>, <<3, I(9)>>>>
    [] s = "unk" -> <<<<1, I(3)>>, <<2, <<65>>>>>>

\* damage: the last byte is missing; the large part is one byte shorter than its length says and nothing follows
Cut(segs) == LET m == Len(segs) l == segs[m]
             IN IF l.n = 1 THEN SubSeq(segs, 1, m - 1) \o <<One(SubSeq(l.u, 1, Len(l.u) - 1))>>
                ELSE SubSeq(segs, 1, m - 1) \o <<Run(l.u, l.n - 1), One(SubSeq(l.u, 1, Len(l.u) - 1))>>
Upto(segs) == LET j == CHOOSE j \in DOMAIN segs : segs[j].n # 1 IN SubSeq(segs, 1, j)
Bytes(s, k, d) == LET e == Encoding(s, k) IN CASE d = "none" -> e [] d = "cut" -> Cut(e) [] OTHER -> Cut(Upto(e))
Small == 40
Init == shape \in Shapes /\ n \in (IF shape \in {"texts", "msgs"} THEN Few ELSE Sizes) /\ damage \in Damages /\ (damage = "short" => n > 1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* small values agree with Wire
Agree == n <= Small => LET d == TLCEval(Decode(Type(shape), Expand(Bytes(shape, n, damage)))) IN (damage = "none") <=> (d.st = "ok")
\* the length prefix of the large part is its size
Lengths == LET v == VNat(n) r == ReadVarint(v, 1, Len(v)) IN r.st = "ok" /\ ToNat(r.w) = n /\ r.next = Len(v) + 1
EmitCase == Emit => PrintT("CASE " \o ToJson([op |-> "big", t |-> Type(shape), shape |-> shape, n |-> n, damage |-> damage,
                             len |-> Size(Bytes(shape, n, damage)), segs |-> Bytes(shape, n, damage), vsegs |-> Value(shape, n)]))
=============================================================================
