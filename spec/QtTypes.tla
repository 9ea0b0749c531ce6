------------------------------ MODULE QtTypes ------------------------------
(***************************************************************************)
(* Qt value types as protobuf messages (QtCore.proto, QtGui.proto).        *)
(* A value is the sequence of its components, in the order of the Qt       *)
(* constructor; a component is written like a field value in Wire (an      *)
(* integer: 8 bytes, little endian, sign extended; float 4, double 8 raw   *)
(* bytes).  ToMsg gives the message a value denotes, FromMsg the value a   *)
(* message denotes; the two are inverse on values (Inverse).               *)
(***************************************************************************)
EXTENDS Wire, Integers, Sequences, FiniteSets, TLC
Opaque == {"QUrl", "QImage"}         \* their text and image encoding belong to Qt
Elem(t) == IF t = "QPolygon" THEN "QPoint" ELSE "QPointF"
Poly == {"QPolygon", "QPolygonF"}

IntOf(w) == IF HighBit(w[8]) THEN -1 - ToNat(Flip(w, 8)) ELSE ToNat(w)
FromInt(n) == IF n >= 0 THEN FromNat(n) ELSE Flip(FromNat(-1 - n), 8)
Small(w) == LET n == IntOf(w) IN n > -1073741824 /\ n < 1073741823

(* ------------------------------ components ------------------------------- *)
RECURSIVE Leaves(_)
Leaves(t) == IF t \in ScalarTypes \cup TextTypes THEN <<t>>
             ELSE LET s == Schema(t)
                      L[k \in 0..Cardinality(DOMAIN s)] == IF k = 0 THEN <<>> ELSE L[k-1] \o Leaves(s[k].t)
                  IN L[Cardinality(DOMAIN s)]
Times == <<"hour", "minute", "second", "msec">>
Rep(x, n) == [k \in 1..n |-> x]
Kinds(t, n) == CASE t = "QTime" -> Times
                 [] t = "QDate" -> <<"year", "month", "day">>
                 [] t = "QDateTime" -> <<"year", "month", "day">> \o Times
                 [] t = "QColor" -> Rep("octet", 4)
                 [] t = "QUuid" -> Rep("octet", 16)
                 [] t = "QChar" -> <<"unit">>
                 [] t = "QUrl" -> <<"scheme", "user", "password", "host", "port", "path", "query", "fragment">>
                 [] t = "QImage" -> <<"format", "side", "side", "pixels">>
                 [] t = "QPolygon" -> Rep("sint32", 2 * n)
                 [] t = "QPolygonF" -> Rep("double", 2 * n)
                 [] OTHER -> Leaves(t)

LeapYear(y) == LET z == IF y < 1 THEN y + 1 ELSE y IN (z % 4 = 0 /\ z % 100 # 0) \/ z % 400 = 0   \* there is no year 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF LeapYear(y) THEN 29 ELSE 28 [] OTHER -> 31
ValidDate(c) == /\ Small(c[1]) /\ Small(c[2]) /\ Small(c[3])
                /\ LET y == IntOf(c[1]) m == IntOf(c[2]) d == IntOf(c[3])
                   IN y # 0 /\ y \in -100000..100000 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
Day == 86400000
ValidTime(c) == IntOf(c[1]) \in 0..23 /\ IntOf(c[2]) \in 0..59 /\ IntOf(c[3]) \in 0..59 /\ IntOf(c[4]) \in 0..999
\* Qt compares floating point coordinates with a tolerance: values next to zero equal zero
Fuzzy == {"QPointF", "QSizeF", "QRectF", "QPolygonF"}
Distinct(w) == IsZero(NormFloat(w)) \/ ((w[8] % 128) * 16) + (w[7] \div 16) >= 1000
\* values the property speaks about: those the Qt type itself can represent
Valid(t, c) == CASE t = "QTime" -> ValidTime(c)
                 [] t = "QDate" -> ValidDate(c)
                 [] t = "QDateTime" -> ValidDate(c) /\ ValidTime(SubSeq(c, 4, 7))
                 [] t = "QRect" -> \A k \in 1..4 : Small(c[k])
                 [] t \in Fuzzy -> \A k \in DOMAIN c : Distinct(c[k])
                 [] OTHER -> TRUE

(* -------------------------- value <-> message ---------------------------- *)
Hex == <<48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102>>
UuidText(c) ==
  LET H[k \in 0..16] == IF k = 0 THEN <<123>>
                        ELSE H[k-1] \o (IF k \in {5, 7, 9, 11} THEN <<45>> ELSE <<>>) \o <<Hex[(c[k][1] \div 16) + 1], Hex[(c[k][1] % 16) + 1]>>
  IN H[16] \o <<125>>
MSecs(c) == FromNat(((IntOf(c[1]) * 60 + IntOf(c[2])) * 60 + IntOf(c[3])) * 1000 + IntOf(c[4]))
Clock(w) == LET n == IntOf(w) IN <<FromNat(n \div 3600000), FromNat((n \div 60000) % 60), FromNat((n \div 1000) % 60), FromNat(n % 1000)>>

RECURSIVE Fill(_, _)
Fill(t, c) ==   \* component by component, in the order of the fields
  LET s == Schema(t)
      N == Cardinality(DOMAIN s)
      Off[k \in 1..N] == IF k = 1 THEN 0 ELSE Off[k-1] + Len(Leaves(s[k-1].t))
  IN [k \in 1..N |-> IF s[k].t \in ScalarTypes \cup TextTypes THEN c[Off[k] + 1]
                     ELSE Fill(s[k].t, SubSeq(c, Off[k] + 1, Off[k] + Len(Leaves(s[k].t))))]
RECURSIVE Drain(_, _)
Drain(t, m) ==
  LET s == Schema(t)
      D[k \in 0..Cardinality(DOMAIN s)] ==
        IF k = 0 THEN <<>>
        ELSE D[k-1] \o (IF s[k].t \in ScalarTypes \cup TextTypes THEN <<m[k]>>
                        ELSE Drain(s[k].t, IF m[k] = None THEN DefaultMsg(s[k].t) ELSE m[k]))
  IN D[Cardinality(DOMAIN s)]

ToMsg(t, c) ==
  CASE t = "QTime" -> <<MSecs(c)>>
    [] t = "QDateTime" -> <<Fill("QDate", SubSeq(c, 1, 3)), <<MSecs(SubSeq(c, 4, 7))>> >>
    [] t = "QColor" -> << <<c[3][1], c[2][1], c[1][1], c[4][1], 0, 0, 0, 0>> >>        \* components red, green, blue, alpha
    [] t = "QUuid" -> <<UuidText(c)>>
    [] t = "QChar" -> << <<c[1][2], c[1][1]>> >>
    [] t \in Poly -> << [k \in 1..(Len(c) \div 2) |-> Fill(Elem(t), <<c[2*k-1], c[2*k]>>)] >>
    [] OTHER -> Fill(t, c)
\* messages that denote a value
Denotes(t, m) ==
  CASE t = "QTime" -> IntOf(m[1]) >= 0 /\ IntOf(m[1]) < Day
    [] t = "QDate" -> ValidDate(Drain(t, m))
    [] t = "QDateTime" -> /\ m[1] # None /\ ValidDate(Drain("QDate", m[1]))
                          /\ m[2] = None \/ (IntOf(m[2][1]) >= 0 /\ IntOf(m[2][1]) < Day)
    [] t = "QChar" -> Len(m[1]) = 2
    [] t = "QRect" -> \A k \in 1..4 : Small(Drain(t, m)[k])
    [] t \in {"QUuid"} \cup Opaque -> FALSE
    [] t \in Fuzzy \ Poly -> Valid(t, Drain(t, m))
    [] t = "QPolygonF" -> \A k \in DOMAIN m[1] : Valid("QPointF", Drain("QPointF", m[1][k]))
    [] OTHER -> TRUE
FromMsg(t, m) ==
  CASE t = "QTime" -> Clock(m[1])
    [] t = "QDateTime" -> Drain("QDate", m[1]) \o Clock(IF m[2] = None THEN Z8 ELSE m[2][1])
    [] t = "QColor" -> LET w == m[1] IN <<FromNat(w[3]), FromNat(w[2]), FromNat(w[1]), FromNat(w[4])>>
    [] t = "QChar" -> << <<m[1][2], m[1][1], 0, 0, 0, 0, 0, 0>> >>
    [] t \in Poly -> LET P[k \in 0..Len(m[1])] == IF k = 0 THEN <<>> ELSE P[k-1] \o Drain(Elem(t), m[1][k]) IN P[Len(m[1])]
    [] OTHER -> Drain(t, m)
=============================================================================
