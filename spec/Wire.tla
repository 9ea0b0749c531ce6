-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The protobuf (proto3) wire format, as a specification of what the       *)
(* serializer of QtProtobuf has to emit and to accept.                     *)
(*                                                                         *)
(* Bytes are naturals 0..255, buffers are sequences of bytes.  TLC's       *)
(* integers have 32 bits, therefore every integral value (all integer      *)
(* types, bool, enums) is the sequence of its 8 bytes, little endian and   *)
(* sign extended.  float/double are their 4/8 raw bytes, strings and bytes *)
(* fields are byte sequences, a repeated field is a sequence, a map is a   *)
(* set of <<key, value>>, a message is a function from its declared field  *)
(* numbers.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, WireSchema

Z8 == <<0,0,0,0,0,0,0,0>>
Z4 == <<0,0,0,0>>
None == <<>>   \* a sub-message that did not occur

IntTypes   == {"int32","int64","uint32","uint64","sint32","sint64","fixed32","fixed64","sfixed32","sfixed64","bool","Color"}
EnumTypes  == {"Color"}
ScalarTypes == IntTypes \cup {"float","double"}
TextTypes  == {"string","bytes"}

WireOf(t) == CASE t \in {"fixed64","sfixed64","double"} -> 1
               [] t \in {"fixed32","sfixed32","float"} -> 5
               [] t \in ScalarTypes -> 0
               [] OTHER -> 2

(* --------------------------- integers as bytes -------------------------- *)
Pow2(n) == 2 ^ n
HighBit(b) == b >= 128

Sign32(w) == LET x == IF HighBit(w[4]) THEN 255 ELSE 0 IN <<w[1],w[2],w[3],w[4],x,x,x,x>>
Zero32(w) == <<w[1],w[2],w[3],w[4],0,0,0,0>>

\* (w >> 1), over the first n bytes (the others come out as 0)
Shr1(w, n) == [i \in 1..8 |-> IF i > n THEN 0
                 ELSE w[i] \div 2 + (IF i < n THEN (w[i+1] % 2) * 128 ELSE 0)]
\* (w << 1), over the first n bytes
Shl1(w, n) == [i \in 1..8 |-> IF i > n THEN 0
                 ELSE ((w[i] * 2) % 256) + (IF i > 1 THEN w[i-1] \div 128 ELSE 0)]
Flip(w, n) == [i \in 1..8 |-> IF i > n THEN 0 ELSE 255 - w[i]]
UnZigZag(w, n) == LET h == Shr1(w, n) IN IF w[1] % 2 = 1 THEN Flip(h, n) ELSE h
ZigZag(w, n)   == LET h == Shl1(w, n) IN IF HighBit(w[n]) THEN Flip(h, n) ELSE h
IsZero(w) == \A i \in DOMAIN w : w[i] = 0

\* small naturals (lengths): exact below 2^31, everything above is Huge
Huge == 2147483647
ToNat(w) == IF w[5] + w[6] + w[7] + w[8] > 0 \/ w[4] > 127 THEN Huge
            ELSE w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * w[4]
FromNat(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0,0,0,0>>

(* -------------------------------- varints ------------------------------- *)
\* 7 bit groups -> 8 bytes
Groups2Bytes(g) ==
  LET G(k) == IF k < Len(g) THEN g[k+1] ELSE 0
  IN [i \in 1..8 |-> LET j == i - 1
                         a == (8 * j) \div 7
                         s == (8 * j) % 7
                     IN (G(a) \div Pow2(s) + G(a+1) * Pow2(7 - s)) % 256]
Bytes2Groups(w) ==
  LET B(k) == IF k < 8 THEN w[k+1] ELSE 0
  IN [i \in 1..10 |-> LET j == i - 1
                          a == (7 * j) \div 8
                          s == (7 * j) % 8
                      IN (B(a) \div Pow2(s) + B(a+1) * Pow2(8 - s)) % 128]

RECURSIVE Significant(_, _)
Significant(g, n) == IF n <= 1 \/ g[n] # 0 THEN n ELSE Significant(g, n - 1)
\* the varint of w with pad superfluous groups (at most ten bytes in all)
VarintP(w, pad) ==
  LET g == Bytes2Groups(w)
      m == Significant(g, 10)
      n == IF m + pad > 10 THEN 10 ELSE m + pad
  IN [i \in 1..n |-> g[i] + (IF i < n THEN 128 ELSE 0)]
Varint(w) == VarintP(w, 0)

\* Reads a varint at b[p..e].  st: ok | bad (truncated or more than ten bytes)
RECURSIVE VarintEnd(_, _, _, _)
VarintEnd(b, p, e, k) == IF p + k > e \/ k >= 10 THEN -1
                         ELSE IF b[p+k] < 128 THEN p + k ELSE VarintEnd(b, p, e, k + 1)
ReadVarint(b, p, e) ==
  LET q == VarintEnd(b, p, e, 0)
  IN IF q < 0 THEN [st |-> "bad", next |-> p, w |-> Z8]
     ELSE [st |-> "ok", next |-> q + 1, w |-> Groups2Bytes([i \in 1..(q - p + 1) |-> b[p+i-1] % 128])]

(* --------------------------- text and floats ---------------------------- *)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == s[i]
           C(k) == i + k <= Len(s) /\ s[i+k] \in 128..191
       IN CASE c < 128 -> Utf8From(s, i + 1)
            [] c \in 194..223 /\ C(1) -> Utf8From(s, i + 2)
            [] c \in 224..239 /\ C(1) /\ C(2)
                 /\ (c = 224 => s[i+1] >= 160) /\ (c = 237 => s[i+1] < 160) -> Utf8From(s, i + 3)
            [] c \in 240..244 /\ C(1) /\ C(2) /\ C(3)
                 /\ (c = 240 => s[i+1] >= 144) /\ (c = 244 => s[i+1] < 144) -> Utf8From(s, i + 4)
            [] OTHER -> FALSE
ValidUtf8(s) == Utf8From(s, 1)

\* -0 and 0 are one value (== of C++)
NormFloat(w) == LET n == Len(w) IN IF w[n] = 128 /\ \A i \in 1..(n-1) : w[i] = 0 THEN [i \in 1..n |-> 0] ELSE w

(* ----------------------------- default values ---------------------------- *)
RECURSIVE Default(_)
DefaultMsg(m) == LET s == Schema(m) IN [f \in DOMAIN s |-> IF s[f].k = "one" THEN Default(s[f].t) ELSE IF s[f].k = "rep" THEN <<>> ELSE {}]
\* a singular sub-message that never occurred is written None (it equals the default message, see Norm)
Default(t) == CASE t \in IntTypes \cup {"double"} -> Z8
                [] t = "float" -> Z4
                [] t \in TextTypes -> <<>>
                [] OTHER -> None

(* ------------------------------- decoding -------------------------------- *)
\* value of a scalar of type t from its raw wire content (8 bytes of a varint, 4 or 8 bytes of a fixed)
Scalar(t, w) ==
  CASE t = "int32"  -> Sign32(w)
    [] t = "Color"  -> Sign32(w)
    [] t = "uint32" -> Zero32(w)
    [] t = "sint32" -> Sign32(UnZigZag(w, 4))
    [] t = "sint64" -> UnZigZag(w, 8)
    [] t = "bool"   -> IF IsZero(w) THEN Z8 ELSE <<1,0,0,0,0,0,0,0>>
    [] t = "fixed32"  -> Zero32(w)
    [] t = "sfixed32" -> Sign32(w)
    [] t \in {"float","double"} -> NormFloat(w)
    [] OTHER -> w \* int64, uint64, fixed64, sfixed64

R(st, next, v) == [st |-> st, next |-> next, v |-> v]

ReadScalar(t, b, p, e) ==
  LET w == WireOf(t)
      n == IF w = 1 THEN 8 ELSE 4
  IN IF w = 0 THEN LET r == ReadVarint(b, p, e) IN R(r.st, r.next, Scalar(t, r.w))
     ELSE IF p + n - 1 > e THEN R("bad", p, Z8)
     ELSE R("ok", p + n, Scalar(t, SubSeq(b, p, p + n - 1)))

\* a packed block b[p..e]
RECURSIVE ReadPacked(_, _, _, _, _)
ReadPacked(t, b, p, e, acc) ==
  IF p > e THEN R("ok", p, acc)
  ELSE LET r == ReadScalar(t, b, p, e)
       IN IF r.st # "ok" THEN R("bad", p, acc) ELSE ReadPacked(t, b, r.next, e, Append(acc, r.v))

\* length prefix: content is b[from..to]
ReadLen(b, p, e) ==
  LET r == ReadVarint(b, p, e)
      n == ToNat(r.w)
  IN IF r.st # "ok" THEN [st |-> "bad", from |-> p, to |-> p]
     ELSE IF n > e - r.next + 1 THEN [st |-> "bad", from |-> p, to |-> p]
     ELSE [st |-> "ok", from |-> r.next, to |-> r.next + n - 1]

\* tag: field number and wire type.  What protobuf implementations make of tags of more than five bytes or more
\* than 32 bits differs: "any".
ReadTag(b, p, e) ==
  LET r == ReadVarint(b, p, e)
      w == r.w
      num == w[1] \div 8 + 32 * w[2] + 8192 * w[3] + 2097152 * w[4]
  IN IF r.st # "ok" THEN [st |-> "bad", next |-> p, num |-> 0, wire |-> 0]
     ELSE IF r.next - p > 5 \/ w[5] + w[6] + w[7] + w[8] > 0 THEN [st |-> "any", next |-> p, num |-> 0, wire |-> 0]
     ELSE IF num = 0 \/ w[1] % 8 \notin {0,1,2,5} THEN [st |-> "bad", next |-> p, num |-> 0, wire |-> 0]
     ELSE [st |-> "ok", next |-> r.next, num |-> num, wire |-> w[1] % 8]

Skip(b, p, e, wire) ==
  CASE wire = 0 -> LET r == ReadVarint(b, p, e) IN R(r.st, r.next, 0)
    [] wire = 1 -> IF p + 7 > e THEN R("bad", p, 0) ELSE R("ok", p + 8, 0)
    [] wire = 5 -> IF p + 3 > e THEN R("bad", p, 0) ELSE R("ok", p + 4, 0)
    [] wire = 2 -> LET r == ReadLen(b, p, e) IN R(r.st, r.to + 1, 0)

\* Decodes b[p..e] into m, a message with the fields of schema s.  A field of a known number but another wire type
\* is treated as unknown (except a repeated scalar, which may come packed or not).
RECURSIVE DecodeInto(_, _, _, _, _)
RECURSIVE ReadOne(_, _, _, _, _)
\* one singular value of type t; prev: value so far (sub-messages merge)
ReadOne(t, b, p, e, prev) ==
  IF t \in ScalarTypes THEN ReadScalar(t, b, p, e)
  ELSE LET l == ReadLen(b, p, e)
       IN IF l.st # "ok" THEN R("bad", p, prev)
          ELSE IF t \in TextTypes
               THEN LET x == SubSeq(b, l.from, l.to)
                    IN IF t = "string" /\ ~ValidUtf8(x) THEN R("any", l.to + 1, x) ELSE R("ok", l.to + 1, x)
               ELSE LET r == DecodeInto(Schema(t), b, l.from, l.to, IF prev = None THEN DefaultMsg(t) ELSE prev)
                    IN R(r.st, l.to + 1, r.v)

EntrySchema(f) == (1 :> [k |-> "one", t |-> f.key, key |-> ""]) @@ (2 :> [k |-> "one", t |-> f.t, key |-> ""])

DecodeInto(s, b, p, e, m) ==
  IF p > e THEN R("ok", p, m)
  ELSE LET tag == ReadTag(b, p, e)
       IN IF tag.st # "ok" THEN R(tag.st, p, m)
          ELSE LET known == tag.num \in DOMAIN s
                   f == s[tag.num]
                   q == tag.next
                   packable == known /\ f.k = "rep" /\ f.t \in ScalarTypes
                   want == IF ~known THEN -1 ELSE IF f.k = "one" THEN WireOf(f.t) ELSE 2
               IN IF known /\ tag.wire = want
                  THEN IF f.k = "one"
                       THEN LET r == ReadOne(f.t, b, q, e, m[tag.num])
                            IN IF r.st # "ok" THEN r ELSE DecodeInto(s, b, r.next, e, [m EXCEPT ![tag.num] = r.v])
                       ELSE LET l == ReadLen(b, q, e)
                            IN IF l.st # "ok" THEN R("bad", q, m)
                               ELSE IF packable
                               THEN LET r == ReadPacked(f.t, b, l.from, l.to, m[tag.num])
                                    IN IF r.st # "ok" THEN R(r.st, q, m) ELSE DecodeInto(s, b, l.to + 1, e, [m EXCEPT ![tag.num] = r.v])
                               ELSE IF f.k = "rep"
                               THEN LET r == ReadOne(f.t, b, q, e, None)
                                    IN IF r.st # "ok" THEN R(r.st, q, m) ELSE DecodeInto(s, b, r.next, e, [m EXCEPT ![tag.num] = Append(@, r.v)])
                               ELSE \* map entry: a message with key 1 and value 2
                                    LET r == DecodeInto(EntrySchema(f), b, l.from, l.to, (1 :> Default(f.key)) @@ (2 :> Default(f.t)))
                                        val == IF f.t \notin ScalarTypes \cup TextTypes /\ r.v[2] = None THEN DefaultMsg(f.t) ELSE r.v[2]
                                    IN IF r.st # "ok" THEN R(r.st, q, m)
                                       ELSE DecodeInto(s, b, l.to + 1, e,
                                              [m EXCEPT ![tag.num] = {x \in @ : x[1] # r.v[1]} \cup {<<r.v[1], val>>}])
                  ELSE IF packable /\ tag.wire = WireOf(f.t)
                  THEN LET r == ReadScalar(f.t, b, q, e)
                       IN IF r.st # "ok" THEN R("bad", q, m) ELSE DecodeInto(s, b, r.next, e, [m EXCEPT ![tag.num] = Append(@, r.v)])
                  ELSE LET r == Skip(b, q, e, tag.wire)
                       IN IF r.st # "ok" THEN R("bad", q, m) ELSE DecodeInto(s, b, r.next, e, m)

Decode(t, b) == DecodeInto(Schema(t), b, 1, Len(b), DefaultMsg(t))

(* --------------- canonical form, for comparison with recordings ----------- *)
\* Norm: the message as a set of <<field, canonical value>> without fields that have their default value
RECURSIVE NormVal(_, _)
RECURSIVE Norm(_, _)
NormVal(t, v) == IF t \in ScalarTypes \cup TextTypes THEN v
                 ELSE IF v = None THEN {} ELSE Norm(t, v)
NormField(f, v) == IF f.k = "one" THEN NormVal(f.t, v)
                   ELSE IF f.k = "rep" THEN [i \in DOMAIN v |-> NormVal(f.t, v[i])]
                   ELSE {<<x[1], NormVal(f.t, x[2])>> : x \in v}
IsDefault(f, n) == IF f.k = "one" /\ f.t \in ScalarTypes THEN IsZero(n)
                   ELSE IF f.k = "map" \/ (f.k = "one" /\ f.t \notin TextTypes) THEN n = {} ELSE n = <<>>
Norm(t, m) == LET s == Schema(t)
              IN {<<f, NormField(s[f], m[f])>> : f \in {g \in DOMAIN s : ~IsDefault(s[g], NormField(s[g], m[g]))}}

\* the same canonical form from the JSON form used by the harness (lists of pairs)
RECURSIVE FromJson(_, _)
JsonVal(t, j) == IF t \in ScalarTypes \cup TextTypes THEN j ELSE FromJson(t, j)
JsonField(f, j) == IF f.k = "one" THEN JsonVal(f.t, j)
                   ELSE IF f.k = "rep" THEN [i \in DOMAIN j |-> JsonVal(f.t, j[i])]
                   ELSE {<<j[i][1], JsonVal(f.t, j[i][2])>> : i \in DOMAIN j}
\* an entry without an object (null pointer) comes as field -1 and so differs from every message
FromJson(t, j) == LET s == Schema(t)
                  IN {IF j[i][1] \in DOMAIN s THEN <<j[i][1], JsonField(s[j[i][1]], j[i][2])>> ELSE <<j[i][1], <<>>>> : i \in DOMAIN j}

(* ---------------- properties of emitted bytes (canonical output) ---------- *)
\* the sequence of tags at the top level of b, or <<>> if b is not well formed
RECURSIVE Tags(_, _, _)
Tags(b, p, e) == IF p > e THEN <<>>
                 ELSE LET t == ReadTag(b, p, e)
                      IN IF t.st # "ok" THEN <<>>
                         ELSE LET r == Skip(b, t.next, e, t.wire)
                              IN IF r.st # "ok" THEN <<>> ELSE <<[num |-> t.num, wire |-> t.wire, from |-> t.next, to |-> r.next - 1]>> \o Tags(b, r.next, e)

\* Emitted: only declared fields with their own wire type, singular ones and packed ones at most once, recursively
RECURSIVE WellEmitted(_, _, _, _)
Content(b, g) == ReadLen(b, g.from, g.to)
Inner(t, b, g) == t \notin ScalarTypes \cup TextTypes =>
                    LET l == Content(b, g) IN WellEmitted(Schema(t), b, l.from, l.to)
WellEmitted(s, b, p, e) ==
  LET ts == Tags(b, p, e)
  IN /\ \A i \in DOMAIN ts :
          LET g == ts[i]
          IN /\ g.num \in DOMAIN s
             /\ LET f == s[g.num]
                IN /\ g.wire = (IF f.k = "one" THEN WireOf(f.t) ELSE 2)
                   /\ (f.k = "one" \/ (f.k = "rep" /\ f.t \in ScalarTypes)) => \A j \in DOMAIN ts : ts[j].num = g.num => j = i
                   /\ f.k # "map" => Inner(f.t, b, g)
                   /\ f.k = "map" => LET l == Content(b, g) IN WellEmitted(EntrySchema(f), b, l.from, l.to)
=============================================================================
