----------------------------- MODULE WireSender -----------------------------
(***************************************************************************)
(* The other end of the wire: any conforming protobuf writer.  It emits a  *)
(* message as a sequence of operations, in any order and with any of the   *)
(* freedom the encoding rules leave; val is the value these rules define.  *)
(* The invariant Agree says that decoding (Wire!Decode) recovers it.       *)
(* Every reachable state is a case which is replayed on the real           *)
(* deserializer; what that returns is judged by WireTrace.                 *)
(*                                                                         *)
(* An operation is a record                                                *)
(*   k="val"  singular scalar/string/bytes     (f, v, pad)                 *)
(*   k="el"   one element, not packed          (f, v, pad)                 *)
(*   k="pack" packed block                     (f, vs, pad)                *)
(*   k="sub"  message or map entry             (f, ops, pad)               *)
(*   k="unk"  field the type does not declare  (f, wire, raw)              *)
(*   k="mis"  declared field, foreign wire type(f, wire, raw)              *)
(* pad: number of superfluous varint bytes.                                *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, SequencesExt, FiniteSets, Randomization

CONSTANTS Types,      \* message types explored
          MaxOps,     \* operations per message
          Feat,       \* subset of {"pad","unk","mis","unpacked","many"}
          Same,       \* TRUE: all operations on one field
          Sample,     \* 0: every operation is tried, n: n random ones (simulation)
          Mut,        \* TRUE: finished messages are damaged (see Mutate)
          Emit        \* TRUE: print every case

VARIABLES t,    \* message type
          ops,  \* operations written so far
          mut   \* damage done to the encoding
vars == <<t, ops, mut>>

(* ----------------------------- value catalogue --------------------------- *)
I(a) == FromNat(a)
Neg1 == <<255,255,255,255,255,255,255,255>>
Min32 == <<0,0,0,128,255,255,255,255>>
Max32 == <<255,255,255,127,0,0,0,0>>
UMax32 == <<255,255,255,255,0,0,0,0>>
Min64 == <<0,0,0,0,0,0,0,128>>
Max64 == <<255,255,255,255,255,255,255,127>>
M == "many" \in Feat

S32 == {I(1), Neg1, Min32} \cup (IF M THEN {Z8, Max32, I(127), I(128), I(300), <<128,255,255,255,255,255,255,255>>, I(16384)} ELSE {Z8})
U32 == {I(1), UMax32} \cup (IF M THEN {Z8, I(127), I(128), <<0,0,0,128,0,0,0,0>>, I(65535)} ELSE {Z8})
S64 == {Neg1, Min64, <<0,0,0,0,1,0,0,0>>} \cup (IF M THEN {Z8, I(1), Max64, Min32, I(128), <<1,2,3,4,5,6,7,8>>} ELSE {Z8})
U64 == {Neg1, <<0,0,0,0,1,0,0,0>>} \cup (IF M THEN {Z8, I(1), Min64, Max64, <<128,64,32,16,8,4,2,1>>} ELSE {Z8})
Fl == {<<0,0,128,63>>, <<0,0,0,0>>} \cup (IF M THEN {<<0,0,0,128>>, <<255,255,127,127>>, <<0,0,128,255>>, <<1,0,0,0>>, <<195,245,72,192>>} ELSE {})
Db == {<<0,0,0,0,0,0,240,63>>, Z8} \cup (IF M THEN {Min64, <<255,255,255,255,255,255,239,127>>, <<1,0,0,0,0,0,0,0>>, <<31,133,235,81,184,30,9,192>>} ELSE {})
Str == {<<>>, <<97>>} \cup (IF M THEN {<<104,101,108,108,111>>, <<195,164,226,130,172>>, <<240,159,152,128>>, <<10,0,98>>, <<0>>} ELSE {<<195,164,0,98>>})
Byt == {<<>>, <<0,255>>} \cup (IF M THEN {<<128>>, <<0>>, <<10,1,97>>, [i \in 1..130 |-> i % 256]} ELSE {})

Vals(ty) == CASE ty \in {"int32","sint32","sfixed32"} -> S32
              [] ty \in {"uint32","fixed32"} -> U32
              [] ty \in {"int64","sint64","sfixed64"} -> S64
              [] ty \in {"uint64","fixed64"} -> U64
              [] ty = "Color" -> {Z8, I(2), <<253,255,255,255,255,255,255,255>>} \cup (IF M THEN {I(1), Max32, Min32} ELSE {})
              [] ty = "bool" -> {Z8, I(1)}
              [] ty = "float" -> Fl
              [] ty = "double" -> Db
              [] ty = "string" -> Str
              [] ty = "bytes" -> Byt

Pads == IF "pad" \in Feat THEN {0, 1, 4} ELSE {0}

(* -------------------------------- encoding ------------------------------- *)
Raw(ty, v) == CASE ty = "sint32" -> ZigZag(v, 4)
                [] ty = "sint64" -> ZigZag(v, 8)
                [] OTHER -> v
EncScalar(ty, v, pad) ==
  CASE WireOf(ty) = 0 -> VarintP(Raw(ty, v), pad)
    [] WireOf(ty) = 5 -> SubSeq(v, 1, 4)
    [] OTHER -> v
TagBytes(num, wire) ==  \* num < 2^29
  Varint(<<(num % 32) * 8 + wire, (num \div 32) % 256, (num \div 8192) % 256, (num \div 2097152) % 256, 0,0,0,0>>)
LenPrefixed(b, pad) == VarintP(FromNat(Len(b)), pad) \o b

RECURSIVE EncOps(_, _)
EncOp(s, op) ==
  CASE op.k \in {"val","el"} ->
         LET ty == s[op.f].t
         IN TagBytes(op.f, WireOf(ty)) \o (IF ty \in TextTypes THEN LenPrefixed(op.v, op.pad) ELSE EncScalar(ty, op.v, op.pad))
    [] op.k = "pack" ->
         LET ty == s[op.f].t
         IN TagBytes(op.f, 2) \o LenPrefixed(FlattenSeq([i \in DOMAIN op.vs |-> EncScalar(ty, op.vs[i], op.pad)]), op.pad)
    [] op.k = "sub" ->
         LET f == s[op.f]
         IN TagBytes(op.f, 2) \o LenPrefixed(EncOps(IF f.k = "map" THEN EntrySchema(f) ELSE Schema(f.t), op.ops), op.pad)
    [] OTHER -> TagBytes(op.f, op.wire) \o op.raw
EncOps(s, os) == FlattenSeq([i \in DOMAIN os |-> EncOp(s, os[i])])

(* ------------------ the value the operations stand for ------------------- *)
Fl0(ty, v) == IF ty \in {"float","double"} THEN NormFloat(v) ELSE v
RECURSIVE Apply(_, _, _)
ApplyOp(s, m, op) ==
  CASE op.k = "val"  -> [m EXCEPT ![op.f] = Fl0(s[op.f].t, op.v)]
    [] op.k = "el"   -> [m EXCEPT ![op.f] = Append(@, Fl0(s[op.f].t, op.v))]
    [] op.k = "pack" -> [m EXCEPT ![op.f] = @ \o [i \in DOMAIN op.vs |-> Fl0(s[op.f].t, op.vs[i])]]
    [] op.k = "sub" /\ s[op.f].k = "one" ->
         [m EXCEPT ![op.f] = Apply(Schema(s[op.f].t), IF @ = None THEN DefaultMsg(s[op.f].t) ELSE @, op.ops)]
    [] op.k = "sub" /\ s[op.f].k = "rep" ->
         [m EXCEPT ![op.f] = Append(@, Apply(Schema(s[op.f].t), DefaultMsg(s[op.f].t), op.ops))]
    [] op.k = "sub" /\ s[op.f].k = "map" ->
         LET f == s[op.f]
             e == Apply(EntrySchema(f), (1 :> Default(f.key)) @@ (2 :> Default(f.t)), op.ops)
             v == IF f.t \notin ScalarTypes \cup TextTypes /\ e[2] = None THEN DefaultMsg(f.t) ELSE e[2]
         IN [m EXCEPT ![op.f] = {x \in @ : x[1] # e[1]} \cup {<<e[1], v>>}]
    [] OTHER -> m
Apply(s, m, os) == IF os = <<>> THEN m ELSE Apply(s, ApplyOp(s, m, Head(os)), Tail(os))

(* ------------------------------ operations ------------------------------- *)
UnkRaw == { [wire |-> 0, raw |-> <<1>>], [wire |-> 0, raw |-> <<255,255,255,255,255,255,255,255,255,1>>],
            [wire |-> 1, raw |-> <<8,1,8,2,8,3,8,4>>], [wire |-> 5, raw |-> <<8,1,10,0>>],
            [wire |-> 2, raw |-> <<0>>], [wire |-> 2, raw |-> <<3,8,5,7>>], [wire |-> 2, raw |-> <<133,0,8,5,255,255,12>>] }
            \cup (IF M THEN {[wire |-> 0, raw |-> <<128,0>>], [wire |-> 2, raw |-> <<200,1>> \o [i \in 1..200 |-> 255]]} ELSE {})
UnkNums(s) == {n \in {1, 4, 11, 19, 20, 100, 2049, 536870910} : n \notin DOMAIN s}
Unknown(s) == IF "unk" \notin Feat THEN {}
              ELSE {[k |-> "unk", f |-> n, wire |-> u.wire, raw |-> u.raw] : n \in UnkNums(s), u \in UnkRaw}
FewUnknown(s) == IF "unk" \notin Feat THEN {}
              ELSE LET n == CHOOSE n \in UnkNums(s) : n > 10 IN {[k |-> "unk", f |-> n, wire |-> u.wire, raw |-> u.raw] : u \in UnkRaw}
Mismatch(s) == IF "mis" \notin Feat THEN {}
               ELSE UNION {{[k |-> "mis", f |-> f, wire |-> u.wire, raw |-> u.raw] :
                             u \in {x \in UnkRaw : x.wire # (IF s[f].k = "one" THEN WireOf(s[f].t) ELSE 2)
                                                   /\ ~(s[f].k = "rep" /\ s[f].t \in ScalarTypes /\ x.wire = WireOf(s[f].t))}} : f \in DOMAIN s}

Some(S) == CHOOSE x \in S : TRUE
NonDef(ty) == CHOOSE v \in Vals(ty) : (IF ty \in TextTypes THEN v # <<>> ELSE ~IsZero(v))

FieldSeqs(ty) == {<<>>} \cup {<<v>> : v \in Vals(ty)} \cup {<<v, w>> : v \in {NonDef(ty)}, w \in Vals(ty)}

\* nested content: few but varied; d bounds the depth
RECURSIVE SubOps(_, _)
EntryOps(f, d) ==
  LET K == {[k |-> "val", f |-> 1, v |-> v, pad |-> p] : v \in Vals(f.key), p \in Pads}
      K1 == [k |-> "val", f |-> 1, v |-> NonDef(f.key), pad |-> 0]
      V == IF f.t \in ScalarTypes \cup TextTypes
           THEN {[k |-> "val", f |-> 2, v |-> v, pad |-> p] : v \in Vals(f.t), p \in Pads}
           ELSE {[k |-> "sub", f |-> 2, ops |-> o, pad |-> 0] : o \in SubOps(f.t, d)}
      V1 == CHOOSE v \in V : TRUE
      es == EntrySchema(f)
  IN {<<>>, <<K1>>, <<V1>>} \cup {<<K1, v>> : v \in V} \cup {<<k, V1>> : k \in K} \cup {<<v, K1>> : v \in V}
     \cup {<<K1, V1, v>> : v \in V} \cup {<<V1, k, K1>> : k \in K}
     \cup UNION {{<<u, K1, V1>>, <<K1, u, V1>>, <<K1, V1, u>>} : u \in FewUnknown(es)}
SubOps(ty, d) ==
  LET s == Schema(ty)
      scalarF == {f \in DOMAIN s : s[f].k = "one" /\ s[f].t \in ScalarTypes \cup TextTypes}
      listF == {f \in DOMAIN s : s[f].k = "rep" /\ s[f].t \in ScalarTypes}
      subF == {f \in DOMAIN s : s[f].k # "map" /\ s[f].t \notin ScalarTypes \cup TextTypes}
      one == {[k |-> "val", f |-> f, v |-> NonDef(s[f].t), pad |-> 0] : f \in scalarF}
      lst == {[k |-> "pack", f |-> f, vs |-> <<NonDef(s[f].t), NonDef(s[f].t)>>, pad |-> 0] : f \in listF}
      deep(g) == LET u == Schema(s[g].t)  \* content of a nested message: nothing, or its first scalar
                     fs == {h \in DOMAIN u : u[h].k = "one" /\ u[h].t \in ScalarTypes \cup TextTypes}
                 IN {<<>>} \cup {<<[k |-> "val", f |-> h, v |-> NonDef(u[h].t), pad |-> 0]>> : h \in fs}
      sub == IF d = 0 THEN {} ELSE UNION {{[k |-> "sub", f |-> f, ops |-> o, pad |-> 0] : o \in deep(f)} : f \in subF}
      each == one \cup lst \cup sub
  IN {<<>>} \cup {<<x>> : x \in each \cup FewUnknown(s)} \cup {<<x, y>> : x \in one, y \in lst \cup FewUnknown(s)}

Ops(ty) ==
  LET s == Schema(ty)
  IN UNION {
       LET fd == s[f]
       IN IF fd.k = "one" /\ fd.t \in ScalarTypes \cup TextTypes
          THEN {[k |-> "val", f |-> f, v |-> v, pad |-> p] : v \in Vals(fd.t), p \in Pads}
          ELSE IF fd.k = "rep" /\ fd.t \in ScalarTypes
          THEN {[k |-> "pack", f |-> f, vs |-> vs, pad |-> p] : vs \in FieldSeqs(fd.t), p \in Pads}
               \cup (IF "unpacked" \in Feat THEN {[k |-> "el", f |-> f, v |-> v, pad |-> p] : v \in Vals(fd.t), p \in Pads} ELSE {})
          ELSE IF fd.k = "rep" /\ fd.t \in TextTypes
          THEN {[k |-> "el", f |-> f, v |-> v, pad |-> p] : v \in Vals(fd.t), p \in Pads}
          ELSE IF fd.k = "map"
          THEN {[k |-> "sub", f |-> f, ops |-> o, pad |-> p] : o \in EntryOps(fd, 1), p \in {0}}
          ELSE {[k |-> "sub", f |-> f, ops |-> o, pad |-> p] : o \in SubOps(fd.t, 1), p \in Pads}
       : f \in DOMAIN s } \cup Unknown(s) \cup Mismatch(s)

OpsOf == [ty \in Types |-> Ops(ty)]
OpsSeq == [ty \in Types |-> SetToSeq(Ops(ty))]

Bytes == EncOps(Schema(t), ops)
Value == Apply(Schema(t), DefaultMsg(t), ops)

(* -------------------------------- damage --------------------------------- *)
Lens == {<<255,255,255,255,7>>, <<128,128,128,128,8>>, <<255,255,255,255,15>>, <<129,128,128,128,16>>, <<255,255,255,255,255,255,255,255,255,1>>,
         <<128,128,128,128,128,128,128,128,128,128,1>>, <<128,128,128,128,128,128,128,128,128,128,128,0>>, <<127>>, <<200,1>>,
         <<0>>, <<1>>, <<3>>, <<4>>, <<7>>, <<128>>, <<255>>}
Muts(b) == {[k |-> "cut", p |-> n, v |-> <<>>] : n \in 0..(Len(b)-1)}
           \cup {[k |-> "put", p |-> n, v |-> v] : n \in 1..Len(b), v \in Lens \cup {<<>>}}
           \cup {[k |-> "dup", p |-> n, v |-> <<>>] : n \in 1..Len(b)}
Damaged(b, m) == CASE m.k = "none" -> b
                   [] m.k = "cut" -> SubSeq(b, 1, m.p)
                   [] m.k = "put" -> SubSeq(b, 1, m.p - 1) \o m.v \o SubSeq(b, m.p + 1, Len(b))
                   [] m.k = "dup" -> SubSeq(b, 1, m.p) \o SubSeq(b, m.p, Len(b))
NoMut == [k |-> "none", p |-> 0, v |-> <<>>]
Out == Damaged(Bytes, mut)

(* the value in the JSON form of the harness (lists of pairs, defaults left out) *)
RECURSIVE Plain(_, _)
PlainVal(ty, v) == IF ty \in ScalarTypes \cup TextTypes THEN v ELSE IF v = None THEN <<>> ELSE Plain(ty, v)
PlainField(f, v) == IF f.k = "one" THEN PlainVal(f.t, v)
                    ELSE IF f.k = "rep" THEN [i \in DOMAIN v |-> PlainVal(f.t, v[i])]
                    ELSE LET q == SetToSeq(v) IN [i \in DOMAIN q |-> <<q[i][1], PlainVal(f.t, q[i][2])>>]
Plain(ty, m) == LET s == Schema(ty)
                    fs == SetToSeq({g \in DOMAIN s : ~IsDefault(s[g], NormField(s[g], m[g]))})
                IN [i \in DOMAIN fs |-> <<fs[i], PlainField(s[fs[i]], m[fs[i]])>>]

Pick(S) == IF Sample = 0 THEN S ELSE RandomSubset(IF Cardinality(S) < Sample THEN Cardinality(S) ELSE Sample, S)

Init == t \in Types /\ ops = <<>> /\ mut = NoMut
AddOp == /\ Len(ops) < MaxOps /\ mut = NoMut
         /\ IF Sample = 0
            THEN \E op \in IF Same /\ ops # <<>> THEN {o \in OpsOf[t] : o.f = ops[1].f} ELSE OpsOf[t] : ops' = Append(ops, op)
            ELSE \E k \in Pick(1..Len(OpsSeq[t])) : ops' = Append(ops, OpsSeq[t][k])
         /\ UNCHANGED <<t, mut>>
Mutate == /\ Mut /\ mut = NoMut /\ ops # <<>>
          /\ \E m \in Pick(Muts(Bytes)) : mut' = m
          /\ UNCHANGED <<t, ops>>
Next == AddOp \/ Mutate
Spec == Init /\ [][Next]_vars

\* sampling long messages: only some lengths are looked at
Looked == Sample = 0 \/ mut # NoMut \/ Len(ops) \in {1, 3, 6, MaxOps}
\* the decoder of the specification recovers what the operations mean
Agree == (Looked /\ mut = NoMut) => LET r == Decode(t, Bytes) IN r.st = "ok" /\ Norm(t, r.v) = Norm(t, Value)
\* damage is either harmless or noticed, never anything else; cutting inside the last field is always noticed
Total == mut # NoMut => LET r == Decode(t, Out) IN r.st \in {"ok", "bad", "any"}
EmitCase == (Emit /\ Looked) => PrintT("CASE " \o ToJson([t |-> t, b |-> Out, v |-> IF mut = NoMut THEN Plain(t, Value) ELSE <<>>]))
=============================================================================
