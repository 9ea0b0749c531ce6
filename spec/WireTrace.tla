----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Judges recordings of the real serializer: each line of the file TRACE   *)
(* holds one experiment (harness/wirecli.cpp).  Lines are independent; one *)
(* state per line, so TLC's workers share the work.                        *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils
CONSTANTS Checks    \* subset of {"decode", "roundtrip", "encoding", "history"}
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, stage
vars == <<i, stage>>

DecodeOk(r, ty, b, v) ==   \* r: "ok" with value v, or "ex"
  LET d == Decode(ty, b)
  IN CASE d.st = "ok"  -> r = "ok" /\ FromJson(ty, v) = Norm(ty, d.v)
       [] d.st = "bad" -> r = "ex"
       [] OTHER        -> r \in {"ok", "ex"}

\* serialize(v) = b: a decoder conforming to the specification reads v
EncodingOk(ty, b, v) ==
  LET d == Decode(ty, b)
  IN d.st = "ok" /\ Norm(ty, d.v) = FromJson(ty, v) /\ WellEmitted(Schema(ty), b, 1, Len(b))

\* history of one object: h is the sequence of [operation, argument, result, value afterwards]; a decoded value is a
\* function of the bytes, rejected ones included: f is what a new object holds after the same bytes
Step(e, ty) ==
  CASE e.o = "dec" -> DecodeOk(e.r, ty, e.b, e.v) /\ FromJson(ty, e.v) = FromJson(ty, e.f)
    [] e.o = "ser" -> EncodingOk(ty, e.b, e.v)
    [] OTHER -> TRUE
HistoryOk(e) == \A k \in DOMAIN e.h : Step(e.h[k], e.t)

Verdict(e) ==
  IF e.r = "crash" THEN "crash"
  ELSE IF e.op = "dec" THEN IF "decode" \in Checks /\ ~DecodeOk(e.r, e.t, e.b, e.v) THEN "decode" ELSE "fine"
  ELSE IF e.op = "ser" THEN
       IF "encoding" \in Checks /\ ~EncodingOk(e.t, e.b, e.v1) THEN "encoding"
       ELSE IF "roundtrip" \in Checks /\ ~(e.r = "ok" /\ e.eq /\ FromJson(e.t, e.v2) = FromJson(e.t, e.v) /\ FromJson(e.t, e.v1) = FromJson(e.t, e.v)) THEN "roundtrip"
       ELSE "fine"
  ELSE IF "history" \in Checks /\ ~HistoryOk(e) THEN "history" ELSE "fine"

Init == i \in 1..Len(Log) /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Judge == stage = 1 => LET v == Verdict(Log[i]) IN v = "fine" \/ PrintT("REJECT " \o ToString(i) \o " " \o v)
=============================================================================
