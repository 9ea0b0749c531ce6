---------------------------- MODULE WireBigTrace ----------------------------
(* Judges what the real serializer made of the cases of WireBig: the emitted bytes have the size and content of   *)
(* Encoding (same), the bytes decode to the value (dec), serializing and decoding gives the value back (back).    *)
EXTENDS WireBig, IOUtils
CONSTANTS Checks
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, stage
tvars == <<i, stage, shape, n, damage>>
TInit == i \in 1..Len(Log) /\ stage = 0 /\ shape = Log[i].shape /\ n = Log[i].n /\ damage = Log[i].damage
TNext == stage = 0 /\ stage' = 1 /\ UNCHANGED <<i, shape, n, damage>>
TSpec == TInit /\ [][TNext]_tvars
Verdict(e) ==
  IF e.r = "crash" THEN "crash"
  ELSE IF e.len # Size(Bytes(shape, n, damage)) THEN "not this case"
  ELSE IF damage # "none" THEN IF "reject" \in Checks /\ e.r # "ex" THEN "accepted" ELSE "fine"
  ELSE IF "encoding" \in Checks /\ shape # "unk" /\ ~(e.same /\ e.out = e.len) THEN "encoding"
  ELSE IF "decode" \in Checks /\ ~(e.r = "ok" /\ e.dec) THEN "decode"
  ELSE IF "roundtrip" \in Checks /\ ~e.back THEN "roundtrip" ELSE "fine"
Judge == stage = 1 => LET v == Verdict(Log[i]) IN v = "fine" \/ PrintT("REJECT " \o ToString(i) \o " " \o v)
=============================================================================
