-------------------------- MODULE TimestampTrace --------------------------
(* Judges recordings of harness/tscli.cpp.
   "dt": the instant x in a zone -> timestamp got -> serialized, parsed: timestamp got2 -> date: the instant back
   "ts": the timestamp ts -> date: the instant back -> timestamp got *)
EXTENDS Timestamp, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, stage
vars == <<i, stage>>
Verdict(e) ==
  IF e.r = "crash" THEN "crash"
  ELSE IF e.op = "dt" THEN
       IF e.got # ToTs(e.x) THEN "another timestamp"
       ELSE IF e.got2 # e.got THEN "changed on the wire"
       ELSE IF e.back # e.x THEN "another instant" ELSE "fine"
  ELSE IF e.back # FromTs(e.ts) THEN "another instant"
       ELSE IF e.got # ToTs(e.back) THEN "another timestamp" ELSE "fine"
Init == i \in 1..Len(Log) /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Judge == stage = 1 => LET v == Verdict(Log[i]) IN v = "fine" \/ PrintT("REJECT " \o ToString(i) \o " " \o v)
=============================================================================
