--------------------------- MODULE WireCostTrace ----------------------------
(* Judges the times that the real serializer took for the cases of WireCost. *)
EXTENDS WireCost, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, stage
tvars == <<i, stage, shape, n, damage>>
TInit == i \in 1..Len(Log) /\ stage = 0 /\ shape = Log[i].shape /\ n = Log[i].n /\ damage = "none"
TNext == stage = 0 /\ stage' = 1 /\ UNCHANGED <<i, shape, n, damage>>
TSpec == TInit /\ [][TNext]_tvars
Verdict(e) == IF e.r # "ok" THEN "not decoded: " \o e.r ELSE IF ~Fair(e.one, e.eight) THEN "time grows faster than the input" ELSE "fine"
Judge == stage = 1 => LET v == Verdict(Log[i]) IN v = "fine" \/ PrintT("REJECT " \o ToString(i) \o " " \o v)
=============================================================================
