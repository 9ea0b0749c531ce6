----------------------------- MODULE Timestamp -----------------------------
(***************************************************************************)
(* QDateTime and google.protobuf.Timestamp.  An instant is written <<day,  *)
(* millisecond of the day>> (days since 1970-01-01), a timestamp <<day,    *)
(* second of the day, nanos>>; TLC's integers have 32 bits.                *)
(* Unit: nanoseconds per unit of the field `nanos' -- 1 for the format,    *)
(* 1000 describes the known finding (see known-findings.txt).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Unit
DayMs == 86400000
PerMs == 1000000 \div Unit
ToTs(x) == <<x[1], x[2] \div 1000, (x[2] % 1000) * PerMs>>
\* nanos above one millisecond of the next day carry over (only with the finding can it exceed a second)
FromTs(ts) == LET ms == (ts[2] * 1000) + (ts[3] \div PerMs) IN <<ts[1] + (ms \div DayMs), ms % DayMs>>
ValidTs(ts) == ts[3] >= 0 /\ ts[3] <= 999999999
=============================================================================
