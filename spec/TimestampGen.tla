--------------------------- MODULE TimestampGen ---------------------------
(* Instants, time zones and timestamps to convert; Inverse and InRange are checked on the specification itself. *)
EXTENDS Timestamp, Json, Randomization
CONSTANTS Random, Emit
VARIABLES op, x, ts, zone, todo
vars == <<op, x, ts, zone, todo>>
Days == {-719162, -141428, -25567, -366, -1, 0, 1, 59, 11016, 18627, 24855, 24856, 49710, 2932896}
Ms == {0, 1, 2, 499, 500, 998, 999, 1000, 1001, 59999, 3599999, 43200123, 86399000, 86399001, 86399999}
Nanos == {0, 1, 999, 1000, 999999, 1000000, 1000001, 123456789, 500000000, 999000000, 999999999}
Zones == {"utc", "local", "plus", "minus", "zone"}
Ds == IF Random THEN RandomSubset(400, -719162..2932896) ELSE Days
Mx == IF Random THEN RandomSubset(3, 0..(DayMs - 1)) ELSE Ms
Nx == IF Random THEN RandomSubset(3, 0..999999999) ELSE Nanos
Init == /\ todo = 0 /\ op = "dt" /\ x = <<0, 0>> /\ ts = <<0, 0, 0>> /\ zone = "utc"
Date == \E d \in Ds, m \in Mx, z \in (IF Random THEN RandomSubset(1, Zones) ELSE Zones) : op' = "dt" /\ x' = <<d, m>> /\ zone' = z /\ UNCHANGED ts
Stamp == \E d \in Ds, s \in (IF Random THEN RandomSubset(1, 0..86399) ELSE {0, 1, 43199, 86399}), n \in Nx : op' = "ts" /\ ts' = <<d, s, n>> /\ UNCHANGED <<x, zone>>
Next == todo = 0 /\ todo' = 1 /\ (Date \/ Stamp)
Spec == Init /\ [][Next]_vars
Inverse == op = "dt" => FromTs(ToTs(x)) = x
InRange == op = "dt" => ValidTs(ToTs(x)) /\ ToTs(x)[2] \in 0..86399
EmitCase == (Emit /\ todo = 1) => PrintT("CASE " \o ToJson([op |-> op, x |-> x, ts |-> ts, zone |-> zone]))
=============================================================================
