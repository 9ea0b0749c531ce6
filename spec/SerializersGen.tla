---- MODULE SerializersGen ----
EXTENDS Serializers, TLC, Json
CONSTANTS MaxLen, Tour
VARIABLES st, hist
Init == st = Init0 /\ hist = <<>>
Step(c) == st' = Next0(st, c) /\ hist' = Append(hist, c)
Next == Len(hist) < MaxLen /\ \E c \in Cmds : Step(c)
Spec == Init /\ [][Next]_<<st, hist>>
View == st
\* nothing that is loaded ever changes or hides what was there before
Stable == [][\A n \in DOMAIN st : n \in DOMAIN st' /\ st'[n] = st[n]]_<<st, hist>>
BuiltIn == \A i \in {"protobuf", "json"} : Who(st, i, "Default") = "Default:" \o i
Apart == \A n \in DOMAIN st \ {"Default"} : \A i \in Ids : Who(st, i, n) \in {"throw"} \cup {f \o ":" \o i : f \in Files}
EmitCase == IF Tour THEN Len(hist) < MaxLen => \A c \in Cmds : PrintT("CASE " \o ToJson([s |-> Append(hist, c)]))
            ELSE Len(hist) = MaxLen => PrintT("CASE " \o ToJson([s |-> hist]))
====
