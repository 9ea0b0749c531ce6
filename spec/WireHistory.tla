---------------------------- MODULE WireHistory ----------------------------
(***************************************************************************)
(* One message object over its life: inputs (valid ones and damaged ones)  *)
(* are decoded into it, values are set, it is copied and serialized.  The  *)
(* specification of its content is content: after an accepted decode it is *)
(* the value of the input alone, after a rejected one it is unspecified.   *)
(* The cases come from WireSender through the file CASES.                  *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils, Randomization
CONSTANTS MaxLen, Emit
Cases == ndJsonDeserialize(IOEnv.CASES)
ByType == [ty \in MsgTypes |-> {i \in 1..Len(Cases) : Cases[i].t = ty}]
VARIABLES t, hist, content
vars == <<t, hist, content>>
Unspecified == {<<0, <<>>>>}
Init == t \in {ty \in MsgTypes : Cardinality(ByType[ty]) > 2} /\ hist = <<>> /\ content = {}
Decode1 == \E i \in RandomSubset(1, ByType[t]) :
             /\ hist' = Append(hist, <<"dec", Cases[i].b>>)
             /\ LET r == Decode(t, Cases[i].b) IN content' = IF r.st = "ok" THEN Norm(t, r.v) ELSE Unspecified
Set1 == \E i \in RandomSubset(1, ByType[t]) : hist' = Append(hist, <<"set", Cases[i].v>>) /\ content' = Unspecified
Ser1 == hist' = Append(hist, <<"ser", <<>>>>) /\ UNCHANGED content
Copy1 == hist' = Append(hist, <<"copy", <<>>>>) /\ UNCHANGED content
Next == Len(hist) < MaxLen /\ (Decode1 \/ Set1 \/ Ser1 \/ Copy1) /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
TypeOK == \A x \in content : x[1] \in (DOMAIN Schema(t)) \cup {0}
EmitCase == (Emit /\ Len(hist) = MaxLen) => PrintT("CASE " \o ToJson([t |-> t, s |-> hist]))
=============================================================================
