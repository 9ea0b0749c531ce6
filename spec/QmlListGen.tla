---------------------------- MODULE QmlListGen ----------------------------
(* Exhaustive (Tour: one scenario per reachable state and last step) or random scenarios. *)
EXTENDS QmlList, Json
CONSTANTS MaxLen, Ops, Tour, Emit
VARIABLES h
gvars == <<msgs, n, val, hold, h>>
St(op, k, j, v) == [op |-> op, k |-> k, j |-> j, v |-> v]
Steps ==
  {St(op, k, 0, 0) : op \in {"new", "app", "appp", "appc", "capp", "parse", "clear", "cclear", "del"}, k \in Slots}
  \cup {St(op, k, m, 0) : op \in {"decl", "asg", "asgp"}, k \in Slots, m \in 0..2}
  \cup {St(op, k, j, 0) : op \in {"cset", "casg", "copy"}, k \in Slots, j \in Slots}
  \cup {St(op, k, j, 0) : op \in {"crem", "hold"}, k \in Slots, j \in 1..3}
  \cup {St(op, k, j, v) : op \in {"setv", "csetv"}, k \in Slots, j \in 1..3, v \in {-7, 12}}
  \cup {St("rel", 0, 0, 0), St("gc", 0, 0, 0)}
Useful(s) == s.op \in Ops /\ (s.op \in {"cset", "casg", "copy"} => s.k # s.j) /\ (s.op = "gc" => Len(h) > 0 /\ h[Len(h)].op # "gc")
New1(s) == CASE s.op \in {"decl", "asg", "asgp"} -> s.j [] s.op \in {"app", "appp", "appc", "capp", "parse"} -> 1 [] OTHER -> 0
GInit == ListInit /\ h = <<>>
GNext == /\ Len(h) < MaxLen
         /\ \E s \in Steps : Useful(s) /\ n + New1(s) <= MaxObj /\ Do(s) /\ h' = Append(h, s)
Spec == GInit /\ [][GNext]_gvars
View == IF Tour THEN <<msgs, n, val, hold, Len(h), IF h = <<>> THEN <<>> ELSE <<h[Len(h)]>> >> ELSE <<msgs, h>>
EmitCase == (Emit /\ h # <<>> /\ (Tour \/ Len(h) = MaxLen)) => PrintT("CASE " \o ToJson([s |-> h]))
=============================================================================
