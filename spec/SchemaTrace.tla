---- MODULE SchemaTrace ----
(* Judges what the generator and the generated classes did with a schema. *)
EXTENDS Schema, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
Range(q) == {q[j] : j \in 1..Len(q)}
GotEnums(t) == {[e |-> x.e, keys |-> Range(x.keys)] : x \in Range(t.enums)}
GotWire(t) == {[j |-> x.j, b |-> Canon(t.s, t.s.fields[x.j].m, x.b, 1)] : x \in Range(t.wire)}
InOf(s, x) == LET v == CHOOSE y \in Range(s.svcs) : Dots(s.pk[y.file]) \o y.name = x.svc IN (CHOOSE r \in Range(v.rpcs) : r.p = x.m).in
IsRpc(s, x) == \E y \in Range(s.svcs) : Dots(s.pk[y.file]) \o y.name = x.svc /\ \E r \in Range(y.rpcs) : r.p = x.m
GotCalls(t) == {IF IsRpc(t.s, x) THEN [x EXCEPT !.arg = Canon(t.s, InOf(t.s, x), @, 1)] ELSE x : x \in Range(t.calls)}
Verdict(t) ==
  LET s == t.s o == t.o IN
  IF t.r # "ok" THEN t.r
  ELSE IF ~t.same THEN "two runs of the generator gave different output"
  ELSE LET w == Props(s, o) g == Range(t.props) IN
       IF w # g THEN "properties missing " \o ToString(w \ g) \o " unexpected " \o ToString(g \ w)
  ELSE IF Aliases(s, o) # Range(t.aliases) THEN "properties for QML have to be " \o ToString(Aliases(s, o) \ Range(t.aliases)) \o " and are " \o ToString(Range(t.aliases) \ Aliases(s, o))
  ELSE IF EnumKeys(s) # GotEnums(t) THEN "enums have to be " \o ToString(EnumKeys(s) \ GotEnums(t)) \o " and are " \o ToString(GotEnums(t) \ EnumKeys(s))
  ELSE IF \E x \in Range(t.fe) : Range(x.keys) # FieldKeys(s, o, x.m) THEN "field enums " \o ToString({<<x, FieldKeys(s, o, x.m)>> : x \in {y \in Range(t.fe) : Range(y.keys) # FieldKeys(s, o, y.m)}})
  ELSE IF {x.m : x \in Range(t.fe)} # 1..Len(s.msgs) THEN "messages missing"
  ELSE IF WireForms(s) # GotWire(t) THEN "wire form has to be " \o ToString(WireForms(s) \ GotWire(t)) \o " and is " \o ToString(GotWire(t) \ WireForms(s))
  ELSE IF \E x \in Range(t.wire) : x.back # 1 THEN "decoding gives another message for fields " \o ToString({s.fields[x.j] : x \in {y \in Range(t.wire) : y.back # 1}})
  ELSE IF Ctors(s) # Range(t.ctors) THEN "constructors have to be " \o ToString(Ctors(s) \ Range(t.ctors)) \o " and are " \o ToString(Range(t.ctors) \ Ctors(s))
  ELSE IF Calls(s) # GotCalls(t) THEN "calls have to be " \o ToString(Calls(s) \ GotCalls(t)) \o " and are " \o ToString(GotCalls(t) \ Calls(s))
  ELSE ""
Init == k \in 1..Len(Tr)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Judge == LET v == Verdict(Tr[k]) IN v = "" \/ PrintT("REJECT " \o ToString(k) \o " " \o v)
====
