--------------------------- MODULE QtTypesTrace ---------------------------
(* Judges recordings of harness/qtcli.cpp.
   "rt":  a value c set as field of a Holder, serialized (w), parsed into another Holder, read (c2)
   "dec": a Holder made of the bytes b as content of the field, parsed, read (c2), serialized again (w)
   o1, o2: the other fields before and after (every one of them with its default value) *)
EXTENDS QtTypes, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, stage
vars == <<i, stage>>
Same(t, a, b) == /\ Len(a) = Len(b)
                 /\ LET ks == IF t \in Opaque THEN <<>> ELSE Kinds(t, Len(a) \div 2)
                    IN \A k \in DOMAIN a : IF k \in DOMAIN ks /\ ks[k] \in {"float", "double"} THEN NormFloat(a[k]) = NormFloat(b[k]) ELSE a[k] = b[k]
Pos(t) == CHOOSE k \in DOMAIN QtSeq : QtSeq[k] = t
RECURSIVE Zeroed(_, _)
Zeroed(t, m) == LET s == Schema(t)    \* -0 is 0
                IN [f \in DOMAIN s |-> IF s[f].t \in {"float", "double"} THEN NormFloat(m[f])
                                       ELSE IF s[f].k = "rep" THEN [k \in DOMAIN m[f] |-> Zeroed(s[f].t, m[f][k])]
                                       ELSE IF s[f].t \in ScalarTypes \cup TextTypes \/ m[f] = None THEN m[f] ELSE Zeroed(s[f].t, m[f])]
Written(e, v) ==    \* the bytes contain, in the field, the message that v denotes
  LET h == DecodeInto(Pos(e.t) :> [k |-> "one", t |-> e.t, key |-> ""], e.w, 1, Len(e.w), Pos(e.t) :> None)   \* the other fields are skipped
      m == IF h.st = "ok" THEN h.v[Pos(e.t)] ELSE None
      x == IF m = None THEN DefaultMsg(e.t) ELSE m
  IN h.st = "ok" /\ (e.t \in Opaque \/ Norm(e.t, Zeroed(e.t, x)) = Norm(e.t, Zeroed(e.t, ToMsg(e.t, v))))
Verdict(e) ==
  IF e.r = "crash" THEN "crash"
  ELSE IF e.op = "rt" THEN
       IF e.t \notin Opaque /\ ~Same(e.t, e.c, e.c1) THEN "the value could not be set"
       ELSE IF e.r # "ok" THEN "not readable"
       ELSE IF ~Same(e.t, e.c1, e.c2) THEN "another value"
       ELSE IF e.o1 # e.o2 THEN "other fields changed"
       ELSE IF ~Written(e, e.c1) THEN "another message on the wire" ELSE "fine"
  ELSE LET d == Decode(e.t, e.b)
       IN IF d.st # "ok" THEN "fine"
          ELSE IF e.r # "ok" THEN "not readable"
          ELSE IF e.o1 # e.o2 THEN "other fields changed"
          ELSE IF ~Denotes(e.t, d.v) THEN "fine"
          ELSE IF ~Same(e.t, e.c2, FromMsg(e.t, d.v)) THEN "another value"
          ELSE IF ~Written(e, FromMsg(e.t, d.v)) THEN "another message on the wire" ELSE "fine"
Init == i \in 1..Len(Log) /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Judge == stage = 1 => LET v == Verdict(Log[i]) IN v = "fine" \/ PrintT("REJECT " \o ToString(i) \o " " \o v)
=============================================================================
