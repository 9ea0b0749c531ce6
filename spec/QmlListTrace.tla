--------------------------- MODULE QmlListTrace ---------------------------
(* Follows a recording of harness/qlistcli.cpp: after each step, what each message's list contains as seen from C++ (c), from the
   QML list property (q) and from JavaScript (j), as pairs <<identity, value>>, and which elements live. *)
EXTENDS QmlList, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, p
tvars == <<msgs, n, val, hold, i, p>>
E == Log[i]
Seen(k) == [x \in DOMAIN msgs[k].l |-> <<msgs[k].l[x], val[msgs[k].l[x]]>>]
ToSet(q) == {q[x] : x \in DOMAIN q}
Wrong(o) ==
  IF \E k \in Slots : o.c[k] # Seen(k) THEN "the C++ list differs"
  ELSE IF \E k \in Slots : o.q[k] # Seen(k) THEN "the QML list differs"
  ELSE IF \E k \in Slots : o.j[k] # Seen(k) THEN "the JavaScript list differs"
  ELSE IF ~(Alive \subseteq ToSet(o.alive)) THEN "an element was freed that is still held"
  ELSE IF ~(ToSet(o.alive) \subseteq Alive) THEN "an element was not freed"
  ELSE "fine"
Init == i \in 1..Len(Log) /\ p = 0 /\ ListInit
Next == /\ p < (IF E.r = "crash" THEN 0 ELSE Len(E.s)) /\ (IF p = 0 THEN TRUE ELSE Wrong(E.o[p]) = "fine")
        /\ Do(E.s[p+1]) /\ p' = p + 1 /\ i' = i
Spec == Init /\ [][Next]_tvars
Judge == /\ (IF p = 0 THEN TRUE ELSE LET w == Wrong(E.o[p]) IN w = "fine" \/ PrintT("REJECT " \o ToString(i) \o " step " \o ToString(p) \o ": " \o w))
         /\ (IF p = 0 /\ E.r # "ok" THEN PrintT("REJECT " \o ToString(i) \o " " \o E.r) ELSE TRUE)
=============================================================================
