---- MODULE SerializersTrace ----
(* Judge: per command the name returned by load, the serializer returned by a lookup (who, and tok: which object, counted
   by first appearance) or "throw", and the meta data. *)
EXTENDS Serializers, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1..Len(Trace)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
OK(st, c, o) == CASE c.op = "load" -> o.name = File(c.a).name /\ o.who = ""
                  [] c.op = "get" -> o.who = Who(st, c.a, "Default")
                  [] c.op = "getp" -> o.who = Who(st, c.a, c.b)
                  [] c.op = "info" -> o.info = Info(st, c.a) /\ o.who = ""
RECURSIVE Run(_, _, _, _)
Run(st, s, o, j) == IF j > Len(s) THEN 0 ELSE IF ~OK(st, s[j], o[j]) THEN j ELSE Run(Next0(st, s[j]), s, o, j + 1)
SameObject(o) == \A a \in 1..Len(o), b \in 1..Len(o) : o[a].tok # -1 /\ o[b].tok # -1 => (o[a].tok = o[b].tok) = (o[a].who = o[b].who)
Judge == LET r == Trace[k]
         IN IF r.r # "ok" THEN PrintT("REJECT " \o ToString(k) \o " " \o r.r)
            ELSE LET j == Run(Init0, r.s, r.o, 1)
                 IN IF j # 0 THEN PrintT("REJECT " \o ToString(k) \o " step " \o ToString(j) \o " " \o ToJson(r.s[j]) \o " gave " \o ToJson(r.o[j]))
                    ELSE SameObject(r.o) \/ PrintT("REJECT " \o ToString(k) \o " a serializer is not one and the same object all the time")
====
