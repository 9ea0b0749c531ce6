---- MODULE MessageTrace ----
(* Judge: a recording holds for each command the signals (ev: slot, field, value read inside the handler), the
   values of all fields of all live objects afterwards (v; empty if nobody looked), and the result of comparisons (eq: 0, 1, 2 = none). *)
EXTENDS Message, TLC, Json, IOUtils
CONSTANT What   \* "values" or "signals"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1..Len(Trace)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k

ValuesOK(st, o) == o.v = <<>> \/ \A s \in Slots : /\ (o.v[s] # <<>>) = st.alive[s]
                                    /\ st.alive[s] => \A f \in Fields : st.v[s][f] \in {Free, o.v[s][1][f]}
SignalsOK(q, o) == \A s \in Slots, f \in Fields :
    <<s, f>> \in q.may \/
    LET seen == SelectSeq(o.ev, LAMBDA e : e.s = s /\ e.f = f)
        must == {e \in q.must : e.s = s /\ e.f = f}
    IN IF must = {} THEN seen = <<>> ELSE Len(seen) = 1 /\ seen[1] \in must
OK(c, q, o) == IF What = "values" THEN ValuesOK(q.st, o) /\ (c.op = "eq" /\ q.eq # 2 => o.eq = q.eq)
               ELSE SignalsOK(q, o)
RECURSIVE Run(_, _, _, _)
Run(st, s, o, j) == IF j > Len(s) THEN 0
                    ELSE LET q == Step(st, s[j]) IN IF ~OK(s[j], q, o[j]) THEN j ELSE Run(q.st, s, o, j + 1)
RECURSIVE Expect(_, _, _, _)
Expect(st, s, j, n) == IF j = n THEN Step(st, s[j]) ELSE Expect(Step(st, s[j]).st, s, j + 1, n)
Judge == LET r == Trace[k]
         IN IF r.r # "ok" THEN PrintT("REJECT " \o ToString(k) \o " " \o r.r)
            ELSE LET j == Run(Init0, r.s, r.o, 1)
                 IN j # 0 => LET q == Expect(Init0, r.s, 1, j)
                             IN PrintT("REJECT " \o ToString(k) \o " step " \o ToString(j) \o " (" \o r.s[j].op \o ") expected signals " \o ToString(q.must) \o " values " \o ToString(q.st.v) \o " comparison " \o ToString(q.eq) \o " observed " \o ToJson(r.o[j]))
====
