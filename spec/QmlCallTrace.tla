---- MODULE QmlCallTrace ----
EXTENDS QmlCall, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1..Len(Trace)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
OK(q, o) == o.req = q.out.req /\ o.cbs = q.out.cbs /\ o.cerr = q.out.cerr /\ \A r \in Rets : o.ret[r] = q.st.ret[r]
RECURSIVE Run(_, _, _, _)
Run(st, s, o, j) == IF j > Len(s) THEN <<0, 0>> ELSE LET q == Step(st, s[j]) IN IF ~OK(q, o[j]) THEN <<j, q>> ELSE Run(q.st, s, o, j + 1)
Judge == LET r == Trace[k]
         IN IF r.r # "ok" THEN PrintT("REJECT " \o ToString(k) \o " " \o r.r)
            ELSE LET w == Run(Init0, r.s, r.o, 1) IN w[1] = 0 \/
                 PrintT("REJECT " \o ToString(k) \o " step " \o ToString(w[1]) \o " (" \o r.s[w[1]].op \o ") expected " \o ToString(w[2].out) \o " results " \o ToString(w[2].st.ret) \o " observed " \o ToJson(r.o[w[1]]))
====
