---- MODULE QuickStreamTrace ----
EXTENDS QuickStream, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1..Len(Trace)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
ElemOK(x, out, j, o) ==
    /\ (o.alive = 1) = x.alive
    /\ x.alive => /\ (o.en = 1) = x.en
                  /\ x.rv \in {2, o.rv}
                  /\ x.rv = 1 => o.v = x.val
                  /\ o.errs = out.errs[j] /\ o.msgs = out.msgs[j] /\ o.flips = out.flips[j]
OK(q, o) == /\ o.req = q.out.req /\ o.end = q.out.end
            /\ {o.run[j] : j \in DOMAIN o.run} = Running(q.st) /\ Len(o.run) = Cardinality(Running(q.st))
            /\ \A j \in Elems : ElemOK(q.st.e[j], q.out, j, o.e[j])
RECURSIVE Run(_, _, _, _)
Run(st, s, o, j) == IF j > Len(s) THEN <<0, 0>> ELSE LET q == Step(st, s[j]) IN IF ~OK(q, o[j]) THEN <<j, q>> ELSE Run(q.st, s, o, j + 1)
Judge == LET r == Trace[k]
         IN IF r.r # "ok" THEN PrintT("REJECT " \o ToString(k) \o " " \o r.r)
            ELSE LET w == Run(Init0, r.s, r.o, 1) IN w[1] = 0 \/
                 PrintT("REJECT " \o ToString(k) \o " step " \o ToString(w[1]) \o " (" \o r.s[w[1]].op \o ") expected " \o ToString(w[2].out) \o " streams " \o ToString(Running(w[2].st)) \o " enabled " \o ToString([j \in Elems |-> w[2].st.e[j].en]) \o " observed " \o ToJson(r.o[w[1]]))
====
