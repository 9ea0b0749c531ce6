---- MODULE GrpcClientTrace ----
(* Judge: each line of TRACE is a scenario with the observations the implementation produced per command. *)
EXTENDS GrpcClient, Json, IOUtils, SequencesExt
CONSTANT Kinds   \* observations that matter for the property under check
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1..Len(Trace)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k

Texts == {"m1", "m2", "sync"}
Sloppy == {"sbad", "syncbad", "cbad"}   \* the code of a decoding failure is not specified, only that there is one
Blank(c) == c.op \in {"cfail", "serr", "sync"} /\ c.n # 0 /\ c.d = ""     \* a failure without text is passed on without text
Norm(c, e) == [e EXCEPT !.txt = IF e.k \in {"clerr", "cerr", "serr", "status"} /\ e.txt \notin Texts /\ ~(e.txt = "" /\ Blank(c)) THEN "*" ELSE @,
                        !.code = IF c.op \in Sloppy /\ e.k \in {"clerr", "status"} /\ @ \notin {0, 3} THEN 99 ELSE @]
\* what an undecodable message leaves in the return object is not specified
Keep(c, x) == SelectSeq(x, LAMBDA e : e.k \in Kinds /\ ~(c.op = "sbad" /\ e.k = "val"))
NormAll0(c, x) == [j \in DOMAIN x |-> Norm(c, x[j])]
NormAll(c, x) == NormAll0(c, Keep(c, x))
Count(x, e) == Cardinality({j \in DOMAIN x : x[j] = e})
SameBag(x, y) == Len(x) = Len(y) /\ \A j \in DOMAIN x : Count(x, x[j]) = Count(y, x[j])

\* first command whose observations differ, 0 if none
RECURSIVE Run(_, _, _, _)
Run(st, s, ev, j) ==
    IF j > Len(s) THEN 0
    ELSE LET q == Step(st, s[j])
             \* whether a handler added while a message is handed out gets that message is not specified
             Old(x) == SelectSeq(x, LAMBDA e : ~(e.k = "val" /\ e.id > Len(st.rets)))
         IN IF ~SameBag(NormAll(s[j], Old(q.ev)), NormAll(s[j], Old(ev[j]))) THEN j ELSE Run(q.st, s, ev, j + 1)
RECURSIVE Expect(_, _, _, _)
Expect(st, s, j, n) == IF j = n THEN Step(st, s[j]).ev ELSE Expect(Step(st, s[j]).st, s, j + 1, n)
Judge == LET r == Trace[k]
         IN IF r.r # "ok" THEN PrintT("REJECT " \o ToString(k) \o " " \o r.r)
            ELSE LET j == Run(Init0, r.s, r.ev, 1)
                 IN j # 0 => PrintT("REJECT " \o ToString(k) \o " step " \o ToString(j) \o " (" \o r.s[j].op \o ") expected " \o ToJson(Expect(Init0, r.s, 1, j)) \o " observed " \o ToJson(r.ev[j]))
====
