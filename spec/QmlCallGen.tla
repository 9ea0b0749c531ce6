---- MODULE QmlCallGen ----
EXTENDS QmlCall, Json
CONSTANTS MaxLen, Tour, Clients, UseForms, Methods, Ops, MaxCalls
VARIABLES st, hist, out, done
vars == <<st, hist, out, done>>
Ids == {x.id : x \in st.open}
Cmds(s) ==
    {c \in   {Cmd("call", s.next, k, m, a, IF f = "ret" THEN r ELSE 0, f, 0) : k \in Clients, m \in Methods, a \in Args \cup {0}, r \in Rets, f \in UseForms}
        \cup {Cmd("ok", x.id, 0, "", 0, 0, "", 7) : x \in s.open}
        \cup {Cmd("garb", x.id, 0, "", 0, 0, "", 0) : x \in s.open}
        \cup {Cmd("err", x.id, 0, "", 0, 0, "", v) : x \in s.open, v \in {5, 14}}
        \cup {Cmd("seta", 0, 0, "", a, 0, "", 9) : a \in Args}
        \cup {Cmd("delr", 0, 0, "", 0, r, "", 0) : r \in Rets}
        \cup {Cmd("delcl", 0, k, "", 0, 0, "", 0) : k \in Clients}
        \cup {Cmd("gc", 0, 0, "", 0, 0, "", 0)}
     : c.op \in Ops /\ Enabled(s, c) /\ (c.op = "call" => s.next <= MaxCalls)}
Init == st = Init0 /\ hist = <<>> /\ out = NoOut /\ done = {}
Next == Len(hist) < MaxLen /\ \E c \in Cmds(st) : LET q == Step(st, c) IN
          st' = q.st /\ out' = q.out /\ hist' = Append(hist, c) /\ done' = done \cup {q.out.cbs[j][1] : j \in DOMAIN q.out.cbs}
Spec == Init /\ [][Next]_vars
View == <<st, done>>
\* a callback runs only for a call that was open, and then the call is over: at most one of its callbacks runs, once
Once == [][\A j \in DOMAIN out'.cbs : out'.cbs[j][1] \notin done /\ out'.cbs[j][1] \in Ids /\ out'.cbs[j][1] \notin {x.id : x \in st'.open}]_vars
\* nothing is open at a client that has no channel or is gone
Sane == \A x \in st.open : x.c # 3 /\ x.c \notin st.dead /\ x.a # 0 /\ x.f # "bad" /\ x.id \notin done
EmitCase == IF Tour THEN Len(hist) < MaxLen => \A c \in Cmds(st) : PrintT("CASE " \o ToJson([s |-> Append(hist, c)]))
            ELSE Len(hist) = MaxLen => PrintT("CASE " \o ToJson([s |-> hist]))
====
