---- MODULE QuickStreamGen ----
EXTENDS QuickStream, TLC, Json
CONSTANTS MaxLen, Tour, Clients, Args, Methods, Ops
VARIABLES st, hist, out
vars == <<st, hist, out>>
Cmds(s) ==
    {c \in   {Cmd("cl", e, x, "") : e \in Elems, x \in Clients \cup {0}}
        \cup {Cmd("m", e, 0, m) : e \in Elems, m \in Methods \cup {""}}
        \cup {Cmd("a", e, x, "") : e \in Elems, x \in Args \cup {0}}
        \cup {Cmd(o, e, 0, "") : o \in {"en", "dis", "del"}, e \in Elems}
        \cup {Srv("msg", e, x, s.e[e].run) : e \in {e \in Elems : s.e[e].run # None}, x \in {7, 8}}
        \cup {Srv("end", e, 0, s.e[e].run) : e \in {e \in Elems : s.e[e].run # None}}
        \cup {Srv("serr", e, 14, s.e[e].run) : e \in {e \in Elems : s.e[e].run # None}}
        \cup {Cmd("delcl", 0, x, "") : x \in Clients}
     : c.op \in Ops /\ Enabled(s, c)}
Init == st = Init0 /\ hist = <<>> /\ out = NoOut
Next == Len(hist) < MaxLen /\ \E c \in Cmds(st) : LET q == Step(st, c) IN st' = q.st /\ out' = q.out /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars
View == st
\* an element runs a stream exactly while it is enabled and complete, and for its current values
Follows == \A k \in Elems : LET x == st.e[k] IN
    /\ x.run # None <=> (x.alive /\ x.en /\ x.cl # 0 /\ x.m # "" /\ x.a # 0)
    /\ x.run # None => x.run = <<x.cl, x.m, Content(x.a)>> /\ x.rv = 1
\* the channel is asked for what runs and told about what ends
Balanced == [][\A key \in Running(st) \cup Running(st') \cup {out'.req[j] : j \in DOMAIN out'.req} :
                 hist'[Len(hist')].op \notin {"end", "delcl"} =>
                   LET n(s) == Cardinality({j \in DOMAIN s : s[j] = key})
                       b(S) == IF key \in S THEN 1 ELSE 0
                   IN b(Running(st)) + n(out'.req) - n(out'.end) = b(Running(st'))]_vars
EmitCase == IF Tour THEN Len(hist) < MaxLen => \A c \in Cmds(st) : PrintT("CASE " \o ToJson([s |-> Append(hist, c)]))
            ELSE Len(hist) = MaxLen => PrintT("CASE " \o ToJson([s |-> hist]))
====
