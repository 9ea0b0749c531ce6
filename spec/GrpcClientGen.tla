---- MODULE GrpcClientGen ----
(* Explores GrpcClient: all command sequences within bounds (checked against the invariants and
   properties below), printed as scenarios for the implementation. *)
EXTENDS GrpcClient, Json
CONSTANTS Ops,        \* commands in use
          MaxLen,     \* length of a scenario
          MaxCalls, MaxStreams, MaxRets, MaxTicks,
          Methods, Args, Datas, Codes,
          Msgs,       \* texts of failures
          Once,       \* commands that occur once
          Tour,       \* print one scenario per transition of the (history-free) state graph
          Emit
VARIABLES st, hist, last, ticks
vars == <<st, hist, last, ticks>>

Cmds(s) ==
    {c \in   {Cmd("attach", i, "", "", "", 0) : i \in {1, 2}}
        \cup {Cmd(o, 0, "", "", "", 0) : o \in {"attachx", "tick", "kill", "syncnull", "subnull"}}
        \cup {Cmd("mode", i, "", "", "", n) : i \in {1, 2}, n \in {0, 1, 2}}
        \cup {Cmd(o, 0, m, a, "", 0) : o \in {"call", "callcb"}, m \in {"one", "two"}, a \in Args}
        \cup {Cmd(o, 0, m, a, "", 0) : o \in {"sub", "subn"}, m \in Methods, a \in Args}
        \cup {Cmd("sync", 0, "one", a, d, 0) : a \in Args, d \in Datas}
        \cup {Cmd("sync", 0, "one", "x", d, n) : d \in Msgs, n \in Codes}
        \cup {Cmd("syncbad", 0, "one", "x", "", 0)}
        \cup {Cmd("cdone", i, "", "", d, 0) : i \in DOMAIN s.calls, d \in Datas}
        \cup {Cmd(o, i, "", "", "", 0) : o \in {"cbad", "cabort"}, i \in DOMAIN s.calls}
        \cup {Cmd("cfail", i, "", "", d, n) : i \in DOMAIN s.calls, d \in Msgs, n \in Codes}
        \cup {Cmd("sdel", i, "", "", d, 0) : i \in DOMAIN s.streams, d \in Datas}
        \cup {Cmd(o, i, "", "", "", 0) : o \in {"sbad", "sfin", "sabort", "sdrop"}, i \in DOMAIN s.streams}
        \cup {Cmd("serr", i, "", "", d, n) : i \in DOMAIN s.streams, d \in Msgs, n \in Codes}
        \cup {Cmd("rdrop", i, "", "", "", 0) : i \in DOMAIN s.rets}
        \cup {Cmd(o, i, "", k, "", n) : o \in {"onval", "onmsg", "onerr", "onfin"}, i \in DOMAIN s.streams, k \in {"abort", "join"}, n \in DOMAIN s.streams}
        \cup {Cmd("oncl", 0, "", "abort", "", n) : n \in DOMAIN s.streams}
     : /\ c.op \in Ops
       /\ c.op \in Once => \A j \in DOMAIN hist : hist[j].op # c.op
       /\ c.op = "oncl" => s.oncl.k = "no"
       /\ Enabled(s, c)
       /\ c.op \in {"call", "callcb"} => Len(s.calls) < MaxCalls
       /\ c.op \in {"sub", "subn"} => Len(s.streams) < MaxStreams
       /\ c.op = "sub" => Len(s.rets) < MaxRets
       /\ c.op = "mode" => s.mode[c.i] # c.n
       /\ c.op \in {"onval", "onmsg", "onerr", "onfin"} => s.streams[c.i][c.op].k = "no" /\ (c.a = "join" => c.n = c.i)
       /\ c.op = "tick" => ticks < MaxTicks
       /\ c.op = "kill" => Len(hist) + 1 >= MaxLen}

Init == st = Init0 /\ hist = <<>> /\ last = <<>> /\ ticks = 0
Next == /\ Len(hist) < MaxLen
        /\ \E c \in Cmds(st) : LET q == Step(st, c)
                               IN st' = q.st /\ last' = q.ev /\ hist' = Append(hist, c)
                                  /\ ticks' = IF c.op = "tick" THEN ticks + 1 ELSE ticks
Spec == Init /\ [][Next]_vars

\* states are identified without the path to them
Clean(s) == [s EXCEPT !.streams = [k \in DOMAIN s.streams |-> [s.streams[k] EXCEPT !.reqs = 0, !.fins = 0]]]
View == <<Clean(st), ticks, {o \in Once : \E j \in DOMAIN hist : hist[j].op = o}>>

\* ---- what the machine guarantees (P11, P13 - P16)
OneOutcome == \A i \in DOMAIN st.calls : st.calls[i].outs = IF st.calls[i].st = "done" THEN 1 ELSE 0
OneStream == \A s, t \in DOMAIN st.streams : s # t /\ st.streams[s].alive /\ st.streams[t].alive =>
                 st.streams[s].m # st.streams[t].m \/ st.streams[s].a # st.streams[t].a
FinishedOnce == \A s \in DOMAIN st.streams : st.streams[s].fins = IF st.streams[s].alive THEN 0 ELSE 1
Served == \A s \in DOMAIN st.streams : st.streams[s].alive =>
              /\ st.streams[s].conn # st.streams[s].retry      \* requested at the channel or waiting for its retry
              /\ st.streams[s].ch = st.chan
DeadIsQuiet == \A s \in DOMAIN st.streams : ~st.streams[s].alive => ~st.streams[s].conn /\ ~st.streams[s].retry
\* a finished stream is never requested again
StaysFinished == [][\A s \in DOMAIN st.streams : ~st.streams[s].alive => ~st'.streams[s].alive /\ st'.streams[s].reqs = st.streams[s].reqs]_vars
\* an outcome is final
OutcomeFinal == [][\A i \in DOMAIN st.calls : st.calls[i].st = "done" => st'.calls[i] = st.calls[i]]_vars
\* requests enter the attached channel only
RightChannel == [][\A k \in DOMAIN last' : last'[k].k = "req" => last'[k].ch \in {st.chan, st'.chan}]_vars
\* every failure is passed on; a retry follows the next passing of time
Retried == [][(hist' # hist /\ hist'[Len(hist')].op = "tick") =>
                \A s \in DOMAIN st.streams : st.streams[s].alive /\ st.streams[s].retry => st'.streams[s].reqs >= st.streams[s].reqs + 1]_vars

EmitCase == Emit =>
    IF Tour THEN Len(hist) < MaxLen => \A c \in Cmds(st) : PrintT("CASE " \o ToJson([s |-> Append(hist, c)]))
    ELSE (Len(hist) = MaxLen \/ st.killed) => PrintT("CASE " \o ToJson([s |-> hist]))
====
