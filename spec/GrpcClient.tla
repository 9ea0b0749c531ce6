---- MODULE GrpcClient ----
(* The gRPC client (QAbstractGrpcClient, QGrpcCallReply, QGrpcStream) between its user and a channel.
   The state is what user and channel can tell apart: the calls made, the streams requested, who listens,
   what is pending.  Step(st, c) is the transition taken on command c of the environment (user, channel or
   time) together with everything that becomes observable in it: requests entering a channel, signals,
   values handed over and returned.  GrpcClientGen explores the machine and prints command sequences, the
   harness runs them against the implementation, and GrpcClientTrace compares the recorded observations. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Svc == "vp.Service"
NoCode == 0

\* an observation; fields a kind does not use hold 0 / ""
Ev(k, id, code, txt, ch) == [k |-> k, id |-> id, code |-> code, txt |-> txt, ch |-> ch]
Cmd(op, i, m, a, d, n) == [op |-> op, i |-> i, m |-> m, a |-> a, d |-> d, n |-> n]

Init0 == [chan |-> 0, mode |-> <<0, 0>>,
          calls |-> <<>>,     \* [m, a, st: "open" "done" "none", cb: callback flavour, held]
          streams |-> <<>>,   \* [m, a, hs, alive, conn, retry, ch, onval, onmsg, onerr, onfin, held, reqs, fins]
          rets |-> <<>>,      \* is the return object alive
          oncl |-> [k |-> "no", i |-> 0],   \* reaction to the next stream failure reported by the client
          killed |-> FALSE]

Path(m, a) == Svc \o "/" \o m \o "/" \o a
AliveStream(st, m, a) == {s \in DOMAIN st.streams : st.streams[s].alive /\ st.streams[s].m = m /\ st.streams[s].a = a}
Res(st, ev) == [st |-> st, ev |-> ev]
Then(r, F(_)) == LET q == F(r.st) IN Res(q.st, r.ev \o q.ev)

\* ---- streams
NoReact == [k |-> "no", i |-> 0]
SyncErr == 14   \* what a channel in mode 1 answers at once
SyncTxt == "sync"

RECURSIVE Finish(_, _), Subscribe(_, _, _, _), React(_, _, _), Fail(_, _, _, _)

\* the channel is asked for stream s; in mode 1 it fails at once, in mode 2 it ends at once
Request(st, s, seen) ==
    LET r == st.streams[s]
        st1 == [st EXCEPT !.streams[s].conn = TRUE, !.streams[s].retry = FALSE, !.streams[s].ch = st.chan, !.streams[s].reqs = @ + 1]
        req == <<Ev("req", 3, 0, Path(r.m, r.a), st.chan)>>
    IN  CASE st.mode[st.chan] = 0 -> Res(st1, req)
          [] st.mode[st.chan] = 1 ->
                IF seen THEN Then(Res(st1, req), LAMBDA t : Fail(t, s, SyncErr, SyncTxt))
                ELSE Res([st1 EXCEPT !.streams[s].conn = FALSE, !.streams[s].retry = TRUE], req \o <<Ev("clerr", 0, SyncErr, SyncTxt, 0)>>)
          [] OTHER ->
                IF seen THEN Then(Res(st1, req), LAMBDA t : Finish(t, s))
                ELSE Res([st1 EXCEPT !.streams[s].conn = FALSE, !.streams[s].alive = FALSE, !.streams[s].fins = @ + 1], req)

\* subscribing: join the live stream of the same method and argument, else start one.  ret > 0: return object
Subscribe(st, m, a, ret) ==
    IF st.chan = 0 THEN Res(st, <<Ev("clerr", 0, 2, "*", 0), Ev("stream", 0, 0, "", 0)>>)
    ELSE LET old == AliveStream(st, m, a)
             h == IF ret > 0 THEN <<ret>> ELSE <<>>
         IN  IF old # {} THEN LET s == CHOOSE x \in old : TRUE
                              IN Res([st EXCEPT !.streams[s].hs = @ \o h, !.streams[s].held = TRUE], <<Ev("stream", s, 0, "", 0)>>)
             ELSE LET s == Len(st.streams) + 1
                      st1 == [st EXCEPT !.streams = Append(@, [m |-> m, a |-> a, hs |-> h, alive |-> TRUE, conn |-> FALSE, retry |-> FALSE, ch |-> 0,
                                                               onval |-> NoReact, onmsg |-> NoReact, onerr |-> NoReact, onfin |-> NoReact, held |-> TRUE, reqs |-> 0, fins |-> 0])]
                      q == Request(st1, s, FALSE)
                  IN Res(q.st, q.ev \o <<Ev("stream", s, 0, "", 0)>>)

\* a stream finishes: signalled once, off the books, and the user's reaction runs
Finish(st, s) ==
    LET st1 == [st EXCEPT !.streams[s].alive = FALSE, !.streams[s].conn = FALSE, !.streams[s].retry = FALSE, !.streams[s].fins = @ + 1]
    IN  Then(Res(st1, <<Ev("sfin", s, 0, "", 0)>>), LAMBDA t : React(t, s, "onfin"))

\* reactions of the user inside of signal handlers; each fires once
React(st, s, which) ==
    LET r == st.streams[s][which]
        st1 == [st EXCEPT !.streams[s][which] = NoReact]
    IN  CASE r.k = "no" -> Res(st, <<>>)
          [] r.k = "abort" -> IF st1.streams[r.i].alive THEN Finish(st1, r.i) ELSE Res(st1, <<>>)
          [] r.k = "join" -> LET q == [st1 EXCEPT !.rets = Append(@, TRUE)]
                             IN Subscribe(q, st.streams[s].m, st.streams[s].a, Len(q.rets))
          [] OTHER -> Res(st1, <<>>)

RECURSIVE FinishAll(_, _)
FinishAll(st, s) == IF s > Len(st.streams) THEN Res(st, <<>>)
                    ELSE IF st.streams[s].alive THEN Then(Finish(st, s), LAMBDA t : FinishAll(t, s + 1))
                    ELSE FinishAll(st, s + 1)
\* only what was pending when the time passed is retried
RECURSIVE RetryAll(_, _, _)
RetryAll(st, s, n) == IF s > n THEN Res(st, <<>>)
                      ELSE IF st.streams[s].alive /\ st.streams[s].retry THEN Then(Request(st, s, TRUE), LAMBDA t : RetryAll(t, s + 1, n))
                      ELSE RetryAll(st, s + 1, n)

RECURSIVE Hand(_, _, _, _)
Hand(st, hs, j, d) == IF j > Len(hs) THEN <<>>
                      ELSE (IF st.rets[hs[j]] THEN <<Ev("val", hs[j], 0, d, 0)>> ELSE <<Ev("clerr", 0, 3, "*", 0)>>) \o Hand(st, hs, j + 1, d)
RECURSIVE HandBad(_, _, _)
HandBad(st, hs, j) == IF j > Len(hs) THEN <<>>
                      ELSE <<Ev("clerr", 0, IF st.rets[hs[j]] THEN 99 ELSE 3, "*", 0)>> \o HandBad(st, hs, j + 1)

Deliver(st, s, d) ==
    LET h == Hand(st, st.streams[s].hs, 1, d)
        q == IF \E j \in DOMAIN h : h[j].k = "val" THEN React(st, s, "onval") ELSE Res(st, <<>>)
    IN Then(Res(q.st, h \o q.ev \o <<Ev("smsg", s, 0, d, 0)>>), LAMBDA t : React(t, s, "onmsg"))
Fail(st, s, n, d) ==
    Then(Res([st EXCEPT !.streams[s].conn = FALSE, !.streams[s].retry = TRUE],
             <<Ev("clerr", 0, n, d, 0), Ev("serr", s, n, d, 0)>>), LAMBDA t : React(t, s, "onerr"))

\* ---- calls
CallOf(st, i) == st.calls[i]
Issue(st, m, a, cb) ==
    IF st.chan = 0 THEN Res([st EXCEPT !.calls = Append(@, [m |-> m, a |-> a, st |-> "none", cb |-> cb, outs |-> 0])],
                            <<Ev("clerr", 0, 2, "*", 0)>> \o IF cb THEN <<>> ELSE <<Ev("reply", 0, 0, "", 0)>>)
    ELSE Res([st EXCEPT !.calls = Append(@, [m |-> m, a |-> a, st |-> "open", cb |-> cb, outs |-> 0])],
             <<Ev("req", 1, 0, Path(m, a), st.chan)>> \o IF cb THEN <<>> ELSE <<Ev("reply", Len(st.calls) + 1, 0, "", 0)>>)
Done(st, i) == [st EXCEPT !.calls[i].st = "done", !.calls[i].outs = @ + 1]
Outcome(st, i, ev) == Res(Done(st, i), ev)

\* ---- all commands
Enabled(st, c) ==
    /\ ~st.killed
    /\ CASE c.op = "attach" -> \A s \in DOMAIN st.streams : st.streams[s].alive => st.streams[s].onfin.k = "no"
         \* (the order in which different streams are retried or cut off is not specified)
         [] c.op = "tick" -> \A s \in DOMAIN st.streams : st.streams[s].alive /\ st.streams[s].retry =>
                                  /\ st.streams[s].onerr.i \in {0, s}
                                  /\ st.streams[s].onfin.i \in {0, s}
         [] c.op \in {"attachx", "sub", "subn", "subnull", "sync", "syncbad", "syncnull", "call", "callcb", "kill"} -> TRUE
         [] c.op = "mode" -> c.i \in {1, 2}
         [] c.op \in {"cdone", "cbad", "cfail"} -> c.i \in DOMAIN st.calls /\ st.calls[c.i].st = "open"
         [] c.op = "cabort" -> c.i \in DOMAIN st.calls /\ st.calls[c.i].st # "none" /\ ~st.calls[c.i].cb
         [] c.op = "cread" -> c.i \in DOMAIN st.calls /\ st.calls[c.i].st = "done"
         [] c.op \in {"sdel", "sbad", "serr", "sfin"} -> c.i \in DOMAIN st.streams /\ st.streams[c.i].alive /\ st.streams[c.i].conn
         [] c.op = "sabort" -> c.i \in DOMAIN st.streams /\ st.streams[c.i].alive /\ st.streams[c.i].held
         [] c.op = "sdrop" -> c.i \in DOMAIN st.streams /\ st.streams[c.i].held
         [] c.op = "rdrop" -> c.i \in DOMAIN st.rets /\ st.rets[c.i]
         [] c.op = "oncl" -> c.n \in DOMAIN st.streams /\ st.streams[c.n].alive
         [] c.op \in {"onval", "onmsg", "onerr", "onfin"} -> /\ (c.op = "onval" => c.a = "join")
                                                    /\ c.i \in DOMAIN st.streams /\ st.streams[c.i].alive
                                                    /\ c.n \in DOMAIN st.streams
                                                    /\ (c.a = "abort" => c.op # "onfin" \/ c.n # c.i)
         [] OTHER -> FALSE

Step(st, c) ==
    CASE c.op = "attach" -> Then(FinishAll(st, 1), LAMBDA t : Res([t EXCEPT !.chan = c.i], <<>>))
      [] c.op = "attachx" -> Res(st, <<Ev("exc", 0, 0, "", 0)>>)
      [] c.op = "mode" -> Res([st EXCEPT !.mode[c.i] = c.n], <<>>)
      [] c.op = "tick" -> RetryAll(st, 1, Len(st.streams))
      [] c.op = "call" -> Issue(st, c.m, c.a, FALSE)
      [] c.op = "callcb" -> Issue(st, c.m, c.a, TRUE)
      [] c.op = "cdone" -> Outcome(st, c.i, <<Ev(IF st.calls[c.i].cb THEN "cbfin" ELSE "cfin", c.i, 0, c.d, 0)>>)
      [] c.op = "cbad" -> Outcome(st, c.i, <<Ev(IF st.calls[c.i].cb THEN "cbfin" ELSE "cfin", c.i, 0, "", 0), Ev("clerr", 0, 99, "*", 0)>>)
      [] c.op = "cfail" -> Outcome(st, c.i, <<Ev("clerr", 0, c.n, c.d, 0)>> \o IF st.calls[c.i].cb THEN <<>> ELSE <<Ev("cerr", c.i, c.n, c.d, 0)>>)
      [] c.op = "cabort" -> IF st.calls[c.i].st = "open"
                            THEN Outcome(st, c.i, <<Ev("clerr", 0, 10, "*", 0), Ev("cerr", c.i, 10, "*", 0)>>)
                            ELSE Res(st, <<>>)
      [] c.op = "sync" -> IF st.chan = 0 THEN Res(st, <<Ev("clerr", 0, 2, "*", 0), Ev("status", 0, 2, "*", 0), Ev("out", 0, 0, "-", 0)>>)
                          ELSE LET r == <<Ev("req", 2, 0, Path(c.m, c.a), st.chan)>>
                               IN IF c.n = 0 THEN Res(st, r \o <<Ev("status", 0, 0, "*", 0), Ev("out", 0, 0, c.d, 0)>>)
                                  ELSE Res(st, r \o <<Ev("clerr", 0, c.n, c.d, 0), Ev("status", 0, c.n, c.d, 0), Ev("out", 0, 0, "-", 0)>>)
      [] c.op = "syncbad" -> IF st.chan = 0 THEN Res(st, <<Ev("clerr", 0, 99, "*", 0), Ev("status", 0, 99, "*", 0)>>)
                             ELSE Res(st, <<Ev("req", 2, 0, Path(c.m, c.a), st.chan), Ev("clerr", 0, 99, "*", 0), Ev("status", 0, 99, "*", 0)>>)
      [] c.op = "syncnull" -> Res(st, <<Ev("clerr", 0, 3, "*", 0), Ev("status", 0, 3, "*", 0)>>)
      [] c.op = "sub" -> LET q == [st EXCEPT !.rets = Append(@, TRUE)] IN Subscribe(q, c.m, c.a, Len(q.rets))
      [] c.op = "subn" -> Subscribe(st, c.m, c.a, 0)
      [] c.op = "subnull" -> Res(st, <<Ev("clerr", 0, 3, "*", 0), Ev("stream", 0, 0, "", 0)>>)
      [] c.op = "sdel" -> Deliver(st, c.i, c.d)
      [] c.op = "sbad" -> Then(Res(st, HandBad(st, st.streams[c.i].hs, 1) \o <<Ev("smsg", c.i, 0, "", 0)>>), LAMBDA t : React(t, c.i, "onmsg"))
      [] c.op = "serr" -> \* the user may abort a stream when the client reports the error
            LET st1 == [st EXCEPT !.streams[c.i].conn = FALSE, !.oncl = NoReact]
                q == IF st.oncl.k = "abort" /\ st1.streams[st.oncl.i].alive THEN Finish(st1, st.oncl.i) ELSE Res(st1, <<>>)
                st2 == IF q.st.streams[c.i].alive THEN [q.st EXCEPT !.streams[c.i].retry = TRUE] ELSE q.st
            IN Then(Res(st2, <<Ev("clerr", 0, c.n, c.d, 0)>> \o q.ev \o <<Ev("serr", c.i, c.n, c.d, 0)>>), LAMBDA t : React(t, c.i, "onerr"))
      [] c.op = "oncl" -> Res([st EXCEPT !.oncl = [k |-> c.a, i |-> c.n]], <<>>)
      [] c.op = "sfin" -> Finish(st, c.i)
      [] c.op = "sabort" -> Finish(st, c.i)
      [] c.op = "sdrop" -> Res([st EXCEPT !.streams[c.i].held = FALSE], <<>>)
      [] c.op = "rdrop" -> Res([st EXCEPT !.rets[c.i] = FALSE], <<>>)
      [] c.op \in {"onval", "onmsg", "onerr", "onfin"} -> Res([st EXCEPT !.streams[c.i][c.op] = [k |-> c.a, i |-> c.n]], <<>>)
      [] c.op = "kill" -> Res([st EXCEPT !.killed = TRUE], <<>>)
====
