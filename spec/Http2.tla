---- MODULE Http2 ----
(* gRPC over an HTTP/2 connection: client user - channel - server.

   Byte strings are runs: sequences <<byte, count>> of maximal length, so that messages of any size are
   cheap.  A message is [c, n]: its bytes field holds n times the byte c.

   Step(s, o) gives the next state and what is observable of the step: events of the user's objects (in
   order) and events at the server.  An expected code -1 stands for any code other than Ok, text "*" for
   any text.

   Two clients share the channel.  The first may be destroyed; the objects of the second stay as they are. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- runs
Cat(r, q) == IF r = <<>> THEN q ELSE IF q = <<>> THEN r
             ELSE IF r[Len(r)][1] = q[1][1] THEN SubSeq(r, 1, Len(r) - 1) \o << <<q[1][1], r[Len(r)][2] + q[1][2]>> >> \o Tail(q)
             ELSE r \o q
One(b) == << <<b, 1>> >>
Fill(b, n) == IF n = 0 THEN <<>> ELSE << <<b, n>> >>
RECURSIVE Size(_)
Size(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + Size(Tail(r))
RECURSIVE Take(_, _)
Take(r, n) == IF n = 0 \/ r = <<>> THEN <<>> ELSE IF Head(r)[2] >= n THEN << <<Head(r)[1], n>> >>
              ELSE <<Head(r)>> \o Take(Tail(r), n - Head(r)[2])
RECURSIVE Drop(_, _)
Drop(r, n) == IF n = 0 \/ r = <<>> THEN r ELSE IF Head(r)[2] > n THEN << <<Head(r)[1], Head(r)[2] - n>> >> \o Tail(r)
              ELSE Drop(Tail(r), n - Head(r)[2])

\* ---------------------------------------------------------------- messages and frames
RECURSIVE Varint(_)
Varint(n) == IF n < 128 THEN One(n) ELSE Cat(One(128 + (n % 128)), Varint(n \div 128))
Payload(tag, m) == IF m.n = 0 THEN <<>> ELSE Cat(One(tag), Cat(Varint(m.n), Fill(m.c, m.n)))
Rep(m) == Payload(26, m)          \* bytes b = 3
Req(m) == Payload(10, m)          \* string a = 1
Be32(n) == Cat(One(n \div 16777216), Cat(One((n \div 65536) % 256), Cat(One((n \div 256) % 256), One(n % 256))))
Frame(p) == Cat(One(0), Cat(Be32(Size(p)), p))
Bytes(m) == Fill(m.c, m.n)
RECURSIVE Frames(_)
Frames(q) == IF q = <<>> THEN <<>> ELSE Cat(Frame(Rep(Head(q))), Frames(Tail(q)))
RECURSIVE Ends(_, _)              \* offsets behind the frames
Ends(q, at) == IF q = <<>> THEN <<>> ELSE LET e == at + Size(Frame(Rep(Head(q)))) IN <<e>> \o Ends(Tail(q), e)
Complete(q, sent) == LET e == Ends(q, 0) IN Cardinality({j \in 1..Len(q) : e[j] <= sent})

\* ---------------------------------------------------------------- state
Init0 == [streams |-> <<>>, calls |-> <<>>, reqs |-> <<>>, client |-> TRUE, down |-> FALSE, cred |-> 1]
NoM == [c |-> 0, n |-> 0]
E(k, id, code, txt, runs) == [k |-> k, id |-> id, code |-> code, txt |-> txt, runs |-> runs]
Path(m) == "/vp.Service/" \o m
SendReq(s, kind, cl, owner, meth, arg) ==
  [s EXCEPT !.reqs = Append(@, [kind |-> kind, cl |-> cl, owner |-> owner, open |-> TRUE, q |-> <<>>, sent |-> 0, cred |-> s.cred])]
ClErr(cl, code, txt) == E("clerr", cl - 1, code, txt, <<>>)
ReqEv(s, meth, arg) == E("req", Len(s.reqs) + 1, 0, Path(meth), Frame(Req(arg)))

Op0 == [op |-> "", i |-> 0, c |-> 0, n |-> 0, code |-> 0, txt |-> "", p |-> "", runs |-> <<>>]

\* a stream has failed: it is requested again when the retry is due
Failed(s, r, code, txt) == LET i == s.reqs[r].owner IN
  [s |-> [s EXCEPT !.reqs[r].open = FALSE, !.streams[i].retry = TRUE, !.streams[i].cur = 0],
   obs |-> <<E("serr", i, code, txt, <<>>), ClErr(s.reqs[r].cl, code, txt)>>]
Ended(s, r) == LET i == s.reqs[r].owner IN
  [s |-> [s EXCEPT !.reqs[r].open = FALSE, !.streams[i].alive = FALSE, !.streams[i].cur = 0],
   obs |-> <<E("sfin", i, 0, "", <<>>)>>]
CallFailed(s, r, code, txt) == LET i == s.reqs[r].owner IN
  [s |-> [s EXCEPT !.reqs[r].open = FALSE, !.calls[i].open = FALSE],
   obs |-> <<E("cerr", i, code, txt, <<>>), ClErr(s.reqs[r].cl, code, txt)>>]
CallDone(s, r) == LET i == s.reqs[r].owner IN
  [s |-> [s EXCEPT !.reqs[r].open = FALSE, !.calls[i].open = FALSE],
   obs |-> <<E("cfin", i, 0, "", Bytes(s.reqs[r].q[1]))>>]
OneMessage(q) == Len(q.q) >= 1 /\ q.sent = Size(Frame(Rep(q.q[1])))

Finish(s, r, code, txt) ==       \* the server has answered with that status
  IF s.reqs[r].kind = "stream" THEN IF code = 0 THEN Ended(s, r) ELSE Failed(s, r, code, txt)
  ELSE IF code # 0 THEN CallFailed(s, r, code, txt)
  ELSE IF OneMessage(s.reqs[r]) THEN CallDone(s, r) ELSE CallFailed(s, r, -1, "*")
Broken(s, r) == IF s.reqs[r].kind = "stream" THEN Failed(s, r, -1, "*") ELSE CallFailed(s, r, -1, "*")

\* the messages completed by sending n more bytes; a reaction of the user ends the delivery
Data(s, r, n) ==
  LET q == s.reqs[r]
      a == Complete(q.q, q.sent)
      b == Complete(q.q, q.sent + n)
      s1 == [s EXCEPT !.reqs[r].sent = @ + n]
      Vals(j) == [k \in 1..j |-> E("val", q.owner, 0, "", Bytes(q.q[a + k]))]
  IN IF q.kind # "stream" THEN [s |-> s1, obs |-> <<>>]
     ELSE IF b > a /\ s.streams[q.owner].onval > 0 /\ s.streams[q.owner].onval <= b - a
       THEN [s |-> [s1 EXCEPT !.reqs[r].open = FALSE, !.streams[q.owner].alive = FALSE, !.streams[q.owner].cur = 0],
             obs |-> Vals(s.streams[q.owner].onval) \o <<E("sfin", q.owner, 0, "", <<>>), E("cancel", r, 0, "", <<>>)>>]
       ELSE [s |-> [s1 EXCEPT !.streams[q.owner].onval = IF @ = 0 THEN 0 ELSE @ - (b - a)], obs |-> Vals(b - a)]

Cancelled(s, R) == [r \in 1..Cardinality(R) |-> E("cancel", CHOOSE x \in R : Cardinality({y \in R : y < x}) = r - 1, 0, "", <<>>)]
OpenReqs(s) == {r \in 1..Len(s.reqs) : s.reqs[r].open}
Of(s, cl) == {r \in OpenReqs(s) : s.reqs[r].cl = cl}
AbortStream(s, i) ==
  LET r == s.streams[i].cur IN
  [s |-> [[s EXCEPT !.streams[i].alive = FALSE, !.streams[i].retry = FALSE, !.streams[i].cur = 0] EXCEPT !.reqs = [x \in DOMAIN @ |-> IF x = r THEN [@[x] EXCEPT !.open = FALSE] ELSE @[x]]],
   obs |-> <<E("sfin", i, 0, "", <<>>)>> \o (IF r = 0 \/ ~s.reqs[r].open THEN <<>> ELSE <<E("cancel", r, 0, "", <<>>)>>)]
AbortCall(s, i) ==
  [s |-> [s EXCEPT !.calls[i].open = FALSE, !.reqs[s.calls[i].req].open = FALSE],
   obs |-> <<E("cerr", i, 10, "*", <<>>), ClErr(s.calls[i].cl, 10, "*")>> \o (IF s.reqs[s.calls[i].req].open THEN <<E("cancel", s.calls[i].req, 0, "", <<>>)>> ELSE <<>>)]
Kill(s) == [s |-> [s EXCEPT !.client = FALSE, !.reqs = [x \in DOMAIN @ |-> IF @[x].cl = 1 THEN [@[x] EXCEPT !.open = FALSE] ELSE @[x]],
                            !.streams = [x \in DOMAIN @ |-> IF @[x].cl = 1 THEN [@[x] EXCEPT !.alive = FALSE, !.retry = FALSE, !.cur = 0] ELSE @[x]],
                            !.calls = [x \in DOMAIN @ |-> IF @[x].cl = 1 THEN [@[x] EXCEPT !.open = FALSE] ELSE @[x]]],
            obs |-> Cancelled(s, Of(s, 1))]
UserAbort(s, r) == IF s.reqs[r].kind = "stream" THEN AbortStream(s, s.reqs[r].owner) ELSE AbortCall(s, s.reqs[r].owner)

\* nobody listens: the request fails
DownStream(s, i) == [s |-> [s EXCEPT !.streams[i].retry = TRUE, !.streams[i].cur = 0],
                     obs |-> <<E("serr", i, -1, "*", <<>>), ClErr(s.streams[i].cl, -1, "*")>>]
DownCall(s, i) == [s |-> [s EXCEPT !.calls[i].open = FALSE], obs |-> <<E("cerr", i, -1, "*", <<>>), ClErr(s.calls[i].cl, -1, "*")>>]
NewStream(cl, arg, r) == [cl |-> cl, arg |-> arg, alive |-> TRUE, retry |-> FALSE, cur |-> r, onval |-> 0]

Retry(s) == LET I == {i \in 1..Len(s.streams) : s.streams[i].retry} IN
  IF I = {} THEN [s |-> s, obs |-> <<>>]
  ELSE IF s.down THEN DownStream(s, CHOOSE x \in I : TRUE)
  ELSE LET i == CHOOSE x \in I : TRUE
           s1 == SendReq(s, "stream", s.streams[i].cl, i, "watch", s.streams[i].arg) IN
       [s |-> [s1 EXCEPT !.streams[i].retry = FALSE, !.streams[i].cur = Len(s.reqs) + 1], obs |-> <<ReqEv(s, "watch", s.streams[i].arg)>>]

\* the connection is lost and the time a call may take passes
RECURSIVE LoseAll(_, _)
LoseAll(s, r) == IF r > Len(s.reqs) THEN [s |-> s, obs |-> <<>>]
  ELSE LET t == IF s.reqs[r].open THEN Broken(s, r) ELSE [s |-> s, obs |-> <<>>]
           u == LoseAll(t.s, r + 1) IN [s |-> u.s, obs |-> t.obs \o u.obs]

\* blocking call: what the server is going to do is part of the step
Sync(s, o) ==
  LET arg == [c |-> 120, n |-> o.i]
      st == CASE o.p = "ok" -> 0 [] o.p \in {"fail", "only"} -> o.code [] OTHER -> -1
      txt == IF o.p \in {"fail", "only"} THEN o.txt ELSE IF o.p = "ok" THEN "" ELSE "*"
      s1 == SendReq(s, "sync", 1, 0, "one", arg)
  IN [s |-> [s1 EXCEPT !.reqs[Len(s1.reqs)].open = FALSE],
      obs |-> <<ReqEv(s, "one", arg)>> \o (IF st = 0 THEN <<>> ELSE <<E("clerr", 0, st, txt, <<>>)>>)
              \o <<E("status", 0, st, txt, <<>>)>> \o (IF st = 0 THEN <<E("out", 0, 0, "", Fill(o.c, o.n))>> ELSE <<>>)]

Step(s, o) ==
  LET arg == [c |-> o.c, n |-> o.n]
      cl == IF o.op \in {"sub2", "call2"} THEN 2 ELSE 1 IN
  CASE o.op = "refused" -> [s |-> [s EXCEPT !.down = TRUE], obs |-> <<>>]
    [] o.op = "cred" -> [s |-> [s EXCEPT !.cred = o.i], obs |-> <<>>]
    [] o.op = "userpass" -> [s |-> [s EXCEPT !.cred = 2], obs |-> <<>>]
    [] o.op = "https" -> [s |-> s, obs |-> <<E(IF o.p \in {"ssl", "passwordssl"} THEN "accepted" ELSE "refused", 0, 0, "", <<>>)>>]
    [] o.op = "lost" -> LoseAll(s, 1)
    [] o.op \in {"sub", "sub2"} /\ s.down -> DownStream([s EXCEPT !.streams = Append(@, NewStream(cl, arg, 0))], Len(s.streams) + 1)
    [] o.op \in {"call", "call2"} /\ s.down -> DownCall([s EXCEPT !.calls = Append(@, [cl |-> cl, open |-> TRUE, req |-> 0])], Len(s.calls) + 1)
    [] o.op = "sync" /\ s.down -> [s |-> s, obs |-> <<E("clerr", 0, -1, "*", <<>>), E("status", 0, -1, "*", <<>>)>>]
    [] o.op \in {"sub", "sub2"} -> LET s1 == SendReq(s, "stream", cl, Len(s.streams) + 1, "watch", arg) IN
         [s |-> [s1 EXCEPT !.streams = Append(@, NewStream(cl, arg, Len(s1.reqs)))], obs |-> <<ReqEv(s, "watch", arg)>>]
    [] o.op \in {"call", "call2"} -> LET s1 == SendReq(s, "call", cl, Len(s.calls) + 1, "one", arg) IN
         [s |-> [s1 EXCEPT !.calls = Append(@, [cl |-> cl, open |-> TRUE, req |-> Len(s1.reqs)])], obs |-> <<ReqEv(s, "one", arg)>>]
    [] o.op = "sync" -> Sync(s, o)
    [] o.op = "put" -> [s |-> [s EXCEPT !.reqs[o.i].q = Append(@, arg)], obs |-> <<>>]
    [] o.op = "data" -> Data(s, o.i, o.n)
    [] o.op = "head" -> [s |-> s, obs |-> <<>>]
    [] o.op \in {"end", "only"} -> Finish(s, o.i, o.code, o.txt)
    [] o.op \in {"nostatus", "http", "rst"} -> Broken(s, o.i)
    [] o.op = "sabort" -> AbortStream(s, o.i)
    [] o.op = "cabort" -> AbortCall(s, o.i)
    [] o.op = "onval" -> [s |-> [s EXCEPT !.streams[o.i].onval = o.n], obs |-> <<>>]
    [] o.op = "kill" -> Kill(s)
    [] o.op = "tick" -> Retry(s)
    [] o.op = "linger" -> [s |-> s, obs |-> <<>>]        \* a stream may last, however long nothing comes
    \* the server acts, and before the user's thread gets to see it the user aborts, or destroys the client
    [] o.op = "dataabort" -> UserAbort(s, o.i)
    [] o.op = "datakill" -> Kill(s)
    [] o.op \in {"endabort", "onlyabort", "rstabort"} -> UserAbort([s EXCEPT !.reqs[o.i].open = FALSE], o.i)
    [] o.op \in {"endkill", "onlykill", "rstkill"} -> Kill([s EXCEPT !.reqs[o.i].open = FALSE])
    [] OTHER -> Assert(FALSE, o)

Left(s, r) == Size(Frames(s.reqs[r].q)) - s.reqs[r].sent
NextRuns(s, r, n) == Take(Drop(Frames(s.reqs[r].q), s.reqs[r].sent), n)
====
