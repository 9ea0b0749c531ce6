---- MODULE Http2Gen ----
(* Exploration of Http2 and generation of scenarios. *)
EXTENDS Http2, Json
CONSTANTS Plans, Ops, MaxLen, MaxStreams, MaxCalls, MaxReqs, MaxPut, Args, Msgs, Chunks, Codes, HttpCodes, Texts, Emit, Mode
VARIABLES s, h, last
vars == <<s, h, last>>
ArgSet == {[c |-> 120, n |-> k] : k \in Args}
MsgSet == {[c |-> 97 + (k % 89), n |-> k] : k \in Msgs}
O(op, i, c, n, code, txt) == [Op0 EXCEPT !.op = op, !.i = i, !.c = c, !.n = n, !.code = code, !.txt = txt]

Open(s_, r) == s_.reqs[r].open
Retrying(s_) == \E i \in 1..Len(s_.streams) : s_.streams[i].retry
Lives(s_, cl) == cl = 2 \/ s_.client
Allowed(s_) ==
  LET R == {r \in 1..Len(s_.reqs) : Open(s_, r)}
      SR == {r \in R : s_.reqs[r].kind = "stream"}
      err(r) == s_.reqs[r].kind # "stream" \/ ~Retrying(s_)
      chunks(r) == IF Chunks = {} THEN 1..Left(s_, r) ELSE {n \in Chunks : n <= Left(s_, r)} \cup {Left(s_, r)}
      more == Len(s_.reqs) < MaxReqs
  IN
  (IF more /\ Len(s_.streams) < MaxStreams /\ ~(s_.down /\ Retrying(s_)) THEN {O(op, 0, a.c + Len(s_.streams), a.n, 0, "") : a \in ArgSet, op \in {"sub2"} \cup (IF s_.client THEN {"sub"} ELSE {})} ELSE {})
  \cup (IF more /\ Len(s_.calls) < MaxCalls THEN {O(op, 0, a.c, a.n, 0, "") : a \in ArgSet, op \in {"call2"} \cup (IF s_.client THEN {"call"} ELSE {})} ELSE {})
  \cup (IF s_.client /\ more THEN
         UNION {{[O("sync", a, 97, m, IF p = "http" THEN c ELSE 0, "") EXCEPT !.p = p] : p \in Plans, c \in HttpCodes} : <<a, m>> \in Args \X Msgs}
         \cup {[O("sync", a, 97, m, c, t) EXCEPT !.p = p] : a \in Args, m \in Msgs, c \in Codes \ {0}, t \in Texts, p \in {"fail", "only"}} ELSE {})
  \cup {[O("https", 0, 0, 0, 0, "") EXCEPT !.p = p] : p \in {"none", "password", "ssl", "passwordssl"}}
  \cup (IF s_.client /\ s_.cred # 2 /\ s_.reqs = <<>> THEN {O("userpass", 0, 0, 0, 0, "")} ELSE {})
  \cup {O("cred", i, 0, 0, 0, "") : i \in {1, 2, 3} \ {s_.cred}}
  \cup (IF s_.client /\ ~s_.down /\ s_.reqs = <<>> THEN {O("refused", 0, 0, 0, 0, "")} ELSE {})
  \cup (IF s_.client /\ ~s_.down /\ R # {} /\ SR = {} THEN {[O("lost", 0, 0, 0, 0, "") EXCEPT !.p = p] : p \in {"close", "fin", "reset"}} ELSE {})
  \cup (IF s_.client /\ SR # {} /\ SR = R /\ ~Retrying(s_) /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)].o.op # "linger") THEN {O("linger", 0, 0, 0, 0, "")} ELSE {})
  \cup {O("put", r, m.c, m.n, 0, "") : r \in {x \in R : Len(s_.reqs[x].q) < MaxPut}, m \in MsgSet}
  \cup UNION {{[O("data", r, 0, n, 0, "") EXCEPT !.runs = NextRuns(s_, r, n)] : n \in chunks(r) \ {0}} : r \in R}
  \cup {O("end", r, 0, 0, c, IF c = 0 THEN "" ELSE t) : r \in {x \in R : err(x)}, c \in Codes, t \in Texts}
  \cup {O("only", r, 0, 0, c, IF c = 0 THEN "" ELSE t) : r \in {x \in R : err(x) /\ s_.reqs[x].sent = 0}, c \in Codes, t \in Texts}
  \cup {O(op, r, 0, 0, c, "") : op \in {"nostatus"}, r \in {x \in R : err(x)}, c \in {0}}
  \cup {O("http", r, 0, 0, c, "") : r \in {x \in R : err(x) /\ s_.reqs[x].sent = 0}, c \in HttpCodes}
  \cup {O("rst", r, 0, 0, c, "") : r \in {x \in R : err(x)}, c \in {2, 8}}
  \cup {O("sabort", i, 0, 0, 0, "") : i \in {x \in 1..Len(s_.streams) : s_.streams[x].alive}}
  \cup {O("cabort", i, 0, 0, 0, "") : i \in {x \in 1..Len(s_.calls) : s_.calls[x].open}}
  \cup {O("onval", i, 0, n, 0, "") : i \in {x \in 1..Len(s_.streams) : s_.streams[x].alive /\ s_.streams[x].onval = 0}, n \in {1, 2}}
  \cup (IF Retrying(s_) /\ more /\ (\A i \in 1..Len(s_.calls) : ~s_.calls[i].open) THEN {O("tick", 0, 0, 0, 0, "")} ELSE {})
  \cup LET K(a) == {a \o "abort"} \cup (IF s_.client THEN {a \o "kill"} ELSE {}) IN
         {[O(op, r, 0, Left(s_, r), 0, "") EXCEPT !.runs = NextRuns(s_, r, Left(s_, r))] : op \in K("data"), r \in {x \in R : Left(s_, x) > 0 /\ s_.reqs[x].cl = 1}}
         \cup {O(op, r, 0, 0, c, "t") : op \in K("end") \cup K("rst"), r \in {x \in R : s_.reqs[x].cl = 1}, c \in {0, 5}}
         \cup {O(op, r, 0, 0, c, "t") : op \in K("only"), r \in {x \in R : s_.reqs[x].sent = 0 /\ s_.reqs[x].cl = 1}, c \in {0, 5}}
  \cup (IF s_.client THEN {O("kill", 0, 0, 0, 0, "")} ELSE {})
En(s_) == {o \in Allowed(s_) : o.op \in Ops}

Init == s = Init0 /\ h = <<>> /\ last = <<>>
Next == \E o \in En(s) : LET t == Step(s, o) IN
          /\ Len(h) < MaxLen
          /\ s' = t.s /\ last' = t.obs
          /\ h' = Append(h, [o |-> o, x |-> Len(t.obs)])
Spec == Init /\ [][Next]_vars
View == <<s, last, IF h = <<>> THEN <<>> ELSE h[Len(h)].o>>    \* one scenario per transition
NoOk == [][(s.down /\ last' # <<>>) => \A j \in 1..Len(last') : last'[j].k \notin {"val", "cfin", "out", "req"}]_vars
Done == Mode = "tour" \/ (Mode = "paths" /\ s.reqs # <<>> /\ \A r \in 1..Len(s.reqs) : ~Open(s, r))
EmitCase == (Emit /\ h # <<>> /\ (Done \/ (Mode = "sim" /\ (Len(h) = MaxLen \/ (Len(h) > 4 /\ En(s) = {}))))) =>
   PrintT("CASE " \o ToJson([s |-> [j \in 1..Len(h) |-> h[j].o], x |-> [j \in 1..Len(h) |-> h[j].x]]))

\* ---------------------------------------------------------------- properties of the model
\* what was delivered so far is exactly the complete frames (P19); the wire size of a frame is 5 + payload (P18)
FramesOk == \A r \in 1..Len(s.reqs) : LET q == s.reqs[r] IN
  /\ q.sent <= Size(Frames(q.q))
  /\ Complete(q.q, q.sent) = Cardinality({j \in 1..Len(q.q) : Size(Frames(SubSeq(q.q, 1, j))) <= q.sent})
  /\ \A j \in 1..Len(q.q) : Size(Frame(Rep(q.q[j]))) = 5 + Size(Rep(q.q[j]))
\* a live stream has a request or waits for its retry; a finished one has neither (P21)
StreamsOk == \A i \in 1..Len(s.streams) : LET st == s.streams[i] IN
  /\ st.alive => (Lives(s, st.cl) /\ ((st.cur # 0) # st.retry))
  /\ ~st.alive => (st.cur = 0 /\ ~st.retry)
  /\ st.cur # 0 => (s.reqs[st.cur].open /\ s.reqs[st.cur].owner = i)
\* the end of one client does not touch the other's (P21)
OthersClient == [][\A i \in 1..Len(s.streams) : (s.streams[i].cl = 2 /\ s.client /\ ~s'.client) => s'.streams[i] = s.streams[i]]_vars
CallsOk == \A i \in 1..Len(s.calls) : s.calls[i].open <=> (s.calls[i].req # 0 /\ s.reqs[s.calls[i].req].open)
\* events only concern live objects; nothing is heard of a dead client (P21); Ok is never reported for a broken exchange (P20)
Alive(e, old) == CASE e.k \in {"val", "serr", "sfin"} -> e.id > Len(old.streams) \/ old.streams[e.id].alive
                   [] e.k \in {"cfin", "cerr"} -> e.id > Len(old.calls) \/ old.calls[e.id].open
                   [] OTHER -> TRUE
Firsts(e, old) == CASE e.k \in {"val", "serr", "sfin"} -> e.id <= Len(old.streams) /\ old.streams[e.id].cl = 1
                    [] e.k \in {"cfin", "cerr"} -> e.id <= Len(old.calls) /\ old.calls[e.id].cl = 1
                    [] e.k = "clerr" -> e.id = 0
                    [] OTHER -> FALSE
Quiet == [][\A j \in 1..Len(last') : Alive(last'[j], s) /\ (~s.client => ~Firsts(last'[j], s))]_vars
OutcomeFinal == [][\A i \in 1..Len(s.calls) : ~s.calls[i].open => ~s'.calls[i].open]_vars
Others == [][\A i \in 1..Len(s.streams) : (s.streams[i].alive /\ ~s'.streams[i].alive) =>
               ((~s'.client /\ s.streams[i].cl = 1) \/ \E j \in 1..Len(last') : last'[j].k = "sfin" /\ last'[j].id = i)]_vars
NeverFalseOk == [][LET o == h'[Len(h')].o IN (Len(h') > Len(h) /\ o.op \in {"rst", "http", "nostatus", "lost"}) =>
               \A j \in 1..Len(last') : last'[j].k \in {"serr", "cerr", "clerr"} => last'[j].code = -1]_vars
====
