---- MODULE QmlCall ----
(* Unary calls made from QML: client.method(argument, callback, errorCallback) and client.method(argument, result,
   errorCallback).  Clients 1 and 2 have a channel, client 3 has none.  Arguments are objects 1 and 2 (0 = null) with a
   content that may change, results are objects 1 and 2.  A call is known by the number the program gave it; a callback
   that makes another call does so under its own number + 100. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Args == {1, 2}
Rets == {1, 2}
Forms == {"cb", "nest", "throw", "noerr", "ret", "bad"}   \* what is passed: see Callbacks
Gone == "gone"
Cmd(op, id, c, m, a, r, f, x) == [op |-> op, id |-> id, c |-> c, m |-> m, a |-> a, r |-> r, f |-> f, x |-> x]
Init0 == [arg |-> [k \in Args |-> ToString(k)], ret |-> [k \in Rets |-> ""], dead |-> {}, open |-> {}, next |-> 1]
NoOut == [req |-> <<>>, cbs |-> <<>>, cerr |-> <<>>]
Res(st, out) == TLCEval([st |-> st, out |-> out])
Call(id, c, m, a, r, f) == [id |-> id, c |-> c, m |-> m, a |-> a, r |-> r, f |-> f]
\* a call leaves the program exactly if argument and callback are usable and there is a channel
Issue(r, x) == IF x.a = 0 \/ x.f = "bad" THEN r
               ELSE IF x.c = 3 THEN [r EXCEPT !.out.cerr = Append(@, <<3, 2>>)]
               ELSE [r EXCEPT !.st.open = @ \cup {x}, !.out.req = Append(@, <<x.c, x.m, r.st.arg[x.a]>>)]
Of(st, id) == CHOOSE x \in st.open : x.id = id
Close(r, x) == [r EXCEPT !.st.open = @ \ {x}]
\* the answer v arrived; v = "" with bad = TRUE: it cannot be decoded
Answer(r0, x, v, bad) ==
    LET r == Close(r0, x)
        e == IF bad THEN [r EXCEPT !.out.cerr = Append(@, <<x.c, 3>>)] ELSE r
    IN IF x.f = "ret" THEN (IF r.st.ret[x.r] = Gone THEN r ELSE [e EXCEPT !.st.ret[x.r] = v])
       ELSE LET q == [e EXCEPT !.out.cbs = Append(@, <<x.id, "ok", v>>)]
            IN IF x.f = "nest" THEN Issue(q, Call(x.id + 100, x.c, "two", x.a, 0, "cb")) ELSE q
Fail(r0, x, code) == LET r == [Close(r0, x) EXCEPT !.out.cerr = Append(@, <<x.c, code>>)]
                     IN IF x.f = "noerr" THEN r ELSE [r EXCEPT !.out.cbs = Append(@, <<x.id, "err", ToString(code) \o " m" \o ToString(code)>>)]
Enabled(st, c) == CASE c.op = "call" -> c.c \notin st.dead /\ c.id = st.next /\ (c.f = "ret" => st.ret[c.r] # Gone)
                    [] c.op \in {"ok", "err", "garb"} -> \E x \in st.open : x.id = c.id
                    [] c.op = "delr" -> st.ret[c.r] # Gone
                    [] c.op = "delcl" -> c.c \notin st.dead
                    [] OTHER -> TRUE
Step(st, c) ==
    LET r0 == [st |-> st, out |-> NoOut]
        r == CASE c.op = "call" -> Issue([r0 EXCEPT !.st.next = @ + 1], Call(c.id, c.c, c.m, c.a, c.r, c.f))
               [] c.op = "ok" -> Answer(r0, Of(st, c.id), ToString(c.x), FALSE)
               [] c.op = "garb" -> Answer(r0, Of(st, c.id), "", TRUE)
               [] c.op = "err" -> Fail(r0, Of(st, c.id), c.x)
               [] c.op = "seta" -> [r0 EXCEPT !.st.arg[c.a] = ToString(c.x)]
               [] c.op = "delr" -> [r0 EXCEPT !.st.ret[c.r] = Gone]
               \* its calls end with the client, silently
               [] c.op = "delcl" -> [r0 EXCEPT !.st.dead = @ \cup {c.c}, !.st.open = {x \in @ : x.c # c.c}]
               [] c.op = "gc" -> r0
    IN Res(r.st, r.out)
====
