---- MODULE QuickStream ----
(* GrpcStream elements of QML.  Clients 1 and 2 have a channel, client 3 has none, 0 = not set.  Methods: "" not set,
   "watch" and "look" stream, "one" does not.  Arguments: 0 not set, 1 and 2 messages with different content, 3 another
   object with the content of 1, 4 a message of another type.  A running stream is known to the channel by its key
   <<client, method, content>>; elements with the same key share the stream, and who ends it ends it for all. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Elems
None == <<>>
Content(a) == CASE a \in {1, 3} -> "1" [] a = 2 -> "2" [] OTHER -> ""
Cmd(op, e, x, s) == [op |-> op, e |-> e, x |-> x, s |-> s, c |-> 0, m |-> "", a |-> ""]
Srv(op, e, x, k) == [op |-> op, e |-> e, x |-> x, s |-> "", c |-> k[1], m |-> k[2], a |-> k[3]]
Elem0 == [alive |-> TRUE, cl |-> 0, m |-> "", a |-> 0, en |-> FALSE, run |-> None, rv |-> 0, val |-> ""]
Init0 == [e |-> [k \in Elems |-> Elem0], dead |-> {}]
NoOut == [req |-> <<>>, end |-> <<>>, errs |-> [k \in Elems |-> <<>>], msgs |-> [k \in Elems |-> <<>>], flips |-> [k \in Elems |-> 0]]
Res(st, out) == TLCEval([st |-> st, out |-> out])
Stopped(r) == [r EXCEPT !.run = None, !.rv = 0, !.val = ""]
Users(st, key) == {k \in Elems : st.e[k].alive /\ st.e[k].run = key}
\* everybody in S loses the stream and is disabled by that
Lose(r, S) == [st |-> [r.st EXCEPT !.e = [k \in Elems |-> IF k \in S THEN [Stopped(r.st.e[k]) EXCEPT !.en = FALSE] ELSE r.st.e[k]]],
               out |-> [r.out EXCEPT !.flips = [k \in Elems |-> @[k] + (IF k \in S THEN 1 ELSE 0)]]]
\* element k gives up its own stream
Leave(r, k) == LET key == r.st.e[k].run
               IN IF key = None THEN [r EXCEPT !.st.e[k] = Stopped(@)]
                  ELSE LET q == Lose(r, Users(r.st, key) \ {k})
                       IN [q EXCEPT !.st.e[k] = Stopped(@), !.out.end = Append(@, key)]
Refuse(r, k, code) == [r EXCEPT !.st.e[k].en = FALSE, !.out.errs[k] = Append(@, code), !.out.flips[k] = @ + 1]
Start(r, k) == LET x == r.st.e[k]  key == <<x.cl, x.m, Content(x.a)>>
               IN IF ~x.en \/ x.cl = 0 \/ x.m = "" \/ x.a = 0 THEN r
                  ELSE IF x.m \notin {"watch", "look"} THEN Refuse(r, k, 12)
                  ELSE IF x.a = 4 THEN Refuse(r, k, 3)
                  ELSE IF x.cl = 3 THEN Refuse(r, k, 2)
                  ELSE [r EXCEPT !.st.e[k].run = key, !.st.e[k].rv = 1, !.out.req = IF Users(r.st, key) = {} THEN Append(@, key) ELSE @]
Update(r, k) == Start(Leave(r, k), k)

Enabled(st, c) ==
    /\ c.e \in Elems => st.e[c.e].alive
    /\ CASE c.op = "cl" -> c.x \notin st.dead /\ st.e[c.e].cl # c.x
         [] c.op = "m" -> st.e[c.e].m # c.s
         [] c.op = "a" -> st.e[c.e].a # c.x
         [] c.op \in {"msg", "end", "serr"} -> st.e[c.e].run = <<c.c, c.m, c.a>>
         [] c.op = "delcl" -> c.x \notin st.dead
         [] OTHER -> TRUE
Step(st, c) ==
    LET r0 == [st |-> st, out |-> NoOut]  k == c.e
        r == CASE c.op = "cl" -> Update([r0 EXCEPT !.st.e[k].cl = c.x], k)
               [] c.op = "m" -> Update([r0 EXCEPT !.st.e[k].m = c.s], k)
               [] c.op = "a" -> Update([r0 EXCEPT !.st.e[k].a = c.x], k)
               [] c.op = "en" -> IF st.e[k].en THEN r0 ELSE Update([r0 EXCEPT !.st.e[k].en = TRUE, !.out.flips[k] = 1], k)
               [] c.op = "dis" -> IF ~st.e[k].en THEN r0 ELSE Update([r0 EXCEPT !.st.e[k].en = FALSE, !.out.flips[k] = 1], k)
               [] c.op = "del" -> LET q == Leave(r0, k) IN [q EXCEPT !.st.e[k] = [Elem0 EXCEPT !.alive = FALSE]]
               [] c.op = "msg" -> [r0 EXCEPT !.st.e = [j \in Elems |-> IF j \in Users(st, st.e[k].run) THEN [st.e[j] EXCEPT !.val = ToString(c.x)] ELSE st.e[j]],
                                             !.out.msgs = [j \in Elems |-> IF j \in Users(st, st.e[k].run) THEN <<ToString(c.x)>> ELSE <<>>]]
               [] c.op = "serr" -> [r0 EXCEPT !.out.errs = [j \in Elems |-> IF j \in Users(st, st.e[k].run) THEN <<c.x>> ELSE <<>>]]
               [] c.op = "end" -> Lose(r0, Users(st, st.e[k].run))
               \* the client is destroyed, its streams with it; what becomes of the return value (2) is left open
               [] c.op = "delcl" -> [r0 EXCEPT !.st.dead = @ \cup {c.x},
                                               !.st.e = [j \in Elems |-> IF st.e[j].cl = c.x THEN [st.e[j] EXCEPT !.cl = 0, !.run = None, !.rv = IF @ = 0 THEN 0 ELSE 2, !.val = ""] ELSE st.e[j]]]
    IN Res(r.st, r.out)
Running(st) == {st.e[k].run : k \in Elems} \ {None}
====
