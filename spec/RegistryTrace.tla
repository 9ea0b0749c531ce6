---- MODULE RegistryTrace ----
(* Judge of recorded histories of the real registry.  A recording holds operations with the time of invocation and
   return; lookups hold the version found (0 none, -1 a handler that is incoherent or belongs to another type).
   mode "one": registrations of a type come from one thread, versions 1, 2, ...: then the history is atomic exactly if
     each lookup returns a version not older than the last one registered before it began, not newer than those
     invoked before it ended, and no lookup that begins after another one ended returns an older version;
   mode "any": several threads register the same type; atomic if some order of the operations explains it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1..Len(Trace)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
One(h) == \A a \in 1..Len(h) : h[a].op = "find" =>
    LET f == h[a]
        done == {h[b].v : b \in {b \in 1..Len(h) : h[b].op = "reg" /\ h[b].t = f.t /\ h[b].ret < f.inv}}
        open == {h[b].v : b \in {b \in 1..Len(h) : h[b].op = "reg" /\ h[b].t = f.t /\ h[b].inv < f.ret}}
        seen == {h[b].v : b \in {b \in 1..Len(h) : h[b].op = "find" /\ h[b].t = f.t /\ h[b].ret < f.inv}}
    IN f.v >= Max(done \cup seen \cup {0}) /\ f.v <= Max(open \cup {0})
\* is there an order: operations of one type, cur = version in the register
RECURSIVE Lin(_, _, _)
Lin(h, rest, cur) == rest = {} \/ \E a \in rest :
    /\ \A b \in rest \ {a} : ~(h[b].ret < h[a].inv)
    /\ h[a].op = "find" => h[a].v = cur
    /\ Lin(h, rest \ {a}, IF h[a].op = "reg" THEN h[a].v ELSE cur)
AnyOrder(h) == \A t \in {h[a].t : a \in 1..Len(h)} : Lin(h, {a \in 1..Len(h) : h[a].t = t}, 0)
Judge == LET r == Trace[k]
         IN IF r.r # "ok" THEN PrintT("REJECT " \o ToString(k) \o " " \o r.r)
            ELSE IF \E a \in 1..Len(r.h) : r.h[a].v = -1 THEN PrintT("REJECT " \o ToString(k) \o " a lookup returned an incoherent or foreign handler")
            ELSE (IF r.mode = "one" THEN One(r.h) ELSE AnyOrder(r.h)) \/ PrintT("REJECT " \o ToString(k) \o " no atomic map behaves like this")
====
