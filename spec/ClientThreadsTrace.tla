---- MODULE ClientThreadsTrace ----
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CT == INSTANCE ClientThreads WITH Callers <- {}, MaxOps <- 0, Use <- {}, prog <- 0, pc <- 0, box <- 0, log <- 0, live <- 0, out <- 0, join <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
Init == k \in 1..Len(Trace)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Reject(w) == PrintT("REJECT " \o ToString(k) \o " " \o w)
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Judge == LET r == Trace[k]  D == DOMAIN r.ops  L == DOMAIN r.log
             wrong == {j \in D : r.ops[j].ev # CT!Events(r.ops[j].k, r.ops[j].id) \/ r.ops[j].at # CT!Abort(r.ops[j].k)}
             once == {j \in D : r.ops[j].k # "join" /\ Cardinality({x \in L : r.log[x] = [what |-> CT!Entry(r.ops[j].k), m |-> r.ops[j].m, id |-> r.ops[j].id, home |-> 1]}) # 1}
             joins == {r.ops[j].m : j \in {j \in D : r.ops[j].k = "join"}}
             entries == Cardinality({j \in D : r.ops[j].k # "join"}) + Cardinality(joins)
         IN IF r.r # "ok" THEN Reject(r.r)
            ELSE IF \E x \in L : r.log[x].home # 1 THEN Reject("the channel is used in a thread that is not its own: " \o ToJson(r.log[First({x \in L : r.log[x].home # 1})]))
            ELSE IF wrong # {} THEN Reject("outcome " \o ToJson(r.ops[First(wrong)]) \o " instead of " \o ToString(CT!Events(r.ops[First(wrong)].k, r.ops[First(wrong)].id)))
            ELSE IF once # {} THEN Reject("request does not reach the channel exactly once: " \o ToJson(r.ops[First(once)]))
            ELSE IF Len(r.log) # entries THEN Reject("the channel gets " \o ToString(Len(r.log)) \o " requests instead of " \o ToString(entries))
            ELSE IF r.clerr # Cardinality({j \in D : CT!Failing(r.ops[j].k)}) \/ r.away # 0 THEN Reject("the client's error signal was emitted " \o ToString(r.clerr) \o " times, " \o ToString(r.away) \o " of them in another thread")
            ELSE TRUE
====
