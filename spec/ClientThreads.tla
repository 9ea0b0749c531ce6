---- MODULE ClientThreads ----
(* A client and its channel live in one thread; callers in other threads issue operations.  An operation of another
   thread is posted to the client's thread and the caller waits until it has been carried out there.  Kinds:
     sync, serr      blocking calls that succeed / fail            async, aerr, aabort   asynchronous calls: success, failure, abort
     stream, sret    streams of three messages (sret: with a return object)   sabort   a stream that its caller aborts after three messages
     join            all callers of this kind subscribe to the same stream
   The machine explores the interleavings of small programs; Entries, Events and Abort state what a recording has to
   show for an operation, for the judge as well. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Calls == {"sync", "serr", "async", "aerr", "aabort"}
Streams == {"stream", "sret", "sabort", "join"}
Kinds == Calls \cup Streams
Entry(k) == CASE k \in {"sync", "serr"} -> 1 [] k \in {"async", "aerr", "aabort"} -> 2 [] OTHER -> 3
\* what the caller sees of its operation number i
Events(k, i) == LET s == ToString(i) IN
    CASE k = "sync" -> <<"ret 0 R" \o s>>
      [] k = "serr" -> <<"ret 5 E" \o s>>
      [] k = "async" -> <<"fin R" \o s>>
      [] k = "aerr" -> <<"err 5 E" \o s>>
      [] k = "aabort" -> <<"err 10 ">>
      [] k \in {"stream", "sabort"} -> <<"fin 3 R" \o s \o ".3">>
      [] k = "sret" -> <<"fin 3 R" \o s \o ".3", "val R" \o s \o ".3">>
      [] k = "join" -> <<"fin 3 R0.3">>
Abort(k) == IF k \in {"aabort", "sabort"} THEN 1 ELSE -1   \* the abort has taken effect when abort() returns
Failing(k) == k \in {"serr", "aerr", "aabort"}             \* the client repeats the failure in its own signal

CONSTANTS Callers, MaxOps, Use    \* callers, operations per caller, kinds used
VARIABLES prog,   \* caller -> sequence of kinds issued so far
          pc,     \* caller -> "idle", "posted", "running", "abort", "waiting"
          box,    \* requests posted to the client's thread, in order
          log,    \* requests that reached the channel, in order: [c, n]; join as [c |-> 0, n |-> 0]
          live,   \* operations that the channel works on
          out,    \* [c, n] -> outcomes delivered to the caller
          join    \* callers that subscribed to the shared stream
vars == <<prog, pc, box, log, live, out, join>>
Init == /\ prog = [c \in Callers |-> <<>>] /\ pc = [c \in Callers |-> "idle"] /\ box = <<>> /\ log = <<>> /\ live = {} /\ out = <<>> /\ join = {}
Op(c) == [c |-> c, n |-> Len(prog[c])]
Kind(o) == IF o.c = 0 THEN "join" ELSE prog[o.c][o.n]
Issue(c) == /\ pc[c] = "idle" /\ Len(prog[c]) < MaxOps
            /\ \E k \in Use : (k = "join" => \A n \in 1..Len(prog[c]) : prog[c][n] # "join") /\ prog' = [prog EXCEPT ![c] = Append(@, k)]
            /\ pc' = [pc EXCEPT ![c] = "posted"] /\ box' = Append(box, [c |-> c, what |-> "op"]) /\ UNCHANGED <<log, live, out, join>>
Shared == [c |-> 0, n |-> 0]
\* the client's thread handles what was posted first
Handle == /\ box # <<>> /\ box' = Tail(box) /\ UNCHANGED <<prog>>
          /\ LET c == Head(box).c  o == Op(c)  k == prog[c][Len(prog[c])]
             IN IF Head(box).what = "abort"
                THEN /\ live' = live \ {o} /\ out' = IF o \in live THEN Append(out, [o |-> o, r |-> "abort"]) ELSE out
                     /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<log, join>>
                ELSE /\ IF k = "join" /\ Shared \in live THEN log' = log ELSE log' = Append(log, IF k = "join" THEN Shared ELSE o)
                     /\ live' = IF Entry(k) = 1 THEN live ELSE live \cup {IF k = "join" THEN Shared ELSE o}
                     /\ out' = IF Entry(k) = 1 THEN Append(out, [o |-> o, r |-> k]) ELSE out
                     /\ join' = IF k = "join" THEN join \cup {o} ELSE join
                     /\ pc' = [pc EXCEPT ![c] = IF Entry(k) = 1 THEN "idle" ELSE "waiting"]
\* the caller decides to abort
Aborts(c) == /\ pc[c] = "waiting" /\ prog[c][Len(prog[c])] \in {"aabort", "sabort"}
             /\ pc' = [pc EXCEPT ![c] = "abort"] /\ box' = Append(box, [c |-> c, what |-> "abort"]) /\ UNCHANGED <<prog, log, live, out, join>>
\* the channel ends an operation, in the client's thread; the shared stream only when everybody is on it
Ends == \E o \in live :
          /\ Kind(o) \notin {"aabort", "sabort"}
          /\ Kind(o) = "join" => \A c \in Callers : prog[c] # <<>> /\ prog[c][Len(prog[c])] = "join" /\ pc[c] = "waiting"
          /\ live' = live \ {o} /\ UNCHANGED <<prog, box, log, join>>
          /\ LET who == IF o = Shared THEN join ELSE {o}
             IN /\ out' = out \o [j \in 1..Cardinality(who) |-> [o |-> CHOOSE x \in who : Cardinality({y \in who : y.c < x.c}) = j - 1, r |-> "end"]]
                /\ pc' = [c \in Callers |-> IF \E x \in who : x.c = c THEN "idle" ELSE pc[c]]
Next == (\E c \in Callers : Issue(c) \/ Aborts(c)) \/ Handle \/ Ends
Spec == Init /\ [][Next]_vars /\ WF_vars(Handle) /\ WF_vars(Ends) /\ \A c \in Callers : WF_vars(Aborts(c))

Count(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
OnceInChannel == \A c \in Callers : \A n \in 1..Len(prog[c]) :
    LET o == [c |-> c, n |-> n] IN Count(log, o) = IF prog[c][n] = "join" \/ (n = Len(prog[c]) /\ pc[c] = "posted") THEN 0 ELSE 1
SharedOnce == Count(log, Shared) <= 1
OutcomeOnce == \A c \in Callers : \A n \in 1..Len(prog[c]) :
    LET x == {j \in DOMAIN out : out[j].o = [c |-> c, n |-> n]}
    IN Cardinality(x) = IF n = Len(prog[c]) /\ pc[c] # "idle" THEN 0 ELSE 1
EveryOperationEnds == \A c \in Callers : (pc[c] # "idle" /\ prog[c][Len(prog[c])] # "join") ~> (pc[c] = "idle")
====
