------------------------------ MODULE QmlList ------------------------------
(***************************************************************************)
(* The repeated message field of messages that C++ and QML use together.   *)
(* A message holds a list of elements; elements are shared (a copy of the  *)
(* message holds the same elements), C++ may hold single elements.  The    *)
(* QML list property, the JavaScript array and the C++ list are views of   *)
(* this one list.  An element lives as long as a list or C++ holds it.     *)
(* Not described: appending an element that a list already holds (see      *)
(* known-findings.txt).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, MaxObj
VARIABLES msgs,   \* slot -> [ex, l]
          n,      \* elements created so far (their identities)
          val,    \* their values
          hold    \* elements C++ holds
vars == <<msgs, n, val, hold>>
None == [ex |-> FALSE, l |-> <<>>]
ListInit == msgs = [k \in Slots |-> None] /\ n = 0 /\ val = <<>> /\ hold = {}
Fresh(m) == [j \in 1..m |-> n + j]
\* values of new elements: equal ones in a row, defaults
First(id) == IF id % 3 = 0 THEN 0 ELSE 1000 + (id + 1) \div 2
Grow(m) == n' = n + m /\ val' = val \o [j \in 1..m |-> First(n + j)]
Free(k) == ~msgs[k].ex
Ex(k) == msgs[k].ex
At(k, j) == Ex(k) /\ j \in DOMAIN msgs[k].l
Put(k, l) == msgs' = [msgs EXCEPT ![k] = [ex |-> TRUE, l |-> l]]
New(k) == Free(k) /\ Put(k, <<>>) /\ UNCHANGED <<n, val, hold>>
Declare(k, m) == Free(k) /\ Put(k, Fresh(m)) /\ Grow(m) /\ UNCHANGED hold            \* Msg { rit: [Item {}, ..] }
Append1(k) == Ex(k) /\ Put(k, Append(msgs[k].l, n + 1)) /\ Grow(1) /\ UNCHANGED hold   \* through QML or C++
Clear(k) == Ex(k) /\ Put(k, <<>>) /\ UNCHANGED <<n, val, hold>>
Assign(k, m) == Ex(k) /\ Put(k, Fresh(m)) /\ Grow(m) /\ UNCHANGED hold                \* msg.rit = [..] in JavaScript, received bytes
SetTo(k, j) == Ex(k) /\ Ex(j) /\ Put(k, msgs[j].l) /\ UNCHANGED <<n, val, hold>>       \* C++ setter or assignment
Remove(k, j) == At(k, j) /\ Put(k, SubSeq(msgs[k].l, 1, j-1) \o SubSeq(msgs[k].l, j+1, Len(msgs[k].l))) /\ UNCHANGED <<n, val, hold>>
Copy(k, j) == Free(k) /\ Ex(j) /\ Put(k, msgs[j].l) /\ UNCHANGED <<n, val, hold>>
Delete(k) == Ex(k) /\ msgs' = [msgs EXCEPT ![k] = None] /\ UNCHANGED <<n, val, hold>>
Hold(k, j) == At(k, j) /\ hold' = hold \cup {msgs[k].l[j]} /\ UNCHANGED <<msgs, n, val>>
Release == hold # {} /\ hold' = {} /\ UNCHANGED <<msgs, n, val>>
Write(k, j, v) == At(k, j) /\ val' = [val EXCEPT ![msgs[k].l[j]] = v] /\ UNCHANGED <<msgs, n, hold>>
Quiet == UNCHANGED vars     \* collecting garbage, looking

Held(l) == {l[j] : j \in DOMAIN l}
Alive == hold \cup UNION {Held(msgs[k].l) : k \in Slots}
\* properties of the specification
NoDuplicates == \A k \in Slots : \A a, b \in DOMAIN msgs[k].l : a # b => msgs[k].l[a] # msgs[k].l[b]
Known == Alive \subseteq 1..n

\* the transition that a step of a scenario names
Do(s) == CASE s.op = "new" -> New(s.k)
           [] s.op = "decl" -> Declare(s.k, s.j)
           [] s.op \in {"app", "appp", "appc", "capp"} -> Append1(s.k)
           [] s.op = "parse" -> Assign(s.k, 1)
           [] s.op \in {"clear", "cclear"} -> Clear(s.k)
           [] s.op \in {"asg", "asgp"} -> Assign(s.k, s.j)
           [] s.op \in {"cset", "casg"} -> SetTo(s.k, s.j)
           [] s.op = "crem" -> Remove(s.k, s.j)
           [] s.op = "copy" -> Copy(s.k, s.j)
           [] s.op = "del" -> Delete(s.k)
           [] s.op = "hold" -> Hold(s.k, s.j)
           [] s.op = "rel" -> Release
           [] s.op \in {"setv", "csetv"} -> Write(s.k, s.j, s.v)
           [] OTHER -> Quiet
=============================================================================
