---- MODULE Registry ----
(* The handler registry.  What it promises is an atomic map from type to handler; what it is made of is a mutex and a
   semaphore with Cap slots used as a readers/writer lock.  The machine below has threads that run programs of
   registrations and lookups, step by step through the locking protocol; the properties say that the protocol excludes
   readers from writers, never gets stuck, and that every lookup returns what an atomic map could return.
   Versions of a handler are written 1, 2, ... ; 0 = none registered.  A write in progress leaves Torn in the cell. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Types, Cap, MaxOps, Writers, MaxVer
Torn == 99
VARIABLES mutex,   \* 0 = free, else the thread that holds it
          sem,     \* free slots
          cell,    \* type -> version or Torn
          pc, op,  \* per thread
          left,    \* per thread: operations it may still start
          low,     \* per thread: versions completely registered when its operation was invoked
          begun,   \* type -> versions whose registration was invoked
          fin,     \* type -> versions whose registration returned
          got      \* per thread: result of the lookup
vars == <<mutex, sem, cell, pc, op, left, low, begun, fin, got>>
NoOp == [reg |-> FALSE, t |-> CHOOSE t \in Types : TRUE, v |-> 0]
Init == /\ mutex = 0 /\ sem = Cap /\ cell = [t \in Types |-> 0] /\ pc = [p \in Threads |-> "idle"] /\ op = [p \in Threads |-> NoOp]
        /\ left = [p \in Threads |-> MaxOps] /\ low = [p \in Threads |-> 0] /\ begun = [t \in Types |-> 0] /\ fin = [t \in Types |-> 0] /\ got = [p \in Threads |-> 0]
Go(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]
\* registrations of one type come from one thread at a time (versions are the order of invocation)
Invoke(p) == /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ \E t \in Types, w \in {FALSE, TRUE} :
                  /\ w => p \in Writers /\ begun[t] < MaxVer /\ begun[t] = fin[t]
                  /\ op' = [op EXCEPT ![p] = [reg |-> w, t |-> t, v |-> IF w THEN begun[t] + 1 ELSE 0]]
                  /\ begun' = IF w THEN [begun EXCEPT ![t] = @ + 1] ELSE begun
                  /\ low' = [low EXCEPT ![p] = fin[t]]
                  /\ Go(p, "idle", IF w THEN "w0" ELSE "r0")
             /\ UNCHANGED <<mutex, sem, cell, fin, got>>
Lock(p, a, b) == mutex = 0 /\ mutex' = p /\ Go(p, a, b) /\ UNCHANGED <<sem, cell, op, left, low, begun, fin, got>>
Unlock(p, a, b) == mutex = p /\ mutex' = 0 /\ Go(p, a, b) /\ UNCHANGED <<sem, cell, op, left, low, begun, fin, got>>
Acquire(p, n, a, b) == sem >= n /\ sem' = sem - n /\ Go(p, a, b) /\ UNCHANGED <<mutex, cell, op, left, low, begun, fin, got>>
Release(p, n, a, b) == sem' = sem + n /\ Go(p, a, b) /\ UNCHANGED <<mutex, cell, op, left, low, begun, fin, got>>
Read(p) == Go(p, "r3", "r4") /\ got' = [got EXCEPT ![p] = cell[op[p].t]] /\ UNCHANGED <<mutex, sem, cell, op, left, low, begun, fin>>
Write1(p) == Go(p, "w2", "w3") /\ cell' = [cell EXCEPT ![op[p].t] = Torn] /\ UNCHANGED <<mutex, sem, op, left, low, begun, fin, got>>
Write2(p) == Go(p, "w3", "w4") /\ cell' = [cell EXCEPT ![op[p].t] = op[p].v] /\ UNCHANGED <<mutex, sem, op, left, low, begun, fin, got>>
Return(p) == /\ Go(p, "end", "idle") /\ fin' = IF op[p].reg THEN [fin EXCEPT ![op[p].t] = op[p].v] ELSE fin
             /\ UNCHANGED <<mutex, sem, cell, op, left, low, begun, got>>
Reader(p) == Lock(p, "r0", "r1") \/ Acquire(p, 1, "r1", "r2") \/ Unlock(p, "r2", "r3") \/ Read(p) \/ Release(p, 1, "r4", "end")
Writer(p) == Lock(p, "w0", "w1") \/ Acquire(p, Cap, "w1", "w2") \/ Write1(p) \/ Write2(p) \/ Release(p, Cap, "w4", "w5") \/ Unlock(p, "w5", "end")
Step(p) == Reader(p) \/ Writer(p) \/ Return(p)
Idle == \A p \in Threads : pc[p] = "idle"
Next == (\E p \in Threads : Invoke(p) \/ Step(p)) \/ (Idle /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Threads : SF_vars(Step(p))

Exclusion == \A p, q \in Threads : pc[p] \in {"w2", "w3"} => p = q \/ pc[q] \notin {"r2", "r3", "w2", "w3"}
\* an atomic map: at the end of a lookup the result is a version that was current at some moment of it
Atomic == \A p \in Threads : pc[p] = "end" /\ ~op[p].reg => got[p] >= low[p] /\ got[p] <= begun[op[p].t]
SlotsOK == sem \in 0..Cap
EveryOperationCompletes == \A p \in Threads : (pc[p] # "idle") ~> (pc[p] = "idle")
====
