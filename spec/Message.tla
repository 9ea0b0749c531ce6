---- MODULE Message ----
(* Generated message classes as values.  The machine holds a few message objects ("slots"); fields are taken from
   Fields and hold one of three values 0 (default), 1, 2 - the harness instantiates fields and values with every
   declared field of a test message.  9 stands for a value that is not specified.
   Step(st, c) gives the next state, the change signals it has to emit (must: slot, field, value readable inside
   the handler), and those it may emit (may: slot, field). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Fields,  \* names of fields; "m.." message, "c.." container, others scalar
          SubFields, ContFields
Free == 9
Vals == 0..2
Cmd(op, k, j, f, v) == [op |-> op, k |-> k, j |-> j, f |-> f, v |-> v]
Dead == [f \in Fields |-> 0]
Init0 == [alive |-> [k \in Slots |-> FALSE], v |-> [k \in Slots |-> Dead],
          ext |-> [k \in Slots |-> FALSE],      \* the sub-message was handed over as a pointer, which somebody else may delete
          tie |-> [k \in Slots |-> FALSE]]      \* the sub-message object is shared with another message
Res(st, must, may, eq) == TLCEval([st |-> st, must |-> must, may |-> may, eq |-> eq])
Quiet(st) == Res(st, {}, {}, 2)
All(k) == {<<k, f>> : f \in Fields}

\* whole-message write of value w into slot k; value w may have unspecified parts
Whole(st, k, w) ==
    LET old == st.v[k]
        free == {f \in Fields : old[f] = Free \/ w[f] = Free \/ (f \in SubFields /\ st.tie[k])}
        ch == {f \in Fields \ free : old[f] # w[f]}
        new == [f \in Fields |-> IF f \in SubFields /\ st.tie[k] THEN Free ELSE w[f]]
    IN [st |-> [st EXCEPT !.v[k] = new], must |-> {[s |-> k, f |-> f, v |-> w[f]] : f \in ch}, may |-> {<<k, f>> : f \in free}]
\* a sub-message that is shared changes with its twin
Loosen(st) == [st EXCEPT !.v = [k \in Slots |-> [f \in Fields |-> IF st.tie[k] /\ f \in SubFields THEN Free ELSE st.v[k][f]]]]
Moved(st, j) == [st EXCEPT !.v[j] = [f \in Fields |-> Free], !.alive[j] = TRUE]
Make(st, k, w) == [st EXCEPT !.alive[k] = TRUE, !.v[k] = w, !.ext[k] = FALSE, !.tie[k] = FALSE]

Enabled(st, c) ==
    CASE c.op \in {"new", "newv"} -> ~st.alive[c.k]
      [] c.op \in {"copy", "var", "move"} -> c.k # c.j /\ ~st.alive[c.k] /\ st.alive[c.j]
      [] c.op \in {"assign", "massign", "eq"} -> st.alive[c.k] /\ st.alive[c.j]
      [] c.op = "set" -> st.alive[c.k]
      [] c.op = "setp" -> st.alive[c.k] /\ c.f \notin SubFields
      [] c.op = "push" -> st.alive[c.k] /\ c.f \in ContFields /\ st.v[c.k][c.f] \in {0, 1}
      [] c.op \in {"ptr", "in"} -> st.alive[c.k] /\ c.f \in SubFields
      [] c.op = "ptrsame" -> st.alive[c.k] /\ c.f \in SubFields
      [] c.op = "ext" -> st.alive[c.k] /\ st.ext[c.k]
      [] c.op = "share" -> c.k # c.j /\ st.alive[c.k] /\ st.alive[c.j] /\ c.f \in SubFields
      [] c.op = "del" -> st.alive[c.k]
      [] c.op = "cell" -> TRUE
      [] OTHER -> FALSE

Step(st, c) ==
    CASE c.op = "new" -> Quiet(Make(st, c.k, Dead))
      [] c.op = "newv" -> Quiet(Make(st, c.k, [f \in Fields |-> c.v]))
      [] c.op \in {"copy", "var"} -> Quiet(Make(st, c.k, st.v[c.j]))
      [] c.op = "move" -> Res(Loosen(Moved(Make(st, c.k, st.v[c.j]), c.j)), {}, All(c.j), 2)
      [] c.op = "assign" -> LET w == Whole(st, c.k, st.v[c.j]) IN Res(Loosen(w.st), w.must, w.may, 2)
      [] c.op = "massign" -> IF c.k = c.j THEN Res(st, {}, All(c.k), 2)
                             ELSE LET w == Whole(st, c.k, st.v[c.j]) IN Res(Loosen(Moved(w.st, c.j)), w.must, w.may \cup All(c.j), 2)
      [] c.op = "eq" -> LET a == st.v[c.k]  b == st.v[c.j]
                            open == {f \in Fields : a[f] = Free \/ b[f] = Free}
                        IN Res(st, {}, {}, IF \E f \in Fields \ open : a[f] # b[f] THEN 0
                                           ELSE IF c.k # c.j /\ open # {} THEN 2 ELSE 1)
      [] c.op \in {"set", "setp"} ->
            LET free == st.v[c.k][c.f] = Free
                st1 == Loosen([st EXCEPT !.v[c.k][c.f] = c.v])
            IN Res(st1, IF ~free /\ st.v[c.k][c.f] # c.v THEN {[s |-> c.k, f |-> c.f, v |-> c.v]} ELSE {}, IF free THEN {<<c.k, c.f>>} ELSE {}, 2)
      [] c.op = "push" -> Res([st EXCEPT !.v[c.k][c.f] = @ + 1], {}, {<<c.k, c.f>>}, 2)
      \* the message takes over the object, its value is the pointer
      [] c.op = "ptr" -> Res([st EXCEPT !.v[c.k][c.f] = c.v, !.ext[c.k] = TRUE, !.tie[c.k] = FALSE], {[s |-> c.k, f |-> c.f, v |-> c.v]}, {}, 2)
      [] c.op = "ptrsame" -> Quiet(st)
      [] c.op = "in" -> Res(Loosen([st EXCEPT !.v[c.k][c.f] = c.v]), {}, {<<c.k, c.f>>}, 2)
      [] c.op = "ext" -> LET st1 == [st EXCEPT !.ext[c.k] = FALSE, !.v[c.k] = [f \in Fields |-> IF f \in SubFields THEN 0 ELSE st.v[c.k][f]]]
                         IN Res(Loosen(st1), {}, {<<c.k, f>> : f \in SubFields}, 2)
      [] c.op = "share" -> LET st1 == [st EXCEPT !.tie[c.k] = TRUE, !.tie[c.j] = TRUE, !.ext[c.k] = FALSE, !.ext[c.j] = FALSE]
                           IN Res(Loosen(st1), {}, {<<c.k, c.f>>}, 2)
      [] c.op = "del" -> Quiet([st EXCEPT !.alive[c.k] = FALSE, !.v[c.k] = Dead, !.ext[c.k] = FALSE, !.tie[c.k] = FALSE])
      [] c.op = "cell" -> Quiet(st)
====
