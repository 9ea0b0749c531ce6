---- MODULE MessageGen ----
EXTENDS Message, TLC, Json
CONSTANTS Ops, MaxLen, Tour, Emit
VARIABLES st, hist, last
vars == <<st, hist, last>>
Cmds(s) ==
    {c \in   {Cmd(o, k, 0, "", 0) : o \in {"new", "del", "ext"}, k \in Slots}
        \cup {Cmd("newv", k, 0, "", v) : k \in Slots, v \in {1, 2}}
        \cup {Cmd(o, k, j, "", 0) : o \in {"copy", "var", "move", "assign", "massign", "eq"}, k \in Slots, j \in Slots}
        \cup {Cmd(o, k, 0, f, v) : o \in {"set", "setp", "ptr", "in"}, k \in Slots, f \in Fields, v \in Vals}
        \cup {Cmd(o, k, 0, f, 0) : o \in {"push", "ptrsame"}, k \in Slots, f \in Fields}
        \cup {Cmd("share", k, j, f, 0) : k \in Slots, j \in Slots, f \in SubFields}
        \cup {Cmd("cell", 0, 0, "", v) : v \in {1, 2}}
     : c.op \in Ops /\ Enabled(s, c)}
Init == st = Init0 /\ hist = <<>> /\ last = Quiet(Init0)
Next == /\ Len(hist) < MaxLen
        /\ \E c \in Cmds(st) : LET q == Step(st, c) IN st' = q.st /\ last' = q /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars
View == st
Now == hist[Len(hist)]
\* copies are equal to their source, and no other object is affected by anything done to one object
CopyEqual == hist # <<>> /\ Now.op \in {"copy", "assign", "var"} =>
                 \A f \in Fields : st.v[Now.k][f] = st.v[Now.j][f] \/ st.v[Now.k][f] = Free \/ st.v[Now.j][f] = Free
Isolated == [][\A k \in Slots : LET c == hist'[Len(hist')] IN
                   k \notin {c.k, c.j} /\ ~st.tie[k] => st'.v[k] = st.v[k] /\ st'.alive[k] = st.alive[k]]_vars
SignalsMatch == [][\A e \in last'.must : e.v = st'.v[e.s][e.f] \/ st'.v[e.s][e.f] = Free]_vars
NoSpurious == [][\A k \in Slots, f \in Fields :
                   LET c == hist'[Len(hist')] IN
                   (st.alive[k] /\ st'.alive[k] /\ st.v[k][f] # Free /\ st'.v[k][f] # Free /\ <<k, f>> \notin last'.may /\ c.op # "ptr")
                      => (st.v[k][f] # st'.v[k][f]) = (\E e \in last'.must : e.s = k /\ e.f = f)]_vars
EmitCase == Emit =>
    IF Tour THEN Len(hist) < MaxLen => \A c \in Cmds(st) : PrintT("CASE " \o ToJson([s |-> Append(hist, c)]))
    ELSE Len(hist) = MaxLen => PrintT("CASE " \o ToJson([s |-> hist]))
====
