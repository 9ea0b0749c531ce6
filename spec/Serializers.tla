---- MODULE Serializers ----
(* The serializer registry: built-in serializers under the plugin name "Default", plugins loaded by file name.
   Files say which plugin a file contains: its name, the serializers it provides, its meta data (version and protobuf
   version times ten, rating, advertised identifiers).  A file that cannot be read has the name "". *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bad == [name |-> "", gives |-> {}, info |-> <<0, 0, 0, "">>]
File(f) == CASE f = "plugA" -> [name |-> "Alpha", gives |-> {"protobuf", "json"}, info |-> <<15, 30, 7, "protobuf,json">>]
             [] f = "plugA2" -> [name |-> "Alpha", gives |-> {"protobuf", "extra"}, info |-> <<25, 35, 9, "protobuf,extra">>]
             [] f = "plugB" -> [name |-> "Beta", gives |-> {"protobuf", "extra"}, info |-> <<5, 20, -3, "protobuf,extra">>]
             [] f = "plugD" -> [name |-> "Default", gives |-> {"protobuf", "json", "extra"}, info |-> <<40, 40, 4, "protobuf,json,extra">>]
             [] f = "plugW" -> [name |-> "Wrong", gives |-> {}, info |-> <<60, 10, 1, "protobuf">>]   \* a library, but not a serializer plugin
             [] OTHER -> Bad
Files == {"plugA", "plugA2", "plugB", "plugD", "plugW", "garbage", "missing"}
Names == {"Default", "Alpha", "Beta", "Wrong", "", "Gamma"}
Ids == {"protobuf", "json", "extra", ""}
\* state: plugin name -> file it came from ("" for the built-in ones); names that are not loaded are not in the domain
Init0 == [n \in {"Default"} |-> "Default"]
Gives(f) == IF f = "Default" THEN {"protobuf", "json"} ELSE File(f).gives
Load(st, f) == LET n == File(f).name IN IF n = "" \/ n \in DOMAIN st THEN st ELSE (n :> f) @@ st
Who(st, id, p) == IF p \in DOMAIN st /\ id \in Gives(st[p]) THEN st[p] \o ":" \o id ELSE "throw"
Info(st, p) == IF p \in DOMAIN st /\ st[p] # "Default" THEN File(st[p]).info ELSE <<0, 0, 0, "">>
Cmd(op, a, b) == [op |-> op, a |-> a, b |-> b]
Cmds == {Cmd("load", f, "") : f \in Files} \cup {Cmd("get", i, "") : i \in Ids} \cup {Cmd("getp", i, n) : i \in Ids, n \in Names} \cup {Cmd("info", n, "") : n \in Names}
Next0(st, c) == IF c.op = "load" THEN Load(st, c.a) ELSE st
====
