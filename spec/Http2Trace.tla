---- MODULE Http2Trace ----
(* Judges recordings of harness/h2cli.cpp against Http2. *)
EXTENDS Http2, Json, IOUtils
CONSTANTS Kinds       \* kinds of events compared
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
Sel(e, ks) == SelectSeq(e, LAMBDA x : x.k \in ks \cap Kinds)
User == {"val", "serr", "sfin", "cfin", "cerr", "status", "out", "refused", "accepted"}
Srv == {"req", "cancel"}
Same(w, g) == /\ w.k = g.k /\ w.id = g.id
              /\ IF w.code = -1 THEN g.code # 0 ELSE w.code = g.code
              /\ w.txt = "*" \/ w.txt = g.txt
              /\ w.runs = g.runs
SameSeq(w, g) == Len(w) = Len(g) /\ \A j \in 1..Len(w) : Same(w[j], g[j])
\* the server's view has no order of its own
SameBag(w, g) == Len(w) = Len(g) /\ \A j \in 1..Len(w) : \E l \in 1..Len(g) : Same(w[j], g[l])
HeadersOk(g, creds, all) == g.k # "req" \/ ( LET H == {<<g.hdr[j][1], g.hdr[j][2]>> : j \in 1..Len(g.hdr)} IN
   /\ <<":method", "POST">> \in H /\ <<"te", "trailers">> \in H
   /\ \E v \in {"application/grpc", "application/grpc+proto"} : <<"content-type", v>> \in H
   /\ \A j \in 1..Len(creds) : <<creds[j][1], creds[j][2]>> \in H
   /\ \A j \in 1..Len(creds) : Cardinality({l \in 1..Len(g.hdr) : g.hdr[l][1] = creds[j][1]}) = 1
   /\ \A p \in H : (\E x \in 1..Len(all) : \E j \in 1..Len(all[x]) : all[x][j][1] = p[1]) => \E j \in 1..Len(creds) : creds[j][1] = p[1] /\ creds[j][2] = p[2]
   /\ \A p \in H : p[1] = "grpc-encoding" => p[2] = "identity" )
RECURSIVE Walk(_, _, _)
Walk(t, j, s) ==
  IF j > Len(t.s) THEN "" ELSE
  LET n == Step(s, t.s[j])
      g == t.ev[j]
      why == IF ~SameSeq(Sel(n.obs, User), Sel(g, User)) THEN "step " \o ToString(j) \o ": the user has to see " \o ToString(Sel(n.obs, User)) \o " and sees " \o ToString(Sel(g, User))
             ELSE IF ~SameSeq(Sel(n.obs, {"clerr"}), Sel(g, {"clerr"})) THEN "step " \o ToString(j) \o ": the client has to report " \o ToString(Sel(n.obs, {"clerr"})) \o " and reports " \o ToString(Sel(g, {"clerr"}))
             ELSE IF ~SameBag(Sel(n.obs, Srv), Sel(g, Srv)) THEN "step " \o ToString(j) \o ": the server has to see " \o ToString(Sel(n.obs, Srv)) \o " and sees " \o ToString(Sel(g, Srv))
             ELSE IF "req" \in Kinds /\ \E l \in 1..Len(g) : ~HeadersOk(g[l], t.creds[n.s.cred], t.creds) THEN "step " \o ToString(j) \o ": headers " \o ToString(Sel(g, {"req"}))
             ELSE ""
  IN IF why # "" THEN why ELSE Walk(t, j + 1, n.s)
Verdict(t) == IF t.r # "ok" THEN t.r ELSE Walk(t, 1, Init0)
Init == k \in 1..Len(Tr)
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Judge == LET v == Verdict(Tr[k]) IN v = "" \/ PrintT("REJECT " \o ToString(k) \o " " \o v)
====
