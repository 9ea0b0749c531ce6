---------------------------- MODULE QtTypesGen ----------------------------
(* Values of the Qt types: a base value with pairwise different components, of which up to MaxVary, in any combination,
   take catalogued values (boundaries).  Inverse checks the specification itself; EmitCase writes the values out. *)
EXTENDS QtTypes, Json, Randomization
CONSTANTS Types, MaxVary, Sample, Emit
VARIABLES t, n, c, at, left
vars == <<t, n, c, at, left>>
Letters(k) == <<97 + k, 98 + k>>
BaseOf(kind, k) ==
  CASE kind \in {"sint32", "octet", "unit"} -> FromNat(10 + k)
    [] kind = "uint32" -> FromNat(1000 + k)
    [] kind = "double" -> <<0, 0, 0, 0, 0, 16 * k, 64 + k, 64>>
    [] kind = "float" -> <<0, 16 * (k % 16), 64 + 4 * k, 64>>
    [] kind = "hour" -> FromNat(13) [] kind = "minute" -> FromNat(37) [] kind = "second" -> FromNat(59) [] kind = "msec" -> FromNat(123)
    [] kind = "year" -> FromNat(2021) [] kind = "month" -> FromNat(3) [] kind = "day" -> FromNat(17)
    [] kind = "scheme" -> <<104, 116, 116, 112>> [] kind = "host" -> <<97, 46, 98>> [] kind = "port" -> FromNat(8080)
    [] kind = "path" -> <<47, 112>> [] kind \in {"user", "password", "query", "fragment"} -> Letters(k)
    [] kind = "format" -> FromNat(0) [] kind = "side" -> FromNat(2 + k) [] OTHER -> FromNat(7)
I(x) == FromInt(x)
Top == 2147483647
Hard == <<37, 50, 53, 37, 50, 48, 38, 61, 195, 164, 43>>      \* %25%20&=ä+
Odd == {<<>>, Hard, <<37, 50, 70, 37, 51, 65>>, <<32, 122>>}  \* nothing; an encoded slash and colon; a blank
Vary(kind) ==
  CASE kind = "sint32" -> {I(0), I(1), I(-1), I(127), I(-32768), I(65536), I(1073741822), I(-1073741823), <<255,255,255,127,0,0,0,0>>, <<0,0,0,128,255,255,255,255>>}
    [] kind = "octet" -> {I(0), I(1), I(127), I(128), I(255)}
    [] kind = "unit" -> {I(0), I(1), I(255), I(256), I(8364), I(55357), I(56832), I(65279), I(65535), I(32), I(127)}
    [] kind = "double" -> {Z8, <<0,0,0,0,0,0,240,63>>, <<0,0,0,0,0,0,240,191>>, <<154,153,153,153,153,153,185,63>>, <<255,255,255,255,255,255,239,127>>, <<1,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,240,127>>, <<0,0,0,0,0,0,0,128>>}
    [] kind = "float" -> {Z4, <<0,0,128,63>>, <<0,0,128,191>>, <<205,204,204,61>>, <<255,255,127,127>>, <<1,0,0,0>>, <<0,0,128,127>>, <<0,0,0,128>>}
    [] kind = "hour" -> {I(0), I(12), I(23)} [] kind = "minute" -> {I(0), I(59)} [] kind = "second" -> {I(0), I(58)}
    [] kind = "msec" -> {I(0), I(1), I(500), I(999)}
    [] kind = "year" -> {I(1), I(-1), I(-5), I(1582), I(1600), I(1900), I(1969), I(1970), I(2000), I(2038), I(9999), I(10000), I(-4713)}
    [] kind = "month" -> {I(1), I(2), I(6), I(12)} [] kind = "day" -> {I(1), I(28), I(29), I(30), I(31)}
    [] kind = "scheme" -> {<<102, 105, 108, 101>>, <<>>} [] kind = "host" -> {<<>>, <<91,58,58,49,93>>, <<195,182,46,100,101>>}
    [] kind = "port" -> {I(-1), I(0), I(65535)}
    [] kind = "path" -> {<<>>, <<47>>, <<47, 97, 37, 50, 70, 98>>, <<47>> \o Hard, <<47, 47, 120>>, <<47, 63, 35>>, <<114, 101, 108>>}
    [] kind \in {"user", "password", "query", "fragment"} -> Odd
    [] kind = "format" -> {I(1), I(2), I(3), I(4)} [] kind = "side" -> {I(1), I(17)} [] OTHER -> {I(0), I(1), I(99)}
Base(ty, m) == LET ks == Kinds(ty, m) IN [k \in DOMAIN ks |-> BaseOf(ks[k], k)]
Pick(S) == IF Sample THEN RandomSubset(1, S) ELSE S
Init == /\ t \in Types /\ n \in (IF t \in Poly THEN 0..3 ELSE {0}) /\ at = 0 /\ left = MaxVary /\ c = TLCEval(Base(t, n))
Next == /\ left > 0
        /\ \E k \in Pick({k \in DOMAIN c : k > at}) : \E v \in Pick(Vary(Kinds(t, n)[k])) :
             c' = [c EXCEPT ![k] = v] /\ at' = k
        /\ left' = left - 1 /\ UNCHANGED <<t, n>>
Spec == Init /\ [][Next]_vars
Given == Valid(t, c)
FloatEq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : (IF Len(a[k]) = 4 \/ Kinds(t, n)[k] = "double" THEN NormFloat(a[k]) = NormFloat(b[k]) ELSE a[k] = b[k])
Inverse == (Given /\ t \notin Opaque \cup {"QUuid"}) => Denotes(t, ToMsg(t, c)) /\ FloatEq(FromMsg(t, ToMsg(t, c)), c)
EmitCase == (Emit /\ Given) => PrintT("CASE " \o ToJson([t |-> t, c |-> c]))
=============================================================================
