------------------------------- MODULE MCProxy ------------------------------
(* A caller, a proxy, the dock of the feature (maybe another one: numbers   *)
(* then arrive as another type) and the feature. The caller gets what the   *)
(* feature returned, and the feature what the caller passed. Also generates *)
(* interfaces.                                                              *)
EXTENDS Proxy, Integers, TLC, Json, IOUtils
CONSTANTS Types, Texts, MaxList, Rec
VARIABLES m, pc, args, exec, ans, ret, hist
vars == <<m, pc, args, exec, ans, ret, hist>>
Lists(S) == UNION {[1..n -> S] : n \in 0..MaxList}
Nums == {"int8", "int64", "uint16"}
Fits(t, v) == CASE t = "string" -> TRUE [] t = "bool" -> v = "0" [] OTHER -> v # "x"
Val(t, v) == IF t = "bool" THEN <<"bool", "true">> ELSE <<Kind(t), v>>
Wire(t) == IF t \in Nums THEN Nums ELSE {t}
Init == /\ m \in [name : {"M"}, params : Lists(Types), results : Lists(Types)]
        /\ pc = "call" /\ args = <<>> /\ exec = <<>> /\ ans = <<>> /\ ret = <<>> /\ hist = <<>>
Call == /\ pc = "call" /\ pc' = "run"
        /\ \E f \in [1..Len(m.params) -> Texts] :
             /\ \A i \in 1..Len(m.params) : Fits(m.params[i], f[i])
             /\ args' = [i \in 1..Len(m.params) |-> Val(m.params[i], f[i])]
        /\ UNCHANGED <<m, exec, ans, ret, hist>>
Run == /\ pc = "run" /\ pc' \in {"ran", "failed"}
       /\ exec' = Forwarded("I", m, args).args
       /\ \E f \in [1..Len(m.results) -> Texts] :
             /\ \A i \in 1..Len(m.results) : Fits(m.results[i], f[i])
             /\ ret' = [i \in 1..Len(m.results) |-> Val(m.results[i], f[i])]
       /\ UNCHANGED <<m, args, ans, hist>>
Answer == /\ pc = "ran" /\ pc' = "answered"
          /\ \E w \in [1..Len(ret) -> Nums \cup Types] :
               /\ \A i \in 1..Len(ret) : w[i] \in Wire(ret[i][1])
               /\ ans' = [i \in 1..Len(ret) |-> <<w[i], ret[i][2]>>]
          /\ UNCHANGED <<m, args, exec, ret, hist>>
Next == Call \/ Run \/ Answer
Spec == Init /\ [][Next]_vars
Faithful == /\ pc \in {"ran", "failed", "answered"} => exec = args /\ Typed(m.params, exec)
            /\ pc = "answered" => Returned(m, TRUE, ans) = ret /\ Typed(m.results, ret)
            /\ pc = "failed" => Typed(m.results, Returned(m, FALSE, <<>>))

(* Generation: interfaces, method by method. *)
All == {"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
        "float32", "float64", "string", "byte", "rune", "uintptr"}
Style == {"unnamed", "named", "grouped", "blank", "clash"}
GInit == m = [name |-> "M", params |-> <<>>, results |-> <<>>] /\ pc = "gen" /\ args = <<>> /\ exec = <<>> /\ ans = <<>> /\ ret = <<>> /\ hist = <<>>
(* one random step *)
GNext ==
  \/ /\ pc = "gen" /\ UNCHANGED <<args, exec, ans, ret>>
     /\ \E r \in {RandomElement(1..20)}, t \in {RandomElement(All)}, d \in {RandomElement(BOOLEAN)} :
        LET Grow(q) == Append(q, IF d /\ q # <<>> THEN q[Len(q)] ELSE t) IN \* with d the last one once more
        \/ r <= 9 /\ m' = [m EXCEPT !.params = IF Len(@) < 7 THEN Grow(@) ELSE @] /\ UNCHANGED <<hist, pc>>
        \/ r \in 10..14 /\ m' = [m EXCEPT !.results = IF Len(@) < 5 THEN Grow(@) ELSE @] /\ UNCHANGED <<hist, pc>>
        \/ r > 14 /\ \E a \in {RandomElement(Style)}, b \in {RandomElement(Style)} :
             /\ hist' = Append(hist, [params |-> m.params, results |-> m.results, ps |-> a, rs |-> b])
             /\ m' = [m EXCEPT !.params = <<>>, !.results = <<>>]
             /\ pc' = IF r = 20 \/ Len(hist) = 7 THEN "end" ELSE "gen"
  \/ pc = "end" /\ pc' = "out" /\ UNCHANGED <<m, args, exec, ans, ret, hist>>
GenSpec == GInit /\ [][GNext]_vars
Out == IF Rec /\ pc = "out"
       THEN Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
       ELSE TRUE
=============================================================================
