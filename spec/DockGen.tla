------------------------------- MODULE DockGen ------------------------------
(* Random behaviours of MCDock, written down as what the environment does; *)
(* "idle" marks the steps before which the dock was at rest.               *)
EXTENDS MCDock, Json, IOUtils

CONSTANT Depth
VARIABLES hist, bias
gvars == <<vars, hist, bias>>

Note(op) == hist' = Append(hist, op @@ [idle |-> Quiet0])
(* the driver counts the connections of an end *)
Nth(k) == Cardinality({j \in DOMAIN links : j < k /\ links[j].end = links[k].end})

GenEnv ==
  /\ Len(hist) < Depth
  /\ Quiet0 \/ bias < 2
  /\ \/ EnvConnectHub /\ UNCHANGED hist
     \/ EnvAssign /\ Note([op |-> "assign"])
     \/ \E s \in Remote, e \in Ends : EnvAnswer(s, e) /\ Note([op |-> "answer", s |-> s, e |-> e])
     \/ \E k \in DOMAIN links :
          \/ EnvFReg(k) /\ Note([op |-> "freg", e |-> links[k].end, n |-> Nth(k)])
          \/ EnvFReady(k) /\ Note([op |-> "fready", e |-> links[k].end, n |-> Nth(k)])
          \/ EnvFClose(k) /\ bias = 0 /\ Note([op |-> "fclose", e |-> links[k].end, n |-> Nth(k)])
          \/ \E i \in ReqIds, f \in DOMAIN carried : EnvFReq(k, i, f) /\ Note([op |-> "freq", e |-> links[k].end, n |-> Nth(k), id |-> i, to |-> f])
     \/ \E i \in DOMAIN calls : EnvFResp(i) /\ Note([op |-> "fresp", id |-> i])
     \/ \E e \in Ends : EnvDialIn(e) /\ Note([op |-> "dialin", e |-> e])
     \/ \E e \in Ends : EnvDown(e) /\ bias = 0 /\ Note([op |-> "unlisten", e |-> e])
     \/ \E s \in Remote \cup DOMAIN carried : EnvCall(s) /\ Note([op |-> "call", id |-> Cardinality(DOMAIN calls) + 1, to |-> s])
GenInit == Init /\ hist = <<>> /\ bias = 0
GenNext == (GenEnv \/ (DockSteps /\ UNCHANGED hist)) /\ bias' = RandomElement(0..7)
GenSpec == GenInit /\ [][GenNext]_gvars

Write == Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
Out == IF Len(hist) = Depth /\ Quiet0 THEN Write.exitValue = 0 ELSE TRUE
=============================================================================
