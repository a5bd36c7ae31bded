------------------------------- MODULE FerryGen -----------------------------
(* Random behaviours of Ferry, written down as what the users do; "idle"   *)
(* marks the steps before which everything was at rest.                    *)
EXTENDS MCFerry, Json, IOUtils
CONSTANT Depth
VARIABLES hist, bias
gvars == <<vars, hist, bias>>
Note(op) == hist' = Append(hist, op @@ [idle |-> Idle])
CanCall(d, s) == s \in DOMAIN Carried[d] \/ \E e \in Docks : s \in DiscOf(e)
GenUser ==
  /\ Len(hist) < Depth
  /\ Idle \/ bias < 2
  /\ \/ \E d \in Docks : StartDock(d) /\ Note([op |-> "start", d |-> d])
     \/ \E d \in Docks, s \in Slots : CanCall(d, s) /\ Call(d, s) /\ Note([op |-> "call", id |-> Cardinality(DOMAIN calls) + 1, d |-> d, to |-> s])
GenInit == Init /\ hist = <<>> /\ bias = 0
GenNext == (GenUser \/ (System /\ UNCHANGED hist)) /\ bias' = RandomElement(0..7)
GenSpec == GenInit /\ [][GenNext]_gvars
Write == Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
Out == IF Len(hist) = Depth /\ Idle THEN Write.exitValue = 0 ELSE TRUE
=============================================================================
