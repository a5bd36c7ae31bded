------------------------------- MODULE NetGen -------------------------------
(* Random behaviours of the design of package network, written as what its *)
(* users do; "idle" marks the steps before which everything was at rest.   *)
EXTENDS MCNet, Json, IOUtils
CONSTANT Depth
VARIABLES hist, bias
gvars == <<vars, hist, bias>>
Note(op) == hist' = Append(hist, op @@ [idle |-> Idle])
GenUser ==
  /\ Len(hist) < Depth
  /\ bias < 2
  /\ \/ \E k \in Dialers : Dial(k) /\ Note([op |-> "dial", k |-> k])
     \/ \E k \in Dialers, s \in {"d", "l"} : Send(k, s) /\ Note([op |-> "send", k |-> k, side |-> s])
     \/ SendAll /\ Note([op |-> "sendall"])
     \/ /\ Len(hist) > 5
        /\ \E n \in Closers : Shut(n) /\ Note([op |-> "close", n |-> n])
GenInit == Init /\ hist = <<>> /\ bias = 0
GenNext == (GenUser \/ (System /\ UNCHANGED hist)) /\ bias' = RandomElement(0..4)
GenSpec == GenInit /\ [][GenNext]_gvars
Write2 == Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
Out == IF Len(hist) = Depth /\ Idle THEN Write2.exitValue = 0 ELSE TRUE
=============================================================================
