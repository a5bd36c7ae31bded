--------------------------------- MODULE CCGen ------------------------------
(* Random behaviours of the design of ChanCall, written as what the users  *)
(* do and when.                                                            *)
EXTENDS MCChanCall, Json, IOUtils
VARIABLES hist, bias
gvars == <<vars, hist, bias>>
GenUser ==
  /\ bias < 2
  /\ \/ \E c \in Callers, d \in Durations, m \in Methods :
          /\ Call(c, d, m)
          /\ hist' = Append(hist, [op |-> "call", id |-> Cardinality(DOMAIN calls) + 1, c |-> c, d |-> d, m |-> m, t |-> now])
     \/ \E m \in Methods, d \in Limits : ChangeLimit(m, d) /\ hist' = Append(hist, [op |-> "limit", m |-> m, d |-> d, t |-> now])
GenInit == Init /\ hist = <<>> /\ bias = 0
GenNext == (GenUser \/ ((Immediate \/ Tick) /\ UNCHANGED hist)) /\ bias' = RandomElement(0..3)
GenSpec == GenInit /\ [][GenNext]_gvars
Write == Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
Out == IF now = MaxTime /\ ~ENABLED Immediate THEN Write.exitValue = 0 ELSE TRUE
=============================================================================
