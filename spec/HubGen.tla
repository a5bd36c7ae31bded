------------------------------- MODULE HubGen -------------------------------
(* Random behaviours of MCHub, written down as what the docks do; "idle"   *)
(* marks the steps before which the hub had finished everything.           *)
EXTENDS MCHub, Json, IOUtils

CONSTANT Depth
VARIABLES hist, bias
gvars == <<vars, hist, bias>>

Calm == Idle /\ (\A c \in DOMAIN owed : owed[c] = <<>>) /\ (\A p \in pend : Newest(regs, p.s) = 0)
Note(op) == hist' = Append(hist, op @@ [idle |-> Calm])
Keep == UNCHANGED <<told, answers>>

GenDock ==
  /\ Len(hist) < Depth
  /\ Calm \/ bias = 1
  /\ \/ \E c \in Conns, h \in Hosts :
          Connect(c, h) /\ Keep /\ UNCHANGED <<nq, sentReg, sentReady>> /\ Note([op |-> "conn", c |-> c, h |-> h])
     \/ \E c \in Conns \ sentReg, S \in SUBSET Slots \ {{}} :
          Send(c, [t |-> "reg", s |-> S]) /\ sentReg' = sentReg \cup {c} /\ Keep /\ UNCHANGED <<nq, sentReady>>
          /\ Note([op |-> "reg", c |-> c, s |-> S])
     \/ \E c \in sentReg \ sentReady :
          /\ \E i \in 1..Len(regs) : regs[i].c = c
          /\ owed[c] = <<>>
          /\ Send(c, [t |-> "ready", s |-> SlotsOf(c)]) /\ sentReady' = sentReady \cup {c} /\ Keep /\ UNCHANGED <<nq, sentReg>>
          /\ Note([op |-> "ready", c |-> c, s |-> SlotsOf(c)])
     \/ \E c \in Conns : \E s \in Slots :
          /\ nq < MaxQueries /\ nq' = nq + 1
          /\ Send(c, [t |-> "query", s |-> s, q |-> nq]) /\ Keep /\ UNCHANGED <<sentReg, sentReady>>
          /\ Note([op |-> "query", c |-> c, s |-> {s}])
     \/ \E c \in Conns :
          /\ Calm /\ bias = 1
          /\ Hangup(c) /\ Keep /\ UNCHANGED <<nq, sentReg, sentReady>> /\ Note([op |-> "close", c |-> c])
GenHub == HubSteps /\ UNCHANGED <<nq, sentReg, sentReady, hist>>

GenInit == Init /\ hist = <<>> /\ bias = 0
GenNext == (GenDock \/ GenHub) /\ bias' = RandomElement(0..3)
GenSpec == GenInit /\ [][GenNext]_gvars

Write == Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])
Out == IF Len(hist) = Depth /\ Calm THEN Write.exitValue = 0 ELSE TRUE
=============================================================================
