------------------------------ MODULE LifeTrace -----------------------------
(* Explains what was seen of the hubs and docks of a process.               *)
EXTENDS Life, Traces
vars == <<lifeVars, tr, l>>
Init == TracesInit /\ LifeInit
Next ==
  /\ Step
  /\ \/ Is("Start") /\ Start(Ev.i, Ev.kind, Ev.racing)
     \/ Is("Up") /\ Up(Ev.i, Ev.port)
     \/ Is("Close") /\ Close
     \/ Is("Closed") /\ Closed
     \/ Is("Conn") /\ Conn(Ev.c, Ev.i)
     \/ Is("Gone") /\ (IF Ev.c \in DOMAIN conns THEN Gone(Ev.c) ELSE UNCHANGED lifeVars)
     \/ Is("Probe") /\ G("L01", L01_Probe(Ev.i, Ev.ok)) /\ UNCHANGED lifeVars
     \/ Is("Call") /\ Call(Ev.id, Ev.i, Ev.to)
     \/ Is("Ret") /\ G("L01", L01_Ret(Ev.id, Ev.ok)) /\ G("L02", L02_Ret(Ev.id, Ev.ok)) /\ Ret(Ev.id)
     \/ Is("Rest") /\ G("L01", L01_Rest) /\ G("L02", L02_Rest) /\ Rest
     \/ Is("Done") /\ UNCHANGED lifeVars
Spec == Init /\ [][Next]_vars
=============================================================================
