------------------------------ MODULE RpcTrace ------------------------------
(* Explains what the features of all docks of a system recorded.           *)
EXTENDS Rpc, Traces, Features
vars == <<rpcVars, tr, l>>

RECURSIVE CarriedBy(_)
CarriedBy(q) ==   \* from sequence of <<dock, feature, discoverable>>
  IF q = <<>> THEN <<>>
  ELSE LET r == CarriedBy(Tail(q))
           h == Head(q) IN RPut(r, h[1], RPut(IF h[1] \in DOMAIN r THEN r[h[1]] ELSE <<>>, h[2], h[3]))
Init == TracesInit /\ RpcInit(CarriedBy(Trs[tr].carried))

(* limits: sequence of <<feature, method, ms>>; one second otherwise *)
Limit(f, m) ==
  LET S == {i \in 1..Len(Trs[tr].limits) : Trs[tr].limits[i][1] = f /\ Trs[tr].limits[i][2] = m}
  IN IF S = {} THEN 1000 ELSE Trs[tr].limits[CHOOSE i \in S : TRUE][3]
Bad(i) == LET c == calls[i] IN ~Fits(c.m, c.args) \/ c.ms > Limit(c.to, c.m) \/ (c.m \in Unsendable /\ c.wr /\ ~Carries(c.d, c.to))
Id == Ev.id

EvStart == Is("Start") /\ Step /\ StartFeature(Ev.d, Ev.f)
EvDestroy == Is("Destroy") /\ Step /\ DestroyFeature(Ev.d, Ev.f)
EvCall == Is("Call") /\ Step /\ Make(Id, Ev.d, Ev.to, Ev.m, Ev.args, Ev.wr, Ev.ms)
EvExec ==
  /\ Is("Exec") /\ Step
  /\ G("R01", R01_Run(Id, Ev.d, Ev.f, Ev.m) /\ R05_Args(Id, Ev.args))
  /\ G("R05", Id \in DOMAIN calls /\ R05_Args(Id, Ev.args))
  /\ G("R06", Id \in DOMAIN calls /\ Fits(calls[Id].m, calls[Id].args))
  /\ IF Id \in DOMAIN calls THEN Run(Id, Ev.d) ELSE UNCHANGED rpcVars
EvExecEnd == Is("ExecEnd") /\ Step /\ (IF Id \in DOMAIN calls THEN Finish(Id, Ev.res) ELSE UNCHANGED rpcVars)
EvRet ==
  /\ Is("Ret") /\ Step
  /\ G("R01", R01_Return(Id, Ev.ok))
  /\ G("R02", R02_Return(Id, Ev.ok, Ev.res) /\ R05_Results(Id, Ev.ok, Ev.res))
  /\ G("R05", R05_Results(Id, Ev.ok, Ev.res) /\ (Ev.ok \/ Bad(Id)))   \* nothing arrives if it fails
  /\ G("R06", R06_Return(Ev.ok, Bad(Id)))
  /\ Return(Id, Ev.ok)
EvOther == (Is("Dock") \/ Is("Closing") \/ Is("Closed") \/ Is("End") \/ Is("Done")) /\ Step /\ UNCHANGED rpcVars
EvSettle ==
  /\ Is("Settle") /\ Step /\ UNCHANGED rpcVars
  /\ G("R01", AtRest_R01) /\ G("R03", AtRest_R03) /\ G("R06", \A i \in DOMAIN calls : Bad(i) /\ Available(i) /\ ~Busy(calls[i].to) => calls[i].st = "failed")
Next == EvStart \/ EvDestroy \/ EvCall \/ EvExec \/ EvExecEnd \/ EvRet \/ EvOther \/ EvSettle
Spec == Init /\ [][Next]_vars
=============================================================================
