---------------------------- MODULE ChanCallTrace ---------------------------
(* Explains what callers and the objects they call recorded. The header of *)
(* a trace has objs (name and kind of each object), and the tolerances of  *)
(* the environment in units of time (second: how many make a second): sep between calls that have an order,  *)
(* lo and hi for times (hi: plus permille of the limit), slack between a   *)
(* method's duration and its limit.                                        *)
EXTENDS ChanCall, CCTypes, Traces
vars == <<ccVars, tr, l>>
Init == TracesInit /\ CCInit
H == Trs[tr]
KindOf(o) == (CHOOSE i \in 1..Len(H.objs) : H.objs[i][1] = o)
Hi(d) == H.hi + (d \div 1000) * H.permille
Default == H.second
Id == Ev.id

EvCallee == Is("Callee") /\ Step /\ UNCHANGED ccVars /\ G("C04", Ev.name = Ev.obj)
EvLimit == Is("Limit") /\ Step /\ SetLimit(Ev.obj, Ev.m, Ev.us)
EvCall == /\ Is("Call") /\ Step
          /\ LET f == Fits(H.objs[KindOf(Ev.obj)][2], Ev.m, Ev.types) IN
             Make(Id, Ev.obj, Ev.m, IF f THEN Passed(Ev.m, Ev.args, Ev.types) ELSE <<>>, Ev.wr, Ev.dur, f, Ev.t, Default)
Known == Id \in DOMAIN calls /\ calls[Id].begun = Never
EvExec ==
  /\ Is("Exec") /\ Step
  /\ G("C01", C01_Begin(Id, H.sep))
  /\ G("C04", C04_Begin(Id, Ev.obj, Ev.m) /\ Ev.args = calls[Id].args)
  /\ IF Known THEN Begin(Id, Ev.t, Default) ELSE UNCHANGED ccVars
EvExecEnd == Is("ExecEnd") /\ Step /\ (IF Id \in DOMAIN calls THEN End(Id, Ev.t, Ev.res) ELSE UNCHANGED ccVars)
EvRet ==
  /\ Is("Ret") /\ Step
  /\ G("C02", C02_Return(Id, Ev.ok, Ev.res))
  /\ G("C03", C03_Return(Id, Ev.ok, Ev.t, H.lo, Hi, H.slack))
  /\ G("C04", C04_Return(Id, Ev.ok, Ev.res))
  /\ Return(Id, Ev.ok)
EvDone == Is("Done") /\ Step /\ UNCHANGED ccVars
EvSettle == /\ Is("Settle") /\ Step /\ UNCHANGED ccVars
            /\ G("C01", AtRest_C01) /\ G("C02", AtRest_C02) /\ G("C03", AtRest_C02) /\ G("C04", AtRest_C04)
Next == EvCallee \/ EvLimit \/ EvCall \/ EvExec \/ EvExecEnd \/ EvRet \/ EvDone \/ EvSettle
Spec == Init /\ [][Next]_vars
=============================================================================
