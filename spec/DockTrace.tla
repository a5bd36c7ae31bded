------------------------------ MODULE DockTrace -----------------------------
(* Explains what a fake hub, fake docks and the features of a real dock    *)
(* recorded.                                                               *)
EXTENDS Dock, Traces, Features

vars == <<dockVars, tr, l>>

RECURSIVE MapOf(_)
MapOf(q) == IF q = <<>> THEN <<>> ELSE PutD(MapOf(Tail(q)), Head(q)[1], Head(q)[2])
Init == TracesInit /\ DockInit(MapOf(Trs[tr].carried))

(* limits: sequence of <<feature, method, ms>>; one second otherwise *)
Limit(f, m) ==
  LET S == {i \in 1..Len(Trs[tr].limits) : Trs[tr].limits[i][1] = f /\ Trs[tr].limits[i][2] = m}
  IN IF S = {} THEN 1000 ELSE Trs[tr].limits[CHOOSE i \in S : TRUE][3]
BadCall(to, m, args, ms) == ~Fits(m, args) \/ ms > Limit(to, m)
Bad(i) == BadCall(calls[i].to, calls[i].m, calls[i].args, calls[i].ms)
Id == Ev.id

EvDock == Is("Dock") /\ Step /\ UNCHANGED dockVars
EvHubUp == Is("HubUp") /\ Step /\ G("D04", hub.up = 0) /\ HubUp
EvHReg == Is("HReg") /\ Step /\ G("D01", D01_Register) /\ G("D02", D02_Names(Ev.s)) /\ DoRegister
EvAssign == Is("Assign") /\ Step /\ Assign
EvHReady == Is("HReady") /\ Step /\ G("D01", D01_Ready(Ev.reach)) /\ G("D02", D02_Names(Ev.s)) /\ DoReady
EvStart == Is("Start") /\ Step /\ G("D03", D03_Start(Ev.f, Ev.reach)) /\ DoStart(Ev.f)
EvDestroy == Is("Destroy") /\ Step /\ G("D03", D03_Destroy(Ev.f)) /\ DoDestroy(Ev.f)
EvClosing == Is("Closing") /\ Step /\ (closing = "no" => StartClosing) /\ (closing # "no" => UNCHANGED dockVars)
EvClosed == Is("Closed") /\ Step /\ ClosedAll
EvQuery == Is("Query") /\ Step /\ G("D04", D04_Query(Ev.s)) /\ DoQuery(Ev.s)
EvAnswer == Is("Answer") /\ Step /\ AnswerQuery(Ev.s, Ev.k)
EvDialled == Is("Dialled") /\ Step /\ G("D04", D04_Dial(Ev.n)) /\ NewLink(Ev.k, Ev.n)
EvIn == Is("In") /\ Step /\ NewLink(Ev.k, Ev.n)
EvNoDialIn == Is("NoDialIn") /\ Step /\ G("D01", ~Ev.ready \/ closing # "no") /\ UNCHANGED dockVars
EvFReg == Is("FReg") /\ Step /\ FakeReg(Ev.k, ToSet(Ev.s))
EvFReady == Is("FReady") /\ Step /\ FakeReady(Ev.k, ToSet(Ev.s))
EvFClose == Is("FClose") /\ Step /\ FakeClose(Ev.k)
EvGone == Is("Gone") /\ Step /\ G("D06", links[Ev.k].open => Ev.mine \/ closing # "no") /\ FakeClose(Ev.k)
EvGotReg == Is("GotReg") /\ Step /\ G("D05", D05_Register(Ev.k)) /\ G("D02", D02_Names(Ev.s)) /\ DoLinkRegister(Ev.k)
EvGotReady == Is("GotReady") /\ Step /\ G("D05", D05_Ready(Ev.k)) /\ G("D02", D02_Names(Ev.s)) /\ DoLinkReady(Ev.k)
EvCall == Is("Call") /\ Step /\ MakeCall(Id, Ev.to, Ev.m, Ev.args, Ev.wr, Ev.ms)
EvGotReq ==
  /\ Is("GotReq") /\ Step
  /\ G("D04", D04_Request(Ev.to))
  /\ G("R01", R01_Request(Id, Ev.k, Ev.to, Ev.m, Ev.args, Ev.wr))
  /\ IF Id \in DOMAIN calls THEN DoRequest(Id, Ev.k) ELSE UNCHANGED dockVars
EvFReq == Is("FReq") /\ Step /\ FakeRequest(Id, Ev.k, Ev.idx, Ev.to, Ev.m, Ev.args, Ev.wr, Ev.ms)
EvFResp == Is("FResp") /\ Step /\ FakeRespond(Id, Ev.ok, Ev.res)
EvExec == Is("Exec") /\ Step /\ G("R01", R01_Run(Id, Ev.f, Ev.m, Ev.args)) /\ DoRun(Id)
EvExecEnd == Is("ExecEnd") /\ Step /\ DoRan(Id, Ev.res)
EvRet ==
  /\ Is("Ret") /\ Step
  /\ G("R02", R02_Return(Id, Ev.ok, Ev.res, Bad(Id)))
  /\ G("R06", R06_Return(Id, Ev.ok, Bad(Id)))
  /\ G("D06", D06_Return(Id, Ev.ok))
  /\ DoReturn(Id, Ev.ok)
Requests(k, idx) == {i \in DOMAIN reqs : reqs[i].k = k /\ reqs[i].idx = idx}
EvGotResp ==
  /\ Is("GotResp") /\ Step
  /\ IF Requests(Ev.k, Ev.idx) = {} THEN G("R04", FALSE) /\ UNCHANGED dockVars
     ELSE \E i \in Requests(Ev.k, Ev.idx) :
            /\ G("R04", Ev.good /\ R04_Respond(i, Ev.k, Ev.to, Ev.m, Ev.ok, Ev.res,
                                               BadCall(reqs[i].to, reqs[i].m, reqs[i].args, reqs[i].ms)))
            /\ DoRespond(i)
(* n calls that were all answered, too many to be recorded one by one: so many returned, their own results; so many requests *)
EvOthers == /\ Is("Others") /\ Step /\ UNCHANGED dockVars
            /\ G("R01", Ev.reqs = Ev.n) /\ G("R02", Ev.good = Ev.back) /\ G("R03", Ev.back = Ev.n)
EvOther == (Is("HOther") \/ Is("Other")) /\ Step /\ UNCHANGED dockVars
EvSettle ==
  /\ Is("Settle") /\ Step /\ UNCHANGED dockVars
  /\ G("D01", AtRest_D01) /\ G("D02", AtRest_D02) /\ G("D03", AtRest_D03) /\ G("D04", AtRest_D04(Bad)) /\ G("D05", AtRest_D05)
  /\ G("D06", AtRest_D06 /\ AtRest_Sent) /\ G("R01", AtRest_R01) /\ G("R03", AtRest_R03) /\ G("R04", AtRest_R04)
EvEnd == (Is("End") \/ Is("Done")) /\ Step /\ UNCHANGED dockVars

Next == \/ EvDock \/ EvHubUp \/ EvHReg \/ EvAssign \/ EvHReady \/ EvStart \/ EvDestroy \/ EvClosing \/ EvClosed
        \/ EvQuery \/ EvAnswer \/ EvDialled \/ EvIn \/ EvNoDialIn \/ EvFReg \/ EvFReady \/ EvFClose \/ EvGone
        \/ EvGotReg \/ EvGotReady \/ EvCall \/ EvGotReq \/ EvFReq \/ EvFResp \/ EvExec \/ EvExecEnd \/ EvRet \/ EvGotResp
        \/ EvOthers \/ EvOther \/ EvSettle \/ EvEnd
Spec == Init /\ [][Next]_vars
=============================================================================
