------------------------------- MODULE MCDock -------------------------------
(***************************************************************************)
(* The design of a dock in an arbitrary environment: one action per        *)
(* critical section of dock.go, messages in flight in both directions.     *)
(* Whatever it does that can be seen is checked by the formulas of Dock;   *)
(* wrong collects those that were ever false.                              *)
(***************************************************************************)
EXTENDS Dock, TLC

CONSTANTS Features,     \* [feature |-> discoverable]
          Remote,       \* slots of other docks
          Ends,         \* other docks; each offers all of Remote
          MaxLinks, MaxCalls, MaxReqs, MaxCloses, MaxDialIns,
          CallLocal,    \* whether local calls are made
          Instant       \* whether what the dock sends arrives at once

VARIABLES
  toDock, fromDock,   \* link (0: the hub) -> messages in flight
  listening,
  tasks,              \* messages to be sent by routines of their own: <<link, msg>>
  tostart,            \* features still to be started
  known,              \* slot -> link of a provider
  waiting,            \* calls without a response: id -> link the request was sent on (0: not sent)
  running,            \* requests and local calls accepted and not yet replied to
  nclose, ndial,
  down,               \* ends that can't be reached any more
  wrong
design == <<toDock, fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down>>
vars == <<dockVars, design, wrong>>

Msg(t) == [t |-> t]
Check(id, cond) == wrong' = IF cond THEN wrong ELSE wrong \cup {id}
Check2(id1, c1, id2, c2) == wrong' = wrong \cup (IF c1 THEN {} ELSE {id1}) \cup (IF c2 THEN {} ELSE {id2})

Init ==
  /\ DockInit(Features)
  /\ toDock = (0 :> <<>>) /\ fromDock = (0 :> <<>>)
  /\ listening = FALSE /\ tasks = {} /\ tostart = {} /\ known = <<>> /\ waiting = <<>> /\ running = {}
  /\ nclose = 0 /\ ndial = 0 /\ down = {} /\ wrong = {}

SetToSeqs(S) == {q \in [1..Cardinality(S) -> S] : Range(q) = S}
Names == CHOOSE q \in SetToSeqs(Disc) : TRUE    \* map order: any
Emit(f, k, m) == [f EXCEPT ![k] = Append(@, m)]

---------------------------------------------------------------------------
(* Commit a call: to the known provider, or ask the hub. *)
Commit(fd, wt, i) ==   \* <<fromDock', waiting'>>
  LET s == calls[i].to IN
  IF wt[i] # 0 THEN <<fd, wt>>
  ELSE IF s \in DOMAIN known /\ known[s] # 0
       THEN <<Emit(fd, known[s], [t |-> "req", i |-> i, s |-> s]), [wt EXCEPT ![i] = known[s]]>>
       ELSE <<Emit(fd, 0, [t |-> "query", s |-> s]), wt>>
RECURSIVE CommitAll(_, _, _)
CommitAll(fd, wt, S) ==
  IF S = {} THEN <<fd, wt>>
  ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
           r == Commit(fd, wt, i) IN CommitAll(r[1], r[2], S \ {i})

(* --- the environment --- *)
EnvConnectHub ==
  /\ hub.up = 0 /\ HubUp
  /\ tasks' = tasks \cup {<<0, [t |-> "reg", s |-> Names]>>}
  /\ UNCHANGED <<toDock, fromDock, listening, tostart, known, waiting, running, nclose, ndial, down, wrong>>
EnvAssign ==
  /\ hub.regs = 1 /\ ~hub.assigned /\ Assign
  /\ toDock' = Emit(toDock, 0, Msg("assign"))
  /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down, wrong>>
EnvAnswer(s, e) ==
  /\ Get(answered, s) <= MaxLinks
  /\ Get(asked, s) > Get(answered, s) /\ Cardinality(DOMAIN links) + Len(SelectSeq(toDock[0], LAMBDA m : m.t = "answer")) < MaxLinks
  /\ AnswerQuery(s, e)
  /\ toDock' = Emit(toDock, 0, [t |-> "answer", e |-> e])
  /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down, wrong>>
EnvFReg(k) ==
  /\ k \in DOMAIN links /\ links[k].open /\ links[k].offers = <<>>
  /\ FakeReg(k, Remote)
  /\ toDock' = Emit(toDock, k, [t |-> "reg", s |-> Remote])
  /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down, wrong>>
EnvFReady(k) ==
  /\ k \in DOMAIN links /\ links[k].open /\ links[k].got = 1 /\ links[k].announced = {}
  /\ FakeReady(k, Remote)
  /\ toDock' = Emit(toDock, k, [t |-> "ready", s |-> Remote])
  /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down, wrong>>
EnvFClose(k) ==
  /\ nclose < MaxCloses /\ k \in DOMAIN links /\ links[k].open
  /\ nclose' = nclose + 1
  /\ FakeClose(k)
  /\ toDock' = Emit(toDock, k, Msg("eof"))
  /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, waiting, running, ndial, down, wrong>>
(* An end ends: it can't be connected any more. *)
EnvDown(e) ==
  /\ Cardinality(down) + 1 < Cardinality(Ends) /\ e \notin down
  /\ \A k \in DOMAIN links : links[k].end = e => ~links[k].open
  /\ down' = down \cup {e}
  /\ UNCHANGED <<dockVars, toDock, fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, wrong>>
ReqIds == 100..(99 + MaxReqs)
EnvFReq(k, i, f) ==
  /\ i \notin DOMAIN reqs /\ (i = 100 \/ (i - 1) \in DOMAIN reqs) /\ k \in DOMAIN links /\ links[k].open
  /\ FakeRequest(i, k, i, f, "Add", <<>>, TRUE, 0)
  /\ toDock' = Emit(toDock, k, [t |-> "req", i |-> i, s |-> f])
  /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down, wrong>>
EnvFResp(i) ==
  /\ i \in DOMAIN calls /\ calls[i].at # 0 /\ ~calls[i].resp.sent /\ links[calls[i].at].open
  /\ FakeRespond(i, TRUE, <<i>>)
  /\ toDock' = Emit(toDock, calls[i].at, [t |-> "resp", i |-> i])
  /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down, wrong>>
NextLink == Cardinality(DOMAIN links) + 1
EnvDialIn(e) ==
  /\ hub.ready = 1 /\ ndial < MaxDialIns /\ NextLink <= MaxLinks
  /\ ndial' = ndial + 1
  /\ NewLink(NextLink, e)
  /\ toDock' = PutD(toDock, NextLink, <<>>) /\ fromDock' = PutD(fromDock, NextLink, <<>>)
  /\ tasks' = tasks \cup {<<NextLink, [t |-> "reg", s |-> Names]>>}
  /\ UNCHANGED <<listening, tostart, known, waiting, running, nclose, down, wrong>>
(* A started feature calls. *)
EnvCall(s) ==
  LET i == Cardinality(DOMAIN calls) + 1 IN
  /\ i <= MaxCalls /\ \E f \in DOMAIN carried : Get(begun, f) > 0
  /\ s \in Remote \/ (CallLocal /\ s \in DOMAIN carried)
  /\ MakeCall(i, s, "Add", <<>>, TRUE, 0)
  /\ IF s \in DOMAIN carried THEN running' = running \cup {i} /\ UNCHANGED <<waiting, tasks>>
     ELSE waiting' = PutD(waiting, i, 0) /\ tasks' = tasks \cup {<<0, [t |-> "commit", i |-> i]>>} /\ UNCHANGED running
  /\ UNCHANGED <<toDock, fromDock, listening, tostart, known, nclose, ndial, down, wrong>>

(* --- the dock --- *)
DRetry(x) ==
  /\ x \in tasks /\ x[2].t = "retry"
  /\ tasks' = tasks \ {x}
  /\ LET r == CommitAll(fromDock, waiting, {i \in DOMAIN waiting : waiting[i] = 0}) IN fromDock' = r[1] /\ waiting' = r[2]
  /\ UNCHANGED <<dockVars, toDock, listening, tostart, known, running, nclose, ndial, down, wrong>>
DSend(x) ==
  /\ x \in tasks /\ x[2].t \notin {"commit", "retry"}
  /\ tasks' = tasks \ {x}
  /\ fromDock' = Emit(fromDock, x[1], x[2])
  /\ UNCHANGED <<dockVars, toDock, listening, tostart, known, waiting, running, nclose, ndial, down, wrong>>
DCommit(x) ==
  /\ x \in tasks /\ x[2].t = "commit"
  /\ tasks' = tasks \ {x}
  /\ IF x[2].i \in DOMAIN waiting
     THEN LET r == Commit(fromDock, waiting, x[2].i) IN fromDock' = r[1] /\ waiting' = r[2]
     ELSE UNCHANGED <<fromDock, waiting>>
  /\ UNCHANGED <<dockVars, toDock, listening, tostart, known, running, nclose, ndial, down, wrong>>
DStart ==
  \E f \in tostart :
    /\ tostart' = tostart \ {f}
    /\ Check("D03", D03_Start(f, listening)) /\ DoStart(f)
    /\ UNCHANGED <<toDock, fromDock, listening, tasks, known, waiting, running, nclose, ndial, down>>

Drop(w, S) == [x \in DOMAIN w \ S |-> w[x]]
DProc(k) ==
  /\ toDock[k] # <<>>
  /\ LET m == Head(toDock[k])
         td == [toDock EXCEPT ![k] = Tail(@)] IN
     CASE m.t = "assign" ->
            /\ listening' = TRUE /\ tostart' = DOMAIN carried /\ toDock' = td
            /\ fromDock' = Emit(fromDock, 0, [t |-> "ready", s |-> Names])
            /\ UNCHANGED <<dockVars, tasks, known, waiting, running, nclose, ndial, down, wrong>>
       [] m.t = "answer" ->
            /\ IF m.e \in down
               THEN /\ toDock' = td /\ tasks' = tasks \cup {<<0, Msg("retry")>>}
                    /\ UNCHANGED <<dockVars, fromDock, wrong>>
               ELSE /\ Check("D04", D04_Dial(m.e)) /\ NewLink(NextLink, m.e)
                    /\ toDock' = PutD(td, NextLink, <<>>) /\ fromDock' = PutD(fromDock, NextLink, <<>>)
                    /\ tasks' = tasks \cup {<<NextLink, [t |-> "reg", s |-> Names]>>}
            /\ UNCHANGED <<listening, tostart, known, waiting, running, nclose, ndial, down>>
       [] m.t = "reg" ->
            /\ toDock' = td
            /\ fromDock' = Emit(fromDock, k, [t |-> "ready", s |-> Names])
            /\ known' = [s \in DOMAIN known \cup m.s |-> IF s \in m.s THEN k ELSE known[s]]
            /\ UNCHANGED <<dockVars, listening, tasks, tostart, waiting, running, nclose, ndial, down, wrong>>
       [] m.t = "ready" ->
            /\ toDock' = td
            /\ LET r == CommitAll(fromDock, waiting, {i \in DOMAIN waiting : calls[i].to \in m.s}) IN
               fromDock' = r[1] /\ waiting' = r[2]
            /\ UNCHANGED <<dockVars, listening, tasks, tostart, known, running, nclose, ndial, down, wrong>>
       [] m.t = "req" ->
            /\ toDock' = td /\ running' = running \cup {m.i}
            /\ UNCHANGED <<dockVars, fromDock, listening, tasks, tostart, known, waiting, nclose, ndial, down, wrong>>
       [] m.t = "resp" ->
            /\ toDock' = td
            /\ IF m.i \in DOMAIN waiting
               THEN /\ waiting' = Drop(waiting, {m.i})
                    /\ Check2("R02", R02_Return(m.i, TRUE, <<m.i>>, FALSE), "D06", D06_Return(m.i, TRUE))
                    /\ DoReturn(m.i, TRUE)
               ELSE UNCHANGED <<waiting, wrong, dockVars>>
            /\ UNCHANGED <<fromDock, listening, tasks, tostart, known, running, nclose, ndial, down>>
       [] m.t = "eof" ->
            /\ toDock' = td
            /\ known' = [s \in {x \in DOMAIN known : known[x] # k} |-> known[s]]
            /\ LET S == {i \in DOMAIN waiting : waiting[i] = k} IN
               /\ waiting' = Drop(waiting, S)
               /\ wrong' = IF \A i \in S : D06_Return(i, FALSE) /\ R02_Return(i, FALSE, <<>>, FALSE) THEN wrong ELSE wrong \cup {"D06"}
               /\ calls' = [i \in DOMAIN calls |-> IF i \in S THEN [calls[i] EXCEPT !.st = "failed"] ELSE calls[i]]
            /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, reqs, closing>>
            /\ tasks' = tasks \cup {<<0, Msg("retry")>>}
            /\ UNCHANGED <<fromDock, listening, tostart, running, nclose, ndial, down>>
(* A request or local call runs and is replied to. *)
DRun(i) ==
  /\ i \in running
  /\ LET f == IF i \in DOMAIN calls THEN calls[i].to ELSE reqs[i].to IN
     \/ /\ (IF i \in DOMAIN calls THEN calls[i].runs ELSE reqs[i].runs) = 0
        /\ Check("R01", R01_Run(i, f, "Add", <<>>))
        /\ calls' = IF i \in DOMAIN calls THEN [calls EXCEPT ![i].runs = 1, ![i].out = [done |-> TRUE, res |-> <<i>>]] ELSE calls
        /\ reqs' = IF i \in DOMAIN reqs THEN [reqs EXCEPT ![i].runs = 1, ![i].out = [done |-> TRUE, res |-> <<i>>]] ELSE reqs
        /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, closing, design>>
     \/ /\ i \in DOMAIN calls /\ calls[i].out.done
        /\ running' = running \ {i}
        /\ Check("R02", R02_Return(i, TRUE, <<i>>, FALSE)) /\ DoReturn(i, TRUE)
        /\ UNCHANGED <<toDock, fromDock, listening, tasks, tostart, known, waiting, nclose, ndial, down>>
     \/ /\ i \in DOMAIN reqs /\ reqs[i].out.done
        /\ running' = running \ {i}
        /\ fromDock' = Emit(fromDock, reqs[i].k, [t |-> "resp", i |-> i, s |-> f])
        /\ UNCHANGED <<dockVars, toDock, listening, tasks, tostart, known, waiting, nclose, ndial, down, wrong>>

(* What arrives at the hub and the other docks. *)
Recv(k) ==
  /\ fromDock[k] # <<>>
  /\ fromDock' = [fromDock EXCEPT ![k] = Tail(@)]
  /\ UNCHANGED <<toDock, listening, tasks, tostart, known, waiting, running, nclose, ndial, down>>
  /\ LET m == Head(fromDock[k]) IN
     IF k # 0 /\ ~links[k].open THEN UNCHANGED <<dockVars, wrong>>
     ELSE CASE m.t = "reg" /\ k = 0 -> Check2("D01", D01_Register, "D02", D02_Names(m.s)) /\ DoRegister
            [] m.t = "ready" /\ k = 0 -> Check2("D01", D01_Ready(listening), "D02", D02_Names(m.s)) /\ DoReady
            [] m.t = "query" -> Check("D04", D04_Query(m.s)) /\ DoQuery(m.s)
            [] m.t = "reg" /\ k # 0 -> Check2("D05", D05_Register(k), "D02", D02_Names(m.s)) /\ DoLinkRegister(k)
            [] m.t = "ready" /\ k # 0 -> Check2("D05", D05_Ready(k), "D02", D02_Names(m.s)) /\ DoLinkReady(k)
            [] m.t = "req" -> Check2("R01", R01_Request(m.i, k, m.s, "Add", <<>>, TRUE), "D04", D04_Request(m.s)) /\ DoRequest(m.i, k)
            [] m.t = "resp" -> Check("R04", R04_Respond(m.i, k, m.s, "Add", TRUE, <<m.i>>, FALSE)) /\ DoRespond(m.i)

EnvSteps ==
  \/ EnvConnectHub \/ EnvAssign
  \/ \E s \in Remote, e \in Ends : EnvAnswer(s, e)
  \/ \E k \in DOMAIN links : EnvFReg(k) \/ EnvFReady(k) \/ EnvFClose(k)
  \/ \E k \in DOMAIN links, i \in ReqIds, f \in DOMAIN carried : EnvFReq(k, i, f)
  \/ \E i \in DOMAIN calls : EnvFResp(i)
  \/ \E e \in Ends : EnvDialIn(e) \/ EnvDown(e)
  \/ \E s \in Remote \cup DOMAIN carried : EnvCall(s)
DockSteps ==
  \/ \E x \in tasks : DSend(x) \/ DCommit(x) \/ DRetry(x)
  \/ DStart
  \/ \E k \in DOMAIN toDock : DProc(k)
  \/ \E i \in running : DRun(i)
  \/ \E k \in DOMAIN fromDock : Recv(k)
Arriving == {k \in DOMAIN fromDock : fromDock[k] # <<>>}
Next == IF Instant /\ Arriving # {} THEN Recv(CHOOSE k \in Arriving : TRUE)
        ELSE IF Instant /\ tostart # {} THEN DStart
        ELSE EnvSteps \/ DockSteps
Spec == Init /\ [][Next]_vars /\ WF_vars(DockSteps)

---------------------------------------------------------------------------
FeaturesA == ("L" :> TRUE)
FeaturesC == ("L" :> TRUE) @@ ("P" :> FALSE)
NothingWrong == wrong = {}
Quiet0 == /\ \A k \in DOMAIN toDock : toDock[k] = <<>> /\ fromDock[k] = <<>>
          /\ tasks = {} /\ tostart = {} /\ running = {}
NeverBad(i) == FALSE
AtRest == Quiet0 => /\ AtRest_D01 /\ AtRest_D02 /\ AtRest_D03 /\ AtRest_D04(NeverBad) /\ AtRest_D05 /\ AtRest_D06
                    /\ AtRest_R01 /\ AtRest_R03 /\ AtRest_R04
(* The dock always comes to rest. *)
Rests == []<>Quiet0
(* A fair environment lets every call complete. *)
FairEnv == \A k \in 1..MaxLinks, e \in Ends, s \in Remote, i \in 1..MaxCalls :
   WF_vars(EnvAnswer(s, e)) /\ WF_vars(EnvFReg(k)) /\ WF_vars(EnvFReady(k)) /\ WF_vars(EnvFResp(i))
FairSpec == Spec /\ FairEnv
Exhausted == Cardinality(DOMAIN links) >= MaxLinks \/ \E s \in DOMAIN answered : answered[s] > MaxLinks
R03_Live == \A i \in 1..MaxCalls : (i \in DOMAIN calls) ~> ((i \in DOMAIN calls /\ calls[i].st # "made") \/ Exhausted)
=============================================================================
