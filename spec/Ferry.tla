-------------------------------- MODULE Ferry -------------------------------
(***************************************************************************)
(* A hub and docks, talking: registration, readiness, discovery,           *)
(* connections between docks, handshake, requests and responses. One       *)
(* action per critical section of the code; messages of one direction of a *)
(* connection are in order. It does what Rpc says (RpcSpec below), and     *)
(* every call to an available feature completes (Completes).               *)
(***************************************************************************)
EXTENDS Rpc, TLC

CONSTANTS Carried,    \* dock -> feature -> discoverable
          MaxCalls,
          MaxLinks,   \* beyond these, the connections there are come to rest before another one is made
          Prompt      \* whether connected sides register at once

VARIABLES
  phase,    \* dock -> "off", "joined", "listening"
  hin,      \* dock -> messages on the way to the hub
  hout,     \* dock -> messages on the way from the hub
  regs,     \* hub: registrations in order, [d, ready]
  pend,     \* hub: <<dock, slot>> -> number of queries without an answer
  links,    \* connections between docks: [a, b, ab, ba]
  known,    \* dock -> slot -> link
  waiting,  \* dock -> call -> link its request was sent on (0: not sent)
  tasks,    \* routines: <<"reg", link, dock>>, <<"commit", dock, call>>
  starting, \* <<dock, feature>> to be started
  running   \* accepted requests: <<call, link>> (link 0: local)
design == <<phase, hin, hout, regs, pend, links, known, waiting, tasks, starting, running>>
vars == <<rpcVars, design>>

Docks == DOMAIN Carried
DiscOf(d) == {f \in DOMAIN Carried[d] : Carried[d][f]}
Slots == UNION {DOMAIN Carried[d] : d \in Docks}
Cnt(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0

Init ==
  /\ RpcInit(Carried)
  /\ phase = [d \in Docks |-> "off"] /\ hin = [d \in Docks |-> <<>>] /\ hout = [d \in Docks |-> <<>>]
  /\ regs = <<>> /\ pend = <<>> /\ links = <<>>
  /\ known = [d \in Docks |-> <<>>] /\ waiting = [d \in Docks |-> <<>>]
  /\ tasks = {} /\ starting = {} /\ running = {}

(* sending on connection k as dock d *)
SendOn(ls, k, d, m) == IF ls[k].a = d THEN [ls EXCEPT ![k].ab = Append(@, m)] ELSE [ls EXCEPT ![k].ba = Append(@, m)]

(* Commit a call: returns <<hin', links', waiting'>> *)
Commit(st, d, i) ==
  LET s == calls[i].to IN
  IF st[3][d][i] # 0 THEN st
  ELSE IF s \in DOMAIN known[d]
       THEN <<st[1], SendOn(st[2], known[d][s], d, [t |-> "req", i |-> i]), [st[3] EXCEPT ![d][i] = known[d][s]]>>
       ELSE <<[st[1] EXCEPT ![d] = Append(@, [t |-> "query", s |-> s])], st[2], st[3]>>
RECURSIVE CommitAll(_, _, _)
CommitAll(st, d, S) ==
  IF S = {} THEN st ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y IN CommitAll(Commit(st, d, i), d, S \ {i})

---------------------------------------------------------------------------
StartDock(d) ==
  /\ phase[d] = "off"
  /\ phase' = [phase EXCEPT ![d] = "joined"]
  /\ hin' = [hin EXCEPT ![d] = Append(@, [t |-> "reg"])]
  /\ UNCHANGED <<rpcVars, hout, regs, pend, links, known, waiting, tasks, starting, running>>

Providers(s) == {k \in 1..Len(regs) : regs[k].ready /\ s \in DiscOf(regs[k].d)}
NewestOf(s) == CHOOSE k \in Providers(s) : \A j \in Providers(s) : j <= k
AnswerTo(ho, d, s) == [ho EXCEPT ![d] = Append(@, [t |-> "answer", b |-> regs[NewestOf(s)].d])]

HubProc(d) ==
  /\ hin[d] # <<>>
  /\ hin' = [hin EXCEPT ![d] = Tail(@)]
  /\ LET m == Head(hin[d]) IN
     CASE m.t = "reg" ->
            /\ regs' = Append(regs, [d |-> d, ready |-> FALSE])
            /\ hout' = [hout EXCEPT ![d] = Append(@, [t |-> "port"])]
            /\ UNCHANGED pend
       [] m.t = "ready" ->
            /\ regs' = [k \in 1..Len(regs) |-> IF regs[k].d = d THEN [regs[k] EXCEPT !.ready = TRUE] ELSE regs[k]]
            /\ UNCHANGED <<hout, pend>>
       [] m.t = "query" ->
            /\ pend' = RPut(pend, <<d, m.s>>, Cnt(pend, <<d, m.s>>) + 1)
            /\ UNCHANGED <<regs, hout>>
  /\ UNCHANGED <<rpcVars, phase, links, known, waiting, tasks, starting, running>>
HubAnswer(x) ==
  /\ Cnt(pend, x) > 0 /\ Providers(x[2]) # {}
  /\ pend' = [pend EXCEPT ![x] = @ - 1]
  /\ hout' = AnswerTo(hout, x[1], x[2])
  /\ UNCHANGED <<rpcVars, phase, hin, regs, links, known, waiting, tasks, starting, running>>

RegTasks == {x \in tasks : x[1] = "reg"}
Settled == RegTasks = {} /\ \A k \in 1..Len(links) : links[k].ab = <<>> /\ links[k].ba = <<>>
DockFromHub(d) ==
  /\ hout[d] # <<>>
  /\ LET m == Head(hout[d]) IN
     CASE m.t = "port" ->
            /\ phase' = [phase EXCEPT ![d] = "listening"]
            /\ hin' = [hin EXCEPT ![d] = Append(@, [t |-> "ready"])]
            /\ starting' = starting \cup {<<d, f>> : f \in DOMAIN Carried[d]}
            /\ UNCHANGED <<links, tasks>>
       [] m.t = "answer" ->
            /\ Len(links) < MaxLinks \/ Settled
            /\ LET k == Len(links) + 1
                   r(x) == IF Prompt THEN <<[t |-> "reg", d |-> x]>> ELSE <<>> IN
               /\ links' = Append(links, [a |-> d, b |-> m.b, ab |-> r(d), ba |-> r(m.b)])
               /\ tasks' = IF Prompt THEN tasks ELSE tasks \cup {<<"reg", k, d>>, <<"reg", k, m.b>>}
            /\ UNCHANGED <<phase, hin, starting>>
  /\ hout' = [hout EXCEPT ![d] = Tail(@)]
  /\ UNCHANGED <<rpcVars, regs, pend, known, waiting, running>>

Register(x) ==
  /\ x \in RegTasks /\ tasks' = tasks \ {x}
  /\ links' = SendOn(links, x[2], x[3], [t |-> "reg", d |-> x[3]])
  /\ UNCHANGED <<rpcVars, phase, hin, hout, regs, pend, known, waiting, starting, running>>

StartOne(x) == x \in starting /\ starting' = starting \ {x} /\ StartFeature(x[1], x[2])
               /\ UNCHANGED <<phase, hin, hout, regs, pend, links, known, waiting, tasks, running>>

Call(d, s) ==
  LET i == Cardinality(DOMAIN calls) + 1 IN
  /\ i <= MaxCalls /\ \E f \in DOMAIN Carried[d] : <<d, f>> \in up
  /\ Make(i, d, s, "Add", <<>>, TRUE, 0)
  /\ IF s \in DOMAIN Carried[d]
     THEN running' = running \cup {<<i, 0>>} /\ UNCHANGED <<waiting, tasks>>
     ELSE /\ waiting' = [waiting EXCEPT ![d] = RPut(@, i, 0)]
          /\ tasks' = tasks \cup {<<"commit", d, i>>} /\ UNCHANGED running
  /\ UNCHANGED <<phase, hin, hout, regs, pend, links, known, starting>>
CommitTask(x) ==
  /\ x \in tasks /\ x[1] = "commit" /\ tasks' = tasks \ {x}
  /\ IF x[3] \in DOMAIN waiting[x[2]]
     THEN LET st == Commit(<<hin, links, waiting>>, x[2], x[3]) IN hin' = st[1] /\ links' = st[2] /\ waiting' = st[3]
     ELSE UNCHANGED <<hin, links, waiting>>
  /\ UNCHANGED <<rpcVars, phase, hout, regs, pend, known, starting, running>>

(* A message on connection k reaches dock d. *)
DockFromDock(k, d) ==
  LET fromA == links[k].b = d
      q == IF fromA THEN links[k].ab ELSE links[k].ba
      ls == IF fromA THEN [links EXCEPT ![k].ab = Tail(@)] ELSE [links EXCEPT ![k].ba = Tail(@)] IN
  /\ links[k].a = d \/ links[k].b = d
  /\ q # <<>>
  /\ LET m == Head(q) IN
     CASE m.t = "reg" ->
            /\ links' = SendOn(ls, k, d, [t |-> "ready", d |-> d])
            /\ known' = [known EXCEPT ![d] = [s \in DOMAIN @ \cup DiscOf(m.d) |-> IF s \in DiscOf(m.d) THEN k ELSE @[s]]]
            /\ UNCHANGED <<rpcVars, hin, waiting, running>>
       [] m.t = "ready" ->
            /\ LET st == CommitAll(<<hin, ls, waiting>>, d, {i \in DOMAIN waiting[d] : calls[i].to \in DiscOf(m.d)}) IN
               hin' = st[1] /\ links' = st[2] /\ waiting' = st[3]
            /\ UNCHANGED <<rpcVars, known, running>>
       [] m.t = "req" ->
            /\ links' = ls /\ running' = running \cup {<<m.i, k>>}
            /\ UNCHANGED <<rpcVars, hin, known, waiting>>
       [] m.t = "resp" ->
            /\ links' = ls
            /\ IF m.i \in DOMAIN waiting[d]
               THEN waiting' = [waiting EXCEPT ![d] = [x \in DOMAIN @ \ {m.i} |-> @[x]]] /\ Return(m.i, TRUE)
               ELSE UNCHANGED <<waiting, rpcVars>>
            /\ UNCHANGED <<hin, known, running>>
  /\ UNCHANGED <<phase, hout, regs, pend, tasks, starting>>

Host(x) == IF x[2] = 0 THEN calls[x[1]].d
           ELSE IF links[x[2]].a = calls[x[1]].d THEN links[x[2]].b ELSE links[x[2]].a
Exec(x) ==
  /\ x \in running
  /\ \/ calls[x[1]].runs = 0 /\ Run(x[1], Host(x)) /\ UNCHANGED design
     \/ calls[x[1]].runs = 1 /\ ~calls[x[1]].out.done /\ Finish(x[1], <<>>) /\ UNCHANGED design
     \/ /\ calls[x[1]].out.done
        /\ running' = running \ {x}
        /\ IF x[2] = 0 THEN Return(x[1], TRUE) /\ UNCHANGED links
           ELSE links' = SendOn(links, x[2], Host(x), [t |-> "resp", i |-> x[1]]) /\ UNCHANGED rpcVars
        /\ UNCHANGED <<phase, hin, hout, regs, pend, known, waiting, tasks, starting>>

OnLink(k) == k <= Len(links) /\ \E d \in {links[k].a, links[k].b} : DockFromDock(k, d)
Users == (\E d \in Docks : StartDock(d)) \/ (\E d \in Docks, s \in Slots : Call(d, s))
System ==
  \/ \E d \in Docks : HubProc(d) \/ DockFromHub(d)
  \/ \E x \in DOMAIN pend : HubAnswer(x)
  \/ \E x \in tasks : Register(x) \/ CommitTask(x)
  \/ \E x \in starting : StartOne(x)
  \/ \E k \in 1..Len(links) : OnLink(k)
  \/ \E x \in running : Exec(x)
Next == Users \/ System
Spec == Init /\ [][Next]_vars

Idle == /\ tasks = {} /\ starting = {} /\ running = {}
        /\ \A d \in Docks : hin[d] = <<>> /\ hout[d] = <<>>
        /\ \A k \in 1..Len(links) : links[k].ab = <<>> /\ links[k].ba = <<>>
        /\ \A x \in DOMAIN pend : pend[x] = 0 \/ Providers(x[2]) = {}
---------------------------------------------------------------------------
(* What Rpc promises *)
RpcNext ==
  \/ \E d \in Docks, f \in Slots : StartFeature(d, f) /\ Carries(d, f)
  \/ \E i \in 1..MaxCalls, d \in Docks, s \in Slots : Make(i, d, s, "Add", <<>>, TRUE, 0)
  \/ \E i \in DOMAIN calls, d \in Docks : R01_Run(i, d, calls[i].to, "Add") /\ Run(i, d)
  \/ \E i \in DOMAIN calls : calls[i].runs = 1 /\ ~calls[i].out.done /\ Finish(i, <<>>)
  \/ \E i \in DOMAIN calls : R01_Return(i, TRUE) /\ R02_Return(i, TRUE, <<>>) /\ Return(i, TRUE)
RpcSpec == RpcInit(Carried) /\ [][RpcNext]_rpcVars

AtRest == Idle => AtRest_R03 /\ AtRest_R01
OnceEach == \A d \in Docks : Cardinality({k \in 1..Len(regs) : regs[k].d = d}) <= 1
(* Docks only know connections to those that carry the slot, and request on those. *)
Sane == \A d \in Docks : \A s \in DOMAIN known[d] :
          LET k == known[d][s] IN (links[k].a = d /\ s \in DiscOf(links[k].b)) \/ (links[k].b = d /\ s \in DiscOf(links[k].a))
FairSpec == Spec /\ WF_vars(System)
            /\ \A d \in Docks : WF_vars(HubProc(d)) /\ WF_vars(DockFromHub(d))
            /\ WF_vars(\E x \in DOMAIN pend : HubAnswer(x)) /\ WF_vars(\E x \in tasks : Register(x) \/ CommitTask(x))
            /\ WF_vars(\E x \in starting : StartOne(x))
            /\ WF_vars(\E x \in running : Exec(x))
            /\ \A k \in 1..MaxLinks : WF_vars(OnLink(k))
Completes == \A i \in 1..MaxCalls : (i \in DOMAIN calls /\ Available(i)) ~> (i \in DOMAIN calls /\ calls[i].st = "ok")
=============================================================================
