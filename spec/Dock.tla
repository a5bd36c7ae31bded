-------------------------------- MODULE Dock --------------------------------
(***************************************************************************)
(* One dock, as its hub, the other docks and its own features see it.      *)
(*                                                                         *)
(* State: everything observed so far. For each thing the dock may do there *)
(* is an update (Do...) and, by property, the formula that says when it is *)
(* right; for each property there is what must not be left undone when     *)
(* nothing moves any more (AtRest...). MCDock runs a design of the dock    *)
(* against these in all environments; DockTrace the real dock.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  carried,   \* feature -> whether discoverable
  hub,       \* [up, regs, assigned, ready]: what passed on the hub connection
  asked,     \* slot -> number of queries
  answered,  \* slot -> number of answers to them
  given,     \* ends named in answers
  begun,     \* feature -> number of starts
  gone,      \* feature -> number of destructions
  links,     \* link -> [end, open, got, offers, ready, announced]
             \*   got/ready: registrations/announcements received from the dock
             \*   offers: registrations sent to the dock; announced: slots announced to it
  calls,     \* id -> [to, m, args, wr, ms, at, tries, st, resp, runs, out]
  reqs,      \* id -> [k, idx, to, m, args, wr, ms, runs, out, resp]
  closing    \* "no", "begun", "done"

dockVars == <<carried, hub, asked, answered, given, begun, gone, links, calls, reqs, closing>>

PutD(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Inc(f, k) == PutD(f, k, Get(f, k) + 1)

DockInit(cs) ==
  /\ carried = cs
  /\ hub = [up |-> 0, regs |-> 0, assigned |-> FALSE, ready |-> 0]
  /\ asked = <<>> /\ answered = <<>> /\ given = {} /\ begun = <<>> /\ gone = <<>>
  /\ links = <<>> /\ calls = <<>> /\ reqs = <<>> /\ closing = "no"

Disc == {f \in DOMAIN carried : carried[f]}
Local(s) == s \in DOMAIN carried
Range(q) == {q[i] : i \in 1..Len(q)}
(* The sequence of names S names exactly the discoverable features, each once. *)
ExactlyDisc(S) == Len(S) = Cardinality(Disc) /\ Range(S) = Disc

NoResp == [sent |-> FALSE, ok |-> FALSE, res |-> <<>>]
NoOut == [done |-> FALSE, res |-> <<>>]

---------------------------------------------------------------------------
(* The environment *)
HubUp == hub' = [hub EXCEPT !.up = @ + 1] /\ UNCHANGED <<carried, asked, answered, given, begun, gone, links, calls, reqs, closing>>
Assign == hub' = [hub EXCEPT !.assigned = TRUE] /\ UNCHANGED <<carried, asked, answered, given, begun, gone, links, calls, reqs, closing>>
AnswerQuery(s, e) ==
  /\ answered' = Inc(answered, s) /\ given' = given \cup {e}
  /\ UNCHANGED <<carried, hub, asked, begun, gone, links, calls, reqs, closing>>
NewLink(k, e) ==
  /\ links' = PutD(links, k, [end |-> e, open |-> TRUE, got |-> 0, offers |-> <<>>, ready |-> 0, announced |-> {}])
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, calls, reqs, closing>>
FakeReg(k, S) ==
  /\ links' = [links EXCEPT ![k].offers = Append(@, S)]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, calls, reqs, closing>>
FakeReady(k, S) ==
  /\ links' = [links EXCEPT ![k].announced = @ \cup S]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, calls, reqs, closing>>
FakeClose(k) ==
  /\ links' = [links EXCEPT ![k].open = FALSE]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, calls, reqs, closing>>
FakeRequest(i, k, idx, to, m, args, wr, ms) ==
  /\ reqs' = PutD(reqs, i, [k |-> k, idx |-> idx, to |-> to, m |-> m, args |-> args, wr |-> wr, ms |-> ms,
                            runs |-> 0, out |-> NoOut, resp |-> 0])
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, calls, closing>>
FakeRespond(i, ok, res) ==
  /\ calls' = [calls EXCEPT ![i].resp = [sent |-> TRUE, ok |-> ok, res |-> res]]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, reqs, closing>>
MakeCall(i, to, m, args, wr, ms) ==
  /\ calls' = PutD(calls, i, [to |-> to, m |-> m, args |-> args, wr |-> wr, ms |-> ms, at |-> 0, tries |-> 0,
                              st |-> "made", resp |-> NoResp, runs |-> 0, out |-> NoOut])
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, reqs, closing>>
StartClosing ==
  /\ closing' = "begun"
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, calls, reqs>>
ClosedAll ==
  /\ closing' = "done"
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, calls, reqs>>

---------------------------------------------------------------------------
(* What the dock does, and when it is right *)

D01_Register == hub.regs = 0
D02_Names(S) == ExactlyDisc(S)
DoRegister == hub' = [hub EXCEPT !.regs = @ + 1] /\ UNCHANGED <<carried, asked, answered, given, begun, gone, links, calls, reqs, closing>>

D01_Ready(reach) == hub.assigned /\ hub.ready = 0 /\ reach
DoReady == hub' = [hub EXCEPT !.ready = @ + 1] /\ UNCHANGED <<carried, asked, answered, given, begun, gone, links, calls, reqs, closing>>

D03_Start(f, reach) == Local(f) /\ hub.assigned /\ reach /\ Get(begun, f) = 0
DoStart(f) == begun' = Inc(begun, f) /\ UNCHANGED <<carried, hub, asked, answered, given, gone, links, calls, reqs, closing>>

D03_Destroy(f) == Local(f) /\ closing = "begun" /\ Get(gone, f) = 0
DoDestroy(f) == gone' = Inc(gone, f) /\ UNCHANGED <<carried, hub, asked, answered, given, begun, links, calls, reqs, closing>>

D04_Query(s) == ~Local(s) /\ \E i \in DOMAIN calls : calls[i].to = s
DoQuery(s) == asked' = Inc(asked, s) /\ UNCHANGED <<carried, hub, answered, given, begun, gone, links, calls, reqs, closing>>

D04_Dial(e) == e \in given

D05_Register(k) == links[k].got = 0
DoLinkRegister(k) ==
  /\ links' = [links EXCEPT ![k].got = @ + 1]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, calls, reqs, closing>>
D05_Ready(k) == links[k].ready < Len(links[k].offers)
DoLinkReady(k) ==
  /\ links' = [links EXCEPT ![k].ready = @ + 1]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, calls, reqs, closing>>

Offered(k) == UNION {links[k].offers[j] : j \in 1..Len(links[k].offers)}
D04_Request(to) == ~Local(to)
(* Each call's request is sent once, to a dock that offers the feature, as the call was made. *)
R01_Request(i, k, to, m, args, wr) ==
  /\ i \in DOMAIN calls /\ calls[i].tries = 0
  /\ calls[i].to = to /\ calls[i].m = m /\ calls[i].args = args /\ calls[i].wr = wr
  /\ to \in Offered(k)
DoRequest(i, k) ==
  /\ calls' = [calls EXCEPT ![i].at = k, ![i].tries = @ + 1]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, reqs, closing>>

(* A method runs: for a call of this dock, or for a request from outside. *)
R01_Run(i, f, m, args) ==
  \/ i \in DOMAIN calls /\ calls[i].runs = 0 /\ calls[i].to = f /\ calls[i].m = m /\ calls[i].args = args
  \/ i \in DOMAIN reqs /\ reqs[i].runs = 0 /\ reqs[i].to = f /\ reqs[i].m = m /\ reqs[i].args = args
DoRun(i) ==
  /\ calls' = IF i \in DOMAIN calls THEN [calls EXCEPT ![i].runs = @ + 1] ELSE calls
  /\ reqs' = IF i \in DOMAIN reqs THEN [reqs EXCEPT ![i].runs = @ + 1] ELSE reqs
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, closing>>
DoRan(i, res) ==
  /\ calls' = IF i \in DOMAIN calls THEN [calls EXCEPT ![i].out = [done |-> TRUE, res |-> res]] ELSE calls
  /\ reqs' = IF i \in DOMAIN reqs THEN [reqs EXCEPT ![i].out = [done |-> TRUE, res |-> res]] ELSE reqs
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, closing>>

(* A call returns. bad: it can't succeed where it runs (wrong method, arguments, or too slow). *)
Lost(i) == calls[i].at # 0 /\ ~links[calls[i].at].open
R02_Return(i, ok, res, bad) ==
  /\ calls[i].st = "made"
  /\ IF Local(calls[i].to)
     THEN ok => calls[i].out.done /\ res = (IF calls[i].wr THEN calls[i].out.res ELSE <<>>)
     ELSE ok => calls[i].resp.sent /\ calls[i].resp.ok /\ res = (IF calls[i].wr THEN calls[i].resp.res ELSE <<>>)
R06_Return(i, ok, bad) ==
  IF Local(calls[i].to) THEN ok = ~bad ELSE calls[i].resp.sent => ok = calls[i].resp.ok \/ Lost(i)
(* There is no error without a reason. (A request that was never seen may be lost with a closed link, too.) *)
MayBeLost(i) == \/ Lost(i)
                \/ calls[i].at = 0 /\ \E k \in DOMAIN links : ~links[k].open /\ calls[i].to \in Offered(k)
D06_Return(i, ok) == ~ok => Local(calls[i].to) \/ MayBeLost(i) \/ (calls[i].resp.sent /\ ~calls[i].resp.ok) \/ closing # "no"
DoReturn(i, ok) ==
  /\ calls' = [calls EXCEPT ![i].st = IF ok THEN "ok" ELSE "failed"]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, reqs, closing>>

(* The dock responds to request i. *)
R04_Respond(i, k, to, m, ok, res, bad) ==
  /\ reqs[i].resp = 0 /\ reqs[i].k = k /\ reqs[i].to = to /\ reqs[i].m = m
  /\ ok = ~bad
  /\ ok => reqs[i].out.done /\ res = (IF reqs[i].wr THEN reqs[i].out.res ELSE <<>>)
DoRespond(i) ==
  /\ reqs' = [reqs EXCEPT ![i].resp = @ + 1]
  /\ UNCHANGED <<carried, hub, asked, answered, given, begun, gone, links, calls, closing>>

---------------------------------------------------------------------------
(* What must not be left undone when nothing moves any more *)
Alive == closing = "no"
AtRest_D01 == Alive => (hub.up > 0 => hub.regs = 1) /\ (hub.assigned => hub.ready = 1)
AtRest_D02 == Alive => \A i \in DOMAIN calls : Local(calls[i].to) /\ ~carried[calls[i].to] => calls[i].st # "made" /\ calls[i].runs = 1
AtRest_D03 == /\ Alive /\ hub.assigned => \A f \in DOMAIN carried : Get(begun, f) = 1
              /\ closing = "done" => \A f \in DOMAIN carried : Get(gone, f) = 1
AtRest_D04(bad(_)) == Alive => \A i \in DOMAIN calls : Local(calls[i].to) /\ ~bad(i) => calls[i].runs = 1
AtRest_D05 == Alive => \A k \in DOMAIN links : links[k].open => links[k].got = 1 /\ links[k].ready = Len(links[k].offers)
AtRest_D06 == Alive => \A i \in DOMAIN calls : Lost(i) => calls[i].st # "made"
(* A connection a call to s may be waiting for: the other side hasn't said all it has to. *)
Handshaking(k, s) == links[k].open /\ ~(links[k].offers # <<>> /\ links[k].announced # {})
(* A call that isn't sent waits for an answer of the hub, or for another dock. *)
Waiting(i) == \/ Get(asked, calls[i].to) > Get(answered, calls[i].to)
              \/ \E k \in DOMAIN links : Handshaking(k, calls[i].to)
AtRest_Sent == Alive => \A i \in DOMAIN calls : ~Local(calls[i].to) /\ calls[i].tries = 0 /\ calls[i].st = "made" => Waiting(i)
AtRest_R01 == \A i \in DOMAIN calls : Local(calls[i].to) /\ calls[i].st = "ok" => calls[i].runs = 1
AtRest_R03 ==
  /\ AtRest_Sent
  /\ Alive => \A i \in DOMAIN calls :
       calls[i].st = "made" => ~Local(calls[i].to) /\ ~calls[i].resp.sent
AtRest_R04 == Alive => \A i \in DOMAIN reqs : links[reqs[i].k].open => reqs[i].resp = 1
=============================================================================
