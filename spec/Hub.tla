-------------------------------- MODULE Hub --------------------------------
(***************************************************************************)
(* The hub: port assignment and discovery.                                 *)
(*                                                                         *)
(* Docks connect, register the features they offer, get a port, announce   *)
(* themselves ready, ask for the address of a provider of a feature, and   *)
(* leave. Messages of one connection are processed in their order; the     *)
(* messages of different connections, and the routines that wait for a     *)
(* provider, interleave freely. One action per critical section of hub.go. *)
(*                                                                         *)
(* The actions take what the hub chooses (port, provider) as parameters.   *)
(* MCHub enumerates the choices the design makes; HubTrace binds them to   *)
(* what a real hub was seen to do, and judges that with the formulas named *)
(* by property below.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS LowPort, HighPort   \* 20001, 49000

VARIABLES
  black,    \* set of <<low, high>>: ports low..high are never to be assigned
  conns,    \* conn -> [host, open]: connections made so far, as the docks see them
  inbox,    \* conn -> sequence of messages sent and not yet processed by the hub
  regs,     \* all registrations in the order processed:
            \*   [c, host, port, slots, ready, live]
  used,     \* set of <<host, low, high>>: ports low..high of the host are assigned
  owed,     \* conn -> sequence of ports assigned and not yet told
  pend,     \* queries processed and not answered: [q, c, s, floor, dead]
            \*   floor: lowest "newest ready provider" there was since it was processed
            \*   dead: providers gone when it was processed
  done      \* queries answered

hubVars == <<black, conns, inbox, regs, used, owed, pend, done>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b

HubInit(bl) ==
  /\ black = bl
  /\ conns = <<>> /\ inbox = <<>> /\ owed = <<>>
  /\ regs = <<>> /\ used = {} /\ pend = {} /\ done = {}

---------------------------------------------------------------------------
(* Providers *)
ReadyFor(rs, s) == {i \in 1..Len(rs) : rs[i].live /\ s \in rs[i].ready}
Newest(rs, s) == IF ReadyFor(rs, s) = {} THEN 0 ELSE MaxOf(ReadyFor(rs, s))
Refloor(rs) == {[p EXCEPT !.floor = Min2(@, Newest(rs, p.s))] : p \in pend}

---------------------------------------------------------------------------
(* The docks' side *)
Connect(c, h) ==
  /\ c \notin DOMAIN conns
  /\ conns' = Put(conns, c, [host |-> h, open |-> TRUE])
  /\ inbox' = Put(inbox, c, <<>>)
  /\ owed' = Put(owed, c, <<>>)
  /\ UNCHANGED <<black, regs, used, pend, done>>

Send(c, m) ==
  /\ c \in DOMAIN conns /\ conns[c].open
  /\ inbox' = [inbox EXCEPT ![c] = Append(@, m)]
  /\ UNCHANGED <<black, conns, regs, used, owed, pend, done>>

Hangup(c) ==
  /\ c \in DOMAIN conns /\ conns[c].open
  /\ conns' = [conns EXCEPT ![c].open = FALSE]
  /\ inbox' = [inbox EXCEPT ![c] = Append(@, [t |-> "eof"])]
  /\ UNCHANGED <<black, regs, used, owed, pend, done>>

---------------------------------------------------------------------------
(* The hub's side *)
Next1(c, t) == c \in DOMAIN inbox /\ inbox[c] # <<>> /\ Head(inbox[c]).t = t
Pop(c) == inbox' = [inbox EXCEPT ![c] = Tail(@)]

(* A registration gets port p. *)
ProcReg(c, p) ==
  /\ Next1(c, "reg") /\ Pop(c)
  /\ regs' = Append(regs, [c |-> c, host |-> conns[c].host, port |-> p,
                           slots |-> Head(inbox[c]).s, ready |-> {}, live |-> TRUE])
  /\ used' = used \cup {<<conns[c].host, p, p>>}
  /\ owed' = [owed EXCEPT ![c] = Append(@, p)]
  /\ UNCHANGED <<black, conns, pend, done>>

(* The first registration of each feature by this dock becomes ready. *)
ProcReady(c) ==
  /\ Next1(c, "ready") /\ Pop(c)
  /\ LET S == Head(inbox[c]).s
         First(s) == {i \in 1..Len(regs) : /\ regs[i].c = c /\ s \in regs[i].slots
                        /\ \A j \in 1..(i-1) : ~(regs[j].c = c /\ s \in regs[j].slots)}
         rs == [i \in 1..Len(regs) |-> [regs[i] EXCEPT !.ready = @ \cup {s \in S : i \in First(s)}]]
     IN regs' = rs /\ pend' = Refloor(rs)
  /\ UNCHANGED <<black, conns, used, owed, done>>

NewPend(c, m) == [q |-> m.q, c |-> c, s |-> m.s, floor |-> Newest(regs, m.s),
                  dead |-> {i \in 1..Len(regs) : ~regs[i].live}]
ProcQuery(c) ==
  /\ Next1(c, "query") /\ Pop(c)
  /\ pend' = pend \cup {NewPend(c, Head(inbox[c]))}
  /\ UNCHANGED <<black, conns, regs, used, owed, done>>

(* The dock is gone. *)
ProcEof(c) ==
  /\ Next1(c, "eof") /\ Pop(c)
  /\ LET rs == [i \in 1..Len(regs) |-> IF regs[i].c = c THEN [regs[i] EXCEPT !.live = FALSE] ELSE regs[i]]
     IN regs' = rs /\ pend' = {p \in Refloor(rs) : p.c # c}
  /\ UNCHANGED <<black, conns, used, owed, done>>

(* The hub tells the port of a registration. *)
TellPort(c) ==
  /\ c \in DOMAIN owed /\ owed[c] # <<>>
  /\ owed' = [owed EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED <<black, conns, inbox, regs, used, pend, done>>

(* The hub answers query p (with provider i). *)
Answer(p) ==
  /\ p \in pend
  /\ pend' = pend \ {p} /\ done' = done \cup {p}
  /\ UNCHANGED <<black, conns, inbox, regs, used, owed>>

---------------------------------------------------------------------------
(* What the hub may choose, by property *)

Black1(p) == \E b \in black : b[1] <= p /\ p <= b[2]
Taken(h, p) == \E u \in used : u[1] = h /\ u[2] <= p /\ p <= u[3]
H01_Port(h, p) == p \in LowPort..HighPort /\ ~Black1(p) /\ ~Taken(h, p)
H02_Provider(p, i) == p.s \in regs[i].ready           \* registered it and announced itself ready
H03_Recent(p, i) == i >= p.floor                      \* nothing newer was ready all the time
H05_There(p, i) == i \notin p.dead                    \* not gone already when the query came

(* Nothing is left undone when nothing is in progress. *)
Idle == \A c \in DOMAIN inbox : inbox[c] = <<>>
H01_AllTold == \A c \in DOMAIN conns : conns[c].open => owed[c] = <<>>
H04_AllAnswered == \A p \in pend : conns[p.c].open => ReadyFor(regs, p.s) = {}
=============================================================================
