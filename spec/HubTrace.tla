------------------------------ MODULE HubTrace ------------------------------
(* Explains what fake docks saw of a real hub.                             *)
(*   Conn c h | Reg c s | Ready c s | Query c s q | Close c   sent         *)
(*   RegResp c port | Answer c addr                           received     *)
(*   Burst c n got runs  n registrations at once, and the ports told        *)
(*   Settle              the hub has had all the time it needs             *)
(*   End, Crash                                                            *)
EXTENDS Hub, Traces, Integers

vars == <<hubVars, tr, l>>

Init == TracesInit /\ HubInit(ToSet(Trs[tr].black))

Addr(r) == (IF r.host = "::1" THEN "[::1]" ELSE r.host) \o ":" \o ToString(r.port)

(* Every port of the host is taken: there is nothing right the hub could answer. *)
Exhausted(h) == \A p \in LowPort..HighPort : ~H01_Port(h, p)

(* The port the trace has for the nth registration of c (0: never told). *)
PortsTold(c) == SelectSeq(Events, LAMBDA e : e.e = "RegResp" /\ e.c = c)
TraceReg(c) ==
  LET n == Len(SelectSeq(regs, LAMBDA r : r.c = c)) + 1
      ps == PortsTold(c)
      p == IF n <= Len(ps) THEN ps[n].port ELSE 0
  IN /\ Next1(c, "reg")
     /\ G("H01", p = 0 \/ H01_Port(conns[c].host, p))
     /\ IF p = 0 /\ Trs[tr].exhaust /\ Exhausted(conns[c].host)
        THEN Pop(c) /\ UNCHANGED <<black, conns, regs, used, owed, pend, done>>
        ELSE ProcReg(c, p)

(* What the hub does unseen. Without loss of explanations it may be put off until    *)
(* something seen depends on it: the later a registration, readiness or departure is *)
(* processed, and the earlier a query, the more answers are right. (Readiness is     *)
(* what H02 is about: there it is processed as early as possible.)                   *)
Needed == \/ Ev.e = "RegResp" /\ owed[Ev.c] = <<>>
          \/ Ev.e = "Answer"
          \/ Ev.e \in {"Settle", "Burst"} /\ ~Idle
Silent ==
  /\ Quiet /\ l <= Len(Events) /\ Needed
  /\ \E c \in DOMAIN inbox : TraceReg(c) \/ ProcReady(c) \/ ProcEof(c)

EvConn == Is("Conn") /\ Connect(Ev.c, Ev.h) /\ Step
EvReg == Is("Reg") /\ Send(Ev.c, [t |-> "reg", s |-> ToSet(Ev.s)]) /\ Step
EvReady == Is("Ready") /\ Send(Ev.c, [t |-> "ready", s |-> ToSet(Ev.s)]) /\ Step
EvQuery ==
  /\ Is("Query") /\ Step
  /\ conns[Ev.c].open
  /\ pend' = pend \cup {NewPend(Ev.c, [s |-> Ev.s, q |-> Ev.q])}
  /\ UNCHANGED <<black, conns, inbox, regs, used, owed, done>>
EvClose == Is("Close") /\ Hangup(Ev.c) /\ Step

EvRegResp ==
  /\ Is("RegResp") /\ Step
  /\ IF On("H01")
     THEN owed[Ev.c] # <<>> /\ Head(owed[Ev.c]) = Ev.port /\ TellPort(Ev.c)
     ELSE IF owed[Ev.c] # <<>> THEN TellPort(Ev.c) ELSE UNCHANGED hubVars

(* An answer that fits query p. *)
Named(a) == {i \in 1..Len(regs) : Addr(regs[i]) = a}
Fits(p, a) ==
  IF Named(a) = {} THEN ~On("H02")
  ELSE \E i \in Named(a) : /\ p.s \in regs[i].slots \/ (~On("H02") /\ \A q \in pend : q.c = p.c => q.s \notin regs[i].slots)
                           /\ G("H02", H02_Provider(p, i))
                           /\ G("H03", H03_Recent(p, i))
                           /\ G("H05", H05_There(p, i))
(* Which query of a feature? What is right for a later one is right for an earlier one: the latest. *)
Latest(S) == {p \in S : \A q \in S : q.s = p.s => q.q <= p.q}
EvAnswer ==
  /\ Is("Answer") /\ Step
  /\ \/ \E p \in Latest({q \in pend : q.c = Ev.c /\ Fits(q, Ev.addr)}) : Answer(p)
     \/ /\ ~On("H04")       \* how often a query is answered is H04's business
        /\ \A p \in pend : p.c # Ev.c
        /\ \E p \in done : p.c = Ev.c /\ Fits(p, Ev.addr)
        /\ UNCHANGED hubVars
     \/ /\ ~On("H04") /\ \A p \in pend \cup done : p.c # Ev.c
        /\ G("H02", FALSE)
        /\ UNCHANGED hubVars

(* The ports of a burst come as a sorted sequence of runs <<low, high>>. *)
EvBurst ==
  /\ Is("Burst") /\ Step /\ Idle
  /\ LET h == conns[Ev.c].host
         R == Ev.runs IN
     /\ G("H01", /\ Ev.got = Ev.n
                 /\ \A i \in 1..(Len(R) - 1) : R[i][2] < R[i+1][1]
                 /\ \A i \in 1..Len(R) : /\ R[i][1] >= LowPort /\ R[i][2] <= HighPort
                                         /\ \A b \in black : b[2] < R[i][1] \/ b[1] > R[i][2]
                                         /\ \A u \in used : u[1] = h => u[3] < R[i][1] \/ u[2] > R[i][2])
     /\ used' = used \cup {<<h, R[i][1], R[i][2]>> : i \in 1..Len(R)}
  /\ UNCHANGED <<black, conns, inbox, regs, owed, pend, done>>

EvSettle ==
  /\ Is("Settle") /\ Step
  /\ Idle
  /\ G("H01", H01_AllTold)
  /\ G("H04", H04_AllAnswered)
  /\ G("H05", (\E i \in 1..Len(regs) : ~regs[i].live) => H04_AllAnswered)   \* the others are handed out as before
  /\ UNCHANGED hubVars
(* Running out of ports ends the hub. *)
EvCrash ==
  /\ Is("Crash") /\ Step /\ UNCHANGED hubVars
  /\ Trs[tr].exhaust
  /\ \E c \in DOMAIN conns : Exhausted(conns[c].host)
EvEnd == (Is("End") \/ Is("Done")) /\ Step /\ UNCHANGED hubVars

Next == \/ Silent
        \/ EvConn \/ EvReg \/ EvReady \/ EvQuery \/ EvClose
        \/ EvRegResp \/ EvAnswer \/ EvBurst \/ EvSettle \/ EvEnd \/ EvCrash
Spec == Init /\ [][Next]_vars
=============================================================================
