------------------------------- MODULE MCHub -------------------------------
(* The hub's design, explored exhaustively for a few docks: the hub takes  *)
(* the next port that isn't on the black list for the host, and the newest *)
(* ready provider at the moment it answers.                                *)
EXTENDS Hub, TLC

CONSTANTS Conns, Hosts, Slots, Black, MaxQueries

VARIABLES told,      \* history: <<host, port>> told, in order
          answers,   \* history: set of [p, i, at] : query, provider chosen
          nq, sentReg, sentReady
vars == <<hubVars, told, answers, nq, sentReg, sentReady>>

Init == /\ HubInit({<<b, b>> : b \in Black}) /\ told = <<>> /\ answers = {} /\ nq = 0
        /\ sentReg = {} /\ sentReady = {}

NextPort(h) ==   \* what hub.go:allocate computes
  LET last == IF \E x \in used : x[1] = h THEN MaxOf({x[2] : x \in {y \in used : y[1] = h}}) ELSE LowPort - 1
  IN CHOOSE p \in (last + 1)..(HighPort + 1) : p \notin Black /\ \A q \in (last + 1)..(p - 1) : q \in Black

SlotsOf(c) == LET r == SelectSeq(regs, LAMBDA x : x.c = c) IN IF r = <<>> THEN {} ELSE r[1].slots

DockSteps ==
  \/ \E c \in Conns, h \in Hosts : Connect(c, h) /\ UNCHANGED <<told, answers, nq, sentReg, sentReady>>
  \/ \E c \in Conns \ sentReg, S \in SUBSET Slots :
        Send(c, [t |-> "reg", s |-> S]) /\ sentReg' = sentReg \cup {c} /\ UNCHANGED <<told, answers, nq, sentReady>>
  \/ \E c \in sentReg \ sentReady :   \* only after it was told its port
        /\ \E i \in 1..Len(regs) : regs[i].c = c
        /\ owed[c] = <<>>
        /\ Send(c, [t |-> "ready", s |-> SlotsOf(c)]) /\ sentReady' = sentReady \cup {c}
        /\ UNCHANGED <<told, answers, nq, sentReg>>
  \/ \E c \in Conns, s \in Slots :
        /\ nq < MaxQueries /\ nq' = nq + 1
        /\ Send(c, [t |-> "query", s |-> s, q |-> nq]) /\ UNCHANGED <<told, answers, sentReg, sentReady>>
  \/ \E c \in Conns : Hangup(c) /\ UNCHANGED <<told, answers, nq, sentReg, sentReady>>

HubSteps ==
  \/ \E c \in Conns :
       \/ /\ Next1(c, "reg")
          /\ LET p == NextPort(conns[c].host) IN p <= HighPort /\ ProcReg(c, p)
          /\ UNCHANGED <<told, answers>>
       \/ ProcReady(c) /\ UNCHANGED <<told, answers>>
       \/ ProcQuery(c) /\ UNCHANGED <<told, answers>>
       \/ ProcEof(c) /\ UNCHANGED <<told, answers>>
       \/ TellPort(c) /\ told' = Append(told, <<conns[c].host, Head(owed[c])>>) /\ UNCHANGED answers
  \/ \E p \in pend :
       /\ Newest(regs, p.s) # 0
       /\ Answer(p)
       /\ answers' = answers \cup {[p |-> p, i |-> Newest(regs, p.s)]} /\ UNCHANGED told

Next == DockSteps \/ (HubSteps /\ UNCHANGED <<nq, sentReg, sentReady>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(HubSteps /\ UNCHANGED <<nq, sentReg, sentReady>>)

---------------------------------------------------------------------------
H01 == \A i, j \in 1..Len(told) : /\ told[i][2] \in LowPort..HighPort /\ told[i][2] \notin Black
                                  /\ (i # j => told[i] # told[j])
H02 == \A a \in answers : H02_Provider(a.p, a.i)
H03 == \A a \in answers : H03_Recent(a.p, a.i)
H04_Once == \A a, b \in answers : a.p.q = b.p.q => a = b
H05 == \A a \in answers : H05_There(a.p, a.i)
(* Eventually everything that can be answered is. *)
H04_Live == \A n \in 0..(MaxQueries - 1) :
   (\E p \in pend : p.q = n /\ ReadyFor(regs, p.s) # {}) ~>
   (\/ \E a \in answers : a.p.q = n
    \/ \E c \in Conns : c \in DOMAIN conns /\ ~conns[c].open)
H01_Live == \A c \in Conns : (c \in DOMAIN inbox /\ inbox[c] # <<>>) ~> (c \in DOMAIN inbox /\ inbox[c] = <<>>)
H01_Told == \A c \in Conns : (c \in DOMAIN owed /\ owed[c] # <<>>) ~> (c \in DOMAIN owed /\ owed[c] = <<>>)
=============================================================================
