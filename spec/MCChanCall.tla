------------------------------ MODULE MCChanCall ----------------------------
(* The design: a request channel of capacity 2 and a routine that takes    *)
(* requests from it, a timer per request, a reply channel per call. Checked*)
(* against the formulas of ChanCall in discrete time.                      *)
EXTENDS ChanCall, TLC

CONSTANTS Callers, MaxCalls, MaxTime, LastCall, Durations, Methods, Limit0, Limits, Shared

VARIABLES now, of, sendq, queue, cur, timers, done, reply, wrong, nlim
design == <<now, of, sendq, queue, cur, timers, done, reply, nlim>>
vars == <<ccVars, design, wrong>>
Check(id, cond) == wrong' = IF cond THEN wrong ELSE wrong \cup {id}
Keep == UNCHANGED <<of, nlim>>

Init == /\ CCInit /\ now = 0 /\ of = <<>> /\ sendq = <<>> /\ queue = <<>> /\ cur = 0 /\ timers = {} /\ done = {} /\ reply = <<>> /\ wrong = {} /\ nlim = 0

Busy(c) == \E i \in DOMAIN calls : of[i] = c /\ calls[i].st = "made"
Call(c, dur, m) ==
  LET i == Cardinality(DOMAIN calls) + 1 IN
  /\ now <= LastCall /\ i <= MaxCalls /\ (Shared \/ ~Busy(c))
  /\ Make(i, "o", m, <<>>, TRUE, dur, TRUE, now, Limit0)
  /\ of' = CPut(of, i, c) /\ sendq' = Append(sendq, i)
  /\ UNCHANGED <<now, queue, cur, timers, done, reply, wrong, nlim>>
ChangeLimit(m, d) ==
  /\ nlim < 1 /\ now <= LastCall /\ nlim' = nlim + 1 /\ SetLimit("o", m, d)
  /\ UNCHANGED <<now, of, sendq, queue, cur, timers, done, reply, wrong>>
Accept ==
  /\ sendq # <<>> /\ Len(queue) < 2
  /\ queue' = Append(queue, Head(sendq)) /\ sendq' = Tail(sendq)
  /\ Keep /\ UNCHANGED <<ccVars, now, cur, timers, done, reply, wrong>>
Take ==
  /\ cur = 0 /\ queue # <<>>
  /\ LET i == Head(queue) IN
     /\ cur' = i /\ queue' = Tail(queue)
     /\ timers' = timers \cup {<<i, now + LimitOf("o", calls[i].m, Limit0)>>}
     /\ Check("C01", C01_Begin(i, 0) /\ C04_Begin(i, "o", calls[i].m)) /\ Begin(i, now, Limit0)
  /\ Keep /\ UNCHANGED <<now, sendq, done, reply>>
Finish ==
  /\ cur # 0 /\ calls[cur].ended = Never /\ calls[cur].begun + calls[cur].dur = now
  /\ End(cur, now, <<cur>>)
  /\ Keep /\ UNCHANGED <<now, sendq, queue, cur, timers, done, reply, wrong>>
Result ==
  /\ cur # 0 /\ calls[cur].ended # Never
  /\ cur' = 0
  /\ IF cur \in done THEN UNCHANGED <<done, reply>> ELSE done' = done \cup {cur} /\ reply' = CPut(reply, cur, [ok |-> TRUE, res |-> <<cur>>])
  /\ Keep /\ UNCHANGED <<ccVars, now, sendq, queue, timers, wrong>>
Fire(x) ==
  /\ x \in timers /\ x[2] <= now
  /\ timers' = timers \ {x}
  /\ IF x[1] \in done THEN UNCHANGED <<done, reply>> ELSE done' = done \cup {x[1]} /\ reply' = CPut(reply, x[1], [ok |-> FALSE, res |-> <<>>])
  /\ Keep /\ UNCHANGED <<ccVars, now, sendq, queue, cur, wrong>>
Zero(d) == 0
Receive(i) ==
  /\ i \in DOMAIN reply /\ calls[i].st = "made"
  /\ Check("C02/3", C02_Return(i, reply[i].ok, reply[i].res) /\ C03_Return(i, reply[i].ok, now, 0, Zero, 0) /\ C04_Return(i, reply[i].ok, reply[i].res))
  /\ Return(i, reply[i].ok)
  /\ Keep /\ UNCHANGED <<now, sendq, queue, cur, timers, done, reply>>
Immediate == Accept \/ Take \/ Finish \/ Result \/ (\E x \in timers : Fire(x)) \/ (\E i \in DOMAIN reply : Receive(i))
Tick == /\ ~ENABLED Immediate /\ now < MaxTime /\ now' = now + 1
        /\ UNCHANGED <<ccVars, of, sendq, queue, cur, timers, done, reply, wrong, nlim>>
User == (\E c \in Callers, d \in Durations, m \in Methods : Call(c, d, m)) \/ (\E m \in {"Work"}, d \in Limits : ChangeLimit(m, d))
Next == Immediate \/ Tick \/ User
Spec == Init /\ [][Next]_vars /\ WF_vars(Immediate) /\ WF_vars(Tick)
Right == wrong = {}
AtRest == ~ENABLED Immediate /\ now = MaxTime  => AtRest_C01 /\ AtRest_C02 /\ AtRest_C04
=============================================================================
