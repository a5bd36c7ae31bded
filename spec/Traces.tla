------------------------------- MODULE Traces -------------------------------
(* Reading recorded histories and reporting how much of each the           *)
(* specification explains. The input (env TRACES) is                       *)
(*   {"check": [property ids], "traces": [{"events": [...], ...}, ...]}    *)
(* Only what the properties in "check" say is enforced.                    *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACES)
Trs == Input.traces
On(id) == \E i \in 1..Len(Input.check) : Input.check[i] = id
(* cond must hold if property id is being checked ("= TRUE": as a value, else TLC makes a step of each way it holds) *)
G(id, cond) == (On(id) => cond) = TRUE

VARIABLES tr,  \* number of the trace being explained
          l    \* next event of it

Events == Trs[tr].events
Ev == Events[l]
Is(name) == l <= Len(Events) /\ Ev.e = name
Step == l' = l + 1 /\ UNCHANGED tr
Quiet == UNCHANGED <<tr, l>>

ToSet(seq) == {seq[i] : i \in 1..Len(seq)}

TracesInit == /\ tr \in 1..Len(Trs) /\ l = 1
ASSUME \A i \in 1..Len(Trs) : TLCSet(i, 1)
(* the longest explained prefix of each trace (run with one worker) *)
Progress == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Report == JsonSerialize(IOEnv.REPORT, [i \in 1..Len(Trs) |-> TLCGet(i)])
=============================================================================
