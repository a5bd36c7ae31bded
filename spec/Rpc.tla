--------------------------------- MODULE Rpc --------------------------------
(***************************************************************************)
(* What the whole system is for: features call methods of features.        *)
(* Nothing here is about hubs, connections or messages; Ferry shows that   *)
(* their protocol does this, RpcTrace that the code does.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  carried,  \* dock -> feature -> discoverable
  up,       \* <<dock, feature>> started
  gone,     \* <<dock, feature>> destroyed
  calls     \* id -> [d, to, m, args, wr, ms, st, runs, on, out]
rpcVars == <<carried, up, gone, calls>>

RPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RpcInit(cs) == carried = cs /\ up = {} /\ gone = {} /\ calls = <<>>

Carries(d, f) == d \in DOMAIN carried /\ f \in DOMAIN carried[d]
(* Values are the same but for the width and signedness of integers. *)
Int == {"i", "u"}
Same(a, b) == a = b \/ (a[1] \in Int /\ b[1] \in Int /\ a[2] = b[2])
SameAll(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Same(p[k], q[k])

---------------------------------------------------------------------------
StartFeature(d, f) == up' = up \cup {<<d, f>>} /\ UNCHANGED <<carried, gone, calls>>
DestroyFeature(d, f) == gone' = gone \cup {<<d, f>>} /\ UNCHANGED <<carried, up, calls>>

Make(i, d, to, m, args, wr, ms) ==
  /\ i \notin DOMAIN calls
  /\ calls' = RPut(calls, i, [d |-> d, to |-> to, m |-> m, args |-> args, wr |-> wr, ms |-> ms, st |-> "made",
                              runs |-> 0, on |-> d, out |-> [done |-> FALSE, res |-> <<>>]])
  /\ UNCHANGED <<carried, up, gone>>

(* Where call i may run *)
Place(i, d) ==
  LET c == calls[i] IN
  IF Carries(c.d, c.to) THEN d = c.d ELSE Carries(d, c.to) /\ carried[d][c.to]
R01_Run(i, d, f, m) == i \in DOMAIN calls /\ calls[i].runs = 0 /\ calls[i].to = f /\ calls[i].m = m /\ Place(i, d)
R05_Args(i, args) == SameAll(calls[i].args, args)
Run(i, d) == calls' = [calls EXCEPT ![i].runs = @ + 1, ![i].on = d] /\ UNCHANGED <<carried, up, gone>>
Finish(i, res) == calls' = [calls EXCEPT ![i].out = [done |-> TRUE, res |-> res]] /\ UNCHANGED <<carried, up, gone>>

R01_Return(i, ok) == ok => calls[i].runs = 1
R02_Return(i, ok, res) ==
  /\ calls[i].st = "made"
  /\ ok => calls[i].out.done
  /\ ok => IF calls[i].wr THEN Len(res) = Len(calls[i].out.res) ELSE res = <<>>
(* the results are recognizably those of the call *)
R05_Results(i, ok, res) == ok /\ calls[i].wr => SameAll(calls[i].out.res, res)
R06_Return(ok, bad) == ok = ~bad
Return(i, ok) == calls' = [calls EXCEPT ![i].st = IF ok THEN "ok" ELSE "failed"] /\ UNCHANGED <<carried, up, gone>>

Available(i) == \E x \in up : /\ x[2] = calls[i].to /\ x \notin gone
                              /\ ((carried[x[1]][x[2]] /\ ~Carries(calls[i].d, x[2])) \/ x[1] = calls[i].d)
(* A feature runs one method at a time; a method may be waiting for another call. *)
Busy(f) == \E j \in DOMAIN calls : calls[j].to = f /\ calls[j].runs > 0 /\ ~calls[j].out.done /\ calls[j].st = "made"
AtRest_R03 == \A i \in DOMAIN calls : Available(i) /\ ~Busy(calls[i].to) => calls[i].st # "made"
AtRest_R01 == \A i \in DOMAIN calls : calls[i].st = "ok" => calls[i].runs = 1
=============================================================================
