------------------------------- MODULE ChanCall -----------------------------
(***************************************************************************)
(* Calls to the methods of features inside a dock: a feature runs one      *)
(* method at a time, in the order of the calls; each call is replied to    *)
(* once, by its own outcome or by the time-out of its own method.          *)
(* Times are in units of the environment (the traces: microseconds).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  calls,   \* id -> [obj, m, args, wr, dur, fits, made, begun, ended, lim0, lim, res, st]
  limits   \* <<obj, method>> -> time limit
ccVars == <<calls, limits>>

CPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Never == -1
CCInit == calls = <<>> /\ limits = <<>>

LimitOf(obj, m, default) == IF <<obj, m>> \in DOMAIN limits THEN limits[<<obj, m>>] ELSE default
SetLimit(obj, m, us) == limits' = CPut(limits, <<obj, m>>, us) /\ UNCHANGED calls

(* fits: whether the object has the method and it accepts the arguments *)
Make(i, obj, m, args, wr, dur, fits, t, default) ==
  /\ calls' = CPut(calls, i, [obj |-> obj, m |-> m, args |-> args, wr |-> wr, dur |-> dur, fits |-> fits, made |-> t,
                              begun |-> Never, ended |-> Never, lim0 |-> LimitOf(obj, m, default), lim |-> 0, res |-> <<>>, st |-> "made"])
  /\ UNCHANGED limits

OnObj(i) == {j \in DOMAIN calls : j # i /\ calls[j].obj = calls[i].obj}
Overlap(i) == \E j \in OnObj(i) : calls[j].begun # Never /\ calls[j].ended = Never
(* Calls made more than sep before another one were accepted before it. *)
OutOfOrder(i, sep) == \E j \in OnObj(i) : calls[j].fits /\ calls[j].begun = Never /\ calls[j].made + sep < calls[i].made
C01_Begin(i, sep) == i \in DOMAIN calls => ~Overlap(i) /\ ~OutOfOrder(i, sep)
C04_Begin(i, obj, m) == /\ i \in DOMAIN calls /\ calls[i].begun = Never /\ calls[i].fits
                        /\ calls[i].obj = obj /\ calls[i].m = m
Begin(i, t, default) ==
  /\ calls' = [calls EXCEPT ![i].begun = t, ![i].lim = LimitOf(calls[i].obj, calls[i].m, default)]
  /\ UNCHANGED limits
End(i, t, res) == calls' = [calls EXCEPT ![i].ended = t, ![i].res = res] /\ UNCHANGED limits

C02_Return(i, ok, res) ==
  /\ calls[i].st = "made"
  /\ ok => calls[i].ended # Never /\ res = (IF calls[i].wr THEN calls[i].res ELSE <<>>)
(* lo, hi: how much too early and too late is tolerated; slack: how close the duration *)
(* may be to the limit for the outcome to be known. The limit may be read when the     *)
(* call is made or when the method starts.                                             *)
C03_Return(i, ok, t, lo, hi(_), slack) ==
  LET c == calls[i]
      d == IF c.ended = Never THEN t - c.begun ELSE c.ended - c.begun
      By(lim) == \/ /\ c.dur <= lim + slack /\ ok /\ t <= c.ended + hi(0)
                 \/ /\ ~(d + slack < lim) /\ ~ok
                    /\ t >= c.begun + lim - lo /\ t <= c.begun + lim + hi(lim)
  IN c.fits => c.begun # Never /\ (By(c.lim) \/ By(c.lim0))
C04_Return(i, ok, res) == /\ calls[i].fits \/ ~ok
                          /\ ok => calls[i].begun # Never /\ (calls[i].wr => res = calls[i].res)
Return(i, ok) == calls' = [calls EXCEPT ![i].st = IF ok THEN "ok" ELSE "failed"] /\ UNCHANGED limits

AtRest_C01 == \A i \in DOMAIN calls : calls[i].begun # Never => calls[i].ended # Never
AtRest_C02 == \A i \in DOMAIN calls : calls[i].st # "made"
AtRest_C04 == \A i \in DOMAIN calls : calls[i].fits => calls[i].begun # Never
=============================================================================
