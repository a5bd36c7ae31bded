----------------------------- MODULE ProxyTrace -----------------------------
(* Explains calls through generated proxies. The header of a trace has the  *)
(* interfaces. "Forward" is what a slot was asked for (if the slot is ours) *)
(* with the answer it gives, "Exec" what the feature was called with and    *)
(* returns.                                                                 *)
EXTENDS Proxy, Traces
VARIABLES cur \* the call going on
vars == <<cur, tr, l>>
Init == TracesInit /\ cur = [st |-> "none"]
P(cond) == G("G01", cond)
H == Trs[tr]
Method(i, n) == LET I == CHOOSE x \in 1..Len(H.ifaces) : H.ifaces[x].name = i
                    ms == H.ifaces[I].methods IN ms[CHOOSE x \in 1..Len(ms) : ms[x].name = n]
EvCall == cur' = [st |-> "called", iface |-> Ev.iface, m |-> Ev.m, args |-> Ev.args, met |-> Method(Ev.iface, Ev.m)]
EvForward == /\ P(cur.st = "called" /\ [iface |-> Ev.iface, m |-> Ev.m, args |-> Ev.args, wr |-> Ev.wr] = Forwarded(cur.iface, cur.met, cur.args))
             /\ cur' = [cur EXCEPT !.st = "answered"] @@ [ok |-> Ev.ok, res |-> Ev.res]
EvExec == /\ P(cur.st = "called" /\ Ev.iface = cur.iface /\ Ev.m = cur.m /\ Ev.args = cur.args)
          /\ cur' = [cur EXCEPT !.st = "answered"] @@ [ok |-> ~Ev.late, res |-> Ev.res]
EvRet == P(cur.st = "answered" /\ Ev.res = Returned(cur.met, cur.ok, cur.res)) /\ cur' = [st |-> "none"]
Next == /\ Step
        /\ \/ Is("Tool") /\ P(Ev.ok) /\ UNCHANGED cur      \* the generator ended well
           \/ Is("Compiled") /\ P(Ev.ok) /\ UNCHANGED cur
           \/ Is("Proxy") /\ P(Ev.ok) /\ UNCHANGED cur     \* visiting yields something that implements the interface
           \/ Is("Call") /\ EvCall
           \/ Is("Forward") /\ EvForward
           \/ Is("Exec") /\ EvExec
           \/ Is("Ret") /\ EvRet
           \/ Is("Done") /\ UNCHANGED cur
Spec == Init /\ [][Next]_vars
=============================================================================
