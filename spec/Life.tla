--------------------------------- MODULE Life -------------------------------
(* The hubs and docks of a process: started, reachable, closed all at once. *)
EXTENDS Naturals, FiniteSets
VARIABLES insts,  \* instance -> [kind, st, port]
          conns,  \* connection of ours -> [i, gone]
          calls,  \* call -> [i, to, late, ret]
          closing \* a close goes on
lifeVars == <<insts, conns, calls, closing>>
LPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
LNothing == [x \in {} |-> 0]
LifeInit == insts = LNothing /\ conns = LNothing /\ calls = LNothing /\ closing = FALSE
St(i) == IF i \in DOMAIN insts THEN insts[i].st ELSE "none"
(* racing: while something is closed, so that it may be closed with it or not *)
Start(i, kind, racing) ==
  /\ insts' = LPut(insts, i, [kind |-> kind, st |-> IF racing \/ closing THEN "maybe" ELSE "starting", port |-> 0])
  /\ UNCHANGED <<conns, calls, closing>>
Up(i, p) == /\ insts' = [insts EXCEPT ![i].port = p, ![i].st = IF @ = "starting" THEN "up" ELSE @]
            /\ UNCHANGED <<conns, calls, closing>>
(* from now on nothing started so far is used any more *)
Close == /\ closing' = TRUE /\ UNCHANGED <<conns, calls>>
         /\ insts' = [i \in DOMAIN insts |-> [insts[i] EXCEPT !.st = IF @ = "maybe" THEN @ ELSE "closed"]]
(* whatever was started while something was closed is now closed or not, and a further close will close it *)
Rest == insts' = [i \in DOMAIN insts |-> [insts[i] EXCEPT !.st = IF @ = "maybe" THEN "either" ELSE @]] /\ UNCHANGED <<conns, calls, closing>>
Closed == closing' = FALSE /\ UNCHANGED <<insts, conns, calls>>
Conn(c, i) == conns' = LPut(conns, c, [i |-> i, gone |-> FALSE]) /\ UNCHANGED <<insts, calls, closing>>
Gone(c) == conns' = [conns EXCEPT ![c].gone = TRUE] /\ UNCHANGED <<insts, calls, closing>>
Call(id, i, to) == calls' = LPut(calls, id, [i |-> i, to |-> to, late |-> St(i) = "closed" /\ ~closing, ret |-> FALSE]) /\ UNCHANGED <<insts, conns, closing>>
Ret(id) == calls' = [calls EXCEPT ![id].ret = TRUE] /\ UNCHANGED <<insts, conns, closing>>

Live(i) == St(i) = "up"
Reachable(p) == \E i \in DOMAIN insts : Live(i) /\ insts[i].port = p
Unsure(p) == \E i \in DOMAIN insts : insts[i].st \in {"maybe", "either", "starting"}
L01_Probe(i, ok) == Unsure(insts[i].port) \/ (ok <=> Reachable(insts[i].port))
L01_Ret(id, ok) == Live(calls[id].i) /\ Live(calls[id].to) => ok
L02_Ret(id, ok) == calls[id].late /\ calls[id].to # calls[id].i => ~ok
L01_Rest == /\ ~closing
            /\ \A i \in DOMAIN insts : insts[i].st # "starting"
            /\ \A c \in DOMAIN conns : St(conns[c].i) = "closed" => conns[c].gone
            /\ \A x \in DOMAIN calls : Live(calls[x].i) /\ Live(calls[x].to) => calls[x].ret
L02_Rest == ~closing /\ \A x \in DOMAIN calls : St(calls[x].i) = "closed" => calls[x].ret
=============================================================================
