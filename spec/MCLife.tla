-------------------------------- MODULE MCLife ------------------------------
(* The design: an instance is put on a list, makes sockets (of a listener   *)
(* or a connection) and keeps them, and calls wait in it; closing takes the *)
(* list and closes every socket of each, and lets the calls fail. What is   *)
(* made while closing must notice it: Checked; TrackFirst: an instance is   *)
(* on the list before it makes anything.                                    *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils
CONSTANTS Insts, Ports, MaxConn, Checked, TrackFirst, Rec
VARIABLES list,   \* instances to close
          st,     \* instance -> new, run, end
          port,   \* instance -> port
          flag,   \* instance -> closed
          lis,    \* instance -> none, kept (in its list of sockets), open, shut
          opn,    \* instance -> open connections that it has kept
          fresh,  \* instance -> connections made, not kept yet
          wait,   \* instance -> calls waiting
          cl,     \* closer: idle, or the instances it has taken
          rounds, before, hist
vars == <<list, st, port, flag, lis, opn, fresh, wait, cl, rounds, before, hist>>
Init == /\ list = {} /\ st = [i \in Insts |-> "new"] /\ port = [i \in Insts |-> 0] /\ flag = [i \in Insts |-> FALSE]
        /\ lis = [i \in Insts |-> "none"] /\ opn = [i \in Insts |-> 0] /\ fresh = [i \in Insts |-> 0] /\ wait = [i \in Insts |-> 0]
        /\ cl = [on |-> FALSE, todo |-> {}] /\ rounds = 0 /\ before = {} /\ hist = <<>>
Note(x) == hist' = IF Rec THEN Append(hist, x) ELSE hist
Busy(p) == \E j \in Insts : port[j] = p /\ lis[j] = "open"
Used(p) == \E j \in Insts : port[j] = p /\ st[j] = "run" /\ ~(flag[j] /\ lis[j] # "open")
(* users start one instance for a port at a time *)
Start(i, p) == /\ st[i] = "new" /\ ~Used(p) /\ st' = [st EXCEPT ![i] = "run"] /\ port' = [port EXCEPT ![i] = p]
               /\ list' = IF TrackFirst THEN list \cup {i} ELSE list
               /\ Note(<<"start", i, p>>) /\ UNCHANGED <<flag, lis, opn, fresh, wait, cl, rounds, before>>
Keep(i) == /\ st[i] = "run" /\ lis[i] = "none"
           /\ lis' = [lis EXCEPT ![i] = IF Checked /\ flag[i] THEN "shut" ELSE "kept"]
           /\ UNCHANGED <<list, st, port, flag, opn, fresh, wait, cl, rounds, before, hist>>
Listen(i) == /\ lis[i] = "kept" /\ (flag[i] \/ ~Busy(port[i]))
             /\ lis' = [lis EXCEPT ![i] = IF Checked /\ flag[i] THEN "shut" ELSE "open"]
             /\ list' = list \cup {i} /\ UNCHANGED <<st, port, flag, opn, fresh, wait, cl, rounds, before, hist>>
Connect(i) == /\ lis[i] = "open" /\ opn[i] + fresh[i] < MaxConn /\ fresh' = [fresh EXCEPT ![i] = @ + 1] /\ Note(<<"dial", i, 0>>)
              /\ UNCHANGED <<list, st, port, flag, lis, opn, wait, cl, rounds, before>>
Accept(i) == /\ fresh[i] > 0 /\ fresh' = [fresh EXCEPT ![i] = @ - 1]
             /\ opn' = IF Checked /\ flag[i] THEN opn ELSE [opn EXCEPT ![i] = @ + 1] \* closed at once if it is so
             /\ UNCHANGED <<list, st, port, flag, lis, wait, cl, rounds, before, hist>>
DoCall(i) == /\ st[i] = "run" /\ wait[i] < 1 /\ Note(<<"call", i, 0>>)
             /\ wait' = IF Checked /\ flag[i] THEN wait ELSE [wait EXCEPT ![i] = @ + 1] \* fails at once
             /\ UNCHANGED <<list, st, port, flag, lis, opn, fresh, cl, rounds, before>>
CloseBegin == /\ ~cl.on /\ rounds < 2 /\ rounds' = rounds + 1
              /\ cl' = [on |-> TRUE, todo |-> list] /\ list' = {} /\ before' = {i \in Insts : st[i] = "run"}
              /\ Note(<<"close", 0, 0>>) /\ UNCHANGED <<st, port, flag, lis, opn, fresh, wait>>
CloseOne(i) == /\ cl.on /\ i \in cl.todo /\ cl' = [cl EXCEPT !.todo = @ \ {i}]
               /\ flag' = [flag EXCEPT ![i] = TRUE]
               /\ lis' = [lis EXCEPT ![i] = IF @ = "open" THEN "shut" ELSE @]
               /\ opn' = [opn EXCEPT ![i] = 0] /\ wait' = [wait EXCEPT ![i] = 0]
               /\ UNCHANGED <<list, st, port, fresh, rounds, before, hist>>
CloseEnd == /\ cl.on /\ cl.todo = {} /\ cl' = [cl EXCEPT !.on = FALSE] /\ Note(<<"closed", 0, 0>>)
            /\ UNCHANGED <<list, st, port, flag, lis, opn, fresh, wait, rounds, before>>
Internal == \/ \E i \in Insts : Keep(i) \/ Listen(i) \/ Accept(i) \/ CloseOne(i)
            \/ CloseEnd
User == \/ \E i \in Insts : (\E p \in Ports : Start(i, p)) \/ Connect(i) \/ DoCall(i)
        \/ CloseBegin
Next == Internal \/ User
Spec == Init /\ [][Next]_vars
(* When nothing moves by itself, what was started before the last close has neither listener, connections nor calls. *)
Quiet == ~ENABLED Internal
Released == Quiet /\ ~cl.on => \A i \in before : lis[i] # "open" /\ lis[i] # "kept" /\ opn[i] = 0 /\ fresh[i] = 0 /\ wait[i] = 0
(* Others work: they listen. *)
Works == Quiet /\ ~cl.on => \A i \in Insts : st[i] = "run" /\ i \notin before /\ ~flag[i] => lis[i] = "open"

(* Generation of what users do; "rest" where nothing moved any more. *)
GNext == \/ Internal
         \/ /\ RandomElement(1..4) = 1 \/ ~ENABLED Internal
            /\ IF ENABLED Internal \/ (hist # <<>> /\ hist[Len(hist)][1] = "rest") THEN User
               ELSE hist' = Append(hist, <<"rest", 0, 0>>) /\ UNCHANGED <<list, st, port, flag, lis, opn, fresh, wait, cl, rounds, before>>
GenSpec == Init /\ [][GNext]_vars
Over == rounds = 2 /\ ~cl.on /\ Quiet /\ Len(hist) > 5 /\ hist[Len(hist)][1] = "rest"
Out == IF Rec /\ Over
       THEN Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
       ELSE TRUE
=============================================================================
