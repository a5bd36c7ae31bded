---------------------------- MODULE RegistryTrace ---------------------------
(* Explains recorded registrations and visits. No visit goes on while a     *)
(* maker is registered.                                                     *)
EXTENDS Registry, Traces
VARIABLE open \* visit -> <<slot, name>>
vars == <<regVars, open, tr, l>>
Init == TracesInit /\ RegInit /\ open = Nothing
G2(cond) == G("G02", cond)
Next == /\ Step
        /\ \/ Is("Register") /\ Register(Ev.n, Ev.m) /\ UNCHANGED open
           \/ Is("Visit") /\ open' = RPut(open, Ev.v, <<Ev.s, Ev.n>>) /\ UNCHANGED regVars
           \/ Is("Made") /\ MakeProxy(Ev.p, Ev.m, Ev.s) /\ UNCHANGED open
           \/ Is("Got") /\ G2(Answer(open[Ev.v][1], open[Ev.v][2], Ev.p)) /\ Got(open[Ev.v][1], open[Ev.v][2], Ev.p)
                        /\ open' = [v \in DOMAIN open \ {Ev.v} |-> open[v]]
           \/ Is("Rest") /\ G2(open = Nothing) /\ UNCHANGED <<regVars, open>>
           \/ Is("Done") /\ UNCHANGED <<regVars, open>>
Spec == Init /\ [][Next]_vars
=============================================================================
