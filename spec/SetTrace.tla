------------------------------ MODULE SetTrace ------------------------------
(* Explains recorded histories of sets.                                     *)
EXTENDS Set, Traces
vars == <<sets, tr, l>>
Init == TracesInit /\ SetInit
M(cond) == G("M01", cond)
Next == /\ Step
        /\ \/ Is("New") /\ New(Ev.s)
           \/ Is("Add") /\ M(Ev.ok = AddAns(Ev.s, Ev.x)) /\ Add(Ev.s, Ev.x)
           \/ Is("Remove") /\ M(Ev.ok = RemoveAns(Ev.s, Ev.x)) /\ Remove(Ev.s, Ev.x)
           \/ Is("List") /\ M(Lists(Ev.s, Ev.items)) /\ UNCHANGED sets
           \/ Is("Done") /\ UNCHANGED sets
Spec == Init /\ [][Next]_vars
=============================================================================
