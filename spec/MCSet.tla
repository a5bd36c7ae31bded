-------------------------------- MODULE MCSet -------------------------------
(* The answers determine the members: an item is in a set exactly if it was *)
(* added successfully once more than removed. Also generates histories.     *)
EXTENDS Set, Integers, TLC, Json, IOUtils
CONSTANTS Items, Sets, MaxLen, Rec
VARIABLES n, bal, hist
vars == <<sets, n, bal, hist>>
Init == sets = [s \in Sets |-> {}] /\ n = 0 /\ bal = [p \in Sets \X Items |-> 0] /\ hist = <<>>
Note(op, s, x) == hist' = IF Rec THEN Append(hist, <<op, s, x>>) ELSE hist
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \E s \in Sets, x \in Items :
             \/ Add(s, x) /\ bal' = [bal EXCEPT ![<<s, x>>] = @ + (IF AddAns(s, x) THEN 1 ELSE 0)] /\ Note("add", s, x)
             \/ Remove(s, x) /\ bal' = [bal EXCEPT ![<<s, x>>] = @ - (IF RemoveAns(s, x) THEN 1 ELSE 0)] /\ Note("remove", s, x)
Spec == Init /\ [][Next]_vars
Balanced == \A s \in Sets, x \in Items : bal[<<s, x>>] = (IF x \in sets[s] THEN 1 ELSE 0)
Size == \A s \in Sets : \E seq \in [1..Cardinality(sets[s]) -> Items] : Lists(s, seq)
Out == IF Rec /\ n = MaxLen
       THEN Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
       ELSE TRUE
=============================================================================
