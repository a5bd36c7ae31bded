--------------------------------- MODULE Set --------------------------------
(* Sets of items (misc.ISet): each operation, and the only answer to it.    *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLE sets \* set -> its items
SPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetInit == sets = [s \in {} |-> {}]
New(s) == sets' = SPut(sets, s, {})
AddAns(s, x) == x \notin sets[s]
Add(s, x) == sets' = SPut(sets, s, sets[s] \cup {x})
RemoveAns(s, x) == x \in sets[s]
Remove(s, x) == sets' = SPut(sets, s, sets[s] \ {x})
(* a listing, in any order *)
Lists(s, seq) == Len(seq) = Cardinality(sets[s]) /\ {seq[i] : i \in 1..Len(seq)} = sets[s]
=============================================================================
