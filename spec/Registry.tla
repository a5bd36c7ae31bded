------------------------------- MODULE Registry -----------------------------
(* Features visited by name: makers are registered for names, and a slot    *)
(* that visits a name gets one proxy made for it, always the same.          *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES maker, \* name -> maker registered last
          made,  \* proxy -> [m |-> maker, s |-> slot it was made for]
          cache  \* <<slot, name>> -> proxy it got
regVars == <<maker, made, cache>>
RPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == 0
Nothing == [x \in {} |-> 0]
RegInit == maker = Nothing /\ made = Nothing /\ cache = Nothing
Register(n, m) == maker' = RPut(maker, n, m) /\ UNCHANGED <<made, cache>>
MakeProxy(p, m, s) == made' = RPut(made, p, [m |-> m, s |-> s]) /\ UNCHANGED <<maker, cache>>
(* whether p may be what slot s gets for name n *)
Answer(s, n, p) ==
  IF <<s, n>> \in DOMAIN cache THEN p = cache[<<s, n>>]
  ELSE IF n \in DOMAIN maker
  THEN /\ p \in DOMAIN made /\ made[p] = [m |-> maker[n], s |-> s]
       /\ \A k \in DOMAIN cache : cache[k] # p
  ELSE p = None
Got(s, n, p) == /\ cache' = IF p = None THEN cache ELSE RPut(cache, <<s, n>>, p)
                /\ UNCHANGED <<maker, made>>
=============================================================================
