------------------------------ MODULE MCRegistry ----------------------------
(* The design: a visit looks for the proxy the slot has, else makes one,    *)
(* and keeps it unless another visit was faster (Guarded; without looking   *)
(* again two visits can get different ones). Also generates histories.      *)
EXTENDS Registry, TLC, Json, IOUtils
CONSTANTS Slots, Names, Makers, Visits, Regs, Guarded, Rec
VARIABLES kept,  \* the design's cache: <<slot, name>> -> proxy
          vs,    \* visit -> [s, n, pc, p]
          nregs, ok, hist
vars == <<regVars, kept, vs, nregs, ok, hist>>
Init == RegInit /\ kept = Nothing /\ vs = Nothing /\ nregs = 0 /\ ok = TRUE /\ hist = <<>>
Idle == \A v \in DOMAIN vs : vs[v].pc = "done"
Note(x) == hist' = IF Rec THEN Append(hist, x) ELSE hist
DoRegister == /\ nregs < Regs /\ Idle /\ nregs' = nregs + 1
              /\ \E n \in Names, m \in Makers : Register(n, m) /\ Note(<<"register", n, m>>)
              /\ UNCHANGED <<kept, vs, ok>>
Start == /\ Cardinality(DOMAIN vs) < Visits
         /\ \E s \in Slots, n \in Names : LET v == Cardinality(DOMAIN vs) + 1 IN
              vs' = RPut(vs, v, [s |-> s, n |-> n, pc |-> "look", p |-> None]) /\ Note(<<"visit", v, s, n>>)
         /\ UNCHANGED <<regVars, kept, nregs, ok>>
At(v, pc) == v \in DOMAIN vs /\ vs[v].pc = pc
Return(v, p) == /\ ok' = (ok /\ Answer(vs[v].s, vs[v].n, p)) /\ Got(vs[v].s, vs[v].n, p)
                /\ vs' = [vs EXCEPT ![v].pc = "done", ![v].p = p] /\ Note(<<"ret", v>>)
Key(v) == <<vs[v].s, vs[v].n>>
Look(v) == /\ At(v, "look") /\ UNCHANGED <<nregs, kept>>
           /\ IF Key(v) \in DOMAIN kept THEN Return(v, kept[Key(v)])
              ELSE IF vs[v].n \notin DOMAIN maker THEN Return(v, None)
              ELSE vs' = [vs EXCEPT ![v].pc = "make"] /\ UNCHANGED <<regVars, ok, hist>>
DoMake(v) == /\ At(v, "make")
             /\ LET p == Cardinality(DOMAIN made) + 1 IN
                MakeProxy(p, maker[vs[v].n], vs[v].s) /\ vs' = [vs EXCEPT ![v].pc = "keep", ![v].p = p]
             /\ UNCHANGED <<kept, nregs, ok, hist>>
Keep(v) == /\ At(v, "keep") /\ UNCHANGED nregs
           /\ IF Guarded /\ Key(v) \in DOMAIN kept THEN Return(v, kept[Key(v)]) /\ UNCHANGED kept
              ELSE kept' = RPut(kept, Key(v), vs[v].p) /\ Return(v, vs[v].p)
Next == DoRegister \/ Start \/ \E v \in 1..Visits : Look(v) \/ DoMake(v) \/ Keep(v)
Spec == Init /\ [][Next]_vars
Right == ok
Same == \A v, w \in DOMAIN vs : (vs[v].pc = "done" /\ vs[w].pc = "done" /\ Key(v) = Key(w) /\ vs[v].p # None /\ vs[w].p # None) => vs[v].p = vs[w].p
Over == Idle /\ Cardinality(DOMAIN vs) = Visits
Out == IF Rec /\ Over
       THEN Serialize(ToJson(hist) \o "\n", IOEnv.GENOUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
       ELSE TRUE
=============================================================================
