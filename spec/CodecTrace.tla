------------------------------ MODULE CodecTrace ----------------------------
(* Explains what was recorded of holders of values (codec.IAny): encodings,*)
(* decodings of whole and cut sequences of bytes, typed access.            *)
EXTENDS Codec, Traces
VARIABLES src,    \* the value encoded last
          enc,    \* its encoding
          held    \* holder -> the value it was seen to hold last
vars == <<src, enc, held, tr, l>>
Init == TracesInit /\ src = <<"n">> /\ enc = <<192>> /\ held = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EvEnc == /\ Is("Enc") /\ Step
         /\ G("K01", Ev.ok) /\ G("K03", Ev.ok /\ K03_Encoded(Ev.v, Ev.bytes))
         /\ src' = Ev.v /\ enc' = Ev.bytes /\ UNCHANGED held
(* decoding the last encoding, maybe with something after it *)
EvBack == /\ Is("Back") /\ Step
          /\ G("K01", K01_Decoded(src, Ev.ok, Ev.v))
          /\ G("K03", ~On("K01") /\ K03_Encoded(src, enc) => Ev.used = Len(enc))
          /\ held' = IF Ev.ok THEN Put(held, Ev.h, Ev.v) ELSE held
          /\ UNCHANGED <<src, enc>>
(* decoding the first n bytes of it *)
EvCut == /\ Is("Cut") /\ Step
         /\ G("K02", \A i \in 1..Len(Ev.cuts) : K02_Read(SubSeq(enc, 1, Ev.cuts[i][1]), Ev.cuts[i][2]))
         /\ UNCHANGED <<src, enc, held>>
EvDec == /\ Is("Dec") /\ Step
         /\ G("K02", K02_Read(Ev.bytes, Ev.ok))
         /\ G("K03", K03_Read(Ev.bytes, Ev.ok, Ev.v, Ev.used))
         /\ held' = IF Ev.ok THEN Put(held, Ev.h, Ev.v) ELSE held
         /\ UNCHANGED <<src, enc>>
EvGets == /\ Is("Gets") /\ Step
          /\ G("K04", Ev.h \in DOMAIN held => \A i \in 1..Len(Ev.gets) :
               LET g == Ev.gets[i] IN K04_Get(held[Ev.h], g[1], g[2], g[3]))
          /\ UNCHANGED <<src, enc, held>>
(* after a failed decoding a holder keeps its value, or has none *)
EvGetsAfter == /\ Is("GetsAfter") /\ Step
          /\ G("K04", Ev.h \in DOMAIN held => \A i \in 1..Len(Ev.gets) :
               LET g == Ev.gets[i] IN g[2] => K04_Get(held[Ev.h], g[1], g[2], g[3]))
          /\ UNCHANGED <<src, enc, held>>
(* long ones *)
EvEncL == /\ Is("EncL") /\ Step
          /\ G("K01", Ev.ok) /\ G("K03", Ev.ok /\ Ev.enc = LEnc(Ev.v))
          /\ src' = Ev.v /\ enc' = Ev.enc /\ UNCHANGED held
EvBackL == /\ Is("BackL") /\ Step
           /\ G("K01", Ev.ok /\ Ev.v = src)
           /\ G("K03", ~On("K01") /\ enc = LEnc(src) => Ev.ok /\ Ev.v = src /\ Ev.used = LLen(enc))
           /\ UNCHANGED <<src, enc, held>>
EvCutL == /\ Is("CutL") /\ Step
          /\ G("K02", enc = LEnc(src) => \A i \in 1..Len(Ev.cuts) : Ev.cuts[i][1] < LLen(enc) => ~Ev.cuts[i][2])
          /\ UNCHANGED <<src, enc, held>>
EvDone == Is("Done") /\ Step /\ UNCHANGED <<src, enc, held>>
Next == EvEnc \/ EvBack \/ EvCut \/ EvDec \/ EvGets \/ EvGetsAfter \/ EvEncL \/ EvBackL \/ EvCutL \/ EvDone
Spec == Init /\ [][Next]_vars
=============================================================================
