------------------------------- MODULE NetTrace -----------------------------
(* Explains what the sinks of sockets and raw connections recorded. streams*)
(* of a trace: <<raw connection, <<offsets of the ends of its packets>>>>. *)
EXTENDS Net, Traces
VARIABLES raws    \* k -> name of the raw connection
vars == <<netVars, raws, tr, l>>
Init == TracesInit /\ NetInit /\ raws = <<>>
H == Trs[tr]
EndsOf(r) == LET S == {i \in 1..Len(H.streams) : H.streams[i][1] = r} IN IF S = {} THEN <<>> ELSE H.streams[CHOOSE i \in S : TRUE][2]
Keep == UNCHANGED raws

EvListen == Is("Listen") /\ Step /\ Listen(Ev.s, Ev.addr) /\ Keep
EvSocket == Is("Socket") /\ Step /\ Listen(Ev.s, "") /\ Keep
EvDialed == Is("Dialed") /\ Step /\ UNCHANGED netVars /\ Keep
EvClose == Is("Close") /\ Step /\ CloseSocket(Ev.s) /\ Keep
EvRawClose == Is("RawClose") /\ Step /\ CloseRaw(Ev.k) /\ Keep
EvRaw == Is("Raw") /\ Step /\ raws' = NPut(raws, Ev.k, Ev.r) /\ UNCHANGED netVars
EvUp == Is("Up") /\ Step /\ G("N03", N03_Up(Ev.k, Ev.side, Ev.self, Ev.local, Ev.remote)) /\ Up(Ev.k, Ev.side, Ev.s, Ev.local, Ev.remote) /\ Keep
EvDown == Is("Down") /\ Step /\ G("N03", N03_Down(Ev.k, Ev.side, Ev.self, Ev.local, Ev.remote)) /\ Down(Ev.k, Ev.side) /\ Keep
EvSend == Is("Send") /\ Step /\ SendBegin(Ev.lane, Ev.k, Ev.side, Ev.n) /\ Keep
EvSendAll == Is("SendAll") /\ Step /\ SendAllBegin(Ev.lane, Ev.s, Ev.n) /\ Keep
EvSent == Is("Sent") /\ Step /\ SendEnd(Ev.lane) /\ Keep
EvFeed == Is("Feed") /\ Step /\ Feed(Ev.k, Ev.n) /\ Keep
Count == IF "count" \in DOMAIN Ev THEN Ev.count ELSE 1
IsRaw == Ev.k \in DOMAIN raws
FromStream == IsRaw /\ Ev.lane = raws[Ev.k]
EvPkt ==
  /\ Is("Pkt") /\ Step /\ Keep
  /\ G("N03", IsUp(Ev.k, Ev.side) \/ IsRaw)
  /\ G("N03", ~Side(Ev.k, Ev.side).down \/ (Count = 1 /\ Side(Ev.k, Ev.side).after = 0))
  /\ IF FromStream
     THEN /\ G("N01", N01_Packets(Ev.k, Ev.side, Ev.n, Count, EndsOf(raws[Ev.k])))
          /\ StreamPackets(Ev.k, Ev.side, Ev.n, Count)
     ELSE /\ G("N01", Ev.lane \in DOMAIN sent /\ (sent[Ev.lane].sock = "" => Ev.n = Got(Ev.k, Ev.side, Ev.lane) + 1))
          /\ G("N02", N02_Packets(Ev.k, Ev.side, Ev.lane, Ev.n, Count))
          /\ Packets(Ev.k, Ev.side, Ev.lane, Ev.n, Count)
EvOther == (Is("RawDown") \/ Is("Done")) /\ Step /\ UNCHANGED netVars /\ Keep
(* A packet isn't any more what it was when it was delivered. *)
EvSpoilt == Is("Spoilt") /\ Step /\ UNCHANGED netVars /\ Keep /\ G("N01", FALSE)
Arrived == \A k \in DOMAIN raws : k \in DOMAIN fed => \A s \in {"d", "l"} : IsUp(k, s) => AtRest_N01(k, s, EndsOf(raws[k]))
EvRest == /\ Is("Rest") /\ Step /\ UNCHANGED netVars /\ Keep
          /\ G("N01", Arrived) /\ G("N02", AtRest_N02) /\ G("N03", AtRest_N03)
Next == EvListen \/ EvSocket \/ EvDialed \/ EvClose \/ EvRawClose \/ EvRaw \/ EvUp \/ EvDown \/ EvSend \/ EvSendAll \/ EvSent \/ EvFeed \/ EvPkt \/ EvOther \/ EvRest \/ EvSpoilt
Spec == Init /\ [][Next]_vars
=============================================================================
