-------------------------------- MODULE MCNet -------------------------------
(* The design of package network: a listening socket S and sockets A, B    *)
(* that dial it. Each end of a connection has a queue of packets to send   *)
(* and a buffer of received bytes; the network passes bytes in pieces of    *)
(* any size. Checked against the formulas of Net.                          *)
EXTENDS Net, TLC
CONSTANTS Dialers, MaxSend, MaxAll, Size, Closers, EarlyClose   \* EarlyClose: a peer may be closed before it has told of its connection (as the code once did)

VARIABLES peers, pipe, wrong, nsend
design == <<peers, pipe, nsend>>
vars == <<netVars, design, wrong>>
Ids(k) == {<<k, "d">>, <<k, "l">>}
EndOf == <<<<"end">>, 0>>
NoPeer == [st |-> "none", q |-> <<>>, buf |-> <<>>, sink |-> TRUE, open |-> TRUE, out |-> <<>>, closer |-> FALSE]
P(k, s) == NGet(peers, <<k, s>>, NoPeer)
Set(k, s, v) == peers' = NPut(peers, <<k, s>>, v)
Check(id, cond) == wrong' = IF cond THEN wrong ELSE wrong \cup {id}
SockOf(k, s) == IF s = "l" THEN "S" ELSE k

Init == /\ socks = [n \in {"S"} |-> [addr |-> "S", closed |-> FALSE]]
        /\ conns = <<>> /\ sent = <<>> /\ got = <<>> /\ base = <<>> /\ fed = <<>> /\ rawClosed = {}
        /\ peers = <<>> /\ pipe = <<>> /\ wrong = {} /\ nsend = 0

(* ------------------------------------------------------------ the users *)
Dial(k) == /\ P(k, "d").st = "none" /\ ~SockClosed("S") /\ ~SockClosed(k)
           /\ peers' = NPut(NPut(peers, <<k, "d">>, [NoPeer EXCEPT !.st = "added"]), <<k, "l">>, [NoPeer EXCEPT !.st = "pending"])
           /\ pipe' = NPut(NPut(pipe, <<k, "d">>, <<>>), <<k, "l">>, <<>>)
           /\ socks' = IF k \in DOMAIN socks THEN socks ELSE NPut(socks, k, [addr |-> "", closed |-> FALSE])
           /\ UNCHANGED <<conns, sent, got, base, fed, rawClosed, wrong, nsend>>
Push(k, s, pk) == [P(k, s) EXCEPT !.q = IF P(k, s).st = "stopped" THEN @ ELSE Append(@, pk)]
Send(k, s) == /\ nsend < MaxSend /\ IsUp(k, s) /\ nsend' = nsend + 1
              /\ LET a == <<"lane", k, s>> IN
                 /\ Set(k, s, Push(k, s, <<a, Lane(a).begun + 1>>))
                 /\ sent' = NPut(sent, a, [Lane(a) EXCEPT !.k = k, !.side = s, !.begun = @ + 1, !.ended = @ + 1])
              /\ UNCHANGED <<socks, conns, got, base, fed, rawClosed, pipe, wrong>>
(* in one step: the socket's mutex *)
SendAll == /\ nsend < MaxAll /\ nsend' = nsend + 1
           /\ LET a == <<"lane", "S">> IN
              /\ peers' = [x \in DOMAIN peers |-> IF x[2] = "l" /\ peers[x].st \notin {"none", "pending"} /\ ~SockClosed("S")
                                                   THEN Push(x[1], "l", <<a, Lane(a).begun + 1>>) ELSE peers[x]]
              /\ sent' = NPut(sent, a, [Lane(a) EXCEPT !.sock = "S", !.begun = @ + 1, !.ended = @ + 1])
              /\ base' = [x \in DOMAIN base \cup {<<k, "d", a>> : k \in {k2 \in DOMAIN conns : IsUp(k2, "l")}} |->
                            IF x \in DOMAIN base THEN base[x] ELSE Lane(a).begun]
           /\ UNCHANGED <<socks, conns, got, fed, rawClosed, pipe, wrong>>
Shut(n) == /\ n \in Closers /\ n \in DOMAIN socks /\ ~SockClosed(n)
           /\ CloseSocket(n)
           /\ peers' = [x \in DOMAIN peers |->
                          IF SockOf(x[1], x[2]) = n /\ (peers[x].st = "run" \/ (EarlyClose /\ peers[x].st = "added"))
                          THEN [peers[x] EXCEPT !.closer = TRUE] ELSE peers[x]]
           /\ UNCHANGED <<pipe, wrong, nsend>>

(* ----------------------------------------------------------- the design *)
Accept(k) == /\ P(k, "l").st = "pending"
             /\ Set(k, "l", IF SockClosed("S") THEN [P(k, "l") EXCEPT !.st = "none2", !.open = FALSE] ELSE [P(k, "l") EXCEPT !.st = "added"])
             /\ UNCHANGED <<netVars, pipe, wrong, nsend>>
(* the one that dialed finds its socket closed, and never told *)
Refuse(k) == /\ P(k, "d").st = "added" /\ SockClosed(k) /\ ~IsUp(k, "d")
             /\ Set(k, "d", [P(k, "d") EXCEPT !.st = "none2", !.open = FALSE]) /\ UNCHANGED <<netVars, pipe, wrong, nsend>>
Tell(k, s) == /\ P(k, s).st = "added"
              /\ Set(k, s, [P(k, s) EXCEPT !.st = "told"])
              /\ Check("N03 up", N03_Up(k, s, s = "d", IF s = "d" THEN k ELSE "S", IF s = "d" THEN "S" ELSE k))
              /\ Up(k, s, SockOf(k, s), IF s = "d" THEN k ELSE "S", IF s = "d" THEN "S" ELSE k)
              /\ UNCHANGED <<pipe, nsend>>
Run(k, s) == /\ P(k, s).st = "told"
             /\ Set(k, s, [P(k, s) EXCEPT !.st = "run", !.closer = SockClosed(SockOf(k, s))])
             /\ UNCHANGED <<netVars, pipe, wrong, nsend>>
Live(p) == p.st \in {"run", "stopped"}
Bytes(pk) == [i \in 1..Size |-> pk]
(* the send routine *)
Write(k, s) == /\ P(k, s).st = "run" /\ P(k, s).q # <<>>
               /\ LET pk == Head(P(k, s).q) IN
                  IF pk = EndOf \/ ~P(k, s).open \/ ~P(k, Other(s)).open
                  THEN Set(k, s, [P(k, s) EXCEPT !.st = "stopped", !.q = <<>>]) /\ UNCHANGED pipe
                  ELSE /\ Set(k, s, [P(k, s) EXCEPT !.q = Tail(@)])
                       /\ pipe' = [pipe EXCEPT ![<<k, Other(s)>>] = @ \o Bytes(pk)]
               /\ UNCHANGED <<netVars, wrong, nsend>>
(* the receive routine: reads a piece, takes the packets out of the buffer, passes each to the sink it finds *)
Full(b) == Len(b) >= Size
Read(k, s) == /\ Live(P(k, s)) /\ P(k, s).open /\ P(k, s).out = <<>> /\ ~Full(P(k, s).buf)
              /\ \E n \in 1..Len(pipe[<<k, s>>]) :
                   /\ Set(k, s, [P(k, s) EXCEPT !.buf = @ \o SubSeq(pipe[<<k, s>>], 1, n)])
                   /\ pipe' = [pipe EXCEPT ![<<k, s>>] = SubSeq(@, n + 1, Len(@))]
              /\ UNCHANGED <<netVars, wrong, nsend>>
Slice(k, s) == /\ Live(P(k, s)) /\ P(k, s).out = <<>> /\ Full(P(k, s).buf)
               /\ Set(k, s, [P(k, s) EXCEPT !.buf = SubSeq(@, Size + 1, Len(@)), !.out = IF P(k, s).sink THEN SubSeq(P(k, s).buf, 1, Size) ELSE <<>>])
               /\ UNCHANGED <<netVars, pipe, wrong, nsend>>
Deliver(k, s) == /\ P(k, s).out # <<>>
                 /\ LET o == P(k, s).out
                        pk == o[1] IN
                    /\ Check("N02", /\ \A i \in 1..Len(o) : o[i] = pk
                                    /\ N02_Packets(k, s, pk[1], pk[2], 1) /\ N03_Packet(k, s))
                    /\ Packets(k, s, pk[1], pk[2], 1)
                 /\ Set(k, s, [P(k, s) EXCEPT !.out = <<>>])
                 /\ UNCHANGED <<pipe, nsend>>
(* the other end is closed: read what is left, or not *)
ReadEnd(k, s) == /\ Live(P(k, s)) /\ P(k, s).out = <<>> /\ ~Full(P(k, s).buf) /\ ~P(k, s).closer /\ P(k, s).sink
                 /\ ~P(k, Other(s)).open \/ ~P(k, s).open
                 /\ Set(k, s, [P(k, s) EXCEPT !.closer = TRUE]) /\ UNCHANGED <<netVars, pipe, wrong, nsend>>
ClosePeer(k, s) == /\ P(k, s).closer
                   /\ Set(k, s, [P(k, s) EXCEPT !.closer = FALSE, !.open = FALSE, !.sink = FALSE, !.q = IF P(k, s).st = "stopped" THEN @ ELSE Append(@, EndOf)])
                   /\ IF P(k, s).sink THEN Check("N03 down", N03_Down(k, s, s = "d", Side(k, s).local, Side(k, s).remote)) /\ Down(k, s) ELSE UNCHANGED <<netVars, wrong>>
                   /\ UNCHANGED <<pipe, nsend>>
System == \E k \in Dialers : Accept(k) \/ Refuse(k) \/ \E s \in {"d", "l"} : Tell(k, s) \/ Run(k, s) \/ Write(k, s) \/ Read(k, s) \/ Slice(k, s) \/ Deliver(k, s) \/ ReadEnd(k, s) \/ ClosePeer(k, s)
User == (\E k \in Dialers : Dial(k) \/ \E s \in {"d", "l"} : Send(k, s)) \/ SendAll \/ \E n \in Closers : Shut(n)
Next == System \/ User
Spec == Init /\ [][Next]_vars
Right == wrong = {}
Idle == ~ENABLED System
AtRest == Idle => AtRest_N02 /\ AtRest_N03
=============================================================================
