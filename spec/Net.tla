--------------------------------- MODULE Net --------------------------------
(* Sockets, connections and packets. A connection k has two sides, "d" (the*)
(* one that dialed) and "l". A packet is a number in a lane: a lane is one  *)
(* routine that sends, to one side of one connection or to all connections *)
(* of a socket (broadcast). A raw connection's other end isn't a socket: it *)
(* writes a stream of bytes in pieces, which has packets at known offsets. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  socks,   \* name -> [addr, closed]
  conns,   \* k -> [d, l : side]; side = [sock, up, down, after, local, remote]
  sent,    \* lane -> [k, side | sock, begun, ended, marks]: marks are <<first number, what was sent before>>
  got,     \* <<k, side, lane>> -> last number received (k's side received it)
  base,    \* <<k, side, lane>> -> how many had been sent by the broadcast lane when side came up
  fed,     \* k -> number of bytes written to a raw connection
  rawClosed \* connections closed by their raw end
netVars == <<socks, conns, sent, got, base, fed, rawClosed>>

NPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NGet(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Other(side) == IF side = "d" THEN "l" ELSE "d"
NoSide == [sock |-> "", up |-> FALSE, down |-> FALSE, after |-> 0, local |-> "", remote |-> ""]
NetInit == socks = <<>> /\ conns = <<>> /\ sent = <<>> /\ got = <<>> /\ base = <<>> /\ fed = <<>> /\ rawClosed = {}

Conn(k) == NGet(conns, k, [d |-> NoSide, l |-> NoSide])
Side(k, s) == Conn(k)[s]
IsUp(k, s) == Side(k, s).up
SetSide(k, s, v) == conns' = NPut(conns, k, [Conn(k) EXCEPT ![s] = v])

(* ------------------------------------------------------------- sockets *)
Listen(n, addr) == socks' = NPut(socks, n, [addr |-> addr, closed |-> FALSE]) /\ UNCHANGED <<conns, sent, got, base, fed, rawClosed>>
CloseSocket(n) == /\ socks' = NPut(socks, n, [NGet(socks, n, [addr |-> "", closed |-> TRUE]) EXCEPT !.closed = TRUE])
                  /\ UNCHANGED <<conns, sent, got, base, fed, rawClosed>>
CloseRaw(k) == rawClosed' = rawClosed \cup {k} /\ UNCHANGED <<socks, conns, sent, got, base, fed>>
SockClosed(n) == n \in DOMAIN socks /\ socks[n].closed
(* Whether somebody has closed connection k: one of its sockets, also the one that was *)
(* dialed but has not told of the connection, or the raw end.                          *)
Closing(k) == \/ k \in rawClosed
              \/ \E s \in {"d", "l"} : IsUp(k, s) /\ SockClosed(Side(k, s).sock)
              \/ \E n \in DOMAIN socks : socks[n].closed /\ socks[n].addr # "" /\ IsUp(k, "d") /\ Side(k, "d").remote = socks[n].addr
(* It may also have been closed by a socket that dialed and found itself closed. *)
MayClose(k) == Closing(k) \/ (~IsUp(k, "d") /\ \E n \in DOMAIN socks : socks[n].closed /\ socks[n].addr = "")

(* ----------------------------------------------------------- callbacks *)
N03_Up(k, s, self, local, remote) ==
  /\ ~IsUp(k, s) /\ ~Side(k, s).down
  /\ self = (s = "d")
  /\ IsUp(k, Other(s)) => Side(k, Other(s)).local = remote /\ Side(k, Other(s)).remote = local
  /\ IF s = "d" THEN \E n \in DOMAIN socks : socks[n].addr = remote ELSE TRUE
Broadcasts(n) == {a \in DOMAIN sent : sent[a].sock = n}
Up(k, s, n, local, remote) ==
  /\ SetSide(k, s, [NoSide EXCEPT !.sock = n, !.up = TRUE, !.local = local, !.remote = remote])
  /\ base' = [x \in DOMAIN base \cup {<<k, Other(s), a>> : a \in Broadcasts(n)} |->
                IF x \in DOMAIN base THEN base[x] ELSE sent[x[3]].begun]
  /\ UNCHANGED <<socks, sent, got, fed, rawClosed>>
N03_Down(k, s, self, local, remote) ==
  /\ IsUp(k, s) /\ ~Side(k, s).down /\ MayClose(k)
  /\ self = (s = "d") /\ local = Side(k, s).local /\ remote = Side(k, s).remote     \* still known by its addresses
Down(k, s) == SetSide(k, s, [Side(k, s) EXCEPT !.down = TRUE]) /\ UNCHANGED <<socks, sent, got, base, fed, rawClosed>>
(* after it was told of the end of the connection, only the packet just being delivered *)
N03_Packet(k, s) == IsUp(k, s) /\ (Side(k, s).down => Side(k, s).after = 0)

(* ------------------------------------------------------------- packets *)
(* What has been sent before, in the same direction of the same connection. *)
Before(k, s) == [a \in {b \in DOMAIN sent : sent[b].k = k /\ sent[b].side = s} |-> sent[a].ended]
Lane(a) == NGet(sent, a, [k |-> "", side |-> "", sock |-> "", begun |-> 0, ended |-> 0, marks |-> <<>>])
(* the routine of lane a starts to send n packets from side s of connection k *)
SendBegin(a, k, s, n) ==
  /\ sent' = NPut(sent, a, [Lane(a) EXCEPT !.k = k, !.side = s, !.begun = @ + n,
                                            !.marks = Append(@, <<Lane(a).begun + 1, Before(k, s)>>)])
  /\ UNCHANGED <<socks, conns, got, base, fed, rawClosed>>
SendAllBegin(a, sock, n) ==
  /\ sent' = NPut(sent, a, [Lane(a) EXCEPT !.sock = sock, !.begun = @ + n])
  /\ base' = [x \in DOMAIN base \cup {<<k, Other(s), a>> : <<k, s>> \in {<<k2, s2>> \in (DOMAIN conns) \X {"d", "l"} : IsUp(k2, s2) /\ Side(k2, s2).sock = sock}} |->
                IF x \in DOMAIN base THEN base[x] ELSE Lane(a).begun]
  /\ UNCHANGED <<socks, conns, got, fed, rawClosed>>
SendEnd(a) == sent' = [sent EXCEPT ![a].ended = sent[a].begun] /\ UNCHANGED <<socks, conns, got, base, fed, rawClosed>>

Got(k, s, a) == NGet(got, <<k, s, a>>, 0)
(* Side s of k receives packets from .. from+n-1 of lane a. *)
Addressed(k, s, a) == IF Lane(a).sock # "" THEN Side(k, Other(s)).sock = Lane(a).sock \/ ~IsUp(k, Other(s))
                      ELSE Lane(a).k = k /\ Lane(a).side = Other(s)
N02_Packets(k, s, a, from, n) ==
  /\ a \in DOMAIN sent /\ Addressed(k, s, a)
  /\ from + n - 1 <= sent[a].begun
  /\ IF <<k, s, a>> \in DOMAIN got \/ sent[a].sock = "" THEN from = Got(k, s, a) + 1
     ELSE from <= NGet(base, <<k, s, a>>, sent[a].begun) + 1     \* the first one of a broadcast
  /\ \A i \in 1..Len(sent[a].marks) :
       LET m == sent[a].marks[i] IN
       m[1] \in from..(from + n - 1) => \A b \in DOMAIN m[2] : b # a => Got(k, s, b) >= m[2][b]
Arrive(k, s, last) == IF Side(k, s).down THEN SetSide(k, s, [Side(k, s) EXCEPT !.after = @ + 1]) ELSE UNCHANGED conns
Packets(k, s, a, from, n) == /\ got' = NPut(got, <<k, s, a>>, from + n - 1) /\ Arrive(k, s, 0)
                             /\ UNCHANGED <<socks, sent, base, fed, rawClosed>>

(* Everything that was sent on connections that are open has arrived. *)
AllArrived(k, s, a) ==
  IF Lane(a).sock = "" THEN Got(k, s, a) >= sent[a].ended
  ELSE <<k, s, a>> \in DOMAIN base => (sent[a].ended > base[<<k, s, a>>] => Got(k, s, a) >= sent[a].ended)
AtRest_N02 == \A k \in DOMAIN conns, s \in {"d", "l"}, a \in DOMAIN sent :
                 ~MayClose(k) /\ Addressed(k, s, a) /\ IsUp(k, Other(s)) => AllArrived(k, s, a)
AtRest_N03 == \A k \in DOMAIN conns, s \in {"d", "l"} : IsUp(k, s) => (Closing(k) => Side(k, s).down) /\ (Side(k, s).down => MayClose(k))

(* ---------------------------------------------------------- raw streams *)
(* Ends: the offsets at which the packets of the stream of k end. *)
Feed(k, n) == fed' = NPut(fed, k, NGet(fed, k, 0) + n) /\ UNCHANGED <<socks, conns, sent, got, base, rawClosed>>
Complete(k, ends) == Cardinality({i \in 1..Len(ends) : ends[i] <= NGet(fed, k, 0)})
N01_Packets(k, s, from, n, ends) == from = Got(k, s, "stream") + 1 /\ from + n - 1 <= Complete(k, ends)
StreamPackets(k, s, from, n) == /\ got' = NPut(got, <<k, s, "stream">>, from + n - 1) /\ Arrive(k, s, 0)
                                /\ UNCHANGED <<socks, sent, base, fed, rawClosed>>
AtRest_N01(k, s, ends) == ~Closing(k) => Got(k, s, "stream") = Complete(k, ends)
=============================================================================
