-------------------------------- MODULE Wire --------------------------------
(* The messages of hubs and docks as bytes: a frame is the number of bytes *)
(* that follow it (4 bytes, the lowest first), the code of the message and *)
(* its fields, values in the encoding of Codec. A message is               *)
(*   [id |-> code, f |-> sequence of values]                               *)
EXTENDS Codec, TLC

Fields == (0 :> <<"s">>)                 \* error: text
  @@ (1 :> <<>>)                         \* heartbeat
  @@ (2 :> <<"as">>)                     \* ready: features
  @@ (3 :> <<"as">>)                     \* registration: features
  @@ (4 :> <<"i">>)                      \* its answer: port
  @@ (5 :> <<"s">>)                      \* query: feature
  @@ (6 :> <<"s">>)                      \* its answer: address
  @@ (7 :> <<"i", "s", "s", "a", "b">>)  \* call: identifier, feature, method, arguments, whether results are asked for
  @@ (8 :> <<"i", "s", "s", "a", "s">>)  \* its answer: identifier, feature, method, results, error
IsOf(v, kind) ==
  IF kind = "as" THEN \/ v[1] = "a" /\ \A i \in 1..Len(v[2]) : v[2][i][1] = "s"
                      \/ v[1] = "rep" /\ v[3][1] = "s"
  ELSE KindOf(v) = kind
IsMsg(m) == m.id \in DOMAIN Fields /\ Len(m.f) = Len(Fields[m.id]) /\ \A i \in 1..Len(m.f) : IsOf(m.f[i], Fields[m.id][i])

Little(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Body(m) == <<204, m.id>> \o EncAll(m.f)
Frame(m) == Little(Len(Body(m))) \o Body(m)

(* a long one (see Codec) *)
LFrame(m) == LET b == Join(Plain(<<204, m.id>>), LEncAll(m.f)) IN Join(Plain(Little(LLen(b))), b)

NoMsg == [ok |-> FALSE, m |-> [id |-> 255, f |-> <<>>]]
(* What a whole frame says. *)
Parse(b) ==
  IF Len(b) < 6 \/ b[4] >= 128 THEN NoMsg
  ELSE LET n == ((b[4] * 256 + b[3]) * 256 + b[2]) * 256 + b[1]
           c == DecAt(b, 5) IN
       IF n # Len(b) - 4 \/ ~c.ok \/ c.v[1] # "u" \/ ~UFits(c.v[3], 1) \/ c.v[3][8] \notin DOMAIN Fields THEN NoMsg
       ELSE LET d == DecMany(b, c.next, Len(Fields[c.v[3][8]]), <<>>) IN
            IF d.ok /\ d.next = Len(b) + 1 /\ IsMsg([id |-> c.v[3][8], f |-> d.vs]) THEN [ok |-> TRUE, m |-> [id |-> c.v[3][8], f |-> d.vs]] ELSE NoMsg
Canonical(b) == LET p == Parse(b) IN p.ok /\ b[5] = 204 /\ \A i \in 1..Len(p.m.f) : Canon(p.m.f[i])
SameMsg(m, n) == m.id = n.id /\ Len(m.f) = Len(n.f) /\ \A i \in 1..Len(m.f) : Same(m.f[i], n.f[i])
OddMsg(m) == \E i \in 1..Len(m.f) : Odd(m.f[i])
(* the first frame of a stream of bytes, 0 bytes if it isn't complete *)
Slice(b) == IF Len(b) < 4 \/ b[4] >= 128 THEN 0
            ELSE LET n == ((b[4] * 256 + b[3]) * 256 + b[2]) * 256 + b[1] IN IF Len(b) < 4 + n THEN 0 ELSE 4 + n
(* a number in digits *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
