-------------------------------- MODULE MCWire ------------------------------
(* Messages with small fields, every one: making frames of them and taking  *)
(* frames off a stream that arrives byte by byte, in the specification      *)
(* itself; and (Gen) writing the messages for the code.                     *)
EXTENDS Wire, Json, IOUtils
CONSTANTS Gen

Str(x) == <<"s", x>>
Strs == {Str(<<>>), Str(<<97>>), Str(<<195, 188, 0, 255>>)}
Nums == {<<"i", IWidth(x), x>> : x \in {Zeros(8), Zeros(7) \o <<1>>, Zeros(7) \o <<128>>, Zeros(6) \o <<78, 33>>, Zeros(6) \o <<191, 104>>, Zeros(5) \o <<1, 0, 0>>,
          <<0, 0, 0, 1, 0, 0, 0, 0>>, <<127>> \o Fill(255, 7), <<128>> \o Zeros(7), Fill(255, 8), Fill(255, 7) \o <<128>>}}
Names == {<<"a", x>> : x \in UNION {[1..k -> Strs] : k \in 0..2}}
Args == {<<"a", <<>>>>, <<"a", <<<<"n">>>>>>, <<"a", <<<<"b", TRUE>>, <<"u", 1, Zeros(7) \o <<200>>>>>>>>,
         <<"a", <<<<"f", 8, <<191, 248, 0, 0, 0, 0, 0, 0>>, <<>>>>, Str(<<97>>)>>>>, <<"a", <<<<"a", <<Str(<<>>)>>>>, <<"m", <<<<Str(<<97>>), <<"n">>>>>>>>>>>>}
M(id, f) == [id |-> id, f |-> f]
Msgs == {M(0, <<x>>) : x \in Strs} \cup {M(1, <<>>)} \cup {M(c, <<x>>) : c \in {2, 3}, x \in Names} \cup {M(4, <<x>>) : x \in Nums}
  \cup {M(c, <<x>>) : c \in {5, 6}, x \in Strs} \cup {M(7, <<i, s, t, a, <<"b", w>>>>) : i \in Nums, s \in Strs, t \in {Str(<<>>), Str(<<77, 49>>)}, a \in Args, w \in BOOLEAN}
  \cup {M(8, <<i, s, t, a, e>>) : i \in Nums, s \in {Str(<<70>>)}, t \in {Str(<<77>>)}, a \in Args, e \in Strs}
Reps == {M(1, <<>>), M(2, <<<<"a", <<Str(<<97>>)>>>>>>), M(4, <<<<"i", 1, Zeros(7) \o <<1>>>>>>), M(7, <<<<"i", 1, Zeros(8)>>, Str(<<>>), Str(<<>>), <<"a", <<>>>>, <<"b", TRUE>>>>)}

VARIABLES m,      \* a message
          rest,   \* bytes under way (of it and another one)
          buf,    \* bytes received and not taken
          got     \* messages taken
vars == <<m, rest, buf, got>>
Init == \E x \in Msgs, y \in (IF Gen THEN {M(1, <<>>)} ELSE Reps) :
          m = <<x, y>> /\ rest = Frame(x) \o Frame(y) /\ buf = <<>> /\ got = <<>>
Take(b) == LET n == Slice(b) IN [b |-> SubSeq(b, n + 1, Len(b)), g |-> IF n = 0 THEN <<>> ELSE <<Parse(SubSeq(b, 1, n))>>]
Arrive == /\ ~Gen /\ rest # <<>>
          /\ LET k == IF Len(rest) <= 3 THEN Len(rest) ELSE 3
                 t == Take(buf \o SubSeq(rest, 1, k))
                 u == Take(t.b) IN
             /\ rest' = SubSeq(rest, k + 1, Len(rest)) /\ buf' = u.b /\ got' = got \o t.g \o u.g
          /\ UNCHANGED m
Next == Arrive
Spec == Init /\ [][Next]_vars
RoundTrip == rest = Frame(m[1]) \o Frame(m[2]) => /\ Parse(Frame(m[1])).ok /\ SameMsg(Parse(Frame(m[1])).m, m[1]) /\ Canonical(Frame(m[1]))
Partial == rest = Frame(m[1]) \o Frame(m[2]) => \A n \in 0..(Len(Frame(m[1])) - 1) : LET b == SubSeq(Frame(m[1]), 1, n) IN Slice(b) = 0 /\ ~Parse(b).ok
InOrder == \A i \in 1..Len(got) : i <= 2 /\ got[i].ok /\ SameMsg(got[i].m, m[i])
AllTaken == rest = <<>> => Len(got) = 2 /\ buf = <<>>
Apart == rest = Frame(m[1]) \o Frame(m[2]) => \A x \in Reps : Frame(x) = Frame(m[1]) => SameMsg(x, m[1])
Out == IF Gen THEN Serialize(ToJson([id |-> m[1].id, f |-> m[1].f]) \o "\n", IOEnv.GENOUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
       ELSE TRUE
=============================================================================
