------------------------------- MODULE MCCodec ------------------------------
(* Small values, every one: encoding and decoding them in the specification *)
(* itself, and (Gen) writing them, their encodings and corruptions of those *)
(* for the code to encode and decode.                                       *)
EXTENDS Codec, TLC, Json, IOUtils, Randomization
CONSTANTS Deep, Gen

(* numbers around the ends of the widths *)
B8(hi, lo) == <<hi[1], hi[2], hi[3], hi[4]>> \o <<lo[1], lo[2], lo[3], lo[4]>>
Z == <<0, 0, 0, 0>>
F == <<255, 255, 255, 255>>
Edges == {B8(Z, <<0, 0, 0, x>>) : x \in {0, 1, 2, 126, 127, 128, 129, 254, 255}}
    \cup {B8(Z, <<0, 0, x[1], x[2]>>) : x \in {<<1, 0>>, <<1, 1>>, <<1, 255>>, <<127, 254>>, <<127, 255>>, <<128, 0>>, <<128, 1>>, <<255, 254>>, <<255, 255>>}}
    \cup {B8(Z, x) : x \in {<<0, 1, 0, 0>>, <<0, 1, 0, 1>>, <<0, 128, 0, 0>>, <<1, 2, 3, 4>>, <<127, 255, 255, 254>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, <<128, 0, 0, 1>>, <<255, 255, 255, 254>>, F}}
    \cup {B8(x, y) : x \in {<<0, 0, 0, 1>>, <<1, 2, 3, 4>>, <<127, 255, 255, 255>>, <<128, 0, 0, 0>>, F}, y \in {Z, <<5, 6, 7, 8>>, F, <<0, 0, 0, 1>>}}
    \cup {B8(F, <<255, 255, 255, x>>) : x \in {255, 254, 130, 129, 128, 127, 126, 0}}
    \cup {B8(F, <<255, 255, x[1], x[2]>>) : x \in {<<255, 0>>, <<254, 255>>, <<128, 2>>, <<128, 1>>, <<128, 0>>, <<127, 255>>, <<127, 254>>, <<0, 0>>}}
    \cup {B8(F, x) : x \in {<<255, 0, 0, 0>>, <<254, 255, 255, 255>>, <<128, 0, 0, 2>>, <<128, 0, 0, 1>>, <<128, 0, 0, 0>>, <<127, 255, 255, 255>>, Z}}
    \cup {B8(<<255, 255, 255, 254>>, F)}
Ints == {<<"i", IWidth(x), x>> : x \in Edges}
Uints == {<<"u", UWidth(x), x>> : x \in Edges}
F4 == {<<0, 0, 0, 0>>, <<128, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 0>>, <<0, 1, 0, 0>>, <<63, 128, 0, 0>>, <<191, 128, 0, 1>>, <<127, 128, 0, 0>>, <<255, 128, 0, 0>>, <<127, 192, 0, 1>>, <<0, 0, 0, 255>>, <<0, 0, 255, 255>>}
Floats == {<<"f", 4, <<>>, x>> : x \in F4} \cup {<<"f", 8, x, <<>>>> : x \in {b \in Edges : TRUE}}
Strs == {<<"s", x>> : x \in {<<>>, <<0>>, <<97>>, <<192, 219>>, <<219, 0, 0, 0, 1, 97>>, [i \in 1..300 |-> (i * 7) % 256]}}
Flat == {<<"n">>, <<"b", TRUE>>, <<"b", FALSE>>} \cup Ints \cup Uints \cup Floats \cup Strs
Few == {<<"n">>, <<"b", TRUE>>, <<"i", 1, Zeros(8)>>, <<"u", 2, Zeros(6) \o <<1, 2>>>>, <<"f", 8, <<63, 240, 0, 0, 0, 0, 0, 0>>, <<>>>>, <<"s", <<>>>>, <<"s", <<97, 98>>>>}
Keys == Few \ {<<"f", 8, <<63, 240, 0, 0, 0, 0, 0, 0>>, <<>>>>}
Arrs(S, n) == {<<"a", x>> : x \in UNION {[1..k -> S] : k \in 0..n}}
Maps1(S) == {<<"m", <<>>>>} \cup {<<"m", <<<<k, v>>>>>> : k \in Keys, v \in S}
Maps2(S) == {<<"m", <<<<p[1], v>>, <<p[2], w>>>>>> : p \in {q \in Keys \X Keys : q[1] # q[2]}, v \in S, w \in S}
Small == {<<"a", <<>>>>, <<"m", <<>>>>, <<"a", <<<<"n">>>>>>, <<"a", <<<<"i", 1, Zeros(8)>>, <<"s", <<97>>>>>>>>, <<"m", <<<<<<"s", <<97>>>>, <<"u", 1, Zeros(8)>>>>>>>>,
          <<"a", <<<<"a", <<<<"b", FALSE>>>>>>>>>>}
Level1 == Arrs(Few, 2) \cup Maps1(Few) \cup Maps2({<<"n">>, <<"s", <<97>>>>})
Level2 == Arrs(Small \cup {<<"n">>}, Deep) \cup Maps1(Small) \cup Maps2(Small)
Values == Flat \cup Level1 \cup Level2 \cup Arrs(Small, 1)

VARIABLES v
Init == v \in Values
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
E == Enc(v)
(* in this specification: decoding is the inverse, and nothing else is accepted *)
RECURSIVE NoPart(_)
NoPart(n) == n < 0 \/ (~DecAt(SubSeq(E, 1, n), 1).ok /\ NoPart(n - 1))
RoundTrip == LET d == DecAt(E, 1) IN d.ok /\ d.next = Len(E) + 1 /\ Same(d.v, v) /\ Canon(d.v)
Prefixes == NoPart(Len(E) - 1)
After == \A x \in {<<192>>, <<0, 0>>} : DecAt(E \o x, 1) = DecAt(E, 1)
Offset == DecAt(<<192>> \o E, 2).v = DecAt(E, 1).v
(* written with one of the other widths, a number is the same number *)
OtherWidths ==
  v[1] \in {"i", "u"} => \A n \in Widths :
    (IF v[1] = "i" THEN IFits(v[3], n) ELSE UFits(v[3], n)) =>
      LET d == DecAt(<<(IF v[1] = "i" THEN ICode ELSE UCode)[n]>> \o Low(v[3], n), 1) IN d.ok /\ Same(d.v, v)
Distinct == \A w \in Few \cup Small \cup Ints \cup Uints : Enc(w) = E => Same(v, w)
(* numbers known to be equal *)
Widened == /\ Widen(<<63, 128, 0, 0>>) = <<63, 240, 0, 0, 0, 0, 0, 0>>
           /\ Widen(<<0, 0, 0, 1>>) = <<54, 160, 0, 0, 0, 0, 0, 0>>
           /\ Widen(<<128, 127, 255, 255>>) = <<184, 15, 255, 255, 192, 0, 0, 0>>
           /\ Widen(<<255, 128, 0, 0>>) = <<255, 240, 0, 0, 0, 0, 0, 0>>
           /\ Widen(<<61, 204, 204, 205>>) = <<63, 185, 153, 153, 160, 0, 0, 0>>
           /\ Widen(<<127, 127, 255, 255>>) = <<71, 239, 255, 255, 224, 0, 0, 0>>
           /\ \A x, y \in F4 : Widen(x) = Widen(y) => x = y
(* long encodings, written out, are the encodings *)
Spelled(x) == x.head \o Fill(x.byte, x.n) \o x.tail
RECURSIVE Full(_)
Full(x) == CASE x[1] = "sl" -> <<"s", x[2] \o Fill(x[3], x[4]) \o x[5]>>
             [] x[1] = "rep" -> <<"a", [i \in 1..x[2] |-> x[3]]>>
             [] x[1] = "a" -> <<"a", [i \in 1..Len(x[2]) |-> Full(x[2][i])]>>
             [] x[1] = "m" -> <<"m", [i \in 1..Len(x[2]) |-> <<Full(x[2][i][1]), Full(x[2][i][2])>>]>>
             [] OTHER -> x
Long == {<<"sl", <<97>>, 98, n, t>> : n \in {5, 260}, t \in {<<>>, <<97, 99>>}} \cup {<<"rep", 300, <<"n">>>>}
LongOnes == \A x \in Long : \A y \in {x, <<"a", <<x, v>>>>, <<"a", <<v, x, v>>>>, <<"m", <<<<<<"s", <<1>>>>, x>>>>>>} :
              /\ Spelled(LEnc(y)) = Enc(Full(y)) /\ LLen(LEnc(y)) = Len(Enc(Full(y)))
LongSome == v \in Few \cup Small => LongOnes
Wide(b) == {b[i] : i \in 1..Len(b)}
(* corruptions: one byte replaced, one left out, one inserted *)
Codes == {0, 1, 127, 128, 192, 193, 194, 195, 202, 203, 204, 205, 207, 208, 211, 217, 219, 220, 221, 222, 223, 224, 255}
Pos(n) == IF Len(E) <= 24 THEN 1..Len(E) ELSE {1, 2, 5, 6, Len(E)}
Corrupt == {[E EXCEPT ![i] = x] : i \in Pos(Len(E)), x \in RandomSubset(4, Codes)}
      \cup {SubSeq(E, 1, i - 1) \o SubSeq(E, i + 1, Len(E)) : i \in Pos(Len(E))}
      \cup {SubSeq(E, 1, i - 1) \o <<x>> \o SubSeq(E, i, Len(E)) : i \in Pos(Len(E)), x \in RandomSubset(1, Codes)}
Out == IF Gen THEN Serialize(ToJson([v |-> v, enc |-> E, bad |-> Corrupt]) \o "\n", IOEnv.GENOUT,
                   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
       ELSE TRUE
=============================================================================
