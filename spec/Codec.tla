-------------------------------- MODULE Codec -------------------------------
(* The encoding of values: a subset of MessagePack. Numbers are sequences  *)
(* of bytes, since they are wider than TLC's. A value is                    *)
(*   <<"n">> <<"b", TRUE>> <<"s", bytes>> <<"a", values>> <<"m", pairs>>    *)
(*   <<"i", width, 8 bytes>> <<"u", width, 8 bytes>>                        *)
(*   <<"f", width, 8 bytes, 4 bytes>>: the bits as a wide and as a narrow   *)
(*   floating point number; <<>> if unknown (or there is no equal narrow one) *)
(*   <<"rep", n, value>>: an array of n equal values                        *)
(*   <<"mrep", n>>: a map of the keys 65536, ..., 65535+n to nothing         *)
(*   <<"sl", head, byte, n, tail>>: a long text, with n equal bytes in it    *)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255
Sub(b, i, n) == SubSeq(b, i, i + n - 1)
Zeros(n) == [i \in 1..n |-> 0]
Fill(x, n) == [i \in 1..n |-> x]
ZeroExt(bs) == Zeros(8 - Len(bs)) \o bs
SignExt(bs) == Fill(IF bs[1] >= 128 THEN 255 ELSE 0, 8 - Len(bs)) \o bs
Low(b8, n) == SubSeq(b8, 9 - n, 8)
Widths == {1, 2, 4, 8}
UFits(b8, n) == ZeroExt(Low(b8, n)) = b8
IFits(b8, n) == SignExt(Low(b8, n)) = b8
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
UWidth(b8) == Least({n \in Widths : UFits(b8, n)})
IWidth(b8) == Least({n \in Widths : IFits(b8, n)})
(* the lowest number of a width; it may be written with the next width *)
IsLowest(b8, n) == IFits(b8, n) /\ Low(b8, n)[1] = 128 /\ \A i \in 2..n : Low(b8, n)[i] = 0

(* ------------------------------------------------------------ encoding *)
Count32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
UCode == [n \in Widths |-> CASE n = 1 -> 204 [] n = 2 -> 205 [] n = 4 -> 206 [] n = 8 -> 207]
ICode == [n \in Widths |-> CASE n = 1 -> 208 [] n = 2 -> 209 [] n = 4 -> 210 [] n = 8 -> 211]
EncU(b8) == <<UCode[UWidth(b8)]>> \o Low(b8, UWidth(b8))
EncI(b8) == <<ICode[IWidth(b8)]>> \o Low(b8, IWidth(b8))
RECURSIVE Enc(_), EncAll(_)
EncAll(vs) == IF vs = <<>> THEN <<>> ELSE Enc(Head(vs)) \o EncAll(Tail(vs))
Enc(v) ==
  CASE v[1] = "n" -> <<192>>
    [] v[1] = "b" -> IF v[2] THEN <<195>> ELSE <<194>>
    [] v[1] = "u" -> EncU(v[3])
    [] v[1] = "i" -> EncI(v[3])
    [] v[1] = "f" -> IF v[2] = 4 THEN <<202>> \o EncU(ZeroExt(v[4])) ELSE <<203>> \o EncU(v[3])
    [] v[1] = "s" -> <<219>> \o Count32(Len(v[2])) \o v[2]
    [] v[1] = "a" -> <<221>> \o Count32(Len(v[2])) \o EncAll(v[2])
    [] v[1] = "m" -> <<223>> \o Count32(Len(v[2])) \o EncAll([i \in 1..(2 * Len(v[2])) |-> v[2][(i + 1) \div 2][2 - (i % 2)]])

(* ------------------------------------------------------ long encodings *)
(* Many bytes are written as n equal ones between a head and a tail. *)
Plain(bytes) == [head |-> bytes, byte |-> 0, n |-> 0, tail |-> <<>>]
Join(x, y) == IF x.n = 0 THEN [y EXCEPT !.head = x.head \o @] ELSE [x EXCEPT !.tail = @ \o y.head]   \* at most one has many
LLen(x) == Len(x.head) + x.n + Len(x.tail)
RECURSIVE LEnc(_), LEncAll(_)
LEncAll(vs) == IF vs = <<>> THEN Plain(<<>>) ELSE Join(LEnc(Head(vs)), LEncAll(Tail(vs)))
LEnc(v) ==
  CASE v[1] = "sl" -> [head |-> <<219>> \o Count32(Len(v[2]) + v[4] + Len(v[5])) \o v[2], byte |-> v[3], n |-> v[4], tail |-> v[5]]
    [] v[1] = "rep" /\ v[3] = <<"n">> -> [head |-> <<221>> \o Count32(v[2]), byte |-> 192, n |-> v[2], tail |-> <<>>]
    [] v[1] = "a" -> Join(Plain(<<221>> \o Count32(Len(v[2]))), LEncAll(v[2]))
    [] v[1] = "m" -> Join(Plain(<<223>> \o Count32(Len(v[2]))), LEncAll([i \in 1..(2 * Len(v[2])) |-> v[2][(i + 1) \div 2][2 - (i % 2)]]))
    [] OTHER -> Plain(Enc(v))

(* ------------------------------------------------------------ decoding *)
(* [ok, v, next]: the value that begins at position i, and where it ends. *)
Bad == [ok |-> FALSE, v |-> <<"n">>, next |-> 0]
Good(v, next) == [ok |-> TRUE, v |-> v, next |-> next]
Has(b, i, n) == i + n - 1 <= Len(b)
Num(b) == ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]   \* only used if b[1] < 128
Large == 400
RECURSIVE DecAt(_, _), DecMany(_, _, _, _)
(* n values from position i on *)
DecMany(b, i, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, vs |-> acc, next |-> i]
  ELSE LET d == DecAt(b, i) IN
       IF ~d.ok THEN [ok |-> FALSE, vs |-> <<>>, next |-> 0] ELSE DecMany(b, d.next, n - 1, Append(acc, d.v))
IsKey(v) == v[1] \notin {"a", "m", "rep", "mrep"}
DecAt(b, i) ==
  IF ~Has(b, i, 1) THEN Bad
  ELSE LET c == b[i] IN
    CASE c = 192 -> Good(<<"n">>, i + 1)
      [] c = 194 -> Good(<<"b", FALSE>>, i + 1)
      [] c = 195 -> Good(<<"b", TRUE>>, i + 1)
      [] c \in {204, 205, 206, 207} ->
           LET n == 2 ^ (c - 204) IN IF Has(b, i + 1, n) THEN Good(<<"u", n, ZeroExt(Sub(b, i + 1, n))>>, i + 1 + n) ELSE Bad
      [] c \in {208, 209, 210, 211} ->
           LET n == 2 ^ (c - 208) IN IF Has(b, i + 1, n) THEN Good(<<"i", n, SignExt(Sub(b, i + 1, n))>>, i + 1 + n) ELSE Bad
      [] c \in {202, 203} ->
           LET d == DecAt(b, i + 1) IN
           IF ~d.ok \/ d.v[1] # "u" THEN Bad
           ELSE IF c = 203 THEN Good(<<"f", 8, d.v[3], <<>>, d.v[2]>>, d.next)
           ELSE IF UFits(d.v[3], 4) THEN Good(<<"f", 4, <<>>, Low(d.v[3], 4), d.v[2]>>, d.next) ELSE Bad
      [] c = 219 ->
           IF ~Has(b, i + 1, 4) \/ b[i + 1] >= 128 THEN Bad    \* more than there are in any of our sequences
           ELSE LET n == Num(Sub(b, i + 1, 4)) IN
                IF n <= Len(b) /\ Has(b, i + 5, n) THEN Good(<<"s", Sub(b, i + 5, n)>>, i + 5 + n) ELSE Bad
      [] c = 221 ->
           IF ~Has(b, i + 1, 4) \/ b[i + 1] >= 128 THEN Bad
           ELSE LET n == Num(Sub(b, i + 1, 4)) IN
                IF n > Len(b) THEN Bad          \* a value has at least one byte
                ELSE IF n > Large THEN
                  LET d == DecAt(b, i + 5)
                      w == d.next - (i + 5) IN
                  IF d.ok /\ Has(b, i + 5, n * w) /\ \A j \in (i + 5 + w)..(i + 5 + n * w - 1) : b[j] = b[j - w]
                  THEN Good(<<"rep", n, d.v>>, i + 5 + n * w) ELSE Bad
                ELSE LET d == DecMany(b, i + 5, n, <<>>) IN IF d.ok THEN Good(<<"a", d.vs>>, d.next) ELSE Bad
      [] c = 223 ->
           IF ~Has(b, i + 1, 4) \/ b[i + 1] >= 128 THEN Bad
           ELSE LET n == Num(Sub(b, i + 1, 4)) IN
                IF n > Len(b) THEN Bad
                ELSE IF n > Large THEN     \* only those with keys 65536, 65537, ... and no values
                  IF Has(b, i + 5, n * 6) /\ (\A j \in 0..(n - 1) : b[i + 5 + 6 * j] = 206 /\ b[i + 10 + 6 * j] = 192)
                     /\ {Num(Sub(b, i + 6 + 6 * j, 4)) : j \in 0..(n - 1)} = 65536..(65535 + n)
                  THEN Good(<<"mrep", n>>, i + 5 + 6 * n) ELSE Bad
                ELSE LET d == DecMany(b, i + 5, 2 * n, <<>>) IN
                     IF d.ok /\ \A j \in 1..n : IsKey(d.vs[2 * j - 1])
                     THEN Good(<<"m", [j \in 1..n |-> <<d.vs[2 * j - 1], d.vs[2 * j]>>]>>, d.next) ELSE Bad
      [] OTHER -> Bad
(* Whether bytes b are one value, with nothing after it. *)
Whole(b) == LET d == DecAt(b, 1) IN d.ok /\ d.next = Len(b) + 1

(* A value read from an encoding has the widths it was written with: smallest ones. *)
RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] = "u" -> v[2] = UWidth(v[3])
    [] v[1] = "i" -> v[2] = IWidth(v[3]) \/ \E n \in Widths : IsLowest(v[3], n) /\ v[2] = 2 * n
    [] v[1] = "f" -> v[5] = UWidth(IF v[2] = 8 THEN v[3] ELSE ZeroExt(v[4]))
    [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Canon(v[2][i])
    [] v[1] = "rep" -> Canon(v[3])
    [] v[1] = "m" -> \A i \in 1..Len(v[2]) : Canon(v[2][i][1]) /\ Canon(v[2][i][2])
    [] OTHER -> TRUE

(* ------------------------------------------------------------ equality *)
NaN8(b) == b[1] % 128 = 127 /\ b[2] >= 240 /\ (b[2] % 16 # 0 \/ \E i \in 3..8 : b[i] # 0)
NaN4(b) == b[1] % 128 = 127 /\ b[2] >= 128 /\ (b[2] % 128 # 0 \/ b[3] # 0 \/ b[4] # 0)
(* A narrow floating point number as a wide one: b is its 4 bytes. *)
RECURSIVE Normal(_, _)
Normal(m, e) == IF m >= 8388608 THEN <<m - 8388608, e>> ELSE Normal(2 * m, e - 1)
WideF(s, e, m) ==   \* sign, exponent (11 bits) and the first 23 of 52 bits of the fraction
  <<s * 128 + e \div 16, (e % 16) * 16 + m \div 524288, (m \div 2048) % 256, (m \div 8) % 256, (m % 8) * 32, 0, 0, 0>>
Widen(b) ==
  LET s == b[1] \div 128
      e == (b[1] % 128) * 2 + b[2] \div 128
      m == ((b[2] % 128) * 256 + b[3]) * 256 + b[4] IN
  CASE e = 255 -> WideF(s, 2047, m)
    [] e = 0 /\ m = 0 -> WideF(s, 0, 0)
    [] e = 0 /\ m # 0 -> LET n == Normal(m, 897) IN WideF(s, n[2], n[1])
    [] OTHER -> WideF(s, e + 896, m)
Wide8(x) == IF x[3] # <<>> THEN x[3] ELSE Widen(x[4])
SameF(x, y) == LET a == Wide8(x)
                   b == Wide8(y) IN a = b \/ (NaN8(a) /\ NaN8(b))
(* The pairs of a map, as read: a later one replaces an earlier one with the same key. *)
Last(ps, i) == \A j \in (i + 1)..Len(ps) : ps[j][1] # ps[i][1]
RECURSIVE Same(_, _)
Same(x, y) ==
  IF x[1] # y[1] THEN
    CASE x[1] = "rep" /\ y[1] = "a" -> Len(y[2]) = x[2] /\ \A i \in 1..x[2] : Same(x[3], y[2][i])
      [] OTHER -> FALSE
  ELSE
    CASE x[1] \in {"i", "u"} -> x[3] = y[3]
      [] x[1] = "f" -> SameF(x, y)
      [] x[1] = "a" -> Len(x[2]) = Len(y[2]) /\ \A i \in 1..Len(x[2]) : Same(x[2][i], y[2][i])
      [] x[1] = "rep" -> x[2] = y[2] /\ Same(x[3], y[3])
      [] x[1] = "m" ->
           LET X == {i \in 1..Len(x[2]) : Last(x[2], i)}
               Y == {i \in 1..Len(y[2]) : Last(y[2], i)} IN
           /\ Cardinality(X) = Cardinality(Y)
           /\ \A i \in X : \E j \in Y : Same(x[2][i][1], y[2][j][1]) /\ Same(x[2][i][2], y[2][j][2])
      [] OTHER -> x = y
(* Maps with keys that are equal but for their width, or aren't equal to themselves: nothing is said about them. *)
RECURSIVE Odd(_)
Odd(v) ==
  CASE v[1] = "a" -> \E i \in 1..Len(v[2]) : Odd(v[2][i])
    [] v[1] = "rep" -> Odd(v[3])
    [] v[1] = "m" ->
         \/ \E i, j \in 1..Len(v[2]) : i < j /\ v[2][i][1] # v[2][j][1]
              /\ v[2][i][1][1] = v[2][j][1][1] /\ (v[2][i][1][1] = "f" \/ Same(v[2][i][1], v[2][j][1]))
         \/ \E i \in 1..Len(v[2]) : \/ Odd(v[2][i][2])
                                    \/ LET k == v[2][i][1] IN k[1] = "f" /\ (IF k[3] # <<>> THEN NaN8(k[3]) ELSE NaN4(k[4]))
    [] OTHER -> FALSE

(* --------------------------------------------------------- properties *)
K01_Decoded(src, ok, v) == ok /\ Same(src, v)
K03_Encoded(src, b) == LET d == DecAt(b, 1) IN d.ok /\ d.next = Len(b) + 1 /\ Same(d.v, src) /\ Canon(d.v)
K03_Read(b, ok, v, used) == LET d == DecAt(b, 1) IN d.ok => ok /\ used = d.next - 1 /\ (Odd(d.v) \/ Same(d.v, v))
K02_Read(b, ok) == ~DecAt(b, 1).ok => ~ok

Kinds == [bool |-> "b", string |-> "s", arr |-> "a", map |-> "m", float32 |-> "f", float64 |-> "f",
          int |-> "i", int8 |-> "i", int16 |-> "i", int32 |-> "i", int64 |-> "i",
          uint |-> "u", uint8 |-> "u", uint16 |-> "u", uint32 |-> "u", uint64 |-> "u"]
Size == [int |-> 8, int8 |-> 1, int16 |-> 2, int32 |-> 4, int64 |-> 8, uint |-> 8, uint8 |-> 1, uint16 |-> 2, uint32 |-> 4, uint64 |-> 8]
KindOf(v) == IF v[1] = "rep" THEN "a" ELSE IF v[1] = "mrep" THEN "m" ELSE v[1]
Holds(v, as) ==
  CASE v[1] = "i" -> IFits(v[3], Size[as])
    [] v[1] = "u" -> UFits(v[3], Size[as])
    [] v[1] = "f" -> as = "float64" \/ v[4] # <<>>
    [] OTHER -> TRUE
K04_Get(v, as, ok, res) == IF KindOf(v) # Kinds[as] THEN ~ok ELSE Holds(v, as) => ok /\ Same(v, res)
=============================================================================
