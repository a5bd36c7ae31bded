------------------------------- MODULE CCTypes ------------------------------
(* The methods of the objects the driver calls, and how arguments are      *)
(* converted to parameters. Values are trees: <<"i", "5">>, <<"s", hex>>...*)
EXTENDS Naturals, Sequences, TLC

IntT == {"int", "int8", "int16", "int32", "int64", "drv.ccKind"}
UintT == {"uint", "uint8", "uint16", "uint32", "uint64"}
FloatT == {"float32", "float64"}
Num == IntT \cup UintT \cup FloatT
StrT == {"string", "drv.ccNamed"}
AnyT == "interface {}"
ListT == {"[]interface {}", "[]string", "[]uint8", "map[string]int"}

W == <<"int64", "int64">>
PlainNames == {"String", "Error", "Größe", "Name", "OnStart", "M_1",
               "AMethodWithAVeryLongNameThatGoesOnAndOnAndOnForMoreThanSixtyFourCharacters"}
I32 == "int32"
Params == [x \in PlainNames |-> W] @@ [
  Zero |-> <<>>, Fail |-> <<"int64">>,
  Big |-> <<"int64", I32, I32, I32, I32, I32, I32, I32, I32, I32, I32, I32, "string">>,
  Work |-> W, Work2 |-> W, Wor |-> W, WOrk |-> W, X |-> W, Quiet |-> W,
  Ints |-> <<"int64", "int", "int8", "int16", "int32", "int64">>,
  Uints |-> <<"int64", "uint", "uint8", "uint16", "uint32", "uint64">>,
  Floats |-> <<"int64", "float32", "float64">>,
  Strs |-> <<"int64", "string", "string", "string", "string">>,
  Any |-> <<"int64", AnyT, AnyT>>,
  Coll |-> <<"int64", "[]interface {}", "[]string", "map[string]int", "[]uint8">>,
  Named |-> <<"int64", "drv.ccNamed", "string", "drv.ccKind">>,
  Var |-> <<"int64", "string">>,
  Bool |-> <<"int64", "bool", "bool", "bool">>,
  One |-> <<"int64">> ]
VarT == "int32"    \* the rest of Var's parameters
OfVal == {"Work", "Work2", "Wor", "WOrk", "X", "Quiet", "Strs", "One", "Ints"}
Has(kind, m) == IF kind = "val" THEN m \in OfVal ELSE m \in DOMAIN Params

ParamOf(m, i) == IF i <= Len(Params[m]) THEN Params[m][i] ELSE VarT
Convertible(src, p) ==
  \/ src = p \/ p = AnyT
  \/ src = "nil" /\ p \in ListT
  \/ src \in Num /\ p \in Num
  \/ src \in StrT /\ p \in StrT
Fits(kind, m, types) ==
  /\ Has(kind, m)
  /\ IF m = "Var" THEN Len(types) >= 2 ELSE Len(types) = Len(Params[m])
  /\ \A i \in 1..Len(types) : Convertible(types[i], ParamOf(m, i))

(* Small whole numbers as floating point numbers. *)
AsFloat == [x \in {"0", "1", "2", "7", "-3", "1000"} |->
  CASE x = "0" -> "0000000000000000" [] x = "1" -> "3ff0000000000000" [] x = "2" -> "4000000000000000"
    [] x = "7" -> "401c000000000000" [] x = "-3" -> "c008000000000000" [] x = "1000" -> "408f400000000000"]
Converted(arg, src, p) ==
  IF src = "nil" THEN (CASE p = "map[string]int" -> <<"m", <<>>>> [] p = AnyT -> arg [] OTHER -> <<"a", <<>>>>)
  ELSE IF p \in IntT THEN <<"i", arg[2]>>
  ELSE IF p \in UintT THEN <<"u", arg[2]>>
  ELSE IF p \in FloatT /\ arg[1] # "f" THEN <<"f", AsFloat[arg[2]]>>
  ELSE arg
Passed(m, args, types) == [i \in 1..Len(args) |-> Converted(args[i], types[i], ParamOf(m, i))]
=============================================================================
