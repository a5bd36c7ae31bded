------------------------------ MODULE Features ------------------------------
(* The features the drivers put into docks all have the same methods.      *)
(* Values are trees as in JSON: <<"i", "5">>, <<"s", hex>>, ...            *)
EXTENDS Naturals, Sequences

Params == [
  Add  |-> <<"i", "i", "i">>,
  Pair |-> <<"i", "i", "s">>,
  Note |-> <<"i", "i">>,
  Odd  |-> <<"i", "i">>,
  Fwd  |-> <<"i", "s", "i", "i">>,
  F32  |-> <<"i", "f">>,
  Many |-> <<"i", "s", "s", "s", "s", "s">>,
  All  |-> <<"i", "b", "i", "i", "i", "i", "i", "u", "u", "u", "u", "u", "f", "s">> ]

Number == {"i", "u", "f"}
(* Whether a value can be converted to a parameter of a kind. (The drivers don't use *)
(* conversions whose outcome isn't specified.)                                       *)
Kind(param, arg) == param = arg \/ (param \in Number /\ arg \in Number)
Fits(m, args) ==
  /\ m \in DOMAIN Params
  /\ Len(args) = Len(Params[m])
  /\ \A i \in 1..Len(args) : Kind(Params[m][i], args[i][1])
(* Methods whose results are nothing that can be sent to another dock. *)
Unsendable == {"Odd"}
=============================================================================
