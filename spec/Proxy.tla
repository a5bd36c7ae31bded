-------------------------------- MODULE Proxy -------------------------------
(* Generated proxies: a call of a method becomes one call of the slot, with *)
(* the names and the arguments, and its results are returned as the types   *)
(* the interface declares; zero values if it fails.                         *)
(* An interface is a set of methods; a method has types of parameters and   *)
(* results. A value is <<type, text>>; the text of equal numbers is equal.  *)
EXTENDS Naturals, Sequences
Kind(t) == CASE t = "byte" -> "uint8" [] t = "rune" -> "int32" [] OTHER -> t
Zero(t) == CASE t = "bool" -> <<"bool", "false">> [] t = "string" -> <<"string", "">> [] OTHER -> <<Kind(t), "0">>
Typed(types, args) == Len(types) = Len(args) /\ \A i \in 1..Len(args) : args[i][1] = Kind(types[i])
(* what the slot is asked for *)
Forwarded(iface, m, args) == [iface |-> iface, m |-> m.name, args |-> args, wr |-> m.results # <<>>]
(* Results arrive with the same values, but other widths if they come from another dock. *)
Returned(m, ok, results) ==
  [i \in 1..Len(m.results) |-> IF ok THEN <<Kind(m.results[i]), results[i][2]>> ELSE Zero(m.results[i])]
(* results of a method that another dock may answer with *)
Answers(m, results) == Len(results) = Len(m.results)
=============================================================================
