-------------------------------- MODULE Seq --------------------------------
(* A sequence that is read through handles, and all the ways of reading:   *)
(* what each yields and where it leaves the handle.  The closed forms are  *)
(* checked against repeated `next` by the ASSUME.  As a state machine: two *)
(* handles on one sequence of N entries; its behaviours are printed as     *)
(* scripts for the iterators of the real code.                             *)
EXTENDS Integers, Sequences, TLC

Least(a, b) == IF a < b THEN a ELSE b
\* the indexes that are yielded by an operation at position p of n entries
Yield(n, p, op, k) ==
  CASE op = "next" -> IF p < n THEN <<p>> ELSE <<>>
    [] op = "nth" -> IF p + k < n THEN <<p + k>> ELSE <<>>
    [] op = "last" -> IF p < n THEN <<n - 1>> ELSE <<>>
    [] op = "take" -> [i \in 1..Least(k, n - p) |-> p + i - 1]
    [] op \in {"rest", "fold"} -> [i \in 1..(n - p) |-> p + i - 1]
    [] op = "skip" -> [i \in 1..(n - Least(n, p + k)) |-> p + k + i - 1]
    [] op = "step" -> [i \in 1..((n - p + k - 1) \div k) |-> p + (i - 1) * k]
    [] OTHER -> <<>>
\* operations that use the handle up; it is made anew
Consuming == {"last", "count", "skip", "step", "fold"}
After(n, p, op, k) ==
  CASE op = "next" -> Least(n, p + 1)
    [] op = "nth" -> Least(n, p + k + 1)
    [] op = "take" -> Least(n, p + k)
    [] op = "rest" -> n
    [] op \in Consuming -> 0
    [] OTHER -> p

\* the same by taking one entry after the other
RECURSIVE Nexts(_, _, _)
Nexts(n, p, k) == IF k = 0 \/ p = n THEN <<>> ELSE <<p>> \o Nexts(n, p + 1, k - 1)
LastOf(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
RECURSIVE Stepped(_, _)
Stepped(s, k) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Stepped(SubSeq(s, k + 1, Len(s)), k)
ASSUME \A n \in 0..5 : \A p \in 0..n : \A k \in 0..7 :
  LET all == Nexts(n, p, n + 1)
      Y(op) == Yield(n, p, op, k) IN
  /\ Y("next") = Nexts(n, p, 1) /\ After(n, p, "next", k) = p + Len(Nexts(n, p, 1))
  /\ Y("take") = Nexts(n, p, k) /\ After(n, p, "take", k) = p + Len(Nexts(n, p, k))
  /\ Y("nth") = (IF Len(all) > k THEN <<all[k + 1]>> ELSE <<>>)
  /\ After(n, p, "nth", k) = p + Len(Nexts(n, p, k + 1))
  /\ Y("rest") = all /\ Y("fold") = all /\ Y("last") = LastOf(all)
  /\ Y("skip") = SubSeq(all, k + 1, Len(all))
  /\ k > 0 => Y("step") = Stepped(all, k)

CONSTANTS N, Depth
VARIABLES pos, hist, steps
vars == <<pos, hist, steps>>
Handles == {1, 2}
\* amounts by name: none, one, a half, one less than all, all, more than all
Amounts == {"0", "1", "H", "L", "N", "B"}
Amount(n, a) == CASE a = "0" -> 0 [] a = "1" -> 1 [] a = "H" -> n \div 2 [] a = "L" -> (IF n = 0 THEN 0 ELSE n - 1) [] a = "N" -> n [] OTHER -> n + 3
Far(n, op, a) == IF op = "step" /\ Amount(n, a) = 0 THEN 1 ELSE Amount(n, a)
Ops == {<<op, "0">> : op \in {"next", "hint", "rest", "count", "last", "fold"}}
       \cup {<<op, a>> : op \in {"nth", "take", "skip"}, a \in Amounts}
       \cup {<<"step", a>> : a \in {"1", "H", "N", "B"}}
\* first somewhere, then anything
Init == pos = [h \in Handles |-> 0] /\ hist = "" /\ steps = 0
Do(h, o) ==
  /\ pos' = [pos EXCEPT ![h] = After(N, @, o[1], Far(N, o[1], o[2]))]
  /\ hist' = hist \o ToString(h) \o " " \o o[1] \o " " \o o[2] \o ";"
  /\ steps' = steps + 1
Next == steps < Depth /\ \E h \in Handles, o \in Ops : Do(h, o)
\* one handle is brought to a place, then every operation on either, and a look at both
Directed ==
  \/ steps = 0 /\ \E a \in Amounts, op \in {"take", "nth"} : Do(1, <<op, a>>)
  \/ steps = 1 /\ \E h \in Handles, o \in Ops : Do(h, o)
  \/ steps = 2 /\ Do(1, <<"next", "0">>)
  \/ steps = 3 /\ Do(2, <<"next", "0">>)
InRange == \A h \in Handles : pos[h] \in 0..N
\* what one handle does leaves the other where it is
Apart == [][\E h \in Handles : \A g \in Handles \ {h} : pos'[g] = pos[g]]_vars
Printed == steps = Depth => PrintT("SCR " \o hist)
=============================================================================
