----------------------------- MODULE TwinCheck -----------------------------
(* C24: the same history alone (a) and in company (b).  What a driver does *)
(* and returns is a function of its own calls and of its camera: the two   *)
(* recordings are the same, event by event.                                *)
EXTENDS Conform

Differ(b) == {i \in 1..(IF Len(b.a) < Len(b.b) THEN Len(b.a) ELSE Len(b.b)) : b.a[i] # b.b[i]}
Verdict(b) ==
  LET d == Differ(b) IN
  IF d # {} THEN {<<"C24", "differs (" \o b.mode \o ")", Min(d), b.a[Min(d)].e>>}
  ELSE Flag(Len(b.a) = Len(b.b), "C24", "differs in length (" \o b.mode \o ")")
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
