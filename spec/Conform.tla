------------------------------ MODULE Conform ------------------------------
(* Common part of the conformance checkers: the recorded observations of   *)
(* the implementation are a sequence of blocks; each is judged in one step *)
(* and a block that the specification does not allow is reported.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Blocks == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES blk, phase
cvars == <<blk, phase>>

ConformInit == blk \in 1..Len(Blocks) /\ phase = 0

Say(v) == PrintT("VIOL " \o ToString(v))
\* bad: a set of tuples <<property, what, ...>>
Report(b, bad) == \A v \in bad : Say(<<b>> \o v)
Judge(bad) == phase = 0 /\ phase' = 1 /\ UNCHANGED blk /\ Report(blk, bad)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* one report per kind of mismatch: the first index at which it occurs
First(prop, what, S) == IF S = {} THEN {} ELSE {<<prop, what, Min(S), Cardinality(S)>>}
Flag(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}
=============================================================================
