------------------------------ MODULE SeqTrace ------------------------------
(* C28: follows what was done with two handles on a sequence of the code.  *)
(* b.all: the entries, taken one after the other from a handle of its own; *)
(* an operation: [h, op, a (amount by name), n (how many), px (<<index in  *)
(* the result, value>> for some of them)]; "new": two handles made anew.      *)
EXTENDS Conform, Geom
CONSTANTS N, Depth
VARIABLES pos, hist, steps
Sq == INSTANCE Seq

B == Blocks[blk]
Count == Len(B.all)
Whole ==
  Flag(B.end = 3, "C28", "a sequence does not stay finished")
  \cup (CASE B.what \in {"failed", "outlier"} ->
               Flag(/\ \A i \in 1..Count : B.all[i] \in 0..(NumPixels(B.m) - 1)
                    /\ \A i \in 1..(Count - 1) : B.all[i] < B.all[i + 1],
                    "C28", "flagged pixels out of order")
               \cup Flag(B.any = (IF Count > 0 THEN 1 ELSE 0), "C28", "whether any pixel is flagged")
          [] B.what = "ranges" -> Flag(Count \in 1..Height(B.m), "C28", "number of ranges")
          [] OTHER -> Flag(Count = NumPixels(B.m), "C28", "length of a per-pixel sequence"))

TInit == blk \in 1..Len(Blocks) /\ phase = 0 /\ steps = 0 /\ pos = [h \in 1..2 |-> 0] /\ hist = "" /\ Report(blk, Whole)
Judged(o) ==
  LET p == pos[o.h]
      k == Sq!Far(Count, o.op, o.a)
      y == Sq!Yield(Count, p, o.op, k)
      v == {o.px[i] : i \in 1..Len(o.px)}
      name(what) == what \o " (" \o B.what \o ")"
  IN IF o.op = "hint" THEN Flag(o.n <= Count - p /\ (o.px = <<>> \/ o.px[1][2] >= Count - p), "C28", name("size hint"))
     ELSE IF o.op = "count" THEN Flag(o.n = Count - p, "C28", name("count"))
     ELSE Flag(o.n = Len(y), "C28", name("number of entries from " \o o.op))
          \cup Flag(o.n # Len(y) \/ \A x \in v : x[2] = B.all[y[x[1] + 1] + 1], "C28", name("entries from " \o o.op))
TNext ==
  /\ steps < Len(B.ops)
  /\ steps' = steps + 1
  /\ UNCHANGED <<blk, phase, hist>>
  /\ LET o == B.ops[steps + 1] IN
     IF o.op = "new" THEN pos' = [h \in 1..2 |-> 0]
     ELSE
     /\ Report(blk, Judged(o))
     /\ pos' = [pos EXCEPT ![o.h] = Sq!After(Count, @, o.op, Sq!Far(Count, o.op, o.a))]
=============================================================================
