---------------------------- MODULE HammingCheck ----------------------------
(* C10: add_checksum and validate_checksum on every 16-bit word.           *)
EXTENDS Conform, Hamming

\* the code itself: an invariant of the specification, evaluated once
ASSUME MinDistance
ASSUME Linear

AddOK(w, r) == IF w < 2048 THEN r[1] = 1 /\ r[2] = Codeword[w] ELSE r[1] = 0
ValidateOK(w, r) ==
  /\ Cardinality(Candidates(w)) <= 1
  /\ LET d == Decode(w) IN r[3] = Bool(d[1]) /\ r[4] = d[2]

Verdict(b) ==
  LET w(i) == b.base + i - 1
      short == {i \in 1..Len(b.rows) : Len(b.rows[i]) # 4}
      ok == 1..Len(b.rows) \ short
  IN First("C10", "panic", short)
     \cup First("C10", "add_checksum", {i \in ok : ~AddOK(w(i), b.rows[i])})
     \cup First("C10", "validate_checksum", {i \in ok : ~ValidateOK(w(i), b.rows[i])})

Next == Judge(Verdict(Blocks[blk]))
=============================================================================
