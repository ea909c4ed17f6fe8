--------------------------- MODULE EepromFaults ---------------------------
(* C14, C15: what loading a calibration may do with a damaged, short, long *)
(* or arbitrary image.  The loader is seen as a function of the received   *)
(* words: each used word is decoded by minimum distance (Hamming), and the *)
(* first undecodable one ends the load with a checksum error.              *)
EXTENDS Conform, Hamming

\* words of the MLX90641 EEPROM without calibration data (see Eeprom641!UnusedWords)
Unused == (0..15) \cup {19, 20}
Same == -1                         \* the outcome equals that of the intact image


\* w with the bits of mask flipped
Flip(w, mask) == Xor(w, mask)
Flips(mask) == Weight(mask)

\* the outcomes allowed when the words in `hits` (pairs <<index, mask>>, at most two flips each,
\* distinct indices) of the valid image w are damaged; "any" when the property says nothing
Allowed(w, hits) ==
  LET dbl == {h \in hits : Flips(h[2]) = 2}
      used == {h \in dbl : h[1] \notin Unused}
      idle == dbl \ used
  IN IF dbl = {} THEN {Same}
     ELSE IF used = {} THEN {Same} \cup {Flip(w[h[1] + 1], h[2]) : h \in idle}
     ELSE {Flip(w[h[1] + 1], h[2]) : h \in dbl}

\* the bit pairs in the order of the recording
Pair == [n \in 1..120 |-> CHOOSE p \in (0..15) \X (0..15) :
           /\ p[1] < p[2]
           /\ n = p[1] * 15 - ((p[1] * (p[1] - 1)) \div 2) + (p[2] - p[1])]
PairMask == TLCEval([n \in 1..120 |-> P2(Pair[n][1]) + P2(Pair[n][2])])

Valid(w) == \A i \in 1..Len(w) : IsCodeword(w[i])

Flip1(b) == First("C14", "single flip changes the result",
                  {i \in 1..Len(b.rows) : \E n \in 1..16 : b.rows[i][n] \notin Allowed(b.w, {<<i - 1, P2(n - 1)>>})})
Flip2(b) == First("C14", "double flip not reported as a checksum error of the received word",
                  {i \in 1..Len(b.rows) : \E n \in 1..120 : b.rows[i][n] \notin Allowed(b.w, {<<i - 1, PairMask[n]>>})})
Hits(row) == {<<row[2 * j - 1], row[2 * j]>> : j \in 1..(Len(row) \div 2)}
FlipN(b) == First("C14", "damage to several words",
                  {i \in 1..Len(b.rows) : b.rows[i][Len(b.rows[i])] \notin Allowed(b.w, Hits(b.rows[i]))})
Panics(b, Bad(_)) == First("C15", "panic while loading", {i \in 1..Len(b.rows) : Bad(b.rows[i])})
InRow(row, x) == \E j \in 1..Len(row) : row[j] = x
Complete(b, n, m) == Flag(b.ok = 1 /\ Valid(b.w) /\ Len(b.rows) = n /\ \A i \in 1..n : Len(b.rows[i]) = m,
                          "C14", "intact image refused")

\* ---- lengths: <<length, outcome of a valid prefix, same as the plain image, outcome of other bytes>> ----
ImageBytes == 1664
LenBlock(b) ==
  Panics(b, LAMBDA r : r[2] = -1 \/ r[4] = -1)
  \cup First("C15", "short input accepted", {i \in 1..Len(b.rows) : b.rows[i][1] < ImageBytes /\ (b.rows[i][2] = 1 \/ b.rows[i][4] = 1)})
  \cup First("C15", "valid image with extra bytes", {i \in 1..Len(b.rows) : b.rows[i][1] >= ImageBytes /\ (b.rows[i][2] # 1 \/ b.rows[i][3] # 1)})
AnyBlock(b) ==
  Panics(b, LAMBDA r : r[1] = -1 \/ r[2] = -1)
  \cup First("C15", "extra bytes change the result", {i \in 1..Len(b.rows) : b.rows[i][1] # -1 /\ b.rows[i][2] # -1 /\ b.rows[i][3] # 1})

\* ---- over the bus: the transfers read exactly the EEPROM of the addressed camera ----
BusBlock(b) ==
  LET L == b.log
      words(e) == {e.a + j : j \in 0..(e.nb \div 2 - 1)}
      reads == \A i \in 1..Len(L) : L[i].t = "rd" /\ L[i].dev = b.addr /\ L[i].al = 2 /\ L[i].nb > 0 /\ L[i].nb % 2 = 0
  IN Flag(reads /\ UNION {words(L[i]) : i \in 1..Len(L)} = 9216..10047, "C15", "transfers of a load over the bus")
     \cup Flag(b.ok \in {0, 1} /\ b.same = 1, "C15", "load over the bus differs from the load of the bytes")

Verdict(b) ==
  CASE b.k = "flip1" -> Complete(b, 832, 16) \cup Flip1(b) \cup Panics(b, LAMBDA r : InRow(r, -4))
    [] b.k = "flip2" -> Complete(b, 832, 120) \cup Flip2(b) \cup Panics(b, LAMBDA r : InRow(r, -4))
    [] b.k = "flipn" -> FlipN(b) \cup Panics(b, LAMBDA r : r[Len(r)] = -4)
    [] b.k = "len" -> LenBlock(b)
    [] b.k = "any" -> AnyBlock(b)
    [] b.k = "bus" -> BusBlock(b)
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
