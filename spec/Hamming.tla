------------------------------ MODULE Hamming ------------------------------
(* The (16, 11) extended Hamming code of the MLX90641 EEPROM.              *)
EXTENDS Bits, FiniteSets

\* the data bits covered by parity bits P0..P3 (bits 11..14), and P4 (bit 15) covers bits 0..14
Cover == <<{0, 1, 3, 4, 6, 8, 10}, {0, 2, 3, 5, 6, 9, 10}, {1, 2, 3, 7, 8, 9, 10}, {4, 5, 6, 7, 8, 9, 10}>>

RECURSIVE Sum(_, _)
Sum(w, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Bit(w, x) + Sum(w, S \ {x})
Parity(w, S) == Sum(w, S) % 2
\* the code word of the data d \in 0..2047
Encode(d) ==
  LET e == d + Parity(d, Cover[1]) * P2(11) + Parity(d, Cover[2]) * P2(12)
             + Parity(d, Cover[3]) * P2(13) + Parity(d, Cover[4]) * P2(14)
  IN e + Parity(e, 0..14) * P2(15)
Codeword == [d \in 0..2047 |-> Encode(d)]
DataOf(w) == w % 2048
IsCodeword(w) == Codeword[DataOf(w)] = w

\* words at Hamming distance at most one from w
Ball(w) == {w} \cup {FlipBit(w, b) : b \in 0..15}
Candidates(w) == {c \in Ball(w) : IsCodeword(c)}
\* decoding by minimum distance: <<TRUE, data>> or <<FALSE, w>>
Decode(w) == LET C == Candidates(w) IN
             IF C = {} THEN <<FALSE, w>> ELSE <<TRUE, DataOf(CHOOSE c \in C : TRUE)>>

RECURSIVE Weight(_)
Weight(w) == IF w = 0 THEN 0 ELSE (w % 2) + Weight(w \div 2)
\* The code is linear, so minimum weight 4 means pairwise distance at least 4.
\* XOR of two words, needed to state linearity
RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 /\ b = 0 THEN 0
             ELSE (((a % 2) + (b % 2)) % 2) + 2 * Xor(a \div 2, b \div 2)
MinDistance == \A d \in 1..2047 : Weight(Codeword[d]) >= 4
Linear == \A i, j \in 0..10 : \A d \in {0, 1, 682, 1365, 2047} :
            Codeword[Xor(Xor(P2(i), P2(j)), d)]
              = Xor(Xor(Codeword[P2(i)], Codeword[P2(j)]), Codeword[d])
=============================================================================
