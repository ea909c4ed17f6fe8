----------------------------- MODULE AddrCheck -----------------------------
(* C26: addresses as numbers and as names of RAM words.                    *)
EXTENDS Conform, Geom

\* the named words of a camera, in the order in which they are recorded
Named(m) == <<RamBase, VbeAddr(m), CpAddr(m, 0), GainAddr(m), PtatAddr(m), CpAddr(m, 1), VddAddr(m), RamEnd(m)>>
\* the name of a word (0 for the first), or -1
NameOf(m, w) == IF \E i \in 1..8 : Named(m)[i] = w THEN (CHOOSE i \in 1..8 : Named(m)[i] = w) - 1 ELSE -1
ASSUME \A m \in {640, 641} : Cardinality({Named(m)[i] : i \in 1..8}) = 8
Cmp(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
Eq(a, b) == IF a = b THEN 1 ELSE 0

Names(b) ==
  LET n == Named(b.m)
      P(i, j) == b.pairs[8 * (i - 1) + j]
      pairs == (1..8) \X (1..8)
  IN Flag(b.word = n /\ b.addr = n, "C26", "address of a name")
     \cup Flag(\A p \in pairs : LET x == P(p[1], p[2]) s == n[p[1]] + n[p[2]] IN \A k \in 1..4 : x[k] = s,
               "C26", "sum of two named addresses")
     \cup Flag(\A p \in pairs : LET x == P(p[1], p[2]) d == n[p[1]] - n[p[2]] IN d >= 0 => \A k \in 5..8 : x[k] = d,
               "C26", "difference of two named addresses")
     \cup Flag(\A p \in pairs : LET x == P(p[1], p[2]) IN x[9] = Cmp(n[p[1]], n[p[2]]) /\ x[10] = Eq(n[p[1]], n[p[2]]),
               "C26", "order of names")
AddrRow(r) ==
  LET w == r[1] IN
  Flag(r[2] = w /\ r[3] = w /\ r[4] = w, "C26", "an address is not the number it was made from")
  \cup Flag(r[6] = Cmp(w, r[5]) /\ r[7] = Eq(w, r[5]) /\ r[8] = 1, "C26", "order of addresses")
  \cup Flag(r[9] = NameOf(640, w) /\ r[10] = NameOf(640, w), "C26", "name of an MLX90640 RAM word")
  \cup Flag(r[11] = NameOf(641, w) /\ r[12] = NameOf(641, w), "C26", "name of an MLX90641 RAM word")
  \cup Flag(r[13] = w, "C26", "an address is not shown as its number")

Verdict(b) == IF b.k = "names" THEN Names(b) ELSE UNION {AddrRow(b.rows[i]) : i \in 1..Len(b.rows)}
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
