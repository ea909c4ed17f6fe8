----------------------------- MODULE ErrorCheck -----------------------------
(* C25: error values keep their cause and show it.  Texts are sequences of *)
(* character codes.                                                        *)
EXTENDS Conform, Bits

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
\* "0x" and exactly four digits at position i of text t
IsWord(t, i, w) ==
  /\ t[i] = 48 /\ t[i + 1] = 120
  /\ \A j \in 2..5 : HexVal(t[i + j]) = (w \div (16 ^ (5 - j))) % 16
  /\ (i + 6 <= Len(t) => HexVal(t[i + 6]) = -1)
Shows(t, w) == \E i \in 1..(Len(t) - 5) : IsWord(t, i, w)
\* text s occurs in t
Occurs(t, s) == \E i \in 0..(Len(t) - Len(s)) : \A j \in 1..Len(s) : t[i + j] = s[j]

Checksum(b) ==
  First("C25", "a checksum error lost its word",
        {i \in 1..Len(b.rows) : b.rows[i] # <<b.rows[i][1], 1, 2, b.rows[i][1], 2, b.rows[i][1]>>})
  \cup First("C25", "text of a checksum error", {i \in 1..Len(b.rows) : ~Shows(b.text[i], b.rows[i][1])})

SomeText == <<115, 111, 109, 101, 32, 116, 101, 120, 116>>
AnotherText == <<97, 110, 111, 116, 104, 101, 114, 32, 116, 101, 120, 116>>
\* the seven errors of the recording: kind and content
Content(w) == << <<0, w>>, <<0, IF w % 2 = 0 THEN w + 1 ELSE w - 1>>, <<0, (w % 256) * 256 + w \div 256>>,
                 <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>> >>
Lib(b) ==
  LET c == Content(b.w)
      eq == [i \in 1..7 |-> [j \in 1..7 |-> IF c[i] = c[j] THEN 1 ELSE 0]]
  IN Flag(b.eq = eq /\ b.same = eq, "C25", "equality of library errors")
     \cup Flag(\A i \in {4, 6} : Occurs(b.text[i], SomeText), "C25", "text of a library error")
     \cup Flag(\A i \in {5, 7} : Occurs(b.text[i], AnotherText), "C25", "text of a library error")
     \cup Flag(\A i \in 1..3 : Shows(b.text[i], c[i][2]), "C25", "text of a checksum error")

BusErr(b) ==
  Flag(b.rows = << <<0, b.code, 0, b.code>>, <<1, b.code, 1, b.code>> >>, "C25", "a bus error lost its cause")
  \cup Flag(\A i \in 1..2 : Occurs(b.text[i], b.cause[i]) /\ Occurs(b.debug[i], b.cause[i]), "C25", "text of a bus error")
  \cup Flag(b.debug[1] # b.debug[2], "C25", "reads and writes look alike")
Conv(b) == Flag(b.same = 1 /\ Occurs(b.text, b.cause) /\ Occurs(b.debug, b.cause), "C25", "a converted library error")

Verdict(b) == CASE b.k = "checksum" -> Checksum(b)
                [] b.k = "lib" -> Lib(b)
                [] b.k = "bus" -> BusErr(b)
                [] b.k = "conv" -> Conv(b)
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
