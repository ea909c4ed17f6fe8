----------------------------- MODULE LowCheck -----------------------------
(* C23 (and C20): constants, published ranges and low-level frame reads    *)
(* against the memory map.                                                 *)
EXTENDS Conform, Geom, Fx

Constants(b) ==
  LET m == b.m IN
  Flag(b.dims = <<Height(m), Width(m), NumPixels(m), BasicRange(m)>>, "C23", "dimensions or basic range")
  \cup Flag(Near(FxInt(SelfHeat(m)), b.heat), "C23", "self-heating")
  \cup Flag(b.addr = <<VbeAddr(m), PtatAddr(m), VddAddr(m), GainAddr(m), CpAddr(m, 0), CpAddr(m, 1)>>, "C23", "RAM addresses")

Members(b) ==
  LET bad == {i \in 0..(NumPixels(b.m) - 1) : b.in[i + 1] # Bool(InSubpage(b.m, b.sp, b.pat, i))} IN
  IF b.count # NumPixels(b.m) THEN {<<"C23", "length of the pixel-membership sequence">>}
  ELSE First("C23", "pixel membership", bad) \cup First("C04", "pixel membership", bad)

\* ranges: rows <<first address, buffer offset, length in bytes>>
Ranges(b) ==
  LET m == b.m
      R == b.rows
      words(r) == {r[1] + j : j \in 0..(r[3] \div 2 - 1)}
      slots(r) == {r[2] + j : j \in 0..(r[3] - 1)}
  IN Flag(/\ Len(R) <= Height(m)
          /\ \A i \in 1..Len(R) : R[i][3] > 0 /\ R[i][3] % 2 = 0 /\ R[i][2] % 2 = 0
                                  /\ words(R[i]) \subseteq RamBase..RamEnd(m)
                                  /\ slots(R[i]) \subseteq 0..(2 * NumPixels(m) - 1),
          "C23", "published ranges: size or place")
     \cup Flag(\A i, j \in 1..Len(R) : i < j => words(R[i]) \cap words(R[j]) = {} /\ slots(R[i]) \cap slots(R[j]) = {},
               "C23", "published ranges overlap")
     \cup Flag(\A p \in PixelsOf(m, b.sp, b.pat) :
                 \E i \in 1..Len(R) : LET d == PixelAddr(m, b.sp, p) - R[i][1]
                                      IN d >= 0 /\ d < R[i][3] \div 2 /\ R[i][2] + 2 * d = 2 * p,
               "C23", "published ranges miss or misplace a pixel")

\* a frame read: ram = RAM words from RamBase, buf = words of the buffer before and after
Frame(b) ==
  LET m == b.m
      at(a) == b.ram[a - RamBase + 1]
      px == PixelsOf(m, b.sp, b.pat)
      L == b.log
      legal == \A i \in 1..Len(L) : /\ L[i].t = "rd" /\ L[i].dev = b.addr /\ L[i].al = 2
                                    /\ L[i].nb > 0 /\ L[i].nb % 2 = 0
                                    /\ L[i].a >= RamBase /\ L[i].a + L[i].nb \div 2 - 1 <= RamEnd(m)
      words == [i \in 1..5 |-> I16(at(<<VbeAddr(m), PtatAddr(m), VddAddr(m), GainAddr(m), CpAddr(m, b.sp)>>[i]))]
  IN IF b.ok # 1 THEN {<<"C23", "frame read failed">>, <<"C16", "frame read failed">>}
     ELSE Flag(b.res = words, "C23", "frame words")
          \cup Flag(b.res = words, "C16", "words of the frame used by the formulas")
     \cup (IF b.full = 0 THEN {} ELSE
           First("C23", "pixel word misplaced", {p \in px : b.buf[p + 1] # at(PixelAddr(m, b.sp, p))})
           \cup First("C23", "buffer written beyond the image", {p \in NumPixels(m)..(Len(b.buf) - 1) : b.buf[p + 1] # 42405}))
     \cup Flag(legal, "C23", "transfers of a frame read") \cup Flag(legal, "C20", "transfers of a frame read")

Verdict(b) ==
  CASE b.k = "const" -> Constants(b)
    [] b.k = "in" -> Members(b)
    [] b.k = "ranges" -> Ranges(b)
    [] b.k = "frame" -> Frame(b)
    \* the resolution corrections are part of the recording of CalcCheck
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
