------------------------------- MODULE Geom -------------------------------
(* Memory map and image geometry of the two cameras.  model = 640 or 641;  *)
(* sp = subpage 0, 1; pat = 0 interleave, 1 chess.                         *)
EXTENDS Bits, FiniteSets

Height(m) == IF m = 640 THEN 24 ELSE 12
Width(m) == IF m = 640 THEN 32 ELSE 16
NumPixels(m) == Height(m) * Width(m)
BasicRange(m) == IF m = 640 THEN 1 ELSE 2
SelfHeat(m) == IF m = 640 THEN 8 ELSE 5

RamBase == 1024                                  \* 0x400
RamEnd(m) == IF m = 640 THEN 1855 ELSE 1471      \* 0x73F, 0x5BF
EepromBase == 9216                               \* 0x2400
EepromEnd == 10047                               \* 0x273F
EepromWords == 832

VbeAddr(m) == IF m = 640 THEN 1792 ELSE 1408     \* 0x700, 0x580
GainAddr(m) == VbeAddr(m) + 10                   \* 0x70A, 0x58A
PtatAddr(m) == VbeAddr(m) + 32                   \* 0x720, 0x5A0
VddAddr(m) == VbeAddr(m) + 42                    \* 0x72A, 0x5AA
CpAddr(m, sp) == VbeAddr(m) + (IF sp = 0 THEN 8 ELSE 40)  \* 0x708/0x728, 0x588/0x5A8
AuxAddrs(m) == {VbeAddr(m), GainAddr(m), PtatAddr(m), VddAddr(m), CpAddr(m, 0), CpAddr(m, 1)}

\* the RAM word of pixel i in a subpage
PixelAddr(m, sp, i) == IF m = 640 THEN RamBase + i
                       ELSE RamBase + 64 * (i \div 32) + 32 * sp + (i % 32)
Row(m, i) == i \div Width(m)
Col(m, i) == i % Width(m)
\* which pixels belong to a subpage
InSubpage(m, sp, pat, i) ==
  \/ m = 641
  \/ m = 640 /\ pat = 1 /\ (Row(m, i) + Col(m, i)) % 2 = sp
  \/ m = 640 /\ pat = 0 /\ Row(m, i) % 2 = sp
PixelsOf(m, sp, pat) == {i \in 0..(NumPixels(m) - 1) : InSubpage(m, sp, pat, i)}

\* ---- checked once when the module is used: C04's partition, and injective addressing ----
ASSUME \A pat \in 0..1 : /\ PixelsOf(640, 0, pat) \cup PixelsOf(640, 1, pat) = 0..767
                         /\ PixelsOf(640, 0, pat) \cap PixelsOf(640, 1, pat) = {}
ASSUME \A m \in {640, 641} : \A sp \in 0..1 :
         \A i \in 0..(NumPixels(m) - 1) : PixelAddr(m, sp, i) \in RamBase..(VbeAddr(m) - 1)
ASSUME Cardinality({PixelAddr(641, sp, i) : sp \in 0..1, i \in 0..191}) = 384
=============================================================================
