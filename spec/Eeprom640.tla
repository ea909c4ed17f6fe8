---------------------------- MODULE Eeprom640 ----------------------------
(* The MLX90640 calibration EEPROM (datasheet section 11.2): 832 words     *)
(* from 0x2400.  Every operator takes the words w as a sequence; At(w, a)  *)
(* is the word at EEPROM address a.  Fractions are Fx values.              *)
EXTENDS Bits, Fx, TLC

At(w, a) == w[a - 9216 + 1]                 \* 0x2400 = 9216
H(x) == 9216 + x                            \* address of the word at offset x
Hi8(v) == Signed(Field(v, 15, 8), 8)
Lo8(v) == Signed(Field(v, 7, 0), 8)
\* nibble n of a word, 0 = lowest
Nib(v, n) == Field(v, 4 * n + 3, 4 * n)

\* ---- camera-wide constants ----
KVdd(w) == Hi8(At(w, H(51))) * 32
Vdd25(w) == (Field(At(w, H(51)), 7, 0) - 256) * 32 - 8192
ResolutionEE(w) == Field(At(w, H(56)), 13, 12)
Vdd0 == XDiv(FxInt(33), FxInt(10))
KVPtat(w) == FxDyadic(SField(At(w, H(50)), 15, 10), -12)
KTPtat(w) == FxDyadic(SField(At(w, H(50)), 9, 0), -3)
VPtat25(w) == FxInt(I16(At(w, H(49))))
AlphaPtat(w) == FxDyadic(Nib(At(w, H(16)), 3) + 32, -2)
Gain(w) == FxInt(I16(At(w, H(48))))
KsTa(w) == FxDyadic(Hi8(At(w, H(60))), -13)
TgcRaw(w) == Lo8(At(w, H(60)))
Tgc(w) == FxDyadic(TgcRaw(w), -5)

\* corner temperatures and slopes of the four temperature ranges
Step(w) == Field(At(w, H(63)), 13, 12) * 10
CT(w) == LET c2 == Nib(At(w, H(63)), 1) * Step(w)
         IN <<-40, 0, c2, c2 + Nib(At(w, H(63)), 2) * Step(w)>>
KsToScale(w) == Nib(At(w, H(63)), 0) + 8
KsTo(w) == <<FxDyadic(Lo8(At(w, H(61))), -KsToScale(w)), FxDyadic(Hi8(At(w, H(61))), -KsToScale(w)),
             FxDyadic(Lo8(At(w, H(62))), -KsToScale(w)), FxDyadic(Hi8(At(w, H(62))), -KsToScale(w))>>
Basic == 1                                  \* index of the basic range, counted from 0

\* sensitivity correction of the ranges: 1 in the basic range, continuous at the corners
RECURSIVE AlphaCorr(_, _, _, _)
AlphaCorr(ks, ct, basic, n) ==
  LET grow(i) == RAdd(FxInt(1), RMul(ks[i + 1], FxInt(ct[i + 2] - ct[i + 1])))
  IN IF n = basic THEN FxInt(1)
     ELSE IF n < basic THEN RDiv(AlphaCorr(ks, ct, basic, n + 1), grow(n))
     ELSE RMul(AlphaCorr(ks, ct, basic, n - 1), grow(n - 1))

\* ---- compensation pixels, one per subpage ----
AlphaScale(w) == Nib(At(w, H(32)), 3) + 30
AlphaScaleCp(w) == Nib(At(w, H(32)), 3) + 27
AlphaCp0(w) == FxDyadic(Field(At(w, H(57)), 9, 0), -AlphaScaleCp(w))
AlphaCp(w, sp) == IF sp = 0 THEN AlphaCp0(w)
                  ELSE XMul(AlphaCp0(w), XAdd(FxInt(1), FxDyadic(SField(At(w, H(57)), 15, 10), -7)))
OffsetCp(w, sp) == SField(At(w, H(58)), 9, 0) + (IF sp = 0 THEN 0 ELSE SField(At(w, H(58)), 15, 10))
KVScale(w) == Nib(At(w, H(56)), 2)
KTaScale1(w) == Nib(At(w, H(56)), 1) + 8
KTaScale2(w) == Nib(At(w, H(56)), 0)
KVCp(w) == FxDyadic(Hi8(At(w, H(59))), -KVScale(w))
KTaCp(w) == FxDyadic(Lo8(At(w, H(59))), -KTaScale1(w))

\* ---- interleave compensation ----
ILC1(w) == FxDyadic(SField(At(w, H(53)), 5, 0), -4)
ILC2(w) == FxDyadic(SField(At(w, H(53)), 10, 6), -1)
ILC3(w) == FxDyadic(SField(At(w, H(53)), 15, 11), -3)
\* of a pixel, by row parity and column modulo 4
ILPixel(w, row, col) ==
  LET c == CASE col % 4 \in {0, 2} -> XNeg(ILC3(w))
             [] col % 4 = 1 -> XSub(ILC2(w), ILC3(w))
             [] col % 4 = 3 -> XNeg(XAdd(ILC2(w), ILC3(w)))
  IN IF row % 2 = 0 THEN c ELSE XNeg(c)

\* ---- pixels: row 0..23, column 0..31, p = 32*row + column ----
Rows == 24
Cols == 32
Pixels == 0..767
Row(p) == p \div Cols
Col(p) == p % Cols
PxWord(w, p) == At(w, H(64 + p))
\* signed nibbles packed four to a word, lowest first, from offset base
Packed(w, base, i) == Signed(Nib(At(w, H(base + i \div 4)), i % 4), 4)
RowOffset(w) == TLCEval([r \in 0..23 |-> Packed(w, 18, r) * P2(Nib(At(w, H(16)), 2))])
ColOffset(w) == TLCEval([c \in 0..31 |-> Packed(w, 24, c) * P2(Nib(At(w, H(16)), 1))])
RowAlpha(w) == TLCEval([r \in 0..23 |-> Packed(w, 34, r) * P2(Nib(At(w, H(32)), 2))])
ColAlpha(w) == TLCEval([c \in 0..31 |-> Packed(w, 40, c) * P2(Nib(At(w, H(32)), 1))])

\* index of the row/column parity group, first to last field of the words 0x2434, 0x2436/7
Group(p) == (Row(p) % 2) + 2 * (Col(p) % 2)
KVGroup(w) == TLCEval([g \in 0..3 |-> Signed(Nib(At(w, H(52)), 3 - g), 4)])
KTaGroup(w) == <<Hi8(At(w, H(54))), Lo8(At(w, H(54))), Hi8(At(w, H(55))), Lo8(At(w, H(55)))>>

\* all pixel offsets, as integers (they need not fit 16 bits)
OffsetSums(w) ==
  LET ro == RowOffset(w)
      co == ColOffset(w)
      avg == I16(At(w, H(17)))
      rem == P2(Nib(At(w, H(16)), 0))
  IN TLCEval([p \in Pixels |-> avg + ro[Row(p)] + co[Col(p)] + SField(PxWord(w, p), 15, 10) * rem])
\* sensitivity numerators: sensitivity = numerator / 2^AlphaScale
AlphaSums(w) ==
  LET ra == RowAlpha(w)
      ca == ColAlpha(w)
      avg == At(w, H(33))
      rem == P2(Nib(At(w, H(32)), 0))
  IN TLCEval([p \in Pixels |-> avg + ra[Row(p)] + ca[Col(p)] + SField(PxWord(w, p), 9, 4) * rem])
\* numerators over 2^KTaScale1 and 2^KVScale
KTaSum(w, p) == KTaGroup(w)[Group(p) + 1] + SField(PxWord(w, p), 3, 1) * P2(KTaScale2(w))

FailedPixels(w) == {p \in Pixels : PxWord(w, p) = 0}
OutlierPixels(w) == {p \in Pixels : PxWord(w, p) % 2 = 1}
\* must the image be refused, or may it be?  (a failed pixel's offset is of no interest)
MustRefuse(w, off) == \E p \in Pixels : PxWord(w, p) # 0 /\ off[p] \notin I16Range
MayRefuse(w, off) == \E p \in Pixels : off[p] \notin I16Range
=============================================================================
