---------------------------- MODULE Eeprom641 ----------------------------
(* The MLX90641 calibration EEPROM: 832 words from 0x2400, each an         *)
(* extended Hamming code word with 11 data bits.  d is the sequence of     *)
(* data values 0..2047; D(d, x) the one at offset x from 0x2400.           *)
EXTENDS Bits, Fx, TLC

D(d, x) == d[x + 1]
S11(v) == Signed(v, 11)
\* a 16-bit value kept in two words: upper 11 bits, then lower 5 bits
Split(d, x) == D(d, x) * 32 + D(d, x + 1)
SplitSigned(d, x) == I16(Split(d, x))
\* such values are only defined when the low words hold at most 5 bits
SplitWords == {18, 37, 41, 48}
WellFormed(d) == \A x \in SplitWords : D(d, x) < 32

\* ---- camera-wide constants ----
KsTa(d) == FxDyadic(S11(D(d, 34)), -15)
Emissivity(d) == FxDyadic(S11(D(d, 35)), -9)
Gain(d) == FxInt(Split(d, 36))
Vdd25(d) == S11(D(d, 38)) * 32
KVdd(d) == S11(D(d, 39)) * 32
VPtat25(d) == FxInt(Split(d, 40))
KTPtat(d) == FxDyadic(S11(D(d, 42)), -3)
KVPtat(d) == FxDyadic(S11(D(d, 43)), -12)
AlphaPtat(d) == FxDyadic(D(d, 44), -7)
ResolutionEE(d) == Field(D(d, 51), 10, 9)
TgcRaw(d) == SField(D(d, 51), 8, 0)
Tgc(d) == FxDyadic(TgcRaw(d), -6)
Vdd0 == XDiv(FxInt(33), FxInt(10))

\* eight temperature ranges; the last three have stored corner temperatures
CT(d) == <<-40, -20, 0, 80, 120, D(d, 58), D(d, 60), D(d, 62)>>
KsToWords == <<53, 54, 55, 56, 57, 59, 61, 63>>
KsTo(d) == TLCEval([i \in 1..8 |-> FxDyadic(S11(D(d, KsToWords[i])), -D(d, 52))])
Basic == 2

\* ---- compensation pixel ----
AlphaCp(d) == FxDyadic(D(d, 45), -D(d, 46))
OffsetCp(d) == SplitSigned(d, 47)
\* value and scale in one word
ScaledCp(v) == FxDyadic(SField(v, 5, 0), -Field(v, 10, 6))
KTaCp(d) == ScaledCp(D(d, 49))
KVCp(d) == ScaledCp(D(d, 50))

\* ---- pixels 0..191 ----
Pixels == 0..191
Off(d, sp, p) == D(d, (IF sp = 0 THEN 64 ELSE 640) + p)
AlphaRaw(d, p) == D(d, 256 + p)
KTaRaw(d, p) == SField(D(d, 448 + p), 10, 5)
KVRaw(d, p) == SField(D(d, 448 + p), 4, 0)

OffsetScale(d) == Field(D(d, 16), 10, 5)
OffsetAvg(d) == SplitSigned(d, 17)
\* an integer; beyond the 16-bit range for every scale above 16, whatever the (non-zero) data
OffsetOf(d, raw) == IF raw = 0 THEN OffsetAvg(d)
                    ELSE IF OffsetScale(d) > 17 THEN 1000000
                    ELSE OffsetAvg(d) + S11(raw) * P2(OffsetScale(d))
\* six bands of 32 pixels, each with a maximum and a scale
Band(p) == p \div 32
BandScale(d, k) == (IF k % 2 = 0 THEN Field(D(d, 25 + k \div 2), 10, 5) ELSE Field(D(d, 25 + k \div 2), 4, 0)) + 20
BandMax(d, k) == D(d, 28 + k)
Sensitivity(d, p) == XDiv(FxDyadic(AlphaRaw(d, p) * BandMax(d, Band(p)), -BandScale(d, Band(p))), FxInt(2047))
\* (remainder * 2^scale2 + average) / 2^scale1
Scaled(raw, avgword, scaleword) ==
  XMul(XAdd(FxDyadic(raw, Field(scaleword, 4, 0)), FxInt(S11(avgword))), FxDyadic(1, -Field(scaleword, 10, 5)))
KTa(d, p) == Scaled(KTaRaw(d, p), D(d, 21), D(d, 22))
KV(d, p) == Scaled(KVRaw(d, p), D(d, 23), D(d, 24))

FailedPixels(d) == {p \in Pixels : /\ Off(d, 0, p) = 0 /\ Off(d, 1, p) = 0
                                   /\ AlphaRaw(d, p) = 0 /\ D(d, 448 + p) = 0}
Unrepresentable(d, p) == \E sp \in 0..1 : OffsetOf(d, Off(d, sp, p)) \notin I16Range
MustRefuse(d) == \E p \in Pixels : Unrepresentable(d, p)

\* the words that carry no calibration data
UnusedWords == (0..15) \cup {19, 20}
=============================================================================
