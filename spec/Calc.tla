------------------------------- MODULE Calc -------------------------------
(* The formulas of the datasheets (sections 11.2.2 of both): from the      *)
(* words of a frame and the calibration to temperatures.                   *)
(*                                                                         *)
(* All arguments and results are Fx values, except for words and integer   *)
(* constants.  The R-operators allow for f32 rounding in any order of      *)
(* evaluation.                                                             *)
EXTENDS Fx, Bits

One == FxInt(1)
T0 == Widen(XDiv(FxInt(27315), FxInt(100)))       \* 273.15
V33 == Widen(XDiv(FxInt(33), FxInt(10)))          \* 3.3

\* 2^(calibrated - current): by how much a word must be scaled
ResolutionCorrection(cal, cur) == FxDyadic(1, cal - cur)

DeltaV(v25, k, px) == RDiv(FxInt(px - v25), FxInt(k))

\* (rc * px - v25) / k + v0; the intermediate results may be as large as the three quotients
VDD(v25, k, v0, rc, px) ==
  LET q(x) == XDiv(x, FxInt(k))
      exact == XAdd(XDiv(XSub(XMul(rc, FxInt(px)), FxInt(v25)), FxInt(k)), v0)
  IN Widen(Slack(Slack(Slack(exact, q(XMul(rc, FxInt(px))), 20), q(XMul(rc, FxInt(v25))), 20),
                 q(FxInt(v25)), 20))
\* the same from Delta V
VDDFromDelta(v25, k, v0, rc, dv) ==
  LET r25 == XDiv(FxInt(v25), FxInt(k))
      exact == XAdd(XAdd(XMul(rc, dv), XMul(XSub(rc, One), r25)), v0)
  IN Widen(Slack(Slack(Slack(exact, XMul(rc, dv), 20), XMul(rc, r25), 20), r25, 20))

VPtatArt(alpha, ptat, vbe) ==
  RMul(RDiv(FxInt(ptat), RAdd(RMul(FxInt(ptat), alpha), FxInt(vbe))), FxInt(262144))

Ambient(kv, v25, kt, art, dv) ==
  RAdd(RDiv(RSub(RDiv(Widen(art), RAdd(One, RMul(kv, dv))), Widen(v25)), kt), FxInt(25))

GainOf(calgain, word) == RDiv(calgain, FxInt(word))

\* the IR signal of a pixel before the gradient compensation; comp is zero when there is none
VIR(px, gain, vdd, em, ta, off, kv, kta, comp) ==
  RDiv(RSub(RAdd(RMul(FxInt(px), gain), Widen(comp)),
            RMul(RMul(FxInt(off), RAdd(One, RMul(kta, RSub(ta, FxInt(25))))),
                 RAdd(One, RMul(kv, RSub(vdd, V33))))),
       em)

\* ambient and reflected radiation; at emissivity one nothing is reflected
K4(t) == RPow(RAdd(t, T0), 4)
TAR(ta, tr, em, emIsOne) ==
  IF emIsOne THEN K4(ta) ELSE RSub(K4(tr), RDiv(RSub(K4(tr), K4(ta)), em))

SensitivityCorrection(ksta, ta) == RAdd(One, RMul(ksta, RSub(ta, FxInt(25))))

Temperature(v, alpha, tar, kso) ==
  LET sx == RMul(kso, RRoot4(RAdd(RMul(RPow(alpha, 3), Widen(v)), RMul(RPow(alpha, 4), Widen(tar)))))
  IN RSub(RRoot4(RAdd(RDiv(v, RAdd(RMul(alpha, RSub(One, RMul(kso, T0))), sx)), Widen(tar))), T0)

\* ---- the camera as a whole ----
\* cal: the constants as recorded (float constants as f32 bit patterns)
Basic(model) == IF model = 640 THEN 1 ELSE 2
SelfHeating(model) == IF model = 640 THEN 8 ELSE 5
OneBits == 1065353216                              \* the f32 1.0
F(bits) == FxF32(bits)
Opt(list) == IF list = <<>> THEN FxInt(0) ELSE F(list[1])

\* frame values of the words ram = <<V_BE, PTAT, VDD, gain, CP>>
FrameTa(cal, ram) ==
  Ambient(F(cal.kvptat), F(cal.vptat25), F(cal.ktptat),
          VPtatArt(F(cal.aptat), ram[2], ram[1]), DeltaV(cal.vdd25, cal.kvdd, ram[3]))
FrameVdd(cal, rc, ram) == VDD(cal.vdd25, cal.kvdd, F(cal.vdd0), rc, ram[3])
FrameGain(cal, ram) == GainOf(F(cal.gain), ram[4])

\* what the compensation pixel contributes; sp \in 0..1, pat = 0 interleave, 1 chess
Gradient(cal, gain, vdd, em, ta, cp, sp, pat) ==
  IF cal.tgc = <<>> THEN FxInt(0)
  ELSE RMul(F(cal.tgc[1]),
            VIR(cp, gain, vdd, em, ta, cal.ocp[sp + 1], F(cal.kvcp[sp + 1]), F(cal.ktacp[sp + 1]),
                Opt(cal.ccp[2 * sp + pat + 1])))
AlphaCompensation(cal, sp) ==
  IF cal.tgc = <<>> THEN FxInt(0) ELSE RMul(F(cal.tgc[1]), F(cal.acp[sp + 1]))
Alpha(cal, alpha, acomp, ta) == RMul(RSub(Widen(alpha), acomp), SensitivityCorrection(F(cal.ksta), ta))
=============================================================================
