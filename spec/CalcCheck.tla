----------------------------- MODULE CalcCheck -----------------------------
(* C16, C17, C18 (and C04, C22): recorded calculations against the         *)
(* formulas.                                                               *)
EXTENDS Conform, Calc

\* ---- single functions ----
Value(b, want, prop, what) ==
  IF b.panic = 1 THEN {<<prop, "panic: " \o what>>, <<"C22", "panic: " \o what>>}
  ELSE Flag(Contains(want, b.r), prop, what)

Common(b) ==
  IF b.panic = 1 THEN {<<"C16", "panic: CommonIrData">>, <<"C22", "panic: CommonIrData">>}
  ELSE Flag(Contains(FrameGain(b.cal, b.ram), b.r[1]), "C16", "gain")
       \cup Flag(Contains(FrameVdd(b.cal, F(b.rc), b.ram), b.r[2]), "C16", "V_DD of a frame")
       \cup Flag(b.r[3] = b.em, "C17", "emissivity of a frame")
       \cup Flag(Contains(FrameTa(b.cal, b.ram), b.r[4]), "C16", "ambient temperature of a frame")

\* ---- images ----
Image(b) ==
  LET cal == b.cal
      sp == b.sp
      Sentinel(i) == b.fresh + i                       \* what the buffer held before
      em == F(b.em)
      ta == FrameTa(cal, b.ram)
      vdd == FrameVdd(cal, F(b.rc), b.ram)
      gain == FrameGain(cal, b.ram)
      grad == Gradient(cal, gain, vdd, em, ta, b.ram[5], sp, b.pat)
      acomp == AlphaCompensation(cal, sp)
      kso == F(cal.ksto[Basic(b.m) + 1])
      tarOf(t) == TAR(t, IF b.tr = <<>> THEN RSub(t, FxInt(SelfHeating(b.m))) ELSE F(b.tr[1]), em, b.em = OneBits)
      tar == tarOf(ta)
      ta2 == F(b.ta[1])
      tar2 == tarOf(ta2)
      idx == 0..(b.len - 1)
      written == {i \in idx : i < b.n /\ b.valid[i + 1] = 1}
      ir == TLCEval([i \in written |->
              RSub(VIR(b.px[i + 1], gain, vdd, em, ta, b.off[i + 1], F(b.kv[i + 1]), F(b.kta[i + 1]), F(b.comp[i + 1])), grad)])
      t1 == TLCEval([i \in written |-> Temperature(ir[i], Alpha(cal, F(b.al[i + 1]), acomp, ta), tar, kso)])
      t2 == TLCEval([i \in written |-> Temperature(F(b.ir[i + 1]), Alpha(cal, F(b.al[i + 1]), acomp, ta2), tar2, kso)])
      len == b.len # b.n
      Tag(prop, what, S) == First(prop, what, S) \cup (IF len THEN First("C22", what \o " (buffer length)", S) ELSE {})
  IN IF b.panic = 1 THEN {<<"C22", "panic in an image calculation">>}
     ELSE
     Flag(Contains(ta, b.ta[1]) /\ Contains(ta, b.ta[2]), "C16", "ambient temperature returned with an image")
     \cup Tag("C17", "IR value", {i \in written : ~Contains(ir[i], b.ir[i + 1])})
     \* a pixel that the two steps get right and the one pass does not: the one pass has its own signal
     \cup Tag("C17", "IR value behind a temperature (one pass)",
               {i \in written : ~Contains(t1[i], b.t1[i + 1]) /\ Contains(t2[i], b.t2[i + 1])})
     \cup Tag("C18", "temperature (one pass)", {i \in written : ~Contains(t1[i], b.t1[i + 1])})
     \cup Tag("C18", "temperature (two steps)", {i \in written : ~Contains(t2[i], b.t2[i + 1])})
     \cup Flag(b.ta[1] = b.ta[2] \/ ~Tight(ta, 0, 0) \/ Near(F(b.ta[1]), b.ta[2]), "C18", "ambient temperatures differ")
     \cup Tag("C04", "pixel outside the subpage", {i \in idx \ written : b.ir[i + 1] # Sentinel(i) \/ b.t1[i + 1] # Sentinel(i)
                                                                        \/ b.t2[i + 1] # Sentinel(i)})
     \* how many of the judgements were sharp: temperatures within 0.1 degrees
     \cup (IF PrintT("STAT " \o ToString(<<Cardinality(written), Cardinality({i \in written : Tight(ir[i], 10, 4)}),
                                            Cardinality({i \in written : Tight(t1[i], 12, 3)})>>)) THEN {} ELSE {})

\* ---- sweeps: every value of one argument while the others stay ----
Panics(rows, at, what, prop) ==
  LET bad == {i \in 1..Len(rows) : rows[i][at] = 1}
  IN IF bad = {} THEN {} ELSE {<<prop, "panic: " \o what>>, <<"C22", "panic: " \o what>>}
Rows(rows, prop, what, Bad(_)) ==
  LET bad == {i \in 1..Len(rows) : Bad(rows[i])}
  IN IF bad = {} THEN {} ELSE {<<prop, what \o ", e.g. for " \o ToString(rows[CHOOSE i \in bad : TRUE][1])>>}

FrameSweep(b) ==
  LET cal == b.cal
      rc == F(b.rc)
      gain == FrameGain(cal, b.ram)
      vdd == FrameVdd(cal, rc, b.ram)
      ta == FrameTa(cal, b.ram)
      ram(v) == [b.ram EXCEPT ![b.q] = v]
      g(r) == ~Contains(IF b.q = 4 THEN FrameGain(cal, ram(r[1])) ELSE gain, r[3])
      d(r) == ~Contains(IF b.q = 3 THEN FrameVdd(cal, rc, ram(r[1])) ELSE vdd, r[4])
      t(r) == ~Contains(IF b.q \in 1..3 THEN FrameTa(cal, ram(r[1])) ELSE ta, r[5])
  IN IF \E i \in 1..Len(b.rows) : b.rows[i][2] = 1 THEN Panics(b.rows, 2, "frame values", "C16")
     ELSE Rows(b.rows, "C16", "gain", g) \cup Rows(b.rows, "C16", "V_DD of a frame", d)
          \cup Rows(b.rows, "C16", "ambient temperature of a frame", t)
SignalSweep(b) ==
  LET gain == F(b.common[1]) vdd == F(b.common[2]) em == F(b.common[3]) ta == F(b.common[4])
      kv == F(b.kv) kta == F(b.kta) comp == Opt(b.comp)
      bad(r) == r[3] = 0 /\ ~Contains(VIR(r[1], gain, vdd, em, ta, r[2], kv, kta, comp), r[4])
  IN Panics(b.rows, 3, "IR value", "C17") \cup Rows(b.rows, "C17", "IR value of a pixel", bad)
TarSweep(b) ==
  LET bad(r) == r[4] = 0 /\ ~Contains(TAR(F(r[1]), F(r[2]), F(r[3]), r[3] = OneBits), r[5])
  IN Panics(b.rows, 4, "T_ar", "C18") \cup Rows(b.rows, "C18", "T_ar", bad)
SensSweep(b) ==
  LET bad(r) == r[2] = 0 /\ ~Contains(SensitivityCorrection(F(b.ksta), F(r[1])), r[3])
  IN Panics(b.rows, 2, "sensitivity", "C18") \cup Rows(b.rows, "C18", "sensitivity correction", bad)
TempSweep(b) ==
  LET bad(r) == r[2] = 0 /\ ~Contains(Temperature(F(r[1]), F(b.al), F(b.tar), F(b.kso)), r[3])
  IN Panics(b.rows, 2, "temperature", "C18") \cup Rows(b.rows, "C18", "temperature of a pixel", bad)

Verdict(b) ==
  CASE b.k = "fsw" -> FrameSweep(b)
    [] b.k = "vsw" -> SignalSweep(b)
    [] b.k = "tsw" -> TarSweep(b)
    [] b.k = "ssw" -> SensSweep(b)
    [] b.k = "psw" -> TempSweep(b)
    [] b.k = "rc" -> (IF b.panic = 1 THEN {<<"C23", "panic: resolution correction">>}
                      ELSE Flag(Near(ResolutionCorrection(b.cal, b.cur), b.r), "C23", "resolution correction"))
    [] b.k = "dv" -> Value(b, DeltaV(b.v25, b.kvdd, b.px), "C16", "Delta V")
    [] b.k = "vdd" -> Value(b, VDDFromDelta(b.v25, b.kvdd, V33, F(b.rc), F(b.dv)), "C16", "V_DD")
    [] b.k = "art" -> Value(b, VPtatArt(F(b.aptat), b.ptat, b.vbe), "C16", "V_PTAT ratio")
    [] b.k = "ta" -> Value(b, Ambient(F(b.kv), F(b.v25), F(b.kt), F(b.art), F(b.dv)), "C16", "ambient temperature")
    [] b.k = "common" -> Common(b)
    [] b.k = "vir" -> Value(b, VIR(b.px, F(b.common[1]), F(b.common[2]), F(b.common[3]), F(b.common[4]), b.off,
                                   F(b.kv), F(b.kta), Opt(b.comp)), "C17", "IR value of a pixel")
    [] b.k = "tar" -> Value(b, TAR(F(b.ta), F(b.tr), F(b.em), b.em = OneBits), "C18", "T_ar")
    [] b.k = "sens" -> Value(b, SensitivityCorrection(F(b.ksta), F(b.ta)), "C18", "sensitivity correction")
    [] b.k = "temp" -> Value(b, Temperature(F(b.vir), F(b.al), F(b.tar), F(b.kso)), "C18", "temperature of a pixel")
    [] b.k = "img" -> Image(b)
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
