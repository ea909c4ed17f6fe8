-------------------------- MODULE Eeprom640Check --------------------------
(* C11, C12: the decoded calibration against the EEPROM words.             *)
EXTENDS Conform, Eeprom640

OptIs(list, zero, x) == IF list = <<>> THEN zero ELSE Len(list) = 1 /\ Near(x, list[1])
NoneOrZero(list) == list = <<>> \/ (Len(list) = 1 /\ list[1] = 0)
Seq4(x, list) == Len(list) = Len(x) /\ \A i \in 1..Len(x) : Near(x[i], list[i])

\* does the recorded constant f have the value of the EEPROM?
Holds(w, s, f) ==
  CASE f = "kvdd" -> s.kvdd = KVdd(w)
    [] f = "vdd25" -> s.vdd25 = Vdd25(w)
    [] f = "res" -> s.res = ResolutionEE(w)
    [] f = "vdd0" -> Near(Vdd0, s.vdd0)
    [] f = "kvptat" -> Near(KVPtat(w), s.kvptat)
    [] f = "ktptat" -> Near(KTPtat(w), s.ktptat)
    [] f = "vptat25" -> Near(VPtat25(w), s.vptat25)
    [] f = "aptat" -> Near(AlphaPtat(w), s.aptat)
    [] f = "gain" -> Near(Gain(w), s.gain)
    [] f = "ksta" -> Near(KsTa(w), s.ksta)
    [] f = "ct" -> s.ct = CT(w)
    [] f = "ksto" -> Seq4(KsTo(w), s.ksto)
    [] f = "acorr" -> /\ Len(s.acorr) = 4
                      /\ \A n \in 0..3 : Contains(Widen(AlphaCorr(KsTo(w), CT(w), Basic, n)), s.acorr[n + 1])
    [] f = "em" -> s.em = <<>>
    [] f = "tgc" -> OptIs(s.tgc, TgcRaw(w) = 0, Tgc(w))
    [] f = "ocp" -> s.ocp = <<OffsetCp(w, 0), OffsetCp(w, 1)>>
    [] f = "acp" -> Near(AlphaCp(w, 0), s.acp[1]) /\ Near(AlphaCp(w, 1), s.acp[2])
    [] f = "kvcp" -> Near(KVCp(w), s.kvcp[1]) /\ Near(KVCp(w), s.kvcp[2])
    [] f = "ktacp" -> Near(KTaCp(w), s.ktacp[1]) /\ Near(KTaCp(w), s.ktacp[2])
    [] f = "ccp" -> /\ NoneOrZero(s.ccp[1]) /\ NoneOrZero(s.ccp[2]) /\ NoneOrZero(s.ccp[4])
                    /\ OptIs(s.ccp[3], SField(At(w, H(53)), 5, 0) = 0, ILC1(w))
    [] OTHER -> TRUE
Names == {"kvdd", "vdd25", "res", "vdd0", "kvptat", "ktptat", "vptat25", "aptat", "gain", "ksta", "ct", "ksto", "acorr", "em", "tgc", "ocp", "acp", "kvcp", "ktacp", "ccp"}
What(f) == CASE f = "kvdd" -> "K_VDD" [] f = "vdd25" -> "VDD25" [] f = "res" -> "resolution" [] f = "vdd0" -> "VDD0" [] f = "kvptat" -> "Kv_PTAT" [] f = "ktptat" -> "Kt_PTAT" [] f = "vptat25" -> "VPTAT25" [] f = "aptat" -> "alpha_PTAT" [] f = "gain" -> "gain" [] f = "ksta" -> "KsTa" [] f = "ct" -> "corner temperatures" [] f = "ksto" -> "KsTo" [] f = "acorr" -> "range sensitivity correction" [] f = "em" -> "emissivity" [] f = "tgc" -> "TGC" [] f = "ocp" -> "CP offset" [] f = "acp" -> "CP sensitivity" [] f = "kvcp" -> "CP K_V" [] f = "ktacp" -> "CP K_Ta" [] f = "ccp" -> "CP interleave correction"
Scalars(w, s) == UNION {Flag(Holds(w, s, f), "C11", What(f)) : f \in Names}

\* the constants that depend on the header word at offset j, and no others
Uses(j) == CASE j = 16 -> {"aptat"}
             [] j = 32 -> {"acp"}
             [] j = 48 -> {"gain"}
             [] j = 49 -> {"vptat25"}
             [] j = 50 -> {"kvptat", "ktptat"}
             [] j = 51 -> {"kvdd", "vdd25"}
             [] j = 53 -> {"ccp"}
             [] j = 56 -> {"res", "kvcp", "ktacp"}
             [] j = 57 -> {"acp"}
             [] j = 58 -> {"ocp"}
             [] j = 59 -> {"kvcp", "ktacp"}
             [] j = 60 -> {"ksta", "tgc"}
             [] j \in {61, 62} -> {"ksto", "acorr"}
             [] j = 63 -> {"ct", "ksto", "acorr"}
             [] OTHER -> {}

\* the array for the second subpage is recorded as <<>> when it equals the first
Both(b0, b1, OK(_, _)) ==
  {p \in Pixels : ~OK(p, b0[p + 1])} \cup
  (IF b1 = <<>> THEN {} ELSE {p \in Pixels : ~OK(p, b1[p + 1])})
Lengths(x) == \A a \in {x.off0, x.al0, x.kv0, x.kta0} : Len(a) = 768
Lengths1(x) == \A a \in {x.off1, x.al1, x.kv1, x.kta1} : Len(a) \in {0, 768}

PixelData(w, off, x) ==
  LET live == Pixels \ FailedPixels(w)
      al == AlphaSums(w)
      ascale == AlphaScale(w)
      kts == KTaScale1(w)
      kv == TLCEval([g \in 0..3 |-> FxDyadic(KVGroup(w)[g], -KVScale(w))])
      il == TLCEval([r \in 0..1 |-> TLCEval([c \in 0..3 |-> ILPixel(w, r, c)])])
      OffOK(p, v) == p \notin live \/ v = off[p]
      AlOK(p, v) == p \notin live \/ Near(FxDyadic(al[p], -ascale), v)
      KvOK(p, v) == p \notin live \/ Near(kv[Group(p)], v)
      KtOK(p, v) == p \notin live \/ Near(FxDyadic(KTaSum(w, p), -kts), v)
      IlOK(p) == p \notin live \/ Near(il[Row(p) % 2][Col(p) % 4], x.compI[p + 1])
      failed == FailedPixels(w)
      outl == OutlierPixels(w)
      set(seq) == {seq[i] : i \in 1..Len(seq)}
      ascending(seq) == \A i \in 1..(Len(seq) - 1) : seq[i] < seq[i + 1]
  IN IF ~(Lengths(x) /\ Lengths1(x)) THEN {<<"C12", "number of pixels">>}
     ELSE First("C12", "offset", Both(x.off0, x.off1, OffOK))
     \cup First("C12", "sensitivity", Both(x.al0, x.al1, AlOK))
     \cup First("C12", "K_V", Both(x.kv0, x.kv1, KvOK))
     \cup First("C12", "K_Ta", Both(x.kta0, x.kta1, KtOK))
     \cup Flag(x.noneC \in {0, 768} /\ Len(x.compC) + x.noneC = 768 /\ \A i \in 1..Len(x.compC) : x.compC[i] = 0,
               "C12", "chess pattern compensation")
     \cup (IF x.noneI = 768 /\ x.compI = <<>> THEN Flag(At(w, H(53)) \div 64 = 0, "C12", "interleave compensation")
           ELSE IF Len(x.compI) # 768 THEN {<<"C12", "interleave compensation: number of pixels">>}
           ELSE First("C12", "interleave compensation", {p \in Pixels : ~IlOK(p)}))
     \cup Flag(set(x.failed) = failed /\ ascending(x.failed) /\ x.failed_any = Bool(failed # {}), "C12", "failed pixels")
     \cup Flag(set(x.outlier) = outl /\ ascending(x.outlier) /\ x.outlier_any = Bool(outl # {}), "C12", "outlier pixels")

\* full images
Full(b) ==
  LET off == OffsetSums(b.w) IN
  CASE b.ok = 1 -> (IF MustRefuse(b.w, off) THEN {<<"C12", "offset not representable, but accepted">>}
                    ELSE Scalars(b.w, b.s) \cup PixelData(b.w, off, b.px))
    [] b.ok = 0 -> (IF MayRefuse(b.w, off) THEN {} ELSE {<<"C11", "image refused">>, <<"C12", "image refused">>})
    [] b.ok = -1 -> {<<"C15", "panic while loading">>}
                    \cup (IF MayRefuse(b.w, off) THEN {<<"C12", "not refused with an error">>}
                          ELSE {<<"C11", "panic">>, <<"C12", "panic">>})

\* images whose pixel words are all unremarkable: camera-wide constants only
Header(b) == IF b.ok = 1 THEN Scalars(b.w, b.s) ELSE {<<"C11", "image refused">>}

\* one header word swept; the rows hold what differs from the base image's constants
Sweep(b) ==
  LET base == b.w
      RowBad(r) ==
        LET w2 == [base EXCEPT ![b.j + 1] = r.v]
            s2 == [f \in DOMAIN b.s |-> IF f \in DOMAIN r.d THEN r.d[f] ELSE b.s[f]]
        IN IF r.ok = -1 THEN {<<"C15", "panic while loading">>, <<"C11", "panic">>}
           ELSE IF r.ok = 0 THEN {<<"C11", "image refused">>}
           ELSE UNION {Flag(Holds(w2, s2, f), "C11", What(f)) : f \in Uses(b.j)}
                \cup {<<"C11", What(f) \o " depends on a foreign word">> : f \in (DOMAIN r.d \cap Names) \ Uses(b.j)}
  IN IF b.ok = 1 THEN Scalars(base, b.s) \cup UNION {RowBad(b.rows[i]) : i \in 1..Len(b.rows)}
     ELSE {<<"C11", "image refused">>}

Verdict(b) == CASE b.k = "e640" -> Full(b) [] b.k = "h640" -> Header(b) [] b.k = "w640" -> Sweep(b)
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
