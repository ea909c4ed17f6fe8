-------------------------- MODULE Eeprom641Check --------------------------
(* C13: the decoded calibration against the EEPROM's data bits.            *)
EXTENDS Conform, Eeprom641

NoneOrZero(list) == list = <<>> \/ (Len(list) = 1 /\ list[1] = 0)
Seq8(x, list) == Len(list) = 8 /\ \A i \in 1..8 : Near(x[i], list[i])

RECURSIVE AlphaCorr(_, _, _)
AlphaCorr(ks, ct, n) ==
  LET grow(i) == RAdd(FxInt(1), RMul(ks[i + 1], FxInt(ct[i + 2] - ct[i + 1])))
  IN IF n = Basic THEN FxInt(1)
     ELSE IF n < Basic THEN RDiv(AlphaCorr(ks, ct, n + 1), grow(n))
     ELSE RMul(AlphaCorr(ks, ct, n - 1), grow(n - 1))

\* does the recorded constant f have the value of the EEPROM?
Holds(d, s, f) ==
  CASE f = "kvdd" -> s.kvdd = KVdd(d)
    [] f = "vdd25" -> s.vdd25 = Vdd25(d)
    [] f = "res" -> s.res = ResolutionEE(d)
    [] f = "vdd0" -> Near(Vdd0, s.vdd0)
    [] f = "kvptat" -> Near(KVPtat(d), s.kvptat)
    [] f = "ktptat" -> Near(KTPtat(d), s.ktptat)
    [] f = "vptat25" -> Near(VPtat25(d), s.vptat25)
    [] f = "aptat" -> Near(AlphaPtat(d), s.aptat)
    [] f = "gain" -> Near(Gain(d), s.gain)
    [] f = "ksta" -> Near(KsTa(d), s.ksta)
    [] f = "ct" -> s.ct = CT(d)
    [] f = "ksto" -> Seq8(KsTo(d), s.ksto)
    [] f = "acorr" -> /\ Len(s.acorr) = 8
                      /\ \A n \in 0..7 : Contains(Widen(AlphaCorr(KsTo(d), CT(d), n)), s.acorr[n + 1])
    [] f = "em" -> Len(s.em) = 1 /\ Near(Emissivity(d), s.em[1])
    [] f = "tgc" -> IF s.tgc = <<>> THEN TgcRaw(d) = 0 ELSE Near(Tgc(d), s.tgc[1])
    [] f = "ocp" -> s.ocp = <<OffsetCp(d), OffsetCp(d)>>
    [] f = "acp" -> \A i \in 1..2 : Near(AlphaCp(d), s.acp[i])
    [] f = "kvcp" -> \A i \in 1..2 : Near(KVCp(d), s.kvcp[i])
    [] f = "ktacp" -> \A i \in 1..2 : Near(KTaCp(d), s.ktacp[i])
    [] f = "ccp" -> \A i \in 1..4 : NoneOrZero(s.ccp[i])
    [] OTHER -> TRUE
Names == {"kvdd", "vdd25", "res", "vdd0", "kvptat", "ktptat", "vptat25", "aptat", "gain", "ksta", "ct", "ksto", "acorr", "em", "tgc", "ocp", "acp", "kvcp", "ktacp", "ccp"}
What(f) == CASE f = "kvdd" -> "K_VDD" [] f = "vdd25" -> "VDD25" [] f = "res" -> "resolution" [] f = "vdd0" -> "VDD0" [] f = "kvptat" -> "Kv_PTAT" [] f = "ktptat" -> "Kt_PTAT" [] f = "vptat25" -> "VPTAT25" [] f = "aptat" -> "alpha_PTAT" [] f = "gain" -> "gain" [] f = "ksta" -> "KsTa" [] f = "ct" -> "corner temperatures" [] f = "ksto" -> "KsTo" [] f = "acorr" -> "range sensitivity correction" [] f = "em" -> "emissivity" [] f = "tgc" -> "TGC" [] f = "ocp" -> "CP offset" [] f = "acp" -> "CP sensitivity" [] f = "kvcp" -> "CP K_V" [] f = "ktacp" -> "CP K_Ta" [] f = "ccp" -> "CP interleave correction"
Scalars(d, s) == UNION {Flag(Holds(d, s, f), "C13", What(f)) : f \in Names}

\* the constants that depend on the header word at offset j, and no others
Uses(j) == CASE j = 34 -> {"ksta"}
             [] j = 35 -> {"em"}
             [] j \in {36, 37} -> {"gain"}
             [] j = 38 -> {"vdd25"}
             [] j = 39 -> {"kvdd"}
             [] j \in {40, 41} -> {"vptat25"}
             [] j = 42 -> {"ktptat"}
             [] j = 43 -> {"kvptat"}
             [] j = 44 -> {"aptat"}
             [] j \in {45, 46} -> {"acp"}
             [] j \in {47, 48} -> {"ocp"}
             [] j = 49 -> {"ktacp"}
             [] j = 50 -> {"kvcp"}
             [] j = 51 -> {"res", "tgc"}
             [] j \in {52, 53, 54, 55, 56, 57, 59, 61, 63} -> {"ksto", "acorr"}
             [] j \in {58, 60, 62} -> {"ct", "acorr"}
             [] OTHER -> {}

\* the array for the second subpage is recorded as <<>> when it equals the first
PixelData(d, x) ==
  LET live == Pixels \ FailedPixels(d)
      second(a, b) == IF b = <<>> THEN a ELSE b
      off(sp) == IF sp = 0 THEN x.off0 ELSE second(x.off0, x.off1)
      al(sp) == IF sp = 0 THEN x.al0 ELSE second(x.al0, x.al1)
      kv(sp) == IF sp = 0 THEN x.kv0 ELSE second(x.kv0, x.kv1)
      kta(sp) == IF sp = 0 THEN x.kta0 ELSE second(x.kta0, x.kta1)
      failed == FailedPixels(d)
      set(seq) == {seq[i] : i \in 1..Len(seq)}
      ascending(seq) == \A i \in 1..(Len(seq) - 1) : seq[i] < seq[i + 1]
      bad(OK(_, _)) == {p \in live : \E sp \in 0..1 : ~OK(sp, p)}
      OffOK(sp, p) == off(sp)[p + 1] = OffsetOf(d, Off(d, sp, p))
      AlOK(sp, p) == Near(Sensitivity(d, p), al(sp)[p + 1])
      KvOK(sp, p) == Near(KV(d, p), kv(sp)[p + 1])
      KtOK(sp, p) == Near(KTa(d, p), kta(sp)[p + 1])
  IN IF \E a \in {off(0), off(1), al(0), al(1), kv(0), kv(1), kta(0), kta(1)} : Len(a) # 192
     THEN {<<"C13", "number of pixels">>}
     ELSE First("C13", "offset", bad(OffOK)) \cup First("C13", "sensitivity", bad(AlOK))
     \cup First("C13", "K_V", bad(KvOK)) \cup First("C13", "K_Ta", bad(KtOK))
     \cup Flag(/\ x.noneC + Len(x.compC) = 192 /\ x.noneI + Len(x.compI) = 192
               /\ (\A i \in 1..Len(x.compC) : x.compC[i] = 0) /\ (\A j \in 1..Len(x.compI) : x.compI[j] = 0),
               "C13", "access pattern compensation")
     \cup Flag(set(x.failed) = failed /\ ascending(x.failed) /\ x.failed_any = Bool(failed # {}), "C13", "failed pixels")
     \* this camera does not tell outliers from failed pixels
     \cup Flag(set(x.outlier) = failed /\ ascending(x.outlier) /\ x.outlier_any = Bool(failed # {}), "C13", "outlier pixels")

Full(b) ==
  LET d == TLCEval([i \in 1..832 |-> b.w[i] % 2048]) IN
  IF ~WellFormed(d) THEN (IF b.ok = -1 THEN {<<"C15", "panic while loading">>} ELSE {})
  ELSE CASE b.ok = 1 -> (IF MustRefuse(d) THEN {<<"C13", "offset not representable, but accepted">>}
                         ELSE Scalars(d, b.s) \cup PixelData(d, b.px))
    \* the offset average alone may be all that a failed pixel has
    [] b.ok = 0 -> (IF MustRefuse(d) /\ b.err # 2 THEN {} ELSE {<<"C13", "image refused">>})
    [] b.ok = -1 -> {<<"C15", "panic while loading">>, <<"C13", "panic">>}

Header(b) ==
  LET d == TLCEval([i \in 1..64 |-> b.w[i] % 2048]) IN
  IF b.ok = 1 THEN Scalars(d, b.s) ELSE {<<"C13", "image refused">>}

\* one header word swept; the rows hold what differs from the base image's constants
Sweep(b) ==
  LET base == TLCEval([i \in 1..64 |-> b.w[i] % 2048])
      RowBad(r) ==
        LET w2 == [base EXCEPT ![b.j + 1] = r.v % 2048]
            s2 == [f \in DOMAIN b.s |-> IF f \in DOMAIN r.d THEN r.d[f] ELSE b.s[f]]
        IN IF r.ok = -1 THEN {<<"C15", "panic while loading">>, <<"C13", "panic">>}
           ELSE IF r.ok = 0 THEN {<<"C13", "image refused">>}
           ELSE UNION {Flag(Holds(w2, s2, f), "C13", What(f)) : f \in Uses(b.j)}
                \cup {<<"C13", What(f) \o " depends on a foreign word">> : f \in (DOMAIN r.d \cap Names) \ Uses(b.j)}
  IN IF b.ok = 1 THEN Scalars(base, b.s) \cup UNION {RowBad(b.rows[i]) : i \in 1..Len(b.rows)}
     ELSE {<<"C13", "image refused">>}

Verdict(b) == CASE b.k = "e641" -> Full(b) [] b.k = "h641" -> Header(b) [] b.k = "w641" -> Sweep(b)
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
