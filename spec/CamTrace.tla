------------------------------ MODULE CamTrace ------------------------------
(* Recorded histories of the real driver on a simulated camera, followed   *)
(* step by step.  The camera is Device.tla's; a step of the camera that    *)
(* the specification does not allow is a defect of the simulation ("SIM"). *)
(* The driver is whatever it does: every call is judged when it returns,   *)
(* by the predicates of Contract.tla and the formulas of Calc.tla.         *)
EXTENDS Contract, Calc, Conform

Cals == ndJsonDeserialize(IOEnv.CALS)

VARIABLES pos,     \* next event of the block
          dev,     \* the camera
          sess,    \* [em, refl, amb, cfg: last control word exchanged, alive, faulted, em0, refl0, lost]
          cur      \* the call in progress: [op, arg, argl, len, log]
vars == <<blk, phase, pos, dev, sess, cur>>
B == Blocks[blk]
M == B.m
Cal == Cals[B.cal]

\* ---- RAM words ----
Frm(f) == B.frames[f + 1]
RamWord(f, a) ==
  LET c == ClassOf(M, a)
      fr == Frm(f)
  IN CASE c \in 1..4 -> fr[2] + (((fr[1] * 7919 + a * 104729) % 65536) % fr[3])
       [] c = 5 -> fr[8]
       [] c = 6 -> fr[9]
       [] c = 7 -> (IF a = VbeAddr(M) THEN fr[4] ELSE IF a = PtatAddr(M) THEN fr[5] ELSE IF a = VddAddr(M) THEN fr[6] ELSE fr[7])
       [] OTHER -> 30000
RamNow(d, a) == RamWord(d.ram[ClassOf(M, a)], a)

NoCall == [op |-> "", arg |-> 0, argl |-> <<>>, len |-> 0, log |-> <<>>]
Init ==
  /\ ConformInit
  /\ pos = 1
  /\ dev = [status |-> B.status, control |-> B.control, ram |-> [c \in Classes |-> B.ram[c]]]
  /\ sess = [em |-> 0, refl |-> <<>>, amb |-> <<>>, cfg |-> -1, alive |-> FALSE, faulted |-> FALSE,
             ems |-> {}, refls |-> {}, lost |-> {}]
  /\ cur = NoCall

\* ---- environment ----
Sim(ok, what) == IF ok THEN {} ELSE {<<"SIM", what>>}
DoTick(e) == dev' = Tick(M, dev, e.f) /\ UNCHANGED <<sess, cur>>
DoExt(e) == dev' = Ext(dev, e.reg, e.v) /\ UNCHANGED <<sess, cur>>

\* ---- transfers ----
Rd(e) == [t |-> "rd", a |-> e.a, n |-> e.nb \div 2, v |-> e.v, ok |-> e.ok = 1, code |-> e.code, ram |-> dev.ram,
          dev |-> e.dev, al |-> e.al, nb |-> e.nb]
Wr(e) == [t |-> "wr", a |-> e.a, n |-> 1, v |-> e.v, ok |-> e.ok = 1, code |-> e.code, ram |-> dev.ram,
          dev |-> e.dev, al |-> 2, nb |-> e.nb]
Transfer(x) ==
  /\ cur' = [cur EXCEPT !.log = Append(@, x)]
  /\ UNCHANGED sess
  /\ Report(blk, Bad(LegalTransfer(M, B.addr, cur.op, x), "C20", "illegal transfer"))
DoRd(e) ==
  /\ UNCHANGED dev
  /\ Transfer(Rd(e))
  /\ Report(blk, Sim(e.ok = 1 /\ e.nb = 2 /\ e.a \in {StatusAddr, ControlAddr} => e.v = RegRead(dev, e.a), "register read"))
  /\ Report(blk, Sim(e.ok = 1 /\ e.w # <<>> /\ e.a >= RamBase /\ e.a + (e.nb \div 2) - 1 <= RamEnd(M)
                     => e.w = <<RamNow(dev, e.a), RamNow(dev, e.a + (e.nb \div 2) - 1)>>, "RAM read"))
DoWr(e) == dev' = (IF e.ap = 1 THEN Write(dev, e.a, e.v) ELSE dev) /\ Transfer(Wr(e))

\* ---- the return of a call ----
Mask(e, len) == {i \in 0..(len - 1) : Bit(e.mask[i \div 24 + 1], i % 24) = 1}
OpProp(op) == IF op \in ImageOps THEN "C22" ELSE IF op = "sync" THEN "C08" ELSE IF op \in SessionOps THEN "C09"
              ELSE IF op \in NewOps THEN "C15" ELSE "C02"

DefaultEm == IF Cal.em = <<>> THEN OneBits ELSE Cal.em[1]
OptEq(a, b) == Len(a) = Len(b) /\ (a # <<>> => a[1] = b[1])

\* what a pixel may be; h: a hypothesis about what the image was made with
PixelOf(h, p, em, emIsOne, refl) ==
  LET ta == FrameTa(Cal, h.ram)
      rc == FxDyadic(1, h.rce)
      vdd == FrameVdd(Cal, rc, h.ram)
      gain == FrameGain(Cal, h.ram)
      comp == F(Cal.comp[h.pat + 1][p + 1])
      ir == RSub(VIR(h.word[p], gain, vdd, em, ta, Cal.off[h.sp + 1][p + 1], F(Cal.kv[h.sp + 1][p + 1]),
                     F(Cal.kta[h.sp + 1][p + 1]), comp),
                 Gradient(Cal, gain, vdd, em, ta, h.ram[5], h.sp, h.pat))
      tr == IF refl = <<>> THEN RSub(ta, FxInt(SelfHeating(M))) ELSE refl[1]
  IN IF h.op = "raw_sp" THEN ir
     ELSE Temperature(ir, Alpha(Cal, F(Cal.al[h.sp + 1][p + 1]), AlphaCompensation(Cal, h.sp), ta),
                      TAR(ta, tr, em, emIsOne), F(Cal.ksto[Basic(M) + 1]))
ReflOf(h) == IF h.refl = <<>> THEN <<>> ELSE <<F(h.refl[1])>>
Pixel(h, p) == PixelOf(h, p, F(h.em), h.em = OneBits, ReflOf(h))

\* is there one reflected temperature, or one emissivity, with which all of an image would be right?  By bisection:
\* [a, a+n] * 2^e, down to the width 2^e.
Span(a, n, e) == XAdd(FxDyadic(a, e), <<0, e, 0, 0, e, 0, n>>)
Fits(v, bits, n) == Contains(v, bits) /\ (n = 1 => Tight(v, 10, 6))
RECURSIVE SomeRefl(_, _, _, _)
SomeRefl(h, px, a, n) ==
  /\ \A x \in px : Fits(PixelOf(h, x[1], F(h.em), h.em = OneBits, <<Span(a, n, -10)>>), x[2], n)
  /\ n = 1 \/ SomeRefl(h, px, a, n \div 2) \/ SomeRefl(h, px, a + (n \div 2), n \div 2)
RECURSIVE SomeEm(_, _, _, _)
SomeEm(h, px, a, n) ==
  /\ \A x \in px : Fits(PixelOf(h, x[1], Span(a, n, -18), FALSE, ReflOf(h)), x[2], n)
  /\ n = 1 \/ SomeEm(h, px, a, n \div 2) \/ SomeEm(h, px, a + (n \div 2), n \div 2)
\* -256..768 degrees; emissivities from 0.1 to 4.1
OtherSettings(h, px) ==
  LET finite == {x \in px : ~Contains(NaN, x[2])}
  IN /\ Cardinality(finite) >= 4
     /\ \/ h.op # "raw_sp" /\ h.em # OneBits /\ SomeRefl(h, finite, -256 * 1024, 1024 * 1024)
        \/ SomeEm(h, finite, 26214, 1048576)

\* the pixels written by a successful image call; returns a set of findings
Judged(e, sp, cfg) ==
  LET log == cur.log
      pat == Get(cfg, cPattern)
      res == Get(cfg, cResolution)
      W == Mask(e, cur.len)
      want == ImagePixels(M, sp, pat, cur.len)
      lenNote == cur.len # NumPixels(M)
      ramOf == [i \in 1..5 |-> RamWord(Origin(M, log, FrameWords(M, sp)[i]), FrameWords(M, sp)[i])]
      seen == {e.px[i][1] : i \in 1..Len(e.px)} \cap want
      wordOf == [p \in seen |-> RamWord(Origin(M, log, PixelAddr(M, sp, p)), PixelAddr(M, sp, p))]
      h0 == [op |-> cur.op, em |-> sess.em, refl |-> sess.refl, sp |-> sp, pat |-> pat, rce |-> Cal.res - res,
             ram |-> ramOf, word |-> wordOf]
      px == {e.px[i] : i \in {j \in 1..Len(e.px) : e.px[j][1] \in seen}}
      wrong(h) == {x \in px : ~Contains(TLCEval(Pixel(h, x[1])), x[2])}
      Explains(h) == wrong(h) = {}
      OtherPat == {[h0 EXCEPT !.pat = 1 - pat]} \cup {[h0 EXCEPT !.rce = r] : r \in (-3..3) \ {h0.rce}}
                  \cup {[h0 EXCEPT !.pat = 1 - pat, !.rce = r] : r \in -3..3}
      OtherSess == {[h0 EXCEPT !.em = x] : x \in sess.ems} \cup {[h0 EXCEPT !.refl = x] : x \in sess.refls}
                   \cup {[h0 EXCEPT !.refl = <<x[2]>>] : x \in {}}
      LostCfg == {[h0 EXCEPT !.pat = Get(c, cPattern), !.rce = Cal.res - Get(c, cResolution)] : c \in sess.lost}
      maskBad == W # want
      unread == PixelsUnread(M, log, sp, pat, cur.len) # {} \/ FrameUnread(M, log, sp) # {}
  IN IF unread THEN {<<"C05", "a word of the frame was not read in this call">>}
                    \cup (IF maskBad THEN {<<"C04", "wrong pixels written">>} ELSE {})
                    \cup (IF PixelsUnread(M, log, sp, 1 - pat, cur.len) = {} /\ FrameUnread(M, log, sp) = {}
                          THEN {<<"C03", "read the pixels of the other access pattern">>} ELSE {})
     ELSE IF maskBad
     THEN {<<"C04", "wrong pixels written">>}
          \cup (IF W = ImagePixels(M, sp, 1 - pat, cur.len) THEN {<<"C03", "pixels of the other access pattern">>} ELSE {})
          \cup (IF W = ImagePixels(M, 1 - sp, pat, cur.len) THEN {<<"C05", "pixels of the other subpage">>} ELSE {})
          \cup (IF lenNote THEN {<<"C22", "wrong pixels for this buffer length">>} ELSE {})
          \cup (IF \E c \in sess.lost : W = ImagePixels(M, sp, Get(c, cPattern), cur.len)
                THEN {<<"C07", "pixels of an access pattern that was never set">>} ELSE {})
     ELSE IF wrong(h0) = {} THEN {}
     ELSE LET c03 == \E h \in OtherPat : Explains(h)
              c09 == \E h \in OtherSess : Explains(h)
              c07 == \E h \in LostCfg : h # h0 /\ Explains(h)
              x == CHOOSE y \in wrong(h0) : TRUE
          IN (IF ~c03 /\ ~c09 /\ ~c07 /\ OtherSettings(h0, px)
              THEN {<<"C09", "image made with session settings never in force", x>>} ELSE {})
             \cup (IF c03 THEN {<<"C03", "image made with another access pattern or resolution", x>>} ELSE {})
             \cup (IF c09 THEN {<<"C09", "image made with other session settings", x>>} ELSE {})
             \cup (IF c07 THEN {<<"C07", "image made with a configuration that was never set", x>>} ELSE {})
             \cup (IF ~c03 /\ ~c09 THEN {<<"C05", "pixel value", x>>} ELSE {})
             \cup (IF lenNote THEN {<<"C22", "pixel value (buffer length)", x>>} ELSE {})

Success(e) == e.r = "ok" /\ (cur.op = "img_ready" => e.v = 1)

\* the frame is generated: ambient temperature
AmbFrom(e, sp) ==
  LET log == cur.log IN
  IF FrameUnread(M, log, sp) # {} THEN {}
  ELSE LET ta == FrameTa(Cal, [i \in 1..5 |-> RamWord(Origin(M, log, FrameWords(M, sp)[i]), FrameWords(M, sp)[i])])
       IN Bad(e.amb # <<>> /\ Contains(ta, e.amb[1]), "C09", "ambient temperature is not that of the latest image")

OneImage(e, cfg) ==
  LET sp == ImageSubpage(M, cur) IN
  IF Success(e)
  THEN IF sp = -1 THEN {<<"C05", "the subpage was not read in this call">>}
       ELSE LET found == Judged(e, sp, cfg)
            IN found \cup AmbFrom(e, sp)
               \cup Bad(cur.op # "img_ready" \/ \A v \in found : v[1] \notin {"C04", "C05"}, "C06", "not the image of the frame that was ready")
  ELSE LET touched == Mask(e, cur.len) # {}
           ambNew == ~OptEq(e.amb, sess.amb)
       IN IF e.r = "ok"
          THEN Bad(~touched, "C06", "no new data, but the buffer was written")
               \cup Bad(~ambNew, "C06", "no new data, but the ambient temperature changed")
          ELSE IF e.r = "rd"
          THEN Bad(~touched, "C07", "buffer written although a read failed")
               \cup Bad(~ambNew, "C07", "ambient temperature changed although a read failed")
          ELSE \* the acknowledgement failed: the image may or may not have been delivered
               Bad(sp = -1 \/ Mask(e, cur.len) \subseteq ImagePixels(M, sp, Get(cfg, cPattern), cur.len),
                   "C04", "wrong pixels written")
               \cup (IF ambNew /\ sp # -1 THEN AmbFrom(e, sp) ELSE {})

SessionRule(e) ==
  LET wantEm == CASE cur.op = "em" -> cur.arg
                  [] cur.op = "em_default" -> DefaultEm
                  [] cur.op \in NewOps -> DefaultEm
                  [] OTHER -> sess.em
      wantRefl == CASE cur.op = "refl" -> cur.argl
                    [] cur.op \in NewOps -> <<>>
                    [] OTHER -> sess.refl
      fail == IF e.r = "rd" THEN "C07" ELSE "C09"
      ambFree == cur.op \in ImageOps
  IN Bad(e.em = wantEm, "C09", "effective emissivity")
     \cup Bad(OptEq(e.refl, wantRefl), "C09", "reflected temperature")
     \cup Bad(ambFree \/ OptEq(e.amb, IF cur.op \in NewOps THEN <<>> ELSE sess.amb), "C09", "ambient temperature changed")
     \cup (IF e.r = "rd" /\ (e.em # sess.em \/ ~OptEq(e.refl, sess.refl)) /\ cur.op \notin NewOps
           THEN {<<"C07", "session settings changed by a failing call">>} ELSE {})

NewRule(e, cfg) ==
  (IF e.r = "ok" THEN Bad(cfg # -1 /\ ControlExchanges(cur.log) # {}, "C03", "configuration of the camera not read")
                      \cup Bad(e.hw = <<Height(M), Width(M)>>, "C23", "image dimensions")
   ELSE Bad(e.alive = 0, "C07", "construction failed but there is a driver"))
  \cup Bad(Writes(cur.log) = {}, "C02", "construction wrote to the camera")

OpRule(e, cfg) ==
  IF e.r \in {"panic", "hang"} THEN {<<OpProp(cur.op), e.r \o " in " \o cur.op>>}
  ELSE FaultRule(cur, e)
       \cup (CASE cur.op \in GetterOps -> GetterRule(cur, e)
               [] cur.op \in SetterOps -> SetterRule(cur, e)
               [] cur.op = "reset_avail" -> ResetRule(cur, e)
               [] cur.op = "sync" -> SyncRule(cur, e)
               [] cur.op \in ImageOps -> ImageRule(M, cur, e, Get(cfg, cPattern)) \cup OneImage(e, cfg)
               [] cur.op \in NewOps -> NewRule(e, cfg)
               [] OTHER -> Bad(cur.log = <<>> /\ e.r = "ok", "C09", "a session setting touched the bus"))
       \cup (IF e.alive = 1 THEN SessionRule(e) ELSE {})
       \* an error without a failing transfer is also a failure of what was asked for
       \cup (IF e.r \in {"rd", "wr", "lib"} /\ Faults(cur.log) = {}
             THEN {<<IF cur.op \in ImageOps THEN "C06" ELSE OpProp(cur.op), "spurious error">>} ELSE {})

DoRet(e) ==
  LET cfg == LastControl(IF cur.op \in NewOps THEN -1 ELSE sess.cfg, cur.log)
      bad == OpRule(e, cfg)
      lostNow == {cur.log[i].v : i \in {j \in Faults(cur.log) : cur.log[j].a = ControlAddr /\ cur.log[j].t = "wr"}}
  IN /\ Report(blk, {Append(v, cur.op) : v \in bad})
     \* a later call must be as if the failed call had ended there
     /\ sess.faulted /\ bad # {} => Report(blk, {<<"C07", "after a failed transfer: " \o v[2]>> : v \in {x \in bad : x[1] # "C07"}})
     \* a buffer of another length must not change what an image call does with the camera
     /\ LET odd == {v \in bad : v[1] \in {"C05", "C06"} /\ Faults(cur.log) = {}}
        IN cur.op \in ImageOps /\ cur.len # NumPixels(M) /\ odd # {}
           => Report(blk, {<<"C22", v[2] \o " (buffer length)", cur.op>> : v \in odd})
     /\ sess' = [em |-> e.em, refl |-> e.refl, amb |-> e.amb, cfg |-> cfg, alive |-> e.alive = 1,
                 faulted |-> sess.faulted \/ Faults(cur.log) # {},
                 ems |-> IF cur.op \in NewOps THEN {OneBits, DefaultEm} ELSE sess.ems \cup {sess.em},
                 refls |-> IF cur.op \in NewOps THEN {<<>>} ELSE sess.refls \cup {sess.refl},
                 lost |-> IF cur.op \in NewOps THEN {} ELSE sess.lost \cup lostNow]
     /\ cur' = NoCall
     /\ UNCHANGED dev

Next ==
  /\ pos <= Len(B.ev)
  /\ pos' = pos + 1
  /\ UNCHANGED <<blk, phase>>
  /\ LET e == B.ev[pos] IN
     CASE e.e = "call" -> cur' = [op |-> e.op, arg |-> e.arg, argl |-> e.argl, len |-> e.len, log |-> <<>>]
                          /\ UNCHANGED <<dev, sess>>
       [] e.e = "rd" -> DoRd(e)
       [] e.e = "wr" -> DoWr(e)
       [] e.e = "tick" -> DoTick(e)
       [] e.e = "ext" -> DoExt(e)
       [] e.e = "ret" -> DoRet(e)
=============================================================================
