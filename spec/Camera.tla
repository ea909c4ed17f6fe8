------------------------------- MODULE Camera -------------------------------
(* The design: the driver, one bus transfer at a time, together with the   *)
(* camera (Device.tla) and an environment that completes frames, makes     *)
(* transfers fail and changes registers behind the driver's back at any    *)
(* point.  The properties of Contract.tla are its invariants.              *)
(*                                                                         *)
(* RAM words are known by the frame that they come from, session settings  *)
(* by small numbers; the address ranges are the real ones.                 *)
EXTENDS Contract

CONSTANTS
  Models,        \* subset of {640, 641}
  Statuses, Controls,        \* initial register contents
  ExtStatus, ExtControl,     \* register contents that others may write
  OpArgs,        \* calls to consider: set of <<op, arg>>
  MaxCalls, MaxTicks, MaxFaults, MaxExt,
  Endless,       \* TRUE: frames never stop (and all look the same)
  CacheEarly     \* TRUE: the configuration is cached before it is written (the defect fixed by 795a1ca)

VARIABLES
  m,             \* the camera's model
  dev,
  drv,           \* [alive, pat, res, em, refl, amb, buf]
  call,          \* [op, arg, len, log, pc, reg, cfg0, done, img, res, old]
  left           \* [calls, ticks, faults, exts]: what may still happen
cvars == <<m, dev, drv, call, left>>

DefaultEm == 1
Never == -1
Idle == [op |-> "", arg |-> 0, len |-> 0, log |-> <<>>, pc |-> 0, reg |-> 0, cfg0 |-> -1, done |-> FALSE,
         img |-> <<>>, res |-> [r |-> "", v |-> 0, code |-> 0], old |-> <<>>]
Busy == call.op # ""
Running == Busy /\ ~call.done

\* ---- what the driver does ----
Rows(mm) == IF mm = 640 THEN 0..23 ELSE 0..5
\* the reads of an image: the pixels, row by row unless all rows are wanted, then the other words
PixelReads(mm, sp, pat) ==
  IF mm = 641 THEN [k \in 1..6 |-> <<RamBase + 64 * (k - 1) + 32 * sp, 32>>]
  ELSE IF pat = Chess THEN << <<RamBase, 768>> >>
  ELSE [k \in 1..12 |-> <<RamBase + 32 * (2 * (k - 1) + sp), 32>>]
FrameReads(mm, sp) == [i \in 1..5 |-> <<FrameWords(mm, sp)[i], 1>>]
ImageReads(mm, sp, pat) == PixelReads(mm, sp, pat) \o FrameReads(mm, sp)

Regular(op) == IF op \in GetterOps THEN GetterReg(op) ELSE IF op \in SetterOps THEN SetterReg(op) ELSE StatusAddr
StatusFirst(op) == op \in {"img", "img_ready"}
CallSp(c) == IF c.op \in ImageSpOps THEN c.arg ELSE Get(c.reg, sSubpage)
\* transfers before the image's reads
Lead(op) == IF StatusFirst(op) THEN 1 ELSE 0
Reading(c) == c.op \in ImageOps /\ c.pc >= Lead(c.op)

RdT(a, n) == [t |-> "rd", a |-> a, n |-> n, v |-> 0]
WrT(a, v) == [t |-> "wr", a |-> a, n |-> 1, v |-> v]
\* the next transfer of the call in progress
NextTransfer(c, d) ==
  CASE c.op \in GetterOps -> RdT(GetterReg(c.op), 1)
    [] c.op \in SetterOps -> IF c.pc = 0 THEN RdT(SetterReg(c.op), 1)
                             ELSE WrT(SetterReg(c.op), Set(c.reg, SetterField(c.op), c.arg))
    [] c.op = "reset_avail" -> IF c.pc = 0 THEN RdT(StatusAddr, 1) ELSE WrT(StatusAddr, ClearNewData(c.reg))
    [] c.op = "sync" -> IF c.pc = 1 THEN WrT(StatusAddr, SyncRequest(c.reg)) ELSE RdT(StatusAddr, 1)
    [] c.op \in ImageOps ->
         IF c.pc < Lead(c.op) THEN RdT(StatusAddr, 1)
         ELSE LET reads == ImageReads(m, CallSp(c), d.pat)
                  i == c.pc - Lead(c.op) + 1
              IN IF i <= Len(reads) THEN RdT(reads[i][1], reads[i][2])
                 ELSE WrT(StatusAddr, ClearNewData(c.reg))
    [] c.op = "new" -> IF c.pc = 0 THEN RdT(EepromBase, EepromWords) ELSE RdT(ControlAddr, 1)
    [] c.op = "newc" -> RdT(ControlAddr, 1)
\* is the call complete after pc transfers, the last register value read being reg?
Complete(c, d) ==
  CASE c.op \in GetterOps -> c.pc = 1
    [] c.op \in SetterOps -> c.pc = 2 \/ (c.pc = 1 /\ Get(c.reg, SetterField(c.op)) = c.arg)
    [] c.op = "reset_avail" -> c.pc = 2
    [] c.op = "sync" -> c.pc = 3 /\ Get(c.reg, sNewData) = 1
    [] c.op \in ImageOps ->
         \/ c.op = "img_ready" /\ c.pc = 1 /\ Get(c.reg, sNewData) = 0
         \/ c.pc = Lead(c.op) + Len(ImageReads(m, CallSp(c), d.pat)) + (IF c.op = "img_ready" THEN 1 ELSE 0)
    [] c.op = "new" -> c.pc = 2
    [] c.op = "newc" -> c.pc = 1
    [] c.op \in SessionOps -> TRUE
ResultValue(c) == CASE c.op \in GetterOps -> GetterValue(c.op, c.reg)
                    [] c.op = "img_ready" -> Get(c.reg, sNewData)
                    [] OTHER -> 0

\* the pixel buffer: for every row the frames of the words in it
RowClasses(row) == IF m = 640 THEN <<1 + (row % 2), 3 + (row % 2)>> ELSE <<1, 2>>
Fill(buf, a, n, ram, sp) ==
  [r \in Rows(m) |->
     LET lo == IF m = 640 THEN RamBase + 32 * r ELSE RamBase + 64 * r + 32 * sp
     IN IF a <= lo /\ lo + 31 <= a + n - 1
        THEN IF m = 640 THEN <<ram[RowClasses(r)[1]], ram[RowClasses(r)[2]]>> ELSE <<ram[1 + sp], ram[1 + sp]>>
        ELSE buf[r]]
\* the frame of pixel p according to the buffer
BufPixel(buf, p) == IF m = 640 THEN buf[Row(640, p)][1 + (Col(640, p) % 2)] ELSE buf[p \div 32][1]

Cache(d, w) == [d EXCEPT !.pat = Get(w, cPattern), !.res = Get(w, cResolution)]
\* the driver's state after a successful transfer x of call c; v: the word read
After(d, c, x, v) ==
  LET d1 == IF x.a = ControlAddr THEN Cache(d, IF x.t = "rd" THEN v ELSE x.v) ELSE d
      d2 == IF Reading(c) /\ x.t = "rd" THEN
               (IF x.a < VbeAddr(m) THEN [d1 EXCEPT !.buf = Fill(@, x.a, x.n, dev.ram, CallSp(c))]
                ELSE [d1 EXCEPT !.aux = Append(IF x.a = VbeAddr(m) THEN <<>> ELSE @, dev.ram[ClassOf(m, x.a)])])
            ELSE d1
  IN d2
\* an image is computed once all its words are there
ImageOf(c, d) == [sp |-> CallSp(c), pat |-> d.pat, res |-> d.res, em |-> d.em, refl |-> d.refl,
                  px |-> [p \in ImagePixels(m, CallSp(c), d.pat, NumPixels(m)) |-> BufPixel(d.buf, p)], aux |-> d.aux]
ImageComplete(c, d) == Reading(c) /\ c.pc = Lead(c.op) + Len(ImageReads(m, CallSp(c), d.pat))
                       /\ (c.op = "img_ready" => Get(c.reg, sNewData) = 1)

\* ---- actions of the driver ----
Fresh == [alive |-> TRUE, pat |-> 0, res |-> 0, em |-> DefaultEm, refl |-> 0, amb |-> <<>>,
          buf |-> [r \in Rows(m) |-> <<Never, Never>>], aux |-> <<>>]
Session(d, c) == CASE c.op = "em" -> [d EXCEPT !.em = c.arg]
                   [] c.op = "em_default" -> [d EXCEPT !.em = DefaultEm]
                   [] c.op = "refl" -> [d EXCEPT !.refl = c.arg]
                   [] OTHER -> d
\* finish the call if it is complete
Settle(c, d) == IF Complete(c, d) THEN [c EXCEPT !.done = TRUE, !.res = [r |-> "ok", v |-> ResultValue(c), code |-> 0]] ELSE c

Free == 0
CallCost == 1      \* 0 where calls may go on for ever
Next_left(l) == l  \* the budgets after a call; Full where they are for one call
Full(l) == [calls |-> MaxCalls, ticks |-> MaxTicks, faults |-> MaxFaults, exts |-> MaxExt]
Start ==
  /\ ~Busy /\ left.calls > 0
  /\ \E oa \in OpArgs :
       /\ drv.alive \/ oa[1] \in NewOps
       /\ LET c0 == [Idle EXCEPT !.op = oa[1], !.arg = oa[2], !.len = NumPixels(m),
                                 !.cfg0 = IF oa[1] \in NewOps THEN -1 ELSE call.cfg0,
                                 !.old = <<drv.em, drv.refl, drv.amb>>]
              d1 == Session(IF oa[1] \in NewOps THEN [Fresh EXCEPT !.alive = FALSE] ELSE drv, c0)
          IN drv' = d1 /\ call' = (IF oa[1] \in SessionOps THEN Settle(c0, d1) ELSE c0)
  /\ left' = [left EXCEPT !.calls = @ - CallCost]
  /\ UNCHANGED <<m, dev>>

Entry(x, v, ok) == [t |-> x.t, a |-> x.a, n |-> x.n, v |-> v, ok |-> ok, code |-> Len(call.log) + 1, ram |-> dev.ram,
                    dev |-> 0, al |-> 2, nb |-> IF x.t = "rd" THEN 2 * x.n ELSE 4]
\* repeated polls that show nothing are not recorded again
Append1(c, e) == LET l == Len(c.log) IN
                 IF c.op = "sync" /\ l > 0 /\ e.ok /\ c.log[l].t = "rd" /\ c.log[l].v = e.v /\ e.t = "rd" THEN c.log
                 ELSE Append(c.log, e)
Xfer ==
  /\ Running
  /\ LET x == NextTransfer(call, drv)
         v == IF x.t = "wr" THEN x.v ELSE IF x.a \in {StatusAddr, ControlAddr} THEN RegRead(dev, x.a) ELSE 0
         c1 == [call EXCEPT !.pc = IF call.op = "sync" /\ call.pc = 3 THEN 3 ELSE @ + 1,
                            !.reg = IF x.t = "rd" /\ x.a \in {StatusAddr, ControlAddr} THEN v ELSE @,
                            !.log = Append1(call, Entry(x, v, TRUE))]
         d1 == After(drv, call, x, v)
         ready == ImageComplete(c1, d1)
         d2 == IF ready THEN [d1 EXCEPT !.amb = <<d1.aux[1], d1.aux[2], d1.aux[3]>>] ELSE d1
         c2 == IF ready THEN [c1 EXCEPT !.img = <<ImageOf(c1, d1)>>] ELSE c1
         c3 == Settle(c2, d2)
     IN /\ call' = c3
        /\ drv' = IF c3.done /\ c3.op \in NewOps THEN [d2 EXCEPT !.alive = TRUE] ELSE d2
        /\ dev' = IF x.t = "wr" THEN Write(dev, x.a, x.v) ELSE dev
  /\ UNCHANGED <<m, left>>

\* a transfer fails; a failing write may have reached the camera nevertheless
XferFails(applied) ==
  /\ Running /\ left.faults > 0
  /\ LET x == NextTransfer(call, drv)
         e == Entry(x, x.v, FALSE)
     IN /\ x.t = "rd" => ~applied
        /\ call' = [call EXCEPT !.log = Append(@, e), !.done = TRUE, !.res = [r |-> x.t, v |-> 0, code |-> e.code]]
        /\ dev' = IF applied THEN Write(dev, x.a, x.v) ELSE dev
        /\ drv' = IF CacheEarly /\ x.t = "wr" /\ x.a = ControlAddr THEN Cache(drv, x.v) ELSE drv
  /\ left' = [left EXCEPT !.faults = @ - 1]
  /\ UNCHANGED m

\* the caller has its result; only the last control word exchanged is remembered
Finish ==
  /\ Busy /\ call.done
  /\ call' = [Idle EXCEPT !.cfg0 = LastControl(call.cfg0, call.log)]
  /\ left' = Next_left(left)
  /\ UNCHANGED <<m, dev, drv>>

\* ---- the environment ----
\* what a new frame may be called; TwoColours: a word that is not of the right frame has the wrong colour in some history
FrameNames == {IF Endless THEN 1 ELSE MaxTicks - left.ticks + 1}
TwoColours == {0, 1}
CameraTick ==
  /\ left.ticks > 0 /\ MayMeasure(dev) /\ MayStore(dev)
  /\ \E k \in FrameNames : dev' = Tick(m, dev, k)
  /\ left' = IF Endless THEN left ELSE [left EXCEPT !.ticks = @ - 1]
  /\ UNCHANGED <<m, drv, call>>
Others ==
  /\ left.exts > 0
  /\ \/ \E v \in ExtStatus : dev.status # v /\ dev' = Ext(dev, StatusAddr, v)
     \/ \E v \in ExtControl : dev.control # v /\ dev' = Ext(dev, ControlAddr, v)
  /\ left' = [left EXCEPT !.exts = @ - 1]
  /\ UNCHANGED <<m, drv, call>>

Init ==
  /\ m \in Models
  /\ \E s \in Statuses, c \in Controls : dev = [status |-> s, control |-> c, ram |-> [k \in Classes |-> 0]]
  /\ drv = [Fresh EXCEPT !.alive = FALSE]
  /\ call = Idle
  /\ left = [calls |-> MaxCalls, ticks |-> MaxTicks, faults |-> MaxFaults, exts |-> MaxExt]
Driver == Start \/ Xfer \/ Finish
Next == Driver \/ XferFails(TRUE) \/ XferFails(FALSE) \/ CameraTick \/ Others
Spec == Init /\ [][Next]_cvars

\* ---- properties ----
Returned == Busy /\ call.done
Cfg == LastControl(call.cfg0, call.log)
Res == call.res
C20_Legal == Busy => \A i \in 1..Len(call.log) : LegalTransfer(m, 0, call.op, call.log[i])
C07_Faults == Returned => FaultRule(call, Res) = {}
C02_Registers ==
  Returned => /\ call.op \in GetterOps => GetterRule(call, Res) = {}
              /\ call.op \in SetterOps => SetterRule(call, Res) = {}
              /\ call.op = "reset_avail" => ResetRule(call, Res) = {}
              /\ call.op \in SessionOps => call.log = <<>>
C06_Acknowledge == Returned /\ call.op \in ImageOps => ImageRule(m, call, Res, Get(Cfg, cPattern)) = {}
C08_Synchronize == Returned /\ call.op = "sync" => SyncRule(call, Res) = {}
C03_Configuration ==
  drv.alive /\ (Busy => call.done) => drv.pat = Get(Cfg, cPattern) /\ drv.res = Get(Cfg, cResolution)
Delivered == Returned /\ call.img # <<>>
Img == call.img[1]
C03_Images == Delivered => Img.pat = Get(Cfg, cPattern) /\ Img.res = Get(Cfg, cResolution)
C05_Origins ==
  Delivered =>
    LET sp == ImageSubpage(m, call)
        first == Img.sp = sp
    IN /\ first
       /\ FrameUnread(m, call.log, sp) = {} /\ PixelsUnread(m, call.log, sp, Img.pat, NumPixels(m)) = {}
       /\ \A i \in 1..5 : Img.aux[i] = Origin(m, call.log, FrameWords(m, sp)[i])
       /\ DOMAIN Img.px = ImagePixels(m, sp, Img.pat, NumPixels(m))
       \* a sample of pixels from every row and parity is every pixel, up to the class of the word
       /\ \A p \in {q \in DOMAIN Img.px : Col(m, q) < 2} : Img.px[p] = Origin(m, call.log, PixelAddr(m, sp, p))
C06_Untouched == Returned /\ Res.r = "ok" /\ call.op = "img_ready" /\ Res.v = 0 => call.img = <<>>
C07_NoTrace == Returned /\ Res.r = "rd" /\ call.op \notin NewOps
               => call.img = <<>> /\ <<drv.em, drv.refl, drv.amb>> = call.old
C09_Session ==
  Returned =>
    /\ drv.em = (CASE call.op = "em" -> call.arg [] call.op \in {"em_default"} \cup NewOps -> DefaultEm [] OTHER -> call.old[1])
    /\ drv.refl = (CASE call.op = "refl" -> call.arg [] call.op \in NewOps -> 0 [] OTHER -> call.old[2])
    /\ drv.amb = (IF call.op \in NewOps THEN <<>> ELSE IF call.img # <<>> THEN <<Img.aux[1], Img.aux[2], Img.aux[3]>> ELSE call.old[3])
    /\ Delivered => Img.em = drv.em /\ Img.refl = drv.refl
\* the camera itself: the measured subpage is where the status register says
DeviceInv == /\ dev.status \in Word /\ dev.control \in Word

\* in step mode frames arrive only on request, and an image is of one frame (CameraStep.cfg)
Stamps == {Img.px[p] : p \in DOMAIN Img.px} \cup {Img.aux[i] : i \in 1..5}
Coherent == Delivered => Cardinality(Stamps) = 1

\* ---- reachable, so that the properties above are not vacuous (checked to be violated) ----
NeverTorn == Delivered => Cardinality(Stamps) <= 1
NeverLost == ~(Returned /\ call.op = "img_ready" /\ call.img # <<>> /\ Res.r = "ok"
               /\ dev.ram[AuxClass] # Img.aux[5] /\ Get(dev.status, sNewData) = 0)
NeverSync == ~(Returned /\ call.op = "sync" /\ Res.r = "ok" /\ Len(call.log) >= 4)

\* ---- liveness ----
Fairness == WF_cvars(Xfer) /\ WF_cvars(Finish) /\ WF_cvars(CameraTick)
LiveSpec == Spec /\ Fairness
\* a camera that may stop delivering: then synchronizing does not return
LazySpec == Spec /\ WF_cvars(Xfer) /\ WF_cvars(Finish)
SyncReturns == (Running /\ call.op = "sync") ~> (~Busy \/ call.done)
=============================================================================
