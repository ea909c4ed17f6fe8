----------------------------- MODULE Contract -----------------------------
(* What one driver call may do: the properties as predicates over the bus  *)
(* transfers of a call and its result.  Used both as the invariants of the *)
(* design (Camera.tla) and to judge recorded executions (CamTrace.tla).    *)
(*                                                                         *)
(*   transfer = [t: "rd"/"wr", a: first word address, n: words,            *)
(*               v: word read or written (registers), ok, code: error,     *)
(*               ram: RAM contents at the time of a RAM read]              *)
(*   call     = [op, arg, log: transfers, len: length of the buffer]       *)
(*   result   = [r: "ok"/"rd"/"wr"/"lib"/"panic"/"hang", v, code]          *)
EXTENDS Device, FiniteSets, TLC

ImageSpOps == {"raw_sp", "img_sp"}
ImageOps == ImageSpOps \cup {"img", "img_ready"}
NewOps == {"new", "newc"}
SessionOps == {"em", "em_default", "refl"}
\* getters: register and value as a function of the word
GetterReg(op) == IF op \in {"last_sp", "avail", "overwrite"} THEN StatusAddr ELSE ControlAddr
GetterOps == {"last_sp", "avail", "overwrite", "use_sp", "hold", "repeat", "sel_sp", "rate", "res", "pat"}
GetterValue(op, w) ==
  CASE op = "last_sp" -> Get(w, sSubpage)
    [] op = "avail" -> IF Get(w, sNewData) = 1 THEN Get(w, sSubpage) ELSE -1
    [] op = "overwrite" -> Get(w, sOverwrite)
    [] op = "use_sp" -> Get(w, cUseSubpages)
    [] op = "hold" -> Get(w, cHold)
    [] op = "repeat" -> Get(w, cRepeat)
    [] op = "sel_sp" -> Get(w, cSubpage)
    [] op = "rate" -> Get(w, cRate)
    [] op = "res" -> Get(w, cResolution)
    [] op = "pat" -> Get(w, cPattern)
SetterOps == {"set_overwrite", "set_use_sp", "set_hold", "set_repeat", "set_sel_sp", "set_rate", "set_res", "set_pat"}
SetterReg(op) == IF op = "set_overwrite" THEN StatusAddr ELSE ControlAddr
SetterField(op) ==
  CASE op = "set_overwrite" -> sOverwrite
    [] op = "set_use_sp" -> cUseSubpages
    [] op = "set_hold" -> cHold
    [] op = "set_repeat" -> cRepeat
    [] op = "set_sel_sp" -> cSubpage
    [] op = "set_rate" -> cRate
    [] op = "set_res" -> cResolution
    [] op = "set_pat" -> cPattern
Ops == ImageOps \cup NewOps \cup SessionOps \cup GetterOps \cup SetterOps \cup {"reset_avail", "sync"}

Bad(ok, prop, what) == IF ok THEN {} ELSE {<<prop, what>>}

\* ---- the transfers of a call ----
IsRam(m, e) == e.t = "rd" /\ e.a >= RamBase /\ e.a <= RamEnd(m)
Is(e, t, a) == e.t = t /\ e.a = a
Idx(log) == 1..Len(log)
Faults(log) == {i \in Idx(log) : ~log[i].ok}
Writes(log) == {i \in Idx(log) : log[i].t = "wr"}
RegReads(log, a) == {i \in Idx(log) : Is(log[i], "rd", a) /\ log[i].ok}
RamReads(m, log) == {i \in Idx(log) : IsRam(m, log[i]) /\ log[i].ok}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Before(S, i) == {x \in S : x < i}

\* the control word last exchanged successfully, or none
ControlExchanges(log) == {i \in Idx(log) : log[i].ok /\ log[i].a = ControlAddr}
LastControl(old, log) == IF ControlExchanges(log) = {} THEN old ELSE log[MaxOf(ControlExchanges(log))].v

\* the last RAM read of the call that covers address a (0: none)
Covering(m, log, a) ==
  LET S == {i \in RamReads(m, log) : log[i].a <= a /\ a < log[i].a + log[i].n}
  IN IF S = {} THEN 0 ELSE MaxOf(S)
\* the frame that a word read in the call came from
Origin(m, log, a) == log[Covering(m, log, a)].ram[ClassOf(m, a)]

\* the subpage of an image: requested, or as named by the status register in this call
ImageSubpage(m, c) ==
  IF c.op \in ImageSpOps THEN c.arg
  ELSE LET R == RamReads(m, c.log)
           S == IF R = {} THEN RegReads(c.log, StatusAddr) ELSE Before(RegReads(c.log, StatusAddr), MinOf(R))
       IN IF S = {} THEN -1 ELSE Get(c.log[MaxOf(S)].v, sSubpage)

\* the pixels an image call has to write
PixelTable == TLCEval([m \in {640, 641} |-> [sp \in 0..1 |-> [pat \in 0..1 |-> PixelsOf(m, sp, pat)]]])
ImagePixels(m, sp, pat, len) == IF len >= NumPixels(m) THEN PixelTable[m][sp][pat]
                                ELSE {p \in PixelTable[m][sp][pat] : p < len}
\* the words that an image call needs and that were not read in this call
Unread(m, log, need) ==
  need \ UNION {log[i].a..(log[i].a + log[i].n - 1) : i \in RamReads(m, log)}
PixelsUnread(m, log, sp, pat, len) == Unread(m, log, {PixelAddr(m, sp, p) : p \in ImagePixels(m, sp, pat, len)})
FrameWords(m, sp) == <<VbeAddr(m), PtatAddr(m), VddAddr(m), GainAddr(m), CpAddr(m, sp)>>
FrameUnread(m, log, sp) == Unread(m, log, {FrameWords(m, sp)[i] : i \in 1..5})

\* ---- C20: every transfer ----
LegalTransfer(m, addr, op, e) ==
  /\ e.dev = addr
  /\ \/ /\ e.t = "rd" /\ e.al = 2 /\ e.nb > 0 /\ e.nb % 2 = 0
        /\ \/ e.a >= RamBase /\ e.a + e.n - 1 <= RamEnd(m)
           \/ e.a >= EepromBase /\ e.a + e.n - 1 <= EepromEnd /\ op = "new"
           \/ e.a \in {StatusAddr, ControlAddr, I2cAddr} /\ e.n = 1
     \/ e.t = "wr" /\ e.nb = 4 /\ e.a \in {StatusAddr, ControlAddr}

\* ---- C02: registers ----
GetterRule(c, res) ==
  Bad(Writes(c.log) = {}, "C02", "a getter wrote to the camera")
  \cup (IF res.r # "ok" THEN {} ELSE
        Bad(\E i \in RegReads(c.log, GetterReg(c.op)) : res.v = GetterValue(c.op, c.log[i].v),
            "C02", "a getter returned a value that was not read"))
SetterRule(c, res) ==
  LET reg == SetterReg(c.op)
      f == SetterField(c.op)
      R == RegReads(c.log, reg)
      W == Writes(c.log)
  IN Bad(Cardinality(W) <= 1, "C02", "more than one write")
     \cup Bad(\A i \in W : /\ c.log[i].a = reg /\ Before(R, i) # {}
                           /\ LET w == c.log[MaxOf(Before(R, i))].v
                              IN Get(w, f) # c.arg /\ c.log[i].v = Set(w, f, c.arg),
              "C02", "not the value just read with only the field changed")
     \cup (IF res.r # "ok" THEN {} ELSE
           Bad(R # {} /\ (W = {} => Get(c.log[MaxOf(R)].v, f) = c.arg), "C02", "the field was not set"))
ResetRule(c, res) ==
  LET R == RegReads(c.log, StatusAddr)
      W == Writes(c.log)
  IN Bad(/\ Cardinality(W) <= 1
         /\ \A i \in W : /\ c.log[i].a = StatusAddr /\ Before(R, i) # {}
                         /\ c.log[i].v = ClearNewData(c.log[MaxOf(Before(R, i))].v),
         "C02", "clearing the data-available flag changed something else")
     \cup (IF res.r # "ok" THEN {} ELSE
           Bad(W # {} \/ (R # {} /\ Get(c.log[MaxOf(R)].v, sNewData) = 0), "C02", "data-available flag not cleared"))

\* ---- C06: acknowledging ----
ImageRule(m, c, res, pat) ==
  LET S == RegReads(c.log, StatusAddr)
      W == Writes(c.log)
      R == RamReads(m, c.log)
      sp == ImageSubpage(m, c)
  IN IF c.op # "img_ready" THEN Bad(W = {}, "C06", "an image call that does not check for data wrote to the camera")
     ELSE LET nd == IF S = {} THEN 0 ELSE Get(c.log[MinOf(S)].v, sNewData) IN
          (IF S = {} /\ (res.r = "ok" \/ W # {}) THEN {<<"C06", "status register not read">>} ELSE {})
          \cup Bad(nd = 1 \/ W = {}, "C06", "wrote to the camera although no data was available")
          \cup Bad(Cardinality(W) <= 1, "C06", "acknowledged more than once")
          \cup Bad(\A i \in W : /\ c.log[i].a = StatusAddr
                                /\ \E j \in Before(S, i) : c.log[i].v = ClearNewData(c.log[j].v),
                   "C06", "acknowledgement changes more than the new-data flag")
          \cup Bad(W # {} /\ nd = 1 => /\ \A j \in R : j < MinOf(W)
                                       /\ sp # -1 => /\ FrameUnread(m, c.log, sp) = {}
                                                     /\ PixelsUnread(m, c.log, sp, pat, c.len) = {},
                   "C06", "acknowledged before all frame data had been read")
          \cup (IF res.r # "ok" THEN {} ELSE
                Bad(res.v = nd, "C06", "new data misreported")
                \cup Bad(nd = 1 => W # {}, "C06", "not acknowledged"))

\* ---- C08: synchronize ----
SyncRule(c, res) ==
  LET S == RegReads(c.log, StatusAddr)
      W == Writes(c.log)
      After(i) == {j \in S : j > i}
      Fresh(j) == Get(c.log[j].v, sNewData) = 1
  IN Bad(\A i \in Idx(c.log) : c.log[i].a = StatusAddr, "C08", "touched something else than the status register")
     \cup Bad(Cardinality(W) <= 1, "C08", "more than one request")
     \cup Bad(\A i \in W : Before(S, i) # {} /\ c.log[i].v = SyncRequest(c.log[MaxOf(Before(S, i))].v),
              "C08", "wrong request")
     \cup (IF W = {} THEN Bad(res.r # "ok", "C08", "returned without a request")
           ELSE Bad(res.r = "ok" => \E j \in After(MinOf(W)) : Fresh(j), "C08", "returned without fresh data")
                \cup Bad(\A j \in After(MinOf(W)) : Fresh(j) => j = Len(c.log), "C08", "kept polling after fresh data"))
     \cup Bad(res.r # "hang", "C08", "did not return although data arrived")

\* ---- C07: failures ----
FaultRule(c, res) ==
  IF Faults(c.log) = {} THEN Bad(res.r \notin {"rd", "wr", "lib"}, "C07", "error without a bus failure")
  ELSE LET i == MinOf(Faults(c.log))
           e == c.log[i]
       IN Bad(res.r = e.t /\ res.code = e.code, "C07", "bus failure not reported with its own error")
          \cup Bad(\A j \in Writes(c.log) : j <= i, "C07", "wrote after a failed transfer")
=============================================================================
