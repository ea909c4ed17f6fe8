----------------------------- MODULE PollTrace -----------------------------
(* Recorded sessions of a caller who polls into one buffer, followed step  *)
(* by step with the camera of Device.tla and the mailbox of Poll.tla: the  *)
(* frames that wait to be shown are kept as the memory was when they were  *)
(* completed, whatever the driver reads.                                   *)
EXTENDS CamTrace

VARIABLES box,     \* frames waiting: [ram, sp, ctl, void]
          had,     \* was one waiting when the call in progress began?
          set,     \* what the caller has set: [em, refl]
          hyps,    \* the frames that have been shown
          pic      \* pixel -> index of the frame that it shows (0: none)
pvars == <<blk, phase, pos, dev, sess, cur, box, had, set, hyps, pic>>

NPix == NumPixels(M)
Snap(d) == [ram |-> d.ram, sp |-> Get(d.status, sSubpage), ctl |-> d.control, void |-> FALSE]
PInit ==
  /\ Init
  /\ box = IF Get(B.status, sNewData) = 1 THEN <<Snap(dev)>> ELSE <<>>
  /\ had = FALSE
  /\ set = [em |-> 0, refl |-> <<>>]
  /\ hyps = <<>>
  /\ pic = [p \in 0..(NPix - 1) |-> 0]
Rest == UNCHANGED <<had, set, hyps, pic>>

Void(b) == [i \in DOMAIN b |-> [b[i] EXCEPT !.void = TRUE]]
Raised == Get(dev.status, sNewData) = 0 /\ Get(dev'.status, sNewData) = 1
Lowered == Get(dev'.status, sNewData) = 0

PTick(e) ==
  /\ DoTick(e) /\ Rest
  /\ box' = IF Raised THEN Append(box, Snap(dev')) ELSE box
  /\ Report(blk, Sim(Get(dev.status, sNewData) = 1 => dev' = dev, "a frame before the one before has been shown"))
PWr(e) ==
  /\ DoWr(e) /\ Rest
  \* resetting throws the frame away, and so does synchronizing when it begins (the frame that it waits for stays);
  \* the frame is of no use if the camera is reconfigured
  /\ box' = IF Lowered /\ (cur.op = "reset_avail" \/ (cur.op = "sync" /\ Writes(cur.log) = {})) THEN <<>>
            ELSE IF dev'.control # dev.control THEN Void(box) ELSE box

\* ---- the return of a call ----
C27(ok, what) == IF ok THEN {} ELSE {<<"C27", what>>}
Hyp(x) ==
  [op |-> "img", em |-> set.em, refl |-> set.refl, sp |-> x.sp, pat |-> Get(x.ctl, cPattern),
   rce |-> Cal.res - Get(x.ctl, cResolution), x |-> x,
   ram |-> [i \in 1..5 |-> LET a == FrameWords(M, x.sp)[i] IN RamWord(x.ram[ClassOf(M, a)], a)]]
\* pixel p of the frame shown under hypothesis h
Shows(h, p, bits) ==
  LET a == PixelAddr(M, h.sp, p)
      w == RamWord(h.x.ram[ClassOf(M, a)], a)
  IN h.x.void \/ Contains(TLCEval(Pixel([k \in DOMAIN h \cup {"word"} |-> IF k = "word" THEN p :> w ELSE h[k]], p)), bits)
Cells(h) == ImagePixels(M, h.sp, h.pat, cur.len)

PollRet(e) ==
  LET changed == Mask(e, cur.len)
      found == e.r = "ok" /\ e.v = 1
      h == Hyp(Head(box))
      cells == Cells(h)
  IN /\ Report(blk,
          IF e.r \in {"panic", "hang"} THEN {<<"C27", e.r \o " in a poll">>}
          ELSE IF found
          THEN IF box = <<>> THEN {<<"C27", "a poll reports a frame that does not exist">>}
               ELSE C27(h.x.void \/ changed \subseteq cells, "a pixel that is not of the frame changed")
                    \cup C27(\A i \in 1..Len(e.px) : e.px[i][1] \in cells => Shows(h, e.px[i][1], e.px[i][2]),
                             "a pixel does not show the frame")
                    \cup C27(h.x.void \/ (e.amb # <<>> /\ Contains(FrameTa(Cal, h.ram), e.amb[1])),
                             "the ambient temperature is not that of the frame")
          ELSE C27(changed = {}, "the picture changed although no frame was reported")
               \cup C27(OptEq(e.amb, sess.amb), "the ambient temperature changed although no frame was reported")
               \cup (IF e.r = "ok" THEN C27(~had, "a poll missed a frame that was there")
                     ELSE C27(Faults(cur.log) # {}, "a poll failed although nothing was wrong")))
     /\ IF found /\ box # <<>>
        THEN /\ box' = Tail(box)
             /\ hyps' = Append(hyps, h)
             /\ pic' = [p \in DOMAIN pic |-> IF p \in cells THEN Len(hyps) + 1 ELSE pic[p]]
        ELSE UNCHANGED <<box, hyps, pic>>
     /\ UNCHANGED set
OtherRet(e) ==
  /\ set' = (CASE cur.op = "em" -> [set EXCEPT !.em = cur.arg]
               [] cur.op = "em_default" -> [set EXCEPT !.em = DefaultEm]
               [] cur.op = "refl" -> [set EXCEPT !.refl = cur.argl]
               [] cur.op \in NewOps -> [em |-> DefaultEm, refl |-> <<>>]
               [] OTHER -> set)
  /\ Report(blk, C27(cur.op \notin {"sync", "avail"} \/ e.r = "ok" \/ Faults(cur.log) # {}, "a call failed although nothing was wrong"))
  /\ UNCHANGED <<box, hyps, pic>>
PRet(e) ==
  /\ IF cur.op = "img_ready" THEN PollRet(e) ELSE OtherRet(e)
  /\ sess' = [sess EXCEPT !.em = e.em, !.refl = e.refl, !.amb = e.amb, !.alive = e.alive = 1]
  /\ cur' = NoCall
  /\ UNCHANGED <<dev, had>>
\* the whole buffer in the end
Look(e) ==
  /\ UNCHANGED <<dev, sess, cur, box, had, set, hyps, pic>>
  /\ LET shows(x) == LET i == pic[x[1]] IN IF i = 0 THEN x[2] = x[3] ELSE Shows(hyps[i], x[1], x[2])
         bad == {e.px[i][1] : i \in {j \in 1..Len(e.px) : ~shows(e.px[j])}}
     IN Report(blk, First("C27", "in the end a pixel does not show the latest frame of its subpage", bad))

PNext ==
  /\ pos <= Len(B.ev)
  /\ pos' = pos + 1
  /\ UNCHANGED <<blk, phase>>
  /\ LET e == B.ev[pos] IN
     CASE e.e = "call" -> /\ cur' = [op |-> e.op, arg |-> e.arg, argl |-> e.argl, len |-> e.len, log |-> <<>>]
                          /\ had' = (box # <<>>)
                          /\ UNCHANGED <<dev, sess, box, set, hyps, pic>>
       [] e.e = "rd" -> DoRd(e) /\ Rest /\ UNCHANGED box
       [] e.e = "wr" -> PWr(e)
       [] e.e = "tick" -> PTick(e)
       [] e.e = "ret" -> PRet(e)
       [] e.e = "look" -> Look(e)
=============================================================================
