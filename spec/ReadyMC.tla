------------------------------ MODULE ReadyMC ------------------------------
(* Camera.tla with a caller that keeps up and polls: an implementation of  *)
(* Ready.tla.                                                              *)
EXTENDS MC

VARIABLES told, last, lost
rvars == <<m, dev, drv, call, left, told, last, lost>>
CONSTANT Polite          \* FALSE: frames are completed before the one before has been acknowledged (must be found out)

Flag == Get(dev.status, sNewData)
\* the bits of a status word that can be written, but for the flag
RestOf(w) == Get(w, <<15, 4>>)
Polling == Running /\ call.op = "img_ready" /\ call.pc >= 1
AllRead == Polling /\ call.pc = Lead("img_ready") + Len(ImageReads(m, CallSp(call), drv.pat))
Frames == MaxTicks - left.ticks

Abs == INSTANCE Ready WITH
  n <- Frames, new <- Flag, rest <- RestOf(dev.status),
  phase <- IF ~Polling THEN 0 ELSE IF AllRead THEN 2 ELSE 1,
  seen <- IF Polling THEN RestOf(call.reg) ELSE 0,
  data <- IF AllRead THEN call.img[1].aux[5] ELSE 0

Acknowledges == call.op = "img_ready" /\ ~call.done /\ call'.done /\ call'.res.r = "ok" /\ call'.res.v = 1
AcknowledgeLost == XferFails(TRUE) /\ call.op = "img_ready"
RXfer == /\ Xfer /\ UNCHANGED lost
         /\ IF Acknowledges THEN told' = told + 1 /\ last' = call.img[1].aux[5] ELSE UNCHANGED <<told, last>>
RLost == AcknowledgeLost /\ lost' = lost + 1 /\ UNCHANGED <<told, last>>
RFail == XferFails(FALSE) /\ UNCHANGED <<told, last, lost>>
RTick == (Polite => Flag = 0) /\ CameraTick /\ UNCHANGED <<told, last, lost>>
RCall == (Start \/ Finish) /\ UNCHANGED <<told, last, lost>>
RInit == Init /\ told = 0 /\ last = 0 /\ lost = 0
RNext == RXfer \/ RLost \/ RFail \/ RTick \/ RCall
RSpec == RInit /\ [][RNext]_rvars

RefinesReady == Abs!Spec
PollOps == {<<"newc", 0>>, <<"img_ready", 0>>, <<"em", 2>>, <<"avail", 0>>, <<"pat", 0>>, <<"set_pat", 0>>}
NoFlag == {0, 1, 17, 65526}
ReadyControls == {6401, 2305, 7425, 6400}
=============================================================================
