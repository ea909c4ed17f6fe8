------------------------------ MODULE PollMC ------------------------------
(* Camera.tla with a caller that keeps up, polls and shows what it gets:   *)
(* an implementation of Poll.tla.                                          *)
EXTENDS MC

VARIABLES pic,           \* what the caller's buffer shows, by cell
          nth            \* polls that said that there was a frame
pvars == <<m, dev, drv, call, left, pic, nth>>

CONSTANT Throwing        \* TRUE: synchronizing and resetting are among the calls
CONSTANT Polite          \* FALSE: frames are completed before the one before has been shown (must be found out)

\* a cell is a set of pixels that are always measured together, known by one of them
CellsOf(mm) == IF mm = 640 THEN {0, 1, 32, 33} ELSE {0}
Flag == Get(dev.status, sNewData)
Waiting == IF Flag = 0 THEN <<>>
           ELSE LET sp == Get(dev.status, sSubpage)
                IN << [f |-> dev.ram[CpClass(sp)],
                       cells |-> {c \in CellsOf(m) : InSubpage(m, sp, Get(dev.control, cPattern), c)}] >>
Abs == INSTANCE Poll WITH Discards <- Throwing, box <- Waiting, picture <- pic, told <- nth

Keep == UNCHANGED <<pic, nth>>
\* the transfer that ends a poll
Acknowledges == /\ call.op = "img_ready" /\ ~call.done /\ call'.done /\ call'.res.r = "ok" /\ call'.res.v = 1
PXfer ==
  /\ Xfer
  /\ IF Acknowledges
     THEN /\ nth' = nth + 1
          /\ pic' = [c \in DOMAIN pic |-> IF c \in DOMAIN call'.img[1].px THEN call'.img[1].px[c] ELSE pic[c]]
     ELSE Keep
PFail == /\ XferFails(FALSE) /\ NextTransfer(call, drv).t = "rd" /\ Keep
PTick == (Polite => Flag = 0) /\ CameraTick /\ Keep
PStart == Start /\ Keep
PFinish == Finish /\ Keep

\* a camera that somebody else has left in any state, but not with a frame of another pattern;
\* the picture is blank and the first frame is frame 0
PInit == /\ Init
         /\ pic = [c \in CellsOf(m) |-> Never] /\ nth = 0
PNext == PStart \/ PXfer \/ PFinish \/ PFail \/ PTick
PSpec == PInit /\ [][PNext]_pvars
\* the caller goes on polling, the bus recovers
Polls == PStart /\ call'.op = "img_ready"
PLive == PSpec /\ WF_pvars(PXfer) /\ WF_pvars(PFinish) /\ WF_pvars(PStart) /\ SF_pvars(Polls)
\* a caller who stops polling
PLazy == PSpec /\ WF_pvars(PXfer) /\ WF_pvars(PFinish) /\ WF_pvars(PStart)

Refines == Abs!Spec
AllShown == Abs!Shown
\* after a frame of either subpage (on the MLX90641: after any) nothing is left blank
Filled == /\ m = 641 /\ nth >= 1 => \A c \in DOMAIN pic : pic[c] # Never
          /\ m = 640 /\ nth >= 2 /\ Get(dev.control, cUseSubpages) = 1 /\ Get(dev.control, cRepeat) = 0
             => \A c \in DOMAIN pic : pic[c] # Never
\* frames are shown in order
Ordered == \A c \in DOMAIN pic : pic[c] <= MaxTicks

PollOps == {<<"newc", 0>>, <<"img_ready", 0>>, <<"em", 2>>, <<"avail", 0>>}
OnlyPoll == {<<"newc", 0>>, <<"img_ready", 0>>}
ThrowOps == OnlyPoll \cup {<<"sync", 0>>, <<"reset_avail", 0>>}
PollControls == {6401, 2305, 7425, 6400, 6409, 6425}
\* reachable
NeverFilled == ~(m = 640 /\ \A c \in DOMAIN pic : pic[c] # Never)
=============================================================================
