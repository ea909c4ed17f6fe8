-------------------------------- MODULE Poll --------------------------------
(* What a caller sees who polls for images: a mailbox.  The camera puts a  *)
(* completed frame in, a poll that finds one takes it out and shows it in  *)
(* the picture.  Camera.tla implements this (PollMC.tla); recorded         *)
(* sessions are followed by PollTrace.tla.                                 *)
EXTENDS Naturals, Sequences

CONSTANT Discards        \* TRUE: the caller also throws frames away (synchronize, reset)

VARIABLES
  box,                   \* the completed frames that have not been shown: <<[f, cells]>>, at most one if the caller keeps up
  picture,               \* cell -> the frame that it shows
  told                   \* how many polls have said that there was a frame
vars == <<box, picture, told>>

Blank == 0 - 1
Show(p, x) == [c \in DOMAIN p |-> IF c \in x.cells THEN x.f ELSE p[c]]

\* a frame is complete; the caller keeps up, so the one before has been shown
Frame == box = <<>> /\ Len(box') = 1 /\ UNCHANGED <<picture, told>>
\* a poll finds a frame.  A poll that finds none, or fails, changes nothing.
Poll == box # <<>> /\ picture' = Show(picture, Head(box)) /\ box' = Tail(box) /\ told' = told + 1
Discard == Discards /\ box # <<>> /\ box' = <<>> /\ UNCHANGED <<picture, told>>

Init == /\ told = 0 /\ Len(box) <= 1
        /\ \A c \in DOMAIN picture : picture[c] = Blank
Next == Frame \/ Poll \/ Discard
Spec == Init /\ [][Next]_vars
\* a frame is shown in the end if the caller polls
Shown == (box # <<>>) ~> (box = <<>>)
=============================================================================
