------------------------------- MODULE CamGen -------------------------------
(* Behaviours of Camera.tla as scripts for the real driver: which calls are *)
(* made, and what the environment does before which transfer of each.      *)
(* With TLC's breadth-first search: every behaviour within the bounds; with *)
(* -simulate: random ones.                                                 *)
EXTENDS MC

CONSTANTS MaxEnv,     \* environment actions in a behaviour
          MaxPolls    \* transfers of a call that are considered

VARIABLES hist, k
gvars == <<m, dev, drv, call, left, hist, k>>

Place == IF Busy THEN ToString(k) ELSE "999"
Started == left.calls < MaxCalls

GInit ==
  /\ m \in Models
  /\ \E s \in Statuses, c \in Controls :
       /\ dev = [status |-> s, control |-> c, ram |-> [x \in Classes |-> 0]]
       /\ drv = Cache(Fresh, c)
       /\ call = [Idle EXCEPT !.cfg0 = c]
       /\ hist = ToString(m) \o " " \o ToString(s) \o " " \o ToString(c)
  /\ left = [calls |-> MaxCalls, ticks |-> MaxTicks, faults |-> MaxFaults, exts |-> MaxExt]
  /\ k = 0

Note(s) == hist' = hist \o " " \o Place \o ":" \o s
Env == (MaxTicks - left.ticks) + (MaxFaults - left.faults) + (MaxExt - left.exts)
GStart == Start /\ k' = 0
          /\ hist' = hist \o " ; " \o call'.op \o " " \o ToString(call'.arg) \o " -1"
GXfer == Xfer /\ k < MaxPolls /\ k' = k + 1 /\ UNCHANGED hist
GFail == /\ Env < MaxEnv /\ UNCHANGED k
         /\ \/ XferFails(FALSE) /\ Note("F")
            \/ XferFails(TRUE) /\ Note("A")
GTick == Started /\ Env < MaxEnv /\ CameraTick /\ Note("T") /\ UNCHANGED k
GExt == /\ Started /\ Env < MaxEnv /\ Others /\ UNCHANGED k
        /\ Note("E" \o (IF dev'.status # dev.status THEN ToString(StatusAddr) \o "=" \o ToString(dev'.status)
                        ELSE ToString(ControlAddr) \o "=" \o ToString(dev'.control)))
GFinish == Finish /\ UNCHANGED <<hist, k>>
End == ~Busy /\ left.calls = 0
GNext == GStart \/ GXfer \/ GFail \/ GTick \/ GExt \/ GFinish
\* evaluated once per state; prints the behaviours
GPrint == End => PrintT("SCR " \o hist)
=============================================================================
