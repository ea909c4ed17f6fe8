------------------------------- MODULE Ready -------------------------------
(* Polling with image-if-ready, for any number of frames and failures:     *)
(* the camera completes frames and flags them, a caller who keeps up polls, *)
(* transfers fail.  Every frame is reported exactly once and in order, but *)
(* for those whose acknowledgement failed after it had reached the camera. *)
(* Apalache proves IndInv to be inductive; Camera.tla refines this         *)
(* (ReadyMC.tla, TLC).                                                     *)
EXTENDS Integers

CONSTANT
  \* @type: Bool;
  Polite         \* no frame is completed before the one before has been acknowledged

VARIABLES
  \* @type: Int;
  n,             \* frames completed
  \* @type: Int;
  new,           \* the camera's flag
  \* @type: Int;
  rest,          \* the other bits of the status register that can be written
  \* @type: Int;
  phase,         \* of the poll in progress: 0 not begun, 1 has seen the flag, 2 has read all the data, too
  \* @type: Int;
  seen,          \* the other bits as it has seen them
  \* @type: Int;
  data,          \* the frame that it has read
  \* @type: Int;
  told,          \* frames reported
  \* @type: Int;
  last,          \* the one reported last (0: none)
  \* @type: Int;
  lost           \* frames acknowledged by polls that failed
\* @type: <<Int, Int, Int, Int, Int, Int, Int, Int, Int>>;
vars == <<n, new, rest, phase, seen, data, told, last, lost>>

ConstInit == Polite = TRUE
RudeInit == Polite = FALSE

Frame == /\ (Polite => new = 0)
         /\ n' = n + 1 /\ new' = 1 /\ rest' \in 0..4095   \* the camera ends a requested measurement
         /\ UNCHANGED <<phase, seen, data, told, last, lost>>
\* a poll that sees the flag; one that does not is over and changes nothing
Sees == /\ phase = 0 /\ new = 1
        /\ phase' = 1 /\ seen' = rest /\ UNCHANGED <<n, new, rest, data, told, last, lost>>
Reads == /\ phase = 1
         /\ phase' = 2 /\ data' = n /\ UNCHANGED <<n, new, rest, seen, told, last, lost>>
Acknowledges == /\ phase = 2
                /\ new' = 0 /\ rest' = seen /\ phase' = 0 /\ seen' = 0 /\ data' = 0
                /\ told' = told + 1 /\ last' = data /\ UNCHANGED <<n, lost>>
Fails == /\ phase # 0
         /\ phase' = 0 /\ seen' = 0 /\ data' = 0 /\ UNCHANGED <<n, new, rest, told, last, lost>>
\* the acknowledgement arrives, but the caller hears of a failure
FailsLate == /\ phase = 2
             /\ new' = 0 /\ rest' = seen /\ phase' = 0 /\ seen' = 0 /\ data' = 0
             /\ lost' = lost + 1 /\ UNCHANGED <<n, told, last>>

Init == /\ n = 0 /\ new = 0 /\ rest \in 0..4095
        /\ phase = 0 /\ seen = 0 /\ data = 0 /\ told = 0 /\ last = 0 /\ lost = 0
Next == Frame \/ Sees \/ Reads \/ Acknowledges \/ Fails \/ FailsLate
Spec == Init /\ [][Next]_vars

\* ---- properties ----
Once == told + lost + new = n
InTime == last <= n /\ (new = 1 => last < n)
IndInv ==
  /\ n \in Nat /\ told \in Nat /\ lost \in Nat /\ last \in Nat /\ new \in {0, 1}
  /\ rest \in 0..4095 /\ seen \in 0..4095 /\ phase \in 0..2 /\ data \in Nat
  /\ phase # 0 => new = 1 /\ seen = rest
  /\ phase = 2 => data = n
  /\ Once /\ InTime
\* polls touch nothing but the flag, and frames are reported in order
Untouched == n' = n => rest' = rest
InOrder == told' # told => told' = told + 1 /\ last' = n /\ last' > last
Step == Untouched /\ InOrder
=============================================================================
