------------------------------- MODULE Access -------------------------------
(* One driver, one register, all words: what the driver knows of the       *)
(* control register (the configuration that images use), and the words     *)
(* that its setters write, while the bus fails and others write whatever   *)
(* they like whenever they like.  Apalache proves IndInv to be inductive,  *)
(* that is, for all 16-bit words and histories of any length; Camera.tla   *)
(* refines this (AccessMC.tla, TLC).                                       *)
(*                                                                         *)
(* A word is known by its parts: 1..8 are the fields, in the order of      *)
(* Regs!ControlFieldSeq, 9 is the bits that no field owns.  AccessMC.tla   *)
(* checks that parts and words correspond.                                 *)
EXTENDS Integers

VARIABLES
  \* @type: Int -> Int;
  ctl,       \* the camera's control register
  \* @type: Bool;
  alive,     \* there is a driver
  \* @type: Bool;
  knows,     \* the driver has exchanged a word successfully, namely
  \* @type: Int -> Int;
  held,
  \* @type: Int;
  pat,       \* the pattern and resolution that the driver works with
  \* @type: Int;
  res,
  \* @type: Int;
  fld,       \* a setter between its read (of held) and its write: field (0: no such setter) and value
  \* @type: Int;
  val
vars == <<ctl, alive, knows, held, pat, res, fld, val>>

Parts == 1..9
Fields == 1..8
Resolution == 7
Pattern == 8
\* @type: Int => Int;
Most(f) == IF f = 6 THEN 7 ELSE IF f = 7 THEN 3 ELSE IF f = 9 THEN 31 ELSE 1
\* @type: (Int -> Int) => Bool;
IsWord(w) == DOMAIN w = Parts /\ \A f \in Parts : w[f] >= 0 /\ w[f] <= Most(f)
Zero == [f \in Parts |-> 0]

Quiet == fld = 0
\* the driver has exchanged w
\* @type: (Int -> Int) => Bool;
Learn(w) == knows' = TRUE /\ held' = w /\ pat' = w[Pattern] /\ res' = w[Resolution]
\* what the setter in progress writes
Put == [held EXCEPT ![fld] = val]

\* a driver is made: first there is none, then its first read
Make == /\ Quiet
        /\ alive' = FALSE /\ knows' = FALSE /\ held' = Zero /\ pat' = 0 /\ res' = 0
        /\ UNCHANGED <<ctl, fld, val>>
Made == Quiet /\ ~alive /\ alive' = TRUE /\ Learn(ctl) /\ UNCHANGED <<ctl, fld, val>>
\* any read of the register that no write follows: a getter, or a setter that has nothing to do
Read == Quiet /\ alive /\ Learn(ctl) /\ UNCHANGED <<ctl, alive, fld, val>>
SetterReads ==
  /\ Quiet /\ alive
  /\ \E f \in Fields, v \in 0..7 : v <= Most(f) /\ ctl[f] # v /\ fld' = f /\ val' = v
  /\ Learn(ctl) /\ UNCHANGED <<ctl, alive>>
SetterWrites == ~Quiet /\ ctl' = Put /\ Learn(Put) /\ fld' = 0 /\ val' = 0 /\ UNCHANGED alive
\* the write fails; it may have reached the camera
WriteFails ==
  /\ ~Quiet /\ (ctl' = Put \/ ctl' = ctl) /\ fld' = 0 /\ val' = 0
  /\ UNCHANGED <<alive, knows, held, pat, res>>
Others == ctl' \in [Parts -> 0..31] /\ IsWord(ctl)' /\ UNCHANGED <<alive, knows, held, pat, res, fld, val>>

Init == /\ ctl \in [Parts -> 0..31] /\ IsWord(ctl)
        /\ alive = FALSE /\ knows = FALSE /\ held = Zero /\ pat = 0 /\ res = 0 /\ fld = 0 /\ val = 0
Next == Make \/ Made \/ Read \/ SetterReads \/ SetterWrites \/ WriteFails \/ Others
Spec == Init /\ [][Next]_vars

\* ---- properties ----
\* C03: the configuration is the one last exchanged
Configuration == alive => knows /\ pat = held[Pattern] /\ res = held[Resolution]
\* C02: what a setter is about to write differs from what it read, in one field only
Minimal == fld # 0 => /\ Put[fld] # held[fld] /\ IsWord(Put)
                      /\ \A g \in Parts : g # fld => Put[g] = held[g]
Typed == /\ ctl \in [Parts -> 0..31] /\ held \in [Parts -> 0..31]
         /\ IsWord(ctl) /\ IsWord(held)
         /\ pat \in 0..1 /\ res \in 0..3
         /\ alive \in BOOLEAN /\ knows \in BOOLEAN
         /\ fld \in 0..8 /\ val \in 0..7
IndInv ==
  /\ Typed
  /\ fld # 0 => alive /\ val <= Most(fld) /\ held[fld] # val
  /\ Configuration /\ Minimal
\* must be refuted: the configuration is not always what the camera has
AlwaysCurrent == alive => pat = ctl[Pattern]
\* a step of a setter that changes the camera changes one field of what the driver read
\* (what others wrote meanwhile is overwritten)
OneField == fld # 0 /\ fld' = 0 /\ ctl' # ctl =>
              \E f \in Fields : \A g \in Parts : g # f => ctl'[g] = held[g]
=============================================================================
