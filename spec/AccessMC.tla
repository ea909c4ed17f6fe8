------------------------------ MODULE AccessMC ------------------------------
(* Camera.tla refines Access.tla: the words of the control register by     *)
(* their parts, all else of the camera and of the calls left out.          *)
EXTENDS MC

\* a word by its parts: the fields, then the bits 5, 6 and 13..15, which no field owns
NoField == <<<<6, 5>>, <<15, 13>>>>
PartsOf(w) == [f \in 1..9 |-> IF f <= 8 THEN Get(w, ControlFieldSeq[f]) ELSE Get(w, NoField[1]) + 4 * Get(w, NoField[2])]
FromParts(q) == LET RECURSIVE Put(_, _)
                    Put(w, f) == IF f > 8 THEN w ELSE Put(Set(w, ControlFieldSeq[f], q[f]), f + 1)
                IN Put(Set(Set(0, NoField[1], q[9] % 4), NoField[2], q[9] \div 4), 1)
CtlFieldOf(op) == CHOOSE f \in 1..8 : ControlFieldSeq[f] = SetterField(op)

SetterPending == Running /\ call.op \in SetterOps /\ call.pc = 1 /\ SetterReg(call.op) = ControlAddr
Known == LastControl(call.cfg0, call.log)

A == INSTANCE Access WITH
  ctl <- PartsOf(dev.control), alive <- drv.alive, knows <- Known # -1,
  held <- IF Known = -1 THEN [f \in 1..9 |-> 0] ELSE PartsOf(Known),
  pat <- drv.pat, res <- drv.res,
  fld <- IF SetterPending THEN CtlFieldOf(call.op) ELSE 0, val <- IF SetterPending THEN call.arg ELSE 0
RefinesAccess == A!Spec

\* parts and words correspond, and setting a field is setting a part
ASSUME \A w \in 0..65535 : LET q == PartsOf(w) IN A!IsWord(q) /\ FromParts(q) = w
ASSUME 2 * 2 * 2 * 2 * 2 * 8 * 4 * 2 * 32 = 65536
ASSUME \A i \in 0..5040 : LET w == 13 * i IN
         \A f \in 1..8 : \A v \in FieldValues(ControlFieldSeq[f]) :
           PartsOf(Set(w, ControlFieldSeq[f], v)) = [PartsOf(w) EXCEPT ![f] = v]
=============================================================================
