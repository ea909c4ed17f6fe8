----------------------------- MODULE RegsCheck -----------------------------
(* C01, C21: register words.  Every row describes one 16-bit word w: what  *)
(* the getters return, what each setter makes of it, and which words are   *)
(* equal to it.                                                            *)
EXTENDS Conform, Regs

Rows(b, RowOK(_, _), prop, what) ==
  First(prop, what, {i \in 1..Len(b.rows) : ~RowOK(b.base + i - 1, b.rows[i])})

\* the words differing from w in one bit that compare equal to w: those in an undocumented bit
EqMask(mask) == 65535 - mask

StatusRow(w, r) ==
  /\ Len(r) = 12
  /\ r[1] = w
  /\ r[2] = Get(w, sSubpage) /\ r[3] = Get(w, sNewData)
  /\ r[4] = Get(w, sOverwrite) /\ r[5] = Get(w, sStart)
  /\ r[6] = ClearNewData(w)
  /\ r[7] = Set(w, sOverwrite, 0) /\ r[8] = Set(w, sOverwrite, 1)
  /\ r[9] = Set(w, sStart, 1)
  /\ r[10] = EqMask(StatusMask)
  /\ r[12] = Bool(Agree(StatusFields, w, r[11]))

\* position of the first result of setter op in a control row
SetterPos == <<10, 12, 14, 16, 18, 20, 28, 32>>
ControlRow(w, r) ==
  /\ Len(r) = 36
  /\ r[1] = w
  /\ \A op \in 1..8 :
       LET f == ControlFieldSeq[op] IN
       /\ r[1 + op] = Get(w, f)
       /\ \A v \in FieldValues(f) : r[SetterPos[op] + v] = Set(w, f, v)
  /\ r[34] = EqMask(ControlMask)
  /\ r[36] = Bool(Agree(ControlFields, w, r[35]))

I2cRow(w, r) ==
  /\ Len(r) = 14
  /\ r[1] = w
  /\ r[2] = 1 - Get(w, iNoFastModePlus)
  /\ r[3] = Get(w, iThresholdHalved)
  /\ r[4] = 1 - Get(w, iNoCurrentLimit)
  /\ r[5] = Set(w, iNoFastModePlus, 1) /\ r[6] = Set(w, iNoFastModePlus, 0)
  /\ r[7] = Set(w, iThresholdHalved, 0) /\ r[8] = Set(w, iThresholdHalved, 1)
  /\ r[9] = Set(w, iNoCurrentLimit, 1) /\ r[10] = Set(w, iNoCurrentLimit, 0)
  /\ r[11] = EqMask(I2cMask)
  /\ r[13] = Bool(Agree(I2cFields, w, r[12]))
  /\ r[14] = r[13]

\* ---- a register read from the camera, changed by a sequence of setters, written back ----
StatusOp(w, s) == IF s[1] = 0 THEN ClearNewData(w)
                  ELSE IF s[1] = 1 THEN Set(w, sOverwrite, s[2]) ELSE Set(w, sStart, 1)
ControlOp(w, s) == Set(w, ControlFieldSeq[s[1] + 1], s[2])
I2cOp(w, s) == IF s[1] = 0 THEN Set(w, iNoFastModePlus, 1 - s[2])
               ELSE IF s[1] = 1 THEN Set(w, iThresholdHalved, s[2])
               ELSE Set(w, iNoCurrentLimit, 1 - s[2])
RECURSIVE Apply(_, _, _)
Apply(Op(_, _), w, seq) == IF seq = <<>> THEN w ELSE Apply(Op, Op(w, Head(seq)), Tail(seq))

BusBlock(b, Op(_, _), reg, prop) ==
  LET want == Apply(Op, b.w, b.seq) IN
  Flag(b.res = want /\ b.final = want, prop, "read-modify-write of a register through the bus")
  \cup Flag(/\ Len(b.log) = 2
            /\ b.log[1].t = "rd" /\ b.log[1].dev = b.addr /\ b.log[1].a = reg /\ b.log[1].nb = 2
            /\ b.log[2].t = "wr" /\ b.log[2].dev = b.addr /\ b.log[2].a = reg /\ b.log[2].nb = 4
            /\ b.log[2].v = want,
            prop, "register transfers")

Verdict(b) ==
  CASE b.k = "st" -> Rows(b, StatusRow, "C01", "status word")
    [] b.k = "ct" -> Rows(b, ControlRow, "C01", "control word")
    [] b.k = "i2" -> Rows(b, I2cRow, "C21", "I2C configuration word")
    [] b.k = "def" -> Flag(b.d = <<Default640, Default641>>, "C01", "power-on defaults")
    [] b.k = "i2def" -> Flag(b.d = <<1, 0, 1, 0>>, "C21", "default")
    [] b.k = "bst" -> BusBlock(b, StatusOp, StatusAddr, "C01")
    [] b.k = "bct" -> BusBlock(b, ControlOp, ControlAddr, "C01")
    [] b.k = "bi2" -> BusBlock(b, I2cOp, I2cAddr, "C21")

Next == Judge(Verdict(Blocks[blk]))
Spec == ConformInit /\ [][Next]_cvars
=============================================================================
