------------------------------ MODULE FxTest ------------------------------
(* Checks the evaluation of the Fx operators (java/Fx.java) against cases  *)
(* computed by tools/fxtest.py with exact rational arithmetic: every       *)
(* number listed as inside has to be contained, none of those outside.     *)
EXTENDS Conform, Fx

A(c) == FxF32(c.a)
B(c) == FxF32(c.b)
Result(c) ==
  CASE c.op = "add" -> RAdd(A(c), B(c)) [] c.op = "sub" -> RSub(A(c), B(c)) [] c.op = "mul" -> RMul(A(c), B(c))
    [] c.op = "div" -> RDiv(A(c), B(c)) [] c.op = "pow3" -> RPow(A(c), 3) [] c.op = "pow4" -> RPow(A(c), 4)
    [] c.op = "root4" -> RRoot4(A(c)) [] c.op = "int" -> Widen(FxInt(c.n)) [] c.op = "dyadic" -> Widen(FxDyadic(c.n, c.e))
    [] c.op = "dot" -> RAdd(RMul(A(c), B(c)), RSub(B(c), A(c)))
    [] c.op = "ddz" -> RSub(RDiv(A(c), RMul(FxInt(0), B(c))), B(c))
    [] c.op = "under" -> RDiv(B(c), RDiv(A(c), FxInt(0)))
    [] c.op = "zmul" -> RMul(A(c), FxInt(0))
    [] c.op = "slack" -> Slack(A(c), B(c), c.n)
    [] c.op = "neg" -> XNeg(A(c))
    [] c.op = "exact" -> XSub(XMul(A(c), B(c)), XMul(B(c), A(c)))
Next == Judge(LET c == Blocks[blk] r == Result(c) IN
              {<<"FX", c.op, "inside", x>> : x \in {y \in {c.inside[i] : i \in 1..Len(c.inside)} : ~Contains(r, y)}}
              \cup {<<"FX", c.op, "outside", x>> : x \in {y \in {c.outside[i] : i \in 1..Len(c.outside)} : Contains(r, y)}})
=============================================================================
