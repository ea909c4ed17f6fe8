-------------------------------- MODULE Fx --------------------------------
(* Real arithmetic for the formulas of the camera.                         *)
(*                                                                         *)
(* A value of this module denotes a set of real numbers: the numbers that  *)
(* an expression may have.  TLC cannot enumerate reals, so the operators   *)
(* below are evaluated by java/Fx.java (a TLC module override, like those  *)
(* of the standard modules), which represents the set by an enclosing      *)
(* interval  <<k, le, l1, l0, he, h1, h0>>                                 *)
(*    k = 0   [ (l1*2^30 + l0)*2^le , (h1*2^30 + h0)*2^he ]                *)
(*    k = 1   every number, infinity and "not a number"                    *)
(*    k = 2   "not a number" only                                          *)
(*    k = 3   no finite number: an infinity or "not a number"              *)
(* with end points rounded outwards to 60 significant bits.  The           *)
(* definitions given here say what each operator denotes; they are written *)
(* over the end points as far as TLA+ integers go and serve as             *)
(* documentation and for the parser.  tools/fxtest.py checks the override  *)
(* against exact rational arithmetic.                                      *)
(*                                                                         *)
(* X-operators are exact: the set of all results for operands in the sets. *)
(* R-operators describe one f32 operation as a camera driver may perform   *)
(* it: the exact result, or a number within a relative 2^-21 of it (eight  *)
(* units in the last place, so that fused, reassociated or differently     *)
(* ordered evaluations stay inside), or within 2^-126 when it underflows;  *)
(* anything when it might overflow.                                        *)
EXTENDS Integers

Real(x) == x                       \* only so that the definitions below read well
Anything == <<1, 0, 0, 0, 0, 0, 0>>
NaN == <<2, 0, 0, 0, 0, 0, 0>>

FxInt(i) == <<0, 0, 0, i, 0, 0, i>>              \* the integer i
FxDyadic(m, e) == <<0, e, 0, m, e, 0, m>>        \* m * 2^e
FxF32(bits) == Real(bits)                        \* the f32 whose 32-bit pattern is the integer `bits`

XAdd(a, b) == {x + y : x \in a, y \in b}
XSub(a, b) == {x - y : x \in a, y \in b}
XMul(a, b) == {x * y : x \in a, y \in b}
XDiv(a, b) == {x \div y : x \in a, y \in b}      \* real quotient; no finite number when b is {0}, Anything when 0 is in b otherwise
XSqrt(a) == {x : x \in a}                        \* the non-negative square root; NaN below zero
XPow(a, n) == {x^n : x \in a}                    \* n a natural number
XNeg(a) == {-x : x \in a}

Widen(a) == a                                    \* a, each element off by at most 2^-21 (relative)
RAdd(a, b) == Widen(XAdd(a, b))
RSub(a, b) == Widen(XSub(a, b))
RMul(a, b) == Widen(XMul(a, b))
RDiv(a, b) == Widen(XDiv(a, b))
RPow(a, n) == Widen(Widen(XPow(a, n)))
RRoot4(a) == Widen(Widen(XSqrt(XSqrt(a))))

Slack(a, b, n) == a                              \* a, each element off by at most 2^-n * max |b|

Contains(a, bits) == FxF32(bits) \in a           \* may the f32 `bits` be this result?
Near(a, bits) == FxF32(bits) \in a               \* ... up to a relative 2^-20 and an absolute 2^-110
Tight(a, n, m) == TRUE                           \* is a's width at most 2^-n (relative) or 2^-m (absolute)?
=============================================================================
