------------------------------- MODULE Bits -------------------------------
(* Words as natural numbers: bit fields, sign extension.                   *)
EXTENDS Integers, Sequences

Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768,
         65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216,
         33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
P2(n) == Pow[n + 1]                            \* 2^n, n \in 0..30

Bit(w, b) == (w \div P2(b)) % 2
Field(w, hi, lo) == (w \div P2(lo)) % P2(hi - lo + 1)
\* w with the field hi..lo replaced by v
SetField(w, hi, lo, v) == w + (v - Field(w, hi, lo)) * P2(lo)
SetBit(w, b, v) == SetField(w, b, b, v)
FlipBit(w, b) == IF Bit(w, b) = 1 THEN w - P2(b) ELSE w + P2(b)
\* the n-bit two's complement number held in x \in 0..2^n-1
Signed(x, n) == IF x >= P2(n - 1) THEN x - P2(n) ELSE x
SField(w, hi, lo) == Signed(Field(w, hi, lo), hi - lo + 1)
I16(w) == Signed(w, 16)
I16Range == -32768..32767
Word == 0..65535
Bool(b) == IF b THEN 1 ELSE 0
=============================================================================
