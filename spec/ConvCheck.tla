----------------------------- MODULE ConvCheck -----------------------------
(* C19: frame rates and resolutions.  Frame rates are numbered 0..7 by     *)
(* their register encoding (0 = 0.5 Hz), resolutions 0..3 (0 = 16 bit).    *)
EXTENDS Conform, Bits

\* the bit pattern of the f32 2^k: sign 0, biased exponent 127 + k, fraction 0
F32Pow2(k) == (127 + k) * P2(23)
RateBits(i) == F32Pow2(i - 1)                \* frequency 2^(i-1) Hz
RateOfBits(bits) == IF \E i \in 0..7 : RateBits(i) = bits THEN CHOOSE i \in 0..7 : RateBits(i) = bits ELSE -1
RateOfInt(n) == IF \E i \in 1..7 : P2(i - 1) = n THEN CHOOSE i \in 1..7 : P2(i - 1) = n ELSE -1
ResOfInt(n) == IF n \in 16..19 THEN n - 16 ELSE -1
\* the period 2^(1-i) s as <<seconds, nanoseconds>>
Period(i) == IF i = 0 THEN <<2, 0>> ELSE IF i = 1 THEN <<1, 0>> ELSE <<0, 1000000000 \div P2(i - 1)>>

\* how the numbers 0 .. n-1 compare: less, equal, greater
Order(n) == [i \in 1..n |-> [j \in 1..n |-> IF i < j THEN -1 ELSE IF i = j THEN 0 ELSE 1]]

ConvBlock(b) ==
  Flag(\A n \in 0..255 : b.rate_u8[n + 1] = RateOfInt(n), "C19", "frame rate from an integer")
  \cup Flag(\A n \in 0..255 : b.res_u8[n + 1] = ResOfInt(n), "C19", "resolution from an integer")
  \cup Flag(\A i \in 0..7 : b.rate_f[i + 1] = RateBits(i), "C19", "frequency of a frame rate")
  \cup Flag(\A i \in 0..7 : b.rate_d[i + 1] = Period(i), "C19", "period of a frame rate")
  \cup Flag(b.res = <<16, 17, 18, 19>>, "C19", "resolution to integer")
  \cup Flag(b.rate_def = 2 /\ b.res_def = 2, "C19", "defaults")
  \cup Flag(/\ b.sp = <<0, 1>> /\ b.pat = <<0, 1>>
            /\ \A n \in 0..299 : b.spu[n + 1] = (IF n \in {0, 1} THEN n ELSE -1)
            /\ \A n \in 0..255 : b.patu[n + 1] = (IF n \in {0, 1} THEN n ELSE -1),
            "C19", "subpage and access pattern numbers")
  \cup Flag(\A i \in 1..Len(b.spw) : b.spw[i] = -1, "C19", "subpage from a wide number")
  \cup Flag(b.cmp_rate = Order(8) /\ b.cmp_res = Order(4) /\ b.cmp_sp = Order(2) /\ b.cmp_pat = Order(2), "C19", "order")

\* all floats whose top byte is b.top: which bit patterns are accepted, and as what?
\* top byte as a signed number, so that the pattern is a TLC integer
FloatBlock(b) ==
  LET want == {i \in 0..7 : RateBits(i) \div P2(24) = b.top} IN
  Flag(b.panic = 0 /\ b.count = 16777216 /\ b.rejected = b.count - Cardinality(want)
       /\ {<<RateBits(i), i>> : i \in want} = {b.acc[j] : j \in 1..Len(b.acc)}
       /\ Len(b.acc) = Cardinality(want),
       "C19", "frame rate from a float")

Verdict(b) == IF b.k = "conv" THEN ConvBlock(b) ELSE FloatBlock(b)
Next == Judge(Verdict(Blocks[blk]))
=============================================================================
