------------------------------- MODULE Regs -------------------------------
(* The registers of the MLX90640/MLX90641 and their fields (datasheets,    *)
(* "Internal registers").  A register is a 16-bit word; a field is <<hi,lo>>. *)
EXTENDS Bits

StatusAddr == 32768      \* 0x8000
ControlAddr == 32781     \* 0x800D
I2cAddr == 32783         \* 0x800F

\* ---- status register 0x8000 ----
sSubpage == <<0, 0>>     \* last measured subpage, read-only
sNewData == <<3, 3>>     \* new data available in RAM
sOverwrite == <<4, 4>>   \* enable overwrite of RAM
sStart == <<5, 5>>       \* start of measurement (step mode)
StatusFields == {sSubpage, sNewData, sOverwrite, sStart}

\* ---- control register 0x800D ----
cUseSubpages == <<0, 0>>
cStep == <<1, 1>>
cHold == <<2, 2>>
cRepeat == <<3, 3>>
cSubpage == <<4, 4>>
cRate == <<9, 7>>        \* 0 = 0.5 Hz, 1 = 1 Hz, ... 7 = 64 Hz
cResolution == <<11, 10>> \* 16 + value bits
cPattern == <<12, 12>>   \* 1 = chess, 0 = interleave
ControlFields == {cUseSubpages, cStep, cHold, cRepeat, cSubpage, cRate, cResolution, cPattern}
\* in the order in which the harness numbers the setters
ControlFieldSeq == <<cUseSubpages, cStep, cHold, cRepeat, cSubpage, cRate, cResolution, cPattern>>
Chess == 1
Interleave == 0

Default640 == 6401       \* 0x1901
Default641 == 2305       \* 0x0901

\* ---- I2C configuration register 0x800F ----
iNoFastModePlus == <<0, 0>>      \* inverted
iThresholdHalved == <<1, 1>>
iNoCurrentLimit == <<2, 2>>      \* inverted
I2cFields == {iNoFastModePlus, iThresholdHalved, iNoCurrentLimit}

Get(w, f) == Field(w, f[1], f[2])
Set(w, f, v) == SetField(w, f[1], f[2], v)
FieldWidth(f) == f[1] - f[2] + 1
FieldValues(f) == 0..(P2(FieldWidth(f)) - 1)

\* two words agree on all documented fields
Agree(fields, v, w) == \A f \in fields : Get(v, f) = Get(w, f)
\* the set of bits that belong to one of the fields, as a word
RECURSIVE MaskOf(_, _)
MaskOf(fields, b) == IF b = 16 THEN 0
                     ELSE (IF \E f \in fields : f[2] <= b /\ b <= f[1] THEN P2(b) ELSE 0)
                          + MaskOf(fields, b + 1)
StatusMask == MaskOf(StatusFields, 0)
ControlMask == MaskOf(ControlFields, 0)
I2cMask == MaskOf(I2cFields, 0)

\* ---- fields do not overlap: each owns its bits ----
ASSUME \A fs \in {StatusFields, ControlFields, I2cFields} :
         \A f, g \in fs : f # g => (f[1] < g[2] \/ g[1] < f[2])
ASSUME StatusMask = 57 /\ ControlMask = 8095 /\ I2cMask = 7

\* the driver's transformations of the status word
ClearNewData(w) == Set(w, sNewData, 0)
SyncRequest(w) == Set(Set(Set(w, sNewData, 0), sOverwrite, 1), sStart, 1)
=============================================================================
