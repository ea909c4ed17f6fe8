------------------------------ MODULE Device ------------------------------
(* The camera as seen from the bus: two registers and a RAM that a running *)
(* measurement updates.  A RAM word is known by the frame it came from;    *)
(* words that are always updated together form a class.                    *)
(*                                                                         *)
(*   dev = [status, control, ram]      ram[c] = frame that class c holds   *)
EXTENDS Regs, Geom

\* ---- RAM classes ----
\* MLX90640: 1..4 pixels by parity of row and column; MLX90641: 1, 2 the pixel bank of a subpage;
\* 5, 6 compensation pixels; 7 the words common to both subpages; 8 everything else (never updated)
Classes == 1..8
CpClass(sp) == 5 + sp
AuxClass == 7
\* class of pixel p (of subpage sp on the MLX90641)
PixelClass(m, sp, p) == IF m = 640 THEN 1 + (Row(640, p) % 2) + 2 * (Col(640, p) % 2) ELSE 1 + sp
ClassOf(m, a) ==
  LET i == a - RamBase IN
  IF i >= 0 /\ i < (IF m = 640 THEN 768 ELSE 384)
  THEN IF m = 640 THEN PixelClass(640, 0, i) ELSE 1 + ((i \div 32) % 2)
  ELSE IF a = CpAddr(m, 0) THEN CpClass(0)
  ELSE IF a = CpAddr(m, 1) THEN CpClass(1)
  ELSE IF a \in AuxAddrs(m) THEN AuxClass ELSE 8

\* the pixel classes that a measurement of subpage sp updates
Measured(m, sp, pat) ==
  IF m = 641 THEN {1 + sp}
  ELSE {1 + r + 2 * c : <<r, c>> \in {x \in (0..1) \X (0..1) : IF pat = Chess THEN (x[1] + x[2]) % 2 = sp ELSE x[1] = sp}}

\* ---- measurements ----
\* does the next measurement take place, and of which subpage?
MayMeasure(dev) == Get(dev.control, cStep) = 0 \/ Get(dev.status, sStart) = 1
NextSubpage(dev) == IF Get(dev.control, cUseSubpages) = 0 THEN 0
                    ELSE IF Get(dev.control, cRepeat) = 1 THEN Get(dev.control, cSubpage)
                    ELSE 1 - Get(dev.status, sSubpage)
MayStore(dev) == Get(dev.control, cHold) = 0 \/ Get(dev.status, sOverwrite) = 1

\* frame f is complete
Tick(m, dev, f) ==
  IF ~MayMeasure(dev) \/ ~MayStore(dev) THEN dev
  ELSE LET sp == NextSubpage(dev)
           upd == Measured(m, sp, Get(dev.control, cPattern)) \cup {CpClass(sp), AuxClass}
       IN [dev EXCEPT !.status = Set(Set(Set(@, sNewData, 1), sSubpage, sp), sStart, 0),
                      !.ram = [c \in Classes |-> IF c \in upd THEN f ELSE dev.ram[c]]]

\* ---- bus accesses ----
\* the host writes v to a register: the last measured subpage is read-only, unused status bits stay
StatusWritten(old, v) ==
  Set(Set(Set(old, sNewData, Get(v, sNewData)), sOverwrite, Get(v, sOverwrite)), sStart, Get(v, sStart))
Write(dev, a, v) == CASE a = StatusAddr -> [dev EXCEPT !.status = StatusWritten(@, v)]
                      [] a = ControlAddr -> [dev EXCEPT !.control = v]
                      [] OTHER -> dev
RegRead(dev, a) == IF a = StatusAddr THEN dev.status ELSE dev.control
\* another master of the bus, or the camera itself, puts v into a register
Ext(dev, a, v) == IF a = StatusAddr THEN [dev EXCEPT !.status = v] ELSE [dev EXCEPT !.control = v]
=============================================================================
