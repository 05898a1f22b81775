---------------------------- MODULE Convolution ----------------------------
(* Direct convolution, overlap-add convolution and non-streaming FIR filtering of two signals u, v into a part of a      *)
(* buffer o.  All of them are one step of the same machine: the addressed part of o becomes (or is increased by) the     *)
(* addressed window of the full convolution of u and v; nothing else changes.                                           *)
EXTENDS Signals

VARIABLE mem    \* [u, v, o]: the memory

TypeOK == DOMAIN mem = {"u", "v", "o"}

Empty == Real(<<>>)
Init == mem = [u |-> Empty, v |-> Empty, o |-> Empty]

(* The environment fills the memory. *)
Load(m) == mem' = m

(* Windows beyond the full convolution are refused. *)
InFull(off, len) == off + len <= FullLength(Size(mem.u), Size(mem.v))

(* A window of the convolution into o[pos, pos + len). *)
Into(pos, len, off, clear) ==
    /\ InFull(off, len)
    /\ pos + len <= Size(mem.o)
    /\ LET w == ConvWindow(mem.u, mem.v, off, len)
       IN  mem' = [mem EXCEPT !.o = Splice(@, pos, IF clear THEN w ELSE Add(Slice(@, pos, len), w))]

(* The convolution as a new signal, here stored as o. *)
Value(off, len) ==
    /\ InFull(off, len)
    /\ mem' = [mem EXCEPT !.o = ConvWindow(mem.u, mem.v, off, len)]

(* Offset and length of the three kinds of windows *)
WinOffset(mode, off) == CASE mode = "full" -> 0
                          [] mode = "central" -> CentralOffset(Size(mem.u), Size(mem.v))
                          [] OTHER -> off
WinLength(mode, len) == CASE mode = "full" -> FullLength(Size(mem.u), Size(mem.v))
                          [] mode = "central" -> CentralLength(Size(mem.u), Size(mem.v))
                          [] OTHER -> len

ConvolveInto(mode, pos, len, off, clear) ==
    /\ len = WinLength(mode, len)
    /\ Into(pos, len, WinOffset(mode, off), clear)
ConvolveValue(mode, off, len) == Value(WinOffset(mode, off), WinLength(mode, len))

(* Overlap-add: same result for every admissible chunk size (0: automatic). *)
ChunkOK(chunk) == chunk = 0 \/ chunk >= 2 * Min2(Size(mem.u), Size(mem.v)) - 1
OverlapAddInto(mode, pos, len, off, clear, chunk) == ChunkOK(chunk) /\ ConvolveInto(mode, pos, len, off, clear)
OverlapAddValue(mode, off, len, chunk) == ChunkOK(chunk) /\ ConvolveValue(mode, off, len)

(* Inadmissible requests: refused, and nothing changes. *)
Refusable(mode, len, off, chunk) ==
    \/ mode = "window" /\ ~InFull(off, len)
    \/ mode # "window" /\ len # WinLength(mode, len)
    \/ ~ChunkOK(chunk)
Refuse(mode, len, off, chunk) == Refusable(mode, len, off, chunk) /\ UNCHANGED mem

----------------------------------------------------------------------------
(* Laws that the windows must satisfy (checked on every state of the small model) *)
Commutes == ConvFull(mem.u, mem.v) = ConvFull(mem.v, mem.u)
WindowsAgree == LET f == ConvFull(mem.u, mem.v) IN
    \A off \in 0..Size(f) : \A len \in 0..(Size(f) - off) : ConvWindow(mem.u, mem.v, off, len) = Slice(f, off, len)
CentralIsInner ==  \* the part where the shorter signal overlaps completely
    LET lu == Size(mem.u)  lv == Size(mem.v)  f == ConvFull(mem.u, mem.v) IN
    lu > 0 /\ lv > 0 =>
        /\ CentralOffset(lu, lv) + CentralLength(lu, lv) <= FullLength(lu, lv)
        /\ CentralOffset(lu, lv) = FullLength(lu, lv) - CentralOffset(lu, lv) - CentralLength(lu, lv)
SumOfProduct == LET f == ConvFull(mem.u, mem.v) IN
    Size(f) > 0 /\ IsReal(f) => SumSeq(f.r) = SumSeq(mem.u.r) * SumSeq(mem.v.r)
(* Splitting u is the overlap-add principle. *)
SplitsAdd == LET lu == Size(mem.u)  lv == Size(mem.v)  full == FullLength(lu, lv) IN
    \A k \in 1..(lu - 1) : lv > 0 =>
        LET a == ConvFull(Slice(mem.u, 0, k), mem.v)
            b == ConvFull(Slice(mem.u, k, lu - k), mem.v)
            z(n) == IF IsReal(a) THEN Real(ZeroSeq(n)) ELSE [r |-> ZeroSeq(n), i |-> ZeroSeq(n)]
        IN  Add(Cat(a, z(full - Size(a))), Cat(z(k), b)) = ConvFull(mem.u, mem.v)
=============================================================================
