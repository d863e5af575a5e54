------------------------------- MODULE DekuReader -------------------------------
(***************************************************************************)
(* The bit reader.  A reader over a byte source `src` is                   *)
(*   by     number of source bytes taken so far                            *)
(*   lo,hi  unread window of the last taken byte: its bits lo+1..hi        *)
(*          (numbered 1..8 from the most significant) are still unread;    *)
(*          lo = hi when nothing is left over                              *)
(*   cnt    bits delivered or skipped (what the API reports as bits read)  *)
(* An msb read consumes the window from lo, an lsb read from hi; both      *)
(* serve the window before any further byte.                               *)
(*                                                                         *)
(* `flt` models the source's I/O: taking byte number flt+1 or later fails  *)
(* with an I/O error (NoFault: never).                                     *)
(***************************************************************************)
EXTENDS DekuBits

NoFault == 1000000

RdInit(off) == [by |-> off, lo |-> 0, hi |-> 0, cnt |-> 0]

SegLen(r) == r.hi - r.lo
Aligned(r) == r.lo = r.hi

\* unread bits of the partly consumed byte, most significant first
Rest(src, r) == Strict([i \in 1..SegLen(r) |-> BB[src[r.by]][r.lo + i]])

\* bits still available
Avail(src, r) == SegLen(r) + 8 * MaxOf(0, Len(src) - r.by)

\* outcome of needing bytes up to number `upto`
Reach(src, flt, upto) ==
  IF upto <= Len(src) /\ upto <= flt THEN "ok"
  ELSE IF flt <= Len(src) THEN "Io" ELSE "Incomplete"

NeedBytes(r, n) == IF n <= SegLen(r) THEN 0 ELSE CeilDiv(n - SegLen(r), 8)

\* outcome of reading n bits
ReadStatus(src, flt, r, n) ==
  IF NeedBytes(r, n) = 0 THEN "ok" ELSE Reach(src, flt, r.by + NeedBytes(r, n))

\* the n bits delivered, in stream order (when ReadStatus is "ok")
ReadValue(src, r, n, ord) ==
  LET sl == SegLen(r)
      seg(i) == IF ord = "lsb" THEN BB[src[r.by]][r.hi + 1 - i] ELSE BB[src[r.by]][r.lo + i]
  IN Strict([i \in 1..n |->
        IF i <= sl THEN seg(i)
        ELSE LET k == i - sl IN StreamBit(src[r.by + ((k - 1) \div 8) + 1], ((k - 1) % 8) + 1, ord)])

\* the reader after delivering n bits
ReadNext(r, n, ord) ==
  LET sl == SegLen(r) IN
  IF n <= sl
  THEN IF ord = "lsb" THEN [r EXCEPT !.hi = r.hi - n, !.cnt = r.cnt + n]
                      ELSE [r EXCEPT !.lo = r.lo + n, !.cnt = r.cnt + n]
  ELSE LET need == NeedBytes(r, n)
           used == (n - sl) - 8 * (need - 1)     \* bits used of the last byte, 1..8
       IN [by |-> r.by + need, cnt |-> r.cnt + n,
           lo |-> IF ord = "lsb" THEN 0 ELSE used,
           hi |-> IF ord = "lsb" THEN 8 - used ELSE 8]

\* Skipping moves exactly like reading; the bits are not looked at.
SkipStatus(src, flt, r, n) == ReadStatus(src, flt, r, n)
SkipNext(r, n, ord) == ReadNext(r, n, ord)

\* end probe: no state change at all
AtEnd(src, r) == Aligned(r) /\ r.by >= Len(src)
EndStatus(src, flt, r) ==
  IF ~Aligned(r) THEN "more"
  ELSE IF r.by < Len(src) /\ r.by < flt THEN "more"
  ELSE IF flt <= Len(src) THEN "Io" ELSE "end"

\* absolute seek: drops the partial byte, positions count from the source start
SeekTo(r, pos) == [by |-> pos, lo |-> 0, hi |-> 0, cnt |-> 8 * pos]

\* Type invariant of a reader over src
ReaderOK(src, r) ==
  /\ r.lo \in 0..8 /\ r.hi \in 0..8 /\ r.lo <= r.hi
  /\ (r.lo < r.hi => r.by \in 1..Len(src) /\ (r.hi - r.lo) < 8)
===============================================================================
