------------------------------- MODULE DekuWriter -------------------------------
(***************************************************************************)
(* The bit writer, dual of the reader.                                     *)
(*   buf    bytes in the output                                            *)
(*   pos    where the next whole byte goes (0-based; = Len(buf) unless     *)
(*          the writer was moved by a seek)                                *)
(*   cur    the byte being assembled: 8 bits, most significant first       *)
(*   lo,hi  its unfilled window: bits lo+1..hi; <<0,8>> when nothing is    *)
(*          pending                                                        *)
(*   cnt    bits that reached the output (what bits_written reports)       *)
(***************************************************************************)
EXTENDS DekuBits

WrInit == [buf |-> <<>>, pos |-> 0, cur |-> Zeros(8), lo |-> 0, hi |-> 8, cnt |-> 0]

Pending(w) == 8 - (w.hi - w.lo)
WAligned(w) == Pending(w) = 0

\* put whole bytes at the current position, zero-filling a gap
PutBytes(w, bytes) ==
  LET end == w.pos + Len(bytes)
      n == MaxOf(Len(w.buf), end)
  IN [w EXCEPT
       !.buf = IF w.pos = Len(w.buf) THEN w.buf \o bytes
               ELSE Strict([i \in 1..n |-> IF i > w.pos /\ i <= end THEN bytes[i - w.pos]
                                    ELSE IF i <= Len(w.buf) THEN w.buf[i] ELSE 0]),
       !.pos = end, !.cnt = w.cnt + 8 * Len(bytes)]

\* Write bits given in stream order.
WriteBits(w, bits, ord) ==
  LET n == Len(bits)
      room == w.hi - w.lo
      k == MinOf(n, room)                        \* bits that go into the current byte
      cur1 == Strict([i \in 1..8 |->
                IF ord = "lsb"
                THEN IF i <= w.hi /\ i > w.hi - k THEN bits[w.hi + 1 - i] ELSE w.cur[i]
                ELSE IF i > w.lo /\ i <= w.lo + k THEN bits[i - w.lo] ELSE w.cur[i]])
  IN IF n = 0 THEN w
     ELSE IF k < room
     THEN [w EXCEPT !.cur = cur1,
                    !.lo = IF ord = "lsb" THEN w.lo ELSE w.lo + k,
                    !.hi = IF ord = "lsb" THEN w.hi - k ELSE w.hi]
     ELSE LET whole == (n - k) \div 8
              tail == (n - k) % 8
              bulk == Strict([j \in 1..whole |->
                        ByteAt([i \in 1..8 |-> bits[k + 8 * (j - 1) + (IF ord = "lsb" THEN 9 - i ELSE i)]], 0)])
              w1 == PutBytes(w, <<ByteAt(cur1, 0)>> \o bulk)
          IN [w1 EXCEPT
               !.cur = Strict([i \in 1..8 |->
                         IF ord = "lsb"
                         THEN IF i > 8 - tail THEN bits[n - tail + (9 - i)] ELSE 0
                         ELSE IF i <= tail THEN bits[n - tail + i] ELSE 0]),
               !.lo = IF ord = "lsb" THEN 0 ELSE tail,
               !.hi = IF ord = "lsb" THEN 8 - tail ELSE 8]

\* Finalisation pads the pending byte with zeros.
Finalize(w) ==
  IF WAligned(w) THEN w
  ELSE [PutBytes(w, <<ByteAt(w.cur, 0)>>) EXCEPT !.cur = Zeros(8), !.lo = 0, !.hi = 8]

\* The pending bits, most significant first.
PendingBits(w) ==
  IF WAligned(w) THEN <<>>
  ELSE SubSeq(w.cur, 1, w.lo) \o SubSeq(w.cur, w.hi + 1, 8)

\* A seek starts on a byte boundary: the pending byte is completed first.
WSeekTo(w, pos) == [Finalize(w) EXCEPT !.pos = pos]

\* Writes in a new bit order are only given a meaning by the properties when
\* nothing is pending or they exactly complete the pending byte.
OrderOK(w, ord, last, n) == WAligned(w) \/ ord = last \/ n = w.hi - w.lo

WriterOK(w) ==
  /\ w.lo \in 0..8 /\ w.hi \in 0..8 /\ w.lo < w.hi
  /\ \A i \in 1..8 : (i > w.lo /\ i <= w.hi) => w.cur[i] = 0
===============================================================================
