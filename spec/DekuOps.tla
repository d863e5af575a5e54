-------------------------------- MODULE DekuOps --------------------------------
(***************************************************************************)
(* The public operations of the bit reader and the bit writer as functions *)
(* on their states: what MCReader and MCWriter explore and what recorded   *)
(* operation sequences are judged by.                                      *)
(***************************************************************************)
EXTENDS DekuReader, DekuWriter, DekuCodec

\* reading operations: b bits, y/c/v bytes, s skip, i integer, e end probe,
\* k seek to, j seek by, z seek to a place counted from the end
OpOrder(k, ord) == IF k \in {"i", "v"} THEN "msb" ELSE ord
OpBits(k, n) == IF k \in {"y", "c", "v"} THEN 8 * n ELSE n
ROp(src, flt, r, k, n, ord) ==
  CASE k \in {"b", "y", "c", "v", "i", "s"} ->
         LET m == OpBits(k, n)
             o == OpOrder(k, ord)
             s == ReadStatus(src, flt, r, m)
         IN [st |-> s, r |-> IF s = "ok" THEN ReadNext(r, m, o) ELSE r, e |-> 0,
             out |-> IF s = "ok" THEN ReadValue(src, r, m, o) ELSE <<>>]
    [] k = "e" -> [st |-> "ok", r |-> r, e |-> IF EndStatus(src, flt, r) = "end" THEN 1 ELSE 0, out |-> <<>>]
    [] k = "k" -> [st |-> "ok", r |-> SeekTo(r, n), e |-> 0, out |-> <<>>]
    [] k = "j" -> IF r.by + n < 0 THEN [st |-> "Io", r |-> r, e |-> 0, out |-> <<>>]
                  ELSE [st |-> "ok", r |-> SeekTo(r, r.by + n), e |-> 0, out |-> <<>>]
    [] k = "z" -> IF Len(src) + n < 0 THEN [st |-> "Io", r |-> r, e |-> 0, out |-> <<>>]
                  ELSE [st |-> "ok", r |-> SeekTo(r, Len(src) + n), e |-> 0, out |-> <<>>]
SeekOps == {"k", "j", "z"}

\* stream bits as the bytes the API hands out
OutBytesOf(bits, ord) == Strict([i \in 1..(Len(bits) \div 8) |-> ByteAt(ChunkMsb(SubSeq(bits, 8 * i - 7, 8 * i), ord), 0)])
OutBitsOf(bits, ord) == IF ord = "lsb" THEN Rev(bits) ELSE bits

\* writing operations: b bits in an order, m bits msb, i integer, y bytes, f finalise,
\* k seek to, j seek by, z seek to a place counted from the end of the output
WOrder(k, ord) == IF k \in {"m", "i", "y"} THEN "msb" ELSE ord
WTarget(w, k, n) ==
  LET f == Finalize(w) IN CASE k = "k" -> n [] k = "j" -> f.pos + n [] k = "z" -> Len(f.buf) + n
WRefused(w, k, n) == k \in SeekOps /\ WTarget(w, k, n) < 0
WOp(w, k, n, ord, bits) ==
  CASE k \in {"b", "m", "i", "y"} -> WriteBits(w, bits, WOrder(k, ord))
    [] k = "f" -> Finalize(w)
    [] k \in SeekOps -> WSeekTo(w, WTarget(w, k, n))
\* does the operation have a meaning, given the order of the pending bits?
WDefined(w, k, ord, last, n) ==
  \/ k \in {"f"} \cup SeekOps \/ WAligned(w) \/ WOrder(k, ord) = last \/ (n > 0 /\ n = w.hi - w.lo)
===============================================================================
