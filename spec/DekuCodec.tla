------------------------------- MODULE DekuCodec -------------------------------
(***************************************************************************)
(* Meaning of an integer field: which value a run of n bits (in stream     *)
(* order) denotes in a container of w bits, and which bits a value is      *)
(* written as.  Values are sequences of w bits, most significant first     *)
(* (two's complement for signed types).                                    *)
(*                                                                         *)
(* The bits are grouped, in stream order, into chunks of 8 with a last     *)
(* partial chunk.  Little endian: the first chunk is the least significant *)
(* byte.  Big endian, msb: the bits read off most significant first.  Big  *)
(* endian, lsb: whole bytes, first most significant, the partial chunk     *)
(* zero-extended to a whole byte.                                          *)
(***************************************************************************)
EXTENDS DekuBits

Chunk(bits, i) == SubSeq(bits, 8 * (i - 1) + 1, MinOf(8 * i, Len(bits)))
NChunks(n) == CeilDiv(n, 8)

\* a chunk in stream order, as most-significant-first bits
ChunkMsb(c, ord) == IF ord = "lsb" THEN Rev(c) ELSE c

\* most-significant-first magnitude bits denoted by the stream bits
Magnitude(bits, en, ord) ==
  LET m == NChunks(Len(bits)) IN
  IF en = "little"
  THEN Flat([i \in 1..m |-> ChunkMsb(Chunk(bits, m + 1 - i), ord)])
  ELSE IF ord = "msb" THEN bits
  ELSE Flat([i \in 1..m |->
         LET c == ChunkMsb(Chunk(bits, i), ord)
         IN IF m > 1 THEN Zeros(8 - Len(c)) \o c ELSE c])

\* zero- or sign-extended to w bits
Extend(mag, w, sg) ==
  IF Len(mag) >= w THEN SubSeq(mag, Len(mag) - w + 1, Len(mag))
  ELSE LET f == IF sg = 1 /\ Len(mag) > 0 THEN mag[1] ELSE 0
       IN Fill(f, w - Len(mag)) \o mag

\* Big endian, lsb, several bytes of which the last is partial.
Irregular(n, en, ord) == en = "big" /\ ord = "lsb" /\ n > 8 /\ n % 8 # 0

Decode(bits, en, ord, w, sg) == Extend(Magnitude(bits, en, ord), w, sg)

\* Is the w-bit value representable in n bits?
FitsIn(v, n, sg) ==
  LET w == Len(v) IN
  IF n >= w THEN TRUE
  ELSE IF n = 0 THEN \A i \in 1..w : v[i] = 0
  ELSE IF sg = 1 THEN \A i \in 1..(w - n) : v[i] = v[w - n + 1]
  ELSE \A i \in 1..(w - n) : v[i] = 0

\* Is it the decoding of some run of n bits?  (Checked against that
\* definition by MCCodec.)
Fits(v, n, en, ord, sg) ==
  IF Irregular(n, en, ord)
  THEN /\ FitsIn(v, 8 * NChunks(n), sg)
       /\ \A i \in (n % 8)..7 : v[Len(v) - i] = 0
  ELSE FitsIn(v, n, sg)

\* The stream bits a representable value is written as.
Encode(v, n, en, ord) ==
  LET w == Len(v)
      low == SubSeq(v, w - n + 1, w)             \* n bits, msb first
      m == NChunks(n)
  IN IF en = "little"
     THEN Flat([i \in 1..m |->
            LET hi == n - 8 * (i - 1)            \* chunk i = low[hi-7..hi]
                lo == MaxOf(1, hi - 7)
                c == SubSeq(low, lo, hi)
            IN IF ord = "lsb" THEN Rev(c) ELSE c])
     ELSE IF ord = "msb" THEN low
     ELSE IF m <= 1 THEN Rev(low)
     ELSE \* big endian, lsb, several bytes: the low m bytes, the last cut to its bits
       LET vb == SubSeq(v, w - 8 * m + 1, w) IN
       Flat([i \in 1..m |->
            LET k == MinOf(8, n - 8 * (i - 1)) IN
            Rev(SubSeq(vb, 8 * i - k + 1, 8 * i))])

\* every representable value survives encode-decode, and every run of bits
\* survives decode-encode (checked exhaustively by MCCodec)
RoundTripValue(v, n, en, ord, sg) ==
  Fits(v, n, en, ord, sg) => Decode(Encode(v, n, en, ord), en, ord, Len(v), sg) = v
RoundTripBits(bits, w, en, ord, sg) ==
  LET v == Decode(bits, en, ord, w, sg) IN
  Fits(v, Len(bits), en, ord, sg) /\ Encode(v, Len(bits), en, ord) = bits
===============================================================================
