-------------------------------- MODULE MCCodec --------------------------------
(***************************************************************************)
(* Model checking of the integer codec.  A state is one integer context    *)
(* (width, size, endianness, bit order, signedness); its invariants check  *)
(* decoding and encoding against each other over runs of bits and values,  *)
(* exhaustively where the width allows.  Every context the code accepts    *)
(* for every integer type is printed as a behaviour to replay.             *)
(***************************************************************************)
EXTENDS DekuCodec, TLC, IOUtils

Deep == IOEnv.TIER = "thorough"

VARIABLES w, n, en, ord, sg
vars == <<w, n, en, ord, sg>>

Widths == {8, 16, 32, 64, 128}
Init == w \in Widths /\ n = 0 /\ en \in Endians /\ ord \in Orders /\ sg \in {0, 1}

Names(x, s) == IF s = 1 THEN CASE x = 8 -> {"i8", "nzi8"} [] x = 16 -> {"i16", "nzi16"} [] x = 32 -> {"i32", "nzi32"}
                               [] x = 64 -> {"i64", "isize", "nzi64", "nzisize"} [] x = 128 -> {"i128", "nzi128"}
               ELSE CASE x = 8 -> {"u8", "bool", "nzu8"} [] x = 16 -> {"u16", "nzu16"} [] x = 32 -> {"u32", "f32", "ip4", "nzu32"}
                      [] x = 64 -> {"u64", "usize", "f64", "nzu64", "nzusize"} [] x = 128 -> {"u128", "ip6", "nzu128"}
Names0 == Names(w, sg)
Emit(t, sh, sz) == PrintT(ToString(<<"OPC", t, sh, sz, en, ord>>)) = TRUE
\* the context shapes that carry a size of n bits
Report ==
  \A t \in Names0 :
    /\ Emit(t, "ebo", n)
    /\ (ord = "msb" => Emit(t, "eb", n))
    /\ (en = "little" => Emit(t, "bo", n))
    /\ (en = "little" /\ ord = "msb" => Emit(t, "b", n))
    /\ (n % 8 = 0 =>
          /\ Emit(t, "eyo", n \div 8)
          /\ (ord = "msb" => Emit(t, "ey", n \div 8))
          /\ (en = "little" /\ ord = "msb" => Emit(t, "y", n \div 8)))
    /\ (n = 0 => /\ Emit(t, "eo", 0)
                 /\ (ord = "msb" => Emit(t, "e", 0))
                 /\ (en = "little" => Emit(t, "o", 0))
                 /\ (en = "little" /\ ord = "msb" => Emit(t, "none", 0))
                 /\ Emit(t, "ebo", "huge") /\ Emit(t, "eyo", "huge")
                 /\ (ord = "msb" => Emit(t, "eb", "huge") /\ Emit(t, "ey", "huge")))

Next == /\ Report
        /\ n < w + 9
        /\ n' = n + 1
        /\ UNCHANGED <<w, en, ord, sg>>
Spec == Init /\ [][Next]_vars

B8 == <<1, 0, 1, 1, 0, 0, 0, 1, 1, 1, 0, 1, 0, 0, 1, 0>>
\* the runs of n bits considered: all of them when few, else structured ones
Structured(k) ==
  {Zeros(k), Fill(1, k)}
  \cup {[i \in 1..k |-> IF i = p THEN 1 ELSE 0] : p \in 1..k}
  \cup {[i \in 1..k |-> IF i = p THEN 0 ELSE 1] : p \in 1..k}
  \cup {[i \in 1..k |-> B8[((i * 3 + (i \div 8) * 5 + p) % 16) + 1]] : p \in 0..3}
Runs(k) == IF k <= (IF Deep THEN 12 ELSE 9) THEN [1..k -> {0, 1}] ELSE Structured(k)
Values(k) == IF k = 8 \/ (Deep /\ k = 16) THEN [1..k -> {0, 1}] ELSE
  Structured(k) \cup {[i \in 1..k |-> IF i <= p THEN f ELSE 1 - f] : p \in 0..k, f \in {0, 1}}
                \cup {[i \in 1..k |-> IF i <= p THEN f ELSE IF i = k THEN f ELSE 1 - f] : p \in 0..k, f \in {0, 1}}

\* C03/C05: decode then encode gives the bits back, and what was decoded fits
BitsInv == n <= w => \A b \in Runs(n) : RoundTripBits(b, w, en, ord, sg) /\ Fits(Decode(b, en, ord, w, sg), n, en, ord, sg)
\* C04: what fits is encoded in n bits that decode to it; hence, with BitsInv,
\* a value fits exactly if it is the decoding of some run of n bits
ValuesInv == n <= w => \A v \in Values(w) : Fits(v, n, en, ord, sg) =>
  Len(Encode(v, n, en, ord)) = n /\ Decode(Encode(v, n, en, ord), en, ord, w, sg) = v
\* C03: whole widths are the usual two's-complement byte layouts
PlainInv == n = w => \A b \in Runs(w) :
  LET v == Decode(b, en, ord, w, sg)
      bytes == [i \in 1..(w \div 8) |-> ByteAt(ChunkMsb(Chunk(b, i), ord), 0)]
  IN BytesOf(v) = IF en = "big" THEN bytes ELSE Rev(bytes)
\* C03: sign extension copies the top bit of the field (regular layouts), zero extension clears
SignInv == n \in 1..w /\ ~Irregular(n, en, ord) => \A b \in Runs(n) :
  LET v == Decode(b, en, ord, w, sg) IN
  \A i \in 1..(w - n) : v[i] = IF sg = 1 THEN v[w - n + 1] ELSE 0
===============================================================================
