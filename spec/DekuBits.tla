------------------------------- MODULE DekuBits -------------------------------
(***************************************************************************)
(* Bits, bytes, bit order and endianness: the vocabulary shared by every   *)
(* other module.  Bits are 0/1 integers in sequences.  A byte is 0..255.   *)
(* "Stream order" is the order in which a bit order delivers the bits of a *)
(* byte: most significant first for "msb", least significant first for     *)
(* "lsb".                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Orders  == {"msb", "lsb"}
Endians == {"big", "little"}

\* the same sequence, evaluated at once (TLC keeps function expressions
\* unevaluated and would compute an element again at every use)
Strict(s) == <<>> \o s

P2 == [i \in 0..30 |-> 2^i]

\* BB[b][i] = i-th most significant bit of byte b (i in 1..8)
BB == [b \in 0..255 |-> [i \in 1..8 |-> (b \div P2[8 - i]) % 2]]

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

Rev(s) == Strict([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Zeros(n) == Strict([i \in 1..n |-> 0])
Fill(b, n) == Strict([i \in 1..n |-> b])
\* i-th bit, in stream order, of a byte
StreamBit(b, i, ord) == IF ord = "lsb" THEN BB[b][9 - i] ELSE BB[b][i]

\* all bits of a byte sequence in stream order
StreamOf(bytes, ord) ==
  Strict([k \in 1..(8 * Len(bytes)) |-> StreamBit(bytes[((k - 1) \div 8) + 1], ((k - 1) % 8) + 1, ord)])
ByteAt(bits, o) ==   \* byte formed by bits[o+1..o+8], most significant first
  128 * bits[o+1] + 64 * bits[o+2] + 32 * bits[o+3] + 16 * bits[o+4]
    + 8 * bits[o+5] + 4 * bits[o+6] + 2 * bits[o+7] + bits[o+8]

\* whole bytes from a most-significant-first bit sequence (length divisible by 8)
BytesOf(bits) == Strict([i \in 1..(Len(bits) \div 8) |-> ByteAt(bits, 8 * (i - 1))])
BitsOf(bytes) == Strict([k \in 1..(8 * Len(bytes)) |-> BB[bytes[((k - 1) \div 8) + 1]][((k - 1) % 8) + 1]])
\* number formed by at most 30 bits, most significant first
RECURSIVE NumFrom(_, _, _)
NumFrom(bits, i, acc) == IF i > Len(bits) THEN acc ELSE NumFrom(bits, i + 1, 2 * acc + bits[i])
Num(bits) == NumFrom(bits, 1, 0)

\* n as w bits, most significant first (n < 2^31)
NatBits(n, w) == Strict([i \in 1..w |-> IF w - i > 30 THEN 0 ELSE (n \div P2[w - i]) % 2])
RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)
Flat(ss) == FlatFrom(ss, 1)

\* natural number denoted by big-endian bytes, saturating at Huge
Huge == 100000000
RECURSIVE NatFrom(_, _, _)
NatFrom(bytes, i, acc) ==
  IF i > Len(bytes) THEN acc
  ELSE IF acc >= Huge \div 256 + 1 THEN Huge
  ELSE NatFrom(bytes, i + 1, MinOf(Huge, acc * 256 + bytes[i]))
NatOf(bytes) == NatFrom(bytes, 1, 0)
===============================================================================
