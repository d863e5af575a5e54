-------------------------------- MODULE MCWriter --------------------------------
(***************************************************************************)
(* Model checking of the bit writer: every reachable shape of the pending  *)
(* byte, and every operation from it.  Bit number k of the output stream   *)
(* has a fixed value, so that what was written is known from how much.     *)
(***************************************************************************)
EXTENDS DekuOps, TLC, IOUtils

Deep == IOEnv.TIER = "thorough"
MaxBytes == IF Deep THEN 3 ELSE 2

\* an irregular bit pattern
Pat(k) == BB[((k \div 8) * 101 + 167) % 256][(k % 8) + 1]
Bits(from, n) == [i \in 1..n |-> Pat(from + i)]

Op(k, n, ord) == [k |-> k, n |-> n, ord |-> ord]
Ops ==
  {Op("b", n, o) : n \in (0..10) \cup {15, 16, 17}, o \in Orders}
  \cup {Op("m", n, "msb") : n \in {1, 3, 5, 8, 11}}
  \cup {Op("i", n, "msb") : n \in (1..10) \cup {15, 16, 17}}
  \cup {Op("y", n, "msb") : n \in {0, 8, 16}}
  \cup {Op("f", 0, "msb"), Op("k", 0, "msb"), Op("k", 2, "msb")}
  \cup {Op("j", n, "msb") : n \in {-1, 0, 1}} \cup {Op("z", n, "msb") : n \in {-1, 0}}

\* sent: bits given to the writer since the last seek, as stream bits
VARIABLES reg, w, last, prev, path, sent, given
vars == <<reg, w, last, prev, path, sent, given>>
View == <<reg, w.lo, w.hi, IF WAligned(w) THEN "" ELSE last, MinOf(Len(w.buf), MaxBytes), w.pos = Len(w.buf), IF Deep THEN prev ELSE "">>

Init == reg \in {"msb", "lsb", "any"} /\ w = WrInit /\ last = "msb" /\ prev = "" /\ path = <<>> /\ sent = <<>> /\ given = 0

Flatten(p) == Flat([i \in 1..Len(p) |-> <<p[i].k, p[i].ord, p[i].n>> \o p[i].bits])
Emit(p) == PrintT(ToString(<<"OPW">> \o Flatten(p)))

Do(op) ==
  LET nb == IF op.k = "f" \/ op.k \in SeekOps THEN 0 ELSE op.n
      bits == Bits(given, nb)
      o == WOrder(op.k, op.ord)
      p == Append(path, [k |-> op.k, n |-> op.n, ord |-> op.ord, bits |-> bits])
  IN /\ WDefined(w, op.k, op.ord, last, nb)
     /\ Emit(p) = TRUE
     /\ path' = p
     /\ w' = IF WRefused(w, op.k, op.n) THEN w ELSE WOp(w, op.k, op.n, op.ord, bits)
     /\ last' = IF nb = 0 THEN last ELSE o
     /\ prev' = op.k
     /\ given' = given + nb
     /\ sent' = IF op.k \in SeekOps THEN <<>> ELSE IF op.k = "f" THEN sent \o Zeros((8 - (Len(sent) % 8)) % 8) ELSE sent \o bits
     /\ UNCHANGED reg

Next == Len(w.buf) <= MaxBytes /\ \E op \in Ops :
  (reg = "any" \/ (op.k \notin SeekOps /\ (op.k = "f" \/ WOrder(op.k, op.ord) = reg))) /\ Do(op)
Spec == Init /\ [][Next]_vars

StateInv == WriterOK(w) /\ Pending(w) \in 0..7
(* C02: the output is the concatenation of what was written, in one order *)
ConcatInv == reg # "any" =>
  /\ Len(sent) = w.cnt + Pending(w)
  /\ StreamOf(w.buf, reg) = SubSeq(sent, 1, 8 * Len(w.buf))
  /\ LET pb == PendingBits(w) IN (IF reg = "lsb" THEN Rev(pb) ELSE pb) = SubSeq(sent, 8 * Len(w.buf) + 1, Len(sent))
(* finalising completes the byte with zeros and nothing else *)
FinalInv ==
  LET f == Finalize(w) IN
  /\ WAligned(f)
  /\ reg # "any" => StreamOf(f.buf, reg) = sent \o Zeros((8 - (Len(sent) % 8)) % 8)
===============================================================================
