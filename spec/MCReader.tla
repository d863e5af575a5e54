-------------------------------- MODULE MCReader --------------------------------
(***************************************************************************)
(* Model checking of the bit reader.  Every reachable reader state and     *)
(* every operation from it is explored; `path` remembers one way to reach  *)
(* the state (it is hidden from the state's identity by the VIEW), and     *)
(* every transition is printed as a behaviour to replay in the code.       *)
(***************************************************************************)
EXTENDS DekuOps, TLC, IOUtils

Src == IF IOEnv.TIER = "thorough" THEN <<161, 197, 59, 150, 78>> ELSE <<161, 197, 59, 150>>
Deep == IOEnv.TIER = "thorough"

Op(k, n, ord) == [k |-> k, n |-> n, ord |-> ord]
Ops ==
  {Op("b", n, o) : n \in (0..10) \cup {13, 16, 17, 24}, o \in Orders}
  \cup {Op("s", n, o) : n \in (0..10) \cup {15, 16, 17}, o \in Orders}
  \cup {Op("y", n, o) : n \in 0..3, o \in Orders}
  \cup {Op("c", n, o) : n \in {1, 2, 3, 4}, o \in Orders}
  \cup {Op("i", n, "msb") : n \in (1..10) \cup {16, 17, 24}}
  \cup {Op("v", n, "msb") : n \in 0..3}
  \cup {Op("e", 0, "msb")}
  \cup {Op("k", n, "msb") : n \in {0, 1, 3, 5}}
  \cup {Op("j", n, "msb") : n \in {-2, -1, 0, 1}}
  \cup {Op("z", n, "msb") : n \in {-9, -2, -1, 0, 1}}

\* reg: the bit orders in use ("msb", "lsb" or both, "any")
\* out: ghost of all bits delivered since the last seek
VARIABLES reg, r, pb, prev, path, st, out
vars == <<reg, r, pb, prev, path, st, out>>
\* `prev`, the kind of the last operation, is part of the state in thorough
\* runs: every pair of consecutive operations is then explored
View == <<reg, r.by, r.lo, r.hi, pb, IF Deep THEN prev ELSE "", st>>

Init == reg \in {"msb", "lsb", "any"} /\ r = RdInit(0) /\ pb = 0 /\ prev = "" /\ path = <<>> /\ st = "ok" /\ out = <<>>

Flatten(p) == Flat([i \in 1..Len(p) |-> <<p[i].k, p[i].n, p[i].ord>>])
Emit(p) == PrintT(ToString(<<"OPR", Len(Src)>> \o Src \o Flatten(p)))

Do(op) ==
  LET q == ROp(Src, NoFault, r, op.k, op.n, op.ord)
      p == Append(path, op)
  IN /\ Emit(p) = TRUE
     /\ path' = p
     /\ st' = q.st
     /\ r' = q.r
     /\ pb' = IF op.k = "e" /\ q.e = 0 /\ Aligned(r) THEN 1 ELSE IF q.r = r THEN pb ELSE 0
     /\ prev' = op.k
     /\ UNCHANGED reg
     /\ out' = IF op.k \in SeekOps THEN <<>> ELSE out \o q.out

Next == st = "ok" /\ r.by <= Len(Src) + 1 /\ \E op \in Ops :
  (reg = "any" \/ (op.k \notin SeekOps /\ (op.k = "e" \/ OpOrder(op.k, op.ord) = reg))) /\ Do(op)
Spec == Init /\ [][Next]_vars

(* the bookkeeping is exact in every reachable state *)
StateInv == ReaderOK(Src, r) /\ (st = "ok" /\ r.by <= Len(Src) => r.cnt = 8 * r.by - SegLen(r))
(* C01: what one bit order delivers is the source from its start, nothing
   skipped, repeated or invented *)
PrefixInv == reg # "any" => Len(out) = r.cnt /\ out = SubSeq(StreamOf(Src, reg), 1, r.cnt)
(* C01: in any mix of orders, delivered and unread bits partition the bytes taken *)
CountInv == (\A i \in 1..Len(path) : path[i].k \notin SeekOps) => Len(out) + SegLen(r) = 8 * r.by
===============================================================================
