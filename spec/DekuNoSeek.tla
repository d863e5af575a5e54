------------------------------- MODULE DekuNoSeek -------------------------------
(***************************************************************************)
(* The wrapper for streams that cannot seek.  Its state is the number of   *)
(* bytes that have passed through it.                                      *)
(*   r n  read up to n bytes once       w n  write up to n bytes once      *)
(*   v n  the same into two buffers     V n  the same from two buffers     *)
(*   x n  read exactly n bytes          W n  write all of n bytes          *)
(*   a    read to the end               f    flush                         *)
(*   t    read to the end, as text                                         *)
(*   s n / c n / e n   seek to n from the start / current place / end      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Left(len, pos) == Max2(0, len - pos)

\* how many bytes an operation may move, over a source of len bytes (or a
\* sink): the stream chooses among them
Moves(k, n, pos, len) ==
  CASE k \in {"r", "v"} -> IF Min2(n, Left(len, pos)) = 0 THEN {0} ELSE 1..Min2(n, Left(len, pos))
    [] k = "x" -> IF n <= Left(len, pos) THEN {n} ELSE {}
    [] k \in {"a", "t"} -> {Left(len, pos)}
    [] k \in {"w", "V"} -> IF n = 0 THEN {0} ELSE 1..n
    [] k = "W" -> {n}
    [] k = "f" -> {0}
    [] k = "s" -> IF n = pos THEN {0} ELSE {}
    [] k = "c" -> IF n = 0 THEN {0} ELSE {}
    [] k = "e" -> {}
\* operations that may be interrupted, having moved nothing
MayInterrupt(k) == k \in {"r", "v", "w", "V"}
Seeks == {"s", "c", "e"}
===============================================================================
