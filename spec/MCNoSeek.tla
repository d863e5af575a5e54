-------------------------------- MODULE MCNoSeek --------------------------------
(***************************************************************************)
(* Every sequence of operations on the wrapper, over a stream that moves   *)
(* any number of bytes it may.  `moved` is the stream's own count.         *)
(***************************************************************************)
EXTENDS DekuNoSeek, TLC, IOUtils

Deep == IOEnv.TIER = "thorough"
Len0 == 3
Depth == IF Deep THEN 4 ELSE 3
Rd == {<<"r", 0>>, <<"r", 2>>, <<"v", 3>>, <<"x", 1>>, <<"x", 4>>, <<"a", 0>>, <<"t", 0>>}
Wr == {<<"w", 2>>, <<"w", 0>>, <<"V", 3>>, <<"W", 2>>, <<"f", 0>>}
Sk == {<<"s", 0>>, <<"s", 1>>, <<"s", 2>>, <<"s", 3>>, <<"c", 0>>, <<"c", 1>>, <<"c", -1>>, <<"e", 0>>, <<"e", -1>>}

VARIABLES dir, pos, moved, path, st
vars == <<dir, pos, moved, path, st>>
Init == dir \in {"r", "w"} /\ pos = 0 /\ moved = 0 /\ path = <<>> /\ st = "ok"
Flat1(p) == LET RECURSIVE F(_)
                F(i) == IF i > Len(p) THEN <<>> ELSE <<p[i][1], p[i][2]>> \o F(i + 1)
            IN F(1)
Emit(p) == PrintT(ToString(<<"OPN", dir, Len0>> \o Flat1(p)))
Do(op) ==
  LET p == Append(path, op)
      ms == Moves(op[1], op[2], pos, IF dir = "r" THEN Len0 ELSE 0)
  IN /\ Emit(p) = TRUE
     /\ path' = p
     /\ UNCHANGED dir
     /\ IF ms = {} THEN /\ st' = IF op[1] \in Seeks THEN "ok" ELSE "failed"   \* a refused seek changes nothing
                        /\ UNCHANGED <<pos, moved>>
        ELSE \E m \in ms : pos' = pos + m /\ moved' = moved + m /\ st' = "ok"
Next == st = "ok" /\ Len(path) < Depth /\ \E op \in Sk \cup (IF dir = "r" THEN Rd ELSE Wr) : Do(op)
Spec == Init /\ [][Next]_vars
\* the position is the number of bytes moved, never beyond the source, and only moving changes it
PosInv == pos = moved /\ (dir = "r" => pos <= Len0)
Monotone == [][pos' >= pos /\ (pos' # pos => path'[Len(path')][1] \notin Seeks)]_vars
===============================================================================
