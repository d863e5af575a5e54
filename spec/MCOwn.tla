--------------------------------- MODULE MCOwn ---------------------------------
(***************************************************************************)
(* Decoding of containers of tokens as a step machine: an array of slots   *)
(* is filled element by element, and on a failure what was built is        *)
(* dropped; explored against Own for every input over a small alphabet,    *)
(* and every (shape, input) is printed as a behaviour to replay.           *)
(***************************************************************************)
EXTENDS DekuOwn, Integers, IOUtils

Deep == IOEnv.TIER = "thorough"
MaxLen == IF Deep THEN 8 ELSE 6
Bytes == 0..3

VARIABLES sh, src, slots, log, pc
vars == <<sh, src, slots, log, pc>>
\* (1) inputs, only as long as they are read
Init == sh \in DOMAIN Shapes /\ src = <<>> /\ slots = <<>> /\ log = <<>> /\ pc = "grow"
Want(s) == Own(Shapes[sh], s)
Grow == /\ pc = "grow" /\ Len(src) < (IF Shapes[sh].k = "all" THEN MaxLen - 2 ELSE MaxLen)
        /\ (IF Want(src).st = "Incomplete" THEN TRUE ELSE Shapes[sh].k = "all")
        /\ \E b \in Bytes : src' = Append(src, b)
        /\ UNCHANGED <<sh, slots, log, pc>>
Print0 == PrintT(ToString(<<"OPL", sh>> \o src)) = TRUE
\* (2) plain arrays, slot by slot
Size == Shapes[sh].n
Plain == Shapes[sh].k = "rep" /\ Shapes[sh].e.k = "tok"
Start == pc = "grow" /\ Plain /\ Print0 /\ pc' = "fill" /\ UNCHANGED <<sh, src, slots, log>>
Live(l) == Ledger(l, 1, NewLedger)
FillOk == /\ pc = "fill" /\ Len(slots) < Size /\ Len(slots) < Len(src) /\ src[Len(slots) + 1] # 0
          /\ slots' = Append(slots, Live(log).next) /\ log' = Append(log, Live(log).next) /\ UNCHANGED <<sh, src, pc>>
FillBad == /\ pc = "fill" /\ Len(slots) < Size /\ (IF Len(slots) = Len(src) THEN TRUE ELSE src[Len(slots) + 1] = 0)
           /\ pc' = "drop" /\ UNCHANGED <<sh, src, slots, log>>
Drop == /\ pc = "drop" /\ slots # <<>> /\ log' = Append(log, 0 - Head(slots)) /\ slots' = Tail(slots) /\ UNCHANGED <<sh, src, pc>>
Done == /\ \/ (pc = "drop" /\ slots = <<>> /\ pc' = "failed")
           \/ (pc = "fill" /\ Len(slots) = Size /\ pc' = "ok")
        /\ UNCHANGED <<sh, src, slots, log>>
Other == pc = "grow" /\ ~Plain /\ Print0 /\ pc' = "other" /\ UNCHANGED <<sh, src, slots, log>>
Next == Grow \/ Start \/ FillOk \/ FillBad \/ Drop \/ Done \/ Other
Spec == Init /\ [][Next]_vars

NoFault == Live(log).bad = ""
SlotsLive == Elems(slots) = Live(log).live
Ends == pc \in {"ok", "failed"} =>
  LET o == Want(src) IN /\ (o.st = "ok") = (pc = "ok")
                        /\ Live(log).live = Alive(o)
                        /\ Len(o.made) = Live(log).next - 1
\* what is held was built, once; what failed holds nothing
HeldInv == LET o == Want(src) IN /\ Cardinality(Elems(o.held)) = Len(o.held)
                                 /\ Elems(o.held) \subseteq 1..Len(o.made)
                                 /\ (o.st # "ok" => o.held = <<>>)
                                 /\ o.pos <= Len(src)
===============================================================================
