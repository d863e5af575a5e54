-------------------------------- MODULE MCEngine --------------------------------
(***************************************************************************)
(* Model checking of the derive engine on a family of definitions.  JOBS   *)
(* says, for each definition, which byte values the environment supplies.  *)
(* The input is not chosen in advance: when the machine needs a byte that  *)
(* is not there yet, the environment appends one or closes the input.      *)
(* After a successful decode the value is encoded again.  Every maximal    *)
(* run is printed (BEH) and replayed into the real code.                   *)
(***************************************************************************)
EXTENDS DekuEngine

Jobs == JsonDeserialize(IOEnv.JOBS)

VARIABLES
  j,        \* job
  off,      \* bits skipped first
  src,      \* input so far
  closed,   \* no more input
  phase,    \* "dec", "enc", "end"
  m,        \* the machine
  dec       \* the finished decoder, once phase # "dec"
vars == <<j, off, src, closed, phase, m, dec>>

Job == Jobs[j]
D == Types[Job.ty]

Init ==
  /\ j \in 1..Len(Jobs)
  /\ off \in {Jobs[j].offs[i] : i \in 1..Len(Jobs[j].offs)}
  /\ src = <<>> /\ closed = FALSE /\ phase = "dec"
  /\ m = ReadInit(Jobs[j].ty, off, NoFault)
  /\ dec = 0

\* Does the next step of machine x on input s depend on input that is not there yet?
AtEndProbe(x, s) == /\ x.todo # <<>> /\ Head(x.todo).op = "loop" /\ Head(x.todo).c.lim.m = "all"
                    /\ EndStatus(s, NoFault, x.rd) = "end"
FromEnd(x) == x.todo # <<>> /\ Head(x.todo).op = "seek" /\ Head(x.todo).a.m = "end"
NeedsOf(x, s, nx) == AtEndProbe(x, s) \/ FromEnd(x) \/ nx.st = "Incomplete"
Needs == ~closed /\ NeedsOf(m, src, Step(m, src))

\* GRAIN = "step": every step of the machine is a state of the model.
\* GRAIN = "run": the machine runs until it needs input or is done.
Grain == IOEnv.GRAIN
RECURSIVE RunOn(_, _, _)
RunOn(x, s, cl) ==
  IF x.st # "run" THEN x
  ELSE LET nx == Step(x, s) IN
       IF ~cl /\ NeedsOf(x, s, nx) THEN x ELSE RunOn(nx, s, cl)
Advance(x, s, cl) == IF Grain = "step" THEN Step(x, s) ELSE RunOn(x, s, cl)

Supply(p) ==  \* the byte values the environment may supply at position p (0-based)
  IF p < Job.k THEN {Job.alpha[i] : i \in 1..Len(Job.alpha)} ELSE {(p * 37 + 11) % 256}

Append1 ==
  /\ phase = "dec" /\ m.st = "run" /\ Needs /\ Len(src) < Job.max
  /\ \E b \in Supply(Len(src)) : src' = Append(src, b)
  /\ UNCHANGED <<j, off, closed, phase, m, dec>>

Close ==
  /\ phase = "dec" /\ m.st = "run" /\ Needs /\ (Len(src) <= Job.k \/ Len(src) = Job.max)
  /\ closed' = TRUE
  /\ UNCHANGED <<j, off, src, phase, m, dec>>

DecodeStep ==
  /\ phase = "dec" /\ m.st = "run" /\ ~Needs
  /\ m' = Advance(m, src, closed)
  /\ UNCHANGED <<j, off, src, closed, phase, dec>>

Report == PrintT(ToString(<<"BEH", Job.ty, off, m.st, src>>))

\* decoding is over: report it and, if it succeeded, encode the value
Turn ==
  /\ phase = "dec" /\ m.st # "run"
  /\ Report = TRUE
  /\ dec' = m
  /\ IF m.st = "ok" /\ D.unord = 0
     THEN m' = WriteInit(Job.ty, Result(m)) /\ phase' = "enc"
     ELSE m' = m /\ phase' = "end"
  /\ UNCHANGED <<j, off, src, closed>>

EncodeStep ==
  /\ phase = "enc" /\ m.st = "run"
  /\ m' = Advance(m, <<>>, TRUE)
  /\ UNCHANGED <<j, off, src, closed, phase, dec>>

Finish ==
  /\ phase = "enc" /\ m.st # "run"
  /\ phase' = "end"
  /\ UNCHANGED <<j, off, src, closed, m, dec>>

Next == Append1 \/ Close \/ DecodeStep \/ Turn \/ EncodeStep \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(******************************* invariants ********************************)

\* the reader's bookkeeping (C01, C12: nothing is read or counted twice)
ReaderInv ==
  phase = "dec" =>
    /\ ReaderOK(src, m.rd)
    /\ D.seeks = 0 => m.rd.cnt = 8 * m.rd.by - SegLen(m.rd)

\* the writer's bookkeeping (C02)
WriterInv ==
  phase = "enc" =>
    /\ WriterOK(m.wr)
    /\ D.seeks = 0 => m.wr.cnt = 8 * Len(m.wr.buf)

\* one value per declared piece: the stacks are balanced at the end
StackInv ==
  m.st = "ok" => /\ m.todo = <<>> /\ Len(m.envs) = 1
                 /\ phase = "dec" => Len(m.vals) = 1

Terminal == phase = "dec" /\ m.st # "run"

\* C09: a decode that succeeded is Incomplete on every shorter input
TruncationInv ==
  Terminal /\ m.st = "ok" /\ D.all = 0 /\ D.seeks = 0 =>
    \A l \in 0..(CeilDiv(m.rd.cnt, 8) - 1) :
      RunFrom(ReadInit(Job.ty, off, NoFault), SubSeq(src, 1, l)).st = "Incomplete"

\* C08: a failing source gives the I/O error or makes no difference
FaultInv ==
  Terminal /\ D.seeks = 0 =>
    \A k \in 0..Len(src) :
      LET f == RunFrom(ReadInit(Job.ty, off, k), src) IN
      f.st = "Io" \/ (f.st = m.st /\ (m.st = "ok" => Result(f) = Result(m) /\ f.rd = m.rd /\ 8 * k >= m.rd.cnt - 7))

\* input that was not needed does not matter
SuffixInv ==
  Terminal /\ m.st = "ok" /\ D.all = 0 /\ D.seeks = 0 =>
    LET f == RunFrom(ReadInit(Job.ty, off, NoFault), src \o <<255, 0>>) IN
    f.st = "ok" /\ Result(f) = Result(m) /\ f.rd = m.rd

\* C05: symmetric definitions round-trip, bit for bit outside padding
RoundTripInv ==
  phase = "end" /\ dec.st = "ok" /\ D.sym = 1 /\ m.om = 0 =>
    /\ m.st = "ok"
    /\ D.seeks = 0 => LET bits == BitsOf(m.wr.buf) \o PendingBits(m.wr) IN Len(bits) = dec.rd.cnt - off
    /\ LET e == RunFrom(ReadInit(Job.ty, 0, NoFault), OutBytes(m)) IN e.st = "ok" /\ Result(e) = Result(dec)

\* C17: constant sizes
SizeInv ==
  phase = "end" /\ dec.st = "ok" /\ D.hassize = 1 =>
    /\ dec.rd.cnt - off <= SizeBits(Job.ty)
    /\ D.k = "struct" /\ D.nestenum = 0 => dec.rd.cnt - off = SizeBits(Job.ty)

\* every run ends
Termination == <>(phase = "end")
===============================================================================
