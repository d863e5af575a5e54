------------------------------- MODULE DekuTrace -------------------------------
(***************************************************************************)
(* Trace validation: every case recorded by the harness from the real code *)
(* is judged against the specification.  TRACE is a file of cases, TYPES   *)
(* the definitions they are about, PROP the property judged.  State i has  *)
(* judged the first i cases; a case that does not conform is printed.      *)
(*                                                                         *)
(* Two kinds of judgement: conformance (the observation is what the engine *)
(* specifies) and relations between observations (agreement of entry       *)
(* points, schedules, configurations, truncations, faults), for which the  *)
(* engine only says where the relation applies.                            *)
(***************************************************************************)
EXTENDS DekuEngine, DekuOps
Ow == INSTANCE DekuOwn
Ns == INSTANCE DekuNoSeek

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Crashes == {"panic", "alloc", "hang", "abort"}
IsErr(ob) == ob.st # "ok" /\ ob.st \notin Crashes
First(ss) == LET bad == {i \in 1..Len(ss) : ss[i] # ""} IN
             IF bad = {} THEN "" ELSE ss[CHOOSE i \in bad : \A j \in bad : i <= j]
Want(ok, why) == IF ok THEN "" ELSE why
Each(s, Op(_)) == First([i \in 1..Len(s) |-> Op(s[i])])
Pairs(s, Op(_, _)) == First([i \in 1..Len(s) |-> Op(s[1], s[i])])
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Name(ob) == ob.ep \o (IF "env" \in DOMAIN ob /\ ob.env # "" THEN " (" \o ob.env \o ")" ELSE "")

(******************* conformance of one decoding observation ***************)

StMatches(ob, st) == IF st = "any" THEN IsErr(ob) ELSE ob.st = st

\* e: the finished machine; len: bytes of input
ReadConf(ob, e, len) ==
  IF ob.ep = "tf" /\ e.st = "ok" /\ e.rd.cnt \div 8 < len
  THEN Want(IsErr(ob), "TryFrom accepted input with bytes left over")
  ELSE IF ob.ep \in {"tf", "fb"} /\ e.st = "ok" /\ e.rd.cnt > 8 * len      \* a seek past the end, nothing read there
  THEN Want(ob.st = "Incomplete", Name(ob) \o ": past the end of its input")
  ELSE IF ~StMatches(ob, e.st) THEN Name(ob) \o ": status " \o ob.st \o ", specified " \o e.st
  ELSE IF e.st # "ok" THEN ""
  ELSE IF Norm(ob.v) # Result(e) THEN Name(ob) \o ": value"
  ELSE CASE ob.ep = "fr" -> Want(ob.n = e.rd.cnt, Name(ob) \o ": amount consumed")
         [] ob.ep = "fx" -> Want(ob.n = e.rd.cnt, Name(ob) \o ": bits_read")
         [] ob.ep = "fb" -> Want(ob.sx = 1 /\ ob.bi = e.rd.cnt \div 8 /\ ob.bo = e.rd.cnt % 8, "fb: remainder")
         [] OTHER -> ""

GroupSrc(c, g) == SubSeq(c.src, 1, g.len)
GroupRun(c, g) == RunFrom(ReadInit(c.ty, c.off, g.flt), GroupSrc(c, g))
PlainRun(c) == RunFrom(ReadInit(c.ty, c.off, NoFault), c.src)
\* over a stream that cannot seek.  Lists to the end of input look one byte
\* ahead, which cannot be taken back: what a seek inside one meets is left open.
NoSeekRead(c, g, ob) ==
  IF Types[c.ty].all = 1 /\ Types[c.ty].seeks = 1 THEN Want(ob.st \notin Crashes, "nr: crash")
  ELSE LET e == RunFrom([ReadInit(c.ty, c.off, g.flt) EXCEPT !.ns = 1], GroupSrc(c, g))
       IN IF ~StMatches(ob, e.st) THEN Name(ob) \o ": status " \o ob.st \o ", specified " \o e.st
          ELSE IF e.st # "ok" THEN ""
          ELSE IF Norm(ob.v) # Result(e) THEN Name(ob) \o ": value"
          ELSE Want(ob.n = e.rd.cnt /\ ob.pos = e.rd.by, Name(ob) \o ": amount consumed")
ReadConfGroup(c, g) ==
  LET e == GroupRun(c, g) IN Each(g.obs, LAMBDA ob : IF ob.ep = "sf" THEN "" ELSE IF ob.ep = "nr" THEN NoSeekRead(c, g, ob) ELSE ReadConf(ob, e, g.len))

(******************* conformance of one encoding observation ***************)

WithPrefix(m, n, p) == [m EXCEPT !.wr.buf = Fill(90, n), !.wr.pos = p]   \* n bytes are there, the writer stands at p
Onto(m, k) == [m EXCEPT !.wr.buf = Fill(165, k)]        \* a slice of k bytes, as the harness prepares it
\* with seeks, what to_slice leaves depends on the slice it was given
SliceConf(ob, c) ==
  LET e == RunFrom(Onto(WriteInit(c.ty, c.v), ob.k), <<>>)
      f == Finalize(e.wr)
  IN IF e.st # "ok" \/ Len(f.buf) > ob.k THEN Want(IsErr(ob), "sl: status")
     ELSE IF ob.st # "ok" THEN "sl: status"
     ELSE Want(ob.n = f.cnt \div 8 /\ ob.b = SubSeq(f.buf, 1, MinOf(ob.n, ob.k)), "sl: bytes")
EncodeRun(c, v) == RunFrom(WriteInit(c.ty, v), <<>>)
\* to_bits: what to_bytes writes, without the padding of a byte that ends it.
BitsOut(e) ==
  LET f == Finalize(e.wr)
  IN IF ~WAligned(e.wr) /\ f.pos = Len(f.buf)
     THEN BitsOf(SubSeq(f.buf, 1, Len(f.buf) - 1)) \o PendingBits(e.wr)
     ELSE BitsOf(f.buf)

\* Known finding: a value that does not fit a size given in bytes is cut
\* to it; refusing it is what is specified.
Refused(e, ob) == e.kf = 1 /\ ob.st = "InvalidParam"

WriteConf1(ob, c, e) ==
  IF ob.ep = "sl" /\ Types[c.ty].seeks = 1 THEN SliceConf(ob, c)
  ELSE IF ob.ep = "sl"
  THEN IF e.st # "ok" THEN Want(IsErr(ob), "sl: status")
       ELSE IF ob.k < Len(OutBytes(e)) THEN Want(IsErr(ob), "sl: too small a slice accepted")
       ELSE IF ob.st # "ok" THEN "sl: status"
       ELSE Want(ob.n = Len(OutBytes(e)) /\ ob.b = OutBytes(e) /\ ob.cl = 1, "sl: bytes")
  ELSE IF ~StMatches(ob, e.st) THEN Name(ob) \o ": status " \o ob.st \o ", specified " \o e.st
  ELSE IF e.st # "ok" THEN ""
  ELSE CASE ob.ep \in {"tb", "vv", "tp"} -> Want(ob.b = OutBytes(e), ob.ep \o ": bytes")
         [] ob.ep = "tw" -> Want(ob.b = OutBytes(e) /\ ob.n = Finalize(e.wr).cnt, Name(ob) \o ": bytes or amount")
         [] ob.ep \in {"ti", "vb"} -> Want(ob.bits = BitsOut(e), ob.ep \o ": bits")
         [] OTHER -> ""
WriteConf(ob, c, e) ==
  IF ob.ep = "id"
  THEN IF Types[c.ty].vars[c.v.e].pat.m \in {"eq", "eqv"} /\ Types[c.ty].vars[c.v.e].disc = 0
       THEN Want(ob.st = "ok" /\ Norm(ob.v) = IdOf(c.ty, Norm(c.v)), "deku_id")
       ELSE Want(ob.st = "IdVariantNotFound" \/ (ob.st = "ok" /\ Norm(ob.v) = IdOf(c.ty, Norm(c.v))), "deku_id")
  ELSE IF ob.ep = "nw"
  THEN LET e1 == RunFrom([WriteInit(c.ty, c.v) EXCEPT !.ns = 1], <<>>) IN
       IF e1.om = 1 \/ Refused(e1, ob) THEN Want(ob.st \notin Crashes, "nw: crash")
       ELSE IF ~StMatches(ob, e1.st) THEN "nw: status " \o ob.st \o ", specified " \o e1.st
       ELSE Want(e1.st # "ok" \/ (ob.b = OutBytes(e1) /\ ob.n = Finalize(e1.wr).cnt), "nw: bytes or amount")
  ELSE IF ob.ep \in {"tf", "sf"} THEN Want(ob.st \notin Crashes, Name(ob) \o ": crash")
  ELSE LET e1 == IF ob.ep = "tp" THEN RunFrom(WithPrefix(WriteInit(c.ty, c.v), ob.k, ob.p), <<>>) ELSE e IN
       IF e1.om = 1 THEN Want(ob.st \notin Crashes, Name(ob) \o ": crash")
       ELSE IF Refused(e1, ob) THEN ""
       ELSE WriteConf1(ob, c, e1)
WriteConfCase(c) ==
  LET e == EncodeRun(c, c.v) IN
  First(<<Each(c.obs, LAMBDA ob : WriteConf(ob, c, e)),
          IF "dec" \in DOMAIN c /\ e.st = "ok" /\ e.om = 0 /\ e.kf = 0
          THEN LET b == OutBytes(e) IN ReadConf(c.dec, RunFrom(ReadInit(c.ty, 0, NoFault), b), Len(b))
          ELSE "">>)
WriteKnown(c) == LET e == EncodeRun(c, c.v) IN
  e.kf = 1 /\ e.st = "ok" /\ e.om = 0 /\ \E k \in 1..Len(c.obs) : c.obs[k].ep = "tb" /\ c.obs[k].st = "ok"

\* one byte of an input put through its values
SweepCase(c) == Each(c.obs, LAMBDA ob :
  LET src == [c.src EXCEPT ![c.p + 1] = ob.by]
      e == RunFrom(ReadInit(c.ty, 0, NoFault), src)
      v == ReadConf(ob, e, Len(src))
  IN IF v = "" THEN "" ELSE "byte " \o ToString(c.p) \o " = " \o ToString(ob.by) \o ", " \o v)

(************************* one after the other *****************************)

\* what one of several decodes showed, against its finished machine; `n` and
\* `pos`: where it has come
ChainOb(ob, e, n, pos) ==
  IF ~StMatches(ob, e.st) THEN "status " \o ob.st \o ", specified " \o e.st
  ELSE IF e.st # "ok" THEN ""
  ELSE IF Norm(ob.v) # Result(e) THEN "value"
  ELSE IF ob.n # n THEN "amount consumed"
  ELSE Want(pos < 0 \/ ob.pos = pos, "the stream is left at byte " \o ToString(ob.pos) \o ", not " \o ToString(pos))
Nth(k, v) == IF v = "" THEN "" ELSE "value " \o ToString(k) \o ": " \o v

\* from_bytes on what the one before left
RECURSIVE ChainB(_, _, _, _, _), ChainR(_, _, _, _), ChainX(_, _, _, _)
ChainB(c, obs, k, base, off) ==
  IF k > Len(obs) THEN ""
  ELSE LET src == SubSeq(c.src, base + 1, Len(c.src))
           e == RunFrom(ReadInit(c.ty, off, NoFault), src)
           v == IF e.st = "ok" /\ e.rd.cnt > 8 * Len(src) THEN Want(obs[k].st = "Incomplete", "past the end of its input")
                ELSE ChainOb(obs[k], e, 8 * base + e.rd.cnt, -1)
       IN IF v # "" THEN Nth(k, "from_bytes, " \o v)
          ELSE IF obs[k].st # "ok" THEN Want(k = Len(obs), "went on")
          ELSE ChainB(c, obs, k + 1, base + (e.rd.cnt \div 8), e.rd.cnt % 8)
\* from_reader on the same stream: it goes on at the next byte
ChainR(c, obs, k, at) ==
  IF k > Len(obs) THEN ""
  ELSE LET e == RunFrom([ReadInit(c.ty, IF k = 1 THEN c.off ELSE 0, NoFault) EXCEPT !.rd = RdInit(at)], c.src)
           v == ChainOb(obs[k], e, e.rd.cnt, e.rd.by)
       IN IF v # "" THEN Nth(k, "from_reader, " \o v)
          ELSE IF obs[k].st # "ok" THEN Want(k = Len(obs), "went on")
          ELSE ChainR(c, obs, k + 1, e.rd.by)
\* from_reader_with_ctx on the same Reader: it goes on at the next bit
ChainX(c, obs, k, rd) ==
  IF k > Len(obs) THEN ""
  ELSE LET e == RunFrom([ReadInit(c.ty, 0, NoFault) EXCEPT !.rd = rd], c.src)
           v == ChainOb(obs[k], e, e.rd.cnt, -1)
       IN IF v # "" THEN Nth(k, "one Reader, " \o v)
          ELSE IF obs[k].st # "ok" THEN Want(k = Len(obs), "went on")
          ELSE ChainX(c, obs, k + 1, e.rd)
\* values put into one Writer, the machine going on where it was
RECURSIVE ChainWrite(_, _, _)
ChainWrite(c, k, m) ==
  IF k > Len(c.vs) THEN [m |-> m, at |-> Len(c.vs)]
  ELSE LET e == RunFrom([WriteInit(c.ty, c.vs[k]) EXCEPT !.wr = m.wr, !.last = m.last, !.om = m.om, !.kf = m.kf], <<>>)
       IN IF e.st # "ok" THEN [m |-> e, at |-> k] ELSE ChainWrite(c, k + 1, e)
ChainW(c) ==
  LET q == ChainWrite(c, 1, [WriteInit(c.ty, 0) EXCEPT !.st = "ok"])
      e == q.m
      f == Finalize(e.wr)
  IN IF e.om = 1 THEN Want(c.w.st \notin Crashes, "one Writer: crash")
     ELSE IF Refused(e, c.w) THEN ""
     ELSE IF ~StMatches(c.w, e.st) THEN "one Writer: status " \o c.w.st \o ", specified " \o e.st
     ELSE IF c.w.at # q.at THEN "one Writer: number of values"
     ELSE Want(e.st # "ok" \/ (c.w.b = f.buf /\ c.w.n = f.cnt), "one Writer: bytes or amount")
ChainSkip(c) ==   \* the reader after the offset was skipped
  LET s == SkipStatus(c.src, NoFault, RdInit(0), c.off)
  IN IF s = "ok" THEN SkipNext(RdInit(0), c.off, "msb") ELSE RdInit(0)
ChainCase(c) ==
  First(<<ChainW(c), ChainB(c, c.cb, 1, 0, c.off), ChainR(c, c.cr, 1, 0), 
          IF SkipStatus(c.src, NoFault, RdInit(0), c.off) = "ok" THEN ChainX(c, c.cx, 1, ChainSkip(c)) ELSE "">>)

(******************************* update(), sizes ***************************)

UpdateCase(c) ==
  IF "res" \notin DOMAIN c THEN "" ELSE          \* nothing to update
  LET u == UpdateOf(c.ty, Norm(c.v)) IN
  IF u.ok = 0 THEN Want(IsErr(c.res), "update: accepted a result that does not fit")
  ELSE IF c.res.st # "ok" THEN "update: status " \o c.res.st
  ELSE IF Norm(c.res.v) # u.v THEN "update: fields"
  ELSE LET a == UpdateOf(c.ty, Norm(c.res.v)) IN
       IF a.ok = 1 /\ (c.again.st # "ok" \/ Norm(c.again.v) # a.v) THEN "update: second time"
       ELSE First(<<WriteConf(c.enc, c, EncodeRun(c, c.again.v)),
                    IF "dec" \in DOMAIN c /\ Types[c.ty].sym \in {1, 2} /\ c.enc.st = "ok"
                    THEN Want(c.dec.st = "ok" /\ Norm(c.dec.v) = Norm(c.again.v), "update: encoding does not decode back")
                    ELSE "">>)

SizeCase(c) ==
  LET n == SizeBits(c.ty) IN
  Want(c.bits = n /\ c.bytes = (IF n % 8 = 0 THEN n \div 8 ELSE -1), "SIZE_BITS or SIZE_BYTES")

(******************* direct reader and writer operations *******************)

\* one reading operation as observed, against the specified outcome q
RestOk(src, r, ob) ==
  \/ ob.rs = Rest(src, r)
  \/ Aligned(r) /\ r.by < Len(src) /\ ob.rs = BB[src[r.by + 1]]     \* the byte an end probe looked at
  \/ r.by > Len(src)
ROpConf(src, op, q, ob, x, probed) ==
  IF ob.st = "Io" /\ op[1] \notin {"j", "z"} /\ "fk" \in DOMAIN x /\ ob.kd # x.fk THEN "an I/O error other than the injected one"
  ELSE IF ob.st # q.st THEN "status " \o ob.st \o ", specified " \o q.st
  ELSE IF ob.st # "ok" THEN ""
  ELSE IF op[1] \in {"b", "i"} /\ ob.bits # OutBitsOf(q.out, OpOrder(op[1], op[3])) THEN "bits"
  ELSE IF op[1] \in {"y", "c", "v"} /\ ob.b # OutBytesOf(q.out, OpOrder(op[1], op[3])) THEN "bytes"
  ELSE IF op[1] = "e" /\ ob.e # q.e THEN "end of input"
  ELSE IF ob.n # q.r.cnt THEN "amount read"
  \* an end probe may hold the byte it looked at
  ELSE IF ob.p # q.r.by /\ ~(probed /\ Aligned(q.r) /\ ob.p = q.r.by + 1) THEN "bytes taken from the source"
  ELSE Want(RestOk(src, q.r, ob), "unread remainder")
RECURSIVE ROpsFrom(_, _, _, _, _, _)
ROpsFrom(src, flt, ops, x, r, k) ==
  LET obs == x.obs IN
  IF k > Len(ops) THEN Want(Len(obs) = Len(ops), "number of operations")
  ELSE LET q == ROp(src, flt, r, ops[k][1], ops[k][2], ops[k][3])
           v == IF k > Len(obs) THEN "stopped early" ELSE ROpConf(src, ops[k], q, obs[k], x, \E i \in 1..k : ops[i][1] = "e")
       IN IF v # "" THEN "operation " \o ToString(k) \o " " \o ToString(ops[k]) \o ": " \o v
          ELSE IF q.st # "ok" THEN Want(Len(obs) = k, "went on")
          ELSE ROpsFrom(src, flt, ops, x, q.r, k + 1)
ROpsConf(c, gs) == Each(gs, LAMBDA g : Each(g.runs, LAMBDA x :
  LET v == ROpsFrom(c.src, g.flt, c.ops, x, RdInit(0), 1) IN IF v = "" THEN "" ELSE x.env \o ", " \o v))

\* writing operations; orders mixed within a byte are given no meaning
RECURSIVE WOpsFrom(_, _, _, _, _, _)
WOpsFrom(flt, ops, x, w, last, k) ==
  LET obs == x.obs IN
  IF k > Len(ops) THEN IF Len(obs) # Len(ops) THEN "number of operations" ELSE Want(x.b = w.buf, "output bytes")
  ELSE LET op == ops[k]
           no == WRefused(w, op[1], op[2])
           w1 == IF no THEN Finalize(w) ELSE WOp(w, op[1], op[2], op[3], op[4])
           ob == obs[k]
           io == Len(w1.buf) > flt
           nb == Len(op[4])
       IN IF k > Len(obs) THEN "stopped early"
          ELSE IF ~WDefined(w, op[1], op[3], last, nb) THEN Want(\A i \in k..Len(obs) : obs[i].st \notin Crashes, "crash")
          ELSE IF io THEN IF ~(ob.st = "Io" /\ ob.kd = x.fk) THEN "operation " \o ToString(k) \o ": " \o ob.st \o " instead of the injected error"
                          ELSE Want(IsPrefix(x.b, w1.buf), "accepted bytes are not a prefix")
          ELSE IF no THEN Want(ob.st = "Io" /\ Len(obs) = k, "operation " \o ToString(k) \o ": a seek before the start succeeds")
          ELSE IF ob.st # "ok" THEN "operation " \o ToString(k) \o " " \o op[1] \o ": " \o ob.st
          ELSE IF ob.n # w1.cnt THEN "operation " \o ToString(k) \o " " \o op[1] \o ": amount written"
          ELSE IF ob.rs # PendingBits(w1) THEN "operation " \o ToString(k) \o " " \o op[1] \o ": pending bits"
          ELSE WOpsFrom(flt, ops, x, w1, IF nb = 0 THEN last ELSE WOrder(op[1], op[3]), k + 1)
Seeking(c) == \E k \in 1..Len(c.ops) : c.ops[k][1] \in SeekOps
WOpsConf(c, gs) == Each(SelectSeq(gs, LAMBDA g : g.flt = NoFault \/ ~Seeking(c)), LAMBDA g : Each(g.runs, LAMBDA x :
  LET v == WOpsFrom(g.flt, c.ops, x, WrInit, "msb", 1) IN IF v = "" THEN "" ELSE x.env \o ", " \o v))

(*************************** single integers *******************************)

CodecTy(c) == [k |-> c.k, w |-> c.w, sg |-> c.sg]
CodecCtx(c) == Ctx(c.en, c.ord, c.sz, c.bs)
CodecRd(c) ==
  LET s == ReadStatus(c.src, NoFault, RdInit(0), c.a) IN
  RunFrom([ReadInit("", 0, NoFault) EXCEPT
             !.todo = <<Task("ty", CodecTy(c), CodecCtx(c), 0)>>,
             !.rd = IF s = "ok" THEN ReadNext(RdInit(0), c.a, c.ord) ELSE RdInit(0),
             !.st = IF s = "ok" THEN "run" ELSE s], c.src)
CodecRead(c) ==
  LET e == CodecRd(c)
      ob == c.rd
  IN IF ob.st # e.st THEN "reading: status " \o ob.st \o ", specified " \o e.st
     ELSE IF e.st # "ok" THEN ""
     ELSE IF Norm(ob.v) # Result(e) THEN "reading: value"
     ELSE IF ob.n # e.rd.cnt THEN "reading: amount"
     ELSE Want(ob.rs = Rest(c.src, e.rd), "reading: remainder")
CodecWr(c, v) ==
  RunFrom([WriteInit("", 0) EXCEPT
             !.todo = <<Task("ty", CodecTy(c), CodecCtx(c), v)>>,
             !.wr = WriteBits(WrInit, Fill(1, c.a), c.ord), !.last = c.ord], <<>>)
CodecWrite(c, ob) ==
  LET e == CodecWr(c, ob.v)
      w == IF e.st = "ok" THEN e.wr ELSE WriteBits(WrInit, Fill(1, c.a), c.ord)
  IN IF e.om = 1 \/ Refused(e, ob) THEN ""
     ELSE IF ob.st # e.st THEN "writing: status " \o ob.st \o ", specified " \o e.st
     ELSE IF ob.b # Finalize(w).buf THEN "writing: bytes"
     ELSE IF ob.n # w.cnt THEN "writing: amount"
     ELSE Want(ob.rs = PendingBits(w), "writing: pending bits")
CodecKnown(c) == \E k \in 1..Len(c.wr) : c.wr[k].st = "ok" /\ CodecWr(c, c.wr[k].v).kf = 1
CodecConf(c) ==
  First(<<IF "rd" \in DOMAIN c /\ Prop # "C04" THEN CodecRead(c) ELSE "",
          IF Prop # "C03" THEN Each(c.wr, LAMBDA ob : CodecWrite(c, ob)) ELSE "">>)

\* op "l": a container of tokens: what was built, held, dropped, and when
OwnCase(c) ==
  LET w == c.own
      Sh == c.sh
      o == Ow!Own(Ow!Shapes[c.sh], c.src)
      before == Ow!Ledger(SubSeq(w.ev, 1, w.at), 1, Ow!NewLedger)
      after == Ow!Ledger(w.ev, 1, Ow!NewLedger)
  IN First(<<Want(w.st \notin Crashes, Sh \o ": crash"),
             Want(after.bad = "", Sh \o ": " \o after.bad),
             Want(w.st = o.st, Sh \o ": status " \o w.st \o ", specified " \o o.st),
             Want(after.next - 1 = Len(o.made), Sh \o ": another number of tokens was built"),
             IF Ow!Shapes[c.sh].k \in {"set", "map"} THEN Want({w.held[i] : i \in 1..Len(w.held)} = Ow!Alive(o) /\ Len(w.held) = Len(o.held), Sh \o ": holds other tokens")
             ELSE Want(w.held = o.held, Sh \o ": holds other tokens"),
             Want(before.live = Ow!Alive(o), Sh \o ": tokens alive when decoding returns are not those of the value"),
             Want(after.live = {}, Sh \o ": tokens are never dropped"),
             Want(c.lk = 0, Sh \o ": leaves bytes allocated")>>)

(*************************** the NoSeek wrapper ****************************)

NsOp(c, op, ob, pos) ==
  LET k == op[1]
      ms == Ns!Moves(k, op[2], pos, Len(c.src))
  IN IF ob.st \in Crashes THEN "crash"
     ELSE IF ob.st # "ok"
     THEN IF Ns!MayInterrupt(k) /\ ob.kd = "Interrupted" THEN Want(ob.p = pos /\ ob.in = pos, "an interruption moves it")
          ELSE IF ms # {} THEN "fails with " \o ob.kd
          ELSE IF k \in Ns!Seeks THEN Want(ob.p = pos /\ ob.in = pos, "a refused seek moves it")
          ELSE ""
     ELSE IF ob.n \notin ms THEN "moves " \o ToString(ob.n) \o " bytes"
     ELSE IF ob.p # pos + ob.n THEN "reports position " \o ToString(ob.p)
     ELSE IF ob.in # pos + ob.n THEN "leaves the stream at " \o ToString(ob.in)
     ELSE IF k \in Ns!Seeks THEN Want(NatOf(ob.b) = pos, "returns another position")
     ELSE IF c.dir = "r" THEN Want(ob.b = SubSeq(c.src, pos + 1, pos + ob.n), "other bytes")
     ELSE ""
RECURSIVE NsFrom(_, _, _, _)
NsFrom(c, x, k, pos) ==
  IF k > Len(x.obs) THEN
    IF Len(x.obs) < Len(c.ops) THEN Want(x.obs[Len(x.obs)].st # "ok", "stopped early")
    ELSE IF c.dir = "w" THEN Want(x.out = Strict([i \in 1..pos |-> i]), "other bytes reach the stream")
    ELSE ""
  ELSE LET ob == x.obs[k]
           v == NsOp(c, c.ops[k], ob, pos)
       IN IF v # "" THEN "operation " \o ToString(k) \o " " \o ToString(c.ops[k]) \o ": " \o v
          ELSE NsFrom(c, x, k + 1, pos + (IF ob.st = "ok" THEN ob.n ELSE 0))
NsCase(c) == Each(c.runs, LAMBDA x : LET v == NsFrom(c, x, 1, 0) IN IF v = "" THEN "" ELSE x.env \o ", " \o v)

Conf(c) ==
  CASE c.op = "r" -> Each(c.gs, LAMBDA g : ReadConfGroup(c, g))
    [] c.op = "w" -> WriteConfCase(c)
    [] c.op = "u" -> UpdateCase(c)
    [] c.op = "q" -> SweepCase(c)
    [] c.op = "k" -> ChainCase(c)
    [] c.op = "z" -> SizeCase(c)
    [] c.op = "o" -> ROpsConf(c, c.gs)
    [] c.op = "p" -> WOpsConf(c, c.gs)
    [] c.op = "c" -> CodecConf(c)
    [] c.op = "l" -> OwnCase(c)
    [] c.op = "n" -> NsCase(c)
    [] c.op = "m" -> Each(c.lk, LAMBDA x : Want(x[2] = 0, x[1] \o ": leaves " \o ToString(x[2]) \o " bytes allocated"))

(****************************** C05: round trips ***************************)

Ordered(ty) == Types[ty].sym \in {1, 3}   \* 2, 4: contents without an order; 3, 4: not every value survives
TbOf(c) == c.obs[1]
\* the specification says this value survives encode-decode
SurvivesEnc(c, e) ==
  /\ e.st = "ok" /\ e.om = 0 /\ e.kf = 0
  /\ LET b == OutBytes(e)
         d == RunFrom(ReadInit(c.ty, 0, NoFault), b)
     IN d.st = "ok" /\ Result(d) = Norm(c.v) /\ CeilDiv(d.rd.cnt, 8) = Len(b)
RoundTrip(c) ==
  IF c.op # "w" \/ Types[c.ty].sym = 0 THEN ""
  ELSE LET e == EncodeRun(c, c.v) IN
  First(<<
    IF ~SurvivesEnc(c, e) THEN ""
    ELSE IF TbOf(c).st # "ok" THEN "encode-decode: encoding fails with " \o TbOf(c).st
    ELSE IF c.dec.st # "ok" THEN "encode-decode: decoding fails with " \o c.dec.st
    ELSE IF Norm(c.dec.v) # Norm(c.v) \/ (c.same = 0 /\ Types[c.ty].nan = 0) THEN "encode-decode: another value"
    ELSE Want(CeilDiv(c.dec.n, 8) = Len(TbOf(c).b), "encode-decode: left over"),
    IF "from" \notin DOMAIN c \/ ~Ordered(c.ty) THEN ""
    ELSE LET d == RunFrom(ReadInit(c.ty, c.from.off, NoFault), c.from.src) IN
         IF d.st # "ok" THEN ""
         ELSE LET e2 == EncodeRun(c, Result(d)) IN     \* the consumed bits, padding as zeros
              IF e2.st # "ok" \/ e2.om = 1 \/ e2.kf = 1 THEN ""
              ELSE IF TbOf(c).st # "ok" THEN "decode-encode: encoding fails with " \o TbOf(c).st
              ELSE Want(TbOf(c).b = OutBytes(e2), "decode-encode: other bits")>>)

(************************* C06: entry points agree *************************)

SameRead(a, b) == \* a from from_reader
  IF a.st # b.st THEN IF b.ep = "tf" THEN "" ELSE Name(b) \o ": status " \o b.st \o " but from_reader " \o a.st
  ELSE IF a.st # "ok" THEN ""
  ELSE IF Norm(a.v) # Norm(b.v) THEN Name(b) \o ": value differs from from_reader's"
  ELSE CASE b.ep = "fb" -> Want(8 * b.bi + b.bo = a.n /\ b.bo < 8 /\ b.sx = 1, "fb: remainder")
         [] b.ep = "fx" -> IF b.n # a.n THEN "fx: bits_read"
                           ELSE Want(a.n % 8 = 0 \/ Len(b.rs) = 8 - (a.n % 8), "fx: rest")
         [] OTHER -> ""
AgreeTf(a, b, len) ==
  IF b.ep # "tf" THEN ""
  ELSE IF a.st # "ok" THEN Want(b.st = a.st, "tf: status " \o b.st \o " but from_reader " \o a.st)
  ELSE IF a.n \div 8 < len THEN Want(IsErr(b), "tf: accepted unread input")
  ELSE Want(b.st = "ok", "tf: status " \o b.st)
AgreeRead(c) ==
  LET g == c.gs[1]
      a == g.obs[1]
      over == a.st = "ok" /\ a.n > 8 * g.len         \* a seek past the end: no remainder to speak of
  IN IF \E k \in 1..Len(g.obs) : g.obs[k].st \in Crashes THEN "crash"
     ELSE IF over THEN ""
     ELSE First(<<Pairs(g.obs, SameRead), Pairs(g.obs, LAMBDA x, y : AgreeTf(x, y, g.len)),
                  \* the extent is absolute: what the specified decode of this value consumes
                  IF a.st # "ok" THEN ""
                  ELSE LET e == PlainRun(c) IN
                       IF e.st = "ok" /\ Result(e) = Norm(a.v) THEN ReadConfGroup(c, g) ELSE "">>)

PadTo8(bits) == bits \o Zeros((8 - (Len(bits) % 8)) % 8)
SameWrite(seeks, a, b) ==  \* a from to_bytes
  CASE b.ep \in {"vv", "tb"} -> IF a.st # b.st THEN b.ep \o ": status" ELSE Want(a.st # "ok" \/ a.b = b.b, b.ep \o ": bytes differ from to_bytes")
    [] b.ep = "tw" -> IF a.st # b.st THEN b.ep \o ": status" ELSE Want(a.st # "ok" \/ a.b = b.b, Name(b) \o ": bytes differ from to_bytes")
    [] b.ep \in {"ti", "vb"} ->
         IF a.st # b.st THEN b.ep \o ": status"
         ELSE Want(a.st # "ok" \/ CeilDiv(Len(b.bits), 8) = Len(a.b), b.ep \o ": length differs from to_bytes")
    [] b.ep = "sl" /\ seeks = 0 ->
         IF a.st # "ok" THEN Want(IsErr(b), "sl: status")
         ELSE IF b.k < Len(a.b) THEN Want(IsErr(b), "sl: too small a slice accepted")
         ELSE Want(b.st = "ok" /\ b.n = Len(a.b) /\ b.b = a.b /\ b.cl = 1, "sl: bytes differ from to_bytes")
    [] OTHER -> ""
AgreeWrite(c) ==
  LET a == TbOf(c)
      e == EncodeRun(c, c.v)
      bitsOf == SelectSeq(c.obs, LAMBDA ob : ob.ep \in {"ti", "vb"} /\ ob.st = "ok")
  IN First(<<Each(c.obs, LAMBDA ob : Want(ob.st \notin Crashes, Name(ob) \o ": crash")),
             Pairs(c.obs, LAMBDA x, y : SameWrite(Types[c.ty].seeks, x, y)),
             Each(bitsOf, LAMBDA ob : Want(ob.bits = bitsOf[1].bits, "to_bits conversions differ")),
             IF e.st = "ok" /\ e.om = 0 /\ a.st = "ok" /\ a.b = OutBytes(e)
             THEN Each(c.obs, LAMBDA ob : WriteConf(ob, c, e)) ELSE "">>)
Agree(c) == CASE c.op = "r" -> AgreeRead(c) [] c.op = "w" -> AgreeWrite(c) [] OTHER -> ""

(********************* C07: delivery makes no difference *******************)

SameDelivery(a, b) ==
  IF a.st # b.st \/ (a.st # "ok" /\ a.kd # b.kd) THEN Name(b) \o ": status " \o b.st \o " but " \o a.st \o " from memory"
  ELSE IF a.st # "ok" THEN ""
  ELSE IF Norm(a.v) # Norm(b.v) THEN Name(b) \o ": value differs from memory's"
  ELSE Want("n" \notin DOMAIN b \/ a.n = b.n, Name(b) \o ": amount consumed differs from memory's")
SameAcceptance(a, b) ==
  IF b.ep # "tw" THEN ""
  ELSE IF a.st # b.st \/ (a.st # "ok" /\ a.kd # b.kd) THEN Name(b) \o ": status " \o b.st \o " but " \o a.st \o " into memory"
  ELSE Want(a.st # "ok" \/ a.b = b.b, Name(b) \o ": bytes differ from memory's")
Delivery(c) ==
  CASE c.op = "r" -> Pairs(SelectSeq(c.gs[1].obs, LAMBDA ob : ob.ep \in {"fr", "fx"}), SameDelivery)
    [] c.op = "w" -> First(<<Pairs(c.obs, SameAcceptance),
                             LET tw == SelectSeq(c.obs, LAMBDA ob : ob.ep = "tw") IN
                             IF tw = <<>> THEN "" ELSE
                             Pairs(tw, LAMBDA a, b : Want(a.st # "ok" \/ b.st # "ok" \/ a.n = b.n, Name(b) \o ": bits_written differs"))>>)
    [] c.op \in {"o", "p"} -> IF Len(c.gs[1].runs) = 1 THEN "" ELSE c.gs[1].runs[2].env \o ": differs from memory"
    [] OTHER -> ""

(*************************** C08: faults surface ***************************)

FaultRead(a, ob) ==   \* a: fault-free
  IF ob.hit = 1 THEN Want(ob.st = "Io" /\ ob.kd = ob.fk, Name(ob) \o ": " \o ob.st \o " instead of the injected error")
  ELSE IF ob.st # a.st THEN Name(ob) \o ": " \o ob.st \o " though no fault was reached"
  ELSE Want(a.st # "ok" \/ (Norm(a.v) = Norm(ob.v) /\ a.n = ob.n), Name(ob) \o ": another value though no fault was reached")
FaultWrite(c, a, ob) ==
  IF ob.ep \notin {"tf", "sf"} THEN ""
  ELSE IF ob.hit = 1
  THEN IF ~(ob.st = "Io" /\ ob.kd = ob.fk) THEN Name(ob) \o ": " \o ob.st \o " instead of the injected error"
       ELSE Want(a.st # "ok" \/ Types[c.ty].seeks = 1 \/ IsPrefix(ob.b, a.b), Name(ob) \o ": accepted bytes are not a prefix")
  ELSE IF ob.st # a.st THEN Name(ob) \o ": " \o ob.st \o " though no fault was reached"
  ELSE Want(a.st # "ok" \/ ob.b = a.b, Name(ob) \o ": other bytes though no fault was reached")
Faults(c) ==
  CASE c.op = "r" ->
         LET a == c.gs[1].obs[1] IN
         IF a.st \in Crashes THEN "crash" ELSE
         Each(SelectSeq(c.gs, LAMBDA g : g.obs[1].ep = "sf" \/ g.flt # NoFault), LAMBDA g : Each(g.obs, LAMBDA ob : FaultRead(a, ob)))
    [] c.op = "w" -> LET a == TbOf(c) IN Each(c.obs, LAMBDA ob : FaultWrite(c, a, ob))
    [] c.op = "o" -> ROpsConf(c, c.gs)
    [] c.op = "p" -> WOpsConf(c, c.gs)
    [] OTHER -> ""

(************************** C09: truncated input ***************************)

Truncation(c) ==
  IF c.op # "r" THEN ""
  ELSE LET a == c.gs[1].obs[1] IN
       IF a.st # "ok" THEN ""
       ELSE LET need == CeilDiv(a.n, 8) IN
            Each(SelectSeq(c.gs, LAMBDA g : g.len < need /\ g.len < Len(c.src) /\ g.flt = NoFault),
                 LAMBDA g :
                   IF Types[c.ty].all = 0 /\ Types[c.ty].seeks = 0
                   THEN Each(g.obs, LAMBDA ob : Want(ob.st = "Incomplete", Name(ob) \o ": " \o ob.st \o " on a truncated input"))
                   ELSE Each(g.obs, LAMBDA ob : Want(ob.st \notin Crashes, Name(ob) \o ": crash")))

(***************************** C17: DekuSize *******************************)

VariantSize(d, k) ==
  8 * Len(d.mg) + IdSize(d) + SizeFields(d.vars[k].fields, IF d.vars[k].st = 1 THEN 2 ELSE 1)
SizeOfValue(ty, v) == LET d == Types[ty] IN IF d.k = "enum" THEN VariantSize(d, v.e) ELSE SizeBits(ty)
\* sizes of enums inside are upper bounds
SizeOk(ty, v, n) == LET s == SizeOfValue(ty, v) IN n = s \/ (Types[ty].nestenum = 1 /\ n <= SizeBits(ty))
Sizes(c) ==
  CASE c.op = "z" -> SizeCase(c)
    [] c.op = "r" -> Each(c.gs[1].obs, LAMBDA ob :
         IF ob.st \in Crashes THEN "crash"
         ELSE Want(~(ob.st = "ok" /\ ob.ep = "fr") \/ SizeOk(c.ty, ob.v, ob.n - c.off), "fr: consumed other than SIZE_BITS"))
    [] c.op = "w" -> Each(c.obs, LAMBDA ob :
         IF ob.st \in Crashes THEN "crash"
         ELSE IF ob.st # "ok" THEN ""
         ELSE CASE ob.ep = "ti" -> Want(SizeOk(c.ty, c.v, Len(ob.bits)), "to_bits: emitted other than SIZE_BITS")
                [] ob.ep = "tb" -> Want(Types[c.ty].nestenum = 1 \/ Len(ob.b) = CeilDiv(SizeOfValue(c.ty, c.v), 8), "to_bytes: emitted other than SIZE_BITS")
                [] OTHER -> "")
    [] OTHER -> ""

(************************* C18: no crash, no hoarding **********************)

Hoard(ob, len) == "al" \in DOMAIN ob /\ ob.al > 65536 + 1024 * len
Survives(c) ==
  CASE c.op = "r" -> Each(c.gs, LAMBDA g : Each(g.obs, LAMBDA ob :
         IF ob.st \in Crashes THEN Name(ob) \o ": " \o ob.st
         ELSE Want(~Hoard(ob, Len(c.src)), Name(ob) \o ": allocated " \o ToString(IF "al" \in DOMAIN ob THEN ob.al ELSE 0))))
    [] OTHER -> ""

(******************** C19: configurations are equivalent *******************)

\* op "x": the same case as observed by every configuration that can express its
\* definition; where they differ, the specification says which one departs
SameConfig(c, a, b) ==
  IF a.o = b.o THEN ""
  ELSE LET k == CHOOSE k \in 1..Len(c.by) : c.by[k].cfg = b.cfg
           why == IF "st" \in DOMAIN c.cases[k] THEN c.cases[k].st ELSE Conf(c.cases[k])
       IN "configuration " \o b.cfg \o " differs from " \o a.cfg \o
          (IF why = "" THEN "" ELSE ", and departs from the specification: " \o why)
Configs(c) ==
  IF c.op # "x" THEN ""
  ELSE First(<<Pairs(c.by, LAMBDA a, b : SameConfig(c, a, b)),
               Want(c.missing = "", "not reached in configuration " \o c.missing)>>)

(******************************** the machine ******************************)

Verdict(c) ==
  IF "st" \in DOMAIN c THEN c.st                       \* the process did not survive the case
  ELSE CASE Prop = "C05" -> RoundTrip(c)
         [] Prop = "C06" -> Agree(c)
         [] Prop = "C07" -> Delivery(c)
         [] Prop = "C08" -> Faults(c)
         [] Prop = "C09" -> Truncation(c)
         [] Prop = "C17" -> Sizes(c)
         [] Prop = "C18" -> First(<<Survives(c), Conf(c)>>)
         [] Prop = "C19" -> Configs(c)
         [] OTHER -> Conf(c)

VARIABLE i
Init == i = 0
Report(k, v) == IF v = "" THEN TRUE ELSE PrintT("BAD " \o ToString(k) \o " " \o v)
Known(c) == IF Prop = "C04" /\ "st" \notin DOMAIN c /\ ((c.op = "w" /\ WriteKnown(c)) \/ (c.op = "c" /\ CodecKnown(c)))
            THEN PrintT("KNOWN " \o ToString(c.id) \o " bytes-truncation") ELSE TRUE
Next == /\ i < Len(Trace)
        /\ i' = i + 1
        /\ Report(Trace[i'].id, Verdict(Trace[i'])) = TRUE
        /\ Known(Trace[i']) = TRUE
        /\ (IF i' = Len(Trace) THEN PrintT("DONE " \o ToString(i')) ELSE TRUE) = TRUE
Spec == Init /\ [][Next]_i
===============================================================================
