------------------------------- MODULE DekuEngine -------------------------------
(***************************************************************************)
(* The derive engine: what a type definition (a "schema") means.  A        *)
(* machine state `m` holds a task stack, a value stack, a stack of name    *)
(* environments and the reader or writer; Step(m, src) is one transition.  *)
(* Decoding and encoding are runs of this machine from ReadInit/WriteInit  *)
(* until m.st # "run".                                                     *)
(*                                                                         *)
(* Values are trees:                                                       *)
(*   [i |-> bytes]         integer-like, big-endian container bytes        *)
(*   [s |-> seq]           struct (fields in order; () is the empty one)   *)
(*   [e |-> k, f |-> seq]  enum: variant number and its fields             *)
(*   [v |-> seq]           vector, array, tuple, string, Some/None         *)
(*   [m |-> set]           hash map (of [s |-> <<k, v>>]) or hash set      *)
(* Environments map names to values, to [n |-> Nat] (context numbers) or   *)
(* to [x |-> String] (context endianness and bit order).                   *)
(***************************************************************************)
EXTENDS DekuCodec, DekuReader, DekuWriter, TLC, Json, IOUtils

\* name of a derived type -> its definition
Types == JsonDeserialize(IOEnv.TYPES)

(***************************** Expressions *********************************)

Get(env, n) == env[n]
ValNat(v) == IF "i" \in DOMAIN v THEN NatOf(v.i)
             ELSE IF "n" \in DOMAIN v THEN v.n
             ELSE IF "v" \in DOMAIN v THEN Len(v.v)
             ELSE 0

B(x) == IF x THEN 1 ELSE 0
\* `off` is the bit offset the expression may refer to
RECURSIVE Eval(_, _, _)
Eval(e, env, off) ==
  LET a == Eval(e.a, env, off)
      b == Eval(e.b, env, off)
  IN CASE e.o = "c"    -> e.n
       [] e.o = "f"    -> ValNat(Get(env, e.n))
       [] e.o = "sg"   -> LET v == Get(env, e.n).i IN \* negative, or more than 64 bits: not an amount
                          IF v[1] >= 128 \/ (Len(v) > 8 /\ \E q \in 1..(Len(v) - 8) : v[q] # 0) THEN -1 ELSE NatOf(v)
       [] e.o = "sf"   -> ValNat(Get(env, e.n).s[e.k])       \* field k of a struct value
       [] e.o = "vid"  -> Get(env, e.n).e                    \* variant number of an enum value
       [] e.o = "len"  -> Len(Get(env, e.n).v)
       [] e.o = "some" -> B(Get(env, e.n).v # <<>>)
       [] e.o = "eqb"  -> B(Get(env, e.n).i = e.b)           \* equality with literal bytes
       [] e.o = "off"  -> off
       [] e.o = "byteoff" -> off \div 8
       [] e.o = "eq"   -> B(a = b)
       [] e.o = "ne"   -> B(a # b)
       [] e.o = "lt"   -> B(a < b)
       [] e.o = "le"   -> B(a <= b)
       [] e.o = "and"  -> B(a = 1 /\ b = 1)
       [] e.o = "or"   -> B(a = 1 \/ b = 1)
       [] e.o = "not"  -> 1 - a
       [] e.o = "add"  -> MinOf(Huge, a + b)
       [] e.o = "sub"  -> MaxOf(0, a - b)
       [] e.o = "mul"  -> IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Huge \div b THEN Huge ELSE a * b
       [] e.o = "mod"  -> a % b
       [] e.o = "band" -> IF b = 0 THEN 0 ELSE a % b         \* b a power of two: a & (b-1)

Has(e) == e.o # ""
True(e, env, off) == Eval(e, env, off) = 1

\* endianness / bit order setting: inherit, literal, or a context variable
Setting(s, inherited, env) ==
  CASE s.m = "" -> inherited
    [] s.m = "lit" -> s.v
    [] s.m = "var" -> Get(env, s.v).x

(******************************** Values ***********************************)

IntVal(bits) == [i |-> BytesOf(bits)]
NatVal(n, w) == IntVal(NatBits(n, w))
UnitVal == [s |-> <<>>]

\* Rust's Default of a type
RECURSIVE DefaultOf(_)
DefaultOf(ty) ==
  CASE ty.k \in {"int", "bool", "nz"} -> [i |-> Fill(0, ty.w \div 8)]
    [] ty.k = "unit" -> UnitVal
    [] ty.k \in {"vec", "opt"} -> [v |-> <<>>]
    [] ty.k \in {"map", "set"} -> [m |-> {}]
    [] ty.k = "arr" -> [v |-> [i \in 1..ty.n |-> DefaultOf(ty.e)]]
    [] ty.k = "tup" -> [v |-> [i \in 1..Len(ty.es) |-> DefaultOf(ty.es[i])]]
    [] ty.k = "wrap" -> DefaultOf(ty.e)
    [] ty.k = "cstr" -> [v |-> <<[i |-> <<0>>]>>]
    [] OTHER -> UnitVal

\* observed trees carry maps and sets as sequences
RECURSIVE Norm(_)
Norm(v) ==
  IF "i" \in DOMAIN v THEN v
  ELSE IF "s" \in DOMAIN v THEN [s |-> Strict([k \in 1..Len(v.s) |-> Norm(v.s[k])])]
  ELSE IF "v" \in DOMAIN v THEN [v |-> Strict([k \in 1..Len(v.v) |-> Norm(v.v[k])])]
  ELSE IF "e" \in DOMAIN v THEN [e |-> v.e, f |-> Strict([k \in 1..Len(v.f) |-> Norm(v.f[k])])]
  ELSE [m |-> {Norm(v.m[k]) : k \in 1..Len(v.m)}]

\* named functions used by `map` and by custom readers/writers in definitions
\* (on unsigned container values given as big-endian bytes)
Apply(fn, v) ==
  CASE fn = "" -> v
    [] fn = "inc"  -> [i |-> Strict([k \in 1..Len(v.i) |-> IF k = Len(v.i) THEN (v.i[k] + 1) % 256 ELSE v.i[k]])]
    [] fn = "dec"  -> [i |-> Strict([k \in 1..Len(v.i) |-> IF k = Len(v.i) THEN (v.i[k] + 255) % 256 ELSE v.i[k]])]
    [] fn = "widen" -> [i |-> Fill(0, Len(v.i)) \o v.i]      \* u8 -> u16, u16 -> u32 ...
    [] fn = "isnz" -> [i |-> <<B(\E k \in 1..Len(v.i) : v.i[k] # 0)>>]
    [] fn = "vlen" -> [i |-> <<Len(v.v) % 256>>]
    [] fn = "rev"  -> [v |-> Rev(v.v)]
    [] fn = "same" -> v                                    \* the same in another Rust type

Unapply(fn) == CASE fn = "inc" -> "dec" [] fn = "dec" -> "inc" [] OTHER -> fn

(******************************** Tasks ************************************)
\* Every task has the same shape: an operation and its operands.
Task(op, a, b, c) == [op |-> op, a |-> a, b |-> b, c |-> c]

\* context handed to a type: endianness, bit order, size in bits (-1: none)
\* and whether that size was given in bytes
Ctx(en, ord, sz, bs) == [en |-> en, ord |-> ord, sz |-> sz, bs |-> bs]
DefaultCtx == Ctx("little", "msb", -1, 0)

Push(m, ts) == [m EXCEPT !.todo = ts \o Tail(m.todo)]
Done(m) == [m EXCEPT !.todo = Tail(m.todo)]
Fail(m, why) == [m EXCEPT !.st = why]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
PushVal(m, v) == [Done(m) EXCEPT !.vals = Append(m.vals, v)]
Env(m) == Top(m.envs)
Bind(m, n, v) == [m EXCEPT !.envs = Append(Pop(m.envs), (n :> v) @@ Top(m.envs))]

\* where the field being decoded started, which is what its expressions see
FieldStart(m) == IF "_off" \in DOMAIN Env(m) THEN Env(m)["_off"] ELSE 0

\* endianness and bit order of a definition in environment env
DefEn(d, env)  == Setting(d.en, "little", env)
DefOrd(d, env) == Setting(d.ord, "msb", env)
FieldCtx(d, f, env, off) ==
  Ctx(Setting(f.en, DefEn(d, env), env), Setting(f.ord, DefOrd(d, env), env),
      IF Has(f.sz) THEN Eval(f.sz, env, off) ELSE -1, f.bs)

\* parameters of a nested type: what the surrounding field passes
ArgVal(x, env, cx, off) ==
  CASE x.o = "en"  -> [x |-> cx.en]
    [] x.o = "ord" -> [x |-> cx.ord]
    [] x.o = "lit" -> [x |-> x.v]
    [] OTHER -> [n |-> Eval(x, env, off)]
EmptyEnv == [zz \in {} |-> zz]
RECURSIVE BindArgs(_, _, _, _, _, _)
BindArgs(ps, as, i, env, cx, off) ==
  IF i > Len(ps) THEN EmptyEnv
  ELSE (ps[i] :> ArgVal(as[i], env, cx, off)) @@ BindArgs(ps, as, i + 1, env, cx, off)

\* does id value (bytes) match a variant's pattern?
Matches(p, idv) ==
  CASE p.m = "eq" -> idv.i = p.b
    [] p.m = "eqv" -> idv = p.v                            \* an id that is not an integer
    [] p.m = "range" -> LET n == NatOf(idv.i) IN n >= p.lo /\ n <= p.hi
    [] p.m = "in" -> \E j \in 1..Len(p.s) : NatOf(idv.i) = p.s[j]
    [] p.m = "any" -> TRUE
    [] p.m = "none" -> FALSE
\* a variant with an explicit pattern, in declaration order, else the default one
PickVariant(d, idv) ==
  LET hits == {k \in 1..Len(d.vars) : Matches(d.vars[k].pat, idv)}
      dfl == {k \in 1..Len(d.vars) : d.vars[k].dfl = 1}
  IN IF hits # {} THEN CHOOSE k \in hits : \A j \in hits : k <= j
     ELSE IF dfl # {} THEN CHOOSE k \in dfl : TRUE ELSE 0

Fields(d, k) == IF d.k = "enum" THEN d.vars[k].fields ELSE d.fields
Prefix(src, r, n, ord) == ReadValue(src, r, n, ord)

(******************************* Decoding **********************************)

\* read n bits, giving them to K(m', bits)
ReadInt(m, src, ty, cx) ==
  LET n == IF cx.sz >= 0 THEN cx.sz ELSE ty.w IN
  IF n > ty.w THEN Fail(m, "Parse")
  ELSE LET s == ReadStatus(src, m.flt, m.rd, n) IN
       IF s # "ok" THEN Fail(m, s)
       ELSE LET v == Decode(ReadValue(src, m.rd, n, cx.ord), cx.en, cx.ord, ty.w, ty.sg)
                m1 == [m EXCEPT !.rd = ReadNext(m.rd, n, cx.ord)]
            IN IF ty.k = "bool" /\ NatOf(BytesOf(v)) > 1 THEN Fail(m, "Parse")
               ELSE IF ty.k = "nz" /\ (\A i \in 1..ty.w : v[i] = 0) THEN Fail(m, "Parse")
               ELSE PushVal(m1, IntVal(v))

\* start a limited container: Task("loop", ty, cx, [lim, start, acc, left])
Loop(ty, cx, lim, start, acc, left) ==
  Task("loop", ty, cx, [lim |-> lim, start |-> start, acc |-> acc, left |-> left])

ZeroSized(ty) == ty.k = "unit"

StartLoop(m, ty, cx, env) ==
  LET lim == ty.lim
      x == IF lim.m \in {"count", "bits", "bytes"} THEN Eval(lim.x, env, m.rd.cnt) ELSE 0
      n == IF lim.m = "bytes" THEN MinOf(Huge, x) * 8 ELSE x
  IN IF x < 0 THEN Fail(m, "any")
     ELSE IF (ZeroSized(ty.e) /\ ty.k = "vec") \/ (lim.m \in {"count", "bits", "bytes"} /\ n = 0)
     THEN PushVal(m, IF ty.k = "vec" THEN [v |-> <<>>] ELSE [m |-> {}])
     ELSE Push(m, <<Loop(ty, cx, lim, m.rd.cnt, <<>>, n)>>)

ElemTypes(ty) == IF ty.k = "map" THEN <<ty.kt, ty.e>> ELSE <<ty.e>>

FinishColl(ty, acc) ==
  CASE ty.k = "set" -> [m |-> {acc[i] : i \in 1..Len(acc)}]
    [] ty.k = "map" -> \* the last entry of a key wins
         [m |-> {acc[i] : i \in {j \in 1..Len(acc) : \A k \in (j+1)..Len(acc) : acc[k].s[1] # acc[j].s[1]}}]
    [] OTHER -> [v |-> acc]

\* one turn of the loop: decide whether another element is read
TurnLoop(m, src, t) ==
  LET ty == t.a  cx == t.b  c == t.c  lim == c.lim
      used == m.rd.cnt - c.start
      n == Len(c.acc)
      stop == CASE lim.m = "count" -> n = c.left
                [] lim.m \in {"bits", "bytes"} -> n > 0 /\ used = c.left
                [] lim.m = "until" -> n > 0 /\ True(lim.x, ("_el" :> c.acc[n]) @@ Env(m), FieldStart(m))
                [] lim.m = "all" -> EndStatus(src, m.flt, m.rd) = "end"
      io == lim.m = "all" /\ EndStatus(src, m.flt, m.rd) = "Io"
      over == lim.m \in {"bits", "bytes"} /\ used > c.left
      more == [t EXCEPT !.op = "gather"]
  IN IF io THEN Fail(m, "Io")
     ELSE IF over THEN Fail(m, "any")                      \* the limit is not met exactly: some error
     ELSE IF stop THEN PushVal(m, FinishColl(ty, c.acc))
     ELSE IF ty.k = "map"
          THEN Push(m, <<Task("ty", ty.kt, cx, 0), Task("ty", ty.e, cx, 0), more>>)
          ELSE Push(m, <<Task("ty", ty.e, cx, 0), more>>)

Gather(m, t) ==
  LET ty == t.a
      k == Len(m.vals)
      el == IF ty.k = "map" THEN [s |-> <<m.vals[k - 1], m.vals[k]>>] ELSE m.vals[k]
      keep == IF ty.k = "map" THEN k - 2 ELSE k - 1
  IN Push([m EXCEPT !.vals = SubSeq(m.vals, 1, keep)],
          <<[t EXCEPT !.op = "loop", !.c.acc = Append(t.c.acc, el)]>>)

\* start reading a type in context cx
ReadType(m, src, ty, cx) ==
  LET env == Env(m) IN
  CASE ty.k \in {"int", "bool", "nz"} -> ReadInt(m, src, ty, cx)
    [] ty.k = "unit" -> PushVal(m, UnitVal)
    [] ty.k \in {"vec", "map", "set"} -> StartLoop(m, ty, cx, env)
    [] ty.k = "arr" -> Push(m, [i \in 1..ty.n |-> Task("ty", ty.e, cx, 0)] \o <<Task("mkseq", ty.n, 0, 0)>>)
    [] ty.k = "tup" -> Push(m, [i \in 1..Len(ty.es) |-> Task("ty", ty.es[i], cx, 0)]
                                \o <<Task("mkseq", Len(ty.es), 0, 0)>>)
    [] ty.k = "opt" -> Push(m, <<Task("ty", ty.e, cx, 0), Task("mkseq", 1, 0, 0)>>)
    [] ty.k = "wrap" -> Push(m, <<Task("ty", ty.e, cx, 0)>>)
    [] ty.k = "cstr" ->
         \* bytes up to and including the first zero, or exactly a given number of bytes
         IF cx.sz >= 0
         THEN Push(m, <<Task("ty", [k |-> "vec", e |-> [k |-> "int", w |-> 8, sg |-> 0],
                                    lim |-> [m |-> "count", x |-> [o |-> "c", n |-> cx.sz \div 8, a |-> 0, b |-> 0]]],
                             DefaultCtx, 0), Task("cstr", 0, 0, 0)>>)
         ELSE Push(m, <<Task("ty", [k |-> "vec", e |-> [k |-> "int", w |-> 8, sg |-> 0],
                                    lim |-> [m |-> "until", x |-> [o |-> "eqb", n |-> "_el", b |-> <<0>>, a |-> 0]]],
                             DefaultCtx, 0), Task("cstr", 0, 0, 0)>>)
    [] ty.k = "ref" ->
         LET d == Types[ty.id]
             env1 == BindArgs(d.ps, IF ty.args = <<>> THEN d.dargs ELSE ty.args, 1, env, cx, m.rd.cnt)
         IN Push([m EXCEPT !.envs = Append(m.envs, env1)],
                 <<Task("seek", d.sk, 0, 0), Task("magic", d.mg, 0, 0)>>
                 \o (IF d.k = "enum" THEN <<Task("id", d, 0, 0)>>
                     ELSE <<Task("fields", d, 1, 1), Task("mk", d, 1, 0)>>))

\* Amounts are exact below Huge.  An absurd padding or seek is some error: no
\* property says which.
\* a stream that cannot seek (ns = 1) allows only seeks that stay where it is,
\* and does not know its end
Moving(sk, tgt, at) == sk.m = "end" \/ tgt # at

\* seek attributes; targets are byte positions
SeekRead(m, src, sk) ==
  IF sk.m = "" THEN Done(m)
  ELSE LET x == IF Has(sk.x) THEN Eval(sk.x, Env(m), m.rd.cnt) ELSE 0
           sx == IF sk.neg = 1 THEN -x ELSE x
           tgt == CASE sk.m = "rewind" -> 0
                    [] sk.m = "start" -> sx
                    [] sk.m = "current" -> m.rd.by + sx
                    [] sk.m = "end" -> Len(src) + sx
       IN IF x >= Huge THEN Fail(m, "any")
          ELSE IF m.ns = 1 /\ Moving(sk, tgt, m.rd.by) THEN Fail(m, "Io")
          ELSE IF tgt < 0 THEN Fail(m, "Io") ELSE [Done(m) EXCEPT !.rd = SeekTo(m.rd, tgt)]

ReadMagic(m, src, mg) ==
  IF mg = <<>> THEN Done(m)
  ELSE LET s == ReadStatus(src, m.flt, m.rd, 8) IN
       IF s # "ok" THEN Fail(m, s)
       ELSE IF ByteAt(ReadValue(src, m.rd, 8, "msb"), 0) # mg[1] THEN Fail(m, "Parse")
       ELSE Push([m EXCEPT !.rd = ReadNext(m.rd, 8, "msb")], <<Task("magic", Tail(mg), 0, 0)>>)

\* the enum id: from context, or decoded with its own type, size, endianness, order
ReadId(m, src, d) ==
  IF d.id.m = "ctx"
  THEN Push([m EXCEPT !.vals = Append(m.vals, IF Len(d.id.xs) = 1 THEN NatVal(Eval(d.id.x, Env(m), m.rd.cnt), d.id.ty.w)
                                             ELSE [v |-> [j \in 1..Len(d.id.xs) |-> NatVal(Eval(d.id.xs[j], Env(m), m.rd.cnt), d.id.ty.w)]])],
            <<Task("pick", d, 0, 0)>>)
  ELSE LET cx == Ctx(Setting(d.id.en, DefEn(d, Env(m)), Env(m)), DefOrd(d, Env(m)), d.id.sz, d.id.bs)
       IN Push(m, <<Task("ty", d.id.ty, cx, 0), Task("pick", d, 0, 0)>>)

Pick(m, d) ==
  LET idv == Top(m.vals)
      k == PickVariant(d, idv)
      m1 == [m EXCEPT !.vals = Pop(m.vals)]
  IN IF k = 0 THEN Fail(m, "Parse")
     ELSE IF d.vars[k].st = 1 \* a pattern variant whose first field stores the id
     THEN Push(Bind(m1, d.vars[k].fields[1].n, idv), <<Task("fields", d, k, 2), Task("mk", d, k, 0)>>)
     ELSE Push(m1, <<Task("fields", d, k, 1), Task("mk", d, k, 0)>>)

Pad(m, src, e, ord) ==
  IF ~Has(e) THEN Done(m)
  ELSE LET n == Eval(e, Env(m), m.rd.cnt)
           s == SkipStatus(src, m.flt, m.rd, n)
       IN IF n >= Huge \/ n < 0 THEN Fail(m, "any")
          ELSE IF s # "ok" THEN Fail(m, s) ELSE [Done(m) EXCEPT !.rd = SkipNext(m.rd, n, ord)]

\* is field f decoded, or does it take its default?
Decoded(f, env, off) ==
  CASE f.skip \in {"all", "read"} -> Has(f.cond) /\ ~True(f.cond, env, off)
    [] f.skip = "write" -> TRUE
    [] OTHER -> ~Has(f.cond) \/ True(f.cond, env, off)

\* read field number i of variant k of definition d
ReadField(m, d, k, i) ==
  LET fs == Fields(d, k) IN
  IF i > Len(fs) THEN Done(m)
  ELSE LET f == fs[i]
       IN Push(m, <<Task("seek", f.sk, 0, 0), Task("magic", f.mg, 0, 0),
                    Task("pad", d, f, f.pb), Task("fval", d, f, 0),
                    Task("check", f, 0, 0), Task("pad", d, f, f.pa),
                    Task("fields", d, k, i + 1)>>)

FieldValue(m0, src, d, f) ==
  LET off == m0.rd.cnt
      m == Bind(m0, "_off", off)
      env == Env(m)
  IN IF Decoded(f, env, off)
     THEN IF f.cu # ""
          THEN Push(m, <<Task("ty", [k |-> "int", w |-> 8, sg |-> 0], DefaultCtx, 0), Task("bind", f, f.cu, 0)>>)
          ELSE Push(m, <<Task("ty", IF f.map # "" THEN f.mty ELSE f.ty, FieldCtx(d, f, env, off), 0),
                         Task("bind", f, f.map, 0)>>)
     ELSE LET v == IF Has(f.def)
                   THEN IF f.ty.k = "opt" THEN [v |-> <<NatVal(Eval(f.def, env, off), f.ty.e.w)>>]
                        ELSE NatVal(Eval(f.def, env, off), f.ty.w)
                   ELSE DefaultOf(f.ty)
          IN Bind(Done(m), f.n, v)

Check(m, f, why) ==
  LET env == Env(m)
      off == IF m.mode = "r" THEN FieldStart(m) ELSE m.wr.cnt
  IN IF (Has(f.as) /\ ~True(f.as, env, off)) \/ (Has(f.ae) /\ ValNat(Get(env, f.n)) # Eval(f.ae, env, off))
     THEN Fail(m, why) ELSE Done(m)

RECURSIVE Kept(_, _, _)
Kept(fs, i, env) ==
  IF i > Len(fs) THEN <<>>
  ELSE (IF fs[i].temp = 1 THEN <<>> ELSE <<env[fs[i].n]>>) \o Kept(fs, i + 1, env)

Make(m, d, k) ==
  LET vs == Kept(Fields(d, k), 1, Env(m))
  IN PushVal([m EXCEPT !.envs = Pop(m.envs)], IF d.k = "enum" THEN [e |-> k, f |-> vs] ELSE [s |-> vs])

MakeSeq(m, n) ==
  LET k == Len(m.vals) IN
  PushVal([m EXCEPT !.vals = SubSeq(m.vals, 1, k - n)], [v |-> SubSeq(m.vals, k - n + 1, k)])

CStr(m) ==
  LET v == Top(m.vals).v
      ok == Len(v) > 0 /\ v[Len(v)].i = <<0>> /\ \A j \in 1..(Len(v) - 1) : v[j].i # <<0>>
  IN IF ok THEN Done(m) ELSE Fail(m, "Parse")

ReadStep(m, src) ==
  IF m.todo = <<>> THEN [m EXCEPT !.st = "ok"]
  ELSE LET t == Head(m.todo) IN
    CASE t.op = "ty"     -> ReadType(m, src, t.a, t.b)
      [] t.op = "loop"   -> TurnLoop(m, src, t)
      [] t.op = "gather" -> Gather(m, t)
      [] t.op = "seek"   -> SeekRead(m, src, t.a)
      [] t.op = "magic"  -> ReadMagic(m, src, t.a)
      [] t.op = "id"     -> ReadId(m, src, t.a)
      [] t.op = "pick"   -> Pick(m, t.a)
      [] t.op = "fields" -> ReadField(m, t.a, t.b, t.c)
      [] t.op = "pad"    -> Pad(m, src, t.c, Setting(t.b.ord, DefOrd(t.a, Env(m)), Env(m)))
      [] t.op = "fval"   -> FieldValue(m, src, t.a, t.b)
      [] t.op = "bind"   -> Bind([Done(m) EXCEPT !.vals = Pop(m.vals)], t.a.n, Apply(t.b, Top(m.vals)))
      [] t.op = "check"  -> Check(m, t.a, "Assertion")
      [] t.op = "mk"     -> Make(m, t.a, t.b)
      [] t.op = "mkseq"  -> MakeSeq(m, t.a)
      [] t.op = "cstr"   -> CStr(m)

(******************************* Encoding **********************************)

\* `last` is the order bits were last written in; `om` marks a run that mixes
\* orders within a byte, to which the properties give no meaning
Put(m, bits, ord) ==
  [Done(m) EXCEPT !.wr = WriteBits(m.wr, bits, ord),
                  !.last = IF bits = <<>> THEN m.last ELSE ord,
                  !.om = IF OrderOK(m.wr, ord, m.last, Len(bits)) THEN m.om ELSE 1]

\* A value that does not fit its size is refused.  (Known finding: a size
\* given in bytes writes the low bytes instead; `kf` marks such a run.)
WriteInt(m, ty, cx, v) ==
  LET n == IF cx.sz >= 0 THEN cx.sz ELSE ty.w
      bits == BitsOf(v.i)
      m1 == Put(m, Encode(bits, n, cx.en, cx.ord), cx.ord)
  IN IF n > ty.w THEN Fail(m, "InvalidParam")
     ELSE IF Fits(bits, n, cx.en, cx.ord, ty.sg) THEN m1
     ELSE IF cx.bs = 1 THEN [m1 EXCEPT !.kf = 1]
     ELSE Fail(m, "InvalidParam")

Elems(v) == IF "m" \in DOMAIN v THEN v.m ELSE v.v    \* observed maps: sequence in iteration order

\* the elements of a sequence from number i on, one at a time
WriteEach(m, ty, cx, es, i) ==
  IF i > Len(es) THEN Done(m)
  ELSE IF i = Len(es) THEN Push(m, <<Task("ty", ty, cx, es[i])>>)
  ELSE Push(m, <<Task("ty", ty, cx, es[i]), Task("each", ty, cx, [es |-> es, i |-> i + 1])>>)

WriteType(m, ty, cx, v) ==
  LET env == Env(m) IN
  CASE ty.k \in {"int", "bool", "nz"} -> WriteInt(m, ty, cx, v)
    [] ty.k = "unit" -> Done(m)
    [] ty.k \in {"vec", "set", "arr", "opt"} ->
         WriteEach(m, ty.e, cx, Elems(v), 1)
    [] ty.k = "map" ->
         LET es == Elems(v) IN
         Push(m, Flat([i \in 1..Len(es) |-> <<Task("ty", ty.kt, cx, es[i].s[1]), Task("ty", ty.e, cx, es[i].s[2])>>]))
    [] ty.k = "cstr" -> WriteEach(m, [k |-> "int", w |-> 8, sg |-> 0], [cx EXCEPT !.sz = -1], v.v, 1)
    [] ty.k = "tup" -> Push(m, [i \in 1..Len(ty.es) |-> Task("ty", ty.es[i], cx, v.v[i])])
    [] ty.k = "wrap" -> Push(m, <<Task("ty", ty.e, cx, v)>>)
    [] ty.k = "ref" ->
         LET d == Types[ty.id]
             k == IF d.k = "enum" THEN v.e ELSE 1
             vs == IF d.k = "enum" THEN v.f ELSE v.s
             fs == Fields(d, k)
             keep == SelectSeq(fs, LAMBDA f : f.temp = 0)
             args == BindArgs(d.ps, IF ty.args = <<>> THEN d.dargs ELSE ty.args, 1, env, cx, m.wr.cnt)
             names == {keep[i].n : i \in 1..Len(keep)}
             env1 == [n \in names |-> vs[CHOOSE i \in 1..Len(keep) : keep[i].n = n]] @@ args
         IN Push([m EXCEPT !.envs = Append(m.envs, env1)],
                 <<Task("seek", d.sk, 0, 0), Task("magic", d.mg, 0, 0)>>
                 \o (IF d.k = "enum" THEN <<Task("id", d, k, 0)>> ELSE <<Task("fields", d, 1, 1)>>)
                 \o <<Task("end", 0, 0, 0)>>)

SeekWrite(m, sk) ==
  IF sk.m = "" THEN Done(m)
  ELSE LET x == IF Has(sk.x) THEN Eval(sk.x, Env(m), m.wr.cnt) ELSE 0
           sx == IF sk.neg = 1 THEN -x ELSE x
           w == Finalize(m.wr)
           tgt == CASE sk.m = "rewind" -> 0
                    [] sk.m = "start" -> sx
                    [] sk.m = "current" -> w.pos + sx
                    [] sk.m = "end" -> Len(w.buf) + sx
       IN IF m.ns = 1 /\ Moving(sk, tgt, w.pos) THEN Fail(m, "Io")
          ELSE IF tgt < 0 THEN Fail(m, "Io") ELSE [Done(m) EXCEPT !.wr = WSeekTo(m.wr, tgt)]

WriteId(m, d, k) ==
  LET var == d.vars[k]
      cx == Ctx(Setting(d.id.en, DefEn(d, Env(m)), Env(m)), DefOrd(d, Env(m)), d.id.sz, d.id.bs)
      ty == d.id.ty
  IN IF d.id.m = "ctx" THEN Push(m, <<Task("fields", d, k, 1)>>)
     ELSE IF var.st = 1
     THEN Push(m, <<Task("ty", ty, cx, Get(Env(m), var.fields[1].n)), Task("fields", d, k, 2)>>)
     ELSE Push(m, <<Task("ty", ty, cx, var.wv), Task("fields", d, k, 1)>>)

WPad(m, e, ord) ==
  IF ~Has(e) THEN Done(m)
  ELSE LET n == Eval(e, Env(m), m.wr.cnt) IN
       IF n < 0 THEN Fail(m, "any") ELSE Put(m, Zeros(n), ord)

Encoded(f, env, off) ==
  CASE f.skip \in {"all", "write"} -> Has(f.cond) /\ ~True(f.cond, env, off)
    [] OTHER -> TRUE

WriteField(m, d, k, i) ==
  LET fs == Fields(d, k) IN
  IF i > Len(fs) THEN Done(m)
  ELSE LET f == fs[i]
       IN Push(m, <<Task("seek", f.sk, 0, 0), Task("magic", f.mg, 0, 0),
                    Task("pad", d, f, f.pb), Task("check", f, 0, 0), Task("fval", d, f, 0),
                    Task("pad", d, f, f.pa), Task("fields", d, k, i + 1)>>)

WriteValue(m, d, f) ==
  LET env == Env(m)
      off == m.wr.cnt
      hasTv == f.temp = 1 /\ Has(f.tv)
      tvv == NatVal(Eval(f.tv, env, off), f.ty.w)
      m0 == IF hasTv THEN Bind(m, f.n, tvv) ELSE m
  IN IF f.skip \in {"all", "write"} /\ ~Has(f.cond) THEN Done(m)
     ELSE IF ~Encoded(f, Env(m0), off) THEN Done(m0)
     ELSE IF f.temp = 1 /\ ~hasTv THEN Done(m0)
     ELSE LET v == Get(Env(m0), f.n) IN
          IF f.cu # ""
          THEN Push(m0, <<Task("ty", [k |-> "int", w |-> 8, sg |-> 0], DefaultCtx, Apply(Unapply(f.cu), v))>>)
          ELSE Push(m0, <<Task("ty", f.ty, FieldCtx(d, f, Env(m0), off), v)>>)

WMagic(m, mg) == IF mg = <<>> THEN Done(m) ELSE Put(m, StreamOf(mg, "msb"), "msb")

WriteStep(m) ==
  IF m.todo = <<>> THEN [m EXCEPT !.st = "ok"]
  ELSE LET t == Head(m.todo) IN
    CASE t.op = "ty"     -> WriteType(m, t.a, t.b, t.c)
      [] t.op = "each"   -> WriteEach(m, t.a, t.b, t.c.es, t.c.i)
      [] t.op = "seek"   -> SeekWrite(m, t.a)
      [] t.op = "magic"  -> WMagic(m, t.a)
      [] t.op = "id"     -> WriteId(m, t.a, t.b)
      [] t.op = "fields" -> WriteField(m, t.a, t.b, t.c)
      [] t.op = "pad"    -> WPad(m, t.c, Setting(t.b.ord, DefOrd(t.a, Env(m)), Env(m)))
      [] t.op = "check"  -> Check(m, t.a, "Assertion")
      [] t.op = "fval"   -> WriteValue(m, t.a, t.b)
      [] t.op = "end"    -> [Done(m) EXCEPT !.envs = Pop(m.envs)]

(*************************** update() and sizes ****************************)

\* the fields of a value as an environment
FieldNames(fs) == {fs[i].n : i \in 1..Len(fs)}
Index(fs, n) == CHOOSE i \in 1..Len(fs) : fs[i].n = n
KeptFields(fs) == SelectSeq(fs, LAMBDA f : f.temp = 0)
ValEnv(keep, vs) == [n \in FieldNames(keep) |-> vs[Index(keep, n)]]

\* does the natural number n fit the integer type?
NatFits(n, ty) == LET b == ty.w - ty.sg IN b > 30 \/ n < P2[b]

\* fields vs after the update expressions have been evaluated in order;
\* ok = 0 once a result does not fit its field
RECURSIVE UpdateFrom(_, _, _)
UpdateFrom(keep, vs, i) ==
  IF i > Len(keep) THEN [ok |-> 1, vs |-> vs]
  ELSE IF ~Has(keep[i].upd) THEN UpdateFrom(keep, vs, i + 1)
  ELSE LET n == Eval(keep[i].upd, ValEnv(keep, vs), 0) IN
       IF ~NatFits(n, keep[i].ty) THEN [ok |-> 0, vs |-> vs]
       ELSE UpdateFrom(keep, [vs EXCEPT ![i] = NatVal(n, keep[i].ty.w)], i + 1)
UpdateOf(name, v) ==
  LET d == Types[name] IN
  IF d.k = "enum"
  THEN LET r == UpdateFrom(KeptFields(d.vars[v.e].fields), v.f, 1) IN [ok |-> r.ok, v |-> [e |-> v.e, f |-> r.vs]]
  ELSE LET r == UpdateFrom(KeptFields(d.fields), v.s, 1) IN [ok |-> r.ok, v |-> [s |-> r.vs]]

\* SIZE_BITS.  Sizes in definitions that derive DekuSize are constants.
ConstOr(e, dflt) == IF Has(e) THEN Eval(e, EmptyEnv, 0) ELSE dflt
RECURSIVE SizeTy(_, _), SizeFields(_, _), SizeDef(_), SizeField(_)
SizeTy(ty, sz) ==
  CASE ty.k \in {"int", "bool", "nz"} -> IF sz >= 0 THEN sz ELSE ty.w
    [] ty.k = "unit" -> 0
    [] ty.k = "arr" -> ty.n * SizeTy(ty.e, sz)
    [] ty.k = "tup" -> LET RECURSIVE Sum(_)
                           Sum(i) == IF i > Len(ty.es) THEN 0 ELSE SizeTy(ty.es[i], sz) + Sum(i + 1)
                       IN Sum(1)
    [] ty.k \in {"wrap", "opt"} -> SizeTy(ty.e, sz)
    [] ty.k = "ref" -> SizeDef(Types[ty.id])
SizeField(f) ==
  IF f.temp = 1 /\ ~Has(f.tv) THEN 0 ELSE
  8 * Len(f.mg) + ConstOr(f.pb, 0) + ConstOr(f.pa, 0)
  + (IF f.skip = "all" /\ ~Has(f.cond) THEN 0                 \* never read nor written
     ELSE SizeTy(IF f.map # "" THEN f.mty ELSE f.ty, ConstOr(f.sz, -1)))
IdSize(d) == IF d.id.m = "ctx" THEN 0 ELSE SizeTy(d.id.ty, d.id.sz)   \* an id that is given is not stored
SizeFields(fs, i) == IF i > Len(fs) THEN 0 ELSE SizeField(fs[i]) + SizeFields(fs, i + 1)
SizeDef(d) ==
  8 * Len(d.mg) +
  (IF d.k = "enum"
   THEN LET sizes == {SizeFields(d.vars[k].fields, IF d.vars[k].st = 1 THEN 2 ELSE 1) : k \in 1..Len(d.vars)}
        IN IdSize(d) + (CHOOSE x \in sizes : \A y \in sizes : y <= x)
   ELSE SizeFields(d.fields, 1))
SizeBits(name) == SizeDef(Types[name])

\* the id encoding writes for a value (deku_id)
IdOf(name, v) ==
  LET d == Types[name]
      var == d.vars[v.e]
  IN IF var.st = 1 THEN v.f[1] ELSE var.wv

(******************************** Machine **********************************)

\* decode the type `name`, skipping `off` bits first (the offset of from_bytes)
ReadInit(name, off, flt) ==
  [mode |-> "r", st |-> "run", kf |-> 0, om |-> 0, ns |-> 0, last |-> "msb", flt |-> flt, rd |-> RdInit(0), wr |-> WrInit,
   vals |-> <<>>, envs |-> <<EmptyEnv>>,
   todo |-> <<Task("skip", off, 0, 0), Task("ty", [k |-> "ref", id |-> name, args |-> <<>>], DefaultCtx, 0)>>]

WriteInit(name, v) ==
  [mode |-> "w", st |-> "run", kf |-> 0, om |-> 0, ns |-> 0, last |-> "msb", flt |-> NoFault, rd |-> RdInit(0), wr |-> WrInit,
   vals |-> <<>>, envs |-> <<EmptyEnv>>,
   todo |-> <<Task("ty", [k |-> "ref", id |-> name, args |-> <<>>], DefaultCtx, v)>>]

Skip(m, src, n) ==
  LET s == SkipStatus(src, m.flt, m.rd, n)
  IN IF s # "ok" THEN Fail(m, s) ELSE [Done(m) EXCEPT !.rd = SkipNext(m.rd, n, "msb")]

Step(m, src) ==
  IF m.mode = "w" THEN WriteStep(m)
  ELSE IF m.todo # <<>> /\ Head(m.todo).op = "skip" THEN Skip(m, src, Head(m.todo).a)
  ELSE ReadStep(m, src)

\* Run until the machine stops.  (Up to 2^k steps at a time: TLC looks names
\* up along the chain of calls, which this keeps short.)
RECURSIVE RunSome(_, _, _), RunGrow(_, _, _)
RunSome(m, src, k) ==
  IF m.st # "run" THEN m
  ELSE IF k = 0 THEN Step(m, src)
  ELSE RunSome(RunSome(m, src, k - 1), src, k - 1)
RunGrow(m, src, k) == IF m.st # "run" THEN m ELSE RunGrow(RunSome(m, src, k), src, k + 2)
RunFrom(m, src) == RunGrow(m, src, 3)

DecodeAll(name, src) == RunFrom(ReadInit(name, 0, NoFault), src)
EncodeAll(name, v) == RunFrom(WriteInit(name, v), <<>>)

Result(m) == Top(m.vals)
OutBytes(m) == Finalize(m.wr).buf
===============================================================================
