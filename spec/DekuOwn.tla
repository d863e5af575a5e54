-------------------------------- MODULE DekuOwn --------------------------------
(***************************************************************************)
(* Ownership of what decoding builds.  A container is decoded from tokens: *)
(* a token is one byte, its content; content 0 cannot be decoded.  Every   *)
(* token built gets the next number.  Own(shape, src) says which tokens    *)
(* are built, which of them the returned value holds, and so which must    *)
(* have been dropped when decoding returns; Ledger follows a recorded      *)
(* history of builds and drops.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Tok == [k |-> "tok"]
Arr(m, e) == [k |-> "rep", n |-> m, e |-> e]        \* arrays, vectors with a count
All(e) == [k |-> "all", e |-> e]                    \* vectors up to the end
Until(c, e) == [k |-> "until", c |-> c, e |-> e]    \* vectors up to an element of content c
Set(m) == [k |-> "set", n |-> m]
Map(m) == [k |-> "map", n |-> m]
\* fields: shapes; no: content a field may not have (0: none); tmp: field not kept; if: content the first token needs for the field to be there
Fld(e, no, tmp, if) == [e |-> e, no |-> no, tmp |-> tmp, if |-> if]
F(e) == Fld(e, 0, FALSE, 0)
Str(fs) == [k |-> "str", fs |-> fs]
Enum(vs) == [k |-> "enum", vs |-> vs]               \* id 1..Len(vs)

Shapes == [
  tok  |-> Tok, boxed |-> Tok, arc |-> Tok, opt |-> Tok,
  a1   |-> Arr(1, Tok), a3 |-> Arr(3, Tok), a5 |-> Arr(5, Tok), a0 |-> Arr(0, Tok),
  a2a2 |-> Arr(2, Arr(2, Tok)), a3b |-> Arr(3, Tok), a2t |-> Arr(2, Str(<<F(Tok), F(Tok)>>)),
  v3   |-> Arr(3, Tok), vy3 |-> Arr(3, Tok), vall |-> All(Tok), vu |-> Until(2, Tok), va2 |-> Arr(2, Arr(2, Tok)),
  b3   |-> Arr(3, Tok), c3 |-> Arr(3, Tok), t3 |-> Str(<<F(Tok), F(Tok), F(Tok)>>),
  set3 |-> Set(3), map2 |-> Map(2), map3 |-> Map(3),
  sa   |-> Str(<<F(Tok), Fld(Tok, 2, FALSE, 0), F(Arr(2, Tok))>>),
  sm   |-> Str(<<F(Tok), F(Arr(2, Tok)), Fld(Tok, 3, FALSE, 0)>>),
  st   |-> Str(<<Fld(Tok, 0, TRUE, 0), F(Arr(2, Tok))>>),
  sc   |-> Str(<<F(Tok), Fld(Tok, 0, FALSE, 1), F(Arr(2, Tok))>>),
  sv   |-> Str(<<F(Arr(2, Tok)), F(Arr(2, Arr(2, Tok)))>>),
  en   |-> Enum(<<Str(<<F(Tok), F(Tok)>>), Str(<<F(Arr(2, Tok))>>), Str(<<F(Arr(2, Tok)), Fld(Tok, 2, FALSE, 0)>>)>>),
  a2en |-> Arr(2, Enum(<<Str(<<F(Tok), F(Tok)>>), Str(<<F(Arr(2, Tok))>>), Str(<<F(Arr(2, Tok)), Fld(Tok, 2, FALSE, 0)>>)>>))]

\* s: st, pos, made (contents of the tokens built, in order), held (numbers, in the order of the value)
RECURSIVE Read(_, _, _), Rep(_, _, _, _), Fields(_, _, _, _, _), ReadUntil(_, _, _, _), ReadAll(_, _, _), Keyed(_, _, _, _, _)
Fail(s, st) == [s EXCEPT !.st = st, !.held = <<>>]
Begin(s) == [s EXCEPT !.held = <<>>]
Join(s, t) == IF t.st = "ok" THEN [t EXCEPT !.held = s.held \o t.held] ELSE Fail(t, t.st)

Read(sh, src, s) ==
  CASE sh.k = "tok" ->
         IF s.pos >= Len(src) THEN Fail(s, "Incomplete")
         ELSE LET c == src[s.pos + 1]
                  t == [s EXCEPT !.pos = @ + 1]
              IN IF c = 0 THEN Fail(t, "Parse")
                 ELSE [t EXCEPT !.made = Append(@, c), !.held = <<Len(s.made) + 1>>]
    [] sh.k = "rep" -> Rep(sh.e, sh.n, src, Begin(s))
    [] sh.k = "all" -> ReadAll(sh.e, src, Begin(s))
    [] sh.k = "until" -> ReadUntil(sh.e, sh.c, src, Begin(s))
    [] sh.k = "set" -> Keyed(sh.n, FALSE, src, Begin(s), <<>>)
    [] sh.k = "map" -> Keyed(sh.n, TRUE, src, Begin(s), <<>>)
    [] sh.k = "str" -> Fields(sh.fs, 1, src, Begin(s), 0)
    [] sh.k = "enum" ->
         IF s.pos >= Len(src) THEN Fail(s, "Incomplete")
         ELSE LET c == src[s.pos + 1]
                  t == [Begin(s) EXCEPT !.pos = @ + 1]
              IN IF c \in 1..Len(sh.vs) THEN Read(sh.vs[c], src, t) ELSE Fail(t, "Parse")

Rep(e, n, src, s) == IF n = 0 \/ s.st # "ok" THEN s ELSE Rep(e, n - 1, src, Join(s, Read(e, src, s)))
ReadAll(e, src, s) == IF s.st # "ok" \/ s.pos >= Len(src) THEN s ELSE ReadAll(e, src, Join(s, Read(e, src, s)))
ReadUntil(e, c, src, s) ==
  LET t == Read(e, src, s)
      j == Join(s, t)
  IN IF t.st # "ok" \/ t.made[Len(t.made)] = c THEN j ELSE ReadUntil(e, c, src, j)
\* sets and maps: a repeated key is dropped, the value replaces the former one; keys: <<number, value's number>>
Keyed(n, pairs, src, s, kept) ==
  IF n = 0 THEN [s EXCEPT !.held = IF pairs THEN [i \in 1..2 * Len(kept) |-> kept[((i + 1) \div 2)][IF i % 2 = 1 THEN 1 ELSE 2]]
                                   ELSE [i \in 1..Len(kept) |-> kept[i][1]]]
  ELSE LET a == Read(Tok, src, s)
           b == IF pairs /\ a.st = "ok" THEN Read(Tok, src, a) ELSE a
       IN IF b.st # "ok" THEN Fail(b, b.st)
          ELSE LET ka == a.held[1]
                   vb == b.held[1]
                   same == {i \in 1..Len(kept) : b.made[kept[i][1]] = b.made[ka]}
               IN Keyed(n - 1, pairs, src, b,
                        IF same = {} THEN Append(kept, <<ka, vb>>)
                        ELSE [i \in 1..Len(kept) |-> IF i \in same THEN <<kept[i][1], vb>> ELSE kept[i]])
Fields(fs, i, src, s, first) ==
  IF i > Len(fs) \/ s.st # "ok" THEN s
  ELSE LET f == fs[i] IN
       IF f.if # 0 /\ first # f.if THEN Fields(fs, i + 1, src, s, first)
       ELSE LET t == Read(f.e, src, s)
                bad == t.st = "ok" /\ f.no # 0 /\ t.made[t.held[1]] = f.no
                j == IF bad THEN Fail(t, "Assertion") ELSE Join(s, t)
            IN Fields(fs, i + 1, src, IF f.tmp /\ j.st = "ok" THEN [j EXCEPT !.held = s.held] ELSE j,
                      IF i = 1 /\ t.st = "ok" /\ t.held # <<>> THEN t.made[t.held[1]] ELSE first)

Own(sh, src) == Read(sh, src, [st |-> "ok", pos |-> 0, made |-> <<>>, held |-> <<>>])
Elems(s) == {s[i] : i \in 1..Len(s)}
\* what must be alive on return
Alive(o) == IF o.st = "ok" THEN Elems(o.held) ELSE {}

(* A history: n > 0 builds token n, n < 0 drops token -n. *)
RECURSIVE Ledger(_, _, _)
Ledger(ev, i, l) ==
  IF i > Len(ev) \/ l.bad # "" THEN l
  ELSE LET n == ev[i] IN
       Ledger(ev, i + 1,
         IF n > 0 THEN (IF n # l.next THEN [l EXCEPT !.bad = "a token was built out of turn"]
                        ELSE [l EXCEPT !.next = @ + 1, !.live = @ \cup {n}])
         ELSE IF (0 - n) \in l.live THEN [l EXCEPT !.live = @ \ {0 - n}]
         ELSE IF (0 - n) \in 1..(l.next - 1) THEN [l EXCEPT !.bad = "a token was dropped twice"]
         ELSE [l EXCEPT !.bad = "something never built was dropped"])
NewLedger == [next |-> 1, live |-> {}, bad |-> ""]
===============================================================================
