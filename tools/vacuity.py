#!/usr/bin/env python3
"""Is the judge able to say no?  (by hand; not part of any check)

  vacuity.py            change the specification in one place at a time; recordings of the real code must stop conforming
  vacuity.py --corrupt  change one recorded fact per case; that case must be reported

Uses the recordings that `KEEP=1 check.py PROP` left behind (and makes them where they are missing)."""
import json, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
import check

E, R, W, K, B = "DekuEngine.tla", "DekuReader.tla", "DekuWriter.tla", "DekuCodec.tla", "DekuBits.tla"
# module, old text, new text, properties whose recordings must show it
MUTATIONS = [
    ("pads are ignored when reading", E, "ELSE IF s # \"ok\" THEN Fail(m, s) ELSE [Done(m) EXCEPT !.rd = SkipNext(m.rd, n, ord)]", "ELSE Done(m)", ["C12"]),
    ("pads write ones", E, "Put(m, Zeros(n), ord)", "Put(m, Fill(1, n), ord)", ["C12"]),
    ("a limit in bytes counts bits", E, "MinOf(Huge, x) * 8 ELSE x", "x ELSE x", ["C10"]),
    ("until stops before its element", E, "THEN PushVal(m, FinishColl(ty, c.acc))", "THEN PushVal(m, FinishColl(ty, IF lim.m = \"until\" THEN Pop(c.acc) ELSE c.acc))", ["C10"]),
    ("until looks one element back", E, "(\"_el\" :> c.acc[n]) @@ Env(m)", "(\"_el\" :> c.acc[1]) @@ Env(m)", ["C10"]),
    ("the first entry of a key wins", E, "\\A k \\in (j+1)..Len(acc)", "\\A k \\in 1..(j-1)", ["C10", "C21"]),
    ("the last matching variant is taken", E, "\\A j \\in hits : k <= j", "\\A j \\in hits : k >= j", ["C11"]),
    ("ranges exclude their end", E, "n >= p.lo /\\ n <= p.hi", "n >= p.lo /\\ n < p.hi", ["C11"]),
    ("unmatched ids are another error", E, "IF k = 0 THEN Fail(m, \"Parse\")", "IF k = 0 THEN Fail(m, \"InvalidParam\")", ["C11"]),
    ("the id ignores its own endianness", E, "cx == Ctx(Setting(d.id.en, DefEn(d, Env(m)), Env(m)), DefOrd(d, Env(m)), d.id.sz, d.id.bs)\n       IN", "cx == Ctx(DefEn(d, Env(m)), DefOrd(d, Env(m)), d.id.sz, d.id.bs)\n       IN", ["C11"]),
    ("magic is not compared", E, "# mg[1] THEN Fail(m, \"Parse\")", "# mg[1] /\\ FALSE THEN Fail(m, \"Parse\")", ["C13"]),
    ("magic in the order of the field", E, "ELSE Put(m, StreamOf(mg, \"msb\"), \"msb\")", "ELSE Put(m, StreamOf(mg, \"lsb\"), \"lsb\")", ["C13"]),
    ("asserts always hold", E, "THEN Fail(m, why) ELSE Done(m)", "THEN Done(m) ELSE Done(m)", ["C13"]),
    ("skip wins over its condition", E, "CASE f.skip \\in {\"all\", \"read\"} -> Has(f.cond) /\\ ~True(f.cond, env, off)", "CASE f.skip \\in {\"all\", \"read\"} -> FALSE", ["C14"]),
    ("a default is not evaluated", E, "ELSE NatVal(Eval(f.def, env, off), f.ty.w)", "ELSE DefaultOf(f.ty)", ["C14"]),
    ("map is not applied", E, "t.a.n, Apply(t.b, Top(m.vals)))", "t.a.n, Apply(IF t.b = \"inc\" THEN \"\" ELSE t.b, Top(m.vals)))", ["C14"]),
    ("temp fields keep being written", E, "ELSE IF f.temp = 1 /\\ ~hasTv THEN Done(m0)", "ELSE IF f.temp = 1 /\\ ~hasTv THEN Put(m, Zeros(8), \"msb\")", ["C14"]),
    ("fields ignore their own endianness", E, "Ctx(Setting(f.en, DefEn(d, env), env)", "Ctx(DefEn(d, env)", ["C15"]),
    ("fields ignore their own order", E, "Setting(f.ord, DefOrd(d, env), env),\n", "DefOrd(d, env),\n", ["C15"]),
    ("arguments are swapped", E, "ArgVal(as[i], env, cx, off)", "ArgVal(as[Len(as) + 1 - i], env, cx, off)", ["C15"]),
    ("seeks from the end start at the end minus one", E, "[] sk.m = \"end\" -> Len(src) + sx", "[] sk.m = \"end\" -> Len(src) - 1 + sx", ["C16"]),
    ("writer seeks are relative to the start", E, "[] sk.m = \"current\" -> w.pos + sx", "[] sk.m = \"current\" -> sx", ["C16"]),
    ("the size of an enum is that of its smallest variant", E, "\\A y \\in sizes : y <= x", "\\A y \\in sizes : y >= x", ["C17"]),
    ("sizes leave out magic", E, "  8 * Len(f.mg) + ConstOr", "  ConstOr", ["C17"]),
    ("updates see the values from before", E, "ELSE LET n == Eval(keep[i].upd, ValEnv(keep, vs), 0) IN", "ELSE LET n == Eval(keep[i].upd, ValEnv(keep, [vs EXCEPT ![1] = vs[1]]), 0) + 1 IN", ["C20"]),
    ("zero is a NonZero", E, "ELSE IF ty.k = \"nz\" /\\", "ELSE IF ty.k = \"nz\" /\\ FALSE /\\", ["C21"]),
    ("any byte is a bool", E, "NatOf(BytesOf(v)) > 1 THEN", "NatOf(BytesOf(v)) > 2 THEN", ["C21"]),
    ("strings may hold zeros", E, "/\\ \\A j \\in 1..(Len(v) - 1) : v[j].i # <<0>>", "", ["C21"]),
]

def recording(prop):
    w = os.path.join(HERE, "build", prop)
    t, ty = os.path.join(w, "trace-main.ndjson"), os.path.join(w, "types.json")
    if not (os.path.exists(t) and os.path.exists(ty)):
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop], env=dict(os.environ, KEEP="1"), stdout=subprocess.DEVNULL)
        if r.returncode: sys.exit("%s does not hold" % prop)
    return t, ty

def judged(prop, trace, types, spec):
    check.SPEC = spec
    work = os.path.join(HERE, "build", "vacuity"); os.makedirs(work, exist_ok=True)
    try: return len(check.judge(work, prop, trace, types)[1]), ""
    except check.CheckError as e: return -1, str(e)[-300:]

def mutate():
    spec = os.path.join(HERE, "build", "vacuity-spec"); weak = 0
    for name, mod, old, new, props in MUTATIONS:
        shutil.rmtree(spec, ignore_errors=True); shutil.copytree(os.path.join(HERE, "spec"), spec)
        p = os.path.join(spec, mod); s = open(p).read()
        if s.count(old) != 1: print("?? %-50s %d matches" % (name, s.count(old))); weak += 1; continue
        open(p, "w").write(s.replace(old, new))
        for prop in props:
            n, why = judged(prop, *recording(prop), spec)
            print("%s %-55s %s: %d cases" % ("ok" if n else "WEAK", name, prop, n), why, flush=True); weak += not n
    shutil.rmtree(spec)
    return weak

def corrupt(c, rnd):
    """change one fact; says which, or None"""
    places = []
    def walk(x, path, owner):
        if isinstance(x, dict):
            for k, v in x.items():
                if path == () and k in ("id", "op", "ty", "off", "src", "v", "gen", "ops"): continue
                if k == "st": places.append((x, k, "Assertion" if v != "Assertion" else "Parse", "status"))
                elif k == "n" and isinstance(v, int) and x.get("st") == "ok": places.append((x, k, v + 1, "amount"))
                elif k == "b" and x.get("st") == "ok" and v: places.append((x, k, v[:-1] + [v[-1] ^ 1], "bytes"))
                elif k == "i" and owner == "v": places.append((x, k, v[:-1] + [v[-1] ^ 1], "value"))
                else: walk(v, path + (k,), "v" if k == "v" else owner)
        elif isinstance(x, list):
            for v in x: walk(v, path, owner)
    walk(c, (), None)
    if not places: return None
    kind = rnd.choice(sorted({p[3] for p in places}))
    x, k, v, _ = rnd.choice([p for p in places if p[3] == kind])
    x[k] = v
    return kind

def corruption():
    rnd, bad = random.Random(1), 0
    for prop in ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C21"]:
        trace, types = recording(prop)
        kinds, out = {}, os.path.join(HERE, "build", "vacuity.ndjson")
        with open(out, "w") as f:
            for l in open(trace):
                c = json.loads(l); k = corrupt(c, rnd)
                if k: kinds[str(c["id"])] = (k, c["op"]); f.write(json.dumps(c) + "\n")
        check.SPEC = os.path.join(HERE, "spec")
        lines, b, known, _ = check.judge(os.path.join(HERE, "build", "vacuity") if os.makedirs(os.path.join(HERE, "build", "vacuity"), exist_ok=True) is None else "", prop, out, types)
        got = {x[0] for x in b}
        tot = {}
        for i, k in kinds.items():
            t = tot.setdefault(k, [0, 0, []]); t[0] += i in got; t[1] += 1
            if i not in got: t[2].append(i)
        for k, t in sorted(tot.items()):
            print("%s %-8s op %s: %d of %d reported" % (prop, *k, t[0], t[1]), t[2][:4], flush=True); bad += t[1] - t[0]
    return bad

if __name__ == "__main__":
    check.T0 = 0
    sys.exit(bool(corruption() if "--corrupt" in sys.argv else mutate()))
