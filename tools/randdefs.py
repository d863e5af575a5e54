"""Composed definitions: drawn from a grammar of everything deku's attributes can express.

The hand-written families (catalog.py) hold each feature in the situations one thinks of; these
hold features next to each other.  The draw is fixed: the same definitions whatever VERIF_SEED is
(seeds choose inputs and values), more of them in the thorough tier.
"""
import random
from dsl import *

MSB = ["", "", "msb", "lsb", "lsb"]

# what a family leans towards; every weight not given is the base one
BASE = dict(int=6, sized=6, bytes=2, vec=3, opt=1.5, arr=1, tup=1, box=.7, ref=1.5, enum=1, boolean=1, flt=.4, map=.5, set=.5, nz=.5,
            ip=.3, cstr=.4, unit=.3, temp=.6, skip=.7, cond=.7, mapf=.5, cu=.4,
            pad=.12, magic=.08, asr=.08, over=.12, seek=0, upd=0, dyn=.15, off=.05)
FAMS = dict(
    mix=dict(),
    ints=dict(int=8, sized=14, bytes=5, dyn=.25, vec=0, opt=0, ref=0, enum=0, map=0, set=0, cstr=0, temp=0, skip=0, cond=0, mapf=0, cu=0, unit=0, magic=0, asr=0, pad=.05, nz=0, ip=0),
    cont=dict(vec=14, map=1.5, set=1.5, sized=5, int=3),
    enum=dict(enum=5, sized=5),
    pad=dict(pad=.55, vec=2, opt=2.5, off=.2),
    magic=dict(magic=.4, asr=.4),
    cond=dict(opt=4, skip=3, cond=4, mapf=2, cu=1.5, temp=3, off=.2),
    ctx=dict(ref=7, enum=3, over=.4, arr=2, tup=2, box=2, opt=2),
    seek=dict(seek=.35),
    size=dict(),
    upd=dict(upd=.5, vec=5, temp=.2),
    wrap=dict(box=4, arr=4, tup=4, opt=3, map=2, set=2, nz=4, ip=2, cstr=2, boolean=2, unit=1, flt=1),
    cfg=dict(),
)

class Gen:
    def __init__(self, c, fam, i):
        self.c, self.fam = c, fam
        self.r = random.Random("deku %s %d" % (fam, i))
        self.p = dict(BASE, **FAMS[fam])
        self.name = "R%s%d" % (fam, i)
        self.k = 0                       # nested definitions so far
        self.const = fam == "size"       # constant sizes only
        self.nobits = fam == "cfg"
        self.tmpok = True

    def pick(self, xs): return self.r.choice(xs)
    def ch(self, p): return self.r.random() < p
    def w(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    # ------------------------------------------------------------- pieces --
    def int_ty(self, small=False):
        if small: return self.pick([U8, U8, U16])
        return self.pick([U8, U8, U8, U16, U16, U32, U64, I8, I16, I32, I64, U128, I128, USIZE])

    def num(self, env, top=None):
        """a small number: a constant or something made of an earlier field"""
        ns = [n for n, k in env if k == "n"]
        ls = [n for n, k in env if k == "v"]
        if self.const or not ns or self.ch(.35): return X(self.r.randint(0, top or 4))
        f = self.pick(ns)
        if ls and self.ch(.2): e = length(self.pick(ls))
        else: e = X(f)
        if top is not None: return op(self.pick(["mod"]), e, top + 1)
        c = self.r.random()
        if c < .55: return e
        if c < .7: return op("add", e, self.r.randint(1, 2))
        if c < .85: return op("sub", e, 1)
        return op("mod", e, self.r.randint(2, 5))

    def test(self, env):
        """a condition on earlier fields"""
        ns = [n for n, k in env if k == "n"]
        os = [n for n, k in env if k == "o"]
        ls = [n for n, k in env if k == "v"]
        if os and self.ch(.25): t = some(self.pick(os))
        elif ls and self.ch(.25): t = op(self.pick(["eq", "le"]), length(self.pick(ls)), self.r.randint(0, 2))
        elif ns:
            a = self.pick(ns)
            b = self.pick(ns) if self.ch(.2) else self.pick([0, 1, 2, 3])
            t = op(self.pick(["eq", "eq", "ne", "lt", "le"]), a, b)
        else: t = op("eq", 1, self.pick([0, 1]))
        if self.ch(.15): t = op("not", t)
        return t

    def magic(self):
        return bytes(self.pick([0, 1, 2, 3, 0x83, 0xff, 0x5c]) for _ in range(self.r.randint(1, 3)))

    def pads(self, kw, env):
        if not self.ch(self.p["pad"]): return
        for k in ("pbb", "pyb", "pba", "pya"):
            if k[1] == "b" and self.nobits: continue
            if not self.ch(.45): continue
            if not self.const and self.ch(.3): kw[k] = self.num(env, 11 if k[1] == "b" else 2)
            elif k[1] == "b": kw[k] = self.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 17, 70])
            else: kw[k] = self.pick([1, 2, 3, 9, 65, 130])

    # ------------------------------------------------------ a type in place --
    def elem_ty(self, en, o, depth, sized):
        """type of an element; sized: it must take a size in bits or bytes"""
        c = self.r.random()
        if sized: return self.pick([U8, U8, U16, U32, I8, I16, I32])
        if c < .35: return U8
        if c < .6: return self.int_ty()
        if c < .68: return TUP(*[self.int_ty(True) for _ in range(self.r.randint(1, 3))])
        if c < .75: return ARR(self.r.randint(1, 3), self.int_ty(True))
        if c < .8: return BOX(self.int_ty(True))
        if c < .84: return BOOL
        if depth < 2: return self.nested(en, o, depth + 1)
        return U16

    def nested(self, en, o, depth, kind=None):
        """a reference to a new definition fitting what the field passes; remembers the context it wants"""
        self.k += 1
        n = "%sn%d" % (self.name, self.k)
        ps = []
        if en: ps.append(("e%d" % self.k, "E"))
        if o: ps.append(("o%d" % self.k, "O"))
        nums = []
        if not self.const and self.ch(.35):
            for q in range(self.r.randint(1, 2)): nums.append(("q%d%d" % (self.k, q), self.pick(["u8", "usize", "u16"])))
        kind = kind or ("enum" if self.ch(self.p["enum"] / (self.p["enum"] + self.p["ref"] + .01)) else "struct")
        d = self.define(n, kind, depth, [p for p in ps], nums)
        t = REF(n)
        t["want"] = len(nums)
        return t

    def args(self, t, env):
        r = find_ref(t)
        if not r: return ()
        k = len([1 for p in self.c.defs[r].params if p[1] not in ("E", "O")])
        return [self.num(env, 5) for _ in range(k)]

    def limit(self, env, last, ety, eb):
        c = self.r.random()
        if last and c < .2: return ALL
        if c < .55: return COUNT(self.num(env))
        if c < .7: return BYTES(self.num(env))
        if c < .82 and not self.nobits:
            return BITS(op("mul", self.num(env, 4), eb)) if eb and self.ch(.6) else BITS(self.num(env))
        if ety["k"] == "int" and ety["w"] <= 64:
            rs = "|_el: &%s|" % ety["rt"]
            ns = [n for n, k in env if k == "n"]
            return UNTIL(op("eq", "_el", self.pick(ns) if ns and self.ch(.3) else self.pick([0, 0, 1])), rs)
        return COUNT(self.num(env, 3))

    # --------------------------------------------------------------- fields --
    def field(self, n, env, den, do, last, depth, order):
        kw = {}
        if self.ch(self.p["over"]): kw["en"] = self.pick(["big", "little"])
        if order and not self.nobits and self.ch(self.p["over"] / 3): kw["ord"] = self.pick(["msb", "lsb"])
        en, o = kw.get("en") or den, kw.get("ord") or do
        w = {k: v for k, v in self.p.items() if k not in ("pad", "magic", "asr", "over", "seek", "upd", "dyn", "off")}
        if self.const:
            for k in ("vec", "opt", "box", "map", "set", "nz", "ip", "cstr", "unit", "cond", "mapf", "cu"): w[k] = 0
        if en or o: w["cstr"] = 0
        if o: w["ip"] = w["nz"] = 0
        if depth >= 2: w["ref"] = w["enum"] = 0
        if self.nobits: w["sized"] = 0; w["bytes"] = 5; w["map"] = w["set"] = 0; w["cu"] = 0
        if not self.tmpok: w["temp"] = 0
        k = self.w(w)
        kind = "x"                    # what later expressions may do with it
        ty = U8
        small = False
        if k == "int":
            ty = self.int_ty(); small = ty in (U8, U16)
        elif k == "sized":
            ty = self.int_ty()
            ns = [x for x, y in env if y == "n"]
            if not self.const and ns and self.ch(self.p["dyn"]): kw["bits"] = self.num(env, min(ty["w"], 40))
            else: kw["bits"] = self.r.randint(1, ty["w"]) if self.ch(.6) else self.r.randint(1, min(ty["w"], 12))
            small = ty in (U8, U16)
        elif k == "bytes":
            ty = self.pick([U16, U32, U64, I32, I16, U128, USIZE, U8])
            if not self.const and self.ch(self.p["dyn"]) and any(y == "n" for x, y in env): kw["bytes"] = self.num(env, ty["w"] // 8)
            else: kw["bytes"] = self.r.randint(1, ty["w"] // 8)
        elif k == "boolean":
            ty = BOOL
            if not self.nobits and self.ch(.6): kw["bits"] = self.pick([1, 1, 2, 5, 8])
        elif k == "flt": ty = self.pick([F32, F64])
        elif k == "nz":
            ty = NZ(self.pick([8, 16, 32, 64]), self.pick([0, 1]))
            if not self.nobits and en and self.ch(.4): kw["bits"] = self.r.randint(1, ty["w"])
        elif k == "ip":
            ty = self.pick([IPV4, IPV6])
        elif k == "unit": ty = UNIT
        elif k == "cstr":
            ty = CSTR
            if self.ch(.3): kw["bytes"] = self.num(env, 3)
        elif k == "vec":
            sized = not self.nobits and self.ch(.35)
            ety = self.elem_ty(en, o, depth, sized)
            eb = ety.get("w") if ety["k"] in ("int",) else None
            if sized:
                if self.ch(.3): kw["bytes"] = self.r.randint(1, ety["w"] // 8); eb = 8 * kw["bytes"]
                else: kw["bits"] = self.r.randint(1, min(ety["w"], 20)); eb = kw["bits"]
            if self.nobits and ety["k"] == "int" and self.ch(.4): kw["bytes"] = self.r.randint(1, ety["w"] // 8)
            lim = self.limit(env, last, ety, eb)
            rt = None
            if self.ch(.1) and lim is not ALL: rt = self.pick(["Box<[%s]>", "std::sync::Arc<[%s]>"]) % ety["rt"]
            ty = VEC(ety, lim, rt=rt)
            kind = "v"
        elif k in ("map", "set"):
            ety = self.pick([U8, U16, U8])
            lim = self.pick([COUNT(self.num(env, 3)), COUNT(self.num(env)), BYTES(self.num(env, 4))])
            ty = MAP(U8, ety, lim) if k == "map" else SET(ety, lim)
            kind = "v" if k == "set" else "x"
            kind = "x"
        elif k == "arr":
            ety = self.pick([U8, U16, I16, U32, BOOL]) if depth >= 2 or self.ch(.6) else self.elem_ty(en, o, depth, False)
            if self.const and ety["k"] == "wrap": ety = U16
            ty = ARR(self.r.randint(0, 3), ety)
            if not self.nobits and self.ch(.4) and ety["k"] == "int": kw["bits"] = self.r.randint(1, ety["w"])
            elif ety["k"] == "int" and self.ch(.2): kw["bytes"] = self.r.randint(1, ety["w"] // 8)
        elif k == "tup":
            es = [self.pick([U8, U8, U16, I16, U32]) for _ in range(self.r.randint(1, 4))]
            ty = TUP(*es)
            if not self.nobits and self.ch(.35): kw["bits"] = self.r.randint(1, min(e["w"] for e in es))
        elif k == "box":
            ety = self.pick([U8, U16, I32, U64, BOOL]) if depth >= 2 or self.ch(.7) else self.nested(en, o, depth + 1)
            ty = self.pick([BOX, ARC, COW])(ety)
            if not self.nobits and ety["k"] == "int" and self.ch(.4): kw["bits"] = self.r.randint(1, ety["w"])
        elif k in ("ref", "enum"):
            ty = self.nested(en, o, depth + 1, "enum" if k == "enum" else "struct")
        elif k == "opt":
            c = self.r.random()
            if c < .6 or depth >= 2:
                ety = self.int_ty()
                if not self.nobits and self.ch(.5): kw["bits"] = self.r.randint(1, ety["w"])
            elif c < .8: ety = self.nested(en, o, depth + 1)
            else: ety = VEC(U8, COUNT(self.num(env, 3)))
            ty = OPT(ety)
            if self.ch(.85):
                if self.ch(self.p["off"] * 3) and not self.nobits: kw["cond"] = op("eq", op("mod", OFF, self.pick([2, 3, 8, 16])), self.pick([0, 1, 0]))
                elif self.ch(self.p["off"] * 2): kw["cond"] = op("eq", op("mod", BYTEOFF, self.pick([2, 3])), self.pick([0, 1, 0]))
                else: kw["cond"] = self.test(env)
            kind = "o"
        elif k == "cond":
            ty = self.pick([U8, U16, I16, BOOL, U32])
            kw["cond"] = self.test(env)
            if not self.nobits and ty["k"] == "int" and self.ch(.4): kw["bits"] = self.r.randint(1, ty["w"])
            if ty is not BOOL and self.ch(.6): kw["default"] = self.num(env, 9)
            small = ty in (U8, U16)
        elif k == "skip":
            ty = self.pick([U8, U16, U32, BOOL])
            kw["skip"] = "all" if self.const else self.pick(["all", "all", "read", "write"])
            if ty is not BOOL and self.ch(.6): kw["default"] = self.num(env, 9)
            if not self.const and self.ch(.35): kw["cond"] = self.test(env)
            small = ty in (U8, U16)
        elif k == "mapf":
            c = self.r.random()
            if c < .4: ty, kw["map"], kw["mty"] = U8, "inc", U8; small = True
            elif c < .6: ty, kw["map"], kw["mty"] = U16, "widen", U8; small = True
            elif c < .75: ty, kw["map"], kw["mty"] = BOOL, "isnz", U8
            else:
                v = VEC(U8, COUNT(self.num(env, 4)))
                if self.ch(.5): ty, kw["map"], kw["mty"] = U8, "vlen", v; small = True
                else: ty, kw["map"], kw["mty"] = v, "rev", v; kind = "v"
            if kw["map"] in ("widen",) and not self.nobits and self.ch(.4): kw["bits"] = self.r.randint(1, 8)
        elif k == "cu": ty = U8; kw["cu"] = "inc"; small = True
        elif k == "temp":
            ty = self.pick([U8, U8, U16])
            kw["temp"] = True
            if self.ch(.8): kw["tv"] = self.num(env) if any(True for _ in env) and self.ch(.5) else X(self.r.randint(0, 5))
            if not self.nobits and self.ch(.3): kw["bits"] = self.r.randint(3, 8)
            small = True
        if small: kind = "n"
        if k == "temp" and "tv" not in kw: kind = "x"                          # not there on writing
        elif k in ("skip", "cond", "temp"): kind = "n" if small else "x"
        if ty is BOOL and kind == "x" and k == "boolean": kind = "n"
        if "bytes" in kw and o and not en: kw["en"] = self.pick(["big", "little"])     # there is no (ByteSize, Order) context
        if k == "skip" and not kw.get("cond") and "default" not in kw: kind = "x"    # its type would not be inferred
        # attributes that go with anything
        if ty["k"] != "unit": self.pads(kw, env)
        if self.ch(self.p["magic"]): kw["mg"] = self.magic()
        if kind == "n" and k not in ("temp",) and ty is not BOOL and self.ch(self.p["asr"]):
            c = self.r.random()
            if c < .4: kw["as_"] = op(self.pick(["le", "ne", "lt"]), n, self.pick([1, 2, 3, 100, 200]))
            elif c < .7: kw["as_"] = self.test(env + [(n, "n")])
            else: kw["ae"] = self.num(env, 6)
        elif kind == "v" and self.ch(self.p["asr"]): kw["as_"] = op("le", length(n), self.r.randint(1, 3))
        if self.ch(self.p["seek"]): kw["sk"] = self.seek(env)
        kw["ctx"] = self.args(ty, env)
        env.append((n, kind))
        return F(n, ty, **kw)

    def seek(self, env):
        c = self.r.random()
        if c < .1: return ("rewind",)
        k = self.pick(["start", "current", "current", "end"])
        neg = 1 if k == "end" or (k == "current" and self.ch(.3)) else 0
        ns = [n for n, y in env if y == "n"]
        x = self.pick([n for n in ns]) if ns and self.ch(.4) else self.r.randint(0, 4 if k != "start" else 8)
        if isinstance(x, str): x = op("mod", x, 7)
        return (k, x, neg)

    def fields(self, n, env, den, do, depth, top):
        out = []
        order = True
        for i in range(n):
            out.append(self.field("%s%d" % ("f" if top else "g", i), env, den, do, top and i == n - 1, depth, order))
        self.lengths(out)
        if top and self.p["upd"] and not any(f.upd is not None for f in out):
            out.append(F("u", self.pick([U8, U16, I8, U32]), upd=self.num([(f.n, "v") for f in out if f.ty["k"] == "vec" and not f.temp] + [(f.n, "n") for f in out if f.ty in (U8, U16) and not f.temp])))
        return out

    def lengths(self, fs):
        """now and then: a temporary field holds the length of a later list; update expressions"""
        vs = [f for f in fs if f.ty["k"] == "vec"]
        for i, f in enumerate(fs):
            later = [v.n for v in fs[i + 1:] if v.ty["k"] == "vec" and not v.temp]
            if f.temp and f.tv is not None and later and self.ch(.6): f.tv = length(self.pick(later))
            if self.p["upd"] and f.ty["rt"][1:].isdigit() and f.ty["rt"][0] in "iu" and not f.temp and not f.skip and self.ch(self.p["upd"]):
                kept = [g for g in fs if not g.temp]
                vv = [g.n for g in kept if g.ty["k"] == "vec"]
                nn = [g.n for g in kept if g.ty in (U8, U16) and not g.temp]
                e = length(self.pick(vv)) if vv and self.ch(.6) else (X(self.pick(nn)) if nn else X(3))
                c = self.r.random()
                if c < .3: e = op("add", e, self.r.randint(1, 3))
                elif c < .5: e = op("mul", e, self.pick([2, 3, 100]))
                elif c < .6: e = op("sub", e, 1)
                f.upd = e

    # ---------------------------------------------------------- definitions --
    def define(self, n, kind, depth, eos, nums):
        """eos: endianness and order parameters; nums: number parameters"""
        r = self.r
        en = next((p[0] for p in eos if p[1] == "E"), None)
        o = next((p[0] for p in eos if p[1] == "O"), None)
        if en and self.ch(.15): en = self.pick(["big", "little"])           # a definition may ignore what it is given
        if o and self.ch(.15): o = self.pick(["msb", "lsb"])
        if not en and self.ch(.55): en = self.pick(["big", "little"])
        if not o and not self.nobits and depth == 0: o = self.pick(MSB) or None
        env = [(q[0], "n") for q in nums]
        top = depth == 0
        kw = dict(en=en, ord=o, params=eos + nums, size=self.const, sym=3)
        if self.ch(self.p["magic"]): kw["mg"] = self.magic()
        if top and self.ch(self.p["seek"] / 3): kw["sk"] = self.seek([])
        if kind == "struct":
            self.tmpok = True
            fs = self.fields(r.randint(2, 5) if top else r.randint(1, 3), env, en, o, depth, top)
            tup = not any(f.temp or f.cu or f.upd is not None for f in fs) and not nums and self.ch(.1)
            if tup and all(not uses_any(f) for f in fs): kw["tuple"] = True
            else: self.fill(fs, top)
            d = Def(n, fs, **kw)
        else:
            d = self.enumeration(n, depth, env, en, o, nums, kw)
        return self.c.add(d)

    def fill(self, fs, top):
        """often: fill the last byte"""
        if self.nobits or not top or not self.ch(.5): return
        tot = 0
        for f in fs:
            b = f.bits if isinstance(f.bits, int) else (8 * f.bytes if isinstance(f.bytes, int) else f.ty.get("w"))
            if f.ty["k"] not in ("int", "bool") or b is None: return
            for x in (f.pbb, f.pba):
                if x is not None and not isinstance(x, int): return
            tot += b + (f.pbb or 0) + (f.pba or 0)
            if f.skip or f.cond: return
        if tot % 8: fs.append(F("z", U8, bits=8 - tot % 8))

    def enumeration(self, n, depth, env, en, o, nums, kw):
        r = self.r
        ctxid = nums and not self.const and self.ch(.5)
        if ctxid:
            i = Id(ctx=nums[0][0], w={"u8": 8, "u16": 16, "usize": 64}[nums[0][1]])
            top, w, ty = 6, i.w, None
        else:
            ty = self.pick([U8, U8, U8, U16, U32, I8])
            k = {}
            w = ty["w"]
            if not self.nobits and not ty["sg"] and self.ch(.4): k["bits"] = r.randint(2, w)
            elif w > 8 and self.ch(.3): k["bytes"] = r.randint(1, w // 8)
            if "bytes" in k and o and not en or self.ch(.2) and w > 8: k["en"] = self.pick(["big", "little"])
            top = (1 << min(k.get("bits", 8 * k.get("bytes", 4)), w - ty["sg"], 16)) - 1
            i = Id(ty, **k)
        vals = list(dict.fromkeys([1, 2, 3, 0, top, top // 2, top - 1]))
        vals = [v for v in vals if 0 <= v <= top]
        r.shuffle(vals)
        vs = []
        nv = min(len(vals), r.randint(2, 4))
        dfl = False
        for j in range(nv):
            self.tmpok = False
            e2 = list(env)
            st = False
            pat = None
            if self.ch(.3) and not self.const:
                lo = r.randint(0, max(0, top - 1))
                pat = self.pick([RANGE(lo, min(top, lo + r.randint(1, 4))), ORPAT(*sorted({vals[j], min(top, 3)})), RANGE(lo, min(top, lo + 2))])
                if j == nv - 1 and self.ch(.3): pat = ANYPAT
                st = not ctxid
            fs = self.fields(r.randint(0, 2), e2, en, o, max(1, depth + 1), False)
            if st: fs = [F("id", ty)] + [f for f in fs]
            v = Var(fs, id=None if pat else vals[j], pat=pat, st=st)
            if not pat and not dfl and self.ch(.12): v.dfl = dfl = True
            if fs and j % 3 == 1 and not any(f.cu or uses_any(f) for f in fs): v.tuple = True
            vs.append(v)
        self.tmpok = True
        return Def(n, vars=vs, id=i, **kw)

def uses_any(f):
    """does a field mention others (tuple fields have other names)"""
    found = []
    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get("o"), str) and isinstance(x.get("n"), str): found.append(x["n"])
            for v in x.values(): walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x: walk(v)
    for k, v in f.__dict__.items(): walk(v)
    return bool(found)

N = dict(mix=(30, 160), ints=(24, 160), cont=(24, 160), enum=(24, 160), pad=(28, 160), magic=(20, 120), cond=(28, 160), ctx=(28, 160),
         seek=(20, 120), size=(24, 120), upd=(16, 100), wrap=(24, 120), cfg=(20, 100))

def build(c, tier):
    for fam, n in N.items():
        for i in range(n[tier == "thorough"]):
            g = Gen(c, fam, i)
            kind = "enum" if fam == "enum" or g.ch(.12) else "struct"
            if fam == "upd" and kind == "enum": kind = "struct"
            d = g.define(g.name, kind, 0, [], [])
            c.props.setdefault(fam, []).append(d.name)
