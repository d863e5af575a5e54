"""Definitions ("schemas"): one description, two renderings.

A definition is written once in this little language and rendered twice: as
the JSON the TLA+ engine interprets (constant Types of DekuEngine.tla) and as
the Rust type deku's derive macros are run on.
"""
import json, re

# ------------------------------------------------------------------ types --

def I(w, sg=0, rt=None):
    d = dict(k="int", w=w, sg=sg)
    d["rt"] = rt or (("i" if sg else "u") + str(w))
    return d

U8, U16, U32, U64, U128 = I(8), I(16), I(32), I(64), I(128)
I8, I16, I32, I64, I128 = I(8, 1), I(16, 1), I(32, 1), I(64, 1), I(128, 1)
USIZE, ISIZE = I(64, 0, "usize"), I(64, 1, "isize")
F32, F64 = I(32, 0, "f32"), I(64, 0, "f64")
BOOL = dict(k="bool", w=8, sg=0, rt="bool")
UNIT = dict(k="unit", rt="()")
IPV4, IPV6 = I(32, 0, "std::net::Ipv4Addr"), I(128, 0, "std::net::Ipv6Addr")

def NZ(w, sg=0):
    return dict(k="nz", w=w, sg=sg, rt="std::num::NonZero%s%d" % ("I" if sg else "U", w))

def VEC(e, lim=None, rt=None):
    return dict(k="vec", e=e, lim=lim, rt=rt or "Vec<%s>" % e["rt"])

def SET(e, lim):
    return dict(k="set", e=e, lim=lim, rt="std::collections::HashSet<%s>" % e["rt"])

def MAP(kt, e, lim):
    return dict(k="map", kt=kt, e=e, lim=lim, rt="std::collections::HashMap<%s, %s>" % (kt["rt"], e["rt"]))

def ARR(n, e):
    return dict(k="arr", n=n, e=e, rt="[%s; %d]" % (e["rt"], n))

def TUP(*es):
    return dict(k="tup", es=list(es), rt="(%s,)" % ", ".join(e["rt"] for e in es))

def OPT(e):
    return dict(k="opt", e=e, rt="Option<%s>" % e["rt"])

def BOX(e):
    return dict(k="wrap", e=e, rt="Box<%s>" % e["rt"])

def ARC(e):
    return dict(k="wrap", e=e, rt="std::sync::Arc<%s>" % e["rt"])

def COW(e):
    return dict(k="wrap", e=e, rt="std::borrow::Cow<'static, %s>" % e["rt"])

CSTR = dict(k="cstr", rt="std::ffi::CString")

def REF(name):
    return dict(k="ref", id=name, args=[], rt=name)

# ----------------------------------------------------------------- limits --

def COUNT(x): return dict(m="count", x=X(x))
def BITS(x): return dict(m="bits", x=X(x))
def BYTES(x): return dict(m="bytes", x=X(x))
def UNTIL(x, arg=None): return dict(m="until", x=x, arg=arg)
ALL = dict(m="all", x=dict(o=""))

# ------------------------------------------------------------ expressions --

NONE = dict(o="")

def X(x):
    """an expression; ints and field names are promoted"""
    if isinstance(x, dict):
        return x
    if isinstance(x, int):
        return dict(o="c", n=x)
    return dict(o="f", n=x)

def op(o, a, b=None):
    e = dict(o=o, a=X(a))
    if b is not None:
        e["b"] = X(b)
    return e

def eqb(name, b, rs): return dict(o="eqb", n=name, b=b, rs=rs)
def length(name): return dict(o="len", n=name)
def some(name): return dict(o="some", n=name)
def sf(name, k, acc): return dict(o="sf", n=name, k=k, acc=acc)
def sgn(name): return dict(o="sg", n=name)          # the value of a signed field; where deku itself converts it
OFF = dict(o="off")
BYTEOFF = dict(o="byteoff")

def rx(e, sc):
    """the expression as a Rust usize expression; sc: name -> 'ref'|'val'"""
    o = e["o"]
    if "rs" in e: return "((%s) as usize)" % e["rs"]
    if o == "sg": return "*" + e["n"]
    me = "self." if isinstance(sc, SelfScope) else ""
    def mine(n): return me + (re.sub(r"^field_(\d+)$", r"\1", n) if me else n)
    def name(n):
        if sc.get(n, "ref") == "self": return "(self.%s as usize)" % re.sub(r"^field_(\d+)$", r"\1", n)
        return {"ref": "(*%s as usize)", "val": "(%s as usize)"}[sc.get(n, "ref")] % n
    if o == "c": return "%dusize" % e["n"]
    if o == "f": return name(e["n"])
    if o == "sf": return "(%s.%s as usize)" % (mine(e["n"]), e["acc"])
    if o == "len": return "%s.len()" % mine(e["n"])
    if o == "some": return "(%s.is_some() as usize)" % mine(e["n"])
    if o == "off": return "(deku::bit_offset)"
    if o == "byteoff": return "(deku::byte_offset)"
    a = rx(e["a"], sc)
    if o == "not": return "(1usize - %s)" % a
    b = rx(e["b"], sc)
    return {
        "eq": "((%s == %s) as usize)", "ne": "((%s != %s) as usize)",
        "lt": "((%s < %s) as usize)", "le": "((%s <= %s) as usize)",
        "and": "(%s & %s)", "or": "(%s | %s)",
        "add": "%s.saturating_add(%s)", "sub": "%s.saturating_sub(%s)", "mul": "%s.saturating_mul(%s)",
        "mod": "(%s %% %s)", "band": "(%s & (%s - 1))",
    }[o] % (a, b)

def plain(e, sc):
    """natural spelling where deku converts to usize itself"""
    if e["o"] == "f" and sc.get(e["n"], "ref") == "ref":
        return e["n"]
    if e["o"] in ("f", "sg"):
        return e["n"]
    if e["o"] == "c":
        return str(e["n"])
    return rx(e, sc)

# ------------------------------------------------------------ definitions --

def setting(s):
    if s is None: return dict(m="", v="")
    if s in ("big", "little", "msb", "lsb"): return dict(m="lit", v=s)
    return dict(m="var", v=s)

class F:
    """a field"""
    def __init__(self, n, ty, en=None, ord=None, bits=None, bytes=None, pbb=None, pyb=None, pba=None, pya=None,
                 cond=None, skip="", default=None, map=None, mty=None, cu="", temp=False, tv=None, grt=None,
                 as_=None, ae=None, mg=b"", sk=None, ctx=(), upd=None, gen=None, dflt_rs=None, as_rs=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.ctx = [X(c) for c in ctx]

def pad(bits, byts):
    if bits is None and byts is None: return NONE
    if byts is None: return X(bits)
    m = op("mul", byts, 8)
    if bits is None:
        return X(byts * 8) if isinstance(byts, int) else m
    if isinstance(byts, int) and isinstance(bits, int):
        return X(bits + 8 * byts)
    return op("add", bits, m)

class Def:
    """a struct or enum; params: [(name, 'E'|'O'|rust int type)]"""
    def __init__(self, name, fields=None, vars=None, en=None, ord=None, params=(), dargs=None, mg=b"", sk=None,
                 id=None, tuple=False, unit=False, derive=(), pre="", size=False, sym=True, prop=(), mc=True, generic=None):
        # generic = (parameters, bounds, arguments): declared generic, used through an alias
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.k = "enum" if vars is not None else "struct"
        self.params = list(params)

class Var:
    """an enum variant. pat: int (id literal) | ("rs pattern", tla pattern) ; st: the first field stores the id"""
    def __init__(self, fields=(), id=None, pat=None, dfl=False, st=False, disc=None, tuple=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.fields = list(fields)
        # fields without names; deku calls them field_0, field_1 ...
        self.tuple = tuple or (st and len(self.fields) == 1)

def RANGE(lo, hi): return ("%d..=%d" % (lo, hi), dict(m="range", lo=lo, hi=hi))
ANYPAT = ("_", dict(m="any"))
def ORPAT(*ns): return (" | ".join(map(str, ns)), dict(m="in", s=list(ns)))

class Id:
    """how an enum's id is obtained"""
    def __init__(self, ty=None, bits=None, bytes=None, en=None, ctx=None, w=8, repr=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]

def byts(n, w):
    n &= (1 << w) - 1
    return list(n.to_bytes(w // 8, "big"))

class Catalog:
    def __init__(self):
        self.defs = {}
        self.order = []
        self.props = {}

    def add(self, d, *props):
        assert d.name not in self.defs, d.name
        self.defs[d.name] = d
        self.order.append(d)
        for p in props:
            self.props.setdefault(p, []).append(d.name)
        return d

    # ---------------------------------------------------------- the JSON --
    def ty_json(self, t, args):
        k = t["k"]
        r = dict(k=k)
        if k in ("int", "bool", "nz"):
            r.update(w=t["w"], sg=t["sg"])
        elif k in ("vec", "set", "map"):
            r["e"] = self.ty_json(t["e"], args)
            if k == "map": r["kt"] = self.ty_json(t["kt"], args)
            lim = t["lim"] or dict(m="all", x=NONE)
            r["lim"] = dict(m=lim["m"], x=strip(lim["x"]))
        elif k == "arr":
            r.update(n=t["n"], e=self.ty_json(t["e"], args))
        elif k == "tup":
            r["es"] = [self.ty_json(e, args) for e in t["es"]]
        elif k in ("opt", "wrap"):
            r["e"] = self.ty_json(t["e"], args)
        elif k == "ref":
            r.update(id=t["id"], args=args)
        return r

    def args_of(self, d, f):
        """what the field passes to nested types, in deku's order"""
        args = []
        if f.en or d.en: args.append(dict(o="en"))
        if f.ord or d.ord: args.append(dict(o="ord"))
        return args + [strip(c) for c in f.ctx]

    def check_refs(self, d, f, t):
        if t["k"] == "ref":
            want = self.defs[t["id"]].params
            have = ([1] if f.en or d.en else []), ([1] if f.ord or d.ord else [])
            n = len(have[0]) + len(have[1]) + len(f.ctx)
            ok = n == len(want) or (n == 0 and self.defs[t["id"]].dargs)
            if not ok:
                raise ValueError("%s.%s: %s wants %r" % (d.name, f.n, t["id"], want))
        for key in ("e", "kt"):
            if key in t and isinstance(t[key], dict): self.check_refs(d, f, t[key])
        for e in t.get("es", []): self.check_refs(d, f, e)

    def field_json(self, d, f):
        self.check_refs(d, f, f.ty)
        args = self.args_of(d, f)
        return dict(
            n=f.n, ty=self.ty_json(f.ty, args), en=setting(f.en), ord=setting(f.ord),
            sz=strip(X(f.bits)) if f.bits is not None else (strip(pad(None, f.bytes)) if f.bytes is not None else NONE),
            bs=1 if f.bytes is not None else 0,
            pb=strip(pad(f.pbb, f.pyb)), pa=strip(pad(f.pba, f.pya)),
            cond=strip(X(f.cond)) if f.cond is not None else NONE, skip=f.skip,
            **{"def": strip(X(f.default)) if f.default is not None else NONE},
            map=f.map or "", mty=self.ty_json(f.mty or f.ty, args), cu=f.cu, temp=1 if f.temp else 0,
            tv=strip(X(f.tv)) if f.tv is not None else NONE,
            **{"as": strip(X(f.as_)) if f.as_ is not None else NONE},
            ae=strip(X(f.ae)) if f.ae is not None else NONE,
            mg=list(f.mg), sk=seek_json(f.sk), upd=strip(X(f.upd)) if f.upd is not None else NONE)

    def def_json(self, d):
        fs = [f for n in self.closure([d.name]) for f in self.all_fields(self.defs[n])]
        ds = [self.defs[n] for n in self.closure([d.name])]
        unordered = any(has_kind(f.ty, ("map", "set")) for f in fs)
        r = dict(k=d.k, unord=1 if unordered else 0, sym=((4 if d.sym == 3 else 2) if unordered else 3 if d.sym == 3 else 1) if d.sym else 0,
                 all=1 if any(find_lim(t) and find_lim(t)["m"] == "all" for f in fs for t in (f.ty, f.mty) if t) else 0,
                 seeks=1 if any(f.sk for f in fs) or any(x.sk for x in ds) else 0,
                 hassize=1 if d.size else 0, nan=1 if any(has_rt(f.ty, ("f32", "f64")) for f in fs) else 0, nestenum=1 if any(x.k == "enum" for x in ds if x is not d) else 0, en=setting(d.en), ord=setting(d.ord), mg=list(d.mg), sk=seek_json(d.sk),
                 ps=[p[0] for p in d.params], dargs=[darg_json(x) for x in (d.dargs or [])])
        if d.k == "struct":
            r["fields"] = [self.field_json(d, f) for f in d.fields]
        else:
            i = d.id
            w = i.ty.get("w") if i.ty else i.w
            if i.ctx is not None:
                ids = [x.strip() for x in i.ctx.split(",")] if isinstance(i.ctx, str) else [i.ctx]
                r["id"] = dict(m="ctx", x=strip(X(ids[0])), xs=[strip(X(x)) for x in ids], ty=dict(k="int", w=i.w, sg=0), sz=-1, en=setting(None), bs=0)
            else:
                sz = i.bits if i.bits is not None else (8 * i.bytes if i.bytes is not None else -1)
                r["id"] = dict(m="type", x=NONE, xs=[], ty=self.ty_json(i.ty, []), sz=sz, en=setting(i.en), bs=1 if i.bytes is not None else 0)
            vs = []
            for v in d.vars:
                if isinstance(v.id, tuple): pat = dict(m="eqv", v=v.id[1])
                elif v.id is not None: pat = dict(m="eq", b=byts(v.id, w))
                elif v.pat is not None: pat = v.pat[1]
                elif v.disc is not None: pat = dict(m="eq", b=byts(v.disc, w))
                else: pat = dict(m="none")
                # the id encoding writes
                wv = pat["v"] if pat["m"] == "eqv" else dict(i=pat["b"] if pat["m"] == "eq" else byts(v.disc, w) if v.disc is not None else [])
                vs.append(dict(pat=pat, wv=wv, dfl=1 if v.dfl else 0, st=1 if v.st and i.ctx is None else 0,
                               disc=1 if v.id is None and v.disc is not None else 0,
                               fields=[self.field_json(d, f) for f in v.fields]))
            r["vars"] = vs
        return r

    def needs(self, name):
        """the features of deku a definition cannot be expressed without"""
        need = set()
        for n in self.closure([name]):
            d = self.defs[n]
            if d.ord or any(p[1] == "O" for p in d.params): need.add("bits")
            if d.k == "enum" and d.id.bits is not None: need.add("bits")
            for f in self.all_fields(d):
                if f.bits is not None or f.pbb is not None or f.pba is not None or f.ord: need.add("bits")
                if mentions(f.__dict__, "off"): need.add("bits")
                for t in walk_ty(f.ty) + walk_ty(f.mty):
                    if (t.get("lim") or {}).get("m") == "bits": need.add("bits")
                    if t["k"] in ("vec", "cstr", "wrap"): need.add("alloc")
                    if t["k"] in ("map", "set"): need |= {"std", "alloc"}
        return need

    def unordered(self, name):
        """does the definition hold a map or set with the standard (randomly seeded) hasher"""
        for n in self.closure([name]):
            for f in self.all_fields(self.defs[n]):
                for t in walk_ty(f.ty) + walk_ty(f.mty):
                    if t["k"] in ("map", "set") and "BuildHasherDefault" not in t.get("rt", ""): return True
        return False

    def closure(self, names):
        """names and every definition they refer to"""
        seen = []
        def visit(n):
            if n in seen: return
            d = self.defs[n]
            fs = d.fields if d.k == "struct" else [f for v in d.vars for f in v.fields]
            for f in fs: walk(f.ty); walk(f.mty)
            seen.append(n)
        def walk(t):
            if not t: return
            if t["k"] == "ref": visit(t["id"])
            for key in ("e", "kt"):
                if isinstance(t.get(key), dict): walk(t[key])
            for e in t.get("es", []): walk(e)
        for n in names: visit(n)
        return seen

    def types_json(self, names):
        return {n: self.def_json(self.defs[n]) for n in self.closure(names)}

    # --------------------------------------------- model-checking jobs --
    def alphabet(self, name):
        """byte values that matter to a definition"""
        out = []
        def put(b):
            if isinstance(b, int) and 0 <= b < 256 and b not in out: out.append(b)
        def walk(x):
            if isinstance(x, dict):
                if x.get("o") == "c": put(x["n"]); put(x["n"] + 1)
                for k in ("b", "mg", "i"):
                    if isinstance(x.get(k), list) and all(isinstance(y, int) for y in x[k]):
                        for y in x[k]: put(y)
                if x.get("m") == "range": put(x["lo"]); put(x["hi"]); put(x["hi"] + 1)
                if x.get("m") == "in":
                    for y in x["s"]: put(y)
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        base = [0, 1, 2, 0xff, 0x83, 0x5c]
        for b in base[:3]: put(b)
        for n in self.closure([name]): walk(self.def_json(self.defs[n]))
        for b in base: put(b)
        return out

    def job(self, name, budget, offs=(0,), maxlen=20):
        a = self.alphabet(name)
        best = (0, 0)
        for n in (3, 4, 5, 6, 8, len(a)):
            n = min(n, len(a))
            k = 1
            while n ** (k + 1) <= budget and k < 5: k += 1
            if n ** k <= budget and (k >= 2 or n == len(a)): best = max(best, (k if k < 3 else 3, n, k))
        n, k = (best[1], best[2]) if len(best) == 3 else (min(len(a), budget), 1)
        a = a[:n] if n >= len(a) else a[:n - 1] + [0x83 if 0x83 not in a[:n - 1] else 0xff]
        return dict(ty=name, alpha=a, k=k, max=maxlen, offs=list(offs))

    # ---------------------------------------------------------- the Rust --
    def rust(self, names, features=()):
        out = []
        for n in self.closure(names):
            out.append(self.def_rust(self.defs[n]))
        regs = []
        for n in names:
            d = self.defs[n]
            extra = ""
            if d.size: extra += ", size: (<%s as DekuSize>::SIZE_BITS, <%s as DekuSize>::SIZE_BYTES)" % (n, n)
            if d.k == "enum" and d.id.ctx is None and not d.generic:
                extra += (", id: |v| { let i: %s = DekuEnumExt::deku_id(v)?; let mut o = String::new(); "
                          "rt::Tree::tree(&i, &mut o); Ok(o) }" % d.id.ty["rt"])
            if self.has_update(d): extra += ", update: |v| v.update()"
            regs.append('    v.push(rt::op!(%s, "%s"%s));' % (n, n, extra))
        return "\n".join(out) + "\npub fn all() -> Vec<Box<dyn rt::Ops>> {\n    let mut v = Vec::new();\n" + \
            "\n".join(regs) + "\n    v\n}\n"

    def all_fields(self, d):
        return d.fields if d.k == "struct" else [f for v in d.vars for f in v.fields]

    def has_update(self, d):
        return any(f.upd is not None for f in self.all_fields(d))

    def field_attrs(self, d, f, sc):
        a = []
        def kv(k, v): a.append('%s = "%s"' % (k, v))
        if f.en: kv("endian", f.en)
        if f.ord: kv("bit_order", f.ord)
        for k, v in (("bits", f.bits), ("bytes", f.bytes)):
            if v is not None: a.append(numeral(k, v, v + len(f.n + d.name))) if isinstance(v, int) else kv(k, rx(X(v), sc))
        for k, v in (("pad_bits_before", f.pbb), ("pad_bytes_before", f.pyb), ("pad_bits_after", f.pba), ("pad_bytes_after", f.pya)):
            if v is not None: kv(k, rx(X(v), sc) if not isinstance(v, int) else str(v))
        if f.cond is not None: kv("cond", "%s == 1" % rx(X(f.cond), sc))
        if f.skip == "all": a.append("skip")
        elif f.skip: a.append("skip(%s)" % f.skip)
        if f.default is not None:
            v = rx(X(f.default), sc)
            if f.dflt_rs: v = f.dflt_rs
            elif f.ty["k"] == "opt": v = "Some((%s) as %s)" % (v, f.ty["e"]["rt"])
            elif f.ty["k"] == "bool": v = "(%s) == 1" % v
            else: v = "(%s) as %s" % (v, f.ty["rt"])
            kv("default", v)
        if f.map: kv("map", MAPS[f.map](f.mty, f.ty))
        if f.cu:
            kv("reader", "cu_read_%s(deku::reader)" % f.cu)
            kv("writer", "cu_write_%s(deku::writer, %s)" % (f.cu, f.n))
        if f.temp: a.append("temp")
        if f.tv is not None: kv("temp_value", "(%s) as %s" % (rx(X(f.tv), sc), f.ty["rt"]))
        if f.as_ is not None: kv("assert", "%s == 1" % rx(X(f.as_), sc))
        if f.ae is not None: kv("assert_eq", "(%s) as %s" % (rx(X(f.ae), sc), f.ty["rt"]))
        if f.mg: a.append("magic = %s" % rust_bytes(f.mg))
        if f.sk: a.append(seek_rust(f.sk, sc))
        if f.ctx: kv("ctx", self.ctx_rust(f, sc))
        if f.upd is not None: kv("update", rx(X(f.upd), SelfScope() if d.k == "struct" else sc))
        lim = find_lim(f.mty or f.ty)
        if lim:
            m = lim["m"]
            if m in ("count", "bits", "bytes"):
                kv({"count": "count", "bits": "bits_read", "bytes": "bytes_read"}[m], plain(lim["x"], sc))
            elif m == "until": kv("until", "%s (%s) == 1" % (lim["arg"], rx(lim["x"], sc)))
            else: a.append("read_all")
        return a

    def ctx_rust(self, f, sc):
        """context arguments, each in the type the nested definition asks for"""
        r = find_ref(f.ty)
        ps = [p for p in self.defs[r].params if p[1] not in ("E", "O")] if r else []
        out = []
        for i, c in enumerate(f.ctx):
            t = ps[i][1] if i < len(ps) else "usize"
            out.append(rx(c, sc) if t == "usize" else "(%s as %s)" % (rx(c, sc), t))
        return ", ".join(out)

    def def_rust(self, d):
        o = []
        sc = {p[0]: "val" for p in d.params}
        temp = any(f.temp for f in self.all_fields(d))
        derives = ["Debug", "Clone", "PartialEq"] + list(d.derive)
        dk = ["DekuRead", "DekuWrite"] + (["DekuSize"] if d.size else [])
        if temp:
            if d.size: o.append("#[derive(DekuSize)]")        # before the attribute macro removes the temp fields
            o.append("#[deku_derive(DekuRead, DekuWrite)]")
            o.append("#[derive(%s)]" % ", ".join(derives))
        else:
            o.append("#[derive(%s)]" % ", ".join(derives + dk))
        a = []
        if d.k == "enum":
            i = d.id
            if i.repr: o.append("#[repr(%s)]" % i.ty["rt"])
            if i.ctx is not None: a.append('id = "%s"' % (i.ctx if isinstance(i.ctx, str) else "%s as u%d" % (rx(i.ctx, sc), i.w)))
            else: a.append('id_type = "%s"' % i.ty["rt"])
            if i.bits is not None: a.append(numeral("bits", i.bits, len(d.name)))
            if i.bytes is not None: a.append(numeral("bytes", i.bytes, len(d.name)))
            if i.en: a.append('id_endian = "%s"' % i.en)
        if d.en: a.append('endian = "%s"' % d.en)
        if d.ord: a.append('bit_order = "%s"' % d.ord)
        if d.params: a.append('ctx = "%s"' % ", ".join("%s: %s" % (n, PTYPES.get(t, t)) for n, t in d.params))
        if d.dargs: a.append('ctx_default = "%s"' % ", ".join(darg_rust(x) for x in d.dargs))
        if d.mg: a.append("magic = %s" % rust_bytes(d.mg))
        if d.sk: a.append(seek_rust(d.sk, sc))
        if a: o.append("#[deku(%s)]" % ", ".join(a))
        if d.pre: o.append(d.pre)
        head, bounds = d.name, ""
        if d.generic: head, bounds = "%s_<%s>" % (d.name, d.generic[0]), " where " + d.generic[1]
        if d.k == "struct":
            fs = d.fields
            if d.unit: o.append("pub struct %s;" % head)
            elif d.tuple:
                body = ", ".join("%spub %s" % (attrs(self.field_attrs(d, f, sc)), f.grt or f.ty["rt"]) for f in fs)
                o.append("pub struct %s(%s)%s;" % (head, body, bounds))
            else:
                o.append("pub struct %s%s {" % (head, bounds))
                for f in fs: o.append("    %spub %s: %s," % (attrs(self.field_attrs(d, f, sc)), f.n, f.grt or f.ty["rt"]))
                o.append("}")
        else:
            o.append("pub enum %s%s {" % (head, bounds))
            for j, v in enumerate(d.vars):
                va = []
                if v.id is not None: va.append(self.id_attr(v.id, j + len(d.name)))
                if v.pat is not None: va.append('id_pat = "%s"' % v.pat[0])
                if v.dfl: va.append("default")
                line = "    " + attrs(va) + "V%d" % j
                if v.fields:
                    if v.tuple:
                        line += "(%s)" % ", ".join(attrs(self.field_attrs(d, f, sc)) + (f.grt or f.ty["rt"]) for f in v.fields)
                    else:
                        line += " { " + ", ".join("%s%s: %s" % (attrs(self.field_attrs(d, f, sc)), f.n, f.grt or f.ty["rt"]) for f in v.fields) + " }"
                if v.disc is not None: line += " = %d" % v.disc
                o.append(line + ",")
            o.append("}")
        if d.generic: o.append("pub type %s = %s_<%s>;" % (d.name, d.name, d.generic[2]))
        o.append(self.tree_rust(d))
        return "\n".join(o)

    def id_attr(self, i, alt=0):
        if isinstance(i, tuple): return ("id = %s" if i[0].startswith('b"') else 'id = "%s"') % i[0]
        if isinstance(i, bool): return "id = %s" % str(i).lower()
        return "id = %d" % i if i >= 0 and alt % 3 else 'id = "%d"' % i

    def gen_rust(self, d, fs):
        """let-bindings generating the kept fields, with lengths made consistent most of the time"""
        o = []
        kept = [f for f in fs if not f.temp]
        for f in kept:
            h = "rt::ANY"
            if isinstance(f.bits, int): h = "rt::Hint::bits(%d)" % f.bits
            elif isinstance(f.bytes, int) and f.ty["k"] != "cstr": h = "rt::Hint::bits(%d)" % (8 * f.bytes)
            elif f.ty["rt"] == "std::net::IpAddr": h = "rt::Hint::bits(%d)" % f.ty["w"]
            lim = find_lim(f.ty)
            if lim and lim["x"].get("o") == "c":
                eb = self.fixed_bits(d, f, elem(f.ty))
                n = lim["x"]["n"]
                c = None
                if lim["m"] == "count": c = n
                elif lim["m"] == "bytes" and eb: c = 8 * n // eb
                elif lim["m"] == "bits" and eb: c = n // eb
                if c is not None: h = "rt::Hint { len: %d, ..%s }" % (c, h)
            o.append("let mut %s: %s = rt::Tree::gen(r, %s);" % (f.n, f.ty["rt"], h))
        names = {f.n: f for f in kept}
        for f in kept:
            lim = find_lim(f.ty)
            if lim and lim["x"].get("o") == "f" and lim["x"]["n"] in names and not f.map:
                t = names[lim["x"]["n"]]
                if t.ty["k"] != "int": continue
                tgt = None
                eb = self.fixed_bits(d, f, elem(f.ty))
                ln = ("%s.as_ref().map_or(0, |v| v.len())" if f.ty["k"] == "opt" else "%s.len()") % f.n
                if lim["m"] == "count": tgt = ln
                elif lim["m"] == "bytes" and eb and eb % 8 == 0: tgt = "%s * %d" % (ln, eb // 8)
                elif lim["m"] == "bits" and eb: tgt = "%s * %d" % (ln, eb)
                if tgt: o.append("if r.chance(9, 10) { %s = (%s) as %s; }" % (t.n, tgt, t.ty["rt"]))
            if f.gen: o.append("if r.chance(7, 8) { %s = %s; }" % (f.n, f.gen))
            if f.ae is not None and f.ty["k"] == "int" and uses(X(f.ae)) <= set(names) and not uses_off(X(f.ae)):
                sc = {n: "val" for n in names}
                o.append("if r.chance(7, 8) { %s = (%s) as %s; }" % (f.n, rx(X(f.ae), sc), f.ty["rt"]))
            if f.cond is not None and f.ty["k"] == "opt" and not f.skip and uses(X(f.cond)) <= set(names) and not uses_off(X(f.cond)):
                sc = {n: "val" for n in names}
                o.append("if r.chance(9, 10) { if %s == 1 { if %s.is_none() { %s = Some(rt::Tree::gen(r, rt::ANY)); } } else { %s = None; } }"
                         % (rx(X(f.cond), sc), f.n, f.n, f.n))
        return o, kept

    def fixed_bits(self, d, f, t):
        if t is None: return None
        if isinstance(f.bits, int): return f.bits
        if isinstance(f.bytes, int): return 8 * f.bytes
        if t["k"] in ("int", "bool", "nz"): return t["w"]
        return None

    def tree_rust(self, d):
        n = d.name
        o = ["impl rt::Tree for %s {" % n, "    fn tree(&self, o: &mut String) {"]
        def emit(fs, pre):
            s = []
            for i, f in enumerate(fs):
                if i: s.append("o.push(',');")
                s.append("rt::Tree::tree(%s%s, o);" % (pre, f))
            return " ".join(s)
        if d.k == "struct":
            kept = [f for f in d.fields if not f.temp]
            acc = [str(i) if d.tuple else f.n for i, f in enumerate(kept)]
            o.append("        o.push_str(\"{\\\"s\\\":[\"); %s o.push_str(\"]}\");" % emit(acc, "&self."))
        else:
            o.append("        match self {")
            for j, v in enumerate(d.vars):
                kept = [f.n for f in v.fields if not f.temp]
                if v.tuple and v.fields: p = "(%s)" % ", ".join(kept)
                else: p = " { %s }" % ", ".join(kept) if v.fields else ""
                o.append("            %s::V%d%s => { o.push_str(\"{\\\"e\\\":%d,\\\"f\\\":[\"); %s o.push_str(\"]}\"); }"
                         % (n, j, p, j + 1, emit(kept, "")))
            o.append("        }")
        o.append("    }")
        o.append("    #[allow(unused_mut, unused_variables)]\n    fn gen(r: &mut rt::Rng, _: rt::Hint) -> Self {")
        if d.k == "struct":
            lets, kept = self.gen_rust(d, d.fields)
            o += ["        " + x for x in lets]
            o.append("        %s" % (("%s(%s)" if d.tuple else "%s { %s }") % (n, ", ".join(f.n for f in kept))))
        else:
            o.append("        match r.below(%d) {" % len(d.vars))
            for j, v in enumerate(d.vars):
                lets, kept = self.gen_rust(d, v.fields)
                if v.st and v.fields:
                    idt = v.fields[0]
                    if v.pat[1]["m"] == "range":
                        lo, hi = v.pat[1]["lo"], v.pat[1]["hi"]
                        lets.append("if r.chance(7, 8) { %s = (%d + r.below(%d)) as %s; }" % (idt.n, lo, hi - lo + 1, idt.ty["rt"]))
                    elif v.pat[1]["m"] == "in":
                        lets.append("if r.chance(7, 8) { %s = [%s][r.below(%d)]; }" % (idt.n, ", ".join(map(str, v.pat[1]["s"])), len(v.pat[1]["s"])))
                if v.tuple and v.fields: p = "(%s)" % ", ".join(f.n for f in kept)
                else: p = " { %s }" % ", ".join(f.n for f in kept) if v.fields else ""
                o.append("            %s => { %s %s::V%d%s }" % (j if j + 1 < len(d.vars) else "_", " ".join(lets), n, j, p))
            o.append("        }")
        o.append("    }\n}")
        return "\n".join(o)

def mentions(x, o):
    if isinstance(x, dict): return x.get("o") == o or any(mentions(v, o) for v in x.values())
    if isinstance(x, (list, tuple)): return any(mentions(v, o) for v in x)
    return False

def walk_ty(t):
    if not t: return []
    r = [t]
    for k in ("e", "kt"):
        if isinstance(t.get(k), dict): r += walk_ty(t[k])
    for e in t.get("es", []): r += walk_ty(e)
    return r

def strip(e):
    """the expression without its Rust-only parts"""
    return {k: (strip(v) if isinstance(v, dict) else v) for k, v in e.items() if k not in ("rs", "acc")}

def uses(e):
    r = set()
    if "n" in e and isinstance(e["n"], str): r.add(e["n"])
    for k in ("a", "b"):
        if isinstance(e.get(k), dict): r |= uses(e[k])
    return r

def uses_off(e):
    return e.get("o") in ("off", "byteoff") or any(isinstance(e.get(k), dict) and uses_off(e[k]) for k in ("a", "b"))

class SelfScope(dict):
    """update expressions of structs go through self"""
    def get(self, n, dflt=None): return "self"

def seek_json(sk):
    if not sk: return dict(m="", x=NONE, neg=0)
    m, x, neg = (tuple(sk) + (0, 0))[:3]
    return dict(m=m, x=strip(X(x)), neg=1 if neg == 1 else 0)

def seek_rust(sk, sc):
    m, x, neg = (tuple(sk) + (0, 0))[:3]
    if m == "rewind": return "seek_rewind"
    k = {"start": "seek_from_start", "current": "seek_from_current", "end": "seek_from_end"}[m]
    e = X(x)
    if e["o"] == "c":
        v = e["n"]
        return '%s = "%s%d"' % (k, "-" if neg else "", v)
    if neg == "raw": return '%s = "*%s"' % (k, e["n"])             # left to deku's own conversion
    t = "u64" if m == "start" else "i64"
    if t == "i64": return '%s = "%s((%s).min(i64::MAX as usize) as i64)"' % (k, "-" if neg else "", rx(e, sc))
    return '%s = "%s(%s as %s)"' % (k, "-" if neg else "", rx(e, sc), t)

def darg_json(x):
    if x in ("big", "little"): return dict(o="lit", v=x)
    if x in ("msb", "lsb"): return dict(o="lit", v=x)
    return X(x)

def darg_rust(x):
    return {"big": "deku::ctx::Endian::Big", "little": "deku::ctx::Endian::Little",
            "msb": "deku::ctx::Order::Msb0", "lsb": "deku::ctx::Order::Lsb0"}.get(x, str(x)) if isinstance(x, str) else str(x)

PTYPES = {"E": "deku::ctx::Endian", "O": "deku::ctx::Order"}

def rust_bytes(b):
    return 'b"' + "".join("\\x%02x" % c for c in b) + '"'

def numeral(k, v, alt):
    """deku takes numbers as they are and in quotes"""
    return '%s = "%d"' % (k, v) if alt % 3 == 0 else "%s = %d" % (k, v)

def attrs(a):
    return "#[deku(%s)] " % ", ".join(a) if a else ""

def find_lim(t):
    if t["k"] in ("vec", "set", "map"): return t["lim"]
    if t["k"] in ("opt", "wrap"): return find_lim(t["e"])
    return None

def find_ref(t):
    if t["k"] == "ref": return t["id"]
    for k in ("e", "kt"):
        if isinstance(t.get(k), dict) and find_ref(t[k]): return find_ref(t[k])
    for e in t.get("es", []):
        if find_ref(e): return find_ref(e)

def has_kind(t, ks):
    return (t["k"] in ks or any(has_kind(t[k], ks) for k in ("e", "kt") if isinstance(t.get(k), dict))
            or any(has_kind(e, ks) for e in t.get("es", [])))

def has_rt(t, rs):
    return (t.get("rt") in rs or any(has_rt(t[k], rs) for k in ("e", "kt") if isinstance(t.get(k), dict))
            or any(has_rt(e, rs) for e in t.get("es", [])))

def elem(t):
    if t["k"] in ("vec", "set"): return t["e"]
    if t["k"] in ("opt", "wrap"): return elem(t["e"])
    return None

INTO = {
    "std::net::IpAddr": lambda m: "|v: %s| -> Result<_, DekuError> { Ok(%s.into()) }" % (m["rt"], "std::net::Ipv4Addr::from(v)" if m["w"] == 32 else "std::net::Ipv6Addr::from(v)"),
    "&'static [u16]": lambda m: "|v: Vec<u16>| -> Result<&'static [u16], DekuError> { Ok(Box::leak(v.into_boxed_slice())) }",
}

MAPS = {
    "same": lambda m, t: INTO[t["rt"]](m),
    "inc": lambda m, t: "|v: %s| -> Result<_, DekuError> { Ok(v.wrapping_add(1)) }" % m["rt"],
    "dec": lambda m, t: "|v: %s| -> Result<_, DekuError> { Ok(v.wrapping_sub(1)) }" % m["rt"],
    "widen": lambda m, t: "|v: %s| -> Result<_, DekuError> { Ok(v as %s) }" % (m["rt"], t["rt"]),
    "isnz": lambda m, t: "|v: %s| -> Result<_, DekuError> { Ok(v != 0) }" % m["rt"],
    "vlen": lambda m, t: "|v: %s| -> Result<_, DekuError> { Ok(v.len() as u8) }" % m["rt"],
    "rev": lambda m, t: "|mut v: %s| -> Result<_, DekuError> { v.reverse(); Ok(v) }" % m["rt"],
}

PRELUDE = '''// generated by tools/dsl.py
#![allow(dead_code, unused_imports, non_snake_case, clippy::all)]
use deku::prelude::*;
use deku::ctx::*;
use deku::no_std_io::{Read, Seek, Write};

pub fn cu_read_inc<R: Read + Seek>(reader: &mut deku::reader::Reader<R>) -> Result<u8, DekuError> {
    Ok(u8::from_reader_with_ctx(reader, ())?.wrapping_add(1))
}
pub fn cu_write_inc<W: Write + Seek>(writer: &mut Writer<W>, v: &u8) -> Result<(), DekuError> {
    v.wrapping_sub(1).to_writer(writer, ())
}
'''
