"""The families of definitions each property is checked on."""
from dsl import *
import randdefs

def build(tier="quick", composed=True):
    c = Catalog()
    for f in (mix, positions, ints, containers, enums, padding, magic, conds, ctxs, seeks, sizes, hostile, updates, wrappers, config): f(c)
    if composed: randdefs.build(c, tier)
    return c

def mix(c):
    """small definitions covering every feature once; shared by the entry-point, schedule, fault and truncation checks"""
    add = c.add
    add(Def("M1", [F("f0", U8, bits=3), F("f1", U16, bits=11, en="big"), F("f2", U8, bits=2)]), "mix")
    add(Def("M2", [F("f0", U16), F("f1", U32), F("f2", U8)], en="big"), "mix")
    add(Def("M3", [F("f0", U8), F("f1", VEC(U16, COUNT("f0")))], en="big"), "mix")
    add(Def("M4", [F("f0", U8), F("f1", VEC(U8, COUNT("f0"))), F("f2", U16)]), "mix")
    add(Def("M5", [F("f0", U8), F("f1", VEC(U8, ALL))]), "mix")
    add(Def("M6", [F("f0", VEC(U8, UNTIL(eqb("_el", [0], "*v == 0"), "|v: &u8|"))), F("f1", U16)]), "mix")
    add(Def("M7", [F("f0", U8), F("f1", VEC(U16, BYTES("f0"))), F("f2", U8)]), "mix")
    add(Def("M8", [F("f0", U8, bits=5), F("f1", VEC(U8, BITS("f0")), bits=3)], en="big"), "mix")
    add(Def("M9", [F("f0", U8, mg=b"\x01"), F("f1", U16, pyb=1, pya=2), F("f2", U8, pbb=3, bits=5)], mg=b"\x02\x03"), "mix")
    add(Def("MIn", [F("f0", U8, bits="p0"), F("f1", U8)], params=[("p0", "usize")]))
    add(Def("M10", [F("f0", U8, bits=4, as_=op("le", "f0", 8)), F("f1", REF("MIn"), ctx=["f0"])]), "mix")
    add(Def("M11", vars=[Var(id=1), Var([F("f0", U16)], id=2), Var([F("f0", U8), F("f1", U8, bits=4)], id=3),
                         Var([F("f0", U8), F("f1", U8)], pat=RANGE(4, 9), st=True), ], id=Id(U8)), "mix")
    add(Def("M12", [F("f0", U8, temp=True, tv=length("f1")), F("f1", VEC(U8, COUNT("f0")))]), "mix")
    add(Def("M13", [F("f0", U8), F("f1", OPT(U16), cond=op("eq", "f0", 1), en="big"), F("f2", U8, skip="all", default=7)]), "mix")
    add(Def("M14", [F("f0", BOOL, bits=1), F("f1", I16, bits=7, en="big"), F("f2", TUP(U8, U16)), F("f3", ARR(2, U8)), F("f4", CSTR)]), "mix")
    add(Def("M15", [F("f0", U8), F("f1", MAP(U8, U16, COUNT("f0"))), F("f2", SET(U8, COUNT(2)))]), "mix")

# --------------------------------------------------------------- positions --

def positions(c):
    """how far a decode has come, after lists that run to the end of input (where a byte is taken to probe for it), and
    as expressions see it"""
    add = c.add
    p = "pos"
    add(Def("OIn", [F("a", U8), F("b", U8, bits=4), F("c", U8, bits=4)]))
    add(Def("OEn", vars=[Var([F("a", U16, en="big")], id=1), Var(id=2), Var([F("id", U8), F("a", VEC(U8, COUNT(2)))], pat=RANGE(3, 255), st=True)], id=Id(U8)))
    add(Def("OEb", vars=[Var([F("a", U8, bits=6)], id=1), Var([F("a", U16, bits=14, en="big")], id=2)], id=Id(U8, bits=2)))
    add(Def("OMg", [F("a", U8)], mg=b"\x01\x02"))
    add(Def("OPad", [F("a", U8, pyb=1, pya=2)]))
    add(Def("OSk", [F("a", U8, sk=("current", 1, 0))]))
    es = [("Y3", U32, dict(bytes=3, en="big")), ("Y3l", U32, dict(bytes=3, en="little", ord="lsb")), ("Y1", U16, dict(bytes=1, en="little")), ("B12", U16, dict(bits=12, en="big")), ("B9", U16, dict(bits=9, en="little")),
          ("B24", U32, dict(bits=24, en="big")), ("W", U32, dict(en="little")), ("Wl", U16, dict(ord="lsb")), ("Bool", BOOL, {}), ("Bb", BOOL, dict(bits=4)), ("Tup", TUP(U8, U16), dict(en="big")),
          ("Arr", ARR(3, U8), {}), ("Arr2", ARR(2, U16), dict(bits=12, en="big")), ("In", REF("OIn"), {}), ("En", REF("OEn"), {}), ("Eb", REF("OEb"), {}), ("Mg", REF("OMg"), {}),
          ("Pad", REF("OPad"), {}), ("Sk", REF("OSk"), {}), ("Cs", CSTR, {}), ("Cs2", CSTR, dict(bytes=2)), ("Bx", BOX(U16), dict(en="big")), ("F", F32, dict(en="big")), ("Ip", IPV4, {}), ("Nz", NZ(16), dict(en="big")),
          ("Ar0", ARR(2, U8), dict(bytes=1))]
    for i, (n, t, kw) in enumerate(es):
        lead = [None, 4, 8, 3, 12][i % 5]
        if n in ("Cs2", "Bb", "B12"): lead = None
        fs = ([F("f0", U16, bits=lead)] if lead else []) + [F("f1", VEC(t, ALL), **kw)]
        add(Def("O" + n + "a", fs, sym=False if n == "Sk" else 3), p)
    add(Def("Oset", [F("f0", SET(U16, ALL), bytes=1, en="big")], sym=3), p)
    add(Def("Omap", [F("f0", U8, bits=4), F("f1", MAP(U8, U16, ALL), bits=12, en="big")], sym=3), p)
    # a list to the end of input inside another definition; what follows it finds nothing
    add(Def("OAll", [F("a", U8), F("b", VEC(U16, ALL), bytes=2, en="big")]))
    add(Def("O1", [F("f0", U8), F("f1", REF("OAll")), F("f2", VEC(U8, ALL)), F("f3", VEC(U8, COUNT(0)))]), p)
    # where expressions think they are
    at = lambda e, m, v: op("eq", op("mod", e, m), v)
    add(Def("O2", [F("f0", U8, bits=3), F("f1", OPT(U8), bits=5, cond=at(OFF, 8, 3)), F("f2", OPT(U8), cond=at(BYTEOFF, 2, 1)), F("f3", OPT(U8), cond=at(OFF, 16, 0))], sym=False), p)
    add(Def("O3", [F("f0", U8), F("f1", VEC(U8, COUNT("f0"))), F("f2", OPT(U8), cond=at(BYTEOFF, 3, 0)), F("f3", OPT(U16), cond=at(OFF, 16, 8), pyb=1)], sym=False), p)
    add(Def("O4", [F("f0", U8, mg=b"\x01"), F("f1", OPT(U8), pyb=1, cond=at(BYTEOFF, 4, 3)), F("f2", OPT(U8), pbb=3, bits=5, cond=at(OFF, 8, 3))], mg=b"\x02", sym=False), p)
    add(Def("O5", vars=[Var([F("a", OPT(U8), cond=at(OFF, 8, 0)), F("b", OPT(U8), cond=at(BYTEOFF, 2, 1))], id=1), Var([F("a", U8, bits=4), F("b", OPT(U8), bits=4, cond=at(OFF, 8, 4))], id=2)], id=Id(U8), sym=False), p)
    add(Def("O6", [F("f0", U8, sk=("current", 1, 0)), F("f1", OPT(U8), cond=at(BYTEOFF, 2, 1)), F("f2", OPT(U8), cond=at(OFF, 16, 0))], sym=False), p)
    add(Def("O7In", [F("a", OPT(U8), cond=at(BYTEOFF, 2, 1)), F("b", U8)]))
    add(Def("O7", [F("f0", U8), F("f1", REF("O7In")), F("f2", REF("O7In")), F("f3", VEC(REF("O7In"), COUNT(2)))], sym=False), p)
    add(Def("O8", [F("f0", U8, bits=4), F("f1", VEC(REF("OEb"), COUNT(2))), F("f2", U8, bits=4), F("f3", OPT(U8), cond=at(OFF, 24, 0))], sym=False), p)
    add(Def("O9", [F("f0", CSTR), F("f1", OPT(U8), cond=at(BYTEOFF, 2, 0)), F("f2", OPT(U8), pbb=4, bits=4, cond=at(OFF, 8, 4))], sym=False), p)
    # in every attribute that takes an expression, on both sides
    add(Def("O10", [F("f0", U8, bits=4), F("f1", U8, bits=4, ae=op("mod", OFF, 16)), F("f2", VEC(U8, BYTES(op("mod", BYTEOFF, 3)))), F("f3", U8, as_=op("le", BYTEOFF, "f3")), F("z", U8, as_=op("ne", "z", OFF))], sym=False), p)
    add(Def("O11", [F("f0", U8), F("f1", VEC(U8, BITS(op("mul", BYTEOFF, 8)))), F("f2", VEC(U8, UNTIL(op("eq", "_el", BYTEOFF), "|_el: &u8|")), pyb=1), F("z", U8)], sym=False), p)
    add(Def("O12", [F("f0", U8, mg=b"\x07"), F("f1", U8, skip="all", default=BYTEOFF), F("f2", U8, bits=3), F("f3", U8, cond=op("eq", "f2", 1), default=op("mod", OFF, 256)), F("f4", U8, skip="read", default=OFF), F("z", U8, bits=5)], sym=False), p)
    add(Def("O13In", [F("a", U8), F("b", VEC(U8, COUNT(op("mod", "q", 4))))], params=[("q", "u8")]))
    add(Def("O13", [F("f0", U8), F("f1", REF("O13In"), ctx=[BYTEOFF]), F("f2", REF("O13In"), ctx=[op("mod", OFF, 19)], pya=1), F("f3", REF("O13In"), ctx=[op("add", BYTEOFF, 1)], pyb=1), F("z", U8)], sym=False), p)
    add(Def("O14", vars=[Var([F("field_0", U8, bits=4), F("field_1", U8, ae=op("mod", OFF, 256), pbb=4), F("field_2", VEC(U8, BYTES(op("mod", BYTEOFF, 4))))], id=1, tuple=True),
                         Var([F("a", REF("O13In"), ctx=[BYTEOFF], mg=b"\x03"), F("b", U8, as_=op("le", BYTEOFF, "b"))], id=2)], id=Id(U16, en="big"), sym=False), p)
    add(Def("O15", [F("f0", REF("O14")), F("f1", U8, as_=op("le", BYTEOFF, "f1"), sk=("current", 1)), F("f2", REF("O13In"), ctx=[BYTEOFF])], sym=False), p)

# ---------------------------------------------------------------- integers --

INTS = [("u8", U8), ("i8", I8), ("u16", U16), ("i16", I16), ("u32", U32), ("i32", I32), ("u64", U64), ("i64", I64),
        ("u128", U128), ("i128", I128), ("us", USIZE), ("is", ISIZE)]

def ints(c):
    """integers of every type and many sizes behind a leading field that shifts them off the byte grid"""
    add = c.add
    combos = [("big", "msb"), ("little", "msb"), ("big", "lsb"), ("little", "lsb")]
    k = 0
    for i, (nm, t) in enumerate(INTS):
        w = t["w"]
        sizes = sorted({1, w // 2 + 1, w - 1, w, max(1, w // 2 - 3)})
        for j, sz in enumerate(sizes):
            if (i + j) % 2 and sz not in (w - 1,): continue
            en, o = combos[k % 4]
            lead = (3 * k + 1) % 8
            fs = ([F("f0", U8, bits=lead)] if lead else []) + [F("f1", t, bits=sz) if sz != w or k % 3 else F("f1", t)]
            tail = 8 - (lead + sz) % 8
            fs.append(F("f2", U8, bits=tail))
            add(Def("I%s_%d" % (nm, sz), fs, en=en, ord=o), "ints")
            k += 1
        # sizes in bytes, constant and from the data (out-of-range sizes included)
        en, o = combos[(i + 1) % 4]
        nb = max(1, w // 16 + (1 if w > 16 else 0))
        add(Def("Iy%s" % nm, [F("f0", U8, bits=4), F("f1", t, bytes=nb), F("f2", U8, bits=4)], en=en, ord=o), "ints")
        en, o = combos[(i + 2) % 4]
        add(Def("Ie%s" % nm, [F("f0", U8), F("f1", t, bits="f0")] if i % 2 else [F("f0", U8), F("f1", t, bytes="f0")],
                en=en, ord=o if i % 2 == 0 else "msb", sym=False), "ints")
    add(Def("If32", [F("f0", U8, bits=5), F("f1", F32, en="big"), F("f2", F64, en="little"), F("f3", U8, bits=3)]), "ints")
    add(Def("If32l", [F("f1", F32, en="little"), F("f2", F64, en="big")], ord="lsb"), "ints")
    add(Def("Ibool", [F("f0", BOOL, bits=1), F("f1", BOOL, bits=3), F("f2", BOOL), F("f3", BOOL, bytes=1), F("f4", U8, bits=4)]), "ints")
    add(Def("Ibooll", [F("f0", BOOL, bits=2), F("f1", BOOL), F("f4", U8, bits=6)], ord="lsb"), "ints")
    add(Def("Iswitch", [F("f0", U8, bits=3, ord="msb"), F("f1", U8, bits=5, ord="msb"), F("f2", U16, bits=12, ord="lsb", en="little"),
                        F("f3", U8, bits=4, ord="lsb"), F("f4", U32, bits=24, ord="msb", en="big")]), "ints")

# -------------------------------------------------------------- containers --

def containers(c):
    """every limit with every kind of element, on and off the byte grid, always followed by another field"""
    add = c.add
    p = "cont"
    T = F("z", U8)
    add(Def("CE", [F("a", U8), F("b", U16, bits=4)], en="big"), )
    add(Def("CEn", [F("a", U16), F("b", U8)], en="e0", params=[("e0", "E")]))
    add(Def("CEc", [F("a", U8), F("b", U8, cond=op("eq", "q", 1), default=9)], params=[("q", "u8")]))
    add(Def("CEv", vars=[Var(id=1), Var([F("a", U8)], id=2)], id=Id(U8)))
    # u8: the fast paths
    add(Def("C1", [F("f0", U8), F("f1", VEC(U8, COUNT("f0"))), T]), p)
    add(Def("C2", [F("f0", U8, bits=3), F("f1", VEC(U8, COUNT("f0"))), F("z", U8, bits=5)]), p)
    add(Def("C3", [F("f0", U8, bits=3), F("f1", VEC(U8, COUNT("f0"))), F("z", U8, bits=5)], ord="lsb"), p)
    add(Def("C4", [F("f1", VEC(U8, COUNT(300))), T]), p)
    # beyond the chunks and preallocations of the code
    add(Def("C4a", [F("f1", VEC(U8, COUNT(1027))), T], mc=False), p)
    add(Def("C4b", [F("a", U8, bits=4), F("f1", VEC(U8, COUNT(2050))), F("z", U8, bits=4)], mc=False), p)
    add(Def("C4c", [F("a", U8), F("f1", VEC(U32, BYTES(4112))), T], mc=False, en="big"), p)
    add(Def("C4d", [F("a", U8), F("f1", VEC(REF("CE"), COUNT(1100))), T], mc=False), p)
    add(Def("C5", [F("f0", U8, bits=4), F("f1", VEC(U8, BYTES(3))), F("z", U8, bits=4)]), p)
    add(Def("C6", [F("f0", U8), F("f1", VEC(U8, BITS("f0"))), T]), p)
    add(Def("C7", [F("f0", U8, bits=2), F("f1", VEC(U8, UNTIL(op("eq", "_el", "f0"), "|_el: &u8|"))), F("z", U8, bits=6)]), p)
    add(Def("C8", [F("f0", U8, bits=4), F("f1", VEC(U8, ALL))]), p)
    add(Def("C9", [F("f0", U8), F("f1", VEC(U8, COUNT("f0")), bits=3), F("z", U8)], en="big"), p)
    # wider elements, endianness, sizes
    add(Def("C10", [F("f0", U8), F("f1", VEC(U16, COUNT("f0")), en="big"), T]), p)
    add(Def("C11", [F("f0", U8), F("f1", VEC(U16, COUNT("f0"))), F("f2", U16)], en="big"), p)
    add(Def("C12", [F("f0", U8), F("f1", VEC(U32, BYTES("f0")), bytes=3, en="little"), T]), p)
    add(Def("C13", [F("f0", U8), F("f1", VEC(U16, BITS("f0")), bits=9, en="big"), T]), p)
    add(Def("C14", [F("f0", U8, bits=4), F("f1", VEC(I16, COUNT("f0")), bits=11, en="little"), F("z", U8, bits=5)], ord="lsb"), p)
    add(Def("C15", [F("f0", U8, bits=1), F("f1", VEC(BOOL, COUNT(5)), bits=1), F("z", U8, bits=2)]), p)
    add(Def("C16", [F("f0", U8), F("f1", VEC(U16, UNTIL(op("eq", "_el", 0), "|_el: &u16|")), en="big"), F("f2", U16)]), p)
    add(Def("C17", [F("f0", U8), F("f1", VEC(U16, ALL), en="big")]), p)
    add(Def("C18", [F("f1", VEC(U8, ALL), bits=4)]), p)
    # elements that are types of their own
    add(Def("C19", [F("f0", U8), F("f1", VEC(REF("CE"), COUNT("f0"))), T]), p)
    add(Def("C20", [F("f0", U8), F("f1", VEC(REF("CEn"), COUNT("f0"))), T], en="big"), p)
    add(Def("C21", [F("f0", U8), F("f1", VEC(REF("CEc"), BYTES("f0")), ctx=["f0"]), T], sym=False), p)
    add(Def("C22", [F("f0", U8), F("f1", VEC(REF("CEv"), UNTIL(dict(o="eq", a=dict(o="vid", n="_el"), b=X(1), rs="matches!(_el, CEv::V0)"), "|_el: &CEv|"))), T]), p)
    add(Def("C23", [F("f1", VEC(REF("CEv"), ALL))]), p)
    add(Def("C24", [F("f0", U8), F("f1", VEC(TUP(U8, U16), COUNT("f0")), en="big"), T]), p)
    add(Def("C25", [F("f0", U8), F("f1", VEC(ARR(2, U8), BITS("f0"))), T]), p)
    add(Def("C26", [F("f0", U8), F("f1", VEC(REF("CE"), UNTIL(op("eq", sf("_el", 1, "a"), "f0"), "|_el: &CE|"))), T]), p)
    add(Def("C27", [F("f0", U8, bits=4), F("f1", VEC(REF("CE"), BITS(24))), F("z", U8, bits=4)], ), p)
    # nested containers, smart-pointer slices, options
    add(Def("C28", [F("f0", U8), F("f1", VEC(REF("C1"), COUNT("f0"))), T]), p)
    add(Def("C29", [F("f0", U8), F("f1", VEC(U16, COUNT("f0"), rt="Box<[u16]>"), en="big"), T]), p)
    add(Def("C30", [F("f0", U8), F("f1", VEC(U8, BYTES("f0"), rt="Box<[u8]>")), T]), p)
    add(Def("C31", [F("f0", U8), F("f1", VEC(U16, COUNT("f0"), rt="std::sync::Arc<[u16]>")), T], en="big"), p)
    add(Def("C32", [F("f0", U8), F("f1", OPT(VEC(U8, COUNT("f0")))), T]), p)
    add(Def("C33", [F("f0", U8), F("f1", BOX(VEC(U16, COUNT("f0"))), en="big"), T]), p)
    # limits that are expressions, context values, or sums
    add(Def("C34", [F("f0", U8), F("f1", VEC(U8, COUNT(op("add", "f0", 1)))), F("f2", VEC(U8, COUNT(op("sub", "f0", 1)))), T]), p)
    add(Def("C35", [F("f0", U8), F("f1", VEC(U16, BYTES(op("mul", "f0", 2)))), T], en="big"), p)
    add(Def("Cctx", [F("f1", VEC(U8, COUNT("q"))), F("f2", VEC(U8, BYTES("r")))], params=[("q", "u8"), ("r", "usize")]))
    add(Def("C36", [F("f0", U8), F("f1", REF("Cctx"), ctx=["f0", op("add", "f0", 1)]), T]), p)
    add(Def("C37", [F("f0", U16, en="big"), F("f1", VEC(U8, COUNT("f0"))), T]), p)
    # hash collections
    add(Def("C38", [F("f0", U8), F("f1", MAP(U8, U16, COUNT("f0")), en="big"), T]), p)
    add(Def("C39", [F("f0", U8), F("f1", MAP(U8, U8, BYTES("f0"))), T]), p)
    add(Def("C40", [F("f0", U8, bits=4), F("f1", MAP(U8, U8, BITS(16)), bits=4), F("z", U8, bits=4)]), p)
    add(Def("C40b", [F("f0", U8), F("f1", MAP(U8, U8, BITS("f0"))), T]), p)
    add(Def("C40c", [F("f0", U8), F("f1", SET(U16, BITS("f0")), bits=12), F("z", U8, bits=4)], en="big"), p)
    add(Def("C40d", [F("f0", U8), F("f1", SET(U16, BYTES("f0"))), T]), p)
    add(Def("C40e", [F("f0", U8), F("f1", MAP(U8, U16, BYTES("f0")), bits=10), F("z", U8, bits=4)], en="big"), p)
    add(Def("C41", [F("f1", MAP(U8, U8, ALL))]), p)
    add(Def("C42", [F("f0", U8), F("f1", SET(U16, COUNT("f0")), en="big"), T]), p)
    add(Def("C43", [F("f0", U8), F("f1", SET(U8, BYTES("f0"))), T]), p)
    add(Def("C44", [F("f0", U8), F("f1", SET(U8, UNTIL(op("eq", "_el", "f0"), "|_el: &u8|"))), T]), p)
    add(Def("C45", [F("f1", SET(U8, ALL))]), p)
    add(Def("C46", [F("f0", U8), F("f1", SET(U16, BITS("f0")), bits=5), F("z", U8)]), p)
    add(Def("C47", [F("f0", U8), F("f1", MAP(U8, REF("CEn"), COUNT("f0")), ), T]), ) if 0 else None
    # padding inside and around
    add(Def("CP", [F("a", U8, pba=4), F("b", U8, pyb=1)]))
    add(Def("C48", [F("f0", U8), F("f1", VEC(REF("CP"), BITS("f0"))), T]), p)
    add(Def("C49", [F("f0", U8), F("f1", VEC(REF("CP"), COUNT("f0")), pyb=1, pba=3), F("z", U8, bits=5)]), p)
    # variant fields
    add(Def("C50", vars=[Var([F("a", U8), F("b", VEC(U16, COUNT("a")))], id=1), Var([F("a", VEC(U8, UNTIL(op("eq", "_el", 0), "|_el: &u8|")))], id=2),
                         Var([F("a", VEC(U8, ALL))], id=3)], id=Id(U8), en="big"), p)
    # maps that end with an entry
    add(Def("C51", [F("f0", U8), F("f1", MAP(U8, U8, UNTIL(op("eq", sf("_el", 1, "0"), "f0"), "|_el: &(u8, u8)|"))), T]), p)
    add(Def("C52", [F("f0", U8), F("f1", MAP(U8, U16, UNTIL(op("eq", sf("_el", 2, "1"), "f0"), "|_el: &(u8, u16)|")), bits=7), F("z", U8, bits=2)], en="big"), p)
    # fields without names
    add(Def("C53", vars=[Var([F("field_0", U8), F("field_1", VEC(U16, COUNT("field_0"))), F("field_2", U8)], id=1, tuple=True),
                         Var([F("field_0", U8), F("field_1", VEC(U8, BITS("field_0")), bits=4), F("field_2", VEC(U8, UNTIL(op("eq", "_el", "field_0"), "|_el: &u8|")))], id=2, tuple=True)], id=Id(U8), en="big"), p)
    add(Def("C54", [F("field_0", U8), F("field_1", VEC(U16, BYTES("field_0"))), F("field_2", VEC(U8, COUNT(op("mod", "field_0", 3))))], tuple=True, en="big"), p)
    # longer than what is read in one go
    add(Def("C56", [F("f0", VEC(U8, COUNT(1100))), F("z", U8)]), "long")
    add(Def("C57", [F("f0", U8, bits=4), F("f1", VEC(U8, COUNT(1027))), F("z", U8, bits=4)]), "long")

# ------------------------------------------------------------------- enums --

def enums(c):
    add = c.add
    p = "enum"
    A, B2 = F("a", U8), F("b", U16)
    add(Def("E1", vars=[Var(id=1), Var([A], id=2), Var([A, B2], id=5)], id=Id(U8)), p)
    add(Def("E2", vars=[Var(id=1), Var([B2], id=0x0102), Var([A], id=0x0201)], id=Id(U16), en="big"), p)
    add(Def("E3", vars=[Var(id=1), Var([B2], id=0x0102), Var([A], id=0x0201)], id=Id(U16, en="little"), en="big"), p)
    add(Def("E4", vars=[Var(id=0), Var([F("a", U8, bits=3)], id=1), Var([F("a", U8, bits=7)], id=2)], id=Id(U8, bits=2)), p)
    add(Def("E5", vars=[Var(id=0), Var([F("a", U8, bits=3)], id=1), Var([F("a", U8, bits=7)], id=2)], id=Id(U8, bits=2), ord="lsb"), p)
    add(Def("E6", vars=[Var(id=1), Var([B2], id=0x010203)], id=Id(U32, bytes=3), en="big"), p)
    add(Def("E7", vars=[Var(id=-1), Var([A], id=-128), Var([B2], id=3)], id=Id(I8)), p)
    # patterns, storing the id; order decides
    add(Def("E8", vars=[Var(id=1), Var([F("id", U8), A], pat=RANGE(1, 5), st=True), Var([F("id", U8)], pat=RANGE(4, 9), st=True),
                        Var([F("id", U8), B2], pat=ANYPAT, st=True)], id=Id(U8)), p)
    add(Def("E9", vars=[Var([F("id", U8)], pat=ORPAT(1, 3, 200), st=True), Var(id=3), Var(id=4)], id=Id(U8)), p)
    add(Def("E10", vars=[Var([F("id", U16), A], pat=RANGE(0x100, 0x1ff), st=True), Var(id=0x150), Var([F("id", U16)], pat=ANYPAT, st=True)], id=Id(U16), en="big"), p)
    add(Def("E11", vars=[Var([F("id", U8), F("a", U8, bits=4)], pat=RANGE(2, 5), st=True), Var([F("a", U8, bits=4)], id=9)], id=Id(U8, bits=4)), p)
    # default variants
    add(Def("E12", vars=[Var(id=1), Var([A], id=2, dfl=True), Var([B2], id=3)], id=Id(U8)), p)
    add(Def("E13", vars=[Var(id=1, dfl=True), Var([A], id=2)], id=Id(U16)), p)
    # discriminants
    add(Def("E14", vars=[Var(disc=1), Var(disc=7), Var(disc=255)], id=Id(U8, repr=True)), p)
    add(Def("E15", vars=[Var(disc=0x0102), Var(disc=0x0201)], id=Id(U16, repr=True), en="big"), p)
    # id from the context
    add(Def("Ec", vars=[Var(id=1), Var([A], id=2), Var([F("a", U8), F("b", U8)], pat=RANGE(3, 6)), Var([B2], id=9, dfl=True)], id=Id(ctx="q"), params=[("q", "u8")]))
    add(Def("E16", [F("f0", U8), F("f1", U8), F("f2", REF("Ec"), ctx=["f0"]), F("z", U8)]), p)
    add(Def("Ece", vars=[Var([B2], id=1), Var([B2, A], id=2)], id=Id(ctx="q"), params=[("en", "E"), ("q", "u8")], en="en"))
    add(Def("E17", [F("f0", U8, bits=4), F("f2", REF("Ece"), en="big", ctx=["f0"]), F("f3", REF("Ece"), en="little", ctx=["f0"]), F("z", U8, bits=4)]), p)
    # nested, in containers, off the grid
    add(Def("E18", [F("f0", U8, bits=3), F("f1", REF("E4")), F("f2", REF("E1")), F("z", U8, bits=3)]), p)
    add(Def("E19", [F("f0", U8), F("f1", VEC(REF("E8"), COUNT("f0"))), F("z", U8)]), p)
    add(Def("E20", vars=[Var([F("a", REF("E1"))], id=1), Var([F("a", REF("E8")), F("b", REF("E14"))], id=2)], id=Id(U8)), p)
    # ids that are not integers
    add(Def("E21", vars=[Var([A], id=("[1, 2]", dict(v=[dict(i=[1]), dict(i=[2])]))), Var([B2], id=("[2, 1]", dict(v=[dict(i=[2]), dict(i=[1])])))], id=Id(ARR(2, U8)), en="big"), p)
    def seq(*bs): return dict(v=[dict(i=[b]) for b in bs])
    add(Def("E29", vars=[Var(id=("b\"ab\"", seq(97, 98))), Var([A], id=("b\"ba\"", seq(98, 97))), Var([F("id", ARR(2, U8)), A], pat=ANYPAT, st=True)], id=Id(ARR(2, U8))), p)
    add(Def("E30", vars=[Var([A], id=("(1, 0x0102)", dict(v=[dict(i=[1]), dict(i=[1, 2])]))), Var([B2], id=("(2, 0x0201)", dict(v=[dict(i=[2]), dict(i=[2, 1])])))],
            id=Id(TUP(U8, U16)), en="big"), p)
    # one enum is the id of another
    add(Def("E31", vars=[Var([A], id=("E1::V0", dict(e=1, f=[]))), Var([B2], id=("E1::V1 { a: 7 }", dict(e=2, f=[dict(i=[7])]))), Var([F("a", U8, bits=4)], id=("E1::V1 { a: 1 }", dict(e=2, f=[dict(i=[1])]))),
                         Var([F("id", REF("E1"))], pat=ANYPAT, st=True)], id=Id(REF("E1"))), p)
    # ids given by a constant, ids made of several context values
    add(Def("Ect", vars=[Var([A], id=("(1, 1)", seq(1, 1))), Var([B2], id=("(1, 2)", seq(1, 2))), Var([A, B2], id=("(2, 1)", seq(2, 1)))], id=Id(ctx="q, r"), params=[("q", "u8"), ("r", "u8")]))
    add(Def("E32", [F("f0", U8), F("f1", U8), F("f2", REF("Ect"), ctx=["f0", "f1"]), F("f3", REF("Ect"), ctx=["f1", "f0"]), F("z", U8)]), p)
    # discriminants: signed, wide, counted on by the compiler, beside ids and patterns
    add(Def("E33", vars=[Var(disc=-1), Var(disc=-128), Var(disc=0), Var(disc=127)], id=Id(I8, repr=True)), p)
    add(Def("E34", vars=[Var(disc=0x01020304), Var(disc=0x04030201), Var(disc=0xFFFFFFFF)], id=Id(U32, repr=True, en="little"), en="big"), p)
    add(Def("E35", vars=[Var(disc=-2), Var(disc=0x0102), Var(id=7, disc=9), Var(disc=0x7FFF)], id=Id(I16, repr=True), en="big"), p)
    add(Def("E36", vars=[Var(disc=1), Var(pat=RANGE(2, 9), disc=5), Var(pat=ORPAT(20, 30), disc=30), Var(disc=25)], id=Id(U8, repr=True)), p)
    add(Def("E37", [F("f0", U8, bits=4), F("f1", REF("E36")), F("f2", VEC(REF("E33"), COUNT("f0"))), F("z", U8, bits=4)]), p)
    add(Def("E38", vars=[Var(disc=1), Var(disc=2, dfl=True), Var(disc=200)], id=Id(U8, repr=True)), p)
    add(Def("E22", vars=[Var([A], id=True), Var([B2], id=False)], id=Id(BOOL, bits=1)), p)
    add(Def("E23", vars=[Var([A], id=1), Var([B2], id=2)], id=Id(U8), mg=b"\x07"), p)
    add(Def("E24", vars=[Var([F("a", U16)], id=1), Var([F("a", U16, en="little"), F("b", U16)], id=2)], id=Id(U8), en="big"), p)
    add(Def("E25", vars=[Var([F("a", U8, bits=4)], id=0x0102030405), Var(id=0xFFFFFFFFFF)], id=Id(U64, bits=40), en="big"), p)
    add(Def("E26", vars=[Var([F("a", U8, pba=4)], id=1), Var([F("a", U8, pbb=4)], id=2)], id=Id(U8, bits=4)), p)
    add(Def("E27", vars=[Var([F("id", I8), A], pat=RANGE(1, 5), st=True), Var([F("id", I8)], pat=ANYPAT, st=True)], id=Id(I8)), p)
    # other widths of discriminants
    add(Def("E40", vars=[Var(disc=0x0102030405060708), Var(disc=0), Var(disc=0x0807060504030201)], id=Id(U64, repr=True), en="big"), p)
    add(Def("E41", vars=[Var(disc=-1), Var(disc=0x01020304), Var(disc=-2147483648)], id=Id(I32, repr=True), en="big"), p)
    add(Def("E42", vars=[Var(disc=-2), Var(disc=0x0102), Var(disc=0x7FFFFFFFFFFFFFFF)], id=Id(I64, repr=True)), p)
    add(Def("E43", vars=[Var(disc=1), Var(disc=0x0102030405060708090a)], id=Id(U128, repr=True), en="big"), p)
    add(Def("E44", vars=[Var(disc=-1), Var(disc=5)], id=Id(I128, repr=True)), p)
    # fields without names
    add(Def("E45", vars=[Var([A], id=7, tuple=True), Var([F("field_0", U8), F("field_1", U16)], pat=RANGE(1, 5), st=True, tuple=True),
                         Var([F("field_0", U16), F("field_1", U8, cond=op("eq", "field_0", 0x0101), default=9), F("field_2", VEC(U8, COUNT(op("mod", "field_0", 4))))], id=6, tuple=True),
                         Var([F("field_0", U8), F("field_1", U8, bits=4), F("field_2", U8, bits=4, pba=8)], pat=ANYPAT, st=True, tuple=True)], id=Id(U8), en="big", sym=False), p)
    # an id computed from the context
    add(Def("Ecx", vars=[Var([A], id=1), Var([B2], id=2), Var([F("field_0", U8), F("field_1", U8)], pat=ANYPAT, tuple=True)], id=Id(ctx=op("band", "q", 4)), params=[("q", "u8")]))
    add(Def("E46", [F("f0", U8), F("f1", REF("Ecx"), ctx=["f0"]), F("f2", VEC(REF("Ecx"), COUNT(2)), ctx=[op("add", "f0", 1)]), F("z", U8)]), p)

# ----------------------------------------------------------------- padding --

def padding(c):
    add = c.add
    p = "pad"
    k = 0
    for where in ("pbb", "pba"):
        for n in (1, 7, 8, 9, 16, 21):
            lead = (5 * k + 2) % 8
            fs = ([F("f0", U8, bits=lead)] if lead else []) + [F("f1", U8, **{where: n}), F("z", U8, bits=8 - (lead + n) % 8)]
            add(Def("P%s%d" % (where, n), fs, ord="lsb" if k % 4 == 3 else None), p)
            k += 1
    for where in ("pyb", "pya"):
        for n in (1, 3):
            add(Def("P%s%d" % (where, n), [F("f1", U16, **{where: n}), F("z", U8)], en="big"), p)
            add(Def("P%s%du" % (where, n), [F("f0", U8, bits=3), F("f1", U16, **{where: n}), F("z", U8, bits=5)]), p)
    add(Def("Pboth", [F("f1", U8, pbb=3, pyb=1, pba=2, pya=1), F("z", U8, bits=3)]), p)
    add(Def("Pcomp", [F("f0", U8), F("f1", U8, pbb="f0"), F("f2", U8, pya="f0"), F("z", U8)]), p)
    add(Def("Pcompu", [F("f0", U8, bits=5), F("f1", U8, pyb="f0"), F("f2", U8, bits=3, pba="f0"), F("z", U8)]), p)
    add(Def("Pself", [F("f1", U8, pba="f1"), F("f2", U8, pyb=op("mod", "f1", 4)), F("z", U8)]), p)
    add(Def("Pbig", [F("f1", U8, pya=300), F("z", U8)]), p)
    add(Def("Pbigb", [F("f0", U8, bits=3), F("f1", U8, pbb=2005), F("z", U8)]), p)
    add(Def("Pl", [F("f0", U8, bits=3), F("f1", U8, bits=5, pyb=2), F("f2", U8, bits=4, pbb=4), F("z", U16)], ord="lsb"), p)
    add(Def("PIn", [F("a", U8, bits=3, pba=5), F("b", U8, pyb=1)]))
    add(Def("Pvec", [F("f0", U8), F("f1", VEC(REF("PIn"), BYTES("f0")), pya=1), F("z", U8)]), p)
    add(Def("Pall", [F("f0", U8, pba=12), F("f1", VEC(U8, ALL), pbb=4)]), p)
    add(Def("Pcond", [F("f0", U8), F("f1", OPT(U8), cond=op("eq", "f0", 1), pbb=4, pba=4), F("z", U8)]), p)
    add(Def("Pskip", [F("f0", U8), F("f1", U8, skip="all", pyb=1, pya=2, default=3), F("z", U8)]), p)
    add(Def("Pen", vars=[Var([F("a", U8, pyb=2)], id=1), Var([F("a", U8, pba=3, bits=5), F("b", U8, pya="a")], id=2)], id=Id(U8)), p)
    add(Def("Pmg", [F("f1", U8, mg=b"\x01\x02", pyb=1), F("z", U8, mg=b"\x03", pbb=8)]), p)
    add(Def("Ptup", [F("f0", U8, pbb=4), F("f1", U8, pba=4)], tuple=True), p)
    # positions after padding, as expressions see them
    at = lambda e, m, v: op("eq", op("mod", e, m), v)
    add(Def("Poff1", [F("f0", U8, bits=4), F("f1", OPT(U8), pbb=4, cond=at(OFF, 8, 0)), F("f2", OPT(U8), bits=4, pba=4, cond=at(OFF, 16, 8)), F("z", OPT(U8), cond=at(BYTEOFF, 2, 1))], sym=False), p)
    add(Def("Poff2", [F("f0", U8, pya=1), F("f1", OPT(U8), cond=at(BYTEOFF, 2, 0)), F("f2", OPT(U16), pyb=1, cond=at(BYTEOFF, 4, 3)), F("z", OPT(U8), pyb="f0", cond=at(OFF, 16, 0))], sym=False), p)
    add(Def("Poff3", [F("f0", U8), F("f1", VEC(U8, COUNT(op("mod", OFF, 8))), pbb=3, bits=5), F("z", OPT(U8), pbb=op("sub", 3, "f0"), cond=at(OFF, 4, 0))], sym=False), p)
    add(Def("Poff4", vars=[Var([F("a", OPT(U8), pyb=1, cond=at(BYTEOFF, 3, 2)), F("b", OPT(U8), pbb=4, bits=4, cond=at(OFF, 8, 4))], id=1), Var([F("a", U8, pba=2, bits=2), F("b", OPT(U8), pbb=2, cond=at(OFF, 8, 6))], id=2)], id=Id(U8), sym=False), p)
    add(Def("Poff5", [F("f0", VEC(U8, COUNT(2)), pya=1), F("f1", VEC(U8, COUNT(op("mod", BYTEOFF, 4))), pyb=2), F("z", U8)], sym=False), p)

# -------------------------------------------------------- magic and asserts --

def magic(c):
    add = c.add
    p = "magic"
    add(Def("G1", [F("f0", U8)], mg=b"\x01"), p)
    add(Def("G2", [F("f0", U8), F("f1", U16, mg=b"\x02\x00\xff"), F("z", U8, mg=b"\x01")], mg=b"\x01\x02\x03", en="big"), p)
    add(Def("GIn", [F("a", U8, bits=5)], mg=b"\x83"))
    add(Def("G3", [F("f0", U8, bits=3), F("f1", REF("GIn"))]), p)
    add(Def("G4", [F("f0", U8), F("f1", VEC(REF("GIn"), COUNT("f0"))), F("z", U8)]), p)
    add(Def("G5", vars=[Var([F("a", U8, mg=b"\x05")], id=1), Var([F("a", U8)], id=2)], id=Id(U8), mg=b"\x02\x02"), p)
    add(Def("G6", [F("f0", U8, bits=4), F("f1", U8, bits=4, mg=b"\x5c")]), p)
    add(Def("G7", [F("f0", U8, as_=op("le", "f0", 2))]), p)
    add(Def("G8", [F("f0", U8, as_=op("ne", "f0", 1)), F("f1", U8, as_=op("le", "f0", "f1")), F("f2", U16, ae=op("add", "f0", "f1"))], en="big"), p)
    add(Def("G9", [F("f0", U8, ae=131), F("f1", U8, bits=4, as_=op("lt", "f1", 3)), F("f2", U8, bits=4)]), p)
    add(Def("G10", vars=[Var([F("a", U8, as_=op("ne", "a", 0)), F("b", U8, ae="a")], id=1), Var([F("a", U8, ae=255)], id=2)], id=Id(U8)), p)
    add(Def("G11", [F("f0", U8), F("f1", VEC(U8, COUNT("f0")), as_=op("le", length("f1"), 2)), F("z", U8, as_=op("eq", "f0", length("f1")))]), p)
    add(Def("G12", [F("f0", U8), F("f1", VEC(U8, UNTIL(op("eq", "_el", 0), "|_el: &u8|")), as_=op("eq", length("f1"), op("add", "f0", 1)))]), p)
    add(Def("GC", [F("a", U8, as_=op("eq", "a", "q"))], params=[("q", "u8")]))
    add(Def("G13", [F("f0", U8), F("f1", REF("GC"), ctx=["f0"]), F("z", U8)]), p)
    add(Def("G14", [F("f0", OPT(U8), cond=op("eq", 1, 1), as_=some("f0")), F("f1", U8, skip="all", default=2, as_=op("eq", "f1", 2)), F("z", U8, mg=b"\x00")]), p)
    add(Def("G15", [F("f0", U8, map="inc", mty=U8, as_=op("ne", "f0", 0)), F("z", U8)], sym=False), p)
    add(Def("G16", [F("f0", BOOL, as_="f0"), F("f1", I8, as_=op("ne", "f1", 5))]), p)
    add(Def("G17", [F("f0", U8, mg=b"\x01", pyb=1, as_=op("ne", "f0", 2)), F("z", U8, pbb=3, bits=5, ae=2)]), p)
    add(Def("G18", [F("f0", VEC(U8, COUNT(2)), mg=b"\xff\x00"), F("f1", OPT(U8), mg=b"\x02", cond=op("eq", 1, 1))]), p)
    add(Def("G19", [F("f0", U8, temp=True, tv=2), F("f1", U8, as_=op("ne", "f1", "f0"))]), p)
    add(Def("G20", [F("f0", U8), F("f1", U8, mg=b"\x01\x02", cond=op("eq", "f0", 1))]), p)
    # conditions on values that were not decoded but defaulted
    add(Def("G21", [F("f0", U8), F("f1", U8, cond=op("eq", "f0", 1), default=5, as_=op("le", "f1", 3)), F("z", U8)], sym=3), p)
    add(Def("G22", [F("f0", U8), F("f1", U8, cond=op("ne", "f0", 0), ae=2), F("f2", OPT(U8), cond=op("eq", "f0", 2), as_=op("eq", some("f2"), op("eq", "f0", 2))), F("z", U8, as_=op("ne", "z", "f1"))], sym=3), p)
    add(Def("G23", [F("f0", U8), F("f1", U8, skip="all", default="f0", as_=op("lt", "f1", 3)), F("f2", U8, skip="read", default=2, as_=op("ne", "f2", "f0")), F("z", U8)], sym=False), p)
    add(Def("G24", [F("f0", U8), F("f1", U16, skip="all", cond=op("eq", "f0", 1), default=7, ae=7), F("f2", U8, skip="write", as_=op("le", "f2", "f0"))], sym=False), p)
    add(Def("G25", vars=[Var([F("a", U8), F("b", U8, cond=op("eq", "a", 2), default="a", as_=op("ne", "b", 1))], id=1), Var([F("a", U8, skip="all", ae=0), F("b", U8, mg=b"\x01", as_=op("ne", "b", "a"))], id=2)], id=Id(U8), sym=3), p)
    add(Def("G26", [F("f0", U8, temp=True, tv=length("f1"), mg=b"\x01"), F("f1", VEC(U8, COUNT("f0")), as_=op("ne", length("f1"), 1)), F("f2", U8, temp=True, tv=3, mg=b"\x02"), F("z", U8, as_=op("le", length("f1"), "z"))], sym=3), p)
    add(Def("G27", [F("f0", U8, bits=3, as_=op("ne", "f0", 1)), F("f1", U8, bits=5, mg=b"\x01", as_=op("ne", "f1", "f0")), F("f2", U8, cu="inc", as_=op("ne", "f2", 3)), F("f3", VEC(REF("G7"), COUNT("f0")))], sym=3), p)

    # letters: magic is compared byte for byte
    add(Def("G28", [F("f0", U8), F("f1", U8, mg=b"aZ@\x80")], mg=b"dEkU"), p)
    add(Def("G29", vars=[Var([F("a", U8, mg=b"[z")], id=1), Var([F("a", U8, bits=4), F("b", U8, bits=12, en="big")], id=2)], id=Id(U8), mg=b"Id"), p)
    add(Def("G30", [F("f0", U8, bits=4, mg=b"x"), F("f1", VEC(U8, COUNT(1)), mg=b"Y"), F("f2", U8, bits=4)], mg=b"{A"), p)
    # nothing but a magic
    add(Def("GU", [], unit=True, mg=b"\x05\x83"), p)
    add(Def("G31", [F("f0", U8, bits=4), F("f1", REF("GU")), F("f2", OPT(REF("GU")), cond=op("eq", "f0", 1)), F("z", U8, bits=4)]), p)
    add(Def("G32", vars=[Var([F("field_0", U8, mg=b"a"), F("field_1", U8, mg=b"b", as_=op("le", "field_0", "field_1"))], id=1, tuple=True), Var([F("field_0", REF("GU")), F("field_1", U8, ae=3)], id=2, tuple=True)], id=Id(U8), mg=b"e"), p)
    add(Def("G33", [F("field_0", U8, mg=b"\x01"), F("field_1", U16, as_=op("ne", "field_1", "field_0")), F("field_2", U8, ae="field_0")], tuple=True, mg=b"t"), p)

# ------------------------------------- conditional, skipped, mapped, temporary --

def conds(c):
    add = c.add
    p = "cond"
    add(Def("K1", [F("f0", U8), F("f1", OPT(U16), cond=op("eq", "f0", 1), en="big"), F("z", U8)]), p)
    add(Def("K2", [F("f0", U8), F("f1", U8, cond=op("eq", "f0", 1)), F("f2", U8, cond=op("ne", "f1", 0), default=9), F("z", U8)], sym=False), p)
    add(Def("K3", [F("f0", U8), F("f1", U8, skip="all"), F("f2", U8, skip="all", default=5), F("f3", U16, skip="all", default=op("add", "f0", "f2")), F("z", U8)], sym=False), p)
    add(Def("K4", [F("f0", U8), F("f1", U8, skip="all", cond=op("eq", "f0", 1), default=7), F("z", U8)], sym=False), p)
    add(Def("K5", [F("f0", U8), F("f1", OPT(U8), skip="all", cond=op("ne", "f0", 1), default=op("add", "f0", 1)), F("z", U8)], sym=False), p)
    add(Def("K6", [F("f0", U8, bits=1), F("f1", OPT(U8), bits=3, cond=op("eq", "f0", 1)), F("f2", OPT(U8), bits=4, cond=some("f1")), F("z", U8)]), p)
    add(Def("K7", [F("f0", U8), F("f1", U8, map="inc", mty=U8), F("z", U8)], sym=False), p)
    add(Def("K8", [F("f0", U8, bits=4), F("f1", U16, map="widen", mty=U8), F("f2", BOOL, map="isnz", mty=U8, bits=4)], sym=False), p)
    add(Def("K9", [F("f0", U8), F("f1", U8, map="vlen", mty=VEC(U8, COUNT("f0"))), F("z", U8)], sym=False), p)
    add(Def("K10", [F("f0", U8), F("f1", VEC(U8, COUNT("f0")), map="rev", mty=VEC(U8, COUNT("f0"))), F("z", U8)], sym=False), p)
    add(Def("K11", [F("f0", U8), F("f1", U8, cu="inc"), F("z", U8)]), p)
    add(Def("K12", [F("f0", U8, bits=3), F("f1", U8, cu="inc"), F("f2", U8, bits=5)]), p)
    add(Def("K13", [F("f0", U8), F("f1", U8, cu="inc", cond=op("eq", "f0", 1), default=4), F("z", U8)], sym=False), p)
    add(Def("K14", [F("f0", U8, temp=True), F("f1", VEC(U8, COUNT("f0"))), F("z", U8)], sym=False), p)
    add(Def("K15", [F("f0", U8, temp=True, tv=length("f1")), F("f1", VEC(U8, COUNT("f0"))), F("z", U8)]), p)
    add(Def("K16", [F("f0", U16, temp=True, tv=op("add", length("f1"), 1), en="big"), F("f1", VEC(U8, COUNT(op("sub", "f0", 1)))), F("f2", U8, temp=True, tv=length("f3"), bits=4), F("f3", VEC(U8, COUNT("f2")), bits=4), F("z", U8)], sym=False), p)
    add(Def("K17", [F("f0", U8), F("f1", U8, temp=True, tv="f0", pbb=4, pba=4), F("f2", VEC(U8, COUNT(op("mod", "f1", 4))))], sym=False), p)
    add(Def("K18", [F("f0", U8), F("f1", U8, temp=True, tv=7, cond=op("eq", "f0", 1), default=2), F("f2", VEC(U8, COUNT(op("band", "f1", 4))))], sym=False), p)
    add(Def("K19", vars=[Var([F("a", U8), F("b", OPT(U8), cond=op("eq", "a", 2))], id=1), Var([F("a", U8, skip="all", default=3), F("b", U8)], id=2),
                         Var([F("a", U8, map="inc", mty=U8), F("b", U8, cu="inc")], id=3)], id=Id(U8), sym=False), p)
    add(Def("K20", vars=[Var([F("a", U8, temp=True, tv=length("b")), F("b", VEC(U8, COUNT("a")))], id=1), Var([F("a", U8, temp=True, tv=9), F("b", U8, cond=op("eq", "a", 9))], id=2)], id=Id(U8), sym=False), p)
    add(Def("K21", [F("f0", U8), F("f1", U8, skip="read", default=op("add", "f0", 1)), F("z", U8)], sym=False), p)
    add(Def("K22", [F("f0", U8), F("f1", U8, skip="write"), F("z", U8)], sym=False), p)
    add(Def("K23", [F("f0", U8), F("f1", U8, skip="read", cond=op("eq", "f0", 1), default=8), F("f2", U8, skip="write", cond=op("eq", "f0", 2), default=6), F("z", U8)], sym=False), p)
    add(Def("K24", [F("f0", U8), F("f1", VEC(U8, COUNT("f0")), cond=op("ne", "f0", 1)), F("f2", TUP(U8, U8), skip="all"), F("f3", ARR(2, U16), skip="all"), F("z", U8)], sym=False), p)
    add(Def("KIn", [F("a", U8), F("b", OPT(U8), cond=op("eq", "q", 1))], params=[("q", "u8")]))
    add(Def("K25", [F("f0", U8), F("f1", OPT(REF("KIn")), cond=op("ne", "f0", 0), ctx=["f0"]), F("z", U8)]), p)
    add(Def("K26", [F("f0", U8), F("f1", OPT(U8), cond=op("and", op("lt", "f0", 5), op("or", op("eq", "f0", 1), op("eq", "f0", 2)))), F("f2", OPT(U8), cond=op("not", some("f1"))), F("z", U8)]), p)
    add(Def("K27", [F("f0", U8, bits=2), F("f1", U8, skip="all", bits=6, default=1), F("f2", U8, bits=6)]), p)
    add(Def("K28", [F("f0", U8, skip="all", default=3), F("f1", VEC(U8, COUNT("f0"))), F("z", U8)], sym=False), p)
    add(Def("K29", [F("f0", U8), F("f1", U8, map="inc", mty=U8, cond=op("eq", "f0", 1), default=6, ), F("z", U8)], sym=False), p)
    add(Def("K30", [F("f0", U8, temp=True), F("f1", U8, temp=True), F("z", U8, cond=op("eq", "f0", "f1"), default=0)], sym=False), p)
    # fields without names
    add(Def("K31", [F("field_0", U8, temp=True, tv=length("field_1")), F("field_1", VEC(U8, COUNT("field_0"))), F("field_2", U8)], tuple=True), p)
    add(Def("K32", [F("field_0", U8), F("field_1", U8, temp=True, tv=op("add", "field_0", 1), bits=4, pba=4), F("field_2", VEC(U8, COUNT(op("mod", "field_1", 4)))), F("field_3", OPT(U8), cond=op("eq", "field_0", 1))], tuple=True, sym=False), p)
    add(Def("K33", vars=[Var([F("field_0", U8, temp=True, tv=length("field_1")), F("field_1", VEC(U8, COUNT("field_0"))), F("field_2", U8, skip="all", default=4), F("field_3", U8, cond=op("eq", "field_2", 4), default=1)], id=1, tuple=True),
                         Var([F("field_0", U8), F("field_1", OPT(U16), cond=op("eq", "field_0", 1)), F("field_2", U8, cond=op("eq", some("field_1"), 1), default=7)], id=2, tuple=True)], id=Id(U8), en="big", sym=False), p)

# ----------------------------------------------- endianness, order and context --

def ctxs(c):
    add = c.add
    p = "ctx"
    add(Def("X1", [F("f0", U16), F("f1", U16, en="little"), F("f2", U32), F("f3", U16, en="big")], en="big"), p)
    add(Def("X2", [F("f0", U16), F("f1", U16, en="big"), F("f2", U16)]), p)
    add(Def("X3", [F("f0", U16), F("f1", U16, en="big"), F("f2", U32)], en="little"), p)
    add(Def("XE", [F("a", U16), F("b", U16, en="little"), F("c", U16)], en="e0", params=[("e0", "E")]))
    add(Def("X4", [F("f0", REF("XE")), F("f1", REF("XE"), en="little"), F("f2", U16)], en="big"), p)
    add(Def("XN", [F("a", U16), F("b", U16, en="big")]))
    add(Def("X5", [F("f0", REF("XN")), F("f1", U16, en="big"), F("f2", REF("XN")), F("f3", U16)]), p)
    add(Def("XO", [F("a", U8, bits=4), F("b", U16, bits=12)], ord="o0", params=[("o0", "O")]))
    add(Def("X6", [F("f0", REF("XO"), ord="lsb"), F("f1", REF("XO"), ord="msb"), F("f2", U8, bits=4), F("f3", U8, bits=4)]), p)
    add(Def("XEO", [F("a", U8, bits=5), F("b", U16, bits=11), F("c", U32)], en="e0", ord="o0", params=[("e0", "E"), ("o0", "O")]))
    add(Def("X7", [F("f0", REF("XEO"), en="big", ord="msb"), F("f1", REF("XEO"), en="little", ord="lsb"), F("f2", REF("XEO"), en="little", ord="msb"), F("f3", REF("XEO"), en="big", ord="lsb")], sym=False), p)
    add(Def("X8", [F("f0", REF("XEO")), F("f1", U16), F("f2", REF("XEO"), en="little")], en="big", ord="msb"), p)
    # ctx values, in order, unchanged
    add(Def("XA", [F("a", U8, bits="p"), F("b", U8, bits=op("sub", 8, "p")), F("c", VEC(U8, COUNT("q")))], params=[("p", "usize"), ("q", "u8")]))
    add(Def("X9", [F("f0", U8, as_=op("le", "f0", 8)), F("f1", U8), F("f2", REF("XA"), ctx=["f0", "f1"]), F("z", U8)]), p)
    add(Def("XB", [F("a", REF("XA"), ctx=["q", "p"])], params=[("p", "u8"), ("q", "usize")]))
    add(Def("X10", [F("f0", U8, as_=op("le", "f0", 8)), F("f1", U8), F("f2", REF("XB"), ctx=["f1", "f0"]), F("z", U8)]), p)
    add(Def("XC", [F("a", U16), F("b", VEC(U16, COUNT("q")))], en="e0", params=[("e0", "E"), ("q", "u8")]))
    add(Def("X11", [F("f0", U8), F("f1", REF("XC"), ctx=["f0"]), F("f2", REF("XC"), en="little", ctx=[1]), F("z", U16)], en="big"), p)
    add(Def("X12", [F("f0", U8), F("f1", VEC(REF("XC"), COUNT(2)), en="big", ctx=["f0"]), F("z", U16)]), p)
    # ctx_default: used at the top level and where nothing is passed
    add(Def("XD", [F("a", U16), F("b", VEC(U8, COUNT("q")))], en="e0", params=[("e0", "E"), ("q", "u8")], dargs=["big", 2]), p)
    add(Def("X13", [F("f0", REF("XD")), F("f1", REF("XD"), en="little", ctx=[1]), F("z", U16)]), p)
    add(Def("XDe", vars=[Var([F("a", U16)], id=1), Var([F("a", U16, en="little"), F("b", U8)], id=2)], id=Id(U8), en="e0", params=[("e0", "E")], dargs=["big"]), p)
    add(Def("X14", [F("f0", REF("XDe")), F("f1", REF("XDe"), en="little"), F("z", U16, en="big")]), p)
    add(Def("XDo", [F("a", U8, bits=3), F("b", U16, bits=5)], ord="o0", params=[("o0", "O")], dargs=["lsb"]), p)
    add(Def("X15", [F("f0", REF("XDo")), F("f1", REF("XDo"), ord="msb"), F("f2", U8, bits=1), F("f3", U8, bits=7)]), p)
    add(Def("XDq", vars=[Var([F("a", U8)], id=1), Var([F("a", U16)], id=2)], id=Id(ctx="q"), params=[("q", "u8")], dargs=[2]), p)
    # enums: id and fields
    add(Def("X16", vars=[Var([F("a", U16), F("b", U16, en="little")], id=1), Var([F("a", REF("XE"))], id=2), Var([F("a", REF("XE"), en="little"), F("b", U16)], id=3)], id=Id(U16), en="big"), p)
    add(Def("X17", vars=[Var([F("a", U16)], id=1), Var([F("a", U16, en="big")], id=2)], id=Id(U16, en="big")), p)
    add(Def("XV", vars=[Var([F("a", U8, bits="p"), F("b", U8, bits=op("sub", 8, "p"))], id=1), Var([F("a", VEC(U8, COUNT("p")))], id=2)], id=Id(U8), params=[("p", "usize")]))
    add(Def("X18", [F("f0", U8, as_=op("le", "f0", 8)), F("f1", REF("XV"), ctx=["f0"]), F("z", U8)]), p)
    # wrappers and containers hand the context on
    add(Def("X19", [F("f0", OPT(U16), en="big", cond=op("eq", 1, 1)), F("f1", TUP(U16, U8, U32), en="big"), F("f2", ARR(2, U16), en="big"), F("f3", BOX(U16), en="big"), F("f4", VEC(U16, COUNT(2)), en="big"), F("f5", U16)]), p)
    add(Def("X20", [F("f0", TUP(U8, U8), bits=4), F("f1", ARR(2, U16), bits=12, en="big"), F("f2", BOX(U8), bits=4), F("z", U8, bits=4)]), p)
    add(Def("X21", [F("f0", TUP(U8, U16), bits=4, ord="lsb"), F("f1", ARR(2, U8), bits=4, ord="lsb"), F("f2", U8, bits=4, ord="msb"), F("f3", U8, bits=4, ord="msb")]), p)
    # type parameters
    TB = "T: for<'x> DekuReader<'x, %s> + DekuWriter<%s>"
    add(Def("XG1", [F("a", U16, grt="T"), F("b", VEC(U16, COUNT(2)), grt="Vec<T>"), F("c", U8)], generic=("T", TB % ("()", "()"), "u16")), p)
    add(Def("XG2", [F("a", U16, grt="T"), F("b", ARR(3, U8), grt="[u8; N]")], en="e0", params=[("e0", "E")], generic=("T, const N: usize", TB % (("deku::ctx::Endian",) * 2), "u16, 3")))
    add(Def("XG3", vars=[Var([F("a", REF("XN"), grt="T")], id=1), Var([F("a", U8), F("b", REF("XN"), grt="T")], id=2)], id=Id(U8), generic=("T", TB % ("()", "()"), "XN")), p)
    add(Def("X23", [F("f0", REF("XG1")), F("f1", REF("XG2"), en="big"), F("f2", REF("XG2"), en="little"), F("f3", REF("XG3")), F("z", U16)]), p)
    add(Def("XDeep", [F("a", REF("XE")), F("b", VEC(REF("XE"), COUNT("q")))], en="e0", params=[("e0", "E"), ("q", "u8")]))
    add(Def("X22", [F("f0", U8), F("f1", REF("XDeep"), ctx=["f0"]), F("f2", REF("XDeep"), en="little", ctx=[0])], en="big"), p)
    add(Def("XT", vars=[Var([F("field_0", U16), F("field_1", U16, en="little"), F("field_2", VEC(U16, COUNT("q")))], id=1, tuple=True), Var([F("field_0", REF("XC"), ctx=["q"]), F("field_1", U8)], id=2, tuple=True)], id=Id(U16), en="e0", params=[("e0", "E"), ("q", "u8")]))
    add(Def("X24", [F("field_0", U8), F("field_1", REF("XT"), ctx=["field_0"]), F("field_2", REF("XT"), en="little", ctx=[1]), F("field_3", U16)], tuple=True, en="big"), p)
    add(Def("X25", [F("f0", U32, bits=dict(o="c", n=16, rs="BitSize::of_val(&0u16).0")), F("f1", U32, bits=dict(o="c", n=24, rs="BitSize::of_val(&[0u8; 3][..]).0")), F("z", U8)], en="big"), p)
    # borrowed, to be written only (the harness leaks what it decodes: not in a family of C24)
    add(Def("X26", [F("f0", U8), F("f1", VEC(U16, COUNT("f0"), rt="&'static [u16]"), map="same", mty=VEC(U16, COUNT("f0"))), F("f2", VEC(U16, ALL, rt="&'static [u16]"), map="same", mty=VEC(U16, ALL), bits=12)], en="big"), p)

# -------------------------------------------------------------------- seeks --

def seeks(c):
    def add(d, *ps):     # moving backwards overwrites: only these survive encode-decode
        d.sym = d.name in ("S1", "S11", "S12", "S14", "S15", "S16", "S18", "S19", "S21", "S24", "S25", "S26", "S28", "SE", "S29", "S30")
        return c.add(d, *ps)
    p = "seek"
    add(Def("S1", [F("f0", U8), F("f1", U8, sk=("start", 3)), F("z", U8)]), p)
    add(Def("S2", [F("f0", U8), F("f1", U8, sk=("start", "f0")), F("z", U8)]), p)
    add(Def("S3", [F("f0", U16, en="big"), F("f1", U8, sk=("rewind",)), F("f2", U8)]), p)
    add(Def("S4", [F("f0", U8), F("f1", U8, sk=("current", 2)), F("f2", U8, sk=("current", 1, 1)), F("z", U8)]), p)
    add(Def("S5", [F("f0", U8), F("f1", U8, sk=("current", "f0")), F("z", U8)]), p)
    add(Def("S6", [F("f0", U8), F("f1", U8, sk=("current", "f0", 1)), F("z", U8)]), p)
    add(Def("S7", [F("f0", U8), F("f1", U8, sk=("end", 1, 1)), F("f2", U8, sk=("rewind",))]), p)
    add(Def("S8", [F("f0", U8), F("f1", U8, sk=("end", "f0", 1)), F("z", U8)]), p)
    add(Def("S9", [F("f0", U8), F("f1", U8, sk=("end", 1))]), p)
    add(Def("SIn", [F("a", U8), F("b", U8)], sk=("start", 2)))
    add(Def("S10", [F("f0", U8), F("f1", REF("SIn")), F("z", U8)]), p)
    add(Def("S11", [F("f0", U8), F("f1", U8)], sk=("start", 1)), p)
    add(Def("S12", [F("f0", U8), F("f1", U8)], sk=("rewind",)), p)
    add(Def("SR", [F("a", U8)], sk=("current", 1)))
    add(Def("S13", [F("f0", U8), F("f1", VEC(REF("SR"), COUNT("f0"))), F("z", U8)]), p)
    add(Def("S14", vars=[Var([F("a", U8, sk=("start", 4))], id=1), Var([F("a", U8, sk=("current", 1)), F("b", U16)], id=2)], id=Id(U8)), p)
    add(Def("S15", [F("f0", U8, bits=3), F("f1", U8, bits=5), F("f2", U8, sk=("start", 2), bits=4), F("f3", U8, bits=4)]), p)
    add(Def("S16", [F("f0", U8, bits=3), F("f1", U8, sk=("current", 1)), F("z", U8)]), p)
    add(Def("S17", [F("f0", U8), F("f1", VEC(U8, COUNT("f0")), sk=("start", op("add", "f0", 1))), F("z", U8)]), p)
    add(Def("S18", [F("f0", U8), F("f1", U8, sk=("start", 2), mg=b"\x01", pyb=1), F("z", U8)]), p)
    add(Def("S19", [F("f0", U8), F("f1", OPT(U8), sk=("start", 2), cond=op("eq", "f0", 1)), F("z", U8)]), p)
    add(Def("S20", [F("f0", U8), F("f1", VEC(U8, ALL), sk=("start", "f0"))]), p)
    # a move by nothing still ends a partly filled byte
    add(Def("S21", [F("f0", U8, bits=3), F("f1", U8, sk=("current", 0)), F("z", U8)]), p)
    add(Def("S22", [F("f0", U8), F("f1", U8, bits=5), F("f2", U8, sk=("current", "f0"), bits=3), F("f3", U8, bits=5), F("z", U8)]), p)
    add(Def("S23", [F("f0", U8), F("f1", U8, bits=5), F("f2", U8, sk=("start", "f0"), bits=3), F("z", U8, bits=5)]), p)
    add(Def("S24", [F("a", U8, bits=4), F("b", U8, bits=4)], sk=("current", 0)))
    add(Def("S25", [F("f0", U8, bits=4), F("f1", REF("S24")), F("z", U8)]), p)
    # seeks that stay where they are
    add(Def("S27", [F("f0", U8), F("f1", U8, sk=("start", 1)), F("f2", U8, sk=("start", "f0")), F("z", U16)], sk=("rewind",)), p)
    add(Def("SC0", [F("a", U8), F("b", U8, bits=3), F("c", U8, bits=5)], sk=("current", 0)))
    add(Def("S28", [F("f0", U8), F("f1", U16, sk=("current", 0)), F("f2", VEC(REF("SC0"), COUNT("f0"))), F("z", U8)]), p)
    add(Def("S26", vars=[Var([F("a", U8, bits=4, sk=("current", 0)), F("b", U8, bits=4)], id=1), Var([F("a", U8, sk=("current", 1))], id=2)], id=Id(U8, bits=2)), p)
    add(Def("SE", vars=[Var([F("a", U8)], id=1), Var([F("a", U16)], id=2)], id=Id(U8), sk=("start", 1)), p)
    # seek, then magic, then what there is
    add(Def("S29", vars=[Var([F("a", U8)], id=1), Var([F("a", U16, mg=b"\x07")], id=2)], id=Id(U8), sk=("start", 2), mg=b"m"), p)
    add(Def("S30", [F("f0", U8, bits=4), F("f1", U8, bits=4, sk=("current", 1))], sk=("current", 1), mg=b"\x9c"), p)
    add(Def("S31", [F("f0", U8), F("f1", VEC(REF("S29"), COUNT("f0"))), F("f2", REF("S30")), F("z", U8)]), p)
    add(Def("S32", vars=[Var([F("a", U8, bits=4, pbb=2)], id=1), Var([F("a", U8, sk=("end", 1, 1))], id=2)], id=Id(U8, bits=2), sk=("rewind",), mg=b"\x01\x02"), p)
    # exactly the end, or the place it is at already
    add(Def("S33", [F("f0", U8), F("f1", U8, sk=("end", 0))], sym=False), p)
    add(Def("S34", [F("f0", U8, bits=4), F("f1", U8, bits=4, pbb=4)], sk=("end", 0)), p)
    add(Def("S35", [F("f0", U8, bits=3), F("f1", VEC(U8, COUNT(2)), sk=("end", op("mod", "f0", 4), 1)), F("f2", U8, sk=("current", op("mod", "f0", 2))), F("z", U8, sk=("start", op("mod", "f0", 5)))], sym=False), p)
    add(Def("S36", vars=[Var([F("a", U8, sk=("end", 0))], id=1), Var([F("a", U8, sk=("start", 0)), F("b", U8, sk=("end", 0)), F("c", U8, sk=("rewind",))], id=2), Var([F("field_0", U8), F("field_1", U8, sk=("current", 0)), F("field_2", U8, sk=("end", 1, 1), mg=b"e")], id=3, tuple=True)], id=Id(U8, bits=4), sk=("current", 0)), p)

# -------------------------------------------------------------------- sizes --

def sizes(c):
    add = c.add
    p = "size"
    kw = dict(size=True)
    add(Def("Z1", [F("f0", U8), F("f1", U16), F("f2", U32)], en="big", **kw), p)
    add(Def("Z2", [F("f0", U8, bits=3), F("f1", U16, bits=9), F("f2", I32, bits=20)], en="big", **kw), p)
    add(Def("Z3", [F("f0", U8, bits=3)], **kw), p)
    add(Def("Z4", [F("f0", U32, bytes=3), F("f1", ARR(3, U16)), F("f2", TUP(U8, U32))], en="big", **kw), p)
    add(Def("Z5", [F("f0", U8, pbb=3, pya=2), F("f1", U8, pyb=1, pba=5)], **kw), p)
    add(Def("Z6", [F("f0", U8, mg=b"\x01\x02"), F("f1", U8)], mg=b"\x02", **kw), p)
    add(Def("Z7", [F("f0", REF("Z2")), F("f1", ARR(2, REF("Z3"))), F("f3", BOOL), F("f4", I16, en="big")], **kw), p)
    add(Def("Z8", vars=[Var(id=1), Var([F("a", U16)], id=2), Var([F("a", U8), F("b", U32)], id=3)], id=Id(U8), **kw), p)
    add(Def("Z9", vars=[Var(id=0), Var([F("a", U8, bits=5)], id=1), Var([F("a", U8, bits=3), F("b", U8, pba=2)], id=2)], id=Id(U8, bits=3), **kw), p)
    add(Def("Z10", vars=[Var([F("id", U8), F("a", U16)], pat=RANGE(1, 4), st=True), Var([F("id", U8)], pat=ANYPAT, st=True)], id=Id(U8), **kw), p)
    add(Def("Z11", vars=[Var([F("a", U8)], id=1), Var([F("a", U16)], id=2)], id=Id(U16, bytes=2), mg=b"\x01", en="big", **kw), p)
    add(Def("Z12", [F("f0", REF("Z8")), F("f1", U8)], **kw), p)
    add(Def("Z13", vars=[Var([F("a", REF("Z9"))], id=1), Var([F("a", REF("Z2")), F("b", U8)], id=2)], id=Id(U8), **kw), p)
    add(Def("Z14", vars=[Var(disc=1), Var(disc=2)], id=Id(U8, repr=True), **kw), p)
    add(Def("Z15", [F("f0", U64, bits=33), F("f1", I8, bits=7), F("f2", U128)], ord="lsb", **kw), p)
    add(Def("Z16", [F("f0", F32), F("f1", F64), F("f3", BOOL, bits=3), F("f4", I128)], en="big", **kw), p)
    add(Def("Z17", [F("f0", U8), F("f1", U16)], tuple=True, **kw), p)
    add(Def("Z18", [F("f0", U8, temp=True, tv=1), F("f1", U8), F("f2", U16, temp=True, tv=2, bits=9, pba=3)], sym=False, **kw), p)
    add(Def("Z21", [F("f0", U8), F("f1", U32, skip="all", default=3), F("f2", VEC(U8, None), skip="all"), F("f3", U8, skip="all", pba=4, mg=b"\x02"), F("z", U8, bits=4)], **kw), p)
    add(Def("Z22", [F("f0", ARR(2, TUP(U8, U8)), bits=3), F("f1", TUP(ARR(2, U16), U8), bytes=1), F("f2", ARR(1, ARR(2, U16)), bits=9)], en="big", **kw), p)
    add(Def("Z23", vars=[Var([F("a", ARR(2, U8), bits=3), F("b", U32, skip="all")], id=1), Var([F("a", TUP(U8, U8), bits=2)], id=2)], id=Id(U8, bits=4), **kw), p)
    add(Def("Z24", [F("f0", ARR(2, REF("Z3"))), F("f1", TUP(REF("Z3"), REF("Z9"))), F("f2", ARR(3, BOOL), bits=1)], **kw), p)
    add(Def("Z19", [F("f0", ARR(3, U8), bits=3), F("f1", TUP(U8, U8), bits=5), F("f2", ARR(2, ARR(2, U8)))], **kw), p)
    TB = "T: for<'x> DekuReader<'x, ()> + DekuWriter<()>"
    add(Def("Z25", [F("f0", U16, grt="T"), F("f1", U8, bytes=1), F("f2", ARR(2, U16), grt="[T; 2]")], generic=("T", TB, "u16"), **kw), p)
    add(Def("Z26", vars=[Var([F("f0", U16, grt="T")], id=1), Var([F("field_0", U8), F("field_1", TUP(U16, U8), grt="(T, u8)")], id=2, tuple=True)], id=Id(U8), generic=("T", TB, "u16"), **kw), p)
    add(Def("Z27", vars=[Var([F("a", U8), F("b", U16)], id=1), Var([F("a", U16)], id=2)], id=Id(ctx="q"), params=[("q", "u8")], dargs=[2], mg=b"\x01", **kw), p)
    add(Def("Z28", [], unit=True, mg=b"\x01\x02\x03", **kw), p)
    add(Def("Z29", [F("f0", U8), F("f1", REF("Z28")), F("f2", U16, bytes=2), F("f3", U16, en="big")], **kw), p)
    add(Def("Z30", vars=[Var([F("field_0", U8), F("field_1", U16, bits=9, pba=3)], id=1, tuple=True), Var([F("field_0", U8), F("field_1", U32, mg=b"ab")], pat=ANYPAT, st=True, tuple=True)], id=Id(U8), **kw), p)
    def sized(t, n, then=""): return dict(o="c", n=n, rs="deku::ctx::BitSize::of::<%s>().0%s" % (t, then))
    add(Def("Z31", [F("f0", U32, bits=sized("u16", 16)), F("f1", U64, bytes=sized("u32", 4, " / 8")), F("f2", U16, bits=sized("bool", 8), pba=sized("[u8; 3]", 24))], en="big", **kw), p)

# ------------------------------------------------------------------ hostile --

def hostile(c):
    """lengths, sizes, paddings and offsets taken from the input, in types wide enough to be absurd"""
    add = c.add
    p = "hostile"
    kw = dict(en="big", sym=False)
    for nm, t in (("u16", U16), ("u32", U32), ("u64", U64), ("us", USIZE)):
        add(Def("H1" + nm, [F("f0", t), F("f1", VEC(U8, COUNT("f0"))), F("z", U8)], **kw), p)
        add(Def("H2" + nm, [F("f0", t), F("f1", VEC(U32, COUNT("f0"))), F("z", U8)], **kw), p)
        add(Def("H3" + nm, [F("f0", t), F("f1", VEC(U16, BYTES("f0"))), F("z", U8)], **kw), p)
        add(Def("H4" + nm, [F("f0", t), F("f1", U8, pyb="f0"), F("z", U8)], **kw), p)
    add(Def("H5", [F("f0", U64), F("f1", VEC(U16, BITS("f0")), bits=3), F("z", U8)], **kw), p)
    add(Def("H6", [F("f0", U64), F("f1", U8, pbb="f0"), F("z", U8)], **kw), p)
    add(Def("H7", [F("f0", U64), F("f1", U8, pya="f0"), F("z", U8)], **kw), p)
    add(Def("H8", [F("f0", U64), F("f1", U8, sk=("start", "f0")), F("z", U8)], **kw), p)
    add(Def("H9", [F("f0", U64), F("f1", U8, sk=("current", "f0")), F("z", U8)], **kw), p)
    add(Def("H10", [F("f0", U64), F("f1", U8, sk=("end", "f0", 1)), F("z", U8)], **kw), p)
    for nm, t in (("u16", U16), ("u64", U64), ("i64", I64), ("u128", U128)):
        for wh in ("start", "current", "end"):
            if nm == "i64": continue
            add(Def("Hs%s%s" % (wh, nm), [F("f0", t), F("f1", U8, sk=(wh, "f0", "raw")), F("z", U8)], **kw), p)
    add(Def("H11", [F("f0", U64), F("f1", MAP(U8, U16, COUNT("f0"))), F("z", U8)], **kw), p)
    add(Def("H12", [F("f0", U64), F("f1", SET(U16, COUNT("f0"))), F("z", U8)], **kw), p)
    add(Def("H13", [F("f0", U64), F("f1", U64, bits="f0"), F("z", U8)], **kw), p)
    add(Def("H14", [F("f0", U64), F("f1", U64, bytes="f0"), F("z", U8)], **kw), p)
    add(Def("HIn", [F("a", VEC(U8, COUNT("q")))], params=[("q", "usize")]))
    add(Def("H15", [F("f0", U64), F("f1", VEC(REF("HIn"), COUNT("f0")), ctx=["f0"]), F("z", U8)], en="big", sym=False), ) if 0 else None
    add(Def("H16", [F("f0", U8, bits=3), F("f1", U64, bits=61), F("f2", VEC(U8, COUNT("f1"))), F("z", U8)], **kw), p)
    add(Def("H17", [F("f0", U8, bits=3), F("f1", U64, bits=61), F("f2", U8, pbb="f1"), F("z", U8)], **kw), p)
    add(Def("H18", [F("f0", U64), F("f1", VEC(U8, UNTIL(op("eq", "_el", "f0"), "|_el: &u8|"))), F("z", U8)], **kw), p)
    add(Def("H19", [F("f0", U64), F("f1", CSTR, bytes="f0"), F("z", U8)], sym=False), p)
    add(Def("H20", [F("f0", U64), F("f1", VEC(U8, COUNT(op("mul", "f0", "f0")))), F("f2", VEC(U8, BYTES(op("add", "f0", "f0")))), F("z", U8)], **kw), p)
    add(Def("H21", [F("f0", U64), F("f1", VEC(TUP(U64, U64, U64, U64), COUNT("f0"))), F("z", U8)], **kw), p)
    add(Def("H22", [F("f0", U32), F("f1", VEC(ARR(64, U64), COUNT("f0"))), F("z", U8)], **kw), p)
    add(Def("H23", [F("f0", U64), F("f1", VEC(U8, COUNT("f0"), rt="Box<[u8]>")), F("z", U8)], **kw), p)
    add(Def("H24", [F("f0", U64), F("f1", VEC(VECIN(), COUNT("f0")), ), F("z", U8)], **kw), p) if 0 else None
    add(Def("H25", vars=[Var([F("a", U64), F("b", VEC(U16, COUNT("a")))], id=1), Var([F("a", U64), F("b", U8, pyb="a", pya="a")], id=2), Var([F("a", U64), F("b", VEC(U16, BITS("a")))], id=3)], id=Id(U8), **kw), p)
    add(Def("H26", [F("f0", U64), F("f1", U8, pbb="f0", pyb="f0"), F("z", U8)], **kw), p)
    add(Def("H27", [F("f0", U64), F("f1", VEC(BOOL, COUNT("f0")), bits=1), F("z", U8)], **kw), p)
    add(Def("H28", [F("f0", U8, bits=4), F("f1", VEC(CSTR, ALL))], sym=False), p)
    add(Def("H29", [F("f0", VEC(REF("M11"), ALL))], sym=False), p)
    # amounts in signed types: below zero there is nothing to read that many of
    for nm, t in (("i8", I8), ("i16", I16), ("i64", I64), ("i128", I128), ("is", ISIZE)):
        add(Def("Hn" + nm, [F("f0", t), F("f1", VEC(U8, COUNT(sgn("f0")))), F("z", U8)], **kw), p)
        add(Def("Hp" + nm, [F("f0", t), F("f1", U8, **({"pbb" if nm != "i16" else "pyb": sgn("f0")})), F("z", U8)], **kw), p)
    add(Def("H31", [F("f0", I8), F("f1", VEC(U16, COUNT(sgn("f0")))), F("z", U8)], **kw), p)
    add(Def("H32", [F("f0", I8), F("f1", VEC(U16, BYTES(sgn("f0")))), F("z", U8)], **kw), p)
    add(Def("H33", [F("f0", I8), F("f1", VEC(U16, BITS(sgn("f0"))), bits=3), F("z", U8)], **kw), p)
    add(Def("H34", [F("f0", I16), F("f1", MAP(U8, U16, COUNT(sgn("f0")))), F("z", U8)], **kw), p)
    add(Def("H35", [F("f0", I16), F("f1", SET(U16, BYTES(sgn("f0")))), F("z", U8)], **kw), p)
    add(Def("H36", [F("f0", I64), F("f1", U8, pba=sgn("f0"), pyb=1), F("f2", U8, pya=sgn("f0")), F("z", U8)], **kw), p)
    add(Def("H37", [F("f0", I8, bits=4), F("f1", VEC(U8, COUNT(sgn("f0")), rt="Box<[u8]>"), bits=4), F("f2", VEC(U8, BITS(sgn("f0")))), F("z", U8, bits=4)], **kw), p)
    add(Def("H38", vars=[Var([F("a", I16), F("b", VEC(U8, COUNT(sgn("a"))))], id=1), Var([F("a", I8), F("b", OPT(VEC(U8, BYTES(sgn("a")))))], id=2), Var([F("a", I64), F("b", U8, pbb=sgn("a"), pya=sgn("a"))], id=3)], id=Id(U8), **kw), p)
    add(Def("H30", [F("f0", U64), F("f1", VEC(U8, COUNT("f0")), ord="lsb"), F("z", U8)], **kw), p)

# ------------------------------------------------------------------ updates --

def updates(c):
    add = c.add
    p = "upd"
    add(Def("U1", [F("f0", U8, upd=length("f1")), F("f1", VEC(U8, COUNT("f0")))]), p)
    add(Def("U2", [F("f0", U16, upd=length("f1")), F("f1", VEC(U16, COUNT("f0"))), F("z", U8)], en="big"), p)
    add(Def("U3", [F("f0", U8, upd=op("mul", length("f1"), 2)), F("f1", VEC(U16, BYTES("f0"))), F("z", U8)], en="big"), p)
    add(Def("U4", [F("f0", U8, upd=op("add", "f1", 1)), F("f1", U8, upd=op("add", "f0", 1)), F("f2", U8)], sym=False), p)
    add(Def("U5", [F("f0", U8, upd=length("f2")), F("f1", U8, upd=op("add", "f0", length("f2"))), F("f2", VEC(U8, COUNT("f0")))], sym=False), p)
    add(Def("U6", [F("f0", U8, upd=op("mul", length("f1"), 100)), F("f1", VEC(U8, ALL))], sym=False), p)
    add(Def("U7", [F("f0", U8), F("f1", I8, upd=op("mul", "f0", 1)), F("f2", U8, bits=4, upd=op("mod", "f0", 16)), F("z", U8, bits=4)], sym=False), p)
    add(Def("U8d", [F("f0", U8, bits=4, upd=length("f1")), F("f1", VEC(U8, COUNT("f0")), bits=4)], ), p)
    add(Def("U9", vars=[Var([F("a", U8, upd=length("b")), F("b", VEC(U8, COUNT("a")))], id=1), Var([F("a", U8, upd=op("add", "b", 1)), F("b", U8)], id=2), Var(id=3)], id=Id(U8), sym=False), p)
    add(Def("U10", [F("f0", U32, upd=op("mul", "f1", 1500)), F("f1", U16)], en="big", sym=False), p)
    add(Def("U11", [F("f0", U16, upd=op("mul", "f1", 300)), F("f1", U8), F("f2", U8, upd="f0")], sym=False), p)
    add(Def("U12", [F("f0", U8), F("f1", U8, upd=op("sub", "f0", 3)), F("f2", BOOL), F("f3", U64, upd=op("add", "f0", "f1"))], sym=False), p)
    add(Def("U13", [F("f0", U8, upd=length("f3")), F("f1", U8, skip="all", default=4), F("f2", U16, mg=b"\x01", upd=op("add", length("f3"), "f1")), F("f3", VEC(U8, COUNT("f0")))], sym=False), p)
    add(Def("U14", [F("f0", U8, upd=length("f1")), F("f1", VEC(REF("U1"), COUNT("f0")))], sym=False), p)
    add(Def("U15", [F("f0", U8, upd=some("f1")), F("f1", OPT(U8), cond=op("eq", "f0", 1))]), p)
    # fields that are not stored, or not always, are recomputed like any other
    add(Def("U17", [F("f0", U8, upd=length("f3")), F("f1", U8, skip="all", default=1, upd=op("add", length("f3"), 2)), F("f2", U16, skip="write", upd=op("add", "f1", 1)), F("f3", VEC(U8, COUNT("f0")))], sym=False), p)
    add(Def("U18", [F("f0", U8), F("f1", U8, cond=op("eq", "f0", 1), default=3, upd=op("add", "f0", length("f2"))), F("f2", VEC(U8, COUNT("f1"))), F("f3", U8, skip="read", default=9, upd="f1")], sym=False), p)
    add(Def("U19", vars=[Var([F("a", U8, skip="all", upd=length("b")), F("b", VEC(U8, COUNT(2)))], id=1), Var([F("a", U8, mg=b"\x01", pyb=1, upd=op("add", "b", 1)), F("b", U16, upd=op("mul", "a", 2))], id=2), Var([F("id", U8), F("a", U8, upd="b"), F("b", U8)], pat=RANGE(3, 5), st=True)], id=Id(U8), sym=False), p)
    add(Def("U20", [F("f0", U8, upd="f2"), F("f1", U8, upd="f0"), F("f2", U8, upd="f1"), F("f3", U16, upd=op("mul", "f2", 2))], sym=False), p)
    add(Def("U21", [F("f0", U8, map="inc", mty=U8, upd=length("f2")), F("f1", U8, cu="inc", upd=op("add", "f0", 1)), F("f2", VEC(U8, ALL))], sym=False), p)
    add(Def("U22", [F("f0", U8, temp=True, tv=length("f2")), F("f1", U8, upd=length("f2"), as_=op("le", "f1", 9)), F("f2", VEC(U8, COUNT("f0"))), F("f3", I64, upd=op("mul", length("f2"), 1000)), F("f4", ISIZE, upd="f1")], sym=False), p)
    add(Def("U16d", [F("f0", U128, upd=length("f1"), en="big"), F("f1", VEC(U8, COUNT("f0"))), F("f2", USIZE, upd=length("f1"), bits=9)], sym=False), p)
    add(Def("U23", [F("field_0", U8, upd=length("field_1")), F("field_1", VEC(U8, COUNT("field_0"))), F("field_2", U16, upd=op("add", "field_0", length("field_1")))], tuple=True, sym=False), p)
    add(Def("U24", vars=[Var([F("field_0", U8, upd=length("field_1")), F("field_1", VEC(U8, COUNT("field_0")))], id=1, tuple=True), Var([F("field_0", U8), F("field_1", U16, upd=op("mul", "field_0", 300)), F("field_2", U8, upd=op("add", "field_0", 255))], id=2, tuple=True)], id=Id(U8), sym=False), p)

# ----------------------------------------------------------------- wrappers --

def wrappers(c):
    add = c.add
    p = "wrap"
    add(Def("WE", [F("a", U16), F("b", U8, bits=4)], en="e0", params=[("e0", "E")]))
    add(Def("W1", [F("f0", BOX(U16)), F("f1", ARC(U16)), F("f2", COW(U16)), F("f3", U16)], en="big"), p)
    add(Def("W2", [F("f0", BOX(U8), bits=3), F("f1", ARC(U16), bits=11), F("f2", COW(U8), bits=2)], en="big"), p)
    add(Def("W3", [F("f0", BOX(REF("WE"))), F("f1", ARC(REF("WE"))), F("f2", COW(REF("WE"))), F("f3", REF("WE"))], en="big"), p)
    add(Def("W4", [F("f0", OPT(U16)), F("f1", OPT(BOX(U16))), F("f2", U8)], en="big"), p)
    add(Def("W5", [F("f0", TUP(U8)), F("f1", TUP(U8, U16)), F("f2", TUP(U8, U16, U32)), F("f3", TUP(U8, U8, U8, U16))], en="big"), p)
    add(Def("W6", [F("f0", TUP(U8, U8, U8, U8, U16)), F("f1", TUP(U8, U16, I8, U8, U8, U32))], en="little"), p)
    add(Def("W7", [F("f0", ARR(0, U8)), F("f1", ARR(1, U16)), F("f2", ARR(3, U8)), F("f3", ARR(2, ARR(2, U16))), F("f4", ARR(2, TUP(U8, U16)))], en="big"), p)
    add(Def("W8", [F("f0", U8), F("f1", UNIT), F("f2", UNIT), F("f4", U8)]), p)
    add(Def("W9", [F("f0", NZ(8)), F("f1", NZ(16)), F("f2", NZ(32)), F("f3", NZ(64))], en="big"), p)
    add(Def("W10", [F("f0", NZ(8, 1)), F("f1", NZ(16, 1)), F("f2", NZ(32, 1)), F("f3", NZ(128))], en="little"), p)
    add(Def("W11", [F("f0", NZ(8), bits=3), F("f1", NZ(16), bits=9), F("f2", NZ(8), bits=4)], en="big"), p)
    add(Def("W11l", [F("f0", NZ(8), bits=3), F("f1", NZ(16), bits=9), F("f2", NZ(32), bytes=3), F("f3", NZ(8), bits=4)], en="little", ord="lsb"), p)
    add(Def("W12", [F("f0", BOOL), F("f1", BOOL, bits=1), F("f2", BOOL, bits=7), F("f3", OPT(BOOL))]), p)
    add(Def("W13", [F("f0", IPV4), F("f1", IPV4, en="big"), F("f2", IPV6), F("f3", IPV6, en="big"), F("f4", U8)]), p)
    add(Def("W14", [F("f0", U8, bits=4), F("f1", IPV4, en="big"), F("f2", U8, bits=4)]), p)
    add(Def("W15", [F("f0", U8), F("f1", CSTR), F("f2", U8)]), p)
    add(Def("W16", [F("f0", U8), F("f1", CSTR, bytes="f0"), F("f2", U8)]), p)
    add(Def("W16b", [F("f0", CSTR, bytes=2), F("f1", CSTR, bytes=3), F("f2", U8)]), p)
    add(Def("W17", [F("f0", U8, bits=3), F("f1", CSTR), F("f2", U8, bits=5)]), p)
    add(Def("W18", [F("f0", U8), F("f1", VEC(CSTR, COUNT("f0"))), F("f2", U8)]), p)
    add(Def("W19", [F("f0", MAP(U8, U16, COUNT(2))), F("f1", SET(U16, COUNT(2))), F("f2", U16)], en="big"), p)
    add(Def("W20", [F("f0", MAP(U8, U8, COUNT(2)), bits=4), F("f1", SET(U8, COUNT(2)), bits=4), F("f2", U8)]), p)
    add(Def("W21", [F("f0", U8), F("f1", MAP(U8, BOX(U16), COUNT("f0")), en="big"), F("f2", U8)]), p)
    add(Def("W22", [F("f0", U8), F("f1", VEC(U16, COUNT("f0"), rt="Box<[u16]>"), en="big"), F("f2", VEC(U8, COUNT("f0"), rt="std::sync::Arc<[u8]>"), bits=4), F("f3", U8)]), p)
    add(Def("W23", [F("f0", BOX(VEC(U16, COUNT(2))), en="big"), F("f1", BOX(BOX(U16)), en="big"), F("f2", OPT(TUP(U8, U16)), en="big")]), p)
    add(Def("W24", [F("f0", BOX(TUP(U8, U16)), ord="lsb", bits=8), F("f1", ARR(2, BOOL), bits=4)]), p)
    add(Def("W25", [F("f0", ARR(4, U8), bits=3, ord="lsb"), F("f1", ARR(4, U8), bits=1, ord="lsb")]), p)
    add(Def("W26", vars=[Var([F("a", BOX(REF("M11")))], id=1), Var([F("a", CSTR), F("b", NZ(8))], id=2), Var([F("a", MAP(U8, U8, COUNT(1)))], id=3)], id=Id(U8)), p)
    add(Def("W27", [F("f0", COW(VEC(U8, COUNT(2)))), F("f1", U8)]), p)
    add(Def("W28", [F("f0", I(32, 0, "std::net::IpAddr"), map="same", mty=U32), F("f1", I(128, 0, "std::net::IpAddr"), map="same", mty=U128), F("f2", I(32, 0, "std::net::IpAddr"), map="same", mty=U32, en="little"), F("z", U8)], en="big"), p)
    add(Def("W29", [F("f0", TUP(U8, U16, U8, I8, U8, U8, U16)), F("f1", TUP(U8, U8, U8, U8, U16, U8, U8, U8, U8)), F("f2", TUP(U8, U8, U8, U16, U8, U8, U8, U8, U8, U8, I16))], en="big"), p)
    add(Def("W30", [F("f0", TUP(U8, U8, U8, U8, U8, U8, U8, U8), bits=3), F("f1", TUP(U8, U8, U8, U8, U8, U8, U8, U8, U8, U8), bits=5), F("z", U8, bits=6)]), p)

# ----------------------------------------------------- feature configurations --

def config(c):
    """what feature configurations implement separately: byte-sized integers, byte padding, allocation-free types, hashes"""
    add = c.add
    p = "cfg"
    for i, (nm, t) in enumerate(INTS):
        nb = max(1, t["w"] // 8 - 1)
        e = ["big", "little"]
        add(Def("Q%s" % nm, [F("f0", t, en=e[i % 2]), F("f1", t, bytes=nb, en=e[(i + 1) % 2]), F("f2", ARR(2, t), en=e[i % 2], pya=1), F("z", U8)]), p)
    add(Def("Qf", [F("f0", F32, en="big"), F("f1", F64, en="little"), F("f2", BOOL), F("f3", BOOL, bytes=1)]), p)
    add(Def("Qx", [F("f0", U8), F("f1", U64, bytes="f0", en="big")], sym=False), p)
    add(Def("Qp", [F("f0", U8), F("f1", U8, pyb="f0"), F("f2", U16, pya="f0"), F("z", U8, pyb=40)]), p)
    add(Def("QpE", vars=[Var([F("a", U8, pyb=2)], id=1), Var([F("a", U16, pya="b0"), F("z", U8)], id=2)] if 0 else
                        [Var([F("a", U8, pyb=2)], id=1), Var([F("b", U8), F("a", U16, pya="b")], id=2)], id=Id(U8)), p)
    DH = "std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>"
    m = MAP(U8, U16, COUNT("f0")); m["rt"] = "std::collections::HashMap<u8, u16, %s>" % DH
    s = SET(U16, BYTES(4)); s["rt"] = "std::collections::HashSet<u16, %s>" % DH
    add(Def("Qh", [F("f0", U8), F("f1", m, en="big"), F("f2", s), F("z", U8)]), p)
    add(Def("Qv", [F("f0", U8), F("f1", VEC(U8, COUNT("f0"))), F("f2", VEC(U16, BYTES("f0")), en="big"), F("f3", VEC(U8, UNTIL(op("eq", "_el", 0), "|_el: &u8|"))), F("f4", VEC(U8, ALL))]), p)
    add(Def("QvIn", [F("a", U8), F("b", VEC(U8, COUNT("a")))]))
    add(Def("Qvv", [F("f0", U8, temp=True, tv=length("f1")), F("f1", VEC(REF("QvIn"), COUNT("f0"))), F("f2", OPT(U16), cond=op("eq", length("f1"), 1))]), p)
