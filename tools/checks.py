"""What each property's check runs: families of definitions, what is recorded, how much."""

ASSUMPTIONS = [
    "the Rust rendering of a definition (tools/dsl.py) and its JSON rendering describe the same type",
    "the harness records observations faithfully (harness/rt)",
    "definitions, inputs and values outside the generated families and bounds are not explored",
]

CONF = ["read", "write", "fb", "bits", "dec", "prefix", "sweep"]

OWN = dict(name="own", module="MCOwn", workers=3)
NOSEEK = dict(name="noseek", module="MCNoSeek", workers=3)
ENGINE = dict(name="engine", module="MCEngine")
READER = dict(name="reader", module="MCReader", workers=3)
WRITER = dict(name="writer", module="MCWriter", workers=2)
CODEC = dict(name="codec", module="MCCodec", workers=6)

def spread(cat, names, thorough):
    """a sample of the definitions, evenly from each class of needed features; the iteration order of a map with the
    standard hasher changes from run to run, so the runs could not be compared"""
    names = [n for n in names if not cat.unordered(n)]
    if thorough: return names
    classes = {}
    for n in names: classes.setdefault(tuple(sorted(cat.needs(n))), []).append(n)
    r = []
    for k, v in sorted(classes.items()):
        m = {(): 48, ("alloc",): 24, ("bits",): 32}.get(k, 12)
        step = max(1.0, len(v) / m)
        r += [v[int(i * step)] for i in range(min(m, len(v)))]
    return r

CONFIGS = [("main", "std,bits,desc"), ("quiet", "std,bits"), ("allocbitslog", "alloc,bits,logging"), ("bits", "bits"),
           ("std", "std"), ("allocdesc", "alloc,desc"), ("none", ""), ("log", "logging")]

CHECKS = {
    "C01": dict(families=[], modes=["reader", "sched", "noseek"], mc=[READER], cap=(40000, 400000), n=(60, 600)),
    "C02": dict(families=[], modes=["writer", "sched", "noseek"], mc=[WRITER], cap=(40000, 400000), n=(60, 600)),
    "C03": dict(families=["ints"], modes=["read", "fb"], mc=[CODEC, ENGINE], cap=(40000, 400000)),
    "C04": dict(families=["ints"], modes=["write", "bits"], mc=[CODEC, ENGINE], cap=(40000, 400000)),
    "C05": dict(families=["mix", "ints", "cont", "enum", "pad", "wrap", "seek", "cond", "ctx", "magic"], modes=["write", "dec"], offs=[0], budget=(12, 300)),
    "C06": dict(families=["pos", "mix", "wrap", "seek", "enum", "cond", "cont", "pad"], modes=["read", "write", "ep", "off"], offs=[0, 3, 8], budget=(9, 200)),
    "C07": dict(families=["mix", "cont", "pad"], modes=["read", "write", "sched", "noseek", "reader", "writer"], budget=(9, 200)),
    "C08": dict(families=["mix", "cont", "seek"], modes=["read", "write", "fault", "seekfail", "reader", "writer"], budget=(9, 200), cap=(2500, 30000)),
    "C09": dict(families=["mix", "cont", "pad", "enum"], modes=["read", "trunc", "off"], budget=(12, 300), offs=[0, 5]),
    "C10": dict(families=["cont", "long"], modes=CONF),
    "C11": dict(families=["enum"], modes=CONF + ["id"]),
    "C12": dict(families=["pad"], modes=CONF),
    "C13": dict(families=["magic"], modes=CONF),
    "C14": dict(families=["cond"], modes=CONF),
    "C15": dict(families=["ctx"], modes=CONF),
    "C16": dict(families=["seek"], modes=["read", "write", "fb", "dec", "prefix", "ep", "sweep"]),
    "C17": dict(families=["size"], modes=["size", "read", "write", "fb", "bits", "dec"]),
    "C18": dict(families=["hostile"], modes=["hostile", "read", "ep", "alloc"], n=(30, 600), budget=(20, 300)),
    "C19": dict(families=["cfg", "pos", "mix", "ints", "cont", "enum", "pad", "magic", "cond", "ctx", "seek", "size", "upd", "wrap"],
                modes=["read", "write", "update", "size", "fb", "bits", "dec", "sched", "noseek", "fault", "trunc"], configs=CONFIGS, pick=spread,
                n=(8, 60), budget=(6, 60)),
    "C20": dict(families=["upd"], modes=["update", "dec"], n=(60, 1000)),
    "C21": dict(families=["wrap"], modes=CONF),
    "C22": dict(families=["pos"], modes=["read", "write", "fb", "off", "chain", "sweep"], offs=[0, 3, 8], n=(30, 400)),
    "C23": dict(families=["mix", "ints", "cont", "pad", "enum", "cond", "wrap", "magic", "ctx"], modes=["chain"], n=(10, 150), offs=[0, 5], budget=(6, 200)),
    "C25": dict(families=["seek", "mix", "cont", "pad"], modes=["wrapper", "read", "write", "unseekable"], mc=[NOSEEK, ENGINE], budget=(6, 200), cap=(40000, 400000)),
    "C24": dict(families=["wrap", "cont", "cond", "enum", "mix"], modes=["own"], mc=[OWN, ENGINE], budget=(6, 200), cap=(40000, 400000)),
}
