#!/usr/bin/env python3
"""check.py PROPERTY: decide one property against /repo's current tree.

1. render the property's family of definitions: JSON for the TLA+ engine, Rust for deku
2. in parallel: build the harness against /repo, and model-check the
   specification on the family (TLC), collecting its behaviours
3. replay the behaviours, and seeded further cases, in the real code, recording traces
4. validate every recorded case against the specification (TLC, sharded)
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import catalog, checks, dsl

REPO = "/repo"
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)

class CheckError(Exception):
    pass

class Rejected(Exception):
    """deku builds, but no longer accepts definitions the specification gives a meaning to"""

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)

# ------------------------------------------------------------------- TLC --

def tlc(work, name, module, cfg, env, workers=1, timeout=600, heap=None):
    """run TLC; returns its output lines"""
    meta = os.path.join(work, "meta-" + name)
    out = os.path.join(work, name + ".tlc")
    cmd = ["java", "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2"] + (["-Xmx" + heap] if heap else []) + \
        ["-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, module]
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **env}, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + name)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, out

def tlc_lines(path):
    """TLC's printed strings"""
    with open(path, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith('"') and line.endswith('"'):
                yield line[1:-1].replace('\\"', '"')

def tlc_stats(path):
    s = open(path, errors="replace").read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", s)
    if "No error has been found" not in s or not m:
        tail = "\n".join([l for l in s.splitlines() if "BEH" not in l][-40:])
        raise CheckError("TLC did not accept %s:\n%s" % (path, tail[-3000:]))
    return int(m.group(1)), int(m.group(2))

# ----------------------------------------------------------------- cargo --

def toolchain():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): env.pop(k, None)
    env["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + env.get("PATH", "")
    have = subprocess.run(["rustup", "toolchain", "list"], env=env, capture_output=True, text=True).stdout
    if "1.98.1" in have: env["RUSTUP_TOOLCHAIN"] = "1.98.1"
    env.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
    return env

def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(text)

def features(cfg):
    """the features a configuration turns on"""
    f = set(cfg.split(",")) - {""}
    if f & {"std", "desc"}: f.add("alloc")
    return f

def build(work, cat, names, label, cfg="std,bits,desc"):
    """render the definitions and build the harness binary for one feature configuration"""
    crate = os.path.join(work, "crate-" + label)
    feats = cfg.split(",") if cfg else []
    flist = ", ".join('"%s"' % f for f in feats)
    dep = 'rt = { path = "%s/harness/rt", default-features = false, features = [%s] }\ndeku = { path = "%s", default-features = false }\n' % (HERE, flist, REPO)
    if "logging" in feats: dep += 'log = "0.4"\n'          # as deku's documentation asks for
    size = max(1, -(-len(names) // max(1, min(6, len(names) // 8))))
    chunks = [names[i:i + size] for i in range(0, len(names), size)]
    pk = "g_" + label
    parts, deps = [], dep
    for i, ch in enumerate(chunks):
        sub = "%s_p%d" % (pk, i)
        write(os.path.join(crate, sub, "Cargo.toml"), '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n%s' % (sub, dep))
        write(os.path.join(crate, sub, "src", "lib.rs"), dsl.PRELUDE + cat.rust(ch, feats))
        parts.append("all.extend(%s::all());" % sub)
        deps += '%s = { path = "%s" }\n' % (sub, sub)
    write(os.path.join(crate, "Cargo.toml"), '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n%s[workspace]\nmembers = [%s]\n'
          % (pk, deps, ", ".join('"%s_p%d"' % (pk, i) for i in range(len(chunks)))))
    main = open(os.path.join(HERE, "harness/gen/main.rs")).read().replace("//PARTS", "\n    ".join(parts))
    write(os.path.join(crate, "src", "main.rs"), main)
    shutil.copy(os.path.join(HERE, "harness/rt/Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    target = os.path.join(BUILD, "target" + ("" if cfg == "std,bits,desc" else "-" + label))
    env = toolchain()
    stamp = os.path.join(target, ".repo")
    now = repo_hash()
    if os.path.isdir(target) and (not os.path.exists(stamp) or open(stamp).read() != now):
        shutil.rmtree(target)
    write(stamp, now)
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=crate, env={**env, "CARGO_TARGET_DIR": target}, capture_output=True, text=True)
    if r.returncode:
        text = "\n".join([l for l in r.stderr.splitlines() if not l.startswith("warning")][-80:])[-6000:]
        # deku in its default configuration, on its own: if that does not build there is nothing to decide
        alone = subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                               cwd=os.path.join(HERE, "harness/rt"), env={**env, "CARGO_TARGET_DIR": target + "-alone"}, capture_output=True, text=True)
        shutil.rmtree(target + "-alone", ignore_errors=True)
        if alone.returncode: raise CheckError("deku does not build:\n" + alone.stderr[-6000:])
        raise Rejected("with features [%s]:\n%s" % (cfg, text))
    exe = os.path.join(work, "harness-" + label)
    shutil.copy(os.path.join(target, "debug", pk), exe)
    return exe

# --------------------------------------------------------------- harness --

DEATHS = {77: "alloc", 78: "hang", 79: "too slow"}

def run_harness(exe, work, label, args, timeout=300):
    """run the recorder, carrying on after a case it did not survive"""
    out = os.path.join(work, label + ".ndjson")
    if os.path.exists(out): os.remove(out)
    start, deaths = 0, 0
    t_end = time.time() + timeout
    while True:
        cmd = ["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "-", exe, "--out", out, "--from", str(start)] + args
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, label + ".err"), "w"), env=dict(os.environ, RUST_BACKTRACE="0"))
        cur = out + ".cur"
        try:
            rc = p.wait(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            # ordinary runs take seconds, and single cases that hang are ended by the watchdog
            if not os.path.exists(cur): raise CheckError("the harness did not finish")
            rc, t_end = 79, 0
        if rc == 0: return out, deaths
        if not os.path.exists(cur):
            raise CheckError("harness ended with %s: %s" % (rc, open(os.path.join(work, label + ".err")).read()[-2000:]))
        c = json.load(open(cur))
        c["st"] = "the process did not survive: " + DEATHS.get(rc, "abort %s" % rc)
        # drop a partly written line
        data = open(out, "rb").read() if os.path.exists(out) else b""
        keep = data.rfind(b"\n") + 1
        with open(out, "wb") as f: f.write(data[:keep] + json.dumps(c).encode() + b"\n")
        start = c["id"]
        deaths += 1
        if deaths >= 12 or not t_end: return out, deaths

# ----------------------------------------------------------------- judge --

def judge(work, prop, trace, types, shards=CPUS, timeout=700):
    lines = open(trace).read().splitlines()
    if not lines: raise CheckError("nothing was recorded")
    shards = max(1, min(shards, len(lines) // 40 + 1))
    # deal cases out so that expensive neighbours spread over the shards
    files = []
    for s in range(shards):
        p = os.path.join(work, "shard%d.ndjson" % s)
        part = lines[s::shards]
        write(p, "\n".join(part) + "\n")
        files.append((p, len(part)))
    def one(s):
        p, n = files[s]
        rc, out = tlc(work, "judge%d" % s, "DekuTrace.tla", "DekuTrace.cfg", dict(TRACE=p, TYPES=types, PROP=prop), heap="2500m", timeout=timeout)
        bad, known, done = [], [], 0
        for l in tlc_lines(out):
            if l.startswith("BAD "): bad.append(l.split(" ", 2)[1:])
            elif l.startswith("KNOWN "): known.append(l.split(" ", 2)[1:])
            elif l.startswith("DONE "): done = int(l.split()[1])
        if done != n:
            txt = open(out, errors="replace").read()
            if bad: return bad, known, (0, 0)       # enough to decide
            raise CheckError("judge stopped after %d of %d cases of shard %d:\n%s" % (done, n, s, txt[-3000:]))
        return bad, known, tlc_stats(out)
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    bad = [b for r in rs for b in r[0]]
    known = [k for r in rs for k in r[1]]
    return lines, bad, known, sum(r[2][1] for r in rs)

# ------------------------------------------------------------------ main --

BEH = re.compile(r'^<<"BEH", "([^"]*)", (\d+), "([^"]*)", <<([0-9, ]*)>>>>$')
OPB = re.compile(r'^<<"(OPR|OPW|OPC|OPL|OPN)", (.*)>>$')

def model_check(work, mc, types, jobs, tier):
    """run one model-checking configuration; returns stats and behaviours"""
    env = dict(TYPES=types, JOBS=jobs, GRAIN="step", DEPTH=str(mc.get("depth", 0)), TIER=tier)
    env.update({k: str(v) for k, v in mc.get("env", {}).items()})
    rc, out = tlc(work, "mc-" + mc["name"], mc["module"] + ".tla", mc.get("cfg", mc["module"]) + ".cfg", env, workers=mc.get("workers", 6), heap="6g", timeout=mc.get("timeout", 800))
    gen, dist = tlc_stats(out)
    beh = []
    for l in tlc_lines(out):
        m = BEH.match(l)
        if m:
            hx = "".join("%02x" % int(b) for b in m.group(4).split(",") if b.strip())
            beh.append((m.group(1), m.group(2), m.group(3), hx))
        else:
            m = OPB.match(l)
            if m: beh.append((m.group(1), m.group(2)))
    return dict(name=mc["name"], generated=gen, distinct=dist, behaviours=len(beh)), beh

def known_findings(prop):
    """(key, text) of the findings listed for a property"""
    r = {}
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: r[m.group(2)] = m.group(3)
    return r

def behaviours_file(work, beh, writes, updates):
    seen, lines = set(), []
    for b in beh:
        if len(b) == 4:
            ty, off, st, hx = b
            if (ty, off, hx) in seen: continue
            seen.add((ty, off, hx))
            lines.append("r %s %s %s" % (ty, off, hx))
            if writes and st == "ok": lines.append("w %s %s %s" % (ty, off, hx))
            if updates and st == "ok": lines.append("u %s %s %s" % (ty, off, hx))
        else:
            lines.append("%s %s" % (b[0], re.sub(r"[<>\" ]", "", b[1])))
    p = os.path.join(work, "behaviours.txt")
    write(p, "\n".join(lines) + "\n")
    return p, len(lines)

HEAD = ("op", "ty", "off", "src", "v", "gen")

def observed(c, full):
    """what a case showed, observation by observation; entry points and parts that only some configurations have are left out"""
    if "st" in c: return dict(died=c["st"])
    r = {}
    def put(key, ob):
        ob = {k: v for k, v in ob.items() if k not in ("c", "env", "al", "rs")}
        k = "%s %s %s" % (key, ob.get("ep"), ob.get("k", ob.get("flt", "")))
        r.setdefault(k, []).append(json.dumps(ob, sort_keys=True))
    for g in c.get("gs", []):
        for ob in g["obs"]: put("%s %s" % (g["len"], g["flt"]), ob)
    for ob in c.get("obs", []): put("", ob)
    for k in ("res", "again", "dec"):
        if k in c: put(k, c[k])
    if "enc" in c: put("enc", {k: v for k, v in c["enc"].items()
                                  if k in ("st", "kd") or k == "b" and c["enc"]["st"] == "ok"})
    for k in ("same", "bits", "bytes", "from"):
        if k in c: r[k] = json.dumps(c[k])
    return r

def merge_configs(work, outs, supports):
    """one record per case, with what each configuration observed; supports: definition -> configurations"""
    by = {}
    for cfg, path in outs:
        seen = {}
        for l in open(path):
            c = json.loads(l)
            key = json.dumps([c.get(h) for h in HEAD])
            seen[key] = seen.get(key, 0) + 1
            by.setdefault((key, seen[key]), []).append((cfg, c))
    out = os.path.join(work, "merged.ndjson")
    with open(out, "w") as f:
        for n, cs in enumerate(by.values(), 1):
            c0 = cs[0][1]
            rec = {h: c0[h] for h in HEAD if h in c0}
            rec.update(id=n, op="x", of=c0["op"], by=[])
            obs = [(cfg, observed(c, supports)) for cfg, c in cs]
            common = set.intersection(*[set(o) for _, o in obs])
            if len({("died" in o) for _, o in obs}) > 1: common = {"died"}
            for (cfg, o), (_, c) in zip(obs, cs):
                rec["by"].append(dict(cfg=cfg, o=json.dumps({k: o.get(k) for k in sorted(common)})))
            missing = [cfg for cfg in supports[c0["ty"]] if cfg not in [b["cfg"] for b in rec["by"]]]
            # nobody else reached this case, or some configuration did not
            rec["missing"] = ",".join(missing)
            if len({b["o"] for b in rec["by"]}) > 1: rec["cases"] = [c for _, c in cs]
            f.write(json.dumps(rec) + "\n")
    return out

def main():
    global T0
    T0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = checks.CHECKS[prop]
    work = os.path.join(BUILD, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    thorough = tier == "thorough"
    cat = catalog.build(tier=tier)
    names = [n for fam in ck["families"] for n in cat.props.get(fam, [])]
    names = list(dict.fromkeys(names))
    if "pick" in ck: names = ck["pick"](cat, names, thorough)
    types = os.path.join(work, "types.json")
    write(types, json.dumps(cat.types_json(names)))
    budget = ck.get("budget", (40, 600))[thorough]
    offs = ck.get("offs", [0])
    jobs = os.path.join(work, "jobs.json")
    write(jobs, json.dumps([cat.job(n, budget, offs) for n in names if cat.defs[n].mc]))
    n = ck.get("n", (12, 200))[thorough]
    log("%s %s seed %d: %d definitions" % (prop, tier, seed, len(names)))

    def evidence(coverage, violations):
        ev = dict(property=prop, tier=tier, seed=seed, level=ck.get("level", "model_checking"), wall_s=round(time.time() - T0, 2), violations=violations,
                  assumptions=ck.get("assumptions", checks.ASSUMPTIONS), coverage=coverage)
        write(os.path.join(HERE, "evidence", prop + ".json"), json.dumps(ev, indent=1))

    configs = ck.get("configs") or [("main", "std,bits,desc")]
    supports = {d: [lab for lab, cfg in configs if cat.needs(d) <= set(features(cfg))] for d in names}
    mcs = [m for m in ck.get("mc", [dict(name="engine", module="MCEngine")]) if not (m["module"] == "MCEngine" and not names)]
    with ThreadPoolExecutor(len(configs) + len(mcs)) as ex:
        fb = [ex.submit(build, work, cat, [d for d in names if lab in supports[d]], prop.lower() + "_" + lab, cfg) for lab, cfg in configs]
        fm = [ex.submit(model_check, work, m, types, jobs, tier) for m in mcs]
        try:
            exes = [f.result() for f in fb]
        except Rejected as e:
            path = os.path.join(BUILD, "replay", prop + ".json")
            write(path, json.dumps(dict(property=prop, seed=seed, tier=tier, first=[dict(verdict="definitions do not compile", errors=str(e))]), indent=1))
            log("definitions the specification gives a meaning to do not compile", str(e)[-3000:])
            evidence(dict(definitions=len(names), definitions_rejected=True), 1)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        log("built")
        mcr = [f.result() for f in fm]
    log("model checked:", [m[0] for m in mcr])
    beh = [b for m in mcr for b in m[1]]
    modes = ck["modes"]
    cap = ck.get("cap", (6000, 60000))[thorough]
    if len(beh) > cap:
        step = len(beh) / cap
        beh = [beh[int(i * step)] for i in range(cap)]
    bpath, nbeh = behaviours_file(work, beh, "write" in modes, "update" in modes)
    outs, deaths = [], 0
    def rec(i):
        lab = configs[i][0]
        return run_harness(exes[i], work, "trace-" + lab, ["--seed", str(seed), "--n", str(n), "--modes", ",".join(modes), "--behaviours", bpath])
    with ThreadPoolExecutor(len(configs)) as ex:
        rs = list(ex.map(rec, range(len(configs))))
    deaths = sum(r[1] for r in rs)
    trace = rs[0][0] if len(configs) == 1 else merge_configs(work, [(configs[i][0], rs[i][0]) for i in range(len(configs))], supports)
    log("recorded", deaths, "deaths")
    lines, bad, known, jstates = judge(work, prop, trace, types)
    log("judged %d cases: %d do not conform, %d show a known deviation" % (len(lines), len(bad), len(known)))

    byid = {}
    ops, tys = {}, {}
    distinct = set()
    samples = []
    wanted = {b[0] for b in bad[:200]} | {k[0] for k in known[:50]}
    for l in lines:
        c = json.loads(l)
        if str(c["id"]) in wanted: byid[str(c["id"])] = c
        ops[c["op"]] = ops.get(c["op"], 0) + 1
        if "ty" in c: tys[c["ty"]] = tys.get(c["ty"], 0) + 1
        inp = c.get("src", c.get("v", c.get("ops")))
        if inp not in ([], {}, None): distinct.add(hashlib.md5(json.dumps([c["op"], c.get("ty"), c.get("off"), inp]).encode()).digest())
        if len(samples) < 4 and ops[c["op"]] == 3: samples.append(json.loads(l[:100000]) if len(l) < 3000 else {"head": l[:600]})
    listed = known_findings(prop)
    violations = [(b[0], b[1]) for b in bad]
    shown = {}
    for cid, key in known:
        if key in listed: shown.setdefault(key, cid)
        else: violations.append((cid, "deviation " + key + " is not a listed finding"))
    replay = os.path.join(BUILD, "replay")
    os.makedirs(replay, exist_ok=True)
    for key, cid in shown.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, listed[key]), flush=True)
    if violations:
        cid, why = violations[0]
        path = os.path.join(replay, "%s.json" % prop)
        recs = [dict(case=byid.get(i, {"id": i}), verdict=w, definition=dsl_text(cat, byid.get(i, {}))) for i, w in violations[:10]]
        write(path, json.dumps(dict(property=prop, seed=seed, tier=tier, count=len(violations), first=recs), indent=1))
        for i, w in violations[:10]:
            c = byid.get(i, {})
            log("  %s %s: %s" % (c.get("op"), c.get("ty", ""), w))
    evidence(dict(
                  states=sum(m[0]["distinct"] for m in mcr), transitions=sum(m[0]["generated"] for m in mcr),
                  traces_validated_against_impl=len(lines), model_checking=[m[0] for m in mcr],
                  behaviours_replayed=nbeh, judge_states=jstates, evaluations=len(lines), distinct_nontrivial=len(distinct),
                  rule="cases: behaviours enumerated by TLC on the specification plus seeded inputs and values per definition; non-trivial: a non-empty input, value or operation list, counted once per (operation, definition, offset, input)",
                  definitions=len(names), cases_by_operation=ops, cases_by_definition=tys if len(tys) < 200 else len(tys),
                  process_deaths=deaths, known_findings_seen=sorted(shown), samples=samples), len(violations))
    if not os.environ.get("KEEP"):
        for f in os.listdir(work):
            p = os.path.join(work, f)
            if f.startswith(("shard", "trace", "harness", "merged", "crate", "judge")) and os.path.isfile(p) and not violations: os.remove(p)
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    log("held")
    return 0

def dsl_text(cat, c):
    try: return "\n".join(cat.def_rust(cat.defs[n]).split("impl rt::Tree")[0] for n in cat.closure([c["ty"]]))
    except Exception: return None

if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("CHECK-ERROR", e, file=sys.stderr, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
