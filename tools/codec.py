"""Checks over the universe of types (TraceCodec)."""
import json, os, shutil, subprocess
import codegen
from vlib import *

GEN = BUILD + "/gen"
TARGET = BUILD + "/target"
K = 8


def dump():
    """The universe, the schemas and the definitions, written by TLC from the specification."""
    os.makedirs(BUILD, exist_ok=True)
    env = {"UNIVERSE": BUILD + "/universe.json", "SCHEMAS": BUILD + "/schemas.json",
           "DEFINITIONS": BUILD + "/definitions.json"}
    files = list(env.values())
    # pseudo-random definitions besides the systematic ones
    env.update({"RANDOM": "900" if THOROUGH else "160", "SEED": str(SEED % 60)})
    for p in files:
        if os.path.exists(p):
            os.remove(p)
    r = tlc("DumpUniverse", env=env)
    if not r.ok:
        raise ToolError("DumpUniverse: " + r.out[-3000:])
    u = json.load(open(env["UNIVERSE"]))
    if len(json.load(open(env["SCHEMAS"]))) != len(u):
        raise ToolError("DumpUniverse: the schemas are not those of the universe")
    return u, json.load(open(env["DEFINITIONS"]))


def any_kind(t, f):
    return any(f(x) for x in codegen.walk(t))


def wants(prop, e):
    t, g = e["t"], e["g"]
    if prop == "C15":
        return any_kind(t, lambda x: x["t"] == "opt" or x["t"] == "enum" and x["beh"] == "union")
    if g == "unions":
        return False
    if prop == "C08":
        return codegen.is_derived(t)
    if prop == "C17":
        return any_kind(t, lambda x: x["t"] == "legacy" or
                        x["t"] == "struct" and any(f["w"] == "legacy" for f in x["f"]))
    if prop == "C19":
        return any_kind(t, lambda x: x["t"] in ("set", "map"))
    return True


PROFILES = {
    # the arithmetic and assertions of a release build
    "release": "[profile.release]\nincremental=false\n",
    # the same with arithmetic checked
    "checked": "[profile.release]\nincremental=false\ndebug-assertions=true\noverflow-checks=true\n",
}


def workspace(entries, profile, extra=(), bad_defs=(), bad_ids=()):
    """Write the generated workspace; returns {file: what} and the ids left out."""
    where, left, names = {}, [], []
    k = max(1, min(K, len(entries) // 20))
    # instances of one generic definition belong in one crate
    parts, home = [[] for _ in range(k)], {}
    for n, (i, t) in enumerate(entries):
        s = codegen.shape(t)
        parts[n % k if s == codegen.key(t) else home.setdefault(s, n % k)].append((i, t))
    for i in range(k):
        w, l = codegen.crate("%s/u%d" % (GEN, i), "u%d" % i, parts[i], bad_defs, bad_ids)
        where.update({"u%d/%s" % (i, f): x for f, x in w.items()})
        left += l
        names.append("u%d" % i)
    write(GEN + "/codec/Cargo.toml", codegen.CARGO % "codec" + "".join(
        '%s = { path = "../%s" }\n' % (n, n) for n in names))
    write(GEN + "/codec/src/main.rs",
          "#[global_allocator]\nstatic A: vcore::alloc::Counting = vcore::alloc::Counting;\n"
          "fn main() { let mut e = vec![];\n" + "".join("e.extend(%s::entries());\n" % n for n in names) +
          "vcore::run::main(e); }\n")
    write(GEN + "/Cargo.toml", '[workspace]\nmembers=["codec"]\nresolver="2"\n' + PROFILES[profile] + "".join(
        "[profile.release.package.%s]\nopt-level=0\ncodegen-units=1\n" % n for n in names + ["codec"]) +
        "[profile.release.package.vcore]\nopt-level=1\noverflow-checks=false\n")
    if not os.path.exists(GEN + "/Cargo.lock"):
        shutil.copy(VERIF + "/harness/Cargo.lock", GEN + "/Cargo.lock")
    return where, left


def alike(entries, t):
    """The definitions in the entries that have the shape of t."""
    s, seen = codegen.shape(t), {}
    if s == codegen.key(t):
        return [t]
    for _, e in entries:
        for x in codegen.walk(e):
            if x["t"] == t["t"] and codegen.shape(x) == s:
                seen[codegen.key(x)] = x
    return list(seen.values())


def build(entries, profile):
    """Build the driver over the entries. Returns (binary, rejected terms, ids left out)."""
    bad_defs, bad_ids, rejected = set(), set(), []
    for _ in range(6):
        where, left = workspace(entries, profile, (), bad_defs, bad_ids)
        ok, errs = cargo(GEN, TARGET + "-" + profile, ["build", "--release", "-p", "codec", "-j", "8"])
        if ok:
            return TARGET + "-" + profile + "/release/codec", rejected, left
        news = 0
        for f, msg in errs:
            w = where.get(f)
            if w is None:
                continue
            kind, x = w
            if kind == "def" and codegen.odd_names(json.loads(x)):
                # whether a name is free is not what is asked
                codegen.PLAIN.add(codegen.shape(json.loads(x)))
                news += 1
            elif kind == "def" and x not in bad_defs:
                # a definition that others share is rejected for them too
                for y in alike(entries, json.loads(x)):
                    bad_defs.add(codegen.key(y))
                    rejected.append((y, msg))
                news += 1
            elif kind == "entry" and x not in bad_ids:
                bad_ids.add(x)
                t = next(t for i, t in entries if i == x)
                rejected.append((t, msg))
                news += 1
        if not news:
            raise ToolError("the harness does not build:\n" + "\n".join(m for _, m in errs)[-6000:])
        log("definitions the compiler rejects:", len(bad_defs), "entries:", len(bad_ids))
    raise ToolError("the harness does not build after leaving out %d definitions" % len(bad_defs))


def drive(prop, binary, out, events, screen, seed, timeout, cases=None):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    mem = BUILD + "/mem.json"
    subprocess.run([binary, "--mem", mem], check=True)
    base = [binary, "--prop", prop, "--seed", str(seed), "--out", out, "--threads", "8", "--events", str(events),
            "--screen", str(screen), "--timeout", "25", "--far", "200" if THOROUGH else "24",
            "--huge", "400" if THOROUGH else "40", "--many", "200" if THOROUGH else "16"] + (["--cases", ",".join(cases)] if cases else [])

    def parse(p):
        return p[0], int.from_bytes(p[1:5], "little"), int.from_bytes(p[5:13], "little"), int.from_bytes(
            p[13:17], "little"), p[17:]

    def one(p):
        op, i, rng, fuel, data = parse(p)
        f = out + "/one.bin"
        open(f, "wb").write(data)
        return [binary, "--one", str(op), "--id", str(i), "--rng", str(rng), "--fuel", str(fuel), "--data", f, "--out", out, "--timeout", "25"], i

    def event(p, how, big):
        op, i, rng, fuel, data = parse(p)
        return {"op": "died", "ty": i, "on": ["dec", "enc", "app", "meta", "enc", "enc", "dec", "app", "enc", "dec", "app"][op], "how": how, "big": big,
                "b": list(data[:60000])}

    died = supervise(base, out, one, event, timeout=timeout)
    if died:
        with open(out + "/part-died.ndjson", "w") as f:
            for d in died:
                f.write(json.dumps(d, separators=(",", ":")) + "\n")
    try:
        st = json.load(open(out + "/stats.json"))
    except FileNotFoundError:
        st = {"types": 0, "screened": 0, "events": 0, "suspicious": 0, "memmax": 0, "replayed": 0}
    st["died"] = len(died)
    return sorted(glob.glob(out + "/part*.ndjson")), st, mem


def definitions(defs, out):
    """Which definitions each derive macro accepts (cargo check, to a fixpoint)."""
    ws = BUILD + "/defs"
    items = [(i, s, t) for i, t in enumerate(defs) for s in "ed"]
    bad = set()
    for _ in range(12):
        g = codegen.Gen()
        # the field types only use library types, so every definition stands alone
        lib = ["#![allow(unused, non_camel_case_types)]"]
        where = {}
        for i, s, t in items:
            if (i, s) in bad:
                continue
            n = "n%d%s" % (i, s)
            g = codegen.Gen()
            text = g.definition(t, "D%d" % i, ["ssz_derive::" + ("Encode" if s == "e" else "Decode")], abs_=False)
            write("%s/defs/src/%s.rs" % (ws, n), text)
            where["defs/src/%s.rs" % n] = (i, s)
            lib.append("mod %s;" % n)
        write(ws + "/defs/src/lib.rs", "\n".join(lib) + "\n")
        write(ws + "/defs/Cargo.toml", codegen.CARGO % "defs")
        write(ws + "/Cargo.toml", '[workspace]\nmembers=["defs"]\nresolver="2"\n' + PROFILES["release"])
        if not os.path.exists(ws + "/Cargo.lock"):
            shutil.copy(VERIF + "/harness/Cargo.lock", ws + "/Cargo.lock")
        # same artefacts of the dependencies as the driver's where possible
        ok, errs = cargo(ws, TARGET + "-check", ["check", "-p", "defs", "-j", "8"])
        if ok:
            with open(out, "w") as f:
                for i, s, t in items:
                    f.write(json.dumps({"op": "compile", "side": s, "t": t, "ty": 0,
                                        "o": "reject" if (i, s) in bad else "accept"}) + "\n")
            return len(items), len(bad)
        new = {where[f] for f, _ in errs if f in where} - bad
        if not new:
            raise ToolError("definitions: " + "\n".join(m for _, m in errs)[-4000:])
        bad |= new
    raise ToolError("definitions: no fixpoint")


def grown(prop, defs, res):
    """The definitions SszDeriveM writes, without those of the universe."""
    f = "%s/grown-%s.nd" % (BUILD, prop)
    if os.path.exists(f):
        os.remove(f)
    r = model("SszDeriveM", "SszDeriveM_" + ("thorough" if THOROUGH else "quick"), env={"CASES": f})
    res.models.append(r)
    res.cov["model_" + r.cfg] = {"distinct_states": r.distinct, "generated": r.generated}
    seen = {json.dumps(t, sort_keys=True) for t in defs}
    ts = [json.loads(x) for x in {json.loads(l) for l in open(f)}]
    ts = sorted((t for t in ts if prop == "C08" or t["t"] == "enum"), key=lambda t: json.dumps(t, sort_keys=True))
    return [t for t in ts if json.dumps(t, sort_keys=True) not in seen]


LIMITS = {  # prop: (events, screened per type) quick / thorough
    "C01": ((70000, 4000), (400000, 120000)),
    "C02": ((90000, 4000), (500000, 60000)),
    "C03": ((80000, 4000), (400000, 120000)),
    "C04": ((90000, 4000), (500000, 60000)),
    "C05": ((80000, 6000), (400000, 90000)),
    "C06": ((80000, 4000), (400000, 40000)),
    "C07": ((80000, 4000), (400000, 60000)),
    "C08": ((90000, 4000), (500000, 60000)),
    "C10": ((50000, 4000), (300000, 80000)),
    "C15": ((70000, 4500), (400000, 40000)),
    "C17": ((60000, 8000), (400000, 200000)),
    "C19": ((60000, 6000), (400000, 100000)),
}


# what GenCodec generates for a property
SIDE = {"C01": "enc", "C03": "enc", "C02": "dec", "C04": "dec", "C07": "both", "C08": "both", "C15": "both",
        "C17": "both", "C19": "both"}


# and the models whose behaviours are of its form too
MORE = {"C19": ["SszMapM"]}


def generate(prop, module, entries):
    """Behaviours of the codec for the given types, written by TLC from the specification."""
    ids, f = BUILD + "/ids-%s.json" % prop, "%s/cases-%s-%s.nd" % (BUILD, prop, module)
    write(ids, json.dumps([i for i, _ in entries]))
    if os.path.exists(f):
        os.remove(f)
    tier = "thorough" if THOROUGH else "quick"
    r = model(module, module + "_" + tier, workers=4, mem="6g", timeout=3000 if THOROUGH else 300,
              env={"SCHEMAS": BUILD + "/schemas.json", "IDS": ids, "SEED": str(SEED % 1000), "SIDE": SIDE[prop],
                   "CASES": f})
    return r, f


def check(prop, res, profiles=("release",)):
    universe, defs = dump()
    log("universe:", len(universe))
    entries = [(i + 1, e["t"]) for i, e in enumerate(universe) if wants(prop, e)]
    ex = concurrent.futures.ThreadPoolExecutor(4)
    gens = [ex.submit(generate, prop, m, entries) for m in ["GenCodec"] + MORE.get(prop, [])] if prop in SIDE else []
    cases = []
    for pr in profiles:
        binary, rejected, left = build(entries, pr)
        log("built", pr)
        for g in gens[len(cases):]:
            r, f = g.result()
            cases.append(f)
            res.models.append(r)
            res.cov["model_" + r.cfg] = {"distinct_states": r.distinct, "generated": r.generated}
        ev, sc = LIMITS[prop][1 if THOROUGH else 0]
        out = "%s/out/%s-%s" % (BUILD, prop, pr)
        files, st, mem = drive(prop, binary, out, ev, sc, SEED, 3000 if THOROUGH else 400, cases)
        log("driver:", st)
        res.behaviours += st["replayed"]
        if prop in ("C08", "C15"):
            if rejected:
                f = out + "/part-compile.ndjson"
                with open(f, "w") as h:
                    for t, msg in rejected:
                        if t["t"] in ("struct", "enum"):
                            h.write(json.dumps({"op": "compile", "side": "b", "t": t, "ty": 0, "o": "reject"}) + "\n")
                files.append(f)
            f = out + "/part-defs.ndjson"
            n, nb = definitions(defs + grown(prop, defs, res), f)
            log("definitions:", n, "rejected:", nb)
            res.cov["definitions_compiled"] = n
            res.cov["definitions_rejected"] = nb
            files.append(f)
        env = {"UNIVERSE": BUILD + "/universe.json", "SCHEMAS": BUILD + "/schemas.json", "MEM": mem}
        res.trace("TraceCodec", "TraceCodec_" + prop, files, env,
                  lambda e: universe[e["ty"] - 1]["t"] if e.get("ty") else None)
        res.cov["types_" + pr] = st["types"]
        res.cov["executions_" + pr] = st["screened"]
        res.evals += st["screened"]
        res.cov["types_not_compiled_" + pr] = len(left)
        res.cov["process_deaths_" + pr] = st["died"]
        if prop == "C06":
            res.cov["max_peak_over_bound_" + pr] = round(st["memmax"], 3)
        if not res.bad:
            shutil.rmtree(out, ignore_errors=True)
    for f in cases:
        os.remove(f)
