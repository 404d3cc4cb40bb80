"""Checks through the static drivers of /verif/harness (misc, bits)."""
import json, resource, shutil
from vlib import *
from models import MODELS, SIDE

WS = VERIF + "/harness"


class BuildError(ToolError):
    pass


def build(pkg, profile, features=None):
    env_flags = []
    if profile == "checked":
        env_flags = ["--config", "profile.release.debug-assertions=true", "--config",
                     "profile.release.overflow-checks=true"]
    ok, errs = cargo(WS, BUILD + "/target-" + profile, ["build", "--release", "-p", pkg, "-j", "8", *env_flags])
    if not ok:
        raise BuildError("the harness does not build:\n" + "\n".join(m for _, m in errs)[-6000:])
    return "%s/target-%s/release/%s" % (BUILD, profile, pkg)


def drive(binary, prop, out, events, extra=(), timeout=600):
    """Run a driver; a death of the process that repeats becomes an event."""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [binary, "--prop", prop, "--seed", str(SEED), "--out", out, "--threads", "8", "--events", str(events),
           "--thorough", "1" if THOROUGH else "0", "--timeout", "25", *extra]
    r = run(cmd, timeout=timeout)
    if r.returncode != 0:
        js = read_journal(out + "/journal")
        log("driver ended with", death(r.returncode), r.stderr[-300:])
        r2 = run(cmd, timeout=timeout)
        if r2.returncode == 0:
            raise ToolError("driver died once (%s) and not again: %s" % (death(r.returncode), r.stderr[-1000:]))
        if not js:
            raise ToolError("driver died outside a case (%s): %s" % (death(r.returncode), r.stderr[-2000:]))
        for f in glob.glob(out + "/part*"):
            os.remove(f)
        with open(out + "/part-died.ndjson", "w") as f:
            f.write(json.dumps({"op": "died", "how": death(r2.returncode), "big": any(b for b, _ in js),
                                "running": [p[1:1 + p[0]].decode("latin1") + ":" + p[1 + p[0]:][:4000].hex()
                                            for _, p in js]}) + "\n")
    try:
        st = json.load(open(out + "/stats.json"))
    except FileNotFoundError:
        st = {"screened": 0}
    return sorted(glob.glob(out + "/part*.ndjson")), st


class Models:
    """The design models of a property, checked while the harness builds."""

    def __init__(self, prop, res):
        self.res = res
        tier = "thorough" if THOROUGH else "quick"
        self.ex = concurrent.futures.ThreadPoolExecutor(4)
        self.futures = [(m, c, self.ex.submit(self.one, prop, m, m + "_" + tier, c)) for m, c in MODELS.get(prop, [])]

    def one(self, prop, module, cfg, cases):
        f = "%s/cases-%s-%s.nd" % (BUILD, prop, module)
        if os.path.exists(f):
            os.remove(f)
        r = model(module, cfg, workers=4, mem="6g", timeout=3000 if THOROUGH else 300, env={"CASES": f if cases else "", "SIDE": SIDE.get(prop, "")})
        if not cases:
            return r, f, 0
        # what TLC wrote are quoted strings, possibly more than once
        text = sorted({json.loads(x) for x in lines(f)})
        write(f, "\n".join(text) + "\n")
        return r, f, len(text)

    def done(self):
        """[(module, file of behaviours)]"""
        out = []
        for m, c, fut in self.futures:
            r, f, n = fut.result()
            self.res.models.append(r)
            self.res.cov["model_" + r.cfg] = {"distinct_states": r.distinct, "generated": r.generated}
            if c:
                self.res.behaviours += n
                self.res.cov["behaviours_" + r.cfg] = n
                out.append((m, f))
        self.ex.shutdown()
        self.futures = []
        return out


def check(prop, res, pkg, module, profile="release", events=(40000, 400000), extra=(), models=None):
    binary = build(pkg, profile)
    log("built", pkg, profile)
    if models:
        files = [f for _, f in models.done()]
        if files:
            f = "%s/cases-%s.nd" % (BUILD, prop)
            with open(f, "w") as h:
                for x in files:
                    h.write(open(x).read())
                    os.remove(x)
            extra = [*extra, "--cases", f]
    out = "%s/out/%s-%s-%s" % (BUILD, prop, pkg, profile)
    files, st = drive(binary, prop, out, events[1 if THOROUGH else 0], extra, 3000 if THOROUGH else 400)
    log("driver:", st)
    res.evals += st["screened"] + st.get("words", 0)
    for k, v in st.items():
        res.cov["%s_%s" % (pkg, k)] = v
    res.trace(module, "%s_%s" % (module, prop), files)
    if not res.bad:
        shutil.rmtree(out, ignore_errors=True)


def deep(res):
    """Nested values of recursive derived types, each decoded in a process of its own."""
    binary = build("deep", "checked")
    out = BUILD + "/out/C05-deep"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    files = []
    depths = [0, 1, 2, 10, 100, 500, 200000] + ([1000, 2000, 1000000] if THOROUGH else [])
    for d in ("Tree", "Node", "Chain"):
        for n in depths:
            r = subprocess.run([binary, d, str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               timeout=100, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
            o = r.stdout if r.returncode == 0 else death(r.returncode)
            f = "%s/part-%s-%d.ndjson" % (out, d, n) if r.returncode else out + "/part.ndjson"
            with open(f, "a") as h:
                h.write(json.dumps({"op": "deep", "def": d, "depth": n, "o": o}) + "\n")
            if f not in files:
                files.append(f)
            res.evals += 1
    res.trace("TraceMisc", "TraceMisc_C05", files, sample=False)


def recursive(res):
    """The memory that decoding nested values of recursive types takes."""
    binary = build("deep", "release")
    out = BUILD + "/out/C06-deep"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    f, j = out + "/part.ndjson", out + "/journal"
    r = run([binary, "mem", f, j, str(SEED), "20000" if THOROUGH else "2000"], timeout=300)
    if r.returncode != 0:
        # how deep it can go is not the question here; a huge request is
        if not any(big for big, _ in read_journal(j)):
            log("measuring recursive types ended with", death(r.returncode), r.stderr[-300:])
            return
        write(f, json.dumps({"op": "died", "how": death(r.returncode), "big": True}) + "\n")
    res.evals += len(lines(f))
    res.trace("TraceMisc", "TraceMisc_C06", [f])
