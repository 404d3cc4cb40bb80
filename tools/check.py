#!/usr/bin/env python3
"""check.py <property> -- decide one property on /repo's current tree.

Exit 0: it held on everything explored; 1: a VIOLATION line was printed; 2: the check failed."""
import fcntl, hashlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import codec

KNOWN = VERIF + "/known-findings.jsonl"


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.runs = []          # TLC runs of trace specifications
        self.models = []        # TLC runs of design models
        self.events = 0
        self.evals = 0
        self.cov = {}
        self.samples = []
        self.bad = []           # (module, cfg, event, term, env, the history before it)
        self.behaviours = 0     # behaviours generated by TLC and replayed
        self.findings = []
        self.assume = []

    def trace(self, module, cfg, files, env=None, term=None, sample=True):
        t = time.time()
        def finding(line):
            e = json.loads(line)
            return next((k for k in known(self.prop) if all(e.get(x) == y for x, y in k["match"].items())), None)

        runs, bad = judge(module, cfg, files, env, new=lambda line: not finding(line))
        n = sum(k for _, k in runs)
        self.runs += [r for r, _ in runs]
        self.events += n
        self.cov["events_" + cfg] = self.cov.get("events_" + cfg, 0) + n
        log("TLC %s: %d events in %d parts, %.1f s, rejected in %d parts" %
            (cfg, n, len(runs), time.time() - t, len(bad)))
        for _, before, line in bad:
            e = json.loads(line)
            k = finding(line)
            if k:
                self.findings.append(k["what"])
                continue
            self.bad.append((module, cfg, e, term(e) if term else None, env or {}, [json.loads(x) for x in before]))
        if sample and files:
            for f in files[:2]:
                ls = lines(f)
                for x in (ls[len(ls) // 3:len(ls) // 3 + 1] + ls[-1:]):
                    if len(x) < 3000:
                        e = json.loads(x)
                        s = {"event": e}
                        if term and term(e):
                            s["type"] = term(e)
                        self.samples.append(s)

    def model(self, module, cfg=None, **kw):
        r = model(module, cfg, **kw)
        self.models.append(r)
        self.cov["model_" + r.cfg] = {"distinct_states": r.distinct, "generated": r.generated}
        return r


def known(prop):
    """The entries of the known-findings file for a property; lines starting with fixed: suppress nothing."""
    try:
        return [e for e in (json.loads(x) for x in lines(KNOWN) if x.startswith("{")) if e["property"] == prop]
    except FileNotFoundError:
        return []


def describe(e, term):
    s = json.dumps(e)
    if len(s) > 1500:
        s = s[:1500] + "..."
    t = (" type=" + json.dumps(term)[:700]) if term else ""
    return s + t


def main(prop):
    import props
    t0 = time.time()
    res = Result(prop)
    props.CHECKS[prop](res)
    for f in res.findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    viol = []
    for i, (module, cfg, e, term, env, before) in enumerate(res.bad):
        d = "%s/evidence/replay" % VERIF
        os.makedirs(d, exist_ok=True)
        body = {"property": prop, "module": module, "cfg": cfg, "event": e, "type": term, "env": env, "before": before,
                "how": "the specification rejects this recorded execution of the real code; "
                       "python3 tools/check.py --replay <this file> judges it again"}
        p = "%s/%s-%s.json" % (d, prop, hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10])
        json.dump(body, open(p, "w"))
        viol.append(p)
        print("  rejected:", describe(e, term))
    states = sum(r.distinct for r in res.models) + sum(r.distinct for r in res.runs)
    trans = sum(r.generated for r in res.models) + sum(r.generated for r in res.runs)
    cov = dict(res.cov)
    cov.update({
        "states": states, "transitions": trans,
        "traces_validated_against_impl": res.events,
        "states_of_design_models": sum(r.distinct for r in res.models),
        "behaviours_generated_from_spec_and_replayed": res.behaviours,
        "executions_of_the_real_code": res.evals,
        "rule": "each validated event is one execution (or history step) of the real code judged by TLC "
                "against the specification; executions are screened first by an untrusted mirror that "
                "only chooses which of them TLC judges (all it finds odd, and a sample of the rest)",
        "samples": res.samples[:6],
    })
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump({"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
               "level": "model_checking", "coverage": cov,
               "assumptions": res.assume or ["the correspondence between Rust values and abstract values in "
                                             "harness/core/src/abs.rs", "TLC"],
               "wall_s": round(time.time() - t0, 2), "violations": len(viol)},
              open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    log("done", prop, "events", res.events, "violations", len(viol))
    if viol:
        for p in viol[:5]:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 0


def replay(path):
    b = json.load(open(path))
    f = BUILD + "/replay.ndjson"
    os.makedirs(BUILD, exist_ok=True)
    if b["module"] == "TraceCodec":
        codec.dump()
    open(f, "w").write("".join(json.dumps(x) + "\n" for x in b["before"] + [b["event"]]))
    e = dict(b["env"])
    e["TRACE"] = f
    r = tlc(b["module"], b["cfg"], env=e)
    print(json.dumps(b["event"]))
    print("accepted by the specification" if r.ok else "rejected by the specification" if r.deadlock else r.out)
    return 0 if r.ok else 1


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        os.makedirs(BUILD, exist_ok=True)
        if sys.argv[1] == "--setup":
            # nothing is kept: every check builds what it needs from /repo's current tree
            for f in sorted(os.listdir(SPEC)):
                if f.endswith(".tla"):
                    r = run(["java", "-cp", CP, "tla2sany.SANY", f], cwd=SPEC)
                    if r.returncode:
                        raise ToolError(f + ": " + r.stdout[-2000:])
            sys.exit(0)
        lock = open(BUILD + "/lock", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
        sys.exit(main(sys.argv[1]))
    except SystemExit:
        raise
    except ToolError as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
