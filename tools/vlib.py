"""Running TLC, building the harness, supervising the driver processes."""
import concurrent.futures, glob, hashlib, itertools, json, os, re, shutil, struct, subprocess, sys, time

VERIF = "/verif"
SPEC = VERIF + "/spec"
BUILD = VERIF + "/build"
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, **kw)


def write(path, text):
    """Write only if changed."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)


# ------------------------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, module, cfg, out, rc, secs):
        self.module, self.cfg, self.out, self.rc, self.secs = module, cfg, out, rc, secs
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.deadlock = "Error: Deadlock reached." in out
        self.invariant = bool(re.search(r"Error: (Invariant|Action property|Temporal) ", out))
        ls = re.findall(r"^/?\\? ?\*? ?l = (\d+)", out, re.M) or re.findall(r"\bl = (\d+)", out)
        self.pos = int(ls[-1]) if ls else None


_n = itertools.count()


def tlc(module, cfg=None, env=None, workers=1, mem="3g", timeout=800, extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    meta = "%s/tlc/%d-%d" % (BUILD, os.getpid(), next(_n))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = run(cmd, timeout=timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(module, cfg or module, r.stdout + r.stderr, r.returncode, time.time() - t)


def model(module, cfg=None, workers=4, **kw):
    """Check a design-level model; it has to hold (it does not depend on the code)."""
    r = tlc(module, cfg, workers=workers, **kw)
    if not r.ok:
        raise ToolError("model %s/%s: %s" % (module, r.cfg, r.out[-3000:]))
    log("model %s: %d states, %.1f s" % (r.cfg, r.distinct, r.secs))
    return r


def lines(path):
    with open(path) as f:
        return [x for x in f.read().split("\n") if x]


START = '{"op":"start"'


def judge(module, cfg, files, env=None, par=8, mem="3g", new=lambda line: True):
    """Check recorded traces. Returns (runs, [(file, the history before it, event line)]).

    Once several new events have been rejected, the parts that are left are not judged."""
    todo = []
    for f in files:
        ls = lines(f)
        if not ls:
            continue
        # balance: parts of at most 12000 events or 6 MB
        cur, size, k = [], 0, 0
        histories = ls[0].startswith(START)
        for i, x in enumerate(ls):
            cur.append(x)
            size += len(x)
            # a history stays in one part
            whole = not histories or i + 1 == len(ls) or ls[i + 1].startswith(START)
            if (len(cur) >= 12000 or size > 6_000_000) and whole:
                p = "%s.%d.nd" % (f, k)
                open(p, "w").write("\n".join(cur) + "\n")
                todo.append((p, len(cur), cur))
                cur, size, k = [], 0, k + 1
        if cur:
            p = "%s.%d.nd" % (f, k)
            open(p, "w").write("\n".join(cur) + "\n")
            todo.append((p, len(cur), cur))
    runs, bad, errors, seen = [], [], [], []

    def one(t):
        p, n, ls = t
        if len(seen) >= 6:
            return p, n, ls, None
        e = dict(env or {})
        e["TRACE"] = p
        try:
            r = tlc(module, cfg, env=e, mem=mem, timeout=3000 if THOROUGH else 500)
            if r.deadlock and r.pos and new(ls[r.pos - 1]):
                seen.append(p)
        except ToolError as x:
            r = x
        return p, n, ls, r

    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        for p, n, ls, r in ex.map(one, todo):
            if r is None:
                os.remove(p)
                continue
            if isinstance(r, ToolError):
                errors.append(r)
                continue
            if r.ok:
                # every event has to have been consumed
                if r.distinct != n + 1:
                    raise ToolError("TLC consumed %d of %d events of %s" % (r.distinct - 1, n, p))
            elif r.deadlock and r.pos:
                first = r.pos - 1
                while ls[0].startswith(START) and not ls[first].startswith(START):
                    first -= 1
                bad.append((p, ls[first:r.pos - 1], ls[r.pos - 1]))
            else:
                shutil.copy(p, BUILD + "/tlc-error.ndjson")
                i = r.out.find("Error:")
                errors.append(ToolError("TLC on %s: rc %d: %s ... %s" % (p, r.rc, r.out[i:i + 3000], r.out[-2500:])))
                continue
            os.remove(p)
            runs.append((r, n))
    # an event rejected is rejected, whatever became of the others
    if errors and not bad:
        raise errors[0]
    for x in errors:
        log("not judged:", str(x)[:300])
    return runs, bad


# ---------------------------------------------------------------------------------- cargo
def repo_hash():
    h = hashlib.sha256()
    for d in ("ssz", "ssz_derive", "Cargo.toml"):
        p = os.path.join(REPO, d)
        fs = [p] if os.path.isfile(p) else sorted(
            f for f in glob.glob(p + "/**/*", recursive=True) if os.path.isfile(f) and "/target/" not in f)
        for f in fs:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def cargo_env(target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def forget_stale(target):
    """Never trust modification times: drop what was built from other sources of the library."""
    stamp = target + "/repo.hash"
    h = repo_hash()
    try:
        old = open(stamp).read()
    except FileNotFoundError:
        old = None
    if old != h:
        for f in glob.glob(target + "/**/.fingerprint/ethereum_ssz*", recursive=True):
            shutil.rmtree(f, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        open(stamp, "w").write(h)


def cargo(ws, target, args, timeout=700):
    """Returns (ok, [(file or None, message)]) of errors; files relative to the workspace."""
    forget_stale(target)
    r = run(["cargo", *args, "--offline", "--message-format=json", "-q"], timeout=timeout, cwd=ws,
            env=cargo_env(target))
    errs = []
    for x in r.stdout.split("\n"):
        if not x.startswith("{"):
            continue
        m = json.loads(x)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        sp = m["message"]["spans"]
        f = next((s["file_name"] for s in sp if s["is_primary"]), sp[0]["file_name"] if sp else None)
        if f and f.startswith(ws + "/"):
            f = f[len(ws) + 1:]
        errs.append((f, m["message"]["rendered"] or m["message"]["message"]))
    if r.returncode != 0 and not errs:
        errs.append((None, r.stderr[-3000:]))
    return r.returncode == 0, errs


# ------------------------------------------------------------------------------ supervision
SLOT_LEN = 1 << 21


def read_journal(path):
    out = []
    try:
        f = open(path, "rb")
    except FileNotFoundError:
        return out
    n = os.path.getsize(path) // SLOT_LEN
    for i in range(n):
        f.seek(i * SLOT_LEN)
        seq, big, ln = struct.unpack("<QQQ", f.read(24))
        if seq:
            out.append((big, f.read(min(ln, SLOT_LEN - 24))))
    return out


def death(rc):
    if rc == 99:
        return "hang"
    if rc < 0:
        return "signal %d" % -rc
    return "exit %d" % rc


def supervise(cmd, out, one, event, max_deaths=4, timeout=600):
    """Run a driver; when it dies, rerun each journalled case alone (command from `one(payload)`),
    record an event for those that die alone, and rerun the driver without them.
    `one` returns (command, key); `event` makes the event. Returns the events of deaths."""
    died, skip = [], set()
    for _ in range(max_deaths):
        os.makedirs(out, exist_ok=True)
        for f in glob.glob(out + "/part*"):
            os.remove(f)
        r = run(cmd + (["--skip", ",".join(map(str, sorted(skip)))] if skip else []), timeout=timeout)
        if r.returncode == 0:
            return died
        js = read_journal(out + "/journal")
        log("driver ended with", death(r.returncode), "cases:", len(js), r.stderr[-500:])
        found = False
        for big, p in js:
            c, key = one(p)
            if key in skip:
                continue
            q = run(c, timeout=timeout)
            if q.returncode != 0:
                j1 = read_journal(out + "/journal1")
                died.append(event(p, death(q.returncode), bool(j1 and j1[0][0])))
                skip.add(key)
                found = True
        if not found:
            raise ToolError("driver ended with %s and no case reproduces it: %s" %
                            (death(r.returncode), r.stderr[-2000:]))
    return died
