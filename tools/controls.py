#!/usr/bin/env python3
"""controls.py -- are the invariants of the design models sensitive?

Each control weakens one rule of the specification or of a machine, in a scratch copy, and runs the design model at its
quick bounds: TLC has to report a violated invariant (or a failed assertion).  A control that is not noticed is an
invariant that does not hold what it seems to hold.  Not registered as a check: it says nothing about /repo."""
import concurrent.futures, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import CP, SPEC

CONTROLS = [
    # (model, module changed, what it is, from, to)
    ("SszBuilder", "SszBuilder", "the first offset may skip bytes", "IF offs[1][2] # pos THEN Error", "IF offs[1][2] < pos THEN Error"),
    ("SszBuilder", "SszBuilder", "offsets may decrease", "IF o > Len(b) \\/ (offs # <<>> /\\ offs[Len(offs)][2] > o)", "IF o > Len(b)"),
    ("SszBuilder", "SszBuilder", "an offset at the end is refused", "IF o > Len(b) \\/", "IF o >= Len(b) \\/"),
    ("SszBuilder", "SszBuilder", "trailing bytes after fixed items", "IF pos # Len(b) THEN Error", "IF pos > Len(b) THEN Error"),
    ("SszListM", "SszListM", "the limit is one more", "o \\div BytesPerOffset > m THEN", "o \\div BytesPerOffset > m + 1 THEN"),
    ("SszListM", "SszListM", "the first offset needs no alignment", "o % BytesPerOffset # 0 \\/ o < BytesPerOffset THEN", "o < BytesPerOffset THEN"),
    ("SszListM", "SszListM", "room for what is not there", "room' = o \\div BytesPerOffset", "room' = 1 + o \\div BytesPerOffset"),
    ("SszListM", "SszListM", "items may overlap", "IF o < off \\/ o > Len(b)", "IF o > Len(b)"),
    ("SszListM", "SszListM", "a collection is cut instead of refused", "THEN Stop(\"err\")\n  ELSE /\\ got'", "THEN Stop(\"ok\")\n  ELSE /\\ got'"),
    ("SszEncoderM", "SszEncoderM", "offsets count the bytes before", ".off + Len(Top.var))", ".off + Len(Top.var) + Len(pre))"),
    ("SszEncoderM", "SszEncoderM", "offsets do not count the fixed part", "OffsetWord(Top.off + Len(Top.var))", "OffsetWord(Len(Top.var))"),
    ("SszBitfieldM", "SszBitfieldM", "bits beyond the length are kept", "(by[Len(by)] & (255 - (Pow2(used) - 1))) # 0", "FALSE"),
    ("SszBitfieldM", "SszBitfieldM", "a delimiter one beyond the capacity", "ELSE IF h > n THEN Fail", "ELSE IF h > n + 1 THEN Fail"),
    ("SszBitfieldM", "SszBitfieldM", "a shift leaves the low bits", "moved, [j \\in 1..m |-> j])", "moved, [j \\in 1..0 |-> j])"),
    ("SszBitfieldM", "SszBitfieldM", "the shorter intersection", "IF k = \"bitlist\" THEN MinOf(r.len, s.len) ELSE MaxOf", "IF k = \"bitlist\" THEN MaxOf(r.len, s.len) ELSE MaxOf"),
    ("SszBitfieldM", "SszBitfieldM", "a trailing zero byte is accepted", "ELSE IF ByteFor(h) # Len(by) THEN Fail", "ELSE IF ByteFor(h) > Len(by) THEN Fail"),
    ("SszMapM", "SszMapM", "the first of duplicate keys stays", "THEN [a EXCEPT ![p + 1] = x]", "THEN a"),
    ("SszMapM", "SszMapM", "keys in descending order", "C(m, a[i], x) < 0}", "C(m, a[i], x) > 0}"),
    ("SszHexM", "SszHexM", "no prefix is needed", "[] st = \"zero\" /\\ c = 120", "[] st = \"zero\" /\\ c \\in {120, 88}"),
    ("SszHexM", "SszHexM", "an odd digit at the end is dropped", "IF st = \"even\" THEN", "IF st \\in {\"even\", \"odd\"} THEN"),
    ("SszAllocM", "SszAllocM", "growth by four", "MaxOf(2 * cap,", "MaxOf(6 * cap,"),
    ("SszAllocM", "SszAllocM", "room for announced items", "cap \\in {0} \\cup 0..(n \\div d.l)", "cap \\in {0} \\cup 0..(4 * n + 40)"),
    ("SszArbM", "SszArbM", "sizes in bits", "{MaxOf(1, Need)}", "{n}"),
    ("SszArbM", "SszArbM", "bytes are taken as they are", "Value == De(S, Bytes)", "Value == Good(UnpackBits(Bytes, 8 * size))"),
    ("SszCodecM", "SszCodec", "bytes after None", "(IF Len(b) = 1 THEN Good(<<>>) ELSE Fail)", "Good(<<>>)"),
    ("SszCodecM", "SszCodec", "a bool of 2", "b[1] \\in {0, 1} THEN Good(b[1])", "b[1] \\in {0, 1, 2} THEN Good(b[1] % 2)"),
    ("SszCodecM", "SszCodec", "offsets may decrease", "/\\ \\A j \\in 1..(nv - 1) : off[j] <= off[j + 1]", "/\\ TRUE"),
    ("SszCodecM", "SszCodec", "bytes skipped before the first part", "/\\ off[1] = end", "/\\ off[1] >= end"),
    ("SszCodecM", "SszCodec", "an incomplete item at the end", "ELSE IF Len(b) % L # 0 THEN Fail\n", "\n"),
    ("SszCodecM", "SszCodec", "padding bits", "IF \\E i \\in (s.n + 1)..Len(bits) : bits[i] = 1 THEN Fail", "IF FALSE THEN Fail"),
    ("SszCodecM", "SszCodec", "a bitlist too long", "IF len > s.n THEN Fail ELSE", "IF FALSE THEN Fail ELSE"),
    ("SszCodecM", "SszCodec", "the last accepting variant", "CHOOSE i \\in acc : \\A j \\in acc : i <= j", "CHOOSE i \\in acc : \\A j \\in acc : i >= j"),
    ("SszLegacyM", "SszCodec", "bytes after a legacy None", "(IF Len(b) = 4 THEN Good(<<>>) ELSE Fail)", "Good(<<>>)"),
    ("SszLegacyM", "SszCodec", "the upper selector bytes", "IF b[2] # 0 \\/ b[3] # 0 \\/ b[4] # 0 THEN Fail", "IF b[2] # 0 \\/ b[3] # 0 THEN Fail"),
    ("SszFarM", "SszFar", "runs that are not merged", "IF acc # <<>> /\\ acc[Len(acc)][2] = r[2]", "IF FALSE"),
]


def one(c):
    model, module, what, old, new = c
    d = tempfile.mkdtemp(prefix="controls")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(SPEC + "/" + f, d)
        s = open("%s/%s.tla" % (d, module)).read()
        if s.count(old) < 1:
            return c, "NOT APPLICABLE: the text is not there"
        open("%s/%s.tla" % (d, module), "w").write(s.replace(old, new))
        e = dict(os.environ, CASES="", SIDE="")
        try:
            r = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", "2",
                                "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", model + "_quick.cfg", model + ".tla"],
                               cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return c, "TIMEOUT"
        for l in r.stdout.split("\n"):
            if "is violated" in l or "Assert" in l or "Deadlock" in l:
                return c, "noticed: " + l.strip()[:80]
        i = r.stdout.find("Error:")
        return c, ("NOT NOTICED" if r.returncode == 0 else "ERROR " + r.stdout[i:i + 300])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    want = sys.argv[1:]
    missed = 0
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for c, r in ex.map(one, [c for c in CONTROLS if not want or c[0] in want]):
            missed += not r.startswith("noticed")
            print("%-14s %-42s %s" % (c[0], c[2], r), flush=True)
    sys.exit(1 if missed else 0)
