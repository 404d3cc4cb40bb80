#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

TRACE = "TLC trace validation: executions of the real code judged against the TLA+ specification (%s)"
MODEL = "; design models checked by TLC (%s)"
TRUST = ("TLC decides every judged execution against the specification; what it does not see is what the untrusted "
         "mirror screens out, so the assurance is: exhaustive within the stated small bounds, sampled beyond. "
         "Trusted: the mapping of Rust values to abstract values in harness/, TLC, the specification as a reading of "
         "the property.")
CHECKS = {
    "C01": ("SszCodec.tla, SszFar.tla, TraceCodec.tla", "values of 1932 type terms, bounded-exhaustive and random"),
    "C02": ("SszCodec.tla, SszFar.tla, TraceCodec.tla", "byte strings for every type term: all short ones, mutated encodings"),
    "C03": ("SszCodec.tla, SszFar.tla, TraceCodec.tla", "values of every type term against Ser"),
    "C04": ("SszCodec.tla, SszFar.tla, TraceCodec.tla", "byte strings for every type term against De"),
    "C05": ("TraceMisc.tla, TraceBits.tla, TraceCodec.tla", "a build with arithmetic and debug assertions checked"),
    "C06": ("SszAlloc.tla, TraceCodec.tla", "peak heap of every decode against a per-type linear bound"),
    "C07": ("SszCodec.tla, SszSchema.tla, TraceCodec.tla", "size metadata of both sides against the schema"),
    "C08": ("SszDerive.tla, SszCodec.tla, TraceCodec.tla", "derived definitions, compiled or rejected, and their codecs"),
    "C09": ("SszCodec.tla Tile, SszFar.tla, TraceMisc.tla", "every small layout; every one of the 2^32 offset words is screened"),
    "C10": ("SszCodec.tla Assemble, SszTree.tla, SszFar.tla, TraceMisc.tla, TraceCodec.tla", "entry points, prefilled buffers"),
    "C11": ("SszBitfield.tla, TraceBits.tla", "operation histories"),
    "C12": ("SszBitfield.tla, TraceBits.tla", "pairs of operands, exhaustive for short ones"),
    "C13": ("SszBitfield.tla, TraceBits.tla", "bounds on every way to obtain a bitfield"),
    "C14": ("SszBitfield.tla, TraceBits.tla", "byte-level functions against SSZ, exhaustive for short strings"),
    "C15": ("SszCodec.tla, SszDerive.tla, TraceMisc.tla, TraceCodec.tla", "all 256 selectors of unions with 1..128 variants"),
    "C16": ("SszList.tla, TraceMisc.tla", "limits around every announced count, refusing collections"),
    "C17": ("SszCodec.tla, TraceCodec.tla", "legacy option codec, standalone and as field codec"),
    "C18": ("SszBitfield.tla, TraceBits.tla", "serde strings, valid and damaged"),
    "C19": ("SszCodec.tla, TraceCodec.tla", "entry lists in any order, with duplicates, malformed"),
    "C20": ("SszBitfield.tla, TraceArb.tla", "capacities 0..65536, unstructured inputs of every small length"),
}
try:
    from models import MODELS
except ImportError:
    MODELS = {}

# run by tools/codec.py: they write what is replayed
GENERATED = "C01 C02 C03 C04 C07 C08 C15 C17 C19".split()
EXTRA = {p: ["GenCodec"] for p in GENERATED}
for p in ("C08", "C15"):
    EXTRA[p].append("SszDeriveM")
EXTRA["C19"].append("SszMapM")

out = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "hooks": {
    "guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "TLA+ and TLC. See DESIGN.md. known-findings.jsonl lists repaired and known defects."}
for p, (spec, what) in CHECKS.items():
    ms = sorted({m[0] for m in MODELS.get(p, [])} | set(EXTRA.get(p, [])))
    out["checks"].append({
        "property": p, "quick_cmd": "python3 tools/check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
        "technique": TRACE % spec + (MODEL % ", ".join(ms) if ms else ""),
        "level": "model_checking", "level_note": what + ". " + TRUST})
json.dump(out, open("/verif/MANIFEST.json", "w"), indent=1)
