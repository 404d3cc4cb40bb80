"""What decides each property."""
from vlib import *
import codec, drivers, json


def types(prop, profiles=("release",), thorough=None, own=True):
    def f(res):
        models = drivers.Models(prop, res) if own else None
        codec.check(prop, res, (thorough or profiles) if THOROUGH else profiles)
        if own:
            models.done()
    return f


def misc(prop, profile="release", **kw):
    def f(res):
        drivers.check(prop, res, "misc", "TraceMisc", profile, models=drivers.Models(prop, res), **kw)
    return f


def bits(prop, profile="release", models=True, **kw):
    def f(res):
        drivers.check(prop, res, "bits", "TraceBits", profile,
                      models=drivers.Models(prop, res) if models else None, **kw)
    return f


def both(*fs):
    def f(res):
        for g in fs:
            g(res)
    return f


def arb(res):
    try:
        drivers.check("C20", res, "arb", "TraceArb", models=drivers.Models("C20", res))
    except drivers.BuildError as err:
        # the generators exist only with the feature: the library has to build with it
        drivers.build("misc", "release")
        f = BUILD + "/nobuild.ndjson"
        write(f, json.dumps({"op": "nobuild", "n": 0, "errors": str(err)[-3000:]}) + "\n")
        res.trace("TraceArb", "TraceArb_C20", [f])


CHECKS = {
    "C01": types("C01"),
    "C02": types("C02"),
    "C03": types("C03"),
    "C04": types("C04"),
    "C05": both(misc("C05", "checked"), bits("C05", "checked", models=False), drivers.deep,
                types("C05", ("checked",), ("checked", "release"), own=False)),
    "C06": both(drivers.recursive, types("C06")),
    "C07": types("C07"),
    "C08": types("C08"),
    "C09": misc("C09", events=(60000, 600000)),
    "C10": both(misc("C10"), types("C10", own=False)),
    "C11": bits("C11"),
    "C12": bits("C12"),
    "C13": bits("C13"),
    "C14": bits("C14"),
    "C15": both(misc("C15"), types("C15", own=False)),
    "C16": misc("C16"),
    "C17": types("C17"),
    "C18": bits("C18"),
    "C19": types("C19"),
    "C20": arb,
}
