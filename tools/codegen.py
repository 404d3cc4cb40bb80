"""Rust code for the type terms of universe.json (written by DumpUniverse.tla)."""
import hashlib, json, os

LEAF = {
    "u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "u128": "u128", "usize": "usize",
    "nz": "core::num::NonZeroUsize", "bool": "bool", "U128": "alloy_primitives::U128",
    "U256": "alloy_primitives::U256", "Address": "alloy_primitives::Address",
    "Bloom": "alloy_primitives::Bloom", "Bytes": "alloy_primitives::Bytes",
    "bitdyn": "ssz::BitVectorDynamic",
}
COMPOUND = {"vec", "svec", "opt", "arc", "set", "map", "tup", "legacy", "struct", "enum", "with"}
# Neither alphabetical nor reverse alphabetical, so that a reordering by name shows.
FNAMES = ["mu", "zed", "alpha", "omega", "beta", "x1", "nu", "x0", "gamma", "yy", "delta", "bb"]
# Names a field may have that an expansion of the macros could use for itself.
ODD = ["offset", "len", "start", "r#type", "encoder", "end", "value", "builder", "index", "buf", "inner", "items",
       "is_fixed", "selector", "r#match", "data", "i", "total", "rest", "out", "cursor", "body", "x", "_y"]
PLAIN = set()    # definitions that are rejected with such names


def hashed(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def digest(t):
    return hashed(shape(t))


def shape(t):
    """Definitions of one shape differ in the arguments of their parameters only."""
    if t["t"] == "struct" and any(f.get("p") for f in t["f"]):
        return key(dict(t, f=[dict(f, ty=f["p"]) if f.get("p") else f for f in t["f"]]))
    if generic_enum(t):
        return key(dict(t, v=[[x if x["t"] == "with" else "Q" for x in v] for v in t["v"]]))
    return key(t)


def odd_names(t):
    return t["t"] == "struct" and t["named"] and digest(t) % 3 == 0 and shape(t) not in PLAIN


def fname(t, i, plain=False):
    if not plain and odd_names(t) and i < len(ODD):
        return ODD[(i + digest(t) // 3) % len(ODD)]
    return FNAMES[i] if i < len(FNAMES) else "f%d" % i


def generic_enum(t):
    """Enums with parameters for the types of their variants."""
    return (t["t"] == "enum" and t["beh"] in ("union", "transparent") and len(t["v"]) <= 12
            and all(len(v) == 1 for v in t["v"]) and hashed(key(t)) % 3 == 1)


def tn(n):
    """The type-level number (typenum names those up to 1024 and the powers of two)."""
    p = 1 << (max(n, 1).bit_length() - 1)
    if n <= 1024 or n == p:
        return "typenum::U%d" % n
    return "typenum::Sum<typenum::U%d, %s>" % (p, tn(n - p))


def key(t):
    return json.dumps(t, sort_keys=True)


def children(t):
    k = t["t"]
    if k in ("vec", "svec", "opt", "arc", "set", "legacy", "with"):
        return [t["e"]]
    if k == "map":
        return [t["e"], t["w"]]
    if k == "tup":
        return t["f"]
    if k == "struct":
        return [f["ty"] for f in t["f"]]
    if k == "enum":
        return [x for v in t["v"] for x in v]
    return []


def vfield(x):
    """The field of an enum variant."""
    w = x["t"] == "with"
    return {"ty": x["e"] if w else x, "w": x["w"] if w else "", "ss": False, "sd": False}


def walk(t):
    yield t
    for c in children(t):
        yield from walk(c)


def has(t, kinds):
    return any(x["t"] in kinds for x in walk(t))


def can_ord(t):
    return not has(t, {"bitvec", "bitlist", "bitdyn"})


def can_default(t):
    return t["t"] in ("u8", "u16", "u32", "u64", "bool", "Bytes", "vec", "opt", "struct", "usize",
                      "set", "map", "U256", "Address") and all(
        can_default(c) for c in children(t) if t["t"] == "struct")


class Gen:
    """Definitions and entries of one crate."""

    def __init__(self):
        self.defs = {}      # key -> (name, term)
        self.order = []
        self.ord_needed = set()
        self.shapes = {}    # (shape, what is derived) -> name of the one definition

    def need_ord(self, t):
        for x in walk(t):
            if x["t"] in ("set", "map"):
                for y in walk(x["e"]):
                    self.ord_needed.add(key(y))

    def ty(self, t):
        k = t["t"]
        if k in LEAF:
            return LEAF[k]
        if k == "arr":
            return "[u8; %d]" % t["n"]
        if k == "fb":
            return "alloy_primitives::FixedBytes<%d>" % t["n"]
        if k == "bitvec":
            return "ssz::BitVector<%s>" % tn(t["n"])
        if k == "bitlist":
            return "ssz::BitList<%s>" % tn(t["n"])
        if k == "vec":
            return "Vec<%s>" % self.ty(t["e"])
        if k == "svec":
            return "smallvec::SmallVec<[%s; %d]>" % (self.ty(t["e"]), t["n"])
        if k == "opt":
            return "Option<%s>" % self.ty(t["e"])
        if k == "arc":
            return "std::sync::Arc<%s>" % self.ty(t["e"])
        if k == "set":
            return "std::collections::BTreeSet<%s>" % self.ty(t["e"])
        if k == "map":
            return "std::collections::BTreeMap<%s, %s>" % (self.ty(t["e"]), self.ty(t["w"]))
        if k == "tup":
            return "(%s,)" % ", ".join(self.ty(x) for x in t["f"])
        if k == "with":
            return self.ty(t["e"])
        if k in ("struct", "enum"):
            kk = key(t)
            if kk not in self.defs:
                for c in children(t):
                    self.ty(c)
                name = "D%d" % len(self.defs)
                self.defs[kk] = (name, t)
                self.order.append(kk)
            return "T" + self.defs[kk][0][1:]
        raise ValueError(k)

    # -- definitions -----------------------------------------------------------------------
    def attrs(self, f, legs):
        a = []
        if f["w"]:
            if f["w"] == "legacy":
                m = "leg%d" % len(legs)
                legs.append("ssz::four_byte_option_impl!(%s, %s);" % (m, self.ty(f["ty"]["e"])))
            else:
                m = f["w"]
            a.append('with = "%s"' % m)
        if f["ss"]:
            a.append("skip_serializing")
        if f["sd"]:
            a.append("skip_deserializing")
        at = "#[ssz(%s)] " % ", ".join(a) if a else ""
        # other attributes, before and behind
        n = hashed(at + key(f["ty"]) + str(len(legs)))
        return ["", "#[doc = \" not for ssz\"] ", "#[allow(dead_code)] ", ""][n % 4] + at + ["", "", "#[doc(hidden)] "][n // 4 % 3]

    def fschema(self, f, side):
        s = "<%s as Abs>::schema_%s()" % (self.ty(f["ty"]), side)
        if f["ss"] if side == "e" else f["sd"]:
            return "S::Skip(Box::new(%s))" % s
        w = f["w"]
        if w == "":
            return s
        if w == "legacy":
            return "S::Legacy(Box::new(<%s as Abs>::schema_%s()))" % (self.ty(f["ty"]["e"]), side)
        return {"be": "S::UintBe(4)", "u24": "S::Uint24", "fix2": "S::FixBytes(2)",
                "varu8": "S::VarU8", "rev": "S::RevBytes"}[w]

    def decor(self, t):
        return ["", "/// Documented.", "#[non_exhaustive]", "#[allow(clippy::all)]"][digest(t) // 5 % 4]

    def derives(self, t, traits, plain=False):
        d = ["PartialEq"]
        if plain:
            return d + traits
        if key(t) in self.ord_needed:
            d += ["Eq"] if "r" in t else ["Eq", "PartialOrd", "Ord"]
        if t["t"] == "struct" and not has(t, {"enum"}) and t["f"] and can_default(t):
            d += ["Default"]
        return d + traits

    def definition(self, t, name, traits=("ssz_derive::Encode", "ssz_derive::Decode"), abs_=True):
        """The text of the type definition (and its correspondence with abstract values)."""
        o = ["#![allow(unused)]", "use super::*;", "use ssz::{Encode, Decode};", "use vcore::codecs::*;",
             "use vcore::{Abs, Mem, S, V};"]
        legs = []
        traits = list(traits)
        # a definition of which only is asked whether it compiles: borrowed fields, parameters, or neither
        form, need, lt = digest(t) % 3, traits[0].split("::")[-1], []
        sk = "ss" if need == "Encode" else "sd"
        if t["t"] == "struct":
            params, args, fields = [], [], []
            for i, f in enumerate(t["f"]):
                p = f.get("p", "")
                ty = self.ty(f["ty"])
                if p == "p":
                    params.append("P%d: ssz::Encode + ssz::Decode" % i)
                    args.append(ty)
                    ty = "P%d" % i
                elif p == "v":
                    params.append("P%d: ssz::Encode + ssz::Decode" % i)
                    args.append(self.ty(f["ty"]["e"]))
                    ty = "Vec<P%d>" % i
                elif p == "c":
                    params.append("const C%d: usize" % i)
                    args.append(str(f["ty"]["n"]))
                    ty = "[u8; C%d]" % i
                if not abs_ and form == 1 and not f["w"] and not f[sk] and ty == self.ty(f["ty"]):
                    params.append("P%d: ssz::%s" % (i, need))
                    args.append(ty)
                    ty = "P%d" % i
                if not abs_ and form == 0 and need == "Encode" and not f["w"] and not f["ss"]:
                    ty = "&'a " + ty
                    lt = ["'a"]
                at = self.attrs(f, legs)
                nm = fname(t, i, not abs_)
                fields.append("    %spub %s%s," % (at, nm + ": " if t["named"] else "", ty))
            # type parameters come before const parameters
            pa = sorted(zip(params, args), key=lambda x: x[0].startswith("const"))
            wh = ""
            if digest(t) % 2:
                # the bounds in a where clause
                bs = [x[0] for x in pa if not x[0].startswith("const")]
                pa = [(x[0] if x[0].startswith("const") else x[0].split(":")[0], x[1]) for x in pa]
                wh = " where %s" % ", ".join(bs) if bs else ""
            gp = "<%s>" % ", ".join(lt + [x[0] for x in pa]) if lt or pa else ""
            ga = "<%s>" % ", ".join(lt + [x[1] for x in pa]) if lt or pa else ""
            derives = ", ".join(self.derives(t, traits, not abs_))
            owner = self.shapes.setdefault((shape(t), derives), name) if args and abs_ else name
            at = len(o)
            o += legs
            o.append(self.decor(t))
            o.append("#[derive(%s)]" % derives)
            if t["beh"]:
                o.append('#[ssz(struct_behaviour = "%s")]' % t["beh"])
            if t["named"]:
                o.append("pub struct %s%s%s {" % (name, gp, wh))
                o += fields
                o.append("}")
            else:
                o.append("pub struct %s%s(" % (name, gp))
                o += fields
                o.append(")%s;" % wh)
            if owner != name:
                del o[at:]
            o.append("pub type T%s%s = %s%s;" % (name[1:], "<'a>" if lt else "", owner, ga))
            if "r" in t and owner == name and key(t) in self.ord_needed:
                o.append("impl PartialOrd for %s { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }" % name)
                o.append("impl Ord for %s { fn cmp(&self, o: &Self) -> std::cmp::Ordering { o.0.cmp(&self.0) } }" % name)
            if abs_:
                con = "Desc" if "r" in t else "Trans" if t["beh"] == "transparent" else "Cont"
                o.append("impl Abs for T%s {" % name[1:])
                for side in "ed":
                    o.append("    fn schema_%s() -> S { S::%s(vec![%s]) }" % (
                        side, con, ", ".join(self.fschema(f, side) for f in t["f"])))
                o.append("    fn mem() -> Mem { Mem::All(vec![%s]) }" % ", ".join(
                    "Mem::Leaf" if f["sd"] else "<%s as Abs>::mem()" % self.ty(f["ty"]) for f in t["f"]))
                acc = [fname(t, i) if t["named"] else str(i) for i in range(len(t["f"]))]
                o.append("    fn abs(&self) -> V { V::S(vec![%s]) }" % ", ".join("self.%s.abs()" % a for a in acc))
                o.append("    fn from_v(v: &V) -> Self { let v = v.seq(); Self { %s } }" % ", ".join(
                    "%s: Abs::from_v(&v[%d])" % (a, i) for i, a in enumerate(acc)))
                o.append("}")
        else:
            vn = ["V%d" % ((i * 37 + 11) % 257) for i in range(len(t["v"]))]
            at = len(o)
            derives = ", ".join(self.derives(t, traits, not abs_))
            o.append(self.decor(t))
            o.append("#[derive(%s)]" % derives)
            if t["beh"]:
                o.append('#[ssz(enum_behaviour = "%s")]' % t["beh"])
            params, args = {}, []
            if generic_enum(t):
                for i, v in enumerate(t["v"]):
                    if v[0]["t"] != "with":
                        params[i] = "Q%d" % i
                        args.append(self.ty(v[0]))
            bs = ["%s: %s" % (q, "ssz::Encode + ssz::Decode" if abs_ else "ssz::" + need) for q in params.values()]
            whe = digest(t) % 2 and bs
            o.append("pub enum %s%s%s {" % (
                name, "<%s>" % ", ".join(params.values() if whe else bs) if bs else "",
                " where " + ", ".join(bs) if whe else ""))
            for i, v in enumerate(t["v"]):
                d = " = %d" % t["d"][i] if t.get("d") else ""
                o.append("    %s%s%s," % (vn[i], "(%s)" % ", ".join(
                    self.attrs(vfield(x), legs) + params.get(i, self.ty(x)) for x in v) if v else "", d))
            o.append("}")
            o[at:at] = legs
            owner = self.shapes.setdefault((shape(t), derives), name) if args and abs_ else name
            if owner != name:
                del o[at:]
            o.append("pub type T%s = %s%s;" % (name[1:], owner, "<%s>" % ", ".join(args) if args else ""))
            if abs_:
                o.append("impl Abs for T%s {" % name[1:])
                if t["beh"] == "tag":
                    o.append("    fn schema_e() -> S { S::Tag(%d) }" % len(t["v"]))
                    o.append("    fn abs(&self) -> V { V::I(match self { %s }) }" % ", ".join(
                        "Self::%s => %d" % (n, i) for i, n in enumerate(vn)))
                    o.append("    fn from_v(v: &V) -> Self { match v.int() { %s, _ => panic!() } }" % ", ".join(
                        "%d => Self::%s" % (i, n) for i, n in enumerate(vn)))
                else:
                    con = "Union" if t["beh"] == "union" else "TEnum"
                    for side in "ed":
                        o.append("    fn schema_%s() -> S { S::%s(vec![%s]) }" % (side, con, ", ".join(
                            self.fschema(vfield(v[0]), side) for v in t["v"])))
                    o.append("    fn mem() -> Mem { Mem::All(vec![%s]) }" % ", ".join(
                        "<%s as Abs>::mem()" % self.ty(v[0]) for v in t["v"]))
                    o.append("    fn abs(&self) -> V { match self { %s } }" % ", ".join(
                        "Self::%s(x) => V::T(%d, Box::new(x.abs()))" % (n, i) for i, n in enumerate(vn)))
                    o.append("    fn from_v(v: &V) -> Self { let V::T(i, x) = v else { panic!() }; match i { %s, _ => panic!() } }"
                             % ", ".join("%d => Self::%s(Abs::from_v(x))" % (i, n) for i, n in enumerate(vn)))
                o.append("}")
        return "\n".join(o) + "\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)


def is_derived(t):
    return has(t, {"struct", "enum"})


def crate(path, name, entries, bad_defs=(), bad_ids=()):
    """Write a crate with the entries [(id, term)]. Returns {file: what it holds} for attributing
    errors, and the terms left out."""
    g = Gen()
    for _, t in entries:
        g.need_ord(t)
    ents, where, left = [], {}, []
    for i, t in entries:
        if i in bad_ids or any(key(x) in bad_defs for x in walk(t)):
            left.append(i)
            continue
        if t["t"] == "legacy":
            g.ty(t["e"])
        else:
            g.ty(t)
        ents.append((i, t))
    src = os.path.join(path, "src")
    mods = []
    for kk in g.order:
        n, t = g.defs[kk]
        write(os.path.join(src, n.lower() + ".rs"), g.definition(t, n))
        where["src/%s.rs" % n.lower()] = ("def", kk)
        mods.append(n.lower())
    lib = ["#![allow(unused, non_camel_case_types)]", "use vcore::*;"]
    for m in mods:
        lib.append("mod %s; pub use %s::*;" % (m, m))
    ids = []
    for i, t in ents:
        if t["t"] == "legacy":
            body = ("use super::*; ssz::four_byte_option_impl!(lm, %s); pub fn e() -> Entry "
                    "{ legacy_entry!(%d, lm, %s) }") % (g.ty(t["e"]), i, g.ty(t["e"]))
        else:
            body = "use super::*; pub fn e() -> Entry { entry::<%s>(%d, %s) }" % (
                g.ty(t), i, "true" if is_derived(t) else "false")
        write(os.path.join(src, "e%d.rs" % i), body + "\n")
        where["src/e%d.rs" % i] = ("entry", i)
        lib.append("mod e%d;" % i)
        ids.append(i)
    lib.append("pub fn entries() -> Vec<Entry> { vec![%s] }" % ", ".join("e%d::e()" % i for i in ids))
    write(os.path.join(src, "lib.rs"), "\n".join(lib) + "\n")
    write(os.path.join(path, "Cargo.toml"), CARGO % name)
    return where, left


CARGO = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"

[dependencies]
vcore = { path = "/verif/harness/core" }
ethereum_ssz = { path = "/repo/ssz" }
ethereum_ssz_derive = { path = "/repo/ssz_derive" }
alloy-primitives = "1.0"
smallvec = { version = "1.6.1", features = ["const_generics"] }
typenum = "1.12.0"
"""
