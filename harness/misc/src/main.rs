//! The byte-level building blocks: decoder builder, container encoder, offset word, union
//! splitting, list decoding with limits and fallible collections.
use serde_json::Value;
use smallvec::SmallVec;
use ssz::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use vcore::alloc::*;
use vcore::cases::{parts_json, runs};
use vcore::gen::*;
use vcore::mirror::{tile, tile_list};
use vcore::ops::guard;
use vcore::run::{case, watchdog, Args, Sink};
use vcore::val::json_bytes;

#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
}

/// Takes whatever slice it is given; a slice starting with 0xEE does not decode.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Probe(Vec<u8>);
impl Decode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        CALLS.with(|c| c.set(c.get() + 1));
        if b.first() == Some(&0xEE) {
            return Err(DecodeError::BytesInvalid("probe".into()));
        }
        Ok(Probe(b.to_vec()))
    }
}

/// Fixed-size items as the builder sees them; decoding takes the slice.
struct Fix<const N: usize>;
impl<const N: usize> Decode for Fix<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        N
    }
    fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
        Ok(Fix)
    }
}
struct Raw(Vec<u8>);
impl Decode for Raw {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Ok(Raw(b.to_vec()))
    }
}
struct Refuse;
impl Decode for Refuse {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(_: &[u8]) -> Result<Self, DecodeError> {
        Err(DecodeError::BytesInvalid("no".into()))
    }
}

fn seq(xs: &[Vec<u8>], o: &mut String) {
    o.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        json_bytes(x, o);
    }
    o.push(']');
}

enum R<X> {
    Ok(X),
    Err,
    Panic,
}
fn res<X, E>(r: Option<Result<X, E>>) -> R<X> {
    match r {
        None => R::Panic,
        Some(Err(_)) => R::Err,
        Some(Ok(x)) => R::Ok(x),
    }
}
fn name<X>(r: &R<X>) -> &'static str {
    match r {
        R::Ok(_) => "ok",
        R::Err => "err",
        R::Panic => "panic",
    }
}

/// Item kinds beyond any input are written as this length.
const HUGE: usize = 100_000_000;

// -------------------------------------------------------------------------------- builder
fn register(
    b: &mut SszDecoderBuilder,
    k: Option<usize>,
    how: usize,
) -> Result<(), DecodeError> {
    match k {
        None => match how % 4 {
            0 => b.register_anonymous_variable_length_item(),
            1 => b.register_type::<Raw>(),
            2 => b.register_type_parameterized(false, 4),
            _ => b.register_type_parameterized(false, [0, 1, 7, usize::MAX][how / 4 % 4]),
        },
        Some(n) => match (how % 2, n) {
            (0, 0) => b.register_type::<Fix<0>>(),
            (0, 1) => b.register_type::<Fix<1>>(),
            (0, 2) => b.register_type::<Fix<2>>(),
            (0, 3) => b.register_type::<Fix<3>>(),
            (0, 4) => b.register_type::<Fix<4>>(),
            (0, 5) => b.register_type::<Fix<5>>(),
            (0, 8) => b.register_type::<Fix<8>>(),
            (0, 33) => b.register_type::<Fix<33>>(),
            _ => b.register_type_parameterized(true, n),
        },
    }
}

fn build(kinds: &[Option<usize>], b: &[u8], how: usize) -> R<Vec<Vec<u8>>> {
    res(guard(|| {
        let mut d = SszDecoderBuilder::new(b);
        for (i, k) in kinds.iter().enumerate() {
            register(&mut d, *k, how.rotate_right(3 * i as u32) ^ i)?;
        }
        let mut d = d.build()?;
        let mut items = vec![];
        for i in 0..kinds.len() {
            let x = match (how >> (i % 16)) & 3 {
                0 => d.decode_next::<Raw>()?.0,
                1 => match d.decode_next::<Refuse>() {
                    // the item is consumed all the same; its bytes are not seen
                    Err(_) => return Err(DecodeError::NoMatchingVariant),
                    Ok(_) => vec![],
                },
                _ => d.decode_next_with(|s| Ok(s.to_vec()))?,
            };
            items.push(x);
        }
        Ok::<_, DecodeError>(items)
    }))
}

fn build_event(kinds: &[Option<usize>], b: &[u8], r: &R<Vec<Vec<u8>>>) -> String {
    let mut o = String::from(r#"{"op":"build","kinds":["#);
    for (i, k) in kinds.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        match k {
            None => o.push_str("-1"),
            Some(n) => write!(o, "{}", n.min(&HUGE)).unwrap(),
        }
    }
    o.push_str(r#"],"b":"#);
    json_bytes(b, &mut o);
    write!(o, r#","o":"{}""#, name(r)).unwrap();
    if let R::Ok(x) = r {
        o.push_str(r#","items":"#);
        seq(x, &mut o);
    }
    o.push('}');
    o
}

/// The same with byte strings as run strings (SszFar).
fn build_far_event(kinds: &[Option<usize>], b: &[u8], r: &R<Items>) -> String {
    let mut o = String::from(r#"{"op":"buildfar","kinds":["#);
    for (i, k) in kinds.iter().enumerate() {
        let k = k.map(|n| n.min(HUGE) as i64).unwrap_or(-1);
        write!(o, "{}{k}", if i > 0 { "," } else { "" }).unwrap();
    }
    o.push_str(r#"],"b":"#);
    runs(b, &mut o);
    write!(o, r#","o":"{}""#, name(r)).unwrap();
    if let R::Ok(x) = r {
        o.push_str(r#","items":"#);
        run_seq(x.iter().map(|x| &x[..]), &mut o);
    }
    o.push('}');
    o
}
fn run_seq<'a>(xs: impl Iterator<Item = &'a [u8]>, o: &mut String) {
    o.push('[');
    for (i, x) in xs.enumerate() {
        if i > 0 {
            o.push(',');
        }
        runs(x, o);
    }
    o.push(']');
}

/// Containers whose parts, and so whose offsets, are long.
fn gen_build_far(w: &mut W, r: &mut Rng, rounds: usize) {
    for _ in 0..rounds {
        let n = if r.chance(1, 8) { 40 + r.below(200) } else { 1 + r.below(9) };
        let pv = r.below(5);
        let kinds: Vec<Option<usize>> = (0..n)
            .map(|_| {
                if r.below(4) < pv {
                    None
                } else {
                    Some([0, 1, 4, 254, 255, 256, 4096, 32768, 65531, 65532, 65535, 65536, 70000, 1 << 20][r.below(14)])
                }
            })
            .collect();
        let end: usize = kinds.iter().map(|k| k.unwrap_or(4)).sum();
        let (mut b, mut tail, mut marks) = (vec![], vec![], vec![]);
        let mut big = 1;
        for (i, k) in kinds.iter().enumerate() {
            let fill = (i * 37 + 5) as u8;
            match k {
                Some(l) => b.resize(b.len() + l, fill),
                None => {
                    marks.push((b.len(), vcore::mirror::Mark::Offset));
                    b.extend(word(end + tail.len()));
                    let mut l = [0, 0, 1, 3, 252, 256, 4096, 32764, 65532, 65536, 65537, 196608, 1 << 20][r.below(13)];
                    if big > 0 && r.chance(1, 12) {
                        big -= 1;
                        l = [1 << 24, (1 << 24) - end.min(1 << 20), (1 << 24) + 1][r.below(3)];
                    }
                    tail.resize(tail.len() + l, fill ^ 0x80);
                }
            }
        }
        b.extend(tail);
        let go = |w: &mut W, b: &[u8], how: usize| {
            let how = how & !0x1ffff | [0, 0x1ffff][how & 1];
            let x = case(pay(b"build", &[]), || build(&kinds, b, how));
            let odd = build_odd(&kinds, b, &x);
            w.put(odd, 1, || build_far_event(&kinds, b, &x));
        };
        go(w, &b, r.next() as usize);
        for _ in 0..2 {
            let c = mutate(&b, &marks, r);
            go(w, &c, r.next() as usize);
        }
    }
}

// ---------------------------------------------------------------------------------- lists
/// Holds at most CAP items and refuses more.
struct Bounded<const CAP: usize>(Vec<Probe>);
impl<const CAP: usize> TryFromIter<Probe> for Bounded<CAP> {
    type Error = String;
    fn try_from_iter<I: IntoIterator<Item = Probe>>(it: I) -> Result<Self, String> {
        let mut v = vec![];
        for x in it {
            if v.len() == CAP {
                return Err(format!("more than {CAP}"));
            }
            v.push(x);
        }
        Ok(Bounded(v))
    }
}
/// Takes everything, then refuses if it is more than CAP.
struct Late<const CAP: usize>(Vec<Probe>);
impl<const CAP: usize> TryFromIter<Probe> for Late<CAP> {
    type Error = ();
    fn try_from_iter<I: IntoIterator<Item = Probe>>(it: I) -> Result<Self, ()> {
        let v: Vec<Probe> = it.into_iter().collect();
        if v.len() > CAP {
            Err(())
        } else {
            Ok(Late(v))
        }
    }
}
/// Refuses an item by its contents.
struct Picky(Vec<Probe>);
impl TryFromIter<Probe> for Picky {
    type Error = u8;
    fn try_from_iter<I: IntoIterator<Item = Probe>>(it: I) -> Result<Self, u8> {
        let mut v = vec![];
        for x in it {
            if x.0.first() == Some(&0xDD) {
                return Err(1);
            }
            v.push(x);
        }
        Ok(Picky(v))
    }
}

const COLLS: [&str; 9] = ["vec", "smallvec", "smallvec0", "bounded0", "bounded1", "bounded3", "late2", "picky", "set"];
type Items = Vec<Vec<u8>>;

/// (outcome, decoder calls, peak memory)
fn limited(coll: &str, b: &[u8], m: Option<usize>) -> (R<Items>, usize, usize) {
    CALLS.with(|c| c.set(0));
    macro_rules! go {
        ($c:ty, $f:expr) => {{
            let (r, pk, _) = measure(|| guard(|| decode_list_of_variable_length_items::<Probe, $c>(b, m)));
            let calls = CALLS.with(|c| c.get());
            let f: fn($c) -> Items = $f;
            (res(r.map(|r| r.map(f))), calls, pk)
        }};
    }
    fn un(v: Vec<Probe>) -> Items {
        v.into_iter().map(|p| p.0).collect()
    }
    match coll {
        "vec" => go!(Vec<Probe>, un),
        "smallvec" => go!(SmallVec<[Probe; 3]>, |v| un(v.into_vec())),
        "smallvec0" => go!(SmallVec<[Probe; 1]>, |v| un(v.into_vec())),
        "bounded0" => go!(Bounded<0>, |v| un(v.0)),
        "bounded1" => go!(Bounded<1>, |v| un(v.0)),
        "bounded3" => go!(Bounded<3>, |v| un(v.0)),
        "late2" => go!(Late<2>, |v| un(v.0)),
        "picky" => go!(Picky, |v| un(v.0)),
        "set" => go!(BTreeSet<Probe>, |v| un(v.into_iter().collect())),
        _ => panic!(),
    }
}

fn refuses(coll: &str, items: &[&[u8]]) -> bool {
    let n = items.len();
    match coll {
        "bounded0" => n > 0,
        "bounded1" => n > 1,
        "bounded3" => n > 3,
        "late2" => n > 2,
        "picky" => items.iter().any(|x| x.first() == Some(&0xDD)),
        _ => false,
    }
}

fn limit_event(coll: &str, b: &[u8], m: Option<usize>, r: &(R<Items>, usize, usize)) -> String {
    let mut o = format!(
        r#"{{"op":"limit","coll":"{coll}","m":{},"calls":{},"pk":{},"o":"{}","b":"#,
        m.map(|m| m.min(1_000_000_000) as i64).unwrap_or(-1),
        r.1,
        r.2,
        name(&r.0)
    );
    json_bytes(b, &mut o);
    if let R::Ok(x) = &r.0 {
        o.push_str(r#","items":"#);
        seq(x, &mut o);
    }
    o.push('}');
    o
}

/// A list of very many items: its offset table in runs of equal items.
fn limit_tab_event(coll: &str, b: &[u8], m: Option<usize>, r: &(R<Items>, usize, usize)) -> String {
    let at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    let cap = |x: usize| x.min(1_000_000_000);
    let f = at(0);
    let mut o = format!(
        r#"{{"op":"limittab","coll":"{coll}","m":{},"calls":{},"pk":{},"o":"{}","n":{},"first":{},"p":"#,
        m.map(|m| cap(m) as i64).unwrap_or(-1),
        r.1,
        cap(r.2),
        name(&r.0),
        b.len(),
        cap(f)
    );
    let t = parts_json(b, &mut o);
    write!(o, r#","t":{t}"#).unwrap();
    if !t && f <= b.len() {
        let k = f / 4;
        let x: Vec<usize> = (0..k).map(|i| at(4 * i)).chain([b.len()]).collect();
        let j = (0..k).find(|j| x[*j] > x[j + 1]).unwrap_or(0);
        if j < k {
            write!(o, r#","w1":{},"w2":{}"#, cap(x[j]), cap(x[j + 1])).unwrap();
        }
    }
    if let R::Ok(x) = &r.0 {
        o.push_str(r#","items":"#);
        vcore::cases::run_parts(&x.iter().map(|x| &x[..]).collect::<Vec<_>>(), &mut o);
    }
    o.push('}');
    o
}

fn limit_odd(coll: &str, b: &[u8], m: Option<usize>, r: &(R<Items>, usize, usize)) -> bool {
    let n = if b.len() < 4 { 0 } else { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize / 4 };
    if m.is_some_and(|m| n > m) {
        return !matches!(r.0, R::Err) || r.1 > 0 || r.2 > 512;
    }
    let want: Option<Items> = tile_list(b).and_then(|it| {
        if it.iter().any(|x| x.first() == Some(&0xEE)) || refuses(coll, &it) {
            return None;
        }
        let mut v: Items = it.iter().map(|x| x.to_vec()).collect();
        if coll == "set" {
            v.sort();
            v.dedup();
        }
        Some(v)
    });
    match &r.0 {
        R::Ok(x) => want.as_ref() != Some(x),
        R::Err => want.is_some(),
        R::Panic => true,
    }
}

// -------------------------------------------------------------------------------- encoder
/// Each part: (fixed, bytes). `how` picks append / append_parameterized and how finalize is used.
fn encode(pre: &[u8], parts: &[(bool, Vec<u8>)], how: usize) -> R<Vec<u8>> {
    struct Var<'a>(&'a [u8]);
    struct Fixd<'a>(&'a [u8]);
    impl Encode for Var<'_> {
        fn is_ssz_fixed_len() -> bool {
            false
        }
        fn ssz_append(&self, buf: &mut Vec<u8>) {
            buf.extend_from_slice(self.0)
        }
        fn ssz_bytes_len(&self) -> usize {
            self.0.len()
        }
    }
    impl Encode for Fixd<'_> {
        fn is_ssz_fixed_len() -> bool {
            true
        }
        fn ssz_append(&self, buf: &mut Vec<u8>) {
            buf.extend_from_slice(self.0)
        }
        fn ssz_bytes_len(&self) -> usize {
            self.0.len()
        }
    }
    let fixed: usize = parts.iter().map(|p| if p.0 { p.1.len() } else { 4 }).sum();
    res(guard(|| {
        let mut buf = if how & 1 == 0 { pre.to_vec() } else { Vec::with_capacity(1024) };
        if how & 1 == 1 {
            buf.extend_from_slice(pre);
        }
        let mut e = SszEncoder::container(&mut buf, fixed);
        for (i, (f, b)) in parts.iter().enumerate() {
            match ((how >> (1 + i % 8)) & 1, f) {
                (0, _) => e.append_parameterized(*f, |o| o.extend_from_slice(b)),
                (_, true) => e.append(&Fixd(b)),
                (_, false) => e.append(&Var(b)),
            }
        }
        let out = e.finalize().clone();
        if how & 512 == 0 && out != buf {
            return Ok(vec![]); // the returned buffer is the caller's buffer
        }
        Ok::<_, ()>(out)
    }))
}

fn encode_event(pre: &[u8], parts: &[(bool, Vec<u8>)], r: &R<Vec<u8>>) -> String {
    let mut o = String::from(r#"{"op":"encode","pre":"#);
    json_bytes(pre, &mut o);
    o.push_str(r#","fixed":["#);
    for (i, p) in parts.iter().enumerate() {
        write!(o, "{}{}", if i > 0 { "," } else { "" }, p.0).unwrap();
    }
    o.push_str(r#"],"parts":"#);
    seq(&parts.iter().map(|p| p.1.clone()).collect::<Vec<_>>(), &mut o);
    write!(o, r#","o":"{}""#, name(r)).unwrap();
    if let R::Ok(b) = r {
        o.push_str(r#","b":"#);
        json_bytes(b, &mut o);
    }
    o.push('}');
    o
}

/// Long parts: recorded by length, offset words and whether the parts are where they should be
/// (compared here, byte for byte).
fn encode_long(pre: usize, parts: &[(bool, usize)]) -> String {
    let bs: Vec<(bool, Vec<u8>)> =
        parts.iter().enumerate().map(|(i, p)| (p.0, vec![(i as u8 + 1) * 17; p.1])).collect();
    let r = encode(&vec![9; pre], &bs, 0);
    let mut o = format!(r#"{{"op":"encodelong","pre":{pre},"o":"{}","parts":["#, name(&r));
    for (i, p) in parts.iter().enumerate() {
        write!(o, "{}[{},{}]", if i > 0 { "," } else { "" }, p.0 as u8, p.1).unwrap();
    }
    o.push(']');
    if let R::Ok(b) = r {
        write!(o, r#","n":{},"words":["#, b.len()).unwrap();
        let (mut pos, mut first) = (pre, true);
        let mut same = b.get(..pre).is_some_and(|x| x.iter().all(|y| *y == 9));
        let mut tail = vec![];
        for (f, x) in &bs {
            if *f {
                same &= b.get(pos..pos + x.len()) == Some(&x[..]);
                pos += x.len();
            } else {
                if !first {
                    o.push(',');
                }
                first = false;
                json_bytes(b.get(pos..pos + 4).unwrap_or(&[]), &mut o);
                pos += 4;
                tail.push(x);
            }
        }
        for x in tail {
            same &= b.get(pos..pos + x.len()) == Some(&x[..]);
            pos += x.len();
        }
        write!(o, r#"],"same":{}"#, same).unwrap();
    }
    o.push('}');
    o
}

// ------------------------------------------------------------------------------ words etc.
fn word_event(n: u32, suffix: &[u8]) -> String {
    let enc = guard(|| encode_length(n as usize));
    let mut o = String::from(r#"{"op":"word","n":"#);
    json_bytes(&n.to_be_bytes(), &mut o);
    match enc {
        None => o.push_str(r#","eo":"panic""#),
        Some(e) => {
            o.push_str(r#","eo":"ok","enc":"#);
            json_bytes(&e, &mut o);
        }
    }
    let mut b = n.to_le_bytes().to_vec();
    b.extend(suffix);
    let d = res(guard(|| read_offset(&b)));
    o.push_str(r#","b":"#);
    json_bytes(&b, &mut o);
    write!(o, r#","o":"{}""#, name(&d)).unwrap();
    if let R::Ok(x) = d {
        o.push_str(r#","dec":"#);
        json_bytes(&(x as u64).to_be_bytes(), &mut o);
    }
    o.push('}');
    o
}
fn short_event(b: &[u8]) -> String {
    let d = res(guard(|| read_offset(b)));
    let mut o = String::from(r#"{"op":"readoff","b":"#);
    json_bytes(b, &mut o);
    write!(o, r#","o":"{}""#, name(&d)).unwrap();
    if let R::Ok(x) = d {
        o.push_str(r#","dec":"#);
        json_bytes(&(x as u64).to_be_bytes(), &mut o);
    }
    o.push('}');
    o
}
/// Offsets the two codecs do not treat as a little-endian word.
fn odd_words(threads: usize, all: bool) -> (u64, Vec<u32>) {
    let total: u64 = if all { 1 << 32 } else { 1 << 28 };
    let step: u64 = (1u64 << 32) / total;
    let chunk = total / threads as u64;
    let mut bad = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads as u64)
            .map(|t| {
                s.spawn(move || {
                    let mut bad = vec![];
                    let hi = if t + 1 == threads as u64 { total } else { (t + 1) * chunk };
                    for i in t * chunk..hi {
                        // when sampling, a different residue of every block
                        let n = (i * step + if step > 1 { i.wrapping_mul(0x9E3779B9) % step } else { 0 }) as u32;
                        let w = n.to_le_bytes();
                        let ok = guard(|| {
                            encode_length(n as usize) == w && matches!(read_offset(&w), Ok(x) if x == n as usize)
                        });
                        if ok != Some(true) {
                            bad.push(n);
                            if bad.len() > 20 {
                                break;
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        for h in hs {
            bad.extend(h.join().unwrap());
        }
    });
    (total, bad)
}

fn split_event(b: &[u8]) -> String {
    let d = res(guard(|| split_union_bytes(b).map(|(s, r)| (u8::from(s), r.to_vec()))));
    let mut o = String::from(r#"{"op":"split","b":"#);
    json_bytes(b, &mut o);
    write!(o, r#","o":"{}""#, name(&d)).unwrap();
    if let R::Ok((s, r)) = d {
        write!(o, r#","sel":{s},"rest":"#).unwrap();
        json_bytes(&r, &mut o);
    }
    o.push('}');
    o
}
fn selnew_event(n: u8) -> String {
    let d = res(guard(|| UnionSelector::new(n).map(u8::from)));
    let mut o = format!(r#"{{"op":"selnew","n":{n},"o":"{}""#, name(&d));
    if let R::Ok(s) = d {
        write!(o, r#","sel":{s}"#).unwrap();
    }
    o.push('}');
    o
}

// ------------------------------------------------------------------------------ generation
struct W {
    sink: Sink,
    cases: u64,
    odd: u64,
    left: HashSet<u64>,
    budget: usize,
}
impl W {
    /// Every odd case and up to `budget` of the others, spread by `every`.
    fn put(&mut self, odd: bool, every: u64, f: impl FnOnce() -> String) {
        self.cases += 1;
        if odd {
            self.odd += 1;
            if self.odd > 200 {
                return;
            }
        } else if self.budget == 0 || self.cases % every != 0 {
            return;
        } else {
            self.budget -= 1;
        }
        let s = f();
        self.sink.put(&s);
    }
}

fn build_odd(kinds: &[Option<usize>], b: &[u8], r: &R<Items>) -> bool {
    let ks: Vec<Option<usize>> = kinds.iter().map(|k| k.map(|n| n.min(HUGE))).collect();
    let want = tile(&ks, b);
    match r {
        R::Ok(x) => want.map(|w| w.iter().map(|y| y.to_vec()).collect::<Vec<_>>()).as_ref() != Some(x),
        R::Err => want.is_some(),
        R::Panic => true,
    }
}
fn do_build(w: &mut W, kinds: &[Option<usize>], b: &[u8], how: usize, every: u64) {
    // item 1 of 4 in `how` makes decoding of an item fail; keep those out unless asked for
    let how = (0..16).fold(how, |h, i| if (h >> i) & 3 == 1 { h ^ (1 << i) } else { h });
    let how = (0..16).fold(how, |h, i| if (h >> i) & 3 == 1 { h ^ (1 << i) } else { h });
    if (0..kinds.len()).any(|i| (how >> (i % 16)) & 3 == 1) {
        return;
    }
    let r = case(pay(b"build", b), || build(kinds, b, how));
    let odd = build_odd(kinds, b, &r);
    w.put(odd, every, || build_event(kinds, b, &r));
}
fn pay(op: &[u8], b: &[u8]) -> Vec<u8> {
    let mut p = vec![op.len() as u8];
    p.extend(op);
    p.extend(b);
    p
}

fn word(n: usize) -> [u8; 4] {
    (n as u32).to_le_bytes()
}

/// Every assignment of offsets from `cand` to the variable items of `kinds`, for inputs of n bytes.
fn all_offsets(kinds: &[Option<usize>], n: usize, cand: &[usize], f: &mut dyn FnMut(Vec<u8>)) {
    let pos: Vec<usize> = {
        let (mut p, mut v) = (0, vec![]);
        for k in kinds {
            if k.is_none() {
                v.push(p);
            }
            p += k.unwrap_or(4);
        }
        v
    };
    let mut idx = vec![0; pos.len()];
    loop {
        let mut b: Vec<u8> = (0..n).map(|i| 0x40 + i as u8).collect();
        for (j, p) in pos.iter().enumerate() {
            for (k, x) in word(cand[idx[j]]).iter().enumerate() {
                if p + k < n {
                    b[p + k] = *x;
                }
            }
        }
        f(b);
        let mut j = 0;
        while j < idx.len() {
            idx[j] += 1;
            if idx[j] < cand.len() {
                break;
            }
            idx[j] = 0;
            j += 1;
        }
        if j == idx.len() {
            break;
        }
    }
}

/// Which of n parts are empty: as drawn, all, all but one, or nearly all.
enum Empties {
    AsDrawn,
    All,
    AllBut(usize),
}
impl Empties {
    fn new(n: usize, r: &mut Rng) -> Empties {
        match r.below(6) {
            0 => Empties::All,
            1 => Empties::AllBut(r.below(n)),
            2 => Empties::AllBut(n.max(1) - 1),
            _ => Empties::AsDrawn,
        }
    }
    fn len(&self, i: usize, l: usize) -> usize {
        match self {
            Empties::AsDrawn => l,
            Empties::All => 0,
            Empties::AllBut(k) => {
                if i == *k {
                    l.max(1)
                } else {
                    0
                }
            }
        }
    }
}

fn gen_c09(w: &mut W, r: &mut Rng, t: usize, threads: usize, thorough: bool) {
    // every sequence of up to 3 (4) items of these kinds, every input length and offset
    let kk = [None, Some(0), Some(1), Some(3)];
    let maxn = if thorough { 4 } else { 3 };
    let mut c = 0usize;
    for len in 0..=maxn {
        for code in 0..kk.len().pow(len as u32) {
            let kinds: Vec<Option<usize>> = (0..len).map(|i| kk[code / kk.len().pow(i as u32) % kk.len()]).collect();
            let end: usize = kinds.iter().map(|k| k.unwrap_or(4)).sum();
            let nv = kinds.iter().filter(|k| k.is_none()).count();
            for n in 0..=(end + 3) {
                c += 1;
                if c % threads != t {
                    continue;
                }
                let mut cand: Vec<usize> = if nv <= 2 {
                    (0..=n + 2).collect()
                } else {
                    (end.saturating_sub(2)..=n + 1).chain([0, 4]).collect()
                };
                cand.extend([end + 65536, 0xffff_ffff, 0x8000_0000 + end]);
                let mut how = r.next() as usize;
                let ev = if nv == 0 { 1 } else if nv == 1 { 3 } else { 40 };
                all_offsets(&kinds, n, &cand, &mut |b| {
                    how = how.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(12345) >> 1;
                    do_build(w, &kinds, &b, how, ev)
                });
            }
        }
    }
    // longer random sequences
    let rounds = if thorough { 400_000 } else { 40_000 };
    for _ in 0..rounds / threads {
        let n = match r.below(5) {
            0 => r.below(5),
            1 => 7 + r.below(4),
            2 => 1 + r.below(12),
            3 if r.chance(1, 6) => 24 + r.below(60),
            _ => 1 + r.below(24),
        };
        let pv = r.below(5);
        let empties = Empties::new(n, r);
        let kinds: Vec<Option<usize>> = (0..n)
            .map(|_| {
                if r.below(4) < pv {
                    None
                } else {
                    let big = r.chance(1, 40) as usize;
                    Some([[0, 1, 2, 4, 5, 8, 33], [4, 33, 250, 256, 300, 1000, 4097]][big][r.below(7)])
                }
            })
            .collect();
        let end: usize = kinds.iter().map(|k| k.unwrap_or(4)).sum();
        let mut b = vec![];
        let mut tail = vec![];
        let mut marks = vec![];
        for (i, k) in kinds.iter().enumerate() {
            match k {
                Some(l) => b.extend(r.bytes(*l)),
                None => {
                    marks.push((b.len(), vcore::mirror::Mark::Offset));
                    b.extend(word(end + tail.len()));
                    let big = r.chance(1, 60) as usize;
                    let l = [[0, 0, 1, 3, 7, 20], [1, 255, 256, 257, 1000, 5000]][big][r.below(6)];
                    tail.extend(r.bytes(empties.len(i, l)));
                }
            }
        }
        b.extend(tail);
        let how = r.next() as usize;
        do_build(w, &kinds, &b, how, 6);
        for _ in 0..4 {
            let c = mutate(&b, &marks, r);
            do_build(w, &kinds, &c, r.next() as usize, 6);
        }
        // a huge fixed-size item somewhere
        if r.chance(1, 8) && !kinds.is_empty() {
            let mut ks = kinds.clone();
            let i = r.below(n);
            ks[i] = Some([usize::MAX, usize::MAX - 3, 1 << 63, HUGE + 1, u32::MAX as usize][r.below(5)]);
            do_build(w, &ks, &b, r.next() as usize, 1);
        }
    }
    gen_build_far(w, r, if thorough { 200 } else { 20 });
    gen_tabs(w, r, t, threads, thorough, false);
    lists(w, r, t, threads, thorough, &|w, b, r, every| {
        let x = case(pay(b"limit", b), || limited("vec", b, None));
        let odd = limit_odd("vec", b, None, &x);
        let _ = r;
        w.put(odd, every, || limit_event("vec", b, None, &x));
    });
}

/// Inputs to a list of variable-size items.
fn lists(
    w: &mut W,
    r: &mut Rng,
    t: usize,
    threads: usize,
    thorough: bool,
    f: &dyn Fn(&mut W, &[u8], &mut Rng, u64),
) {
    // every short offset table
    let mut c = 0;
    for k in 1..=3usize {
        for n in 0..=(4 * k + 4) {
            c += 1;
            if c % threads != t {
                continue;
            }
            let mut cand: Vec<usize> = (0..=n + 2).collect();
            if k == 3 {
                cand.retain(|x| *x >= 3);
            }
            cand.extend([65536 + 4 * k, 0x8000_0000 + 4 * k, u32::MAX as usize]);
            let kinds = vec![None; k];
            all_offsets(&kinds, n, &cand, &mut |b| f(w, &b, r, if k == 1 { 1 } else { 25 }));
        }
    }
    for i in 0..400 {
        if i % threads == t {
            f(w, &nth_small(i, &[0, 1, 2, 4, 5, 8, 255]), r, 1);
        }
    }
    let rounds = if thorough { 300_000 } else { 30_000 };
    for _ in 0..rounds / threads {
        let k = match r.below(9) {
            0 | 1 => r.below(3),
            2 => {
                let m = if r.chance(1, 10) { 300 } else { 10 };
                60 + r.below(m)
            }
            _ => {
                let m = if r.chance(1, 4) { 30 } else { 9 };
                1 + r.below(m)
            }
        };
        let empties = Empties::new(k, r);
        let mut b = vec![];
        let mut tail: Vec<u8> = vec![];
        let mut marks = vec![];
        for i in 0..k {
            marks.push((b.len(), vcore::mirror::Mark::Offset));
            b.extend(word(4 * k + tail.len()));
            let big = r.chance(1, 300) as usize;
            let l = empties.len(i, [[0, 0, 1, 2, 5], [255, 256, 257, 700, 3000]][big][r.below(5)]);
            let mut x = r.bytes(l);
            if l > 0 && r.chance(1, 12) {
                x[0] = [0xEE, 0xDD][r.below(2)];
            } else if l > 0 {
                x[0] &= 0x3f;
            }
            tail.extend(x);
        }
        b.extend(tail);
        f(w, &b, r, 8);
        for _ in 0..3 {
            let c = mutate(&b, &marks, r);
            f(w, &c, r, 8);
        }
    }
}

/// Lists of very many items, all alike but for a few; limits near the announced number.
fn gen_tabs(w: &mut W, r: &mut Rng, t: usize, threads: usize, thorough: bool, limits: bool) {
    let mut ks = vec![255usize, 256, 1023, 1024, 4095, 4096, 16383, 16384, 32768, 65535, 65536, 65537, 70001];
    if thorough {
        ks.extend([131072, 262144, 262145, 1 << 20]);
    }
    for (i, k) in ks.into_iter().enumerate() {
        if i % threads != t {
            continue;
        }
        for round in 0..(if thorough { 12 } else { 6 }) {
            let len = [0, 1, 4, 0][r.below(4)];
            let other = [0, k - 1, k / 2][r.below(3)];
            let plain = round % 3 == 0;
            let (mut b, mut tail) = (vec![], vec![]);
            for j in 0..k {
                b.extend(word(4 * k + tail.len()));
                if j == other && !plain {
                    tail.extend([[7u8, 8, 9], [0xEE, 1, 1], [0xDD, 1, 1]][r.below(3)]);
                } else {
                    tail.resize(tail.len() + len, 0x31);
                }
            }
            b.extend(tail);
            let j = [1, k / 2, k - 2, k - 1][r.below(4)];
            let at = |b: &[u8], j: usize| u32::from_le_bytes(b[4 * j..4 * j + 4].try_into().unwrap()) as usize;
            let n = b.len();
            let cut = |b: &mut Vec<u8>, j: usize, x: usize| b[4 * j..4 * j + 4].copy_from_slice(&word(x));
            match if round < 3 { 0 } else { r.below(8) } {
                1 => { let x = at(&b, j) + 1; cut(&mut b, j, x) }
                2 => { let x = at(&b, j) - 1; cut(&mut b, j, x) }
                3 => cut(&mut b, k - 1, n + 1),
                4 => cut(&mut b, 0, n + 4 - n % 4),
                5 => cut(&mut b, 0, 4 * k + 1),
                6 => cut(&mut b, 0, 4 * k - 4),
                7 => b.truncate(4 * k - 1),
                _ => {}
            }
            let go = |w: &mut W, coll: &str, m: Option<usize>| {
                let x = case(pay(b"limit", &[]), || limited(coll, &b, m));
                let odd = limit_odd(coll, &b, m, &x);
                w.put(odd, 1, || limit_tab_event(coll, &b, m, &x));
            };
            go(w, "vec", None);
            if limits {
                let ms = [0, 1, k - 1, k, k + 1, k / 2, k & 0xff, k & 0xffff, usize::MAX, 65535, 65536];
                for m in [ms[r.below(11)], [k - 1, k][r.below(2)], ms[r.below(11)]] {
                    go(w, "vec", Some(m));
                }
                let c = ["smallvec", "bounded3", "late2", "picky", "smallvec0"][r.below(5)];
                go(w, c, None);
                go(w, c, Some([k - 1, k, k + 1][r.below(3)]));
                if plain {
                    go(w, "set", None);
                }
            }
        }
    }
}

fn gen_c16(w: &mut W, r: &mut Rng, t: usize, threads: usize, thorough: bool) {
    let go = |w: &mut W, b: &[u8], r: &mut Rng, every: u64| {
        let n = if b.len() < 4 { 0 } else { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize / 4 };
        let coll = COLLS[r.below(COLLS.len())];
        let ms = [None, Some(0), Some(n), Some(n.saturating_sub(1)), Some(n + 1), Some(r.below(8)),
            Some(usize::MAX), Some(u32::MAX as usize)];
        for k in [r.below(2), 2 + r.below(2), 4 + r.below(4)] {
            let m = ms[k];
            let coll = if k == 3 { "vec" } else { coll };
            let x = case(pay(b"limit", b), || limited(coll, b, m));
            let odd = limit_odd(coll, b, m, &x);
            w.put(odd, every * 2, || limit_event(coll, b, m, &x));
        }
    };
    lists(w, r, t, threads, thorough, &go);
    gen_tabs(w, r, t, threads, thorough, true);
    if t == 0 {
        for coll in COLLS {
            for m in [None, Some(0), Some(1), Some(usize::MAX)] {
                let x = limited(coll, &[], m);
                w.put(false, 1, || limit_event(coll, &[], m, &x));
            }
        }
        // long tables: a limit just below, at and above the announced count
        for k in [200usize, 1000, 3000] {
            let mut b = vec![];
            for _ in 0..k {
                b.extend(word(4 * k));
            }
            for coll in ["vec", "smallvec", "set", "late2"] {
                for m in [None, Some(0), Some(1), Some(k - 1), Some(k), Some(k / 2)] {
                    let x = case(pay(b"limit", &b), || limited(coll, &b, m));
                    let odd = limit_odd(coll, &b, m, &x);
                    w.put(odd, 1, || limit_event(coll, &b, m, &x));
                }
            }
        }
    }
}

fn gen_c10(w: &mut W, r: &mut Rng, threads: usize, t: usize, thorough: bool) {
    // every sequence of up to 4 parts of these
    let opts: [(bool, usize); 6] = [(true, 0), (true, 1), (true, 3), (false, 0), (false, 1), (false, 3)];
    let mut c = 0;
    for len in 0..=(if thorough { 5 } else { 4 }) {
        for code in 0..6usize.pow(len) {
            c += 1;
            if c % threads != t {
                continue;
            }
            let parts: Vec<(bool, Vec<u8>)> = (0..len)
                .map(|i| {
                    let (f, n) = opts[code / 6usize.pow(i) % 6];
                    (f, r.bytes(n))
                })
                .collect();
            let n = [0, 1, 4, 9][r.below(4)];
            one_encode(w, r, n, parts, 1);
        }
    }
    gen_encode_far(w, r, if thorough { 250 } else { 25 });
    for _ in 0..(if thorough { 100_000 } else { 12_000 }) / threads {
        let k = if r.chance(1, 30) { r.below(60) } else { r.below(14) };
        let empties = Empties::new(k, r);
        let pf = 1 + r.below(4);
        let parts = (0..k)
            .map(|i| {
                let n = [0, 1, 2, 5, 8, 40, 300][r.below(7)];
                if r.chance(pf, 5) {
                    (true, r.bytes(n))
                } else {
                    (false, r.bytes(empties.len(i, n)))
                }
            })
            .collect();
        let n = [0, 1, 2, 3, 4, 16, 100, 255, 256, 700][r.below(10)];
        one_encode(w, r, n, parts, 4);
    }
    if t == 0 {
        for v in [0xff_ffusize, 0x1_0000, 0x1_0001, 0xff_fffb, 0x100_0000, 0x123_4567] {
            for parts in [
                vec![(false, v), (false, 3), (false, 1)],
                vec![(true, v), (false, 1), (true, 2), (false, 0)],
                vec![(false, 0), (false, v), (true, 5), (false, 2), (false, 0)],
            ] {
                let s = encode_long([0, 7][v % 2], &parts);
                w.put(false, 1, || s);
            }
        }
    }
}
/// Long parts after long buffers, and very many parts, as run strings.
fn gen_encode_far(w: &mut W, r: &mut Rng, rounds: usize) {
    for _ in 0..rounds {
        let n = if r.chance(1, 6) { 60 + r.below(400) } else { 1 + r.below(10) };
        let few = n <= 10;
        let pf = r.below(5);
        let mut big = few as usize;
        let parts: Vec<(bool, Vec<u8>)> = (0..n)
            .map(|i| {
                let f = r.chance(pf, 4);
                let mut l = if few {
                    [0, 1, 3, 255, 256, 4096, 32768, 65532, 65536, 65537, 70000, 1 << 20][r.below(12)]
                } else {
                    [0, 1, 2, 4, 200, 256][r.below(6)]
                };
                if big > 0 && !f && r.chance(1, 16) {
                    big -= 1;
                    l = (1 << 24) + r.below(3);
                }
                (f, vec![(i * 29 + 3) as u8; l])
            })
            .collect();
        let k = [0, 5, 4096, 65535, 65536, 65537, 1 << 17, (1 << 24) + 1][if few { r.below(8) } else { r.below(7) }];
        let pre = vec![0xA7u8; k];
        let x = case(pay(b"encode", &[]), || encode(&pre, &parts, r.next() as usize));
        w.put(false, 1, || {
            let mut o = String::from(r#"{"op":"encodefar","pre":"#);
            runs(&pre, &mut o);
            o.push_str(r#","fixed":["#);
            for (i, p) in parts.iter().enumerate() {
                write!(o, "{}{}", if i > 0 { "," } else { "" }, p.0).unwrap();
            }
            o.push_str(r#"],"parts":"#);
            run_seq(parts.iter().map(|p| &p.1[..]), &mut o);
            write!(o, r#","o":"{}""#, name(&x)).unwrap();
            if let R::Ok(b) = &x {
                o.push_str(r#","b":"#);
                runs(b, &mut o);
            }
            o.push('}');
            o
        });
    }
}
fn one_encode(w: &mut W, r: &mut Rng, n: usize, parts: Vec<(bool, Vec<u8>)>, every: u64) {
    let pre = r.bytes(n);
    let how = r.next() as usize;
    let x = case(pay(b"encode", &pre), || encode(&pre, &parts, how));
    let mut want = pre.clone();
    let fixed: usize = parts.iter().map(|p| if p.0 { p.1.len() } else { 4 }).sum();
    let mut tail: Vec<u8> = vec![];
    for (f, b) in &parts {
        if *f {
            want.extend(b);
        } else {
            want.extend(word(fixed + tail.len()));
            tail.extend(b);
        }
    }
    want.extend(tail);
    let odd = !matches!(&x, R::Ok(b) if *b == want);
    w.put(odd, every, || encode_event(&pre, &parts, &x));
}

fn gen_words(w: &mut W, r: &mut Rng, thorough: bool) {
    for i in 0..4u32 {
        for x in 0..=255u32 {
            let s = [vec![], vec![1], vec![0; 5]][r.below(3)].clone();
            let n = x << (8 * i) | if x % 3 == 0 { 0x01020304 } else { 0 };
            w.put(false, 1, || word_event(n, &s));
        }
    }
    for k in 0..32 {
        for d in [0u32, 1, u32::MAX] {
            w.put(false, 1, || word_event((1u32 << k).wrapping_add(d), &[7]));
        }
    }
    for _ in 0..(if thorough { 60_000 } else { 6000 }) {
        let n = r.next() as u32;
        let k = r.below(3);
        let s = r.bytes(k);
        w.put(false, 1, || word_event(n, &s));
    }
    for i in 0..400 {
        let b = nth_small(i, &[0, 1, 2, 4, 5, 8, 255]);
        w.put(false, 1, || short_event(&b));
    }
}
fn gen_split(w: &mut W, r: &mut Rng) {
    w.put(false, 1, || split_event(&[]));
    for s in 0..=255u8 {
        w.put(false, 1, || selnew_event(s));
        for n in [0, 1, 2, 5, 40] {
            let mut b = vec![s];
            b.extend(r.bytes(n));
            w.put(false, 1, || split_event(&b));
        }
    }
}

/// Cases generated by TLC from the specification.
fn from_spec(w: &mut W, path: &str, t: usize, threads: usize, r: &mut Rng, prop: &str, every: u64) {
    let text = std::fs::read_to_string(path).unwrap();
    let us = |v: &Value| -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    for (i, l) in text.lines().enumerate() {
        if i % threads != t || l.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(l).unwrap();
        match v["op"].as_str().unwrap() {
            "build" => {
                let kinds: Vec<Option<usize>> = v["kinds"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| if x.as_i64().unwrap() < 0 { None } else { Some(x.as_u64().unwrap() as usize) })
                    .collect();
                let how = r.next() as usize & !0x5555;
                do_build(w, &kinds, &us(&v["b"]), how & !0xffff | 0xaaaa, every);
            }
            "list" => {
                let b = us(&v["b"]);
                let m = v["m"].as_i64().unwrap();
                let m = if m < 0 { None } else { Some(m as usize) };
                let c = v["coll"].as_str().unwrap();
                if prop == "C09" && (m.is_some() || c != "vec") {
                    continue; // limits and collections are C16's
                }
                let x = case(pay(b"limit", &b), || limited(c, &b, m));
                let odd = limit_odd(c, &b, m, &x);
                w.put(odd, every, || limit_event(c, &b, m, &x));
            }
            "encode" => {
                let parts: Vec<(bool, Vec<u8>)> = v["fixed"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .zip(v["parts"].as_array().unwrap())
                    .map(|(f, p)| (f.as_bool().unwrap(), us(p)))
                    .collect();
                let pre = us(&v["pre"]);
                let x = encode(&pre, &parts, r.next() as usize);
                w.put(false, 1, || encode_event(&pre, &parts, &x));
            }
            "tree" => {
                let pre = us(&v["pre"]);
                let t = Part::list(&v["t"]);
                let how = r.next() as usize;
                let x = res(guard(|| {
                    let mut buf = pre.clone();
                    encode_tree(&t, &mut buf, how);
                    Ok::<_, ()>(buf)
                }));
                let mut want = pre.clone();
                want.extend(plain_tree(&t));
                let odd = !matches!(&x, R::Ok(b) if *b == want);
                w.put(odd, every, || {
                    let mut o = String::from(r#"{"op":"tree","pre":"#);
                    json_bytes(&pre, &mut o);
                    write!(o, r#","t":{},"o":"{}""#, v["t"], name(&x)).unwrap();
                    if let R::Ok(b) = &x {
                        o.push_str(r#","b":"#);
                        json_bytes(b, &mut o);
                    }
                    o.push('}');
                    o
                });
            }
            _ => panic!(),
        }
    }
}

/// A part of a container: a leaf or a container of its own.
enum Part {
    Leaf(bool, Vec<u8>),
    Nest(Vec<Part>),
}
impl Part {
    fn list(v: &Value) -> Vec<Part> {
        v.as_array().unwrap().iter().map(Part::one).collect()
    }
    fn one(v: &Value) -> Part {
        match v[0].as_u64().unwrap() {
            2 => Part::Nest(Part::list(&v[1])),
            f => Part::Leaf(f == 1, v[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()),
        }
    }
    fn fixed(&self) -> bool {
        match self {
            Part::Leaf(f, _) => *f,
            Part::Nest(t) => t.iter().all(Part::fixed),
        }
    }
    fn plain(&self) -> Vec<u8> {
        match self {
            Part::Leaf(_, b) => b.clone(),
            Part::Nest(t) => plain_tree(t),
        }
    }
}
fn portion(t: &[Part]) -> usize {
    t.iter().map(|p| if p.fixed() { p.plain().len() } else { 4 }).sum()
}
fn plain_tree(t: &[Part]) -> Vec<u8> {
    let (mut head, mut tail) = (vec![], vec![]);
    for p in t {
        if p.fixed() {
            head.extend(p.plain());
        } else {
            head.extend(word(portion(t) + tail.len()));
            tail.extend(p.plain());
        }
    }
    head.extend(tail);
    head
}
/// Nested encoders write straight into the buffer they are handed.
fn encode_tree(t: &[Part], buf: &mut Vec<u8>, how: usize) {
    struct Sub<'a>(&'a Part, usize);
    impl Encode for Sub<'_> {
        fn is_ssz_fixed_len() -> bool {
            false
        }
        fn ssz_append(&self, buf: &mut Vec<u8>) {
            match self.0 {
                Part::Leaf(_, b) => buf.extend_from_slice(b),
                Part::Nest(t) => encode_tree(t, buf, self.1),
            }
        }
        fn ssz_bytes_len(&self) -> usize {
            self.0.plain().len()
        }
    }
    let mut e = SszEncoder::container(buf, portion(t));
    for (i, p) in t.iter().enumerate() {
        let how = how.rotate_right(i as u32 + 1);
        if how & 1 == 0 && !p.fixed() {
            e.append(&Sub(p, how));
        } else {
            e.append_parameterized(p.fixed(), |o| Sub(p, how).ssz_append(o));
        }
    }
    e.finalize();
}

fn main() {
    if std::env::var("VCORE_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a = Args::parse();
    let prop = a.s("prop").to_string();
    let out = a.s("out").to_string();
    let threads = a.n("threads", 8) as usize;
    let thorough = a.n("thorough", 0) == 1;
    let seed = a.n("seed", 1);
    let budget = a.n("events", 60_000) as usize / threads;
    open_journal(&format!("{out}/journal"), threads);
    watchdog(threads, a.n("timeout", 20));
    let totals = std::sync::Mutex::new((0u64, 0u64, 0u64));
    let mut words = 0;
    if prop == "C09" {
        let (n, bad) = odd_words(threads, true);
        words = n;
        let mut s = Sink::new(format!("{out}/part-words.ndjson"));
        for x in &bad {
            s.put(&word_event(*x, &[]));
        }
        s.out.flush().unwrap();
        totals.lock().unwrap().2 += bad.len() as u64;
    }
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (prop, out, totals, a) = (&prop, &out, &totals, &a);
            sc.spawn(move || {
                set_slot(t);
                let mut r = Rng::new(seed.wrapping_mul(1000) + t as u64);
                let mut w = W {
                    sink: Sink::new(format!("{out}/part{t}.ndjson")),
                    cases: 0,
                    odd: 0,
                    left: HashSet::new(),
                    budget,
                };
                if !a.s("cases").is_empty() {
                    w.budget = usize::MAX;
                    from_spec(&mut w, a.s("cases"), t, threads, &mut r, &prop[..], if thorough { 4 } else { 1 });
                    w.budget = budget;
                }
                match &prop[..] {
                    "C05" => {
                        let q = w.budget / 3;
                        w.budget = q;
                        gen_c09(&mut w, &mut r, t, threads, thorough);
                        w.budget = q;
                        gen_c16(&mut w, &mut r, t, threads, thorough);
                        w.budget = q;
                        if t == 0 {
                            gen_words(&mut w, &mut r, false);
                            gen_split(&mut w, &mut r);
                        }
                    }
                    "C09" => {
                        if t == 0 {
                            gen_words(&mut w, &mut r, thorough);
                        }
                        gen_c09(&mut w, &mut r, t, threads, thorough);
                    }
                    "C10" => gen_c10(&mut w, &mut r, threads, t, thorough),
                    "C15" => {
                        if t == 0 {
                            gen_split(&mut w, &mut r);
                        }
                    }
                    "C16" => gen_c16(&mut w, &mut r, t, threads, thorough),
                    _ => panic!("no plan"),
                }
                w.sink.out.flush().unwrap();
                let _ = &w.left;
                let mut g = totals.lock().unwrap();
                g.0 += w.cases;
                g.1 += w.sink.events;
                g.2 += w.odd;
            });
        }
    });
    let g = totals.into_inner().unwrap();
    std::fs::write(
        format!("{out}/stats.json"),
        format!(r#"{{"screened":{},"events":{},"suspicious":{},"words":{words}}}"#, g.0, g.1, g.2),
    )
    .unwrap();
    let _: Option<BTreeMap<u8, u8>> = None;
}
