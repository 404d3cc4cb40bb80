//! Exploration of the universe of types for one property: executes the real codec on generated
//! values and byte strings and writes the trace for TLC.
use crate::alloc::*;
use crate::gen::*;
use crate::mirror::*;
use crate::ops::*;
use crate::val::*;
use std::collections::HashSet;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Args {
    pub map: std::collections::HashMap<String, String>,
}
impl Args {
    pub fn parse() -> Args {
        let mut map = std::collections::HashMap::new();
        let a: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i + 1 < a.len() {
            map.insert(a[i].trim_start_matches("--").to_string(), a[i + 1].clone());
            i += 2;
        }
        Args { map }
    }
    pub fn s(&self, k: &str) -> &str {
        self.map.get(k).map(|x| x.as_str()).unwrap_or("")
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.map.get(k).map(|x| x.parse().unwrap()).unwrap_or(d)
    }
}

pub struct Sink {
    pub out: BufWriter<File>,
    pub events: u64,
}
impl Sink {
    pub fn new(path: String) -> Sink {
        Sink { out: BufWriter::new(File::create(path).unwrap()), events: 0 }
    }
    pub fn put(&mut self, line: &str) {
        self.out.write_all(line.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.events += 1;
    }
}

pub static SEQ: AtomicU64 = AtomicU64::new(1);

/// Kill the process (exit code 99) when one case runs for more than `secs`.
pub fn watchdog(slots: usize, secs: u64) {
    std::thread::spawn(move || {
        let mut last = vec![(0u64, 0u64); slots];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for (i, l) in last.iter_mut().enumerate() {
                let s = peek_seq(i);
                if s != 0 && s == l.0 {
                    l.1 += 1;
                    if l.1 >= secs {
                        std::process::exit(99);
                    }
                } else {
                    *l = (s, 0);
                }
            }
        }
    });
}

pub fn payload(op: u8, id: usize, rng: u64, fuel: usize, data: &[u8]) -> Vec<u8> {
    let mut p = vec![op];
    p.extend((id as u32).to_le_bytes());
    p.extend(rng.to_le_bytes());
    p.extend((fuel as u32).to_le_bytes());
    p.extend(data);
    p
}

/// Run `f` as the journalled case.
pub fn case<R>(p: Vec<u8>, f: impl FnOnce() -> R) -> R {
    journal_set(SEQ.fetch_add(1, SeqCst), &p);
    let r = f();
    journal_clear();
    r
}

pub struct Plan {
    pub enc: usize,
    pub dec: usize,
    pub app: usize,
    pub meta: bool,
    pub mem: bool,
    pub many: usize,
    /// Events kept per type for each op (agreeing cases).
    pub keep: usize,
    /// Weight kept per type.
    pub weight: usize,
}

pub const OPTION_LIKE: fn(&S) -> bool = |s| matches!(s, S::Opt(_) | S::Union(_));

/// Whether property `p` says anything about the type.
pub fn applies(p: &str, e: &Entry) -> bool {
    match p {
        "C01" => e.se == e.sd && !e.se.has_tenum() && !e.se.zero_items(),
        "C02" => e.se == e.sd && !e.sd.has_tenum() && !e.sd.has_mapset() && !e.sd.zero_items(),
        "C04" => !e.sd.zero_items(),
        "C08" => e.derived,
        "C15" => e.se.any(&OPTION_LIKE),
        "C17" => e.se.any(&|s| matches!(s, S::Legacy(_))),
        "C19" => e.se.has_mapset() && !e.sd.zero_items(),
        _ => true,
    }
}

pub fn needs(p: &str) -> (bool, bool, bool, bool) {
    // enc, dec, app, meta
    match p {
        "C01" => (true, false, false, false),
        "C02" => (false, true, false, false),
        "C03" => (true, false, false, false),
        "C04" | "C05" | "C06" => (false, true, false, false),
        "C07" => (true, true, false, true),
        "C08" | "C17" => (true, true, false, true),
        "C10" => (false, false, true, false),
        "C15" | "C19" => (true, true, false, false),
        _ => panic!("no plan for {p}"),
    }
}

/// A transparent enum with a fixed-size variant is encoded and decoded, but cannot be asked for its
/// size metadata (documented: "not all enum variants are variably-sized").
fn alone(e: &Entry) -> bool {
    matches!(&e.se, S::TEnum(v) if v.iter().any(|s| s.fixed()))
}

/// Selection only: does the execution look wrong for property `p`?
fn bad_enc(p: &str, e: &Entry, o: &EncObs) -> bool {
    let rt = || match &o.d {
        Out::Ok(v) => *v != erase(&e.se, &o.v) || (!e.se.has_skip() && !o.eq),
        _ => true,
    };
    let by = || o.b.as_deref() != Some(&ser(&e.se, &o.v)[..]);
    let rts = applies("C01", e);
    match p {
        "C01" => rt(),
        "C03" => by(),
        "C07" => match (&o.b, o.len) {
            (Some(b), Some(l)) => b.len() != l || (e.se.fixed() && l != e.se.flen()),
            (Some(_), None) => true,
            _ => false,
        },
        "C19" | "C17" => by() || (rts && rt()),
        _ => by(),
    }
}

fn bad_dec(p: &str, e: &Entry, b: &[u8], o: &DecObs) -> bool {
    match p {
        "C02" => o.out.val().is_some() && o.re.as_deref() != Some(b),
        "C05" => matches!(o.out, Out::Panic),
        "C06" => {
            let (a, k) = e.mem.bound();
            o.peak > a * b.len() + k + 8192
        }
        "C07" => e.sd.fixed() && o.out.val().is_some() && b.len() != e.sd.flen(),
        _ => o.out.val() != de(&e.sd, b).as_ref() || matches!(o.out, Out::Panic),
    }
}

/// Outputs in which the value is part of another one.
pub const EMBEDDED: [&str; 5] = ["cont2", "param2", "tuple2", "list2", "some"];

fn bad_app(e: &Entry, pre: &[u8], o: &AppObs) -> bool {
    let want = ser(&e.se, &o.v);
    let c = S::Cont(vec![e.se.clone(), e.se.clone()]);
    let cv = V::S(vec![o.v.clone(), o.v.clone()]);
    let cb = ser(&c, &cv);
    let lb = ser(&S::List(Box::new(e.se.clone())), &cv);
    o.outs.iter().any(|(n, b)| match b {
        None => true,
        Some(b) => match *n {
            "cont2" | "param2" | "tuple2" => b[..] != [pre, &cb[..]].concat()[..],
            "list2" => b[..] != [pre, &lb[..]].concat()[..],
            "some" => b[..] != [pre, &[1], &want[..]].concat()[..],
            "append" | "append_ref" | "append_arc" | "cap" => b[..] != [pre, &want[..]].concat()[..],
            _ => b[..] != want[..],
        },
    })
}

pub struct Worker<'a> {
    pub prop: &'a str,
    pub sink: Sink,
    pub screened: u64,
    pub bad: u64,
    pub memmax: f64,
    pub twins: usize,
}

/// When an accepted string is not how its value is written: what decoding the latter gives.
fn twin(e: &Entry, b: &[u8], o: &DecObs) -> Option<String> {
    let v = o.out.val()?;
    let b2 = ser(&e.sd, v);
    if b2 == b {
        return None;
    }
    let o2 = case(payload(0, e.id, 0, 0, &b2), || e.ty.dec(&b2));
    let mut s = format!(r#"{{"op":"twin","ty":{},"v":"#, e.id);
    v.json(&mut s);
    s.push_str(r#","b":"#);
    json_bytes(b, &mut s);
    s.push_str(r#","b2":"#);
    json_bytes(&b2, &mut s);
    s.push_str(&format!(r#","o2":"{}""#, o2.out.name()));
    if let Out::Ok(v) = &o2.out {
        s.push_str(r#","v2":"#);
        v.json(&mut s);
    }
    s.push('}');
    Some(s)
}

fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (b.len() as u64) << 56
}

struct Quota {
    heavy: usize,
    left: usize,
    weight: usize,
    bad: usize,
    seen: HashSet<u64>,
}
impl Quota {
    fn new(p: &Plan, num: usize, den: usize) -> Quota {
        Quota {
            heavy: 1,
            left: p.keep * num / den, weight: p.weight * num / den, bad: 25, seen: HashSet::new() }
    }
    /// For values of many parts.
    fn many() -> Quota {
        Quota { heavy: 0, left: 1, weight: 5000, bad: 10, seen: HashSet::new() }
    }
    fn keep(&mut self, bad: bool, key: u64, weight: usize) -> bool {
        if bad {
            if self.bad > 0 && self.seen.insert(key) {
                self.bad -= 1;
                return true;
            }
            return false;
        }
        if weight > 20_000 {
            // a few long ones, whatever the budget
            if self.heavy > 0 && self.seen.insert(key) {
                self.heavy -= 1;
                return true;
            }
            return false;
        }
        if self.left > 0 && self.weight >= weight && self.seen.insert(key) {
            self.left -= 1;
            self.weight -= weight;
            return true;
        }
        false
    }
}

const FUELS: [usize; 8] = [0, 1, 2, 3, 4, 6, 10, 20];

impl Worker<'_> {
    pub fn ty(&mut self, e: &Entry, plan: &Plan, seed: u64) {
        let mut r = Rng::new(seed ^ (e.id as u64).wrapping_mul(0x5851F42D4C957F2D));
        if plan.meta && !alone(e) {
            let m = case(payload(3, e.id, 0, 0, &[]), || e.ty.meta());
            self.sink.put(&Meta::json(&m, e.id));
            self.screened += 1;
        }
        if plan.enc > 0 {
            let mut q = Quota::new(plan, 1, if plan.dec > 0 { 3 } else { 1 });
            for i in 0..plan.enc {
                let fuel = if i % 61 == 60 { 300 } else { FUELS[i % FUELS.len()] };
                self.enc(e, &mut q, fuel, &mut r);
            }
            for fuel in [0usize, 70000] {
                // one long value, with offsets above 2^16
                if fuel > 0 && e.id % 8 == 0 && long_ok(&e.se) {
                    let rng = r.0;
                    let v = long(&e.se, &mut r);
                    self.enc_v(e, &mut q, v, payload(1, e.id, rng, fuel, &[]));
                }
            }
            if places(&e.se) > 0 {
                let mut q = Quota::many();
                for _ in 0..plan.many {
                    let rng = r.0;
                    let v = many_any(&e.se, &mut r);
                    self.enc_v(e, &mut q, v, payload(1, e.id, rng, 80000, &[]));
                }
            }
        }
        if plan.app > 0 {
            let mut q = Quota::new(plan, 1, 1);
            for i in 0..plan.app {
                let fuel = FUELS[i % FUELS.len()];
                let rng = r.0;
                let v = gen(&e.se, fuel, &mut r);
                let n = [0, 1, 2, 3, 4, 5, 7, 8, 12, 33][r.below(10)];
                let pre = if r.chance(1, 4) { vec![0; n] } else { r.bytes(n) };
                self.app_v(e, &mut q, v, &pre, payload(2, e.id, rng, fuel, &pre));
            }
            if places(&e.se) > 0 {
                let mut q = Quota::many();
                for i in 0..plan.many {
                    let rng = r.0;
                    let v = many_any(&e.se, &mut r);
                    let pre = vec![i as u8; i % 6];
                    self.app_v(e, &mut q, v, &pre, payload(2, e.id, rng, 80000, &pre));
                }
            }
        }
        if plan.dec > 0 {
            let d = if plan.enc > 0 { 3 } else { 2 };
            // accepted and rejected strings have separate budgets
            let mut qs = [Quota::new(plan, 1, d), Quota::new(plan, 1, d)];
            for i in 0..plan.dec {
                let b = self.dec_input(e, i, &mut r);
                self.dec(e, &mut qs, &b);
            }
            if places(&e.sd) > 0 {
                let mut qs = [Quota::many(), Quota::many()];
                for i in 0..plan.many {
                    let mut m = vec![];
                    let v = many_any(&e.sd, &mut r);
                    let mut b = ser_at(&e.sd, &v, 0, &mut m);
                    if i % 3 == 0 && matches!(e.sd, S::Map(_, _) | S::Set(_)) {
                        // entries in any order, with duplicates
                        m.clear();
                        let l = S::List(Box::new(e.sd.item()));
                        b = ser_at(&l, &many_any(&l, &mut r), 0, &mut m);
                    }
                    match i % 4 {
                        0 => {}
                        1 => {
                            let n = r.below(b.len().min(9) + 1);
                            b.truncate(b.len() - n);
                        }
                        2 => {
                            let n = 1 + r.below(8);
                            b.extend(r.bytes(n));
                        }
                        _ if self.prop == "C06" => b = hostile(&b, &m, &mut r),
                        _ => b = mutate(&b, &m, &mut r),
                    }
                    self.dec(e, &mut qs, &b);
                }
            }
            if plan.mem {
                self.mem(e, &mut r);
            }
        }
    }

    fn app_v(&mut self, e: &Entry, q: &mut Quota, v: V, pre: &[u8], p: Vec<u8>) {
        let o = case(p, || e.ty.app(&v, pre));
        self.screened += 1;
        let Some(mut o) = o else { return };
        if alone(e) {
            o.outs.retain(|x| !EMBEDDED.contains(&x.0));
        }
        let bad = bad_app(e, pre, &o);
        self.bad += bad as u64;
        let mut s = String::new();
        o.v.json(&mut s);
        let w = o.outs.iter().map(|x| x.1.as_ref().map(|b| b.len()).unwrap_or(0)).sum::<usize>();
        if q.keep(bad, hash(s.as_bytes()) ^ hash(pre), w + 40) {
            self.sink.put(&o.json(e.id, pre));
        }
    }
    fn enc(&mut self, e: &Entry, q: &mut Quota, fuel: usize, r: &mut Rng) {
        let rng = r.0;
        let v = gen(&e.se, fuel, r);
        self.enc_v(e, q, v, payload(1, e.id, rng, fuel, &[]));
    }
    fn enc_v(&mut self, e: &Entry, q: &mut Quota, v: V, p: Vec<u8>) {
        let o = case(p, || e.ty.enc(&v));
        self.screened += 1;
        let Some(o) = o else { return };
        let bad = bad_enc(self.prop, e, &o);
        self.bad += bad as u64;
        let mut s = String::new();
        o.v.json(&mut s);
        let w = o.v.weight() * 2 + 10;
        if q.keep(bad, hash(s.as_bytes()), w) {
            self.sink.put(&o.json(e.id));
        }
    }

    pub fn dec_input(&self, e: &Entry, i: usize, r: &mut Rng) -> Vec<u8> {
        const A: [u8; 7] = [0, 1, 2, 4, 5, 8, 255];
        if i < 400 {
            return nth_small(i, &A); // every string of up to 3 symbols
        }
        if i < 656 {
            return vec![(i - 400) as u8];
        }
        if self.prop == "C15" && i < 656 + 256 * 8 {
            let j = i - 656;
            let sel = (j % 256) as u8;
            let S::Union(vs) = &e.sd else {
                let mut b = vec![sel];
                b.extend(wild(r));
                return b;
            };
            // a body that some variant accepts, under every selector
            let k = match j / 256 {
                0 => (sel as usize).min(vs.len() - 1),
                1 => 0,
                2 => vs.len() - 1,
                3 => return vec![sel],
                _ => r.below(vs.len()),
            };
            let x = gen(&vs[k], 3, r);
            let mut b = vec![sel];
            b.extend(ser(&vs[k], &x));
            if j / 256 == 7 {
                b.push(r.next() as u8);
            }
            return b;
        }
        match i % 8 {
            0 => wild(r),
            1 => {
                let v = gen(&e.sd, FUELS[r.below(8)], r);
                let mut b = ser(&e.sd, &v);
                if self.prop == "C06" {
                    let mut m = vec![];
                    b = ser_at(&e.sd, &v, 0, &mut m);
                    b = hostile(&b, &m, r);
                }
                b
            }
            k => {
                let mut m = vec![];
                let v = gen(&e.sd, FUELS[r.below(8)], r);
                let mut b = ser_at(&e.sd, &v, 0, &mut m);
                if self.prop == "C19" || self.prop == "C04" {
                    if let S::Map(_, _) | S::Set(_) = &e.sd {
                        if r.chance(1, 2) {
                            // an entry list in any order, with duplicates
                            m.clear();
                            let it = e.sd.item();
                            let n = r.below(6);
                            let mut xs: Vec<V> = (0..n).map(|_| gen(&it, 2, r)).collect();
                            if let (S::Map(_, w), true) = (&e.sd, n > 1) {
                                let k = xs[0].seq()[0].clone();
                                let j = 1 + r.below(n - 1);
                                if r.chance(2, 3) {
                                    xs[j] = V::S(vec![k, gen(w, 2, r)]);
                                }
                            } else if n > 1 {
                                xs[n - 1] = xs[0].clone();
                            }
                            b = ser_at(&S::List(Box::new(it)), &V::S(xs), 0, &mut m);
                            if k < 5 {
                                return b;
                            }
                        }
                    }
                }
                if self.prop == "C06" && k < 5 {
                    return hostile(&b, &m, r);
                }
                let n = if k < 6 { 1 } else { 2 };
                for _ in 0..n {
                    b = mutate(&b, &m, r);
                }
                b
            }
        }
    }

    fn dec(&mut self, e: &Entry, qs: &mut [Quota; 2], b: &[u8]) {
        let o = case(payload(0, e.id, 0, 0, b), || e.ty.dec(b));
        self.screened += 1;
        let bad = bad_dec(self.prop, e, b, &o);
        self.bad += bad as u64;
        if self.prop == "C02" {
            if let Some(l) = twin(e, b, &o) {
                self.bad += 1;
                if self.twins < 40 {
                    self.twins += 1;
                    self.sink.put(&l);
                }
            }
        }
        let q = &mut qs[o.out.val().is_none() as usize];
        if q.keep(bad, hash(b), b.len() + o.out.val().map(|v| v.weight()).unwrap_or(0) + 10) {
            self.sink.put(&o.json(e.id, b));
        }
    }

    /// Long inputs, plain and hostile, recorded only with their length and allocation.
    fn mem(&mut self, e: &Entry, r: &mut Rng) {
        let mut left = 12;
        for i in 0..60 {
            let n = [600, 2000, 6000][i % 3];
            let b = match i % 4 {
                0 => vec![0; n],
                1 => {
                    // a list of empty items
                    let k = n / 4;
                    let mut b = vec![];
                    for _ in 0..k {
                        b.extend((4 * k as u32).to_le_bytes());
                    }
                    b
                }
                2 => {
                    let mut m = vec![];
                    let v = gen(&e.sd, n, r);
                    let b = ser_at(&e.sd, &v, 0, &mut m);
                    if i % 8 == 2 {
                        hostile(&b, &m, r)
                    } else {
                        b
                    }
                }
                _ => {
                    let mut b: Vec<u8> = vec![];
                    while b.len() < n {
                        b.extend(((4 * (1 + r.below(n / 4))) as u32).to_le_bytes());
                    }
                    b
                }
            };
            let o = case(payload(0, e.id, 0, 0, &b), || e.ty.dec(&b));
            self.screened += 1;
            let (a, k) = e.mem.bound();
            let bound = a * b.len() + k + 8192;
            self.memmax = self.memmax.max(o.peak as f64 / bound as f64);
            let bad = o.peak > bound;
            self.bad += bad as u64;
            if bad || (left > 0 && (o.out.val().is_some() || i % 5 == 0)) {
                left -= (!bad) as usize;
                self.sink.put(&mem_json(e.id, b.len(), &o));
            }
        }
    }
}

/// Whether a long value of the schema is cheap to check: some byte-string-like part.
fn long_ok(s: &S) -> bool {
    match s {
        S::Bytes | S::RevBytes => true,
        S::List(e) => matches!(**e, S::Uint(_)) || long_ok(e),
        S::Cont(f) | S::Trans(f) | S::Desc(f) => S::live(f).any(|(_, s)| long_ok(s)),
        S::Opt(e) | S::Legacy(e) => long_ok(e),
        S::Union(v) => long_ok(&v[0]),
        _ => false,
    }
}
/// A value with a long part in the first place where there can be one.
fn long(s: &S, r: &mut Rng) -> V {
    match s {
        S::Bytes | S::RevBytes => V::B(vec![r.next() as u8; 65540 + r.below(300)]),
        S::List(e) => match &**e {
            S::Uint(n) => {
                let d = gen(e, 1, r);
                V::S(vec![d; 65800 / n])
            }
            _ => V::S(vec![long(e, r), gen(e, 2, r), gen(e, 2, r)]),
        },
        S::Cont(f) | S::Trans(f) | S::Desc(f) => {
            let mut done = false;
            V::S(
                f.iter()
                    .map(|s| {
                        if !done && !matches!(s, S::Skip(_)) && long_ok(s) {
                            done = true;
                            long(s, r)
                        } else {
                            gen(s, 2, r)
                        }
                    })
                    .collect(),
            )
        }
        S::Opt(e) | S::Legacy(e) => V::S(vec![long(e, r)]),
        S::Union(v) => V::T(0, Box::new(long(&v[0], r))),
        _ => gen(s, 2, r),
    }
}

/// Lengths around the powers of two and ten.
pub const LADDER: [usize; 28] = [
    16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000,
    1023, 1024, 1025,
];

/// The places of a schema that can hold many parts.
pub fn places(s: &S) -> usize {
    match s {
        S::Bytes | S::RevBytes => 1,
        S::List(_) | S::Set(_) | S::Map(_, _) => 1 + places(&s.item()),
        S::Cont(f) | S::Trans(f) | S::Desc(f) => S::live(f).map(|(_, s)| places(s)).sum(),
        S::Opt(e) | S::Legacy(e) => places(e),
        S::Union(v) | S::TEnum(v) => v.iter().map(places).sum(),
        _ => 0,
    }
}
/// A value with `n` parts in the k-th of those places, nearly all of them of one kind.
pub fn many(s: &S, k: usize, n: usize, r: &mut Rng) -> V {
    match s {
        S::Bytes | S::RevBytes => V::B(if r.chance(1, 2) { r.bytes(n) } else { vec![r.next() as u8; n] }),
        S::List(_) | S::Set(_) | S::Map(_, _) => {
            let e = s.item();
            if k > 0 {
                let mut v = vec![many(&e, k - 1, n, r), gen(&e, 2, r)];
                if r.chance(1, 2) {
                    v.reverse();
                }
                return V::S(if matches!(s, S::List(_)) { v } else { crate::mirror::collect(s, v) });
            }
            let fuel = [0, 0, 1, 2, 3][r.below(5)];
            let mut vs: Vec<V> = if matches!(s, S::List(_)) && r.chance(1, 2) {
                let x = gen(&e, fuel, r);
                (0..n).map(|i| if i % 61 == 60 { gen(&e, 3, r) } else { x.clone() }).collect()
            } else {
                (0..n).map(|_| gen(&e, fuel, r)).collect()
            };
            if n > 0 && r.chance(1, 3) {
                vs[n - 1] = gen(&e, 4, r);
            }
            V::S(if matches!(s, S::List(_)) { vs } else { crate::mirror::collect(s, vs) })
        }
        S::Cont(f) | S::Trans(f) | S::Desc(f) => {
            let mut k = Some(k);
            V::S(
                f.iter()
                    .map(|s| {
                        let here = if matches!(s, S::Skip(_)) { 0 } else { places(s) };
                        match k {
                            Some(j) if j < here => {
                                k = None;
                                many(s, j, n, r)
                            }
                            Some(j) => {
                                k = Some(j - here);
                                gen(s, 2, r)
                            }
                            None => gen(s, 2, r),
                        }
                    })
                    .collect(),
            )
        }
        S::Opt(e) | S::Legacy(e) => V::S(vec![many(e, k, n, r)]),
        S::Union(v) | S::TEnum(v) => {
            let mut k = k;
            for (i, s) in v.iter().enumerate() {
                if k < places(s) {
                    return V::T(i as u32, Box::new(many(s, k, n, r)));
                }
                k -= places(s);
            }
            panic!()
        }
        _ => gen(s, 2, r),
    }
}

/// A value with many parts somewhere, not too heavy.
pub fn many_any(s: &S, r: &mut Rng) -> V {
    let k = r.below(places(s));
    let mut n = match r.below(48) {
        0 => [1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097][r.below(8)],
        1..=6 => 5 + r.below(60),
        7..=12 => r.below(1100),
        _ => LADDER[r.below(LADDER.len())],
    };
    loop {
        let v = many(s, k, n, r);
        if v.weight() < 16_000 || n < 16 {
            return v;
        }
        n /= 3;
    }
}

/// Entry point of a binary over a universe of types.
pub fn main(entries: Vec<Entry>) {
    if std::env::var("VCORE_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a = Args::parse();
    let prop = a.s("prop").to_string();
    let seed = a.n("seed", 1);
    let out = a.s("out").to_string();
    if !a.s("one").is_empty() {
        return one(&entries, &a);
    }
    if !a.s("mem").is_empty() {
        // the allocation shape of every type, in order of id
        let mut es: Vec<&Entry> = entries.iter().collect();
        es.sort_by_key(|e| e.id);
        let mut f = BufWriter::new(File::create(a.s("mem")).unwrap());
        f.write_all(b"{").unwrap();
        for (i, e) in es.iter().enumerate() {
            let mut o = String::new();
            e.mem.json(&mut o);
            write!(f, "{}\"t{}\":{}", if i > 0 { "," } else { "" }, e.id, o).unwrap();
        }
        f.write_all(b"}").unwrap();
        return;
    }
    let threads = a.n("threads", 8) as usize;
    let budget = a.n("events", 200_000) as usize;
    let screen = a.n("screen", 3000) as usize;
    let skip: HashSet<usize> =
        a.s("skip").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    open_journal(&format!("{out}/journal"), threads);
    watchdog(threads, a.n("timeout", 20));

    let mut es: Vec<&Entry> =
        entries.iter().filter(|e| applies(&prop, e) && !skip.contains(&e.id)).collect();
    es.sort_by_key(|e| (e.id as u64).wrapping_mul(0x9E3779B97F4A7C15));
    let (enc, dec, app, meta) = needs(&prop);
    let keep = (budget / es.len().max(1)).clamp(12, 20_000);
    let plan = Plan {
        enc: if enc { screen / 4 } else { 0 },
        dec: if dec { screen } else { 0 },
        app: if app { screen / 8 } else { 0 },
        meta,
        mem: prop == "C06",
        many: a.n("many", 16) as usize,
        keep,
        weight: keep * 60,
    };
    let next = AtomicUsize::new(0);
    let totals = Mutex::new((0u64, 0u64, 0u64, 0f64));
    let nextfar = AtomicUsize::new(0);
    let mut fars: Vec<&Entry> =
        es.iter().copied().filter(|e| crate::cases::far_ok(&e.se) && crate::cases::far_ok(&e.sd)).collect();
    fars.truncate(a.n("far", 0) as usize);
    // one of every kind of item first
    let mut huges: Vec<&Entry> = es
        .iter()
        .copied()
        .filter(|e| matches!((&e.se, &e.sd), (S::List(_), S::List(_))) && !e.se.zero_items() && !e.sd.zero_items())
        .collect();
    let mut kinds: Vec<(bool, std::mem::Discriminant<S>)> = vec![];
    huges.sort_by_cached_key(|e| {
        let i = e.sd.item();
        let k = (i.fixed(), std::mem::discriminant(&i));
        kinds.push(k);
        kinds.iter().filter(|x| **x == k).count()
    });
    huges.truncate(a.n("huge", 0) as usize);
    let nexthuge = AtomicUsize::new(0);
    let replayed = AtomicU64::new(0);
    let by_id: std::collections::HashMap<usize, &Entry> = es.iter().map(|e| (e.id, *e)).collect();
    let (cases, every) = (a.s("cases").to_string(), a.n("every", 20) as usize);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (es, next, plan, prop, out, totals) = (&es, &next, &plan, &prop, &out, &totals);
            let (replayed, by_id, cases) = (&replayed, &by_id, &cases);
            let (fars, nextfar) = (&fars, &nextfar);
            let (huges, nexthuge) = (&huges, &nexthuge);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    set_slot(t);
                    let mut w = Worker {
                        prop,
                        sink: Sink::new(format!("{out}/part{t}.ndjson")),
                        screened: 0,
                        bad: 0,
                        memmax: 0.0,
                        twins: 0,
                    };
                    for f in cases.split(',').filter(|f| !f.is_empty()) {
                        let n = crate::cases::replay(&mut w, by_id, f, t, threads, every);
                        replayed.fetch_add(n, SeqCst);
                    }
                    loop {
                        let i = nextfar.fetch_add(1, SeqCst);
                        if i >= fars.len() {
                            break;
                        }
                        crate::cases::far_cases(&mut w, fars[i], prop, i, seed);
                    }
                    loop {
                        let i = nexthuge.fetch_add(1, SeqCst);
                        if i >= huges.len() {
                            break;
                        }
                        crate::cases::huge_cases(&mut w, huges[i], prop, i, seed);
                    }
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= es.len() {
                            break;
                        }
                        w.ty(es[i], plan, seed);
                    }
                    w.sink.out.flush().unwrap();
                    let mut g = totals.lock().unwrap();
                    g.0 += w.screened;
                    g.1 += w.sink.events;
                    g.2 += w.bad;
                    g.3 = g.3.max(w.memmax);
                })
                .unwrap();
        }
    });
    let g = totals.into_inner().unwrap();
    std::fs::write(
        format!("{out}/stats.json"),
        format!(
            r#"{{"types":{},"screened":{},"events":{},"suspicious":{},"memmax":{},"replayed":{}}}"#,
            es.len(),
            g.0,
            g.1,
            g.2,
            g.3,
            replayed.into_inner()
        ),
    )
    .unwrap();
}

/// Run one journalled case in its own process; what happened to it is judged by the caller.
fn one(entries: &[Entry], a: &Args) {
    open_journal(&format!("{}/journal1", a.s("out")), 1);
    watchdog(1, a.n("timeout", 20));
    let id = a.n("id", 0) as usize;
    let e = entries.iter().find(|e| e.id == id).unwrap();
    let data: Vec<u8> = std::fs::read(a.s("data")).unwrap();
    let fuel = a.n("fuel", 0) as usize;
    let mut r = Rng(a.n("rng", 0));
    let t = std::thread::Builder::new().stack_size(64 << 20);
    let op = a.s("one").to_string();
    std::thread::scope(|sc| {
        t.spawn_scoped(sc, move || match op.as_str() {
            "0" => {
                case(payload(0, id, 0, 0, &data), || e.ty.dec(&data));
            }
            "1" => {
                let v = match fuel {
                    70000 => long(&e.se, &mut r),
                    80000 => many_any(&e.se, &mut r),
                    _ => gen(&e.se, fuel, &mut r),
                };
                case(payload(1, id, 0, 0, &[]), || e.ty.enc(&v));
            }
            "5" | "6" | "7" | "8" | "9" | "10" => crate::cases::far_one(e, &op, fuel, r.0, &data),
            "4" => {
                let j: serde_json::Value = serde_json::from_slice(&data).unwrap();
                let v = crate::cases::value(&e.se, &j);
                case(payload(4, id, 0, 0, &data), || e.ty.enc(&v));
            }
            "2" => {
                let v = if fuel == 80000 { many_any(&e.se, &mut r) } else { gen(&e.se, fuel, &mut r) };
                case(payload(2, id, 0, 0, &[]), || e.ty.app(&v, &data));
            }
            _ => {
                case(payload(3, id, 0, 0, &[]), || e.ty.meta());
            }
        })
        .unwrap();
    });
}
