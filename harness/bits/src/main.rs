//! Histories of bitfields and their byte-level interfaces.
mod bf;
mod form;
use bf::*;
use serde_json::{json, Value};
use std::fmt::Write as _;
use std::io::Write as _;
use vcore::alloc::*;
use vcore::gen::*;
use vcore::mirror::{de, pack, ser};
use vcore::run::{case, watchdog, Args, Sink};
use vcore::val::{bfb, json_bytes, S, V};

#[global_allocator]
static A: Counting = Counting;

fn schema(f: &Fac) -> S {
    match f.kind {
        "bitlist" => S::BitList(f.cap),
        "bitvec" => S::BitVec(f.cap),
        _ => S::BitDyn,
    }
}

struct W {
    sink: Sink,
    cases: u64,
    odd: u64,
    odd_bytes: u64,
    budget: u64,
    tick: u64,
}
impl W {
    fn put(&mut self, odd: bool, every: u64, f: impl FnOnce() -> String) {
        self.cases += 1;
        self.tick += 1;
        if odd {
            self.odd += 1;
            if self.odd > 150 || self.odd_bytes > 8_000_000 {
                return;
            }
        } else if self.budget == 0 || self.tick % every.max(1) != 0 {
            return;
        }
        let s = f();
        self.odd_bytes += odd as u64 * s.len() as u64;
        self.budget = self.budget.saturating_sub(s.len() as u64);
        self.sink.put(&s);
    }
}

/// TLC has 32-bit integers; what matters of a huge number is its residue.
fn big(n: usize) -> usize {
    if n > 1_000_000_000 {
        1_000_000_000 + n % 8
    } else {
        n
    }
}
fn head(op: &str, f: &Fac) -> String {
    format!(r#"{{"op":"{op}","k":"{}","n":{}"#, f.kind, f.cap)
}
fn bits_of(b: &Bs) -> Option<Vec<u8>> {
    vcore::ops::guard(|| b.obs().map(|o| o.get)).flatten()
}
fn pay(f: &Fac, what: &str, b: &[u8]) -> Vec<u8> {
    let s = format!("{}<{}> {}", f.kind, f.cap, what);
    let mut p = vec![s.len().min(255) as u8];
    p.extend(&s.as_bytes()[..s.len().min(255)]);
    p.extend(b);
    p
}

/// A bitfield with these bits, made with the constructor and set.
fn make(f: &Fac, bits: &[u8]) -> Option<Bs> {
    let mut x = (f.with)(bits.len()).ok()?;
    for (i, b) in bits.iter().enumerate() {
        if *b == 1 {
            x.set(i, true).ok()?;
        }
    }
    Some(x)
}
/// The same by another way.
fn make2(f: &Fac, bits: &[u8], r: &mut Rng) -> Option<Bs> {
    match r.below(3) {
        0 => make(f, bits),
        1 => (f.decode)(&ser(&schema(f), &V::B(bits.to_vec()))).ok(),
        _ => {
            let b = ser(&schema(f), &V::B(bits.to_vec()));
            (f.from_bytes)(&b, 8 * b.len()).ok()
        }
    }
}

fn rand_len(f: &Fac, r: &mut Rng) -> usize {
    match f.kind {
        "bitvec" => f.cap,
        "bitlist" => match r.below(6) {
            0 => f.cap,
            1 => f.cap.saturating_sub(1),
            2 => f.cap / 8 * 8,
            3 => f.cap.min(r.below(20)),
            _ => r.below(f.cap + 1),
        },
        _ => {
            match r.below(60) {
                0..=14 => return 8 * (1 + r.below(24)),
                15 => return 8 * (1 + r.below(300)),
                _ => {}
            }
            let k = if r.chance(1, 200) { 13 } else if r.chance(1, 12) { 9 } else { 6 };
            8 * [1, 1, 2, 3, 5, 9, 16, 128, 129, 257, 1029, 2051, 4097][r.below(k)]
        }
    }
}
fn rand_bits(n: usize, r: &mut Rng) -> Vec<u8> {
    let m = r.below(5);
    (0..n)
        .map(|i| match m {
            0 => 1,
            1 => (i == n - 1) as u8,
            2 => r.chance(1, 6) as u8,
            _ => r.chance(1, 2) as u8,
        })
        .collect()
}
/// Byte strings around the valid encodings of the type.
fn rand_bytes(f: &Fac, r: &mut Rng) -> Vec<u8> {
    let n = rand_len(f, r);
    let mut b = ser(&schema(f), &V::B(rand_bits(n, r)));
    let l = b.len();
    match r.below(12) {
        0 => {
            b.push(0);
        }
        1 => b.push([1, 0x80, 0xff, 2][r.below(4)]),
        2 => {
            b.pop();
        }
        3 => {
            if l > 0 {
                b[l - 1] = r.next() as u8
            }
        }
        4 => {
            if l > 0 {
                b[l - 1] = 0
            }
        }
        5 => {
            if l > 0 {
                b[l - 1] |= 0x80 >> r.below(8)
            }
        }
        6 => {
            if l > 0 {
                b[l - 1] = 1 << r.below(8)
            }
        }
        7 => {
            b = r.bytes(l);
        }
        8 => {
            let k = r.below(l + 3);
            b = r.bytes(k);
        }
        9 => {
            // a delimiter just beyond the capacity
            b = pack(&vec![0; f.cap + 1 + r.below(9)]);
            let k = b.len();
            b[k - 1] |= 1 << r.below(8);
        }
        _ => {}
    }
    b
}

// ------------------------------------------------------------------------------- histories
const H: usize = 3;
struct Hist {
    f: Fac,
    regs: [Option<Bs>; H],
    dead: bool,
}
impl Hist {
    fn state(&self, s: &mut String) {
        s.push_str(r#","obs":["#);
        for (i, x) in self.regs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            match x {
                None => s.push_str(r#"{"o":"none"}"#),
                Some(x) => Obs::json(&x.obs(), s),
            }
        }
        s.push_str(r#"],"eq":["#);
        for i in 0..H {
            for j in 0..H {
                if i + j > 0 {
                    s.push(',');
                }
                s.push_str(match (&self.regs[i], &self.regs[j]) {
                    (Some(a), Some(b)) => match a.eq(&**b) {
                        Some(true) => "1",
                        Some(false) => "0",
                        None => "3",
                    },
                    _ => "2",
                });
            }
        }
        s.push_str("]}");
    }
    fn start(f: &Fac) -> (Hist, String) {
        (Hist { f: *f, regs: [None, None, None], dead: false }, head("start", f) + "}")
    }
    /// Do one operation; its event.
    fn step(&mut self, op: &Op) -> String {
        let f = self.f;
        let mut s = head(op.name(), &f);
        let o;
        match op {
            Op::New(h, n) => {
                write!(s, r#","h":{},"i":{}"#, h + 1, big(*n)).unwrap();
                o = self.put(*h, (f.with)(*n));
            }
            Op::Default(h) => {
                write!(s, r#","h":{}"#, h + 1).unwrap();
                o = self.put(*h, (f.default)());
            }
            Op::Decode(h, b) => {
                write!(s, r#","h":{},"b":"#, h + 1).unwrap();
                json_bytes(b, &mut s);
                o = self.put(*h, (f.decode)(b));
            }
            Op::Bytes(h, b) => {
                write!(s, r#","h":{},"b":"#, h + 1).unwrap();
                json_bytes(b, &mut s);
                o = self.put(*h, (f.from_bytes)(b, 8 * b.len()));
            }
            Op::Set(h, i, x) => {
                write!(s, r#","h":{},"i":{},"x":{}"#, h + 1, big(*i), *x as u8).unwrap();
                o = match &mut self.regs[*h] {
                    Some(b) => b.set(*i, *x).name(),
                    None => return String::new(),
                };
            }
            Op::Shift(h, n) => {
                write!(s, r#","h":{},"i":{}"#, h + 1, big(*n)).unwrap();
                o = match &mut self.regs[*h] {
                    Some(b) => b.shift(*n).name(),
                    None => return String::new(),
                };
            }
            Op::DiffIn(h, g) => {
                write!(s, r#","h":{},"g":{}"#, h + 1, g + 1).unwrap();
                if self.regs[*h].is_none() || self.regs[*g].is_none() {
                    return String::new();
                }
                let b = self.regs[*g].as_ref().unwrap().dup();
                o = self.regs[*h].as_mut().unwrap().diff_in(&*b).name();
            }
            Op::Bin(p, h, g, j) => {
                write!(s, r#","h":{},"g":{},"i":{}"#, h + 1, g + 1, j + 1).unwrap();
                let (Some(a), Some(b)) = (&self.regs[*g], &self.regs[*j]) else { return String::new() };
                let c = match p {
                    0 => a.inter(&**b),
                    1 => a.union(&**b),
                    _ => a.diff(&**b),
                };
                o = self.put(*h, c);
            }
            Op::Clone(h, g) => {
                write!(s, r#","h":{},"g":{}"#, h + 1, g + 1).unwrap();
                let Some(b) = &self.regs[*g] else { return String::new() };
                let c = run(|| Ok::<_, ()>(b.dup()));
                o = self.put(*h, c);
            }
            Op::CloneFrom(h, g) => {
                write!(s, r#","h":{},"g":{}"#, h + 1, g + 1).unwrap();
                if self.regs[*h].is_none() || self.regs[*g].is_none() {
                    return String::new();
                }
                // of a value to itself: through a copy
                let b = if h == g { Some(self.regs[*g].as_ref().unwrap().dup()) } else { None };
                let mut x = self.regs[*h].take().unwrap();
                o = x.clone_from(&**b.as_ref().unwrap_or_else(|| self.regs[*g].as_ref().unwrap())).name();
                self.regs[*h] = Some(x);
            }
        }
        write!(s, r#","o":"{o}""#).unwrap();
        self.dead |= o == "panic";
        self.state(&mut s);
        s
    }
    fn put(&mut self, h: usize, r: R<Bs>) -> &'static str {
        let o = r.name();
        if let R::Ok(x) = r {
            self.regs[h] = Some(x);
        }
        o
    }
}
#[derive(Clone, Debug)]
enum Op {
    New(usize, usize),
    Default(usize),
    Decode(usize, Vec<u8>),
    Bytes(usize, Vec<u8>),
    Set(usize, usize, bool),
    Shift(usize, usize),
    DiffIn(usize, usize),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    Bin(usize, usize, usize, usize),
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::New(..) => "new",
            Op::Default(..) => "default",
            Op::Decode(..) => "decode",
            Op::Bytes(..) => "bytes",
            Op::Set(..) => "set",
            Op::Shift(..) => "shift",
            Op::DiffIn(..) => "diffin",
            Op::Clone(..) | Op::CloneFrom(..) => "clone",
            Op::Bin(p, ..) => ["inter", "union", "diff"][*p],
        }
    }
}
fn rand_index(n: usize, r: &mut Rng) -> usize {
    match r.below(14) {
        0 => n,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => 0,
        4 => n + r.below(9),
        5 => [usize::MAX, usize::MAX - 7, 1 << 32, 1 << 61][r.below(4)],
        6 => (r.below(n / 8 + 1) * 8).min(n.saturating_sub(1)),
        7 => (r.below(n / 8 + 1) * 8 + 7).min(n.saturating_sub(1)),
        _ => r.below(n.max(1)),
    }
}
fn rand_op(hi: &Hist, r: &mut Rng, step: usize) -> Op {
    let f = &hi.f;
    let h = r.below(H);
    let len = |h: usize| hi.regs[h].as_ref().and_then(|b| b.obs()).map(|o| o.n).unwrap_or(0);
    if step < 2 || hi.regs[h].is_none() {
        return match r.below(4) {
            0 => Op::New(h, rand_len(f, r)),
            1 => Op::Default(h),
            2 => {
                let n = rand_len(f, r);
                Op::Decode(h, ser(&schema(f), &V::B(rand_bits(n, r))))
            }
            _ => {
                let n = rand_len(f, r);
                Op::Bytes(h, ser(&schema(f), &V::B(rand_bits(n, r))))
            }
        };
    }
    match r.below(24) {
        0..=9 => Op::Set(h, rand_index(len(h), r), r.chance(3, 4)),
        10..=13 => Op::Shift(
            h,
            match r.below(5) {
                0 => 1,
                1 => 8.min(len(h)),
                2 => len(h),
                _ => rand_index(len(h) + 1, r),
            },
        ),
        14..=16 => Op::DiffIn(h, r.below(H)),
        17 if r.chance(1, 2) => Op::Clone(h, r.below(H)),
        17 => Op::CloneFrom(h, r.below(H)),
        18 => Op::Bin(r.below(3), h, r.below(H), r.below(H)),
        19 => Op::New(
            h,
            if r.chance(1, 4) {
                let q = rand_index(f.cap, r);
                // a huge request of a dynamic vector in bounds is really allocated
                if f.kind == "bitdyn" && q > 1 << 16 { q | 1 } else { q }
            } else {
                rand_len(f, r)
            },
        ),
        20 => Op::Default(h),
        21 => Op::Bytes(h, rand_bytes(f, r)),
        _ => Op::Decode(h, rand_bytes(f, r)),
    }
}

/// What the mirror expects the registers to hold (selection only).
fn mirror_step(f: &Fac, m: &mut [Option<Vec<u8>>; H], op: &Op) -> bool {
    match op {
        Op::New(h, n) => {
            let ok = match f.kind {
                "bitlist" => *n <= f.cap,
                "bitvec" => true,
                _ => *n > 0 && *n % 8 == 0,
            };
            if ok {
                m[*h] = Some(vec![0; if f.kind == "bitvec" { f.cap } else { *n }]);
            }
            ok
        }
        Op::Default(h) => {
            m[*h] = Some(vec![0; if f.kind == "bitdyn" { 8 } else { f.cap }]);
            true
        }
        Op::Decode(h, b) | Op::Bytes(h, b) => match de(&schema(f), b) {
            Some(v) => {
                m[*h] = Some(v.bytes().to_vec());
                true
            }
            None => false,
        },
        Op::Set(h, i, x) => {
            let b = m[*h].as_mut().unwrap();
            if *i < b.len() {
                b[*i] = *x as u8;
                true
            } else {
                false
            }
        }
        Op::Shift(h, n) => {
            let b = m[*h].as_mut().unwrap();
            if *n <= b.len() {
                let mut c = vec![0; *n];
                c.extend(&b[..b.len() - n]);
                *b = c;
                true
            } else {
                false
            }
        }
        Op::DiffIn(h, g) => {
            let g = m[*g].clone().unwrap();
            for (x, y) in m[*h].as_mut().unwrap().iter_mut().zip(g) {
                *x &= 1 - y;
            }
            true
        }
        Op::Clone(h, g) | Op::CloneFrom(h, g) => {
            m[*h] = m[*g].clone();
            true
        }
        Op::Bin(p, h, g, j) => {
            let (a, b) = (m[*g].clone().unwrap(), m[*j].clone().unwrap());
            let n = match p {
                0 if f.kind == "bitlist" => a.len().min(b.len()),
                2 => a.len(),
                _ => a.len().max(b.len()),
            };
            let at = |x: &[u8], i: usize| x.get(i).copied().unwrap_or(0);
            m[*h] = Some(
                (0..n)
                    .map(|i| match p {
                        0 => at(&a, i) & at(&b, i),
                        1 => at(&a, i) | at(&b, i),
                        _ => at(&a, i) & (1 - at(&b, i)),
                    })
                    .collect(),
            );
            true
        }
    }
}
fn obs_odd(f: &Fac, o: &Option<Obs>, m: &[u8]) -> bool {
    let Some(o) = o else { return true };
    let set = m.iter().filter(|x| **x == 1).count();
    let enc = ser(&schema(f), &V::B(m.to_vec()));
    o.get != m
        || o.iter != m
        || o.n != m.len()
        || o.count != set
        || o.zero != (set == 0)
        || o.high != m.iter().rposition(|x| *x == 1).map(|x| x as i64).unwrap_or(-1)
        || o.bytes != pack(m)
        || o.raw != o.bytes
        || o.enc != enc
        || o.into != enc
        || o.slen != enc.len()
        || !o.oob
        || o.empty != m.is_empty()
        || o.nth.iter().any(|q| {
            let at = |i: usize| m.get(i).map_or(2, |x| *x as usize);
            q[1] != at(q[0]) || q[2] != at(q[0] + 1) || q[3] != at(2 * q[0] + 2)
        })
        || !o.step.2.iter().eq(m.iter().skip(o.step.0).step_by(o.step.1))
        || o.last != m.last().copied().unwrap_or(2)
        || o.items != m.len()
        || !o.hint
}

fn history(w: &mut W, f: &Fac, ops: &mut dyn FnMut(&Hist, usize) -> Option<Op>, keep: bool) {
    let (mut hi, first) = Hist::start(f);
    let mut lines = vec![first];
    let mut m: [Option<Vec<u8>>; H] = [None, None, None];
    let mut odd = false;
    let mut k = 0;
    while let Some(op) = ops(&hi, k) {
        k += 1;
        let what = format!("{op:?}");
        let had = match &op {
            Op::Set(h, ..) | Op::Shift(h, _) => hi.regs[*h].is_some(),
            Op::DiffIn(h, g) => hi.regs[*h].is_some() && hi.regs[*g].is_some(),
            Op::Clone(_, g) => hi.regs[*g].is_some(),
            Op::CloneFrom(h, g) => hi.regs[*h].is_some() && hi.regs[*g].is_some(),
            Op::Bin(_, _, g, j) => hi.regs[*g].is_some() && hi.regs[*j].is_some(),
            _ => true,
        };
        if !had {
            continue;
        }
        let line = case(pay(f, &what, &[]), || hi.step(&op));
        w.cases += 1;
        let e = mirror_step(f, &mut m, &op);
        odd |= line.contains(r#""o":"panic""#)
            || line.contains(r#""o":"err""#) == e
            || (0..H).any(|h| match (&hi.regs[h], &m[h]) {
                (Some(b), Some(x)) => obs_odd(f, &b.obs(), x),
                (None, None) => false,
                _ => true,
            })
            || (0..H).any(|i| {
                (0..H).any(|j| match (&hi.regs[i], &hi.regs[j]) {
                    (Some(a), Some(b)) => {
                        let same = m[i] == m[j];
                        a.eq(&**b) != Some(same)
                            || same && a.obs().map(|o| o.hash) != b.obs().map(|o| o.hash)
                    }
                    _ => false,
                })
            });
        lines.push(line);
        if odd || hi.dead {
            break;
        }
    }
    if odd {
        w.odd += 1;
    }
    if (odd && w.odd <= 60 && w.odd_bytes < 8_000_000) || (keep && w.budget > 0) {
        for l in &lines {
            w.budget = w.budget.saturating_sub(l.len() as u64);
            w.odd_bytes += odd as u64 * l.len() as u64;
            w.sink.put(l);
        }
    }
}

fn gen_c11(w: &mut W, fs: &[Fac], r: &mut Rng, t: usize, threads: usize, thorough: bool) {
    let rounds = if thorough { 3000 } else { 250 };
    for (i, f) in fs.iter().enumerate() {
        if i % threads != t {
            continue;
        }
        let n = if f.cap > 3000 { rounds / 16 } else if f.cap > 200 { rounds / 8 } else if f.kind == "bitdyn" { rounds * 4 } else { rounds };
        let share = w.budget / (1 + (fs.len() - i) as u64 / threads as u64);
        let save = w.budget - share.min(w.budget);
        w.budget = share;
        for j in 0..n {
            let steps = if f.cap > 200 { 6 + r.below(6) } else { [4, 8, 14, 30][r.below(4)] };
            // a sample of the ordinary histories is kept
            let keep = if f.cap > 3000 { j == 0 && f.cap < 10_000 } else if f.cap > 200 { j < 3 } else { j % (rounds / 12).max(1) == 0 };
            history(w, f, &mut |h, k| if k < steps { Some(rand_op(h, r, k)) } else { None }, keep);
        }
        w.budget += save;
    }
}

/// Histories generated by TLC from the specification.
/// One operation with the answer of the specification: the real answer is compared with it here
/// (what differs is written for TLC to judge, and a sample of the rest).
fn single(w: &mut W, fs: &[Fac], v: &Value, r: &mut Rng, every: u64) {
    let fac = |x: &Value| {
        *fs.iter()
            .find(|f| f.kind == x["k"].as_str().unwrap() && f.cap as u64 == x["n"].as_u64().unwrap())
            .unwrap()
    };
    let seq = |x: &Value| -> Vec<u8> { x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as u8).collect() };
    let answer = |ok: &Value, v: &Value| if ok.as_bool().unwrap() { json!({"o": "ok", "v": v}) } else { json!({"o": "err"}) };
    let ev = |s: &str| -> Value { serde_json::from_str(s).unwrap() };
    match v["op"].as_str().unwrap() {
        "pair2" => {
            let f = fac(v);
            let (x, y) = (seq(&v["a"]), seq(&v["b"]));
            let (Some(a), Some(b)) = (make2(&f, &x, r), make2(&f, &y, r)) else { return };
            let (mut odd, s) = case(pay(&f, "setops", &[x.as_slice(), &y].concat()), || pair_event(&f, &a, &b));
            if s.is_empty() {
                return;
            }
            let e = ev(&s);
            if e["a"] == v["a"] && e["b"] == v["b"] {
                for q in e["r"].as_array().unwrap() {
                    let k = match q["f"].as_str().unwrap() {
                        "inter" => "i",
                        "union" => "u",
                        _ => "d",
                    };
                    odd |= q["o"] != "ok" || q["v"]["g"] != v[k];
                }
                odd |= e["sub"] != "none" && e["sub"] != v["sub"].to_string();
            }
            w.put(odd, every * if f.cap > 200 { 4 } else { 1 }, || s);
        }
        "resize2" => {
            let f = fac(v);
            let x = seq(&v["a"]);
            let Some(a) = make2(&f, &x, r) else { return };
            let src = bits_of(&a).unwrap_or_default();
            let m = v["m"].as_u64().unwrap() as usize;
            for (k, z) in a.resizes() {
                if k == m {
                    let ones = |b: &[u8]| -> Vec<usize> { (0..b.len()).filter(|i| b[*i] == 1).collect() };
                    let odd = match &z {
                        R::Ok(z) => !v["ok"].as_bool().unwrap() || z.obs().is_none_or(|o| ones(&o.get) != ones(&src) || o.n > m),
                        R::Err => v["ok"].as_bool().unwrap(),
                        R::Panic => true,
                    };
                    w.put(odd, every, || resize_event(&f, &src, m, &z));
                    break;
                }
            }
        }
        "api2" => {
            let f = fac(v);
            let b = seq(&v["b"]);
            let (mut odd, s) = api_event(&f, &b, 8 * b.len());
            let (e, want) = (ev(&s), answer(&v["ok"], &v["v"]));
            odd |= e["fb"] != want || e["de"] != want;
            w.put(odd, every * if f.cap > 200 { 4 } else { 1 }, || s);
        }
        "hex" => {
            let x: String = v["s"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
            for q in v["as"].as_array().unwrap() {
                let f = fac(q);
                let (mut odd, s) = des_event(&f, &x, r.below(3));
                let (e, want) = (ev(&s), answer(&q["ok"], &q["v"]));
                odd |= e["str"] != want || e["reader"] != want || e["value"] != want;
                w.put(odd, every, || s);
            }
        }
        o => panic!("{o}"),
    }
}
fn from_spec(w: &mut W, fs: &[Fac], path: &str, t: usize, threads: usize, every: usize) {
    let mut r = Rng::new(t as u64 + 77);
    let text = std::fs::read_to_string(path).unwrap();
    for (i, l) in text.lines().enumerate() {
        if i % threads != t || l.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(l).unwrap();
        if !v["op"].is_null() {
            single(w, fs, &v, &mut r, every as u64);
            continue;
        }
        let f = fs
            .iter()
            .find(|f| f.kind == v["k"].as_str().unwrap() && f.cap as u64 == v["n"].as_u64().unwrap())
            .unwrap();
        let n = |x: &Value, k: &str| x[k].as_u64().unwrap() as usize;
        let bytes =
            |x: &Value| -> Vec<u8> { x["b"].as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as u8).collect() };
        let ops: Vec<Op> = v["ops"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| {
                let h = n(x, "h") - 1;
                match x["op"].as_str().unwrap() {
                    "new" => Op::New(h, n(x, "i")),
                    "default" => Op::Default(h),
                    "decode" => Op::Decode(h, bytes(x)),
                    "bytes" => Op::Bytes(h, bytes(x)),
                    "set" => Op::Set(h, n(x, "i"), n(x, "x") == 1),
                    "shift" => Op::Shift(h, n(x, "i")),
                    "diffin" => Op::DiffIn(h, n(x, "g") - 1),
                    "clone" => Op::Clone(h, n(x, "g") - 1),
                    "inter" => Op::Bin(0, h, n(x, "g") - 1, n(x, "i") - 1),
                    "union" => Op::Bin(1, h, n(x, "g") - 1, n(x, "i") - 1),
                    "diff" => Op::Bin(2, h, n(x, "g") - 1, n(x, "i") - 1),
                    o => panic!("{o}"),
                }
            })
            .collect();
        history(w, f, &mut |_, k| ops.get(k).cloned(), i / threads % every == 0);
    }
}

// -------------------------------------------------------------------------- set operations
/// `a` and `b` may be one and the same object.
fn pair_event(f: &Fac, a: &Bs, b: &Bs) -> (bool, String) {
    let (Some(x), Some(y)) = (bits_of(a), bits_of(b)) else {
        return (false, String::new()); // an operand that cannot be read is not C12's business
    };
    let mut s = head("pair", f);
    s.push_str(r#","a":"#);
    json_bytes(&x, &mut s);
    s.push_str(r#","b":"#);
    json_bytes(&y, &mut s);
    let mut odd = false;
    let pad = |z: &[u8], i: usize| z.get(i).copied().unwrap_or(0);
    let (mn, mx) = (x.len().min(y.len()), x.len().max(y.len()));
    let il = if f.kind == "bitlist" { mn } else { mx };
    let want: [(&str, Vec<u8>); 3] = [
        ("inter", (0..il).map(|i| pad(&x, i) & pad(&y, i)).collect()),
        ("union", (0..mx).map(|i| pad(&x, i) | pad(&y, i)).collect()),
        ("diff", (0..x.len()).map(|i| x[i] & (1 - pad(&y, i))).collect()),
    ];
    let mut d = a.dup();
    let din = d.diff_in(&**b);
    let rs = [a.inter(&**b), a.union(&**b), a.diff(&**b), din.map(|_| d)];
    s.push_str(r#","r":["#);
    for (i, r) in rs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let n = ["inter", "union", "diff", "diffin"][i];
        write!(s, r#"{{"f":"{n}","o":"{}","v":"#, r.name()).unwrap();
        match r {
            R::Ok(v) => {
                let o = v.obs();
                odd |= obs_odd(f, &o, &want[i.min(2)].1);
                Obs::json(&o, &mut s)
            }
            _ => {
                odd = true;
                s.push('0')
            }
        }
        s.push('}');
    }
    s.push_str(r#"],"sub":"#);
    match a.subset(&**b) {
        None => s.push_str("\"none\""),
        Some(R::Ok(q)) => {
            odd |= q != (0..x.len()).all(|i| x[i] == 0 || pad(&y, i) == 1);
            write!(s, "\"{q}\"").unwrap()
        }
        Some(_) => {
            odd = true;
            s.push_str("\"panic\"")
        }
    }
    s.push('}');
    (odd, s)
}
fn all_bits(n: usize) -> impl Iterator<Item = Vec<u8>> {
    (0..1u64 << n).map(move |x| (0..n).map(|i| (x >> i & 1) as u8).collect())
}
fn gen_c12(w: &mut W, fs: &[Fac], r: &mut Rng, t: usize, threads: usize, thorough: bool) {
    // every pair of small operands
    let mut small: Vec<(Fac, Vec<Vec<u8>>)> = vec![];
    for f in fs {
        let m = if thorough { 7 } else { 5 };
        match f.kind {
            "bitlist" if f.cap <= m => small.push((*f, (0..=f.cap).flat_map(all_bits).collect())),
            "bitvec" if f.cap <= if thorough { 9 } else { 7 } => small.push((*f, all_bits(f.cap).collect())),
            "bitdyn" => small.push((*f, all_bits(8).collect())),
            _ => {}
        }
    }
    let total: usize = small.iter().map(|(_, v)| v.len() * v.len()).sum();
    let half = w.budget / 2;
    w.budget -= half;
    let every = (total as u64 / threads as u64 / (w.budget / 900).max(1)).max(1);
    for (f, vs) in &small {
        for (i, x) in vs.iter().enumerate() {
            if i % threads != t {
                continue;
            }
            let Some(a) = make(f, x) else { continue };
            let (odd, s) = case(pay(f, "setops", x), || pair_event(f, &a, &a));
            if !s.is_empty() {
                w.put(odd, 1, || s);
            }
            for y in vs {
                let Some(b) = make2(f, y, r) else { continue };
                let (odd, s) = case(pay(f, "setops", &[x.as_slice(), y].concat()), || pair_event(f, &a, &b));
                if !s.is_empty() {
                    w.put(odd, every, || s);
                }
            }
        }
    }
    w.budget += half;
    // random pairs of every type
    let rounds = if thorough { 3000 } else { 300 };
    for (i, f) in fs.iter().enumerate() {
        if i % threads != t {
            continue;
        }
        let share = w.budget / (1 + (fs.len() - i) as u64 / threads as u64);
        let save = w.budget - share.min(w.budget);
        w.budget = share;
        let n = if f.kind == "bitdyn" { rounds * 10 } else if f.cap > 200 { rounds / 4 } else { rounds };
        for _ in 0..n {
            let (lx, ly) = (rand_len(f, r), rand_len(f, r));
            let ly = if r.chance(1, 4) { lx } else { ly };
            let x = rand_bits(lx, r);
            let mut y = rand_bits(ly, r);
            if r.chance(1, 3) {
                // nearly a superset
                for k in 0..ly.min(lx) {
                    y[k] |= x[k];
                }
            }
            let (Some(mut a), Some(mut b)) = (make2(f, &x, r), make2(f, &y, r)) else { continue };
            if r.chance(1, 6) && lx > 0 {
                let _ = a.shift(r.below(lx + 1));
                let _ = b.shift(r.below(ly + 1));
            }
            let (odd, s) = case(pay(f, "setops", &[x.as_slice(), &y].concat()), || pair_event(f, &a, &b));
            if !s.is_empty() {
                w.put(odd, if f.cap > 200 { 15 } else { 4 }, || s);
            }
            if r.chance(1, 4) {
                let (odd, s) = case(pay(f, "setops", &x), || pair_event(f, &a, &a));
                if !s.is_empty() {
                    w.put(odd, if f.cap > 200 { 15 } else { 4 }, || s);
                }
            }
        }
        w.budget += save;
    }
}

// -------------------------------------------------------------------------- length bounds
/// One way of obtaining a bitfield: what was asked for, and what came out.
fn got_event(f: &Fac, path: &str, req: usize, b: &[u8], r: &R<Bs>) -> String {
    let mut s = head("got", f);
    write!(s, r#","p":"{path}","req":{},"b":"#, big(req)).unwrap();
    json_bytes(b, &mut s);
    write!(s, r#","o":"{}""#, r.name()).unwrap();
    if let R::Ok(x) = r {
        s.push_str(r#","v":"#);
        Obs::json(&x.obs(), &mut s);
    }
    s.push('}');
    s
}
/// A resizing of `src` to capacity m.
fn resize_event(f: &Fac, src: &[u8], m: usize, r: &R<Bs>) -> String {
    let mut s = head("resize", f);
    write!(s, r#","m":{m},"a":"#).unwrap();
    json_bytes(src, &mut s);
    write!(s, r#","o":"{}""#, r.name()).unwrap();
    if let R::Ok(x) = r {
        s.push_str(r#","v":"#);
        Obs::json(&x.obs(), &mut s);
    }
    s.push('}');
    s
}
fn valid_len(kind: &str, cap: usize, n: usize) -> bool {
    match kind {
        "bitlist" => n <= cap,
        "bitvec" => n == cap,
        _ => n > 0 && n % 8 == 0,
    }
}
fn got_odd(f: &Fac, path: &str, req: usize, b: &[u8], r: &R<Bs>) -> bool {
    let v = match r {
        R::Panic => return true,
        R::Err => return false,
        R::Ok(x) => match x.obs() {
            None => return true,
            Some(o) => o,
        },
    };
    let asked = match path {
        "new" | "default" => Some(if f.kind == "bitvec" { f.cap } else { req }),
        _ => de(&schema(f), b).map(|x| x.bytes().len()),
    };
    Some(v.n) != asked || !valid_len(f.kind, f.cap, v.n) || v.iter.len() != v.n || v.bytes.len() != bfb(v.n)
}
fn json_hex(b: &[u8]) -> String {
    let mut s = String::from("\"0x");
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s.push('"');
    s
}
fn gen_c13(w: &mut W, fs: &[Fac], r: &mut Rng, t: usize, threads: usize, thorough: bool) {
    for (i, f) in fs.iter().enumerate() {
        if i % threads != t {
            continue;
        }
        let share = w.budget / (1 + (fs.len() - i) as u64 / threads as u64);
        let save = w.budget - share.min(w.budget);
        w.budget = share;
        let mut reqs: Vec<usize> = (0..=40).chain(f.cap.saturating_sub(9)..=f.cap + 17).collect();
        reqs.extend([2 * f.cap, f.cap + 64, 1 << 20, (1 << 20) + 3, usize::MAX, usize::MAX - 7, usize::MAX - 6, 1 << 63]);
        reqs.sort();
        reqs.dedup();
        for q in reqs {
            // a request in bounds is really allocated: keep those small
            if f.kind == "bitdyn" && q % 8 == 0 && q > 1 << 16 {
                continue;
            }
            if f.kind == "bitvec" && q != f.cap {
                continue;
            }
            let x = case(pay(f, &format!("new({q})"), &[]), || (f.with)(q));
            let odd = got_odd(f, "new", q, &[], &x);
            w.put(odd, if q > 100_000 && matches!(x, R::Ok(_)) { u64::MAX } else { 1 }, || got_event(f, "new", q, &[], &x));
        }
        let x = (f.default)();
        let q = if f.kind == "bitdyn" { 8 } else { f.cap };
        w.put(got_odd(f, "default", q, &[], &x), 1, || got_event(f, "default", q, &[], &x));
        // byte constructors, decoding and serde
        let short: Vec<Vec<u8>> = {
            let a = [0u8, 1, 2, 3, 0x80, 0xff];
            let mut v: Vec<Vec<u8>> = (0..43).map(|i| nth_small(i, &a)).collect();
            if f.cap <= 20 {
                v.extend((0..=255).map(|x| vec![x]));
                v.extend((0..=255).map(|x| vec![0xa5, x]));
                v.extend((0..=255).step_by(3).map(|x| vec![0xa5, 0x5a, x]));
            }
            v
        };
        let rounds = if thorough { 3000 } else { 200 } / if f.cap > 200 { 4 } else { 1 };
        let rnd: Vec<Vec<u8>> = (0..rounds).map(|_| rand_bytes(f, r)).collect();
        for b in short.iter().chain(&rnd) {
            let cases: [(&str, R<Bs>); 5] = [
                ("bytes", case(pay(f, "from_bytes", b), || (f.from_bytes)(b, 8 * b.len()))),
                ("decode", case(pay(f, "decode", b), || (f.decode)(b))),
                ("serde", (f.de_str)(&json_hex(b))),
                ("serdevalue", (f.de_value)(&json_hex(b))),
                ("serdereader", (f.de_reader)(&json_hex(b))),
            ];
            let k = r.below(5);
            for (j, (p, x)) in cases.iter().enumerate() {
                let odd = got_odd(f, p, 0, b, x);
                w.put(odd, if j == k { 1 } else { u64::MAX }, || got_event(f, p, 0, b, x));
            }
        }
        if f.kind == "bitdyn" {
            for k in 0..6usize {
                for n in (0..=50).chain([usize::MAX, 1 << 61, (1 << 61) + 8]) {
                    let b = r.bytes(k);
                    let x = (f.from_bytes)(&b, n);
                    let odd = match &x {
                        R::Ok(v) => n != 8 * k || v.obs().map(|o| o.n) != Some(n),
                        R::Err => false,
                        R::Panic => true,
                    };
                    w.put(odd, 1, || got_event(f, "withlen", n, &b, &x));
                }
            }
        }
        // set operations and resizing
        for _ in 0..rounds {
            let (x, y) = {
                let (a, b) = (rand_len(f, r), rand_len(f, r));
                (rand_bits(a, r), rand_bits(b, r))
            };
            let (Some(a), Some(b)) = (make2(f, &x, r), make2(f, &y, r)) else { continue };
            for (p, x) in [("inter", a.inter(&*b)), ("union", a.union(&*b)), ("diff", a.diff(&*b))] {
                let odd = match &x {
                    R::Ok(v) => v.obs().is_none_or(|o| !valid_len(f.kind, f.cap, o.n) || o.iter.len() != o.n),
                    R::Err => false,
                    R::Panic => true,
                };
                w.put(odd, 7, || got_event(f, p, 0, &[], &x));
            }
            let mut c = a.dup();
            if r.chance(1, 2) {
                let n = rand_index(x.len() + 1, r);
                let _ = c.shift(n);
                let i = rand_index(x.len(), r);
                let _ = c.set(i, true);
                let odd = c.obs().is_none_or(|o| !valid_len(f.kind, f.cap, o.n) || o.iter.len() != o.n);
                let z = R::Ok(c);
                w.put(odd, 7, || got_event(f, "mutated", 0, &[], &z));
            } else {
                let _ = c.clone_from(&*b);
                let odd = c.obs().is_none_or(|o| !valid_len(f.kind, f.cap, o.n) || o.n != y.len() || o.iter.len() != o.n || o.bytes.len() != bfb(o.n));
                let z = R::Ok(c);
                w.put(odd, 7, || got_event(f, "cloned", y.len(), &[], &z));
            }
            for (m, z) in a.resizes() {
                let src = bits_of(&a).unwrap_or_default();
                let ones = |b: &[u8]| -> Vec<usize> { (0..b.len()).filter(|i| b[*i] == 1).collect() };
                let odd = match &z {
                    R::Ok(v) => {
                        m < f.cap || v.obs().is_none_or(|o| o.n > m || o.iter.len() != o.n || ones(&o.get) != ones(&src))
                    }
                    R::Err => m >= f.cap,
                    R::Panic => true,
                };
                w.put(odd, if m > 200 { 40 } else { 11 }, || resize_event(f, &src, m, &z));
            }
        }
        w.budget += save;
    }
}

// ------------------------------------------------------------------------- byte-level API
fn value(r: &R<Bs>, s: &mut String) -> Option<Vec<u8>> {
    write!(s, r#"{{"o":"{}""#, r.name()).unwrap();
    let mut v = None;
    if let R::Ok(x) = r {
        v = bits_of(x);
        match &v {
            Some(b) => {
                s.push_str(r#","v":"#);
                json_bytes(b, s);
            }
            None => s.push_str(r#","v":[9]"#),
        }
    }
    s.push('}');
    v
}
fn api_event(f: &Fac, b: &[u8], len: usize) -> (bool, String) {
    let mut s = head("api", f);
    write!(s, r#","len":{},"b":"#, big(len)).unwrap();
    json_bytes(b, &mut s);
    let (x, y) = (
        case(pay(f, &format!("from_bytes len {len}"), b), || (f.from_bytes)(b, len)),
        case(pay(f, "decode", b), || (f.decode)(b)),
    );
    s.push_str(r#","fb":"#);
    let v1 = value(&x, &mut s);
    s.push_str(r#","de":"#);
    let v2 = value(&y, &mut s);
    let want = de(&schema(f), b).map(|v| v.bytes().to_vec());
    let mut odd = v2 != want
        || matches!(x, R::Panic)
        || matches!(y, R::Panic)
        || v1 != if f.kind == "bitdyn" && len != 8 * b.len() { None } else { want };
    // what is produced from the values
    s.push_str(r#","out":["#);
    let mut n = 0;
    for z in [&x, &y] {
        if let R::Ok(z) = z {
            if n > 0 {
                s.push(',');
            }
            n += 1;
            let o = vcore::ops::guard(|| z.obs()).flatten();
            match o {
                None => {
                    odd = true;
                    s.push_str(r#"{"o":"panic"}"#)
                }
                Some(o) => {
                    odd |= o.enc != b || o.into != b;
                    s.push_str(r#"{"o":"ok","ib":"#);
                    json_bytes(&o.into, &mut s);
                    s.push_str(r#","enc":"#);
                    json_bytes(&o.enc, &mut s);
                    s.push('}');
                }
            }
        }
    }
    s.push_str("]}");
    (odd, s)
}
/// Conversion to bytes of a value made by the constructor.
fn out_event(f: &Fac, x: &Bs) -> (bool, String) {
    let mut s = head("out", f);
    let Some(o) = x.obs() else {
        return (true, s + r#","o":"panic"}"#);
    };
    s.push_str(r#","o":"ok","a":"#);
    json_bytes(&o.get, &mut s);
    s.push_str(r#","ib":"#);
    json_bytes(&o.into, &mut s);
    s.push_str(r#","enc":"#);
    json_bytes(&o.enc, &mut s);
    s.push('}');
    let e = ser(&schema(f), &V::B(o.get.clone()));
    (o.into != e || o.enc != e, s)
}
fn gen_c14(w: &mut W, fs: &[Fac], r: &mut Rng, t: usize, threads: usize, thorough: bool) {
    for (i, f) in fs.iter().enumerate() {
        if i % threads != t {
            continue;
        }
        let share = w.budget / (1 + (fs.len() - i) as u64 / threads as u64);
        let save = w.budget - share.min(w.budget);
        w.budget = share;
        // every string of up to 2 bytes (3 when thorough), then around the boundary
        let go = |w: &mut W, b: &[u8], every: u64| {
            let (odd, s) = api_event(f, b, 8 * b.len());
            w.put(odd, every, || s);
        };
        if f.cap <= 40 {
            go(w, &[], 1);
            for x in 0..=255u8 {
                go(w, &[x], 1);
            }
            for x in 0..=65535u16 {
                // few matter to TLC beyond those the mirror finds odd
                go(w, &x.to_le_bytes(), 701);
            }
            let step = if thorough { 1 } else { 37 };
            for x in (0..1u32 << 24).step_by(step) {
                let b = x.to_le_bytes();
                if x as usize % (step * 5) < step || f.cap >= 14 && f.cap <= 25 {
                    go(w, &b[..3], 40_001);
                }
            }
        }
        let n = bfb(f.cap);
        for l in n.saturating_sub(2)..=n + 2 {
            for x in (0..=255u8).step_by(if f.cap > 200 { 5 } else { 1 }) {
                let mut b = if x % 2 == 0 { vec![0; l] } else { r.bytes(l) };
                if l > 0 {
                    b[l - 1] = x;
                }
                go(w, &b, if f.cap > 200 { 5 } else { 3 });
            }
        }
        let rounds = if thorough { 6000 } else { 400 };
        for _ in 0..if f.kind == "bitdyn" { rounds * 4 } else { rounds } {
            let b = rand_bytes(f, r);
            go(w, &b, if f.cap > 200 { 40 } else { 6 });
        }
        if f.kind == "bitdyn" {
            for k in 0..6usize {
                for n in (0..=50).chain([usize::MAX, 1 << 61, (1 << 61) + 8 * k, usize::MAX - 7]) {
                    let b = r.bytes(k);
                    let (odd, s) = api_event(f, &b, n);
                    w.put(odd, 1, || s);
                }
            }
        }
        for _ in 0..rounds / 4 {
            let n = rand_len(f, r);
            let b = rand_bits(n, r);
            let Some(x) = make(f, &b) else { continue };
            let (odd, s) = case(pay(f, "into_bytes", &b), || out_event(f, &x));
            w.put(odd, if f.cap > 200 { 10 } else { 3 }, || s);
        }
        w.budget += save;
    }
}

// ---------------------------------------------------------------------------------- serde
fn codes(s: &str, o: &mut String) {
    o.push('[');
    for (i, c) in s.chars().enumerate() {
        write!(o, "{}{}", if i > 0 { "," } else { "" }, c as u32).unwrap();
    }
    o.push(']');
}
fn ser_event(f: &Fac, x: &Bs) -> (bool, String) {
    let Some(o) = x.obs() else { return (false, String::new()) };
    let mut s = head("ser", f);
    s.push_str(r#","a":"#);
    json_bytes(&o.get, &mut s);
    let r = x.ser();
    write!(s, r#","o":"{}","s":"#, r.name()).unwrap();
    let mut want = String::from("0x");
    for b in ser(&schema(f), &V::B(o.get.clone())) {
        write!(want, "{b:02x}").unwrap();
    }
    let mut odd = true;
    if let R::Ok(j) = &r {
        // the JSON text of a string
        match serde_json::from_str::<Value>(j) {
            Ok(Value::String(x)) => {
                odd = x != want;
                codes(&x, &mut s)
            }
            _ => s.push_str("[0]"),
        }
        // and back
        let y = (f.de_str)(j);
        s.push_str(r#","back":"#);
        odd |= value(&y, &mut s).as_ref() != Some(&o.get);
    } else {
        s.push_str(r#"[],"back":{"o":"err"}"#);
    }
    s.push('}');
    (odd, s)
}
fn des_event(f: &Fac, x: &str, esc: usize) -> (bool, String) {
    // the JSON text of the string, possibly with escapes
    let j = match esc {
        0 => serde_json::to_string(x).unwrap(),
        1 => {
            let mut j = String::from("\"");
            for c in x.chars() {
                if (c as u32) < 0x10000 {
                    write!(j, "\\u{:04x}", c as u32).unwrap();
                } else {
                    j.push(c);
                }
            }
            j + "\""
        }
        _ => format!("  {} \n", serde_json::to_string(x).unwrap()),
    };
    let mut s = head("des", f);
    s.push_str(r#","s":"#);
    codes(x, &mut s);
    let want = (|| {
        let h = x.strip_prefix("0x")?;
        if h.len() % 2 != 0 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        de(&schema(f), &b).map(|v| v.bytes().to_vec())
    })();
    let mut odd = false;
    for (n, g) in [("str", f.de_str), ("reader", f.de_reader), ("value", f.de_value)] {
        write!(s, r#","{n}":"#).unwrap();
        let r = case(pay(f, "serde", x.as_bytes()), || g(&j));
        odd |= value(&r, &mut s) != want || matches!(r, R::Panic);
    }
    // a binary format, which hands over the string in one of three ways
    for (how, n) in ["lent", "owned", "brief"].into_iter().enumerate() {
        write!(s, r#","{n}":"#).unwrap();
        let r = case(pay(f, "serde", x.as_bytes()), || (f.de_form)(x, how as u8));
        odd |= value(&r, &mut s) != want || matches!(r, R::Panic);
    }
    s.push('}');
    (odd, s)
}
fn gen_c18(w: &mut W, fs: &[Fac], r: &mut Rng, t: usize, threads: usize, thorough: bool) {
    for (i, f) in fs.iter().enumerate() {
        if i % threads != t {
            continue;
        }
        let share = w.budget / (1 + (fs.len() - i) as u64 / threads as u64);
        let save = w.budget - share.min(w.budget);
        w.budget = share;
        let ev = if f.cap > 200 { 12 } else { 2 };
        let rounds = if thorough { 6000 } else { 300 };
        let rounds = if f.kind == "bitdyn" { rounds * 5 } else { rounds };
        for _ in 0..rounds / 2 {
            let n = rand_len(f, r);
            let b = rand_bits(n, r);
            let Some(x) = make2(f, &b, r) else { continue };
            let (odd, s) = case(pay(f, "ser", &b), || ser_event(f, &x));
            if !s.is_empty() {
                w.put(odd, ev, || s);
            }
        }
        for x in 0..=255u8 {
            for p in [format!("0x{x:02x}"), format!("0x{x:02X}"), format!("0x5a{x:02x}")] {
                let (odd, s) = des_event(f, &p, 0);
                w.put(odd, if f.cap < 20 { 3 } else { 9 }, || s);
            }
        }
        for s in ["", "0", "0x", "0X", "x", "0x0", "0x1", "00", "01", "0x 01", " 0x01", "0x01 ", "0x01\n", "0x0x01",
            "0X01", "0x0g", "0x+1", "0x-1", "0x1_", "0xé1", "é", "0x01é", "0x\u{0}1", "\\x01", "0x01,02", "0x010", "0x1f1",
            "0xzz", "0x😀", "１２", "0x１２", "01", "0b01", "0x0\u{131}", "0xABCDEF", "0xabcdeF", "0x__", "0x/0", "0x:0",
            "0x@0", "0xG0", "0x`0", "0xg0", "0x0/", "0x0:", "0x0@", "0x0G", "0x0`"] {
            for e in 0..3 {
                let (odd, s) = des_event(f, s, e);
                w.put(odd, if f.cap < 20 { 1 } else { 5 }, || s);
            }
        }
        for _ in 0..rounds {
            let b = rand_bytes(f, r);
            let mut x = String::from("0x");
            for c in &b {
                if r.chance(1, 3) {
                    write!(x, "{c:02X}").unwrap()
                } else {
                    write!(x, "{c:02x}").unwrap()
                }
            }
            match r.below(12) {
                0 => {
                    x.pop();
                }
                1 => x.push('0'),
                2 => x = x.replacen("0x", "", 1),
                3 => x = x.replacen("0x", "0X", 1),
                4 => {
                    let k = r.below(x.len());
                    x.insert(k, [' ', 'g', '_', 'x', 'é', '0'][r.below(6)]);
                }
                5 => x.push_str("00"),
                6 => x.push_str("01"),
                _ => {}
            }
            let (odd, s) = des_event(f, &x, r.below(3));
            w.put(odd, ev, || s);
        }
        w.budget += save;
    }
}

fn main() {
    if std::env::var("VCORE_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a = Args::parse();
    let prop = a.s("prop").to_string();
    let out = a.s("out").to_string();
    let threads = a.n("threads", 8) as usize;
    let thorough = a.n("thorough", 0) == 1;
    let seed = a.n("seed", 1);
    // the budget of a trace is its size: about 300 bytes an event
    let budget = a.n("events", 40_000) * 300 / threads as u64;
    open_journal(&format!("{out}/journal"), threads);
    watchdog(threads, a.n("timeout", 20));
    let totals = std::sync::Mutex::new((0u64, 0u64, 0u64));
    let mut fs = facs();
    // spread the big ones over the threads
    fs.sort_by_key(|f| (f.cap as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ f.kind.len() as u64);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (prop, out, totals, a, fs) = (&prop, &out, &totals, &a, &fs);
            sc.spawn(move || {
                set_slot(t);
                let mut r = Rng::new(seed.wrapping_mul(7919) + t as u64);
                let mut w = W {
                    sink: Sink::new(format!("{out}/part{t}.ndjson")),
                    cases: 0,
                    odd: 0,
                    odd_bytes: 0,
                    budget,
                    tick: 0,
                };
                if !a.s("cases").is_empty() {
                    w.budget = u64::MAX;
                    from_spec(&mut w, fs, a.s("cases"), t, threads, if thorough { 8 } else { 6 });
                    w.budget = budget;
                }
                match &prop[..] {
                    "C05" => {
                        w.budget = budget / 2;
                        gen_c14(&mut w, fs, &mut r, t, threads, thorough);
                        w.budget = budget / 2;
                        gen_c13(&mut w, fs, &mut r, t, threads, false);
                    }
                    "C11" => gen_c11(&mut w, fs, &mut r, t, threads, thorough),
                    "C12" => gen_c12(&mut w, fs, &mut r, t, threads, thorough),
                    "C13" => gen_c13(&mut w, fs, &mut r, t, threads, thorough),
                    "C14" => gen_c14(&mut w, fs, &mut r, t, threads, thorough),
                    "C18" => gen_c18(&mut w, fs, &mut r, t, threads, thorough),
                    _ => panic!("no plan"),
                }
                w.sink.out.flush().unwrap();
                let mut g = totals.lock().unwrap();
                g.0 += w.cases;
                g.1 += w.sink.events;
                g.2 += w.odd;
            });
        }
    });
    let g = totals.into_inner().unwrap();
    std::fs::write(
        format!("{out}/stats.json"),
        format!(r#"{{"screened":{},"events":{},"suspicious":{}}}"#, g.0, g.1, g.2),
    )
    .unwrap();
}
