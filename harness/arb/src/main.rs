//! Bitfields generated from unstructured bytes.
use arbitrary::{Arbitrary, Unstructured};
use ssz::{BitList, BitVector, Decode, Encode};
use std::fmt::Write as _;
use std::io::Write as _;
use typenum::Unsigned;
use vcore::alloc::*;
use vcore::gen::*;
use vcore::mirror::pack;
use vcore::ops::guard;
use vcore::run::{case, watchdog, Args, Sink};
use vcore::val::json_bytes;

#[global_allocator]
static A: Counting = Counting;

/// What a generated value shows.
struct Got {
    n: usize,
    bits: Vec<u8>,
    by: Vec<u8>,
    enc: Vec<u8>,
    /// decoding the encoding: the same value, another, or a failure
    back: &'static str,
}
enum O {
    Ok(Option<Got>),
    Err,
    Panic,
}
macro_rules! show {
    ($x:expr, $t:ty) => {
        guard(|| {
            let x = $x;
            let enc = x.as_ssz_bytes();
            Got {
                n: x.len(),
                bits: x.iter().take(100_000).map(|b| b as u8).collect(),
                by: x.as_slice().to_vec(),
                back: match <$t>::from_ssz_bytes(&enc) {
                    Ok(y) if y == x => "same",
                    Ok(_) => "other",
                    Err(_) => "err",
                },
                enc,
            }
        })
    };
}
type Gen = fn(&[u8], u8) -> O;
fn gen_with<T: for<'a> Arbitrary<'a>>(b: &[u8], via: u8, show: fn(T) -> Option<Got>) -> O {
    let r = guard(|| {
        let mut u = Unstructured::new(b);
        match via {
            0 => T::arbitrary(&mut u),
            1 => T::arbitrary_take_rest(u),
            2 => {
                // as the second field of a derived type
                let _ = u.arbitrary::<u8>();
                let _ = T::size_hint(0);
                u.arbitrary::<T>()
            }
            // a second value from the same source
            _ => u.arbitrary::<T>().and_then(|_| u.arbitrary::<T>()),
        }
    });
    match r {
        None => O::Panic,
        Some(Err(_)) => O::Err,
        Some(Ok(x)) => O::Ok(show(x)),
    }
}
fn list<N: Unsigned + Clone + 'static>() -> (&'static str, usize, Gen) {
    ("bitlist", N::to_usize(), |b, v| gen_with::<BitList<N>>(b, v, |x| show!(x, BitList<N>)))
}
fn vector<N: Unsigned + Clone + 'static>() -> (&'static str, usize, Gen) {
    ("bitvec", N::to_usize(), |b, v| gen_with::<BitVector<N>>(b, v, |x| show!(x, BitVector<N>)))
}
macro_rules! both {
    ($($m:ident)*) => { vec![$(list::<typenum::$m>(), vector::<typenum::$m>()),*] };
}

fn event(k: &str, n: usize, via: u8, b: &[u8], o: &O) -> (bool, String) {
    let mut s = format!(r#"{{"op":"gen","k":"{k}","n":{n},"via":{via},"in":"#);
    json_bytes(b, &mut s);
    let mut odd = false;
    match o {
        O::Panic => {
            odd = true;
            s.push_str(r#","o":"panic""#);
        }
        O::Err => s.push_str(r#","o":"err""#),
        O::Ok(None) => {
            odd = true;
            s.push_str(r#","o":"unreadable""#);
        }
        O::Ok(Some(g)) => {
            odd |= g.n != g.bits.len() || g.back != "same" || g.by != pack(&g.bits);
            odd |= if k == "bitvec" { g.n != n } else { g.n > n };
            let e = if k == "bitvec" { pack(&g.bits) } else { pack(&[&g.bits[..], &[1]].concat()) };
            odd |= g.enc != e;
            write!(s, r#","o":"ok","len":{},"v":"#, g.n).unwrap();
            json_bytes(&g.bits, &mut s);
            s.push_str(r#","by":"#);
            json_bytes(&g.by, &mut s);
            s.push_str(r#","enc":"#);
            json_bytes(&g.enc, &mut s);
            write!(s, r#","back":"{}""#, g.back).unwrap();
        }
    }
    s.push('}');
    (odd, s)
}

fn main() {
    if std::env::var("VCORE_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a = Args::parse();
    let out = a.s("out").to_string();
    let threads = a.n("threads", 8) as usize;
    let thorough = a.n("thorough", 0) == 1;
    let seed = a.n("seed", 1);
    let budget = a.n("events", 40_000) * 300 / threads as u64;
    open_journal(&format!("{out}/journal"), threads);
    watchdog(threads, a.n("timeout", 20));
    let mut fs = both!(U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19 U20 U21 U22 U23 U24
        U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38 U39 U40 U41 U47 U48 U49 U55 U56 U57 U63 U64 U65
        U71 U72 U73 U80 U96 U100 U127 U128 U129 U200 U255 U256 U257 U500 U511 U512 U513 U999 U1000 U1016 U1023
        U1024 U2048 U4096 U8192 U65536);
    type N1025 = typenum::Sum<typenum::U1024, typenum::U1>;
    type N1032 = typenum::Sum<typenum::U1024, typenum::U8>;
    type N2047 = typenum::Sum<typenum::U1024, typenum::U1023>;
    fs.extend([list::<N1025>(), vector::<N1025>(), list::<N1032>(), vector::<N1032>(), list::<N2047>(), vector::<N2047>()]);
    fs.sort_by_key(|f| (f.1 as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ f.0.len() as u64);
    // sources the specification generates
    let mut given: std::collections::HashMap<(String, usize), Vec<Vec<u8>>> = Default::default();
    let mut replayed = 0;
    if !a.s("cases").is_empty() {
        for l in std::fs::read_to_string(a.s("cases")).unwrap().lines().filter(|l| !l.is_empty()) {
            let v: serde_json::Value = serde_json::from_str(l).unwrap();
            let b = v["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            given.entry((v["k"].as_str().unwrap().into(), v["n"].as_u64().unwrap() as usize)).or_default().push(b);
            replayed += 1;
        }
    }
    let given = &given;
    let totals = std::sync::Mutex::new((0u64, 0u64, 0u64, 0u64));
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (out, totals, fs) = (&out, &totals, &fs);
            sc.spawn(move || {
                set_slot(t);
                let mut r = Rng::new(seed.wrapping_mul(104729) + t as u64);
                let mut sink = Sink::new(format!("{out}/part{t}.ndjson"));
                let (mut cases, mut odds, mut good) = (0u64, 0u64, 0u64);
                let mine: Vec<_> = fs.iter().enumerate().filter(|(i, _)| i % threads == t).map(|x| x.1).collect();
                for (k, n, f) in &mine {
                    let mut left = budget as i64 / mine.len() as i64;
                    let (mut oks, mut tick, mut here) = (0u64, 0u64, 0u64);
                    let mut go = |b: &[u8], via: u8, every: u64, sink: &mut Sink| {
                        let mut p = format!("{k}<{n}> via {via}");
                        p.insert(0, p.len() as u8 as char);
                        let mut p = p.into_bytes();
                        p.extend(b);
                        let o = case(p, || f(b, via));
                        cases += 1;
                        tick += 1;
                        here += 1;
                        let ok = matches!(o, O::Ok(_));
                        oks += ok as u64;
                        // the first successes of a type are always kept
                        let (odd, s) = event(k, *n, via, b, &o);
                        odds += odd as u64;
                        if odd && odds < 150 || (left > 0 && (tick % every == 0 || ok && oks <= 3)) {
                            left -= s.len() as i64;
                            sink.put(&s);
                        }
                    };
                    let nb = n.div_ceil(8).max(1);
                    let huge = *n > 5000;
                    for b in given.get(&(k.to_string(), *n)).into_iter().flatten() {
                        go(b, 0, 11, &mut sink);
                    }
                    // every short input
                    go(&[], 0, 1, &mut sink);
                    for x in 0..=255u8 {
                        go(&[x], 0, if huge { 50 } else { 3 }, &mut sink);
                    }
                    if !huge {
                        for x in (0..=65535u16).step_by(if *n > 100 { 37 } else { 1 }) {
                            go(&x.to_le_bytes(), 0, 997, &mut sink);
                        }
                    }
                    // a size word of every plausible value, then content
                    for size in (0..=(nb + 2).min(40)).chain([nb - 1, nb, nb + 1, *n, n + 1, 1 << 20, usize::MAX, 255, 256]) {
                        for x in (0..=255u8).step_by(if huge { 85 } else { 1 }) {
                            let body = size.min(nb + 3);
                            for w in [8usize, 4, 1] {
                                let mut b = size.to_le_bytes()[..w].to_vec();
                                b.extend(if x % 3 == 0 { vec![0; body] } else { r.bytes(body) });
                                let l = b.len();
                                if body > 0 {
                                    b[l - 1] = x;
                                }
                                go(&b, 0, if *n > 100 { 300 } else { 60 }, &mut sink);
                            }
                        }
                    }
                    // and random ones of all lengths
                    let rounds = if huge { 100 } else if thorough { 40_000 } else { 2500 };
                    for i in 0..rounds {
                        let l = match r.below(5) {
                            0 => r.below(12),
                            1 => nb,
                            2 => nb + 8,
                            3 => r.below(nb + 20),
                            _ => r.below(2 * nb + 40),
                        };
                        let mut b = match r.below(4) {
                            0 => vec![[0, 1, 0xff, 0x80][r.below(4)]; l],
                            _ => r.bytes(l),
                        };
                        if r.chance(1, 2) && l >= 8 {
                            let s = r.below(nb + 2).to_le_bytes();
                            b[..8].copy_from_slice(&s);
                        }
                        if r.chance(1, 3) && l > 0 {
                            b[l - 1] = 1 << r.below(8);
                        }
                        go(&b, (i % 7).min(3) as u8, if *n > 100 { 61 } else { 23 }, &mut sink);
                    }
                    sink.put(&format!(r#"{{"op":"reach","k":"{k}","n":{n},"tried":{here},"ok":{oks}}}"#));
                    good += oks;
                }
                sink.out.flush().unwrap();
                let mut g = totals.lock().unwrap();
                g.0 += cases;
                g.1 += sink.events;
                g.2 += odds;
                g.3 += good;
            });
        }
    });
    let g = totals.into_inner().unwrap();
    std::fs::write(
        format!("{out}/stats.json"),
        format!(r#"{{"screened":{},"events":{},"suspicious":{},"generated":{},"replayed":{replayed},"types":{}}}"#, g.0, g.1, g.2, g.3, fs.len()),
    )
    .unwrap();
}
