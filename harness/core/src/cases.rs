//! Behaviours generated from the specification (GenCodec.tla), replayed into the real code.
use crate::gen::*;
use crate::mirror::*;
use crate::ops::*;
use crate::run::*;
use crate::val::*;
use serde_json::Value;
use std::collections::HashMap;
use std::fmt::Write;
use std::io::BufRead;

/// A value in the notation of the specification.
pub fn value(s: &S, j: &Value) -> V {
    let arr = || j.as_array().unwrap();
    match s {
        S::Bool | S::Tag(_) => V::I(j.as_u64().unwrap() as u32),
        S::List(_) | S::Set(_) | S::Map(_, _) => {
            let e = s.item();
            V::S(arr().iter().map(|x| value(&e, x)).collect())
        }
        S::Cont(f) | S::Trans(f) | S::Desc(f) => V::S(f.iter().zip(arr()).map(|(s, x)| value(s, x)).collect()),
        S::Skip(e) => value(e, j),
        S::Opt(e) | S::Legacy(e) => V::S(arr().iter().map(|x| value(e, x)).collect()),
        S::Union(vs) | S::TEnum(vs) => {
            let i = arr()[0].as_u64().unwrap();
            V::T(i as u32, Box::new(value(&vs[i as usize], &arr()[1])))
        }
        _ => V::B(bytes(j)),
    }
}

pub fn bytes(j: &Value) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

/// Lines are JSON strings holding JSON records.
pub fn each(path: &str, part: usize, of: usize, mut f: impl FnMut(usize, Value)) {
    let r = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    for (i, l) in r.lines().enumerate() {
        let l = l.unwrap();
        if i % of != part || l.is_empty() {
            continue;
        }
        let v: Value = if l.starts_with('"') {
            let s: String = serde_json::from_str(&l).unwrap();
            serde_json::from_str(&s).unwrap()
        } else {
            serde_json::from_str(&l).unwrap()
        };
        f(i, v);
    }
}

/// Compare the real code with the answers of the specification; what differs, and every
/// `every`-th agreeing case, is recorded for TLC.
pub fn replay(w: &mut Worker, es: &HashMap<usize, &Entry>, path: &str, part: usize, of: usize, every: usize) -> u64 {
    let mut n = 0;
    let mut odd: HashMap<usize, usize> = HashMap::new();
    each(path, part, of, |i, c| {
        let Some(e) = es.get(&(c["ty"].as_u64().unwrap() as usize)) else { return };
        n += 1;
        w.screened += 1;
        let pick = i / of % every == 0;
        let mut few = || {
            let k = odd.entry(e.id).or_insert(0);
            *k += 1;
            *k <= 20
        };
        if c["op"] == "enc" {
            let v = value(&e.se, &c["v"]);
            let p = payload(4, e.id, 0, 0, c["v"].to_string().as_bytes());
            let Some(o) = case(p, || e.ty.enc(&v)) else { return };
            let rt = c["rt"].as_bool().unwrap();
            let same = o.b.as_deref() == Some(&bytes(&c["b"])[..])
                && o.len == o.b.as_ref().map(|b| b.len())
                && (!rt
                    || matches!(&o.d, Out::Ok(x) if *x == value(&e.se, &c["d"]) && *x == erase(&e.se, &o.v))
                        && (o.eq || e.se.has_skip()));
            if !same {
                w.bad += 1;
            }
            if pick && o.v.weight() < 4000 || !same && few() {
                w.sink.put(&o.json(e.id));
            }
        } else {
            let b = bytes(&c["b"]);
            let o = case(payload(0, e.id, 0, 0, &b), || e.ty.dec(&b));
            let ok = c["ok"].as_bool().unwrap();
            let same = match &o.out {
                Out::Ok(v) => ok && *v == value(&e.sd, &c["v"]) && o.re.is_some(),
                Out::Err => !ok,
                Out::Panic => false,
            };
            // only canonical types re-encode to the same bytes
            let canon = e.se == e.sd && !e.sd.has_tenum() && !e.sd.has_mapset();
            let same = same && (!ok || !canon || o.re.as_deref() == Some(&b[..]));
            if !same {
                w.bad += 1;
            }
            if pick && b.len() < 1000 || !same && few() {
                w.sink.put(&o.json(e.id, &b));
            }
        }
    });
    n
}

// ---------------------------------------------------------------------------------------------
// Far values: encodings with offsets of 2^24 and more, in the notation of SszFar.tla.

fn runs_of<T: PartialEq>(xs: &[T]) -> Vec<(usize, &T)> {
    let mut o: Vec<(usize, &T)> = vec![];
    for x in xs {
        match o.last_mut() {
            Some(l) if l.1 == x => l.0 += 1,
            _ => o.push((1, x)),
        }
    }
    o
}

pub fn runs(b: &[u8], o: &mut String) {
    o.push('[');
    for (i, (n, x)) in runs_of(b).iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "[{n},{x}]").unwrap();
    }
    o.push(']');
}

pub fn far_json(s: &S, v: &V, o: &mut String) {
    let each = |xs: &mut dyn Iterator<Item = (&S, &V)>, o: &mut String| {
        o.push('[');
        for (i, (s, x)) in xs.enumerate() {
            if i > 0 {
                o.push(',');
            }
            far_json(s, x, o);
        }
        o.push(']');
    };
    match s {
        S::Bytes | S::RevBytes => runs(v.bytes(), o),
        S::List(e) => {
            o.push('[');
            for (i, (n, x)) in runs_of(v.seq()).iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                write!(o, "[{n},").unwrap();
                far_json(e, x, o);
                o.push(']');
            }
            o.push(']');
        }
        S::Cont(f) | S::Trans(f) | S::Desc(f) => each(&mut f.iter().zip(v.seq()), o),
        S::Skip(e) => far_json(e, v, o),
        S::Opt(e) | S::Legacy(e) => each(&mut v.seq().iter().map(|x| (&**e, x)), o),
        S::Union(vs) | S::TEnum(vs) => {
            let V::T(i, x) = v else { panic!() };
            write!(o, "[{i},").unwrap();
            far_json(&vs[*i as usize], x, o);
            o.push(']');
        }
        _ => v.json(o),
    }
}

/// Whether a value can have a byte string of any length.
fn reaches(s: &S) -> bool {
    match s {
        S::Bytes | S::RevBytes => true,
        S::List(e) => matches!(**e, S::Uint(n) if n >= 16) || reaches(e),
        S::Cont(f) | S::Trans(f) | S::Desc(f) => S::live(f).any(|(_, s)| reaches(s)),
        S::Opt(e) | S::Legacy(e) => reaches(e),
        S::Union(v) => v.iter().any(reaches),
        _ => false,
    }
}

/// Whether there can be something behind it, so that there are far offsets.
pub fn far_ok(s: &S) -> bool {
    let odd = |s: &S| matches!(s, S::Map(_, _) | S::Set(_) | S::BitDyn) || matches!(s, S::BitList(n) if *n > 20000);
    !s.any(&odd) && !s.zero_items() && offsets(s)
}
fn offsets(s: &S) -> bool {
    match s {
        S::List(e) => reaches(e),
        S::Cont(f) | S::Trans(f) | S::Desc(f) => match S::live(f).position(|(_, s)| reaches(s)) {
            None => false,
            Some(i) => {
                S::live(f).skip(i + 1).any(|(_, s)| !s.fixed()) || offsets(S::live(f).nth(i).unwrap().1)
            }
        },
        S::Opt(e) | S::Legacy(e) => offsets(e),
        S::Union(v) => v.iter().find(|s| reaches(s)).is_some_and(offsets),
        _ => false,
    }
}

pub const FAR: usize = 1 << 24;

/// A value with a far part in the first place where there can be one.
pub fn far(s: &S, n: usize, r: &mut Rng) -> V {
    match s {
        S::Bytes | S::RevBytes => {
            let mut b = vec![r.next() as u8; n + r.below(300)];
            b[n - 1] = r.next() as u8;
            V::B(b)
        }
        S::List(e) => match &**e {
            S::Uint(k) => V::S(vec![V::B(vec![r.next() as u8; *k]); n / k + 1 + r.below(9)]),
            _ => V::S(vec![far(e, n, r), gen(e, 2, r), gen(e, 2, r)]),
        },
        S::Cont(f) | S::Trans(f) | S::Desc(f) => {
            let mut done = false;
            let mut one = |s: &S| {
                let here = !done && !matches!(s, S::Skip(_)) && reaches(s);
                done |= here;
                if here {
                    far(s, n, r)
                } else {
                    gen(s, 3, r)
                }
            };
            V::S(f.iter().map(&mut one).collect())
        }
        S::Opt(e) | S::Legacy(e) => V::S(vec![far(e, n, r)]),
        S::Union(v) => {
            let i = v.iter().position(reaches).unwrap();
            V::T(i as u32, Box::new(far(&v[i], n, r)))
        }
        _ => gen(s, 2, r),
    }
}

/// Set in the n of a far value that is a list of n items.
pub const ITEMS: usize = 1 << 40;

fn far_value(s: &S, n: usize, r: &mut Rng) -> Option<V> {
    if n >= ITEMS {
        items(s, n - ITEMS, true, r)
    } else {
        Some(far(s, n, r))
    }
}

/// A list of n items, nearly all of them equal (and written with one byte only, if `plain`).
fn items(s: &S, n: usize, plain: bool, r: &mut Rng) -> Option<V> {
    let S::List(e) = s else { return None };
    let ok = |v: &V| {
        let b = ser(e, v);
        b.len() < 200 && (!plain || b.iter().all(|x| *x == b[0]))
    };
    let x = (0..60).map(|i| gen(e, i % 4, r)).find(ok)?;
    let mut v = vec![x; n];
    for k in [n / 3, n - 2, n - 1] {
        if r.chance(1, 2) {
            v[k] = gen(e, 3, r);
        }
    }
    Some(V::S(v))
}

/// The parts of a list of variable-size items, if its offset table is well formed.
fn table(b: &[u8]) -> Option<Vec<&[u8]>> {
    let word = |i: usize| b.get(4 * i..4 * i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize);
    let f = word(0)?;
    if f < 4 || f % 4 > 0 {
        return None;
    }
    let n = f / 4;
    let mut off = (0..n).map(word).collect::<Option<Vec<usize>>>()?;
    off.push(b.len());
    (0..n).map(|i| if off[i] <= off[i + 1] { b.get(off[i]..off[i + 1]) } else { None }).collect()
}
pub fn parts_json(b: &[u8], o: &mut String) -> bool {
    let t = table(b);
    run_parts(t.as_deref().unwrap_or(&[]), o);
    t.is_some()
}
/// Byte strings as a table string.
pub fn run_parts(t: &[&[u8]], o: &mut String) {
    o.push('[');
    for (i, (n, x)) in runs_of(t).iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "[{n},").unwrap();
        runs(x, o);
        o.push(']');
    }
    o.push(']');
}

/// Encode a list of n variable-size items and decode it again; append it too.
pub fn tab_enc(e: &Entry, n: usize, rng: u64) -> Option<String> {
    let mut r = Rng(rng);
    let v = items(&e.se, n, false, &mut r)?;
    let o = case(payload(8, e.id, rng, n, &[]), || e.ty.enc(&v))?;
    let mut s = format!(r#"{{"op":"tab","ty":{},"o":"{}","v":"#, e.id, name(&o.b));
    far_json(&e.se, &o.v, &mut s);
    s.push_str(r#","p":"#);
    let t = parts_json(o.b.as_deref().unwrap_or(&[]), &mut s);
    write!(s, r#","t":{t},"bl":{},"len":{},"d":"{}","eq":{}"#, o.b.as_ref().map(|b| b.len()).unwrap_or(0),
        o.len.map(|x| x as i64).unwrap_or(-1), o.d.name(), o.eq).unwrap();
    if let Out::Ok(v) = &o.d {
        s.push_str(r#","dv":"#);
        far_json(&e.se, v, &mut s);
    }
    s.push('}');
    Some(s)
}

/// Decode the encoding of a list of n variable-size items, or one with an edited offset table.
pub fn tab_dec(e: &Entry, n: usize, rng: u64, how: u64) -> Option<String> {
    let mut r = Rng(rng);
    let v = items(&e.sd, n, false, &mut r)?;
    let mut b = ser(&e.sd, &v);
    let total = b.len();
    let set = |b: &mut Vec<u8>, i: usize, x: usize| b[4 * i..4 * i + 4].copy_from_slice(&(x as u32).to_le_bytes());
    let get = |b: &[u8], i: usize| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) as usize;
    let i = [1, n / 2, n - 2, n - 1, 1 + r.below(n - 1)][r.below(5)];
    match how {
        0 => {}
        1 => {
            let x = get(&b, i) + 1;
            set(&mut b, i, x)
        }
        2 => {
            let x = get(&b, i) - 1;
            set(&mut b, i, x)
        }
        3 => set(&mut b, n - 1, total + 1),
        4 => set(&mut b, i, total),
        5 if total > 4 * n => b.truncate(total - 1),
        5 | 6 => b.push(r.next() as u8),
        7 => set(&mut b, i, 4 * n - 4),
        _ => set(&mut b, 0, 4 * n + 1),
    }
    let o = case(payload(9, e.id, rng, n, &how.to_le_bytes()), || e.ty.dec(&b));
    let bb = Some(b);
    let mut s = format!(r#"{{"op":"tabd","ty":{},"o":"{}","n":{},"p":"#, e.id, o.out.name(), bb.as_ref().unwrap().len());
    let t = parts_json(bb.as_deref().unwrap(), &mut s);
    write!(s, r#","t":{t},"pk":{},"mx":{}"#, o.peak.min(i32::MAX as usize), o.maxreq.min(i32::MAX as usize)).unwrap();
    if !t {
        // the offset table in words, where it turns back or leaves the string
        let b = bb.as_ref().unwrap();
        let f = get(b, 0);
        let w: Vec<usize> = (0..n).map(|i| get(b, i)).chain([b.len()]).collect();
        let j = (0..n).find(|j| w[*j] > w[j + 1]).unwrap_or(0);
        write!(s, r#","first":{f},"at":{j},"w1":{},"w2":{}"#, w[j], w[j + 1]).unwrap();
    }
    if let Out::Ok(v) = &o.out {
        s.push_str(r#","v":"#);
        far_json(&e.sd, v, &mut s);
        write!(s, r#","ro":"{}","re":"#, name(&o.re)).unwrap();
        let t = parts_json(o.re.as_deref().unwrap_or(&[]), &mut s);
        write!(s, r#","rt":{t}"#).unwrap();
    }
    s.push('}');
    Some(s)
}

/// Append a list of n variable-size items to a short buffer.
pub fn tab_app(e: &Entry, n: usize, rng: u64) -> Option<String> {
    let mut r = Rng(rng);
    let v = items(&e.se, n, false, &mut r)?;
    let pre = vec![r.next() as u8; r.below(9)];
    let o = case(payload(10, e.id, rng, n, &[]), || e.ty.app(&v, &pre))?;
    let mut s = format!(r#"{{"op":"tabapp","ty":{},"v":"#, e.id);
    far_json(&e.se, &o.v, &mut s);
    s.push_str(r#","pre":"#);
    runs(&pre, &mut s);
    s.push_str(r#","outs":["#);
    let mut first = true;
    for (k, b) in o.outs.iter().filter(|x| !EMBEDDED.contains(&x.0)) {
        // what precedes the list, and the list
        let n = if k.starts_with("append") || *k == "cap" { pre.len() } else { 0 };
        write!(s, r#"{}{{"n":"{k}","o":"{}","pre":"#, if first { "" } else { "," }, name(b)).unwrap();
        first = false;
        let b = b.clone().unwrap_or_default();
        let n = n.min(b.len());
        runs(&b[..n], &mut s);
        s.push_str(r#","p":"#);
        let t = parts_json(&b[n..], &mut s);
        write!(s, r#","t":{t}}}"#).unwrap();
    }
    s.push_str("]}");
    Some(s)
}

/// Numbers of items around the powers of two.
pub const HUGE: [usize; 14] =
    [2047, 4096, 5000, 8191, 8193, 10000, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70001];

/// Lists of very many items.
pub fn huge_cases(w: &mut Worker, e: &Entry, prop: &str, k: usize, seed: u64) {
    let mut r = Rng::new(seed ^ 0x4a6e ^ (e.id as u64) << 20);
    let (enc, dec, app, _) = needs(prop);
    let fixed = e.sd.item().fixed();
    // the interesting ones for every type, the others in turn
    for n in [HUGE[k % 14], HUGE[(k + 5) % 14], 16384, 65536, 65537] {
        let mut out = vec![];
        if enc {
            let x = r.next();
            out.push(if fixed { far_enc(e, ITEMS + n, x) } else { tab_enc(e, n, x) });
        }
        if dec {
            for i in 0..3 {
                let x = r.next();
                let how = if i == 0 { 0 } else { 1 + r.below(8) as u64 };
                out.push(if fixed { far_dec(e, ITEMS + n, x, [0, 4, 5][i]) } else { tab_dec(e, n, x, how) });
            }
        }
        if app {
            let x = r.next();
            out.push(if fixed { far_app(e, ITEMS + n, x, 3) } else { tab_app(e, n, x) });
        }
        for s in out {
            w.screened += 1;
            if let Some(s) = s {
                w.sink.put(&s);
            }
        }
    }
}

fn opt_runs(b: &Option<Vec<u8>>, o: &mut String) {
    runs(b.as_deref().unwrap_or(&[]), o)
}
fn name(b: &Option<Vec<u8>>) -> &'static str {
    if b.is_some() {
        "ok"
    } else {
        "panic"
    }
}

/// Encode a far value and decode it again.
pub fn far_enc(e: &Entry, n: usize, rng: u64) -> Option<String> {
    let mut r = Rng(rng);
    let v = far_value(&e.se, n, &mut r)?;
    let o = case(payload(5, e.id, rng, n, &[]), || e.ty.enc(&v))?;
    let mut s = format!(r#"{{"op":"far","ty":{},"o":"{}","v":"#, e.id, name(&o.b));
    far_json(&e.se, &o.v, &mut s);
    s.push_str(r#","b":"#);
    opt_runs(&o.b, &mut s);
    write!(s, r#","len":{},"d":"{}","eq":{}"#, o.len.map(|x| x as i64).unwrap_or(-1), o.d.name(), o.eq).unwrap();
    if let Out::Ok(v) = &o.d {
        s.push_str(r#","dv":"#);
        far_json(&e.se, v, &mut s);
    }
    s.push('}');
    Some(s)
}

/// Decode a far string: an encoding, or one with an edit.
pub fn far_dec(e: &Entry, n: usize, rng: u64, how: u64) -> Option<String> {
    let mut r = Rng(rng);
    let v = far_value(&e.sd, n, &mut r)?;
    let mut m = vec![];
    let mut b = ser_at(&e.sd, &v, 0, &mut m);
    let offs: Vec<usize> = m.iter().filter(|x| x.1 == Mark::Offset).map(|x| x.0).collect();
    if how > 0 && (!offs.is_empty() || how == 4 || how == 5) {
        let p = offs.get(r.below(offs.len())).copied().unwrap_or(0);
        match how {
            1 => b[p + 3] ^= 1,
            2 => b[p + 2] ^= 1,
            3 => b[p] = b[p].wrapping_add(1),
            4 => b.push(r.next() as u8),
            5 => {
                b.pop();
            }
            6 => b[p + 3] ^= 128,
            _ => b[p..p + 4].reverse(),
        }
    }
    let o = case(payload(6, e.id, rng, n, &how.to_le_bytes()), || e.ty.dec(&b));
    let mut s = format!(r#"{{"op":"fard","ty":{},"o":"{}","b":"#, e.id, o.out.name());
    runs(&b, &mut s);
    if let Out::Ok(v) = &o.out {
        s.push_str(r#","v":"#);
        far_json(&e.sd, v, &mut s);
        write!(s, r#","ro":"{}","re":"#, name(&o.re)).unwrap();
        opt_runs(&o.re, &mut s);
    }
    s.push('}');
    Some(s)
}

/// Append a value (far or not) to a buffer (long or not).
pub fn far_app(e: &Entry, n: usize, rng: u64, pre: usize) -> Option<String> {
    let mut r = Rng(rng);
    let v = if n > 0 { far_value(&e.se, n, &mut r)? } else { gen(&e.se, 4, &mut r) };
    let pre = vec![r.next() as u8; pre];
    let o = case(payload(7, e.id, rng, n, &(pre.len() as u64).to_le_bytes()), || e.ty.app(&v, &pre))?;
    let mut s = format!(r#"{{"op":"farapp","ty":{},"v":"#, e.id);
    far_json(&e.se, &o.v, &mut s);
    s.push_str(r#","pre":"#);
    runs(&pre, &mut s);
    s.push_str(r#","outs":["#);
    for (i, (k, b)) in o.outs.iter().enumerate() {
        write!(s, r#"{}{{"n":"{k}","o":"{}","b":"#, if i > 0 { "," } else { "" }, name(b)).unwrap();
        opt_runs(b, &mut s);
        s.push('}');
    }
    s.push_str("]}");
    Some(s)
}

/// The far cases of one type.
pub fn far_cases(w: &mut Worker, e: &Entry, prop: &str, k: usize, seed: u64) {
    let mut r = Rng::new(seed ^ 0xfa7 ^ (e.id as u64) << 20);
    let (enc, dec, app, _) = needs(prop);
    // around 2^16 too, where all is quick
    for n in [FAR, 65536 + 40] {
        if enc {
            if let Some(s) = far_enc(e, n, r.next()) {
                w.sink.put(&s);
            }
            w.screened += 1;
        }
        if dec && prop != "C06" {
            let hows = if n == FAR { vec![0, 1 + k as u64 % 7] } else { (0..8).collect() };
            for how in hows {
                let rng = r.next();
                if let Some(s) = far_dec(e, n, rng, how) {
                    w.sink.put(&s);
                }
                w.screened += 1;
            }
        }
        if app {
            for (n, pre) in [(n, 3), (0, n + 3)] {
                if let Some(s) = far_app(e, n, r.next(), pre) {
                    w.sink.put(&s);
                }
                w.screened += 1;
            }
        }
    }
}

pub fn far_one(e: &Entry, op: &str, n: usize, rng: u64, data: &[u8]) {
    let x = || u64::from_le_bytes(data[..8].try_into().unwrap());
    match op {
        "8" => drop(tab_enc(e, n, rng)),
        "9" => drop(tab_dec(e, n, rng, x())),
        "10" => drop(tab_app(e, n, rng)),
        "5" => drop(far_enc(e, n, rng)),
        "6" => drop(far_dec(e, n, rng, x())),
        _ => drop(far_app(e, n, rng, x() as usize)),
    }
}
