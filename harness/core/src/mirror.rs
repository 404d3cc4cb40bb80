//! A second, independent codec over schemas.  It is never trusted for a verdict: it only steers
//! generation (where the offset words of an encoding are) and selects which executions of the
//! real code go into the trace that TLC checks.
use crate::val::*;
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mark {
    Offset,
    Selector,
    LegacySel,
    Bool,
    BitEnd,
}

pub type Marks = Vec<(usize, Mark)>;

pub fn ser(s: &S, v: &V) -> Vec<u8> {
    let mut m = vec![];
    ser_at(s, v, 0, &mut m)
}

fn parts(items: Vec<(bool, &S, &V)>, base: usize, m: &mut Marks) -> Vec<u8> {
    let fixed_end: usize = items.iter().map(|(f, s, _)| if *f { s.flen() } else { 4 }).sum();
    let mut head = vec![];
    let mut tail = vec![];
    for (f, s, v) in items {
        if f {
            let p = ser_at(s, v, base + head.len(), m);
            head.extend(p);
        } else {
            m.push((base + head.len(), Mark::Offset));
            head.extend(((fixed_end + tail.len()) as u32).to_le_bytes());
            let p = ser_at(s, v, base + fixed_end + tail.len(), m);
            tail.extend(p);
        }
    }
    head.extend(tail);
    head
}

pub fn pack(bits: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; bfb(bits.len())];
    for (i, b) in bits.iter().enumerate() {
        o[i / 8] |= b << (i % 8);
    }
    o
}

pub fn ser_at(s: &S, v: &V, base: usize, m: &mut Marks) -> Vec<u8> {
    let rev = |b: &[u8]| b.iter().rev().copied().collect::<Vec<u8>>();
    match s {
        S::Uint(_) | S::Nz(_) => rev(v.bytes()),
        S::RevBytes => rev(v.bytes()),
        S::Uint24 => rev(&v.bytes()[1..]),
        S::UintBe(_) | S::FixBytes(_) | S::VarU8 | S::BytesN(_) | S::Bytes => v.bytes().to_vec(),
        S::Bool => {
            m.push((base, Mark::Bool));
            vec![v.int() as u8]
        }
        S::Tag(_) => {
            m.push((base, Mark::Selector));
            vec![v.int() as u8]
        }
        S::List(_) | S::Set(_) | S::Map(_, _) => {
            let e = s.item();
            let f = e.fixed();
            parts(v.seq().iter().map(|x| (f, &e, x)).collect(), base, m)
        }
        S::Cont(f) => {
            let vs = v.seq();
            parts(S::live(f).map(|(i, s)| (s.fixed(), s, &vs[i])).collect(), base, m)
        }
        S::Trans(f) | S::Desc(f) => {
            let (i, w) = S::wrapped(f);
            ser_at(w, &v.seq()[i], base, m)
        }
        S::Skip(_) => unreachable!(),
        S::Opt(e) => {
            m.push((base, Mark::Selector));
            let mut o = vec![v.seq().len() as u8];
            if let Some(x) = v.seq().first() {
                o.extend(ser_at(e, x, base + 1, m));
            }
            o
        }
        S::Legacy(e) => {
            m.push((base, Mark::LegacySel));
            let mut o = vec![v.seq().len() as u8, 0, 0, 0];
            if let Some(x) = v.seq().first() {
                o.extend(ser_at(e, x, base + 4, m));
            }
            o
        }
        S::Union(vs) => {
            let V::T(i, x) = v else { panic!() };
            m.push((base, Mark::Selector));
            let mut o = vec![*i as u8];
            o.extend(ser_at(&vs[*i as usize], x, base + 1, m));
            o
        }
        S::TEnum(vs) => {
            let V::T(i, x) = v else { panic!() };
            ser_at(&vs[*i as usize], x, base, m)
        }
        S::BitVec(_) | S::BitDyn => {
            let o = pack(v.bytes());
            m.push((base + o.len() - 1, Mark::BitEnd));
            o
        }
        S::BitList(_) => {
            let mut b = v.bytes().to_vec();
            b.push(1);
            let o = pack(&b);
            m.push((base + o.len() - 1, Mark::BitEnd));
            o
        }
    }
}

fn off(b: &[u8], p: usize) -> usize {
    u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) as usize
}

pub fn tile<'a>(kinds: &[Option<usize>], b: &'a [u8]) -> Option<Vec<&'a [u8]>> {
    let mut pos = 0usize;
    let mut spans: Vec<(usize, usize)> = vec![];
    let mut offs = vec![];
    for (i, k) in kinds.iter().enumerate() {
        match k {
            Some(n) => {
                let e = pos.checked_add(*n)?;
                if e > b.len() {
                    return None;
                }
                spans.push((pos, e));
                pos = e;
            }
            None => {
                if pos + 4 > b.len() {
                    return None;
                }
                offs.push((i, off(b, pos)));
                spans.push((0, 0));
                pos += 4;
            }
        }
    }
    if offs.is_empty() {
        if pos != b.len() {
            return None;
        }
    } else {
        if offs[0].1 != pos {
            return None;
        }
        for j in 0..offs.len() {
            let e = if j + 1 < offs.len() { offs[j + 1].1 } else { b.len() };
            if offs[j].1 > e || e > b.len() {
                return None;
            }
            spans[offs[j].0] = (offs[j].1, e);
        }
    }
    Some(spans.into_iter().map(|(a, e)| &b[a..e]).collect())
}

pub fn tile_list(b: &[u8]) -> Option<Vec<&[u8]>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    if b.len() < 4 {
        return None;
    }
    let o1 = off(b, 0);
    if o1 < 4 || o1 % 4 != 0 || o1 > b.len() {
        return None;
    }
    let n = o1 / 4;
    let mut r = vec![];
    for j in 0..n {
        let a = off(b, 4 * j);
        let e = if j + 1 < n { off(b, 4 * j + 4) } else { b.len() };
        if a > e || e > b.len() {
            return None;
        }
        r.push(&b[a..e]);
    }
    Some(r)
}

pub fn default_of(s: &S) -> V {
    match s {
        S::Uint(n) | S::UintBe(n) | S::BytesN(n) | S::Nz(n) => V::B(vec![0; *n]),
        S::Bool | S::Tag(_) => V::I(0),
        S::Skip(e) => default_of(e),
        S::Cont(f) | S::Trans(f) | S::Desc(f) => V::S(f.iter().map(default_of).collect()),
        S::BitVec(n) => V::B(vec![0; *n]),
        S::Bytes => V::B(vec![]),
        _ => V::S(vec![]),
    }
}

/// `v` with skipped fields replaced by their default.
pub fn erase(s: &S, v: &V) -> V {
    match s {
        S::Cont(f) | S::Trans(f) | S::Desc(f) => V::S(
            f.iter()
                .zip(v.seq())
                .map(|(s, x)| match s {
                    S::Skip(e) => default_of(e),
                    s => erase(s, x),
                })
                .collect(),
        ),
        S::List(_) | S::Set(_) | S::Map(_, _) => {
            let e = s.item();
            V::S(v.seq().iter().map(|x| erase(&e, x)).collect())
        }
        S::Opt(e) | S::Legacy(e) => V::S(v.seq().iter().map(|x| erase(e, x)).collect()),
        S::Union(vs) | S::TEnum(vs) => {
            let V::T(i, x) = v else { panic!() };
            V::T(*i, Box::new(erase(&vs[*i as usize], x)))
        }
        _ => v.clone(),
    }
}

pub fn unpack(b: &[u8], n: usize) -> Vec<u8> {
    (0..n).map(|i| (b[i / 8] >> (i % 8)) & 1).collect()
}

pub fn de(s: &S, b: &[u8]) -> Option<V> {
    let rev = |b: &[u8]| b.iter().rev().copied().collect::<Vec<u8>>();
    let exact = |n: usize| if b.len() == n { Some(()) } else { None };
    match s {
        S::Uint(n) => exact(*n).map(|_| V::B(rev(b))),
        S::Nz(n) => exact(*n).filter(|_| b.iter().any(|x| *x != 0)).map(|_| V::B(rev(b))),
        S::UintBe(n) | S::FixBytes(n) | S::BytesN(n) => exact(*n).map(|_| V::B(b.to_vec())),
        S::Uint24 => exact(3).map(|_| V::B(vec![0, b[2], b[1], b[0]])),
        S::VarU8 => exact(1).map(|_| V::B(b.to_vec())),
        S::RevBytes => Some(V::B(rev(b))),
        S::Bytes => Some(V::B(b.to_vec())),
        S::Bool => exact(1).filter(|_| b[0] < 2).map(|_| V::I(b[0] as u32)),
        S::Tag(n) => exact(1).filter(|_| (b[0] as usize) < *n).map(|_| V::I(b[0] as u32)),
        S::List(_) | S::Set(_) | S::Map(_, _) => {
            let e = s.item();
            let items: Vec<&[u8]> = if e.fixed() {
                if b.is_empty() {
                    vec![]
                } else {
                    if e.flen() == 0 || b.len() % e.flen() != 0 {
                        return None;
                    }
                    b.chunks(e.flen()).collect()
                }
            } else {
                tile_list(b)?
            };
            let vs = items.into_iter().map(|x| de(&e, x)).collect::<Option<Vec<V>>>()?;
            Some(match s {
                S::List(_) => V::S(vs),
                _ => V::S(collect(s, vs)),
            })
        }
        S::Cont(f) => {
            let kinds: Vec<_> =
                S::live(f).map(|(_, s)| if s.fixed() { Some(s.flen()) } else { None }).collect();
            let mut t = tile(&kinds, b)?.into_iter();
            let mut o = vec![];
            for s in f {
                o.push(match s {
                    S::Skip(e) => default_of(e),
                    s => de(s, t.next().unwrap())?,
                });
            }
            Some(V::S(o))
        }
        S::Trans(f) | S::Desc(f) => {
            let mut o = vec![];
            for s in f {
                o.push(match s {
                    S::Skip(e) => default_of(e),
                    s => de(s, b)?,
                });
            }
            Some(V::S(o))
        }
        S::Skip(_) => unreachable!(),
        S::Opt(e) => match b.first()? {
            0 if b.len() == 1 => Some(V::S(vec![])),
            1 => Some(V::S(vec![de(e, &b[1..])?])),
            _ => None,
        },
        S::Legacy(e) => {
            if b.len() < 4 {
                return None;
            }
            match off(b, 0) {
                0 if b.len() == 4 => Some(V::S(vec![])),
                1 => Some(V::S(vec![de(e, &b[4..])?])),
                _ => None,
            }
        }
        S::Union(vs) => {
            let i = *b.first()? as usize;
            if i >= vs.len() || i > 127 {
                return None;
            }
            Some(V::T(i as u32, Box::new(de(&vs[i], &b[1..])?)))
        }
        S::TEnum(vs) => {
            for (i, s) in vs.iter().enumerate() {
                if let Some(x) = de(s, b) {
                    return Some(V::T(i as u32, Box::new(x)));
                }
            }
            None
        }
        S::BitVec(n) => {
            exact(bfb(*n))?;
            let bits = unpack(b, 8 * b.len());
            if bits[*n..].iter().any(|x| *x == 1) {
                return None;
            }
            Some(V::B(bits[..*n].to_vec()))
        }
        S::BitList(n) => {
            let last = *b.last()?;
            if last == 0 {
                return None;
            }
            let len = (b.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
            if len > *n {
                return None;
            }
            Some(V::B(unpack(b, len)))
        }
        S::BitDyn => {
            if b.is_empty() {
                return None;
            }
            Some(V::B(unpack(b, 8 * b.len())))
        }
    }
}

/// The standard order of the Rust values.
pub fn cmp(s: &S, a: &V, b: &V) -> Ordering {
    let lex = |f: &dyn Fn(usize, &V, &V) -> Ordering| {
        let (x, y) = (a.seq(), b.seq());
        for i in 0..x.len().min(y.len()) {
            let c = f(i, &x[i], &y[i]);
            if c != Ordering::Equal {
                return c;
            }
        }
        x.len().cmp(&y.len())
    };
    match s {
        S::List(_) | S::Set(_) | S::Map(_, _) => {
            let e = s.item();
            lex(&|_, x, y| cmp(&e, x, y))
        }
        S::Cont(f) | S::Trans(f) => lex(&|i, x, y| cmp(&f[i], x, y)),
        S::Desc(f) => lex(&|i, x, y| cmp(&f[i], x, y)).reverse(),
        S::Skip(e) => cmp(e, a, b),
        S::Opt(e) | S::Legacy(e) => lex(&|_, x, y| cmp(e, x, y)),
        S::Union(vs) | S::TEnum(vs) => {
            let (V::T(i, x), V::T(j, y)) = (a, b) else { panic!() };
            i.cmp(j).then_with(|| cmp(&vs[*i as usize], x, y))
        }
        S::Bool | S::Tag(_) => a.int().cmp(&b.int()),
        _ => a.bytes().cmp(b.bytes()),
    }
}

/// Ascending by key; of equal keys the last one listed stays.
pub fn collect(s: &S, vs: Vec<V>) -> Vec<V> {
    let (ks, is_map) = match s {
        S::Map(k, _) => (k, true),
        S::Set(e) => (e, false),
        _ => panic!(),
    };
    let key = |v: &V| if is_map { v.seq()[0].clone() } else { v.clone() };
    let mut out: Vec<V> = vec![];
    for v in vs {
        let k = key(&v);
        match out.binary_search_by(|x| cmp(ks, &key(x), &k)) {
            Ok(i) => out[i] = v,
            Err(i) => out.insert(i, v),
        }
    }
    out
}
