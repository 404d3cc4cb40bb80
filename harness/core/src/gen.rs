//! Generation of abstract values and of byte strings around valid encodings.
use crate::mirror::*;
use crate::val::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

fn gen_bits(n: usize, r: &mut Rng) -> Vec<u8> {
    let mode = match mode() {
        ZEROS | EMPTY => 0,
        ONES => 1,
        _ => r.below(6),
    };
    (0..n)
        .map(|i| match mode {
            0 => 0,
            1 => 1,
            2 => (i == n - 1) as u8,
            3 => (i == 0) as u8,
            _ => (r.next() & 1) as u8,
        })
        .collect()
}

fn gen_digits(n: usize, r: &mut Rng) -> Vec<u8> {
    let how = match mode() {
        ZEROS | EMPTY => 0,
        ONES => 1,
        _ => r.below(7),
    };
    match how {
        0 => vec![0; n],
        1 => vec![255; n],
        2 => {
            let mut v = vec![0; n];
            if n > 0 {
                v[n - 1] = 1 + r.below(3) as u8;
            }
            v
        }
        3 => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = r.below(n);
                v[i] = 1 << r.below(8);
            }
            v
        }
        4 => (0..n).map(|i| i as u8 + 1).collect(),
        _ => r.bytes(n),
    }
}

/// The length of a list-like value; `fuel` bounds the size of the whole value.
fn gen_len(fuel: usize, r: &mut Rng) -> usize {
    match mode() {
        EMPTY => return 0,
        MOSTLY_EMPTY if !r.chance(1, 8) => return 0,
        FULL => return fuel,
        _ => {}
    }
    let c = match r.below(10) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 | 5 => 2,
        6 => 3,
        7 => 4,
        8 => 5 + r.below(8),
        _ => r.below(fuel + 1),
    };
    c.min(fuel)
}

thread_local! {
    /// How the value being generated is skewed, see `gen`.
    static MODE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
fn mode() -> u8 {
    MODE.with(|m| m.get())
}

/// A value of the schema. Half of the values are plain; others are mostly or entirely empty, have
/// a single part that is not, or repeat one digit everywhere.
pub fn gen(s: &S, fuel: usize, r: &mut Rng) -> V {
    let m = r.below(12) as u8;
    MODE.with(|c| c.set(m));
    let v = gen_in(s, fuel, r);
    MODE.with(|c| c.set(0));
    v
}
const MOSTLY_EMPTY: u8 = 1;
const EMPTY: u8 = 2;
const ONES: u8 = 3;
const ZEROS: u8 = 4;
const FULL: u8 = 5;

fn gen_in(s: &S, fuel: usize, r: &mut Rng) -> V {
    match s {
        S::Uint(n) | S::UintBe(n) | S::BytesN(n) => V::B(gen_digits(*n, r)),
        S::FixBytes(n) => V::B(gen_digits(*n, r)),
        S::Nz(n) => {
            let mut v = gen_digits(*n, r);
            if v.iter().all(|x| *x == 0) {
                let i = r.below(*n);
                v[i] = 1;
            }
            V::B(v)
        }
        S::Uint24 => {
            let mut v = gen_digits(4, r);
            v[0] = 0;
            V::B(v)
        }
        S::VarU8 => V::B(gen_digits(1, r)),
        S::Bool => V::I(r.below(2) as u32),
        S::Tag(n) => V::I(r.below(*n) as u32),
        S::Bytes | S::RevBytes => {
            let n = gen_len(fuel, r);
            V::B(gen_digits(n, r))
        }
        S::List(e) => {
            let n = gen_len(fuel, r);
            V::S((0..n).map(|_| gen_in(e, fuel / (n + 1), r)).collect())
        }
        S::Set(_) | S::Map(_, _) => {
            let n = gen_len(fuel, r);
            let e = s.item();
            let vs = (0..n).map(|_| gen_in(&e, fuel / (n + 1), r)).collect();
            V::S(collect(s, vs))
        }
        S::Cont(f) | S::Trans(f) | S::Desc(f) => V::S(f.iter().map(|e| gen_in(e, fuel / (f.len() + 1), r)).collect()),
        S::Skip(e) => {
            if r.chance(1, 2) {
                default_of(e)
            } else {
                gen_in(e, fuel, r)
            }
        }
        S::Opt(e) | S::Legacy(e) => {
            if r.chance(if mode() == MOSTLY_EMPTY { 5 } else { 2 }, 6) {
                V::S(vec![])
            } else {
                V::S(vec![gen_in(e, fuel, r)])
            }
        }
        S::Union(vs) | S::TEnum(vs) => {
            let i = match r.below(4) {
                0 => vs.len() - 1,
                _ => r.below(vs.len()),
            };
            V::T(i as u32, Box::new(gen_in(&vs[i], fuel, r)))
        }
        S::BitVec(n) => V::B(gen_bits(*n, r)),
        S::BitList(n) => {
            let l = match r.below(5) {
                0 => 0,
                1 => *n,
                2 => n.saturating_sub(1),
                3 => (*n / 8) * 8,
                _ => r.below(n + 1),
            };
            V::B(gen_bits(l.min(8 * fuel + 40).min(*n), r))
        }
        S::BitDyn => {
            let l = 8 * (1 + r.below(4));
            V::B(gen_bits(l, r))
        }
    }
}

fn set_off(b: &[u8], p: usize, x: u32) -> Vec<u8> {
    let mut c = b.to_vec();
    c[p..p + 4].copy_from_slice(&x.to_le_bytes());
    c
}
fn get_off(b: &[u8], p: usize) -> u32 {
    u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]])
}

/// One random edit of an encoding.
pub fn mutate(b: &[u8], marks: &Marks, r: &mut Rng) -> Vec<u8> {
    let len = b.len();
    let offs: Vec<usize> = marks
        .iter()
        .filter(|m| m.1 == Mark::Offset && m.0 + 4 <= len)
        .map(|m| m.0)
        .collect();
    if !marks.is_empty() && r.chance(3, 5) {
        let (p, k) = marks[r.below(marks.len())];
        match k {
            Mark::Offset if p + 4 <= len => {
                let o = get_off(b, p);
                let x = match r.below(18) {
                    0 => o.wrapping_add(1),
                    1 => o.wrapping_sub(1),
                    2 => o.wrapping_add(4),
                    3 => o.wrapping_sub(4),
                    4 => 0,
                    5 => len as u32,
                    6 => len as u32 + 1,
                    7 => u32::MAX,
                    8 => o | 0x0001_0000,
                    9 => o | 0x0100_0000,
                    10 => o | 0x8000_0000,
                    11 => o | 0x0000_0100,
                    12 => u32::MAX & !3,
                    13 => 0x7fff_fffc,
                    14 => 4,
                    15 => r.below(len + 5) as u32,
                    16 => o.swap_bytes(),
                    _ => {
                        let q = offs[r.below(offs.len())];
                        get_off(b, q)
                    }
                };
                return set_off(b, p, x);
            }
            Mark::Selector if p < len => {
                let mut c = b.to_vec();
                c[p] = match r.below(7) {
                    0 => c[p].wrapping_add(1),
                    1 => c[p].wrapping_sub(1),
                    2 => 127,
                    3 => 128,
                    4 => 255,
                    5 => 0,
                    _ => r.next() as u8,
                };
                if r.chance(1, 4) {
                    c.truncate(p + 1);
                }
                return c;
            }
            Mark::LegacySel if p + 4 <= len => {
                let x = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3 => 256,
                    4 => 0x0100_0001,
                    _ => r.next() as u32,
                };
                return set_off(b, p, x);
            }
            Mark::Bool if p < len => {
                let mut c = b.to_vec();
                c[p] = [0, 1, 2, 255, 128, 3][r.below(6)];
                return c;
            }
            Mark::BitEnd if p < len => {
                let mut c = b.to_vec();
                c[p] = match r.below(5) {
                    0 => 0,
                    1 => c[p] | 0x80,
                    2 => c[p] ^ (1 << r.below(8)),
                    3 => c[p].wrapping_shl(1),
                    _ => r.next() as u8,
                };
                return c;
            }
            _ => {}
        }
    }
    let mut c = b.to_vec();
    match r.below(9) {
        0 | 1 => {
            let n = 1 + r.below(5);
            for _ in 0..n {
                c.push(if r.chance(1, 2) { 0 } else { r.next() as u8 });
            }
        }
        2 | 3 => {
            let n = 1 + r.below(5.min(len.max(1)));
            c.truncate(len.saturating_sub(n));
        }
        4 => {
            if len > 0 {
                c.remove(r.below(len));
            }
        }
        5 => {
            let i = r.below(len + 1);
            c.insert(i, r.next() as u8);
        }
        6 => {
            let i = r.below(len + 1);
            c.truncate(i);
        }
        7 => {
            if len > 0 {
                let i = r.below(len);
                c[i] = match r.below(4) {
                    0 => c[i].wrapping_add(1),
                    1 => c[i].wrapping_sub(1),
                    2 => c[i] ^ (1 << r.below(8)),
                    _ => r.next() as u8,
                };
            }
        }
        _ => {
            if len > 1 {
                let (i, j) = (r.below(len), r.below(len));
                c.swap(i, j);
            }
        }
    }
    c
}

const ALPHA: [u8; 12] = [0, 1, 2, 3, 4, 5, 8, 12, 16, 127, 128, 255];

/// Byte strings not derived from an encoding.
pub fn wild(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(5),
        1 => r.below(13),
        2 => r.below(33),
        _ => r.below(80),
    };
    match r.below(4) {
        0 => r.bytes(n),
        1 => vec![ALPHA[r.below(ALPHA.len())]; n],
        2 => (0..n).map(|_| ALPHA[r.below(ALPHA.len())]).collect(),
        _ => {
            // looks like an offset table
            let k = 1 + r.below(4);
            let mut b = vec![];
            let mut o = 4 * k as u32;
            for _ in 0..k {
                b.extend(o.to_le_bytes());
                o = o.wrapping_add(r.below(4) as u32);
                if r.chance(1, 10) {
                    o = o.wrapping_sub(2);
                }
            }
            b.extend(r.bytes(n % 12));
            b
        }
    }
}

/// The i-th string over a small alphabet in length-lexicographic order.
pub fn nth_small(mut i: usize, alpha: &[u8]) -> Vec<u8> {
    let k = alpha.len();
    let mut len = 0;
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= k;
        len += 1;
    }
    let mut b = vec![0; len];
    for j in (0..len).rev() {
        b[j] = alpha[i % k];
        i /= k;
    }
    b
}

/// Edits that make a 4-byte field announce a huge count (C06).
pub fn hostile(b: &[u8], marks: &Marks, r: &mut Rng) -> Vec<u8> {
    let mut c = b.to_vec();
    let n = 1 + r.below(2);
    for _ in 0..n {
        let p = if marks.is_empty() || r.chance(1, 4) {
            r.below(c.len().saturating_sub(3).max(1))
        } else {
            marks[r.below(marks.len())].0
        };
        if p + 4 <= c.len() {
            let x: u32 = [
                0xffff_fffc, 0xffff_ffff, 0x7fff_fffc, 0x4000_0000, 0x1000_0000, 0x0100_0000,
                0x0010_0000, 0x0001_0000,
            ][r.below(8)];
            c[p..p + 4].copy_from_slice(&x.to_le_bytes());
        }
    }
    c
}
