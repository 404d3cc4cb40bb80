//! Every bitfield type behind one interface.
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, BitfieldError, Decode, Encode};
use std::any::Any;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use typenum::Unsigned;
use vcore::ops::guard;
use vcore::val::json_bytes;

pub type Bs = Box<dyn Bf>;
/// Outcome of an operation: value, error or panic.
pub enum R<X> {
    Ok(X),
    Err,
    Panic,
}
impl<X> R<X> {
    pub fn name(&self) -> &'static str {
        match self {
            R::Ok(_) => "ok",
            R::Err => "err",
            R::Panic => "panic",
        }
    }
    pub fn map<Y>(self, f: impl FnOnce(X) -> Y) -> R<Y> {
        match self {
            R::Ok(x) => R::Ok(f(x)),
            R::Err => R::Err,
            R::Panic => R::Panic,
        }
    }
    pub fn ok(self) -> Option<X> {
        match self {
            R::Ok(x) => Some(x),
            _ => None,
        }
    }
}
pub fn run<X, E>(f: impl FnOnce() -> Result<X, E>) -> R<X> {
    match guard(f) {
        None => R::Panic,
        Some(Err(_)) => R::Err,
        Some(Ok(x)) => R::Ok(x),
    }
}

/// What a bitfield shows of itself.
#[derive(Clone, PartialEq, Debug)]
pub struct Obs {
    pub n: usize,
    pub empty: bool,
    pub get: Vec<u8>,
    pub iter: Vec<u8>,
    pub count: usize,
    pub high: i64,
    pub zero: bool,
    pub bytes: Vec<u8>,
    pub raw: Vec<u8>,
    pub enc: Vec<u8>,
    pub into: Vec<u8>,
    pub slen: usize,
    /// Reading at and beyond the length fails.
    pub oob: bool,
    pub hash: u64,
    /// Iteration with nth, next, nth again from a place (2: nothing there).
    pub nth: Vec<[usize; 4]>,
    /// skip, step_by and what they gave; last; count; whether size_hint tells the truth.
    pub step: (usize, usize, Vec<u8>),
    pub last: u8,
    pub items: usize,
    pub hint: bool,
}
impl Obs {
    pub fn json(o: &Option<Obs>, s: &mut String) {
        let Some(o) = o else {
            s.push_str(r#"{"o":"panic"}"#);
            return;
        };
        write!(s, r#"{{"o":"ok","n":{},"e":{},"g":"#, o.n, o.empty).unwrap();
        json_bytes(&o.get, s);
        s.push_str(r#","it":"#);
        json_bytes(&o.iter, s);
        write!(s, r#","c":{},"hi":{},"z":{},"by":"#, o.count, o.high, o.zero).unwrap();
        json_bytes(&o.bytes, s);
        s.push_str(r#","rb":"#);
        json_bytes(&o.raw, s);
        s.push_str(r#","enc":"#);
        json_bytes(&o.enc, s);
        s.push_str(r#","ib":"#);
        json_bytes(&o.into, s);
        write!(s, r#","sl":{},"oob":{},"h":"{:x}""#, o.slen, o.oob, o.hash).unwrap();
        write!(s, r#","nx":{:?},"st":[{},{},"#, o.nth, o.step.0, o.step.1).unwrap();
        json_bytes(&o.step.2, s);
        write!(s, r#"],"ls":{},"ct":{},"hint":{}}}"#, o.last, o.items, o.hint).unwrap();
    }
}

pub trait Bf: Any {
    fn any(&self) -> &dyn Any;
    fn obs(&self) -> Option<Obs>;
    fn set(&mut self, i: usize, x: bool) -> R<()>;
    fn shift(&mut self, n: usize) -> R<()>;
    fn diff_in(&mut self, o: &dyn Bf) -> R<()>;
    fn dup(&self) -> Bs;
    fn clone_from(&mut self, o: &dyn Bf) -> R<()>;
    fn eq(&self, o: &dyn Bf) -> Option<bool>;
    fn inter(&self, o: &dyn Bf) -> R<Bs>;
    fn union(&self, o: &dyn Bf) -> R<Bs>;
    fn diff(&self, o: &dyn Bf) -> R<Bs>;
    /// None: there is no such operation.
    fn subset(&self, o: &dyn Bf) -> Option<R<bool>>;
    /// (new capacity, result)
    fn resizes(&self) -> Vec<(usize, R<Bs>)>;
    fn ser(&self) -> R<String>;
}

/// The constructors of a type.
#[derive(Clone, Copy)]
pub struct Fac {
    pub kind: &'static str,
    pub cap: usize,
    /// with_capacity / new; None when the kind has no such constructor.
    pub with: fn(usize) -> R<Bs>,
    pub default: fn() -> R<Bs>,
    pub from_bytes: fn(&[u8], usize) -> R<Bs>,
    pub decode: fn(&[u8]) -> R<Bs>,
    /// JSON text through a string, a reader, a value; and a raw Rust string through a deserializer.
    pub de_str: fn(&str) -> R<Bs>,
    pub de_reader: fn(&str) -> R<Bs>,
    pub de_value: fn(&str) -> R<Bs>,
    /// The string itself, from a format which is not for people: borrowed, owned, passing.
    pub de_form: fn(&str, u8) -> R<Bs>,
}

macro_rules! common {
    () => {
        fn any(&self) -> &dyn Any {
            self
        }
        fn obs(&self) -> Option<Obs> {
            guard(|| {
                let n = self.len();
                let mut h = std::collections::hash_map::DefaultHasher::new();
                self.hash(&mut h);
                let one = |x: Option<bool>| x.map_or(2, |x| x as usize);
                let mut at = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 9];
                at.dedup();
                let (a, b) = if n <= 64 { (n % 5, 2 + n % 3) } else { (n / 3, n / 9 + 1) };
                let hint = self.iter().size_hint();
                Obs {
                    n,
                    empty: self.is_empty(),
                    get: (0..n.min(100_000)).map(|i| self.get(i).unwrap() as u8).collect(),
                    iter: self.iter().take(100_001).map(|x| x as u8).collect(),
                    count: self.num_set_bits(),
                    high: self.highest_set_bit().map(|x| x as i64).unwrap_or(-1),
                    zero: self.is_zero(),
                    bytes: self.as_slice().to_vec(),
                    raw: self.clone().into_raw_bytes().to_vec(),
                    enc: self.as_ssz_bytes(),
                    into: self.clone().into_bytes().to_vec(),
                    slen: self.ssz_bytes_len(),
                    oob: [n, n + 1, n + 7, n + 8, 2 * n + 64, usize::MAX, usize::MAX - 7]
                        .iter()
                        .all(|i| self.get(*i).is_err()),
                    hash: h.finish(),
                    nth: at
                        .iter()
                        .map(|i| {
                            let mut it = self.iter();
                            [*i, one(it.nth(*i)), one(it.next()), one(it.nth(*i))]
                        })
                        .collect(),
                    step: (a, b, self.iter().skip(a).step_by(b).take(100_001).map(|x| x as u8).collect()),
                    last: one(self.iter().last()) as u8,
                    items: self.iter().count(),
                    hint: hint.0 <= n && hint.1.is_none_or(|x| x >= n),
                }
            })
        }
        fn set(&mut self, i: usize, x: bool) -> R<()> {
            run(|| Self::set(self, i, x))
        }
        fn shift(&mut self, n: usize) -> R<()> {
            run(|| self.shift_up(n))
        }
        fn diff_in(&mut self, o: &dyn Bf) -> R<()> {
            let o: &Self = o.any().downcast_ref().unwrap();
            run(|| Ok::<_, ()>(self.difference_inplace(o)))
        }
        fn dup(&self) -> Bs {
            Box::new(self.clone())
        }
        fn clone_from(&mut self, o: &dyn Bf) -> R<()> {
            let o: &Self = o.any().downcast_ref().unwrap();
            run(|| Ok::<_, ()>(Clone::clone_from(self, o)))
        }
        fn eq(&self, o: &dyn Bf) -> Option<bool> {
            let o: &Self = o.any().downcast_ref().unwrap();
            guard(|| self == o)
        }
        fn diff(&self, o: &dyn Bf) -> R<Bs> {
            let o: &Self = o.any().downcast_ref().unwrap();
            run(|| Ok::<_, ()>(Box::new(self.difference(o)) as Bs))
        }
        fn ser(&self) -> R<String> {
            let a = run(|| serde_json::to_string(self));
            // through a value, and to a format which is not for people: all have to give the same string
            let b = run(|| serde_json::to_value(self).map(|v| serde_json::to_string(&v).unwrap()));
            let c = run(|| {
                serde::Serialize::serialize(self, crate::form::Out).map(|v| serde_json::to_string(&v).unwrap())
            });
            match (a, b, c) {
                (R::Ok(x), R::Ok(y), R::Ok(z)) if x == y && y == z => R::Ok(x),
                (R::Panic, ..) | (_, R::Panic, _) | (.., R::Panic) => R::Panic,
                _ => R::Err,
            }
        }
    };
}

type Buf = SmallVec<[u8; 128]>;

macro_rules! resize_to {
    ($s:expr, $($m:ident)*) => {
        vec![$((
            typenum::$m::to_usize(),
            run(|| $s.resize::<typenum::$m>().map(|x| Box::new(x) as Bs)),
        )),*]
    };
}

impl<N: Unsigned + Clone + 'static> Bf for BitList<N> {
    common!();
    fn inter(&self, o: &dyn Bf) -> R<Bs> {
        let o: &Self = o.any().downcast_ref().unwrap();
        run(|| Ok::<_, ()>(Box::new(self.intersection(o)) as Bs))
    }
    fn union(&self, o: &dyn Bf) -> R<Bs> {
        let o: &Self = o.any().downcast_ref().unwrap();
        run(|| Ok::<_, ()>(Box::new(self.union(o)) as Bs))
    }
    fn subset(&self, o: &dyn Bf) -> Option<R<bool>> {
        let o: &Self = o.any().downcast_ref().unwrap();
        Some(run(|| Ok::<_, ()>(self.is_subset(o))))
    }
    fn resizes(&self) -> Vec<(usize, R<Bs>)> {
        let mut v = resize_to!(self, U0 U1 U2 U3 U7 U8 U9 U15 U16 U17 U64 U1023 U1024 U2048);
        v.push((N::to_usize(), run(|| self.resize::<N>().map(|x| Box::new(x) as Bs))));
        v
    }
}
impl<N: Unsigned + Clone + 'static> Bf for BitVector<N> {
    common!();
    fn inter(&self, o: &dyn Bf) -> R<Bs> {
        let o: &Self = o.any().downcast_ref().unwrap();
        run(|| Ok::<_, ()>(Box::new(self.intersection(o)) as Bs))
    }
    fn union(&self, o: &dyn Bf) -> R<Bs> {
        let o: &Self = o.any().downcast_ref().unwrap();
        run(|| Ok::<_, ()>(Box::new(self.union(o)) as Bs))
    }
    fn subset(&self, o: &dyn Bf) -> Option<R<bool>> {
        let o: &Self = o.any().downcast_ref().unwrap();
        Some(run(|| Ok::<_, ()>(self.is_subset(o))))
    }
    fn resizes(&self) -> Vec<(usize, R<Bs>)> {
        vec![]
    }
}
impl Bf for BitVectorDynamic {
    common!();
    fn inter(&self, o: &dyn Bf) -> R<Bs> {
        let o: &Self = o.any().downcast_ref().unwrap();
        run(|| self.intersection(o).map(|x| Box::new(x) as Bs))
    }
    fn union(&self, o: &dyn Bf) -> R<Bs> {
        let o: &Self = o.any().downcast_ref().unwrap();
        run(|| self.union(o).map(|x| Box::new(x) as Bs))
    }
    fn subset(&self, _: &dyn Bf) -> Option<R<bool>> {
        None
    }
    fn resizes(&self) -> Vec<(usize, R<Bs>)> {
        vec![]
    }
}

fn bx<T: Bf>(r: R<T>) -> R<Bs> {
    r.map(|x| Box::new(x) as Bs)
}

macro_rules! serde_fns {
    ($t:ty) => {{
        (
            (|s| bx(run(|| serde_json::from_str::<$t>(s)))) as fn(&str) -> R<Bs>,
            (|s| bx(run(|| serde_json::from_reader::<_, $t>(s.as_bytes())))) as fn(&str) -> R<Bs>,
            (|s| {
                bx(run(|| {
                    serde_json::from_str::<serde_json::Value>(s).and_then(serde_json::from_value::<$t>)
                }))
            }) as fn(&str) -> R<Bs>,
            (|s, how| bx(run(|| <$t as serde::Deserialize>::deserialize(crate::form::In(s, how)))))
                as fn(&str, u8) -> R<Bs>,
        )
    }};
}

pub fn list<N: Unsigned + Clone + 'static>() -> Fac {
    let (a, b, c, d) = serde_fns!(BitList<N>);
    Fac {
        kind: "bitlist",
        cap: N::to_usize(),
        with: |n| bx(run(|| BitList::<N>::with_capacity(n))),
        default: || bx(run(|| BitList::<N>::with_capacity(BitList::<N>::max_len()))),
        from_bytes: |b, _| bx(run(|| BitList::<N>::from_bytes(Buf::from_slice(b)))),
        decode: |b| bx(run(|| BitList::<N>::from_ssz_bytes(b))),
        de_str: a,
        de_reader: b,
        de_value: c,
        de_form: d,
    }
}
pub fn vector<N: Unsigned + Clone + 'static>() -> Fac {
    let (a, b, c, d) = serde_fns!(BitVector<N>);
    Fac {
        kind: "bitvec",
        cap: N::to_usize(),
        with: |_| bx(run(|| Ok::<_, BitfieldError>(BitVector::<N>::new()))),
        default: || bx(run(|| Ok::<_, BitfieldError>(BitVector::<N>::default()))),
        from_bytes: |b, _| bx(run(|| BitVector::<N>::from_bytes(Buf::from_slice(b)))),
        decode: |b| bx(run(|| BitVector::<N>::from_ssz_bytes(b))),
        de_str: a,
        de_reader: b,
        de_value: c,
        de_form: d,
    }
}
pub fn dynamic() -> Fac {
    let (a, b, c, d) = serde_fns!(BitVectorDynamic);
    Fac {
        kind: "bitdyn",
        cap: 0,
        with: |n| bx(run(|| BitVectorDynamic::new(n))),
        default: || bx(run(|| BitVectorDynamic::new(8))),
        from_bytes: |b, n| bx(run(|| BitVectorDynamic::from_bytes_with_len(Buf::from_slice(b), n))),
        decode: |b| bx(run(|| BitVectorDynamic::from_ssz_bytes(b))),
        de_str: a,
        de_reader: b,
        de_value: c,
        de_form: d,
    }
}

macro_rules! facs {
    ($($m:ident)*) => { vec![$(list::<typenum::$m>(), vector::<typenum::$m>()),*] };
}
pub fn facs() -> Vec<Fac> {
    let mut v = facs!(U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U20 U23 U24 U25
        U31 U32 U33 U40 U63 U64 U65 U127 U128 U129 U255 U256 U257 U512 U1016 U1023 U1024 U2048);
    type N1025 = typenum::Sum<typenum::U1024, typenum::U1>;
    type N1032 = typenum::Sum<typenum::U1024, typenum::U8>;
    v.push(list::<N1025>());
    v.push(vector::<N1025>());
    v.push(list::<N1032>());
    v.push(vector::<N1032>());
    v.push(dynamic());
    // thousands of bytes: a fixed block, a word count or a buffer would show
    type N16404 = typenum::Sum<typenum::U16384, typenum::U20>;
    v.push(list::<typenum::U4096>());
    v.push(vector::<typenum::U4096>());
    v.push(list::<N16404>());
    v.push(vector::<N16404>());
    v.push(list::<typenum::U65536>());
    v.push(vector::<typenum::U65536>());
    v
}
