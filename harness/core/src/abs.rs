//! Correspondence between Rust values and abstract values.
use crate::val::*;
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::mem::size_of;
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::Unsigned;

/// What a decoded value of the type may allocate (see SszAlloc.tla).
#[derive(Clone, Debug)]
pub enum Mem {
    Leaf,
    Buf,
    /// Item size in memory, least number of input bytes per item.
    List(usize, usize, Box<Mem>),
    Tree(usize, usize, Box<Mem>),
    Boxed(usize, Box<Mem>),
    All(Vec<Mem>),
}

impl Mem {
    pub fn json(&self, o: &mut String) {
        match self {
            Mem::Leaf => o.push_str(r#"{"k":"leaf"}"#),
            Mem::Buf => o.push_str(r#"{"k":"buf"}"#),
            Mem::List(m, l, e) | Mem::Tree(m, l, e) => {
                let k = if matches!(self, Mem::List(..)) { "list" } else { "tree" };
                write!(o, r#"{{"k":"{k}","m":{m},"l":{l},"e":"#).unwrap();
                e.json(o);
                o.push('}');
            }
            Mem::Boxed(m, e) => {
                write!(o, r#"{{"k":"box","m":{m},"e":"#).unwrap();
                e.json(o);
                o.push('}');
            }
            Mem::All(f) => {
                o.push_str(r#"{"k":"all","f":["#);
                for (i, x) in f.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.json(o);
                }
                o.push_str("]}");
            }
        }
    }
    /// The mirror of SszAlloc!Bound (selection only).
    pub fn bound(&self) -> (usize, usize) {
        match self {
            Mem::Leaf => (0, 0),
            Mem::Buf => (4, 0),
            Mem::List(m, l, e) => {
                let (a, b) = e.bound();
                ((4 * m + b).div_ceil(*l) + a, 8 * m + b)
            }
            Mem::Tree(m, l, e) => {
                let (a, b) = e.bound();
                ((8 * (m + 16) + b).div_ceil(*l) + a, 16 * (m + 16) + b)
            }
            Mem::Boxed(m, e) => {
                let (a, b) = e.bound();
                (a, m + 32 + b)
            }
            Mem::All(f) => {
                let bs: Vec<_> = f.iter().map(|x| x.bound()).collect();
                (
                    bs.iter().map(|x| x.0).max().unwrap_or(0),
                    bs.iter().map(|x| x.1).sum::<usize>() + 128 * f.len(),
                )
            }
        }
    }
}

pub trait Abs: Sized {
    fn schema_e() -> S;
    fn schema_d() -> S {
        Self::schema_e()
    }
    fn mem() -> Mem {
        Mem::Leaf
    }
    fn abs(&self) -> V;
    fn from_v(v: &V) -> Self;
}

/// Least input bytes an item of decoder schema `s` takes in a list.
pub fn per_item(s: &S) -> usize {
    if s.fixed() {
        s.flen().max(1)
    } else {
        4
    }
}

macro_rules! uints {
    ($($t:ty),*) => { $(
        impl Abs for $t {
            fn schema_e() -> S { S::Uint(size_of::<$t>()) }
            fn abs(&self) -> V { V::B(self.to_be_bytes().to_vec()) }
            fn from_v(v: &V) -> Self { <$t>::from_be_bytes(v.bytes().try_into().unwrap()) }
        }
    )* }
}
uints!(u8, u16, u32, u64, u128, usize);

impl Abs for U128 {
    fn schema_e() -> S {
        S::Uint(16)
    }
    fn abs(&self) -> V {
        V::B(self.to_be_bytes::<16>().to_vec())
    }
    fn from_v(v: &V) -> Self {
        U128::from_be_bytes::<16>(v.bytes().try_into().unwrap())
    }
}
impl Abs for U256 {
    fn schema_e() -> S {
        S::Uint(32)
    }
    fn abs(&self) -> V {
        V::B(self.to_be_bytes::<32>().to_vec())
    }
    fn from_v(v: &V) -> Self {
        U256::from_be_bytes::<32>(v.bytes().try_into().unwrap())
    }
}
impl Abs for NonZeroUsize {
    fn schema_e() -> S {
        S::Nz(8)
    }
    fn abs(&self) -> V {
        self.get().abs()
    }
    fn from_v(v: &V) -> Self {
        NonZeroUsize::new(usize::from_v(v)).unwrap()
    }
}
impl Abs for bool {
    fn schema_e() -> S {
        S::Bool
    }
    fn abs(&self) -> V {
        V::I(*self as u32)
    }
    fn from_v(v: &V) -> Self {
        v.int() == 1
    }
}
impl<const N: usize> Abs for [u8; N] {
    fn schema_e() -> S {
        S::BytesN(N)
    }
    fn abs(&self) -> V {
        V::B(self.to_vec())
    }
    fn from_v(v: &V) -> Self {
        v.bytes().try_into().unwrap()
    }
}
impl<const N: usize> Abs for FixedBytes<N> {
    fn schema_e() -> S {
        S::BytesN(N)
    }
    fn abs(&self) -> V {
        V::B(self.0.to_vec())
    }
    fn from_v(v: &V) -> Self {
        FixedBytes(v.bytes().try_into().unwrap())
    }
}
impl Abs for Address {
    fn schema_e() -> S {
        S::BytesN(20)
    }
    fn abs(&self) -> V {
        V::B(self.0 .0.to_vec())
    }
    fn from_v(v: &V) -> Self {
        Address(FixedBytes::from_v(v))
    }
}
impl Abs for Bloom {
    fn schema_e() -> S {
        S::BytesN(256)
    }
    fn abs(&self) -> V {
        V::B(self.0 .0.to_vec())
    }
    fn from_v(v: &V) -> Self {
        Bloom(FixedBytes::from_v(v))
    }
}
impl Abs for Bytes {
    fn schema_e() -> S {
        S::Bytes
    }
    fn mem() -> Mem {
        Mem::Buf
    }
    fn abs(&self) -> V {
        V::B(self.0.to_vec())
    }
    fn from_v(v: &V) -> Self {
        v.bytes().to_vec().into()
    }
}

macro_rules! bits_of {
    ($b:expr) => {
        V::B((0..$b.len()).map(|i| $b.get(i).unwrap() as u8).collect())
    };
}
impl<N: Unsigned + Clone> Abs for BitList<N> {
    fn schema_e() -> S {
        S::BitList(N::to_usize())
    }
    fn mem() -> Mem {
        Mem::Buf
    }
    fn abs(&self) -> V {
        bits_of!(self)
    }
    fn from_v(v: &V) -> Self {
        let b = v.bytes();
        let mut r = Self::with_capacity(b.len()).unwrap();
        for (i, x) in b.iter().enumerate() {
            r.set(i, *x == 1).unwrap();
        }
        r
    }
}
impl<N: Unsigned + Clone> Abs for BitVector<N> {
    fn schema_e() -> S {
        S::BitVec(N::to_usize())
    }
    fn mem() -> Mem {
        Mem::Buf
    }
    fn abs(&self) -> V {
        bits_of!(self)
    }
    fn from_v(v: &V) -> Self {
        let mut r = Self::new();
        for (i, x) in v.bytes().iter().enumerate() {
            r.set(i, *x == 1).unwrap();
        }
        r
    }
}
impl Abs for BitVectorDynamic {
    fn schema_e() -> S {
        S::BitDyn
    }
    fn mem() -> Mem {
        Mem::Buf
    }
    fn abs(&self) -> V {
        bits_of!(self)
    }
    fn from_v(v: &V) -> Self {
        let mut r = Self::new(v.bytes().len()).unwrap();
        for (i, x) in v.bytes().iter().enumerate() {
            r.set(i, *x == 1).unwrap();
        }
        r
    }
}

fn list_mem<T: Abs>() -> Mem {
    Mem::List(size_of::<T>(), per_item(&T::schema_d()), Box::new(T::mem()))
}
fn tree_mem<T: Abs>() -> Mem {
    Mem::Tree(size_of::<T>(), per_item(&T::schema_d()), Box::new(T::mem()))
}

impl<T: Abs> Abs for Vec<T> {
    fn schema_e() -> S {
        S::List(Box::new(T::schema_e()))
    }
    fn schema_d() -> S {
        S::List(Box::new(T::schema_d()))
    }
    fn mem() -> Mem {
        list_mem::<T>()
    }
    fn abs(&self) -> V {
        V::S(self.iter().map(|x| x.abs()).collect())
    }
    fn from_v(v: &V) -> Self {
        v.seq().iter().map(T::from_v).collect()
    }
}
impl<T: Abs, const N: usize> Abs for SmallVec<[T; N]> {
    fn schema_e() -> S {
        S::List(Box::new(T::schema_e()))
    }
    fn schema_d() -> S {
        S::List(Box::new(T::schema_d()))
    }
    fn mem() -> Mem {
        list_mem::<T>()
    }
    fn abs(&self) -> V {
        V::S(self.iter().map(|x| x.abs()).collect())
    }
    fn from_v(v: &V) -> Self {
        v.seq().iter().map(T::from_v).collect()
    }
}
impl<T: Abs> Abs for Option<T> {
    fn schema_e() -> S {
        S::Opt(Box::new(T::schema_e()))
    }
    fn schema_d() -> S {
        S::Opt(Box::new(T::schema_d()))
    }
    fn mem() -> Mem {
        T::mem()
    }
    fn abs(&self) -> V {
        V::S(self.iter().map(|x| x.abs()).collect())
    }
    fn from_v(v: &V) -> Self {
        v.seq().first().map(T::from_v)
    }
}
impl<T: Abs> Abs for Arc<T> {
    fn schema_e() -> S {
        T::schema_e()
    }
    fn schema_d() -> S {
        T::schema_d()
    }
    fn mem() -> Mem {
        Mem::Boxed(size_of::<T>(), Box::new(T::mem()))
    }
    fn abs(&self) -> V {
        (**self).abs()
    }
    fn from_v(v: &V) -> Self {
        Arc::new(T::from_v(v))
    }
}
impl<T: Abs + Ord> Abs for BTreeSet<T> {
    fn schema_e() -> S {
        S::Set(Box::new(T::schema_e()))
    }
    fn schema_d() -> S {
        S::Set(Box::new(T::schema_d()))
    }
    fn mem() -> Mem {
        tree_mem::<T>()
    }
    fn abs(&self) -> V {
        V::S(self.iter().map(|x| x.abs()).collect())
    }
    fn from_v(v: &V) -> Self {
        let mut r = BTreeSet::new();
        for x in v.seq() {
            r.insert(T::from_v(x));
        }
        r
    }
}
impl<K: Abs + Ord, W: Abs> Abs for BTreeMap<K, W> {
    fn schema_e() -> S {
        S::Map(Box::new(K::schema_e()), Box::new(W::schema_e()))
    }
    fn schema_d() -> S {
        S::Map(Box::new(K::schema_d()), Box::new(W::schema_d()))
    }
    fn mem() -> Mem {
        tree_mem::<(K, W)>()
    }
    fn abs(&self) -> V {
        V::S(self.iter().map(|(k, w)| V::S(vec![k.abs(), w.abs()])).collect())
    }
    fn from_v(v: &V) -> Self {
        let mut r = BTreeMap::new();
        for x in v.seq() {
            let x = x.seq();
            r.insert(K::from_v(&x[0]), W::from_v(&x[1]));
        }
        r
    }
}

macro_rules! tuples {
    ($(($($i:tt $T:ident),+))+) => { $(
        impl<$($T: Abs),+> Abs for ($($T,)+) {
            fn schema_e() -> S { S::Cont(vec![$($T::schema_e()),+]) }
            fn schema_d() -> S { S::Cont(vec![$($T::schema_d()),+]) }
            fn mem() -> Mem { Mem::All(vec![$($T::mem()),+]) }
            fn abs(&self) -> V { V::S(vec![$(self.$i.abs()),+]) }
            fn from_v(v: &V) -> Self { let v = v.seq(); ($($T::from_v(&v[$i]),)+) }
        }
    )+ }
}
tuples! {
    (0 A, 1 B)
    (0 A, 1 B, 2 C)
    (0 A, 1 B, 2 C, 3 D)
    (0 A, 1 B, 2 C, 3 D, 4 E)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K)
    (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L)
}
