//! Abstract values and schemas, as in SszSchema.tla / SszCodec.tla.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// Bytes, digits (most significant first) or bits.
    B(Vec<u8>),
    I(u32),
    S(Vec<V>),
    /// Union / transparent enum value: 0-based variant and its value.
    T(u32, Box<V>),
}

impl V {
    pub fn seq(&self) -> &[V] {
        match self {
            V::S(s) => s,
            V::B(b) if b.is_empty() => &[],
            _ => panic!("not a sequence: {self:?}"),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            V::B(b) => b,
            V::S(s) if s.is_empty() => &[],
            _ => panic!("not bytes: {self:?}"),
        }
    }
    pub fn int(&self) -> u32 {
        match self {
            V::I(i) => *i,
            _ => panic!("not int: {self:?}"),
        }
    }
    pub fn json(&self, o: &mut String) {
        match self {
            V::B(b) => json_bytes(b, o),
            V::I(i) => write!(o, "{i}").unwrap(),
            V::S(s) => {
                o.push('[');
                for (i, x) in s.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.json(o);
                }
                o.push(']');
            }
            V::T(i, x) => {
                write!(o, "[{i},").unwrap();
                x.json(o);
                o.push(']');
            }
        }
    }
    /// Rough size, for trace budgets.
    pub fn weight(&self) -> usize {
        match self {
            V::B(b) => 1 + b.len(),
            V::I(_) => 1,
            V::S(s) => 1 + s.iter().map(|x| x.weight()).sum::<usize>(),
            V::T(_, x) => 1 + x.weight(),
        }
    }
}

pub fn json_bytes(b: &[u8], o: &mut String) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        write!(o, "{x}").unwrap();
    }
    o.push(']');
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Uint(usize),
    Nz(usize),
    Bool,
    BytesN(usize),
    Bytes,
    List(Box<S>),
    Set(Box<S>),
    Map(Box<S>, Box<S>),
    Cont(Vec<S>),
    Trans(Vec<S>),
    /// Transparent, in descending order.
    Desc(Vec<S>),
    Skip(Box<S>),
    Opt(Box<S>),
    Legacy(Box<S>),
    Union(Vec<S>),
    TEnum(Vec<S>),
    Tag(usize),
    BitVec(usize),
    BitList(usize),
    BitDyn,
    UintBe(usize),
    Uint24,
    FixBytes(usize),
    VarU8,
    RevBytes,
}

impl S {
    pub fn live(f: &[S]) -> impl Iterator<Item = (usize, &S)> {
        f.iter().enumerate().filter(|(_, s)| !matches!(s, S::Skip(_)))
    }
    pub fn wrapped(f: &[S]) -> (usize, &S) {
        S::live(f).next().unwrap()
    }
    pub fn fixed(&self) -> bool {
        match self {
            S::Uint(_) | S::Nz(_) | S::Bool | S::BytesN(_) | S::Tag(_) | S::BitVec(_)
            | S::UintBe(_) | S::Uint24 | S::FixBytes(_) => true,
            S::Cont(f) => S::live(f).all(|(_, s)| s.fixed()),
            S::Trans(f) | S::Desc(f) => S::wrapped(f).1.fixed(),
            _ => false,
        }
    }
    pub fn flen(&self) -> usize {
        match self {
            S::Uint(n) | S::Nz(n) | S::BytesN(n) | S::UintBe(n) | S::FixBytes(n) => *n,
            S::Bool | S::Tag(_) => 1,
            S::Uint24 => 3,
            S::BitVec(n) => bfb(*n),
            S::Cont(f) if self.fixed() => S::live(f).map(|(_, s)| s.flen()).sum(),
            S::Trans(f) | S::Desc(f) => S::wrapped(f).1.flen(),
            _ => 4,
        }
    }
    pub fn item(&self) -> S {
        match self {
            S::List(e) | S::Set(e) => (**e).clone(),
            S::Map(k, v) => S::Cont(vec![(**k).clone(), (**v).clone()]),
            _ => panic!(),
        }
    }
    pub fn any(&self, p: &dyn Fn(&S) -> bool) -> bool {
        p(self)
            || match self {
                S::List(e) | S::Set(e) | S::Skip(e) | S::Opt(e) | S::Legacy(e) => e.any(p),
                S::Map(k, v) => k.any(p) || v.any(p),
                S::Cont(f) | S::Trans(f) | S::Desc(f) | S::Union(f) | S::TEnum(f) => f.iter().any(|s| s.any(p)),
                _ => false,
            }
    }
    pub fn zero_items(&self) -> bool {
        self.any(&|s| match s {
            S::List(_) | S::Set(_) | S::Map(_, _) => {
                let i = s.item();
                i.fixed() && i.flen() == 0
            }
            _ => false,
        })
    }
    pub fn has_tenum(&self) -> bool {
        self.any(&|s| matches!(s, S::TEnum(_)))
    }
    pub fn has_mapset(&self) -> bool {
        self.any(&|s| matches!(s, S::Map(_, _) | S::Set(_)))
    }
    pub fn has_skip(&self) -> bool {
        self.any(&|s| matches!(s, S::Skip(_)))
    }
}

pub fn bfb(n: usize) -> usize {
    std::cmp::max(1, n.div_ceil(8))
}
