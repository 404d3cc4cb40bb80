//! What is observed of one real type.
use crate::abs::{Abs, Mem};
use crate::alloc::measure;
use crate::val::*;
use ssz::{Decode, Encode, SszEncoder};
use std::fmt::Write;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Outcome of a decoding.
pub enum Out {
    Ok(V),
    Err,
    Panic,
}
impl Out {
    pub fn name(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err => "err",
            Out::Panic => "panic",
        }
    }
    pub fn val(&self) -> Option<&V> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
}

/// An encoding: the value (as observed), its bytes, predicted length, and what decoding the bytes
/// gives (`eq`: the real PartialEq).
pub struct EncObs {
    pub v: V,
    pub b: Option<Vec<u8>>,
    pub len: Option<usize>,
    pub d: Out,
    pub eq: bool,
}

pub struct DecObs {
    pub out: Out,
    /// Encoding of the decoded value.
    pub re: Option<Vec<u8>>,
    pub peak: usize,
    pub maxreq: usize,
}

/// Bytes produced by each entry point for the same value.
pub struct AppObs {
    pub v: V,
    pub outs: Vec<(&'static str, Option<Vec<u8>>)>,
}

pub struct Meta {
    pub ef: bool,
    pub el: usize,
    pub df: bool,
    pub dl: usize,
}

pub trait Ty: Send + Sync {
    /// None if the value could not even be built.
    fn enc(&self, v: &V) -> Option<EncObs>;
    fn dec(&self, b: &[u8]) -> DecObs;
    fn app(&self, v: &V, pre: &[u8]) -> Option<AppObs>;
    fn meta(&self) -> Option<Meta>;
}

struct P<T>(PhantomData<fn() -> T>);

pub fn collect_dec<X>(
    dec: impl FnOnce() -> Option<Result<X, ssz::DecodeError>>,
    abs: impl Fn(&X) -> V,
    enc: impl Fn(&X) -> Vec<u8>,
) -> DecObs {
    let (r, peak, maxreq) = measure(dec);
    match r {
        None => DecObs { out: Out::Panic, re: None, peak, maxreq },
        Some(Err(_)) => DecObs { out: Out::Err, re: None, peak, maxreq },
        Some(Ok(x)) => {
            // A value that cannot be observed without a panic is reported as such.
            match guard(|| abs(&x)) {
                None => DecObs { out: Out::Panic, re: None, peak, maxreq },
                Some(v) => {
                    let re = guard(|| enc(&x));
                    DecObs { out: Out::Ok(v), re, peak, maxreq }
                }
            }
        }
    }
}

impl<T: Abs + Encode + Decode + PartialEq> Ty for P<T> {
    fn enc(&self, v: &V) -> Option<EncObs> {
        let x = guard(|| T::from_v(v))?;
        let ov = guard(|| x.abs())?;
        let b = guard(|| x.as_ssz_bytes());
        let len = guard(|| x.ssz_bytes_len());
        let mut eq = false;
        let d = match &b {
            None => Out::Err,
            Some(b) => match guard(|| T::from_ssz_bytes(b)) {
                None => Out::Panic,
                Some(Err(_)) => Out::Err,
                Some(Ok(y)) => {
                    eq = guard(|| y == x).unwrap_or(false);
                    match guard(|| y.abs()) {
                        Some(v) => Out::Ok(v),
                        None => Out::Panic,
                    }
                }
            },
        };
        Some(EncObs { v: ov, b, len, d, eq })
    }
    fn dec(&self, b: &[u8]) -> DecObs {
        collect_dec(|| guard(|| T::from_ssz_bytes(b)), |x| x.abs(), |x: &T| x.as_ssz_bytes())
    }
    fn app(&self, v: &V, pre: &[u8]) -> Option<AppObs> {
        let x = guard(|| T::from_v(v))?;
        let ov = guard(|| x.abs())?;
        let a = guard(|| Arc::new(T::from_v(v)))?;
        let mut outs = vec![];
        outs.push(("bytes", guard(|| x.as_ssz_bytes())));
        outs.push(("encode", guard(|| ssz::ssz_encode(&x))));
        outs.push(("ref", guard(|| (&x as &T).as_ssz_bytes())));
        outs.push(("refT", guard(|| <&T as Encode>::as_ssz_bytes(&&x))));
        outs.push(("refref", guard(|| ssz::ssz_encode(&&&x))));
        outs.push(("arc", guard(|| a.as_ssz_bytes())));
        outs.push(("arcT", guard(|| <Arc<T> as Encode>::as_ssz_bytes(&a))));
        let app = |f: &dyn Fn(&mut Vec<u8>)| {
            let mut buf = pre.to_vec();
            guard(|| {
                f(&mut buf);
            })
            .map(|_| buf)
        };
        outs.push(("append", app(&|buf| x.ssz_append(buf))));
        outs.push(("append_ref", app(&|buf| <&T as Encode>::ssz_append(&&x, buf))));
        outs.push(("append_arc", app(&|buf| <Arc<T> as Encode>::ssz_append(&a, buf))));
        outs.push((
            "cap",
            guard(|| {
                let mut buf = Vec::with_capacity(pre.len() + 300);
                buf.extend_from_slice(pre);
                x.ssz_append(&mut buf);
                buf
            }),
        ));
        let fl = guard(|| <T as Encode>::ssz_fixed_len()).unwrap_or(0);
        outs.push((
            "cont2",
            app(&|buf| {
                let mut e = SszEncoder::container(buf, 2 * fl);
                e.append(&x);
                e.append(&&x);
                e.finalize();
            }),
        ));
        outs.push((
            "param2",
            app(&|buf| {
                let mut e = SszEncoder::container(buf, 2 * fl);
                e.append_parameterized(<T as Encode>::is_ssz_fixed_len(), |b| x.ssz_append(b));
                e.append_parameterized(<T as Encode>::is_ssz_fixed_len(), |b| a.ssz_append(b));
                e.finalize();
            }),
        ));
        outs.push(("tuple2", app(&|buf| (&x, &a).ssz_append(buf))));
        outs.push(("list2", app(&|buf| vec![&x, &x].ssz_append(buf))));
        outs.push(("some", app(&|buf| Some(&a).ssz_append(buf))));
        Some(AppObs { v: ov, outs })
    }
    fn meta(&self) -> Option<Meta> {
        guard(|| Meta {
            ef: <T as Encode>::is_ssz_fixed_len(),
            el: <T as Encode>::ssz_fixed_len(),
            df: <T as Decode>::is_ssz_fixed_len(),
            dl: <T as Decode>::ssz_fixed_len(),
        })
    }
}

pub struct Entry {
    /// 1-based position in the universe.
    pub id: usize,
    pub se: S,
    pub sd: S,
    pub mem: Mem,
    pub ty: Box<dyn Ty>,
    pub derived: bool,
    pub legacy: bool,
}

pub fn entry<T: Abs + Encode + Decode + PartialEq + 'static>(id: usize, derived: bool) -> Entry {
    Entry {
        id,
        se: T::schema_e(),
        sd: T::schema_d(),
        mem: T::mem(),
        ty: Box::new(P::<T>(PhantomData)),
        derived,
        legacy: false,
    }
}

/// An entry for a module made by `four_byte_option_impl!`.
#[macro_export]
macro_rules! legacy_entry {
    ($id:expr, $m:ident, $t:ty) => {{
        struct L;
        use $crate::ops::{collect_dec, guard, AppObs, DecObs, EncObs, Meta, Out, Ty};
        use $crate::{Abs, S, V};
        impl Ty for L {
            fn enc(&self, v: &V) -> Option<EncObs> {
                let x = guard(|| <Option<$t>>::from_v(v))?;
                let ov = guard(|| x.abs())?;
                let b = guard(|| $m::encode::as_ssz_bytes(&x));
                let len = guard(|| $m::encode::ssz_bytes_len(&x));
                let mut eq = false;
                let d = match &b {
                    None => Out::Err,
                    Some(b) => match guard(|| $m::decode::from_ssz_bytes(b)) {
                        None => Out::Panic,
                        Some(Err(_)) => Out::Err,
                        Some(Ok(y)) => {
                            eq = guard(|| y == x).unwrap_or(false);
                            match guard(|| y.abs()) {
                                Some(v) => Out::Ok(v),
                                None => Out::Panic,
                            }
                        }
                    },
                };
                Some(EncObs { v: ov, b, len, d, eq })
            }
            fn dec(&self, b: &[u8]) -> DecObs {
                collect_dec(
                    || guard(|| $m::decode::from_ssz_bytes(b)),
                    |x: &Option<$t>| x.abs(),
                    |x| $m::encode::as_ssz_bytes(x),
                )
            }
            fn app(&self, v: &V, pre: &[u8]) -> Option<AppObs> {
                let x = guard(|| <Option<$t>>::from_v(v))?;
                let ov = guard(|| x.abs())?;
                let mut outs = vec![];
                outs.push(("bytes", guard(|| $m::encode::as_ssz_bytes(&x))));
                outs.push((
                    "append",
                    guard(|| {
                        let mut buf = pre.to_vec();
                        $m::encode::ssz_append(&x, &mut buf);
                        buf
                    }),
                ));
                outs.push((
                    "param2",
                    guard(|| {
                        let mut buf = pre.to_vec();
                        let mut e =
                            ssz::SszEncoder::container(&mut buf, 2 * $m::encode::ssz_fixed_len());
                        e.append_parameterized($m::encode::is_ssz_fixed_len(), |b| {
                            $m::encode::ssz_append(&x, b)
                        });
                        e.append_parameterized($m::encode::is_ssz_fixed_len(), |b| {
                            $m::encode::ssz_append(&x, b)
                        });
                        e.finalize();
                        buf
                    }),
                ));
                Some(AppObs { v: ov, outs })
            }
            fn meta(&self) -> Option<Meta> {
                guard(|| Meta {
                    ef: $m::encode::is_ssz_fixed_len(),
                    el: $m::encode::ssz_fixed_len(),
                    df: $m::decode::is_ssz_fixed_len(),
                    dl: $m::decode::ssz_fixed_len(),
                })
            }
        }
        $crate::Entry {
            id: $id,
            se: S::Legacy(Box::new(<$t as Abs>::schema_e())),
            sd: S::Legacy(Box::new(<$t as Abs>::schema_d())),
            mem: <Option<$t> as Abs>::mem(),
            ty: Box::new(L),
            derived: false,
            legacy: true,
        }
    }};
}

// ---------------------------------------------------------------------------------------------
// Events.

fn opt_bytes(b: &Option<Vec<u8>>, o: &mut String) {
    match b {
        Some(b) => json_bytes(b, o),
        None => o.push_str("[]"),
    }
}

impl EncObs {
    pub fn json(&self, id: usize) -> String {
        let mut o = String::new();
        write!(o, r#"{{"op":"enc","ty":{id},"v":"#).unwrap();
        self.v.json(&mut o);
        write!(o, r#","o":"{}","b":"#, if self.b.is_some() { "ok" } else { "panic" }).unwrap();
        opt_bytes(&self.b, &mut o);
        write!(o, r#","len":{},"d":"{}""#, self.len.map(|x| x as i64).unwrap_or(-1), self.d.name())
            .unwrap();
        if let Out::Ok(v) = &self.d {
            o.push_str(r#","dv":"#);
            v.json(&mut o);
        }
        write!(o, r#","eq":{}}}"#, self.eq).unwrap();
        o
    }
}

impl DecObs {
    pub fn json(&self, id: usize, b: &[u8]) -> String {
        let mut o = String::new();
        write!(o, r#"{{"op":"dec","ty":{id},"b":"#).unwrap();
        json_bytes(b, &mut o);
        write!(o, r#","o":"{}""#, self.out.name()).unwrap();
        if let Out::Ok(v) = &self.out {
            o.push_str(r#","v":"#);
            v.json(&mut o);
            write!(o, r#","ro":"{}","re":"#, if self.re.is_some() { "ok" } else { "panic" })
                .unwrap();
            opt_bytes(&self.re, &mut o);
        }
        write!(o, r#","pk":{},"mx":{}}}"#, self.peak.min(TLC_MAX), self.maxreq.min(TLC_MAX)).unwrap();
        o
    }
}

/// The largest integer of TLC.
const TLC_MAX: usize = i32::MAX as usize;

/// A decoding of a long input, for the allocation bound only.
pub fn mem_json(id: usize, len: usize, d: &DecObs) -> String {
    format!(
        r#"{{"op":"mem","ty":{id},"n":{len},"o":"{}","pk":{},"mx":{}}}"#,
        d.out.name(),
        d.peak.min(TLC_MAX),
        d.maxreq.min(TLC_MAX)
    )
}

impl AppObs {
    pub fn json(&self, id: usize, pre: &[u8]) -> String {
        let mut o = String::new();
        write!(o, r#"{{"op":"app","ty":{id},"v":"#).unwrap();
        self.v.json(&mut o);
        o.push_str(r#","pre":"#);
        json_bytes(pre, &mut o);
        o.push_str(r#","outs":["#);
        for (i, (n, b)) in self.outs.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            write!(o, r#"{{"n":"{n}","o":"{}","b":"#, if b.is_some() { "ok" } else { "panic" })
                .unwrap();
            opt_bytes(b, &mut o);
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

impl Meta {
    pub fn json(m: &Option<Meta>, id: usize) -> String {
        match m {
            None => format!(r#"{{"op":"meta","ty":{id},"o":"panic"}}"#),
            Some(m) => format!(
                r#"{{"op":"meta","ty":{id},"o":"ok","ef":{},"el":{},"df":{},"dl":{}}}"#,
                m.ef, m.el, m.df, m.dl
            ),
        }
    }
}
