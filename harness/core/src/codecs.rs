//! Custom field codecs for `#[ssz(with = "..")]`: the kinds uintbe, uint24, fixbytes, varu8 and
//! revbytes of SszSchema.tla.
macro_rules! codec {
    ($name:ident, $ty:ty, $fixed:expr, $flen:expr, |$x:ident| $len:expr, |$y:ident, $buf:ident| $app:expr,
     |$b:ident| $de:expr) => {
        pub mod $name {
            #[allow(unused_imports)]
            use ssz::DecodeError;
            pub mod encode {
                #[allow(unused_imports)]
                use super::super::*;
                pub fn is_ssz_fixed_len() -> bool {
                    $fixed
                }
                pub fn ssz_fixed_len() -> usize {
                    $flen
                }
                #[allow(unused_variables)]
                pub fn ssz_bytes_len($x: &$ty) -> usize {
                    $len
                }
                pub fn ssz_append($y: &$ty, $buf: &mut Vec<u8>) {
                    $app
                }
            }
            pub mod decode {
                #[allow(unused_imports)]
                use super::super::*;
                pub fn is_ssz_fixed_len() -> bool {
                    $fixed
                }
                pub fn ssz_fixed_len() -> usize {
                    $flen
                }
                pub fn from_ssz_bytes($b: &[u8]) -> Result<$ty, ssz::DecodeError> {
                    $de
                }
            }
        }
    };
}
use alloy_primitives::Bytes;

fn bad<T>() -> Result<T, ssz::DecodeError> {
    Err(ssz::DecodeError::BytesInvalid(String::new()))
}

codec!(be, u32, true, 4, |x| 4, |x, buf| buf.extend_from_slice(&x.to_be_bytes()), |b| {
    match b.try_into() {
        Ok(a) => Ok(u32::from_be_bytes(a)),
        Err(_) => bad(),
    }
});
codec!(u24, u32, true, 3, |x| 3, |x, buf| buf.extend_from_slice(&x.to_le_bytes()[..3]), |b| {
    if b.len() == 3 {
        Ok(u32::from_le_bytes([b[0], b[1], b[2], 0]))
    } else {
        bad()
    }
});
codec!(fix2, Bytes, true, 2, |x| 2, |x, buf| buf.extend_from_slice(&x.0), |b| {
    if b.len() == 2 {
        Ok(Bytes::from(b.to_vec()))
    } else {
        bad()
    }
});
codec!(varu8, u8, false, 4, |x| 1, |x, buf| buf.push(*x), |b| {
    if b.len() == 1 {
        Ok(b[0])
    } else {
        bad()
    }
});
codec!(
    rev,
    Bytes,
    false,
    4,
    |x| x.0.len(),
    |x, buf| buf.extend(x.0.iter().rev()),
    |b| Ok(Bytes::from(b.iter().rev().copied().collect::<Vec<u8>>()))
);
