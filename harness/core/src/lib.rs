pub mod abs;
pub mod alloc;
pub mod cases;
pub mod codecs;
pub mod gen;
pub mod mirror;
pub mod ops;
pub mod run;
pub mod val;
pub use abs::{Abs, Mem};
pub use ops::{entry, Entry};
pub use val::{S, V};

pub use alloy_primitives;
pub use smallvec;
pub use typenum;
