//! Decodes one nested value of a recursive type: deep <definition> <depth>; or measures the memory
//! that decoding such values takes: deep mem <trace> <journal> <seed> <rounds>.
use ssz::{Decode, Encode};
use ssz_derive::{Decode, Encode};
use std::io::Write;
use std::sync::Arc;
use vcore::alloc::{journal_set, measure, open_journal, set_slot, Counting};
use vcore::gen::Rng;

#[global_allocator]
static A: Counting = Counting;

#[derive(Encode, Decode)]
struct Tree {
    kids: Vec<Tree>,
}

#[derive(Encode, Decode)]
struct Node {
    v: u8,
    next: Option<Arc<Node>>,
}

#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
enum Chain {
    End(u8),
    Link(Arc<Chain>),
}

/// The encoding of the value with `d` levels.
fn nested(def: &str, d: usize) -> Vec<u8> {
    match def {
        // the offset of the only part, then that part, which is a list of one tree
        "Tree" => [4u8, 0, 0, 0].repeat(2 * d + 1),
        "Node" => {
            let mut b = vec![];
            for _ in 0..d {
                b.extend([9, 5, 0, 0, 0, 1]);
            }
            b.extend([9, 5, 0, 0, 0, 0]);
            b
        }
        "Chain" => {
            let mut b = vec![1; d];
            b.extend([0, 7]);
            b
        }
        _ => panic!(),
    }
}

fn go<T: Encode + Decode>(b: &[u8]) -> ! {
    let r = std::panic::catch_unwind(|| match T::from_ssz_bytes(b) {
        Ok(v) => {
            // dropping and encoding are recursive as well, and not decoding
            std::mem::forget(v);
            "ok"
        }
        Err(_) => "err",
    });
    print!("{}", r.unwrap_or("panic"));
    std::process::exit(0)
}

/// A list of `k` trees of which each has `j` kids.
fn wide(k: usize, j: usize) -> Vec<u8> {
    let kid = |n: usize, inner: &[u8]| {
        let mut b = vec![4, 0, 0, 0];
        for i in 0..n {
            b.extend(((4 * n + i * inner.len()) as u32).to_le_bytes());
        }
        for _ in 0..n {
            b.extend(inner);
        }
        b
    };
    kid(k, &kid(j, &[4, 0, 0, 0]))
}

fn one<T: Decode>(def: &str, b: &[u8], out: &mut impl Write) {
    journal_set(1, b);
    // dropping is recursive as well, and not decoding
    let (r, pk, mx) = measure(|| {
        std::panic::catch_unwind(|| T::from_ssz_bytes(b).map(std::mem::ManuallyDrop::new).map_err(|_| ()))
    });
    let o = match &r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    writeln!(out, r#"{{"op":"rec","def":"{def}","n":{},"o":"{o}","pk":{pk},"mx":{mx}}}"#, b.len()).unwrap();
}

fn memory<T: Decode>(def: &str, out: &mut impl Write, seed: u64, rounds: usize) {
    let mut r = Rng::new(seed);
    for d in [0, 1, 2, 5, 10, 50, 100, 500, 1000, 4000] {
        let b = nested(def, d);
        one::<T>(def, &b, out);
        one::<T>(def, &b[..b.len() - 1], out);
        let mut c = b.clone();
        *c.last_mut().unwrap() = 0xff;
        one::<T>(def, &c, out);
        c.extend([0; 7]);
        one::<T>(def, &c, out);
    }
    if def == "Tree" {
        for (k, j) in [(1, 0), (3, 2), (100, 0), (2, 100), (1000, 5), (5000, 0), (60, 60)] {
            one::<T>(def, &wide(k, j), out);
        }
    }
    for _ in 0..rounds {
        let d = r.below(120);
        let mut b = if def == "Tree" && r.chance(1, 3) { wide(1 + r.below(9), r.below(9)) } else { nested(def, d) };
        for _ in 0..1 + r.below(3) {
            let k = r.below(b.len());
            b[k] = [0xff, 0x7f, 0x80, 1, 4, r.next() as u8][r.below(6)];
        }
        one::<T>(def, &b, out);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "mem" {
        std::panic::set_hook(Box::new(|_| {}));
        open_journal(&a[3], 1);
        let (seed, rounds) = (a[4].parse().unwrap(), a[5].parse().unwrap());
        let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
        let t = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
            set_slot(0);
            memory::<Tree>("Tree", &mut out, seed, rounds);
            memory::<Node>("Node", &mut out, seed, rounds);
            memory::<Chain>("Chain", &mut out, seed, rounds);
            out.flush().unwrap();
        });
        return t.unwrap().join().unwrap();
    }
    let b = nested(&a[1], a[2].parse().unwrap());
    match &a[1][..] {
        "Tree" => go::<Tree>(&b),
        "Node" => go::<Node>(&b),
        _ => go::<Chain>(&b),
    }
}
