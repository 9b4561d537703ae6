//! Bit-precise contracts (Kani, CBMC back end) on the real crate: no loops in the functions under contract, so every input is
//! covered.
#![cfg(kani)]
use factrs::containers::{DefaultSymbol, Key, Symbol};
use std::fmt::Write;

fn index() -> u64 {
    kani::any::<u32>() as u64
}
/// C13: decoding a key and encoding it again gives the same key
#[kani::proof]
fn c13_round_trip() {
    let c: char = kani::any();
    let i = index();
    let k: Key = DefaultSymbol::new(c, i).into();
    let k2: Key = DefaultSymbol::from(k).into();
    assert!(k == k2, "decoding a key and encoding it again gives the same key");
    kani::cover!(i > 70000 && c > 'z', "reached");
}
/// C13: two symbols share a key exactly when they have the same character and index
#[kani::proof]
fn c13_injective() {
    let (c, i): (char, u64) = (kani::any(), index());
    let (d, j): (char, u64) = (kani::any(), index());
    let k: Key = DefaultSymbol::new(c, i).into();
    let l: Key = DefaultSymbol::new(d, j).into();
    assert!((k == l) == (c == d && i == j), "two symbols share a key exactly when they have the same character and index");
    kani::cover!(c != d && i != j, "reached");
    kani::cover!(c == d && i == j, "reached");
}
/// C13: a key used as a symbol is itself
#[kani::proof]
fn c13_key() {
    let x: u64 = kani::any();
    fn through<S: Symbol>(s: S) -> Key {
        s.into()
    }
    assert!(through(Key(x)).0 == x, "a key used as a symbol is itself");
}
macro_rules! typed {
    ($($S:ident $c:literal),*) => {
        /// C13: a built-in symbol encodes its own lower-case letter and its index
        #[kani::proof]
        #[kani::unwind(6)]
        fn c13_typed() {
            let i = index();
            $({
                let k: Key = factrs::symbols::$S(i).into();
                let l: Key = DefaultSymbol::new($c, i).into();
                assert!(k == l, "a built-in symbol encodes its own letter and its index");
            })*
        }
    };
}
typed!(A 'a', B 'b', C 'c', D 'd', E 'e', F 'f', G 'g', H 'h', I 'i', J 'j', K 'k', L 'l', M 'm', N 'n', O 'o', P 'p', Q 'q', R 'r', S 's', T 't', U 'u', V 'v', W 'w', X 'x', Y 'y', Z 'z');

struct W {
    n: usize,
    b: [u8; 32],
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for x in s.as_bytes() {
            self.b[self.n] = *x;
            self.n += 1;
        }
        Ok(())
    }
}
fn text(c: char, i: u64) -> W {
    let k: Key = DefaultSymbol::new(c, i).into();
    let mut w = W { n: 0, b: [0; 32] };
    let ok = write!(w, "{:?}", DefaultSymbol::from(k)).is_ok();
    assert!(ok, "printing succeeds");
    w
}
/// C13: the text of a decoded key shows the character it was made from, for every character
#[kani::proof]
#[kani::unwind(13)]
fn c13_text_char() {
    let c: char = kani::any();
    let w = text(c, 7);
    let mut u = [0u8; 4];
    let n = c.encode_utf8(&mut u).len();
    assert!(w.n == n + 5 && w.b[0] == b'(' && w.b[n + 1] == b',' && w.b[n + 2] == b' ' && w.b[n + 3] == b'7' && w.b[n + 4] == b')', "the text shows the index");
    assert!((0..n).all(|t| w.b[1 + t] == u[t]), "the text shows the character");
}
/// C13: and the index, whatever byte of it is set
#[kani::proof]
#[kani::unwind(13)]
fn c13_text_index() {
    let i = kani::any::<u8>() as u64;
    let w = text('x', i);
    let mut v = 0u64;
    let mut at = 4;
    while w.b[at] != b')' {
        v = v * 10 + (w.b[at] - b'0') as u64;
        at += 1;
    }
    assert!(w.b[1] == b'x' && v == i && at + 1 == w.n, "the text shows the index");
}
