//! C13: keys are a faithful encoding of symbols (the bit-precise contracts are in kani/lib.rs; these are the typed symbols users
//! make, the printed text, and the inputs on which a refuted bit-precise contract is replayed).
mod common;
use common::*;
use factrs::containers::{DefaultSymbol, Key, Symbol, Values};
use factrs::symbols;

fn key<S: Symbol>(s: S) -> Key {
    s.into()
}
fn one(c: char, i: u64) {
    let k = key(DefaultSymbol::new(c, i));
    let back = DefaultSymbol::from(k);
    let text = format!("{back:?}");
    if text != format!("({c}, {i})") || format!("{:?}", DefaultSymbol::new(c, i)) != text {
        ensures_fact(&format!("the text of the key of ({c:?}, {i}) shows its character and index (it is {text})"), false);
    }
    let again = key(back);
    if again != k {
        ensures_fact(&format!("decoding and encoding the key of ({c:?}, {i}) gives the same key"), false);
    }
}
const INDICES: [u64; 14] = [0, 1, 7, 10, 255, 256, 65535, 65536, 1 << 24, (1 << 24) + 77, 1 << 31, (1 << 31) + 3, 4294967294, 4294967295];
fn codes() {
    for c in (0..0x3000u32).step_by(3).chain((0x3000..0x110000).step_by(1021)).chain([0xd7ff, 0xe000, 0x10ffff, 0x7f, 0x80]).filter_map(char::from_u32) {
        for i in INDICES {
            one(c, i);
        }
    }
    ensures_fact("every key decodes to the symbol it was made from", true);
}
fn distinct() {
    let mut seen = std::collections::HashMap::new();
    for c in ('\u{0}'..'\u{17f}').chain(['\u{fffd}', '\u{10ffff}', '\u{10000}', '\u{8000}']) {
        for i in INDICES {
            if let Some(old) = seen.insert(key(DefaultSymbol::new(c, i)).0, (c, i)) {
                ensures_fact(&format!("{:?} and {:?} have different keys", old, (c, i)), false);
            }
        }
    }
    ensures_fact("different symbols have different keys", seen.len() == INDICES.len() * (0x17f + 4));
}
/// a symbol pair given from outside, where the bit-precise back end found it
fn given() {
    let v: Vec<u64> = std::env::var("C13_INPUT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
    let c = |k: usize| v.get(k).and_then(|x| char::from_u32(*x as u32)).unwrap_or('x');
    let i = |k: usize| v.get(k).copied().unwrap_or(7);
    one(c(0), i(1));
    let same = key(DefaultSymbol::new(c(0), i(1))) == key(DefaultSymbol::new(c(2), i(3)));
    ensures_fact(&format!("{:?} and {:?} share a key exactly when they are equal", (c(0), i(1)), (c(2), i(3))), same == (c(0) == c(2) && i(1) == i(3)));
    ensures_fact("a key used as a symbol is itself", key(Key(i(1))).0 == i(1));
    typed_at(i(1));
}
mod mine {
    use factrs::variables::{VectorVar1, SE2, SO2};
    use factrs::assign_symbols;
    assign_symbols!(Pose: SE2; Bias: SO2, VectorVar1; Éa: SO2);
    assign_symbols!(Landmark, Q);
}
fn typed_at(i: u64) {
    macro_rules! built_in {
        ($($S:ident $c:literal),*) => {$(
            ensures_fact(concat!("the built-in symbol ", stringify!($S), " encodes its letter and index"), key(symbols::$S(i)) == key(DefaultSymbol::new($c, i)));
            ensures_fact(concat!("the built-in symbol ", stringify!($S), " prints its letter and index"), format!("{:?}", symbols::$S(i)) == format!("({}, {i})", $c));
        )*};
    }
    built_in!(A 'a', B 'b', C 'c', D 'd', E 'e', F 'f', G 'g', H 'h', I 'i', J 'j', K 'k', L 'l', M 'm', N 'n', O 'o', P 'p', Q 'q', R 'r', S 's', T 't', U 'u', V 'v', W 'w', X 'x', Y 'y', Z 'z');
}
fn typed() {
    for i in INDICES {
        typed_at(i);
        let user = [(key(mine::Pose(i)), 'p', format!("{:?}", mine::Pose(i))), (key(mine::Bias(i)), 'b', format!("{:?}", mine::Bias(i))), (key(mine::Landmark(i)), 'l', format!("{:?}", mine::Landmark(i))), (key(mine::Q(i)), 'q', format!("{:?}", mine::Q(i))), (key(mine::Éa(i)), 'é', format!("{:?}", mine::Éa(i)))];
        for (k, c, text) in user {
            ensures_fact(&format!("a user's symbol encodes its first letter ({c}) and index"), k == key(DefaultSymbol::new(c, i)));
            ensures_fact(&format!("a user's symbol prints its first letter ({c}) and index"), text == format!("({c}, {i})"));
        }
    }
}
/// the key is all that values know of a symbol
fn values() {
    let mut v = Values::new();
    let (a, b) = (SE2::any("a"), SE2::any("b"));
    v.insert(mine::Pose(3), a.clone());
    v.insert_unchecked(symbols::X(3), b.clone());
    ensures_fact("two symbols, two variables", v.len() == 2);
    if let (Some(x), Some(y)) = (v.get_unchecked::<_, SE2>(DefaultSymbol::new('p', 3)), v.get_unchecked::<_, SE2>(Key(key(symbols::X(3)).0))) {
        same("the variable under the first symbol", x, &a);
        same("the variable under the second symbol", y, &b);
    } else {
        ensures_fact("both are found through any symbol with the same key", false);
    }
    ensures_fact("another index is another variable", v.get_unchecked::<_, SE2>(symbols::X(4)).is_none() && v.get(mine::Pose(2)).is_none());
}
const K: &[Contract] = &[
    Contract { name: "codes", functions: "DefaultSymbol::new, From<DefaultSymbol> for Key, From<Key> for DefaultSymbol, Debug for DefaultSymbol", bounded: "sampled characters and indices (the bit-precise contracts cover all)", run: codes },
    Contract { name: "distinct", functions: "DefaultSymbol::new, From<DefaultSymbol> for Key", bounded: "sampled characters and indices (the bit-precise contract covers all pairs)", run: distinct },
    Contract { name: "given", functions: "DefaultSymbol, Key, factrs::symbols", bounded: "one pair", run: given },
    Contract { name: "typed", functions: "assign_symbols!", bounded: "five user symbols, fourteen indices", run: typed },
    Contract { name: "values", functions: "Values::{insert, insert_unchecked, get, get_unchecked}", bounded: "one set of values; contents arbitrary", run: values },
];
fn main() {
    run_all(K)
}
