//! What a program made for one declaration says about it, in the lines of
//! spec/Trace.tla.  Everything is observed through the public API.
use enumset::{EnumSet, EnumSetType};
use std::fmt::Write as _;
use std::io::Write as _;
pub use enumset;
#[cfg(feature = "serde")]
mod ser;
#[cfg(feature = "serde")]
#[path = "../../harness/src/tok.rs"]
mod tok;
#[cfg(feature = "serde")]
pub use ser::observe_serde;

/// One declaration: the discriminants of the specification, and the enum's
/// own (`v as i64`) ones.
pub struct Decl<T: 'static> {
    pub id: usize,
    pub line: &'static str,
    pub table: &'static [(T, i64, i64)],
    pub disc: fn(T) -> i64,
    pub has_repr: i64,
    pub has_ops: i64,
}

fn emit(id: usize, op: &str, r: &str, post: &str) {
    emit_k(id, op, "ok", r, post)
}
fn emit_k(id: usize, op: &str, k: &str, r: &str, post: &str) {
    let out = std::io::stdout();
    let mut out = out.lock();
    // One write per line: what was said before a crash remains.
    let s = format!("{{\"id\":{id},{op},\"obs\":[{{\"k\":\"{k}\",\"r\":{r},\"post\":{post}}}]}}\n");
    let _ = out.write_all(s.as_bytes());
}
pub fn begin(id: usize, line: &str) {
    println!("{{\"id\":{id},\"op\":\"decl\",{line}}}");
}
pub fn line(id: usize, op: &str, r: &str, post: &str) {
    emit(id, op, r, post)
}
pub fn ints(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (n, x) in v.iter().enumerate() {
        let _ = write!(s, "{}{x}", if n > 0 { "," } else { "" });
    }
    s + "]"
}
fn words(ws: &[u64]) -> String {
    let v: Vec<String> =
        ws.iter().map(|w| ints(&(0..64).filter(|b| w >> b & 1 == 1).collect::<Vec<_>>())).collect();
    format!("[{}]", v.join(","))
}

/// The ascending discriminants of the variants in the set, then -1 if it is
/// not the set of exactly these.
pub fn project<T: EnumSetType>(s: EnumSet<T>, table: &[(T, i64)]) -> Vec<i64> {
    let mut again = EnumSet::<T>::empty();
    let mut v = vec![];
    for &(x, d) in table {
        if s.contains(x) {
            again.insert(x);
            v.push(d);
        }
    }
    v.sort();
    if again != s || s.len() != v.len() {
        v.push(-1);
    }
    v
}

pub fn observe<T: EnumSetType>(d: &Decl<T>) {
    let table: Vec<(T, i64)> = d.table.iter().map(|x| (x.0, x.1)).collect();
    let len = table.iter().map(|x| x.1 as usize / 64 + 1).max().unwrap_or(1) + 1;
    begin(d.id, d.line);
    let id = d.id;
    emit(id, "\"op\":\"has_repr\"", &d.has_repr.to_string(), "[]");
    emit(id, "\"op\":\"has_ops\"", &d.has_ops.to_string(), "[]");
    emit(id, "\"op\":\"vcount\"", &EnumSet::<T>::variant_count().to_string(), "[]");
    emit(id, "\"op\":\"bwidth\"", &EnumSet::<T>::bit_width().to_string(), "[]");
    let look = |reg: usize, s: EnumSet<T>| {
        emit(id, &format!("\"op\":\"len\",\"a\":{reg}"), &s.len().to_string(), "[]");
        let mut buf = vec![0u64; len];
        s.copy_into_slice_truncated(&mut buf);
        let zero = vec!["[]"; len].join(",");
        let op = format!("\"op\":\"into_slice\",\"a\":{reg},\"mode\":\"trunc\",\"ws\":[{zero}]");
        emit(id, &op, &words(&buf), "[]");
        emit(id, &format!("\"op\":\"iter\",\"i\":1,\"a\":{reg}"), "0", "[]");
        let it: Vec<i64> = s.iter().map(d.disc).collect();
        emit(id, "\"op\":\"rest\",\"i\":1", &ints(&it), "[]");
        if reg == 2 {
            emit(id, &format!("\"op\":\"iter\",\"i\":2,\"a\":{reg}"), "0", "[]");
            let it: Vec<i64> = s.iter().rev().map(d.disc).collect();
            emit(id, "\"op\":\"rest_back\",\"i\":2", &ints(&it), "[]");
        }
    };
    let all = EnumSet::<T>::all();
    emit(id, "\"op\":\"all\",\"d\":1", "0", &format!("[[1,{}]]", ints(&project(all, &table))));
    look(1, all);
    for &(v, want, own) in d.table {
        emit(id, &format!("\"op\":\"disc\",\"v\":{want}"), &own.to_string(), "[]");
        let s = EnumSet::only(v);
        emit(id, &format!("\"op\":\"single\",\"d\":2,\"v\":{want}"), "0", &format!("[[2,{}]]", ints(&project(s, &table))));
        look(2, s);
    }
}

/// Does the type have the conversions of a representation?
pub struct Ask<T>(pub core::marker::PhantomData<T>);
pub trait NoRepr {
    const WIDTH: i64 = 0;
}
impl<T> NoRepr for Ask<T> {}
impl<T: enumset::EnumSetTypeWithRepr> Ask<T> {
    pub const WIDTH: i64 = core::mem::size_of::<<T as enumset::EnumSetTypeWithRepr>::Repr>() as i64;
}
/// Does the type have an operator?
macro_rules! ask {
    ($no:ident $ask:ident $($bound:tt)*) => {
        pub struct $ask<T>(pub core::marker::PhantomData<T>);
        pub trait $no {
            const HAS: i64 = 0;
        }
        impl<T> $no for $ask<T> {}
        impl<T: EnumSetType + $($bound)*> $ask<T> {
            pub const HAS: i64 = 1;
        }
    };
}
ask!(NoOr AskOr core::ops::BitOr<Output = EnumSet<T>>);
ask!(NoAnd AskAnd core::ops::BitAnd<Output = EnumSet<T>>);
ask!(NoXor AskXor core::ops::BitXor<Output = EnumSet<T>>);
ask!(NoSub AskSub core::ops::Sub<Output = EnumSet<T>>);
ask!(NoNot AskNot core::ops::Not<Output = EnumSet<T>>);
ask!(NoEqs AskEqs PartialEq<EnumSet<T>>);

/// 1 if all operators are there, 0 if none is, else 2.
pub const fn ops(v: [i64; 6]) -> i64 {
    let mut i = 0;
    let mut n = 0;
    while i < 6 {
        n += v[i];
        i += 1;
    }
    if n == 6 {
        1
    } else if n == 0 {
        0
    } else {
        2
    }
}
#[macro_export]
macro_rules! has_ops {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::{NoAnd, NoEqs, NoNot, NoOr, NoSub, NoXor};
        $crate::ops([
            $crate::AskOr::<$t>::HAS,
            $crate::AskAnd::<$t>::HAS,
            $crate::AskXor::<$t>::HAS,
            $crate::AskSub::<$t>::HAS,
            $crate::AskNot::<$t>::HAS,
            $crate::AskEqs::<$t>::HAS,
        ])
    }};
}
#[macro_export]
macro_rules! has_repr {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::NoRepr;
        $crate::Ask::<$t>::WIDTH
    }};
}
