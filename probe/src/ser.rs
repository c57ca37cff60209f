//! What serde sees of the sets of a declaration.
use crate::tok::{De, Hint, Ser, Tok};
use crate::{emit_k, ints, project, Decl};
use enumset::{EnumSet, EnumSetType};
use serde::{Deserialize, Serialize};

fn width(kind: &str) -> i64 {
    match kind {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        "u64" => 64,
        "u128" => 128,
        _ => 0,
    }
}
fn bits(x: u128) -> String {
    ints(&(0..128).filter(|b| x >> b & 1 == 1).collect::<Vec<_>>())
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
/// A document as the specification writes it; elements become discriminants.
fn doc(t: &Tok, kind: &str, disc: &dyn Fn(&Tok) -> i64) -> String {
    match t {
        Tok::Int(w, x) => format!("{{\"t\":\"int\",\"w\":{w},\"bits\":{}}}", bits(*x)),
        Tok::Seq(v) if kind == "list" || v.iter().any(|x| !matches!(x, Tok::Int(64, _))) => {
            format!("{{\"t\":\"list\",\"vs\":{}}}", ints(&v.iter().map(disc).collect::<Vec<_>>()))
        }
        Tok::Seq(v) => {
            let ws = list(v.iter().map(|x| if let Tok::Int(_, x) = x { bits(*x) } else { bits(0) }));
            format!("{{\"t\":\"words\",\"ws\":{ws}}}")
        }
        Tok::Map(v) => {
            let es = list(v.iter().map(|(k, x)| format!("[{},{}]", disc(k), *x == Tok::Bool(true))));
            format!("{{\"t\":\"map\",\"es\":{es}}}")
        }
        _ => "{\"t\":\"bad\"}".into(),
    }
}

pub fn observe_serde<T: EnumSetType>(d: &Decl<T>, kind: &str) {
    let table: Vec<(T, i64)> = d.table.iter().map(|x| (x.0, x.1)).collect();
    let disc = |t: &Tok| match t {
        Tok::Variant(i, _) => table.get(*i as usize).map_or(-3, |x| x.1),
        _ => -4,
    };
    let id = d.id;
    let mut sets = vec![EnumSet::<T>::empty(), EnumSet::all()];
    sets.extend(table.iter().take(40).map(|x| EnumSet::only(x.0)));
    sets.push(table.iter().step_by(2).map(|x| x.0).collect());
    sets.push(table.iter().skip(1).map(|x| x.0).collect());
    let post = |reg: i64, s: EnumSet<T>| format!("[[{reg},{}]]", ints(&project(s, &table)));
    for &s in &sets {
        let op = format!("\"op\":\"load\",\"d\":1,\"vs\":{}", ints(&project(s, &table)));
        emit_k(id, &op, "ok", "0", &post(1, s));
        for human in [true, false] {
            match s.serialize(Ser(human)) {
                Ok(t) => {
                    emit_k(id, "\"op\":\"ser\",\"a\":1", "ok", &doc(&t, kind, &disc), "[]");
                    let back = EnumSet::<T>::deserialize(De { tok: t, human, hint: if human { Hint::Exact } else { Hint::Huge } });
                    let op = "\"op\":\"roundtrip\",\"d\":2,\"a\":1";
                    match back {
                        Ok(b) => emit_k(id, op, "ok", "0", &post(2, b)),
                        Err(_) => emit_k(id, op, "err", "[]", "[]"),
                    }
                }
                Err(_) => emit_k(id, "\"op\":\"ser\",\"a\":1", "err", "[]", "[]"),
            }
        }
    }
    let top = table.iter().map(|x| x.1).max().unwrap_or(0);
    let n = table.len();
    let elem = |i: usize| Tok::Variant(i as u32, String::new());
    let mut toks = vec![];
    let some = [0, 1, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 126, 127, top, top + 1];
    match (kind, width(kind)) {
        (_, w) if w > 0 => {
            let ones = u128::MAX >> (128 - w);
            let all = table.iter().fold(0u128, |x, v| x | 1 << v.1);
            for x in [ones, ones - all, 0, all] {
                toks.push(Tok::Int(w, x));
            }
            for b in some.into_iter().chain([w - 1]).filter(|b| *b < w) {
                toks.push(Tok::Int(w, 1 << b));
                toks.push(Tok::Int(w, all | 1 << b));
            }
        }
        ("array", _) => {
            let len = top as usize / 64 + 1;
            let mut all = vec![0u64; len + 2];
            table.iter().for_each(|v| all[v.1 as usize / 64] |= 1 << (v.1 % 64));
            let seq = |v: &[u64]| Tok::Seq(v.iter().map(|x| Tok::Int(64, *x as u128)).collect());
            for n in 0..=len + 2 {
                toks.push(seq(&all[..n]));
                toks.push(seq(&vec![u64::MAX; n]));
            }
            let last = (len + 2) as i64 * 64 - 1;
            for b in some.into_iter().chain([len as i64 * 64 - 1, len as i64 * 64, last]).filter(|b| *b <= last) {
                let mut x = all.clone();
                x[b as usize / 64] |= 1 << (b % 64);
                toks.push(seq(&x));
                let mut x = vec![0; b as usize / 64 + 1];
                x[b as usize / 64] = 1 << (b % 64);
                toks.push(seq(&x));
            }
        }
        ("list", _) => {
            toks.push(Tok::Seq((0..n).rev().map(elem).collect()));
            toks.push(Tok::Seq((0..n).chain(0..n).map(elem).collect()));
            toks.push(Tok::Seq((0..n / 2).flat_map(|i| [i, i, n - 1]).map(elem).collect()));
        }
        ("map", _) => {
            for k in 0..4 {
                let entry = |i: usize| (elem(i), Tok::Bool(k == 3 || i % 3 == k));
                toks.push(Tok::Map((0..n).rev().map(entry).collect()));
            }
        }
        _ => {}
    }
    for t in toks {
        let op = format!("\"op\":\"de\",\"d\":2,\"doc\":{}", doc(&t, kind, &disc));
        match EnumSet::<T>::deserialize(De { tok: t, human: false, hint: Hint::Exact }) {
            Ok(b) => emit_k(id, &op, "ok", "0", &post(2, b)),
            Err(_) => emit_k(id, &op, "err", "[]", "[]"),
        }
    }
}
