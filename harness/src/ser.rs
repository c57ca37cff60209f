//! Serialization: sets to documents and back, through several formats.
use crate::conv::Prim;
use crate::mach::*;
use crate::op::*;
use crate::tok::*;
use enumset::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

type Set<T> = EnumSet<T>;

fn width(kind: &str) -> i64 {
    match kind {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        "u64" => 64,
        "u128" => 128,
        _ => 0,
    }
}

/// Something must follow the set in the stream.
const MARK: u16 = 0xA55A;

impl<T: Shape> Mach<T> {
    fn disc_of(&self, name: &str) -> i64 {
        self.table.iter().find(|x| x.0.elem_name() == name).map_or(-3, |x| x.1)
    }
    fn name_of(&self, d: i64) -> String {
        self.by_disc.get(&d).map_or(format!("nope{d}"), |v| v.elem_name().to_string())
    }
    fn index_of(&self, d: i64) -> u32 {
        self.table.iter().position(|x| x.1 == d).map_or(9999, |x| x as u32)
    }

    fn doc_of_tok(&self, t: &Tok) -> Value {
        let elem = |t: &Tok| match t {
            Tok::Variant(_, n) | Tok::Str(n) => self.disc_of(n),
            _ => -4,
        };
        match t {
            Tok::Int(w, x) => json!({"t": "int", "w": w, "bits": x.to_bits()}),
            Tok::Seq(v) => {
                if v.iter().all(|x| matches!(x, Tok::Int(64, _))) && T::INFO.kind != "list" {
                    let ws: Vec<Vec<i64>> =
                        v.iter().map(|x| if let Tok::Int(_, x) = x { x.to_bits() } else { vec![] }).collect();
                    json!({"t": "words", "ws": ws})
                } else {
                    json!({"t": "list", "vs": v.iter().map(elem).collect::<Vec<_>>()})
                }
            }
            Tok::Map(v) => {
                let es: Vec<Value> = v.iter().map(|(k, x)| json!([elem(k), *x == Tok::Bool(true)])).collect();
                json!({"t": "map", "es": es})
            }
            _ => json!({"t": "bad"}),
        }
    }
    /// JSON numbers have no width: the declared one is filled in.
    fn doc_of_json(&self, text: &str) -> Value {
        let t = text.trim();
        if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) {
            let x: u128 = t.parse().unwrap();
            return json!({"t": "int", "w": width(T::INFO.kind), "bits": x.to_bits()});
        }
        fn tok(v: &Value) -> Tok {
            match v {
                Value::Number(n) => n.as_u64().map_or(Tok::Other("number"), |x| Tok::Int(64, x as u128)),
                Value::String(s) => Tok::Str(s.clone()),
                Value::Bool(b) => Tok::Bool(*b),
                Value::Array(a) => Tok::Seq(a.iter().map(tok).collect()),
                Value::Object(m) => {
                    Tok::Map(m.iter().map(|(k, v)| (Tok::Str(k.clone()), tok(v))).collect())
                }
                Value::Null => Tok::Unit,
            }
        }
        match serde_json::from_str::<Value>(t) {
            Ok(v) => self.doc_of_tok(&tok(&v)),
            Err(_) => json!({"t": "bad"}),
        }
    }
    fn doc_of_bincode(&self, b: &[u8]) -> Value {
        let bad = json!({"t": "bad"});
        let kind = T::INFO.kind;
        let int = |b: &[u8]| b.iter().rev().fold(0u128, |x, b| x << 8 | *b as u128);
        if width(kind) > 0 {
            return json!({"t": "int", "w": b.len() as i64 * 8, "bits": int(b).to_bits()});
        }
        if b.len() < 8 {
            return bad;
        }
        let n = int(&b[..8]) as usize;
        let size = match kind {
            "array" => 8,
            "list" => 4,
            _ => 5,
        };
        let items: Vec<&[u8]> = b[8..].chunks(size).collect();
        if items.len() != n || items.iter().any(|x| x.len() != size) {
            return bad;
        }
        let elem = |x: u128| self.table.get(x as usize).map_or(-3, |v| v.1);
        match kind {
            "array" => {
                json!({"t": "words", "ws": items.iter().map(|x| int(x).to_bits()).collect::<Vec<_>>()})
            }
            "list" => json!({"t": "list", "vs": items.iter().map(|x| elem(int(x))).collect::<Vec<_>>()}),
            _ => json!({"t": "map", "es": items.iter()
                .map(|x| json!([elem(int(&x[..4])), x[4] == 1])).collect::<Vec<_>>()}),
        }
    }

    fn tok_of_doc(&self, doc: &Value) -> Tok {
        let elem = |d: i64| Tok::Variant(self.index_of(d), self.name_of(d));
        match doc["t"].as_str().unwrap() {
            "int" => Tok::Int(doc["w"].as_i64().unwrap(), u128::of_bits(&ints(&doc["bits"]))),
            "words" => Tok::Seq(
                arr(&doc["ws"]).iter().map(|w| Tok::Int(64, u64::of_bits(&ints(w)) as u128)).collect(),
            ),
            "list" => Tok::Seq(ints(&doc["vs"]).into_iter().map(elem).collect()),
            "map" => Tok::Map(
                arr(&doc["es"])
                    .iter()
                    .map(|e| (elem(e[0].as_i64().unwrap()), Tok::Bool(e[1].as_bool().unwrap())))
                    .collect(),
            ),
            _ => unreachable!(),
        }
    }
    fn json_of_tok(t: &Tok) -> String {
        match t {
            Tok::Int(_, x) => x.to_string(),
            Tok::Bool(b) => b.to_string(),
            Tok::Str(n) | Tok::Variant(_, n) => json!(n).to_string(),
            Tok::Seq(v) => format!("[{}]", v.iter().map(Self::json_of_tok).collect::<Vec<_>>().join(", ")),
            Tok::Map(v) => format!(
                "{{{}}}",
                v.iter()
                    .map(|(k, x)| format!("{}:{}", Self::json_of_tok(k), Self::json_of_tok(x)))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
            _ => "null".into(),
        }
    }
    fn bincode_of_tok(t: &Tok) -> Vec<u8> {
        let mut out = vec![];
        match t {
            Tok::Int(w, x) => out.extend(&x.to_le_bytes()[..*w as usize / 8]),
            Tok::Bool(b) => out.push(*b as u8),
            Tok::Variant(i, _) => out.extend(&i.to_le_bytes()),
            Tok::Seq(v) => {
                out.extend(&(v.len() as u64).to_le_bytes());
                v.iter().for_each(|x| out.extend(Self::bincode_of_tok(x)));
            }
            Tok::Map(v) => {
                out.extend(&(v.len() as u64).to_le_bytes());
                for (k, x) in v {
                    out.extend(Self::bincode_of_tok(k));
                    out.extend(Self::bincode_of_tok(x));
                }
            }
            _ => unreachable!(),
        }
        out
    }

    fn ser_err(e: impl std::fmt::Display) -> Res {
        Res { k: "err", r: R::Str(e.to_string()) }
    }

    pub fn run_ser(&mut self, op: &Op) -> Res {
        let via = op.via.unwrap();
        match op.op {
            "ser" => {
                let x = self.regs[op.reg(op.a)];
                let doc = match via {
                    "json" => match serde_json::to_string(&x) {
                        Ok(t) => self.doc_of_json(&t),
                        Err(e) => return Self::ser_err(e),
                    },
                    "bincode" => match bincode::serialize(&x) {
                        Ok(b) => self.doc_of_bincode(&b),
                        Err(e) => return Self::ser_err(e),
                    },
                    "token" | "token_bin" => match x.serialize(Ser(via == "token")) {
                        Ok(t) => self.doc_of_tok(&t),
                        Err(e) => return Self::ser_err(e),
                    },
                    _ => unreachable!(),
                };
                Res::ok(R::Json(doc))
            }
            "ser_fail" => {
                let x = self.regs[op.reg(op.a)];
                let (r, hit) = failing(op.n.unwrap(), || x.serialize(Ser(true)));
                match (r, hit) {
                    (Err(_), true) => Res::kind("failed"),
                    (Ok(_), true) => Res::kind("swallowed"),
                    (Ok(t), false) => Res::ok(R::Json(self.doc_of_tok(&t))),
                    (Err(e), false) => Self::ser_err(e),
                }
            }
            "de_fail" => {
                let tok = self.tok_of_doc(op.doc.as_ref().unwrap());
                let de = De { tok, human: true, hint: Hint::Exact };
                let (r, hit) = failing(op.n.unwrap(), || Set::<T>::deserialize(de));
                match (r, hit) {
                    (Err(_), true) => Res::kind("failed"),
                    (Ok(_), true) => Res::kind("swallowed"),
                    (r, false) => self.got(op, r.map_err(|e| e.to_string())),
                }
            }
            "de_place" => {
                let tok = self.tok_of_doc(op.doc.as_ref().unwrap());
                let de = De { tok, human: true, hint: Hint::Exact };
                let place = &mut self.regs[op.reg(op.d)];
                let (r, hit) = failing(op.n.unwrap(), || Deserialize::deserialize_in_place(de, place));
                match (r, hit) {
                    (Err(_), true) => Res::kind("failed"),
                    (Ok(_), true) => Res::kind("swallowed"),
                    (Ok(_), false) => Res::unit(),
                    (Err(_), false) => Res::kind("err"),
                }
            }
            "roundtrip" => {
                let x = self.regs[op.reg(op.a)];
                let r: Result<Set<T>, String> = (|| {
                    Ok(match via {
                        "json" => {
                            let t = serde_json::to_string(&x).map_err(|e| e.to_string())?;
                            serde_json::from_str(&t).map_err(|e| e.to_string())?
                        }
                        "pretty" => {
                            let t = serde_json::to_vec_pretty(&x).map_err(|e| e.to_string())?;
                            serde_json::from_reader(&t[..]).map_err(|e| e.to_string())?
                        }
                        "value" => {
                            let t = serde_json::to_value(x).map_err(|e| e.to_string())?;
                            serde_json::from_value(t).map_err(|e| e.to_string())?
                        }
                        "nested" => {
                            let t = serde_json::to_string(&vec![(x, 1u8), (x, 2)]).map_err(|e| e.to_string())?;
                            let v: Vec<(Set<T>, u8)> = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                            if v.len() != 2 || v[0].0 != v[1].0 || v[0].1 != 1 || v[1].1 != 2 {
                                return Err("context lost".into());
                            }
                            v[0].0
                        }
                        "bincode" => {
                            let t = bincode::serialize(&x).map_err(|e| e.to_string())?;
                            bincode::deserialize(&t).map_err(|e| e.to_string())?
                        }
                        "bincode_mark" => {
                            let t = bincode::serialize(&(x, MARK, x)).map_err(|e| e.to_string())?;
                            let (y, m, z): (Set<T>, u16, Set<T>) =
                                bincode::deserialize(&t).map_err(|e| e.to_string())?;
                            if m != MARK || y != z {
                                return Err("context lost".into());
                            }
                            y
                        }
                        "token" | "token_bin" | "token_nohint" | "token_huge" | "token_zero" | "token_signed" => {
                            let human = via != "token_bin";
                            let tok = x.serialize(Ser(human)).map_err(|e| e.to_string())?;
                            Set::<T>::deserialize(De { tok, human, hint: Hint::named(via) })
                                .map_err(|e| e.to_string())?
                        }
                        "in_place" => {
                            let tok = x.serialize(Ser(true)).map_err(|e| e.to_string())?;
                            let mut y = EnumSet::all();
                            Deserialize::deserialize_in_place(De { tok, human: true, hint: Hint::Exact }, &mut y)
                                .map_err(|e| e.to_string())?;
                            y
                        }
                        _ => unreachable!(),
                    })
                })();
                self.got(op, r)
            }
            "de" => {
                let tok = self.tok_of_doc(op.doc.as_ref().unwrap());
                let r: Result<Set<T>, String> = match via {
                    "json" => serde_json::from_str(&Self::json_of_tok(&tok)).map_err(|e| e.to_string()),
                    "reader" => {
                        serde_json::from_reader(Self::json_of_tok(&tok).as_bytes()).map_err(|e| e.to_string())
                    }
                    "value" => serde_json::from_str::<Value>(&Self::json_of_tok(&tok))
                        .and_then(serde_json::from_value)
                        .map_err(|e| e.to_string()),
                    "bincode" => {
                        bincode::deserialize(&Self::bincode_of_tok(&tok)).map_err(|e| e.to_string())
                    }
                    "bincode_mark" => {
                        let mut b = Self::bincode_of_tok(&tok);
                        b.extend(MARK.to_le_bytes());
                        bincode::deserialize::<(Set<T>, u16)>(&b)
                            .map_err(|e| e.to_string())
                            .and_then(|(s, m)| if m == MARK { Ok(s) } else { Err("context lost".into()) })
                    }
                    "token" | "token_bin" | "token_nohint" | "token_huge" | "token_zero" | "token_signed" => Set::<T>::deserialize(De {
                        tok,
                        human: via != "token_bin",
                        hint: Hint::named(via),
                    })
                    .map_err(|e| e.to_string()),
                    _ => unreachable!(),
                };
                self.got(op, r)
            }
            "de_any" => {
                let doc = op.doc.as_ref().unwrap();
                let r: Result<Set<T>, String> = match via {
                    "json" => serde_json::from_str(doc["raw"].as_str().unwrap()).map_err(|e| e.to_string()),
                    "bincode" => {
                        let b: Vec<u8> = ints(&doc["raw"]).into_iter().map(|x| x as u8).collect();
                        bincode::deserialize(&b).map_err(|e| e.to_string())
                    }
                    "token" => {
                        let tok = match doc["raw"].as_str().unwrap() {
                            "unit" => Tok::Unit,
                            "neg" => Tok::Signed(-1),
                            "float" => Tok::Float(1.0),
                            "bytes" => Tok::Bytes(vec![1]),
                            "seq_neg" => Tok::Seq(vec![Tok::Signed(0), Tok::Signed(-1)]),
                            "seq_float" => Tok::Seq(vec![Tok::Float(1.0)]),
                            "map_neg" => Tok::Map(vec![(Tok::Signed(-1), Tok::Signed(-1))]),
                            "bool" => Tok::Bool(true),
                            "str" => Tok::Str("V0".into()),
                            "seq_unit" => Tok::Seq(vec![Tok::Unit]),
                            "seq_bool" => Tok::Seq(vec![Tok::Int(64, 0), Tok::Bool(true)]),
                            "seq_big" => Tok::Seq(vec![Tok::Int(128, u128::MAX)]),
                            "big" => Tok::Int(128, u128::MAX),
                            "map_unit" => Tok::Map(vec![(Tok::Str("V0".into()), Tok::Unit)]),
                            "map_int" => Tok::Map(vec![(Tok::Int(8, 1), Tok::Bool(true))]),
                            _ => unreachable!(),
                        };
                        Set::<T>::deserialize(De { tok, human: true, hint: Hint::Exact }).map_err(|e| e.to_string())
                    }
                    _ => unreachable!(),
                };
                self.got(op, r)
            }
            _ => unreachable!(),
        }
    }
    fn got(&mut self, op: &Op, r: Result<Set<T>, String>) -> Res {
        match r {
            Ok(s) => {
                let d = op.reg(op.d);
                self.regs[d] = s;
                Res::unit()
            }
            Err(_) => Res::kind("err"),
        }
    }
}
fn ints(v: &Value) -> Vec<i64> {
    arr(v).iter().map(|x| x.as_i64().unwrap()).collect()
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}
