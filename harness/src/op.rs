//! Calls, outcomes, and their JSON form (one object per line).
use serde_json::{json, Map, Value};

/// One public call with its arguments. Which fields are used depends on `op`.
#[derive(Clone, Debug, Default)]
pub struct Op {
    pub op: &'static str,
    pub f: Option<&'static str>,
    pub via: Option<&'static str>,
    pub mode: Option<&'static str>,
    pub d: Option<i64>,
    pub a: Option<i64>,
    pub b: Option<i64>,
    pub i: Option<i64>,
    pub j: Option<i64>,
    pub n: Option<i64>,
    pub w: Option<i64>,
    pub v: Option<i64>,
    pub u: Option<i64>,
    pub vs: Option<Vec<i64>>,
    pub rs: Option<Vec<i64>>,
    pub ws: Option<Vec<Vec<i64>>>,
    pub doc: Option<Value>,
    pub names: Option<Value>,
}

pub fn leak(s: &str) -> &'static str {
    use std::{cell::RefCell, collections::HashMap};
    thread_local!(static POOL: RefCell<HashMap<String, &'static str>> = Default::default());
    POOL.with(|p| {
        *p.borrow_mut()
            .entry(s.to_string())
            .or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
    })
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

macro_rules! fields {
    ($m:ident) => {
        $m!(str f); $m!(str via); $m!(str mode);
        $m!(int d); $m!(int a); $m!(int b); $m!(int i); $m!(int j);
        $m!(int n); $m!(int w); $m!(int v); $m!(int u);
    };
}

impl Op {
    pub fn new(op: &'static str) -> Op {
        Op { op, ..Op::default() }
    }
    pub fn parse(v: &Value) -> Op {
        let mut o = Op::new(leak(v["op"].as_str().unwrap()));
        macro_rules! get {
            (str $f:ident) => { o.$f = v.get(stringify!($f)).map(|x| leak(x.as_str().unwrap())); };
            (int $f:ident) => { o.$f = v.get(stringify!($f)).map(|x| x.as_i64().unwrap()); };
        }
        fields!(get);
        o.vs = v.get("vs").map(ints);
        o.rs = v.get("rs").map(ints);
        o.ws = v.get("ws").map(|x| x.as_array().unwrap().iter().map(ints).collect());
        o.doc = v.get("doc").cloned();
        o
    }
    pub fn to_json(&self) -> String {
        let mut s = String::with_capacity(96);
        s.push_str("{\"op\":\"");
        s.push_str(self.op);
        s.push('"');
        macro_rules! put {
            (str $f:ident) => { if let Some(x) = self.$f {
                s.push_str(concat!(",\"", stringify!($f), "\":\"")); s.push_str(x); s.push('"');
            } };
            (int $f:ident) => { if let Some(x) = self.$f {
                s.push_str(concat!(",\"", stringify!($f), "\":")); s.push_str(&x.to_string());
            } };
        }
        fields!(put);
        if let Some(x) = &self.vs {
            s.push_str(",\"vs\":");
            put_ints(&mut s, x);
        }
        if let Some(x) = &self.rs {
            s.push_str(",\"rs\":");
            put_ints(&mut s, x);
        }
        if let Some(x) = &self.ws {
            s.push_str(",\"ws\":");
            put_intss(&mut s, x);
        }
        if let Some(x) = &self.doc {
            s.push_str(",\"doc\":");
            s.push_str(&x.to_string());
        }
        if let Some(x) = &self.names {
            s.push_str(",\"names\":");
            s.push_str(&x.to_string());
        }
        s
    }
    pub fn line(&self, obs: &[Obs]) -> String {
        let mut s = self.to_json();
        s.push_str(",\"obs\":[");
        for (n, o) in obs.iter().enumerate() {
            if n > 0 {
                s.push(',');
            }
            o.put(&mut s);
        }
        s.push_str("]}");
        s
    }
    pub fn reg(&self, x: Option<i64>) -> usize {
        x.unwrap() as usize - 1
    }
}

macro_rules! setters {
    ($($f:ident: $t:ty),*) => { impl Op { $(
        pub fn $f(mut self, x: $t) -> Op { self.$f = Some(x); self }
    )* } };
}
setters!(f: &'static str, via: &'static str, mode: &'static str, d: i64, a: i64, b: i64, i: i64,
         j: i64, n: i64, w: i64, v: i64, u: i64, vs: Vec<i64>, rs: Vec<i64>, ws: Vec<Vec<i64>>,
         doc: Value);

fn put_ints(s: &mut String, x: &[i64]) {
    s.push('[');
    for (n, i) in x.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        s.push_str(&i.to_string());
    }
    s.push(']');
}
fn put_intss(s: &mut String, x: &[Vec<i64>]) {
    s.push('[');
    for (n, i) in x.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        put_ints(s, i);
    }
    s.push(']');
}

/// The result of a call.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Int(i64),
    Bool(bool),
    Str(String),
    Ints(Vec<i64>),
    Intss(Vec<Vec<i64>>),
    Bools(Vec<bool>),
    Json(Value),
}
/// Outcome: kind ("ok", "none", "panic", "err") and result.
#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub k: &'static str,
    pub r: R,
}
impl Res {
    pub fn ok(r: R) -> Res {
        Res { k: "ok", r }
    }
    pub fn unit() -> Res {
        Res::ok(R::Int(0))
    }
    pub fn bool(b: bool) -> Res {
        Res::ok(R::Bool(b))
    }
    pub fn int(i: i64) -> Res {
        Res::ok(R::Int(i))
    }
    pub fn bits(b: Vec<i64>) -> Res {
        Res::ok(R::Ints(b))
    }
    pub fn opt(o: Option<i64>) -> Res {
        Res::ok(R::Ints(o.into_iter().collect()))
    }
    pub fn kind(k: &'static str) -> Res {
        Res { k, r: R::Ints(vec![]) }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub res: Res,
    pub post: Vec<(i64, Vec<i64>)>,
}
impl R {
    pub fn put(&self, s: &mut String) {
        match self {
            R::Int(i) => s.push_str(&i.to_string()),
            R::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            R::Str(t) => s.push_str(&json!(t).to_string()),
            R::Ints(v) => put_ints(s, v),
            R::Intss(v) => put_intss(s, v),
            R::Bools(v) => s.push_str(&json!(v).to_string()),
            R::Json(v) => s.push_str(&v.to_string()),
        }
    }
}
impl Obs {
    fn put(&self, s: &mut String) {
        s.push_str("{\"k\":\"");
        s.push_str(self.res.k);
        s.push_str("\",\"r\":");
        self.res.r.put(s);
        s.push_str(",\"post\":[");
        for (n, (x, p)) in self.post.iter().enumerate() {
            if n > 0 {
                s.push(',');
            }
            s.push('[');
            s.push_str(&x.to_string());
            s.push(',');
            put_ints(s, p);
            s.push(']');
        }
        s.push_str("]}");
    }
}

/// The declaration line of a shape.
pub fn decl_line(shape: &str, d: &[i64], w: i64, kind: &str, deny: bool, nreg: usize) -> String {
    let mut m = Map::new();
    m.insert("op".into(), json!("decl"));
    m.insert("shape".into(), json!(shape));
    m.insert("D".into(), json!(d));
    m.insert("w".into(), json!(w));
    m.insert("kind".into(), json!(kind));
    m.insert("deny".into(), json!(deny));
    m.insert("nreg".into(), json!(nreg));
    Value::Object(m).to_string()
}
