//! The other direction: behaviours generated from the specification are
//! performed on the real enums and compared; and logs are performed again.
use crate::gen::{plan, Ctx, Rng, BUILDS};
use crate::mach::*;
use crate::op::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

/// Every route by which a call can be made.
fn routes(op: &Op, m: &dyn Machine) -> Vec<&'static str> {
    let ops = m.caps().ops;
    match op.op {
        "empty" => vec!["new", "empty", "default", "EMPTY", "enum_set"],
        "all" => vec!["all", "ALL"],
        "single" => vec!["only", "from", "into"],
        "copy" => vec!["copy", "clone", "from"],
        "bin" => vec!["method", "op", "assign"],
        "compl" => vec!["method", "op"],
        "binvv" | "binvs" | "notv" => vec![""; ops as usize],
        "binsv" => vec!["op", "assign"],
        "eqvv" | "eq" => vec!["eq", "ne"],
        "eqvs" => [&["sv", "sv_ne"][..], if ops { &["vs"] } else { &[] }].concat(),
        "ext_elems" => [crate::gen::EXT, &["set"]].concat(),
        "ext_sets" => crate::gen::EXT.to_vec(),
        "from_elems" | "from_sets" => crate::gen::FROM.to_vec(),
        "to_int" | "from_int" if op.w == Some(64) => vec!["u64", "usize"],
        "to_int" | "from_int" => {
            vec![[(8, "u8"), (16, "u16"), (32, "u32"), (128, "u128")].iter().find(|x| Some(x.0) == op.w).unwrap().1]
        }
        "to_array" if op.n.unwrap() > 6 => vec![],
        "from_array" if op.ws.as_ref().unwrap().len() > 6 => vec!["slice"],
        "from_array" => vec!["array", "slice"],
        "as_repr" => vec!["run"],
        "roundtrip" if m.info().kind == "u128" => vec!["json", "bincode_mark", "token", "token_bin"],
        "roundtrip" => vec!["json", "value", "bincode_mark", "token", "token_bin", "token_nohint"],
        "de" => vec!["json", "bincode", "bincode_mark", "token", "token_bin", "token_nohint"],
        "next" | "size_hint" | "to_vec" => vec![""],
        "next_back" => vec!["next_back", "rev"],
        "nth" => crate::gen::NTH.to_vec(),
        "nth_back" => crate::gen::NTH_BACK.to_vec(),
        _ => vec![""],
    }
}
/// In conversions the route is the integer type, kept in `f`.
fn with_route(mut op: Op, via: &'static str) -> Op {
    if matches!(op.op, "to_int" | "from_int") {
        op.f = Some(via);
    } else if !via.is_empty() {
        op.via = Some(via);
    }
    op
}

struct Case {
    d: Vec<i64>,
    abs: bool,
    kind: String,
    deny: bool,
    w: i64,
    pre: Vec<Vec<i64>>,
    op: Op,
    out: Value,
    post: Vec<Vec<i64>>,
}
struct Path {
    d: Vec<i64>,
    abs: bool,
    start: Vec<i64>,
    steps: Vec<(Op, Vec<i64>, Vec<i64>)>,
}

/// Ranks to discriminants.
struct Rank<'a>(Option<&'a [i64]>);
impl Rank<'_> {
    fn x(&self, v: i64) -> i64 {
        self.0.map_or(v, |d| d[v as usize - 1])
    }
    fn xs(&self, v: &[i64]) -> Vec<i64> {
        v.iter().map(|x| self.x(*x)).collect()
    }
    fn op(&self, op: &Op) -> Op {
        let mut op = op.clone();
        if self.0.is_some() {
            op.v = op.v.map(|x| self.x(x));
            op.u = op.u.map(|x| self.x(x));
            op.vs = op.vs.map(|x| self.xs(&x));
        }
        op
    }
}

fn value_of(r: &R) -> Value {
    let mut s = String::new();
    r.put(&mut s);
    serde_json::from_str(&s).unwrap()
}

struct Run {
    out: BufWriter<File>,
    calls: u64,
    cases: u64,
    bad: u64,
    shapes: u64,
    skipped: u64,
}
impl Run {
    /// Writes what went wrong, as a log that can be performed and judged again.
    fn report(&mut self, m: &dyn Machine, nreg: usize, lines: &[String], why: &str) {
        self.bad += 1;
        if self.bad > 20 {
            return;
        }
        let i = m.info();
        let d = decl_line(i.name, &m.elems(), i.w, i.kind, i.deny, nreg);
        let log: Vec<Value> =
            std::iter::once(&d).chain(lines).map(|x| serde_json::from_str(x).unwrap()).collect();
        writeln!(self.out, "{}", json!({"bad": why, "shape": i.name, "log": log})).unwrap();
    }
}

pub fn replay(machines: Vec<Box<dyn Machine>>, prop: &str, cases: &str, out: &str, seed: u64) {
    let (_, own, _, _) = plan(prop);
    let mut calls: Vec<Case> = vec![];
    let mut paths: Vec<Path> = vec![];
    for line in BufReader::new(File::open(cases).unwrap()).lines() {
        let text: String = serde_json::from_str(&line.unwrap()).unwrap();
        let v: Value = serde_json::from_str(&text).unwrap();
        let d = ints(&v["D"]);
        let abs = v["abs"].as_bool().unwrap();
        if let Some(p) = v.get("path") {
            let steps = p
                .as_array()
                .unwrap()
                .iter()
                .map(|s| (Op::parse(&s["e"]), ints(&s["out"]["r"]), ints(&s["rest"])))
                .collect();
            paths.push(Path { d, abs, start: ints(&v["start"]), steps });
        } else {
            let op = Op::parse(&v["e"]);
            if !own.is_empty() && !own.contains(&op.op) {
                continue;
            }
            let sets = |x: &Value| x.as_array().unwrap().iter().map(ints).collect();
            calls.push(Case {
                d,
                abs,
                kind: v["kind"].as_str().unwrap().into(),
                deny: v["deny"].as_bool().unwrap(),
                w: v["w"].as_i64().unwrap(),
                pre: sets(&v["pre"]),
                op,
                out: v["out"].clone(),
                post: sets(&v["post"]),
            });
        }
    }
    let mut crumb = Ctx::create(&format!("{out}.log"), seed, 1);
    let mut run = Run { out: BufWriter::new(File::create(out).unwrap()), calls: 0, cases: 0, bad: 0, shapes: 0, skipped: 0 };
    let mut rng = Rng(seed ^ 0x5EED);
    for mut m in machines {
        let d = m.elems();
        let info = m.info();
        let fits = |cd: &[i64], abs: bool| if abs { cd.len() == d.len() } else { cd == d };
        let before = run.cases;
        for c in &calls {
            if !fits(&c.d, c.abs)
                || c.kind != "none" && (c.kind != info.kind || c.deny != info.deny)
                || c.w != 0 && c.w != info.w
            {
                continue;
            }
            run.cases += 1;
            one_call(&mut *m, c, &d, &mut run, &mut rng, &mut crumb);
        }
        for p in &paths {
            if fits(&p.d, p.abs) {
                run.cases += 1;
                one_path(&mut *m, p, &d, &mut run, &mut rng, &mut crumb);
            }
        }
        run.shapes += (run.cases > before) as u64;
    }
    writeln!(
        run.out,
        "{}",
        json!({"calls": run.calls, "cases": run.cases, "bad": run.bad, "shapes": run.shapes, "skipped": run.skipped})
    )
    .unwrap();
    run.out.flush().unwrap();
}

fn one_call(m: &mut dyn Machine, c: &Case, d: &[i64], run: &mut Run, rng: &mut Rng, crumb: &mut Ctx) {
    let rank = Rank(c.abs.then_some(d));
    let op = rank.op(&c.op);
    for via in routes(&op, m) {
        m.reset(c.pre.len());
        let mut lines = vec![];
        for (n, s) in c.pre.iter().enumerate() {
            let mut b = *rng.pick(BUILDS);
            if b == "slice_trunc" && d.last().map_or(false, |x| *x > 1000) {
                b = "collect";
            }
            // Whether building a set works is not what is judged here.
            for b in [b, "insert", "collect", "remove"] {
                let l = Op::new("load").d(n as i64 + 1).vs(rank.xs(s)).via(b);
                let o = m.exec(&l);
                lines.push(l.line(&[o]));
                if m.post_of(n + 1) == rank.xs(s) {
                    break;
                }
            }
        }
        if !c.pre.iter().enumerate().all(|(n, s)| m.post_of(n + 1) == rank.xs(s)) {
            run.skipped += 1;
            continue;
        }
        let op = with_route(op.clone(), via);
        crumb.crumb(&format!("{} {}", m.info().name, op.to_json()));
        let o = m.exec(&op);
        run.calls += 1;
        let ok = o.res.k == c.out["k"].as_str().unwrap()
            && value_of(&o.res.r) == c.out["r"]
            && c.post.iter().enumerate().all(|(n, s)| m.post_of(n + 1) == rank.xs(s));
        lines.push(op.line(&[o]));
        if !ok {
            run.report(m, c.pre.len(), &lines, "not what the specification does");
        }
    }
}

fn one_path(m: &mut dyn Machine, p: &Path, d: &[i64], run: &mut Run, rng: &mut Rng, crumb: &mut Ctx) {
    let rank = Rank(p.abs.then_some(d));
    m.reset(1);
    let mut lines: Vec<String> = vec![];
    let mut good = true;
    macro_rules! call {
        ($op:expr, $want:expr) => {{
            let op: Op = $op;
            crumb.crumb(&format!("{} {}", m.info().name, op.to_json()));
            let o = m.exec(&op);
            run.calls += 1;
            let want: Option<Value> = $want;
            if want.is_some() && (o.res.k != "ok" || Some(value_of(&o.res.r)) != want) {
                good = false;
            }
            lines.push(op.line(&[o]));
        }};
    }
    macro_rules! watch {
        ($i:expr, $rest:expr) => {{
            let rest: Vec<i64> = rank.xs($rest);
            let n = rest.len();
            call!(Op::new("size_hint").i($i), Some(json!([n, n, n])));
            match rng.below(6) {
                0 => call!(Op::new("rest").i($i).via("fold"), Some(json!(rest))),
                1 => {
                    let mut r = rest.clone();
                    r.reverse();
                    call!(Op::new("rest_back").i($i).via("rev"), Some(json!(r)))
                }
                2 => call!(Op::new("count").i($i).via("count"), Some(json!(n))),
                3 => {
                    let r: Vec<i64> = rest.last().copied().into_iter().collect();
                    call!(Op::new("last").i($i).via("last"), Some(json!(r)))
                }
                _ => call!(Op::new("rest").i($i).via("next"), Some(json!(rest))),
            }
        }};
    }
    call!(Op::new("load").d(1).vs(rank.xs(&p.start)).via(*rng.pick(&BUILDS[..8])), None);
    if m.post_of(1) != rank.xs(&p.start) {
        call!(Op::new("load").d(1).vs(rank.xs(&p.start)).via("insert"), None);
    }
    if m.post_of(1) != rank.xs(&p.start) {
        run.skipped += 1;
        return;
    }
    let via = *rng.pick(&["iter", "into_iter"]);
    call!(Op::new("iter").i(1).a(1).via(via), Some(json!(0)));
    watch!(1, &p.start);
    // The set the iterator came from changes: the iterator must not notice.
    if rng.chance(30) {
        call!(Op::new("load").d(1).vs(vec![]).via("insert"), None);
    }
    let mut clones: Vec<(i64, &Vec<i64>)> = vec![];
    for (n, (op, r, rest)) in p.steps.iter().enumerate() {
        if rng.chance(40) {
            let c = n as i64 + 2;
            call!(Op::new("iter_clone").i(c).j(1), Some(json!(0)));
            clones.push((c, if n == 0 { &p.start } else { &p.steps[n - 1].2 }));
        }
        let vias = routes(op, m);
        let via = *rng.pick(&vias);
        call!(with_route(op.clone(), via), Some(json!(rank.xs(r))));
        watch!(1, rest);
    }
    for op in ["next", "next_back", "next_back", "next"] {
        let vias = routes(&Op::new(op), m);
        call!(with_route(Op::new(op).i(1), vias[0]), Some(json!([])));
    }
    watch!(1, &vec![]);
    for (c, rest) in clones {
        watch!(c, rest);
    }
    if !good {
        run.report(m, 1, &lines, "not what the specification does");
    }
}

/// Performs a log again and writes what happens now.
pub fn exec(machines: Vec<Box<dyn Machine>>, input: &str, out: &str) {
    let mut all: HashMap<&'static str, Box<dyn Machine>> =
        machines.into_iter().map(|m| (m.info().name, m)).collect();
    let mut cx = Ctx::create(out, 1, 1);
    for line in BufReader::new(File::open(input).unwrap()).lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        match v["op"].as_str().unwrap() {
            "meta" => cx.line(&line),
            "decl" => {
                for m in cx.ms.drain(..) {
                    all.insert(m.info().name, m);
                }
                for name in v["shape"].as_str().unwrap().split(' ') {
                    match all.remove(name) {
                        Some(m) => cx.ms.push(m),
                        None => {
                            eprintln!("no shape {name} here");
                            std::process::exit(3);
                        }
                    }
                }
                cx.d = cx.ms[0].elems();
                cx.declare(v["nreg"].as_u64().unwrap() as usize);
            }
            _ => {
                let mut op = Op::parse(&v);
                op.names = v.get("names").cloned();
                cx.call(op);
            }
        }
    }
    cx.flush();
}
