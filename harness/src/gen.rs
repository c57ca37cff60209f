//! What to call: for every enum a systematic part (each variant, each bit,
//! each route) and seeded random histories.
use crate::mach::*;
use crate::op::*;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ z >> 27).wrapping_mul(0x94D049BB133111EB);
        z ^ z >> 31
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

pub const BUILDS: &[&str] =
    &["insert", "collect", "remove", "compl", "compl2", "xor", "and", "sum", "slice_trunc", "iter", "union"];
const F: &[&str] = &["or", "and", "sub", "xor"];
const INTS: &[(&str, i64)] =
    &[("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", 64)];

pub struct Ctx {
    out: BufWriter<File>,
    crumb: File,
    pub ms: Vec<Box<dyn Machine>>,
    pub rng: Rng,
    pub d: Vec<i64>,
    pub scale: usize,
    ser: bool,
    nreg: i64,
}

impl Ctx {
    pub fn create(path: &str, seed: u64, scale: u64) -> Ctx {
        Ctx {
            out: BufWriter::with_capacity(1 << 18, File::create(path).unwrap()),
            crumb: File::create(format!("{path}.crumb")).unwrap(),
            ms: vec![],
            rng: Rng(seed),
            d: vec![],
            scale: scale as usize,
            ser: cfg!(feature = "ser"),
            nreg: 0,
        }
    }
    pub fn flush(&mut self) {
        self.out.flush().unwrap();
    }
    pub fn line(&mut self, s: &str) {
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
    }
    /// What is about to be called, in case it never returns.
    pub fn crumb(&mut self, s: &str) {
        let mut b = s.as_bytes().to_vec();
        b.resize(b.len().max(600), b' ');
        b.push(b'\n');
        self.crumb.write_all_at(&b, 0).unwrap();
    }
    pub fn call(&mut self, op: Op) -> Vec<Obs> {
        for r in [op.d, op.a, op.b].into_iter().flatten().chain(op.rs.iter().flatten().copied()) {
            assert!(1 <= r && r <= self.nreg, "no such variable: {op:?}");
        }
        let text = op.to_json();
        self.crumb(&format!("{} {}", self.ms[0].info().name, text));
        let obs: Vec<Obs> = self.ms.iter_mut().map(|m| m.exec(&op)).collect();
        self.line(&op.line(&obs));
        obs
    }
    pub fn declare(&mut self, nreg: usize) {
        self.nreg = nreg as i64;
        for m in &mut self.ms {
            m.reset(nreg);
        }
        let i = self.ms[0].info();
        let names: Vec<&str> = self.ms.iter().map(|m| m.info().name).collect();
        let l = decl_line(&names.join(" "), &self.d, i.w, i.kind, i.deny, nreg);
        self.line(&l);
    }
    fn info(&self) -> Info {
        self.ms[0].info()
    }
    fn has_ops(&self) -> bool {
        self.ms.iter().all(|m| m.caps().ops)
    }
    fn max(&self) -> i64 {
        self.d.last().copied().unwrap_or(0)
    }
    fn words(&self) -> i64 {
        self.max() / 64 + 1
    }
    pub fn elem(&mut self) -> i64 {
        let n = self.rng.below(self.d.len());
        self.d[n]
    }
    /// A handful of variants: the ends, those next to word boundaries, some at random.
    fn some_elems(&mut self, n: usize) -> Vec<i64> {
        if self.d.len() <= n {
            return self.d.clone();
        }
        let mut v: Vec<i64> = self
            .d
            .iter()
            .copied()
            .filter(|d| [0, 1, 7, 8, 15, 16, 31, 32, 62, 63].contains(&(d % 64)))
            .collect();
        v.push(self.d[0]);
        v.push(self.max());
        self.rng.shuffle(&mut v);
        v.truncate(n - n / 3);
        while v.len() < n {
            let x = self.elem();
            v.push(x);
        }
        v.sort();
        v.dedup();
        v
    }
    fn random_set(&mut self) -> Vec<i64> {
        let p = *self.rng.pick(&[3u64, 20, 50, 80, 97]);
        let d = self.d.clone();
        d.into_iter().filter(|_| self.rng.chance(p)).collect()
    }
    /// Sets worth looking at.
    fn sets(&mut self, singles: usize, random: usize) -> Vec<Vec<i64>> {
        let d = self.d.clone();
        let mut out = vec![vec![], d.clone()];
        for x in self.some_elems(singles) {
            out.push(vec![x]);
            out.push(d.iter().copied().filter(|y| *y != x).collect());
        }
        if d.len() > 2 {
            out.push(vec![d[0], d[d.len() - 1]]);
            out.push(d[..d.len() / 2].to_vec());
            out.push(d[d.len() / 2..].to_vec());
            out.push(d.iter().copied().step_by(2).collect());
            out.push(d.iter().copied().skip(1).step_by(2).collect());
        }
        for w in 0..self.words() {
            let v: Vec<i64> = d.iter().copied().filter(|x| x / 64 == w).collect();
            if !v.is_empty() && v.len() < d.len() && out.len() < 60 {
                out.push(d.iter().copied().filter(|x| x / 64 != w).collect());
                out.push(v);
            }
        }
        for _ in 0..random {
            let s = self.random_set();
            out.push(s);
        }
        out
    }
    pub fn load(&mut self, reg: i64, vs: &[i64]) {
        let mut via = *self.rng.pick(BUILDS);
        if self.max() > 1000 && via == "slice_trunc" {
            via = "collect";
        }
        let mut v = vs.to_vec();
        self.rng.shuffle(&mut v);
        self.call(Op::new("load").d(reg).vs(v).via(via));
    }
    pub fn load_plain(&mut self, reg: i64, vs: &[i64]) {
        self.call(Op::new("load").d(reg).vs(vs.to_vec()).via("insert"));
    }
}

pub type G = fn(&mut Ctx);

/// For each property: mode, calls judged, strict projection, generators.
pub fn plan(prop: &str) -> (&'static str, Vec<&'static str>, bool, Vec<G>) {
    let algebra = vec![
        "empty", "all", "copy", "bin", "compl", "contains", "len", "is_empty", "subset", "superset", "disjoint",
    ];
    let mutation = vec![
        "insert", "remove", "insert_all", "remove_all", "clear", "ext_elems", "ext_sets", "from_elems", "from_sets",
        "cut_elems", "cut_sets",
    ];
    let iteration = vec![
        "iter", "iter_clone", "next", "next_back", "nth", "nth_back", "size_hint", "rest", "rest_back", "count",
        "last",
    ];
    let variants = vec!["single", "binvv", "binvs", "binsv", "notv", "eqvv", "eqvs"];
    match prop {
        "P01" => ("exact", algebra, true, vec![algebra_constants, algebra_pairs, algebra_elements]),
        "P02" => ("exact", mutation, true, vec![mutate_systematic, mutate_history]),
        "P03" => ("valid", vec![], true, vec![closure_history]),
        "P04" => ("exact", iteration, true, vec![iter_ends, iter_paths]),
        #[cfg(feature = "conv")]
        "P05" => ("exact", vec!["to_int"], true, vec![to_ints]),
        #[cfg(feature = "conv")]
        "P06" => ("exact", vec!["from_int"], true, vec![from_ints]),
        #[cfg(feature = "conv")]
        "P07" => {
            ("exact", vec!["to_array", "into_slice", "from_array", "to_vec"], true, vec![to_arrays, from_arrays, beyond])
        }
        #[cfg(feature = "conv")]
        "P08" => ("exact", vec!["layout", "memory", "as_repr", "from_repr"], true, vec![reprs]),
        #[cfg(feature = "ser")]
        "P09" => ("exact", vec!["ser", "roundtrip", "ser_fail"], true, vec![serialize]),
        #[cfg(feature = "ser")]
        "P10" => ("exact", vec!["de", "de_any", "de_fail", "de_place"], true, vec![deserialize, malformed]),
        #[cfg(feature = "conv")]
        "P11" => (
            "exact",
            vec!["vcount", "bwidth", "all", "single", "disc", "iter", "rest", "to_array", "contains"],
            true,
            vec![numbering],
        ),
        "P14" => (
            "exact",
            vec!["eq", "cmp", "cmp_all", "extremes", "hash", "keys", "lookup", "eqvs"],
            false,
            vec![coherence],
        ),
        "P15" => ("exact", vec!["fmt", "fmt_lim"], true, vec![format]),
        #[cfg(all(feature = "conv", feature = "ser"))]
        "P16" => (
            "agree",
            vec![],
            true,
            vec![
                algebra_pairs, algebra_elements, mutate_systematic, mutate_history, iter_ends, iter_paths, to_ints,
                from_ints, to_arrays, from_arrays, bare, format, serialize, deserialize, numbering, equalities,
            ],
        ),
        "P17" => ("exact", variants, true, vec![bare]),
        // The same in every build: what needs no serde, and what does.
        #[cfg(feature = "conv")]
        "P18" => (
            "agree",
            vec![],
            true,
            vec![
                algebra_constants, algebra_pairs, algebra_elements, mutate_systematic, mutate_history, iter_ends,
                iter_paths, to_ints, from_ints, to_arrays, from_arrays, reprs, numbering, coherence, format, bare,
                closure_history, equalities,
            ],
        ),
        #[cfg(feature = "ser")]
        "P18s" => ("agree", vec![], true, vec![serialize, deserialize, malformed]),
        _ => panic!("no plan for {prop}"),
    }
}

pub fn meta(prop: &str) -> String {
    let (mode, own, strict, _) = plan(prop);
    json!({"op": "meta", "mode": mode, "own": own, "strict": strict, "prop": prop}).to_string()
}

pub fn record(machines: Vec<Box<dyn Machine>>, prop: &str, out: &str, seed: u64, scale: u64, skip: &str) {
    let (_, _, _, gens) = plan(prop);
    let skip: Vec<&str> = skip.split(' ').collect();
    let machines = machines.into_iter().filter(|m| !skip.contains(&m.info().name));
    let mut cx = Ctx::create(out, seed, scale);
    cx.ser = cfg!(feature = "ser") && prop != "P18";
    cx.line(&meta(prop));
    let mut units: Vec<Vec<Box<dyn Machine>>> = vec![];
    for m in machines {
        let g = m.info().group;
        match units.last_mut() {
            Some(u) if prop == "P16" && !g.is_empty() && u[0].info().group == g => u.push(m),
            _ => units.push(vec![m]),
        }
    }
    for u in units {
        if prop == "P16" && u.len() < 2 {
            continue;
        }
        cx.d = u[0].elems();
        for m in &u {
            assert_eq!(m.elems(), cx.d);
        }
        cx.ms = u;
        for g in &gens {
            if cx.d.is_empty() && (*g as usize != algebra_constants as *const () as usize || prop == "P18") && prop != "P11" && prop != "P03" {
                empty_enum(&mut cx);
                break;
            }
            cx.declare(12);
            g(&mut cx);
        }
        cx.ms.clear();
    }
    cx.out.flush().unwrap();
}

/// What can be called on an enum without variants.
fn empty_enum(cx: &mut Ctx) {
    cx.declare(12);
    for via in ["new", "empty", "default", "EMPTY", "enum_set"] {
        cx.call(Op::new("empty").d(1).via(via));
    }
    cx.call(Op::new("all").d(2).via("all"));
    for via in ["method", "op", "assign"] {
        for f in F {
            cx.call(Op::new("bin").f(f).d(3).a(1).b(2).via(via));
        }
    }
    for via in ["method", "op"] {
        cx.call(Op::new("compl").d(3).a(1).via(via));
    }
    cx.call(Op::new("len").a(3));
    cx.call(Op::new("is_empty").a(3));
    for op in ["subset", "superset", "disjoint"] {
        cx.call(Op::new(op).a(1).b(2));
    }
    cx.call(Op::new("clear").d(1));
    cx.call(Op::new("insert_all").d(1).a(2));
    cx.call(Op::new("remove_all").d(1).a(2));
    cx.call(Op::new("from_sets").d(3).rs(vec![1, 2]).via("collect"));
    cx.call(Op::new("from_elems").d(3).vs(vec![]).via("sum"));
    cx.call(Op::new("iter").i(1).a(2).via("iter"));
    cx.call(Op::new("size_hint").i(1));
    cx.call(Op::new("next").i(1));
    cx.call(Op::new("next_back").i(1).via("next_back"));
    for via in ["eq", "ne"] {
        cx.call(Op::new("eq").a(1).b(2).via(via));
    }
    cx.call(Op::new("cmp").a(1).b(2).via("cmp"));
    cx.call(Op::new("hash").a(1));
    for f in ["debug", "display"] {
        fmt_call(cx, 1, f, "");
    }
    #[cfg(feature = "conv")]
    {
        to_ints(cx);
        from_ints(cx);
        to_arrays(cx);
        from_arrays(cx);
        if cx.info().w > 0 {
            reprs(cx);
        }
    }
    #[cfg(feature = "ser")]
    if cx.ser {
        serialize(cx);
        deserialize(cx);
    }
}

// ---------------------------------------------------------------- algebra
fn algebra_constants(cx: &mut Ctx) {
    for via in ["new", "empty", "default", "EMPTY", "enum_set"] {
        let d = cx.d.clone();
        cx.load(1, &d);
        cx.call(Op::new("empty").d(1).via(via));
        cx.call(Op::new("is_empty").a(1));
        cx.call(Op::new("len").a(1));
    }
    for via in ["all", "ALL"] {
        cx.load(1, &[]);
        cx.call(Op::new("all").d(1).via(via));
        cx.call(Op::new("is_empty").a(1));
        cx.call(Op::new("len").a(1));
    }
    for via in ["method", "op"] {
        cx.call(Op::new("empty").d(1).via("new"));
        cx.call(Op::new("compl").d(2).a(1).via(via));
        cx.call(Op::new("compl").d(3).a(2).via(via));
    }
}
fn queries(cx: &mut Ctx, a: i64, b: i64) {
    for op in ["subset", "superset", "disjoint"] {
        cx.call(Op::new(op).a(a).b(b));
        cx.call(Op::new(op).a(b).b(a));
    }
}
fn algebra_pairs(cx: &mut Ctx) {
    let sets = cx.sets(8, 10);
    for n in 0..2 * cx.scale {
        let x = cx.rng.pick(&sets).clone();
        let y = match n % 5 {
            0 => x.clone(),
            1 => x.iter().copied().filter(|_| cx.rng.chance(70)).collect(),
            2 => cx.d.clone().into_iter().filter(|v| !x.contains(v)).collect(),
            _ => cx.rng.pick(&sets).clone(),
        };
        cx.load(1, &x);
        cx.load(2, &y);
        for f in F {
            for via in ["method", "op", "assign"] {
                cx.call(Op::new("bin").f(f).d(3).a(1).b(2).via(via));
            }
            let via = *cx.rng.pick(&["method", "op", "assign"]);
            cx.call(Op::new("bin").f(f).d(4).a(2).b(1).via(via));
        }
        for via in ["method", "op"] {
            cx.call(Op::new("compl").d(5).a(1).via(via));
        }
        queries(cx, 1, 2);
        queries(cx, 3, 1);
        for r in 1..=5 {
            cx.call(Op::new("len").a(r));
            cx.call(Op::new("is_empty").a(r));
        }
        for _ in 0..3 {
            let v = cx.elem();
            let r = 1 + cx.rng.below(5) as i64;
            cx.call(Op::new("contains").a(r).v(v));
        }
        let via = *cx.rng.pick(&["copy", "clone", "from"]);
        cx.call(Op::new("copy").d(6).a(4).via(via));
        let via = *cx.rng.pick(&["method", "op", "assign"]);
        let f = *cx.rng.pick(F);
        cx.call(Op::new("bin").f(f).d(1).a(1).b(1).via(via));
        cx.call(Op::new("bin").f(f).d(2).a(6).b(2).via(via));
        queries(cx, 2, 2);
    }
}
/// Every variant on its own: in and out, alone, absent, against its neighbours.
fn algebra_elements(cx: &mut Ctx) {
    let d = cx.d.clone();
    for (n, v) in d.iter().enumerate() {
        let rest: Vec<i64> = d.iter().copied().filter(|x| x != v).collect();
        let u = d[(n + 1) % d.len()];
        cx.load_plain(1, &[*v]);
        cx.load_plain(2, &rest);
        for r in 1..=2 {
            cx.call(Op::new("contains").a(r).v(*v));
            cx.call(Op::new("contains").a(r).v(u));
            cx.call(Op::new("len").a(r));
            cx.call(Op::new("is_empty").a(r));
        }
        queries(cx, 1, 2);
        let via = *cx.rng.pick(&["method", "op"]);
        cx.call(Op::new("compl").d(3).a(1).via(via));
        cx.call(Op::new("compl").d(3).a(2).via(via));
        for f in F {
            let via = *cx.rng.pick(&["method", "op", "assign"]);
            cx.call(Op::new("bin").f(f).d(3).a(1).b(2).via(via));
            cx.call(Op::new("bin").f(f).d(4).a(2).b(1).via(via));
        }
    }
}

// --------------------------------------------------------------- mutation
fn mutate_systematic(cx: &mut Ctx) {
    let d = cx.d.clone();
    for v in &d {
        cx.call(Op::new("clear").d(1));
        for op in ["remove", "insert", "insert", "remove", "remove"] {
            cx.call(Op::new(op).d(1).v(*v));
        }
        cx.load_plain(1, &d);
        for op in ["insert", "remove", "remove", "insert", "insert"] {
            cx.call(Op::new(op).d(1).v(*v));
        }
    }
    for s in cx.sets(4, 4) {
        cx.load(1, &s);
        cx.load(2, &s);
        cx.call(Op::new("clear").d(1));
        cx.call(Op::new("clear").d(1));
        let t = cx.random_set();
        cx.load(3, &t);
        cx.call(Op::new("insert_all").d(1).a(2));
        cx.call(Op::new("insert_all").d(1).a(3));
        cx.call(Op::new("remove_all").d(1).a(3));
        cx.call(Op::new("remove_all").d(2).a(2));
        cx.call(Op::new("remove_all").d(3).a(1));
        for via in FROM.iter().copied() {
            let mut v = s.clone();
            v.extend(s.iter().take(3));
            cx.rng.shuffle(&mut v);
            cx.call(Op::new("from_elems").d(4).vs(v).via(via));
            cx.call(Op::new("from_sets").d(4).rs(vec![]).via(via));
            cx.call(Op::new("from_sets").d(4).rs(vec![1]).via(via));
            cx.call(Op::new("from_sets").d(4).rs(vec![3, 1, 2, 3]).via(via));
            cx.call(Op::new("from_elems").d(4).vs(vec![]).via(via));
        }
        for via in EXT.iter().copied().chain(["set"]) {
            cx.load(4, &t);
            cx.call(Op::new("ext_elems").d(4).vs(s.clone()).via(via));
            cx.call(Op::new("ext_elems").d(4).vs(vec![]).via(via));
            if matches!(via, "vec" | "source" | "wide" | "chain") {
                cx.load(4, &t);
                cx.call(Op::new("cut_elems").d(4).vs(s.clone()).via(via));
                cx.load(4, &t);
                cx.call(Op::new("cut_elems").d(4).vs(vec![]).via(via));
                cx.call(Op::new("cut_sets").d(4).rs(vec![]).via(via));
                cx.call(Op::new("cut_sets").d(4).rs(vec![1, 3]).via(via));
            }
            if via != "set" {
                cx.load(5, &t);
                cx.call(Op::new("ext_sets").d(5).rs(vec![]).via(via));
                cx.call(Op::new("ext_sets").d(5).rs(vec![1, 3]).via(via));
            }
        }
    }
}
fn mutate_history(cx: &mut Ctx) {
    for _ in 0..cx.scale.div_ceil(5) {
        for r in 1..=4 {
            let s = cx.random_set();
            cx.load(r, &s);
        }
        let focus = cx.some_elems(4);
        for _ in 0..120 {
            let d = 1 + cx.rng.below(4) as i64;
            let a = 1 + cx.rng.below(4) as i64;
            let v = if cx.rng.chance(70) { *cx.rng.pick(&focus) } else { cx.elem() };
            match cx.rng.below(20) {
                0..=5 => cx.call(Op::new("insert").d(d).v(v)),
                6..=11 => cx.call(Op::new("remove").d(d).v(v)),
                12 => cx.call(Op::new("insert_all").d(d).a(a)),
                13 => cx.call(Op::new("remove_all").d(d).a(a)),
                14 if cx.rng.chance(30) => cx.call(Op::new("clear").d(d)),
                15 | 16 => {
                    let n = if cx.rng.chance(10) { 6 + cx.rng.below(300) } else { cx.rng.below(6) };
                    let vs = (0..n).map(|_| cx.elem()).collect();
                    let via = *cx.rng.pick(EXT);
                    cx.call(Op::new("ext_elems").d(d).vs(vs).via(via))
                }
                17 => {
                    let n = if cx.rng.chance(10) { 5 + cx.rng.below(30) } else { cx.rng.below(4) };
                    let rs = (0..n).map(|_| 1 + cx.rng.below(4) as i64).collect();
                    let via = *cx.rng.pick(EXT);
                    cx.call(Op::new("ext_sets").d(d).rs(rs).via(via))
                }
                18 => {
                    let n = if cx.rng.chance(10) { 6 + cx.rng.below(300) } else { cx.rng.below(6) };
                    let vs = (0..n).map(|_| cx.elem()).collect();
                    let via = *cx.rng.pick(FROM);
                    cx.call(Op::new("from_elems").d(d).vs(vs).via(via))
                }
                _ => {
                    let n = if cx.rng.chance(10) { 5 + cx.rng.below(30) } else { cx.rng.below(4) };
                    let rs = (0..n).map(|_| 1 + cx.rng.below(4) as i64).collect();
                    let via = *cx.rng.pick(FROM);
                    cx.call(Op::new("from_sets").d(d).rs(rs).via(via))
                }
            };
        }
    }
}

// -------------------------------------------------------------- iteration
const REST: &[(&str, &str)] = &[
    ("rest", "next"), ("rest", "for"), ("rest", "for_each"), ("rest", "fold"), ("rest", "try_fold"),
    ("rest", "collect"), ("rest", "step_by"), ("rest", "chunks"), ("rest", "rev_rfold"),
    ("rest_back", "next_back"), ("rest_back", "rev"), ("rest_back", "rfold"), ("rest_back", "rev_fold"),
    ("rest_back", "try_rfold"), ("count", "count"), ("count", "len"), ("count", "rev"), ("last", "last"),
    ("last", "reduce"), ("rest", "peek"), ("rest", "zip"), ("rest", "enumerate"), ("rest", "chain"), ("rest", "flat_map"),
    ("rest", "partition"), ("rest", "set"), ("rest", "min_by_key"), ("rest_back", "max_by_key"), ("rest", "max"), ("rest_back", "min"), ("rest_back", "rev_step"),
    ("count", "fold"), ("count", "rfold"), ("count", "enumerate"), ("last", "max_by"), ("last", "rev_nth"), ("last", "min"),
    ("last", "is_sorted"),
];
pub const NTH: &[&str] =
    &["nth", "skip", "rev_nth_back", "find", "find_map", "try_fold", "any", "all", "position", "skip_while", "cut", "cut_fold"];
pub const NTH_BACK: &[&str] = &["nth_back", "rev_nth", "rfind", "try_rfold", "rev_position", "rposition", "cut", "cut_fold"];
pub const EXT: &[&str] = &["vec", "iter", "filter", "source", "wide", "chain", "rev", "unfused"];
pub const FROM: &[&str] = &["collect", "from_iter", "sum", "sumref", "source", "wide", "chain", "rev", "sum_source", "unfused", "sum_unfused"];
fn next(cx: &mut Ctx, i: i64) -> Vec<Obs> {
    cx.call(Op::new("next").i(i))
}
fn next_back(cx: &mut Ctx, i: i64) -> Vec<Obs> {
    let via = *cx.rng.pick(&["next_back", "next_back", "rev"]);
    cx.call(Op::new("next_back").i(i).via(via))
}
/// Straight through from either end, past the end, with every adaptor.
fn iter_ends(cx: &mut Ctx) {
    let mut sets = cx.sets(12, 3);
    let len = sets.len().min(14 + cx.scale);
    cx.rng.shuffle(&mut sets[2..]);
    sets.truncate(len);
    for (n, s) in sets.iter().enumerate() {
        cx.load(1, s);
        cx.call(Op::new("iter").i(1).a(1).via(if n % 2 == 0 { "iter" } else { "into_iter" }));
        if n < 2 || s.len() < 20 {
            for (op, via) in REST {
                cx.call(Op::new(op).i(1).via(via));
            }
        }
        cx.call(Op::new("iter_clone").i(2).j(1));
        for k in 0..s.len() + 2 {
            next(cx, 1);
            if k < 4 || k + 4 > s.len() || k % 16 == 0 {
                cx.call(Op::new("size_hint").i(1));
            }
        }
        for _ in 0..2 {
            next_back(cx, 1);
            next(cx, 1);
        }
        cx.call(Op::new("size_hint").i(1));
        for k in 0..s.len() + 2 {
            cx.call(Op::new("next_back").i(2).via("next_back"));
            if k < 4 || k + 4 > s.len() || k % 16 == 0 {
                cx.call(Op::new("size_hint").i(2));
            }
        }
        for _ in 0..2 {
            next(cx, 2);
            next_back(cx, 2);
        }
        cx.call(Op::new("size_hint").i(2));
    }
}
fn skip(cx: &mut Ctx, len: usize) -> i64 {
    if cx.rng.chance(40) {
        cx.rng.below(len + 2) as i64
    } else {
        *cx.rng.pick(&[0, 1, 2, 5, 63, 300, i32::MAX as i64])
    }
}
/// Random interleavings of both ends, skips, clones and changes to the set.
fn iter_paths(cx: &mut Ctx) {
    let sets = cx.sets(6, 6);
    for _ in 0..2 * cx.scale {
        let s = cx.rng.pick(&sets).clone();
        cx.load(1, &s);
        cx.call(Op::new("iter").i(1).a(1).via("iter"));
        let bias = *cx.rng.pick(&[10u64, 50, 90]);
        let steps = (s.len() + 3).min(40);
        let live = &mut vec![1i64];
        for _ in 0..steps {
            let i = *cx.rng.pick(live);
            match cx.rng.below(24) {
                0..=12 => {
                    if cx.rng.chance(bias) {
                        next(cx, i);
                    } else {
                        next_back(cx, i);
                    }
                }
                13 | 14 => {
                    let n = skip(cx, s.len());
                    let via = if cx.rng.chance(40) { "nth" } else { *cx.rng.pick(NTH) };
                    cx.call(Op::new("nth").i(i).n(n).via(via));
                }
                15 | 16 => {
                    let n = skip(cx, s.len());
                    let via = if cx.rng.chance(40) { "nth_back" } else { *cx.rng.pick(NTH_BACK) };
                    cx.call(Op::new("nth_back").i(i).n(n).via(via));
                }
                17 if live.len() < 3 => {
                    let j = 1 + live.len() as i64;
                    cx.call(Op::new("iter_clone").i(j).j(i));
                    live.push(j);
                }
                18 => {
                    let v = cx.elem();
                    let op = *cx.rng.pick(&["insert", "remove"]);
                    cx.call(Op::new(op).d(1).v(v));
                }
                19 => {
                    cx.call(Op::new("clear").d(1));
                }
                20 | 21 => {
                    let (op, via) = *cx.rng.pick(REST);
                    cx.call(Op::new(op).i(i).via(via));
                }
                _ => {
                    cx.call(Op::new("size_hint").i(i));
                }
            }
        }
        for i in live.clone() {
            cx.call(Op::new("size_hint").i(i));
            let (op, via) = *cx.rng.pick(&REST[..14]);
            cx.call(Op::new(op).i(i).via(via));
        }
    }
}

// ------------------------------------------------------------ conversions
#[cfg(feature = "conv")]
fn to_ints(cx: &mut Ctx) {
    let mut sets = cx.sets(if cx.scale > 20 { 300 } else { 40 }, cx.scale);
    // Sets that just fit and just do not fit each width.
    for (_, w) in INTS {
        let s: Vec<i64> = cx.d.iter().copied().filter(|x| x < w).collect();
        let mut t = s.clone();
        t.extend(cx.d.iter().copied().find(|x| x >= w));
        sets.push(s.clone());
        sets.push(t.clone());
        sets.push(s.into_iter().filter(|_| cx.rng.chance(50)).collect());
        sets.push(t.into_iter().rev().take(2).collect());
    }
    for s in sets {
        cx.load(1, &s);
        for (f, w) in INTS {
            for mode in ["try", "panic", "trunc"] {
                cx.call(Op::new("to_int").a(1).f(f).w(*w).mode(mode));
            }
        }
    }
}
#[cfg(feature = "conv")]
fn from_int_all_modes(cx: &mut Ctx, f: &'static str, w: i64, bits: &[i64]) {
    let vs: Vec<i64> = bits.iter().copied().filter(|b| *b < w).collect();
    let valid = vs.iter().all(|b| cx.d.contains(b));
    for (n, mode) in ["try", "panic", "trunc", "unchecked"].iter().enumerate() {
        if *mode != "unchecked" || valid {
            cx.call(Op::new("from_int").d(1 + n as i64).f(f).w(w).vs(vs.clone()).mode(mode));
        }
    }
}
#[cfg(feature = "conv")]
fn from_ints(cx: &mut Ctx) {
    for (f, w) in INTS {
        // Every single bit, and the full mask with every bit flipped, in the fallible form.
        let step = if *w > 64 && cx.scale <= 10 && cx.d.len() > 40 { 3 } else { 1 };
        let valid: Vec<i64> = cx.d.iter().copied().filter(|b| b < w).collect();
        let off = cx.rng.below(step) as i64;
        for b in (off..*w).step_by(step) {
            cx.call(Op::new("from_int").d(1).f(f).w(*w).vs(vec![b]).mode("try"));
            cx.call(Op::new("from_int").d(2).f(f).w(*w).vs(vec![b]).mode("trunc"));
            if b % 8 == 7 || valid.contains(&b) && valid.len() < 12 {
                let mut x: Vec<i64> = valid.iter().copied().filter(|y| *y != b).collect();
                if !valid.contains(&b) {
                    x.push(b);
                    x.sort();
                }
                cx.call(Op::new("from_int").d(3).f(f).w(*w).vs(x.clone()).mode("try"));
                cx.call(Op::new("from_int").d(4).f(f).w(*w).vs(x).mode("panic"));
            }
        }
        from_int_all_modes(cx, f, *w, &[]);
        from_int_all_modes(cx, f, *w, &valid);
        from_int_all_modes(cx, f, *w, &(0..*w).collect::<Vec<_>>());
        for _ in 0..cx.scale.div_ceil(2) {
            let mut s = cx.random_set();
            from_int_all_modes(cx, f, *w, &s);
            s.push(cx.rng.below(*w as usize) as i64);
            s.sort();
            s.dedup();
            from_int_all_modes(cx, f, *w, &s);
            let p = *cx.rng.pick(&[5u64, 50, 95]);
            let s: Vec<i64> = (0..*w).filter(|_| cx.rng.chance(p)).collect();
            from_int_all_modes(cx, f, *w, &s);
        }
    }
    if cx.max() < 8 && cx.d.len() <= 4 || cx.scale > 20 && cx.max() < 20 {
        for x in 0..256i64 {
            let s: Vec<i64> = (0..8).filter(|b| x >> b & 1 == 1).collect();
            from_int_all_modes(cx, "u8", 8, &s);
        }
    }
}
fn to_words(s: &[i64], n: usize) -> Vec<Vec<i64>> {
    (0..n as i64).map(|i| s.iter().filter(|x| **x / 64 == i).map(|x| x % 64).collect()).collect()
}
#[cfg(feature = "conv")]
/// The lengths of arrays there is code for.
fn array_len(n: usize) -> bool {
    n <= 6 || n == 10 || n == 33
}
/// Arrays and slices much longer than the set: what lies beyond is zero, or is noticed.
#[cfg(feature = "conv")]
fn beyond(cx: &mut Ctx) {
    let need = cx.words() as usize;
    let mut sets = vec![vec![], cx.d.clone()];
    sets.push(cx.random_set());
    for s in &sets {
        cx.load(1, s);
        for n in [10, 33] {
            let mode = *cx.rng.pick(&["try", "panic", "trunc"]);
            cx.call(Op::new("to_array").a(1).n(n).mode(mode));
        }
        for n in [9, 16, 17, 40, 65, 129, 256, 257, 300] {
            let off = cx.rng.below(3);
            let dirty: Vec<Vec<i64>> =
                (0..n).map(|i| if (i + off) % 3 == 0 { vec![] } else { vec![i as i64 % 64] }).collect();
            let mode = *cx.rng.pick(&["try", "panic", "trunc"]);
            cx.call(Op::new("into_slice").a(1).ws(dirty).mode(mode));
            let mode = *cx.rng.pick(&["try", "panic", "trunc"]);
            if n >= need {
                cx.call(Op::new("from_array").d(2).ws(to_words(s, n)).mode(mode).via("slice"));
            }
        }
    }
    // One bit anywhere beyond.
    let mut at: Vec<usize> = (need..need + 22).collect();
    at.extend([31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 299]);
    for i in at {
        if i < need {
            continue;
        }
        let s = cx.random_set();
        let s = if cx.rng.chance(50) { vec![] } else { s };
        let more = if cx.rng.chance(50) { 0 } else { cx.rng.below(4) };
        let mut ws = to_words(&s, i + 1 + more);
        ws[i].push(cx.rng.below(64) as i64);
        let via = if array_len(ws.len()) && cx.rng.chance(50) { "array" } else { "slice" };
        let mode = *cx.rng.pick(&["trunc", "panic"]);
        for mode in ["try", mode] {
            cx.call(Op::new("from_array").d(3).ws(ws.clone()).mode(mode).via(via));
        }
    }
    for n in [10, 33] {
        if n > need {
            let s = cx.random_set();
            let mut ws = to_words(&s, n);
            for mode in ["try", "trunc", "unchecked"] {
                cx.call(Op::new("from_array").d(4).ws(ws.clone()).mode(mode).via("array"));
            }
            ws[n - 1].push(0);
            for mode in ["try", "trunc"] {
                cx.call(Op::new("from_array").d(4).ws(ws.clone()).mode(mode).via("array"));
            }
        }
    }
}
#[cfg(feature = "conv")]
fn to_arrays(cx: &mut Ctx) {
    let mut sets = cx.sets(14, cx.scale.div_ceil(2));
    for w in 0..cx.words().min(8) {
        sets.push(cx.d.iter().copied().filter(|x| *x < 64 * (w + 1)).collect());
        let mut t: Vec<i64> = cx.d.iter().copied().filter(|x| *x < 64 * w).collect();
        t.extend(cx.d.iter().copied().find(|x| *x >= 64 * w));
        sets.push(t);
    }
    for s in sets {
        cx.load(1, &s);
        #[cfg(feature = "alloc")]
        cx.call(Op::new("to_vec").a(1));
        let need = cx.words();
        for mode in ["try", "panic", "trunc"] {
            for n in 0..=6 {
                if n <= need + 2 {
                    cx.call(Op::new("to_array").a(1).n(n).mode(mode));
                }
            }
            for n in [0, 1, 2, 3, need - 1, need, need + 1, need + 3] {
                if (0..12).contains(&n) && n <= need + 3 {
                    let dirty: Vec<Vec<i64>> = (0..n)
                        .map(|_| match cx.rng.below(3) {
                            0 => (0..64).collect(),
                            1 => vec![],
                            _ => (0..64).filter(|_| cx.rng.chance(50)).collect(),
                        })
                        .collect();
                    cx.call(Op::new("into_slice").a(1).ws(dirty).mode(mode));
                }
            }
        }
    }
}
#[cfg(feature = "conv")]
fn from_words(cx: &mut Ctx, ws: Vec<Vec<i64>>) {
    let bits: Vec<i64> =
        ws.iter().enumerate().flat_map(|(i, w)| w.iter().map(move |b| 64 * i as i64 + b)).collect();
    let valid = bits.iter().all(|b| cx.d.contains(b));
    for via in ["array", "slice"] {
        if via == "array" && !array_len(ws.len()) {
            continue;
        }
        for (n, mode) in ["try", "panic", "trunc", "unchecked"].iter().enumerate() {
            if *mode != "unchecked" || valid {
                cx.call(Op::new("from_array").d(1 + n as i64).ws(ws.clone()).mode(mode).via(via));
            }
        }
    }
}
#[cfg(feature = "conv")]
fn from_arrays(cx: &mut Ctx) {
    let need = cx.words() as usize;
    if need > 12 {
        return from_long_arrays(cx, need);
    }
    for n in 0..=need + 2 {
        from_words(cx, vec![vec![]; n]);
        if n > 0 {
            from_words(cx, vec![(0..64).collect(); n]);
        }
        for s in cx.sets(4, 2) {
            from_words(cx, to_words(&s, n));
        }
        // One stray bit somewhere, alone or on top of a valid set.
        for _ in 0..2 + cx.scale / 2 {
            if n > 0 {
                let mut ws = if cx.rng.chance(50) { vec![vec![]; n] } else { to_words(&cx.random_set(), n) };
                let (i, b) = (cx.rng.below(n), cx.rng.below(64) as i64);
                ws[i].push(b);
                ws[i].sort();
                ws[i].dedup();
                from_words(cx, ws);
            }
        }
    }
    // Every bit alone, in a slice of just enough words and of one more.
    let step = if cx.scale <= 10 && need > 1 { 3 } else { 1 };
    let off = cx.rng.below(step);
    for b in (off..64 * (need + 1)).step_by(step) {
        let mut ws = vec![vec![]; b / 64 + 1];
        ws[b / 64].push(b as i64 % 64);
        for mode in ["try", "trunc"] {
            let via = if ws.len() <= 6 && cx.rng.chance(50) { "array" } else { "slice" };
            cx.call(Op::new("from_array").d(5).ws(ws.clone()).mode(mode).via(via));
        }
        if cx.rng.chance(30) {
            ws.push(vec![]);
            cx.call(Op::new("from_array").d(6).ws(ws.clone()).mode("try").via("slice"));
        }
    }
}
#[cfg(feature = "conv")]
fn from_long_arrays(cx: &mut Ctx, need: usize) {
    for n in [need - 1, need, need + 1] {
        for s in cx.sets(2, 1) {
            for mode in ["try", "trunc", "panic"] {
                cx.call(Op::new("from_array").d(1).ws(to_words(&s, n)).mode(mode).via("slice"));
            }
        }
        let mut ws = vec![vec![]; n];
        ws[n - 1].push(63);
        for mode in ["try", "trunc", "panic"] {
            cx.call(Op::new("from_array").d(1).ws(ws.clone()).mode(mode).via("slice"));
        }
    }
}
#[cfg(feature = "conv")]
fn reprs(cx: &mut Ctx) {
    let w = cx.info().w;
    if w == 0 {
        return;
    }
    cx.call(Op::new("layout"));
    cx.call(Op::new("all").d(1).via("all"));
    cx.call(Op::new("as_repr").a(1).via("const_all"));
    cx.call(Op::new("empty").d(1).via("empty"));
    cx.call(Op::new("as_repr").a(1).via("const_empty"));
    for s in cx.sets(200, 4 * cx.scale) {
        cx.load(1, &s);
        cx.call(Op::new("memory").a(1));
        cx.call(Op::new("as_repr").a(1).via("run"));
        for (n, mode) in ["try", "panic", "trunc", "unchecked"].iter().enumerate() {
            cx.call(Op::new("from_repr").d(2 + n as i64).vs(s.clone()).mode(mode));
        }
    }
    let other = |cx: &mut Ctx, vs: Vec<i64>| {
        let valid = vs.iter().all(|b| cx.d.contains(b));
        for (n, mode) in ["try", "panic", "trunc", "unchecked"].iter().enumerate() {
            if *mode != "unchecked" || valid {
                cx.call(Op::new("from_repr").d(2 + n as i64).vs(vs.clone()).mode(mode));
            }
        }
    };
    for b in 0..w {
        other(cx, vec![b]);
        let mut x: Vec<i64> = cx.d.iter().copied().filter(|y| *y != b).collect();
        if !cx.d.contains(&b) {
            x.push(b);
            x.sort();
        }
        other(cx, x);
    }
    other(cx, (0..w).collect());
    for _ in 0..4 * cx.scale {
        let p = *cx.rng.pick(&[5u64, 50, 95]);
        let s = (0..w).filter(|_| cx.rng.chance(p)).collect();
        other(cx, s);
    }
    if w == 8 {
        for x in 0..256i64 {
            other(cx, (0..8).filter(|b| x >> b & 1 == 1).collect());
        }
    }
}

// ------------------------------------------------------------------ serde
#[cfg(feature = "ser")]
fn serialize(cx: &mut Ctx) {
    let kind = cx.info().kind;
    for s in cx.sets(if cx.d.len() < 40 { 40 } else { 12 }, 2 + cx.scale / 2) {
        cx.load(1, &s);
        for via in ["json", "bincode", "token", "token_bin"] {
            cx.call(Op::new("ser").a(1).via(via));
        }
        for _ in 0..2 {
            let n = 1 + cx.rng.below(2 * s.len() + 4) as i64;
            cx.call(Op::new("ser_fail").a(1).n(n).via("token"));
        }
        for via in [
            "json", "pretty", "value", "nested", "bincode", "bincode_mark", "token", "token_bin", "token_nohint",
            "in_place",
        ] {
            if via == "value" && kind == "u128" {
                continue; // serde_json::Value has no 128-bit numbers
            }
            let all = cx.d.clone();
            cx.load_plain(2, if s.is_empty() { &all } else { &[] });
            cx.call(Op::new("roundtrip").d(2).a(1).via(via));
        }
    }
}
#[cfg(feature = "ser")]
fn de(cx: &mut Ctx, doc: Value) {
    let kind = cx.info().kind;
    for via in [
        "json", "reader", "value", "bincode", "bincode_mark", "token", "token_bin", "token_nohint", "token_huge", "token_zero",
        "token_signed",
    ] {
        if via == "value" && kind == "u128" {
            continue;
        }
        if matches!(via, "reader" | "token_huge" | "token_zero" | "token_signed") && cx.rng.chance(60) {
            continue;
        }
        cx.call(Op::new("de").d(1).doc(doc.clone()).via(via));
    }
    if cx.rng.chance(30) {
        for op in ["de_fail", "de_place"] {
            let n = 1 + cx.rng.below(9) as i64;
            let old = cx.random_set();
            cx.load(1, &old);
            cx.call(Op::new(op).d(1).n(n).via("token").doc(doc.clone()));
        }
        // Nothing of the old value stays.
        let old = cx.random_set();
        cx.load(1, &old);
        cx.call(Op::new("de_place").d(1).n(0).via("token").doc(doc));
    }
}
/// Documents of the declared kind: every bit alone, valid sets, valid sets
/// with strangers, arrays shorter and longer than needed.
#[cfg(feature = "ser")]
fn deserialize(cx: &mut Ctx) {
    let kind = cx.info().kind;
    let w = match kind {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        "u64" => 64,
        "u128" => 128,
        _ => 0,
    };
    let base = cx.random_set();
    cx.load(1, &base);
    let valid: Vec<Vec<i64>> = cx.sets(3, cx.scale / 2);
    match kind {
        "list" | "map" => {
            let doc = |vs: &[i64]| {
                if kind == "list" {
                    json!({"t": "list", "vs": vs})
                } else {
                    json!({"t": "map", "es": vs.iter().map(|v| json!([v, true])).collect::<Vec<_>>()})
                }
            };
            for mut s in valid {
                de(cx, doc(&s));
                cx.rng.shuffle(&mut s);
                de(cx, doc(&s));
                if kind == "list" {
                    s.extend(s.clone());
                    s.extend(s.first().copied());
                    de(cx, doc(&s));
                } else {
                    let es: Vec<Value> = s.iter().map(|v| json!([v, cx.rng.chance(50)])).collect();
                    de(cx, json!({"t": "map", "es": es}));
                    let es: Vec<Value> = s.iter().map(|v| json!([v, false])).collect();
                    de(cx, json!({"t": "map", "es": es}));
                    // The same element again, and a few that are contradicted.
                    let mut es: Vec<(i64, bool)> = s.iter().map(|v| (*v, cx.rng.chance(60))).collect();
                    let again = es.clone();
                    es.extend(again.iter().filter(|_| cx.rng.chance(50)));
                    let mut n = 0;
                    for (v, is) in again.into_iter().take(3) {
                        if cx.rng.chance(60) {
                            es.insert(n, (v, !is));
                            n = cx.rng.below(es.len() + 1);
                        }
                    }
                    de(cx, json!({"t": "map", "es": es}));
                    if s.len() > 1 {
                        de(cx, json!({"t": "map", "es": [[s[0], true], [s[0], false], [s[1], true]]}));
                        de(cx, json!({"t": "map", "es": [[s[0], false], [s[0], true], [s[1], true], [s[0], true]]}));
                    }
                }
            }
        }
        "array" => {
            let need = cx.words() as usize;
            let words = |ws: Vec<Vec<i64>>| json!({"t": "words", "ws": ws});
            if need > 12 {
                for n in [0, 1, need - 1, need, need + 1, need + 5] {
                    for s in cx.sets(2, 1) {
                        de(cx, words(to_words(&s, n)));
                    }
                    let mut ws = to_words(&cx.random_set(), n);
                    if n > 0 {
                        ws[n - 1].push(62);
                        ws[n - 1].sort();
                        ws[n - 1].dedup();
                        de(cx, words(ws));
                    }
                }
                return;
            }
            // Documents much longer than the set, with nothing or one bit beyond.
            for n in [9, 17, 40, 65, 129, 257] {
                let mut ws = to_words(&cx.random_set(), n);
                let via = *cx.rng.pick(&["token", "json", "bincode"]);
                cx.call(Op::new("de").d(1).doc(words(ws.clone())).via(via));
                for _ in 0..2 {
                    let i = cx.rng.below(n - need.min(n - 1)) + need.min(n - 1);
                    if i >= need {
                        ws[i] = vec![cx.rng.below(64) as i64];
                    }
                    cx.call(Op::new("de").d(1).doc(words(ws.clone())).via(via));
                }
            }
            for i in need..need + 12 {
                let mut ws = to_words(&cx.random_set(), i + 1);
                ws[i].push(cx.rng.below(64) as i64);
                let via = *cx.rng.pick(&["token", "json", "bincode"]);
                cx.call(Op::new("de").d(1).doc(words(ws)).via(via));
            }
            for n in 0..=need + 2 {
                de(cx, words(vec![vec![]; n]));
                for s in valid.clone().iter().take(6) {
                    de(cx, words(to_words(s, n)));
                }
                for _ in 0..2 + cx.scale / 4 {
                    if n > 0 {
                        let mut ws = if cx.rng.chance(50) { vec![vec![]; n] } else { to_words(&cx.random_set(), n) };
                        let (i, b) = (cx.rng.below(n), cx.rng.below(64) as i64);
                        ws[i].push(b);
                        ws[i].sort();
                        ws[i].dedup();
                        de(cx, words(ws));
                    }
                }
                if n > 0 {
                    de(cx, words(vec![(0..64).collect(); n]));
                }
            }
            let step = if cx.scale <= 10 { 5 } else { 1 };
            let off = cx.rng.below(step);
            for b in (off..64 * (need + 1)).step_by(step) {
                let mut ws = vec![vec![]; (b / 64 + 1).max(need)];
                ws[b / 64].push(b as i64 % 64);
                for via in ["token", "json"] {
                    cx.call(Op::new("de").d(1).doc(words(ws.clone())).via(via));
                }
            }
        }
        _ => {
            let int = |vs: &[i64]| json!({"t": "int", "w": w, "bits": vs});
            for b in 0..w {
                for via in ["token", "json", "bincode"] {
                    cx.call(Op::new("de").d(1).doc(int(&[b])).via(via));
                }
            }
            for s in valid {
                de(cx, int(&s));
                let mut s = s;
                s.push(cx.rng.below(w as usize) as i64);
                s.sort();
                s.dedup();
                de(cx, int(&s));
            }
            de(cx, int(&(0..w).collect::<Vec<_>>()));
            for _ in 0..cx.scale {
                let p = *cx.rng.pick(&[5u64, 50, 95]);
                let s: Vec<i64> = (0..w).filter(|_| cx.rng.chance(p)).collect();
                de(cx, int(&s));
            }
            if w == 8 {
                for x in 0..256i64 {
                    let s: Vec<i64> = (0..8).filter(|b| x >> b & 1 == 1).collect();
                    cx.call(Op::new("de").d(1).doc(int(&s)).via("token"));
                }
            }
        }
    }
}
/// Anything at all: an error or a set of variants.
#[cfg(feature = "ser")]
fn malformed(cx: &mut Ctx) {
    const TEXTS: &[&str] = &[
        "", "null", "true", "false", "-1", "1.5", "1e3", "256", "65536", "4294967296", "18446744073709551616",
        "340282366920938463463374607431768211456", "1e400", "\"V0\"", "\"\"", "[", "[]", "[]]", "[null]", "[[]]",
        "[1,", "[1,2,3,4,5,6,7,8,9,10,11,12]", "[-1]", "[1.5]", "[18446744073709551616]", "[\"V0\"]",
        "[\"V0\",\"V0\"]", "[\"nope\"]", "[\"V0\",\"nope\"]", "[0]", "[\"0\"]", "{}", "{\"V0\":true}",
        "{\"V0\":false}", "{\"V0\":1}", "{\"V0\":null}", "{\"nope\":true}", "{\"nope\":false}",
        "{\"V0\":true,\"V0\":false}", "{\"V0\":true", "{\"0\":true}", "{\"V0\":true}}", "[0,\"V1\"]", "[true]",
        "[{\"V0\":null}]", "{\"V0\":{}}", "nul", "\u{1}", "[0 0]", "  [ 0 , 0 ]  ", "12 ", "0x1", "01", "+1",
        "[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,18446744073709551615]",
    ];
    for t in TEXTS {
        cx.call(Op::new("de_any").d(1).doc(json!({"t": "bad", "raw": t})).via("json"));
    }
    for t in [
        "unit", "bool", "str", "seq_unit", "seq_bool", "seq_big", "big", "map_unit", "map_int", "neg", "float", "bytes", "seq_neg",
        "seq_float", "map_neg",
    ] {
        cx.call(Op::new("de_any").d(1).doc(json!({"t": "bad", "raw": t})).via("token"));
    }
    for n in 0..6 * cx.scale {
        // Counts in front are kept small in part, so that elements get looked at.
        let len = cx.rng.below(40);
        let mut b: Vec<i64> = (0..len).map(|_| cx.rng.below(256) as i64).collect();
        if n % 2 == 0 && len >= 8 {
            b[0] = cx.rng.below(6) as i64;
            b[1..8].fill(0);
            if n % 4 == 0 {
                for x in &mut b[8..] {
                    if cx.rng.chance(80) {
                        *x = 0;
                    }
                }
            }
        }
        cx.call(Op::new("de_any").d(1).doc(json!({"t": "bad", "raw": b})).via("bincode"));
    }
}

// -------------------------------------------------------------- numbering
#[cfg(feature = "conv")]
fn numbering(cx: &mut Ctx) {
    cx.call(Op::new("vcount"));
    cx.call(Op::new("bwidth"));
    cx.call(Op::new("all").d(1).via("all"));
    cx.call(Op::new("all").d(1).via("ALL"));
    cx.call(Op::new("iter").i(1).a(1).via("iter"));
    cx.call(Op::new("rest").i(1).via("next"));
    let d = cx.d.clone();
    for v in d {
        cx.call(Op::new("disc").v(v));
        for via in ["only", "from", "into"] {
            cx.call(Op::new("single").d(2).v(v).via(via));
        }
        cx.call(Op::new("contains").a(2).v(v));
        cx.call(Op::new("iter").i(2).a(2).via("into_iter"));
        cx.call(Op::new("rest").i(2).via("next"));
        for n in [v / 64, v / 64 + 1] {
            if n <= 6 {
                for mode in ["try", "trunc"] {
                    cx.call(Op::new("to_array").a(2).n(n).mode(mode));
                }
            }
        }
    }
}

// -------------------------------------------------------------- coherence
fn equalities(cx: &mut Ctx) {
    let sets = cx.sets(6, 4);
    for _ in 0..3 * cx.scale {
        let x = cx.rng.pick(&sets).clone();
        let y = if cx.rng.chance(40) { x.clone() } else { cx.rng.pick(&sets).clone() };
        cx.load(1, &x);
        cx.load(2, &y);
        for via in ["eq", "ne"] {
            cx.call(Op::new("eq").a(1).b(2).via(via));
        }
        let v = cx.elem();
        for via in ["sv", "sv_ne"] {
            cx.call(Op::new("eqvs").v(v).a(1).via(via));
        }
        cx.call(Op::new("hash").a(1));
        cx.call(Op::new("hash").a(2));
    }
}
fn coherence(cx: &mut Ctx) {
    const N: i64 = 9;
    for round in 0..cx.scale.div_ceil(3) {
        if round > 0 {
            cx.declare(N as usize + 1);
        }
        let mut sets = cx.sets(4, 4);
        cx.rng.shuffle(&mut sets);
        for r in 1..=N {
            // Some sets twice, by different routes; some one element apart.
            let s = match r {
                1..=5 => sets[r as usize - 1].clone(),
                6 => sets[0].clone(),
                7 => {
                    let mut s = sets[1].clone();
                    let v = cx.elem();
                    match s.iter().position(|x| *x == v) {
                        Some(n) => {
                            s.remove(n);
                        }
                        None => s.push(v),
                    }
                    s
                }
                8 => vec![cx.elem()],
                _ => cx.random_set(),
            };
            cx.load(r, &s);
        }
        let mut pairs: Vec<(i64, i64)> = (1..=N).flat_map(|a| (1..=N).map(move |b| (a, b))).collect();
        cx.rng.shuffle(&mut pairs);
        for (a, b) in &pairs {
            for via in ["eq", "ne"] {
                cx.call(Op::new("eq").a(*a).b(*b).via(via));
            }
            for via in ["cmp", "partial"] {
                cx.call(Op::new("cmp").a(*a).b(*b).via(via));
            }
            cx.call(Op::new("cmp_all").a(*a).b(*b));
            cx.call(Op::new("extremes").a(*a).b(*b));
        }
        for r in 1..=N {
            cx.call(Op::new("hash").a(r));
        }
        for via in ["btree", "hash", "sort"] {
            cx.call(Op::new("keys").rs((1..=N).collect()).via(via));
            cx.call(Op::new("keys").rs(vec![1, 6, 1, 2]).via(via));
        }
        for via in ["btree", "hash", "bsearch"] {
            for a in 1..=N {
                let rs = (1..=N).filter(|_| cx.rng.chance(50)).collect();
                cx.call(Op::new("lookup").a(a).rs(rs).via(via));
            }
        }
        for a in [8, 1, 2, 7] {
            for v in cx.some_elems(6) {
                for via in ["sv", "sv_ne", "vs"] {
                    if via != "vs" || cx.has_ops() {
                        cx.call(Op::new("eqvs").v(v).a(a).via(via));
                    }
                }
            }
        }
    }
    // A set with just the variant, for every variant.
    for v in cx.d.clone() {
        cx.load(1, &[v]);
        let u = cx.elem();
        for via in ["sv", "sv_ne", "vs"] {
            if via != "vs" || cx.has_ops() {
                cx.call(Op::new("eqvs").v(v).a(1).via(via));
                cx.call(Op::new("eqvs").v(u).a(1).via(via));
            }
        }
    }
}

// --------------------------------------------------------------- rendering
fn fmt_call(cx: &mut Ctx, a: i64, f: &'static str, flags: &'static str) {
    let p = cx.ms[0].post_of(a as usize);
    let names: Vec<Value> = cx.ms[0]
        .names(&format!("{f}:{flags}"))
        .into_iter()
        .filter(|(d, _)| p.contains(d))
        .map(|(d, n)| json!([d, n]))
        .collect();
    let mut op = Op::new("fmt").a(a).f(f).mode(flags);
    op.names = Some(Value::Array(names));
    cx.call(op);
}
fn any_flags(cx: &mut Ctx) -> &'static str {
    let key = *cx.rng.pick(crate::fmts::FLAGS);
    let ty = *cx.rng.pick(&["", "", "x", "X"]);
    let (w, p) = (*cx.rng.pick(&[0, 1, 5, 18, 40]), *cx.rng.pick(&[0, 1, 3, 9]));
    leak(&format!("{key}{ty}|{w}|{p}"))
}
fn format(cx: &mut Ctx) {
    for s in cx.sets(5, cx.scale / 2) {
        cx.load(1, &s);
        for f in ["debug", "display"] {
            for flags in FLAGS {
                if s.len() <= 24 || ["", "#"].contains(flags) || cx.rng.chance(8) {
                    fmt_call(cx, 1, f, flags);
                }
            }
            // Any other combination.
            let more = if s.len() <= 2 { 9 } else if s.len() <= 24 { 4 } else { 1 };
            for _ in 0..more {
                let fl = any_flags(cx);
                fmt_call(cx, 1, f, fl);
            }
            if s.len() > 80 && cx.rng.chance(70) {
                continue;
            }
            let full = match f {
                "debug" => 9 + 7 * s.len(),
                _ => 7 * s.len(),
            };
            for n in [0, 1, 8, 9, 10, 11, 12, 13, 15, full / 2, full, full + 200, cx.rng.below(full + 3)] {
                let more = if cx.rng.chance(25) { Some(any_flags(cx)) } else { None };
                for flags in ["", "#"].into_iter().chain(more) {
                    let p = cx.ms[0].post_of(1);
                    let names: Vec<Value> = cx.ms[0]
                        .names(&format!("{f}:{flags}"))
                        .into_iter()
                        .filter(|(d, _)| p.contains(d))
                        .map(|(d, n)| json!([d, n]))
                        .collect();
                    if s.len() > 20 && n > 20 && n < full {
                        continue;
                    }
                    let mut op = Op::new("fmt_lim").a(1).f(f).mode(flags).n(n as i64);
                    op.names = Some(Value::Array(names));
                    cx.call(op);
                }
            }
        }
    }
}

// ------------------------------------------------------------ bare variants
fn bare(cx: &mut Ctx) {
    let vs = cx.some_elems(12);
    for v in cx.d.clone() {
        for via in ["only", "from", "into"] {
            cx.call(Op::new("single").d(1).v(v).via(via));
        }
        for u in (0..16).map(|k| v ^ (1 << k)) {
            if cx.d.contains(&u) {
                for via in ["eq", "ne"] {
                    cx.call(Op::new("eqvv").v(v).u(u).via(via));
                }
            }
        }
        if cx.has_ops() {
            cx.call(Op::new("notv").d(2).v(v));
            for f in F {
                let u = cx.elem();
                cx.call(Op::new("binvv").f(f).d(3).v(v).u(u));
                cx.call(Op::new("binvv").f(f).d(3).v(v).u(v));
            }
        }
    }
    for v in &vs {
        for u in &vs {
            for via in ["eq", "ne"] {
                cx.call(Op::new("eqvv").v(*v).u(*u).via(via));
            }
            if cx.has_ops() {
                for f in F {
                    cx.call(Op::new("binvv").f(f).d(3).v(*v).u(*u));
                }
            }
        }
    }
    let sets = cx.sets(4, 4);
    for _ in 0..4 * cx.scale {
        let s = cx.rng.pick(&sets).clone();
        cx.load(4, &s);
        let v = cx.elem();
        let v = if cx.rng.chance(50) && !s.is_empty() { *cx.rng.pick(&s) } else { v };
        for f in F {
            if cx.has_ops() {
                cx.call(Op::new("binvs").f(f).d(5).v(v).b(4));
            }
            for via in ["op", "assign"] {
                cx.call(Op::new("binsv").f(f).d(5).a(4).v(v).via(via));
            }
        }
        cx.load(6, &[v]);
        for a in [4, 6] {
            for via in ["sv", "sv_ne", "vs"] {
                if via != "vs" || cx.has_ops() {
                    cx.call(Op::new("eqvs").v(v).a(a).via(via));
                }
            }
        }
    }
}

// ----------------------------------------------------------------- closure
/// Histories over everything that can produce a set; every set that appears
/// is projected, measured and iterated.
fn closure_history(cx: &mut Ctx) {
    let look = |cx: &mut Ctx, r: i64| {
        cx.call(Op::new("len").a(r));
        cx.call(Op::new("iter").i(1).a(r).via("iter"));
        let (op, via) = *cx.rng.pick(&REST[..14]);
        cx.call(Op::new(op).i(1).via(via));
    };
    cx.call(Op::new("all").d(1).via("all"));
    look(cx, 1);
    cx.call(Op::new("all").d(1).via("ALL"));
    cx.call(Op::new("empty").d(2).via("new"));
    cx.call(Op::new("compl").d(3).a(2).via("op"));
    look(cx, 3);
    cx.call(Op::new("compl").d(4).a(2).via("method"));
    look(cx, 4);
    if cx.d.is_empty() {
        return;
    }
    for v in cx.some_elems(20) {
        if cx.has_ops() {
            cx.call(Op::new("notv").d(5).v(v));
            look(cx, 5);
        }
        cx.call(Op::new("single").d(6).v(v).via("only"));
        look(cx, 6);
        cx.call(Op::new("compl").d(6).a(6).via("method"));
        look(cx, 6);
    }
    for r in 1..=6 {
        let s = cx.random_set();
        cx.load(r, &s);
    }
    for _ in 0..25 * cx.scale {
        let d = 1 + cx.rng.below(6) as i64;
        let a = 1 + cx.rng.below(6) as i64;
        let b = 1 + cx.rng.below(6) as i64;
        let v = cx.elem();
        match cx.rng.below(if cfg!(feature = "conv") { 14 + 2 * cx.ser as usize } else { 8 }) {
            0 => cx.call(Op::new("compl").d(d).a(a).via("op")),
            1 | 2 => {
                let f = *cx.rng.pick(F);
                let via = *cx.rng.pick(&["method", "op", "assign"]);
                cx.call(Op::new("bin").f(f).d(d).a(a).b(b).via(via))
            }
            3 => cx.call(Op::new("insert").d(d).v(v)),
            4 => cx.call(Op::new("remove").d(d).v(v)),
            5 => {
                let f = *cx.rng.pick(F);
                cx.call(Op::new("binsv").f(f).d(d).a(a).v(v).via("op"))
            }
            6 => cx.call(Op::new("from_sets").d(d).rs(vec![a, b]).via("sum")),
            7 => cx.call(Op::new("compl").d(d).a(a).via("method")),
            8..=10 => {
                let (f, w) = *cx.rng.pick(INTS);
                let p = *cx.rng.pick(&[2u64, 50, 100]);
                let vs: Vec<i64> = (0..w).filter(|_| cx.rng.chance(p)).collect();
                let mode = *cx.rng.pick(&["trunc", "trunc", "try", "panic"]);
                cx.call(Op::new("from_int").d(d).f(f).w(w).vs(vs).mode(mode))
            }
            11..=13 => {
                let n = cx.rng.below(cx.words().min(9) as usize + 3);
                let p = *cx.rng.pick(&[2u64, 50, 100]);
                let ws: Vec<Vec<i64>> = (0..n).map(|_| (0..64).filter(|_| cx.rng.chance(p)).collect()).collect();
                let mode = *cx.rng.pick(&["trunc", "trunc", "try", "panic"]);
                let via = if n <= 6 { *cx.rng.pick(&["array", "slice"]) } else { "slice" };
                cx.call(Op::new("from_array").d(d).ws(ws).mode(mode).via(via))
            }
            14 if cx.info().w > 0 => {
                let w = cx.info().w;
                let p = *cx.rng.pick(&[2u64, 50, 100]);
                let vs: Vec<i64> = (0..w).filter(|_| cx.rng.chance(p)).collect();
                let mode = *cx.rng.pick(&["trunc", "trunc", "try", "panic"]);
                cx.call(Op::new("from_repr").d(d).vs(vs).mode(mode))
            }
            _ => {
                let p = *cx.rng.pick(&[2u64, 50, 100]);
                let w = match cx.info().kind {
                    "u8" => 8,
                    "u16" => 16,
                    "u32" => 32,
                    "u64" => 64,
                    "u128" => 128,
                    _ => 0,
                };
                let doc = if w > 0 {
                    json!({"t": "int", "w": w, "bits": (0..w).filter(|_| cx.rng.chance(p)).collect::<Vec<i64>>()})
                } else if cx.info().kind == "array" {
                    let n = cx.rng.below(cx.words().min(9) as usize + 3);
                    json!({"t": "words", "ws": (0..n).map(|_| (0..64).filter(|_| cx.rng.chance(p)).collect())
                        .collect::<Vec<Vec<i64>>>()})
                } else {
                    continue;
                };
                let via = *cx.rng.pick(&["json", "bincode", "token"]);
                cx.call(Op::new("de").d(d).doc(doc).via(via))
            }
        };
        if cx.rng.chance(40) {
            look(cx, d);
        }
    }
}
