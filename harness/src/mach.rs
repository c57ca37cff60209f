//! The machine that makes the calls: a bank of set variables and live
//! iterators over one enum, driven by `Op`s and reporting `Obs`ervations.
use crate::fmts::write_flags;
use crate::op::*;
use enumset::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Operators with bare variants, for enums derived with them.
pub struct VarOps<T: EnumSetType> {
    pub vv: fn(&str, T, T) -> EnumSet<T>,
    pub vs: fn(&str, T, EnumSet<T>) -> EnumSet<T>,
    pub not: fn(T) -> EnumSet<T>,
    pub eqvs: fn(T, EnumSet<T>) -> bool,
}
pub fn var_ops<T>() -> Option<VarOps<T>>
where
    T: EnumSetType
        + PartialEq<EnumSet<T>>
        + Not<Output = EnumSet<T>>
        + BitOr<T, Output = EnumSet<T>>
        + BitAnd<T, Output = EnumSet<T>>
        + BitXor<T, Output = EnumSet<T>>
        + Sub<T, Output = EnumSet<T>>
        + BitOr<EnumSet<T>, Output = EnumSet<T>>
        + BitAnd<EnumSet<T>, Output = EnumSet<T>>
        + BitXor<EnumSet<T>, Output = EnumSet<T>>
        + Sub<EnumSet<T>, Output = EnumSet<T>>,
{
    Some(VarOps {
        vv: |f, a, b| match f {
            "or" => a | b,
            "and" => a & b,
            "xor" => a ^ b,
            "sub" => a - b,
            _ => unreachable!(),
        },
        vs: |f, a, b| match f {
            "or" => a | b,
            "and" => a & b,
            "xor" => a ^ b,
            "sub" => a - b,
            _ => unreachable!(),
        },
        not: |a| !a,
        eqvs: |a, b| a == b,
    })
}

/// What a shape is: the declaration it was generated from.
#[derive(Clone, Copy)]
pub struct Info {
    pub name: &'static str,
    pub group: &'static str,
    pub tags: &'static [&'static str],
    pub w: i64,
    pub kind: &'static str,
    pub deny: bool,
}

pub trait Shape: EnumSetType + Ord + Debug + Display + Sized + 'static {
    const INFO: Info;
    fn table() -> Vec<(Self, i64)>;
    /// The enum's own integer value (`v as u64`), where that is what is declared.
    fn as_int(self) -> i64;
    fn ops() -> Option<VarOps<Self>> {
        None
    }
    #[cfg(feature = "conv")]
    fn repr() -> Option<crate::conv::ReprOps<Self>> {
        None
    }
    fn elem_name(self) -> &'static str;
}

pub trait Machine {
    fn info(&self) -> Info;
    fn elems(&self) -> Vec<i64>;
    fn caps(&self) -> Caps;
    fn reset(&mut self, nreg: usize);
    fn exec(&mut self, op: &Op) -> Obs;
    fn names(&self, flags: &str) -> Vec<(i64, String)>;
    fn post_of(&self, reg: usize) -> Vec<i64>;
}
#[derive(Clone, Copy)]
pub struct Caps {
    pub ops: bool,
    pub repr: bool,
}

pub struct Mach<T: Shape> {
    pub table: Vec<(T, i64)>,
    pub by_disc: HashMap<i64, T>,
    pub to_disc: fn(&Mach<T>, T) -> i64,
    pub regs: Vec<EnumSet<T>>,
    seen: Vec<(Option<EnumSet<T>>, Vec<i64>)>,
    its: HashMap<i64, EnumSetIter<T>>,
    hashes: HashMap<Vec<u8>, i64>,
}

/// The hasher writes down everything it is given.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(&(b.len() as u64).to_le_bytes());
        self.0.extend_from_slice(b);
    }
}

/// A writer of limited capacity: refuses what does not fit as a whole.
struct Lim {
    out: String,
    left: usize,
}
impl Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = s.chars().count();
        if n > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= n;
        self.out.push_str(s);
        Ok(())
    }
}

const CAP: usize = 1 << 20;
pub fn capped(n: usize) {
    if n > CAP {
        panic!("iterates without end")
    }
}

fn bytes_of<T: Shape>(s: &EnumSet<T>) -> &[u8] {
    // EnumSet is plain data without padding: one integer or an array of u64.
    unsafe { std::slice::from_raw_parts(s as *const _ as *const u8, std::mem::size_of_val(s)) }
}

fn fmt_flags<X: Debug + Display>(x: &X, kind: &str, flags: &str) -> String {
    let mut out = String::new();
    write_flags(&mut out, x, x, kind, flags).unwrap();
    out
}
/// Combinations always tried; others are drawn from `fmts::FLAGS`.
pub const FLAGS: &[&str] = &[
    "", "#", "w|12", "*>w|9", "+", "0w|7", "p||2", "*>wp|8|3", "x", "X", "#x", "#p||1", "#w|6", "-", "é^#0wp|20|0",
];

/// Renders a variant in a way that shows every flag it was given.
pub fn show(name: &str, kind: char, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if name.is_empty() {
        return Ok(());
    }
    f.write_str(name)?;
    f.write_char(kind)?;
    if f.alternate() {
        f.write_str("#")?;
    }
    if f.sign_plus() {
        f.write_str("+")?;
    }
    if f.sign_minus() {
        f.write_str("-")?;
    }
    if f.sign_aware_zero_pad() {
        f.write_str("0")?;
    }
    if let Some(w) = f.width() {
        write!(f, "w{}{}", w, f.fill())?;
        f.write_str(match f.align() {
            None => "",
            Some(std::fmt::Alignment::Left) => "l",
            Some(std::fmt::Alignment::Right) => "r",
            Some(std::fmt::Alignment::Center) => "c",
        })?;
    }
    if let Some(p) = f.precision() {
        write!(f, "p{}", p)?;
    }
    if kind == 'd' {
        // Whether integers are shown in hexadecimal.
        std::fmt::Debug::fmt(&171u8, f)?;
    }
    Ok(())
}

impl<T: Shape> Mach<T> {
    pub fn boxed() -> Box<dyn Machine> {
        let table = T::table();
        let by_disc = table.iter().map(|(v, d)| (*d, *v)).collect();
        Box::new(Mach {
            table,
            by_disc,
            to_disc: |m, v| m.table.iter().find(|x| x.0 == v).map_or(-3, |x| x.1),
            regs: vec![],
            seen: vec![],
            its: HashMap::new(),
            hashes: HashMap::new(),
        })
    }
    pub fn v(&self, d: Option<i64>) -> T {
        self.by_disc[&d.unwrap()]
    }
    fn opt(&self, v: Option<T>) -> Res {
        Res::opt(v.map(|v| (self.to_disc)(self, v)))
    }
    pub fn project(&self, s: EnumSet<T>) -> Vec<i64> {
        catch_unwind(AssertUnwindSafe(|| {
            let mut out = vec![];
            let mut again = EnumSet::empty();
            for (v, d) in &self.table {
                if s.contains(*v) {
                    out.push(*d);
                    again.insert(*v);
                }
            }
            out.sort();
            if again != s || s.len() != out.len() {
                out.push(-1);
            }
            out
        }))
        .unwrap_or_else(|_| vec![-2])
    }

    fn vars(&self, vs: &[i64]) -> Vec<T> {
        vs.iter().map(|d| self.by_disc[d]).collect()
    }
    fn sets(&self, rs: &[i64]) -> Vec<EnumSet<T>> {
        rs.iter().map(|r| self.regs[*r as usize - 1]).collect()
    }

    /// Builds a set with the given elements by one of several routes.
    fn build(&self, vs: &[i64], via: &str) -> EnumSet<T> {
        let vars = self.vars(vs);
        let collected = || vars.iter().copied().collect::<EnumSet<T>>();
        match via {
            "insert" => {
                let mut s = EnumSet::new();
                for v in &vars {
                    s.insert(*v);
                }
                s
            }
            "collect" => collected(),
            "remove" => {
                let mut s = EnumSet::all();
                for (v, d) in &self.table {
                    if !vs.contains(d) {
                        s.remove(*v);
                    }
                }
                s
            }
            "compl" => !(!collected()),
            "compl2" => EnumSet::all() - collected().complement(),
            "xor" => collected() ^ EnumSet::all() ^ EnumSet::all(),
            "and" => EnumSet::all() & collected(),
            "sum" => vars.iter().copied().sum(),
            "slice_trunc" => {
                let mut n = vec![!0u64; 1 + self.table.iter().map(|x| x.1 as usize / 64).max().unwrap_or(0)];
                for (_, d) in &self.table {
                    if !vs.contains(d) {
                        n[*d as usize / 64] &= !(1 << (d % 64));
                    }
                }
                EnumSet::from_slice_truncated(&n)
            }
            "iter" => collected().iter().collect(),
            "union" => {
                let (x, y) = vars.split_at(vars.len() / 2);
                x.iter().copied().collect::<EnumSet<T>>() | y.iter().copied().collect::<EnumSet<T>>()
            }
            _ => unreachable!("build via {via}"),
        }
    }

    fn run(&mut self, op: &Op) -> Res {
        let via = op.via.unwrap_or("");
        macro_rules! d { () => { self.regs[op.reg(op.d)] }; }
        macro_rules! a { () => { self.regs[op.reg(op.a)] }; }
        macro_rules! b { () => { self.regs[op.reg(op.b)] }; }
        macro_rules! it { () => { self.its.get_mut(&op.i.unwrap()).unwrap() }; }
        match op.op {
            "load" => {
                d!() = self.build(op.vs.as_ref().unwrap(), via);
                Res::unit()
            }
            "empty" => {
                #[allow(deprecated)]
                let x = match via {
                    "new" => EnumSet::new(),
                    "empty" => EnumSet::empty(),
                    "default" => EnumSet::default(),
                    "EMPTY" => EnumSet::EMPTY,
                    "enum_set" => enum_set!(),
                    _ => unreachable!(),
                };
                d!() = x;
                Res::unit()
            }
            "all" => {
                #[allow(deprecated)]
                let x = match via {
                    "all" => EnumSet::all(),
                    "ALL" => EnumSet::ALL,
                    _ => unreachable!(),
                };
                d!() = x;
                Res::unit()
            }
            "single" => {
                let v = self.v(op.v);
                d!() = match via {
                    "only" => EnumSet::only(v),
                    "from" => EnumSet::from(v),
                    "into" => v.into(),
                    _ => unreachable!(),
                };
                Res::unit()
            }
            "copy" => {
                #[allow(clippy::clone_on_copy)]
                let x = match via {
                    "copy" => a!(),
                    "clone" => a!().clone(),
                    "from" => EnumSet::from(a!()),
                    _ => unreachable!(),
                };
                d!() = x;
                Res::unit()
            }
            "bin" => {
                let (x, y) = (a!(), b!());
                let f = op.f.unwrap();
                match via {
                    "method" => {
                        d!() = match f {
                            "or" => x.union(y),
                            "and" => x.intersection(y),
                            "sub" => x.difference(y),
                            "xor" => x.symmetrical_difference(y),
                            _ => unreachable!(),
                        }
                    }
                    "op" => {
                        d!() = match f {
                            "or" => x | y,
                            "and" => x & y,
                            "sub" => x - y,
                            "xor" => x ^ y,
                            _ => unreachable!(),
                        }
                    }
                    "assign" => {
                        let mut t = x;
                        match f {
                            "or" => t |= y,
                            "and" => t &= y,
                            "sub" => t -= y,
                            "xor" => t ^= y,
                            _ => unreachable!(),
                        }
                        d!() = t;
                    }
                    _ => unreachable!(),
                }
                Res::unit()
            }
            "compl" => {
                let x = a!();
                d!() = match via {
                    "method" => x.complement(),
                    "op" => !x,
                    _ => unreachable!(),
                };
                Res::unit()
            }
            "contains" => Res::bool(a!().contains(self.v(op.v))),
            "len" => Res::int(a!().len() as i64),
            "is_empty" => Res::bool(a!().is_empty()),
            "subset" => Res::bool(a!().is_subset(b!())),
            "superset" => Res::bool(a!().is_superset(b!())),
            "disjoint" => Res::bool(a!().is_disjoint(b!())),
            "vcount" => Res::int(EnumSet::<T>::variant_count() as i64),
            "bwidth" => Res::int(EnumSet::<T>::bit_width() as i64),

            "insert" => {
                let v = self.v(op.v);
                Res::bool(d!().insert(v))
            }
            "remove" => {
                let v = self.v(op.v);
                Res::bool(d!().remove(v))
            }
            "insert_all" => {
                let x = a!();
                d!().insert_all(x);
                Res::unit()
            }
            "remove_all" => {
                let x = a!();
                d!().remove_all(x);
                Res::unit()
            }
            "clear" => {
                d!().clear();
                Res::unit()
            }
            "ext_elems" => {
                let vs = self.vars(op.vs.as_ref().unwrap());
                match via {
                    "vec" => d!().extend(vs),
                    "iter" => d!().extend(vs.iter().copied()),
                    "filter" => d!().extend(vs.iter().copied().filter(|_| true)),
                    "set" => d!().extend(vs.into_iter().collect::<EnumSet<T>>()),
                    _ => source(via, vs, self.table.iter().map(|x| x.0).collect(), |x| d!().extend(x)),
                }
                Res::unit()
            }
            "ext_sets" => {
                let ss = self.sets(op.rs.as_ref().unwrap());
                match via {
                    "vec" => d!().extend(ss),
                    "iter" => d!().extend(ss.iter().copied()),
                    "filter" => d!().extend(ss.iter().copied().filter(|_| true)),
                    _ => source(via, ss, vec![EnumSet::all()], |x| d!().extend(x)),
                }
                Res::unit()
            }
            "cut_elems" => {
                let vs = self.vars(op.vs.as_ref().unwrap());
                match via {
                    "vec" => d!().extend(Cut(vs.into_iter())),
                    _ => source(via, vs, vec![], |x| d!().extend(Cut(x))),
                }
                Res::unit()
            }
            "cut_sets" => {
                let ss = self.sets(op.rs.as_ref().unwrap());
                match via {
                    "vec" => d!().extend(Cut(ss.into_iter())),
                    _ => source(via, ss, vec![], |x| d!().extend(Cut(x))),
                }
                Res::unit()
            }
            "from_elems" => {
                let vs = self.vars(op.vs.as_ref().unwrap());
                d!() = match via {
                    "collect" => vs.into_iter().collect(),
                    "from_iter" => EnumSet::from_iter(vs),
                    "sum" => vs.into_iter().sum(),
                    "sumref" => vs.iter().sum(),
                    "sum_source" => source("source", vs, vec![], |x| x.sum()),
                    "sum_unfused" => source("unfused", vs, self.table.iter().map(|x| x.0).collect(), |x| x.sum()),
                    _ => source(via, vs, self.table.iter().map(|x| x.0).collect(), |x| x.collect()),
                };
                Res::unit()
            }
            "from_sets" => {
                let ss = self.sets(op.rs.as_ref().unwrap());
                d!() = match via {
                    "collect" => ss.into_iter().collect(),
                    "from_iter" => EnumSet::from_iter(ss),
                    "sum" => ss.into_iter().sum(),
                    "sumref" => ss.iter().sum(),
                    "sum_source" => source("source", ss, vec![], |x| x.sum()),
                    "sum_unfused" => source("unfused", ss, vec![EnumSet::all()], |x| x.sum()),
                    _ => source(via, ss, vec![EnumSet::all()], |x| x.collect()),
                };
                Res::unit()
            }

            "iter" => {
                let x = match via {
                    "iter" => a!().iter(),
                    "into_iter" => a!().into_iter(),
                    _ => unreachable!(),
                };
                self.its.insert(op.i.unwrap(), x);
                Res::unit()
            }
            "iter_clone" => {
                let x = self.its[&op.j.unwrap()].clone();
                self.its.insert(op.i.unwrap(), x);
                Res::unit()
            }
            "next" => {
                let x = it!().next();
                self.opt(x)
            }
            "next_back" => {
                let x = match via {
                    "next_back" => it!().next_back(),
                    "rev" => it!().by_ref().rev().next(),
                    _ => unreachable!(),
                };
                self.opt(x)
            }
            "nth" => {
                let n = count(op.n.unwrap());
                let x = match via {
                    "nth" => it!().nth(n),
                    "skip" => it!().by_ref().skip(n).next(),
                    "rev_nth_back" => it!().by_ref().rev().nth_back(n),
                    // The same by the methods that stop early.
                    "find" => it!().find(after(n)),
                    "find_map" => {
                        let mut f = after(n);
                        it!().find_map(|v| if f(&v) { Some(v) } else { None })
                    }
                    "try_fold" => it!().try_fold(n, stop_at).err(),
                    "any" => {
                        let (mut f, mut x) = (after(n), None);
                        it!().any(|v| f(&v) && { x = Some(v); true });
                        x
                    }
                    "all" => {
                        let (mut f, mut x) = (after(n), None);
                        it!().all(|v| !f(&v) || { x = Some(v); false });
                        x
                    }
                    "position" => {
                        let (mut f, mut x) = (after(n), None);
                        let at = it!().position(|v| f(&v) && { x = Some(v); true });
                        assert_eq!(at, x.map(|_| n));
                        x
                    }
                    // A closure that panics ends the iteration too.
                    "cut" => cut(n, |f| it!().by_ref().for_each(f)),
                    "cut_fold" => cut(n, |f| it!().by_ref().fold((), |_, v| f(v))),
                    "skip_while" => {
                        let mut f = after(n);
                        it!().by_ref().skip_while(|v| !f(v)).next()
                    }
                    _ => unreachable!(),
                };
                self.opt(x)
            }
            "nth_back" => {
                let n = count(op.n.unwrap());
                let x = match via {
                    "nth_back" => it!().nth_back(n),
                    "rev_nth" => it!().by_ref().rev().nth(n),
                    "rfind" => it!().rfind(after(n)),
                    "try_rfold" => it!().try_rfold(n, stop_at).err(),
                    "rev_position" => {
                        let (mut f, mut x) = (after(n), None);
                        let at = it!().by_ref().rev().position(|v| f(&v) && { x = Some(v); true });
                        assert_eq!(at, x.map(|_| n));
                        x
                    }
                    "cut" => cut(n, |f| it!().by_ref().rev().for_each(f)),
                    "cut_fold" => cut(n, |f| it!().by_ref().rfold((), |_, v| f(v))),
                    "rposition" => {
                        let len = it!().len();
                        let (mut f, mut x) = (after(n), None);
                        let at = it!().rposition(|v| f(&v) && { x = Some(v); true });
                        assert_eq!(at, x.map(|_| len - 1 - n));
                        x
                    }
                    _ => unreachable!(),
                };
                self.opt(x)
            }
            "size_hint" => {
                let (lo, hi) = it!().size_hint();
                let len = it!().len();
                Res::bits(vec![lo as i64, hi.map_or(-1, |x| x as i64), len as i64])
            }
            "rest" | "rest_back" | "count" | "last" => {
                let x = it!().clone();
                self.consume(op.op, via, x)
            }

            "binvv" => {
                let (v, u) = (self.v(op.v), self.v(op.u));
                d!() = (T::ops().unwrap().vv)(op.f.unwrap(), v, u);
                Res::unit()
            }
            "binvs" => {
                let (v, y) = (self.v(op.v), b!());
                d!() = (T::ops().unwrap().vs)(op.f.unwrap(), v, y);
                Res::unit()
            }
            "binsv" => {
                let (x, v) = (a!(), self.v(op.v));
                match via {
                    "op" => {
                        d!() = match op.f.unwrap() {
                            "or" => x | v,
                            "and" => x & v,
                            "sub" => x - v,
                            "xor" => x ^ v,
                            _ => unreachable!(),
                        }
                    }
                    "assign" => {
                        let mut t = x;
                        match op.f.unwrap() {
                            "or" => t |= v,
                            "and" => t &= v,
                            "sub" => t -= v,
                            "xor" => t ^= v,
                            _ => unreachable!(),
                        }
                        d!() = t;
                    }
                    _ => unreachable!(),
                }
                Res::unit()
            }
            "notv" => {
                d!() = (T::ops().unwrap().not)(self.v(op.v));
                Res::unit()
            }
            "eqvv" => {
                let (v, u) = (self.v(op.v), self.v(op.u));
                Res::bool(match via {
                    "eq" => v == u,
                    "ne" => !(v != u),
                    _ => unreachable!(),
                })
            }
            "eqvs" => {
                let (v, x) = (self.v(op.v), a!());
                Res::bool(match via {
                    "sv" => x == v,
                    "sv_ne" => !(x != v),
                    "vs" => (T::ops().unwrap().eqvs)(v, x),
                    _ => unreachable!(),
                })
            }
            "eq" => {
                let (x, y) = (a!(), b!());
                Res::bool(match via {
                    "eq" => x == y,
                    "ne" => !(x != y),
                    _ => unreachable!(),
                })
            }
            "cmp" => {
                let (x, y) = (a!(), b!());
                let c = match via {
                    "cmp" => x.cmp(&y),
                    "partial" => match x.partial_cmp(&y) {
                        Some(c) => c,
                        None => return Res::kind("none"),
                    },
                    _ => unreachable!(),
                };
                Res::int(c as i8 as i64)
            }
            "cmp_all" => {
                let (x, y) = (a!(), b!());
                Res::ok(R::Bools(vec![x < y, x <= y, x > y, x >= y, x == y, x != y]))
            }
            "extremes" => {
                let (x, y) = (a!(), b!());
                Res::ok(R::Intss(vec![self.project(x.max(y)), self.project(x.min(y))]))
            }
            "hash" => {
                let mut t = Tape::default();
                a!().hash(&mut t);
                let n = self.hashes.len() as i64;
                Res::int(*self.hashes.entry(t.0).or_insert(n))
            }
            "keys" => {
                let ss = self.sets(op.rs.as_ref().unwrap());
                Res::int(match via {
                    "btree" => ss.into_iter().collect::<BTreeSet<_>>().len(),
                    "hash" => ss.into_iter().collect::<HashSet<_>>().len(),
                    "sort" => {
                        let mut ss = ss;
                        ss.sort();
                        ss.dedup();
                        ss.len()
                    }
                    _ => unreachable!(),
                } as i64)
            }
            "lookup" => {
                let ss = self.sets(op.rs.as_ref().unwrap());
                let x = a!();
                Res::bool(match via {
                    "btree" => ss.into_iter().collect::<BTreeSet<_>>().contains(&x),
                    "hash" => ss.into_iter().collect::<HashSet<_>>().contains(&x),
                    "bsearch" => {
                        let mut ss = ss;
                        ss.sort();
                        ss.binary_search(&x).is_ok()
                    }
                    _ => unreachable!(),
                })
            }
            "fmt" => Res::ok(R::Str(fmt_flags(&a!(), op.f.unwrap(), op.mode.unwrap()))),
            "fmt_lim" => {
                let mut w = Lim { out: String::new(), left: op.n.unwrap() as usize };
                let x = a!();
                let r = write_flags(&mut w, &x, &x, op.f.unwrap(), op.mode.unwrap());
                Res { k: if r.is_ok() { "ok" } else { "err" }, r: R::Str(w.out) }
            }
            // The discriminant of a variant according to rustc.
            "disc" => Res::int(self.v(op.v).as_int()),
            #[cfg(feature = "conv")]
            "to_int" | "from_int" | "to_array" | "into_slice" | "from_array" | "to_vec" | "layout"
            | "memory" | "as_repr" | "from_repr" => self.run_conv(op),
            #[cfg(feature = "ser")]
            "ser" | "de" | "roundtrip" | "de_any" | "ser_fail" | "de_fail" | "de_place" => self.run_ser(op),
            _ => unreachable!("op {}", op.op),
        }
    }

    fn consume(&self, what: &str, via: &str, x: EnumSetIter<T>) -> Res {
        let to = |v: T| (self.to_disc)(self, v);
        let mut out: Vec<i64> = vec![];
        let mut push = |v: T| {
            capped(out.len());
            out.push(to(v));
        };
        match (what, via) {
            ("rest", "next") => {
                let mut x = x;
                while let Some(v) = x.next() {
                    push(v);
                }
            }
            ("rest", "for") => {
                for v in x {
                    push(v);
                }
            }
            ("rest", "for_each") => x.for_each(push),
            ("rest", "fold") => x.fold((), |_, v| push(v)),
            ("rest", "try_fold") => {
                let mut x = x;
                let _ = x.try_fold((), |_, v| {
                    push(v);
                    Some(())
                });
            }
            ("rest", "collect") => x.map(|v| to(v)).take(CAP).collect::<Vec<_>>().into_iter().for_each(|v| out.push(v)),
            ("rest", "step_by") => x.step_by(1).for_each(push),
            ("rest", "chunks") => {
                let mut x = x;
                loop {
                    let n: Vec<T> = x.by_ref().take(2).collect();
                    if n.is_empty() {
                        break;
                    }
                    n.into_iter().for_each(&mut push);
                }
            }
            ("rest", "peek") => {
                let mut x = x.peekable();
                while x.peek().is_some() {
                    push(x.next().unwrap());
                }
            }
            ("rest", "zip") => x.clone().zip(x).for_each(|(v, u)| {
                assert!(to(v) == to(u));
                push(v)
            }),
            ("rest", "enumerate") => {
                let mut next = 0;
                x.enumerate().for_each(|(n, v)| {
                    assert_eq!(n, next);
                    next += 1;
                    push(v)
                })
            }
            ("rest", "chain") => x.clone().take(0).chain(x).for_each(push),
            ("rest", "flat_map") => x.flat_map(Some).for_each(push),
            ("rest", "partition") => {
                let (v, u): (Vec<T>, Vec<T>) = x.partition(|v| to(*v) % 64 < 32);
                let mut all: Vec<i64> = v.into_iter().chain(u).map(to).collect();
                all.sort();
                out = all;
            }
            ("rest", "set") => out = self.project(x.collect::<EnumSet<T>>()),
            ("rest", "min_by_key") => {
                let mut x = x;
                while let Some(v) = x.clone().min_by_key(|v| to(*v)) {
                    push(v);
                    x.next();
                }
            }
            ("rest", "max") => {
                let mut x = x;
                while let Some(v) = x.clone().max() {
                    push(v);
                    x.next();
                }
            }
            ("rest_back", "min") => {
                let mut x = x;
                while let Some(v) = x.clone().min() {
                    push(v);
                    x.next_back();
                }
            }
            ("rest_back", "max_by_key") => {
                let mut x = x;
                while let Some(v) = x.clone().max_by_key(|v| to(*v)) {
                    push(v);
                    x.next_back();
                }
            }
            ("rest_back", "rev_step") => x.rev().step_by(1).for_each(push),
            ("rest", "rev_rfold") => x.rev().rfold((), |_, v| push(v)),
            ("rest_back", "next_back") => {
                let mut x = x;
                while let Some(v) = x.next_back() {
                    push(v);
                }
            }
            ("rest_back", "rev") => {
                for v in x.rev() {
                    push(v);
                }
            }
            ("rest_back", "rfold") => x.rfold((), |_, v| push(v)),
            ("rest_back", "rev_fold") => x.rev().fold((), |_, v| push(v)),
            ("rest_back", "try_rfold") => {
                let mut x = x;
                let _ = x.try_rfold((), |_, v| {
                    push(v);
                    Some(())
                });
            }
            ("count", "count") => return Res::int(x.count() as i64),
            ("count", "len") => return Res::int(x.len() as i64),
            ("count", "rev") => return Res::int(x.rev().count() as i64),
            ("last", "last") => return self.opt(x.last()),
            ("count", "fold") => return Res::int(x.fold(0, |n, _| n + 1)),
            ("count", "rfold") => return Res::int(x.rfold(0, |n, _| n + 1)),
            ("count", "enumerate") => return Res::int(x.enumerate().last().map_or(0, |p| p.0 as i64 + 1)),
            ("last", "max_by") => return self.opt(x.max_by(|v, u| to(*v).cmp(&to(*u)))),
            ("last", "min") => return self.opt(x.min()),
            ("last", "is_sorted") => {
                assert!(x.clone().is_sorted_by(|v, u| to(*v) < to(*u)) && x.clone().rev().is_sorted());
                assert!(x.clone().count() < 2 || !x.clone().is_sorted());
                return self.opt(x.last());
            }
            ("last", "rev_nth") => {
                let mut x = x.rev();
                return self.opt(x.nth(0));
            }
            ("last", "reduce") => return self.opt(x.reduce(|_, v| v)),
            _ => unreachable!("{what} via {via}"),
        }
        Res::bits(out)
    }
}

/// A count of the log; its largest one stands for the largest there is.
fn count(n: i64) -> usize {
    if n == i32::MAX as i64 { usize::MAX } else { n as usize }
}
/// True at the call after n calls.
fn after<T>(n: usize) -> impl FnMut(&T) -> bool {
    let mut left = n;
    move |_| if left == 0 { true } else { left -= 1; false }
}
/// The value at the call after n calls, at which f panics.
fn cut<T>(n: usize, g: impl FnOnce(&mut dyn FnMut(T))) -> Option<T> {
    let (mut left, mut at) = (n, None);
    let mut f = |v| {
        if left == 0 {
            at = Some(v);
            std::panic::resume_unwind(Box::new(()));
        }
        left -= 1;
    };
    let _ = catch_unwind(AssertUnwindSafe(|| g(&mut f)));
    at
}
fn stop_at<T>(left: usize, v: T) -> Result<usize, T> {
    if left == 0 { Err(v) } else { Ok(left - 1) }
}

/// Elements by an iterator that tells nothing of its length.
struct Mute<I>(I);
impl<I: Iterator> Iterator for Mute<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
/// .. that could have any number.
struct Wide<I>(I);
impl<I: Iterator> Iterator for Wide<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(usize::MAX))
    }
}
/// .. that panics at its end, once.
struct Cut<I>(I);
impl<I: Iterator> Iterator for Cut<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        Some(self.0.next().unwrap_or_else(|| std::panic::resume_unwind(Box::new(()))))
    }
}
/// .. that goes on after its end.
struct Unfused<I, J>(Option<I>, J);
impl<I: Iterator, J: Iterator<Item = I::Item>> Iterator for Unfused<I, J> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match &mut self.0 {
            Some(x) => x.next().or_else(|| { self.0 = None; None }),
            None => self.1.next(),
        }
    }
}
/// Gives f the elements by one iterator or another; what comes `after` their
/// end is not to be taken.
fn source<X: Copy, R>(via: &str, v: Vec<X>, after: Vec<X>, f: impl FnOnce(&mut dyn Iterator<Item = X>) -> R) -> R {
    match via {
        "source" => f(&mut Mute(v.into_iter())),
        "wide" => f(&mut Wide(v.into_iter())),
        "chain" => {
            let k = v.len() / 2;
            f(&mut v[..k].iter().chain(&v[k..]).copied())
        }
        "rev" => f(&mut v.into_iter().rev()),
        "unfused" => f(&mut Unfused(Some(v.into_iter()), after.into_iter())),
        _ => unreachable!("source {via}"),
    }
}

impl<T: Shape> Machine for Mach<T> {
    fn info(&self) -> Info {
        T::INFO
    }
    fn elems(&self) -> Vec<i64> {
        let mut v: Vec<i64> = self.table.iter().map(|x| x.1).collect();
        v.sort();
        v
    }
    fn caps(&self) -> Caps {
        Caps { ops: T::ops().is_some(), repr: T::INFO.w > 0 }
    }
    fn reset(&mut self, nreg: usize) {
        self.regs = vec![EnumSet::empty(); nreg];
        self.seen = vec![(None, vec![]); nreg];
        self.its.clear();
        self.hashes.clear();
    }
    fn exec(&mut self, op: &Op) -> Obs {
        let res = catch_unwind(AssertUnwindSafe(|| self.run(op))).unwrap_or(Res::kind("panic"));
        let mut post = vec![];
        for x in 0..self.regs.len() {
            if self.seen[x].0.map_or(true, |s| bytes_of(&s) != bytes_of(&self.regs[x])) {
                let p = self.project(self.regs[x]);
                if p != self.seen[x].1 {
                    post.push((x as i64 + 1, p.clone()));
                }
                self.seen[x] = (Some(self.regs[x]), p);
            }
        }
        Obs { res, post }
    }
    fn names(&self, flags: &str) -> Vec<(i64, String)> {
        let (kind, flags) = flags.split_once(':').unwrap();
        self.table.iter().map(|(v, d)| (*d, fmt_flags(v, kind, flags))).collect()
    }
    fn post_of(&self, reg: usize) -> Vec<i64> {
        self.seen[reg - 1].1.clone()
    }
}
