//! Conversions to and from integers, arrays, slices and representations.
use crate::mach::*;
use crate::op::*;
use enumset::*;

/// Operations on a declared primitive representation.
pub struct ReprOps<T: EnumSetType> {
    pub size: usize,
    pub align: usize,
    pub read: unsafe fn(*const EnumSet<T>) -> Vec<i64>,
    pub as_repr: fn(&EnumSet<T>) -> Vec<i64>,
    pub const_all: Vec<i64>,
    pub const_empty: Vec<i64>,
    pub from: fn(&[i64], &str) -> Option<EnumSet<T>>,
}

pub trait Prim: Copy {
    fn to_bits(self) -> Vec<i64>;
    fn of_bits(b: &[i64]) -> Self;
}
macro_rules! prim {
    ($($t:ty)*) => { $(
        impl Prim for $t {
            fn to_bits(self) -> Vec<i64> {
                (0..<$t>::BITS as i64).filter(|b| self >> b & 1 == 1).collect()
            }
            fn of_bits(b: &[i64]) -> $t {
                b.iter().fold(0, |x, b| {
                    assert!(*b < <$t>::BITS as i64);
                    x | 1 << b
                })
            }
        }
    )* };
}
prim!(u8 u16 u32 u64 u128 usize);

struct Consts<T>(std::marker::PhantomData<T>);
impl<T: EnumSetTypeWithRepr> Consts<T> {
    const ALL: <T as EnumSetTypeWithRepr>::Repr = EnumSet::<T>::all().as_repr();
    const EMPTY: <T as EnumSetTypeWithRepr>::Repr = EnumSet::<T>::empty().as_repr();
}

pub fn repr_ops<T: EnumSetTypeWithRepr + 'static, R: Prim>() -> Option<ReprOps<T>>
where
    T: EnumSetTypeWithRepr<Repr = R>,
{
    Some(ReprOps {
        size: std::mem::size_of::<R>(),
        align: std::mem::align_of::<R>(),
        read: |p| unsafe { (p as *const R).read() }.to_bits(),
        as_repr: |s| s.as_repr().to_bits(),
        const_all: Consts::<T>::ALL.to_bits(),
        const_empty: Consts::<T>::EMPTY.to_bits(),
        from: |b, mode| {
            let x = R::of_bits(b);
            match mode {
                "try" => EnumSet::try_from_repr(x),
                "panic" => Some(EnumSet::from_repr(x)),
                "trunc" => Some(EnumSet::from_repr_truncated(x)),
                "unchecked" => Some(unsafe { EnumSet::from_repr_unchecked(x) }),
                _ => unreachable!(),
            }
        },
    })
}

fn bits_opt<R: Prim>(o: Option<R>) -> Res {
    match o {
        Some(x) => Res::bits(x.to_bits()),
        None => Res::kind("none"),
    }
}
fn words(ws: &[u64]) -> Vec<Vec<i64>> {
    ws.iter().map(|w| w.to_bits()).collect()
}

impl<T: Shape> Mach<T> {
    fn put(&mut self, op: &Op, s: Option<EnumSet<T>>) -> Res {
        match s {
            Some(s) => {
                let d = op.reg(op.d);
                self.regs[d] = s;
                Res::unit()
            }
            None => Res::kind("none"),
        }
    }
    fn to_arr<const N: usize>(&self, op: &Op) -> Res {
        let x = self.regs[op.reg(op.a)];
        let o: Option<[u64; N]> = match op.mode.unwrap() {
            "try" => x.try_as_array(),
            "panic" => Some(x.as_array()),
            "trunc" => Some(x.as_array_truncated()),
            _ => unreachable!(),
        };
        match o {
            Some(a) => Res::ok(R::Intss(words(&a))),
            None => Res::kind("none"),
        }
    }
    fn from_arr<const N: usize>(&self, ws: &[u64], mode: &str) -> Option<EnumSet<T>> {
        let a: [u64; N] = ws.try_into().unwrap();
        match mode {
            "try" => EnumSet::try_from_array(a),
            "panic" => Some(EnumSet::from_array(a)),
            "trunc" => Some(EnumSet::from_array_truncated(a)),
            "unchecked" => Some(unsafe { EnumSet::from_array_unchecked(a) }),
            _ => unreachable!(),
        }
    }

    pub fn run_conv(&mut self, op: &Op) -> Res {
        macro_rules! ints {
            ($($t:ident $name:literal $to:ident $try_to:ident $to_t:ident
               $from:ident $try_from:ident $from_t:ident $from_u:ident;)*) => {
                match (op.op, op.f.unwrap_or("")) {
                    $(("to_int", $name) => {
                        let x = self.regs[op.reg(op.a)];
                        bits_opt::<$t>(match op.mode.unwrap() {
                            "try" => x.$try_to(),
                            "panic" => Some(x.$to()),
                            "trunc" => Some(x.$to_t()),
                            _ => unreachable!(),
                        })
                    }
                    ("from_int", $name) => {
                        let x = <$t>::of_bits(op.vs.as_ref().unwrap());
                        let s = match op.mode.unwrap() {
                            "try" => EnumSet::$try_from(x),
                            "panic" => Some(EnumSet::$from(x)),
                            "trunc" => Some(EnumSet::$from_t(x)),
                            "unchecked" => Some(unsafe { EnumSet::$from_u(x) }),
                            _ => unreachable!(),
                        };
                        self.put(op, s)
                    })*
                    _ => self.run_conv2(op),
                }
            };
        }
        ints! {
            u8 "u8" as_u8 try_as_u8 as_u8_truncated from_u8 try_from_u8 from_u8_truncated from_u8_unchecked;
            u16 "u16" as_u16 try_as_u16 as_u16_truncated from_u16 try_from_u16 from_u16_truncated from_u16_unchecked;
            u32 "u32" as_u32 try_as_u32 as_u32_truncated from_u32 try_from_u32 from_u32_truncated from_u32_unchecked;
            u64 "u64" as_u64 try_as_u64 as_u64_truncated from_u64 try_from_u64 from_u64_truncated from_u64_unchecked;
            u128 "u128" as_u128 try_as_u128 as_u128_truncated from_u128 try_from_u128 from_u128_truncated from_u128_unchecked;
            usize "usize" as_usize try_as_usize as_usize_truncated from_usize try_from_usize from_usize_truncated from_usize_unchecked;
        }
    }
    fn run_conv2(&mut self, op: &Op) -> Res {
        let mode = op.mode.unwrap_or("");
        let via = op.via.unwrap_or("");
        match op.op {
            "to_array" => match op.n.unwrap() {
                0 => self.to_arr::<0>(op),
                1 => self.to_arr::<1>(op),
                2 => self.to_arr::<2>(op),
                3 => self.to_arr::<3>(op),
                4 => self.to_arr::<4>(op),
                5 => self.to_arr::<5>(op),
                6 => self.to_arr::<6>(op),
                10 => self.to_arr::<10>(op),
                33 => self.to_arr::<33>(op),
                _ => unreachable!(),
            },
            "into_slice" => {
                let x = self.regs[op.reg(op.a)];
                let mut buf: Vec<u64> = op.ws.as_ref().unwrap().iter().map(|w| u64::of_bits(w)).collect();
                let k = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
                    "try" => match x.try_copy_into_slice(&mut buf) {
                        Some(()) => "ok",
                        None => "none",
                    },
                    "panic" => {
                        x.copy_into_slice(&mut buf);
                        "ok"
                    }
                    "trunc" => {
                        x.copy_into_slice_truncated(&mut buf);
                        "ok"
                    }
                    _ => unreachable!(),
                }))
                .unwrap_or("panic");
                Res { k, r: R::Intss(words(&buf)) }
            }
            "from_array" => {
                let ws: Vec<u64> = op.ws.as_ref().unwrap().iter().map(|w| u64::of_bits(w)).collect();
                let s = match via {
                    "array" => match ws.len() {
                        0 => self.from_arr::<0>(&ws, mode),
                        1 => self.from_arr::<1>(&ws, mode),
                        2 => self.from_arr::<2>(&ws, mode),
                        3 => self.from_arr::<3>(&ws, mode),
                        4 => self.from_arr::<4>(&ws, mode),
                        5 => self.from_arr::<5>(&ws, mode),
                        6 => self.from_arr::<6>(&ws, mode),
                        10 => self.from_arr::<10>(&ws, mode),
                        33 => self.from_arr::<33>(&ws, mode),
                        _ => unreachable!(),
                    },
                    "slice" => match mode {
                        "try" => EnumSet::try_from_slice(&ws),
                        "panic" => Some(EnumSet::from_slice(&ws)),
                        "trunc" => Some(EnumSet::from_slice_truncated(&ws)),
                        "unchecked" => Some(unsafe { EnumSet::from_slice_unchecked(&ws) }),
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                self.put(op, s)
            }
            #[cfg(feature = "alloc")]
            "to_vec" => Res::ok(R::Intss(words(&self.regs[op.reg(op.a)].to_vec()))),
            "layout" => {
                let o = T::repr().unwrap();
                Res::bits(vec![
                    std::mem::size_of::<EnumSet<T>>() as i64,
                    o.size as i64,
                    (std::mem::align_of::<EnumSet<T>>() == o.align) as i64,
                ])
            }
            "memory" if T::repr().unwrap().size != std::mem::size_of::<EnumSet<T>>() => Res::kind("panic"),
            "memory" => {
                let x = self.regs[op.reg(op.a)];
                Res::bits(unsafe { (T::repr().unwrap().read)(&x) })
            }
            "as_repr" => {
                let o = T::repr().unwrap();
                Res::bits(match via {
                    "run" => (o.as_repr)(&self.regs[op.reg(op.a)]),
                    "const_all" => o.const_all,
                    "const_empty" => o.const_empty,
                    _ => unreachable!(),
                })
            }
            "from_repr" => {
                let s = (T::repr().unwrap().from)(op.vs.as_ref().unwrap(), mode);
                self.put(op, s)
            }
            _ => unreachable!(),
        }
    }
}
