//! Ties a generated enum to the harness.
#[macro_export]
macro_rules! shape {
    ($t:ident, $label:literal, $group:literal, [$($tag:literal),*], $w:literal, $kind:literal,
     $deny:literal, $ops:ident, $repr:ident, [$($v:ident $d:literal $n:literal),*]) => {
        #[allow(unreachable_code, unused_variables)]
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let n: &str = match *self { $($t::$v => $n),* };
                show(n, 'd', f)
            }
        }
        #[allow(unreachable_code, unused_variables)]
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let n: &str = match *self { $($t::$v => $n),* };
                show(n, 'p', f)
            }
        }
        // The elements' own order is not that of their discriminants.
        impl PartialOrd for $t {
            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(other)) }
        }
        impl Ord for $t {
            fn cmp(&self, other: &Self) -> std::cmp::Ordering { other.as_int().cmp(&self.as_int()) }
        }
        impl Shape for $t {
            const INFO: Info = Info {
                name: $label, group: $group, tags: &[$($tag),*], w: $w, kind: $kind, deny: $deny,
            };
            fn table() -> Vec<(Self, i64)> { vec![$(($t::$v, $d)),*] }
            fn as_int(self) -> i64 { match self { $($t::$v => $t::$v as i64),* } }
            fn elem_name(self) -> &'static str { match self { $($t::$v => $n),* } }
            shape!(@ops $ops);
            shape!(@repr $repr);
        }
    };
    (@ops no) => {};
    (@ops yes) => { fn ops() -> Option<VarOps<Self>> { var_ops() } };
    (@repr no) => {};
    (@repr $r:ident) => {
        #[cfg(feature = "conv")]
        fn repr() -> Option<$crate::conv::ReprOps<Self>> { $crate::conv::repr_ops::<Self, $r>() }
    };
}
