// Shared by every probe crate. Probes are only lowered to compiler IR, never run.
#[allow(dead_code)]
extern "Rust" {
    fn vf_assume(c: bool);
}
#[allow(dead_code)]
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}

/// `ob!(ID, name, (args) -> R, { implementation } == { specification })`: one obligation,
/// the two bodies must have the same guarded normal form for every argument.
#[allow(unused_macros)]
macro_rules! ob {
    ($id:literal, $n:expr, ($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)?, $i:block == $s:block) => {
        const _: () = {
            #[export_name = concat!($id, "__", $n, "__impl")]
            pub fn i($($a: $t),*) $(-> $r)? $i
            #[export_name = concat!($id, "__", $n, "__spec")]
            pub fn s($($a: $t),*) $(-> $r)? $s
        };
    };
}
/// `only!(ID, name, rule, (args) -> R, { implementation })`: an obligation on one body
/// (rule `nopanic`: no feasible path reaches a panic; `pure`: no effects at all).
#[allow(unused_macros)]
macro_rules! only {
    ($id:literal, $n:expr, $rule:literal, ($($a:ident : $t:ty),* $(,)?) $(-> $r:ty)?, $i:block) => {
        const _: () = {
            #[export_name = concat!($id, "__", $n, "__", $rule)]
            pub fn i($($a: $t),*) $(-> $r)? $i
        };
    };
}
