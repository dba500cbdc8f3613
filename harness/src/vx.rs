//! Interface to the symbolic executor; with feature "native" the same harnesses run
//! concretely (replay of counterexamples, witnesses and random inputs).
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vx_assume(c: bool);
        fn vx_assert(c: bool, id: u32);
        fn vx_cover(id: u32);
        fn vx_expect_panic();
        fn vx_split(v: i64) -> i64;
        fn vx_case(c: bool) -> bool;
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vx_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: u32) {
        unsafe { vx_assert(c, id) }
    }
    #[inline(always)]
    pub fn cover(id: u32) {
        unsafe { vx_cover(id) }
    }
    /// from here to the end of the harness exactly one thing is right: a panic
    #[inline(always)]
    pub fn expect_panic() {
        unsafe { vx_expect_panic() }
    }
    /// case split on every value of v (v itself is returned)
    #[inline(always)]
    pub fn split(v: i64) -> i64 {
        unsafe { vx_split(v) }
    }
    /// case split on a condition
    #[inline(always)]
    pub fn case(c: bool) -> bool {
        unsafe { vx_case(c) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::sync::atomic::{AtomicBool, Ordering};
    pub static EXPECT: AtomicBool = AtomicBool::new(false);
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME");
            std::process::exit(77)
        }
    }
    pub fn check(c: bool, id: u32) {
        if !c {
            println!("ASSERT {}", id);
            std::process::exit(1)
        }
    }
    pub fn cover(id: u32) {
        println!("COVER {}", id)
    }
    pub fn expect_panic() {
        EXPECT.store(true, Ordering::SeqCst)
    }
    pub fn split(v: i64) -> i64 {
        v
    }
    pub fn case(c: bool) -> bool {
        c
    }
}
pub use imp::*;

pub trait Arg: Sized {
    fn arg(s: &str) -> Self;
}
macro_rules! int_arg { ($($t:ty),*) => { $( impl Arg for $t { fn arg(s: &str) -> Self {
    match s.parse::<i128>() { Ok(v) => v as $t, Err(_) => s.parse::<u128>().expect("integer argument") as $t }
} } )* } }
int_arg!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, usize, isize);
impl Arg for bool {
    fn arg(s: &str) -> Self {
        i128::arg(s) & 1 == 1
    }
}

/// Declares entry points for the symbolic executor and the matching native dispatcher.
#[macro_export]
macro_rules! harness {
    ($( fn $name:ident ( $($a:ident : $t:ty),* $(,)? ) $body:block )*) => {
        $( #[no_mangle] pub extern "C" fn $name($($a: $t),*) $body )*
        #[cfg(feature = "native")]
        pub fn dispatch(name: &str, args: &[String]) -> bool {
            match name {
                $( stringify!($name) => {
                    let mut _i = 0usize;
                    $( let $a: $t = <$t as $crate::vx::Arg>::arg(&args[_i]); _i += 1; )*
                    $name($($a),*);
                    true
                } )*
                _ => false,
            }
        }
    };
}
