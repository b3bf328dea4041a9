//! The interface between harnesses and the engine. Under `irx` the functions below are intercepted
//! and return symbolic data; with the `native` feature they read a recorded input instead, which is
//! how counterexamples and sampled paths are replayed against an ordinary build of the same code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn irx_sym(p: *mut u8, n: usize);
        pub fn irx_choice(n: u32) -> u32;
        pub fn irx_assume(c: bool);
        pub fn irx_fail(m: *const u8, n: usize) -> !;
        pub fn irx_reach(id: u32);
        pub fn irx_obs(p: *const u8, n: usize);
        pub fn irx_eq(p: *const u8, q: *const u8, n: usize) -> bool;
    }

    #[inline(always)]
    pub fn fill(b: &mut [u8]) {
        unsafe { irx_sym(b.as_mut_ptr(), b.len()) }
    }
    #[inline(always)]
    pub fn choice(n: u32) -> u32 {
        unsafe { irx_choice(n) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { irx_assume(c) }
    }
    #[inline(always)]
    pub fn fail(m: &str) -> ! {
        unsafe { irx_fail(m.as_ptr(), m.len()) }
    }
    #[inline(always)]
    pub fn reach(id: u32) {
        unsafe { irx_reach(id) }
    }
    #[inline(always)]
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        a.len() == b.len() && unsafe { irx_eq(a.as_ptr(), b.as_ptr(), a.len()) }
    }
    #[inline(always)]
    pub fn obs(b: &[u8]) {
        unsafe { irx_obs(b.as_ptr(), b.len()) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;

    /// The input left the claim: an assumption is false on it.
    pub struct Outside;
    /// A check failed.
    pub struct Failed(pub String);

    #[derive(Default)]
    pub struct State {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u8>,
    }

    thread_local! {
        pub static STATE: RefCell<State> = RefCell::new(State::default());
    }

    pub fn fill(b: &mut [u8]) {
        STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            for x in b {
                *x = s.input.get(s.pos).copied().unwrap_or(0);
                s.pos += 1;
            }
        })
    }
    pub fn choice(n: u32) -> u32 {
        let mut b = [0];
        fill(&mut b);
        assume((b[0] as u32) < n);
        b[0] as u32
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Outside));
        }
    }
    pub fn fail(m: &str) -> ! {
        std::panic::resume_unwind(Box::new(Failed(m.to_string())));
    }
    pub fn reach(_: u32) {}
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        a == b
    }
    pub fn obs(b: &[u8]) {
        STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            s.obs.extend_from_slice(&(b.len() as u32).to_le_bytes());
            s.obs.extend_from_slice(b);
        })
    }
}

#[cfg(feature = "native")]
pub use self::imp::{Failed, Outside, State, STATE};
pub use self::imp::{assume, eq, fail, fill, obs, reach};

/// An arbitrary value below `n`; explored by case split.
#[inline(always)]
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        0
    } else {
        imp::choice(n as u32) as usize
    }
}

/// An arbitrary boolean, by case split.
#[inline(always)]
pub fn flag() -> bool {
    choice(2) == 1
}

#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}

macro_rules! any_int {
    ($($f:ident $t:ty,)*) => { $(
        /// An arbitrary value of the type, as one symbolic term.
        #[inline(always)]
        pub fn $f() -> $t {
            <$t>::from_le_bytes(bytes())
        }
    )* };
}

any_int! { u8_ u8, u16_ u16, u32_ u32, u64_ u64, u128_ u128, i8_ i8, i16_ i16, i32_ i32, i64_ i64, i128_ i128, usize_ usize, isize_ isize, }

pub fn f32_() -> f32 {
    f32::from_bits(u32_())
}
pub fn f64_() -> f64 {
    f64::from_bits(u64_())
}
/// An arbitrary boolean, as one symbolic bit.
pub fn bool_() -> bool {
    let b = u8_();
    assume(b < 2);
    b == 1
}

/// `n` arbitrary bytes, leaked so that they can be borrowed for any lifetime.
pub fn leak_bytes(n: usize) -> &'static [u8] {
    let mut v = vec![0u8; n];
    fill(&mut v);
    Box::leak(v.into_boxed_slice())
}

/// An arbitrary ASCII string of exactly `n` bytes. No case split.
pub fn ascii(n: usize) -> &'static str {
    let b = leak_bytes(n);
    for x in b {
        assume(*x < 0x80);
    }
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// An arbitrary string of `n` lower-case letters. No case split, and nothing to escape.
pub fn letters(n: usize) -> &'static str {
    let b = leak_bytes(n);
    for x in b {
        assume(x.wrapping_sub(b'a') < 26);
    }
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// An arbitrary decimal digit.
pub fn digit() -> u8 {
    let d = u8_();
    assume(d < 10);
    d
}

/// An arbitrary well-formed UTF-8 string of exactly `n` bytes.
pub fn utf8(n: usize) -> &'static str {
    let b = leak_bytes(n);
    match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {
        if !$c {
            $crate::rt::fail($m)
        }
    };
}

/// Define entries: an exported symbol for the engine and a row of the native table.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$meta:meta])* fn $name:ident() $body:block)*) => {
        $(
            $(#[$meta])*
            #[cfg_attr(not(feature = "native"), no_mangle)]
            #[cfg(not(feature = "native"))]
            pub extern "C" fn $name() $body
            $(#[$meta])*
            #[cfg(feature = "native")]
            pub fn $name() $body
        )*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
