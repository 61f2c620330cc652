//! Environment model of `rand`: every draw is supplied by the harness through
//! a hook, so that under the solver it is an arbitrary value of the range.
use std::cell::Cell;

/// Source of raw 64-bit draws. Installed by the harness; the default is 0.
static mut SOURCE: Option<fn() -> u64> = None;

pub mod model {
    pub fn install(f: fn() -> u64) {
        unsafe { super::SOURCE = Some(f) }
    }
}

fn draw() -> u64 {
    match unsafe { SOURCE } {
        Some(f) => f(),
        None => 0,
    }
}

pub trait FromDraw {
    fn from_draw(v: u64) -> Self;
}
macro_rules! ints { ($($t:ty),*) => { $(
    impl FromDraw for $t { fn from_draw(v: u64) -> Self { v as $t } }
    impl SampleRange<$t> for std::ops::Range<$t> {
        fn sample(self) -> $t {
            assert!(self.start < self.end, "cannot sample empty range");
            let v = draw() as $t;
            if v >= self.start && v < self.end { v } else { self.start }
        }
    }
    impl SampleRange<$t> for std::ops::RangeInclusive<$t> {
        fn sample(self) -> $t {
            assert!(self.start() <= self.end(), "cannot sample empty range");
            let v = draw() as $t;
            if v >= *self.start() && v <= *self.end() { v } else { *self.start() }
        }
    }
)* } }
pub trait SampleRange<T> {
    fn sample(self) -> T;
}
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl FromDraw for bool {
    fn from_draw(v: u64) -> Self {
        v & 1 == 1
    }
}

pub fn random<T: FromDraw>() -> T {
    T::from_draw(draw())
}

pub trait Rng {
    fn gen<T: FromDraw>(&mut self) -> T {
        T::from_draw(draw())
    }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T {
        r.sample()
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        draw() & 1 == 1
    }
}

/// Not `Send`, like the real `ThreadRng`: code that holds it across an await
/// point fails to compile here as it would there.
pub struct ThreadRng {
    _p: std::marker::PhantomData<*const Cell<u8>>,
}
impl Rng for ThreadRng {}

pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: std::marker::PhantomData }
}

pub mod rngs {
    pub use super::ThreadRng;
}
pub mod prelude {
    pub use super::{random, thread_rng, Rng, ThreadRng};
}
