//! Stand-in for rand 0.7: every number drawn is a value of the environment. In the symbolic build it
//! is an unconstrained symbolic value; in the native build it is taken from the variable
//! SYMX_RAND (decimal numbers), so that a recorded run can be replayed.

pub static mut SOURCE: Option<fn() -> u64> = None;

pub fn draw() -> u64 {
    match unsafe { SOURCE } {
        Some(f) => f(),
        None => native(),
    }
}
fn native() -> u64 {
    use std::cell::RefCell;
    thread_local! { static S: RefCell<Option<std::vec::IntoIter<u64>>> = RefCell::new(None); }
    S.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let t = std::env::var("SYMX_RAND").unwrap_or_default();
            *s = Some(t.split_whitespace().map(|x| x.parse().unwrap()).collect::<Vec<u64>>().into_iter());
        }
        // out of recorded values: stop, the run goes beyond what was recorded
        s.as_mut().unwrap().next().unwrap_or_else(|| std::process::exit(99))
    })
}

pub trait RngCore {
    fn next_u64(&mut self) -> u64;
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
}
pub trait Sample: Sized {
    fn sample(v: u64) -> Self;
}
macro_rules! ints { ($($t:ty)*) => { $(
    impl Sample for $t { fn sample(v: u64) -> Self { v as $t } }
    impl Uniform for $t { fn uniform(v: u64, lo: Self, hi: Self) -> Self {
        assert!(lo < hi, "UniformSampler::sample_single: low >= high");
        lo.wrapping_add((v % (hi.wrapping_sub(lo) as u64)) as $t)
    } }
)* } }
pub trait Uniform: Sized {
    fn uniform(v: u64, lo: Self, hi: Self) -> Self;
}
ints! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }
impl Sample for bool {
    fn sample(v: u64) -> Self {
        v & 1 == 1
    }
}
pub trait Rng: RngCore {
    fn gen<T: Sample>(&mut self) -> T {
        T::sample(self.next_u64())
    }
    fn gen_range<T: Uniform>(&mut self, lo: T, hi: T) -> T {
        T::uniform(self.next_u64(), lo, hi)
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        self.next_u64() & 1 == 1
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
impl<'a, R: RngCore + ?Sized> RngCore for &'a mut R {
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {
    fn next_u64(&mut self) -> u64 {
        draw()
    }
}
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub fn random<T: Sample>() -> T {
    T::sample(draw())
}
pub mod rngs {
    pub use crate::ThreadRng;
}
pub mod prelude {
    pub use crate::seq::SliceRandom;
    pub use crate::{random, thread_rng, Rng, RngCore, ThreadRng};
}
pub mod seq {
    use crate::Rng;
    pub trait SliceRandom {
        type Item;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>;
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&T> {
            if self.is_empty() {
                None
            } else {
                Some(&self[r.gen_range(0, self.len())])
            }
        }
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R) {
            for i in (1..self.len()).rev() {
                let j = r.gen_range(0, i + 1);
                self.swap(i, j);
            }
        }
    }
}
