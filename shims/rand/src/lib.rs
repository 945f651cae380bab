//! `rand` 0.5 with every outcome of a draw an input of the harness: a check runs over all outcomes the
//! documented contract of each function allows, a replay over those of the counterexample.
//! Floats in [0,1) come from 4 values (0, 1/4, 1/2, 1 - 2^-24): comparisons with a probability see
//! both outcomes where both exist for the probabilities the harnesses use. `vp::steady` fixes draws in graphs too large
//! for all outcomes.
pub trait SampleRange: Sized + PartialOrd + Copy {
    fn pick(lo: Self, hi: Self) -> Self;
}
macro_rules! ints { ($($t:ty)*) => { $(impl SampleRange for $t {
    fn pick(lo: $t, hi: $t) -> $t {
        match vp::is_steady() {
            0 => {
                let x = vp::u64_() as $t;
                vp::assume(x >= lo && x < hi);
                x
            }
            1 => lo,
            2 => hi - 1,
            _ => lo + (hi - lo) / 2,
        }
    }
})* } }
ints!(u8 u16 u32 u64 usize i32 i64);
fn unit() -> f64 {
    let k = match vp::is_steady() {
        0 => vp::choose(4),
        1 => 0,
        2 => 3,
        _ => 2,
    };
    match k {
        0 => 0.0,
        1 => 0.25,
        2 => 0.5,
        _ => 1.0 - 1.0 / 16777216.0,
    }
}
impl SampleRange for f32 {
    fn pick(lo: f32, hi: f32) -> f32 {
        unit() as f32 * (hi - lo) + lo
    }
}
impl SampleRange for f64 {
    fn pick(lo: f64, hi: f64) -> f64 {
        unit() * (hi - lo) + lo
    }
}
pub trait Standard {
    fn std() -> Self;
}
macro_rules! stds { ($($t:ty)*) => { $(impl Standard for $t {
    fn std() -> $t {
        vp::u64_() as $t
    }
})* } }
stds!(u8 u16 u32 u64 usize i32 i64);
impl Standard for bool {
    fn std() -> bool {
        vp::bool_()
    }
}
impl Standard for f32 {
    fn std() -> f32 {
        unit() as f32
    }
}
impl Standard for f64 {
    fn std() -> f64 {
        unit()
    }
}
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
}
pub trait Rng: RngCore {
    fn gen<T: Standard>(&mut self) -> T {
        T::std()
    }
    fn gen_range<T: SampleRange>(&mut self, lo: T, hi: T) -> T {
        if !(lo < hi) {
            panic!("Rng.gen_range called with low >= high");
        }
        T::pick(lo, hi)
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        assert!(p >= 0.0 && p <= 1.0);
        self.gen::<f64>() < p
    }
    fn choose<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
        if v.is_empty() {
            None
        } else {
            Some(&v[self.gen_range(0, v.len())])
        }
    }
    fn choose_mut<'a, T>(&mut self, v: &'a mut [T]) -> Option<&'a mut T> {
        if v.is_empty() {
            None
        } else {
            let n = v.len();
            Some(&mut v[self.gen_range(0, n)])
        }
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        let mut i = v.len();
        while i >= 2 {
            i -= 1;
            let j = self.gen_range(0, i + 1);
            v.swap(i, j);
        }
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
#[derive(Clone, Debug, Default)]
pub struct ThreadRng(());
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        vp::u32_()
    }
    fn next_u64(&mut self) -> u64 {
        vp::u64_()
    }
}
impl<'a, R: RngCore + ?Sized> RngCore for &'a mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
}
pub fn thread_rng() -> ThreadRng {
    ThreadRng::default()
}
pub fn random<T: Standard>() -> T {
    T::std()
}
pub mod rngs {
    pub use crate::ThreadRng;
}
pub mod prelude {
    pub use crate::{random, thread_rng, Rng, RngCore, ThreadRng};
}
pub mod seq {
    use crate::Rng;
    /// Reservoir sampling, as rand 0.5 does it.
    pub fn sample_iter<T, I, R>(rng: &mut R, iterable: I, amount: usize) -> Result<Vec<T>, Vec<T>>
    where
        I: IntoIterator<Item = T>,
        R: Rng + ?Sized,
    {
        let mut iter = iterable.into_iter();
        let mut reservoir = Vec::with_capacity(amount);
        reservoir.extend(iter.by_ref().take(amount));
        if reservoir.len() != amount {
            return Err(reservoir);
        }
        for (i, elem) in iter.enumerate() {
            let k = rng.gen_range(0, i + 1 + amount);
            if let Some(spot) = reservoir.get_mut(k) {
                *spot = elem;
            }
        }
        Ok(reservoir)
    }
    pub fn sample_slice<T: Clone, R: Rng + ?Sized>(rng: &mut R, s: &[T], amount: usize) -> Vec<T> {
        match sample_iter(rng, s.iter().cloned(), amount) {
            Ok(v) => v,
            Err(_) => panic!("`amount` must be less than or equal to `slice.len()`"),
        }
    }
}
