//! The part of rand 0.9 that goban uses or plausibly could use; every choice is the explorer's.
use choice::choose;

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dst: &mut [u8]);
}
/// Stands for every generator: whatever asks it is answered by the explorer.
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {
    // raw words are offered as two values only
    fn next_u32(&mut self) -> u32 {
        [0x1357_9bdf, 0xfdb9_7531][choose(2)]
    }
    fn next_u64(&mut self) -> u64 {
        [0x1357_9bdf_0246_8ace, 0xfdb9_7531_eca8_6420][choose(2)]
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for b in dst {
            *b = choose(2) as u8 * 0xa5;
        }
    }
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        (**self).fill_bytes(dst)
    }
}
pub trait SeedableRng: Sized {
    fn seed_from_u64(_state: u64) -> Self;
    fn from_rng(_rng: &mut impl RngCore) -> Self {
        Self::seed_from_u64(0)
    }
    fn from_os_rng() -> Self {
        Self::seed_from_u64(0)
    }
}
impl SeedableRng for ThreadRng {
    fn seed_from_u64(_state: u64) -> Self {
        ThreadRng
    }
}
pub trait Integer: Copy {
    fn to(self) -> i128;
    fn from(x: i128) -> Self;
}
macro_rules! ints { ($($t:ty)*) => { $(impl Integer for $t {
    fn to(self) -> i128 { self as i128 }
    fn from(x: i128) -> Self { x as $t }
})* } }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
pub trait SampleRange<T> {
    fn bounds(self) -> (i128, i128);
}
impl<T: Integer> SampleRange<T> for std::ops::Range<T> {
    fn bounds(self) -> (i128, i128) {
        (self.start.to(), self.end.to())
    }
}
impl<T: Integer> SampleRange<T> for std::ops::RangeInclusive<T> {
    fn bounds(self) -> (i128, i128) {
        (self.start().to(), self.end().to() + 1)
    }
}
pub trait Random {
    fn random() -> Self;
}
impl Random for bool {
    fn random() -> bool {
        choose(2) == 1
    }
}
impl Random for f64 {
    fn random() -> f64 {
        choose(16) as f64 / 16.0
    }
}
impl Random for f32 {
    fn random() -> f32 {
        choose(16) as f32 / 16.0
    }
}
macro_rules! rnd { ($($t:ty)*) => { $(impl Random for $t {
    fn random() -> $t { (0x9e37_79b9_7f4a_7c15u64.wrapping_mul(choose(16) as u64 + 1) >> 7) as $t }
})* } }
rnd!(u8 u16 u32 u64 usize i32 i64);
pub trait Rng: RngCore {
    fn random<T: Random>(&mut self) -> T {
        T::random()
    }
    fn random_range<T: Integer, R: SampleRange<T>>(&mut self, r: R) -> T {
        let (a, b) = r.bounds();
        T::from(a + choose((b - a) as usize) as i128)
    }
    fn gen_range<T: Integer, R: SampleRange<T>>(&mut self, r: R) -> T {
        self.random_range(r)
    }
    fn random_bool(&mut self, p: f64) -> bool {
        if p <= 0.0 {
            false
        } else if p >= 1.0 {
            true
        } else {
            choose(2) == 1
        }
    }
    fn random_ratio(&mut self, n: u32, d: u32) -> bool {
        self.random_bool(n as f64 / d as f64)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub fn rng() -> ThreadRng {
    ThreadRng
}
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub fn random<T: Random>() -> T {
    T::random()
}
pub fn random_range<T: Integer, R: SampleRange<T>>(r: R) -> T {
    rng().random_range(r)
}
pub fn random_bool(p: f64) -> bool {
    rng().random_bool(p)
}

pub mod rngs {
    pub use crate::ThreadRng;
    pub use crate::ThreadRng as StdRng;
    pub use crate::ThreadRng as SmallRng;
    pub use crate::ThreadRng as OsRng;
}
pub mod seq {
    use super::*;
    pub trait IndexedRandom {
        type Out;
        fn choose<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<&Self::Out>;
        fn choose_multiple<R: Rng + ?Sized>(&self, rng: &mut R, n: usize) -> std::vec::IntoIter<&Self::Out>;
    }
    impl<T> IndexedRandom for [T] {
        type Out = T;
        fn choose<R: Rng + ?Sized>(&self, _: &mut R) -> Option<&T> {
            if self.is_empty() {
                None
            } else {
                Some(&self[super::choose(self.len())])
            }
        }
        fn choose_multiple<R: Rng + ?Sized>(&self, _: &mut R, n: usize) -> std::vec::IntoIter<&T> {
            let mut v: Vec<&T> = self.iter().collect();
            let n = n.min(v.len());
            for i in 0..n {
                let j = i + super::choose(v.len() - i);
                v.swap(i, j);
            }
            v.truncate(n);
            v.into_iter()
        }
    }
    pub trait IndexedMutRandom {
        type Out;
        fn choose_mut<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Out>;
    }
    impl<T> IndexedMutRandom for [T] {
        type Out = T;
        fn choose_mut<R: Rng + ?Sized>(&mut self, _: &mut R) -> Option<&mut T> {
            if self.is_empty() {
                None
            } else {
                let k = super::choose(self.len());
                Some(&mut self[k])
            }
        }
    }
    pub trait SliceRandom {
        type Elem;
        fn shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R);
        fn partial_shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R, n: usize) -> (&mut [Self::Elem], &mut [Self::Elem]);
    }
    impl<T> SliceRandom for [T] {
        type Elem = T;
        // the first element is settled first
        fn shuffle<R: Rng + ?Sized>(&mut self, _: &mut R) {
            let n = self.len();
            for i in 0..n {
                let j = i + super::choose(n - i);
                self.swap(i, j);
            }
        }
        fn partial_shuffle<R: Rng + ?Sized>(&mut self, _: &mut R, k: usize) -> (&mut [T], &mut [T]) {
            let n = self.len();
            let k = k.min(n);
            for i in 0..k {
                let j = i + super::choose(n - i);
                self.swap(i, j);
            }
            self.split_at_mut(k)
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: Rng + ?Sized>(self, _: &mut R) -> Option<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            if v.is_empty() {
                None
            } else {
                let k = super::choose(v.len());
                Some(v.swap_remove(k))
            }
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
pub mod prelude {
    pub use crate::rngs::{SmallRng, StdRng};
    pub use crate::seq::{IndexedMutRandom, IndexedRandom, IteratorRandom, SliceRandom};
    pub use crate::{random, rng, Rng, RngCore, SeedableRng, ThreadRng};
}
