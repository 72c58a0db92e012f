//! The part of rand 0.7 that oxymcts uses.
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub trait Rng {
    fn gen_range(&mut self, low: usize, high: usize) -> usize {
        low + choice::choose(high - low)
    }
}
impl Rng for ThreadRng {}
pub mod prelude {
    pub trait SliceRandom {
        type Item;
        fn choose(&self, rng: &mut crate::ThreadRng) -> Option<&Self::Item>;
    }
    impl<T> SliceRandom for Vec<T> {
        type Item = T;
        fn choose(&self, _: &mut crate::ThreadRng) -> Option<&T> {
            if self.is_empty() {
                None
            } else {
                Some(&self[choice::choose(self.len())])
            }
        }
    }
}
