//! The source of every "random" choice: a prescribed prefix, then a fair fixed tail.
use std::cell::RefCell;

pub struct Sched {
    pub prefix: Vec<u32>,
    /// (number of alternatives, the one taken)
    pub trace: Vec<(u32, u32)>,
    pub tail: Tail,
    pub cap: usize,
    pub diverged: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tail {
    First,
    Last,
    /// a fixed sequence in which every alternative keeps coming back
    Fair(u64),
}
thread_local! {
    static S: RefCell<Sched> = const { RefCell::new(Sched { prefix: vec![], trace: vec![], tail: Tail::First, cap: usize::MAX, diverged: false }) };
}
pub const CAP: &str = "choice cap reached";

pub fn start(prefix: Vec<u32>, tail: Tail, cap: usize) {
    S.with(|s| *s.borrow_mut() = Sched { prefix, trace: vec![], tail, cap, diverged: false });
}
/// the choices made since `start`, and whether a prescribed choice did not exist
pub fn stop() -> (Vec<(u32, u32)>, bool) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        (std::mem::take(&mut s.trace), s.diverged)
    })
}
fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
pub fn choose(n: usize) -> usize {
    assert!(n > 0, "choice among nothing");
    if n == 1 {
        return 0;
    }
    let over = S.with(|s| s.borrow().trace.len() >= s.borrow().cap);
    if over {
        panic!("{CAP}");
    }
    S.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.trace.len();
        let mut c = if k < s.prefix.len() {
            s.prefix[k] as usize
        } else {
            match s.tail {
                Tail::First => 0,
                Tail::Last => n - 1,
                Tail::Fair(x) => (mix(x.wrapping_add((k as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15))) % n as u64) as usize,
            }
        };
        if c >= n {
            s.diverged = true;
            c = 0;
        }
        s.trace.push((n as u32, c as u32));
        c
    })
}
