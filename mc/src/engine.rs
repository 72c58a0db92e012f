//! Explicit-state exploration of the real `Game` in lock step with the reference model.
use crate::refgo::*;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::{GobanSizes, IllegalRules, Move, Rule, ScoreRules};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub type Res = Result<(), String>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn col(c: u8) -> Color {
    if c == B {
        Color::Black
    } else {
        Color::White
    }
}
pub fn uncol(c: Option<Color>) -> u8 {
    match c {
        None => E,
        Some(Color::Black) => B,
        Some(Color::White) => W,
    }
}
pub fn mv(op: Op) -> Move {
    match op {
        Op::Play(r, c) => Move::Play(r, c),
        Op::Pass => Move::Pass,
        Op::Resign(c) => Move::Resign(col(c)),
        Op::Resume => unreachable!(),
    }
}
pub fn flags(ill: u32) -> IllegalRules {
    IllegalRules::from_bits_truncate(ill)
}
/// the recorded history, at most n positions of it; nothing in a build without the feature
#[cfg(feature = "history")]
pub fn past(g: &Game, n: usize) -> Vec<&goban::pieces::goban::Goban> {
    g.history().take(n).collect()
}
#[cfg(not(feature = "history"))]
pub fn past(_g: &Game, _n: usize) -> Vec<&goban::pieces::goban::Goban> {
    vec![]
}
pub const HISTORY: bool = cfg!(feature = "history");
/// apply an operation without rule checking
pub fn apply(g: &mut Game, op: Op) {
    match op {
        Op::Resume => g.resume(),
        o => {
            g.play(mv(o));
        }
    }
}

// ------------------------------------------------------------------ scenarios
pub const OP_PASS: u8 = 1;
pub const OP_RESUME: u8 = 2;
pub const OP_RESIGN: u8 = 4;
/// keep exploring (plays, passes, resumptions) after a resignation
pub const OP_AFTER: u8 = 8;
/// unchecked plays while the game is paused, too
pub const OP_FORCE: u8 = 16;

#[derive(Clone, Debug)]
pub struct Scn {
    pub name: String,
    pub h: usize,
    pub w: usize,
    pub setup: Vec<(u8, u8, u8)>,
    pub turn: u8,
    pub ill: u32,
    pub sco: u32,
    pub komi: f32,
    /// cells on which plays are tried (None: all)
    pub window: Option<Vec<usize>>,
    pub depth: usize,
    pub ops: u8,
    /// put the set-up stones by playing them (with passes in between) instead of by the builder
    pub played_in: bool,
    /// how the game is made (see `made_by`); 0: with `Game::new` or the builder's `add`
    pub origin: u8,
    /// operations that must not matter are made between all others: refused attempts, changes of komi that
    /// are taken back, queries
    pub noise: bool,
    /// states are distinguished by the set of past positions too (needed when superko is active)
    pub hist_key: bool,
    /// operations made after the set-up and before the exploration: the life the game already had
    pub prelude: Vec<Op>,
    /// states are distinguished by this many last operations too (usize::MAX: nothing is ever merged,
    /// every sequence of operations is explored on its own)
    pub mem: usize,
}
pub const RECORDED: goban::rules::EndGame = goban::rules::EndGame::WinnerByTime(Color::Black);
impl Scn {
    pub fn new(name: &str, h: usize, w: usize) -> Scn {
        Scn {
            name: name.into(),
            h,
            w,
            setup: vec![],
            turn: B,
            ill: KO | SUI,
            sco: 7,
            komi: 6.5,
            window: None,
            depth: usize::MAX,
            ops: OP_PASS,
            played_in: false,
            origin: 0,
            noise: false,
            hist_key: false,
            prelude: vec![],
            mem: 0,
        }
    }
    pub fn mem(mut self, x: usize) -> Scn {
        self.mem = x;
        self
    }
    pub fn prelude(mut self, x: Vec<Op>) -> Scn {
        self.prelude = x;
        self
    }
    pub fn board(mut self, b: &RB) -> Scn {
        self.setup = (0..b.n()).filter(|&i| b.c[i] != E).map(|i| (b.rc(i).0, b.rc(i).1, b.c[i])).collect();
        self
    }
    pub fn ill(mut self, x: u32) -> Scn {
        self.ill = x;
        self
    }
    pub fn ops(mut self, x: u8) -> Scn {
        self.ops = x;
        self
    }
    pub fn turn(mut self, x: u8) -> Scn {
        self.turn = x;
        self
    }
    pub fn depth(mut self, x: usize) -> Scn {
        self.depth = x;
        self
    }
    pub fn window(mut self, x: Vec<usize>) -> Scn {
        self.window = Some(x);
        self
    }
    pub fn hist(mut self) -> Scn {
        self.hist_key = true;
        self
    }
    pub fn rule(&self) -> Rule {
        Rule {
            komi: self.komi,
            flag_illegal: flags(self.ill),
            flag_score: ScoreRules::from_bits_truncate(self.sco),
        }
    }
    pub fn rb(&self) -> RB {
        let mut b = RB::new(self.h, self.w);
        for &(r, c, x) in &self.setup {
            b.c[r as usize * self.w + c as usize] = x;
        }
        b
    }
    /// can the set-up be played in, stone by stone, with legal moves?
    pub fn playable(&self) -> bool {
        let mut r = RG::new(RB::new(self.h, self.w), B, self.ill);
        for &(y, x, c) in &self.setup {
            if r.turn != c {
                r = r.apply(Op::Pass);
            }
            let i = y as usize * self.w + x as usize;
            if r.b.c[i] != E || !r.legal(i) {
                return false;
            }
            r = r.apply(Op::Play(y, x));
        }
        *r.b == self.rb()
    }
    pub fn start(&self) -> (Game, RG) {
        let (mut g, mut r) = self.set_up();
        for &op in &self.prelude {
            if self.noise {
                self.noise(&mut g, &r);
            }
            apply(&mut g, op);
            r = r.apply(op);
        }
        (g, r)
    }
    fn set_up(&self) -> (Game, RG) {
        if self.played_in {
            let mut g = Game::new(GobanSizes::Custom(self.h, self.w), self.rule());
            let mut r = RG::new(RB::new(self.h, self.w), B, self.ill);
            let mut moves = vec![];
            let mut go = |op: Op| {
                r = r.apply(op);
                moves.push(mv(op));
                r.turn
            };
            let mut turn = B;
            for &(y, x, c) in &self.setup {
                if turn != c {
                    go(Op::Pass);
                }
                turn = go(Op::Play(y, x));
            }
            if turn != self.turn {
                go(Op::Pass);
            }
            if self.origin == 6 {
                // by the builder
                g = Game::builder().size((self.h as u8, self.w as u8)).rule(self.rule()).moves(&moves).build().expect("builder");
            } else {
                for m in moves {
                    g.play(m);
                }
            }
            return (g, r);
        }
        let r = RG::new(self.rb(), self.turn, self.ill);
        if self.origin != 0 {
            return (self.made_by(), r);
        }
        let g = if self.setup.is_empty() && self.turn == B {
            Game::new(GobanSizes::Custom(self.h, self.w), self.rule())
        } else {
            let mut b = Game::builder();
            b.size((self.h as u8, self.w as u8)).rule(self.rule()).turn(col(self.turn));
            for &(y, x, c) in &self.setup {
                b.add(Stone { coord: (y, x), color: col(c) });
            }
            b.build().expect("builder")
        };
        (g, r)
    }
    /// The same game made in other ways
    fn made_by(&self) -> Game {
        let of = |c: u8| self.setup.iter().filter(move |x| x.2 == c).copied();
        let at: Vec<(u8, u8)> = of(B).map(|x| (x.0, x.1)).collect();
        let size = (self.h as u8, self.w as u8);
        let mut b = Game::builder();
        b.size(size);
        let add = |b: &mut goban::rules::game_builder::GameBuilder, x: (u8, u8, u8)| {
            b.add(Stone { coord: (x.0, x.1), color: col(x.2) });
        };
        match self.origin {
            // every option that is not the set-up given on its own, the stones last to first
            1 => {
                b.black_player("b").white_player("w").handicap(3).komi(self.komi).rule(Rule { komi: -2.0, ..self.rule() }).turn(col(self.turn));
                for &x in self.setup.iter().rev() {
                    add(&mut b, x);
                }
                b.build().expect("builder")
            }
            // black stones as a handicap of the builder, white ones added
            2 => {
                of(W).for_each(|x| add(&mut b, x));
                b.rule(self.rule()).put_handicap(&at).turn(col(self.turn)).build().expect("builder")
            }
            // black stones as a handicap put on the game (White plays then); needs White to move
            3 => {
                of(W).for_each(|x| add(&mut b, x));
                let mut g = b.rule(self.rule()).build().expect("builder");
                g.put_handicap(&at);
                g
            }
            // another komi, and another player's game it is a copy of
            4 => {
                for &x in &self.setup {
                    add(&mut b, x);
                }
                let g = b.turn(col(self.turn)).rule(Rule { komi: 0.0, ..self.rule() }).build().expect("builder");
                let mut h = g.clone();
                drop(g);
                h.set_komi(self.komi);
                h
            }
            // from a record
            5 => {
                let mut s = format!("(;GM[1]FF[4]SZ[{}:{}]KM[{}]", self.w, self.h, self.komi);
                s += if self.ill & SUPER != 0 { "RU[Chinese]" } else { "RU[Japanese]" };
                s += if self.turn == B { "PL[B]" } else { "PL[W]" };
                for c in [B, W] {
                    if of(c).next().is_some() {
                        s += if c == B { "AB" } else { "AW" };
                        for x in of(c) {
                            s += &format!("[{}{}]", (b'a' + x.1) as char, (b'a' + x.0) as char);
                        }
                    }
                }
                let g = Game::from_sgf(&(s.clone() + ")")).unwrap_or_else(|e| panic!("{s}) is refused: {e}"));
                g
            }
            // under review: its outcome is on record already
            7 => {
                for &x in &self.setup {
                    add(&mut b, x);
                }
                b.rule(self.rule()).turn(col(self.turn)).outcome(RECORDED).build().expect("builder")
            }
            _ => unreachable!(),
        }
    }
    pub fn recorded(&self) -> bool {
        self.origin == 7
    }
    /// can the game be made this way?
    pub fn can_be_made(&self) -> bool {
        match self.origin {
            3 => self.turn == W,
            5 => self.sco == 6 && self.ill == KO | SUI || self.sco == 3 && self.ill == KO | SUPER | SUI,
            _ => true,
        }
    }
    /// operations that change nothing
    pub fn noise(&self, g: &mut Game, r: &RG) {
        let komi = g.komi();
        g.set_komi(komi + 1.0);
        g.set_komi(komi);
        let mut refused: Vec<usize> = (0..r.b.n()).filter(|&i| r.b.c[i] != E).take(1).collect();
        if r.passes >= 2 {
            let keep = g.clone();
            if g.try_play(Move::Pass).is_ok() {
                *g = keep;
            }
            refused.extend((0..r.b.n()).filter(|&i| r.b.c[i] == E).take(1));
        } else {
            refused.extend(r.ko_point());
            refused.extend((0..r.b.n()).filter(|&i| r.b.c[i] == E && Some(i) != r.ko_point() && !r.legal(i)).take(1));
        }
        for i in refused {
            let (y, x) = r.b.rc(i);
            let keep = g.clone();
            // that it is refused is the business of the rules of legality
            if g.try_play(Move::Play(y, x)).is_ok() {
                *g = keep;
            }
        }
        let _ = (g.legals().take(400).count(), g.outcome(), g.calculate_score());
    }
    pub fn legal_ops(&self, r: &RG) -> Vec<Op> {
        let mut v = vec![];
        if r.resigned.is_some() && self.ops & OP_AFTER == 0 {
            return v;
        }
        if r.passes < 2 || self.ops & OP_FORCE != 0 {
            let all: Vec<usize>;
            let cells: &[usize] = match &self.window {
                Some(w) => w,
                None => {
                    all = (0..self.h * self.w).collect();
                    &all
                }
            };
            for &i in cells {
                if r.b.c[i] == E && r.legal(i) {
                    let (y, x) = r.b.rc(i);
                    v.push(Op::Play(y, x));
                }
            }
            if self.ops & OP_PASS != 0 && r.passes < 2 {
                v.push(Op::Pass);
            }
        }
        if self.ops & OP_RESUME != 0 {
            v.push(Op::Resume);
        }
        if self.ops & OP_RESIGN != 0 && r.resigned.is_none() {
            v.push(Op::Resign(B));
            v.push(Op::Resign(W));
        }
        v
    }
    pub fn describe(&self, path: &[Op]) -> String {
        let mut s = String::new();
        s += &format!("# scenario {}\nsize {} {}\nturn {}\nill {}\nsco {}\nkomi {}\nplayed_in {}\norigin {}\nnoise {}\n", self.name, self.h, self.w, self.turn, self.ill, self.sco, self.komi, self.played_in, self.origin, self.noise);
        s += "setup";
        for (r, c, x) in &self.setup {
            s += &format!(" {},{},{}", r, c, x);
        }
        s += "\nops";
        for o in self.prelude.iter().chain(path) {
            match o {
                Op::Play(r, c) => s += &format!(" {},{}", r, c),
                Op::Pass => s += " pass",
                Op::Resume => s += " resume",
                Op::Resign(c) => s += &format!(" resign{}", c),
            }
        }
        s += "\n";
        s
    }
    /// a plain unit test that replays the case without the explorer
    pub fn unit_test(&self, path: &[Op]) -> String {
        let mut s = String::from("#[test]\nfn replay() {\n    use goban::pieces::stones::{Color, Stone};\n    use goban::rules::{game::Game, IllegalRules, Move, Rule, ScoreRules};\n");
        s += &format!("    let rule = Rule {{ komi: {:?}, flag_illegal: IllegalRules::from_bits_truncate({}), flag_score: ScoreRules::from_bits_truncate({}) }};\n", self.komi, self.ill, self.sco);
        s += &format!("    let mut b = Game::builder(); b.size(({}, {})).rule(rule).turn(Color::{:?});\n", self.h, self.w, col(self.turn));
        for (r, c, x) in &self.setup {
            s += &format!("    b.add(Stone {{ coord: ({r}, {c}), color: Color::{:?} }});\n", col(*x));
        }
        s += "    let mut g = b.build().unwrap();\n";
        if self.origin != 0 || self.noise {
            s += "    // in the exploration the game was made in another way, or refused attempts came between the moves:\n    // see origin and noise above, and Scn::made_by, Scn::noise\n";
        }
        for o in self.prelude.iter().chain(path) {
            s += &match o {
                Op::Resume => "    g.resume();\n".to_string(),
                o => format!("    g.play(Move::{:?});\n", mv(*o)),
            };
        }
        s += "    g.display_goban(); // inspect: see the message above\n}\n";
        s
    }
}

// ------------------------------------------------------------------ statistics
#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub scenarios: u64,
    pub max_depth: usize,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
}
impl Stats {
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.scenarios += o.scenarios;
        self.max_depth = self.max_depth.max(o.max_depth);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.notes.extend(o.notes);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub case: String,
    pub test: String,
}

pub trait Oracle: Sync {
    fn state(&self, _scn: &Scn, _g: &Game, _r: &RG, _st: &mut Stats) -> Res {
        Ok(())
    }
    fn edge(&self, _scn: &Scn, _g0: &Game, _r0: &RG, _op: Op, _g1: &Game, _r1: &RG, _st: &mut Stats) -> Res {
        Ok(())
    }
    /// extra bytes that distinguish states (e.g. the internal group layout)
    fn key(&self, _g: &Game, _k: &mut Vec<u8>) {}
    /// called once per state with the way it was reached
    fn path(&self, _scn: &Scn, _path: &[Op], _g: &Game, _r: &RG, _st: &mut Stats) -> Res {
        Ok(())
    }
}

// ------------------------------------------------------------------ run context
pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub t0: Instant,
    pub dir: String,
    pub violation: Mutex<Option<Violation>>,
    pub stop: AtomicBool,
    pub hb: Vec<Mutex<Option<(Instant, String, String)>>>,
    pub done: AtomicBool,
}
pub static RUN: OnceLock<Run> = OnceLock::new();
pub fn run() -> &'static Run {
    RUN.get().unwrap()
}
pub fn thorough() -> bool {
    run().tier == "thorough"
}
/// a second run in a build of the library with other features: every STRIDE-th scenario of a family,
/// each explored completely
pub fn lite() -> bool {
    run().tier == "lite"
}
/// C22 compares builds on the same thinned families
pub fn thin() -> bool {
    lite() || run().prop == "C22"
}
pub fn stride() -> usize {
    if run().prop == "C22" && (thorough() || std::env::var("MC_DEEP").as_deref() == Ok("true")) {
        2
    } else {
        8
    }
}
pub const NT: usize = 8;
/// outcome of a scenario that was not explored completely
pub const CUT: &str = "scenarios cut at their execution limit";
/// a single explored step that needs longer than this did not return
const STEP_LIMIT_S: u64 = 60;
/// the exploration itself needs a few GB at most
const MEM_LIMIT: u64 = 24 << 30;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static TID: RefCell<usize> = const { RefCell::new(NT) };
}

pub fn init(prop: &str, tier: &str, seed: u64, dir: &str) {
    let r = Run {
        prop: prop.into(),
        tier: tier.into(),
        seed,
        t0: Instant::now(),
        dir: dir.into(),
        violation: Mutex::new(None),
        stop: AtomicBool::new(false),
        hb: (0..=NT).map(|_| Mutex::new(None)).collect(),
        done: AtomicBool::new(false),
    };
    let _ = RUN.set(r);
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if run().done.load(Ordering::Relaxed) {
            return;
        }
        let rss_pages: u64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse().ok())).unwrap_or(0);
        if rss_pages * 4096 > MEM_LIMIT {
            let (case, test) = run().hb.iter().filter_map(|h| h.lock().unwrap().clone()).map(|x| (x.1, x.2)).next().unwrap_or_default();
            report(&Violation { msg: format!("memory use grew beyond {} GB", MEM_LIMIT >> 30), case, test });
            std::process::exit(1);
        }
        for h in &run().hb {
            let s = h.lock().unwrap().clone();
            if let Some((t, case, test)) = s {
                if t.elapsed().as_secs() > STEP_LIMIT_S {
                    report(&Violation { msg: format!("the operation did not return within {STEP_LIMIT_S} s"), case, test });
                    std::process::exit(1);
                }
            }
        }
    });
}

/// run one step under the watchdog, turning a panic into an error
pub fn guarded<T>(case: impl FnOnce() -> (String, String), f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let tid = TID.with(|t| *t.borrow());
    let (c, t) = case();
    *run().hb[tid].lock().unwrap() = Some((Instant::now(), c, t));
    let r = catch_unwind(AssertUnwindSafe(f));
    *run().hb[tid].lock().unwrap() = None;
    match r {
        Ok(x) => x,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
    }
}
/// Some(message) if `f` panics
pub fn panics(f: impl FnOnce()) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => None,
        Err(_) => Some(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

pub fn violate(v: Violation) {
    let mut x = run().violation.lock().unwrap();
    if x.is_none() {
        *x = Some(v);
    }
    run().stop.store(true, Ordering::SeqCst);
}
pub fn stopped() -> bool {
    run().stop.load(Ordering::Relaxed)
}
pub fn report(v: &Violation) {
    let d = format!("{}/replays", run().dir);
    let _ = std::fs::create_dir_all(&d);
    let p = format!("{}/{}.txt", d, run().prop);
    let commented: String = v.test.lines().map(|l| format!("# {l}\n")).collect();
    let txt = format!("# violation of {}: {}\nproperty {}\n{}# --- the same as a plain unit test ---\n{}", run().prop, v.msg.replace('\n', "\n#   "), run().prop, v.case, commented);
    let _ = std::fs::write(&p, txt);
    println!("{}: {}", run().prop, v.msg);
    println!("{}", v.case);
    println!("VIOLATION property={} replay={}", run().prop, p);
    let _ = std::io::stdout().flush();
}

// ------------------------------------------------------------------ exploration
fn key(scn: &Scn, path: &[Op], g: &Game, r: &RG, o: &dyn Oracle) -> Vec<u8> {
    let mut k = r.b.c.clone();
    for op in &path[path.len().saturating_sub(scn.mem)..] {
        k.extend(match *op {
            Op::Play(y, x) => [y, x],
            Op::Pass => [100, 0],
            Op::Resume => [101, 0],
            Op::Resign(c) => [102, c],
        });
    }
    if scn.mem > 0 {
        k.push(200);
    }
    k.push(r.turn | (r.passes as u8) << 2 | (r.resigned.unwrap_or(0)) << 4);
    match r.ko_point() {
        None => k.extend([255, 255]),
        Some(p) => k.extend([(p >> 8) as u8, p as u8]),
    }
    if scn.hist_key {
        let mut hs: Vec<&[u8]> = r.hist.iter().map(|b| &b.c[..]).collect();
        hs.sort_unstable();
        hs.dedup();
        for x in hs {
            k.extend_from_slice(x);
        }
    }
    o.key(g, &mut k);
    // pack 2 bits per cell is not worth it; hash to 128 bits would be unsound for exactness
    k
}

struct Node {
    parent: u32,
    op: Op,
}

fn path_of(nodes: &[Node], mut i: u32) -> Vec<Op> {
    let mut p = vec![];
    while i != 0 {
        p.push(nodes[i as usize].op);
        i = nodes[i as usize].parent;
    }
    p.reverse();
    p
}

/// Breadth-first search of one scenario. Every transition is executed on the real game and on the
/// model; states are deduplicated by `key`. Returns false when a violation was found.
pub fn bfs(scn: &Scn, o: &dyn Oracle, threads: usize, st: &mut Stats) -> bool {
    st.scenarios += 1;
    let root = match guarded(|| (scn.describe(&[]), scn.unit_test(&[])), || Ok(scn.start())) {
        Ok(x) => x,
        Err(m) => {
            violate(Violation { msg: format!("setting the game up: {m}"), case: scn.describe(&[]), test: scn.unit_test(&[]) });
            return false;
        }
    };
    let mut nodes = vec![Node { parent: 0, op: Op::Pass }];
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    match guarded(|| (scn.describe(&[]), scn.unit_test(&[])), || Ok(key(scn, &[], &root.0, &root.1, o))) {
        Ok(k) => seen.insert(k),
        Err(m) => {
            violate(Violation { msg: m, case: scn.describe(&[]), test: scn.unit_test(&[]) });
            return false;
        }
    };
    let mut level: Vec<u32> = vec![0];
    let mut depth = 0;
    while !level.is_empty() && !stopped() {
        let last = depth >= scn.depth;
        type Out = Vec<(u32, Op, Vec<u8>)>;
        let work = |ids: &[u32], st: &mut Stats, out: &mut Out| {
            for &id in ids {
                if stopped() {
                    return;
                }
                let path = path_of(&nodes, id);
                let cur = RefCell::new(path.clone());
                let r = guarded(
                    || (scn.describe(&path), scn.unit_test(&path)),
                    || {
                        let (mut g, mut r) = (root.0.clone(), root.1.clone());
                        for &op in &path {
                            if scn.noise {
                                scn.noise(&mut g, &r);
                            }
                            apply(&mut g, op);
                            r = r.apply(op);
                        }
                        if scn.noise {
                            scn.noise(&mut g, &r);
                        }
                        st.states += 1;
                        o.state(scn, &g, &r, st)?;
                        o.path(scn, &path, &g, &r, st)?;
                        if last {
                            return Ok(());
                        }
                        for op in scn.legal_ops(&r) {
                            cur.borrow_mut().push(op);
                            let mut g1 = g.clone();
                            apply(&mut g1, op);
                            let r1 = r.apply(op);
                            st.transitions += 1;
                            o.edge(scn, &g, &r, op, &g1, &r1, st)?;
                            out.push((id, op, key(scn, &cur.borrow(), &g1, &r1, o)));
                            cur.borrow_mut().pop();
                        }
                        Ok(())
                    },
                );
                if let Err(msg) = r {
                    let p = cur.borrow().clone();
                    violate(Violation { msg, case: scn.describe(&p), test: scn.unit_test(&p) });
                    return;
                }
            }
        };
        let mut outs: Vec<Out> = vec![];
        if threads <= 1 || level.len() < 64 {
            let mut out = vec![];
            work(&level, st, &mut out);
            outs.push(out);
        } else {
            let nchunk = (threads * 8).min(level.len());
            let size = level.len().div_ceil(nchunk);
            let chunks: Vec<&[u32]> = level.chunks(size).collect();
            let next = AtomicUsize::new(0);
            let res: Vec<Mutex<Out>> = chunks.iter().map(|_| Mutex::new(vec![])).collect();
            let all = Mutex::new(Stats::default());
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (next, res, chunks, all, work) = (&next, &res, &chunks, &all, &work);
                    s.spawn(move || {
                        TID.with(|x| *x.borrow_mut() = t);
                        let mut st = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= chunks.len() {
                                break;
                            }
                            let mut out = vec![];
                            work(chunks[i], &mut st, &mut out);
                            *res[i].lock().unwrap() = out;
                        }
                        all.lock().unwrap().merge(st);
                    });
                }
            });
            st.merge(all.into_inner().unwrap());
            outs.extend(res.into_iter().map(|m| m.into_inner().unwrap()));
        }
        let mut nxt = vec![];
        for out in outs {
            for (parent, op, k) in out {
                if seen.insert(k) {
                    nodes.push(Node { parent, op });
                    nxt.push((nodes.len() - 1) as u32);
                }
            }
        }
        level = nxt;
        if !level.is_empty() {
            depth += 1;
            st.max_depth = st.max_depth.max(depth);
        }
    }
    let mut inner = vec![false; nodes.len()];
    for n in &nodes[1..] {
        inner[n.parent as usize] = true;
    }
    st.traces += inner.iter().filter(|x| !**x).count() as u64;
    if nodes.len() > 1 && depth > 0 {
        st.sample(|| {
            let p = path_of(&nodes, (nodes.len() - 1) as u32);
            format!("{}: {:?}", scn.name, &p[..p.len().min(12)])
        });
    }
    !stopped()
}

/// Explore a few big scenarios, each with all threads.
pub fn run_big(scns: &[Scn], o: &dyn Oracle, st: &mut Stats) -> bool {
    for s in scns {
        if thin() && s.name.starts_with("graph") && (s.h * s.w > 6 || s.mem > 0) {
            continue;
        }
        let t = Instant::now();
        let (a, b) = (st.states, st.transitions);
        if !bfs(s, o, NT, st) {
            return false;
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:40} states {:8} transitions {:9} {:6.2}s", s.name, st.states - a, st.transitions - b, t.elapsed().as_secs_f32());
        }
    }
    true
}

pub fn par_each<T: Sync>(items: &[T], st: &mut Stats, f: impl Fn(&T, &mut Stats) + Sync) -> bool {
    let next = AtomicUsize::new(0);
    let all: Mutex<Vec<(usize, Stats)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..NT {
            let (next, all, f) = (&next, &all, &f);
            s.spawn(move || {
                TID.with(|x| *x.borrow_mut() = t);
                let mut st = Stats::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() || stopped() {
                        break;
                    }
                    f(&items[i], &mut st);
                }
                all.lock().unwrap().push((t, st));
            });
        }
    });
    let mut v = all.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (_, s) in v {
        st.merge(s);
    }
    !stopped()
}

/// one hand-written case in a `par_each` loop
pub fn case(name: impl Fn() -> String, st: &mut Stats, f: impl FnOnce(&mut Stats) -> Res) -> bool {
    let r = guarded(|| (format!("# case {}\n", name()), String::new()), || f(st));
    if let Err(msg) = r {
        violate(Violation { msg, case: format!("case {}\n", name()), test: String::new() });
        return false;
    }
    true
}

// ------------------------------------------------------------------ evidence
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
/// run the same check once more in the build of the library without optional features
fn other_builds(st: &mut Stats) -> i32 {
    let Ok(exe) = std::env::var("MC_PLAIN") else { return 0 };
    let out = match std::process::Command::new(&exe).arg(&run().prop).env("VERIF_TIER", "lite").stderr(std::process::Stdio::inherit()).output() {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{exe}: {e}");
            return 2;
        }
    };
    let txt = String::from_utf8_lossy(&out.stdout).into_owned();
    let Some(l) = txt.lines().find(|l| l.starts_with("LITE ")) else {
        println!("in the build without optional features:\n{txt}");
        return if out.status.code() == Some(1) { 1 } else { 2 };
    };
    let n: Vec<u64> = l.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
    st.add("states in the build without features", n[0]);
    st.add("transitions in the build without features", n[1]);
    0
}
pub fn finish(st: Stats, must: &[&str], bounds: &str, assumptions: &[&str]) -> i32 {
    let v = run().violation.lock().unwrap().clone();
    if lite() {
        run().done.store(true, Ordering::SeqCst);
        if let Some(v) = v {
            report(&v);
            return 1;
        }
        println!("LITE {} {} {}", st.states, st.transitions, st.scenarios);
        return 0;
    }
    let mut st = st;
    let mut other_build = false;
    if v.is_none() && run().prop != "C22" {
        match other_builds(&mut st) {
            0 => {}
            1 => other_build = true,
            x => return x,
        }
    }
    run().done.store(true, Ordering::SeqCst);
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(&run().prop), js(&run().tier), run().seed);
    s += " \"coverage\": {\n";
    s += &format!("  \"states\": {},\n  \"transitions\": {},\n", st.states, st.transitions);
    s += &format!("  \"traces_validated_against_impl\": {},\n", st.traces);
    s += &format!("  \"scenarios\": {},\n  \"max_depth\": {},\n", st.scenarios, st.max_depth);
    s += &format!("  \"exhaustive\": {},\n", v.is_none() && !st.counters.contains_key(CUT));
    s += &format!("  \"bounds\": {},\n", js(bounds));
    s += "  \"outcomes\": {";
    s += &st.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    s += "},\n  \"samples\": [";
    s += &st.samples.iter().map(|k| js(k)).collect::<Vec<_>>().join(", ");
    s += "],\n  \"explanation\": \"states and transitions of the reference model; every transition is executed on the real goban code in the same step and compared there; traces_validated_against_impl counts the maximal paths of the search trees, each replayed from its start on the real code\"\n },\n";
    s += " \"assumptions\": [";
    s += &assumptions.iter().map(|k| js(k)).collect::<Vec<_>>().join(", ");
    s += &format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", run().t0.elapsed().as_secs_f64(), (v.is_some() || other_build) as u32);
    let d = format!("{}/evidence", run().dir);
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(format!("{}/{}.json", d, run().prop), s) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if let Some(v) = v {
        report(&v);
        return 1;
    }
    if other_build {
        return 1;
    }
    println!("{}: {} states, {} transitions, {} scenarios, max depth {}, {:.1}s", run().prop, st.states, st.transitions, st.scenarios, st.max_depth, run().t0.elapsed().as_secs_f32());
    println!("outcomes: {:?}", st.counters);
    for m in must {
        if st.counters.get(*m).copied().unwrap_or(0) == 0 {
            eprintln!("vacuous exploration: outcome '{m}' never occurred");
            return 2;
        }
    }
    println!("OK property={}", run().prop);
    0
}

/// is the finding listed in known_findings.txt?
pub fn known_finding(prop: &str, id: &str) -> bool {
    let f = std::fs::read_to_string(format!("{}/known_findings.txt", run().dir)).unwrap_or_default();
    f.lines().any(|l| l.starts_with(&format!("finding: property={prop} {id} ")))
}
