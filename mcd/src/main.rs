//! C17: dead-stone detection, with every random choice made by the explorer.
#![allow(dead_code)]
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/oracles.rs"]
mod oracles;
#[path = "../../mc/src/refgo.rs"]
mod refgo;
#[path = "../../mc/src/suites.rs"]
mod suites;
use choice::Tail;
use engine::*;
use goban::rules::game::Game;
use goban::rules::Move;
use oracles::*;
use oxymcts::GameTrait;
use refgo::*;
use suites::*;

/// floating groups as sets of stones: the chains of the model that do not touch two eyes
fn floating(g: &Game, b: &RB) -> Result<Vec<Vec<usize>>, String> {
    let mut eye = vec![E; b.n()];
    for (i, p) in pts(b) {
        for c in [B, W] {
            if b.c[i] == E && g.check_eye(stone(p, c)) {
                let (may, _) = eye_bounds(b, i, c);
                ensure!(may, "{p:?} is reported as an eye of {:?}", col(c));
                eye[i] = c;
            }
        }
    }
    let mut v = vec![];
    for gr in b.groups() {
        let n = gr.libs.iter().filter(|&&l| eye[l] == gr.color).count();
        if n < 2 {
            let mut s = gr.stones.clone();
            s.sort_unstable();
            v.push(s);
        }
    }
    v.sort();
    Ok(v)
}
fn stones_of(g: &Game, b: &RB, h: usize) -> Result<Vec<usize>, String> {
    let mut v = vec![];
    for s in g.chain_stones(h).take(b.n() + 1) {
        let i = s.coord.0 as usize * b.w + s.coord.1 as usize;
        ensure!((s.coord.0 as usize) < b.h && (s.coord.1 as usize) < b.w, "handle {h} lists {:?}", s.coord);
        ensure!(b.c[i] == uncol(Some(s.color)), "handle {h} lists {:?}, which is not on the board", s);
        v.push(i);
    }
    v.sort_unstable();
    Ok(v)
}
/// everything observable without the history of repetitions
fn observe(g: &Game) -> String {
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", g.goban().to_vec(), g.turn(), g.prisoners(), g.outcome(), g.is_over(), g.legals().collect::<Vec<_>>(), g.history().count())
}

struct Floating;
impl Oracle for Floating {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let want = floating(g, &r.b)?;
        let before = observe(g);
        let mut got = vec![];
        for h in g.get_floating_stones() {
            got.push(stones_of(g, &r.b, h)?);
        }
        got.sort();
        ensure!(got == want, "the floating groups are {got:?} but should be {want:?} (as lists of points of {})", r.b.show());
        ensure!(observe(g) == before, "get_floating_stones changed the game");
        st.add("floating groups", want.len() as u64);
        st.add("groups with two eyes", (r.b.groups().len() - want.len()) as u64);
        // the moves offered to the tree search
        let moves = g.legals_moves();
        if g.is_over() {
            st.inc("finished games");
            ensure!(g.is_final(), "a finished game is not final for the tree search");
            ensure!(moves.is_empty() || r.passes >= 2, "a resigned game offers {moves:?}");
        } else {
            ensure!(!g.is_final(), "an unfinished game is final for the tree search");
            let want: Vec<usize> = (0..r.b.n()).filter(|&i| r.legal(i) && !g.check_eye(stone(r.b.rc(i), r.turn))).collect();
            if want.is_empty() {
                ensure!(moves == vec![Move::Pass], "without a sensible move the tree search is offered {moves:?} instead of a pass");
                st.inc("forced passes");
            } else {
                let mut pt = vec![];
                for m in &moves {
                    let Move::Play(a, b) = m else { return Err(format!("the tree search is offered {m:?}")) };
                    pt.push((*a, *b));
                }
                let got = idx_set("moves of the tree search", s.h, s.w, pt.into_iter())?;
                same_set("moves of the tree search", s.w, &got, &want)?;
            }
        }
        ensure!(GameTrait::player_turn(g) == col(r.turn), "the tree search sees the wrong player");
        Ok(())
    }
}

/// One execution of the real search under one schedule of choices.
fn execute(g: &Game, b: &RB, fl: &[Vec<usize>], sims: Option<usize>, prefix: Vec<u32>, tail: Tail, cap: usize) -> Result<(Vec<(u32, u32)>, String), String> {
    let before = observe(g);
    choice::start(prefix, tail, cap);
    let res = match sims {
        Some(n) => g.dead_stones_wth_simulations(n),
        None => g.dead_stones(),
    };
    let (trace, diverged) = choice::stop();
    ensure!(!diverged, "the same choices led to a different execution");
    let mut dead = vec![];
    for h in res {
        let s = stones_of(g, b, h)?;
        ensure!(fl.contains(&s), "the group {s:?} of {} is reported dead but is not floating", b.show());
        dead.push(s);
    }
    dead.sort();
    let n = dead.len();
    dead.dedup();
    ensure!(dead.len() == n, "a group is reported twice");
    ensure!(observe(g) == before, "dead_stones changed the game");
    Ok((trace, format!("{dead:?}")))
}

#[derive(Clone)]
struct Job {
    s: Scn,
    ops: Vec<Op>,
    sims: Option<usize>,
    tail: Tail,
    /// number of leading choices that may be changed
    horizon: usize,
    /// how many changes at once; usize::MAX: all executions
    bound: usize,
    limit: u64,
}

fn push_deviations(stack: &mut Vec<(Vec<u32>, usize)>, prefix: &[u32], trace: &[(u32, u32)], horizon: usize, dev: usize) {
    for i in (prefix.len()..trace.len().min(horizon)).rev() {
        let (alts, taken) = trace[i];
        for a in (0..alts).filter(|&a| a != taken) {
            let mut p: Vec<u32> = trace[..i].iter().map(|x| x.1).collect();
            p.push(a);
            stack.push((p, dev + 1));
        }
    }
}

fn explore(j: &Job, st: &mut Stats) {
    let (mut g, mut r) = j.s.start();
    for &op in &j.ops {
        apply(&mut g, op);
        r = r.apply(op);
    }
    let fl = match floating(&g, &r.b) {
        Ok(f) => f,
        Err(m) => return violate(Violation { msg: m, case: j.s.describe(&j.ops), test: String::new() }),
    };
    let mut outcomes = std::collections::BTreeSet::new();
    let mut lengths = std::collections::BTreeSet::new();
    let mut stack: Vec<(Vec<u32>, usize)> = vec![(vec![], 0)];
    let mut n = 0u64;
    let soft = j.s.ill & SUPER == 0 && j.sims.map_or(false, |n| n < 100);
    let mut endless = 0;
    let points = j.s.h * j.s.w;
    let cap = if soft { (points * points * 60).min(60_000) * (1 + j.sims.unwrap_or(1)) } else { 4_000_000 };
    st.scenarios += 1;
    while let Some((prefix, dev)) = stack.pop() {
        if stopped() {
            return;
        }
        if n >= j.limit {
            st.inc(CUT);
            break;
        }
        n += 1;
        let text = || {
            (
                format!("{}# dead stones with {:?} simulations, choices {:?}, then {:?}\n", j.s.describe(&j.ops), j.sims, prefix, j.tail),
                format!("{}// then g.dead_stones_wth_simulations({:?}) with the random choices {:?}\n", j.s.unit_test(&j.ops), j.sims, prefix),
            )
        };
        let out = guarded(text, || execute(&g, &r.b, &fl, j.sims, prefix.clone(), j.tail, cap));
        match out {
            // without superko play-outs may be endless (triple ko, sending two returning one): these
            // executions are outside the property, unless no execution of a big board ever ends
            Err(m) if soft && m.contains(choice::CAP) => {
                let (trace, _) = choice::stop();
                st.inc("executions with an endless play-out (ko rule only), not judged");
                endless += 1;
                if dev < j.bound {
                    push_deviations(&mut stack, &prefix, &trace, j.horizon, dev);
                }
            }
            Err(m) => {
                let m = if m.contains(choice::CAP) { format!("the search does not terminate: {m}") } else { m };
                let (case, test) = text();
                return violate(Violation { msg: m, case, test });
            }
            Ok((trace, o)) => {
                st.traces += 1;
                st.transitions += trace.len() as u64;
                st.states += (trace.len() - prefix.len().min(trace.len())) as u64;
                st.max_depth = st.max_depth.max(trace.len());
                outcomes.insert(o);
                lengths.insert(trace.len());
                if dev < j.bound {
                    push_deviations(&mut stack, &prefix, &trace, j.horizon, dev);
                }
            }
        }
    }
    if endless == n && n > 0 && j.s.h * j.s.w >= 20 {
        return violate(Violation { msg: format!("none of {n} searches terminates"), case: j.s.describe(&j.ops), test: j.s.unit_test(&j.ops) });
    }
    if endless == n {
        return;
    }
    st.add("executions", n);
    if stack.is_empty() {
        st.inc(if j.bound == usize::MAX && j.horizon == usize::MAX { "positions explored under all choices" } else { "positions explored up to the deviation bound" });
    }
    if outcomes.len() > 1 {
        st.inc("positions with several outcomes");
    }
    if outcomes.iter().any(|o| o != "[]") {
        st.inc("positions with dead groups");
    }
    st.add("distinct execution lengths", lengths.len() as u64);
    st.sample(|| format!("{} {:?} sims {:?}: {n} executions, {} different results, {}..{} choices", j.s.name, j.ops, j.sims, outcomes.len(), lengths.first().unwrap(), lengths.last().unwrap()));
}

const SUPER4: u32 = SUPER | KO | SUI;
const EYESHAPES: &[(&str, &[&str])] = &[
    ("two-eyes-3x3", &["X*X", "XXX", "X*X"]),
    ("two-eyes-row", &["*X*XO", "XXXXO", "OOOO*"]),
    ("one-eye", &["*XO*", "XXO*", "OOO*"]),
    ("false-eye", &["*XO*", "XO**", "O***"]),
    ("captured", &["XX*", "OX*", "*X*"]),
    ("atari", &["OX*", "*OX", "XX*"]),
    ("seki", &["OXX*", "OXOO", "OXO*", "**O*"]),
    ("many", &["XO*XO", "OX*OX", "*****"]),
    ("both-alive", &["*X*XO*O", "XXXXOOO", "*X*XO*O"]),
];

fn jobs() -> Vec<Job> {
    let t = thorough();
    let mut v = vec![];
    // every choice, on the smallest boards
    let mut all = |h: usize, w: usize, sims: usize, limit: u64| {
        for b in all_positions(h, w) {
            for turn in [B, W] {
                for ill in [KO | SUI, SUPER4] {
                    for komi in [0.0, 6.5] {
                        let mut s = Scn::new(&format!("all-{h}x{w}-{}-ill{ill}-komi{komi}", b.show()), h, w).board(&b).turn(turn).ill(ill);
                        s.komi = komi;
                        v.push(Job { s, ops: vec![], sims: Some(sims), tail: Tail::First, horizon: usize::MAX, bound: usize::MAX, limit });
                    }
                }
            }
        }
    };
    all(1, 1, 1, 100_000);
    all(1, 1, 3, 100_000);
    all(1, 2, 1, 200_000);
    all(2, 1, 1, 200_000);
    all(1, 2, 2, if t { 200_000 } else { 20_000 });
    let n_all = v.len();
    // deviations from fair schedules
    let mut dev = |s: Scn, ops: Vec<Op>, sims: usize, seed: u64, horizon: usize, bound: usize| {
        v.push(Job { s, ops, sims: Some(sims), tail: Tail::Fair(seed), horizon, bound, limit: u64::MAX });
    };
    let seeds: &[u64] = if t { &[1, 2, 3, 4] } else { &[1] };
    for (h, w) in [(1, 3), (2, 2), (1, 4), (3, 1)] {
        for b in all_positions(h, w) {
            for ill in [KO | SUI, SUPER4, SUPER] {
                for (turn, komi) in [(B, 0.0), (W, 6.5), (B, 4.0)] {
                    let mut s = Scn::new(&format!("dev-{h}x{w}-{}-ill{ill}-komi{komi}", b.show()), h, w).board(&b).turn(turn).ill(ill);
                    s.komi = komi;
                    for &seed in seeds {
                        dev(s.clone(), vec![], 1, seed, if t { 60 } else { 24 }, 1);
                        dev(s.clone(), vec![], 4, seed, if t { 30 } else { 8 }, 1);
                    }
                }
            }
        }
    }
    for (h, w) in [(2, 3), (3, 2), (3, 3), (1, 6), (4, 4)] {
        for ill in [KO | SUI, SUPER4, SUPER | SUI] {
            for komi in [0.0, 1.0, 6.5] {
                let mut s = Scn::new(&format!("dev-empty-{h}x{w}-ill{ill}-komi{komi}"), h, w).ill(ill);
                s.komi = komi;
                for &seed in seeds {
                    dev(s.clone(), vec![], 1, seed, 200, 1);
                    dev(s.clone(), vec![], 2, seed, 20, if t { 2 } else { 1 });
                    dev(s.clone(), vec![], 12, seed, 30, 1);
                    dev(s.clone(), vec![Op::Pass], 3, seed, 60, 1);
                }
            }
        }
    }
    for (name, rows) in EYESHAPES {
        let b = RB::parse(rows);
        for swap in [false, true] {
            let b = if swap { swap_colors(&b) } else { b.clone() };
            if !b.is_legal() {
                continue;
            }
            for ill in [KO | SUI, SUPER4, SUPER] {
                for turn in [B, W] {
                    let mut s = Scn::new(&format!("{name}-{swap}-ill{ill}"), b.h, b.w).board(&b).turn(turn).ill(ill);
                    s.komi = 0.0;
                    for &seed in seeds {
                        dev(s.clone(), vec![], 1, seed, if t { 120 } else { 40 }, 1);
                        dev(s.clone(), vec![], 10, seed, if t { 40 } else { 12 }, 1);
                        dev(s.clone(), vec![Op::Pass, Op::Pass], 1, seed, 10, 1);
                    }
                }
            }
        }
    }
    // shapes on bigger boards, few schedules
    for (k, (name, _)) in TEMPLATES.iter().enumerate() {
        for ill in [KO | SUI, SUPER4] {
            let (tb, marks) = template(k, 0, false);
            let mut b = RB::new(6, 5);
            stamp(&mut b, &tb, &marks, 1, 0);
            if b.is_legal() {
                let s = Scn::new(&format!("{name}-6x5-ill{ill}"), 6, 5).board(&b).ill(ill);
                for &seed in seeds {
                    dev(s.clone(), vec![], 1, seed, 6, 1);
                    dev(s.clone(), vec![], 40, seed, 1, 1);
                }
            }
        }
    }
    for (h, w) in [(9, 9), (13, 7), (19, 3)] {
        for &seed in seeds {
            dev(Scn::new(&format!("empty-{h}x{w}"), h, w).ill(SUPER4), vec![], 1, seed, 1, 0);
        }
    }
    // one group with very many eyes, and a big board that is nearly settled
    for c in [B, W] {
        for ill in [KO | SUI, SUPER4] {
            let mut b = RB::new(19, 19);
            for r in 0..19 {
                for k in 0..19 {
                    b.c[r * 19 + k] = if r == 9 { E } else if r % 2 == 1 && k % 2 == 1 { E } else if r < 9 { c } else { other(c) };
                }
            }
            dev(Scn::new(&format!("settled-19x19-ill{ill}"), 19, 19).board(&b).ill(ill), vec![], 1, 1, 3, 1);
        }
    }
    // the default number of simulations
    for rows in [&["*X*", "XXO", "*O*"][..], &["XO*"], &["**", "**"]] {
        let b = RB::parse(rows);
        let mut s = Scn::new("default-simulations", b.h, b.w).board(&b);
        s.komi = 0.0;
        v.push(Job { s, ops: vec![], sims: None, tail: Tail::Fair(7), horizon: 1, bound: 1, limit: u64::MAX });
    }
    let _ = n_all;
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    if a.get(1).map(|s| s.as_str()) != Some("C17") {
        eprintln!("usage: mcd C17");
        std::process::exit(2);
    }
    init("C17", if tier == "thorough" { "thorough" } else { "quick" }, seed, &dir);
    let mut st = Stats::default();
    let t = thorough();
    let ok = {
        let mut big = graphs(TINY, &[KO | SUI, 0], OP_PASS);
        big.extend(graphs(if t { &[(3, 3), (2, 4), (4, 2), (2, 5), (1, 7)] } else { &[(3, 3), (2, 4)] }, &[KO | SUI], OP_PASS));
        big.extend(graphs(&[(2, 3), (1, 5)], &[KO | SUI | EYE], OP_PASS).into_iter().map(|s| s.depth(0)));
        run_big(&big, &Floating, &mut st)
    } && {
        let mut gens = templates(Tpl { which: vec![], sizes: vec![(5, 5), (4, 6), (19, 19)], all_offsets: false, syms: vec![0, 5], ills: vec![KO | SUI], depth: 1, ops: OP_PASS, played: false });
        gens.extend(templates(Tpl { which: vec![], sizes: vec![(7, 9)], all_offsets: true, syms: vec![0], ills: vec![KO | SUI], depth: 1, ops: OP_PASS, played: true }));
        gens.extend(windows(Win { sizes: vec![(5, 5), (4, 5)], k: 3, l: 3, ctxs: vec![Ctx::RingMix, Ctx::RingB, Ctx::FullW], ills: vec![KO | SUI], turns: vec![B], depth: 0, ops: 0, grow: 0, at: None }));
        gens.extend(windows(Win { sizes: vec![(3, 5), (6, 5)], k: 3, l: 3, ctxs: vec![Ctx::Empty, Ctx::RingW], ills: vec![KO | SUI], turns: vec![W], depth: 0, ops: 0, grow: 0, at: None }));
        gens.extend(huge(&[(19, 19), (7, 7)], &[KO | SUI], 1, OP_PASS));
        run_gens(&gens, &Floating, &mut st)
    } && {
        let v = jobs();
        par_each(&v, &mut st, |j, st| {
            let t0 = std::time::Instant::now();
            let n = st.traces;
            explore(j, st);
            if std::env::var("MC_VERBOSE").is_ok() && t0.elapsed().as_secs_f32() > 0.3 {
                eprintln!("{:6.2}s {:8} executions {} sims {:?} h{} b{}", t0.elapsed().as_secs_f32(), st.traces - n, j.s.name, j.sims, j.horizon, j.bound);
            }
        })
    };
    let _ = ok;
    let must = ["floating groups", "groups with two eyes", "forced passes", "finished games", "positions explored under all choices", "positions explored up to the deviation bound", "positions with several outcomes", "positions with dead groups"];
    std::process::exit(finish(
        st,
        &must,
        "floating groups: every position of the graphs up to 2x3, 3x3, of all 3x3 windows and shapes on boards up to 19x19. Searches: every possible sequence of random choices on 1x1 and 1x2 boards (cut at the stated number of executions where the outcome says so); on all set-ups of 1x3, 2x2, 1x4, on empty boards up to 4x4 and on eye shapes every schedule with one deviation (thorough also two) from a fair one among the first choices; 1 to 12 simulations per move, 600 on three positions",
        &["random generators are replaced by the explorer (patched crates rand 0.9 and rand 0.7)", "an eye is what check_eye reports (its own bounds are those of C16)", "a search making more than 4 million random choices does not terminate"],
    ));
}
