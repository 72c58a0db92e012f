//! mc <property>            explore one property (VERIF_TIER=quick|thorough)
//! mc replay <file>         run one recorded case again
mod engine;
mod extra;
mod oracles;
mod props;
mod refgo;
mod sgf;
mod suites;
use engine::*;
use extra::*;
use oracles::*;
use props::*;
use refgo::*;

type Entry = (&'static str, fn(&mut Stats), &'static [&'static str], &'static str);
const TABLE: &[Entry] = &[
    ("C01", c01, &["legal points", "refused: occupied", "refused: suicide", "refused: ko"], STD_BOUNDS),
    ("C02", c02, &["captures of 1 group", "captures of 2 groups", "captures of 3 groups", "captures of 4 groups", "captures of more than 255 stones", "suicides of 1 stone", "suicides of several stones", "Pass"], STD_BOUNDS),
    ("C03", c03, &["repetitions refused", "repetitions other than simple ko", "repetitions by suicide", "repetitions of the current position", "repetitions of the starting position", "new positions accepted", "repetitions of positions more than 256 plays old"], "all games (as set of past positions, position, side, passes) from every legal set-up of 1x1..1x5, 2x2, 2x3 and transposes, and from the empty boards up to 3x3, to the stated depths, under four superko rule combinations with passes and resumptions; ko, double and triple ko, send-two-return-one and snapback shapes at all offsets of boards up to 19x19, depth 3-5; whole-board cycles depth 5-10; games of up to 687 plays in which every earlier position is offered again"),
    ("C04", c04, &["ko bans", "states without ko", "single captures that are no ko", "multiple captures that are no ko"], STD_BOUNDS),
    ("C05", c05, &["groups compared", "groups of several stones", "groups removed by hand"], STD_BOUNDS),
    ("C06", c06, &["rebuilt boards equal", "unchanged boards equal", "changed boards differ", "one-stone boards", "two-stone boards", "size pairs"], STD_BOUNDS),
    ("C07", c07, &["draws", "black wins", "white wins", "positions without territory", "positions with one-sided territory", "positions with both territories", "positions with prisoners"], STD_BOUNDS),
    ("C08", c08, &["resigned states", "running states", "paused states", "plays", "passes", "resumptions", "resignations", "recorded outcomes reported"], "complete graphs of boards up to 3x3 over plays, passes, resumptions and resignations (operations after the end included); shapes on 5x5, 4x6, 19x19, depth 3; all operation sequences of length 5 (thorough 7) on games with each recorded outcome"),
    ("C09", c09, &["refused: GamePaused", "refused: PointNotEmpty", "refused: Suicide", "refused: Ko", "continuations compared", "copies compared"], "graphs of boards up to 1x6, 2x3 (depth 7), 3x3 (depth 5); superko graphs; all shapes at the borders and centre of 5x5, 4x6, 19x19; all refused moves and all queries in every state, every continuation of depth 1 (small boards 2)"),
    ("C10", c10, &["empty boards", "square boards with stones", "rectangular boards with stones"], STD_BOUNDS),
    ("C11", c11, &["points", "preset sizes", "outside points refused", "oversized boards refused"], "all 361 sizes, every point of each; outside coordinates: whole lines and columns of the u8 x u8 coordinate plane for every size; requests of 20..600 in either or both dimensions and wrap-around values"),
    ("C12", sgf::c12, &["records imported", "records refused", "passes played", "moves not first in their node", "moves in the root", "rectangular records", "two moves in a row of one colour", "records with variations"], "all records of the bounded grammar described in DESIGN.md"),
    ("C13", c13, &["games compared with the model", "continuations compared", "orders of options compared", "games with a recorded outcome", "white to begin", "handicap games"], "the product of 5 sizes, 5 rules, 3 komi, 6 handicaps, 4 set-ups, 3 players, 4 outcomes, 7 move lists, each in 4 (thorough 12) orders of the options; all 5040 orders of one full configuration; continuations of depth 1 over all operations"),
    ("C14", c14, &["stones placed", "groups removed", "comparisons with a new board", "comparisons of long games"], "runs of 140000 (thorough 400000) placements in four patterns on four boards, games of up to 70000 (140000) plays under four rule combinations, and all continuations of depth 4 of an aged board in lock step with a new one"),
    ("C15", c15, &["symmetries compared", "colour exchanges compared"], "every explored game in all 8 orientations and both colour assignments: graphs up to 1x6, 2x3, 2x4/3x3 bounded, superko graphs, all 3x3 neighbourhoods of corner, edge and centre points, eyes with open corners, shapes at all offsets of 5x5 and 4x7"),
    ("C16", c16, &["eyes", "false eyes", "full eyes", "refused: fill eye"], "graphs up to 3x3; all fillings of 3x3 neighbourhoods at corner, edge, centre and arbitrary points of boards up to 19x19 in three surroundings; eyes with open corners; shapes"),
    ("C18", c18, &["history entries compared", "repeated positions", "games of two or more plays"], "all games (history as a sequence) on boards up to 3x3 to the stated depths under three rules with passes and resumptions; shapes on boards up to 19x19, depth 3-4; games from every set-up of 1x3, 2x2, 1x4"),
    ("C19", c19, &["queries answered", "plays without capture", "captures", "suicides", "groups removed by hand"], "the standard suite, superko and fill-eye graphs, all 361 board sizes and direct placements/removals, every query with every in-board argument in every state, in a build with debug assertions and overflow checks"),
    ("C20", c20, &["captures of 1 group", "captures of 4 groups", "captures of more than 255 stones", "suicides of 1 stone", "suicides of several stones", "more than 255 prisoners", "Pass", "Resume"], STD_BOUNDS),
    ("C21", c21, &["suicides simulated", "captures simulated", "plain moves simulated"], STD_BOUNDS),
    ("C22", c22, &["builds compared", "states compared"], "four builds (history; no optional features; all features; history with debug assertions and overflow checks) compared state by state on: complete graphs of boards up to 6 points under four rules, superko games up to 3x3, every 8th (thorough: every 2nd) scenario of the families of the standard suite, all 361 sizes"),
    ("C23", c23, &["rule names accepted", "rule names refused", "sizes converted", "empty points refused as stones", "plays under named rules", "refusals under named rules"], "all texts of up to four letters of an alphabet of 16, all 256x256 coordinates and sizes, all results; every coordinate on all 361 sizes; all games under the named rules on boards up to 3x3 to depth 3-8"),
    ("C24", c24, &["pairs of liberties", "sets of liberties", "nearly full sets", "chains taken out"], "all 361 x 361 pairs of points in seven ways of adding and removing; all sets within windows of 9-10 (thorough 12) points at byte borders and both ends, with all one-point changes and all unions; all sequences of 7 (thorough 9) insertions and removals in the table of chains"),
    ("C25", c25, &["iterators examined", "steps of iterators", "empty iterators", "chains iterated", "rings walked"], "every iterator in every state of the graphs of boards up to 6 points and 3x3 and of the families of the standard suite, at every point of its consumption; all rings of up to 7 stones"),
];
const ASSUME: &[&str] = &[
    "the reference model (mc/src/refgo.rs: arrays and flood fill) states the rules of Go correctly",
    "behaviour outside the stated bounds is not explored",
    "illegal moves are only made through the checked interface; after a resignation only the outcome is specified",
];

fn oracle(p: &str) -> Option<Box<dyn Oracle>> {
    Some(match p {
        "C01" => Box::new(C01),
        "C02" => Box::new(C02),
        "C03" => Box::new(C03),
        "C04" => Box::new(C04),
        "C05" => Box::new(C05 { layout: false }),
        "C06" => Box::new(C06::default()),
        "C07" => Box::new(C07),
        "C08" => Box::new(C08),
        "C09" => Box::new(C09),
        "C10" => Box::new(C10),
        "C11" => Box::new(Full),
        "C15" => Box::new(C15 { syms: (0..8).flat_map(|s| [(s, false), (s, true)]).collect() }),
        "C16" => Box::new(C16),
        "C18" => Box::new(C18Key),
        "C19" => Box::new(C19),
        "C20" => Box::new(C20),
        "C21" => Box::new(C21),
        "C25" => Box::new(C25),
        _ => return None,
    })
}

fn replay(file: &str) -> i32 {
    let txt = std::fs::read_to_string(file).expect("replay file");
    let mut s = Scn::new("replay", 1, 1);
    let mut ops = vec![];
    let mut prop = String::new();
    let mut is_case = None;
    for l in txt.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| f[i].parse::<usize>().unwrap();
        match f.first().copied() {
            Some("property") => prop = f[1].into(),
            Some("size") => (s.h, s.w) = (n(1), n(2)),
            Some("turn") => s.turn = n(1) as u8,
            Some("ill") => s.ill = n(1) as u32,
            Some("sco") => s.sco = n(1) as u32,
            Some("komi") => s.komi = f[1].parse().unwrap(),
            Some("played_in") => s.played_in = f[1] == "true",
            Some("origin") => s.origin = f[1].parse().unwrap(),
            Some("noise") => s.noise = f[1] == "true",
            Some("setup") => {
                for x in &f[1..] {
                    let v: Vec<u8> = x.split(',').map(|y| y.parse().unwrap()).collect();
                    s.setup.push((v[0], v[1], v[2]));
                }
            }
            Some("ops") => {
                for x in &f[1..] {
                    ops.push(match *x {
                        "pass" => Op::Pass,
                        "resume" => Op::Resume,
                        "resign1" => Op::Resign(B),
                        "resign2" => Op::Resign(W),
                        p => {
                            let v: Vec<u8> = p.split(',').map(|y| y.parse().unwrap()).collect();
                            Op::Play(v[0], v[1])
                        }
                    });
                }
            }
            Some("case") => is_case = Some(l.to_string()),
            _ => {}
        }
    }
    s.ops = OP_PASS | OP_RESUME;
    init(&prop, "quick", 1, "/tmp");
    if let Some(c) = is_case {
        println!("this violation is not a game but a case of the check itself: {c}\nrun the check of {prop} again to see it");
        return 2;
    }
    let o = oracle(&prop).expect("no oracle for this property");
    let mut st = Stats::default();
    let r = guarded(
        || (String::new(), String::new()),
        || {
            let (mut g, mut r) = s.start();
            println!("start: {}", r.b.show());
            for (k, &op) in ops.iter().enumerate() {
                if s.noise {
                    s.noise(&mut g, &r);
                }
                o.state(&s, &g, &r, &mut st)?;
                let (g0, r0) = (g.clone(), r.clone());
                apply(&mut g, op);
                r = r.apply(op);
                println!("{op:?}: model {}", r.b.show());
                o.edge(&s, &g0, &r0, op, &g, &r, &mut st)?;
                o.path(&s, &ops[..=k], &g, &r, &mut st)?;
            }
            if s.noise {
                s.noise(&mut g, &r);
            }
            o.state(&s, &g, &r, &mut st)?;
            o.path(&s, &ops, &g, &r, &mut st)
        },
    );
    match r {
        Ok(()) => {
            println!("the property holds on this case");
            0
        }
        Err(m) => {
            println!("VIOLATED: {m}");
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "replay" {
        std::process::exit(replay(&a[2]));
    }
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let Some((id, f, must, bounds)) = TABLE.iter().find(|e| e.0 == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let tier = match tier.as_str() {
        "thorough" => "thorough",
        "lite" => "lite",
        "child" => "child",
        _ => "quick",
    };
    init(id, tier, seed, &dir);
    if tier == "child" {
        std::process::exit(c22_child());
    }
    let mut st = Stats::default();
    f(&mut st);
    std::process::exit(finish(st, must, bounds, ASSUME));
}
