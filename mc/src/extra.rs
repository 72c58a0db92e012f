//! Further properties: the same game in every build (C22), names and conversions (C23), liberty sets
//! and the chain table (C24), iterators (C25).
use crate::engine::*;
use crate::ensure;
use crate::oracles::*;
use crate::refgo::*;
use crate::suites::*;
use goban::pieces::goban::Goban;
use goban::pieces::group::{merge, set, CircularGroupIter, Group, Groups, Liberties, EMPTY_LIBERTIES};
use goban::pieces::stones::{Color, Point, Stone, EMPTY};
use goban::pieces::util::coord::{is_coord_valid, one_to_2dim, two_to_1dim, Coord, Size};
use goban::rules::game::Game;
use goban::rules::{EndGame, GobanSizes, IllegalRules, Move, Rule, ScoreRules, CHINESE, JAPANESE};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::Mutex;

fn h64(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------------------------------- C22
/// scenario -> (sum of the digests of its states, number of states)
#[derive(Default)]
pub struct Builds {
    sums: Mutex<BTreeMap<u64, (u64, u64)>>,
    /// print the states of this scenario only
    only: Option<u64>,
}
fn scn_key(s: &Scn) -> u64 {
    h64((s.describe(&[]), s.depth, &s.window, s.mem, s.ops, s.hist_key))
}
/// everything observable that does not need an optional feature
pub fn facts(s: &Scn, g: &Game) -> String {
    let mut t: String = digest(g).lines().filter(|l| !l.starts_with("history")).collect::<Vec<_>>().join(" | ");
    for f in [0, SUI, KO, SUPER, EYE, 15] {
        t += &format!(" | legal{f} {:?}", g.legals_by(flags(f)).take(999).collect::<Vec<_>>());
    }
    let n = s.h * s.w;
    let cells: Vec<usize> = match &s.window {
        Some(w) => w.clone(),
        None => (0..n).collect(),
    };
    for i in cells {
        let p = ((i / s.w) as u8, (i % s.w) as u8);
        t += &format!(" | {:?}", g.check_point(p));
        if g.get_color(p).is_none() {
            for c in [Color::Black, Color::White] {
                let st = Stone { coord: p, color: c };
                t += &format!("{}{}{}{}", g.check_ko(st) as u8, g.check_suicide(st) as u8, g.check_eye(st) as u8, g.check_super_ko(st) as u8);
            }
            t += if g.will_capture(p) { "c" } else { "-" };
            let v = g.play_for_verification(p);
            t += &format!("{:x}", v.zobrist_hash());
        }
        let mut k: Vec<_> = g.get_group_from_point(Point { coord: p, color: g.get_color(p) }).into_iter().map(|x| x.coord).collect();
        k.sort_unstable();
        t += &format!("{k:?}");
    }
    let (b, w) = g.get_territories();
    let (mut b, mut w): (Vec<_>, Vec<_>) = (b.map(|x| x.coord).collect(), w.map(|x| x.coord).collect());
    b.sort_unstable();
    w.sort_unstable();
    t += &format!(" | territory {b:?} {w:?} | score {:?} | {}", g.calculate_score_by(ScoreRules::all()), g.pretty_string().replace('\n', "/"));
    let mut g = g.clone();
    for komi in [-3.5, 0.25, 1000.0] {
        g.set_komi(komi);
        t += &format!(" | komi {komi} {:?} {:?} {:?}", g.calculate_score(), g.calculate_score_by(ScoreRules::KOMI), g.outcome());
    }
    t
}
impl Oracle for Builds {
    fn path(&self, s: &Scn, path: &[Op], g: &Game, _r: &RG, st: &mut Stats) -> Res {
        let k = scn_key(s);
        if let Some(o) = self.only {
            if o == k {
                println!("S {path:?} {}", facts(s, g));
            }
            return Ok(());
        }
        let d = h64((format!("{path:?}"), facts(s, g)));
        let mut m = self.sums.lock().unwrap();
        let e = m.entry(k).or_default();
        e.0 = e.0.wrapping_add(d);
        e.1 += 1;
        st.inc("states whose facts were digested");
        Ok(())
    }
}
fn c22_run(o: &Builds, st: &mut Stats) -> bool {
    let ills = [KO | SUI, KO, SUI, 0, KO | SUI | SUPER, SUPER];
    let mut big = graphs(TINY, &ills[..4], OP_PASS | OP_RESUME | OP_RESIGN);
    for ill in [SUPER, KO | SUI | SUPER, KO | SUPER | EYE] {
        for (h, w, d) in [(1, 4, 8), (2, 2, 8), (2, 3, 5), (1, 5, 7), (3, 3, 3)] {
            big.push(Scn::new(&format!("builds-superko-{h}x{w}-ill{ill}"), h, w).ill(ill).depth(d).hist().ops(OP_PASS | OP_RESUME));
        }
    }
    let mut gens = wide(&Std { light: 0, ops: OP_PASS | OP_RESUME, ills: vec![KO | SUI, 0, KO | SUI | SUPER], weight: 1 });
    gens.extend(superko_gens(&[(1, 4, 4), (2, 2, 4), (1, 5, 3), (2, 3, 2)], &[SUPER, KO | SUI | SUPER], OP_PASS));
    gens.extend(every_size());
    if o.only.is_some() {
        // one scenario, in its place in the enumeration
        let k = o.only.unwrap();
        for s in &big {
            if scn_key(s) == k {
                return bfs(s, o, 1, st);
            }
        }
        for g in &gens {
            let mut found = false;
            let mut i = 0;
            g(&mut |s: Scn| {
                i += 1;
                if !found && (!thin() || i % stride() == 1) && scn_key(&s) == k {
                    found = true;
                    bfs(&s, o, 1, st);
                }
            });
            if found {
                return true;
            }
        }
        return false;
    }
    run_big(&big, o, st) && run_gens(&gens, o, st)
}
fn every_size() -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for h in 1..=19usize {
        v.push(Box::new(move |f: Sink| {
            for w in 1..=19usize {
                let mut b = RB::new(h, w);
                for i in 0..h * w {
                    b.c[i] = [B, B, E, W, W, E, E][i * 5 % 7];
                }
                if b.is_legal() {
                    f(Scn::new(&format!("builds-size-{h}x{w}"), h, w).board(&b).depth(1).window(vec![0, h * w / 2, h * w - 1]));
                }
            }
        }));
    }
    v
}
/// the digests of this build, for the parent process
pub fn c22_child() -> i32 {
    let only = std::env::var("MC_SCN").ok().and_then(|x| x.parse().ok());
    let o = Builds { only, ..Default::default() };
    let mut st = Stats::default();
    c22_run(&o, &mut st);
    if let Some(v) = run().violation.lock().unwrap().as_ref() {
        println!("P {}", v.msg.replace('\n', " "));
        for l in v.case.lines() {
            println!("C {l}");
        }
    }
    for (k, (s, n)) in o.sums.lock().unwrap().iter() {
        println!("D {k} {s} {n}");
    }
    println!("END");
    0
}
fn child(exe: &str, scn: Option<u64>) -> Result<String, String> {
    let mut c = std::process::Command::new(exe);
    c.arg("C22").env("VERIF_TIER", "child").env("MC_DEEP", thorough().to_string());
    if let Some(k) = scn {
        c.env("MC_SCN", k.to_string());
    }
    let o = c.output().map_err(|e| format!("{exe}: {e}"))?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    if t.lines().last() != Some("END") {
        return Err(format!("{exe} died ({}): {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(t)
}
pub fn c22(st: &mut Stats) {
    let o = Builds::default();
    if !c22_run(&o, st) {
        return;
    }
    let mine = o.sums.into_inner().unwrap();
    st.add("scenarios compared", mine.len() as u64);
    for (var, name) in [("MC_PLAIN", "without optional features"), ("MC_FULL", "with all features"), ("MC_CHECKED", "with debug assertions and overflow checks")] {
        let Ok(exe) = std::env::var(var) else {
            eprintln!("{var} is not set: run C22 through run.sh");
            std::process::exit(2);
        };
        let t = match child(&exe, None) {
            Ok(t) => t,
            Err(m) => {
                eprintln!("{m}");
                std::process::exit(2);
            }
        };
        if let Some(p) = t.lines().find_map(|l| l.strip_prefix("P ")) {
            let case: String = t.lines().filter_map(|l| l.strip_prefix("C ")).map(|l| format!("{l}\n")).collect();
            violate(Violation { msg: format!("the build {name} behaves differently: {p}"), case, test: String::new() });
            return;
        }
        let theirs: BTreeMap<u64, (u64, u64)> = t
            .lines()
            .filter_map(|l| l.strip_prefix("D "))
            .map(|l| {
                let v: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap()).collect();
                (v[0], (v[1], v[2]))
            })
            .collect();
        st.inc("builds compared");
        st.add("states compared", theirs.values().map(|x| x.1).sum());
        st.traces += theirs.values().map(|x| x.1).sum::<u64>();
        let Some(k) = mine.keys().chain(theirs.keys()).find(|k| mine.get(k) != theirs.get(k)) else { continue };
        // look at the states of that scenario in both builds
        let me = std::env::current_exe().unwrap().display().to_string();
        let (a, b) = (child(&me, Some(*k)).unwrap_or_default(), child(&exe, Some(*k)).unwrap_or_default());
        let diff = a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, y)| {
            let at = x.split(" | ").zip(y.split(" | ")).find(|(p, q)| p != q);
            format!("{}\n history build: {:?}\n other build:   {:?}", x.split(']').next().unwrap_or(""), at.map(|z| z.0), at.map(|z| z.1))
        });
        let mut case = String::new();
        let find = |s: &Scn, case: &mut String| {
            if scn_key(s) == *k {
                *case = s.describe(&[]);
            }
        };
        let ills = [KO | SUI, KO, SUI, 0];
        for s in graphs(TINY, &ills, OP_PASS | OP_RESUME | OP_RESIGN) {
            find(&s, &mut case);
        }
        violate(Violation { msg: format!("the build {name} plays another game (scenario {k}): {}", diff.unwrap_or_default()), case, test: String::new() });
        return;
    }
}

// ------------------------------------------------------------------------------------------- C23
pub fn c23(st: &mut Stats) {
    let ok = case(|| "named rules".into(), st, |st| {
        let chi = Rule { komi: 7.5, flag_illegal: flags(KO | SUPER | SUI), flag_score: ScoreRules::KOMI | ScoreRules::STONES };
        let jap = Rule { komi: 6.5, flag_illegal: flags(KO | SUI), flag_score: ScoreRules::KOMI | ScoreRules::PRISONNERS };
        ensure!(CHINESE == chi, "the Chinese rules are {CHINESE:?}");
        ensure!(JAPANESE == jap, "the Japanese rules are {JAPANESE:?}");
        // the flags are what their names say: four and three different ones
        let ill = [(IllegalRules::KO, KO), (IllegalRules::SUPERKO, SUPER), (IllegalRules::SUICIDE, SUI), (IllegalRules::FILLEYE, EYE)];
        for (f, b) in ill {
            ensure!(f.bits() == b, "{f:?} has the bits {}", f.bits());
        }
        ensure!(IllegalRules::all().bits() == 15 && ScoreRules::all().bits() == 7, "there are other flags");
        let sc = [ScoreRules::STONES, ScoreRules::KOMI, ScoreRules::PRISONNERS];
        for a in 0..3 {
            for b in 0..a {
                ensure!((sc[a] & sc[b]).is_empty(), "score flags overlap");
            }
        }
        // every text of up to three letters of an alphabet, and variants of the two names
        let alpha: Vec<char> = "JAPCHIjapchi \n0é".chars().collect();
        let mut words = vec![String::new()];
        let mut last = words.clone();
        for _ in 0..4 {
            last = last.iter().flat_map(|w| alpha.iter().map(move |c| format!("{w}{c}"))).collect();
            words.extend(last.iter().cloned());
        }
        for w in ["JAPANESE", "CHINESE", "Japanese", "Chinese", "JPN", "CHN", "AGA", "NZ", "ING", "KOREAN"] {
            words.push(w.into());
        }
        for w in &words {
            match Rule::from_str(w) {
                Ok(r) => {
                    st.inc("rule names accepted");
                    let want = match w.as_str() {
                        "JAP" => jap,
                        "CHI" => chi,
                        _ => return Err(format!("{w:?} is taken for a rule: {r:?}")),
                    };
                    ensure!(r == want, "the rule {w:?} is {r:?}");
                }
                Err(_) => {
                    ensure!(w != "JAP" && w != "CHI", "the rule {w:?} is unknown");
                    st.inc("rule names refused");
                }
            }
        }
        st.states += words.len() as u64;
        Ok(())
    }) && case(|| "sizes".into(), st, |st| {
        for (s, n) in [(GobanSizes::Nine, 9u8), (GobanSizes::Thirteen, 13), (GobanSizes::Nineteen, 19)] {
            ensure!(Size::from(s) == (n, n), "{s:?} is {:?}", Size::from(s));
            ensure!(GobanSizes::from(n as usize) == s, "size {n} is {:?}", GobanSizes::from(n as usize));
        }
        for h in 0..=255usize {
            for w in 0..=255usize {
                ensure!(Size::from(GobanSizes::Custom(h, w)) == (h as u8, w as u8), "Custom({h}, {w}) is {:?}", Size::from(GobanSizes::Custom(h, w)));
                st.states += 1;
            }
        }
        for n in (0..2000usize).chain([65545, 65549, 1 << 32 | 9]) {
            let r = panics(|| { let _ = GobanSizes::from(n); });
            ensure!(r.is_none() == (n == 9 || n == 13 || n == 19), "GobanSizes::from({n}): {r:?}");
        }
        st.inc("sizes converted");
        Ok(())
    }) && case(|| "colours, points, moves and results".into(), st, |st| {
        use Color::*;
        ensure!(!Black == White && !White == Black, "the opposite colour");
        ensure!(format!("{Black} {White}") == "Black White", "colours are printed as {Black} {White}");
        ensure!(EMPTY.is_none(), "EMPTY is a colour");
        ensure!(Color::from(Some(Black)) == Black && Color::from(Some(White)) == White, "Color::from");
        ensure!(panics(|| { let _ = Color::from(EMPTY); }).is_some(), "an empty point has a colour");
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                let c: Coord = (a, b);
                ensure!(Move::from(c) == Move::Play(a, b), "Move::from({c:?}) is {:?}", Move::from(c));
                for k in [None, Some(Black), Some(White)] {
                    let p = Point::from((c, k));
                    ensure!(p.coord == c && p.color == k && Coord::from(p) == c, "Point::from gives {p:?}");
                    match (Stone::try_from(p), k) {
                        (Ok(s), Some(k)) => {
                            ensure!(s.coord == c && s.color == k && Coord::from(s) == c, "{p:?} becomes {s:?}");
                            ensure!(Stone::from((c, k)) == s, "Stone::from");
                        }
                        (Err(_), None) => st.inc("empty points refused as stones"),
                        (r, _) => return Err(format!("{p:?} becomes {r:?}")),
                    }
                    st.states += 1;
                }
            }
        }
        for p in [Black, White] {
            for e in [EndGame::WinnerByScore(p, 0.5), EndGame::WinnerByResign(p), EndGame::WinnerByTime(p), EndGame::WinnerByForfeit(p)] {
                ensure!(e.get_winner() == Some(p), "the winner of {e:?} is {:?}", e.get_winner());
            }
        }
        ensure!(EndGame::Draw.get_winner().is_none(), "a draw has a winner");
        // what an SGF parser hands over
        {
            use sgf_parser::{Action, Outcome, RuleSet};
            for c in 1..=19u8 {
                for l in 1..=19u8 {
                    let m = Move::from(Action::Move(c, l));
                    ensure!(m == Move::Play(l - 1, c - 1), "column {c}, line {l} of a record becomes {m:?}");
                    st.inc("moves of records converted");
                }
            }
            ensure!(Move::from(Action::Pass) == Move::Pass, "the pass of a record becomes {:?}", Move::from(Action::Pass));
            for (a, b) in [(sgf_parser::Color::Black, Black), (sgf_parser::Color::White, White)] {
                ensure!(Color::from(a) == b, "{a:?} of a record becomes {:?}", Color::from(a));
                let mut rs = vec![(Outcome::WinnerByResign(a), EndGame::WinnerByResign(b)), (Outcome::WinnerByForfeit(a), EndGame::WinnerByForfeit(b)), (Outcome::WinnerByTime(a), EndGame::WinnerByTime(b)), (Outcome::Draw, EndGame::Draw)];
                for k in 0..1500 {
                    rs.push((Outcome::WinnerByPoints(a, k as f32 / 4.0), EndGame::WinnerByScore(b, k as f32 / 4.0)));
                }
                for (x, y) in rs {
                    ensure!(EndGame::from(x) == y, "the result {x:?} of a record becomes {:?}", EndGame::from(x));
                    st.inc("results of records converted");
                }
            }
            ensure!(Rule::from(RuleSet::Japanese) == JAPANESE && Rule::from(RuleSet::Chinese) == CHINESE, "the rules of a record");
        }
        Ok(())
    }) && case(|| "coordinates".into(), st, |st| {
        for h in 1..=19u8 {
            for w in 1..=19u8 {
                let mut n = 0;
                for r in 0..=255u8 {
                    for c in 0..=255u8 {
                        let inside = r < h && c < w;
                        ensure!(is_coord_valid((h, w), (r, c)) == inside, "is_coord_valid(({h}, {w}), ({r}, {c}))");
                        if inside {
                            ensure!(two_to_1dim((h, w), (r, c)) == n, "({r}, {c}) on {h}x{w} has the index {}", two_to_1dim((h, w), (r, c)));
                            ensure!(one_to_2dim((h, w), n) == (r, c), "index {n} on {h}x{w} is {:?}", one_to_2dim((h, w), n));
                            n += 1;
                        }
                    }
                }
                st.states += n as u64;
                st.inc("sizes with all coordinates");
            }
        }
        Ok(())
    });
    if !ok {
        return;
    }
    // games under the named rules follow the model of those rules
    for (name, rule, ill, sco) in [("CHI", CHINESE, KO | SUPER | SUI, 3), ("JAP", JAPANESE, KO | SUI, 6)] {
        for (h, w, d) in [(1, 3, 8), (1, 4, 7), (2, 2, 7), (2, 3, 4), (3, 3, 3)] {
            let done = case(|| format!("games under {name} on {h}x{w}"), st, |st| {
                ensure!(Rule::from_str(name).as_ref() == Ok(&rule), "{name}");
                let mut level = vec![(Game::new(GobanSizes::Custom(h, w), rule), RG::new(RB::new(h, w), B, ill))];
                ensure!(level[0].0.komi() == if name == "CHI" { 7.5 } else { 6.5 }, "komi under {name} is {}", level[0].0.komi());
                for _ in 0..d {
                    let mut next = vec![];
                    for (g, r) in &level {
                        same_board(g.goban(), &r.b)?;
                        let (tb, tw) = r.b.territories();
                        let komi = g.komi();
                        let (mut b, mut w) = (tb.len() as f32, tw.len() as f32 + komi);
                        let (pb, pw) = g.prisoners();
                        if sco == 3 {
                            b += r.b.count(B) as f32;
                            w += r.b.count(W) as f32;
                        } else {
                            b += pb as f32;
                            w += pw as f32;
                        }
                        ensure!(g.calculate_score() == (b, w), "under {name} the score of {} is {:?} but should be {:?}", r.b.show(), g.calculate_score(), (b, w));
                        st.states += 1;
                        if r.over() {
                            continue;
                        }
                        for i in 0..r.b.n() {
                            let (y, x) = r.b.rc(i);
                            let mut g1 = g.clone();
                            let res = g1.try_play(Move::Play(y, x)).is_ok();
                            let want = r.b.c[i] == E && r.legal(i);
                            ensure!(res == want, "under {name} ({y}, {x}) is {} in {}", if res { "accepted" } else { "refused" }, r.b.show());
                            st.transitions += 1;
                            if res {
                                next.push((g1, r.apply(Op::Play(y, x))));
                                st.inc("plays under named rules");
                            } else {
                                st.inc("refusals under named rules");
                            }
                        }
                        let mut g1 = g.clone();
                        g1.play(Move::Pass);
                        next.push((g1, r.apply(Op::Pass)));
                    }
                    level = next;
                }
                Ok(())
            });
            if !done {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C24
fn set_of(g: &Group) -> Result<BTreeSet<usize>, String> {
    let v = g.liberties();
    let s: BTreeSet<usize> = v.iter().copied().collect();
    ensure!(s.len() == v.len(), "liberties lists a point twice: {v:?}");
    Ok(s)
}
fn liberty_check(g: &Group, want: &BTreeSet<usize>, probe: &[usize]) -> Res {
    let got = set_of(g)?;
    ensure!(&got == want, "the liberties are {got:?} but should be {want:?}");
    ensure!(g.number_of_liberties() == want.len(), "{} liberties counted, there are {}", g.number_of_liberties(), want.len());
    ensure!(g.is_dead() == want.is_empty(), "is_dead is {} with the liberties {want:?}", g.is_dead());
    ensure!(g.is_atari() == (want.len() == 1), "is_atari is {} with the liberties {want:?}", g.is_atari());
    for &i in probe {
        ensure!(g.contains_liberty(i) == want.contains(&i), "contains_liberty({i}) is {} with the liberties {want:?}", g.contains_liberty(i));
    }
    Ok(())
}
fn lib_of(s: &BTreeSet<usize>) -> Liberties {
    let mut l = EMPTY_LIBERTIES;
    for &i in s {
        set::<true>(i, &mut l);
    }
    l
}
pub fn c24(st: &mut Stats) {
    const N: usize = 361;
    let all: Vec<usize> = (0..N).collect();
    // every single point and every pair of points, added in both ways and removed again
    let rows: Vec<usize> = (0..N).collect();
    if !par_each(&rows, st, |&a, st| {
        case(|| format!("liberties {a} and others"), st, |st| {
            for color in [Color::Black, Color::White] {
                let mut g = Group::new(color, a);
                ensure!(g.color == color && g.num_stones == 1, "a new chain at {a} is {g:?}");
                liberty_check(&g, &BTreeSet::new(), &all)?;
                g.add_liberty(a);
                let one: BTreeSet<usize> = [a].into();
                liberty_check(&g, &one, &all)?;
                g.remove_liberty(a);
                liberty_check(&g, &BTreeSet::new(), &all)?;
            }
            let one: BTreeSet<usize> = [a].into();
            for b in 0..N {
                let two: BTreeSet<usize> = [a, b].into();
                let near: Vec<usize> = (a.saturating_sub(9)..(a + 10).min(N)).chain(b.saturating_sub(9)..(b + 10).min(N)).collect();
                let probe: &[usize] = if b % 60 == 0 { &all } else { &near };
                let g0 = Group::new_with_liberties(Color::Black, 0, lib_of(&one));
                liberty_check(&g0, &one, &[a, b])?;
                let mut ways: Vec<Group> = vec![];
                let mut g = g0;
                g.union_liberties(lib_of(&[b].into()));
                ways.push(g);
                let mut g = g0;
                g.union_liberties(lib_of(&two));
                ways.push(g);
                let mut g = g0;
                g.union_liberties_slice(&[b]);
                ways.push(g);
                let mut g = g0;
                g.union_liberties_slice(&[b, a, b]);
                ways.push(g);
                let mut l = lib_of(&one);
                merge(&mut l, &lib_of(&[b].into()));
                ways.push(Group::new_with_liberties(Color::White, 0, l));
                if a != b {
                    let mut g = g0;
                    g.add_liberty(b);
                    ways.push(g);
                    let mut g = Group::new(Color::Black, 0);
                    g.add_liberties([b, a].into_iter());
                    ways.push(g);
                }
                for mut g in ways {
                    liberty_check(&g, &two, probe)?;
                    st.states += 1;
                    // taking either out leaves the other
                    let mut h = g;
                    h.remove_liberty(a);
                    let mut rest = two.clone();
                    rest.remove(&a);
                    liberty_check(&h, &rest, &[a, b])?;
                    g.remove_liberty(b);
                    let mut rest = two.clone();
                    rest.remove(&b);
                    liberty_check(&g, &rest, &[a, b])?;
                    st.transitions += 2;
                }
                st.inc("pairs of liberties");
            }
            Ok(())
        });
    }) {
        return;
    }
    // every set of points around a byte border and the ends, in every order of one step between sets
    let lens: &[(usize, usize)] = if thorough() { &[(0, 12), (4, 12), (250, 12), (349, 12)] } else { &[(0, 9), (4, 9), (250, 10), (352, 9)] };
    if !par_each(lens, st, |&(from, k), st| {
        case(|| format!("sets within {from}..{}", from + k), st, |st| {
            let probe: Vec<usize> = (from.saturating_sub(9)..(from + k + 9).min(N)).collect();
            for code in 0..1u32 << k {
                let s: BTreeSet<usize> = (0..k).filter(|j| code >> j & 1 == 1).map(|j| from + j).collect();
                let g = Group::new_with_liberties(Color::White, from, lib_of(&s));
                liberty_check(&g, &s, &probe)?;
                st.states += 1;
                for j in 0..k {
                    let mut g = g;
                    let mut t = s.clone();
                    if t.remove(&(from + j)) {
                        g.remove_liberty(from + j);
                    } else {
                        t.insert(from + j);
                        g.add_liberty(from + j);
                    }
                    liberty_check(&g, &t, &probe)?;
                    st.transitions += 1;
                }
                for other in 0..1u32 << k.min(9) {
                    let o: BTreeSet<usize> = (0..k).filter(|j| other >> j & 1 == 1).map(|j| from + j).collect();
                    let mut g = g;
                    g.union_liberties(lib_of(&o));
                    let u: BTreeSet<usize> = s.union(&o).copied().collect();
                    liberty_check(&g, &u, &[from, from + k - 1])?;
                    st.transitions += 1;
                }
                st.inc("sets of liberties");
            }
            Ok(())
        });
    }) {
        return;
    }
    // whole boards of liberties
    case(|| "all points but a few".into(), st, |st| {
        for a in 0..N {
            let mut s: BTreeSet<usize> = all.iter().copied().collect();
            let mut g = Group::new(Color::Black, a);
            g.add_liberties(0..N);
            liberty_check(&g, &s, &all)?;
            s.remove(&a);
            g.remove_liberty(a);
            liberty_check(&g, &s, &all)?;
            let b = (a * 7 + 3) % N;
            if b != a {
                s.remove(&b);
                g.remove_liberty(b);
                liberty_check(&g, &s, &all)?;
            }
            st.inc("nearly full sets");
        }
        Ok(())
    });
    // the table of chains: every sequence of insertions and removals
    let depth = if thorough() { 9 } else { 7 };
    case(|| "table of chains".into(), st, |st| {
        let mut level: Vec<(Groups, BTreeMap<usize, u16>, u16, usize)> = vec![(Groups::with_capacity(0), BTreeMap::new(), 0, 0)];
        level.push((Groups::with_capacity(4), BTreeMap::new(), 0, 0));
        for _ in 0..depth {
            let mut next = vec![];
            for (g, m, n, most) in &level {
                let mut g1 = g.clone();
                let h = g1.put_free_spot(Group::new(if n % 2 == 0 { Color::Black } else { Color::White }, *n as usize));
                let mut m1 = m.clone();
                ensure!(!m.contains_key(&h), "the slot {h} given to a new chain is taken");
                // a slot is only added when none is free: there are as many as chains there ever were at once
                let peak = (m.len() + 1).max(*most);
                ensure!(h < peak, "the new chain got slot {h} although there never were more than {peak} chains at once");
                m1.insert(h, *n);
                next.push((g1, m1, n + 1, peak));
                for &h in m.keys() {
                    let mut g1 = g.clone();
                    g1.remove(h);
                    let mut m1 = m.clone();
                    m1.remove(&h);
                    next.push((g1, m1, *n, *most));
                    st.inc("chains taken out");
                }
            }
            for (g, m, ..) in &next {
                let got: BTreeMap<usize, u16> = g.iter_with_index().map(|(i, c)| (i, c.origin)).collect();
                ensure!(&got == m, "the table lists {got:?} but holds {m:?}");
                let mut listed: Vec<u16> = g.iter().map(|c| c.origin).collect();
                listed.sort_unstable();
                ensure!(listed == m.values().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "iter disagrees with the table {m:?}");
                for (&h, &o) in m {
                    ensure!(g[h].origin == o, "slot {h} holds another chain");
                }
                st.states += 1;
            }
            st.transitions += next.len() as u64;
            level = next;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------- C25
fn honest<T: PartialEq + Debug, I: Iterator<Item = T>>(name: &str, mk: impl Fn() -> I, deep: bool, st: &mut Stats) -> Res {
    let all: Vec<T> = mk().take(2000).collect();
    let n = all.len();
    ensure!(n < 2000, "{name} does not end");
    let mut it = mk();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= n - k && hi.map_or(true, |x| x >= n - k), "{name}: after {k} of {n} items the announced rest is {lo}..{hi:?}");
        let x = it.next();
        ensure!(x.as_ref() == all.get(k), "{name}: item {k} is {x:?} in steps and {:?} at once", all.get(k));
    }
    ensure!(mk().count() == n, "{name}: count() is not the number of items");
    ensure!(mk().last().as_ref() == all.last(), "{name}: last() is not the last item");
    let f = mk().fold(0, |a, x| {
        if all.get(a) == Some(&x) {
            a + 1
        } else {
            usize::MAX >> 1
        }
    });
    ensure!(f == n, "{name}: fold visits other items");
    let ks: Vec<usize> = if deep { (0..=n).collect() } else { vec![0, n / 2, n.saturating_sub(1), n] };
    for k in ks {
        let x = mk().nth(k);
        ensure!(x.as_ref() == all.get(k), "{name}: nth({k}) is {x:?} instead of {:?}", all.get(k));
        let mut it = mk();
        for _ in 0..k {
            it.next();
        }
        let rest: Vec<T> = it.collect();
        ensure!(rest[..] == all[k..], "{name}: collecting the rest after {k} items gives {rest:?}");
        let sk: Vec<T> = mk().skip(k).step_by(2).collect();
        ensure!(sk.len() == (n - k).div_ceil(2) && sk.iter().zip(all[k..].iter().step_by(2)).all(|(a, b)| a == b), "{name}: skip({k}).step_by(2) gives {sk:?}");
    }
    st.inc("iterators examined");
    if n > 0 {
        st.add("steps of iterators", n as u64);
    } else {
        st.inc("empty iterators");
    }
    Ok(())
}
pub struct C25;
impl Oracle for C25 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let deep = s.h * s.w <= 9;
        let b: &Goban = g.goban();
        honest("get_stones", || b.get_stones(), deep, st)?;
        honest("get_empty_idx", || b.get_empty_idx(), deep, st)?;
        honest("get_empty_coords", || b.get_empty_coords(), deep, st)?;
        for c in [None, Some(Color::Black), Some(Color::White)] {
            honest("get_stones_by_color", || b.get_stones_by_color(c), deep, st)?;
            honest("get_coords_by_color", || b.get_coords_by_color(c), deep, st)?;
        }
        honest("chains", || b.chains(), deep, st)?;
        // the order within a territory is not specified: compare in steps within one call only
        for k in 0..2 {
            let mk = || {
                let (x, y) = b.get_territories();
                let v: Vec<Point> = if k == 0 { x.collect() } else { y.collect() };
                v.len()
            };
            let n = mk();
            let (x, y) = b.get_territories();
            let mut x: Box<dyn Iterator<Item = Point>> = if k == 0 { Box::new(x) } else { Box::new(y) };
            for j in 0..=n {
                let (lo, hi) = x.size_hint();
                ensure!(lo <= n - j && hi.map_or(true, |x| x >= n - j), "get_territories: after {j} of {n} points the announced rest is {lo}..{hi:?}");
                ensure!(x.next().is_some() == (j < n), "get_territories gives another number of points in steps");
            }
            st.inc("iterators examined");
        }
        honest("pseudo_legals", || g.pseudo_legals(), deep, st)?;
        honest("legals", || g.legals(), deep, st)?;
        for f in if deep { 0..16 } else { 4..6 } {
            honest("legals_by", || g.legals_by(flags(f)), deep, st)?;
        }
        #[cfg(feature = "history")]
        honest("history", || g.history(), deep, st)?;
        let cells: Vec<usize> = match &s.window {
            Some(w) => w.clone(),
            None => (0..s.h * s.w).collect(),
        };
        for i in cells {
            let p = r.b.rc(i);
            honest("get_connected_points", || b.get_connected_points(p), true, st)?;
            honest("get_connected_stones", || b.get_connected_stones(p), true, st)?;
            honest("get_connected_stones by index", || b.get_connected_stones(i), true, st)?;
            honest("get_liberties", || b.get_liberties(p), true, st)?;
            if r.b.c[i] != E {
                honest("chain_stones", || b.chain_stones(p), true, st)?;
                st.inc("chains iterated");
            }
        }
        Ok(())
    }
}
pub fn c25(st: &mut Stats) {
    let mut big = graphs(TINY, &[KO | SUI, 0], OP_PASS);
    big.extend(graphs(&[(3, 3)], &[KO | SUI], OP_PASS));
    if thorough() {
        big.extend(graphs(&[(2, 4), (4, 2)], &[KO | SUI, 0], OP_PASS));
    }
    if !run_big(&big, &C25, st) || !run_gens(&wide(&Std { light: 1, ops: OP_PASS, ills: vec![KO | SUI, 0], weight: 0 }), &C25, st) {
        return;
    }
    // rings of stones of every order, as the iterator over a chain walks them
    case(|| "rings".into(), st, |st| {
        for n in 1..=7usize {
            let mut perms = vec![];
            let rest: Vec<usize> = (1..n).collect();
            crate::props::permute(&rest, &mut vec![], &mut perms);
            for p in perms {
                for shift in [0usize, 1, 354] {
                    let mut ring: Vec<u16> = vec![u16::MAX; 361];
                    let mut order = vec![shift];
                    order.extend(p.iter().map(|x| x + shift));
                    for k in 0..n {
                        ring[order[k]] = order[(k + 1) % n] as u16;
                    }
                    let mut g = Group::new(Color::Black, shift);
                    g.num_stones = n as u16;
                    g.last = order[n - 1] as u16;
                    honest("Group::iter", || g.iter(&ring), true, st)?;
                    let mut it: CircularGroupIter = g.iter(&ring);
                    for (k, &x) in order.iter().enumerate() {
                        ensure!(it.len() == n - k, "after {k} of {n} stones of a chain len() is {}", it.len());
                        let copy: Vec<usize> = it.collect();
                        ensure!(copy == order[k..], "a copy of the iterator after {k} stones gives {copy:?} of {order:?}");
                        ensure!(it.next() == Some(x), "stone {k} of the ring {order:?}");
                    }
                    for _ in 0..3 {
                        ensure!(it.len() == 0 && it.next().is_none(), "the iterator over a chain goes on after its end");
                    }
                    st.inc("rings walked");
                    st.states += 1;
                }
            }
        }
        Ok(())
    });
}
