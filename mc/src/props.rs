//! What is explored for each property, and with which oracle.
use crate::engine::*;
use crate::ensure;
use crate::oracles::*;
use crate::refgo::*;
use crate::suites::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{GobanSizes, IllegalRules, Move, Rule, ScoreRules, CHINESE, JAPANESE};
use std::collections::{HashMap, HashSet};

/// one comparison of everything with the model; used where the property is about equality of games
pub fn full_state(s: &Scn, g: &Game, r: &RG) -> Res {
    let mut st = Stats::default();
    C02.state(s, g, r, &mut st)?;
    C05 { layout: false }.state(s, g, r, &mut st)?;
    C08.state(s, g, r, &mut st)?;
    C07.state(s, g, r, &mut st)?;
    C10.state(s, g, r, &mut st)?;
    C16.state(s, g, r, &mut st)?;
    C18.state(s, g, r, &mut st)?;
    C20.state(s, g, r, &mut st)?;
    if s.ill & EYE == 0 {
        C01.state(s, g, r, &mut st)?;
        C04.state(s, g, r, &mut st)?;
        C21.state(s, g, r, &mut st)?;
    }
    Ok(())
}

fn std_run(o: &dyn Oracle, p: &Std, st: &mut Stats) -> bool {
    let (big, gens) = standard(p);
    run_big(&big, o, st) && run_gens(&gens, o, st)
}
const ILLS: &[u32] = &[KO | SUI, KO, SUI, 0];
fn std_ills(ops: u8, weight: usize) -> Std {
    Std { light: 0, ops, ills: ILLS.to_vec(), weight }
}
pub const STD_BOUNDS: &str = "complete state graphs (position, side to move, passes, ko) of all boards 1x1..1x6, 2x2, 2x3, 2x4, 3x3 and transposes under every suicide/ko rule combination (thorough: 2x5, 5x2, 3x4); all fillings of 2x2, 2x3, 3x3 windows at corners, edges, centre and around index 256 of boards up to 19x19 and rectangles, in up to 6 surroundings, depth 1-2; 25 tactical shapes in 8 symmetries and both colours at all offsets (clipped at borders too), depth 1-7; whole-board groups of up to 360 stones with all their 1-2 point holes, depth 2; boards of up to 276 groups; trees and graphs whose key remembers the last 2-3 operations or all of them; games that begin after 1..300 rounds of ko, captures, suicides and pauses; 19x19 boards played full and emptied; small shapes at every point of 19x19; games made in eight ways (one with an outcome on record); up to four large groups that meet at a point, and with refused attempts, queries and changes of komi between all operations; a move at one place of a 19x19 board, then one anywhere else; long games (up to 800 operations) looked at after every few operations";

pub fn c01(st: &mut Stats) {
    if !std_run(&C01, &std_ills(OP_PASS | OP_RESUME, 1), st) {
        return;
    }
    // with superko among the rules: agreement and the reasons of refusals (which positions repeat is C03)
    let ills = [SUPER | KO | SUI, SUPER | SUI, SUPER | KO, SUPER];
    let mut big = vec![];
    for ill in ills {
        for (h, w, depth) in [(1, 3, 9), (1, 4, 7), (2, 2, 8), (2, 3, 5), (3, 3, 4)] {
            big.push(Scn::new(&format!("superko-empty-{h}x{w}-ill{ill}"), h, w).ill(ill).depth(depth + 2 * thorough() as usize).hist());
        }
    }
    if !run_big(&big, &C01, st) {
        return;
    }
    let gens = templates(Tpl { which: vec![0, 1, 2, 8, 9, 10, 14, 15, 18, 20, 22], sizes: vec![(5, 5), (4, 6), (19, 19)], all_offsets: false, syms: vec![0, 3], ills: vec![SUPER | KO | SUI, SUPER | SUI, SUPER], depth: 4, ops: OP_PASS, played: false });
    let gens: Vec<Gen> = gens.into_iter().chain(cycles()).chain(made(&[SUPER | KO | SUI], OP_PASS, 2)).map(with_hist).collect();
    run_gens(&gens, &C01, st);
}
pub fn c02(st: &mut Stats) {
    std_run(&C02, &std_ills(OP_PASS, 1), st);
}
pub fn c04(st: &mut Stats) {
    let s = std_ills(OP_PASS | OP_RESUME, 1);
    if !std_run(&C04, &s, st) {
        return;
    }
    // ko fights at every point of large boards
    let g = templates(Tpl { which: vec![0, 1, 9], sizes: vec![(19, 19), (7, 11), (11, 7), (2, 9), (9, 2), (3, 19)], all_offsets: true, syms: if thorough() { (0..8).collect() } else { vec![0, 1, 2, 4] }, ills: vec![KO | SUI, KO], depth: 3, ops: OP_PASS, played: false });
    if !run_gens(&g, &C04, st) {
        return;
    }
    if !run_gens(&threats(&[KO | SUI, KO], OP_PASS | OP_RESUME), &C04, st) {
        return;
    }
    run_gens(&late(&[KO | SUI, KO], OP_RESUME), &C04, st);
}
pub fn c05(st: &mut Stats) {
    // states include the internal layout of groups, so every merge order is a state of its own
    let o = C05 { layout: true };
    let mut big = graphs(&[(2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (1, 6)], &[KO | SUI, KO], OP_PASS);
    for (d, s) in [(6, (3, 3)), (6, (2, 4))] {
        for x in graphs(&[s], &[SUI, 0], OP_PASS) {
            big.push(x.depth(if thorough() { d + 2 } else { d }));
        }
    }
    if !run_big(&big, &o, st) {
        return;
    }
    if !std_run(&C05 { layout: false }, &Std { light: 1, ..std_ills(OP_PASS, 1) }, st) {
        return;
    }
    raw_boards(st);
}
/// stones pushed and groups removed directly on a board, in every order
fn raw_boards(st: &mut Stats) {
    let mut items: Vec<(usize, usize, usize, usize, usize, usize, usize)> = vec![]; // board, window, depth
    for (h, w) in [(1, 2), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)] {
        items.push((h, w, 0, 0, h, w, if thorough() { 8 } else { 6 }));
    }
    for (h, w, k, l) in [(5, 5, 2, 3), (19, 19, 3, 2), (4, 7, 2, 2), (7, 4, 3, 2), (19, 19, 1, 4)] {
        for (r, c) in spots(h, w, k, l) {
            items.push((h, w, r, c, k, l, if thorough() { 6 } else { 4 }));
        }
    }
    par_each(&items, st, |&(h, w, r0, c0, k, l, depth), st| {
        let win = cells(w, r0, c0, k, l);
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut level: Vec<(Goban, RB, Vec<(u8, u8, u8)>)> = vec![(Goban::new((h as u8, w as u8)), RB::new(h, w), vec![])];
        st.scenarios += 1;
        for d in 0..=depth {
            let mut next = vec![];
            for (g, b, path) in level {
                let ok = case(|| format!("board {h}x{w}, push(row,column,colour)/remove(row,column,0): {path:?}"), st, |st| {
                    st.states += 1;
                    check_groups(&g, &b, st)?;
                    for order in 0..2 {
                        let f = build(&b, order);
                        ensure!(f == g && f.zobrist_hash() == g.zobrist_hash(), "the board differs from one built with the same stones");
                    }
                    if d == depth {
                        return Ok(());
                    }
                    for &i in &win {
                        let (y, x) = b.rc(i);
                        let mut steps: Vec<(Goban, RB, (u8, u8, u8))> = vec![];
                        if b.c[i] == E {
                            for c in [B, W] {
                                let mut g1 = g.clone();
                                g1.push((y, x), col(c));
                                let mut b1 = b.clone();
                                b1.c[i] = c;
                                steps.push((g1, b1, (y, x, c)));
                            }
                        } else {
                            let ch = b.chain(i);
                            if ch[0] != i {
                                continue;
                            }
                            // the handle of this group
                            let mut id = None;
                            for j in (0..b.n()).filter(|&j| b.nb(j).iter().any(|q| ch.contains(q))) {
                                for t in g.get_connected_groups_idx(j) {
                                    if g.chain_stones(t).take(400).any(|s| s.coord == (y, x)) {
                                        id = Some(t);
                                    }
                                }
                            }
                            let Some(id) = id else { continue };
                            let mut g1 = g.clone();
                            g1.remove_chain(id);
                            let mut b1 = b.clone();
                            for &j in &ch {
                                b1.c[j] = E;
                            }
                            st.inc("groups removed by hand");
                            steps.push((g1, b1, (y, x, 0)));
                        }
                        for (g1, b1, op) in steps {
                            st.transitions += 1;
                            let mut key: Vec<u8> = b1.c.clone();
                            layout_key(&g1, &mut key);
                            if seen.insert(key) {
                                let mut p = path.clone();
                                p.push(op);
                                next.push((g1, b1, p));
                            }
                        }
                    }
                    Ok(())
                });
                if !ok {
                    return;
                }
            }
            st.max_depth = st.max_depth.max(d);
            level = next;
            if level.is_empty() {
                break;
            }
        }
    });
}

pub fn c03(st: &mut Stats) {
    let t = thorough();
    // every superko rule combination, from every legal set-up of tiny boards
    let ills = [SUPER | KO | SUI, SUPER | SUI, SUPER | KO, SUPER];
    let d = |q: usize, th: usize| if t { th } else { q };
    let sizes = [(1, 1, 6), (1, 2, d(8, 12)), (2, 1, d(8, 12)), (1, 3, d(6, 9)), (3, 1, d(6, 9)), (1, 4, d(5, 6)), (2, 2, d(5, 6)), (1, 5, d(3, 4)), (2, 3, d(3, 3)), (3, 2, d(3, 3))];
    let gens = superko_gens(&sizes, &ills, OP_PASS | OP_RESUME);
    if !run_gens(&gens, &C03, st) {
        return;
    }
    // superko asked for on games whose own rule does not have it
    let mut big = vec![];
    for ill in [KO | SUI, 0, KO, SUI] {
        for (h, w, depth) in [(1, 2, 8), (1, 3, d(7, 9)), (1, 4, d(6, 7)), (2, 2, d(6, 8)), (2, 3, d(4, 5))] {
            big.push(Scn::new(&format!("asked-{h}x{w}-ill{ill}"), h, w).ill(ill).depth(depth).hist().ops(OP_PASS | OP_RESUME));
        }
    }
    if !run_big(&big, &C03, st) {
        return;
    }
    // deep games from the empty board
    let mut big = vec![];
    for ill in ills {
        for (h, w, depth) in [(1, 2, 14), (1, 3, d(11, 14)), (1, 4, d(8, 10)), (2, 2, d(8, 10)), (1, 5, d(6, 8)), (2, 3, d(6, 7)), (3, 2, d(5, 7)), (3, 3, d(4, 5))] {
            big.push(Scn::new(&format!("superko-empty-{h}x{w}-ill{ill}"), h, w).ill(ill).depth(depth).hist());
        }
    }
    if !run_big(&big, &C03, st) {
        return;
    }
    // cycles on larger boards: kos, double and triple kos, send-two-return-one, everywhere
    let mut gens = vec![];
    for (sizes, all, syms, depth) in [
        (vec![(5, 5), (4, 6), (3, 7), (6, 5)], true, vec![0u8, 3, 4], d(4, 5)),
        (vec![(19, 19), (9, 13)], t, vec![0u8, 6], 3),
    ] {
        for g in templates(Tpl { which: vec![0, 1, 2, 8, 9, 10, 14, 15, 18, 20, 22], sizes, all_offsets: all, syms, ills: vec![SUPER | KO | SUI, SUPER | SUI, SUPER], depth, ops: OP_PASS, played: false }) {
            gens.push(g);
        }
    }
    gens.extend(templates(Tpl { which: vec![0, 1, 9, 10], sizes: vec![(5, 7), (9, 9)], all_offsets: false, syms: vec![0, 5], ills: vec![SUPER | KO | SUI, SUPER | SUI], depth: 3, ops: OP_PASS, played: true }));
    gens.extend(cycles());
    gens.extend(made(&[SUPER | KO | SUI, SUPER], OP_PASS | OP_RESUME, d(4, 5)));
    gens.extend(far(&[SUPER | KO | SUI], 1, 0));
    gens.extend(filled(&[(19, 19), (5, 5), (2, 2), (1, 7), (16, 16), (17, 16)], &[SUPER | KO | SUI, SUPER | SUI, SUPER], 3));
    let gens: Vec<Gen> = gens.into_iter().map(with_hist).collect();
    if !run_gens(&gens, &C03, st) {
        return;
    }
    if !run_big(&unmerged(&[SUPER | KO | SUI, SUPER], OP_PASS | OP_RESUME, 0), &C03, st) {
        return;
    }
    long_superko(st);
}
/// Games under superko that last as long as the rule lets them: the players take the first legal point in
/// some fixed order of preference until nothing is left. Each move is judged against every earlier
/// position, so bans that reach back hundreds of moves are seen.
fn long_superko(st: &mut Stats) {
    #[derive(Clone, Debug)]
    struct L {
        size: (usize, usize),
        ill: u32,
        /// preference: a point order (start, step), and how it moves on from turn to turn
        order: (usize, usize),
        drift: usize,
    }
    let t = thorough();
    let mut items = vec![];
    let sizes: &[((usize, usize), usize)] = &[((2, 2), 200), ((2, 3), 1000), ((1, 5), 400), ((3, 2), 1000), ((1, 6), 1000), ((3, 3), if t { 20_000 } else { 1500 }), ((2, 4), if t { 20_000 } else { 1500 }), ((3, 4), if t { 8000 } else { 2600 }), ((4, 4), if t { 20_000 } else { 3000 }), ((5, 5), if t { 20_000 } else { 3000 })];
    for &(size, _) in sizes {
        let n = size.0 * size.1;
        for ill in [SUPER | KO | SUI, SUPER | SUI, SUPER, SUPER | KO] {
            for start in 0..n {
                for step in [1, 2, 4, 5] {
                    for drift in [0, 1, 3] {
                        if !t && (n >= 6 && (step > 2 || start % 3 != 0) || n >= 16 && (start % 9 != 0 || drift == 1)) {
                            continue;
                        }
                        items.push(L { size, ill, order: (start, step), drift });
                    }
                }
            }
        }
    }
    par_each(&items, st, |l, st| {
        case(|| format!("long superko game {l:?}"), st, |st| {
            let (h, w) = l.size;
            let n = h * w;
            let limit = sizes.iter().find(|x| x.0 == l.size).unwrap().1;
            let mut g = Game::new(GobanSizes::Custom(h, w), Rule { komi: 0.0, flag_illegal: flags(l.ill), flag_score: ScoreRules::STONES });
            let mut b = RB::new(h, w);
            let mut turn = B;
            let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
            let mut list: Vec<RB> = vec![];
            let mut prev: Option<RB> = None;
            let (mut plays, mut passes) = (0usize, 0);
            // a visiting order that reaches every point: stride, then what is left
            let mut order: Vec<usize> = (0..n).map(|k| (l.order.0 + k * l.order.1) % n).collect();
            order.extend(0..n);
            while plays < limit && passes < 2 {
                seen.entry(b.c.clone()).or_insert(plays);
                let mut legal = vec![false; n];
                for i in 0..n {
                    if b.c[i] != E {
                        continue;
                    }
                    let p = b.place(i, turn);
                    let first = seen.get(&p.after.c).copied();
                    let mut ok = first.is_none();
                    if l.ill & SUI != 0 && !p.own.is_empty() {
                        ok = false;
                    }
                    if l.ill & KO != 0 && p.own.is_empty() && prev.as_ref() == Some(&p.after) {
                        ok = false;
                    }
                    legal[i] = ok;
                    let got = g.check_point(b.rc(i));
                    ensure!(got.is_none() == ok, "after {plays} plays, {} to move on {}: {:?} gives {got:?}, but it should be {} (its outcome {})", turn, b.show(), b.rc(i), if ok { "legal" } else { "refused" }, first.map(|k| format!("stood on the board after {k} plays")).unwrap_or("is new".into()));
                    if let Some(k) = first {
                        st.inc("repetitions refused");
                        if plays - k > 256 {
                            st.inc("repetitions of positions more than 256 plays old");
                        }
                    }
                }
                st.states += 1;
                let at = plays * l.drift % n;
                let pick = order[at..].iter().chain(&order[..at]).copied().find(|&i| legal[i]);
                match pick {
                    None => {
                        g.try_play(Move::Pass).map_err(|e| format!("pass refused: {e:?}"))?;
                        passes += 1;
                        prev = None;
                    }
                    Some(i) => {
                        if list.len() < 4000 {
                            list.push(b.clone());
                        }
                        let p = b.place(i, turn);
                        let q = b.rc(i);
                        g.try_play(Move::Play(q.0, q.1)).map_err(|e| format!("play {plays}: {q:?} refused: {e:?}"))?;
                        prev = Some(b);
                        b = p.after;
                        passes = 0;
                        plays += 1;
                        same_board(g.goban(), &b).map_err(|m| format!("after {plays} plays: {m}"))?;
                    }
                }
                st.transitions += 1;
                turn = other(turn);
            }
            // every position was new, so the history is the list of the positions in order
            if !HISTORY {
                return Ok(());
            }
            let got: Vec<&Goban> = past(&g, plays + 10);
            ensure!(got.len() == plays, "after {plays} plays from positions that are all different the history lists {}", got.len());
            for (k, (x, y)) in got.iter().zip(&list).enumerate() {
                same_board(x, y).map_err(|m| format!("history entry {k} of {plays}: {m}"))?;
            }
            st.add("history entries compared", list.len() as u64);
            st.traces += 1;
            st.max_depth = st.max_depth.max(plays);
            Ok(())
        });
    });
}
fn with_hist(g: Gen) -> Gen {
    Box::new(move |f| g(&mut |s: Scn| f(s.hist())))
}
/// whole-board cycles that need many moves: all ways through several kos, deep
fn cycles() -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    let boards: &[(&str, &[&str], usize)] = &[
        ("triple-ko", &["XO.XO.XO.", "O.OO.OO.O", "XOOXOOXOO", "XXXXXXXXX", "........."], 7),
        ("two-kos", &[".XO..XO..", "XO.OXO.O.", ".XO..XO..", "........."], 7),
        ("send-two", &["XXXX", ".OOX", "O.OX", "OOOX", "XXXX"], 7),
        ("send-two-edge", &["..OX", "OOOX", "XXXX", "...."], 7),
        ("bent", &[".OX.", "O.OX", ".OX.", "...."], 7),
        ("corner-cycle", &[".X", "XO", "O."], 10),
    ];
    for (name, rows, depth) in boards {
        let b = RB::parse(rows);
        let depth = if thorough() { *depth + 1 } else { *depth };
        for sym in 0..8u8 {
            for swap in [false, true] {
                let mut o = sym_board(sym, &b);
                if swap {
                    o = swap_colors(&o);
                }
                if !o.is_legal() {
                    continue;
                }
                if !thorough() && sym > 3 {
                    continue;
                }
                let name = name.to_string();
                v.push(Box::new(move |f| {
                    // plays on the points that are empty or in a group with one or two liberties
                    let mut win: Vec<usize> = (0..o.n()).filter(|&i| o.c[i] == E && o.nb(i).iter().filter(|&&j| o.c[j] != E).count() >= 2).collect();
                    for g in o.groups() {
                        if g.stones.len() <= 3 && g.libs.len() == 1 {
                            win.extend(g.stones);
                        }
                    }
                    win.sort_unstable();
                    win.dedup();
                    for ill in [SUPER | KO | SUI, SUPER | SUI, SUPER] {
                        for turn in [B, W] {
                            let less = if win.len() > 7 { 2 } else { 0 } + if !thorough() && ill & KO == 0 { 1 } else { 0 };
                            f(Scn::new(&format!("cycle-{name}/{sym}{swap}"), o.h, o.w).board(&o).turn(turn).ill(ill).window(win.clone()).depth(depth - less).hist());
                        }
                    }
                }));
            }
        }
    }
    v
}

pub fn c06(st: &mut Stats) {
    let o = C06::default();
    let (big, gens) = standard(&Std { light: 0, ops: OP_PASS, ills: vec![SUI, 0], weight: 0 });
    if !run_big(&big, &o, st) || !run_gens(&gens, &o, st) {
        return;
    }
    // every position of small boards against every other of its size: hashes are pairwise distinct
    // (through `note`); boards with at most two stones on 19x19 likewise
    let mut single: Vec<(usize, u8, u64)> = vec![];
    let n = 361;
    let ok = case(|| "single stones on 19x19".into(), st, |st| {
        let z0 = Goban::new((19, 19)).zobrist_hash();
        let mut all: HashMap<u64, (usize, u8)> = HashMap::new();
        all.insert(z0, (999, 0));
        for i in 0..n {
            for c in [B, W] {
                let mut g = Goban::new((19, 19));
                g.push(((i / 19) as u8, (i % 19) as u8), col(c));
                if let Some(p) = all.insert(g.zobrist_hash(), (i, c)) {
                    return Err(format!("the boards with the single stones {p:?} and {:?} have the same hash", (i, c)));
                }
                st.inc("one-stone boards");
                single.push((i, c, g.zobrist_hash()));
            }
        }
        Ok(())
    });
    if !ok {
        return;
    }
    let all2 = std::sync::Mutex::new(HashMap::<u64, (usize, u8, usize, u8)>::new());
    let rows: Vec<usize> = (0..single.len()).collect();
    let single = &single;
    let ok = par_each(&rows, st, |&a, st| {
        let (i, c, _) = single[a];
        case(|| format!("two-stone boards with ({i},{c})"), st, |st| {
            let base = {
                let mut g = Goban::new((19, 19));
                g.push(((i / 19) as u8, (i % 19) as u8), col(c));
                g
            };
            let mut local = vec![];
            for &(j, d, _) in &single[a + 1..] {
                if j == i {
                    continue;
                }
                let mut g = base.clone();
                g.push(((j / 19) as u8, (j % 19) as u8), col(d));
                ensure!(g != base, "a board equals itself plus a stone at {j}");
                // the other order of the same stones
                if (i + j) % 5 == 0 {
                    let mut g2 = Goban::new((19, 19));
                    g2.push(((j / 19) as u8, (j % 19) as u8), col(d));
                    g2.push(((i / 19) as u8, (i % 19) as u8), col(c));
                    ensure!(g == g2 && g.zobrist_hash() == g2.zobrist_hash() && std_hash(&g) == std_hash(&g2), "two stones ({i},{c}) ({j},{d}) placed in different order give different boards");
                }
                local.push((g.zobrist_hash(), (i, c, j, d)));
                st.inc("two-stone boards");
            }
            st.states += local.len() as u64;
            st.transitions += local.len() as u64;
            let mut m = all2.lock().unwrap();
            for (z, k) in local {
                if let Some(p) = m.insert(z, k) {
                    return Err(format!("the two-stone boards {p:?} and {k:?} (index, colour, index, colour) have the same hash {z:x}"));
                }
            }
            Ok(())
        });
    });
    if !ok {
        return;
    }
    // two-stone hashes against one-stone and the empty board: positions that differ by up to three stones
    case(|| "hashes of boards with 0, 1 and 2 stones".into(), st, |_| {
        let m = all2.lock().unwrap();
        for &(i, c, z) in single {
            if let Some(p) = m.get(&z) {
                return Err(format!("the one-stone board ({i},{c}) and the two-stone board {p:?} have the same hash"));
            }
        }
        Ok(())
    });
    // size matters
    let mut sizes = vec![];
    for h in 1..=19usize {
        for w in 1..=19usize {
            sizes.push((h, w));
        }
    }
    par_each(&sizes.clone(), st, |&(h, w), st| {
        case(|| format!("sizes against {h}x{w}"), st, |st| {
            let a = Goban::new((h as u8, w as u8));
            let mut a1 = a.clone();
            a1.push((0, 0), col(B));
            for &(h2, w2) in &sizes {
                let b = Goban::new((h2 as u8, w2 as u8));
                let mut b1 = b.clone();
                b1.push((0, 0), col(B));
                let eq = (h, w) == (h2, w2);
                ensure!((a == b) == eq, "empty boards {h}x{w} and {h2}x{w2}: equality is {}", !eq);
                ensure!((a1 == b1) == eq, "boards {h}x{w} and {h2}x{w2} with a stone at (0,0): equality is {}", !eq);
                if eq {
                    ensure!(a.zobrist_hash() == b.zobrist_hash() && std_hash(&a1) == std_hash(&b1), "equal boards have different hashes");
                }
                ensure!(a != b1, "an empty board equals one with a stone");
                st.inc("size pairs");
            }
            // same stones, each in two colours
            let n = h * w;
            for i in [0, n / 2, n - 1] {
                let p = ((i / w) as u8, (i % w) as u8);
                let (mut x, mut y) = (a.clone(), a.clone());
                x.push(p, col(B));
                y.push(p, col(W));
                ensure!(x != y && x.zobrist_hash() != y.zobrist_hash(), "a black and a white stone at {p:?} make equal boards or hashes");
            }
            Ok(())
        });
    });
}

pub fn c07(st: &mut Stats) {
    let (mut big, mut gens) = standard(&Std { light: 2, ops: OP_PASS, ills: vec![KO | SUI, 0], weight: 0 });
    for (k, s) in big.iter_mut().enumerate() {
        s.sco = (k as u32 * 3 + 1) % 8;
        s.komi = [6.5, 0.0, 0.5, 1.0, -2.0][k % 5];
    }
    if !run_big(&big, &C07, st) {
        return;
    }
    // every scoring rule on a complete graph
    let mut v = vec![];
    for sco in 0..8 {
        for komi in [0.0, 1.0, 6.5] {
            let mut s = Scn::new(&format!("graph-2x3-sco{sco}"), 2, 3).ill(KO | SUI);
            s.sco = sco;
            s.komi = komi;
            v.push(s);
        }
    }
    gens.push(Box::new(move |f| {
        for s in &v {
            f(s.clone());
        }
    }));
    gens.extend(regions());
    if run_gens(&gens, &C07, st) {
        // more prisoners than fit in 8 or 16 bits
        long_lives(st);
    }
}
/// large empty regions: boards cut by walls
fn regions() -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for (h, w) in [(19usize, 19usize), (19, 9), (9, 19), (13, 13), (5, 17), (2, 19), (19, 1)] {
        for r in (0..=h).filter(|r| h < 19 || thorough() || r % 3 == 0) {
            v.push(Box::new(move |f| {
                for c in [0, w / 3, w / 2, w] {
                    for kind in 0..4 {
                        let mut b = RB::new(h, w);
                        if r < h {
                            for x in 0..w {
                                b.c[r * w + x] = if kind & 1 == 0 || x < w / 2 { B } else { W };
                            }
                        }
                        if c < w {
                            for y in 0..h {
                                b.c[y * w + c] = if kind & 2 == 0 { W } else { B };
                            }
                        }
                        if b.is_legal() {
                            f(Scn::new(&format!("regions-{h}x{w}-{r}-{c}-{kind}"), h, w).board(&b).window(vec![0, h * w - 1, (h * w) / 2]).depth(3));
                        }
                    }
                }
            }));
        }
    }
    v.extend(partitions());
    v
}
/// boards cut into many or winding regions, and every board that differs from them in one stone
fn partitions() -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    let sizes: &[(usize, usize)] = if thorough() { &[(19, 19), (13, 19), (19, 13), (9, 9), (3, 19), (19, 3), (5, 6), (18, 17)] } else { &[(19, 19), (9, 13), (5, 6)] };
    for &(h, w) in sizes {
        let at = |f: &dyn Fn(usize, usize) -> u8| {
            let mut b = RB::new(h, w);
            for r in 0..h {
                for c in 0..w {
                    b.c[r * w + c] = f(r, c);
                }
            }
            b
        };
        let ring = |r: usize, c: usize| r.min(c).min(h - 1 - r).min(w - 1 - c);
        let mut bases: Vec<(&str, RB)> = vec![
            ("columns", at(&|_, c| if c % 2 == 1 { B } else { E })),
            ("rows", at(&|r, _| if r % 2 == 1 { B } else { E })),
            ("two-coloured columns", at(&|_, c| [E, B, E, W][c % 4])),
            ("two-coloured rows", at(&|r, _| [E, B, E, W][r % 4])),
            ("holes", at(&|r, c| if (r + c) % 2 == 0 { B } else { E })),
            ("square holes", at(&|r, c| if r % 2 == 0 && c % 2 == 0 { E } else { B })),
            ("left column and holes", at(&|r, c| if c == 1 || c > 0 && (r + c) % 2 == 0 { B } else { E })),
            ("right column and holes", at(&|r, c| if c + 2 == w || c + 1 < w && (r + c) % 2 == 0 { B } else { E })),
            ("frame and holes", at(&|r, c| match ring(r, c) { 0 => E, 1 => B, _ => if (r + c) % 2 == 0 { B } else { E } })),
            ("rings", at(&|r, c| if ring(r, c) % 2 == 1 { B } else { E })),
            ("rings from outside", at(&|r, c| if ring(r, c) % 2 == 0 { B } else { E })),
            ("two-coloured rings", at(&|r, c| [E, B, E, W][ring(r, c) % 4])),
            ("diagonals", at(&|r, c| [E, E, B, B][(r + c) % 4])),
            ("comb", at(&|r, c| if r % 2 == 1 && c + 1 < w { B } else { E })),
            ("meander", at(&|r, c| if r % 2 == 1 && c != if r % 4 == 1 { w - 1 } else { 0 } { B } else { E })),
            ("upright meander", at(&|r, c| if c % 2 == 1 && r != if c % 4 == 1 { h - 1 } else { 0 } { B } else { E })),
        ];
        // a spiral
        let mut sp = RB::new(h, w);
        let (mut y, mut x, mut d) = (1i32, 0i32, 0usize);
        let dirs = [(0i32, 1i32), (1, 0), (0, -1), (-1, 0)];
        let free = |b: &RB, y: i32, x: i32| y < 0 || x < 0 || y >= h as i32 || x >= w as i32 || b.at(y as usize, x as usize) == E;
        let inside = |y: i32, x: i32| y >= 0 && x >= 0 && y < h as i32 && x < w as i32;
        if h > 3 && w > 3 {
            let mut turns = 0;
            while turns < 2 {
                sp.c[y as usize * w + x as usize] = B;
                let (dy, dx) = dirs[d];
                let (a, b2) = ((y + dy, x + dx), (y + 2 * dy, x + 2 * dx));
                // keep one line of distance from the border and from the earlier arm
                let ok = inside(a.0, a.1) && inside(b2.0, b2.1) && free(&sp, a.0, a.1) && free(&sp, b2.0, b2.1);
                if ok {
                    (y, x) = a;
                    turns = 0;
                } else {
                    d = (d + 1) % 4;
                    turns += 1;
                }
            }
            bases.push(("spiral", sp));
        }
        for (name, b) in bases {
            let b = if b.is_legal() { b } else { continue };
            for swap in [false, true] {
                let b = if swap { swap_colors(&b) } else { b.clone() };
                v.push(Box::new(move |f| {
                    for i in 0..h * w {
                        for x in [E, B, W] {
                            if x == b.c[i] && i > 0 {
                                continue;
                            }
                            let mut b2 = b.clone();
                            b2.c[i] = x;
                            if b2.is_legal() {
                                f(Scn::new(&format!("{name}-{h}x{w}-{i}={x}"), h, w).board(&b2).depth(0).ops(0));
                            }
                        }
                    }
                }));
            }
        }
    }
    v
}

pub fn c08(st: &mut Stats) {
    let ops = OP_PASS | OP_RESUME | OP_RESIGN | OP_AFTER;
    let mut big = graphs(TINY, &[KO | SUI, 0, SUPER | SUI | KO], ops);
    for s in big.iter_mut() {
        if s.ill & SUPER != 0 {
            s.hist_key = true;
            s.depth = 5;
        }
    }
    big.extend(graphs(&[(2, 4), (3, 3)], if thorough() { &[KO | SUI, 0] } else { &[KO | SUI] }, OP_PASS | OP_RESUME));
    big.extend(unmerged(&[KO | SUI, 0], ops, 0));
    // a play made without asking ends the pause
    for s in graphs(&[(1, 2), (2, 2), (1, 4)], &[KO | SUI, 0], ops | OP_FORCE) {
        big.push(s.depth(7).mem(3));
    }
    if !run_big(&big, &C08, st) {
        return;
    }
    if !run_gens(&aged(&[KO | SUI, 0], ops, 4), &C08, st) || !run_gens(&made(&[KO | SUI, 0], ops, 3), &C08, st) {
        return;
    }
    let gens = templates(Tpl { which: vec![0, 2, 8, 14], sizes: vec![(5, 5), (19, 19), (4, 6)], all_offsets: false, syms: vec![0], ills: vec![KO | SUI], depth: 3, ops, played: false });
    if !run_gens(&gens, &C08, st) {
        return;
    }
    // outcomes recorded by set-up
    use goban::pieces::stones::Color;
    use goban::rules::EndGame;
    let outs = [EndGame::Draw, EndGame::WinnerByForfeit(Color::White), EndGame::WinnerByTime(Color::Black), EndGame::WinnerByResign(Color::White), EndGame::WinnerByScore(Color::Black, 3.5)];
    for o in outs {
        // all sequences of passes, plays, resumptions up to length 6 on a 2x2 board
        let alphabet = [Op::Pass, Op::Resume, Op::Play(0, 0), Op::Play(1, 1)];
        for code in 0..4usize.pow(if thorough() { 7 } else { 5 }) {
            let ok = case(|| format!("recorded outcome {o:?}, operations code {code}"), st, |st| {
                let mut g = Game::builder().size((2, 2)).outcome(o).build().map_err(|e| format!("builder: {e}"))?;
                let mut r = RG::new(RB::new(2, 2), B, KO | SUI);
                let mut c = code;
                for _ in 0..if thorough() { 7 } else { 5 } {
                    let op = alphabet[c % 4];
                    c /= 4;
                    let fine = match op {
                        Op::Pass => r.passes < 2,
                        Op::Play(y, x) => r.passes < 2 && r.legal(y as usize * 2 + x as usize),
                        _ => true,
                    };
                    // the record of an outcome (of a game under review, say) does not stop play
                    if let Op::Pass | Op::Play(..) = op {
                        let mut g1 = g.clone();
                        let e = g1.try_play(mv(op)).map(|_| ()).err();
                        ensure!(e.is_none() == fine, "{op:?} after {} passes in a game with the recorded outcome {o:?} gives {e:?}", r.passes);
                        ensure!((e == Some(goban::rules::PlayError::GamePaused)) == (r.passes >= 2), "{op:?} after {} passes in a game with the recorded outcome {o:?} gives {e:?}", r.passes);
                    }
                    if fine {
                        apply(&mut g, op);
                        r = r.apply(op);
                        st.transitions += 1;
                    }
                    ensure!(g.is_over(), "a game with the recorded outcome {o:?} is not over");
                    ensure!(g.outcome() == Some(o), "the recorded outcome {o:?} is reported as {:?}", g.outcome());
                    st.inc("recorded outcomes reported");
                }
                st.states += 1;
                Ok(())
            });
            if !ok {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C09
/// call every query of the game with every valid argument
pub fn poke(g: &Game, r: &RG, deep: bool) -> u64 {
    let mut n = 0u64;
    let flagset: Vec<IllegalRules> = (0..16).map(IllegalRules::from_bits_truncate).collect();
    n += g.legals().take(1000).count() as u64;
    for &f in &flagset {
        if (f.contains(IllegalRules::SUICIDE)) == (r.ill & SUI != 0) {
            n += g.legals_by(f).take(1000).count() as u64;
        }
    }
    n += g.pseudo_legals().take(1000).count() as u64 + g.pseudo_legals_vec().len() as u64;
    let _ = (g.komi(), g.size(), g.prisoners(), g.turn(), g.is_over(), g.outcome(), past(g, 1_000_000).len(), g.calculate_score());
    for f in 0..8 {
        let _ = g.calculate_score_by(ScoreRules::from_bits_truncate(f));
    }
    let b = g.goban();
    n += b.to_vec().len() as u64 + b.matrix().len() as u64 + b.pretty_string().len() as u64 + b.zobrist_hash() % 2 + std_hash(b) % 2;
    n += format!("{b}").len() as u64;
    let _ = (b.number_of_stones(), b.calculate_territories(), b == &b.clone());
    n += b.get_stones().take(1000).count() as u64 + b.get_empty_idx().take(1000).count() as u64 + b.get_empty_coords().take(1000).count() as u64;
    for c in [None, Some(col(B)), Some(col(W))] {
        n += b.get_stones_by_color(c).take(1000).count() as u64 + b.get_coords_by_color(c).take(1000).count() as u64;
    }
    for c in b.chains().take(1000) {
        n += c.liberties().len() as u64 + c.number_of_liberties() as u64 + c.is_atari() as u64 + c.is_dead() as u64;
    }
    for (i, p) in pts(&r.b) {
        n += b.get_connected_points(p).take(9).count() as u64 + b.get_connected_stones(p).take(9).count() as u64 + b.get_liberties(p).take(9).count() as u64;
        n += b.has_liberties(p) as u64 + b.get_color(p).is_some() as u64 + b.get_color(i).is_some() as u64;
        let hs = b.get_connected_groups_idx(p);
        for x in hs {
            n += b.chain_stones(x).take(1000).count() as u64;
        }
        if deep {
            n += b.get_group_from_point(goban::pieces::stones::Point { coord: p, color: b.get_color(p) }).len() as u64;
        }
        n += g.check_point(p).is_some() as u64;
        for c in [B, W] {
            n += g.check_eye(stone(p, c)) as u64;
        }
        if r.b.c[i] == E {
            n += g.will_capture(p) as u64;
            let s = stone(p, r.turn);
            n += g.check_ko(s) as u64 + g.check_suicide(s) as u64;
            if !(r.ill & SUI != 0 && r.verdict(i) & SUI != 0) {
                n += g.check_super_ko(s) as u64;
                n += g.play_for_verification(p).zobrist_hash() % 2;
            }
        }
    }
    if deep {
        n += b.get_chains_from_stones(b.get_empty_coords().map(|coord| goban::pieces::stones::Point { coord, color: None })).len() as u64;
        let (x, y) = b.get_territories();
        n += (x.count() + y.count()) as u64;
    }
    n
}
pub struct C09;
impl Oracle for C09 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let small = s.h * s.w <= 9;
        let d0 = digest(g);
        poke(g, r, small);
        same_digest("queries changed the game", &d0, &digest(g))?;
        // every refused move, all on the same object
        let mut tried = g.clone();
        let mut refused = 0;
        let mut moves: Vec<Move> = (0..r.b.n()).filter(|&i| r.passes >= 2 || !r.legal(i)).map(|i| Move::Play(r.b.rc(i).0, r.b.rc(i).1)).collect();
        if r.passes >= 2 {
            moves.push(Move::Pass);
        }
        for m in moves {
            match tried.try_play(m) {
                Ok(_) => return Err(format!("{m:?} should be refused")),
                Err(e) => st.inc(&format!("refused: {e:?}")),
            }
            refused += 1;
            if small {
                same_digest(&format!("the refused {m:?} changed the game"), &d0, &digest(&tried))?;
            }
        }
        if refused > 0 && !small {
            same_digest("refused moves changed the game", &d0, &digest(&tried))?;
        }
        // the undisturbed and the disturbed game have the same continuations
        poke(&tried, r, false);
        let mut ops = s.legal_ops(r);
        if r.passes >= 2 {
            ops = vec![Op::Resume];
        }
        for op in ops {
            let (mut a, mut b) = (g.clone(), tried.clone());
            apply(&mut a, op);
            apply(&mut b, op);
            st.inc("continuations compared");
            same_digest(&format!("after refused moves and queries, {op:?} has another effect"), &digest(&a), &digest(&b))?;
            if small {
                let ra = r.apply(op);
                for op2 in s.legal_ops(&ra) {
                    let (mut a, mut b) = (a.clone(), b.clone());
                    apply(&mut a, op2);
                    apply(&mut b, op2);
                    if !matches!(op2, Op::Play(..)) || s.h * s.w <= 4 {
                        same_digest(&format!("after refused moves and queries, {op:?} {op2:?} has another effect"), &digest(&a), &digest(&b))?;
                    }
                }
            }
            // copies are independent
            same_digest(&format!("{op:?} on a copy changed the original"), &d0, &digest(g))?;
        }
        Ok(())
    }
    fn edge(&self, _s: &Scn, g0: &Game, _r0: &RG, op: Op, g1: &Game, _r1: &RG, st: &mut Stats) -> Res {
        // a copy taken before, moved on after the original moved: same result
        let mut c = g0.clone();
        let d1 = digest(g1);
        apply(&mut c, op);
        same_digest(&format!("a copy does not do the same as the original on {op:?}"), &d1, &digest(&c))?;
        st.inc("copies compared");
        Ok(())
    }
}
pub fn c09(st: &mut Stats) {
    let t = thorough();
    let mut big = graphs(TINY, &[KO | SUI, KO, 0], OP_PASS | OP_RESUME);
    for s in big.iter_mut() {
        if s.h * s.w >= 6 && !t {
            s.depth = 7;
        }
    }
    for (h, w, d) in [(2, 2, 6), (1, 4, 6), (2, 3, 4)] {
        big.push(Scn::new(&format!("superko-{h}x{w}"), h, w).ill(SUPER | KO | SUI).depth(if t { d + 1 } else { d }).hist());
        big.push(Scn::new(&format!("superko-eye-{h}x{w}"), h, w).ill(SUPER | KO).depth(if t { d + 1 } else { d }).hist());
    }
    big.push(Scn::new("3x3", 3, 3).ill(KO | SUI).depth(if t { 6 } else { 5 }));
    if !run_big(&big, &C09, st) {
        return;
    }
    let mut gens = templates(Tpl { which: vec![], sizes: vec![(5, 5), (4, 6)], all_offsets: t, syms: vec![0, 5], ills: vec![KO | SUI, SUPER | KO | SUI], depth: 2, ops: OP_PASS, played: false });
    gens.extend(templates(Tpl { which: vec![0, 2, 3, 8, 10, 14], sizes: vec![(19, 19)], all_offsets: false, syms: vec![0], ills: vec![KO | SUI], depth: 1, ops: OP_PASS, played: false }));
    gens.extend(aged(&[KO | SUI, 0], OP_PASS | OP_RESUME, 1));
    gens.extend(made(&[KO | SUI], OP_PASS | OP_RESUME, 2));
    let gens: Vec<Gen> = gens.into_iter().map(with_hist).collect();
    if !run_gens(&gens, &C09, st) {
        return;
    }
    run_big(&unmerged(&[KO | SUI], OP_PASS, 0).into_iter().filter(|s| s.h * s.w <= 4).map(|s| if t { s } else { let d = s.depth.min(5); s.depth(d) }).collect::<Vec<_>>(), &C09, st);
}

pub fn c10(st: &mut Stats) {
    let (big, mut gens) = standard(&Std { light: 0, ops: 0, ills: vec![KO | SUI], weight: 1 });
    if !run_big(&big, &C10, st) {
        return;
    }
    gens.extend(every_size(1, 0));
    run_gens(&gens, &C10, st);
}
/// every board size: the empty board, single stones in the corners, edge middles and centre, a filled
/// board with a hole
pub fn every_size(depth: usize, ops: u8) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for h in 1..=19usize {
        v.push(Box::new(move |f| {
            for w in 1..=19usize {
                let n = h * w;
                let mut win = vec![0, w - 1, n - w, n - 1, n / 2, (h / 2) * w, w / 2];
                win.sort_unstable();
                win.dedup();
                f(Scn::new(&format!("size-{h}x{w}"), h, w).window(win.clone()).depth(depth + 1).ops(ops));
                for &hole in &win {
                    for c in [B, W] {
                        let mut b = RB::new(h, w);
                        b.c.iter_mut().for_each(|x| *x = c);
                        b.c[hole] = E;
                        if b.is_legal() {
                            f(Scn::new(&format!("size-{h}x{w}-full{c}-hole{hole}"), h, w).board(&b).window(vec![hole]).turn(other(c)).depth(depth).ops(ops));
                        }
                    }
                }
                // diagonal pattern with both colours
                let mut b = RB::new(h, w);
                for i in 0..n {
                    b.c[i] = [E, B, W][(i / w * 2 + i % w) % 3];
                }
                if b.is_legal() {
                    f(Scn::new(&format!("size-{h}x{w}-diag"), h, w).board(&b).window(win.clone()).depth(depth).ops(ops));
                }
            }
        }));
    }
    v
}

// ------------------------------------------------------------------------------------------- C11
pub fn c11(st: &mut Stats) {
    let mut sizes = vec![];
    for h in 1..=19usize {
        for w in 1..=19usize {
            sizes.push((h, w));
        }
    }
    let ok = par_each(&sizes, st, |&(h, w), st| {
        st.scenarios += 1;
        case(|| format!("board {h}x{w}"), st, |st| c11_size(h, w, st));
    });
    if !ok {
        return;
    }
    // boards that are too large
    let mut over: Vec<(usize, usize)> = vec![];
    for a in (20..=600usize).chain([1024 + 19, 65536 + 9, 65536, (1 << 32) + 9]) {
        over.extend([(a, 19), (19, a), (a, 1), (1, a), (a, a), (a, 9), (9, a)]);
    }
    par_each(&over, st, |&(h, w), st| {
        case(|| format!("oversized board {h}x{w}"), st, |st| {
            st.inc("oversized boards refused");
            st.states += 1;
            ensure!(panics(|| drop(Game::new(GobanSizes::Custom(h, w), CHINESE))).is_some(), "Game::new makes a {h}x{w} board");
            if h < 256 && w < 256 {
                ensure!(panics(|| drop(Goban::new((h as u8, w as u8)))).is_some(), "Goban::new makes a {h}x{w} board");
                let mut made = false;
                let p = panics(|| made = Game::builder().size((h as u8, w as u8)).build().is_ok());
                ensure!(p.is_some() || !made, "the builder makes a {h}x{w} board");
            }
            Ok(())
        });
    });
    // complete games on all shapes around
    let gens = every_size(1, OP_PASS);
    run_gens(&gens, &Full, st);
}
pub struct Full;
impl Oracle for Full {
    fn state(&self, s: &Scn, g: &Game, r: &RG, _st: &mut Stats) -> Res {
        let l = idx_set("legals()", s.h, s.w, g.legals())?;
        let want: Vec<usize> = (0..r.b.n()).filter(|&i| r.legal(i)).collect();
        same_set("legals()", s.w, &l, &want)?;
        check_groups(g.goban(), &r.b, &mut Stats::default())?;
        ensure!(g.prisoners() == r.pris, "prisoners are {:?}, should be {:?}", g.prisoners(), r.pris);
        Ok(())
    }
}
fn c11_size(h: usize, w: usize, st: &mut Stats) -> Res {
    let size = (h as u8, w as u8);
    let fresh = Game::new(GobanSizes::Custom(h, w), JAPANESE);
    ensure!(fresh.size() == size && fresh.goban().size() == size, "Game::new(Custom({h},{w})) has size {:?}", fresh.size());
    if h == w && (h == 9 || h == 13 || h == 19) {
        let s = match h {
            9 => GobanSizes::Nine,
            13 => GobanSizes::Thirteen,
            _ => GobanSizes::Nineteen,
        };
        ensure!(Game::new(s, JAPANESE).size() == size, "the preset size {s:?} gives {:?}", Game::new(s, JAPANESE).size());
        ensure!(GobanSizes::from(h) == s, "GobanSizes::from({h}) is {:?}", GobanSizes::from(h));
        st.inc("preset sizes");
    }
    let empty = RB::new(h, w);
    // every point is its own point
    for i in 0..h * w {
        let p = empty.rc(i);
        for c in [B, W] {
            let mut g = Goban::new(size);
            g.push(p, col(c));
            let mut b = empty.clone();
            b.c[i] = c;
            same_board(&g, &b).map_err(|m| format!("after placing a stone at {p:?}: {m}"))?;
            let ss: Vec<Stone> = g.get_stones().take(5).collect();
            ensure!(ss == vec![stone(p, c)], "after placing a stone at {p:?} the stones are {ss:?}");
            st.transitions += 1;
            let grp: Vec<_> = norm_groups(&g);
            let mut libs = b.nb(i);
            libs.sort_unstable();
            ensure!(grp == vec![(c, 1, libs.clone())], "the single stone at {p:?} makes the groups {grp:?}, its liberties should be {libs:?}");
            if c == B {
                let mut g = fresh.clone();
                g.play(Move::Play(p.0, p.1));
                same_board(g.goban(), &b).map_err(|m| format!("after playing {p:?}: {m}"))?;
                let mut g2 = fresh.clone();
                let lone = h * w == 1;
                ensure!(g2.try_play(Move::Play(p.0, p.1)).is_ok() != lone, "try_play{p:?} on the empty board");
            }
        }
        let mut nb: Vec<usize> = vec![];
        for q in Goban::new(size).get_connected_points(p).take(9) {
            ensure!((q.coord.0 as usize) < h && (q.coord.1 as usize) < w, "{p:?} has the neighbour {:?} off the board", q.coord);
            nb.push(q.coord.0 as usize * w + q.coord.1 as usize);
        }
        nb.sort_unstable();
        let mut want = empty.nb(i);
        want.sort_unstable();
        same_set(&format!("neighbours of {p:?}"), w, &nb, &want)?;
        // the same through the coordinate helpers
        use goban::pieces::util::coord::{corner_points, is_coord_valid, neighbor_coords, one_to_2dim, two_to_1dim, valid_coords};
        let idx = |v: Vec<(u8, u8)>| -> Vec<usize> {
            let mut v: Vec<usize> = v.into_iter().filter(|q| (q.0 as usize) < h && (q.1 as usize) < w).map(|q| q.0 as usize * w + q.1 as usize).collect();
            v.sort_unstable();
            v
        };
        let inside = valid_coords(p, size).to_vec();
        ensure!(inside.len() == want.len(), "valid_coords({p:?}, {size:?}) is {inside:?}");
        same_set(&format!("valid_coords of {p:?}"), w, &idx(inside), &want)?;
        same_set(&format!("neighbor_coords of {p:?} on the board"), w, &idx(neighbor_coords(p).to_vec()), &want)?;
        let mut diag = vec![];
        for (dr, dc) in [(-1i32, -1i32), (-1, 1), (1, -1), (1, 1)] {
            let (r, c) = (p.0 as i32 + dr, p.1 as i32 + dc);
            if r >= 0 && c >= 0 && r < h as i32 && c < w as i32 {
                diag.push(r as usize * w + c as usize);
            }
        }
        same_set(&format!("corner_points of {p:?} on the board"), w, &idx(corner_points(p).to_vec()), &diag)?;
        for q in neighbor_coords(p).into_iter().chain(corner_points(p)) {
            let on = (q.0 as usize) < h && (q.1 as usize) < w;
            ensure!(is_coord_valid(size, q) == on, "is_coord_valid({size:?}, {q:?}) is {}", !on);
        }
        ensure!(is_coord_valid(size, p) && two_to_1dim(size, p) == i && one_to_2dim(size, i) == p, "{p:?} is not point {i} of a board {size:?}");
        let mut libs: Vec<usize> = Goban::new(size).get_liberties(p).map(|q| q.0 as usize * w + q.1 as usize).collect();
        libs.sort_unstable();
        same_set(&format!("liberties of {p:?} on the empty board"), w, &libs, &want)?;
        st.inc("points");
    }
    st.states += (h * w) as u64;
    // all pairs of neighbours join, all pairs of non-neighbours do not: exercised by filling line by line
    let mut g = Goban::new(size);
    let mut b = empty.clone();
    for i in 0..h * w {
        if i % 3 != 2 {
            g.push(b.rc(i), col(B));
            b.c[i] = B;
        }
    }
    check_groups(&g, &b, &mut Stats::default())?;
    check_views(&g, &b)?;
    // outside: every coordinate pair with one part off the board
    let mut outs: Vec<(u8, u8)> = vec![];
    for a in 0..=255u8 {
        for k in [0u8, (h / 2) as u8, h as u8 - 1, h as u8, 18, 19, 254, 255] {
            for l in [0u8, (w / 2) as u8, w as u8 - 1, w as u8, 18, 19, 254, 255] {
                if a == 0 {
                    outs.push((k, l));
                }
            }
            outs.push((k, a));
        }
        for l in [0u8, (w / 2) as u8, w as u8 - 1, w as u8] {
            outs.push((a, l));
        }
    }
    outs.sort_unstable();
    outs.dedup();
    outs.retain(|&(r, c)| r as usize >= h || c as usize >= w);
    if !thorough() && !((h == 19 || h < 6 || h == 13) && (w == 19 || w < 6 || w == 9)) {
        outs.retain(|&(r, c)| r as usize <= h + 1 && c as usize <= w + 1 || r >= 254 || c >= 254);
    }
    let mut base = fresh.clone();
    base.play(Move::Play(0, 0));
    let d0 = digest(&base);
    let mut g = base.clone();
    let mut gb = base.goban().clone();
    for p in outs {
        let mut ok = false;
        let e = panics(|| ok = g.try_play(Move::Play(p.0, p.1)).is_ok());
        ensure!(e.is_some() || !ok, "try_play accepts {p:?} on a {h}x{w} board");
        let e = panics(|| {
            g.play(Move::Play(p.0, p.1));
        });
        ensure!(e.is_some(), "play accepts {p:?} on a {h}x{w} board");
        let e = panics(|| {
            gb.push(p, col(W));
        });
        ensure!(e.is_some(), "Goban::push accepts {p:?} on a {h}x{w} board");
        let e = panics(|| {
            gb.push_stone(stone(p, W));
            gb.push_many(&[p], col(W));
        });
        ensure!(e.is_some(), "Goban::push_stone accepts {p:?} on a {h}x{w} board");
        let mut g2 = fresh.clone();
        let e = panics(|| {
            g2.put_handicap(&[p]);
        });
        ensure!(e.is_some(), "put_handicap accepts {p:?} on a {h}x{w} board");
        let mut made = false;
        let e = panics(|| made = Game::builder().size(size).add(stone(p, B)).build().is_ok());
        ensure!(e.is_some() || !made, "the builder accepts a stone at {p:?} on a {h}x{w} board");
        for (what, k) in [("handicap point", 0), ("move", 1), ("handicap point after another", 2)] {
            let mut made = false;
            let e = panics(|| {
                let mut b = Game::builder();
                b.size(size);
                match k {
                    0 => b.put_handicap(&[p]),
                    1 => b.moves(&[Move::Play(p.0, p.1)]),
                    _ => b.put_handicap(&[(0, 0), p]),
                };
                made = b.build().is_ok()
            });
            ensure!(e.is_some() || !made, "the builder accepts a {what} at {p:?} on a {h}x{w} board");
        }
        st.inc("outside points refused");
        ensure!(*base.goban() == gb && rb_of(&gb, h, w) == rb_of(base.goban(), h, w), "the refused stone {p:?} changed the board");
    }
    ensure!(norm_groups(&gb) == norm_groups(base.goban()), "refused stones outside changed the groups");
    same_digest("refused moves outside the board changed the game", &d0, &digest(&g))?;
    // and the game goes on as if nothing had happened
    if h * w > 2 {
        let mut a = base.clone();
        a.play(Move::Play((h - 1) as u8, (w - 1) as u8));
        g.play(Move::Play((h - 1) as u8, (w - 1) as u8));
        same_digest("after refused moves outside the board the game goes on differently", &digest(&a), &digest(&g))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C13
pub fn c13(st: &mut Stats) {
    use goban::pieces::stones::Color;
    use goban::rules::EndGame;
    #[derive(Clone, Debug)]
    struct Cfg {
        size: (usize, usize),
        rule: Option<(u32, u32, f32)>,
        komi: Option<f32>,
        handicap: Option<u32>,
        points: Vec<Pt>,
        setup: Vec<(u8, u8, u8)>,
        turn: Option<u8>,
        outcome: Option<EndGame>,
        moves: Vec<Op>,
    }
    let mut cfgs: Vec<Cfg> = vec![];
    let sizes = [(3usize, 3usize), (2, 4), (4, 2), (19, 19), (5, 3)];
    let rules = [None, Some((KO | SUI, 6, 6.5f32)), Some((KO, 7, 0.5)), Some((0, 0, 3.0)), Some((EYE | SUI, 1, -1.0))];
    for &size in &sizes {
        for &rule in &rules {
            for komi in [None, Some(0.0), Some(5.5), Some(-5.5), Some(7.0), Some(36.25)] {
                for (handicap, points) in [(None, vec![]), (Some(0), vec![]), (Some(2), vec![]), (Some(9), vec![]), (Some(1), vec![]), (None, vec![(0u8, 0u8)]), (None, vec![(1, 1), (0, 1)]), (Some(2), vec![(1, 0), (0, 1)])] {
                    for setup in [vec![], vec![(1u8, 1u8, W)], vec![(1, 1, B), (1, 0, W)], vec![(0, 0, W), (1, 0, W), (1, 1, B)]] {
                        if setup.iter().any(|s| points.contains(&(s.0, s.1))) {
                            continue;
                        }
                        for turn in [None, Some(B), Some(W)] {
                            for outcome in [None, Some(EndGame::Draw), Some(EndGame::WinnerByTime(Color::White)), Some(EndGame::WinnerByScore(Color::Black, 1.5))] {
                                for (k, moves) in [vec![], vec![Op::Pass], vec![Op::Pass, Op::Pass], vec![Op::Play(0, 1)], vec![Op::Play(0, 1), Op::Play(2, 0), Op::Play(1, 1), Op::Pass], vec![Op::Play(1, 0), Op::Pass, Op::Play(0, 0), Op::Play(0, 1)], vec![Op::Pass, Op::Resign(W)]].into_iter().enumerate() {
                                    if outcome.is_some() && k >= 6 {
                                        continue;
                                    }
                                    if !thorough() && (size == (19, 19) && (k % 3 != 0 || komi.is_some()) || matches!(komi, Some(x) if x < 0.0 || x >= 7.0) && (size != (3, 3) || k > 1) || matches!(handicap, Some(1 | 9)) && (size != (2, 4) && size != (5, 3) || outcome.is_some() && k != 4)) {
                                        continue;
                                    }
                                    cfgs.push(Cfg { size, rule, komi, handicap, points: points.clone(), setup: setup.clone(), turn, outcome, moves });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // large values, one at a time and with one another: komi, counts of handicap, of stones set up, of handicap points, of moves
    let many: Vec<(u8, u8, u8)> = {
        let mut b = RB::new(19, 19);
        for i in 0..361 {
            b.c[i] = if (i % 19 + 2 * (i / 19)) % 5 == 0 { E } else { 1 + ((i % 19 + i / 19) % 2) as u8 };
        }
        for i in 0..361 {
            if b.c[i] != E && b.libs(&b.chain(i)).is_empty() {
                b.c[i] = E;
            }
        }
        (0..361).map(|k| k * 100 % 361).filter(|&i| b.c[i] != E).map(|i| ((i / 19) as u8, (i % 19) as u8, b.c[i])).collect()
    };
    let plain = Cfg { size: (19, 19), rule: Some((KO | SUI, 6, 6.5)), komi: None, handicap: None, points: vec![], setup: vec![], turn: None, outcome: None, moves: vec![] };
    let n = many.len();
    for k in (0..=n).filter(|k| thorough() || k % 19 == 3 || (253..259).contains(k) || (126..131).contains(k) || *k < 12 || *k == n) {
        let pts: Vec<Pt> = many[..k].iter().map(|x| (x.0, x.1)).collect();
        cfgs.push(Cfg { setup: many[..k].to_vec(), ..plain.clone() });
        cfgs.push(Cfg { setup: many[k..].to_vec(), handicap: Some(k as u32), ..plain.clone() });
        cfgs.push(Cfg { setup: many[k..].iter().rev().copied().collect(), points: pts.clone(), ..plain.clone() });
        cfgs.push(Cfg { points: pts.clone(), turn: Some(B), ..plain.clone() });
        cfgs.push(Cfg { moves: pts.iter().map(|p| Op::Play(p.0, p.1)).collect(), turn: Some(1 + (k % 2) as u8), ..plain.clone() });
        cfgs.push(Cfg { moves: pts.iter().flat_map(|p| [Op::Play(p.0, p.1), Op::Pass]).collect(), komi: Some(k as f32), ..plain.clone() });
    }
    for size in [(3, 3), (2, 4)] {
        for komi in [None, Some(200.5), Some(-200.5), Some(361.0), Some(-361.5), Some(1000.25), Some(-1.0e6), Some(0.1), Some(0.001), Some(16777216.0)] {
            for handicap in [None, Some(1), Some(10), Some(25), Some(255), Some(256), Some(257), Some(361), Some(65536), Some(u32::MAX)] {
                for outcome in [None, Some(EndGame::WinnerByScore(Color::White, 361.25)), Some(EndGame::WinnerByForfeit(Color::Black)), Some(EndGame::WinnerByResign(Color::White))] {
                    for turn in [None, Some(B)] {
                        cfgs.push(Cfg { size, komi, handicap, outcome, turn, moves: vec![Op::Play(1, 1)], setup: vec![(0, 1, W)], ..plain.clone() });
                    }
                }
            }
        }
    }
    // permutations of the order of the calls: all 5040 orders of seven calls, dealt over the configurations
    let ncfg = cfgs.len();
    let idx: Vec<usize> = (0..ncfg).collect();
    let chunks: Vec<&[usize]> = idx.chunks(256).collect();
    let cfgs = &cfgs;
    par_each(&chunks, st, |ch, st| {
        for &k in *ch {
            let c = &cfgs[k];
            let ok = case(|| format!("builder with {c:?}"), st, |st| {
                // the model
                let (ill, sco, rk) = c.rule.unwrap_or((KO | SUPER | SUI, 3, 7.5));
                let mut b = RB::new(c.size.0, c.size.1);
                for &(y, x) in &c.points {
                    b.c[y as usize * c.size.1 + x as usize] = B;
                }
                for &(y, x, v) in &c.setup {
                    b.c[y as usize * c.size.1 + x as usize] = v;
                }
                if !b.is_legal() {
                    return Ok(());
                }
                let hc = c.handicap.unwrap_or(c.points.len() as u32);
                let turn = c.turn.unwrap_or(if hc > 0 { W } else { B });
                let mut r = RG::new(b.clone(), turn, ill);
                let mut moves = vec![];
                for &op in &c.moves {
                    if let Op::Play(y, x) = op {
                        if y as usize >= c.size.0 || x as usize >= c.size.1 || !r.legal(y as usize * c.size.1 + x as usize) {
                            continue;
                        }
                    }
                    moves.push(mv(op));
                    r = r.apply(op);
                }
                let mut s = Scn::new("builder", c.size.0, c.size.1);
                s.ill = ill;
                s.sco = sco;
                s.komi = c.komi.unwrap_or(rk);
                s.ops = OP_PASS | OP_RESUME;
                // the calls, in every relative order of the deal
                let mut first: Option<String> = None;
                for j in 0..if thorough() { 12 } else { 4 } {
                    let mut perm = vec![0usize, 1, 2, 3, 4, 5, 6, 7];
                    let mut x = k * 131 + j * 3571;
                    if j == 1 {
                        perm.reverse();
                    } else if j > 1 {
                        for m in (1..8).rev() {
                            perm.swap(m, x % (m + 1));
                            x /= m + 1;
                        }
                    }
                    let mut bd = Game::builder();
                    for q in perm {
                        match q {
                            0 => {
                                bd.size((c.size.0 as u8, c.size.1 as u8));
                            }
                            1 => {
                                if c.rule.is_some() {
                                    bd.rule(Rule { komi: rk, flag_illegal: flags(ill), flag_score: ScoreRules::from_bits_truncate(sco) });
                                }
                            }
                            2 => {
                                if let Some(x) = c.komi {
                                    bd.komi(x);
                                }
                            }
                            3 => {
                                if let Some(x) = c.handicap {
                                    bd.handicap(x);
                                }
                                bd.black_player("b").white_player("w");
                            }
                            4 => {
                                if !c.points.is_empty() {
                                    bd.put_handicap(&c.points);
                                }
                            }
                            5 => {
                                for &(y, x, v) in &c.setup {
                                    bd.add(stone((y, x), v));
                                }
                            }
                            6 => {
                                if let Some(t) = c.turn {
                                    bd.turn(col(t));
                                }
                                if let Some(o) = c.outcome {
                                    bd.outcome(o);
                                }
                            }
                            _ => {
                                bd.moves(&moves);
                            }
                        }
                    }
                    let g = bd.build().map_err(|e| format!("build() fails: {e}"))?;
                    st.transitions += 1;
                    let d = digest(&g);
                    match &first {
                        None => first = Some(d),
                        Some(f) => {
                            same_digest("the order of the options matters", f, &d)?;
                            st.inc("orders of options compared");
                            continue;
                        }
                    }
                    ensure!(g.komi() == s.komi, "komi is {} but should be {}", g.komi(), s.komi);
                    ensure!(g.turn() == col(r.turn), "{:?} is to move but should be {:?}", g.turn(), col(r.turn));
                    if let Some(o) = c.outcome {
                        ensure!(g.outcome() == Some(o) && g.is_over(), "the outcome is {:?} but should be {o:?}", g.outcome());
                        C02.state(&s, &g, &r, st)?;
                        check_groups(g.goban(), &r.b, st)?;
                        C20.state(&s, &g, &r, st)?;
                        C18.state(&s, &g, &r, st)?;
                        let want = score(&r, &r.b.territories().0, &r.b.territories().1, s.sco, s.komi);
                        ensure!(g.calculate_score() == want, "the score is {:?} but should be {want:?}", g.calculate_score());
                        st.inc("games with a recorded outcome");
                        continue;
                    }
                    // everything, now and after every continuation of one or two operations
                    let heavy = c.size.0 * c.size.1 <= 15 && (thorough() || k % 7 == 0);
                    full_state(&s, &g, &r)?;
                    st.states += 1;
                    st.inc("games compared with the model");
                    for op in s.legal_ops(&r) {
                        if !heavy && (matches!(op, Op::Play(y, x) if (y + x) % 3 != 0)) {
                            continue;
                        }
                        if s.ill & EYE != 0 && matches!(op, Op::Play(..)) {
                            continue;
                        }
                        let mut g1 = g.clone();
                        apply(&mut g1, op);
                        let r1 = r.apply(op);
                        st.transitions += 1;
                        if heavy {
                            full_state(&s, &g1, &r1).map_err(|m| format!("after the continuation {op:?}: {m}"))?;
                        } else {
                            C02.state(&s, &g1, &r1, st)?;
                            C20.state(&s, &g1, &r1, st)?;
                        }
                        st.inc("continuations compared");
                    }
                    if turn == W {
                        st.inc("white to begin");
                    }
                }
                Ok(())
            });
            if !ok {
                return;
            }
        }
    });
    if stopped() {
        return;
    }
    // every order of the calls for one configuration that uses all options
    let calls: Vec<usize> = (0..7).collect();
    let mut perms = vec![];
    permute(&calls, &mut vec![], &mut perms);
    let want = std::sync::Mutex::new(None::<String>);
    par_each(&perms.chunks(200).collect::<Vec<_>>(), st, |ch, st| {
        for p in *ch {
            case(|| format!("order of options {p:?}"), st, |st| {
                let mut b = Game::builder();
                for &q in p {
                    match q {
                        0 => b.size((4, 5)),
                        1 => b.rule(JAPANESE),
                        2 => b.komi(1.5),
                        3 => b.put_handicap(&[(0, 0), (3, 4)]),
                        4 => b.add(stone((1, 1), W)),
                        5 => b.turn(Color::Black),
                        _ => b.moves(&[Move::Play(2, 2), Move::Play(3, 3)]),
                    };
                }
                let g = b.build().map_err(|e| format!("build() fails: {e}"))?;
                ensure!(g.komi() == 1.5 && g.turn() == Color::Black && g.size() == (4, 5), "komi {}, turn {:?}, size {:?}", g.komi(), g.turn(), g.size());
                let d = digest(&g);
                st.inc("orders of options compared");
                let mut w = want.lock().unwrap();
                match &*w {
                    None => {
                        *w = Some(d);
                        Ok(())
                    }
                    Some(x) => same_digest("the order of the options matters", x, &d),
                }
            });
        }
    });
    if stopped() {
        return;
    }
    // put_handicap on a game is the same as the builder's
    case(|| "put_handicap".into(), st, |st| {
        for pts in [vec![], vec![(0u8, 0u8)], vec![(0, 0), (1, 1), (2, 2)], vec![(2, 1), (2, 2), (1, 2)]] {
            let mut a = Game::new(GobanSizes::Custom(3, 4), JAPANESE);
            a.put_handicap(&pts);
            let b = Game::builder().size((3, 4)).rule(JAPANESE).put_handicap(&pts).turn(Color::White).build().unwrap();
            same_digest("put_handicap differs from the builder", &digest(&a), &digest(&b))?;
            st.inc("handicap games");
        }
        // defaults
        let a = Game::builder().build().unwrap();
        same_digest("the default builder is not the default game", &digest(&Game::default()), &digest(&a))?;
        same_digest("the default game is not 19x19 Chinese", &digest(&Game::new(GobanSizes::Nineteen, CHINESE)), &digest(&a))?;
        Ok(())
    });
}
pub fn permute(rest: &[usize], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if rest.is_empty() {
        out.push(cur.clone());
        return;
    }
    for i in 0..rest.len() {
        let mut r = rest.to_vec();
        cur.push(r.remove(i));
        permute(&r, cur, out);
        cur.pop();
    }
}

// ------------------------------------------------------------------------------------------- C15
pub struct C15 {
    pub syms: Vec<(u8, bool)>,
}
/// everything the library reports, written in the frame of the original game
fn framed(g: &Game, h: usize, w: usize, s: u8, swap: bool) -> Result<Vec<String>, String> {
    // point (y,x) of the original is at sym_pt(s,h,w,(y,x)) of the transformed game
    let (th, tw) = sym_size(s, h, w);
    ensure!(g.size() == (th as u8, tw as u8), "size is {:?} but should be {:?}", g.size(), (th, tw));
    let mut back = vec![0usize; h * w];
    let mut fwd = vec![(0u8, 0u8); h * w];
    for i in 0..h * w {
        let p = sym_pt(s, h, w, ((i / w) as u8, (i % w) as u8));
        back[p.0 as usize * tw + p.1 as usize] = i;
        fwd[i] = p;
    }
    let cc = |c: u8| if swap && c != E { other(c) } else { c };
    let pr = |(a, b): (u32, u32)| if swap { (b, a) } else { (a, b) };
    let mut v = vec![];
    let turn = cc(uncol(Some(g.turn())));
    v.push(format!("turn {turn}"));
    v.push(format!("board {:?}", (0..h * w).map(|i| cc(uncol(g.get_color(fwd[i])))).collect::<Vec<_>>()));
    let set = |it: &mut dyn Iterator<Item = (u8, u8)>| {
        let mut l: Vec<usize> = it.take(1000).map(|p| back.get(p.0 as usize * tw + p.1 as usize).copied().unwrap_or(9999)).collect();
        l.sort_unstable();
        l
    };
    v.push(format!("legals {:?}", set(&mut g.legals())));
    v.push(format!("verdicts {:?}", (0..h * w).map(|i| g.check_point(fwd[i])).collect::<Vec<_>>()));
    for f in [0, 1, 4, 5, 8, 12] {
        v.push(format!("legals under {f} {:?}", set(&mut g.legals_by(flags(f)))));
    }
    let empty: Vec<usize> = (0..h * w).filter(|&i| g.get_color(fwd[i]).is_none()).collect();
    let st = |i: usize, c: u8| stone(fwd[i], cc(c));
    v.push(format!("ko {:?}", empty.iter().filter(|&&i| g.check_ko(st(i, turn))).collect::<Vec<_>>()));
    v.push(format!("suicide {:?}", empty.iter().filter(|&&i| g.check_suicide(st(i, turn))).collect::<Vec<_>>()));
    v.push(format!("captures {:?}", empty.iter().filter(|&&i| g.will_capture(fwd[i])).collect::<Vec<_>>()));
    for c in [B, W] {
        v.push(format!("eyes of {c} {:?}", (0..h * w).filter(|&i| g.check_eye(st(i, c))).collect::<Vec<_>>()));
    }
    let mut groups: Vec<(u8, u16, Vec<usize>)> = vec![];
    for c in g.chains().take(1000) {
        let mut l: Vec<usize> = c.liberties().iter().map(|&i| back.get(i).copied().unwrap_or(9999)).collect();
        l.sort_unstable();
        groups.push((cc(c.color as u8), c.num_stones, l));
    }
    groups.sort();
    v.push(format!("groups {groups:?}"));
    v.push(format!("prisoners {:?}", pr(g.prisoners())));
    v.push(format!("stones {:?}", pr(g.number_of_stones())));
    let (tb, tw_) = g.get_territories();
    let mut t = [set(&mut tb.map(|p| p.coord)), set(&mut tw_.map(|p| p.coord))];
    if swap {
        t.swap(0, 1);
    }
    v.push(format!("territory {t:?}"));
    let sc = g.calculate_score_by(ScoreRules::STONES | ScoreRules::PRISONNERS);
    v.push(format!("score {:?}", if swap { (sc.1, sc.0) } else { sc }));
    v.push(format!("over {}", g.is_over()));
    v.push(format!("history {}", past(g, 1_000_000).len()));
    Ok(v)
}
impl Oracle for C15 {
    fn path(&self, s: &Scn, path: &[Op], g: &Game, r: &RG, st: &mut Stats) -> Res {
        let mut want = framed(g, s.h, s.w, 0, false)?;
        let sup = s.ill & SUI == 0 || s.ill & SUPER != 0;
        for &(sym, swap) in &self.syms {
            let (th, tw) = sym_size(sym, s.h, s.w);
            let mut s2 = s.clone();
            s2.h = th;
            s2.w = tw;
            let cc = |c: u8| if swap { other(c) } else { c };
            s2.turn = cc(s.turn);
            for x in s2.setup.iter_mut() {
                let p = sym_pt(sym, s.h, s.w, (x.0, x.1));
                *x = (p.0, p.1, cc(x.2));
            }
            let turned = |op: Op| match op {
                Op::Play(y, x) => {
                    let p = sym_pt(sym, s.h, s.w, (y, x));
                    Op::Play(p.0, p.1)
                }
                Op::Resign(c) => Op::Resign(cc(c)),
                o => o,
            };
            for op in s2.prelude.iter_mut() {
                *op = turned(*op);
            }
            let (mut g2, _) = s2.start();
            for &op in path {
                apply(&mut g2, turned(op));
            }
            let got = framed(&g2, s.h, s.w, sym, swap)?;
            for (a, b) in want.iter().zip(&got) {
                ensure!(a == b, "transformed by symmetry {sym} (1 rows, 2 columns flipped, 4 transposed), colours exchanged: {swap}: [{a}] becomes [{b}]");
            }
            st.inc(if swap { "colour exchanges compared" } else { "symmetries compared" });
            st.traces += 1;
            if sup && !r.over() {
                for i in 0..r.b.n() {
                    if r.b.c[i] == E && r.verdict(i) & SUI & s.ill == 0 {
                        let p = r.b.rc(i);
                        let q = sym_pt(sym, s.h, s.w, p);
                        let (a, b) = (g.check_super_ko(stone(p, r.turn)), g2.check_super_ko(stone(q, cc(r.turn))));
                        ensure!(a == b, "check_super_ko{p:?} is {a}, but {b} when transformed by {sym}/{swap}");
                    }
                }
            }
        }
        want.clear();
        Ok(())
    }
}
pub fn c15(st: &mut Stats) {
    let t = thorough();
    let o = C15 { syms: (0..8).flat_map(|s| [(s, false), (s, true)]).filter(|x| *x != (0, false)).collect() };
    let mut big = graphs(TINY, &[KO | SUI, 0], OP_PASS);
    big.extend(graphs(&[(2, 4)], &[KO | SUI], OP_PASS).into_iter().map(|s| s.depth(if t { 9 } else { 6 })));
    big.push(Scn::new("3x3", 3, 3).ill(KO).depth(if t { 6 } else { 4 }));
    for (h, w, d) in [(2, 2, 6), (2, 3, 4), (1, 5, 5)] {
        big.push(Scn::new(&format!("superko-{h}x{w}"), h, w).ill(SUPER | KO).depth(d).hist());
    }
    if !run_big(&big, &o, st) {
        return;
    }
    let mut gens: Vec<Gen> = vec![];
    // every 3x3 neighbourhood, at corner, edge and centre: eyes
    gens.extend(windows(Win { sizes: vec![(5, 5)], k: 3, l: 3, ctxs: if t { vec![Ctx::Empty, Ctx::RingMix] } else { vec![Ctx::RingMix] }, ills: vec![KO | SUI], turns: vec![B], depth: 0, ops: 0, grow: 0, at: Some(vec![(0, 0), (1, 1)]) }));
    gens.extend(windows(Win { sizes: vec![(3, 5), if t { (19, 19) } else { (7, 9) }], k: 2, l: 3, ctxs: vec![Ctx::Empty, Ctx::RingMix], ills: vec![KO], turns: vec![B, W], depth: if t { 1 } else { 0 }, ops: 0, grow: 0, at: None }));
    gens.extend(templates(Tpl { which: vec![], sizes: vec![(5, 5), (4, 7)], all_offsets: true, syms: vec![0], ills: vec![KO | SUI, SUPER], depth: 2, ops: OP_PASS, played: false }));
    gens.extend(eye_shapes());
    gens.extend(aged(&[KO | SUI, 0], OP_PASS, 2));
    if !run_gens(&gens, &o, st) {
        return;
    }
    run_big(&unmerged(&[KO | SUI], OP_PASS, 0).into_iter().filter(|s| s.h * s.w <= 6).map(|s| if t { s } else { let d = s.depth.min(5); s.depth(d) }).collect::<Vec<_>>(), &o, st);
}
/// an eye whose corner points are empty or stones, with every surrounding of those corner points
fn eye_shapes() -> Vec<Gen> {
    // a cross of own stones around the centre of 5x5; the four diagonals and, for an empty diagonal,
    // its two outer neighbours vary
    let mut v: Vec<Gen> = vec![];
    for code in 0..81usize {
        v.push(Box::new(move |f| {
            let mut c = code;
            let mut diag = [0u8; 4];
            for d in diag.iter_mut() {
                *d = (c % 3) as u8;
                c /= 3;
            }
            let empties = diag.iter().filter(|&&d| d == E).count();
            if empties == 0 || empties > 2 {
                return;
            }
            let dpos = [(1usize, 1usize), (1, 3), (3, 1), (3, 3)];
            let outer = |k: usize| -> [(usize, usize); 5] {
                let (y, x) = dpos[k];
                let (oy, ox) = (if y == 1 { 0 } else { 4 }, if x == 1 { 0 } else { 4 });
                [(oy, x), (y, ox), (oy, ox), (oy, 2), (2, ox)]
            };
            let free: Vec<(usize, usize)> = (0..4).filter(|&k| diag[k] == E).flat_map(|k| outer(k).to_vec()).take(if empties == 1 { 5 } else { 10 }).collect();
            let vary: Vec<(usize, usize)> = if empties == 1 { free } else { free.into_iter().enumerate().filter(|(k, _)| k % 5 < 3).map(|x| x.1).collect() };
            for code2 in 0..3usize.pow(vary.len() as u32) {
                let mut b = RB::new(5, 5);
                for (y, x) in [(1, 2), (2, 1), (2, 3), (3, 2)] {
                    b.c[y * 5 + x] = B;
                }
                for k in 0..4 {
                    b.c[dpos[k].0 * 5 + dpos[k].1] = diag[k];
                }
                let mut c2 = code2;
                for &(y, x) in &vary {
                    b.c[y * 5 + x] = (c2 % 3) as u8;
                    c2 /= 3;
                }
                if b.is_legal() {
                    f(Scn::new("eye", 5, 5).board(&b).depth(0).window(vec![]));
                }
            }
        }));
    }
    v
}

pub fn c16(st: &mut Stats) {
    let t = thorough();
    let (mut big, mut gens) = (graphs(TINY, &[KO | SUI, 0], OP_PASS), vec![]);
    big.extend(graphs(&[(3, 3), (2, 4), (4, 2)], &[SUI], OP_PASS));
    big.extend(graphs(TINY, &[KO | SUI | EYE, EYE], OP_PASS));
    for s in big.iter_mut() {
        if s.ill & EYE != 0 {
            s.depth = 4; // the moves tried are those legal without the eye filter
        }
    }
    if !run_big(&big, &C16, st) {
        return;
    }
    gens.extend(windows(Win { sizes: vec![(3, 3), (5, 5), (4, 5)], k: 3, l: 3, ctxs: vec![Ctx::Empty, Ctx::RingMix, Ctx::RingB], ills: vec![KO | SUI, SUI | EYE], turns: vec![B, W], depth: 0, ops: 0, grow: 0, at: None }));
    gens.extend(windows(Win { sizes: if t { vec![(19, 19), (7, 6), (6, 19), (13, 4)] } else { vec![(19, 19)] }, k: 3, l: 3, ctxs: vec![Ctx::RingMix], ills: vec![KO | SUI], turns: vec![B], depth: 0, ops: 0, grow: 0, at: Some(vec![(0, 0), (0, 1), (1, 0), (1, 1)]) }));
    gens.extend(windows(Win { sizes: vec![(19, 19), (5, 9), (9, 5), (2, 7), (7, 2)], k: 2, l: 3, ctxs: vec![Ctx::Empty, Ctx::RingB, Ctx::RingW, Ctx::FullB, Ctx::RingMix], ills: vec![KO | SUI], turns: vec![B, W], depth: 0, ops: 0, grow: 0, at: None }));
    gens.extend(eye_shapes());
    // thin boards of every length: all the corners of a point lie off the board, or all but two
    for len in 1..=19usize {
        for thick in [1usize, 2] {
            for s in [(thick, len), (len, thick)] {
                let (k, l) = (s.0.min(3), s.1.min(3));
                let at: Vec<(usize, usize)> = (0..=s.0 - k).flat_map(|r| (0..=s.1 - l).map(move |c| (r, c))).collect();
                gens.extend(windows(Win { sizes: vec![s], k, l, ctxs: vec![Ctx::Empty, Ctx::RingB, Ctx::RingMix], ills: vec![KO | SUI], turns: vec![B, W], depth: 0, ops: 0, grow: 0, at: Some(at) }));
            }
        }
    }
    gens.extend(templates(Tpl { which: vec![], sizes: vec![(5, 5), (4, 6), (19, 19)], all_offsets: true, syms: vec![0, 3, 5], ills: vec![KO | SUI], depth: 1, ops: OP_PASS, played: false }));
    run_gens(&gens, &C16, st);
}

pub fn c18(st: &mut Stats) {
    let t = thorough();
    let mut big = vec![];
    for ill in [KO | SUI, 0, SUPER | KO | SUI] {
        for (h, w, d) in [(1, 1, 6), (1, 2, 9), (2, 1, 7), (1, 3, 8), (2, 2, 7), (1, 4, 6), (2, 3, 5), (3, 2, 5), (3, 3, 4)] {
            big.push(Scn::new(&format!("history-{h}x{w}-ill{ill}"), h, w).ill(ill).ops(OP_PASS | OP_RESUME).depth(if t { d + 1 } else { d }).hist());
        }
    }
    if !run_big(&big, &C18Key, st) {
        return;
    }
    let mut gens = templates(Tpl { which: vec![0, 1, 2, 3, 8, 9, 10, 14, 18], sizes: vec![(5, 5), (3, 7), (19, 19)], all_offsets: false, syms: vec![0, 5], ills: vec![KO | SUI, 0], depth: if t { 5 } else { 4 }, ops: OP_PASS, played: false });
    gens.extend(templates(Tpl { which: vec![0, 5, 6, 9], sizes: vec![(5, 6), (9, 9)], all_offsets: false, syms: vec![0], ills: vec![KO | SUI], depth: 2, ops: OP_PASS, played: true }));
    let gens: Vec<Gen> = gens.into_iter().map(with_hist).collect();
    if !run_gens(&gens, &C18Key, st) {
        return;
    }
    if !run_gens(&superko_gens(&[(1, 3, 4), (2, 2, 4), (1, 4, 3)], &[KO | SUI, 0], OP_PASS), &C18Key, st) {
        return;
    }
    if !run_big(&unmerged(&[KO | SUI, 0], OP_PASS | OP_RESUME, 0), &C18, st) {
        return;
    }
    let mut gens = filled(&[(19, 19), (5, 5), (2, 2), (1, 7), (16, 16)], &[KO | SUI, 0], 2);
    gens.extend(aged(&[KO | SUI, 0], OP_PASS | OP_RESUME, 3));
    gens.extend(far(&[KO | SUI], 1, OP_PASS));
    gens.extend(made(&[KO | SUI, 0], OP_PASS | OP_RESUME, 3));
    gens.extend(lines(&[KO | SUI, 0], OP_PASS | OP_RESUME));
    if !run_gens(&gens, &C18, st) {
        return;
    }
    recorded(st);
    if stopped() {
        return;
    }
    long_superko(st);
    if stopped() {
        return;
    }
    long_histories(st);
}
/// games of thousands of plays: nothing is forgotten, however long the list gets
fn long_histories(st: &mut Stats) {
    let t = thorough();
    let items: Vec<(usize, usize, u32, usize, usize)> = [(9usize, 9usize, 5000usize), (5, 5, 5000), (13, 12, 3000), (19, 19, if t { 4000 } else { 1300 }), (4, 4, 70_000), (3, 2, 70_000)]
        .iter()
        .flat_map(|&(h, w, n)| [(KO | SUI, 1), (0, 2), (SUI, 3)].map(|(ill, pick)| (h, w, ill, pick, n)))
        .collect();
    par_each(&items, st, |&(h, w, ill, pick, plays), st| {
        case(|| format!("game of {plays} plays on {h}x{w}, rules {ill}, order {pick}"), st, |st| {
            let mut g = Game::new(GobanSizes::Custom(h, w), Rule { komi: 0.0, flag_illegal: flags(ill), flag_score: ScoreRules::STONES });
            let mut r = RG::new(RB::new(h, w), B, ill);
            let mut seen: HashSet<Vec<u8>> = HashSet::new();
            let mut list: Vec<RB> = vec![];
            for k in 0..plays {
                r.hist.clear();
                let cand: Vec<usize> = (0..h * w).filter(|&i| r.legal(i)).collect();
                if cand.is_empty() || k % 211 == 210 {
                    g.play(Move::Pass);
                    r = r.apply(Op::Pass);
                    if r.passes >= 2 {
                        g.resume();
                        r = r.apply(Op::Resume);
                    }
                } else {
                    let i = cand[match pick {
                        1 => k * 5 + k / 7,
                        2 => k * k + k / 3,
                        _ => k / 2 * 7 + k / 11,
                    } % cand.len()];
                    let q = r.b.rc(i);
                    if seen.insert(r.b.c.clone()) {
                        list.push((*r.b).clone());
                    }
                    g.play(Move::Play(q.0, q.1));
                    r = r.apply(Op::Play(q.0, q.1));
                }
                st.transitions += 1;
                let n = list.len();
                if k + 1 == plays || (n.is_power_of_two() && n > 64) || k % (plays / 12) == 0 || (n + 1).is_power_of_two() && n > 64 {
                    if !HISTORY {
                        continue;
                    }
                    let got: Vec<&Goban> = past(&g, n + 10);
                    ensure!(got.len() == n, "after {} operations {n} different positions were played from, but the history lists {}", k + 1, got.len());
                    for (j, (x, y)) in got.iter().zip(&list).enumerate() {
                        same_board(x, y).map_err(|m| format!("history entry {j} of {n}: {m}"))?;
                    }
                    st.states += 1;
                    st.add("history entries compared", n as u64);
                }
            }
            same_board(g.goban(), &r.b)?;
            st.max_depth = st.max_depth.max(plays);
            st.traces += 1;
            Ok(())
        });
    });
}
/// games of which the result is known from the start (as an imported record's is): they still remember what
/// was played
fn recorded(st: &mut Stats) {
    use goban::rules::EndGame;
    use goban::pieces::stones::Color;
    let outs = [EndGame::Draw, EndGame::WinnerByTime(Color::White), EndGame::WinnerByScore(Color::Black, 1.5), EndGame::WinnerByResign(Color::White), EndGame::WinnerByForfeit(Color::Black)];
    let mut items = vec![];
    for (h, w, len) in [(1usize, 3usize, 6usize), (2, 2, 6), (2, 3, 5), (3, 3, 4)] {
        for ill in [KO | SUI, 0] {
            for o in outs {
                items.push((h, w, len + thorough() as usize, ill, o));
            }
        }
    }
    par_each(&items, st, |&(h, w, len, ill, o), st| {
        let mut todo: Vec<(RG, Vec<Op>)> = vec![(RG::new(RB::new(h, w), B, ill), vec![])];
        while let Some((r, ops)) = todo.pop() {
            let ok = case(|| format!("builder with size {h}x{w}, suicide/ko rules {ill}, outcome {o:?}, moves {ops:?}"), st, |st| {
                st.states += 1;
                let mut s = Scn::new("recorded", h, w).ill(ill);
                s.komi = 0.0;
                let moves: Vec<Move> = ops.iter().map(|&x| mv(x)).collect();
                let mut b = Game::builder();
                b.size((h as u8, w as u8)).rule(Rule { komi: 0.0, flag_illegal: flags(ill), flag_score: CHINESE.flag_score }).outcome(o).moves(&moves);
                let g = b.build().map_err(|e| format!("build() fails: {e}"))?;
                C18.state(&s, &g, &r, st)?;
                st.inc("games with a recorded outcome");
                Ok(())
            });
            if !ok {
                return;
            }
            if ops.len() < len {
                let mut next: Vec<Op> = (0..h * w).filter(|&i| r.legal(i)).map(|i| Op::Play(r.b.rc(i).0, r.b.rc(i).1)).collect();
                if r.passes == 0 {
                    next.push(Op::Pass);
                }
                for op in next {
                    let mut p = ops.clone();
                    p.push(op);
                    st.transitions += 1;
                    todo.push((r.apply(op), p));
                }
            }
        }
    });
}
/// the order of the history matters here, so it belongs to the state
pub struct C18Key;
impl Oracle for C18Key {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        C18.state(s, g, r, st)?;
        if r.hist.len() >= 2 {
            st.inc("games of two or more plays");
        }
        Ok(())
    }
    fn key(&self, g: &Game, k: &mut Vec<u8>) {
        for b in past(g, 64) {
            let z = b.zobrist_hash();
            k.extend_from_slice(&z.to_le_bytes()[..4]);
        }
    }
    fn edge(&self, _s: &Scn, g0: &Game, _r0: &RG, op: Op, g1: &Game, _r1: &RG, _st: &mut Stats) -> Res {
        let (a, b) = (past(g0, 10000), past(g1, 10000));
        ensure!(b.len() >= a.len(), "{op:?} shortened the history");
        for (x, y) in a.into_iter().zip(b) {
            ensure!(x == y, "{op:?} changed a past position");
        }
        Ok(())
    }
}

pub fn c20(st: &mut Stats) {
    let mut s = std_ills(OP_PASS | OP_RESUME, 1);
    s.ills = vec![KO | SUI, 0, KO];
    // prisoners depend on the way a position was reached: they belong to the state
    struct K;
    impl Oracle for K {
        fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
            C20.state(s, g, r, st)
        }
        fn edge(&self, s: &Scn, g0: &Game, r0: &RG, op: Op, g1: &Game, r1: &RG, st: &mut Stats) -> Res {
            C20.edge(s, g0, r0, op, g1, r1, st)
        }
        fn key(&self, g: &Game, k: &mut Vec<u8>) {
            k.extend([g.prisoners().0 as u8, g.prisoners().1 as u8]);
        }
    }
    let mut deep = vec![];
    for ill in [KO | SUI, 0, KO] {
        for (h, w, d) in [(1, 2, 14), (1, 3, 12), (2, 2, 10), (2, 3, 8), (1, 5, 8), (3, 3, 5)] {
            deep.push(Scn::new(&format!("prisoners-{h}x{w}-ill{ill}"), h, w).ill(ill).ops(OP_PASS | OP_RESUME | OP_RESIGN).depth(if thorough() { d + 2 } else { d }));
        }
    }
    if !run_big(&deep, &K, st) {
        return;
    }
    if !std_run(&C20, &s, st) {
        return;
    }
    long_lives(st);
}
/// the same captures again and again: counts beyond 8 and 16 bits
fn long_lives(st: &mut Stats) {
    let mut items = vec![];
    for (name, b, turn, under, cycle) in lives() {
        for ill in [KO | SUI, SUI, 0] {
            if ill & under == ill {
                items.push((name, b.clone(), turn, ill, cycle.clone()));
            }
        }
    }
    par_each(&items, st, |(name, b, turn, ill, cycle), st| {
        case(|| format!("{name}, rules {ill}, repeated"), st, |st| {
            let s = Scn::new(name, b.h, b.w).board(b).turn(*turn).ill(*ill);
            let (mut g, r0) = s.start();
            let mut r = r0.clone();
            let mut steps = vec![];
            // a cycle of odd length leads back when it is run twice
            let odd = cycle.iter().filter(|op| **op != Op::Resume).count() % 2;
            for &op in cycle.iter().cycle().take(cycle.len() * (1 + odd)) {
                r = r.apply(op);
                steps.push((op, r.pris));
            }
            ensure!(*r.b == *r0.b && r.turn == r0.turn, "the cycle does not lead back");
            let rounds = if thorough() { 150_000 } else { 40_000 };
            for k in 0..rounds {
                for &(op, d) in &steps {
                    apply(&mut g, op);
                    let want = (r.pris.0 * k + d.0, r.pris.1 * k + d.1);
                    ensure!(g.prisoners() == want, "in round {k}, after {op:?}, prisoners are {:?} but should be {want:?}", g.prisoners());
                    st.transitions += 1;
                }
                if k % 64 == 0 || k % 255 < 2 {
                    same_board(g.goban(), b).map_err(|m| format!("after {k} rounds: {m}"))?;
                    let (tb, tw) = b.territories();
                    let (x, y) = g.calculate_score_by(ScoreRules::PRISONNERS);
                    let p = g.prisoners();
                    ensure!((x, y) == (tb.len() as f32 + p.0 as f32, tw.len() as f32 + p.1 as f32), "after {k} rounds the score is {x} : {y} with prisoners {p:?}");
                    st.states += 1;
                }
            }
            st.max_depth = st.max_depth.max(rounds as usize * cycle.len());
            st.traces += 1;
            let p = g.prisoners();
            if p.0 > 65535 && p.1 > 65535 {
                st.inc("more than 65535 prisoners");
            }
            Ok(())
        })
        ;
    });
}
pub fn c21(st: &mut Stats) {
    let s = std_ills(OP_PASS, 1);
    if !std_run(&C21, &s, st) {
        return;
    }
    let mut big = vec![];
    for ill in [SUPER | KO | SUI, SUPER, SUPER | KO] {
        for (h, w, d) in [(2, 2, 6), (1, 4, 6), (2, 3, 4)] {
            big.push(Scn::new(&format!("superko-{h}x{w}-ill{ill}"), h, w).ill(ill).depth(if thorough() { d + 1 } else { d }).hist());
        }
    }
    run_big(&big, &C21, st);
}

// ------------------------------------------------------------------------------------------- C19
pub struct C19;
impl Oracle for C19 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let n = poke(g, r, s.h * s.w <= 30);
        st.add("queries answered", n);
        Ok(())
    }
    fn edge(&self, _s: &Scn, g0: &Game, r0: &RG, op: Op, _g1: &Game, _r1: &RG, st: &mut Stats) -> Res {
        occur(r0, op, st);
        if op != Op::Resume {
            let mut c = g0.clone();
            if c.try_play(mv(op)).is_err() {
                st.inc("refused");
            }
        }
        Ok(())
    }
}
fn occur(r0: &RG, op: Op, st: &mut Stats) {
    if let Op::Play(y, x) = op {
        let p = r0.b.place(y as usize * r0.b.w + x as usize, r0.turn);
        st.inc(if p.captured.is_empty() { "plays without capture" } else { "captures" });
        if !p.own.is_empty() {
            st.inc("suicides");
        }
    }
}
pub fn c19(st: &mut Stats) {
    let (mut big, mut gens) = standard(&Std { light: 2, ops: OP_PASS | OP_RESUME, ills: ILLS.to_vec(), weight: 0 });
    for (h, w, d) in [(2, 2, 6), (2, 3, 4), (1, 4, 6)] {
        for ill in [SUPER, SUPER | KO | SUI, SUPER | EYE] {
            big.push(Scn::new(&format!("superko-{h}x{w}"), h, w).ill(ill).depth(d).hist().ops(OP_PASS | OP_RESIGN | OP_RESUME | OP_AFTER));
        }
    }
    if !run_big(&big, &C19, st) {
        return;
    }
    gens.extend(every_size(1, OP_PASS));
    if !run_gens(&gens, &C19, st) {
        return;
    }
    raw_boards(st);
}

// ------------------------------------------------------------------------------------------- C14
pub fn c14(st: &mut Stats) {
    let t = thorough();
    // 1. plain boards: groups made and removed, over and over, in several patterns
    #[derive(Clone, Debug)]
    struct L {
        size: (usize, usize),
        pat: usize,
        groups: usize,
    }
    let mut items = vec![];
    for size in [(1usize, 2usize), (5, 5), (19, 19), (3, 7)] {
        for pat in 0..4 {
            items.push(L { size, pat, groups: if t { 400_000 } else { 140_000 } });
        }
    }
    let ok = par_each(&items, st, |l, st| {
        case(|| format!("long run on a board {l:?}"), st, |st| {
            let (h, w) = l.size;
            let n = h * w;
            let mut g = Goban::new((h as u8, w as u8));
            let mut b = RB::new(h, w);
            let mut made = 0usize;
            let mut k = 0usize;
            while made < l.groups {
                let i = match l.pat {
                    0 => 0,
                    1 => k % n,
                    2 => (k * 7 + k / n) % n,
                    _ => (k * k + 3 * k) % n,
                };
                k += 1;
                let p = b.rc(i);
                st.transitions += 1;
                if b.c[i] == E {
                    let c = if (k / 3) % 2 == 0 { B } else { W };
                    g.push(p, col(c));
                    b.c[i] = c;
                    made += 1;
                } else {
                    let ch = b.chain(i);
                    let mut id = None;
                    'f: for &j in &ch {
                        for q in b.nb(j) {
                            for x in g.get_connected_groups_idx(b.rc(q)) {
                                if g.chain_stones(x).take(400).any(|s| s.coord == p) {
                                    id = Some(x);
                                    break 'f;
                                }
                            }
                        }
                    }
                    if let Some(x) = id {
                        g.remove_chain(x);
                        for j in ch {
                            b.c[j] = E;
                        }
                        st.inc("groups removed");
                    }
                }
                if k % 997 == 0 || (made > 65500 && made < 65570) {
                    check_groups(&g, &b, &mut Stats::default()).map_err(|m| format!("after {made} stones: {m}"))?;
                    let f = build(&b, 0);
                    ensure!(f == g && f.zobrist_hash() == g.zobrist_hash() && norm_groups(&f) == norm_groups(&g), "after {made} stones the board differs from a new one with the same stones");
                    st.states += 1;
                    st.inc("comparisons with a new board");
                }
            }
            st.max_depth = st.max_depth.max(k);
            st.add("stones placed", made as u64);
            st.traces += 1;
            Ok(())
        });
    });
    if !ok {
        return;
    }
    // as many groups as fit, taken off and put back in changing orders, until any small table must have run out
    let items: Vec<(usize, usize)> = vec![(0, 1), (1, 100), (2, 7), (3, 191)];
    if !par_each(&items, st, |&(kind, step), st| {
        case(|| format!("276 groups on a 19x19 board taken off and put back in steps of {step}"), st, |st| {
            let mut b = RB::new(19, 19);
            for i in 0..361 {
                if (i % 19 + 2 * (i / 19)) % 5 != 0 {
                    b.c[i] = 1 + ((i % 19 + i / 19 + kind) % 2) as u8;
                }
            }
            for i in 0..361 {
                if b.c[i] != E && b.libs(&[i]).is_empty() {
                    b.c[i] = E;
                }
            }
            let pts: Vec<usize> = (0..361).map(|k| k * step % 361).filter(|&i| b.c[i] != E).collect();
            let mut g = build(&b, kind % 2);
            for round in 0..if t { 12_000 } else { 4_000 } {
                // all of them, or those in every other place
                let some: Vec<usize> = pts.iter().copied().filter(|i| round % 3 != 2 || i % 2 == kind % 2).collect();
                let mut ids = vec![];
                for &i in &some {
                    let mut id = None;
                    'f: for q in b.nb(i) {
                        for x in g.get_connected_groups_idx(b.rc(q)) {
                            if g.chain_stones(x).next().map(|s| s.coord) == Some(b.rc(i)) {
                                id = Some(x);
                                break 'f;
                            }
                        }
                    }
                    ids.push(id.ok_or(format!("round {round}: the group on {:?} is not found next to its neighbours", b.rc(i)))?);
                }
                for x in ids {
                    g.remove_chain(x);
                }
                for &i in &some {
                    g.push(b.rc(i), col(b.c[i]));
                    st.transitions += 1;
                }
                if round % 200 == 0 {
                    check_groups(&g, &b, &mut Stats::default()).map_err(|m| format!("after {round} rounds: {m}"))?;
                    ensure!(g == build(&b, 0) && g.zobrist_hash() == build(&b, 0).zobrist_hash(), "after {round} rounds the board differs from a new one with the same stones");
                    st.states += 1;
                    st.inc("comparisons with a new board");
                }
            }
            st.inc("full tables of groups rebuilt");
            Ok(())
        });
    }) {
        return;
    }
    // 2. games: all plays legal, the move is the k-th legal one; no superko so that games never end
    #[derive(Clone, Debug)]
    struct G {
        size: (usize, usize),
        ill: u32,
        pick: usize,
        plays: usize,
    }
    let mut games = vec![];
    for (size, ill, pick, plays) in [
        ((2usize, 2usize), KO | SUI, 0, 70_000usize),
        ((2, 3), KO | SUI, 1, 70_000),
        ((3, 3), 0, 2, 70_000),
        ((1, 2), 0, 0, 70_000),
        ((1, 4), KO, 1, 70_000),
        ((5, 4), KO | SUI, 2, 60_000),
        ((9, 9), KO | SUI, 1, 8_000),
        ((19, 19), 0, 2, 3_000),
    ] {
        games.push(G { size, ill, pick, plays: if t { plays * 2 } else { plays } });
    }
    par_each(&games, st, |l, st| {
        case(|| format!("long game {l:?}"), st, |st| {
            let (h, w) = l.size;
            let mut s = Scn::new("long", h, w);
            s.ill = l.ill;
            let (mut g, mut r) = s.start();
            for k in 0..l.plays {
                r.hist.clear();
                let cand: Vec<usize> = (0..h * w).filter(|&i| r.legal(i)).collect();
                let op = if cand.is_empty() {
                    Op::Pass
                } else {
                    let i = match l.pick {
                        0 => cand[0],
                        1 => cand[(k * 5 + k / 7) % cand.len()],
                        _ => cand[(k * k + k / 3) % cand.len()],
                    };
                    Op::Play(r.b.rc(i).0, r.b.rc(i).1)
                };
                if r.passes >= 2 {
                    apply(&mut g, Op::Resume);
                    r = r.apply(Op::Resume);
                }
                if let Op::Play(y, z) = op {
                    ensure!(g.check_point((y, z)).is_none(), "play {k}: ({y},{z}) is refused: {:?}", g.check_point((y, z)));
                }
                apply(&mut g, op);
                r = r.apply(op);
                st.transitions += 1;
                if k % 499 == 0 || (65500..65570).contains(&k) && h * w < 10 {
                    same_board(g.goban(), &r.b).map_err(|m| format!("after {k} plays: {m}"))?;
                    check_groups(g.goban(), &r.b, &mut Stats::default()).map_err(|m| format!("after {k} plays: {m}"))?;
                    let l = idx_set("legals()", h, w, g.legals())?;
                    let want: Vec<usize> = (0..h * w).filter(|&i| r.legal(i)).collect();
                    same_set(&format!("legal moves after {k} plays"), w, &l, &want)?;
                    ensure!(g.prisoners() == r.pris, "after {k} plays prisoners are {:?}, should be {:?}", g.prisoners(), r.pris);
                    let f = build(&r.b, 1);
                    ensure!(f == *g.goban() && f.zobrist_hash() == g.zobrist_hash() && norm_groups(&f) == norm_groups(g.goban()), "after {k} plays the board differs from a new one");
                    st.states += 1;
                    st.inc("comparisons of long games");
                }
            }
            st.traces += 1;
            st.max_depth = st.max_depth.max(l.plays);
            Ok(())
        });
    });
    if stopped() {
        return;
    }
    // games that came through the same position up to 300 times, boards filled and emptied, everything about them
    let mut gens = aged(&[KO | SUI, 0, KO], OP_PASS | OP_RESUME, if t { 4 } else { 3 });
    gens.extend(lines(&[KO | SUI, 0], OP_PASS | OP_RESUME));
    gens.extend(far(&[KO | SUI], 1, 0));
    gens.extend(filled(&[(19, 19), (5, 5), (2, 2), (1, 7), (16, 16), (17, 16)], &[KO | SUI, 0], 2));
    if !run_gens(&gens, &Full, st) {
        return;
    }
    // 3. short exploration from a board that already had a long life, against a new board
    let sizes = [(2usize, 3usize), (3, 3), (5, 5)];
    par_each(&sizes, st, |&(h, w), st| {
        case(|| format!("aged board {h}x{w} against a new one"), st, |st| {
            let mut old = Goban::new((h as u8, w as u8));
            for k in 0..70_000usize {
                let p = (0, (k % 2) as u8);
                old.push(p, col(if k % 3 == 0 { B } else { W }));
                let x = old.get_connected_groups_idx((1u8, p.1))[0];
                old.remove_chain(x);
            }
            st.transitions += 140_000;
            let mut stack = vec![(old, Goban::new((h as u8, w as u8)), RB::new(h, w), 0)];
            while let Some((a, n, b, d)) = stack.pop() {
                ensure!(a == n && norm_groups(&a) == norm_groups(&n) && a.zobrist_hash() == n.zobrist_hash(), "the aged board {} differs from a new one", b.show());
                check_groups(&a, &b, &mut Stats::default())?;
                st.states += 1;
                st.inc("comparisons with a new board");
                if d == 4 {
                    continue;
                }
                for i in (0..h * w).take(9) {
                    if b.c[i] == E {
                        for c in [B, W] {
                            let (mut a, mut n, mut b) = (a.clone(), n.clone(), b.clone());
                            a.push(b.rc(i), col(c));
                            n.push(b.rc(i), col(c));
                            b.c[i] = c;
                            st.transitions += 1;
                            if h * w <= 6 || d < 2 {
                                stack.push((a, n, b, d + 1));
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    });
}
