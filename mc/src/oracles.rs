//! One oracle per property: what is compared between the real game and the reference model.
use crate::engine::*;
use crate::ensure;
use crate::refgo::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::{EndGame, IllegalRules, Move, PlayError, ScoreRules};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

pub type Pt = (u8, u8);
pub fn pts(b: &RB) -> impl Iterator<Item = (usize, Pt)> + '_ {
    (0..b.n()).map(move |i| (i, b.rc(i)))
}
/// the board read point by point
pub fn rb_of(g: &Goban, h: usize, w: usize) -> RB {
    let mut b = RB::new(h, w);
    for i in 0..h * w {
        b.c[i] = uncol(g.get_color(b.rc(i)));
    }
    b
}
pub fn diff(b: &RB, e: &RB) -> String {
    format!("is {} but should be {}", b.show(), e.show())
}
pub fn same_board(g: &Goban, r: &RB) -> Res {
    ensure!(g.size() == (r.h as u8, r.w as u8), "size is {:?} but should be {:?}", g.size(), (r.h, r.w));
    let b = rb_of(g, r.h, r.w);
    ensure!(b == *r, "the board {}", diff(&b, r));
    Ok(())
}
fn show_pts(w: usize, v: &[usize]) -> String {
    v.iter().map(|i| format!("({},{})", i / w, i % w)).collect::<Vec<_>>().join(" ")
}
/// coordinates to sorted indices; an error when one is outside or (unless `dups`) repeated
pub fn idx_set(what: &str, h: usize, w: usize, it: impl Iterator<Item = Pt>) -> Result<Vec<usize>, String> {
    let mut v = vec![];
    for (r, c) in it.take(4 * h * w + 8) {
        ensure!((r as usize) < h && (c as usize) < w, "{what} contains ({r},{c}), outside the {h}x{w} board");
        v.push(r as usize * w + c as usize);
    }
    v.sort_unstable();
    let n = v.len();
    v.dedup();
    ensure!(v.len() == n, "{what} contains a point twice");
    Ok(v)
}
pub fn same_set(what: &str, w: usize, got: &[usize], want: &[usize]) -> Res {
    ensure!(got == want, "{what}: is [{}] but should be [{}]", show_pts(w, got), show_pts(w, want));
    Ok(())
}
pub fn stone(p: Pt, c: u8) -> Stone {
    Stone { coord: p, color: col(c) }
}

/// the groups, independent of the order in which they are stored
pub fn norm_groups(g: &Goban) -> Vec<(u8, u16, Vec<usize>)> {
    let mut v: Vec<_> = g.chains().take(2000).map(|c| (c.color as u8, c.num_stones, c.liberties())).collect();
    v.sort();
    v
}

/// everything a user can observe about a game, as text
pub fn digest(g: &Game) -> String {
    let (h, w) = g.size();
    let b = rb_of(g, h as usize, w as usize);
    let mut l: Vec<Pt> = g.legals().take(1000).collect();
    l.sort_unstable();
    let mut hist = vec![];
    for x in past(g, 100000) {
        let b = rb_of(x, x.size().0 as usize, x.size().1 as usize);
        hist.push(format!("{}:{:x}", b.show(), x.zobrist_hash()));
    }
    format!(
        "size {:?}\nturn {:?}\nkomi {:?}\nprisoners {:?}\nover {}\noutcome {:?}\nboard {}\nhash {:x}\nstones {:?}\ngroups {:?}\nlegals {:?}\nscore {:?}\nhistory {:?}\n",
        g.size(),
        g.turn(),
        g.komi(),
        g.prisoners(),
        g.is_over(),
        g.outcome(),
        b.show(),
        g.zobrist_hash(),
        g.number_of_stones(),
        norm_groups(g),
        l,
        g.calculate_score(),
        hist
    )
}
pub fn same_digest(what: &str, a: &str, b: &str) -> Res {
    if a == b {
        return Ok(());
    }
    let mut m = format!("{what}: ");
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            m += &format!("[{x}] versus [{y}] ");
        }
    }
    Err(m)
}

fn occur_move(r0: &RG, op: Op, st: &mut Stats) {
    if let Op::Play(y, x) = op {
        let p = r0.b.place(y as usize * r0.b.w + x as usize, r0.turn);
        match p.groups {
            0 => st.inc("plays without capture"),
            1 => st.inc("captures of 1 group"),
            2 => st.inc("captures of 2 groups"),
            3 => st.inc("captures of 3 groups"),
            _ => st.inc("captures of 4 groups"),
        }
        if p.captured.len() > 255 {
            st.inc("captures of more than 255 stones");
        }
        match p.own.len() {
            0 => {}
            1 => st.inc("suicides of 1 stone"),
            _ => st.inc("suicides of several stones"),
        }
    } else {
        st.inc(&format!("{op:?}"));
    }
}

// ------------------------------------------------------------------------------------------- C01
pub struct C01;
impl Oracle for C01 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        if r.resigned.is_some() {
            return Ok(());
        }
        let w = s.w;
        let verdicts: Vec<u32> = (0..r.b.n()).map(|i| r.verdict(i)).collect();
        let legals = idx_set("legals()", s.h, w, g.legals())?;
        let want: Vec<usize> = (0..r.b.n()).filter(|&i| verdicts[i] & (s.ill | OCC) == 0).collect();
        same_set("legals()", w, &legals, &want)?;
        st.add("legal points", want.len() as u64);
        for m in [0, KO, SUI, KO | SUI] {
            if m == s.ill {
                continue;
            }
            let l = idx_set("legals_by()", s.h, w, g.legals_by(flags(m)))?;
            let want: Vec<usize> = (0..r.b.n()).filter(|&i| verdicts[i] & (m | OCC) == 0).collect();
            same_set(&format!("legals_by({:?})", flags(m)), w, &l, &want)?;
        }
        for (i, p) in pts(&r.b) {
            let v = verdicts[i];
            let ok = v & (s.ill | OCC) == 0;
            let c = g.check_point(p);
            ensure!(c.is_none() == ok, "check_point{p:?} says {c:?} but the move is {}", if ok { "legal" } else { "illegal" });
            match c {
                None => {}
                Some(PlayError::PointNotEmpty) => {
                    st.inc("refused: occupied");
                    ensure!(v & OCC != 0, "check_point{p:?}: not empty, but the point is empty")
                }
                Some(PlayError::Suicide) => {
                    st.inc("refused: suicide");
                    ensure!(v & SUI & s.ill != 0, "check_point{p:?}: suicide, but it is not a (forbidden) suicide")
                }
                Some(PlayError::Ko) => {
                    st.inc("refused: ko");
                    ensure!(v & (KO | SUPER) & s.ill != 0, "check_point{p:?}: ko, but it repeats nothing (or ko is allowed)")
                }
                Some(x) => return Err(format!("check_point{p:?} refuses with {x:?}, which does not apply")),
            }
            // attempting: every illegal point; the legal ones when the board is small
            if !ok || s.h * s.w <= 16 {
                let mut g1 = g.clone();
                let res = g1.try_play(Move::Play(p.0, p.1)).map(|_| ()).err();
                let c = if r.passes >= 2 { Some(PlayError::GamePaused) } else { c };
                ensure!(res == c, "attempting {p:?} gives {res:?} but checking it gives {c:?}");
                if res.is_some() {
                    ensure!(g1.turn() == g.turn(), "the refused move {p:?} changed the turn");
                } else {
                    ensure!(g1.get_color(p) == Some(col(r.turn)) || v & SUI != 0, "the accepted move {p:?} was not made");
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C02
pub struct C02;
impl Oracle for C02 {
    fn state(&self, _s: &Scn, g: &Game, r: &RG, _st: &mut Stats) -> Res {
        same_board(g.goban(), &r.b)?;
        ensure!(g.turn() == col(r.turn), "{:?} is to move, should be {:?}", g.turn(), col(r.turn));
        Ok(())
    }
    fn edge(&self, _s: &Scn, g0: &Game, r0: &RG, op: Op, g1: &Game, r1: &RG, st: &mut Stats) -> Res {
        occur_move(r0, op, st);
        same_board(g1.goban(), &r1.b)?;
        ensure!(g1.turn() == col(r1.turn), "after {op:?} {:?} is to move, should be {:?}", g1.turn(), col(r1.turn));
        if let Op::Resume = op {
            return Ok(());
        }
        let mut g2 = g0.clone();
        let ok = g2.try_play(mv(op)).is_ok();
        ensure!(ok, "try_play refuses the legal {op:?}");
        same_board(g2.goban(), &r1.b)?;
        ensure!(g2.turn() == col(r1.turn), "after try_play {op:?} {:?} is to move", g2.turn());
        ensure!(g2.goban() == g1.goban(), "try_play and play give boards that differ");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C03
pub struct C03;
impl Oracle for C03 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        if r.resigned.is_some() {
            return Ok(());
        }
        let sup = s.ill & SUPER != 0;
        for (i, p) in pts(&r.b) {
            let v = r.verdict(i);
            if v & OCC != 0 {
                continue;
            }
            let ok = v & s.ill == 0;
            let c = g.check_point(p);
            if v & SUPER != 0 {
                st.inc("repetitions refused");
                if v & KO == 0 {
                    st.inc("repetitions other than simple ko");
                }
                if v & SUI != 0 {
                    st.inc("repetitions by suicide");
                }
                let q = r.b.place(i, r.turn);
                if q.captured.is_empty() && q.own.is_empty() {
                    st.inc("repetitions without capture");
                }
                if *r.b == q.after {
                    st.inc("repetitions of the current position");
                }
                if r.hist.first().map(|x| **x == q.after).unwrap_or(false) {
                    st.inc("repetitions of the starting position");
                }
            } else {
                st.inc("new positions accepted");
            }
            let why = if v & SUPER != 0 { "it repeats a position" } else { "it repeats nothing" };
            ensure!(c.is_none() == ok, "check_point{p:?} says {c:?} but the move should be {} ({why}, verdict {v})", if ok { "legal" } else { "refused" });
            match c {
                Some(PlayError::Ko) => ensure!(v & s.ill & (KO | SUPER) != 0, "check_point{p:?} says Ko although it repeats nothing"),
                Some(PlayError::Suicide) => ensure!(v & s.ill & SUI != 0, "check_point{p:?} says Suicide although it is none (or suicide is allowed)"),
                Some(x) => return Err(format!("check_point{p:?} refuses with {x:?}, which does not apply")),
                None => (),
            }
            // suicides that the rule forbids are not simulated by the library
            if sup && !(v & SUI != 0 && s.ill & SUI != 0) {
                let q = g.check_super_ko(stone(p, r.turn));
                ensure!(q == (v & SUPER != 0), "check_super_ko{p:?} = {q} but {why}");
            }
            // the same question under rules other than the game's
            let v = r.verdict_with(i, true);
            if !(v & SUI != 0 && s.ill & SUI != 0) {
                let own = [SUPER, SUPER | KO | SUI];
                for m in if r.b.n() <= 9 { &[0, KO, SUI, SUPER, KO | SUI, SUPER | KO, SUPER | SUI, SUPER | KO | SUI][..] } else { &own[..] } {
                    let c = g.check_point_by(p, flags(*m));
                    ensure!(c.is_none() == (v & m == 0), "check_point_by({p:?}, {:?}) says {c:?} in a game under {:?}, verdict {v}", flags(*m), flags(s.ill));
                    let real = match c {
                        None => true,
                        Some(PlayError::Ko) => v & m & (KO | SUPER) != 0,
                        Some(PlayError::Suicide) => v & m & SUI != 0,
                        Some(_) => false,
                    };
                    ensure!(real, "check_point_by({p:?}, {:?}) refuses with {c:?}, which does not apply, verdict {v}", flags(*m));
                    st.inc("verdicts under other rules");
                }
            }
            let mut g1 = g.clone();
            let t = g1.try_play(Move::Play(p.0, p.1)).map(|_| ()).err();
            let c = if r.passes >= 2 { Some(PlayError::GamePaused) } else { c };
            ensure!(t == c, "try_play{p:?} gives {t:?}, check_point gives {c:?}");
        }
        let l = idx_set("legals()", s.h, s.w, g.legals())?;
        let want: Vec<usize> = (0..r.b.n()).filter(|&i| r.legal(i)).collect();
        same_set("legals()", s.w, &l, &want)
    }
}

// ------------------------------------------------------------------------------------------- C04
pub struct C04;
impl Oracle for C04 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        if r.resigned.is_some() {
            return Ok(());
        }
        let mut not_ko = vec![];
        let kp = r.ko_point();
        for (i, p) in pts(&r.b) {
            if r.b.c[i] != E {
                continue;
            }
            let ko = kp == Some(i);
            let k = g.check_ko(stone(p, r.turn));
            ensure!(k == ko, "check_ko{p:?} = {k} but the move {}", if ko { "takes the ko back at once" } else { "is no immediate ko recapture" });
            if s.ill & KO != 0 && ko {
                let c = g.check_point(p);
                ensure!(c.is_some(), "the ko recapture {p:?} is accepted");
                ensure!(g.clone().try_play(Move::Play(p.0, p.1)).is_err(), "the ko recapture {p:?} is played");
            }
            if !ko {
                let c = g.check_point(p);
                ensure!(c != Some(PlayError::Ko), "{p:?} is refused as ko but takes no ko back");
                not_ko.push(i);
            }
        }
        if kp.is_some() {
            st.inc("ko bans");
        } else {
            st.inc("states without ko");
        }
        if let (Some(prev), None) = (&r.prev, kp) {
            let gone = (0..r.b.n()).filter(|&i| prev.c[i] == r.turn && r.b.c[i] == E).count();
            match gone {
                0 => {}
                1 => st.inc("single captures that are no ko"),
                _ => st.inc("multiple captures that are no ko"),
            }
        }
        let l = idx_set("legals_by(KO)", s.h, s.w, g.legals_by(IllegalRules::KO))?;
        same_set("legals_by(KO)", s.w, &l, &not_ko)
    }
}

// ------------------------------------------------------------------------------------------- C05
pub fn check_groups(g: &Goban, b: &RB, st: &mut Stats) -> Res {
    let (h, w) = (b.h, b.w);
    same_board(g, b)?;
    let groups = b.groups();
    let mut want: Vec<(u8, u16, Vec<usize>)> = groups.iter().map(|x| (x.color, x.stones.len() as u16, x.libs.clone())).collect();
    want.sort();
    let got = norm_groups(g);
    ensure!(got == want, "groups (colour, stones, liberties) are {got:?} but should be {want:?}");
    for c in g.chains() {
        let l = c.liberties();
        ensure!(c.number_of_liberties() == l.len() && c.is_dead() == l.is_empty() && c.is_atari() == (l.len() == 1), "the liberty count of a group disagrees with its liberties {l:?}");
        for i in 0..h * w {
            ensure!(c.contains_liberty(i) == l.contains(&i), "contains_liberty({i}) disagrees with the liberties {l:?}");
        }
    }
    let mut own = vec![usize::MAX; b.n()];
    for (k, x) in groups.iter().enumerate() {
        for &i in &x.stones {
            own[i] = k;
        }
    }
    // group handles
    let mut handle: HashMap<usize, usize> = HashMap::new();
    let mut back: HashMap<usize, usize> = HashMap::new();
    for (i, p) in pts(b) {
        let hs: Vec<usize> = g.get_connected_groups_idx(p).into_iter().collect();
        let hs2: Vec<usize> = g.get_connected_groups_idx(i).into_iter().collect();
        ensure!(hs == hs2, "groups adjacent to {p:?} by coordinate {hs:?} and by index {hs2:?} differ");
        let mut adj: Vec<usize> = b.nb(i).iter().filter(|&&j| b.c[j] != E).map(|&j| own[j]).collect();
        adj.sort_unstable();
        adj.dedup();
        ensure!(hs.len() == adj.len(), "{} groups are adjacent to {p:?} but {} are reported", adj.len(), hs.len());
        let mut got_adj = vec![];
        for x in hs {
            let k = match back.get(&x) {
                Some(&k) => k,
                None => {
                    // resolve the handle by the stones it lists
                    let ss: Vec<Stone> = g.chain_stones(x).take(1000).collect();
                    ensure!(!ss.is_empty(), "group {x} lists no stone");
                    let v = idx_set("chain_stones", h, w, ss.iter().map(|s| s.coord))?;
                    let k = own[v[0]];
                    ensure!(k != usize::MAX, "group {x} lists the empty point {:?}", b.rc(v[0]));
                    same_set(&format!("stones of the group at {:?}", b.rc(v[0])), w, &v, &groups[k].stones)?;
                    ensure!(ss.iter().all(|s| s.color == col(groups[k].color)), "a group lists stones of both colours");
                    if let Some(o) = handle.insert(k, x) {
                        return Err(format!("the group at {:?} has two handles, {o} and {x}", b.rc(v[0])));
                    }
                    back.insert(x, k);
                    k
                }
            };
            got_adj.push(k);
        }
        got_adj.sort_unstable();
        ensure!(got_adj == adj, "the groups adjacent to {p:?} are not the ones reported");
        // neighbourhood
        let conn: Vec<(usize, u8)> = {
            let mut v = vec![];
            for q in g.get_connected_points(p).take(9) {
                ensure!((q.coord.0 as usize) < h && (q.coord.1 as usize) < w, "neighbour {:?} of {p:?} is off the board", q.coord);
                v.push((q.coord.0 as usize * w + q.coord.1 as usize, uncol(q.color)));
            }
            v.sort_unstable();
            v
        };
        let mut wc: Vec<(usize, u8)> = b.nb(i).iter().map(|&j| (j, b.c[j])).collect();
        wc.sort_unstable();
        ensure!(conn == wc, "get_connected_points{p:?} is {conn:?} but should be {wc:?}");
        for (name, it) in [("coordinate", g.get_connected_stones(p).take(9).collect::<Vec<_>>()), ("index", g.get_connected_stones(i).take(9).collect::<Vec<_>>())] {
            let mut cs: Vec<(usize, u8)> = it.iter().map(|s| (s.coord.0 as usize * w + s.coord.1 as usize, uncol(Some(s.color)))).collect();
            cs.sort_unstable();
            let ws: Vec<(usize, u8)> = wc.iter().copied().filter(|x| x.1 != E).collect();
            ensure!(cs == ws, "get_connected_stones by {name} {p:?} is {cs:?} but should be {ws:?}");
        }
        let l = idx_set("get_liberties", h, w, g.get_liberties(p))?;
        let mut wl: Vec<usize> = b.nb(i).into_iter().filter(|&j| b.c[j] == E).collect();
        wl.sort_unstable();
        same_set(&format!("get_liberties{p:?}"), w, &l, &wl)?;
        ensure!(g.has_liberties(p) == !wl.is_empty(), "has_liberties{p:?} is {}", g.has_liberties(p));
        ensure!(uncol(g.get_color(i)) == b.c[i], "get_color by index {i} disagrees with the board");
        if b.c[i] != E {
            let v = idx_set("chain_stones(coordinate)", h, w, g.chain_stones(p).take(1000).map(|s| s.coord))?;
            same_set(&format!("chain_stones{p:?}"), w, &v, &groups[own[i]].stones)?;
        }
    }
    ensure!(g.number_of_stones() == (b.count(B), b.count(W)), "number_of_stones is {:?} but should be {:?}", g.number_of_stones(), (b.count(B), b.count(W)));
    st.add("groups compared", groups.len() as u64);
    st.add("groups of several stones", groups.iter().filter(|x| x.stones.len() > 1).count() as u64);
    // flood fill queries
    if b.n() <= 30 {
        for (i, p) in pts(b) {
            let q = goban::pieces::stones::Point { coord: p, color: g.get_color(p) };
            let v = idx_set("get_group_from_point", h, w, g.get_group_from_point(q).into_iter().map(|x| x.coord))?;
            same_set(&format!("get_group_from_point{p:?}"), w, &v, &b.chain(i))?;
        }
        for c in [E, B, W] {
            let src: Vec<goban::pieces::stones::Point> = pts(b).filter(|x| b.c[x.0] == c).map(|x| goban::pieces::stones::Point { coord: x.1, color: g.get_color(x.1) }).collect();
            let mut got = vec![];
            for set in g.get_chains_from_stones(src.into_iter()) {
                got.push(idx_set("get_chains_from_stones", h, w, set.into_iter().map(|x| x.coord))?);
            }
            got.sort();
            let mut want: Vec<Vec<usize>> = (0..b.n()).filter(|&i| b.c[i] == c).map(|i| b.chain(i)).collect();
            want.sort();
            want.dedup();
            ensure!(got == want, "get_chains_from_stones gives {got:?} but should give {want:?}");
        }
    }
    Ok(())
}
/// the internal layout of the groups as far as it shows: order of groups and of stones in a group
pub fn layout_key(g: &Goban, k: &mut Vec<u8>) {
    let (h, w) = g.size();
    let mut seen = std::collections::BTreeMap::new();
    for i in 0..h as usize * w as usize {
        for x in g.get_connected_groups_idx(i) {
            seen.entry(x).or_insert(());
        }
    }
    for (x, _) in seen {
        k.push(200);
        k.push(x as u8);
        for s in g.chain_stones(x).take(64) {
            k.push((s.coord.0 as usize * w as usize + s.coord.1 as usize) as u8);
        }
    }
}
pub struct C05 {
    pub layout: bool,
}
impl Oracle for C05 {
    fn state(&self, _s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        check_groups(g.goban(), &r.b, st)
    }
    fn key(&self, g: &Game, k: &mut Vec<u8>) {
        if self.layout {
            layout_key(g.goban(), k)
        }
    }
}

// ------------------------------------------------------------------------------------------- C06
pub fn std_hash(g: &Goban) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    g.hash(&mut h);
    h.finish()
}
pub fn build(b: &RB, order: usize) -> Goban {
    let mut g = Goban::new((b.h as u8, b.w as u8));
    let mut v: Vec<usize> = (0..b.n()).filter(|&i| b.c[i] != E).collect();
    match order {
        0 => {}
        1 => v.reverse(),
        2 => v.sort_by_key(|&i| (i % b.w, i / b.w)),
        3 => v.sort_by_key(|&i| (b.c[i], i % 2, i)),
        _ => v.sort_by_key(|&i| (i * 7919) % 361),
    }
    for i in v {
        g.push(b.rc(i), col(b.c[i]));
    }
    g
}
#[derive(Default)]
pub struct C06 {
    /// (size, hash) -> position, and back
    pub seen: Mutex<HashMap<(usize, usize, u64), Vec<u8>>>,
    pub back: Mutex<HashMap<(usize, usize, Vec<u8>), u64>>,
}
impl C06 {
    pub fn note(&self, z: u64, b: &RB) -> Res {
        let e = self.seen.lock().unwrap().entry((b.h, b.w, z)).or_insert_with(|| b.c.clone()).clone();
        ensure!(e == b.c, "two positions have the same hash {z:x}: {} and {}", b.show(), RB { h: b.h, w: b.w, c: e }.show());
        let f = *self.back.lock().unwrap().entry((b.h, b.w, b.c.clone())).or_insert(z);
        ensure!(f == z, "the position {} has two hashes, {f:x} and {z:x}", b.show());
        Ok(())
    }
}
impl Oracle for C06 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        same_board(g.goban(), &r.b)?;
        let z = g.zobrist_hash();
        if s.h * s.w <= 20 {
            self.note(z, &r.b)?;
        }
        for order in 0..3 {
            let f = build(&r.b, order);
            ensure!(f == *g.goban() && *g.goban() == f, "the board differs from one built with the same stones (order {order})");
            ensure!(f.zobrist_hash() == z && std_hash(&f) == std_hash(g.goban()), "equal boards have different hashes");
            st.inc("rebuilt boards equal");
        }
        Ok(())
    }
    fn edge(&self, _s: &Scn, g0: &Game, r0: &RG, _op: Op, g1: &Game, r1: &RG, st: &mut Stats) -> Res {
        let eq = *r0.b == *r1.b;
        ensure!((g0.goban() == g1.goban()) == eq, "equality says {} for {} and {}", !eq, r0.b.show(), r1.b.show());
        if eq {
            st.inc("unchanged boards equal");
        } else {
            st.inc("changed boards differ");
            ensure!(g0.zobrist_hash() != g1.zobrist_hash(), "the hash did not change with the position: {} -> {}", r0.b.show(), r1.b.show());
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C07
pub struct C07;
impl Oracle for C07 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let (h, w) = (s.h, s.w);
        let (tb, tw) = r.b.territories();
        let (ib, iw) = g.get_territories();
        let vb: Vec<_> = ib.take(2000).collect();
        let vw: Vec<_> = iw.take(2000).collect();
        ensure!(vb.iter().chain(&vw).all(|p| p.color.is_none()), "territory contains a stone");
        same_set("black territory", w, &idx_set("black territory", h, w, vb.into_iter().map(|p| p.coord))?, &tb)?;
        same_set("white territory", w, &idx_set("white territory", h, w, vw.into_iter().map(|p| p.coord))?, &tw)?;
        ensure!(g.calculate_territories() == (tb.len(), tw.len()), "territory counts are {:?} but should be {:?}", g.calculate_territories(), (tb.len(), tw.len()));
        let mut g2 = g.clone();
        let d = score(r, &tb, &tw, s.sco & !2, 0.0);
        // the scenario's komi, the one that makes a draw and those that just do not
        let small = r.b.n() <= 16;
        for (nk, komi) in [s.komi, d.0 - d.1, d.0 - d.1 - 0.015625, d.0 - d.1 + 0.0078125, d.0 - d.1 - 0.5, 12.75, 0.0, 0.5, -3.0, 7.0, 3.75, -1000.125].into_iter().take(if small { 12 } else { 4 }).enumerate() {
            g2.set_komi(komi);
            ensure!(g2.komi() == komi, "komi is {} after set_komi({komi})", g2.komi());
            for f in (0..8u32).filter(|f| small || nk == 0 || (nk == 1 && *f == 7)) {
                let want = score(r, &tb, &tw, f, komi);
                let got = g2.calculate_score_by(ScoreRules::from_bits_truncate(f));
                ensure!(got == want, "score with flags {:?} and komi {komi} is {got:?} but should be {want:?}", ScoreRules::from_bits_truncate(f));
            }
            let want = score(r, &tb, &tw, s.sco, komi);
            let got = g2.calculate_score();
            ensure!(got == want, "score is {got:?} but should be {want:?}");
            let o = g2.outcome();
            if r.resigned.is_some() || s.recorded() {
                continue;
            }
            if r.passes >= 2 {
                let e = if want.0 == want.1 {
                    st.inc("draws");
                    EndGame::Draw
                } else if want.0 > want.1 {
                    st.inc("black wins");
                    EndGame::WinnerByScore(Color::Black, want.0 - want.1)
                } else {
                    st.inc("white wins");
                    EndGame::WinnerByScore(Color::White, want.1 - want.0)
                };
                ensure!(o == Some(e), "the outcome is {o:?} but should be {e:?}");
                let win = e.get_winner();
                let ew = if want.0 == want.1 { None } else { Some(if want.0 > want.1 { Color::Black } else { Color::White }) };
                ensure!(win == ew, "the winner of {e:?} is {win:?}");
            } else {
                ensure!(o.is_none(), "an unfinished game has the outcome {o:?}");
            }
        }
        // a recorded outcome does not touch the score
        if r.resigned.is_none() {
            let mut g3 = g.clone();
            g3.play(Move::Resign(col(r.turn)));
            for f in [s.sco, 7, 5] {
                let (got, want) = (g3.calculate_score_by(ScoreRules::from_bits_truncate(f)), score(r, &tb, &tw, f, s.komi));
                ensure!(got == want, "after a resignation the score is {got:?} but should be {want:?}");
            }
            let (got, want) = (g3.calculate_score(), score(r, &tb, &tw, s.sco, s.komi));
            ensure!(got == want, "after a resignation the score is {got:?} but should be {want:?}");
            ensure!(g3.calculate_territories() == (tb.len(), tw.len()), "a resignation changed the territories");
        }
        st.inc(match (tb.is_empty(), tw.is_empty()) {
            (true, true) => "positions without territory",
            (false, true) | (true, false) => "positions with one-sided territory",
            _ => "positions with both territories",
        });
        if r.pris != (0, 0) {
            st.inc("positions with prisoners");
        }
        Ok(())
    }
}
pub fn score(r: &RG, tb: &[usize], tw: &[usize], f: u32, komi: f32) -> (f32, f32) {
    let (mut b, mut w) = (tb.len() as f64, tw.len() as f64);
    if f & 1 != 0 {
        b += r.b.count(B) as f64;
        w += r.b.count(W) as f64;
    }
    if f & 4 != 0 {
        b += r.pris.0 as f64;
        w += r.pris.1 as f64;
    }
    if f & 2 != 0 {
        w += komi as f64;
    }
    (b as f32, w as f32)
}

// ------------------------------------------------------------------------------------------- C08
pub struct C08;
impl Oracle for C08 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let over = r.over() || s.recorded();
        ensure!(g.is_over() == over, "is_over() is {} after {} passes in a row, resignation {:?}", g.is_over(), r.passes, r.resigned);
        let o = g.outcome();
        if let Some(c) = r.resigned {
            st.inc("resigned states");
            ensure!(o == Some(EndGame::WinnerByResign(col(c))), "the outcome {o:?} replaced the recorded one");
        } else if s.recorded() {
            st.inc("states with a recorded outcome");
            ensure!(o == Some(RECORDED), "the recorded outcome {RECORDED:?} is reported as {o:?}");
        } else if !over {
            st.inc("running states");
            ensure!(o.is_none(), "an unfinished game has the outcome {o:?}");
        } else {
            ensure!(o.is_some(), "a finished game has no outcome");
        }
        ensure!(g.turn() == col(r.turn), "{:?} to move, should be {:?}", g.turn(), col(r.turn));
        // on large boards: the window with its surroundings, the borders' corners and the middle
        let probe: Vec<usize> = if r.b.n() <= 36 { (0..r.b.n()).collect() } else { near(s, &r.b) };
        if r.passes >= 2 {
            st.inc("paused states");
            let before = digest(g);
            let mut all: Vec<Move> = probe.iter().map(|&i| Move::Play(r.b.rc(i).0, r.b.rc(i).1)).collect();
            all.extend([Move::Pass, Move::Resign(Color::Black), Move::Resign(Color::White)]);
            for m in all {
                let mut g1 = g.clone();
                let e = g1.try_play(m).map(|_| ()).err();
                ensure!(e == Some(PlayError::GamePaused), "{m:?} while paused gives {e:?}");
                same_digest(&format!("{m:?} while paused changed the game"), &before, &digest(&g1))?;
            }
        } else if r.resigned.is_none() {
            // resuming or not, the running game accepts exactly the legal moves, and passes
            let mut g1 = g.clone();
            ensure!(g1.try_play(Move::Pass).is_ok(), "a pass is refused in a running game");
            for &i in &probe {
                let p = r.b.rc(i);
                let mut g1 = g.clone();
                let e = g1.try_play(Move::Play(p.0, p.1)).map(|_| ()).err();
                // (which points are eyes is C16's question)
                let eye = r.ill & EYE != 0 && g.check_eye(stone(p, r.turn));
                ensure!(e.is_none() == (r.legal(i) && !eye), "{p:?} in a running game gives {e:?}");
                ensure!(e != Some(PlayError::GamePaused), "{p:?} is refused as paused in a running game");
            }
        }
        if s.ops & OP_RESUME != 0 {
            let mut g1 = g.clone();
            g1.resume();
            ensure!(g1.is_over() == (r.resigned.is_some() || s.recorded()), "after resume() is_over() is {}", g1.is_over());
            ensure!(g1.turn() == g.turn(), "resume() changed the turn");
        }
        Ok(())
    }
    fn edge(&self, s: &Scn, g0: &Game, r0: &RG, op: Op, g1: &Game, r1: &RG, st: &mut Stats) -> Res {
        st.inc(match op {
            Op::Play(..) => "plays",
            Op::Pass => "passes",
            Op::Resume => "resumptions",
            Op::Resign(_) => "resignations",
        });
        if matches!(op, Op::Pass | Op::Play(..)) {
            ensure!(g1.turn() != g0.turn(), "{op:?} did not hand over the turn");
        }
        if r0.resigned.is_some() {
            ensure!(g1.outcome() == g0.outcome(), "the recorded outcome changed with {op:?}: {:?} -> {:?}", g0.outcome(), g1.outcome());
        }
        ensure!(g1.is_over() == (r1.over() || s.recorded()), "after {op:?} is_over() is {}", g1.is_over());
        if let Op::Resume = op {
            same_board(g1.goban(), &r0.b)?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C10
pub fn check_views(g: &Goban, b: &RB) -> Res {
    let (h, w) = (b.h, b.w);
    same_board(g, b)?;
    let n = h * w;
    let mc = |i: usize| if b.c[i] == E { None } else { Some(col(b.c[i])) };
    let v = g.to_vec();
    ensure!(v.len() == n, "to_vec() has {} entries on a {h}x{w} board", v.len());
    for i in 0..n {
        ensure!(v[i] == mc(i), "to_vec()[{i}] is {:?} but the point {:?} is {:?}", v[i], b.rc(i), mc(i));
        ensure!(g.get_color(i) == mc(i), "get_color({i}) is {:?}, should be {:?}", g.get_color(i), mc(i));
    }
    let m = g.matrix();
    ensure!(m.len() == h && m.iter().all(|r| r.len() == w), "matrix() is {}x{:?} on a {h}x{w} board", m.len(), m.first().map(|r| r.len()));
    for (i, p) in pts(b) {
        ensure!(m[p.0 as usize][p.1 as usize] == mc(i), "matrix()[{}][{}] is {:?}, should be {:?}", p.0, p.1, m[p.0 as usize][p.1 as usize], mc(i));
    }
    let of = |c: u8| -> Vec<usize> { (0..n).filter(|&i| b.c[i] == c).collect() };
    let ss: Vec<Stone> = g.get_stones().take(2000).collect();
    let all: Vec<usize> = (0..n).filter(|&i| b.c[i] != E).collect();
    same_set("get_stones()", w, &idx_set("get_stones()", h, w, ss.iter().map(|s| s.coord))?, &all)?;
    ensure!(ss.iter().all(|s| uncol(Some(s.color)) == b.at(s.coord.0 as usize, s.coord.1 as usize)), "get_stones() gives a wrong colour");
    for c in [E, B, W] {
        let mcol = if c == E { None } else { Some(col(c)) };
        same_set(&format!("get_coords_by_color({mcol:?})"), w, &idx_set("get_coords_by_color", h, w, g.get_coords_by_color(mcol))?, &of(c))?;
        let ps: Vec<_> = g.get_stones_by_color(mcol).take(2000).collect();
        ensure!(ps.iter().all(|p| p.color == mcol), "get_stones_by_color({mcol:?}) gives another colour");
        same_set(&format!("get_stones_by_color({mcol:?})"), w, &idx_set("get_stones_by_color", h, w, ps.iter().map(|p| p.coord))?, &of(c))?;
    }
    same_set("get_empty_coords()", w, &idx_set("get_empty_coords()", h, w, g.get_empty_coords())?, &of(E))?;
    let mut ei: Vec<usize> = g.get_empty_idx().take(2000).collect();
    ei.sort_unstable();
    ensure!(ei == of(E), "get_empty_idx() is {ei:?} but should be {:?}", of(E));
    ensure!(g.number_of_stones() == (b.count(B), b.count(W)), "number_of_stones() is {:?} but should be {:?}", g.number_of_stones(), (b.count(B), b.count(W)));
    for (name, s) in [("pretty_string()", g.pretty_string()), ("Display", format!("{g}"))] {
        let lines: Vec<Vec<char>> = s.lines().map(|l| l.chars().collect()).collect();
        ensure!(lines.len() == h && lines.iter().all(|l| l.len() == w), "{name} is not {h} lines of {w} characters: {s:?}");
        // the symbols of the stones are not fixed: what is one colour must be one symbol of its own
        let mut map: HashMap<char, u8> = HashMap::new();
        for (i, p) in pts(b) {
            let ch = lines[p.0 as usize][p.1 as usize];
            if *map.entry(ch).or_insert(b.c[i]) != b.c[i] {
                return Err(format!("{name} prints different contents with the same symbol {ch:?} (at {p:?})"));
            }
            // on a board of two or more lines each way an empty point is drawn as the grid is there
            if b.c[i] == E && h > 1 && w > 1 {
                let side = |x: u8, n: usize| if x == 0 { 0 } else if x as usize == n - 1 { 2 } else { 1 };
                let grid = [['┏', '┯', '┓'], ['┠', '┼', '┨'], ['┗', '┷', '┛']][side(p.0, h)][side(p.1, w)];
                ensure!(ch == grid, "{name} draws the empty point {p:?} as {ch:?}, not {grid:?}");
            }
        }
        for c in [B, W] {
            ensure!(map.values().filter(|&&x| x == c).count() <= 1, "{name} prints one colour with two symbols");
            if let Some((ch, _)) = map.iter().find(|x| *x.1 == c) {
                ensure!(*ch == if c == B { '●' } else { '○' }, "{name} prints a {:?} stone as {ch:?}", col(c));
            }
        }
    }
    if h == w {
        let f = Goban::from(&v[..]);
        ensure!(f == *g && *g == f, "the board rebuilt from to_vec() differs: {}", rb_of(&f, f.size().0 as usize, f.size().1 as usize).show());
        ensure!(f.zobrist_hash() == g.zobrist_hash(), "the board rebuilt from to_vec() has another hash");
    }
    Ok(())
}
pub struct C10;
impl Oracle for C10 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        check_views(g.goban(), &r.b)?;
        let e: Vec<usize> = (0..r.b.n()).filter(|&i| r.b.c[i] == E).collect();
        same_set("pseudo_legals()", s.w, &idx_set("pseudo_legals()", s.h, s.w, g.pseudo_legals())?, &e)?;
        same_set("pseudo_legals_vec()", s.w, &idx_set("pseudo_legals_vec()", s.h, s.w, g.pseudo_legals_vec().into_iter())?, &e)?;
        ensure!(g.size() == (s.h as u8, s.w as u8), "Game::size() is {:?}", g.size());
        st.inc(if e.len() == r.b.n() {
            "empty boards"
        } else if s.h == s.w {
            "square boards with stones"
        } else {
            "rectangular boards with stones"
        });
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C16
pub fn eye_bounds(b: &RB, i: usize, c: u8) -> (bool, bool) {
    // (may be an eye, must be an eye)
    let nb = b.nb(i);
    if b.c[i] != E || nb.iter().any(|&j| b.c[j] != c) {
        return (false, false);
    }
    let (r, k) = (i / b.w, i % b.w);
    let (mut all, mut enemy, mut n) = (true, 0, 0);
    for (dr, dk) in [(-1i32, -1i32), (-1, 1), (1, -1), (1, 1)] {
        let (y, x) = (r as i32 + dr, k as i32 + dk);
        if y >= 0 && x >= 0 && (y as usize) < b.h && (x as usize) < b.w {
            n += 1;
            let v = b.at(y as usize, x as usize);
            all &= v == c;
            enemy += (v == other(c)) as usize;
        }
    }
    let never = enemy >= 2 || (n == 1 && enemy == 1);
    (!never, all)
}
pub struct C16;
impl Oracle for C16 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let mut eyes = vec![];
        for (i, p) in pts(&r.b) {
            for c in [B, W] {
                let e = g.check_eye(stone(p, c));
                let (may, must) = eye_bounds(&r.b, i, c);
                ensure!(!e || may, "{p:?} is reported as an eye of {:?}, but a neighbour is not {:?} or the diagonals are held by the opponent", col(c), col(c));
                ensure!(e || !must, "{p:?} is not reported as an eye of {:?} although all its neighbours and diagonals are {:?}", col(c), col(c));
                if e {
                    st.inc("eyes");
                } else if r.b.c[i] == E && r.b.nb(i).iter().all(|&j| r.b.c[j] == c) {
                    st.inc("false eyes");
                }
                if must {
                    st.inc("full eyes");
                }
                if e && c == r.turn {
                    eyes.push(i);
                }
            }
        }
        if r.resigned.is_some() {
            return Ok(());
        }
        // together with every combination of the other rules
        for m in if r.b.n() <= 25 { 0..8u32 } else { 6..8 } {
            let l = idx_set("legals_by", s.h, s.w, g.legals_by(flags(m)))?;
            let f = idx_set("legals_by(FILLEYE)", s.h, s.w, g.legals_by(flags(m | EYE)))?;
            let want: Vec<usize> = l.iter().copied().filter(|i| !eyes.contains(i)).collect();
            same_set(&format!("legals_by({:?})", flags(m | EYE)), s.w, &f, &want)?;
        }
        let base = s.ill & !EYE;
        let l = idx_set("legals_by", s.h, s.w, g.legals_by(flags(base)))?;
        let f = idx_set("legals_by(FILLEYE)", s.h, s.w, g.legals_by(flags(base | EYE)))?;
        let want: Vec<usize> = l.iter().copied().filter(|i| !eyes.contains(i)).collect();
        same_set("legal moves with the fill-eye rule", s.w, &f, &want)?;
        let legals = idx_set("legals", s.h, s.w, g.legals())?;
        same_set("legals()", s.w, &legals, if s.ill & EYE != 0 { &f } else { &l })?;
        for i in 0..r.b.n() {
            let p = r.b.rc(i);
            let c = g.check_point_by(p, flags(base | EYE));
            ensure!(c.is_none() == want.contains(&i), "check_point_by{p:?} with fill-eye says {c:?}");
            if c == Some(PlayError::FillEye) {
                st.inc("refused: fill eye");
                ensure!(eyes.contains(&i), "{p:?} is refused as an eye but is none");
            }
            if s.ill & EYE != 0 && c.is_some() {
                ensure!(g.clone().try_play(Move::Play(p.0, p.1)).is_err(), "{p:?} is played although it is refused");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C18
pub struct C18;
impl Oracle for C18 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let mut want: Vec<&RB> = vec![];
        for b in &r.hist {
            if !want.contains(&&**b) {
                want.push(b);
            } else {
                st.inc("repeated positions");
            }
        }
        if !HISTORY {
            return Ok(());
        }
        let got: Vec<&Goban> = past(g, r.hist.len() + 10);
        ensure!(got.len() == want.len(), "the history lists {} positions but {} distinct ones were played from", got.len(), want.len());
        for (k, (x, b)) in got.iter().zip(&want).enumerate() {
            same_board(x, b).map_err(|m| format!("history entry {k}: {m}"))?;
            if s.h * s.w <= 6 {
                check_groups(x, b, &mut Stats::default()).map_err(|m| format!("history entry {k}: {m}"))?;
                ensure!(**x == build(b, 1), "history entry {k} is not equal to the same position built anew");
            }
        }
        st.add("history entries compared", want.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C20
pub struct C20;
impl Oracle for C20 {
    fn state(&self, _s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        let on = (r.b.count(B), r.b.count(W));
        let (pb, pw) = g.prisoners();
        let (bs, ws) = g.number_of_stones();
        ensure!(bs as u64 + pw as u64 == r.placed.0 as u64, "{} black stones were placed, {bs} are on the board and {pw} are prisoners", r.placed.0);
        ensure!(ws as u64 + pb as u64 == r.placed.1 as u64, "{} white stones were placed, {ws} are on the board and {pb} are prisoners", r.placed.1);
        ensure!((bs, ws) == on, "number_of_stones() is {:?} but {on:?} are on the board", (bs, ws));
        ensure!((pb, pw) == r.pris, "prisoners are {:?} but should be {:?}", (pb, pw), r.pris);
        if pb > 255 || pw > 255 {
            st.inc("more than 255 prisoners");
        }
        Ok(())
    }
    fn edge(&self, _s: &Scn, g0: &Game, r0: &RG, op: Op, g1: &Game, r1: &RG, st: &mut Stats) -> Res {
        occur_move(r0, op, st);
        ensure!(g1.prisoners() == r1.pris, "after {op:?} prisoners are {:?} but should be {:?}", g1.prisoners(), r1.pris);
        if !matches!(op, Op::Play(..)) {
            ensure!(g1.prisoners() == g0.prisoners(), "{op:?} changed the prisoners");
        } else {
            // refused moves change nothing
            for (i, p) in pts(&r0.b) {
                if r0.b.n() <= 9 && !r0.legal(i) {
                    let mut g2 = g0.clone();
                    if g2.try_play(Move::Play(p.0, p.1)).is_err() {
                        ensure!(g2.prisoners() == g0.prisoners(), "the refused move {p:?} changed the prisoners");
                    }
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C21
pub struct C21;
impl Oracle for C21 {
    fn state(&self, s: &Scn, g: &Game, r: &RG, st: &mut Stats) -> Res {
        if r.resigned.is_some() {
            return Ok(());
        }
        let cells: Vec<usize> = match &s.window {
            Some(w) => w.clone(),
            None => (0..r.b.n()).collect(),
        };
        for i in cells {
            if r.b.c[i] != E {
                continue;
            }
            let p = r.b.rc(i);
            let q = r.b.place(i, r.turn);
            let wc = g.will_capture(p);
            ensure!(wc == !q.captured.is_empty(), "will_capture{p:?} is {wc} but the move captures {} stones", q.captured.len());
            if !r.legal(i) {
                st.inc("illegal moves skipped");
                continue;
            }
            let sim = g.play_for_verification(p);
            same_board(&sim, &q.after).map_err(|m| format!("simulating {p:?}: {m}"))?;
            let mut g1 = g.clone();
            g1.play(Move::Play(p.0, p.1));
            ensure!(sim == *g1.goban() && sim.zobrist_hash() == g1.zobrist_hash(), "the simulated board of {p:?} is not the board after playing it");
            ensure!(norm_groups(&sim) == norm_groups(g1.goban()), "the simulated board of {p:?} has other groups than the board after playing it");
            st.inc(if !q.own.is_empty() {
                "suicides simulated"
            } else if wc {
                "captures simulated"
            } else {
                "plain moves simulated"
            });
        }
        Ok(())
    }
}

/// The window of the scenario, its neighbours, the corners and the middle of the board.
pub fn near(s: &Scn, b: &RB) -> Vec<usize> {
    let mut v = vec![0, b.w - 1, b.n() - b.w, b.n() - 1, b.n() / 2];
    for &i in s.window.iter().flatten() {
        v.push(i);
        v.extend(b.nb(i));
    }
    v.sort_unstable();
    v.dedup();
    v
}
