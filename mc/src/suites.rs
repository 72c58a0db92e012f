//! Families of bounded state spaces. A generator produces scenarios lazily, so that large families
//! need no memory; every scenario of every generator is explored completely up to its depth.
use crate::engine::*;
use crate::refgo::*;

pub type Sink<'a> = &'a mut dyn FnMut(Scn);
pub type Gen = Box<dyn Fn(Sink) + Send + Sync>;

/// Explore every scenario of every generator, one worker per generator.
pub fn run_gens(gens: &[Gen], o: &dyn Oracle, st: &mut Stats) -> bool {
    par_each(gens, st, |g, st| {
        let t = std::time::Instant::now();
        let mut last = String::new();
        let (a, b) = (st.states, st.scenarios);
        let mut k = 0;
        g(&mut |s: Scn| {
            k += 1;
            if !stopped() && (!thin() || k % stride() == 1) {
                bfs(&s, o, 1, st);
                last = s.name;
            }
        });
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{:8.3}s {:8} states {:8} scenarios: .. {last}", t.elapsed().as_secs_f32(), st.states - a, st.scenarios - b);
        }
    })
}

pub const TINY: &[(usize, usize)] = &[(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 1), (1, 5), (5, 1), (1, 6), (6, 1), (2, 2), (2, 3), (3, 2)];
pub const SMALL: &[(usize, usize)] = &[(2, 4), (4, 2), (3, 3)];

/// Complete state graphs of small boards. `ills`: rule combinations (no superko here).
pub fn graphs(sizes: &[(usize, usize)], ills: &[u32], ops: u8) -> Vec<Scn> {
    let mut v = vec![];
    for &(h, w) in sizes {
        for &ill in ills {
            v.push(Scn::new(&format!("graph-{h}x{w}-ill{ill}"), h, w).ill(ill).ops(ops));
        }
    }
    v
}

/// every legal position of an h x w board
pub fn all_positions(h: usize, w: usize) -> Vec<RB> {
    let n = h * w;
    let mut v = vec![];
    for code in 0..3usize.pow(n as u32) {
        let b = decode(h, w, code);
        if b.is_legal() {
            v.push(b);
        }
    }
    v
}
pub fn decode(h: usize, w: usize, mut code: usize) -> RB {
    let mut b = RB::new(h, w);
    for x in b.c.iter_mut() {
        *x = (code % 3) as u8;
        code /= 3;
    }
    b
}

/// Superko: all histories (as sets) from every legal set-up.
pub fn superko_gens(sizes: &[(usize, usize, usize)], ills: &[u32], ops: u8) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for &(h, w, depth) in sizes {
        for &ill in ills {
            let pos = all_positions(h, w);
            for ch in pos.chunks(pos.len().div_ceil(24)) {
                let ch = ch.to_vec();
                v.push(Box::new(move |f| {
                    for b in &ch {
                        for turn in [B, W] {
                            f(Scn::new(&format!("superko-{h}x{w}-ill{ill}"), h, w).board(b).turn(turn).ill(ill).ops(ops).depth(depth).hist());
                        }
                    }
                }));
            }
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ctx {
    Empty,
    RingB,
    RingW,
    RingMix,
    FullB,
    FullW,
    Stripes,
}

/// surroundings of a window: `b` gets stones everywhere outside the window
pub fn surround(b: &mut RB, r0: usize, c0: usize, k: usize, l: usize, ctx: Ctx) {
    let (h, w) = (b.h, b.w);
    for r in 0..h {
        for c in 0..w {
            if r >= r0 && r < r0 + k && c >= c0 && c < c0 + l {
                continue;
            }
            let ring = r + 1 >= r0 && r <= r0 + k && c + 1 >= c0 && c <= c0 + l;
            let x = match ctx {
                Ctx::Empty => E,
                Ctx::RingB if ring => B,
                Ctx::RingW if ring => W,
                Ctx::RingMix if ring => {
                    if r < r0 || c < c0 {
                        B
                    } else {
                        W
                    }
                }
                Ctx::FullB => B,
                Ctx::FullW => W,
                Ctx::Stripes => {
                    // walls of alternating colour, three lines apart from each other
                    match c % 4 {
                        0 => B,
                        2 => W,
                        _ => {
                            if (r + c) % 5 == 0 {
                                E
                            } else if c % 4 == 1 {
                                B
                            } else {
                                W
                            }
                        }
                    }
                }
                _ => E,
            };
            b.c[r * w + c] = x;
        }
    }
}

pub fn cells(w: usize, r0: usize, c0: usize, k: usize, l: usize) -> Vec<usize> {
    let mut v = vec![];
    for r in r0..r0 + k {
        for c in c0..c0 + l {
            v.push(r * w + c);
        }
    }
    v
}

/// window positions: corners, edge middles, centre, and around the cells with index 255/256
pub fn spots(h: usize, w: usize, k: usize, l: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    if k > h || l > w {
        return v;
    }
    let rs = [0, (h - k) / 2, h - k];
    let cs = [0, (w - l) / 2, w - l];
    for r in rs {
        for c in cs {
            v.push((r, c));
        }
    }
    if h * w > 260 {
        let (r, c) = (256 / w, 256 % w);
        v.push((r.min(h - k), c.saturating_sub(1).min(w - l)));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub struct Win {
    pub sizes: Vec<(usize, usize)>,
    pub k: usize,
    pub l: usize,
    pub ctxs: Vec<Ctx>,
    pub ills: Vec<u32>,
    pub turns: Vec<u8>,
    pub depth: usize,
    pub ops: u8,
    /// also play on the ring around the window
    pub grow: usize,
    /// explore only these spots (None: `spots`)
    pub at: Option<Vec<(usize, usize)>>,
}

/// All fillings of a small window inside a given context.
pub fn windows(p: Win) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    let total = 3usize.pow((p.k * p.l) as u32);
    for &(h, w) in &p.sizes {
        let at = p.at.clone().unwrap_or_else(|| spots(h, w, p.k, p.l));
        for (r0, c0) in at {
            for &ctx in &p.ctxs {
                let (k, l, depth, ops, grow) = (p.k, p.l, p.depth, p.ops, p.grow);
                let (ills, turns) = (p.ills.clone(), p.turns.clone());
                let nchunk = total.div_ceil(1200);
                for ch in 0..nchunk {
                    let (ills, turns) = (ills.clone(), turns.clone());
                    v.push(Box::new(move |f| {
                        let (gr, gc) = (r0.saturating_sub(grow), c0.saturating_sub(grow));
                        let win = cells(w, gr, gc, (r0 + k + grow).min(h) - gr, (c0 + l + grow).min(w) - gc);
                        for code in ch * 1200..((ch + 1) * 1200).min(total) {
                            let mut b = RB::new(h, w);
                            surround(&mut b, r0, c0, k, l, ctx);
                            let small = decode(k, l, code);
                            for r in 0..k {
                                for c in 0..l {
                                    b.c[(r0 + r) * w + c0 + c] = small.at(r, c);
                                }
                            }
                            if !b.is_legal() {
                                continue;
                            }
                            for &ill in &ills {
                                for &turn in &turns {
                                    f(Scn::new(&format!("window-{h}x{w}@{r0},{c0}-{k}x{l}-{ctx:?}"), h, w).board(&b).window(win.clone()).ill(ill).turn(turn).depth(depth).ops(ops));
                                }
                            }
                        }
                    }));
                }
            }
        }
    }
    v
}

/// Tactical shapes. '*' marks an empty point that is played on; '.' an empty point outside the window.
pub const TEMPLATES: &[(&str, &[&str])] = &[
    ("ko", &[".XO.", "XO*O", ".XO.", "...."]),
    ("ko-taken", &[".XO.", "X*XO", ".XO."]),
    ("ponnuki", &[".X.", "XO*", ".X."]),
    ("diamond", &["..X..", ".XOX.", "XO*OX", ".XOX.", "..X.."]),
    ("diamond-cut", &["..X..", ".XOX.", "XO*OX", ".XO*.", "..X.."]),
    ("quad-merge", &[".X.", "X*X", ".X."]),
    ("ring", &["XXX", "X*X", "XXX"]),
    ("ring-gap", &["XXX", "X*X", "XX*"]),
    ("snapback", &["XXOO", "XO*O", "XXO*", "..XX"]),
    ("double-ko", &[".XO.XO.", "XO*XO*O", ".XO.XO."]),
    ("send-two", &["XXXX", "O*OX", "*OOX", "OOXX"]),
    ("two-eyes", &["XXXXX", "X*X*X", "XXXXX"]),
    ("false-eye", &["OXX", "X*X", "XXO"]),
    ("eye-open-corner", &["XX*", "X*X", "XXX"]),
    ("suicide-two", &["XX.", "**X", "XX."]),
    ("suicide-three", &["OOO.", "*X*O", "OOO."]),
    ("snake", &["XOOOX", "XOXXX", "XOOO*", "XXXOX", "OOOOX"]),
    ("comb", &["XXXXX", "X*X*X", "OOOOO", "O*O*O"]),
    ("throw-in", &["OOOO", "OX*O", "OXXO", "O*OO"]),
    ("bent", &["XX*", "XOO", "*OX", "OOX"]),
    ("stairs", &["XO..", "*XO.", "..XO", "...*"]),
    ("cross", &["O*O", "*X*", "O*O"]),
    ("two-groups", &["OXO", "X*X", "OXO", ".O."]),
    ("three-groups", &[".O.O.", "OX*XO", ".OXO.", "..O.."]),
    ("enclosed", &["OOOO", "OXXO", "OX*O", "OOOO"]),
];

pub fn template(i: usize, sym: u8, swap: bool) -> (RB, Vec<(usize, usize)>) {
    let rows = TEMPLATES[i].1;
    let b = RB::parse(rows);
    let mut marks = vec![];
    let (h, w) = sym_size(sym, b.h, b.w);
    for r in 0..b.h {
        for c in 0..b.w {
            if rows[r].as_bytes()[c] != b'.' {
                let (y, x) = sym_pt(sym, b.h, b.w, (r as u8, c as u8));
                marks.push((y as usize, x as usize));
            }
        }
    }
    let mut o = sym_board(sym, &b);
    if swap {
        o = swap_colors(&o);
    }
    debug_assert!(o.h == h && o.w == w);
    (o, marks)
}

/// place template `t` with its top left corner at (r0, c0), which may be outside; points off the board are cut
pub fn stamp(b: &mut RB, t: &RB, marks: &[(usize, usize)], r0: i32, c0: i32) -> Vec<usize> {
    let mut win = vec![];
    for r in 0..t.h {
        for c in 0..t.w {
            let (y, x) = (r as i32 + r0, c as i32 + c0);
            if y >= 0 && x >= 0 && (y as usize) < b.h && (x as usize) < b.w && t.at(r, c) != E {
                b.c[y as usize * b.w + x as usize] = t.at(r, c);
            }
        }
    }
    for &(r, c) in marks {
        let (y, x) = (r as i32 + r0, c as i32 + c0);
        if y >= 0 && x >= 0 && (y as usize) < b.h && (x as usize) < b.w {
            win.push(y as usize * b.w + x as usize);
        }
    }
    win.sort_unstable();
    win
}

pub struct Tpl {
    pub which: Vec<usize>,
    pub sizes: Vec<(usize, usize)>,
    /// every offset (true) or the borders, the centre and the index-256 region
    pub all_offsets: bool,
    pub syms: Vec<u8>,
    pub ills: Vec<u32>,
    pub depth: usize,
    pub ops: u8,
    pub played: bool,
}
pub fn templates(p: Tpl) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    let which = if p.which.is_empty() { (0..TEMPLATES.len()).collect() } else { p.which.clone() };
    for t in which {
        for &(h, w) in &p.sizes {
            for &sym in &p.syms {
                let (ills, depth, ops, played, all) = (p.ills.clone(), p.depth, p.ops, p.played, p.all_offsets);
                v.push(Box::new(move |f| {
                    let mut seen = std::collections::HashSet::new();
                    for swap in [false, true] {
                        let (tb, marks) = template(t, sym, swap);
                        let rows: Vec<i32> = offsets(h, tb.h, all);
                        let cols: Vec<i32> = offsets(w, tb.w, all);
                        for &r0 in &rows {
                            for &c0 in &cols {
                                let mut b = RB::new(h, w);
                                let win = stamp(&mut b, &tb, &marks, r0, c0);
                                if win.is_empty() || !b.is_legal() || !seen.insert((b.clone(), win.clone())) {
                                    continue;
                                }
                                for &ill in &ills {
                                    for turn in [B, W] {
                                        let mut s = Scn::new(&format!("{}-{h}x{w}@{r0},{c0}/{sym}", TEMPLATES[t].0), h, w).board(&b).window(win.clone()).ill(ill).turn(turn).depth(depth).ops(ops);
                                        if played {
                                            s.played_in = true;
                                            if !s.playable() {
                                                continue;
                                            }
                                        }
                                        f(s);
                                    }
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    v
}
fn offsets(n: usize, k: usize, all: bool) -> Vec<i32> {
    let (n, k) = (n as i32, k as i32);
    let lo = -(k - 2).max(0);
    let hi = n - 2;
    let mut v: Vec<i32> = (lo..=hi).collect();
    if !all && v.len() > 12 {
        v = (lo..=0).chain([(n - k) / 2, 12]).chain(n - k..=hi).collect();
    }
    v.retain(|&x| x <= hi && x >= lo);
    v.sort_unstable();
    v.dedup();
    v
}

/// Huge groups: one colour on (nearly) the whole board, with a small window; halves; stripes; spirals.
pub fn huge(sizes: &[(usize, usize)], ills: &[u32], depth: usize, ops: u8) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for &(h, w) in sizes {
        let mut boards: Vec<(String, RB, Vec<usize>)> = vec![];
        let n = h * w;
        // one colour everywhere, empty at one or two far apart points
        let pts: Vec<usize> = {
            let mut p = vec![0, w - 1, n - w, n - 1, n / 2, w / 2, (h / 2) * w];
            if n > 258 {
                p.extend([255, 256, 257]);
            }
            p.sort_unstable();
            p.dedup();
            p
        };
        for c in [B, W] {
            for (k, &a) in pts.iter().enumerate() {
                let mut b = RB::new(h, w);
                b.c.iter_mut().for_each(|x| *x = c);
                b.c[a] = E;
                boards.push((format!("full{c}-hole{a}"), b.clone(), vec![a]));
                // same with an opposing stone next to the hole
                for j in b.nb(a) {
                    let mut b2 = b.clone();
                    b2.c[j] = other(c);
                    boards.push((format!("full{c}-hole{a}-enemy{j}"), b2, vec![a, j]));
                }
                for &a2 in &pts[k + 1..] {
                    let mut b2 = b.clone();
                    b2.c[a2] = E;
                    boards.push((format!("full{c}-hole{a}+{a2}"), b2, vec![a, a2]));
                }
            }
        }
        // two halves that share their last liberty
        for vertical in [false, true] {
            for c in [B, W] {
                let mut b = RB::new(h, w);
                for i in 0..n {
                    let first = if vertical { i % w < w / 2 } else { i / w < h / 2 };
                    b.c[i] = if first { c } else { other(c) };
                }
                for hole in [0, n - 1, n / 2, (h / 2) * w, (h / 2) * w - 1] {
                    let mut b2 = b.clone();
                    b2.c[hole] = E;
                    let mut b3 = b2.clone();
                    let far = n - 1 - hole;
                    b3.c[far] = E;
                    boards.push((format!("halves{vertical}{c}-{hole}"), b2, vec![hole]));
                    boards.push((format!("halves{vertical}{c}-{hole}+{far}"), b3, vec![hole, far]));
                }
            }
        }
        // stripes that are all captured or joined by one stone
        if h >= 3 && w >= 3 {
            for c in [B, W] {
                let mut b = RB::new(h, w);
                for r in 0..h {
                    for x in 0..w {
                        // a comb: full first column left open, rows alternate
                        b.c[r * w + x] = if r % 2 == 0 && x > 0 { c } else { E };
                    }
                }
                boards.push((format!("comb{c}"), b.clone(), (0..h).map(|r| r * w).chain((1..h).step_by(2).map(|r| r * w + 1)).collect()));
                let mut b2 = b.clone();
                for r in (1..h).step_by(2) {
                    for x in 2..w {
                        b2.c[r * w + x] = other(c);
                    }
                }
                boards.push((format!("comb2{c}"), b2, (1..h).step_by(2).map(|r| r * w + 1).take(6).collect()));
                // checkerboard of single stones, then joined
                let mut b3 = RB::new(h, w);
                for r in 0..h {
                    for x in 0..w {
                        b3.c[r * w + x] = if (r + x) % 2 == 0 { c } else { E };
                    }
                }
                boards.push((format!("checker{c}"), b3, vec![1, w, w + 2, 2 * w + 1, n - 2]));
            }
        }
        // one group with as many liberties as fit: full rows two apart, joined along a border
        if h >= 5 && w >= 5 {
            for c in [B, W] {
                for (first, side) in [(0usize, 0usize), (1, w - 1)] {
                    let mut b = RB::new(h, w);
                    let rows: Vec<usize> = (first..h).step_by(3).collect();
                    for &r in &rows {
                        for x in 0..w {
                            b.c[r * w + x] = c;
                        }
                    }
                    for r in first..=*rows.last().unwrap() {
                        b.c[r * w + side] = c;
                    }
                    let holes: Vec<usize> = (0..n).filter(|&i| b.c[i] == E && b.nb(i).iter().any(|&j| b.c[j] == c)).collect();
                    let m = holes.len();
                    let mut win: Vec<usize> = vec![holes[0], holes[1], holes[m / 4], holes[m / 2], holes[m / 2 + 1], holes[m - 2], holes[m - 1]];
                    boards.push((format!("airy{c}{first}"), b.clone(), win.clone()));
                    // nearly all of them taken, by enemy stones that are alive
                    for (k, &i) in holes.iter().enumerate() {
                        if k % 3 == 1 {
                            b.c[i] = other(c);
                        }
                    }
                    win.retain(|&i| b.c[i] == E);
                    boards.push((format!("airy-{c}{first}"), b, win));
                }
            }
        }
        // as many groups as fit: two colours in checkerboard order around holes a knight's move apart
        if n >= 80 {
            for (k, c) in [(0, B), (3, W)] {
                let mut b = RB::new(h, w);
                for r in 0..h {
                    for x in 0..w {
                        if (x + 2 * r + k) % 5 != 0 {
                            b.c[r * w + x] = if (r + x) % 2 == 0 { c } else { other(c) };
                        }
                    }
                }
                for i in 0..n {
                    if b.c[i] != E && b.libs(&[i]).is_empty() {
                        b.c[i] = E;
                    }
                }
                let holes: Vec<usize> = (0..n).filter(|&i| b.c[i] == E).collect();
                let m = holes.len();
                let mut win = vec![];
                for j in [0, m / 2, m - 2, m - 1] {
                    win.push(holes[j]);
                    win.extend(b.nb(holes[j]));
                }
                boards.push((format!("groups{k}"), b.clone(), win));
                // the last hole in the interior, with every combination of neighbours
                let inner = |i: usize| i / w > 0 && i / w + 1 < h && i % w > 0 && i % w + 1 < w;
                if let Some(&hole) = holes.iter().rev().find(|&&i| inner(i)) {
                    for code in 0..81usize {
                        let mut b2 = b.clone();
                        for (e, j) in b.nb(hole).into_iter().enumerate() {
                            b2.c[j] = (code / 3usize.pow(e as u32) % 3) as u8;
                        }
                        let mut win = b.nb(hole);
                        win.push(hole);
                        boards.push((format!("groups{k}-{code}"), b2, win));
                    }
                }
            }
        }
        boards.retain(|x| x.1.is_legal());
        for chunk in boards.chunks(16) {
            let (chunk, ills) = (chunk.to_vec(), ills.to_vec());
            v.push(Box::new(move |f| {
                for (name, b, win) in &chunk {
                    for &ill in &ills {
                        for turn in [B, W] {
                            let mut win: Vec<usize> = win.iter().copied().filter(|&i| i < h * w).collect();
                            win.sort_unstable();
                            win.dedup();
                            f(Scn::new(&format!("huge-{h}x{w}-{name}"), h, w).board(b).window(win).ill(ill).turn(turn).depth(depth).ops(ops));
                        }
                    }
                }
            }));
        }
    }
    v
}

/// Large groups that meet in one point: in each direction from the point the background, nothing, a short or
/// long line, a big block, or a living group; played by either side (captures, suicides and unions of up to four).
pub fn arms(sizes: &[(usize, usize)], ills: &[u32], depth: usize, ops: u8, few: bool) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for &(h, w) in sizes {
        let mut at = vec![(h / 2, w / 2), (0, w / 2), (h / 2, 0), (h - 1, w / 2), (h / 2, w - 1), (0, 0), (h - 1, w - 1)];
        at.dedup();
        for (r, c) in at {
            for bg in [B, W] {
                for first in 0..6usize {
                    let ills = ills.to_vec();
                    v.push(Box::new(move |f| {
                        for rest in 0..216usize {
                            let kinds = [first, rest % 6, rest / 6 % 6, rest / 36];
                            if few && kinds.iter().any(|&k| k == 1 || k == 5) {
                                continue;
                            }
                            let mut b = RB::new(h, w);
                            b.c.iter_mut().for_each(|x| *x = bg);
                            b.c[r * w + c] = E;
                            let mut holes = vec![];
                            let mut ok = true;
                            for (d, &k) in kinds.iter().enumerate() {
                                let (dy, dx) = [(1i32, 0i32), (-1, 0), (0, 1), (0, -1)][d];
                                let at = |t: i32, o: i32| {
                                    let (y, x) = (r as i32 + dy * t + dx * o, c as i32 + dx * t + dy * o);
                                    (y >= 0 && x >= 0 && (y as usize) < h && (x as usize) < w).then(|| y as usize * w + x as usize)
                                };
                                if at(1, 0).is_none() {
                                    // a direction off the board stands for nothing
                                    ok &= k == 0;
                                    continue;
                                }
                                let len = [0, 0, 1, 4, 19, 2][k];
                                for t in 1..=len {
                                    for o in if k == 4 && t > 2 { 2 - t..=t - 2 } else { 0..=0 } {
                                        if let Some(i) = at(t, o) {
                                            b.c[i] = other(bg);
                                        }
                                    }
                                }
                                if k == 1 {
                                    b.c[at(1, 0).unwrap()] = E;
                                }
                                if k == 5 {
                                    match at(3, 0) {
                                        Some(i) => holes.push(i),
                                        None => ok = false,
                                    }
                                }
                            }
                            for i in holes {
                                b.c[i] = E;
                            }
                            // the background must live: one hole for each of its groups, away from the others
                            for g in b.groups() {
                                if g.color == bg && b.libs(&g.stones).iter().all(|&i| i == r * w + c) {
                                    match g.stones.iter().find(|&&i| b.nb(i).iter().all(|&j| b.c[j] == bg)) {
                                        Some(&i) => b.c[i] = E,
                                        None => ok = false,
                                    }
                                }
                            }
                            if !ok || !b.is_legal() {
                                continue;
                            }
                            let mut win = b.nb(r * w + c);
                            win.push(r * w + c);
                            win.sort_unstable();
                            for &ill in &ills {
                                for turn in [B, W] {
                                    f(Scn::new(&format!("arms-{h}x{w}-{r},{c}-{bg}-{kinds:?}"), h, w).board(&b).window(win.clone()).ill(ill).turn(turn).depth(depth).ops(ops));
                                }
                            }
                        }
                    }));
                }
            }
        }
    }
    v
}

#[derive(Clone)]
pub struct Std {
    /// expensive oracle: windows on smaller boards
    pub light: u8,
    pub ops: u8,
    pub ills: Vec<u32>,
    /// relative effort: 0 light, 1 normal, 2 heavy
    pub weight: usize,
}

/// The standard suite: complete graphs of small boards, windows and shapes on larger ones.
/// Nothing merged: every sequence of operations is a path of its own, so behaviour that depends on how
/// a position came about (and not on the position) cannot hide behind an earlier path.
pub fn unmerged(ills: &[u32], ops: u8, weight: usize) -> Vec<Scn> {
    let mut v = vec![];
    let x = if thorough() { 2 } else { 0 } + weight.min(1);
    for (k, &ill) in ills.iter().enumerate() {
        for (h, w, d) in [(1, 1, 9), (1, 2, 8), (1, 3, 7), (2, 2, 6), (1, 4, 6), (2, 3, 5), (3, 2, 4), (3, 3, 4)] {
            if k > 0 && h * w > 4 {
                continue;
            }
            let d = if h * w >= 9 { d + x / 2 } else { d + x };
            v.push(Scn::new(&format!("tree-{h}x{w}-ill{ill}"), h, w).ill(ill).ops(ops).depth(d).mem(usize::MAX));
        }
        // the complete graph, but with the last two operations remembered
        for (h, w) in [(1, 3), (2, 2), (1, 4), (1, 5), (2, 3)] {
            if k > 1 && h * w > 4 || h * w > 5 && x == 0 {
                continue;
            }
            v.push(Scn::new(&format!("graph2-{h}x{w}-ill{ill}"), h, w).ill(ill).ops(ops).mem(if thorough() { 3 } else { 2 }));
        }
        // with operations in between that must not matter
        for (h, w, d) in [(1, 3, 6), (2, 2, 5)] {
            let mut s = Scn::new(&format!("noisy-tree-{h}x{w}-ill{ill}"), h, w).ill(ill).ops(ops).depth(d + x).mem(usize::MAX);
            s.noise = true;
            v.push(s);
        }
        // every way through a ko, with two points elsewhere
        let b = RB::parse(&[".XO.", "XO.O", ".XO.", "...."]);
        v.push(Scn::new(&format!("ko-tree-ill{ill}"), 4, 4).board(&b).ill(ill).ops(ops).window(vec![5, 6, 12, 15]).depth(6 + x).mem(usize::MAX));
    }
    v
}

/// the game so far, and the position it leads to
pub fn lives() -> Vec<(&'static str, RB, u8, u32, Vec<Op>)> {
    use Op::*;
    let ko = RB::parse(&[".XO.", "X.XO", ".XO."]);
    let three = RB::parse(&["XX", "X."]);
    let two = RB::parse(&["XO.", "..."]);
    let mut v = vec![
        // name, board, player to move, rules under which the cycle is legal whatever else is allowed, cycle
        ("ko taken and retaken after a pause", ko.clone(), W, u32::MAX, vec![Play(1, 1), Pass, Pass, Resume, Play(1, 2), Pass, Pass, Resume]),
        ("ko taken and retaken", ko, W, !KO, vec![Play(1, 1), Play(1, 2)]),
        ("three stones captured", three.clone(), W, u32::MAX, vec![Play(1, 1), Play(0, 1), Pass, Play(1, 0), Pass, Play(0, 0)]),
        ("suicide of four stones", three, B, !SUI, vec![Play(1, 1), Pass, Play(0, 0), Pass, Play(0, 1), Pass, Play(1, 0), Pass]),
        ("pauses", two.clone(), B, u32::MAX, vec![Pass, Pass, Resume]),
        ("single passes and resumptions", two.clone(), W, u32::MAX, vec![Pass, Resume]),
        ("resumptions", two, B, u32::MAX, vec![Resume]),
    ];
    for k in 0..v.len() {
        let mut x = v[k].clone();
        x.1 = swap_colors(&x.1);
        x.2 = other(x.2);
        v.push(x);
    }
    v
}
/// positions reached by a game that came through the same position many times before
pub fn aged(ills: &[u32], ops: u8, depth: usize) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for (name, b, turn, under, cycle) in lives() {
        for &ill in ills {
            if ill & under != ill {
                continue;
            }
            for rounds in [1usize, 2, 3, 4, 9, 300] {
                let (b, cycle) = (b.clone(), cycle.clone());
                v.push(Box::new(move |f| {
                    let pre: Vec<Op> = cycle.iter().copied().cycle().take(cycle.len() * rounds).collect();
                    f(Scn::new(&format!("aged-{name}-{rounds}"), b.h, b.w).board(&b).turn(turn).ill(ill).prelude(pre).ops(ops).depth(depth));
                }));
            }
        }
    }
    v
}
/// one player fills the whole board, all of it is captured (or dies by suicide), and then goes on
pub fn filled(sizes: &[(usize, usize)], ills: &[u32], depth: usize) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for &(h, w) in sizes {
        for &ill in ills {
            for (swap, capture) in [(false, true), (false, false), (true, true)] {
                v.push(Box::new(move |f| {
                    let n = h * w;
                    let rc = |i: usize| ((i / w) as u8, (i % w) as u8);
                    // the last point's neighbours come first, so that taking a stone on it again
                    // may restore a position from the very beginning
                    let mut order: Vec<usize> = vec![];
                    if h > 1 {
                        order.push(n - 1 - w);
                    }
                    if w > 1 {
                        order.push(n - 2);
                    }
                    let rest: Vec<usize> = (0..n - 1).filter(|i| !order.contains(i)).collect();
                    order.extend(rest);
                    let mut pre = vec![];
                    if swap {
                        pre.push(Op::Pass);
                    }
                    for (k, &i) in order.iter().enumerate() {
                        pre.push(Op::Play(rc(i).0, rc(i).1));
                        if k + 1 < order.len() || !capture {
                            pre.push(Op::Pass);
                        }
                    }
                    if capture {
                        pre.push(Op::Play(rc(n - 1).0, rc(n - 1).1));
                    }
                    let mut win: Vec<usize> = vec![0, n - 1, order[0], *order.get(1).unwrap_or(&0)];
                    win.sort_unstable();
                    win.dedup();
                    f(Scn::new(&format!("filled-{h}x{w}"), h, w).ill(ill).prelude(pre).window(win).ops(OP_PASS).depth(depth));
                }));
            }
        }
    }
    v
}
/// small shapes at every point of boards where indices need more than eight bits or cross machine words
pub fn everywhere(sizes: &[(usize, usize)], ills: &[u32], depth: usize) -> Vec<Gen> {
    templates(Tpl { which: vec![0, 2, 5, 13, 14, 18], sizes: sizes.to_vec(), all_offsets: true, syms: if thorough() { (0..8).collect() } else { vec![0] }, ills: ills.to_vec(), depth, ops: 0, played: false })
}

/// The same games made in every way there is (builder, handicap put on the builder or on the game, komi
/// changed, copies, records, moves given to the builder), and games in which refused attempts and changes of
/// komi come between all operations
pub fn made(ills: &[u32], ops: u8, depth: usize) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for origin in 0..=7u8 {
        let mut boards: Vec<RB> = vec![];
        for (h, w) in [(1, 3), (2, 3)] {
            let total = 3usize.pow((h * w) as u32);
            boards.extend((0..total).map(|c| decode(h, w, c)).filter(|b| b.is_legal() && (h * w < 6 || b.c.iter().filter(|&&x| x != E).count() >= 3)));
        }
        for i in [0, 1, 3, 9, 13, 14, 18] {
            let t = template(i, 0, i % 2 == 1).0;
            let mut b = RB::new(t.h + 1, t.w + 1);
            for k in 0..t.n() {
                let (y, x) = t.rc(k);
                b.c[y as usize * (t.w + 1) + x as usize] = t.c[k];
            }
            boards.push(b);
        }
        for chunk in boards.chunks(40) {
            let (chunk, ills) = (chunk.to_vec(), ills.to_vec());
            v.push(Box::new(move |f| {
                for b in &chunk {
                    for &ill in &ills {
                        for turn in [B, W] {
                            let d = if b.n() > 6 { depth - 1 } else { depth };
                            let mut s = Scn::new(&format!("made-{origin}-{}x{}", b.h, b.w), b.h, b.w).board(b).turn(turn).ill(ill).ops(ops).depth(d);
                            s.origin = origin;
                            s.noise = origin == 0;
                            s.played_in = origin == 6;
                            if origin == 5 {
                                s.sco = if ill & SUPER != 0 { 3 } else { 6 };
                            }
                            if ill & SUPER != 0 {
                                s = s.hist();
                            }
                            if s.can_be_made() && (!s.played_in || s.playable()) {
                                f(s);
                            }
                        }
                    }
                }
            }));
        }
    }
    v
}

/// A move in one place of a large board, then a move anywhere else
pub fn far(ills: &[u32], depth: usize, ops: u8) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for (k, t) in [0usize, 1, 2, 3, 5, 8, 9, 10, 14, 15, 18, 22].into_iter().enumerate() {
        for (h, w, r0, c0) in [(19usize, 19usize, 0i32, 0i32), (19, 19, 15, 14), (18, 19, 7, 12), (3, 19, 0, 13)] {
            let ills = ills.to_vec();
            v.push(Box::new(move |f| {
                let (tb, marks) = template(t, (k % 8) as u8, k % 2 == 1);
                let mut b = RB::new(h, w);
                let win = stamp(&mut b, &tb, &marks, r0, c0);
                if win.is_empty() || !b.is_legal() {
                    return;
                }
                for &ill in &ills {
                    for turn in [B, W] {
                        let mut s = Scn::new(&format!("far-{}-{h}x{w}@{r0},{c0}", TEMPLATES[t].0), h, w).board(&b).ill(ill).turn(turn).ops(ops).depth(depth);
                        if thin() {
                            let mut some: Vec<usize> = (k..h * w).step_by(29).chain(win.iter().copied()).collect();
                            some.sort_unstable();
                            some.dedup();
                            s = s.window(some);
                        }
                        let r = RG::new(b.clone(), turn, ill);
                        for &i in &win {
                            if r.legal(i) {
                                let (y, x) = r.b.rc(i);
                                f(s.clone().prelude(vec![Op::Play(y, x)]));
                            }
                        }
                    }
                }
            }));
        }
    }
    v
}
/// A ko is taken, one or two operations follow elsewhere on a large board (or a pass), and then everything
/// around the ko is tried
pub fn threats(ills: &[u32], ops: u8) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for (k, t) in [0usize, 1, 9].into_iter().enumerate() {
        for (h, w, r0, c0) in [(19usize, 19usize, 0i32, 0i32), (19, 19, 15, 14), (19, 19, 8, 0), (18, 19, 7, 12), (3, 19, 0, 13), (19, 4, 2, 0)] {
            for swap in [false, true] {
                let ills = ills.to_vec();
                v.push(Box::new(move |f| {
                    let (tb, marks) = template(t, (k % 8) as u8, swap);
                    let mut b = RB::new(h, w);
                    let win = stamp(&mut b, &tb, &marks, r0, c0);
                    if win.is_empty() || !b.is_legal() {
                        return;
                    }
                    let n = h * w;
                    let mut away: Vec<usize> = vec![0, w - 1, n - w, n - 1, n / 2, (h / 2) * w, w / 2, (h - 1) * w + w / 2];
                    away.extend((0..w).step_by(4).map(|x| (h - 1) * w + x));
                    away.extend((0..h).step_by(3).map(|y| y * w + w - 1));
                    away.extend((0..h).map(|y| y * w + (y * 7) % w));
                    away.sort_unstable();
                    away.dedup();
                    away.retain(|i| !win.contains(i));
                    if thin() {
                        away = away.into_iter().step_by(4).collect();
                    }
                    let op = |i: usize| Op::Play((i / w) as u8, (i % w) as u8);
                    for &ill in &ills {
                        for turn in [B, W] {
                            let r = RG::new(b.clone(), turn, ill);
                            for &i in &win {
                                if !r.legal(i) {
                                    continue;
                                }
                                let r1 = r.apply(op(i));
                                if r1.ko_point().is_none() {
                                    continue;
                                }
                                let s = Scn::new(&format!("threat-{}-{h}x{w}@{r0},{c0}", TEMPLATES[t].0), h, w).board(&b).ill(ill).turn(turn).ops(ops).window(win.clone()).depth(1);
                                for &a in &away {
                                    if !r1.legal(a) {
                                        continue;
                                    }
                                    let r2 = r1.apply(op(a));
                                    f(s.clone().prelude(vec![op(i), op(a)]));
                                    f(s.clone().prelude(vec![op(i), op(a), Op::Pass]));
                                    f(s.clone().prelude(vec![op(i), Op::Pass, op(a)]));
                                    for (q, &a2) in away.iter().enumerate() {
                                        if a2 != a && (q * 5 + a) % 3 == 0 && r2.legal(a2) {
                                            f(s.clone().prelude(vec![op(i), op(a), op(a2)]));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    v
}
/// A ko is taken and left alone for up to hundreds of plays, or tens of thousands of passes and resumptions:
/// what was forbidden at once must never be forbidden again later
pub fn late(ills: &[u32], ops: u8) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    for &ill in ills {
        for swap in [false, true] {
            for filler in 0..4usize {
                v.push(Box::new(move |f| {
                    let (h, w) = if filler < 2 { (19, 19) } else { (5, 6) };
                    let (tb, marks) = template(0, 0, swap);
                    let mut b = RB::new(h, w);
                    let win = stamp(&mut b, &tb, &marks, 0, 0);
                    let turn = if swap { W } else { B };
                    let op = |i: usize| Op::Play((i / w) as u8, (i % w) as u8);
                    let r = RG::new(b.clone(), turn, ill);
                    let Some((take, mut r)) = win.iter().filter(|&&i| r.legal(i)).map(|&i| (i, r.apply(op(i)))).find(|x| x.1.ko_point().is_some()) else { return };
                    let mut pre = vec![op(take)];
                    let mut s = Scn::new(&format!("late-{h}x{w}-{filler}"), h, w).board(&b).ill(ill).turn(turn).ops(ops | OP_PASS).window(win).depth(2);
                    // 0: each side fills its half; 1: the same with a pause after every pair of moves
                    let cols: Vec<usize> = (0..w).flat_map(|x| (5..h).map(move |y| y * w + x)).collect();
                    let half = cols.len() / 2;
                    let (mine, theirs) = (&cols[..half.saturating_sub(2)], &cols[cols.len().min(half + 2)..]);
                    let mut todo: Vec<Op> = vec![];
                    match filler {
                        0 | 1 => {
                            for k in 0..mine.len().min(theirs.len()) {
                                todo.extend([op(theirs[k]), op(mine[k])]);
                                if filler == 1 {
                                    todo.extend([Op::Pass, Op::Pass, Op::Resume]);
                                }
                            }
                        }
                        2 => todo.extend([Op::Pass, Op::Resume].repeat(66_000)),
                        _ => todo.extend([Op::Pass, Op::Pass, Op::Resume].repeat(44_000)),
                    }
                    let few = filler >= 2;
                    for (k, o) in todo.into_iter().enumerate() {
                        let at = [k, k + 1, k + 2];
                        let near = |m: usize| at.iter().any(|x| x % m < 3 || x % m > m - 4);
                        if !few && (k < 8 || near(128) || k % 17 < 2) || few && (k < 4 || near(65536) || k < 2000 && near(256)) {
                            if matches!(o, Op::Play(..)) || few || k % 5 != 4 {
                                s = s.prelude(pre.clone());
                                f(s.clone());
                            }
                        }
                        if let Op::Play(y, x) = o {
                            if !r.legal(y as usize * w + x as usize) {
                                break;
                            }
                            r.hist.clear();
                        }
                        r = r.apply(o);
                        pre.push(o);
                    }
                }));
            }
        }
    }
    v
}
/// Long games, looked at after every single operation (larger boards: every few) and one move further:
/// (board, player picks legal moves by this pattern, operations, step, window)
pub fn lines(ills: &[u32], ops: u8) -> Vec<Gen> {
    let mut v: Vec<Gen> = vec![];
    let t = thorough();
    for &ill in ills {
        for (h, w, pick, len, step) in [(5usize, 5usize, 0usize, 420usize, 1usize), (3, 4, 1, 420, 1), (2, 3, 2, 420, 1), (1, 4, 1, 420, 1), (7, 6, 2, 420, 1), (19, 19, 1, 800, if t { 5 } else { 23 }), (13, 17, 2, 600, if t { 5 } else { 19 })] {
            let mut at = 0;
            while at < len {
                let end = (at + 60 * step).min(len);
                v.push(Box::new(move |f| {
                    let mut r = RG::new(RB::new(h, w), B, ill);
                    let mut pre = vec![];
                    for k in 0..end {
                        if k >= at && (k - at) % step == 0 && !(run().prop == "C22" && h * w > 100 && k % (9 * step) != 0) {
                            let n = h * w;
                            let mut win = vec![0, n - 1, n / 2, w - 1, (k * 5) % n, (k * 11 + 3) % n];
                            win.sort_unstable();
                            win.dedup();
                            f(Scn::new(&format!("line-{h}x{w}-{pick}@{k}"), h, w).ill(ill).prelude(pre.clone()).window(win).ops(ops).depth(1));
                        }
                        r.hist.clear();
                        let cand: Vec<usize> = (0..h * w).filter(|&i| r.legal(i)).collect();
                        let op = if r.passes >= 2 {
                            Op::Resume
                        } else if cand.is_empty() || k % 41 == 40 || (ops & OP_RESUME != 0 && k % 97 >= 95) {
                            Op::Pass
                        } else {
                            let i = match pick {
                                0 => cand[0],
                                1 => cand[(k * 5 + k / 7) % cand.len()],
                                _ => cand[(k * k + k / 3) % cand.len()],
                            };
                            Op::Play(r.b.rc(i).0, r.b.rc(i).1)
                        };
                        r = r.apply(op);
                        pre.push(op);
                    }
                }));
                at = end;
            }
        }
    }
    v
}

pub fn standard(p: &Std) -> (Vec<Scn>, Vec<Gen>) {
    let t = thorough();
    let mut big = graphs(TINY, &p.ills, p.ops);
    big.extend(graphs(SMALL, &p.ills, p.ops));
    if t && p.weight >= 1 {
        big.extend(graphs(&[(2, 5), (5, 2)], &p.ills, p.ops));
        big.extend(graphs(&[(3, 4)], &p.ills[..1], p.ops & !OP_RESUME));
    }
    big.extend(unmerged(&p.ills, p.ops, p.weight));
    (big, wide(p))
}

pub fn wide(p: &Std) -> Vec<Gen> {
    let t = thorough();
    let mut v: Vec<Gen> = vec![];
    let two: Vec<u32> = p.ills.iter().copied().take(2).collect();
    let one: Vec<u32> = p.ills.iter().copied().take(1).collect();
    let w = p.weight + t as usize;
    let large = if t { (19, 19) } else { [(19, 19), (7, 9), (4, 6)][p.light as usize] };
    // small windows on every kind of board
    v.extend(windows(Win {
        sizes: vec![large, (4, 7)],
        k: 2,
        l: 2,
        ctxs: vec![Ctx::Empty, Ctx::RingB, Ctx::RingMix, Ctx::FullW],
        ills: p.ills.clone(),
        turns: vec![B, W],
        depth: 2,
        ops: p.ops,
        grow: 0,
        at: None,
    }));
    v.extend(windows(Win {
        sizes: if w >= 2 { vec![(19, 19), (9, 9), (5, 8), (8, 5), (13, 13), (17, 19)] } else { vec![large, (5, 8)] },
        k: 2,
        l: 3,
        ctxs: if w >= 1 { vec![Ctx::Empty, Ctx::RingB, Ctx::RingW, Ctx::RingMix, Ctx::FullB, Ctx::Stripes] } else { vec![Ctx::RingB, Ctx::RingMix] },
        ills: if t { two.clone() } else { one.clone() },
        turns: vec![B, W],
        depth: 1,
        ops: p.ops & OP_PASS,
        grow: 0,
        at: None,
    }));
    // 3x3 windows in a mixed ring: corner, edge and centre of a 5x5 (all interactions of a point with its neighbourhood)
    let s3: Vec<(usize, usize)> = if w >= 2 { vec![(5, 5), (5, 6), (19, 19)] } else { vec![(5, 5)] };
    for s in s3 {
        v.extend(windows(Win {
            sizes: vec![s],
            k: 3,
            l: 3,
            ctxs: if w >= 2 { vec![Ctx::Empty, Ctx::RingMix, Ctx::RingB] } else { vec![Ctx::RingMix] },
            ills: one.clone(),
            turns: if w >= 1 { vec![B, W] } else { vec![B] },
            depth: 1,
            ops: 0,
            grow: 0,
            at: Some(if s.0 == 5 && w >= 2 { vec![(0, 0), (0, 1), (1, 1), (2, s.1 - 3)] } else { vec![(0, 0), (1, 1)] }),
        }));
    }
    v.extend(templates(Tpl { which: vec![], sizes: vec![(5, 5), (4, 6)], all_offsets: true, syms: (0..8).collect(), ills: two.clone(), depth: 2, ops: p.ops, played: false }));
    v.extend(templates(Tpl { which: vec![], sizes: if w >= 2 { vec![(7, 5), (9, 9), (3, 7), (6, 3)] } else { vec![(3, 7)] }, all_offsets: true, syms: vec![0, 7], ills: one.clone(), depth: 2, ops: p.ops, played: true }));
    v.extend(templates(Tpl { which: vec![], sizes: vec![(19, 19), (13, 19)], all_offsets: t, syms: if w >= 2 { (0..8).collect() } else { vec![0, 5] }, ills: one.clone(), depth: if t { 2 } else { 1 }, ops: p.ops & OP_PASS, played: false }));
    // a few deep ones: everything that can happen inside one shape
    v.extend(templates(Tpl {
        which: vec![0, 1, 3, 8, 9, 10, 15, 18],
        sizes: vec![(5, 5), (3, 7)],
        all_offsets: true,
        syms: vec![0, 4],
        ills: two.clone(),
        depth: if t { 7 } else { 5 },
        ops: p.ops & OP_PASS,
        played: false,
    }));
    let (asz, few): (&[(usize, usize)], bool) = if t || p.light == 0 && w > 0 { (&[(19, 19), (9, 12)], false) } else { (&[(19, 19)], true) };
    v.extend(arms(asz, if p.light == 0 || t { &p.ills } else { &one }, if t { 2 } else { 1 }, 0, few));
    v.extend(far(if t { &two } else { &one }, 1, p.ops & OP_PASS));
    v.extend(lines(if p.light == 2 && !t { &one } else { &two }, p.ops));
    v.extend(made(&two, p.ops, if t { 4 } else { 3 - (p.light == 2) as usize }));
    v.extend(aged(&p.ills, p.ops, if t { 4 } else { 3 }));
    v.extend(filled(&[(19, 19), (5, 5), (1, 7), (16, 16)], &one, 2));
    v.extend(everywhere(if t || p.light == 0 { &[(19, 19)] } else { &[(9, 9)] }, &one, 1));
    v.extend(huge(if t { &[(19, 19), (18, 19), (19, 7), (9, 9), (5, 5), (16, 16), (17, 17)] } else { &[(19, 19), (16, 17)] }, if p.light == 2 && !t { &one } else { &two }, if p.light == 2 && !t { 1 } else { 2 }, p.ops & OP_PASS));
    v
}
