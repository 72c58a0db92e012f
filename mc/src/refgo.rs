//! Reference model of the rules of Go: plain arrays, flood fill, whole-board comparison.
//! Deliberately naive; it shares no code and no data structure with goban.
use std::sync::Arc;

pub const E: u8 = 0;
pub const B: u8 = 1;
pub const W: u8 = 2;

pub const KO: u32 = 1;
pub const SUPER: u32 = 2;
pub const SUI: u32 = 4;
pub const EYE: u32 = 8;
/// point not empty (only in verdicts)
pub const OCC: u32 = 16;

pub fn other(c: u8) -> u8 {
    3 - c
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RB {
    pub h: usize,
    pub w: usize,
    pub c: Vec<u8>,
}

pub struct Placed {
    pub after: RB,
    /// stones of the opponent removed
    pub captured: Vec<usize>,
    /// number of opposing groups removed
    pub groups: usize,
    /// own stones removed (multi- or single-stone suicide), the played stone included
    pub own: Vec<usize>,
}

pub struct RGroup {
    pub color: u8,
    pub stones: Vec<usize>,
    pub libs: Vec<usize>,
}

impl RB {
    pub fn new(h: usize, w: usize) -> RB {
        RB { h, w, c: vec![E; h * w] }
    }
    pub fn n(&self) -> usize {
        self.h * self.w
    }
    pub fn at(&self, r: usize, c: usize) -> u8 {
        self.c[r * self.w + c]
    }
    pub fn rc(&self, i: usize) -> (u8, u8) {
        ((i / self.w) as u8, (i % self.w) as u8)
    }
    pub fn nbs(&self, i: usize) -> ([usize; 4], usize) {
        let (r, c) = (i / self.w, i % self.w);
        let mut a = [0; 4];
        let mut n = 0;
        if r > 0 {
            a[n] = i - self.w;
            n += 1;
        }
        if r + 1 < self.h {
            a[n] = i + self.w;
            n += 1;
        }
        if c > 0 {
            a[n] = i - 1;
            n += 1;
        }
        if c + 1 < self.w {
            a[n] = i + 1;
            n += 1;
        }
        (a, n)
    }
    pub fn nb(&self, i: usize) -> Vec<usize> {
        let (a, n) = self.nbs(i);
        a[..n].to_vec()
    }
    /// maximal connected set of points with the same content as `i` (any content), sorted
    pub fn chain(&self, i: usize) -> Vec<usize> {
        let mut seen = vec![false; self.n()];
        let mut out = vec![i];
        seen[i] = true;
        let mut k = 0;
        while k < out.len() {
            let (a, n) = self.nbs(out[k]);
            for &j in &a[..n] {
                if !seen[j] && self.c[j] == self.c[i] {
                    seen[j] = true;
                    out.push(j);
                }
            }
            k += 1;
        }
        out.sort_unstable();
        out
    }
    pub fn libs(&self, chain: &[usize]) -> Vec<usize> {
        let mut v = vec![];
        for &i in chain {
            let (a, n) = self.nbs(i);
            for &j in &a[..n] {
                if self.c[j] == E {
                    v.push(j);
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    }
    pub fn groups(&self) -> Vec<RGroup> {
        let mut seen = vec![false; self.n()];
        let mut v = vec![];
        for i in 0..self.n() {
            if self.c[i] != E && !seen[i] {
                let stones = self.chain(i);
                for &j in &stones {
                    seen[j] = true;
                }
                let libs = self.libs(&stones);
                v.push(RGroup { color: self.c[i], stones, libs });
            }
        }
        v
    }
    /// every group has a liberty
    pub fn is_legal(&self) -> bool {
        self.groups().iter().all(|g| !g.libs.is_empty())
    }
    fn has_lib(&self, i: usize) -> bool {
        // flood with early exit
        let col = self.c[i];
        let mut seen = vec![false; self.n()];
        let mut st = vec![i];
        seen[i] = true;
        while let Some(k) = st.pop() {
            let (a, n) = self.nbs(k);
            for &j in &a[..n] {
                if self.c[j] == E {
                    return true;
                }
                if !seen[j] && self.c[j] == col {
                    seen[j] = true;
                    st.push(j);
                }
            }
        }
        false
    }
    /// `color` plays on the empty point `i`.
    pub fn place(&self, i: usize, color: u8) -> Placed {
        assert!(self.c[i] == E);
        let mut b = self.clone();
        b.c[i] = color;
        let mut captured = vec![];
        let mut groups = 0;
        let (a, n) = self.nbs(i);
        for &j in &a[..n] {
            if b.c[j] == other(color) && !b.has_lib(j) {
                let ch = b.chain(j);
                groups += 1;
                for &k in &ch {
                    b.c[k] = E;
                }
                captured.extend(ch);
            }
        }
        let mut own = vec![];
        if !b.has_lib(i) {
            own = b.chain(i);
            for &k in &own {
                b.c[k] = E;
            }
        }
        captured.sort_unstable();
        Placed { after: b, captured, groups, own }
    }
    pub fn count(&self, col: u8) -> u32 {
        self.c.iter().filter(|&&x| x == col).count() as u32
    }
    /// (black territory, white territory), sorted
    pub fn territories(&self) -> (Vec<usize>, Vec<usize>) {
        let mut seen = vec![false; self.n()];
        let (mut tb, mut tw) = (vec![], vec![]);
        for i in 0..self.n() {
            if self.c[i] == E && !seen[i] {
                let reg = self.chain(i);
                let (mut b, mut w) = (false, false);
                for &k in &reg {
                    seen[k] = true;
                    let (a, n) = self.nbs(k);
                    for &j in &a[..n] {
                        b |= self.c[j] == B;
                        w |= self.c[j] == W;
                    }
                }
                if b && !w {
                    tb.extend(reg);
                } else if w && !b {
                    tw.extend(reg);
                }
            }
        }
        tb.sort_unstable();
        tw.sort_unstable();
        (tb, tw)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for r in 0..self.h {
            for c in 0..self.w {
                s.push([b'.', b'X', b'O'][self.at(r, c) as usize] as char);
            }
            s.push('/');
        }
        s.pop();
        s
    }
    pub fn parse(rows: &[&str]) -> RB {
        let h = rows.len();
        let w = rows[0].len();
        let mut b = RB::new(h, w);
        for (r, l) in rows.iter().enumerate() {
            assert_eq!(l.len(), w, "ragged template {rows:?}");
            for (c, ch) in l.bytes().enumerate() {
                b.c[r * w + c] = match ch {
                    b'X' => B,
                    b'O' => W,
                    _ => E,
                };
            }
        }
        b
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Play(u8, u8),
    Pass,
    Resume,
    Resign(u8),
}

#[derive(Clone)]
pub struct RG {
    pub b: Arc<RB>,
    pub turn: u8,
    pub passes: u32,
    /// board before the immediately preceding play; None after a pass or at the start
    pub prev: Option<Arc<RB>>,
    /// prisoners taken by (black, white)
    pub pris: (u32, u32),
    /// stones put on the board so far by colour (set-up included)
    pub placed: (u32, u32),
    /// Some(colour) after a resignation naming that colour
    pub resigned: Option<u8>,
    /// board before each play
    pub hist: Vec<Arc<RB>>,
    pub ill: u32,
}

impl RG {
    pub fn new(b: RB, turn: u8, ill: u32) -> RG {
        let placed = (b.count(B), b.count(W));
        RG { b: Arc::new(b), turn, passes: 0, prev: None, pris: (0, 0), placed, resigned: None, hist: vec![], ill }
    }
    pub fn over(&self) -> bool {
        self.resigned.is_some() || self.passes >= 2
    }
    /// which prohibitions the play would fall under, whatever the active rules
    pub fn verdict(&self, i: usize) -> u32 {
        self.verdict_with(i, self.ill & SUPER != 0)
    }
    /// which rules the play breaks; repetitions are looked for when asked
    pub fn verdict_with(&self, i: usize, sup: bool) -> u32 {
        if self.b.c[i] != E {
            return OCC;
        }
        let (a, n) = self.b.nbs(i);
        let lib = a[..n].iter().any(|&j| self.b.c[j] == E);
        let enemy = a[..n].iter().any(|&j| self.b.c[j] == other(self.turn));
        if lib && !enemy && !sup {
            return 0; // nothing can be removed: neither suicide nor recapture
        }
        let p = self.b.place(i, self.turn);
        let mut v = 0;
        if !p.own.is_empty() {
            v |= SUI;
        }
        if let Some(prev) = &self.prev {
            // restoring the previous position without a suicide puts back the one stone that the
            // opponent's play took, by taking the stone that took it
            if p.own.is_empty() && **prev == p.after {
                v |= KO;
            }
        }
        if sup && (*self.b == p.after || self.hist.iter().any(|x| **x == p.after)) {
            v |= SUPER;
        }
        v
    }
    pub fn legal(&self, i: usize) -> bool {
        self.verdict(i) & (self.ill | OCC) == 0
    }
    pub fn apply(&self, op: Op) -> RG {
        let mut g = self.clone();
        match op {
            Op::Pass => {
                g.turn = other(g.turn);
                g.passes += 1;
                g.prev = None;
            }
            Op::Resume => g.passes = 0,
            Op::Resign(c) => g.resigned = Some(c),
            Op::Play(r, c) => {
                let i = r as usize * self.b.w + c as usize;
                let p = self.b.place(i, self.turn);
                g.hist.push(self.b.clone());
                g.prev = Some(self.b.clone());
                if self.turn == B {
                    g.placed.0 += 1;
                    g.pris.0 += p.captured.len() as u32;
                    g.pris.1 += p.own.len() as u32;
                } else {
                    g.placed.1 += 1;
                    g.pris.1 += p.captured.len() as u32;
                    g.pris.0 += p.own.len() as u32;
                }
                g.b = Arc::new(p.after);
                g.turn = other(self.turn);
                g.passes = 0;
            }
        }
        g
    }
    /// the point that simple ko forbids now, if any
    pub fn ko_point(&self) -> Option<usize> {
        let prev = self.prev.as_ref()?;
        let d: Vec<usize> = (0..self.b.n()).filter(|&i| self.b.c[i] == E && prev.c[i] == self.turn).collect();
        if d.len() != 1 {
            return None;
        }
        if self.b.place(d[0], self.turn).after == **prev {
            Some(d[0])
        } else {
            None
        }
    }
}

/// The eight symmetries of the board: bit0 flip rows, bit1 flip columns, bit2 transpose (last).
pub fn sym_size(s: u8, h: usize, w: usize) -> (usize, usize) {
    if s & 4 != 0 {
        (w, h)
    } else {
        (h, w)
    }
}
pub fn sym_pt(s: u8, h: usize, w: usize, (r, c): (u8, u8)) -> (u8, u8) {
    let r2 = if s & 1 != 0 { h as u8 - 1 - r } else { r };
    let c2 = if s & 2 != 0 { w as u8 - 1 - c } else { c };
    if s & 4 != 0 {
        (c2, r2)
    } else {
        (r2, c2)
    }
}
pub fn sym_board(s: u8, b: &RB) -> RB {
    let (h, w) = sym_size(s, b.h, b.w);
    let mut o = RB::new(h, w);
    for i in 0..b.n() {
        let (r, c) = sym_pt(s, b.h, b.w, b.rc(i));
        o.c[r as usize * w + c as usize] = b.c[i];
    }
    o
}
pub fn swap_colors(b: &RB) -> RB {
    let mut o = b.clone();
    for x in o.c.iter_mut() {
        if *x != E {
            *x = other(*x);
        }
    }
    o
}
