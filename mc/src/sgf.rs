//! C12: a bounded grammar of game records, each imported and compared with the game it records.
use crate::engine::*;
use crate::ensure;
use crate::oracles::*;
use crate::props::full_state;
use crate::refgo::*;
use goban::pieces::stones::Color;
use goban::rules::game::Game;
use goban::rules::EndGame;

#[derive(Clone, Debug, PartialEq)]
enum Mv {
    At(usize, usize), // row, column
    Pass,             // B[]
    Tt,               // B[tt], a pass on boards up to 19x19
}
#[derive(Clone, Debug)]
struct Rec {
    h: usize,
    w: usize,
    /// how the size is written: 0 nothing (19x19), 1 SZ[n], 2 SZ[columns:rows]
    sz: u8,
    ab: Vec<(usize, usize)>,
    aw: Vec<(usize, usize)>,
    ha: Option<u32>,
    km: Option<f32>,
    ru: Option<&'static str>,
    pl: Option<u8>,
    re: Option<(&'static str, EndGame)>,
    gm: bool,
    /// rotation of the root properties
    rot: usize,
    moves: Vec<(u8, Mv)>,
    /// how the k-th move node is written (see `node`)
    deco: Vec<usize>,
    /// the first move stands in the root node
    root_move: bool,
    /// variation structure: 0 none; k: from the k-th move on the main line is the first of two variations
    var: usize,
}
impl Rec {
    fn new(h: usize, w: usize) -> Rec {
        Rec { h, w, sz: if h == w { 1 } else { 2 }, ab: vec![], aw: vec![], ha: None, km: None, ru: None, pl: None, re: None, gm: false, rot: 0, moves: vec![], deco: vec![], root_move: false, var: 0 }
    }
    fn pt((r, c): (usize, usize)) -> String {
        // column first
        format!("{}{}", (b'a' + c as u8) as char, (b'a' + r as u8) as char)
    }
    fn mv_txt(m: &(u8, Mv)) -> String {
        let c = if m.0 == B { "B" } else { "W" };
        match &m.1 {
            Mv::At(r, k) => format!("{c}[{}]", Rec::pt((*r, *k))),
            Mv::Pass => format!("{c}[]"),
            Mv::Tt => format!("{c}[tt]"),
        }
    }
    fn node(&self, k: usize) -> String {
        let m = Rec::mv_txt(&self.moves[k]);
        match self.deco.get(k).copied().unwrap_or(0) {
            0 => format!(";{m}"),
            1 => format!(";C[comment \\] (;B[aa\\])]{m}"),
            2 => format!(";{m}C[after]"),
            3 => format!(";BL[59]{m}WL[60]"),
            4 => format!(";XX[unknown]N[name]{m}"),
            5 => format!("\n ; {m}\n"),
            6 => format!(";C[only a comment];{m}"),
            7 => format!(";{m};"),
            _ => format!(";LB[aa:1]TR[aa]{m}SQ[aa]"),
        }
    }
    fn text(&self) -> String {
        let mut props: Vec<String> = vec![];
        if self.gm {
            props.push("GM[1]".into());
        }
        match self.sz {
            0 => {}
            1 => props.push(format!("SZ[{}]", self.h)),
            _ => props.push(format!("SZ[{}:{}]", self.w, self.h)),
        }
        if !self.ab.is_empty() {
            props.push(format!("AB{}", self.ab.iter().map(|&p| format!("[{}]", Rec::pt(p))).collect::<String>()));
        }
        if !self.aw.is_empty() {
            props.push(format!("AW{}", self.aw.iter().map(|&p| format!("[{}]", Rec::pt(p))).collect::<String>()));
        }
        if let Some(x) = self.ha {
            props.push(format!("HA[{x}]"));
        }
        if let Some(x) = self.km {
            props.push(format!("KM[{x}]"));
        }
        if let Some(x) = self.ru {
            props.push(format!("RU[{x}]"));
        }
        if let Some(x) = self.pl {
            props.push(format!("PL[{}]", if x == B { "B" } else { "W" }));
        }
        if let Some((x, _)) = &self.re {
            props.push(format!("RE[{x}]"));
        }
        if !props.is_empty() {
            let n = props.len();
            props.rotate_left(self.rot % n);
            if self.rot >= n {
                props.reverse();
            }
        }
        let mut from = 0;
        if self.root_move && !self.moves.is_empty() {
            // the order of properties in a node means nothing
            let at = if self.rot % 3 == 2 { self.rot % (props.len() + 1) } else { props.len() };
            props.insert(at, Rec::mv_txt(&self.moves[0]));
            from = 1;
        }
        let mut s = format!("(;{}", props.join(""));
        let cut = if self.var == 0 { usize::MAX } else { (self.var - 1).max(from) };
        for k in from..self.moves.len() {
            if k == cut {
                s += "(";
            }
            s += &self.node(k);
        }
        if cut <= self.moves.len().saturating_sub(1) && self.moves.len() > from {
            s += ")(;B[];W[];B[])";
        }
        s + ")"
    }
    /// Err(true): the record must be refused; Err(false): it may be refused or not
    fn model(&self) -> Result<(Scn, RG, Option<EndGame>), bool> {
        let mut s = Scn::new("sgf", self.h, self.w);
        s.ops = OP_PASS;
        let (ill, sco, komi) = if self.ru == Some("Japanese") { (KO | SUI, 6, 6.5) } else { (KO | SUPER | SUI, 3, 7.5) };
        s.ill = ill;
        s.sco = sco;
        s.komi = self.km.unwrap_or(komi);
        let mut b = RB::new(self.h, self.w);
        for (l, c) in [(&self.ab, B), (&self.aw, W)] {
            for &(y, x) in l {
                if b.c[y * self.w + x] != E {
                    return Err(true);
                }
                b.c[y * self.w + x] = c;
            }
        }
        if !b.is_legal() {
            return Err(false);
        }
        let turn = self.pl.unwrap_or(if self.ha.unwrap_or(0) > 0 { W } else { B });
        let mut r = RG::new(b, turn, ill);
        for (c, m) in &self.moves {
            r.turn = *c;
            match m {
                Mv::At(y, x) => {
                    let i = y * self.w + x;
                    if r.b.c[i] != E || r.verdict(i) & SUI != 0 {
                        return Err(true);
                    }
                    r = r.apply(Op::Play(*y as u8, *x as u8));
                }
                _ => {
                    if r.passes >= 2 {
                        return Err(false);
                    }
                    r = r.apply(Op::Pass);
                }
            }
        }
        Ok((s, r, self.re.map(|x| x.1)))
    }
}

fn import(txt: &str) -> Result<Result<Game, String>, String> {
    let mut out = None;
    match panics(|| out = Some(Game::from_sgf(txt))) {
        Some(m) => Err(format!("from_sgf panics ({m}) on: {txt}")),
        None => Ok(out.unwrap()),
    }
}

fn check(rec: &Rec, full: bool, st: &mut Stats) -> Res {
    let txt = rec.text();
    let (s, r, out) = match rec.model() {
        Ok(x) => x,
        Err(true) => return refused(&txt, st),
        Err(false) => {
            // outside the domain (stones without liberties set up, a third pass): no panic
            let _ = import(&txt)?;
            st.inc("records outside the domain");
            return Ok(());
        }
    };
    st.states += 1;
    st.transitions += rec.moves.len() as u64 + 1;
    st.traces += 1;
    let g = match import(&txt)? {
        Ok(g) => g,
        Err(e) => return Err(format!("refused ({e}): {txt}")),
    };
    let mut f = || -> Res {
        ensure!(g.komi() == s.komi, "komi is {} but should be {}", g.komi(), s.komi);
        ensure!(g.turn() == col(r.turn), "{:?} is to move but should be {:?}", g.turn(), col(r.turn));
        same_board(g.goban(), &r.b)?;
        ensure!(g.prisoners() == r.pris, "prisoners are {:?} but should be {:?}", g.prisoners(), r.pris);
        match out {
            Some(o) => {
                ensure!(g.outcome() == Some(o) && g.is_over(), "the outcome is {:?} but should be {o:?}", g.outcome());
                check_groups(g.goban(), &r.b, st)?;
                C18.state(&s, &g, &r, st)?;
                let (tb, tw) = r.b.territories();
                let want = score(&r, &tb, &tw, s.sco, s.komi);
                ensure!(g.calculate_score() == want, "the score is {:?} but should be {want:?}", g.calculate_score());
                let l = idx_set("legals()", s.h, s.w, g.legals())?;
                let want: Vec<usize> = (0..r.b.n()).filter(|&i| r.legal(i)).collect();
                same_set("legals()", s.w, &l, &want)?;
            }
            None => {
                if full {
                    full_state(&s, &g, &r)?;
                    for op in s.legal_ops(&r) {
                        if rec.h * rec.w > 16 && matches!(op, Op::Play(y, x) if (y as usize + x as usize) % 5 != 0) {
                            continue;
                        }
                        let mut g1 = g.clone();
                        apply(&mut g1, op);
                        same_board(g1.goban(), &r.apply(op).b)?;
                        st.transitions += 1;
                    }
                } else {
                    ensure!(g.is_over() == r.over(), "is_over() is {}", g.is_over());
                    C07.state(&s, &g, &r, st)?;
                    if !r.over() {
                        let l = idx_set("legals()", s.h, s.w, g.legals())?;
                        let want: Vec<usize> = (0..r.b.n()).filter(|&i| r.legal(i)).collect();
                        same_set("legals()", s.w, &l, &want)?;
                    }
                }
            }
        }
        Ok(())
    };
    let res = f();
    res.map_err(|m| format!("{m}; record: {txt}"))?;
    st.inc("records imported");
    if rec.moves.iter().any(|m| m.1 != Mv::Pass && !matches!(m.1, Mv::At(..))) || rec.moves.iter().any(|m| m.1 == Mv::Pass) {
        st.inc("passes played");
    }
    if rec.deco.iter().any(|d| [1, 3, 4, 8].contains(d)) {
        st.inc("moves not first in their node");
    }
    if rec.root_move {
        st.inc("moves in the root");
    }
    if rec.h != rec.w {
        st.inc("rectangular records");
    }
    if rec.moves.windows(2).any(|m| m[0].0 == m[1].0) {
        st.inc("two moves in a row of one colour");
    }
    if rec.var > 0 {
        st.inc("records with variations");
    }
    if st.samples.len() < 3 {
        st.samples.push(txt);
    }
    Ok(())
}

fn refused(txt: &str, st: &mut Stats) -> Res {
    st.states += 1;
    match import(txt)? {
        Err(_) => {
            st.inc("records refused");
            Ok(())
        }
        Ok(g) => Err(format!("{txt} is not a supported record but gives the game {}", digest(&g).replace('\n', "; "))),
    }
}

pub fn c12(st: &mut Stats) {
    let t = thorough();
    let mut items: Vec<(Rec, bool)> = vec![];
    // 1. every size, written in every way, with stones and moves near all borders
    for h in 1..=19usize {
        for w in 1..=19usize {
            for sz in 0..3u8 {
                if sz == 0 && (h, w) != (19, 19) || sz == 1 && h != w {
                    continue;
                }
                let mut r = Rec::new(h, w);
                r.sz = sz;
                items.push((r.clone(), h * w < 30));
                r.ab = vec![(h - 1, 0)];
                r.aw = vec![(0, w - 1)];
                r.moves = vec![(B, Mv::At(h - 1, w - 1)), (W, Mv::At(h / 2, w / 2)), (B, Mv::At(0, 0)), (W, Mv::Pass)];
                r.ru = Some("Japanese");
                items.push((r.clone(), h * w < 100));
                r.ru = None;
                r.moves.reverse();
                items.push((r, h * w < 30));
            }
        }
    }
    // 2. the root options
    for &(h, w) in &[(3usize, 4usize), (4, 3), (3, 3)] {
        for ru in [None, Some("Japanese"), Some("Chinese")] {
            for km in [None, Some(0.0f32), Some(6.5), Some(-3.5)] {
                for ha in [None, Some(0), Some(2), Some(9)] {
                    for (ab, aw) in [(vec![], vec![]), (vec![(0usize, 0usize), (2, 2)], vec![]), (vec![(0, 1)], vec![(1, 1), (2, 0)]), (vec![], vec![(1, 0)])] {
                        for pl in [None, Some(B), Some(W)] {
                            for re in [
                                None,
                                Some(("B+R", EndGame::WinnerByResign(Color::Black))),
                                Some(("W+Resign", EndGame::WinnerByResign(Color::White))),
                                Some(("W+T", EndGame::WinnerByTime(Color::White))),
                                Some(("B+F", EndGame::WinnerByForfeit(Color::Black))),
                                Some(("W+3.5", EndGame::WinnerByScore(Color::White, 3.5))),
                                Some(("Draw", EndGame::Draw)),
                            ] {
                                let k = items.len();
                                let mut r = Rec::new(h, w);
                                (r.ru, r.km, r.ha, r.ab, r.aw, r.pl, r.re) = (ru, km, ha, ab.clone(), aw.clone(), pl, re);
                                r.gm = k % 3 == 0;
                                r.rot = k % 17;
                                r.moves = match k % 4 {
                                    0 => vec![],
                                    1 => vec![(B, Mv::At(2, 1)), (W, Mv::At(1, 2))],
                                    2 => vec![(W, Mv::At(1, 2)), (B, Mv::Pass)],
                                    _ => vec![(B, Mv::Tt), (W, Mv::Pass)],
                                };
                                r.root_move = k % 5 == 0;
                                items.push((r, k % if t { 2 } else { 9 } == 0));
                            }
                        }
                    }
                }
            }
        }
    }
    // 3. all move lists over a small board, colours free
    for &(h, w, len) in &[(2usize, 3usize, 3usize), (3, 2, 3), (3, 3, 3), (1, 3, if t { 6 } else { 5 }), (2, 2, if t { 6 } else { 5 })] {
        let mut alphabet: Vec<(u8, Mv)> = vec![];
        for c in [B, W] {
            for y in 0..h {
                for x in 0..w {
                    alphabet.push((c, Mv::At(y, x)));
                }
            }
            alphabet.push((c, Mv::Pass));
        }
        alphabet.push((B, Mv::Tt));
        let n = alphabet.len();
        for len in 1..=len {
            for code in 0..n.pow(len as u32) {
                let mut r = Rec::new(h, w);
                let mut c = code;
                for _ in 0..len {
                    r.moves.push(alphabet[c % n].clone());
                    c /= n;
                }
                r.ru = [None, Some("Japanese")][code % 2];
                items.push((r, false));
            }
        }
    }
    // 4. where in the node the move stands, and variations
    for d in 0..9usize.pow(3) {
        for root in [false, true] {
            for var in 0..4 {
                let mut r = Rec::new(5, 4);
                r.moves = vec![(B, Mv::At(4, 0)), (W, Mv::At(0, 3)), (B, Mv::At(2, 2))];
                r.deco = vec![d % 9, d / 9 % 9, d / 81];
                r.root_move = root;
                r.var = var;
                r.ru = Some("Japanese");
                items.push((r, d % 50 == 0));
            }
        }
    }
    // 5. captures, ko, and long lines on larger boards
    for &(h, w) in &[(19usize, 19usize), (9, 9), (4, 7), (7, 4)] {
        for sz in [1u8, 2] {
            if sz == 1 && h != w {
                continue;
            }
            let mut r = Rec::new(h, w);
            r.sz = sz;
            let p = |y: usize, x: usize| Mv::At(y, x);
            r.moves = vec![(B, p(0, 1)), (W, p(0, 2)), (B, p(1, 0)), (W, p(1, 3)), (B, p(2, 1)), (W, p(2, 2)), (B, p(1, 2)), (W, p(1, 1)), (B, p(3, 3)), (W, p(3, 2)), (B, p(1, 2))];
            for n in 0..=r.moves.len() {
                let mut q = r.clone();
                q.moves.truncate(n);
                items.push((q, true));
            }
        }
    }
    // long games, cut at every length up to some hundred moves
    for &(h, w, len, step) in &[(5usize, 5usize, 300usize, 7usize), (3, 4, 300, 11), (19, 19, 700, if t { 13 } else { 37 }), (13, 18, 500, if t { 13 } else { 41 }), (1, 19, 120, 5)] {
        let mut g = RG::new(RB::new(h, w), B, KO | SUI);
        let mut r = Rec::new(h, w);
        for k in 0..len {
            if k % step == 0 || (250..262).contains(&k) {
                let mut q = r.clone();
                q.ru = [None, Some("Japanese")][k % 2];
                q.km = [None, Some(0.5)][k / 2 % 2];
                q.root_move = k % 3 == 0;
                q.deco = (0..k).map(|j| j * 7 / 3 % 9).collect();
                items.push((q, k < 60));
            }
            g.hist.clear();
            let cand: Vec<usize> = (0..h * w).filter(|&i| g.legal(i)).collect();
            let (op, m) = if cand.is_empty() && g.passes < 2 || k % 53 == 52 {
                (Op::Pass, [Mv::Pass, Mv::Tt][k % 2].clone())
            } else if cand.is_empty() {
                break;
            } else {
                let i = cand[(k * 5 + k / 7) % cand.len()];
                let (y, x) = g.b.rc(i);
                (Op::Play(y, x), Mv::At(y as usize, x as usize))
            };
            r.moves.push((g.turn, m));
            g = g.apply(op);
        }
    }
    let chunks: Vec<&[(Rec, bool)]> = items.chunks(200).collect();
    let ok = par_each(&chunks, st, |ch, st| {
        for (r, full) in *ch {
            if !case(|| format!("record {}", r.text()), st, |st| check(r, *full, st)) {
                return;
            }
        }
    });
    if !ok {
        return;
    }
    // 6. not supported: an error, never a panic, never another game
    let mut bad: Vec<String> = vec![];
    for s in ["", "(", ")", "hello", "(;SZ[0])", "(;SZ[x])", "(;SZ[])", "(;SZ[-9])", "(;SZ[9:])", "(;SZ[:9])", "(;SZ[0:5])", "(;SZ[5:0])", ";B[aa]", "(B[aa])", "(;B[aa]", "(;B)", "(;SZ[9];SZ[9])"] {
        bad.push(s.into());
    }
    for n in (20..=600i64).chain([1000, 65536 + 9, 65555, 4294967296 + 9, 4294967295]) {
        bad.push(format!("(;SZ[{n}])"));
        bad.push(format!("(;SZ[{n}:9])"));
        bad.push(format!("(;SZ[9:{n}])"));
        bad.push(format!("(;SZ[{n}:{n}]RU[Japanese];B[aa])"));
    }
    for g in [0, 2, 3, 4, 40, 255] {
        bad.push(format!("(;GM[{g}])"));
        bad.push(format!("(;SZ[9]GM[{g}];B[aa])"));
    }
    for r in ["AGA", "GOE", "NZ", "Ing", "japanese", "JP", "Tromp-Taylor", ""] {
        bad.push(format!("(;RU[{r}])"));
        bad.push(format!("(;SZ[5]RU[{r}]KM[5.5];B[aa])"));
    }
    for p in ["", "X", "b", "1", "BW", "Black2", "?"] {
        bad.push(format!("(;PL[{p}])"));
        bad.push(format!("(;SZ[5]AB[aa]PL[{p}];B[bb])"));
    }
    // points outside the board, garbled points: in every role
    for (c, r) in [(5usize, 5usize), (4, 6), (19, 19), (1, 3), (9, 2)] {
        let mut pts: Vec<String> = vec!["a".into(), "aaa".into(), "abcd".into(), "a:b".into()];
        for x in b'a'..=b'z' {
            for y in b'a'..=b'z' {
                if (x - b'a') as usize >= c || (y - b'a') as usize >= r {
                    pts.push(format!("{}{}", x as char, y as char));
                }
            }
        }
        for x in b'A'..=b'Z' {
            pts.push(format!("{}a", x as char));
            pts.push(format!("a{}", x as char));
        }
        for p in pts {
            for role in ["AB", "AW"] {
                bad.push(format!("(;SZ[{c}:{r}]{role}[{p}])"));
            }
            if p != "tt" {
                for role in ["B", "W"] {
                    bad.push(format!("(;SZ[{c}:{r}];{role}[{p}])"));
                    bad.push(format!("(;SZ[{c}:{r}];B[aa];{role}[{p}];B[])"));
                }
                bad.push(format!("(;SZ[{c}:{r}]B[{p}])"));
                bad.push(format!("(;SZ[{c}:{r}];C[x]B[{p}])"));
            }
        }
    }
    // stones set up or removed in the middle of the game
    for s in ["(;SZ[5];B[aa];AW[bb])", "(;SZ[5];B[aa];AE[aa])", "(;SZ[5];AB[aa])", "(;SZ[5];B[aa];W[bb]AB[cc])"] {
        bad.push(s.into());
    }
    // suicides, stones and moves on occupied points
    bad.push("(;SZ[5]AB[ba][ab];W[aa])".into());
    bad.push("(;SZ[3:1]AW[ba];B[aa])".into());
    for s in ["(;SZ[5]AB[aa][aa])", "(;SZ[5]AB[aa]AW[aa])", "(;SZ[5]AB[aa];B[aa])", "(;SZ[5]AW[bc];B[bc])", "(;SZ[5];B[aa];W[aa])", "(;SZ[5];B[aa];W[bb];B[bb])", "(;SZ[5]B[aa];W[aa])"] {
        bad.push(s.into());
    }
    let chunks: Vec<&[String]> = bad.chunks(200).collect();
    let ok = par_each(&chunks, st, |ch, st| {
        for s in *ch {
            if !case(|| format!("record {s}"), st, |st| refused(s, st)) {
                return;
            }
        }
    });
    if !ok {
        return;
    }
    // 6b. properties of the root, given again and differently further on: the root's count (or the record is refused)
    let mut again: Vec<(Rec, String)> = vec![];
    for ru in ["Japanese", "Chinese"] {
        for re in [None, Some(("B+R", EndGame::WinnerByResign(Color::Black)))] {
            for (extra, at) in ["KM[0.5]", "RU[Japanese]", "RU[Chinese]", "HA[3]", "RE[W+T]", "RE[Draw]", "KM[-20]HA[0]", "GM[1]", "SZ[5]", "SZ[4:5]", "AP[x]FF[4]CA[UTF-8]"].iter().flat_map(|e| (0..4usize).map(move |a| (*e, a))) {
                if re.is_none() && extra.starts_with("RE") || extra.contains(ru) && at > 0 {
                    continue;
                }
                let mut r = Rec::new(4, 5);
                (r.ru, r.re, r.km, r.ha) = (Some(ru), re, Some(6.0), Some(2));
                r.moves = vec![(W, Mv::At(3, 0)), (B, Mv::At(0, 3)), (W, Mv::At(2, 2))];
                let txt = r.text();
                let parts: Vec<&str> = txt.split(';').collect();
                let mut s = parts[..at.min(2) + 2].join(";");
                s += &format!(";{extra}");
                let rest = parts[at.min(2) + 2..].join(";");
                s += &if at == 3 { format!(";{rest}") } else { rest };
                again.push((r, s));
            }
        }
    }
    let ok = par_each(&again, st, |(r, txt), st| {
        case(|| format!("record {txt}"), st, |st| {
            st.states += 1;
            let (s, m, out) = r.model().map_err(|_| "not in the domain")?;
            if let Ok(g) = import(txt)? {
                ensure!(g.size() == (4, 5) && g.komi() == s.komi && g.outcome() == out && g.turn() == col(m.turn), "size {:?}, komi {}, outcome {:?}, {:?} to move; should be (4, 5), {}, {out:?}, {:?} (from the root)", g.size(), g.komi(), g.outcome(), g.turn(), s.komi, col(m.turn));
                same_board(g.goban(), &m.b)?;
                let (tb, tw) = m.b.territories();
                let want = score(&m, &tb, &tw, s.sco, s.komi);
                ensure!(g.calculate_score() == want, "the score is {:?} but should be {want:?}", g.calculate_score());
                st.inc("root properties given again: the root's count");
            } else {
                st.inc("root properties given again: refused");
            }
            Ok(())
        });
    });
    if !ok {
        return;
    }
    // 7. every one-character change of valid records: no panic
    let valid = [
        "(;GM[1]SZ[5]KM[6.5]RU[Japanese]HA[2]AB[aa][bb]PL[W];W[cc];B[dd];W[];B[tt])",
        "(;SZ[4:3]AW[ab]RE[B+3.5];B[da]C[x];W[ac](;B[bb];W[])(;B[cc]))",
        "(;SZ[2];B[aa];W[];B[ab];W[bb];B[ba])",
    ];
    let alphabet: Vec<char> = "()[];:ABWPLSZUKMRGEHaet0129.-+ \\".chars().collect();
    let mut muts: Vec<String> = vec![];
    for v in valid {
        let ch: Vec<char> = v.chars().collect();
        for i in 0..ch.len() {
            let mut d = ch.clone();
            d.remove(i);
            muts.push(d.iter().collect());
            for &a in &alphabet {
                let mut s = ch.clone();
                s[i] = a;
                muts.push(s.iter().collect());
                let mut s = ch.clone();
                s.insert(i, a);
                muts.push(s.iter().collect());
            }
        }
    }
    let chunks: Vec<&[String]> = muts.chunks(200).collect();
    let ok = par_each(&chunks, st, |ch, st| {
        for s in *ch {
            let ok = case(
                || format!("record {s}"),
                st,
                |st| {
                    st.inc("changed records");
                    st.states += 1;
                    let r = import(s)?;
                    if let Ok(g) = r {
                        // whatever it is, it is a consistent game
                        let (h, w) = g.size();
                        ensure!((1..=19).contains(&h) && (1..=19).contains(&w), "size {:?} from {s}", g.size());
                        let b = rb_of(g.goban(), h as usize, w as usize);
                        ensure!(norm_groups(g.goban()).iter().map(|x| x.1 as u32).sum::<u32>() == b.count(B) + b.count(W), "an inconsistent game from {s}");
                        let _ = digest(&g);
                        st.inc("changed records accepted");
                    }
                    Ok(())
                },
            );
            if !ok {
                return;
            }
        }
    });
    if !ok {
        return;
    }
    known(st);
}

/// findings that are recorded, not repaired (known_findings.txt)
fn known(st: &mut Stats) {
    for (id, txt) in [("sgf-label-split", "(;LB[aé:x])"), ("sgf-label-slice", "(;LB[aaéx])")] {
        case(|| format!("record {txt}"), st, |st| {
            match import(txt) {
                Ok(_) => Ok(()),
                Err(m) => {
                    if known_finding("C12", id) {
                        println!("KNOWN-FINDING: property=C12 {id}: {m}");
                        st.inc("known findings");
                        Ok(())
                    } else {
                        Err(m)
                    }
                }
            }
        });
    }
}
