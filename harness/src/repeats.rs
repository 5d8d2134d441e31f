//! C19 the playing order of tunes with repeat marks; oracle: docs/repeat/{structure,order}.md.
use crate::api::*;
use klavier_core::bar::{Bar, Repeat, RepeatSet, VarIndex};
use klavier_core::global_repeat::RenderRegionWarning;
use klavier_core::repeat::{render_region, RenderRegionError};
use klavier_core::rhythm::Rhythm;

const MAX: usize = 24;
const NONE: usize = usize::MAX;
const START: u32 = 1;
const END: u32 = 2;
/// VAR + k: the k-th variation.
const VAR: u32 = 8;

#[derive(Clone)]
enum Reg {
    Seq(usize, usize),
    Rep(usize, usize),
    /// common part from..vars[0], variations vars[i]..vars[i+1], the last one until the end
    Var(usize, Vec<usize>, usize),
}
#[derive(Clone)]
enum St {
    Idle,
    Seq(usize),
    Rep(usize),
    Var(usize, Vec<usize>),
}
/// The marks of a tune: structure marks per bar, and bar numbers of the other marks.
struct Tune {
    n: usize,
    tick: [u32; MAX],
    mark: [u32; MAX],
    dc: usize,
    ds: usize,
    fine: usize,
    segno: usize,
    coda: [usize; 2],
    rhythm: Rhythm,
    rhythm0: Option<Rhythm>,
}
enum Expect {
    Err(RenderRegionError),
    /// pieces in playing order (piece i lies before bar i), or None where the documentation leaves the order open
    Ok(Option<Vec<usize>>, Vec<RenderRegionWarning>),
}
fn vi(k: usize) -> VarIndex {
    VarIndex::from_value(k as u8).unwrap()
}
impl Tune {
    fn set(&self, i: usize) -> RepeatSet {
        let mut v: Vec<Repeat> = vec![];
        let m = self.mark[i];
        if m >= VAR {
            v.push([Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4][(m - VAR - 1) as usize]);
        } else {
            if m & START != 0 { v.push(Repeat::Start); }
            if m & END != 0 { v.push(Repeat::End); }
        }
        if self.dc == i { v.push(Repeat::Dc); }
        if self.ds == i { v.push(Repeat::Ds); }
        if self.fine == i { v.push(Repeat::Fine); }
        if self.segno == i { v.push(Repeat::Segno); }
        if self.coda[0] == i || self.coda[1] == i { v.push(Repeat::Coda); }
        let mut r = RepeatSet::EMPTY;
        for x in v {
            match r.try_add(x) {
                Ok(s) => r = s,
                Err(_) => assume(false),
            }
        }
        r
    }
    fn jump(&self) -> usize {
        if self.dc != NONE { self.dc } else { self.ds }
    }
    fn expect(&self, open: &mut bool) -> Expect {
        let t = |i: usize| self.tick[i];
        let mut regs: Vec<Reg> = vec![];
        let mut st = St::Idle;
        for i in 0..self.n {
            let m = self.mark[i];
            let (s, e) = (m < VAR && m & START != 0, m < VAR && m & END != 0);
            let var = if m >= VAR { (m - VAR) as usize } else { 0 };
            let jump_here = self.jump() == i;
            st = match st {
                St::Idle | St::Rep(_) => {
                    let (from, implicit) = match st { St::Rep(f) => (f, false), _ => (0, true) };
                    if implicit && (e || var != 0) && self.jump() < i {
                        return Expect::Err(RenderRegionError::DcDsWhileRepeat { tick: t(self.jump()) });
                    }
                    if e {
                        regs.push(Reg::Rep(from, i));
                        if s { St::Rep(i) } else { St::Seq(i) }
                    } else if s {
                        if !implicit { return Expect::Err(RenderRegionError::DuplicatedRepeatStart { tick: t(i) }); }
                        regs.push(Reg::Seq(0, i));
                        St::Rep(i)
                    } else if !implicit && jump_here {
                        return Expect::Err(RenderRegionError::DcDsWhileRepeat { tick: t(i) });
                    } else if var != 0 {
                        if var != 1 { return Expect::Err(RenderRegionError::InvalidRegionIndex { tick: t(i), actual: vi(var), expected: vi(1) }); }
                        St::Var(from, vec![i])
                    } else { st }
                }
                St::Seq(from) => {
                    if e { return Expect::Err(RenderRegionError::OrphanRepeatEnd { tick: t(i) }); }
                    if var != 0 { *open = true; }
                    if s { regs.push(Reg::Seq(from, i)); St::Rep(i) } else { st }
                }
                St::Var(from, mut vs) => {
                    if e { return Expect::Err(RenderRegionError::RepeatInVariation { tick: t(i) }); }
                    if var == vs.len() { St::Var(from, vs) }
                    else if var != 0 && var == vs.len() + 1 { vs.push(i); St::Var(from, vs) }
                    else if var != 0 {
                        let expected = if vs.len() < 4 { vi(vs.len() + 1) } else { vi(4) };
                        return Expect::Err(RenderRegionError::InvalidRegionIndex { tick: t(i), actual: vi(var), expected });
                    } else {
                        regs.push(Reg::Var(from, vs, i));
                        if s { St::Rep(i) } else { St::Seq(i) }
                    }
                }
            };
        }
        match st {
            St::Idle => regs.push(Reg::Seq(0, self.n + 1)),
            St::Seq(from) => regs.push(Reg::Seq(from, self.n + 1)),
            St::Rep(from) => return Expect::Err(RenderRegionError::NoRepeatEnd { tick: t(from) }),
            St::Var(_, vs) => return Expect::Err(RenderRegionError::VariationNotClosed { tick: t(*vs.last().unwrap()) }),
        }
        // once[p]: piece p is played in a pass without repeats
        let mut once = [true; MAX + 1];
        let mut first: Vec<usize> = vec![];
        let jump = self.jump();
        for r in regs.iter() {
            // a region from bar a (the piece after it is a + 1; piece 0 precedes bar 0) until bar b
            let piece = |a: usize, top: bool| if top { 0 } else { a + 1 };
            let top = std::ptr::eq(r, &regs[0]);
            match r {
                Reg::Seq(a, b) => for p in piece(*a, top)..=(*b).min(self.n) {
                    if jump == NONE || p <= jump { first.push(p); }
                },
                Reg::Rep(a, b) => if jump == NONE || *b <= jump {
                    for _ in 0..2 { first.extend(piece(*a, top)..=*b); }
                },
                Reg::Var(a, vs, b) => {
                    let ends: Vec<usize> = vs[1..].iter().copied().chain(std::iter::once(*b)).collect();
                    for k in 0..vs.len() {
                        if jump == NONE || *b <= jump {
                            first.extend(piece(*a, top)..=vs[0]);
                            first.extend(vs[k] + 1..=ends[k]);
                        }
                        if k + 1 < vs.len() { for p in vs[k] + 1..=ends[k] { once[p] = false; } }
                    }
                }
            }
        }
        let mut warn = vec![];
        if jump == NONE { return Expect::Ok(Some(first), warn); }
        // from where the second pass plays
        let top_bar = if self.tick[0] == 0 { if self.n == 1 { NONE } else { 1 } } else { 0 };
        let start = if self.dc == NONE {
            if self.segno == NONE { return Expect::Err(RenderRegionError::NoSegnoForDs { ds_tick: t(self.ds) }); }
            self.segno
        } else if top_bar == NONE {
            // only bar is at the top: D.C. there goes to where we are
            return Expect::Ok(Some((0..=self.n).collect()), warn);
        } else if self.segno != NONE {
            warn.push(RenderRegionWarning::SegnoAndDcFound { segno_tick: t(self.segno), dc_tick: t(self.dc) });
            self.segno
        } else {
            let full = (if self.tick[0] == 0 { self.rhythm0.unwrap_or(self.rhythm) } else { self.rhythm }).tick_len();
            let len = t(self.dc) - if self.dc == 0 { 0 } else { t(self.dc - 1) };
            if t(top_bar) >= full { NONE }
            else if len == full { top_bar }
            else {
                // the two partial bars should complete each other; otherwise the order is open
                if len as u64 + t(top_bar) as u64 != full as u64 { *open = true; }
                NONE
            }
        };
        let coda = if self.coda[1] != NONE {
            if self.fine != NONE && self.fine < self.coda[1] {
                return Expect::Err(RenderRegionError::CodaAfterFine { coda_from: t(self.coda[0]), coda_to: t(self.coda[1]), fine: t(self.fine) });
            }
            true
        } else if self.coda[0] != NONE {
            if self.dc == NONE { return Expect::Err(RenderRegionError::OnlyOneCoda { tick: t(self.coda[0]) }); }
            warn.push(RenderRegionWarning::OrphanCodaFound { coda_tick: t(self.coda[0]) });
            false
        } else { false };
        // marks on a bar whose piece is skipped by the second pass: not covered by the documentation
        for b in [self.fine, if coda { self.coda[0] } else { NONE }, if coda { self.coda[1] } else { NONE }] {
            if b != NONE && !once[b + 1] { *open = true; }
        }
        let mut order = first;
        // bar j stands before piece j + 1; the top of the tune before piece 0
        let mut p = if start == NONE { 0 } else { start + 1 };
        if self.fine != NONE && start != NONE && self.fine <= start { p = self.n + 1; }
        while p <= self.n {
            if p > 0 {
                let j = p - 1;
                if self.fine == j { break; }
                if coda && self.coda[0] == j {
                    p = self.coda[1] + 1;
                    if self.fine == self.coda[1] { break; }
                }
            }
            if once[p] { order.push(p); }
            p += 1;
        }
        Expect::Ok(Some(order), warn)
    }
}
/// Drops empty chunks and joins those that follow each other.
fn normal(v: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut r: Vec<(u32, u32)> = vec![];
    for &(a, b) in v {
        if a == b { continue; }
        match r.last_mut() {
            Some(l) if l.1 == a => l.1 = b,
            _ => r.push((a, b)),
        }
    }
    r
}
fn run(t: &Tune) {
    let bars: Vec<Bar> = (0..t.n).map(|i| Bar::new(t.tick[i], if i == 0 { t.rhythm0 } else { None }, None, t.set(i))).collect();
    let mut open = false;
    let e = t.expect(&mut open);
    match (render_region(t.rhythm, bars.iter()), e) {
        (Err(a), Expect::Err(b)) => {
            reach("err");
            check(open || *a.current_context() == b, "the documented error");
        }
        (Ok((region, warn)), Expect::Ok(order, w)) => {
            let got: Vec<(u32, u32)> = region.to_chunks().iter().map(|c| (c.start_tick(), c.end_tick())).collect();
            if open { reach("open"); return; }
            reach("ok");
            let order = order.unwrap();
            let want: Vec<(u32, u32)> = order.iter().map(|&p| {
                (if p == 0 { 0 } else { t.tick[p - 1] }, if p == t.n { u32::MAX } else { t.tick[p] })
            }).collect();
            let (got, want) = (normal(&got), normal(&want));
            check(got.len() == want.len(), "as many parts as documented");
            if got.len() == want.len() {
                for i in 0..got.len() {
                    check(got[i] == want[i], "the documented playing order");
                }
            }
            check(warn == w, "the documented warnings");
        }
        (Ok(_), Expect::Err(_)) => check(open, "invalid marks are an error"),
        (Err(_), Expect::Ok(..)) => check(open, "valid marks are not an error"),
    }
}
fn ticks(n: usize) -> [u32; MAX] {
    let names = ["t0", "t1", "t2", "t3", "t4", "t5"];
    let mut r = [0; MAX];
    for i in 0..n {
        r[i] = u32_(names[i]);
        if i > 0 { assume(r[i - 1] < r[i]); }
    }
    r
}
fn blank(n: usize) -> Tune {
    let num = u8_("num");
    assume(num >= 1 && num <= 8);
    Tune {
        n, tick: ticks(n), mark: [0; MAX], dc: NONE, ds: NONE, fine: NONE, segno: NONE, coda: [NONE; 2],
        rhythm: Rhythm::value_of(num, 4).unwrap(), rhythm0: None,
    }
}
const MARKS: [u32; 8] = [0, START, END, START | END, VAR + 1, VAR + 2, VAR + 3, VAR + 4];
/// Structure marks of all bars, without marks after the first structural mistake.
fn structure(t: &mut Tune) {
    let names = ["m0", "m1", "m2", "m3", "m4", "m5"];
    // 0 idle or in a repeat start, 1 sequence, 2.. in variation k - 1
    let mut st = 0;
    let mut idle = true;
    for i in 0..t.n {
        let k = choice(names[i], 8) as usize;
        t.mark[i] = MARKS[k];
        let m = MARKS[k];
        let bad = match st {
            0 => m >= VAR + 2 || (m == START && !idle),
            1 => m & END != 0 && m < VAR || m >= VAR,
            v => m < VAR && m & END != 0 || m >= VAR && !(m - VAR == v - 1 || m - VAR == v),
        };
        if bad { return; }
        if m != 0 { idle = false; }
        st = match (st, m) {
            (0, END) => 1,
            (0, x) if x >= VAR => 2,
            (1, START) => 0,
            (v, START) | (v, 0) if v >= 2 => if m == START { 0 } else { 1 },
            (v, x) if v >= 2 => x - VAR + 1,
            (s, _) => s,
        };
        if idle { st = 0; }
    }
}
fn pos(name: &str, n: usize) -> usize {
    let c = choice(name, n as u64 + 1) as usize;
    if c == n { NONE } else { c }
}
fn codas(t: &mut Tune) {
    t.coda[0] = pos("coda0", t.n);
    if t.coda[0] != NONE {
        let c = pos("coda1", t.n);
        assume(c > t.coda[0]);
        t.coda[1] = c;
    }
}

harness! {
    // Repeats and variations, every arrangement of marks on n bars.
    h_structure {
        let mut t = blank(param(0) as usize);
        structure(&mut t);
        run(&t);
    }
    // D.C. (kind 0) or D.S. (1) at bar d of n bars with Fine, Segno and Codas anywhere, no repeats.
    h_global {
        let mut t = blank(param(0) as usize);
        if param(2) == 0 { t.dc = param(1) as usize } else { t.ds = param(1) as usize }
        t.fine = pos("fine", t.n);
        t.segno = pos("segno", t.n);
        codas(&mut t);
        if param(2) == 0 && choice("rhythm0", 2) == 1 {
            let n = u8_("num0");
            assume(n >= 1 && n <= 8);
            t.rhythm0 = Some(Rhythm::value_of(n, 4).unwrap());
        }
        run(&t);
    }
    // Repeats and variations together with D.C./D.S. at bar d; which other marks vary is given by the last parameter.
    h_mixed {
        let mut t = blank(param(0) as usize);
        if param(2) == 0 { t.dc = param(1) as usize } else { t.ds = param(1) as usize }
        let f = param(3);
        if param(2) == 1 { t.segno = choice("segno", t.n as u64) as usize; }
        if f & 1 != 0 { t.fine = choice("fine", t.n as u64) as usize; }
        if f & 2 != 0 { codas(&mut t); }
        structure(&mut t);
        run(&t);
    }
    // A repeat with v variations and D.C. (kind 0) or D.S. (1) somewhere; which other marks vary is given by the last parameter.
    h_variations {
        let v = param(0) as usize;
        let n = v + 2;
        let mut t = blank(n);
        t.mark[0] = [0, START][choice("m0", 2) as usize];
        for i in 0..v {
            t.mark[1 + i] = VAR + 1 + i as u32;
        }
        t.mark[v + 1] = [0, START][choice("m5", 2) as usize];
        let d = choice("d", n as u64) as usize;
        if param(1) == 0 { t.dc = d } else { t.ds = d; t.segno = choice("segno", n as u64) as usize; }
        let f = param(2);
        if f & 1 != 0 { t.fine = choice("fine", n as u64) as usize; }
        if f & 2 != 0 { codas(&mut t); }
        run(&t);
    }
    // Every set of marks on every bar, also repeated ones.
    h_any_sets {
        let n = param(0) as usize;
        let tick = ticks(n);
        let names = ["s0", "s1", "s2"];
        let all = [Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Ds, Repeat::Fine, Repeat::Segno, Repeat::Coda, Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4];
        let allowed = param(1);
        let mut bars = vec![];
        let (mut dcds, mut fines, mut segnos, mut codas) = (vec![], vec![], vec![], vec![]);
        let mut dup: Option<RenderRegionError> = None;
        for i in 0..n {
            let mut r = RepeatSet::EMPTY;
            for m in 0..11 {
                if allowed >> m & 1 == 1 && choice(names[i], 2) == 1 {
                    match r.try_add(all[m]) { Ok(s) => r = s, Err(_) => assume(false) }
                    if dup.is_none() {
                        match all[m] {
                            Repeat::Dc | Repeat::Ds => { dcds.push(i); if dcds.len() > 1 { dup = Some(RenderRegionError::DuplicatedDsDc { tick: [tick[dcds[0]], tick[i]] }) } }
                            Repeat::Fine => { fines.push(i); if fines.len() > 1 { dup = Some(RenderRegionError::DuplicatedFine { tick: [tick[fines[0]], tick[i]] }) } }
                            Repeat::Segno => { segnos.push(i); if segnos.len() > 1 { dup = Some(RenderRegionError::DuplicatedSegno { tick: [tick[segnos[0]], tick[i]] }) } }
                            Repeat::Coda => { codas.push(i); if codas.len() > 2 { dup = Some(RenderRegionError::MoreThanTwoCodas { tick: [tick[codas[0]], tick[codas[1]], tick[i]] }) } }
                            _ => {}
                        }
                    }
                }
            }
            bars.push(Bar::new(tick[i], None, None, r));
        }
        let num = u8_("num");
        assume(num >= 1 && num <= 8);
        match render_region(Rhythm::value_of(num, 4).unwrap(), bars.iter()) {
            Ok((region, _)) => {
                check(dup.is_none(), "marks that may occur once only are an error");
                let cs = region.to_chunks();
                check(cs.iter().all(|c| c.start_tick() <= c.end_tick()), "parts run forwards");
                reach("ok");
            }
            Err(e) => {
                reach("err");
                if allowed & 0b1111_1000_0011 == 0 {
                    // no repeats and variations: doubled marks are found first
                    if let Some(d) = dup { check(*e.current_context() == d, "doubled marks are reported"); }
                }
            }
        }
    }
    // Long tunes: sections of several kinds one after the other, then perhaps D.C. (1) or D.S. (2), Fine (flag 1) or Codas (flag 2) at their ends.
    h_long {
        let (sections, jump, f) = (param(0) as usize, param(1), param(2));
        let mut t = Tune {
            n: 0, tick: [0; MAX], mark: [0; MAX], dc: NONE, ds: NONE, fine: NONE, segno: NONE, coda: [NONE; 2],
            rhythm: Rhythm::value_of(4, 4).unwrap(), rhythm0: None,
        };
        let mut starts = vec![];
        for _ in 0..sections {
            starts.push(t.n);
            let marks: &[u32] = match choice("section", 4) {
                0 => &[0, 0],
                1 => &[START, 0, END],
                2 => &[START, VAR + 1, VAR + 2],
                _ => &[START, VAR + 1, VAR + 2, VAR + 3],
            };
            for m in marks {
                // a section that follows one closed by the same bar
                t.mark[t.n] = *m;
                t.n += 1;
            }
        }
        t.n += 1;
        let mut at = u32_("first");
        assume(at < 1000);
        for i in 0..t.n {
            t.tick[i] = at;
            at += 960;
        }
        match jump {
            1 => t.dc = t.n - 1,
            2 => { t.ds = t.n - 1; t.segno = starts[choice("segno", sections as u64) as usize] }
            _ => {}
        }
        if f & 1 != 0 { t.fine = starts[choice("fine", sections as u64) as usize]; }
        if f & 2 != 0 {
            let (a, b) = (choice("coda0", sections as u64) as usize, choice("coda1", sections as u64 + 1) as usize);
            assume(a < b);
            t.coda = [starts[a], if b == sections { t.n - 1 } else { starts[b] }];
        }
        run(&t);
    }
}
