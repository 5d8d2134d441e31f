//! Edits of a project (C22), taking them back and doing them again (C15).
use crate::api::*;
use crate::common::*;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::{ModelChanges, Models};
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectImpl};
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use klavier_helper::bag_store::BagStoreEvent;
use klavier_helper::store::StoreEvent;
use serdo::undo_store::UndoStore;
use std::rc::Rc;

// Kinds of items.
const NOTE: usize = 0;
const BAR: usize = 1;
const TEMPO: usize = 2;
const DUMPER: usize = 3;
const SOFT: usize = 4;

/// An item: its tick and what else it holds, as one number.
#[derive(Clone, Copy)]
struct It {
    kind: usize,
    tick: u32,
    v: u8,
}
fn item(kind: usize) -> It {
    let (tick, v) = (u32_("tick"), u8_("value"));
    assume(v < if kind == BAR { 15 } else { 128 });
    It { kind, tick, v }
}
fn note(i: &It) -> Note {
    note_of(i.tick, i.v, Numerator::Quarter)
}
/// The value is the note's velocity.
fn note_of(tick: u32, v: u8, num: Numerator) -> Note {
    Note::new(
        tick, Pitch::new(Solfa::G, Octave::Oct5, SharpFlat::Null), Duration::new(num, Denominator::from_value(2).unwrap(), Dots::ZERO),
        tied_notes(), !tied_notes(), Velocity::new(v), Trimmer::new(0, LATE as i16, 0, 0), RateTrimmer::ONE, Trimmer::ZERO, Channel::new(v & 15),
    )
}
/// How much later than at its base tick the note starts.
const LATE: u32 = 10;
fn tied_notes() -> bool {
    param(5) == 1
}
/// The tick under which the item is kept: a note's is where it starts to sound.
fn place(i: &It) -> u32 {
    if i.kind == NOTE { i.tick + LATE } else { i.tick }
}
fn bar(i: &It) -> Bar {
    Bar::new(i.tick, None, Some(Key::try_from(i.v as i8 - 7).unwrap()), if i.v < 8 { RepeatSet::EMPTY } else { RepeatSet::EMPTY.try_add(Repeat::Segno).ok().unwrap() })
}
fn tempo(i: &It) -> Tempo {
    Tempo::new(i.tick, i.v as u16 + 60)
}
fn ctrl(i: &It) -> CtrlChg {
    CtrlChg::new(i.tick, Velocity::new(i.v), Channel::new(i.v & 15))
}
fn models(items: &[It]) -> Models {
    let mut m = Models::empty();
    for i in items {
        match i.kind {
            NOTE => m.notes.push(note(i)),
            BAR => m.bars.push(bar(i)),
            TEMPO => m.tempos.push(tempo(i)),
            DUMPER => m.dumpers.push(ctrl(i)),
            _ => m.softs.push(ctrl(i)),
        }
    }
    m
}

/// Everything a project holds: per kind (key, rest as one number).
struct Snap {
    scalars: [u64; 3],
    of: [Vec<(u32, u64)>; 5],
}
fn note_tag(n: &Note) -> u64 {
    let d = n.duration;
    n.base_start_tick as u64
        ^ (n.base_velocity.as_u8() as u64) << 32
        ^ (n.pitch.value() as u64) << 40
        ^ (d.numerator as u64) << 48
        ^ (d.denominator.value() as u64) << 52
        ^ (d.dots.value() as u64) << 60
        ^ ((n.tie as u64) << 63)
        ^ ((n.tied as u64) << 62)
        ^ (n.start_tick_trimmer.sum() as u64 & 63) << 54
        ^ (n.channel.as_u8() as u64) << 42
}
fn bar_tag(b: &Bar) -> u64 {
    let mut r = 0u64;
    for (i, x) in [Repeat::Start, Repeat::End, Repeat::Segno, Repeat::Var1].iter().enumerate() {
        r |= (b.repeats.contains(*x) as u64) << i;
    }
    let k = match b.key { Some(k) => (k.offset() as u8) as u64, None => 100 };
    let rh = match b.rhythm { Some(r) => r.numerator().value() as u64 * 256 + r.denominator().value() as u64, None => 0 };
    r ^ k << 8 ^ rh << 16
}
fn ctrl_tag(c: &CtrlChg) -> u64 {
    c.velocity.as_u8() as u64 + 1000 * c.channel.as_u8() as u64
}
fn snap(p: &ProjectImpl) -> Snap {
    let mut of: [Vec<(u32, u64)>; 5] = [vec![], vec![], vec![], vec![], vec![]];
    for (k, n) in p.note_repo().iter() {
        check(*k == n.start_tick(), "notes are kept where they start");
        of[NOTE].push((*k, note_tag(n)));
    }
    for (k, b) in p.bar_repo().iter() {
        check(*k == b.start_tick, "bars are kept at their ticks");
        of[BAR].push((*k, bar_tag(b)));
    }
    for (k, t) in p.tempo_repo().iter() {
        check(*k == t.start_tick, "tempos are kept at their ticks");
        of[TEMPO].push((*k, t.value.as_u16() as u64));
    }
    for (k, c) in p.dumper_repo().iter() {
        check(*k == c.start_tick, "dumpers are kept at their ticks");
        of[DUMPER].push((*k, ctrl_tag(c)));
    }
    for (k, c) in p.soft_repo().iter() {
        check(*k == c.start_tick, "softs are kept at their ticks");
        of[SOFT].push((*k, ctrl_tag(c)));
    }
    check(p.note_repo().len() == of[NOTE].len(), "number of notes");
    let g = p.grid().as_u32() as u64;
    let r = p.rhythm();
    Snap { scalars: [r.numerator().value() as u64 * 256 + r.denominator().value() as u64, p.key().offset() as u8 as u64, g], of }
}
fn count(v: &[(u32, u64)], x: (u32, u64)) -> usize {
    let mut n = 0;
    for y in v {
        n += ((y.0 == x.0) & (y.1 == x.1)) as usize;
    }
    n
}
/// The same contents: everything at the same place, notes at one tick in any order.
fn same(a: &Snap, b: &Snap) -> bool {
    let mut ok = (a.scalars[0] == b.scalars[0]) & (a.scalars[1] == b.scalars[1]) & (a.scalars[2] == b.scalars[2]);
    for k in 0..5 {
        if a.of[k].len() != b.of[k].len() {
            return false;
        }
        if k == NOTE {
            for x in a.of[k].iter() {
                ok &= count(&a.of[k], *x) == count(&b.of[k], *x);
            }
        } else {
            for (x, y) in a.of[k].iter().zip(b.of[k].iter()) {
                ok &= (x.0 == y.0) & (x.1 == y.1);
            }
        }
    }
    ok
}
/// What is kept at the tick, if anything.
fn at(v: &[(u32, u64)], tick: u32) -> (bool, u64) {
    let mut r = (false, 0u64);
    for x in v {
        let hit = x.0 == tick;
        r = (r.0 | hit, if hit { x.1 } else { r.1 });
    }
    r
}
fn tag(i: &It) -> u64 {
    match i.kind {
        NOTE => note_tag(&note(i)),
        BAR => bar_tag(&bar(i)),
        TEMPO => i.v as u64 + 60,
        _ => ctrl_tag(&ctrl(i)),
    }
}

const MAX: u32 = u32::MAX;
fn meta() -> ModelChangeMetadata {
    ModelChangeMetadata::new()
}
fn long() -> Rhythm {
    Rhythm::value_of(99, 2).unwrap()
}
/// A store holding the items and one fixed item of every other kind; a bar at the last tick keeps
/// bars from being filled in unless `open`.
fn store(items: &[It], open: bool) -> (impl Sized, Store) {
    let (d, mut s) = open_store();
    s.set_rhythm(if open { long() } else { Rhythm::default() });
    let mut m = models(items);
    let has = |k: usize| items.iter().any(|i| i.kind == k);
    if !has(NOTE) {
        m.notes.push(note_of(480, 33, Numerator::Half));
    }
    if !open {
        m.bars.push(Bar::new(MAX, Some(Rhythm::value_of(3, 8).unwrap()), None, RepeatSet::EMPTY.try_add(Repeat::Start).ok().unwrap()));
    }
    if !has(TEMPO) {
        m.tempos.push(Tempo::new(960, 77));
    }
    if !has(DUMPER) {
        m.dumpers.push(CtrlChg::new(100, Velocity::new(5), Channel::default()));
    }
    if !has(SOFT) {
        m.softs.push(CtrlChg::new(200, Velocity::new(6), Channel::default()));
    }
    s.add_cmd(added(m));
    (d, s)
}
/// `n` items of the kind, in the order of their ticks (notes may share a tick).
fn held(kind: usize, n: u64, open: bool) -> Vec<It> {
    let mut v: Vec<It> = vec![];
    for i in 0..n as usize {
        let x = item(kind);
        near(&x, open);
        if 0 < i {
            assume(if kind == NOTE { place(&v[i - 1]) <= place(&x) } else { v[i - 1].tick < x.tick });
        }
        v.push(x);
    }
    for i in 0..param(6) as usize {
        v.push(fixed(kind, i));
    }
    v
}
/// More items at certain ticks.
fn fixed(kind: usize, i: usize) -> It {
    It { kind, tick: 500 * (i as u32 + 1), v: (i * 4 % 15) as u8 }
}
/// Keeps the number of bars to fill in small; the last tick holds the closing bar otherwise.
fn near(x: &It, open: bool) {
    assume(if open { x.tick < 94000 } else if x.kind == BAR { x.tick < MAX } else { x.kind != NOTE || x.tick <= MAX - LATE });
}
fn undo_redo(s: &mut Store, before: &Snap, after: &Snap) {
    written(s);
    check(s.can_undo(), "an edit can be taken back");
    s.undo();
    check(same(&snap(s.model()), before), "undo restores the project as it was before the edit");
    check(s.can_redo(), "an edit taken back can be done again");
    s.redo();
    check(same(&snap(s.model()), after), "redo restores the edited project");
    s.undo();
    check(same(&snap(s.model()), before), "undo restores the project after redo");
}
fn add_one(s: &mut Store, x: &It, select: bool) {
    match x.kind {
        NOTE => s.add_note(note(x), select),
        BAR => s.add_bar(bar(x), select),
        TEMPO => s.add_tempo(tempo(x), select),
        DUMPER => s.add_dumper(ctrl(x), select),
        _ => s.add_soft(ctrl(x), select),
    }
}
fn changes(kind: usize, from: &[It], to: &[It]) -> ModelChanges {
    let mut c = ModelChanges::empty();
    for (f, t) in from.iter().zip(to.iter()) {
        match kind {
            NOTE => c.notes.push((note(f), note(t))),
            BAR => c.bars.push((bar(f), bar(t))),
            TEMPO => c.tempos.push((tempo(f), tempo(t))),
            DUMPER => c.dumpers.push((ctrl(f), ctrl(t))),
            _ => c.softs.push((ctrl(f), ctrl(t))),
        }
    }
    c
}
const ADD: u64 = 0;
const BULK_ADD: u64 = 1;
const BULK_REMOVE: u64 = 2;
const CHANGE: u64 = 3;
/// Does an edit asking for any `m` items (whether the project has them or not); returns them.
fn edit(s: &mut Store, op: u64, kind: usize, m: u64, open: bool) -> (Vec<It>, Vec<It>) {
    edit_with(s, op, kind, m, open, meta())
}
fn edit_with(s: &mut Store, op: u64, kind: usize, m: u64, open: bool, meta: ModelChangeMetadata) -> (Vec<It>, Vec<It>) {
    let mut asked = vec![];
    for _ in 0..m {
        let x = item(kind);
        near(&x, open);
        asked.push(x);
    }
    // Every other one the project holds, and as many it does not hold.
    let more: Vec<It> = (0..if op == ADD { 0 } else { param(7) as usize }).map(|i| { let x = fixed(kind, i); It { tick: x.tick + if i % 2 == 0 { 0 } else { 3 }, ..x } }).collect();
    asked.extend_from_slice(&more);
    let mut to = vec![];
    match op {
        ADD => add_one(s, &asked[0], meta.need_select == Some(true)),
        BULK_ADD => s.bulk_add(models(&asked), meta),
        BULK_REMOVE => s.bulk_remove(models(&asked), meta),
        _ => {
            for _ in 0..m {
                let x = item(kind);
                near(&x, open);
                to.push(x);
            }
            for (i, x) in more.iter().enumerate() {
                to.push(It { kind, tick: x.tick + if i % 4 == 0 { 500 } else { 7 }, v: x.v + 1 - x.v / 14 * 2 });
            }
            s.change(changes(kind, &asked, &to), meta);
        }
    }
    (asked, to)
}

/// What an observer who applies the events to what it knows holds at the probed place: of a note how
/// many, of anything else whether there is one and which.
struct Mirror {
    kind: usize,
    tick: u32,
    tag: u64,
    notes: usize,
    there: bool,
    now: u64,
    /// Everything added came with this metadata; bars may be filled in with none.
    meta: ModelChangeMetadata,
    bars: bool,
}
impl Mirror {
    fn of(before: &Snap, kind: usize, tick: u32, tag: u64, meta: ModelChangeMetadata, bars: bool) -> Mirror {
        let (there, now) = at(&before.of[kind], tick);
        Mirror { kind, tick, tag, notes: if kind == NOTE { count(&before.of[NOTE], (tick, tag)) } else { 0 }, there, now, meta, bars }
    }
    fn add(&mut self, tick: u32, tag: u64) {
        let hit = tick == self.tick;
        if self.kind == NOTE {
            self.notes += (hit & (tag == self.tag)) as usize;
        } else {
            self.there |= hit;
            self.now = if hit { tag } else { self.now };
        }
    }
    fn remove(&mut self, tick: u32, tag: u64) {
        let hit = tick == self.tick;
        if self.kind == NOTE {
            let mine = (hit & (tag == self.tag)) as usize;
            check(mine <= self.notes, "only notes that are there are reported as removed");
            self.notes = self.notes.wrapping_sub(mine);
        } else {
            check(!hit | (self.there & (self.now == tag)), "only what is there is reported as removed");
            self.there &= !hit;
        }
    }
    /// An item that replaces another at once; the other is reported elsewhere in the same event.
    fn added(&self, m: &ModelChangeMetadata, is_bar: bool) {
        let own = (m.need_select == self.meta.need_select) & (m.dragged == self.meta.dragged);
        let none = m.need_select.is_none() & !m.dragged;
        check(own | (is_bar & self.bars & none), "events carry the metadata of the edit");
    }
    fn events<T>(&mut self, ev: &[StoreEvent<u32, T, ModelChangeMetadata>], tick: fn(&T) -> u32, tag: fn(&T) -> u64) {
        let is_bar = self.kind == BAR;
        for e in ev {
            match e {
                StoreEvent::Added { added, metadata } => {
                    self.added(metadata, is_bar);
                    self.add(tick(added), tag(added));
                }
                StoreEvent::Removed(r) => self.remove(tick(r), tag(r)),
                StoreEvent::ClearedAll => check(false, "nothing is cleared"),
                StoreEvent::BulkAddedRemoved { added, removed: _, metadata } => {
                    self.added(metadata, is_bar);
                    for (k, a) in added {
                        check(*k == tick(a), "reported at its tick");
                        self.add(*k, tag(a));
                    }
                }
                StoreEvent::Changed { from_to, removed: _, metadata } => {
                    self.added(metadata, is_bar);
                    for (f, _) in from_to {
                        self.remove(f.0, tag(&f.1));
                    }
                    for (_, t) in from_to {
                        check(t.0 == tick(&t.1), "reported at its tick");
                        self.add(t.0, tag(&t.1));
                    }
                }
            }
        }
    }
    fn note_events(&mut self, ev: &[BagStoreEvent<u32, Rc<Note>, ModelChangeMetadata>]) {
        for e in ev {
            match e {
                BagStoreEvent::Added { added, metadata } => {
                    self.added(metadata, false);
                    self.add(added.start_tick(), note_tag(added));
                }
                BagStoreEvent::AddedVec { added, metadata } => {
                    self.added(metadata, false);
                    for a in added {
                        self.add(a.start_tick(), note_tag(a));
                    }
                }
                BagStoreEvent::Removed(r) => self.remove(r.start_tick(), note_tag(r)),
                BagStoreEvent::RemovedVec(v) => {
                    for r in v {
                        self.remove(r.start_tick(), note_tag(r));
                    }
                }
                BagStoreEvent::ClearedAll => check(false, "nothing is cleared"),
                BagStoreEvent::BulkAddedRemoved { added, removed, metadata } => {
                    if !added.is_empty() {
                        self.added(metadata, false);
                    }
                    for r in removed {
                        self.remove(r.0, note_tag(&r.1));
                    }
                    for a in added {
                        self.add(a.0, note_tag(&a.1));
                    }
                }
                BagStoreEvent::Changed { from_to, removed, metadata } => {
                    self.added(metadata, false);
                    for (f, _) in from_to {
                        self.remove(f.0, note_tag(&f.1));
                    }
                    for r in removed {
                        self.remove(r.0, note_tag(&r.1));
                    }
                    for (_, t) in from_to {
                        self.add(t.0, note_tag(&t.1));
                    }
                }
            }
        }
    }
    /// Reads what the store tells about the edit and compares with what it holds then.
    fn follow(&mut self, s: &Store, after: &Snap) {
        match self.kind {
            NOTE => self.note_events(s.note_events()),
            BAR => self.events(s.bar_events(), |b| b.start_tick, bar_tag),
            TEMPO => self.events(s.tempo_events(), |t| t.start_tick, |t| t.value.as_u16() as u64),
            DUMPER => self.events(s.dumper_events(), |c| c.start_tick, ctrl_tag),
            _ => self.events(s.soft_events(), |c| c.start_tick, ctrl_tag),
        }
        if self.kind == NOTE {
            check(self.notes == count(&after.of[NOTE], (self.tick, self.tag)), "an observer of the events knows every note");
        } else {
            let got = at(&after.of[self.kind], self.tick);
            check((self.there == got.0) & (!got.0 | (self.now == got.1)), "an observer of the events knows every item");
        }
    }
}
/// After the edit, after taking it back and after doing it again, an observer of the events knows what the project holds.
fn observed(s: &mut Store, before: &Snap, kinds: &[(usize, bool)], meta: ModelChangeMetadata) {
    let after = snap(s.model());
    let (tick, v) = (u32_("probe"), u8_("probe value"));
    assume((v < 128) & (LATE <= tick) & (tick <= MAX - LATE));
    let probe = tag(&It { kind: NOTE, tick: tick - LATE, v });
    for round in 0..3 {
        let (from, to) = if round == 1 { (&after, before) } else { (before, &after) };
        if round == 1 {
            written(s);
            s.undo();
        } else if round == 2 {
            s.redo();
        }
        for (k, bars) in kinds {
            Mirror::of(from, *k, tick, if *k == NOTE { probe } else { 0 }, meta, *bars).follow(s, to);
        }
        s.clear_model_events();
        silent(s);
    }
}
fn silent(s: &Store) {
    let n = Project::note_events(s).len() + s.bar_events().len() + s.tempo_events().len() + s.dumper_events().len() + s.soft_events().len();
    check(n == 0, "events are dropped once read");
}

harness! {
    // rhythm, key and grid
    h_undo_scalars {
        let (_d, mut s) = store(&[], false);
        let (k0, k1) = (any_key("k0"), any_key("k1"));
        let (n0, n1) = (u8_("n0"), u8_("n1"));
        assume((1 <= n0) & (n0 <= 99) & (1 <= n1) & (n1 <= 99));
        let (g0, g1) = (u32_("g0"), u32_("g1"));
        assume((g0 != 0) & (g1 != 0));
        s.set_key(k0);
        s.set_rhythm(Rhythm::value_of(n0, 8).unwrap());
        s.set_grid(Grid::from_u32(g0).unwrap());
        let before = snap(s.model());
        check((before.scalars[0] == n0 as u64 * 256 + 8) & (before.scalars[1] == k0.offset() as u8 as u64) & (before.scalars[2] == g0 as u64), "the rhythm, key and grid set");
        let which = choice("which", 3);
        let d1 = if which == 0 { [2, 8, 64][choice("d1", 3) as usize] } else { 2 };
        match which {
            0 => s.set_rhythm(Rhythm::value_of(n1, d1).unwrap()),
            1 => s.set_key(k1),
            _ => s.set_grid(Grid::from_u32(g1).unwrap()),
        }
        let after = snap(s.model());
        let mut want = snap(s.model());
        want.scalars = before.scalars;
        match which {
            0 => want.scalars[0] = n1 as u64 * 256 + d1 as u64,
            1 => want.scalars[1] = k1.offset() as u8 as u64,
            _ => want.scalars[2] = g1 as u64,
        }
        check(same(&after, &want), "only what was set changes");
        undo_redo(&mut s, &before, &after);
        reach("done");
    }
    // op, kind, items held, items asked for, whether bars may be filled in
    h_undo {
        let (op, kind, n, m, open) = (param(0), param(1) as usize, param(2), param(3), param(4) == 1);
        let items = held(kind, n, open);
        let (_d, mut s) = store(&items, open);
        let before = snap(s.model());
        edit(&mut s, op, kind, m, open);
        let after = snap(s.model());
        undo_redo(&mut s, &before, &after);
        reach("done");
    }
    // op, kind, items held, items asked for
    h_edit {
        let (op, kind, n, m) = (param(0), param(1) as usize, param(2), param(3));
        let items = held(kind, n, false);
        let (_d, mut s) = store(&items, false);
        let before = snap(s.model());
        let (asked, to) = edit(&mut s, op, kind, m, false);
        let after = snap(s.model());
        for k in 0..5 {
            if k == kind {
                continue;
            }
            check(before.of[k].len() == after.of[k].len(), "items of other kinds stay");
            for (x, y) in before.of[k].iter().zip(after.of[k].iter()) {
                check((x.0 == y.0) & (x.1 == y.1), "items of other kinds stay as they were");
            }
        }
        if kind == NOTE {
            // Of any note there are as many as there should be.
            let probe = item(NOTE);
            near(&probe, false);
            let x = (place(&probe), tag(&probe));
            let mut want = count(&before.of[NOTE], x);
            match op {
                BULK_REMOVE => {
                    for a in asked.iter() {
                        let hit = (a.tick == probe.tick) & (a.v == probe.v);
                        want -= (hit & (want != 0)) as usize;
                    }
                }
                CHANGE => {
                    let mut gained = 0usize;
                    for (i, a) in asked.iter().enumerate() {
                        // The i-th request finds its note unless earlier ones used all of them.
                        let mut used = 0usize;
                        for e in asked[..i].iter() {
                            used += ((e.tick == a.tick) & (e.v == a.v)) as usize;
                        }
                        let found = count(&before.of[NOTE], (place(a), tag(a))) > used;
                        let from = (a.tick == probe.tick) & (a.v == probe.v);
                        want -= (found & from) as usize;
                        gained += (found & (to[i].tick == probe.tick) & (to[i].v == probe.v)) as usize;
                    }
                    want += gained;
                }
                _ => {
                    for a in asked.iter() {
                        want += ((a.tick == probe.tick) & (a.v == probe.v)) as usize;
                    }
                }
            }
            check(count(&after.of[NOTE], x) == want, "exactly the notes asked for are added, removed or changed");
            for w in after.of[NOTE].windows(2) {
                check(w[0].0 <= w[1].0, "notes are kept in the order of their ticks");
            }
        } else {
            // Whatever is at any tick is what should be there.
            let tick = u32_("probe");
            let mut want = at(&before.of[kind], tick);
            match op {
                BULK_REMOVE => {
                    for a in asked.iter() {
                        want.0 &= a.tick != tick;
                    }
                }
                CHANGE => {
                    for a in asked.iter() {
                        want.0 &= a.tick != tick;
                    }
                    for (i, a) in asked.iter().enumerate() {
                        let mut found = at(&before.of[kind], a.tick).0;
                        for e in asked[..i].iter() {
                            found &= e.tick != a.tick;
                        }
                        let here = found & (to[i].tick == tick);
                        want = (want.0 | here, if here { tag(&to[i]) } else { want.1 });
                    }
                }
                _ => {
                    for a in asked.iter() {
                        let here = a.tick == tick;
                        want = (want.0 | here, if here { tag(a) } else { want.1 });
                    }
                }
            }
            let got = at(&after.of[kind], tick);
            check((got.0 == want.0) & (!want.0 | (got.1 == want.1)), "exactly the items asked for are added, removed or changed");
            for w in after.of[kind].windows(2) {
                check(w[0].0 < w[1].0, "one item per tick, in the order of the ticks");
            }
        }
        reach("done");
    }
    // notes held, notes asked for, of them surely held
    h_undo_tuplize {
        let (n, m, sure) = (param(0), param(1), param(2) as usize);
        let items = held(NOTE, n, false);
        for i in items.iter() {
            assume(i.tick < 1 << 30);
        }
        let (_d, mut s) = store(&items, false);
        let mut asked = vec![];
        for i in 0..m as usize {
            let x = if i < sure { items[i] } else { item(NOTE) };
            near(&x, false);
            assume(x.tick < 1 << 30);
            asked.push(x);
        }
        let before = snap(s.model());
        s.tuplize(asked.iter().map(|a| Rc::new(note(a))).collect());
        let after = snap(s.model());
        if m < 2 {
            check(same(&before, &after), "fewer than two notes make no tuplet");
            // The step to take back is still the one that filled the project.
            s.undo();
            check(s.model().note_repo().is_empty(), "a command that fails is no step to take back");
            reach("refused");
        } else {
            if sure == m as usize {
                check(before.of[NOTE].len() == after.of[NOTE].len(), "a tuplet has as many notes as were selected");
                let mut kept = true;
                for x in before.of[NOTE].iter() {
                    let mut mine = false;
                    for a in asked.iter() {
                        mine |= (place(a) == x.0) & (tag(a) == x.1);
                    }
                    kept &= mine | (count(&after.of[NOTE], *x) >= count(&before.of[NOTE], *x));
                }
                check(kept, "notes that were not selected stay");
            }
            undo_redo(&mut s, &before, &after);
        }
        reach("done");
    }
    // op, kind, items held, items asked for, whether bars may be filled in: what observers are told
    h_events {
        let (op, kind, n, m, open) = (param(0), param(1) as usize, param(2), param(3), param(4) == 1);
        let items = held(kind, n, open);
        let (_d, mut s) = store(&items, open);
        let before = snap(s.model());
        s.clear_model_events();
        silent(&s);
        check(same(&snap(s.model()), &before), "dropping events changes nothing else");
        let need_select = if op == ADD { pick("select", &[None, Some(true)]) } else { pick("select", &[None, Some(true), Some(false)]) };
        let meta = ModelChangeMetadata { need_select, dragged: op != ADD && bool_("dragged") };
        edit_with(&mut s, op, kind, m, open, meta);
        let mut kinds = vec![(kind, open && kind == BAR)];
        if open && kind != BAR {
            kinds.push((BAR, true));
        }
        observed(&mut s, &before, &kinds, meta);
        reach("done");
    }
    // notes held, notes selected: what observers of a tuplet are told
    h_events_tuplize {
        let (n, m) = (param(0), param(1) as usize);
        let items = held(NOTE, n, false);
        for i in items.iter() {
            assume(i.tick < 1 << 30);
        }
        let (_d, mut s) = store(&items, false);
        let before = snap(s.model());
        s.clear_model_events();
        let mut asked: Vec<It> = items[..m].to_vec();
        for _ in 0..param(2) {
            // a note the project may not hold
            let x = item(NOTE);
            assume(x.tick < 1 << 30);
            asked.push(x);
        }
        s.tuplize(asked.iter().map(|a| Rc::new(note(a))).collect());
        let after = snap(s.model());
        // The notes of a tuplet have other lengths than those selected.
        for i in 0..after.of[NOTE].len() {
            let x = after.of[NOTE][i];
            let mut mirror = Mirror::of(&before, NOTE, x.0, x.1, meta().with_need_select(true), false);
            mirror.follow(&mut s, &after);
        }
        observed(&mut s, &before, &[(NOTE, false)], meta().with_need_select(true));
        reach("done");
    }
    // one item of every kind at once: op
    h_undo_mixed {
        let op = param(0);
        let items: Vec<It> = (0..5).map(|k| { let x = item(k); near(&x, false); x }).collect();
        let (_d, mut s) = store(&items, false);
        let before = snap(s.model());
        let asked: Vec<It> = (0..5).map(|k| { let x = item(k); near(&x, false); x }).collect();
        match op {
            BULK_ADD => s.bulk_add(models(&asked), meta()),
            BULK_REMOVE => s.bulk_remove(models(&asked), meta()),
            _ => {
                let to: Vec<It> = (0..5).map(|k| { let x = item(k); near(&x, false); x }).collect();
                let mut c = ModelChanges::empty();
                c.notes = changes(NOTE, &asked[0..1], &to[0..1]).notes;
                c.bars = changes(BAR, &asked[1..2], &to[1..2]).bars;
                c.tempos = changes(TEMPO, &asked[2..3], &to[2..3]).tempos;
                c.dumpers = changes(DUMPER, &asked[3..4], &to[3..4]).dumpers;
                c.softs = changes(SOFT, &asked[4..5], &to[4..5]).softs;
                s.change(c, meta());
            }
        }
        let after = snap(s.model());
        undo_redo(&mut s, &before, &after);
        reach("done");
    }
    // steps, kind, first edit: any edits one after the other, taken back and done again one by one
    h_history {
        let (steps, kind, first) = (param(0) as usize, param(1) as usize, param(2));
        let (_d, mut s) = store(&[], false);
        let mut snaps = vec![snap(s.model())];
        for i in 0..steps {
            match if i == 0 { first } else { choice("op", 5) } {
                4 => {
                    let k = any_key("key");
                    s.set_key(k)
                }
                op => {
                    edit(&mut s, op, kind, 1, false);
                }
            }
            snaps.push(snap(s.model()));
        }
        written(&mut s);
        for i in (0..steps).rev() {
            s.undo();
            check(same(&snap(s.model()), &snaps[i]), "each undo restores the project before that edit");
        }
        for i in 0..steps {
            s.redo();
            check(same(&snap(s.model()), &snaps[i + 1]), "each redo restores the project after that edit");
        }
        check(!s.can_redo(), "nothing is left to redo");
        s.undo();
        // A new edit replaces what could be redone.
        edit(&mut s, ADD, kind, 1, false);
        written(&mut s);
        check(!s.can_redo(), "an edit drops what could be redone");
        let after = snap(s.model());
        undo_redo(&mut s, &snaps[steps - 1], &after);
        reach("done");
    }
}
