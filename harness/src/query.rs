//! Project queries (C13), bar locations (C14), replenished bars (C16).
use crate::api::*;
use crate::common::*;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::key::Key;
use klavier_core::location::Location;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::pitch::Pitch;
use klavier_core::project::{LocationError, Project};
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use serdo::undo_store::UndoStore;

fn ctrl(t: u32, v: u8) -> CtrlChg {
    CtrlChg::new(t, Velocity::new(v), Channel::default())
}
fn vel(s: &str) -> u8 {
    let v = u8_(s);
    assume(v <= 127);
    v
}
/// The value of the latest of the events at or before the tick (of those at the same tick the one added last).
fn latest<T: Copy>(events: &[(u32, T)], tick: u32) -> Option<T> {
    let mut best: Option<(u32, T)> = None;
    for e in events {
        if e.0 <= tick && best.map_or(true, |b| b.0 <= e.0) {
            best = Some(*e);
        }
    }
    best.map(|b| b.1)
}
fn rhythm_any(s: &str) -> Rhythm {
    let n = u8_(s);
    assume(1 <= n && n <= 99);
    Rhythm::value_of(n, 4).unwrap()
}
/// Bars at ascending ticks; `rhythms` picks a rhythm for each (None first).
fn bars(n: u64, rhythms: &[Option<Rhythm>]) -> Vec<Bar> {
    let mut v: Vec<Bar> = vec![];
    for i in 0..n as usize {
        let t = u32_("bar");
        if 0 < i {
            assume(v[i - 1].start_tick < t);
        }
        v.push(Bar::new(t, pick("rhythm", rhythms), None, RepeatSet::EMPTY));
    }
    v
}
fn marked(marks: &[Repeat]) -> RepeatSet {
    let mut s = RepeatSet::EMPTY;
    for m in marks {
        s = s.try_add(*m).ok().unwrap();
    }
    s
}
fn r(n: u8, d: u8) -> Rhythm {
    Rhythm::value_of(n, d).unwrap()
}
/// The rhythm in force at the last of the bars.
fn last_rhythm(project: Rhythm, bars: &[Bar]) -> Rhythm {
    bars.iter().rev().find_map(|b| b.rhythm).unwrap_or(project)
}
const RATES: [[f32; 4]; 3] = [[1.0, 1.0, 1.0, 1.0], [2.0, 2.0, 2.0, 2.0], [0.5, 1.5, 1.0, 1.0]];
fn note(t: u32, num: Numerator, dots: u8, rate: [f32; 4]) -> Note {
    Note::new(
        t, Pitch::new(Solfa::G, Octave::Oct5, SharpFlat::Null), Duration::new(num, Denominator::from_value(2).unwrap(), Dots::from_value(dots).unwrap()),
        false, false, Velocity::new(64), Trimmer::ZERO, RateTrimmer::new(rate[0], rate[1], rate[2], rate[3]), Trimmer::ZERO, Channel::default(),
    )
}

harness! {
    // kind, events: one kind of event
    h_query_events {
        let (kind, n) = (param(0), param(1));
        let mut m = Models::empty();
        let mut ev: Vec<(u32, u16)> = vec![];
        for _ in 0..n {
            let t = u32_("at");
            let v = if kind == 0 { any_tempo("value") } else { vel("value") as u16 };
            ev.push((t, v));
            match kind {
                0 => m.tempos.push(Tempo::new(t, v)),
                1 => m.dumpers.push(ctrl(t, v as u8)),
                _ => m.softs.push(ctrl(t, v as u8)),
            }
        }
        let p = holding(Rhythm::default(), Key::NONE, m);
        let tick = u32_("tick");
        let got = match kind {
            0 => p.tempo_at(tick).as_u16(),
            1 => p.dumper_at(tick).as_u8() as u16,
            _ => p.soft_at(tick).as_u8() as u16,
        };
        check(got == latest(&ev, tick).unwrap_or(if kind == 0 { 120 } else { 0 }), "value of the latest event at or before the tick");
        reach("done");
    }
    // bars: rhythm and key changes
    h_query_bars {
        let n = param(0);
        let mut m = Models::empty();
        let mut rs: Vec<(u32, Option<Rhythm>)> = vec![];
        let mut ks: Vec<(u32, Option<Key>)> = vec![];
        let (r0, k0) = (rhythm_any("r0"), any_key("k0"));
        let marks = [RepeatSet::EMPTY, marked(&[Repeat::Start]), marked(&[Repeat::Dc, Repeat::End])];
        for i in 0..n as usize {
            let t = u32_("at");
            if 0 < i {
                assume(rs[i - 1].0 < t);
            }
            let rh = if choice("has rhythm", 2) == 1 { Some(rhythm_any("r")) } else { None };
            let k = if choice("has key", 2) == 1 { Some(any_key("k")) } else { None };
            rs.push((t, rh));
            ks.push((t, k));
            m.bars.push(Bar::new(t, rh, k, pick("marks", &marks)));
        }
        let p = holding(r0, k0, m);
        rs.retain(|x| x.1.is_some());
        ks.retain(|x| x.1.is_some());
        let tick = u32_("tick");
        check(p.rhythm_at(tick) == latest(&rs, tick).flatten().unwrap_or(r0), "rhythm of the latest bar that sets one");
        check(p.key_at(tick) == latest(&ks, tick).flatten().unwrap_or(k0), "key of the latest bar that sets one");
        check(p.rhythm() == r0 && p.key() == k0, "the project's own rhythm and key");
        reach("done");
    }
    // every query through the editor's project interface, one event of each kind
    h_query_store {
        let (_dir, mut s) = open_store();
        let (r0, k0) = (rhythm_any("r0"), any_key("k0"));
        s.set_rhythm(r0);
        s.set_key(k0);
        let (tt, dt, st, bt) = (u32_("tempo at"), u32_("dumper at"), u32_("soft at"), u32_("bar at"));
        let (tv, dv, sv, br, bk) = (any_tempo("tempo"), vel("dumper"), vel("soft"), rhythm_any("r"), any_key("k"));
        let mut m = Models::empty();
        m.tempos.push(Tempo::new(tt, tv));
        m.dumpers.push(ctrl(dt, dv));
        m.softs.push(ctrl(st, sv));
        let bar = Bar::new(bt, Some(br), Some(bk), RepeatSet::EMPTY);
        m.bars.push(bar);
        s.add_cmd(added(m));
        let tick = u32_("tick");
        check(s.tempo_at(tick).as_u16() == if tt <= tick { tv } else { 120 }, "tempo");
        check(s.dumper_at(tick).as_u8() == if dt <= tick { dv } else { 0 }, "dumper");
        check(s.soft_at(tick).as_u8() == if st <= tick { sv } else { 0 }, "soft");
        check(s.rhythm_at(tick) == if bt <= tick { br } else { r0 }, "rhythm");
        check(s.key_at(tick) == if bt <= tick { bk } else { k0 }, "key");
        check(s.rhythm() == r0 && s.key() == k0, "the project's own rhythm and key");
        check(s.bar_no(&bar) == Some(0), "number of the bar");
        let b2 = Bar::new(tick, None, None, RepeatSet::EMPTY);
        check(s.bar_no(&b2).is_some() == (tick == bt), "only bars have a number");
        let l = s.tick_to_location(tick);
        check(l == if tick < bt { Location::new(0, tick as usize) } else { Location::new(1, (tick - bt) as usize) }, "location");
        check(s.location_to_tick(l) == Ok(tick), "tick of the location");
        reach("done");
    }
    h_bar_no {
        let b = bars(param(0), &[None]);
        let mut m = Models::empty();
        m.bars = b.clone();
        let p = holding(Rhythm::default(), Key::NONE, m);
        for i in 0..b.len() {
            check(p.bar_no(&b[i]) == Some(i), "bars are numbered in order of their ticks");
        }
        let t = u32_("tick");
        let want = b.iter().position(|x| x.start_tick == t);
        check(p.bar_no(&Bar::new(t, None, None, RepeatSet::EMPTY)) == want, "only bars have a number");
        reach("done");
    }
    // ticks to locations and back
    h_tick_location {
        let n = param(0);
        let b = bars(n, &[None]);
        let mut m = Models::empty();
        m.bars = b.clone();
        let p = holding(r(3, 4), Key::NONE, m);
        let tick = u32_("tick");
        let l = p.tick_to_location(tick);
        let mut no = 0usize;
        let mut from = 0u32;
        for x in b.iter() {
            if x.start_tick <= tick {
                no += 1;
                from = x.start_tick;
            }
        }
        check(l.bar_no() == no, "bar number: bars that start at or before the tick");
        check(l.offset() == (tick - from) as usize, "offset from that bar's start");
        check(p.location_to_tick(l) == Ok(tick), "the location leads back to the tick");
        if no < b.len() {
            check(from as u64 + (l.offset() as u64) < b[no].start_tick as u64, "the offset does not reach the next bar");
            reach("inside");
        } else {
            reach("after");
        }
        reach("done");
    }
    // any location to a tick
    h_location_tick {
        let n = param(0);
        let b = bars(n, &[None, Some(r(1, 64)), Some(r(2, 4))]);
        let r0 = pick("project rhythm", &[r(4, 4), r(1, 32)]);
        let mut m = Models::empty();
        m.bars = b.clone();
        let p = holding(r0, Key::NONE, m);
        let (no, off) = (usize_("bar no"), usize_("offset"));
        let got = p.location_to_tick(Location::new(no, off));
        // Whatever needs more than 33 bits is out of range anyway.
        let big = (1usize << 32) - 1 < no || (1usize << 32) - 1 < off;
        let want = if big {
            None
        } else if no == 0 {
            Some(off)
        } else if no <= b.len() {
            Some(b[no - 1].start_tick as usize + off)
        } else {
            let len = last_rhythm(r0, &b).tick_len() as usize;
            let (last, from) = match b.last() { Some(x) => (b.len(), x.start_tick as usize), None => (0, 0) };
            Some((no - last) * len + off + from)
        };
        let want = want.filter(|t| *t <= u32::MAX as usize);
        match got {
            Ok(t) => { reach("ok"); check(want.map(|w| w as u32) == Some(t), "start of the bar, continuing with the last rhythm, plus the offset"); }
            Err(LocationError::Overflow) => { reach("err"); check(want.is_none(), "an error only when the tick does not exist"); }
        }
    }
    // kind of the item added, existing bars, kind of an earlier item (+ 1), rhythm
    h_replenish {
        let (kind, n, earlier) = (param(0), param(1), param(2));
        let rs = [None, Some(r(99, 2)), Some(r(3, 8))];
        let b = bars(n, &rs);
        let r0 = [r(4, 4), r(99, 2)][param(3) as usize % 2];
        let mut m = Models::empty();
        m.bars = b.clone();
        if 0 < n {
            m.bars[0].repeats = RepeatSet::EMPTY.try_add(Repeat::Start).ok().unwrap();
            m.bars[0].key = Some(Key::FLAT_2);
        }
        let b = m.bars.clone();
        let mut end = 0u32;
        if earlier == 1 {
            let (rate, dots) = [(1, 7), (2, 0)][param(3) as usize / 2];
            let x = note(u32_("earlier"), Numerator::Whole, dots, RATES[rate]);
            end = x.start_tick().saturating_add(x.tick_len());
            m.notes.push(x);
        }
        if 2 <= earlier {
            let t = u32_("earlier");
            end = t;
            match earlier {
                2 => m.tempos.push(Tempo::new(t, 90)),
                3 => m.dumpers.push(ctrl(t, 1)),
                _ => m.softs.push(ctrl(t, 1)),
            }
        }
        let (_dir, mut s) = open_store();
        s.set_rhythm(r0);
        s.add_cmd(added(m));
        let t = u32_("tick");
        let (x, mine) = if kind == 0 {
            let x = note(t, pick("num", &[Numerator::Whole, Numerator::N128th]), 0, RATES[0]);
            let e = x.start_tick().saturating_add(x.tick_len());
            (Some(x), e)
        } else {
            (None, t)
        };
        let end = end.max(mine);
        let len = last_rhythm(r0, &b).tick_len();
        let last = b.last().map(|x| x.start_tick).unwrap_or(0);
        // At most two or three bars are needed.
        assume(end as u64 <= last as u64 + (if kind == 0 && earlier == 1 { 2 } else { 3 }) * len as u64);
        match (kind, x) {
            (0, Some(x)) => s.add_note(x, false),
            (1, _) => s.add_tempo(Tempo::new(t, 100), true),
            (2, _) => s.add_dumper(ctrl(t, 9), false),
            (3, _) => s.add_soft(ctrl(t, 9), true),
            _ => {
                let mut a = Models::empty();
                a.softs.push(ctrl(t, 9));
                s.bulk_add(a, klavier_core::project::ModelChangeMetadata::new())
            }
        }
        let mut want = b.clone();
        let mut at = last as u64;
        while at < end as u64 {
            at += len as u64;
            if at > u32::MAX as u64 {
                reach("at the end");
                break;
            }
            want.push(Bar::new(at as u32, None, None, RepeatSet::EMPTY));
            reach("replenished");
        }
        let got = s.bar_repo();
        check(got.len() == want.len(), "number of bars");
        for (g, w) in got.iter().zip(want.iter()) {
            check(g.0 == w.start_tick && g.1 == *w, "existing bars are kept, missing ones continue the last rhythm");
        }
        check(s.can_undo(), "one step to take back");
        s.undo();
        let got = s.bar_repo();
        check(got.len() == b.len(), "undo takes the replenished bars back");
        for (g, w) in got.iter().zip(b.iter()) {
            check(g.0 == w.start_tick && g.1 == *w, "undo keeps the existing bars");
        }
        reach("done");
    }
    // kind, events: many at certain ticks, given in any rotation, and one anywhere
    h_query_many {
        let (kind, n) = (param(0), param(1) as u32);
        let mut m = Models::empty();
        let mut ev: Vec<(u32, u16)> = vec![];
        let first = choice("rotation", 3) as u32 * 2;
        let mut put = |t: u32, v: u16| {
            ev.push((t, v));
            match kind {
                0 => m.tempos.push(Tempo::new(t, v)),
                1 => m.dumpers.push(ctrl(t, v as u8)),
                _ => m.softs.push(ctrl(t, v as u8)),
            }
        };
        for i in 0..n {
            let j = (first + i) % n;
            put(70 * j + j * j, 10 + j as u16);
            if i == n / 2 {
                put(u32_("at"), if kind == 0 { any_tempo("value") } else { vel("value") as u16 });
            }
        }
        let p = holding(Rhythm::default(), Key::NONE, m);
        let tick = u32_("tick");
        let got = match kind {
            0 => p.tempo_at(tick).as_u16(),
            1 => p.dumper_at(tick).as_u8() as u16,
            _ => p.soft_at(tick).as_u8() as u16,
        };
        check(got == latest(&ev, tick).unwrap_or(if kind == 0 { 120 } else { 0 }), "value of the latest event at or before the tick");
        reach("done");
    }
    // bars: many at certain ticks, one of them with a rhythm, two with a key
    h_query_bars_many {
        let n = param(0) as usize;
        let mut m = Models::empty();
        let (r0, k0) = (rhythm_any("r0"), any_key("k0"));
        let (a, b) = (choice("rhythm on", n as u64) as usize, choice("key on", n as u64) as usize);
        let (ra, kb) = (rhythm_any("r"), any_key("k"));
        let mut rs: Vec<(u32, Rhythm)> = vec![];
        let mut ks: Vec<(u32, Key)> = vec![];
        for i in 0..n {
            let t = 960 * i as u32 + 100;
            let rh = if i == a { Some(ra) } else { None };
            let k = if i == b { Some(kb) } else if i == 2 { Some(Key::SHARP_1) } else { None };
            if let Some(x) = rh { rs.push((t, x)); }
            if let Some(x) = k { ks.push((t, x)); }
            m.bars.push(Bar::new(t, rh, k, if i % 3 == 1 { marked(&[Repeat::Start]) } else { RepeatSet::EMPTY }));
        }
        let p = holding(r0, k0, m);
        let tick = u32_("tick");
        check(p.rhythm_at(tick) == latest(&rs, tick).unwrap_or(r0), "rhythm of the latest bar that sets one");
        check(p.key_at(tick) == latest(&ks, tick).unwrap_or(k0), "key of the latest bar that sets one");
        reach("done");
    }
    // many bars at certain ticks: ticks to locations, locations to ticks
    h_location_many {
        let n = param(0) as usize;
        let a = choice("rhythm on", n as u64) as usize;
        let mut m = Models::empty();
        for i in 0..n {
            m.bars.push(Bar::new(700 * i as u32 + i as u32 / 3, if i == a { Some(r(5, 8)) } else { None }, None, RepeatSet::EMPTY));
        }
        let b = m.bars.clone();
        let p = holding(r(3, 4), Key::NONE, m);
        let tick = u32_("tick");
        let l = p.tick_to_location(tick);
        let mut no = 0usize;
        let mut from = 0u32;
        for x in b.iter() {
            if x.start_tick <= tick {
                no += 1;
                from = x.start_tick;
            }
        }
        check(l == Location::new(no, (tick - from) as usize), "the bar that started last and the offset from its start");
        check(p.location_to_tick(l) == Ok(tick), "the location leads back to the tick");
        let (no, off) = (usize_("bar no"), u32_("offset"));
        let no = if no <= n { fork(no as u64) as usize } else { no };
        let want = if no == 0 { Some(off as u64) } else if no <= n { Some(b[no - 1].start_tick as u64 + off as u64) } else if no < 1 << 30 { Some((no - n) as u64 * 600 + b[n - 1].start_tick as u64 + off as u64) } else { None };
        let want = want.filter(|t| *t <= u32::MAX as u64);
        check(p.location_to_tick(Location::new(no, off as usize)).ok().map(|t| t as u64) == want, "start of the bar, continuing with the last rhythm, plus the offset");
        reach("done");
    }
    // kind of the item added, existing bars, missing bars at most: many at certain ticks
    h_replenish_many {
        let (kind, n, most, least) = (param(0), param(1) as usize, param(2), param(3));
        let a = if n == 0 { 0 } else { choice("rhythm on", n as u64) as usize };
        let mut m = Models::empty();
        for i in 0..n {
            m.bars.push(Bar::new(1000 * i as u32, if i == a { Some(r(5, 8)) } else { None }, None, RepeatSet::EMPTY));
        }
        for i in 0..5 {
            m.notes.push(note(100 * i, Numerator::Half, 0, RATES[0]));
            m.tempos.push(Tempo::new(90 * i, 100));
        }
        let b = m.bars.clone();
        let (_dir, mut s) = open_store();
        s.set_rhythm(r(7, 16));
        s.add_cmd(added(m));
        let have = s.bar_repo().len();
        let len = if n == 0 { 420u64 } else { 600 };
        let last = if n == 0 { 0 } else { 1000 * (n as u64 - 1) };
        let t = u32_("tick");
        assume(t as u64 <= last + most * len && 1000 <= t && last + least * len < t as u64);
        let end = match kind {
            0 => { let x = note(t, Numerator::Quarter, 1, RATES[2]); let e = x.start_tick() + x.tick_len(); s.add_note(x, false); e }
            1 => { s.add_tempo(Tempo::new(t, 90), false); t }
            2 => { s.add_dumper(ctrl(t, 3), false); t }
            _ => { let mut a = Models::empty(); a.softs.push(ctrl(t, 9)); a.notes.push(note(5, Numerator::Half, 0, RATES[0])); s.bulk_add(a, klavier_core::project::ModelChangeMetadata::new()); t }
        };
        let mut want: Vec<u64> = b.iter().map(|x| x.start_tick as u64).collect();
        let mut at = last;
        while at < end as u64 {
            at += len;
            want.push(at);
        }
        let got = s.bar_repo();
        check(got.len() == want.len(), "number of bars");
        for (g, w) in got.iter().zip(want.iter()) {
            check(g.0 as u64 == *w && g.1.start_tick == g.0, "missing bars continue the last rhythm");
        }
        s.undo();
        check(s.bar_repo().len() == have, "undo takes the replenished bars back");
        reach("done");
    }
}
