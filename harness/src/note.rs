//! C06 note timing, velocity and edits; edits of bars, tempos and control changes. C21 groups, clippers, interning.
use crate::api::*;
use crate::common::*;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::can_apply::CanApply;
use klavier_core::channel::Channel;
use klavier_core::clipper;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration};
use klavier_core::fly_weight::FlyWeight;
use klavier_core::have_start_tick::{HaveBaseStartTick, HaveStartTick};
use klavier_core::key::Key;
use klavier_core::models::{ModelChanges, Models};
use klavier_core::note::{Note, NoteBuilder, TickError};
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use std::rc::Rc;

pub fn dur(n: usize, d: u8, k: u8) -> Duration {
    Duration::new(NUMS[n], Denominator::from_value(d).unwrap(), Dots::from_value(k).unwrap())
}
fn tr(p: &str) -> Trimmer {
    let v = |i: &str| i16_(i);
    match p {
        "s" => Trimmer::new(v("s0"), v("s1"), v("s2"), v("s3")),
        _ => Trimmer::new(v("v0"), v("v1"), v("v2"), v("v3")),
    }
}
/// A note all of whose scalar fields are free.
fn any_note() -> Note {
    let d = u8_("den");
    let k = u8_("dots");
    assume(d >= 2 && k <= 7);
    let c = u8_("ch");
    assume(c < 16);
    Note::new(
        u32_("base"),
        Pitch::new(Solfa::E, Octave::Oct4, SharpFlat::Null),
        dur(2, d, k),
        bool_("tie"),
        bool_("tied"),
        Velocity::new(u8_("vel")),
        tr("s"),
        RateTrimmer::new(1.0, 0.5, 1.0, 1.0),
        tr("v"),
        Channel::new(c),
    )
}
fn clampi(v: i64, lo: i64, hi: i64) -> i64 {
    if v < lo { lo } else if v > hi { hi } else { v }
}
fn same_except_start(a: &Note, b: &Note) -> bool {
    a.pitch == b.pitch && same_except_start_pitch(a, b)
}
fn same_except_start_pitch(a: &Note, b: &Note) -> bool {
    a.duration == b.duration && a.tie == b.tie && a.tied == b.tied && a.base_velocity == b.base_velocity
        && a.duration_trimmer == b.duration_trimmer && a.velocity_trimmer == b.velocity_trimmer && a.channel == b.channel
}
fn want_tick(base: u32, d: i32) -> Result<u32, TickError> {
    let t = base as i64 + d as i64;
    if t < 0 { Err(TickError::Minus) } else if t > u32::MAX as i64 { Err(TickError::Overflow) } else { Ok(t as u32) }
}

harness! {
    h_note_start {
        let n = any_note();
        let s = n.start_tick_trimmer.to_array();
        let sum: i64 = s[0] as i64 + s[1] as i64 + s[2] as i64 + s[3] as i64;
        let want = clampi(n.base_start_tick as i64 + sum, 0, u32::MAX as i64) as u32;
        check(n.start_tick() == want, "start is base plus trimmers, clamped");
        check(HaveStartTick::start_tick(&n) == want && n.base_start_tick() == n.base_start_tick, "trait agrees");
        let r = Rc::new(n.clone());
        check(HaveStartTick::start_tick(&r) == want && HaveBaseStartTick::base_start_tick(&r) == n.base_start_tick, "shared note agrees");
        observe("start", want as u64);
        reach("done");
    }
    h_note_velocity {
        let n = any_note();
        let s = n.velocity_trimmer.to_array();
        let sum: i64 = s[0] as i64 + s[1] as i64 + s[2] as i64 + s[3] as i64;
        let want = clampi(n.base_velocity().as_u8() as i64 + sum, 0, 127) as u8;
        check(n.velocity().as_u8() == want, "velocity is base plus trimmers, clamped to 0..=127");
        observe("vel", want as u64);
        reach("done");
    }
    h_note_len {
        // (that a rate trimmer's total is the product of its rates is C04)
        let (_, p) = any_percent("v");
        let k = param(0) as usize;
        let mut a = [PercentU16::HUNDRED; 4];
        a[k] = p;
        let mut n = any_note();
        n.duration = dur(choice("num", 8) as usize, pick("d", &[2u8, 3, 5, 7, 255]), pick("k", &[0u8, 1, 2, 7]));
        n.duration_trimmer = RateTrimmer::from_array(a);
        let want = n.duration_trimmer.sum().apply(n.duration.tick_length());
        check(n.tick_len() == want, "length is the notated length times the rate");
        let m = Note { duration_trimmer: RateTrimmer::ONE, ..n };
        check(m.tick_len() == m.duration.tick_length(), "100% is the notated length");
        observe("len", m.tick_len() as u64);
        reach("done");
    }
    h_note_shift {
        let n = any_note();
        let d = i32_("delta");
        let trim = param(0) == 1;
        let t = n.base_start_tick as i64 + d as i64;
        match n.with_tick_added(d, trim) {
            Err(TickError::Minus) => { reach("err"); check(t < 0, "fails only below tick 0"); }
            Err(_) => check(t > u32::MAX as i64, "fails only beyond the last tick"),
            Ok(m) => {
                reach("ok");
                check(t >= 0 && t <= u32::MAX as i64, "a tick outside the range is an error");
                check(same_except_start(&n, &m), "nothing else changes");
                if trim {
                    check(m.base_start_tick == n.base_start_tick, "trimming keeps the base tick");
                    check(m.start_tick_trimmer == n.start_tick_trimmer.added(d), "trimming moves the trimmer");
                } else {
                    check(m.base_start_tick as i64 == t, "moved by delta");
                    check(m.start_tick_trimmer == n.start_tick_trimmer, "moving keeps the trimmer");
                }
                observe("start", m.start_tick() as u64);
            }
        }
    }
    h_note_drag {
        let n = any_note();
        let (d, p) = (i32_("delta"), i32_("pdelta"));
        let t = n.base_start_tick as i64 + d as i64;
        assume(t >= 0 && t <= u32::MAX as i64);
        let pitch = n.pitch.with_score_offset_delta(p);
        assume(pitch.is_ok());
        let m = n.drag(d, p);
        check(m.base_start_tick as i64 == t, "moved by delta");
        check(Ok(m.pitch) == pitch.map_err(|_| ()), "pitch moved along the staff");
        check(m.start_tick_trimmer == n.start_tick_trimmer && same_except_start_pitch(&n, &m), "nothing else changes");
        reach("done");
    }
    h_note_dots {
        let n = any_note();
        let d = i32_("delta");
        let want = n.duration.dots.value() as i64 + d as i64;
        match n.add_dots(d) {
            Ok(m) => {
                reach("ok");
                check(want >= 0 && want <= 7, "0 to 7 dots");
                check(m.duration.dots.value() as i64 == want, "dots added");
                check(m.duration.numerator == n.duration.numerator && m.duration.denominator == n.duration.denominator, "only the dots change");
                let back = Note { duration: n.duration, ..m };
                check(back == n, "nothing else changes");
            }
            Err(_) => { reach("err"); check(want < 0 || want > 7, "rejected a valid number of dots"); }
        }
    }
    h_note_tie {
        let n = any_note();
        let m = n.toggle_tie();
        let s = (n.tie, n.tied);
        let want = match s { (false, false) => (true, false), (true, false) => (false, true), (false, true) => (true, true), _ => (false, false) };
        check((m.tie, m.tied) == want, "tie cycle");
        let back = Note { tie: n.tie, tied: n.tied, ..m.clone() };
        check(back == n, "nothing else changes");
        check(m.toggle_tie().toggle_tie().toggle_tie() == n, "four toggles restore the note");
        reach("done");
    }
    h_note_pitch_edit {
        let mut n = any_note();
        let s = choice("solfa", 7) as usize;
        let o = choice("oct", 11) as i32;
        let a = choice("acc", 5) as usize;
        let sf = [SharpFlat::Null, SharpFlat::Sharp, SharpFlat::Flat, SharpFlat::DoubleSharp, SharpFlat::DoubleFlat][a];
        let so = [Solfa::C, Solfa::D, Solfa::E, Solfa::F, Solfa::G, Solfa::A, Solfa::B][s];
        let p = Pitch::value_of(so, Octave::value_of(o - 2).unwrap(), sf);
        assume(p.is_ok());
        let p = match p { Ok(p) => p, Err(_) => return };
        n.pitch = p;
        let op = choice("op", 5);
        let (r, w) = match op {
            0 => (n.up_score_offset(), p.up()),
            1 => (n.down_score_offset(), p.down()),
            2 => (n.toggle_sharp(), p.toggle_sharp()),
            3 => (n.toggle_flat(), p.toggle_flat()),
            _ => (n.toggle_natural(), p.toggle_natural()),
        };
        match (r, w) {
            (Ok(m), Ok(q)) => {
                reach("ok");
                check(m.pitch == q, "pitch edited");
                check(Note { pitch: p, ..m } == n, "nothing else changes");
            }
            (Err(_), Err(_)) => reach("err"),
            _ => check(false, "note edit agrees with pitch edit"),
        }
    }
    h_note_duration_edit {
        let n = any_note();
        let d2 = u8_("d2");
        let k2 = u8_("k2");
        assume(d2 >= 2 && k2 <= 7);
        let d = dur(choice("num", 8) as usize, d2, k2);
        let m = n.with_duration(d);
        check(m.duration == d && Note { duration: n.duration, ..m } == n, "with_duration changes only the duration");
        let m = n.with_duration_numerator(d.numerator);
        check(m.duration.numerator == d.numerator, "numerator set");
        check(m.duration.denominator == n.duration.denominator && m.duration.dots == n.duration.dots, "dots and denominator kept");
        check(Note { duration: n.duration, ..m } == n, "nothing else changes");
        reach("done");
    }
    h_event_shift {
        let (tick, d) = (u32_("tick"), i32_("delta"));
        let want = want_tick(tick, d);
        let k = param(0);
        let same = match k {
            0 => {
                let b = Bar::new(tick, Some(Rhythm::value_of(3, 4).unwrap()), Some(Key::FLAT_2), RepeatSet::EMPTY.try_add(Repeat::Start).unwrap());
                match b.with_tick_added(d) {
                    Ok(c) => { check(Bar { start_tick: b.start_tick, ..c } == b, "nothing else changes"); Ok(c.start_tick) }
                    Err(e) => Err(e),
                }
            }
            1 => {
                let b = Tempo { start_tick: tick, value: TempoValue::safe_new(u16_("v")) };
                match b.with_tick_added(d) {
                    Ok(c) => { check(Tempo { start_tick: b.start_tick, ..c } == b, "nothing else changes"); Ok(c.start_tick) }
                    Err(e) => Err(e),
                }
            }
            _ => {
                let b = any_ctrl(tick);
                match b.with_tick_added(d) {
                    Ok(c) => { check(CtrlChg { start_tick: b.start_tick, ..c } == b, "nothing else changes"); Ok(c.start_tick) }
                    Err(e) => Err(e),
                }
            }
        };
        if want.is_ok() { reach("ok") } else { reach("err") }
        check(same == want, "moved by delta or out of range");
    }
    h_event_drag {
        let (tick, d) = (u32_("tick"), i32_("delta"));
        let t = tick as i64 + d as i64;
        assume(t >= 0 && t <= u32::MAX as i64);
        let b = Bar::new(tick, None, Some(Key::SHARP_3), RepeatSet::EMPTY);
        check(b.drag(d) == Bar { start_tick: t as u32, ..b }, "bar moved, nothing else");
        let c = any_ctrl(tick);
        check(c.drag(d) == CtrlChg { start_tick: t as u32, ..c }, "control change moved, nothing else");
        check(c.start_tick() == tick && c.base_start_tick() == tick && b.start_tick() == tick && b.base_start_tick() == tick, "start ticks");
        reach("done");
    }
    h_clipper {
        let (lo, hi, v) = (i32_("lo"), i32_("hi"), i32_("v"));
        assume(lo <= hi);
        let c = clipper::for_i32(lo, hi);
        check(c.clip(v) as i64 == clampi(v as i64, lo as i64, hi as i64), "i32 clipped into the range");
        let (lo, hi, v) = (i16_("slo"), i16_("shi"), i16_("sv"));
        assume(lo <= hi);
        check(clipper::for_i16(lo, hi).clip(v) as i64 == clampi(v as i64, lo as i64, hi as i64), "i16 clipped into the range");
        let (lo, hi, v) = (f32::from_bits(u32_("flo")), f32::from_bits(u32_("fhi")), f32::from_bits(u32_("fv")));
        assume(lo <= hi && !v.is_nan());
        let r = clipper::for_f32(lo, hi).clip(v);
        check(r >= lo && r <= hi && (r == v || ((v < lo && r == lo) || (v > hi && r == hi))), "f32 clipped into the range");
        check(Note::TICK_CLIPPER.clip(i32_("tick")) >= 0, "note ticks are not negative");
        let w = Note::VELOCITY_CLIPPER.clip(i16_("vel"));
        check(w >= 0 && w <= 127, "velocities are 0..=127");
        reach("done");
    }
    h_flyweight {
        // equal values share the first instance, different ones do not
        let xs = [K(u32_("a")), K(u32_("b")), K(u32_("c"))];
        let mut f: FlyWeight<K> = FlyWeight::new();
        let mut i = 0;
        while i < 3 {
            let r = f.intern(&xs[i]);
            check(*r == xs[i], "interned value is equal");
            let mut first = i;
            let mut j = 0;
            while j < i {
                if xs[j] == xs[i] { first = j; break; }
                j += 1;
            }
            check(std::ptr::eq(r, &xs[first]), "the first equal instance is shared");
            i += 1;
        }
        reach("done");
    }
    // groups put together from lists
    h_bundle {
        let ts: Vec<u32> = (0..10).map(|_| u32_("t")).collect();
        let c = |t: u32| CtrlChg::new(t, Velocity::new(1), Channel::default());
        let e = |t: u32| Tempo::new(t, 90);
        let b = |t: u32| Bar::new(t, None, None, RepeatSet::EMPTY);
        let n = |t: u32| NoteBuilder::default().base_start_tick(t).build().unwrap();
        let notes = [Rc::new(n(ts[0])), Rc::new(n(ts[1]))];
        let m = Models::empty().with_softs(vec![c(ts[9])]).with_dumpers(vec![c(ts[7]), c(ts[8])]).with_tempos(vec![e(ts[4]), e(ts[5]), e(ts[6])]).with_bars(vec![b(ts[2]), b(ts[3])]).with_notes(&notes);
        check((m.notes.len() == 2) & (m.bars.len() == 2) & (m.tempos.len() == 3) & (m.dumpers.len() == 2) & (m.softs.len() == 1), "the lists given");
        check((m.notes[0] == *notes[0]) & (m.notes[1] == *notes[1]), "the notes given");
        check((m.bars[0] == b(ts[2])) & (m.bars[1] == b(ts[3])), "the bars given");
        check((m.tempos[0] == e(ts[4])) & (m.tempos[1] == e(ts[5])) & (m.tempos[2] == e(ts[6])), "the tempos given");
        check((m.dumpers[0] == c(ts[7])) & (m.dumpers[1] == c(ts[8])) & (m.softs[0] == c(ts[9])), "the control changes given");
        let x = ModelChanges::empty().with_dumpers(vec![(c(ts[0]), c(ts[1]))]).with_softs(vec![(c(ts[2]), c(ts[3]))]).with_bars(vec![(b(ts[4]), b(ts[5]))]).with_tempos(vec![(e(ts[6]), e(ts[7]))]).with_notes(vec![(n(ts[8]), n(ts[9]))]);
        check((x.dumpers == vec![(c(ts[0]), c(ts[1]))]) & (x.softs == vec![(c(ts[2]), c(ts[3]))]), "the control changes given");
        check((x.bars == vec![(b(ts[4]), b(ts[5]))]) & (x.tempos == vec![(e(ts[6]), e(ts[7]))]) & (x.notes == vec![(n(ts[8]), n(ts[9]))]), "the changes given");
        let y = ModelChanges::with_capacity(1, 2, 3, 4, 5);
        let z = Models::with_capacity(1, 2, 3, 4, 5);
        check(z == Models::empty() && y.notes.is_empty() && y.bars.is_empty() && y.tempos.is_empty() && y.dumpers.is_empty() && y.softs.is_empty(), "empty groups");
        reach("done");
    }
    h_move_to_tick {
        // param: number of notes, bars, tempos, dumpers, softs
        let to = u32_("to");
        let tick = |p: u64, i: u64| -> u32 {
            // of many, only the first is anywhere
            if 0 < i && param(5) == 1 { 50 * i as u32 + p as u32 } else { u32_(["note", "bar", "tempo", "dumper", "soft"][p as usize]) }
        };
        let mut m = Models::empty();
        let mut ticks: Vec<u32> = vec![];
        for i in 0..param(0) {
            let t = tick(0, i);
            ticks.push(t);
            m.notes.push(Note { base_start_tick: t, start_tick_trimmer: Trimmer::new(-3, 0, 0, 0), ..Note::default() });
        }
        for i in 0..param(1) { let t = tick(1, i); ticks.push(t); m.bars.push(Bar::new(t, None, Some(Key::FLAT_1), RepeatSet::EMPTY)); }
        for i in 0..param(2) { let t = tick(2, i); ticks.push(t); m.tempos.push(Tempo::new(t, 77)); }
        for i in 0..param(3) { let t = tick(3, i); ticks.push(t); m.dumpers.push(CtrlChg::new(t, Velocity::new(9), Channel::new(1))); }
        for i in 0..param(4) { let t = tick(4, i); ticks.push(t); m.softs.push(CtrlChg::new(t, Velocity::new(8), Channel::new(2))); }
        let min = ticks.iter().copied().fold(u32::MAX, |a, b| if a < b { a } else { b });
        let max = ticks.iter().copied().fold(0, |a, b| if a > b { a } else { b });
        assume(ticks.is_empty() || max as u64 - min as u64 + to as u64 <= u32::MAX as u64);
        let r = m.clone().move_to_tick(to);
        check(r.notes.len() == m.notes.len() && r.bars.len() == m.bars.len() && r.tempos.len() == m.tempos.len() && r.dumpers.len() == m.dumpers.len() && r.softs.len() == m.softs.len(), "no item lost");
        let moved = |a: u32, b: u32| b as i64 == a as i64 - min as i64 + to as i64;
        for i in 0..m.notes.len() {
            let (a, b) = (&m.notes[i], &r.notes[i]);
            check(moved(a.base_start_tick, b.base_start_tick), "notes shifted by the same distance");
            check(Note { base_start_tick: a.base_start_tick, ..b.clone() } == *a, "notes otherwise unchanged");
        }
        for i in 0..m.bars.len() {
            let (a, b) = (&m.bars[i], &r.bars[i]);
            check(moved(a.start_tick, b.start_tick) && Bar { start_tick: a.start_tick, ..*b } == *a, "bars shifted by the same distance");
        }
        for i in 0..m.tempos.len() {
            let (a, b) = (&m.tempos[i], &r.tempos[i]);
            check(moved(a.start_tick, b.start_tick) && a.value == b.value, "tempos shifted by the same distance");
        }
        for i in 0..m.dumpers.len() {
            let (a, b) = (&m.dumpers[i], &r.dumpers[i]);
            check(moved(a.start_tick, b.start_tick) && CtrlChg { start_tick: a.start_tick, ..*b } == *a, "pedal changes shifted by the same distance");
        }
        for i in 0..m.softs.len() {
            let (a, b) = (&m.softs[i], &r.softs[i]);
            check(moved(a.start_tick, b.start_tick) && CtrlChg { start_tick: a.start_tick, ..*b } == *a, "soft pedal changes shifted by the same distance");
        }
        reach("done");
    }
}
/// All values collide, so that equality alone decides.
#[derive(Clone, Copy, PartialEq, Eq)]
struct K(u32);
impl std::hash::Hash for K {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(7)
    }
}
fn any_ctrl(tick: u32) -> CtrlChg {
    let c = u8_("ch");
    assume(c < 16);
    CtrlChg::new(tick, Velocity::new(u8_("vel")), Channel::new(c))
}
