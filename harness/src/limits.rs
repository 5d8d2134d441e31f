//! C26: published limits, constants and defaults are those the types accept and use.
use crate::api::*;
pub use crate::common::*;
use klavier_core::bar::RepeatSet;
use klavier_core::can_apply::CanApply;
use klavier_core::channel::Channel;
use klavier_core::duration::{self, Denominator, Dots, Duration};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::note::{self, Note};
use klavier_core::octave::{self, Octave};
use klavier_core::percent::PercentU16;
use klavier_core::pitch::{self, Pitch};
use klavier_core::play_iter::{self, PlayIter};
use klavier_core::project::ProjectImpl;
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::solfa::Solfa;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::tempo::{self, Tempo, TempoValue};
use klavier_core::trimmer::{self, RateTrimmer, Trimmer};
use klavier_core::undo::{Undo, UndoStore};
use klavier_core::models::Models;
use klavier_core::project::ModelChangeMetadata;
use klavier_core::velocity::{self, Velocity};

harness! {
    h_limits_velocity {
        let v = u8_("v");
        let k = Velocity::new(v).as_u8();
        let within = (velocity::MIN_VALUE <= v) & (v <= velocity::MAX_VALUE);
        check((k == v) == within, "values within the limits are taken, others not");
        check((velocity::MIN.as_u8() <= k) & (k <= velocity::MAX.as_u8()), "between the least and the greatest");
        check((velocity::MIN.as_u8() == velocity::MIN_VALUE) & (velocity::MAX.as_u8() == velocity::MAX_VALUE), "least and greatest");
        let x = i16_("x");
        let c = Note::VELOCITY_CLIPPER.clip(x);
        check((c >= 0) & (c <= 127) & (Velocity::new(c as u8).as_u8() as i16 == c), "clipped to a velocity");
        check((c == x) == ((x >= velocity::MIN_VALUE as i16) & (x <= velocity::MAX_VALUE as i16)), "velocities are not clipped");
        let t = i32_("t");
        let c = Note::TICK_CLIPPER.clip(t);
        check((c >= Note::MIN_TICK) & ((c == t) == (t >= Note::MIN_TICK)), "ticks are clipped to the least one");
        reach("done");
    }
    h_limits_tempo {
        let v = u16_("v");
        let k = TempoValue::safe_new(v);
        let within = (tempo::MIN_TEMPO_VALUE <= v) & (v <= tempo::MAX_TEMPO_VALUE);
        check((k.as_u16() == v) == within, "values within the limits are taken, others not");
        check((tempo::MIN_TEMPO.as_u16() <= k.as_u16()) & (k.as_u16() <= tempo::MAX_TEMPO.as_u16()), "between the least and the greatest");
        check((tempo::MIN_TEMPO.as_u16() == tempo::MIN_TEMPO_VALUE) & (tempo::MAX_TEMPO.as_u16() == tempo::MAX_TEMPO_VALUE), "least and greatest");
        check(k.down().is_err() == (k == tempo::MIN_TEMPO), "only the least has none below");
        check(k.up().is_err() == (k == tempo::MAX_TEMPO), "only the greatest has none above");
        reach("done");
    }
    h_limits_rhythm {
        let v = u8_("v");
        let within = (rhythm::MIN_NUMERATOR <= v) & (v <= rhythm::MAX_NUMERATOR);
        check(rhythm::Numerator::from_value(v).is_ok() == within, "numerators within the limits");
        check((rhythm::MIN_NUMERATOR == 1) & (rhythm::MAX_NUMERATOR == 99), "1 to 99");
        let i = choice("i", 6) as usize;
        let d = rhythm::DENOMINATORS[i];
        check(d.value() == 2 << i, "denominators listed in order");
        check(rhythm::Denominator::from_value(v).is_ok() == ((v == 2) | (v == 4) | (v == 8) | (v == 16) | (v == 32) | (v == 64)), "denominators not listed are refused");
        check(rhythm::Denominator::from_value(d.value()).ok() == Some(d), "listed denominators are taken");
        reach("done");
    }
    h_limits_duration {
        let v = u8_("v");
        check(Denominator::from_value(v).is_some() == ((Duration::MIN_DENOMINATOR <= v) & (v <= Duration::MAX_DENOMINATOR)), "denominators within the limits");
        check(Dots::from_value(v).is_some() == (v <= Duration::MAX_DOT), "dots within the limit");
        check(duration::Numerator::from_ord(v).is_some() == (v <= Duration::MAX_NUMERATOR), "note values within the limit");
        check((Duration::MIN_DENOMINATOR == 2) & (Duration::MAX_DENOMINATOR == 255) & (Duration::MAX_DOT == 7) & (Duration::MAX_NUMERATOR == 7), "the limits");
        let dots = [Dots::ZERO, Dots::ONE, Dots::TWO, Dots::THREE, Dots::FOUR, Dots::FIVE, Dots::SIX, Dots::SEVEN];
        let i = choice("i", 8) as usize;
        check(dots[i].value() as usize == i, "named dots");
        check(NUMS[i].ord() as usize == i, "named note values");
        reach("done");
    }
    // no note is longer than published
    h_limits_tick_len {
        let (n, d, k, dur) = any_duration();
        let len = dur.tick_length();
        check(len < Duration::MAX_TICK_LENGTH as u32, "below the published limit");
        check(note::MAX_TICK_LEN == Duration::MAX_TICK_LENGTH, "the limits agree");
        check(((n == 2) & (d == 2) & (k == 0)) <= (len == Duration::TICK_RESOLUTION as u32), "a quarter note is the resolution");
        let note = Note { duration: dur, ..Default::default() };
        check(note.tick_len() <= *Note::LONGEST_TICK_LEN, "no note is longer");
        reach("done");
    }
    h_limits_trimmed_len {
        let i = choice("i", 3) as usize;
        let dur = Duration::new([NUMS[0], NUMS[2], NUMS[7]][i], Denominator::from_value([2, 2, 255][i]).unwrap(), Dots::from_value([7, 0, 1][i]).unwrap());
        let r = any_percent("r").1;
        let f = [PercentU16::MIN, PercentU16::HUNDRED, PercentU16::MAX][choice("f", 3) as usize];
        let note = Note { duration: dur, duration_trimmer: RateTrimmer::from_array([r, f, f, f]), ..Default::default() };
        check(note.tick_len() <= *Note::LONGEST_TICK_LEN, "no trimmed note is longer");
        check(note.tick_len() <= 2 * dur.tick_length(), "at most twice its length");
        reach("done");
    }
    h_limits_pitch {
        let (s, o, a) = (solfa(), octave(), sharp_flat());
        let (lo, hi) = (pitch::MIN, pitch::MAX);
        check((lo.value() as i8 == pitch::MIN_VALUE) & (hi.value() as i8 == pitch::MAX_VALUE), "lowest and highest value");
        check((lo.score_offset() as i32 == pitch::MIN_SCORE_OFFSET) & (hi.score_offset() as i32 == pitch::MAX_SCORE_OFFSET), "lowest and highest position");
        check((lo.sharp_flat() == SharpFlat::Null) & (hi.sharp_flat() == SharpFlat::Null), "they are naturals");
        let so = s.score_offset() + 7 * o.offset();
        match Pitch::value_of(s, o, a) {
            Ok(p) => {
                reach("ok");
                check((lo.value() <= p.value()) & (p.value() <= hi.value()), "between the lowest and the highest value");
                check((0 <= p.score_offset()) & (p.score_offset() as i32 <= Note::MAX_SCORE_OFFSET), "on the staff");
                if a == SharpFlat::Null {
                    check((pitch::MIN_SCORE_OFFSET <= so) & (so <= pitch::MAX_SCORE_OFFSET), "naturals are within the published positions");
                }
            }
            Err(_) => {
                reach("err");
                check((a != SharpFlat::Null) | (so > pitch::MAX_SCORE_OFFSET), "all naturals within the published positions exist");
            }
        }
    }
    h_limits_octave {
        let v = i32_("v");
        check(Octave::value_of(v).is_ok() == ((Octave::MIN_VALUE.value() <= v) & (v <= Octave::MAX_VALUE.value())), "octaves within the limits");
        check((octave::MIN == Octave::MIN_VALUE) & (octave::MAX == Octave::MAX_VALUE), "the limits agree");
        check((octave::MIN.offset() == 0) & (octave::MAX.offset() + 1 == Octave::ALL.len() as i32) & (octave::MIN.value() == -Octave::BIAS_VALUE), "counted from the lowest");
        let i = choice("i", 11) as usize;
        check((Octave::ALL[i].offset() == i as i32) & (Octave::ALL[i].value() == i as i32 - 2), "listed in order");
        let j = choice("j", 7) as usize;
        check((Solfa::ALL.len() == 7) & (Solfa::ALL[j].score_offset() == j as i32), "note names listed in order");
        reach("done");
    }
    h_limits_percent {
        let v = u16_("v");
        let p = PercentU16::from_value(v);
        check(p.apply(1000) <= PercentU16::MAX.apply(1000), "no percentage is above the greatest");
        check(PercentU16::MIN == PercentU16::ZERO, "the least is zero");
        check((PercentU16::MAX.apply(1000) == 2000) & (PercentU16::HUNDRED.apply(1000) == 1000), "200% and 100%");
        let x = u32_("x");
        check((PercentU16::HUNDRED.apply(x) == x) & (PercentU16::ZERO.apply(x) == 0) & (RateTrimmer::ONE.apply(x) == x), "100% keeps a length, 0% gives none");
        assume(x < 1 << 31);
        check(PercentU16::MAX.apply(x) == 2 * x, "the greatest doubles it");
        check((RateTrimmer::ONE.sum() == PercentU16::HUNDRED) & (RateTrimmer::ONE.values() == [PercentU16::HUNDRED; 4]), "rates of 100%");
        check((Trimmer::ZERO.sum() == 0) & (Trimmer::ZERO.values() == [0; 4]) & (trimmer::COUNT == 4), "trimmers of zero");
        reach("done");
    }
    h_limits_key {
        let v = i8_("v");
        let named = [
            Key::FLAT_7, Key::FLAT_6, Key::FLAT_5, Key::FLAT_4, Key::FLAT_3, Key::FLAT_2, Key::FLAT_1, Key::NONE,
            Key::SHARP_1, Key::SHARP_2, Key::SHARP_3, Key::SHARP_4, Key::SHARP_5, Key::SHARP_6, Key::SHARP_7,
        ];
        let within = (-7 <= v) & (v <= 7);
        match Key::try_from(v) {
            Ok(k) => {
                reach("ok");
                check(within, "within seven accidentals");
                check(k.offset() == v, "the number of accidentals");
                check(k == named[(v + 7) as usize], "named keys");
                let mut n = 0;
                for a in Key::ALL.iter() { n += (*a == k) as u32; }
                check(n == 1, "every key is listed once");
                check((k.is_flat() == (v < 0)) & (k.is_sharp() == (v > 0)), "sharp and flat keys");
            }
            Err(_) => { reach("err"); check(!within, "keys within seven accidentals are taken"); }
        }
    }
    h_limits_iter {
        let v = u8_("v");
        let within = (1 <= v) & (v <= play_iter::MAX_ITER);
        check((PlayIter::new(v).iter() == v) == within, "passes within the limit are taken, others not");
        let mut p = PlayIter::default();
        check(p.set_iter(v) == within, "and so when set");
        check(p.iter() == if within { v } else { 1 }, "what is refused changes nothing");
        reach("done");
    }
    // what holds where nothing is said
    h_defaults {
        check(Velocity::default().as_u8() == 64, "velocity");
        check(TempoValue::default().as_u16() == 120, "tempo");
        check(Tempo::default() == Tempo::new(0, 120), "tempo event");
        check(Rhythm::default() == Rhythm::new(4, 4), "rhythm");
        check(Key::default() == Key::NONE, "key");
        check(Grid::default().as_u32() == 60, "grid");
        check(Channel::default() == Channel::new(0), "channel");
        check(Duration::default() == Duration::new(duration::Numerator::Quarter, Denominator::from_value(2).unwrap(), Dots::ZERO), "duration");
        check((Trimmer::default() == Trimmer::ZERO) & (RateTrimmer::default() == RateTrimmer::ONE), "trimmers");
        check(PlayIter::default() == PlayIter::new(1), "pass");
        check(RepeatSet::default() == RepeatSet::EMPTY, "repeat marks");
        let p = Pitch::default();
        check((p.solfa() == Solfa::A) & (p.octave() == Octave::Oct4) & (p.sharp_flat() == SharpFlat::Null), "pitch");
        let n = Note::default();
        check((n.base_start_tick == 0) & !n.tie & !n.tied & (n.base_velocity == Velocity::default()) & (n.channel == Channel::default()), "note");
        check((n.pitch == p) & (n.duration == Duration::default()) & (n.start_tick_trimmer == Trimmer::ZERO) & (n.velocity_trimmer == Trimmer::ZERO) & (n.duration_trimmer == RateTrimmer::ONE), "note attributes");
        let u = UndoStore::default();
        check((u.len() == 0) & !u.can_undo() & !u.can_redo(), "undo store");
        let mut u = UndoStore::new(7);
        let mut d = UndoStore::default();
        for _ in 0..108 {
            let c = || Undo::Changed { added: Models::empty(), removed: Models::empty(), metadata: ModelChangeMetadata::new() };
            u.add(c());
            d.add(c());
        }
        check((u.len() == 7) & (d.len() == 100), "commands kept");
        let m = ProjectImpl::default();
        check((m.rhythm() == Rhythm::default()) & (m.key() == Key::NONE) & (m.grid() == Grid::default()), "project");
        check((m.note_repo().len() == 0) & (m.bar_repo().len() == 0) & (m.tempo_repo().len() == 0) & (m.dumper_repo().len() == 0) & (m.soft_repo().len() == 0), "an empty project");
        let t = u32_("t");
        check((m.rhythm_at(t) == Rhythm::default()) & (m.key_at(t) == Key::NONE) & (m.tempo_at(t) == TempoValue::default()) & (m.dumper_at(t) == velocity::MIN) & (m.soft_at(t) == velocity::MIN), "in force in an empty project");
        reach("done");
    }
}
