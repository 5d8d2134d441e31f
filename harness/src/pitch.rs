//! C01 pitch representation, C02 pitch navigation and key signatures.
use crate::api::*;
use crate::common::*;
use klavier_core::key::Key;
use klavier_core::octave::Octave;
use klavier_core::pitch::*;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;

harness! {
    h_pitch_value_of {
        let (s, o, a) = (solfa(), octave(), sharp_flat());
        let v = SEMI[so(s) as usize] + 12 * oo(o) + ACC[ac(a)];
        check(Pitch::to_value(s, o, a) == v, "to_value");
        match Pitch::value_of(s, o, a) {
            Ok(p) => {
                reach("ok");
                observe("value", p.value() as u64);
                check(v >= 0 && v <= 127, "accepts only 0..=127");
                check(p.solfa() == s && p.octave() == o && p.sharp_flat() == a, "fields kept");
                check(consistent(p), "value and score offset");
            }
            Err(PitchError::TooLow(..)) => { reach("low"); check(v < 0, "too low only below 0"); }
            Err(PitchError::TooHigh(..)) => { reach("high"); check(v > 127, "too high only above 127"); }
            Err(_) => check(false, "error kind"),
        }
    }
    h_pitch_builder {
        let mut b = PitchBuilder::default();
        let (s, o, a) = (pick("s", Solfa::ALL), pick("o", Octave::ALL), pick("a", &SF));
        let set = choice("set", 8);
        let d = Pitch::default();
        if set & 1 != 0 { b.solfa(s); }
        if set & 2 != 0 { b.octave(o); }
        if set & 4 != 0 { b.sharp_flat(a); }
        let w = Pitch::value_of(if set & 1 != 0 { s } else { d.solfa() }, if set & 2 != 0 { o } else { d.octave() }, if set & 4 != 0 { a } else { d.sharp_flat() });
        match (b.build(), w) {
            (Ok(p), Ok(w)) => { reach("ok"); check(p == w && consistent(p), "built pitches are consistent"); }
            (Err(_), Err(_)) => reach("err"),
            _ => check(false, "the builder accepts exactly the existing pitches"),
        }
    }
    h_octave_any {
        // any integer: accepted exactly when it names an octave, error otherwise, never a panic
        let x = i32_("x");
        match Octave::value_of(x) {
            Ok(o) => { reach("ok"); check(o.value() == x && x >= -2 && x <= 8 && o.offset() == x + 2, "octave value"); }
            Err(_) => { reach("err"); check(x < -2 || x > 8, "octave rejected in range"); }
        }
        let i = i32_("i");
        match Octave::from_score_offset(i) {
            Ok(o) => { reach("ok2"); check(oo(o) == i && o.offset() == i, "octave offset"); }
            Err(_) => { reach("err2"); check(i < 0 || i > 10, "octave offset rejected in range"); }
        }
    }
    h_pitch_from_score_offset {
        let x = i32_("x");
        let p = Pitch::from_score_offset(x);
        let c = if x < 0 { 0 } else if x > 74 { 74 } else { x };
        check(p.score_offset() as i32 == c, "clamped offset");
        check(p.sharp_flat() == SharpFlat::Null, "no accidental");
        check(consistent(p), "consistent");
        observe("so", p.score_offset() as u64);
        reach("done");
    }
    h_pitch_delta {
        let p = any_pitch();
        let d = i32_("d");
        let t = p.score_offset() as i64 + d as i64;
        match p.with_score_offset_delta(d) {
            Ok(q) => {
                reach("ok");
                check(q.score_offset() as i64 == t, "moved by delta");
                check(q.sharp_flat() == p.sharp_flat(), "accidental kept");
                check(consistent(q), "consistent");
                // moving back restores the pitch
                match q.with_score_offset_delta(-d) {
                    Ok(r) => check(r == p, "delta round trip"),
                    Err(_) => check(false, "delta round trip rejected"),
                }
            }
            Err(_) => {
                reach("err");
                // only when there is no such pitch
                let ok = t >= 0 && t <= 76 && {
                    let v = SEMI[(t % 7) as usize] + 12 * (t / 7) as i32 + ACC[ac(p.sharp_flat())];
                    v >= 0 && v <= 127
                };
                check(!ok, "rejected though representable");
            }
        }
    }
    h_pitch_up_down {
        let p = any_pitch();
        let t = p.score_offset() as i32 + 1;
        match p.up() {
            Ok(q) => {
                reach("up");
                check(q.score_offset() as i32 == t && q.sharp_flat() == p.sharp_flat() && consistent(q), "up is one step");
                match q.down() {
                    Ok(r) => check(r == p, "down undoes up"),
                    Err(_) => check(false, "down undoes up (rejected)"),
                }
            }
            Err(_) => {
                reach("up err");
                let v = SEMI[(t % 7) as usize] + 12 * (t / 7) + ACC[ac(p.sharp_flat())];
                check(t > 76 || v < 0 || v > 127, "up rejected");
            }
        }
        let t = p.score_offset() as i32 - 1;
        match p.down() {
            Ok(q) => {
                reach("down");
                check(q.score_offset() as i32 == t && q.sharp_flat() == p.sharp_flat() && consistent(q), "down is one step");
                match q.up() {
                    Ok(r) => check(r == p, "up undoes down"),
                    Err(_) => check(false, "up undoes down (rejected)"),
                }
            }
            Err(_) => {
                reach("down err");
                if t >= 0 {
                    let v = SEMI[(t % 7) as usize] + 12 * (t / 7) + ACC[ac(p.sharp_flat())];
                    check(v < 0 || v > 127, "down rejected");
                }
            }
        }
    }
    h_pitch_toggle {
        let p = any_pitch();
        let a = p.sharp_flat();
        let want = match param(0) {
            0 => match a { SharpFlat::Sharp => SharpFlat::DoubleSharp, SharpFlat::DoubleSharp => SharpFlat::Null, _ => SharpFlat::Sharp },
            1 => match a { SharpFlat::Flat => SharpFlat::DoubleFlat, SharpFlat::DoubleFlat => SharpFlat::Null, _ => SharpFlat::Flat },
            _ => match a { SharpFlat::Natural => SharpFlat::Null, _ => SharpFlat::Natural },
        };
        let r = match param(0) { 0 => p.toggle_sharp(), 1 => p.toggle_flat(), _ => p.toggle_natural() };
        let v = SEMI[so(p.solfa()) as usize] + 12 * oo(p.octave()) + ACC[ac(want)];
        match r {
            Ok(q) => {
                reach("ok");
                check(q.sharp_flat() == want && q.solfa() == p.solfa() && q.octave() == p.octave(), "next accidental");
                check(consistent(q), "consistent");
            }
            Err(_) => { reach("err"); check(v < 0 || v > 127, "toggle rejected"); }
        }
    }
    h_pitch_apply_key {
        // circle of fifths, from music theory
        const SHARPS: [Solfa; 7] = [Solfa::F, Solfa::C, Solfa::G, Solfa::D, Solfa::A, Solfa::E, Solfa::B];
        let k = choice("key", 15);
        let key = Key::ALL[k as usize];
        let n = key.offset() as i32;
        check(n >= -7 && n <= 7, "key range");
        check(key.is_flat() == (n < 0) && key.is_sharp() == (n > 0), "key sign");
        // the solfa is forked on (it is hashed), octave and accidental stay symbolic
        let r = Pitch::value_of(pick("solfa", Solfa::ALL), octave(), sharp_flat());
        assume(r.is_ok());
        let p = match r { Ok(p) => p, Err(_) => unreachable!() };
        let mut altered = false;
        let mut i = 0;
        while i < n.abs() {
            let s = if n > 0 { SHARPS[i as usize] } else { SHARPS[6 - i as usize] };
            if s == p.solfa() { altered = true; }
            i += 1;
        }
        let want = if p.sharp_flat() != SharpFlat::Null || !altered { p.sharp_flat() } else if n > 0 { SharpFlat::Sharp } else { SharpFlat::Flat };
        let v = SEMI[so(p.solfa()) as usize] + 12 * oo(p.octave()) + ACC[ac(want)];
        match p.apply_key(key) {
            Ok(q) => {
                reach("ok");
                check(q.sharp_flat() == want && q.solfa() == p.solfa() && q.octave() == p.octave(), "key accidental");
                check(consistent(q), "consistent");
            }
            Err(_) => { reach("err"); check(v < 0 || v > 127, "apply_key rejected"); }
        }
    }
}
