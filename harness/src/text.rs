//! Text fields (C12) and clipboard text (C23).
use crate::api::*;
use crate::common::*;
use klavier_core::can_apply::CanApply;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{self, Denominator, Dots, Duration};
use klavier_core::exported_project::ExportedProject;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::location::Location;
use klavier_core::models::{FromClipboardTextErr, Models};
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::text_input::{from_str, TextInput};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use std::num::{ParseFloatError, ParseIntError};

/// `n` ASCII characters.
fn ascii(n: u64) -> Vec<u8> {
    (0..n).map(|_| { let b = u8_("c"); assume(b < 128); b }).collect()
}
/// `n` decimal digits.
fn digits(n: u64) -> Vec<u8> {
    (0..n).map(|_| { let b = u8_("d"); assume(b < 10); b + b'0' }).collect()
}
/// `n` characters, the one at `wide` with a two-byte encoding.
fn unicode(n: u64, wide: u64) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        if i == wide {
            let (a, b) = (u8_("w0"), u8_("w1"));
            assume((0xc2 <= a) & (a <= 0xdf) & (0x80 <= b) & (b <= 0xbf));
            v.push(a);
            v.push(b);
        } else {
            let b = u8_("c");
            assume(b < 128);
            v.push(b);
        }
    }
    v
}
fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
fn digit(b: u8) -> bool {
    b.wrapping_sub(b'0') < 10
}
/// The digits as a number; none if there are none or other characters.
fn number(b: &[u8]) -> Option<u128> {
    let mut ok = !b.is_empty();
    if b.len() < 19 {
        let mut v = 0u64;
        for c in b {
            ok &= digit(*c);
            v = v * 10 + c.wrapping_sub(b'0') as u64;
        }
        return if ok { Some(v as u128) } else { None };
    }
    let mut v = 0u128;
    for c in b {
        ok &= digit(*c);
        v = v * 10 + c.wrapping_sub(b'0') as u128;
    }
    if ok { Some(v) } else { None }
}
/// The integer a text denotes: digits after an optional sign, minus only where numbers can be negative.
fn integer(b: &[u8], signed: bool) -> Option<i128> {
    if b.is_empty() {
        None
    } else if b[0] == b'+' {
        number(&b[1..]).map(|v| v as i128)
    } else if b[0] == b'-' && signed {
        number(&b[1..]).map(|v| -(v as i128))
    } else {
        number(b).map(|v| v as i128)
    }
}
fn within(v: Option<i128>, lo: i128, hi: i128) -> Option<i128> {
    match v {
        Some(x) if lo <= x && x <= hi => Some(x),
        _ => None,
    }
}
/// What the field made of the text: None an error, Some(None) empty, Some(Some(value)).
fn field(kind: u64, s: &str) -> Option<Option<i128>> {
    match kind {
        0 => from_str::<Option<i16>, _>(s).ok().map(|v| v.0.map(|x| x as i128)),
        1 => from_str::<Option<TempoValue>, _>(s).ok().map(|v| v.0.map(|x| x.as_u16() as i128)),
        2 => from_str::<Option<Velocity>, _>(s).ok().map(|v| v.0.map(|x| x.as_u8() as i128)),
        3 => from_str::<Option<rhythm::Numerator>, _>(s).ok().map(|v| v.0.map(|x| x.value() as i128)),
        4 => from_str::<Option<duration::Denominator>, _>(s).ok().map(|v| v.0.map(|x| x.value() as i128)),
        _ => Some(Grid::value_of(s).ok().map(|x| x.as_u32() as i128)),
    }
}
/// What it should make of it.
fn expected(kind: u64, b: &[u8]) -> Option<Option<i128>> {
    if b.is_empty() {
        return Some(None);
    }
    let r = match kind {
        0 => within(integer(b, true), -32768, 32767),
        1 => within(integer(b, false), 0, 65535).map(|v| if v < 1 { 1 } else if 999 < v { 999 } else { v }),
        2 => within(integer(b, false), 0, 255).map(|v| if 127 < v { 127 } else { v }),
        3 => within(integer(b, false), 1, 99),
        4 => within(integer(b, false), 2, 255),
        _ => return Some(within(integer(b, false), 1, u32::MAX as i128)),
    };
    r.map(Some)
}
fn check_field(kind: u64, b: &[u8]) {
    let (got, want) = (field(kind, &text(b)), expected(kind, b));
    match (got, want) {
        (None, None) => reach("err"),
        (Some(None), Some(None)) => reach("empty"),
        (Some(Some(g)), Some(Some(w))) => {
            reach("ok");
            check(g == w, "the value the text denotes");
        }
        _ => check(false, "valid text gives a value, invalid text an error, empty text none"),
    }
}
fn check_location(b: &[u8]) {
    let got = Location::parse(&text(b));
    check(from_str::<Option<Location>, _>(&text(b)).is_ok() == (b.is_empty() | got.is_some()), "the field says the same");
    let at = b.iter().position(|c| *c == b':');
    let want = match at {
        Some(i) => match (number(&b[..i]), number(&b[i + 1..])) {
            (Some(x), Some(y)) if x <= usize::MAX as u128 && y <= usize::MAX as u128 => Some((x, y)),
            _ => None,
        },
        None => None,
    };
    match (got, want) {
        (None, None) => reach("err"),
        (Some(l), Some((x, y))) => {
            reach("ok");
            check((l.bar_no() as u128 == x) & (l.offset() as u128 == y), "bar number and offset");
        }
        _ => check(false, "digits, a colon and digits are a location, other text is not"),
    }
}
/// A percentage text: sign, digits with an optional point somewhere, an optional exponent, or a
/// name. Some(None): no number (nan).
fn ratio(b: &[u8]) -> Option<Option<(bool, u128, usize, i32)>> {
    let (neg, b) = match b.first() {
        Some(b'+') => (false, &b[1..]),
        Some(b'-') => (true, &b[1..]),
        _ => (false, b),
    };
    let lower: Vec<u8> = b.iter().map(|c| c.to_ascii_lowercase()).collect();
    if lower == b"nan" {
        return Some(None);
    }
    if lower == b"inf" || lower == b"infinity" {
        return Some(Some((neg, 1, 0, 99)));
    }
    let (m, e) = match lower.iter().position(|c| *c == b'e') {
        Some(i) => {
            let e = match lower.get(i + 1) {
                Some(b'+') => number(&b[i + 2..]).map(|v| v as i32),
                Some(b'-') => number(&b[i + 2..]).map(|v| -(v as i32)),
                _ => number(&b[i + 1..]).map(|v| v as i32),
            };
            (&b[..i], e?)
        }
        None => (b, 0),
    };
    let (whole, frac) = match m.iter().position(|c| *c == b'.') {
        Some(i) => (&m[..i], &m[i + 1..]),
        None => (m, &m[m.len()..]),
    };
    let mut all = whole.to_vec();
    all.extend_from_slice(frac);
    let v = number(&all)?;
    Some(Some((neg, v, frac.len(), e)))
}
const POW: [u128; 40] = {
    let mut p = [1u128; 40];
    let mut i = 1;
    while i < 39 {
        p[i] = p[i - 1] * 10;
        i += 1;
    }
    p
};
fn check_percent(b: &[u8]) {
    let s = text(b);
    let got = from_str::<Option<PercentU16>, _>(&s);
    let want = if b.is_empty() { None } else { ratio(b) };
    match (got, want) {
        (Err(_), None) => reach("err"),
        (Ok(p), None) => {
            check(b.is_empty() & p.0.is_none(), "only a number is a percentage");
            reach("empty");
        }
        (Ok(p), Some(w)) => {
            let p = match p.0 { Some(p) => p, None => { check(false, "a number is a percentage"); return } };
            let (neg, m, frac, e) = match w { Some(w) => w, None => { reach("nan"); return check(p == PercentU16::ZERO, "what is no number is 0") } };
            reach("ok");
            // the value in thousandths
            let v = CanApply::apply(p, 1000u32) as u128;
            check(v <= 2000, "at most 200%");
            let x = 3 + e - frac as i32;
            if neg || m == 0 {
                check(v == 0, "negative ratios are 0");
            } else if 12 < x {
                check(v == 2000, "large ratios are 200%");
            } else if 0 <= x {
                let t = m * POW[x as usize];
                check(v == if 2000 < t { 2000 } else { t }, "the value the text denotes");
            } else if -30 < x {
                let unit = POW[(-x) as usize];
                if 2000 * unit <= m {
                    check(v == 2000, "large ratios are 200%");
                } else {
                    let d = if v * unit < m { m - v * unit } else { v * unit - m };
                    check(2 * d <= unit, "the nearest thousandth");
                }
            } else {
                check(v == 0, "tiny ratios are 0");
            }
        }
        (Err(_), Some(_)) => check(false, "a number is a percentage"),
    }
}
fn note(t: u32, v: u8, d: i16) -> Note {
    Note::new(
        t, Pitch::new(Solfa::G, Octave::Oct5, SharpFlat::Sharp), Duration::new(duration::Numerator::Half, Denominator::from_value(3).unwrap(), Dots::from_value(1).unwrap()),
        true, false, Velocity::new(v), Trimmer::new(d, 0, -3, 5), RateTrimmer::new(1.0, 0.5, 2.0, 1.25), Trimmer::ZERO, Channel::default(),
    )
}
fn u8_in(n: &'static str, k: u8) -> u8 {
    let v = u8_(n);
    assume(v < k);
    v
}
fn rs(m: &[Repeat]) -> RepeatSet {
    m.iter().fold(RepeatSet::EMPTY, |s, r| s.try_add(*r).unwrap())
}
fn same(a: &Models, b: &Models) -> bool {
    (a.notes == b.notes) & (a.bars == b.bars) & (a.tempos == b.tempos) & (a.dumpers == b.dumpers) & (a.softs == b.softs)
}
fn copied(m: &Models) {
    let t = m.to_clipboard_text();
    match ExportedProject::from_clipboard_text(t.clone()) {
        Ok(r) => check((r.key == None) & (r.rhythm == None) & same(&r.to_models(), m), "importing a copy gives what was copied"),
        Err(_) => check(false, "what was copied can be imported"),
    }
    match Models::from_clipboard_text(t) {
        Ok(r) => check(same(&r, m), "pasting gives what was copied"),
        Err(_) => check(false, "what was copied can be pasted"),
    }
    reach("done");
}

harness! {
    // kind, characters
    h_int_field { check_field(param(0), &ascii(param(1))) }
    // kind, digits: many digits
    h_int_digits { check_field(param(0), &digits(param(1))) }
    // kind, characters, which is not ASCII
    h_int_unicode { check_field(param(0), &unicode(param(1), param(2))) }
    h_location { check_location(&ascii(param(0))) }
    // digits of either number
    h_location_digits {
        let mut b = digits(param(0));
        b.push(b':');
        b.extend(digits(param(1)));
        check_location(&b)
    }
    h_location_unicode { check_location(&unicode(param(0), param(1))) }
    // what a location shows reads back as it
    h_location_display {
        let (x, y) = (usize_("bar"), usize_("offset"));
        assume(x < 1000);
        assume(y < 1000);
        let l = Location::new(x, y);
        let s = l.to_string();
        check(Location::parse(&s) == Some(l), "a location shown as text reads back as it");
        reach("done");
    }
    h_percent { check_percent(&ascii(param(0))) }
    // digits before and after the point
    h_percent_digits {
        let mut b = digits(param(0));
        b.push(b'.');
        b.extend(digits(param(1)));
        check_percent(&b)
    }
    // characters, characters after editing, kind of edit
    h_text_input {
        let b = ascii(param(0));
        let mut t: TextInput<Option<i16>, ParseIntError> = TextInput::from_string(text(&b));
        let of = |t: &TextInput<Option<i16>, ParseIntError>| t.validate().as_ref().ok().map(|v| v.0.map(|x| x as i128));
        check(t.input().as_bytes() == &b[..], "the text typed");
        check(of(&t) == expected(0, &b), "validated when made");
        let c = ascii(param(1));
        let new = text(&c);
        let mut all = b.clone();
        let n = match param(2) {
            0 => {
                all.extend_from_slice(&c);
                t.mutate(|s| { s.push_str(&new); s.len() })
            }
            1 => {
                all = c.clone();
                t.mutate(|s| { *s = new; s.len() })
            }
            _ => {
                all.pop();
                t.mutate(|s| { s.pop(); s.len() })
            }
        };
        check(n == all.len(), "the editor's result is returned");
        check(t.input().as_bytes() == &all[..], "the edited text");
        check(of(&t) == expected(0, &all), "validated again after editing");
        reach("done");
    }
    // kind of value: shown as text and read back
    h_shown {
        let kind = param(0);
        let (v, s) = match kind {
            2 => { let v = u8_("v"); assume(v <= 127); (v as u32, Velocity::new(v).to_string()) }
            3 => { let v = u8_("v"); assume((1 <= v) & (v <= 99)); (v as u32, rhythm::Numerator::from_value(v).ok().unwrap().to_string()) }
            4 => { let v = u8_("v"); assume(2 <= v); (v as u32, Denominator::from_value(v).unwrap().to_string()) }
            5 => { let v = u32_("v"); assume((1 <= v) & (v < param(1) as u32)); (v, Grid::from_u32(v).unwrap().to_string()) }
            _ => { let v = pick("v", &[2u8, 4, 8, 16, 32, 64]); (v as u32, rhythm::Denominator::from_value(v).ok().unwrap().to_string()) }
        };
        let b = s.as_bytes();
        check(number(b) == Some(v as u128), "the number in decimal digits");
        check(b.len() == 1 || b[0] != b'0', "without leading zeros");
        if kind < 6 {
            check(field(kind, &s) == Some(Some(v as i128)), "the text field reads the same value");
        }
        reach("done");
    }
    // percentages from .. from + how many
    h_shown_percent {
        let v = u16_("v");
        let (from, n) = (param(0) as u16, param(1) as u16);
        assume((from <= v) & (v < from + n) & (v <= 2000));
        let v = fork(v as u64) as u16;
        let p = PercentU16::from_value(v);
        let s = p.to_string();
        let b = s.as_bytes();
        let whole = (b[0] - b'0') as u16 * 1000;
        let mut rest = 0u16;
        let mut unit = 100u16;
        for c in b.iter().skip(2) {
            check(digit(*c) & (unit != 0), "at most three digits behind the point");
            rest += (*c - b'0') as u16 * unit;
            unit /= 10;
        }
        check(b.len() == 1 || b[1] == b'.', "a decimal fraction");
        check(whole + rest == v, "the exact ratio");
        check(from_str::<Option<PercentU16>, _>(&s).ok().and_then(|x| x.0) == Some(p), "the text field reads the same percentage");
        reach("done");
    }
    // names of notes and marks
    h_shown_names {
        let i = choice("solfa", 7) as usize;
        let s = Solfa::ALL[i].to_string();
        check(s.as_bytes() == &b"CDEFGAB"[i..i + 1], "note names");
        let all = [Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Fine, Repeat::Ds, Repeat::Segno, Repeat::Coda, Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4];
        let names = ["|:", ":|", "D.C.", "Fine", "D.S.", "Segno", "Coda", "Var1", "Var2", "Var3", "Var4"];
        let j = choice("mark", 11) as usize;
        check(all[j].to_string() == names[j], "names of repeat marks");
        reach("done");
    }
    // what is pasted, as items to add
    h_to_models {
        let mut m = Models::empty();
        for _ in 0..2 {
            let (t, v) = (u32_("t"), u8_("v"));
            assume(v < 128);
            m.notes.push(note(t, v, 0));
            m.bars.push(Bar::new(u32_("b"), None, None, RepeatSet::EMPTY));
            m.tempos.push(Tempo::new(u32_("u"), 60));
            m.dumpers.push(CtrlChg::new(u32_("d"), Velocity::new(1), Channel::default()));
            m.softs.push(CtrlChg::new(u32_("s"), Velocity::new(1), Channel::default()));
        }
        let e = ExportedProject {
            key: Some(Key::FLAT_1), rhythm: None,
            notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(), dumpers: m.dumpers.clone(), softs: m.softs.clone(),
        };
        check(e.to_models() == m, "every pasted item and nothing else, in the same order");
        reach("done");
    }
    // one item of a kind, digits of its numbers
    h_copy {
        let t = u32_("t");
        assume(t < param(1) as u32);
        let mut m = Models::empty();
        match param(0) {
            0 => { let v = u8_("v"); assume(v < 10); m.notes.push(note(t, v, 3)) }
            1 => { let d = i8_("d"); m.notes.push(note(7, 64, d as i16)) }
            2 => m.bars.push(Bar::new(t, None, None, RepeatSet::EMPTY)),
            3 => {
                let n = u8_("n");
                assume((1 <= n) & (n < 10));
                let k = choice("k", 3);
                let key = pick("key", &[None, Some(Key::NONE), Some(Key::SHARP_2)]);
                let r = pick("r", &[RepeatSet::EMPTY, rs(&[Repeat::Start]), rs(&[Repeat::Var2, Repeat::Coda]), rs(&[Repeat::Segno, Repeat::Fine, Repeat::End])]);
                m.bars.push(Bar::new(7, if k == 0 { None } else { Some(Rhythm::new(n, 1 << k)) }, key, r))
            }
            4 => { let v = u16_("v"); assume((1 <= v) & (v < 100)); m.tempos.push(Tempo::new(t, v)) }
            5 => { let v = u8_("v"); assume(v < 128); m.dumpers.push(CtrlChg::new(t, Velocity::new(v), Channel::default())) }
            6 => { let v = u8_("v"); assume(v < 128); m.softs.push(CtrlChg::new(t, Velocity::new(v), Channel::default())) }
            7 => {
                let d = duration::Duration::new(
                    pick("num", &[duration::Numerator::Whole, duration::Numerator::N128th]), Denominator::from_value(2 + u8_in("den", 8)).unwrap(), Dots::from_value(u8_in("dots", 8)).unwrap(),
                );
                m.notes.push(Note::new(
                    5, Pitch::new(pick("solfa", &[Solfa::C, Solfa::B]), pick("oct", &[Octave::Oct0, Octave::Oct3]), pick("sf", &[SharpFlat::Null, SharpFlat::DoubleFlat])), d,
                    choice("tie", 2) == 1, choice("tied", 2) == 1, Velocity::new(9), Trimmer::ZERO, RateTrimmer::ONE, Trimmer::ZERO, Channel::new(u8_in("ch", 10)),
                ))
            }
            8 => {
                let d = || { let v = i16_("d"); assume((-100 < v) & (v < 100)); v };
                let a = Trimmer::new(d(), 1, 2, d());
                m.notes.push(Note::new(5, Pitch::new(Solfa::A, Octave::Oct4, SharpFlat::Flat), Duration::new(duration::Numerator::Whole, Denominator::from_value(2).unwrap(), Dots::from_value(0).unwrap()), false, false, Velocity::new(9), a, RateTrimmer::ONE, Trimmer::new(0, d(), 0, 0), Channel::default()))
            }
            9 => {
                let (u, v) = (u32_("t"), u8_("v"));
                assume(u < param(1) as u32);
                assume(v < 10);
                m.notes.push(note(t, v, 3));
                m.notes.push(note(u, 2, 3));
                m.tempos.push(Tempo::new(t, 10));
                m.tempos.push(Tempo::new(u, 20));
            }
            11 => {
                for i in 0..6u32 {
                    let t = if i == 3 { t } else { 40 * i };
                    m.notes.push(note(t, i as u8, 1));
                    m.bars.push(Bar::new(10 * i, if i == 4 { Some(Rhythm::new(6, 8)) } else { None }, None, RepeatSet::EMPTY));
                    m.tempos.push(Tempo::new(20 * i, 90 + i as u16));
                    m.dumpers.push(CtrlChg::new(30 * i, Velocity::new(i as u8), Channel::new(i as u8)));
                    m.softs.push(CtrlChg::new(31 * i, Velocity::new(7), Channel::new(9)));
                }
            }
            _ => {
                m.notes.push(note(t, 1, 0));
                m.bars.push(Bar::new(2, None, None, RepeatSet::EMPTY));
                m.tempos.push(Tempo::new(3, 100));
                m.dumpers.push(CtrlChg::new(4, Velocity::new(5), Channel::default()));
                m.softs.push(CtrlChg::new(6, Velocity::new(7), Channel::default()));
            }
        }
        copied(&m);
    }
    // any text of so many characters
    h_paste {
        let b = ascii(param(0));
        let s = text(&b);
        let blank = |c: u8| (c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r');
        let r = if param(1) == 0 { Models::from_clipboard_text(s.clone()).map(|_| ()) } else { ExportedProject::from_clipboard_text(s.clone()).map(|_| ()) };
        match r {
            Ok(_) => check(false, "so short a text is no copy"),
            Err(FromClipboardTextErr::EmptyString) => {
                check(b.iter().fold(true, |a, c| a & blank(*c)), "only blank text is empty");
                reach("empty");
            }
            Err(FromClipboardTextErr::VersionErr { detected_ver }) => {
                check(detected_ver != 1, "an unsupported version");
                reach("version");
            }
            Err(FromClipboardTextErr::VersionNotU64 { err_json }) => {
                check(err_json == s, "the text is reported");
                reach("no version");
            }
            Err(FromClipboardTextErr::CannotParse { err_json, detail: _ }) => {
                check(err_json == s, "the text is reported");
                reach("invalid");
            }
        }
    }
    // a version of so many digits followed by an empty selection; or by an exported project
    h_paste_version {
        let d = digits(param(0));
        let mut s = text(&d);
        let key = choice("key", 3);
        s.push_str(if param(1) == 0 { "{" } else { ["{\"key\":null,\"rhythm\":null,", "{\"key\":-2,", "{\"rhythm\":{\"numerator\":3,\"denominator\":\"D8\"},"][key as usize] });
        s.push_str("\"notes\":[],\"bars\":[],\"tempos\":[],\"dumpers\":[],\"softs\":[]}");
        let v = number(&d).unwrap();
        let zeros = (d.len() > 1) & (d[0] == b'0');
        let r = if param(1) == 0 { Models::from_clipboard_text(s) } else {
            ExportedProject::from_clipboard_text(s).map(|e| {
                check(e.key == if key == 1 { Some(Key::FLAT_2) } else { None }, "the key of the project, if it has one");
                check(e.rhythm == if key == 2 { Some(Rhythm::new(3, 8)) } else { None }, "the rhythm of the project, if it has one");
                e.to_models()
            })
        };
        match r {
            Ok(m) => {
                check(v == 1, "only version 1 is read");
                check(same(&m, &Models::empty()), "an empty selection");
                reach("ok");
            }
            Err(FromClipboardTextErr::VersionErr { detected_ver }) => {
                check((v != 1) & (detected_ver as u128 == v) | zeros, "the version is reported");
                reach("version");
            }
            Err(_) => {
                check(zeros, "a number is a version");
                reach("zeros");
            }
        }
    }
    // one character of a copy replaced by any other: read or refused, never a panic
    h_paste_damaged {
        let mut m = Models::empty();
        m.tempos.push(Tempo::new(3, 100));
        let mut b = m.to_clipboard_text().into_bytes();
        let n = b.len();
        let i = param(0) as usize + choice("at", 8) as usize;
        if i < n {
            let c = u8_("c");
            assume(c < 128);
            // a number with a point or exponent: refused, but the engine cannot follow how the
            // error message shows it
            assume((c != b'.') & (c != b'e') & (c != b'E'));
            b[i] = c;
            match if param(1) == 0 { Models::from_clipboard_text(text(&b)) } else { ExportedProject::from_clipboard_text(text(&b)).map(|e| e.to_models()) } {
                Ok(r) => { check(r.tempos.iter().fold(true, |a, t| a & (1 <= t.value.as_u16()) & (t.value.as_u16() <= 999)), "tempos within 1..=999"); reach("read") }
                Err(_) => reach("refused"),
            }
        }
        reach("done");
    }
}
