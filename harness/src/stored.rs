//! C10 stored values read back equal; C11 damaged data gives valid values or errors.
use crate::api::*;
use crate::common::*;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::can_apply::CanApply;
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{self, Denominator, Dots, Duration};
use klavier_core::exported_project::ExportedProject;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, ProjectCmd, ProjectImpl};
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use serde::{de::DeserializeOwned, Serialize};

/// Binary form (undo log, snapshots).
fn via_bytes<T: Serialize + DeserializeOwned>(v: &T) -> Option<T> {
    let b = bincode::serialize(v).ok()?;
    bincode::deserialize(&b).ok()
}
/// JSON data model (clipboard, exports); the text layer itself is serde_json's.
fn via_value<T: Serialize + DeserializeOwned>(v: &T) -> Option<T> {
    let b = serde_json::to_value(v).ok()?;
    serde_json::from_value(b).ok()
}
fn both<T: Serialize + DeserializeOwned + PartialEq>(v: &T, what: &str) {
    ctx(what);
    if param(1) == 0 {
        match via_bytes(v) {
            Some(w) => check(w == *v, "reads back equal from bytes"),
            None => check(false, "reads back from bytes"),
        }
    } else {
        match via_value(v) {
            Some(w) => check(w == *v, "reads back equal from JSON"),
            None => check(false, "reads back from JSON"),
        }
    }
    ctx("");
    reach("done");
}
fn rhythm_(n: &str, d: &str) -> Rhythm {
    let n = u8_(n);
    assume(n >= 1 && n <= 99);
    Rhythm::value_of(n, pick(d, &[2u8, 4, 8, 16, 32, 64])).unwrap()
}
fn key_(s: &str) -> Key {
    Key::ALL[choice(s, 15) as usize]
}
fn channel_(s: &str) -> Channel {
    let c = u8_(s);
    assume(c < 16);
    Channel::new(c)
}
fn pct(s: &str) -> PercentU16 {
    any_percent(s).1
}
fn repeats_(s: &str) -> RepeatSet {
    let sets: [&[Repeat]; 8] = [
        &[], &[Repeat::Start], &[Repeat::End, Repeat::Dc], &[Repeat::Var1, Repeat::Coda], &[Repeat::Var4], &[Repeat::Segno, Repeat::Start, Repeat::End],
        &[Repeat::Ds, Repeat::Fine], &[Repeat::Var2, Repeat::Fine, Repeat::Coda],
    ];
    let mut r = RepeatSet::EMPTY;
    for x in sets[choice(s, 8) as usize] {
        r = r.try_add(*x).unwrap();
    }
    r
}
fn free_note(rates: bool) -> Note {
    let (d, k) = (u8_("den"), u8_("dots"));
    assume(d >= 2 && k <= 7);
    Note::new(
        u32_("base"),
        Pitch::new(Solfa::A, Octave::Oct5, SharpFlat::Flat),
        Duration::new(duration::Numerator::N8th, Denominator::from_value(d).unwrap(), Dots::from_value(k).unwrap()),
        bool_("tie"),
        bool_("tied"),
        Velocity::new(u8_("vel")),
        Trimmer::new(i16_("s0"), i16_("s1"), i16_("s2"), i16_("s3")),
        if rates { RateTrimmer::from_array([pct("r0"), PercentU16::HUNDRED, PercentU16::HUNDRED, PercentU16::HUNDRED]) } else { RateTrimmer::new(0.5, 1.0, 1.0, 2.0) },
        Trimmer::new(i16_("v0"), i16_("v1"), i16_("v2"), i16_("v3")),
        channel_("ch"),
    )
}
fn free_bar() -> Bar {
    let rh = if choice("has_rhythm", 2) == 1 { Some(rhythm_("rn", "rd")) } else { None };
    let key = if choice("has_key", 2) == 1 { Some(key_("key")) } else { None };
    Bar::new(u32_("bar"), rh, key, repeats_("set"))
}
/// Like `rhythm_`, `key_` with fewer cases, for the collections that contain several of them.
fn rhythm_few(n: &str, d: &str) -> Rhythm {
    let n = u8_(n);
    assume(n >= 1 && n <= 99);
    Rhythm::value_of(n, pick(d, &[8u8, 64])).unwrap()
}
fn key_few(s: &str) -> Key {
    pick(s, &[Key::FLAT_7, Key::SHARP_1])
}
fn free_models() -> Models {
    let mut m = Models::empty();
    m.notes.push(free_note(false));
    let sets = [RepeatSet::EMPTY.try_add(Repeat::Fine).unwrap().try_add(Repeat::Coda).unwrap().try_add(Repeat::Var4).unwrap(), RepeatSet::EMPTY];
    m.bars.push(Bar::new(u32_("bar"), Some(rhythm_few("rn", "rd")), None, pick("set", &sets)));
    m.tempos.push(Tempo { start_tick: u32_("tt"), value: TempoValue::safe_new(u16_("tv")) });
    m.dumpers.push(CtrlChg::new(u32_("dt"), Velocity::new(u8_("dv")), channel_("dc")));
    m.softs.push(CtrlChg::new(u32_("st"), Velocity::new(u8_("sv")), channel_("sc")));
    m.softs.push(CtrlChg::new(u32_("st2"), Velocity::new(1), Channel::new(15)));
    m
}
/// Arbitrary bytes.
fn buf(n: u64) -> Vec<u8> {
    let names = ["b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15", "b16", "b17", "b18", "b19", "b20", "b21", "b22", "b23", "b24", "b25", "b26", "b27", "b28", "b29", "b30", "b31"];
    (0..n as usize).map(|i| u8_(names[i])).collect()
}
fn de<T: DeserializeOwned>(n: u64) -> Option<T> {
    let b = buf(n);
    match bincode::deserialize::<T>(&b) {
        Ok(v) => { reach("ok"); Some(v) }
        Err(_) => { reach("err"); None }
    }
}
fn valid_rhythm(r: Rhythm) -> bool {
    Rhythm::value_of(r.numerator().value(), r.denominator().value()) == Ok(r)
}
fn valid_duration(d: Duration) -> bool {
    let len = d.tick_length();
    d.dots.value() <= 7 && d.denominator.value() >= 2 && len <= 1920
}
fn valid_bar(b: &Bar) {
    if let Some(r) = b.rhythm { check(valid_rhythm(r), "rhythm in range"); }
    if let Some(k) = b.key { check(k.offset() >= -7 && k.offset() <= 7, "key in range"); }
    let mut r = RepeatSet::EMPTY;
    let mut ok = true;
    for x in REPEATS {
        if b.repeats.contains(x) {
            match r.try_add(x) { Ok(s) => r = s, Err(_) => ok = false }
        }
    }
    check(ok, "no conflicting repeat marks");
}
/// The text with `#` replaced by what is given.
fn filled(t: &str, n: &[u8]) -> String {
    let mut b = vec![];
    for c in t.bytes() {
        if c == b'#' { b.extend_from_slice(n) } else { b.push(c) }
    }
    String::from_utf8(b).unwrap()
}
/// An integer of so many digits, with or without a sign: its text and value, none where JSON has no such number.
fn json_int(digits: u64) -> (Vec<u8>, Option<i64>) {
    let minus = choice("minus", 2) == 1;
    let mut b = if minus { vec![b'-'] } else { vec![] };
    let mut v = 0i64;
    let mut zero = false;
    for i in 0..digits {
        let d = u8_("d");
        assume(d < 10);
        if i == 0 && digits > 1 { zero = d == 0 }
        v = v * 10 + d as i64;
        b.push(b'0' + d);
    }
    // "-0" is a floating-point number to JSON
    if minus { assume(v != 0) }
    (b, if zero { None } else { Some(if minus { -v } else { v }) })
}
/// What is read from the text: any number within the range as it is, any other not at all or as one within.
fn numbered<T: DeserializeOwned>(t: &str, lo: i64, hi: i64, get: impl Fn(&T) -> i64) {
    let (b, n) = json_int(param(1));
    match serde_json::from_str::<T>(&filled(t, &b)) {
        Ok(v) => {
            let g = get(&v);
            check((lo <= g) & (g <= hi), "a number read is in range");
            match n {
                Some(n) => check((g == n) | (n < lo) | (hi < n), "the number written is read"),
                None => check(false, "no number to JSON"),
            }
            reach("ok");
        }
        Err(_) => {
            if let Some(n) = n { check((n < lo) | (hi < n), "a number in range is read"); }
            reach("err");
        }
    }
}
const NOTE: [&str; 2] = [
    r#"{"base_start_tick":7,"pitch":{"solfa":"G","octave":"Oct5","sharp_flat":"Sharp"},"duration":{"numerator":"Half","denominator":3,"dots":1},"tie":true,"tied":false,"base_velocity":#,"start_tick_trimmer":{"values":[-1,0,-3,5]},"duration_trimmer":{"values":[{"value":1000},{"value":500},{"value":2000},{"value":1250}]},"velocity_trimmer":{"values":[0,0,0,0]},"channel":0}"#,
    r#"{"base_start_tick":#,"pitch":{"solfa":"A","octave":"Oct2","sharp_flat":"Null"},"duration":{"numerator":"Quarter","denominator":2,"dots":0},"tie":false,"tied":true,"base_velocity":64,"start_tick_trimmer":{"values":[0,0,0,0]},"duration_trimmer":{"values":[{"value":1000},{"value":1000},{"value":1000},{"value":1000}]},"velocity_trimmer":{"values":[0,4,0,-1]},"channel":2}"#,
];
/// Characters a name can hold.
fn name(n: u64) -> Vec<u8> {
    (0..n).map(|_| { let b = u8_("c"); assume((32 <= b) & (b < 127) & (b != b'"') & (b != b'\\')); b }).collect()
}
const REPEATS: [Repeat; 11] = [Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Fine, Repeat::Ds, Repeat::Segno, Repeat::Coda, Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4];

harness! {
    h_rt_scalars {
        match param(0) {
            0 => both(&pick("solfa", Solfa::ALL), "solfa"),
            1 => both(&pick("octave", Octave::ALL), "octave"),
            2 => both(&pick("sf", &SF), "accidental"),
            3 => both(&any_pitch(), "pitch"),
            4 => both(&any_duration().3, "duration"),
            5 => both(&Trimmer::new(i16_("t0"), i16_("t1"), i16_("t2"), i16_("t3")), "trimmer"),
            6 => both(&pct("p"), "percent"),
            7 => both(&TempoValue::safe_new(u16_("t")), "tempo"),
            8 => both(&Velocity::new(u8_("v")), "velocity"),
            9 => both(&channel_("c"), "channel"),
            10 => both(&key_("k"), "key"),
            11 => both(&rhythm_("n", "d"), "rhythm"),
            12 => { let g = u32_("g"); assume(g > 0); both(&Grid::from_u32(g).unwrap(), "grid") }
            13 => both(&repeats_("set"), "repeats"),
            14 => both(&pick("r", &REPEATS), "repeat mark"),
            15 => both(&RateTrimmer::from_array([pct("r0"), PercentU16::from_value(500), PercentU16::HUNDRED, PercentU16::HUNDRED]), "rate trimmer"),
            16 => both(&Tempo { start_tick: u32_("tick"), value: TempoValue::safe_new(u16_("t")) }, "tempo event"),
            17 => both(&CtrlChg::new(u32_("tick"), Velocity::new(u8_("v")), channel_("c")), "control change"),
            18 => both(&free_bar(), "bar"),
            _ => both(&free_note(true), "note"),
        }
    }
    h_rt_models {
        let m = free_models();
        both(&m, "models");
    }
    h_rt_cmd {
        // what the undo log stores
        let meta = ModelChangeMetadata { need_select: pick("sel", &[None, Some(true), Some(false)]), dragged: bool_("dragged") };
        let c = match param(0) {
            0 => ProjectCmd::SetRhythm(rhythm_("n", "d"), rhythm_("n2", "d2")),
            1 => ProjectCmd::SetKey(key_("k"), key_("k2")),
            2 => { let (a, b) = (u32_("g"), u32_("g2")); assume(a > 0 && b > 0); ProjectCmd::SetGrid(Grid::from_u32(a).unwrap(), Grid::from_u32(b).unwrap()) }
            3 => ProjectCmd::ModelChanged { added: free_models(), removed: Models::empty(), metadata: meta },
            _ => ProjectCmd::ModelChanged { added: Models::empty(), removed: free_models(), metadata: meta },
        };
        both(&c, "command");
    }
    h_rt_exported {
        let m = free_models();
        let e = ExportedProject { key: pick("k", &[Some(Key::FLAT_3), None]), rhythm: Some(rhythm_few("n", "d")), notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(), dumpers: m.dumpers.clone(), softs: m.softs.clone() };
        both(&e, "exported project");
        check(e.to_models() == m, "exported models");
    }
    h_rt_project {
        // the snapshot form of a project keeps everything
        let ms = free_models();
        let (r, k, g) = (rhythm_few("n", "d"), key_few("k"), u32_("g"));
        assume(g > 0);
        let p = project(r, k, Grid::from_u32(g).unwrap(), ms.clone());
        check(p.rhythm() == r && p.key() == k && p.grid().as_u32() == g, "settings kept");
        let q = if param(1) == 0 { via_bytes(&p) } else { via_value(&p) };
        match q {
            Some(q) => {
                check(q.rhythm() == p.rhythm() && q.key() == p.key() && q.grid() == p.grid(), "settings read back");
                check(q.note_repo().len() == 1 && q.bar_repo().len() == 1 && q.tempo_repo().len() == 1 && q.dumper_repo().len() == 1, "item counts");
                check(q.soft_repo().len() == p.soft_repo().len(), "item counts");
                check(q.note_repo().iter().all(|(t, n)| *t == n.start_tick() && **n == ms.notes[0]), "notes read back");
                check(q.bar_repo()[0] == (ms.bars[0].start_tick, ms.bars[0]), "bars read back");
                check(q.tempo_repo()[0] == (ms.tempos[0].start_tick, ms.tempos[0]), "tempos read back");
                check(q.dumper_repo()[0] == (ms.dumpers[0].start_tick, ms.dumpers[0]), "pedals read back");
                check((0..q.soft_repo().len()).all(|i| q.soft_repo()[i] == p.soft_repo()[i]), "soft pedals read back");
                reach("done");
            }
            None => check(false, "project reads back"),
        }
    }
    h_de_pitch {
        if let Some(p) = de::<Pitch>(param(0)) {
            check(consistent(p), "pitch consistent");
        }
    }
    h_de_small {
        match param(0) {
            0 => if let Some(c) = de::<Channel>(1) { check(c.as_u8() < 16, "channel in range"); },
            1 => if let Some(k) = de::<Key>(1) { check(k.offset() >= -7 && k.offset() <= 7, "key in range"); },
            2 => if let Some(n) = de::<rhythm::Numerator>(1) { check(n.value() >= 1 && n.value() <= 99, "rhythm numerator in range"); },
            3 => if let Some(n) = de::<Dots>(1) { check(n.value() <= 7, "dots in range"); },
            4 => if let Some(n) = de::<Denominator>(1) { check(n.value() >= 2, "denominator in range"); },
            5 => if let Some(g) = de::<Grid>(4) { check(g.as_u32() >= 1, "grid in range"); let _ = g.snap(1000); },
            6 => if let Some(p) = de::<PercentU16>(2) { check(p.apply(1000) <= 2000, "percent in range"); },
            7 => if let Some(t) = de::<TempoValue>(2) { check(t.as_u16() >= 1 && t.as_u16() <= 999, "tempo in range"); },
            8 => if let Some(v) = de::<Velocity>(1) { check(v.as_u8() <= 127, "velocity in range"); },
            9 => if let Some(r) = de::<Rhythm>(5) { check(valid_rhythm(r), "rhythm in range"); },
            10 => if let Some(d) = de::<Duration>(6) { check(valid_duration(d), "duration in range"); },
            11 => if let Some(t) = de::<Trimmer>(8) { let v = t.to_array(); check(t.sum() == v[0] as i32 + v[1] as i32 + v[2] as i32 + v[3] as i32, "trimmer total is exact"); },
            12 => if let Some(t) = de::<Tempo>(6) { check(t.value.as_u16() >= 1 && t.value.as_u16() <= 999, "tempo in range"); },
            13 => if let Some(t) = de::<CtrlChg>(6) { check(t.velocity.as_u8() <= 127 && t.channel.as_u8() < 16, "control change in range"); },
            14 => { let _ = de::<Solfa>(4); }
            15 => { let _ = de::<Octave>(4); }
            16 => { let _ = de::<SharpFlat>(4); }
            17 => { let _ = de::<Repeat>(4); }
            _ => if let Some(r) = de::<RepeatSet>(2) { check(r.len() <= 11, "known marks only"); },
        }
    }
    h_de_bar {
        if let Some(b) = de::<Bar>(param(0)) { valid_bar(&b); }
    }
    // which number in which text, how many digits
    h_text_number {
        match param(0) {
            0 => numbered(r#"{"start_tick":5,"value":#}"#, 1, 999, |t: &Tempo| { check(t.start_tick == 5, "the rest as written"); t.value.as_u16() as i64 }),
            1 => numbered(r#"{"start_tick":#,"value":77}"#, 0, u32::MAX as i64, |t: &Tempo| { check(t.value.as_u16() == 77, "the rest as written"); t.start_tick as i64 }),
            2 => numbered(r#"{"start_tick":4,"velocity":#,"channel":3}"#, 0, 127, |c: &CtrlChg| { check((c.start_tick == 4) & (c.channel.as_u8() == 3), "the rest as written"); c.velocity.as_u8() as i64 }),
            3 => numbered(r#"{"start_tick":4,"velocity":5,"channel":#}"#, 0, 15, |c: &CtrlChg| { check((c.start_tick == 4) & (c.velocity.as_u8() == 5), "the rest as written"); c.channel.as_u8() as i64 }),
            4 => numbered(r#"{"start_tick":3,"rhythm":null,"key":#,"repeats":{"value":0}}"#, -7, 7, |b: &Bar| { check((b.start_tick == 3) & b.rhythm.is_none() & (b.repeats.len() == 0), "the rest as written"); b.key.unwrap().offset() as i64 }),
            5 => numbered(r#"{"start_tick":3,"rhythm":{"numerator":#,"denominator":"D8"},"key":null,"repeats":{"value":0}}"#, 1, 99, |b: &Bar| { let r = b.rhythm.unwrap(); check(b.key.is_none() & (r.denominator().value() == 8), "the rest as written"); r.numerator().value() as i64 }),
            6 => numbered(r#"{"start_tick":#,"rhythm":null,"key":null,"repeats":{"value":65}}"#, 0, u32::MAX as i64, |b: &Bar| { check(b.repeats.contains(Repeat::Start) & b.repeats.contains(Repeat::Coda) & (b.repeats.len() == 2), "the rest as written"); b.start_tick as i64 }),
            7 => numbered(r#"{"numerator":"N8th","denominator":#,"dots":2}"#, 2, 255, |d: &Duration| { check((d.numerator == duration::Numerator::N8th) & (d.dots.value() == 2), "the rest as written"); d.denominator.value() as i64 }),
            8 => numbered(r#"{"numerator":"N64th","denominator":5,"dots":#}"#, 0, 7, |d: &Duration| { check((d.numerator == duration::Numerator::N64th) & (d.denominator.value() == 5), "the rest as written"); d.dots.value() as i64 }),
            9 => numbered(r#"{"value":#}"#, 1, u32::MAX as i64, |g: &Grid| g.as_u32() as i64),
            10 => numbered(r#"{"value":#}"#, 0, 2000, |p: &PercentU16| p.apply(1000) as i64),
            11 => numbered(r#"{"values":[1,2,#,-4]}"#, -32768, 32767, |t: &Trimmer| { let a = t.to_array(); check((a[0] == 1) & (a[1] == 2) & (a[3] == -4), "the rest as written"); a[2] as i64 }),
            12 => numbered(r#"{"values":[{"value":1000},{"value":#},{"value":3},{"value":500}]}"#, 0, 2000, |t: &RateTrimmer| { let a = t.to_vec(); check((a[0].apply(1000) == 1000) & (a[2].apply(1000) == 3) & (a[3].apply(1000) == 500), "the rest as written"); a[1].apply(1000) as i64 }),
            13 => numbered(NOTE[0], 0, 127, |n: &Note| {
                check(n.base_start_tick == 7 && n.pitch == Pitch::new(Solfa::G, Octave::Oct5, SharpFlat::Sharp) && n.tie && !n.tied && n.channel.as_u8() == 0, "the rest as written");
                check(n.duration == Duration::new(duration::Numerator::Half, Denominator::from_value(3).unwrap(), Dots::from_value(1).unwrap()), "the rest as written");
                check(n.start_tick_trimmer.to_array() == [-1, 0, -3, 5], "the rest as written");
                n.base_velocity().as_u8() as i64
            }),
            _ => numbered(NOTE[1], 0, u32::MAX as i64, |n: &Note| {
                check(n.pitch == Pitch::new(Solfa::A, Octave::Oct2, SharpFlat::Null) && !n.tie && n.tied && n.channel.as_u8() == 2, "the rest as written");
                check(n.base_velocity().as_u8() == 64 && n.velocity_trimmer.to_array() == [0, 4, 0, -1], "the rest as written");
                n.base_start_tick as i64
            }),
        }
    }
    // which name, how many characters of it are free
    h_text_name {
        let c = name(param(1));
        match param(0) {
            0 => match serde_json::from_str::<Pitch>(&filled(r##"{"solfa":"#","octave":"Oct4","sharp_flat":"Null"}"##, &c)) {
                Ok(p) => { check((c.len() == 1) & consistent(p) & (p.solfa().to_string().as_bytes() == &c[..]) & (p.octave() == Octave::Oct4), "the note named"); reach("ok") }
                Err(_) => { check((c.len() != 1) | (c[0] < b'A') | (c[0] > b'G'), "every note name is read"); reach("err") }
            },
            1 => match serde_json::from_str::<Pitch>(&filled(r##"{"solfa":"C","octave":"Oct#","sharp_flat":"Flat"}"##, &c)) {
                Ok(p) => {
                    let o = p.octave().value();
                    check(consistent(p) & (p.solfa() == Solfa::C) & (p.sharp_flat() == SharpFlat::Flat), "a valid pitch");
                    check(if o < 0 { c.len() == 2 && (c[0] == b'M') & (c[1] as i32 == b'0' as i32 - o) } else { c.len() == 1 && c[0] as i32 == b'0' as i32 + o }, "the octave named");
                    reach("ok")
                }
                Err(_) => { check(!(c.len() == 1 && (b'0' <= c[0]) & (c[0] <= b'8')) && &c[..] != b"M1", "every octave with such a pitch is read"); reach("err") }
            },
            2 => match serde_json::from_str::<Rhythm>(&filled(r##"{"numerator":7,"denominator":"D#"}"##, &c)) {
                Ok(r) => {
                    let d = r.denominator().value();
                    check(valid_rhythm(r) & (r.numerator().value() == 7), "a valid rhythm");
                    check(if d < 10 { c.len() == 1 && c[0] == b'0' + d } else { c.len() == 2 && (c[0] == b'0' + d / 10) & (c[1] == b'0' + d % 10) }, "the denominator named");
                    reach("ok")
                }
                Err(_) => {
                    check([&b"2"[..], b"4", b"8", b"16", b"32", b"64"].iter().fold(true, |a, x| a && *x != &c[..]), "every denominator is read");
                    reach("err")
                }
            },
            4 => {
                let of = |s: SharpFlat| match s { SharpFlat::Sharp => "Sharp", SharpFlat::DoubleSharp => "DoubleSharp", SharpFlat::Flat => "Flat", SharpFlat::DoubleFlat => "DoubleFlat", SharpFlat::Natural => "Natural", SharpFlat::Null => "Null" };
                match serde_json::from_str::<SharpFlat>(&filled(r##""#""##, &c)) {
                    Ok(s) => { check(&c[..] == of(s).as_bytes(), "the accidental named"); reach("ok") }
                    Err(_) => { check(SF.iter().fold(true, |a, s| a & (&c[..] != of(*s).as_bytes())), "every accidental is read"); reach("err") }
                }
            }
            5 => {
                let of = |n: duration::Numerator| ["Whole", "Half", "Quarter", "N8th", "N16th", "N32nd", "N64th", "N128th"][n as usize];
                match serde_json::from_str::<Duration>(&filled(r##"{"numerator":"#","denominator":2,"dots":0}"##, &c)) {
                    Ok(d) => { check(&c[..] == of(d.numerator).as_bytes() && d.denominator.value() == 2 && d.dots.value() == 0, "the note value named"); reach("ok") }
                    Err(_) => { check(NUMS.iter().fold(true, |a, n| a & (&c[..] != of(*n).as_bytes())), "every note value is read"); reach("err") }
                }
            }
            _ => match serde_json::from_str::<Duration>(&filled(r##"{"numerator":"N#th","denominator":2,"dots":0}"##, &c)) {
                Ok(d) => {
                    let n: &[u8] = match d.numerator { duration::Numerator::N8th => b"8", duration::Numerator::N16th => b"16", duration::Numerator::N64th => b"64", duration::Numerator::N128th => b"128", _ => b"?" };
                    check(&c[..] == n, "the note value named");
                    reach("ok")
                }
                Err(_) => { check(c != b"8" && c != b"16" && c != b"64" && c != b"128", "every note value is read"); reach("err") }
            },
        }
    }
    // a project file, an exported project
    h_text_project {
        let (b, n) = json_int(param(0));
        let v = match n { Some(n) if n >= 1 && n <= 999 => n, _ => { assume(false); 0 } };
        let items = filled(r##""notes":[],"bars":[{"start_tick":#,"rhythm":null,"key":1,"repeats":{"value":0}}],"tempos":[{"start_tick":2,"value":#}],"dumpers":[{"start_tick":#,"velocity":5,"channel":3}],"softs":[]"##, &b);
        if choice("form", 2) == 0 {
            let mut t = filled(r##"{"rhythm":{"numerator":3,"denominator":"D4"},"key":-3,"grid":{"value":#},"models":{"##, &b);
            t.push_str(&items);
            t.push_str("}}");
            match serde_json::from_str::<ProjectImpl>(&t) {
                Ok(p) => {
                    check(p.rhythm() == Rhythm::new(3, 4) && p.key() == Key::FLAT_3 && p.grid().as_u32() as i64 == v, "settings as written");
                    check(p.note_repo().len() == 0 && p.bar_repo().len() == 1 && p.tempo_repo().len() == 1 && p.dumper_repo().len() == 1 && p.soft_repo().len() == 0, "items as written");
                    check(p.bar_repo()[0].1 == Bar::new(v as u32, None, Some(Key::SHARP_1), RepeatSet::EMPTY), "bar as written");
                    check(p.tempo_repo()[0].1 == Tempo::new(2, v as u16), "tempo as written");
                    check(p.dumper_repo()[0].1 == CtrlChg::new(v as u32, Velocity::new(5), Channel::new(3)), "pedal as written");
                }
                Err(_) => check(false, "a project file is read"),
            }
        } else {
            let k = choice("key", 2);
            let mut t = String::from(if k == 0 { r#"{"key":null,"rhythm":{"numerator":3,"denominator":"D4"},"# } else { r#"{"key":-3,"rhythm":null,"# });
            t.push_str(&items);
            t.push('}');
            match serde_json::from_str::<ExportedProject>(&t) {
                Ok(p) => {
                    check(p.key == if k == 0 { None } else { Some(Key::FLAT_3) }, "key as written");
                    check(p.rhythm == if k == 0 { Some(Rhythm::new(3, 4)) } else { None }, "rhythm as written");
                    check(p.notes.is_empty() && p.bars.len() == 1 && p.tempos.len() == 1 && p.dumpers.len() == 1 && p.softs.is_empty(), "items as written");
                    check(p.bars[0] == Bar::new(v as u32, None, Some(Key::SHARP_1), RepeatSet::EMPTY) && p.tempos[0] == Tempo::new(2, v as u16), "items as written");
                }
                Err(_) => check(false, "an exported project is read"),
            }
        }
        reach("done");
    }
    // many items of every kind: models, a project, a command
    h_rt_many {
        let mut m = Models::empty();
        let n = param(0) as u32;
        let free = choice("free", n as u64) as u32;
        for i in 0..n {
            let t = if i == free { u32_("tick") } else { 1000 * i };
            m.notes.push(Note { base_start_tick: t, velocity_trimmer: Trimmer::new(i as i16, 0, 1, 2), ..Note::default() });
            m.bars.push(Bar::new(1000 * i + 1, if i % 2 == 0 { Some(Rhythm::new(i as u8 + 1, 8)) } else { None }, None, RepeatSet::EMPTY));
            m.tempos.push(Tempo::new(1000 * i + 2, 50 + i as u16));
            m.dumpers.push(CtrlChg::new(1000 * i + 3, Velocity::new(i as u8), Channel::new(i as u8 % 16)));
            m.softs.push(CtrlChg::new(1000 * i + 4, Velocity::new(2 * i as u8), Channel::new(i as u8 % 16)));
        }
        both(&m, "models");
        let p = project(Rhythm::new(3, 4), Key::SHARP_2, Grid::from_u32(60).unwrap(), m.clone());
        match if param(1) == 0 { via_bytes(&p) } else { via_value(&p) } {
            Some(q) => {
                let k = n as usize;
                check(q.note_repo().len() == k && q.bar_repo().len() == k && q.tempo_repo().len() == k && q.dumper_repo().len() == k && q.soft_repo().len() == k, "item counts");
                for i in 0..k {
                    check(q.bar_repo()[i].1 == m.bars[i] && q.tempo_repo()[i].1 == m.tempos[i], "bars and tempos read back");
                    check(q.dumper_repo()[i].1 == m.dumpers[i] && q.soft_repo()[i].1 == m.softs[i], "pedals read back");
                }
                for x in m.notes.iter() {
                    let mut there = 0;
                    for (_, y) in q.note_repo().iter() {
                        there += (**y == *x) as usize;
                    }
                    check(there == 1, "notes read back");
                }
            }
            None => check(false, "project reads back"),
        }
        reach("done");
    }
}
