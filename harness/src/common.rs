//! Symbolic model values shared by the harness parts.
use crate::api::*;
use klavier_core::duration::{self, Denominator, Dots, Duration};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::Models;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::ProjectImpl;
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;

pub fn i16x4() -> [i16; 4] {
    [i16_("t0"), i16_("t1"), i16_("t2"), i16_("t3")]
}
/// A percentage a user can set: 0.0% to 200.0% in steps of 0.1.
pub fn any_percent(s: &str) -> (u16, PercentU16) {
    let v = u16_(s);
    assume(v <= 2000);
    (v, PercentU16::from_value(v))
}
pub const NUMS: [duration::Numerator; 8] = [
    duration::Numerator::Whole, duration::Numerator::Half, duration::Numerator::Quarter, duration::Numerator::N8th,
    duration::Numerator::N16th, duration::Numerator::N32nd, duration::Numerator::N64th, duration::Numerator::N128th,
];
pub fn any_duration() -> (u32, u32, u32, Duration) {
    let (n, d, k) = (choice("num", 8) as u8, u8_("den"), u8_("dots"));
    assume(d >= 2 && k <= 7);
    let dur = Duration::new(
        duration::Numerator::from_ord(n).unwrap(),
        Denominator::from_value(d).unwrap(),
        Dots::from_value(k).unwrap(),
    );
    (n as u32, d as u32, k as u32, dur)
}
/// Ticks of a duration per the definition of dotted notes and tuplets (quarter = 240 ticks).
pub fn ticks(n: u32, d: u32, k: u32) -> u32 {
    let len = 960u32 >> n;
    (2 * len - (len >> k)) * 2 / d
}


pub const SF: [SharpFlat; 6] = [SharpFlat::Sharp, SharpFlat::DoubleSharp, SharpFlat::Flat, SharpFlat::DoubleFlat, SharpFlat::Natural, SharpFlat::Null];
pub fn solfa() -> Solfa {
    let i = u8_("solfa");
    assume(i < 7);
    Solfa::ALL[i as usize]
}
pub fn octave() -> Octave {
    let i = u8_("octave");
    assume(i < 11);
    Octave::ALL[i as usize]
}
pub fn sharp_flat() -> SharpFlat {
    let i = u8_("sharp_flat");
    assume(i < 6);
    SF[i as usize]
}
/// Semitone of each natural step, straight from music theory (not from the code).
pub const SEMI: [i32; 7] = [0, 2, 4, 5, 7, 9, 11];
pub const ACC: [i32; 6] = [1, 2, -1, -2, 0, 0];
pub fn so(s: Solfa) -> i32 {
    Solfa::ALL.iter().position(|x| *x == s).unwrap() as i32
}
pub fn oo(o: Octave) -> i32 {
    Octave::ALL.iter().position(|x| *x == o).unwrap() as i32
}
pub fn ac(s: SharpFlat) -> usize {
    SF.iter().position(|x| *x == s).unwrap()
}
/// The one valid reading of a pitch's stored fields.
pub fn consistent(p: Pitch) -> bool {
    let v = SEMI[so(p.solfa()) as usize] + 12 * oo(p.octave()) + ACC[ac(p.sharp_flat())];
    p.value() as i32 == v && v >= 0 && v <= 127 && p.score_offset() as i32 == so(p.solfa()) + 7 * oo(p.octave())
}
pub fn any_pitch() -> Pitch {
    let r = Pitch::value_of(solfa(), octave(), sharp_flat());
    assume(r.is_ok());
    match r {
        Ok(p) => p,
        Err(_) => unreachable!(),
    }
}


/// A project with exactly these contents, however ordered (the form snapshots are kept in).
pub fn project(rhythm: Rhythm, key: Key, grid: Grid, models: Models) -> ProjectImpl {
    #[derive(serde::Serialize)]
    struct Snapshot { rhythm: Rhythm, key: Key, grid: Grid, models: Models }
    let v = serde_json::to_value(Snapshot { rhythm, key, grid, models }).unwrap();
    serde_json::from_value(v).unwrap()
}

pub type Store = klavier_core::project::ProjectStore;
/// A new project as the editor opens it; natively on a real database in a scratch directory that
/// goes away with the returned guard.
#[cfg(feature = "sym")]
pub fn open_store() -> ((), Store) {
    ((), Store::open("/project", serdo::undo_store::Options::new()).unwrap())
}
#[cfg(feature = "native")]
pub fn open_store() -> (tempfile::TempDir, Store) {
    let d = tempfile::tempdir().unwrap();
    let mut p = d.path().to_path_buf();
    p.push("project");
    let s = Store::open(p, serdo::undo_store::Options::new()).unwrap();
    (d, s)
}
/// Waits until the store has written its latest command; only then does it know that it can redo.
#[cfg(feature = "sym")]
pub fn written(s: &mut Store) {
    check(s.saved().unwrap(), "the latest command is written");
}
#[cfg(feature = "native")]
pub fn written(s: &mut Store) {
    let begin = std::time::Instant::now();
    while !s.saved().unwrap() && begin.elapsed().as_secs() < 100 {
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
}
/// The models as one command.
pub fn added(models: Models) -> klavier_core::project::ProjectCmd {
    klavier_core::project::ProjectCmd::ModelChanged {
        added: models, removed: Models::empty(), metadata: klavier_core::project::ModelChangeMetadata::new(),
    }
}
/// A project holding the models (nothing is replenished).
pub fn holding(rhythm: Rhythm, key: Key, models: Models) -> ProjectImpl {
    use klavier_core::project::ProjectCmd;
    use serdo::cmd::Cmd;
    let mut p = ProjectImpl::default();
    ProjectCmd::SetRhythm(p.rhythm(), rhythm).redo(&mut p);
    ProjectCmd::SetKey(p.key(), key).redo(&mut p);
    added(models).redo(&mut p);
    p
}
pub fn any_key(s: &str) -> Key {
    let k = i8_(s);
    assume(-7 <= k && k <= 7);
    Key::try_from(k).unwrap()
}
pub fn any_tempo(s: &str) -> u16 {
    let v = u16_(s);
    assume(1 <= v && v <= 999);
    v
}
