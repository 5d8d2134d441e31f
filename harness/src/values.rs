//! C03 trimmers, C04 percentages, C05 tempo values, C07 durations and rhythms, C08 grid.
use crate::api::*;
use klavier_core::can_apply::CanApply;
use klavier_core::channel::Channel;
use klavier_core::duration::{self, Denominator, Dots, Duration};
use klavier_core::grid::Grid;
use klavier_core::percent::PercentU16;
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;

pub use crate::common::*;
fn total(v: &[i16; 4]) -> i32 {
    v[0] as i32 + v[1] as i32 + v[2] as i32 + v[3] as i32
}
fn pv(p: PercentU16) -> u32 {
    p.apply(1000)
}

harness! {
    h_trimmer_sum {
        let v = i16x4();
        let want = total(&v);
        let t = match param(0) {
            0 => Trimmer::new(v[0], v[1], v[2], v[3]),
            1 => Trimmer::from_array(v),
            2 => Trimmer::from_vec(&v.to_vec()),
            _ => Trimmer::ZERO.updated(|a| *a = v),
        };
        check(t.sum() == want, "sum is the exact total");
        check(t.to_array() == v, "values kept");
        check(t.values() == v && t.to_vec() == v, "values readable");
        let i = choice("i", 4) as usize;
        check(t.value(i) == v[i] as i32, "value(i)");
        observe("sum", t.sum() as i64 as u64);
        reach("done");
    }
    h_trimmer_eq {
        let a = i16x4();
        let b = i16x4();
        let (x, y) = (Trimmer::new(a[0], a[1], a[2], a[3]), Trimmer::new(b[0], b[1], b[2], b[3]));
        check((x == y) == (a == b), "equal exactly when all four values are");
        reach("done");
    }
    h_trimmer_added {
        let v = i16x4();
        let d = i32_("delta");
        let t = Trimmer::new(v[0], v[1], v[2], v[3]).added(d);
        let w = t.to_array();
        check(t.sum() == total(&w), "sum is the exact total");
        let want = total(&v) as i64 + d as i64;
        let (lo, hi) = (4 * i16::MIN as i32, 4 * i16::MAX as i32);
        if want < lo as i64 { reach("low"); check(t.sum() == lo, "saturates at the bottom"); }
        else if want > hi as i64 { reach("high"); check(t.sum() == hi, "saturates at the top"); }
        else { reach("moved"); check(t.sum() == total(&v).wrapping_add(d), "moved by delta"); }
        // the delta is put on the earliest trimmer that has room
        let cap = if d < 0 { i16::MIN } else { i16::MAX };
        let mut i = 1;
        while i < 4 {
            if w[i] != v[i] { check(w[i - 1] == cap, "earlier trimmers saturate first"); }
            i += 1;
        }
        observe("sum", t.sum() as i64 as u64);
        reach("done");
    }
    h_percent_roundtrip {
        let (v, p) = any_percent("v");
        let f = p.to_f32();
        check(f >= 0.0 && f <= 2.0, "ratio range");
        let q = PercentU16::from(f);
        check(q == p, "percent -> ratio -> percent");
        observe("q", pv(q) as u64);
        check(pv(p) == v as u32, "value");
        reach("done");
    }
    h_percent_from_f32 {
        // every bit pattern of f32, NaN and infinities included
        let f = f32::from_bits(u32_("bits"));
        let p = PercentU16::from(f);
        let v = pv(p) as i64;
        check(v >= 0 && v <= 2000, "clamped to 0..=200%");
        if f.is_nan() || f <= 0.0 { reach("low"); check(v == 0, "nan and negatives are 0"); }
        else if f >= 2.0 { reach("high"); check(v == 2000, "capped at 200%"); }
        else {
            reach("mid");
            // within one step of the requested ratio
            let x = f as f64 * 1000.0;
            let d = x - v as f64;
            check(d > -1.0 && d < 1.0, "nearest step");
        }
    }
    h_percent_apply {
        let (v, p) = any_percent("v");
        let x = u32_("x");
        let want = x as u64 * v as u64 / 1000;
        assume(want <= u32::MAX as u64);
        check(p.apply(x) as u64 == want, "floor(x * percent)");
        reach("done");
    }
    h_rate_trimmer_rebuild {
        // however a rate trimmer was made, rebuilding it from its four values gives an equal one
        let f = |s: &str| -> f32 {
            let x = f32::from_bits(u32_(s));
            assume(x >= 0.0 && x <= 4.0);
            x
        };
        let one = 1.0f32;
        let a = match param(0) {
            0 => RateTrimmer::new(f("r"), one, one, one),
            1 => RateTrimmer::new(one, one, f("r"), 0.5),
            _ => RateTrimmer::new(f("r"), 0.5, one, f("r")),
        };
        let b = RateTrimmer::from_vec(&a.to_vec());
        check(a == b && a.sum() == b.sum(), "rebuilt from values is equal");
        let c = RateTrimmer::from_array([a.value(0), a.value(1), a.value(2), a.value(3)]);
        check(c == b && c.sum() == b.sum(), "array and vec agree");
        reach("done");
    }
    h_rate_trimmer_sum {
        let (v, p) = any_percent("v");
        let k = param(0) as usize; // position of the free value, others 100%
        let mut a = [PercentU16::HUNDRED; 4];
        a[k] = p;
        let r = RateTrimmer::from_array(a);
        check(r.sum() == p, "100% factors leave the rate unchanged");
        check(r.value(k) == p && r.values() == a && r.to_vec() == a, "values kept");
        let x = u32_in("x", 0, 1 << 20);
        check(r.apply(x) == r.sum().apply(x), "applies the product");
        reach("done");
    }
    // equal exactly when the four rates are, the products being equal or not
    h_rate_trimmer_eq {
        let (v, p) = any_percent("v");
        let w = [0u16, 1, 333, 999, 1000, 1001, 1500, 2000][choice("w", 8) as usize];
        let q = PercentU16::from_value(w);
        let (i, j) = (param(0) as usize, param(1) as usize);
        let (mut a, mut b) = ([PercentU16::HUNDRED; 4], [PercentU16::HUNDRED; 4]);
        a[i] = p;
        b[j] = q;
        let want = if i == j { v == w } else { (v == 1000) & (w == 1000) };
        let (a, b) = (RateTrimmer::from_array(a), RateTrimmer::from_array(b));
        check((a == b) == want, "equal exactly when the rates are");
        check((b == a) == want, "equality is symmetric");
        check((a != b) != want, "and unequal otherwise");
        reach(if want { "same" } else { "other" });
    }
    h_rate_trimmer_sum2 {
        // product of two free percentages, to within one step
        let (v, p) = any_percent("v");
        let w = [0u16, 1, 333, 500, 999, 1001, 1500, 2000][choice("w", 8) as usize];
        let q = PercentU16::from_value(w);
        let (i, j) = (param(0) as usize, param(1) as usize);
        let mut a = [PercentU16::HUNDRED; 4];
        a[i] = p;
        a[j] = q;
        let r = RateTrimmer::from_array(a);
        let want = v as i64 * w as i64; // in 1e-6
        let want = if want > 2_000_000 { 2_000_000 } else { want };
        let got = pv(r.sum()) as i64 * 1000;
        check(got - want <= 1000 && want - got <= 1000, "sum is the product of the rates");
        reach("done");
    }
    h_tempo_new {
        let v = u16_("v");
        let t = TempoValue::safe_new(v);
        let want = if v < 1 { 1 } else if v > 999 { 999 } else { v };
        check(t.as_u16() == want && t.value() == want, "safe_new clamps to 1..=999");
        observe("t", t.as_u16() as u64);
        reach("done");
    }
    h_tempo_new_strict {
        let v = u16_("v");
        let ok = v >= 1 && v <= 999;
        if !ok { panic_expected(); }
        let t = if param(0) == 0 { TempoValue::new(v) } else { Tempo::new(5, v).value };
        panic_default();
        check(ok, "accepts only 1..=999");
        check(t.as_u16() == v, "value kept");
        reach("done");
    }
    h_tempo_step {
        let v = u16_("v");
        let t = Tempo { start_tick: u32_("tick"), value: TempoValue::safe_new(v) };
        let c = t.value.as_u16();
        match t.up() {
            Ok(u) => {
                reach("up");
                check(u.value.as_u16() == c + 1 && c < 999 && u.start_tick == t.start_tick, "up adds one");
                match u.down() { Ok(d) => check(d == t, "down undoes up"), Err(_) => check(false, "down undoes up") }
            }
            Err(_) => { reach("top"); check(c == 999, "up fails only at the top"); }
        }
        match t.down() {
            Ok(u) => { reach("down"); check(u.value.as_u16() + 1 == c && u.value.as_u16() >= 1 && u.start_tick == t.start_tick, "down subtracts one"); }
            Err(_) => { reach("bottom"); check(c == 1, "down fails only at the bottom"); }
        }
    }
    h_tempo_drag {
        let t = Tempo { start_tick: u32_("tick"), value: TempoValue::safe_new(u16_("v")) };
        let (dt, dv) = (i32_("dt"), i32_("dv"));
        let tick = t.start_tick as i64 + dt as i64;
        assume(tick >= 0 && tick <= u32::MAX as i64);
        let want = t.value.as_u16() as i64 + dv as i64;
        let want = if want < 1 { 1 } else if want > 999 { 999 } else { want };
        let r = t.drag(dt, dv);
        check(r.start_tick as i64 == tick, "tick moved by delta");
        check(r.value.as_u16() as i64 == want, "tempo moved by delta, clamped to 1..=999");
        observe("v", r.value.as_u16() as u64);
        reach("done");
    }
    h_velocity_channel {
        let v = u8_("v");
        check(Velocity::new(v).as_u8() == if v > 127 { 127 } else { v }, "velocity clamps at 127");
        if v >= 16 { panic_expected(); }
        let c = Channel::new(v);
        panic_default();
        check(v < 16 && c.as_u8() == v, "only the 16 MIDI channels exist");
        reach("done");
    }
    h_duration_tick_len {
        let (n, d, k, dur) = any_duration();
        let want = ticks(n, d, k);
        check(dur.tick_length() == want, "ticks of a dotted/tuplet note");
        check(want <= 1920, "never above the maximum tick length");
        observe("len", dur.tick_length() as u64);
        reach("done");
    }
    h_duration_parts {
        let (n, d, k) = (u8_("n"), u8_("d"), u8_("k"));
        match duration::Numerator::from_ord(n) {
            Some(x) => { reach("num"); check(n < 8 && x.ord() == n, "numerator ord round trip"); }
            None => { reach("no num"); check(n >= 8, "numerator rejected"); }
        }
        match Denominator::from_value(d) {
            Some(x) => { reach("den"); check(d >= 2 && x.value() == d, "denominator"); }
            None => { reach("no den"); check(d < 2, "denominator rejected"); }
        }
        match Dots::from_value(k) {
            Some(x) => { reach("dots"); check(k <= 7 && x.value() == k, "dots"); }
            None => { reach("no dots"); check(k > 7, "dots rejected"); }
        }
    }
    h_duration_with {
        let (d, k) = (u8_("den"), u8_("dots"));
        assume(d >= 2 && k <= 7);
        let dur = Duration::new(NUMS[param(0) as usize], Denominator::from_value(d).unwrap(), Dots::from_value(k).unwrap());
        let (_, _, _, other) = any_duration();
        check(dur.with_numerator(other.numerator) == Duration { numerator: other.numerator, ..dur }, "with_numerator replaces only the numerator");
        check(dur.with_denominator(other.denominator) == Duration { denominator: other.denominator, ..dur }, "with_denominator replaces only the denominator");
        check(dur.with_dots(other.dots) == Duration { dots: other.dots, ..dur }, "with_dots replaces only the dots");
        let m = dur.min(other);
        let (x, y) = (dur.tick_length(), other.tick_length());
        check(m.tick_length() == if x < y { x } else { y }, "min is the shorter one");
        check(m == dur || m == other, "min is one of the two");
        reach("done");
    }
    h_duration_order {
        // one more dot never shortens, a larger denominator never lengthens, the next numerator is at most half + rounding
        let (n, d, k, dur) = any_duration();
        let a = dur.tick_length();
        if k < 7 { check(dur.with_dots(Dots::from_value(k as u8 + 1).unwrap()).tick_length() >= a, "dots lengthen"); }
        if d < 255 { check(dur.with_denominator(Denominator::from_value(d as u8 + 1).unwrap()).tick_length() <= a, "denominators shorten"); }
        if n < 7 { check(dur.with_numerator(duration::Numerator::from_ord(n as u8 + 1).unwrap()).tick_length() * 2 <= a + 1, "numerators halve"); }
        reach("done");
    }
    h_rhythm {
        let (n, d) = (u8_("n"), u8_("d"));
        let okn = n >= 1 && n <= 99;
        let okd = d == 2 || d == 4 || d == 8 || d == 16 || d == 32 || d == 64;
        match Rhythm::value_of(n, d) {
            Ok(r) => {
                reach("ok");
                check(okn && okd, "accepts only n/2^k");
                check(r.numerator().value() == n && r.denominator().value() == d, "fields kept");
                // numerator * whole note / denominator, exactly
                check(r.tick_len() as u64 * d as u64 == n as u64 * 960, "bar length in ticks");
                observe("len", r.tick_len() as u64);
            }
            Err(_) => { reach("err"); check(!(okn && okd), "rejected a valid rhythm"); }
        }
        check(rhythm::Numerator::from_value(n).is_ok() == okn, "numerator range");
        check(rhythm::Denominator::from_value(d).is_ok() == okd, "denominator range");
    }
    h_grid_new {
        let i = u32_("i");
        match Grid::from_u32(i) {
            Ok(g) => { reach("ok"); check(i != 0 && g.as_u32() == i, "grid value"); }
            Err(_) => { reach("err"); check(i == 0, "only zero is rejected"); }
        }
    }
    h_grid_snap {
        // every tick of magnitude below 2^32
        let i = param(0) as i64;
        let m = u32_("tick") as i64;
        grid_laws(i, m, choice("neg", 2) == 1);
    }
    h_grid_snap_any {
        let i = u8_("grid");
        assume(i >= 1);
        let m = u16_("tick") & ((1u32 << param(0)) - 1) as u16;
        grid_laws(i as i64, m as i64, choice("neg", 2) == 1);
    }
    h_grid_snap_one {
        // every grid: ticks already on a multiple stay, a tick one off goes back
        let i = u16_("grid") as u32;
        assume(i >= 3);
        let g = Grid::from_u32(i).unwrap();
        check(g.snap(0) == 0 && g.snap(i as i64) == i as i64 && g.snap(-(i as i64)) == -(i as i64), "multiples stay");
        check(g.snap(1) == 0 && g.snap(-1) == 0 && g.snap(i as i64 - 1) == i as i64 && g.snap(1 - i as i64) == -(i as i64), "goes to the nearest");
        reach("done");
    }
}
fn grid_laws(i: i64, m: i64, neg: bool) {
    let g = Grid::from_u32(i as u32).unwrap();
    let p = g.snap(m);
    let n = g.snap(-m);
    check(n == -p, "symmetric around zero");
    let (tick, r) = if neg { (-m, n) } else { (m, p) };
    let d = if r > tick { r - tick } else { tick - r };
    check(2 * d <= i, "moves by at most half a grid step");
    check(r % i == 0, "lands on the grid");
    check(g.snap(r) == r, "idempotent");
    observe("r", r as u64);
    reach("done");
}
