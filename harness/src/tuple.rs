//! C09 tuplets.
use crate::api::*;
use crate::common::*;
use klavier_core::channel::Channel;
use klavier_core::duration::{Denominator, Dots, Duration};
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::tuple::tuplize;
use klavier_core::velocity::Velocity;
use std::rc::Rc;

const SHAPES: [(usize, u8); 8] = [(3, 0), (2, 0), (3, 1), (4, 0), (0, 7), (7, 0), (1, 2), (7, 1)];

fn gcd(a: u32, b: u32) -> u32 {
    if b == 0 { a } else { gcd(b, a % b) }
}
/// Note length in 1/256 of a quarter-note tuplet unit (256th note = 1).
fn unit(n: usize, k: u8) -> u32 {
    let len = 256u32 >> n;
    len + (len - (len >> k))
}
struct In {
    start: u32,
    shape: (usize, u8),
    den: u8,
    vel: u8,
}

fn run(xs: Vec<In>) {
    let solfa = [Solfa::C, Solfa::E, Solfa::G, Solfa::B, Solfa::D];
    let notes: Vec<Rc<Note>> = xs
        .iter()
        .enumerate()
        .map(|(i, x)| {
            Rc::new(Note::new(
                x.start,
                Pitch::new(solfa[i % 5], Octave::Oct4, SharpFlat::Null),
                Duration::new(NUMS[x.shape.0], Denominator::from_value(x.den).unwrap(), Dots::from_value(x.shape.1).unwrap()),
                i == 0,
                i == 1,
                Velocity::new(x.vel),
                Trimmer::new(1, 2, 3, i as i16),
                RateTrimmer::from_array([PercentU16::HUNDRED; 4]),
                Trimmer::new(i as i16, 0, -1, 0),
                Channel::new(i as u8),
            ))
        })
        .collect();
    let out = tuplize(notes.clone());
    // the specification
    let n = xs.len();
    let mut ord: Vec<usize> = vec![];
    for i in 0..n {
        let mut p = ord.len();
        while p > 0 && xs[ord[p - 1]].start > xs[i].start {
            p -= 1;
        }
        ord.insert(p, i);
    }
    let mut elems: Vec<(u32, u32)> = vec![]; // shortest member: ticks, units
    let mut of: Vec<usize> = vec![];
    for k in 0..n {
        let x = &xs[ord[k]];
        let t = ticks(x.shape.0 as u32, 2, x.shape.1 as u32);
        let u = unit(x.shape.0, x.shape.1);
        if k > 0 && xs[ord[k - 1]].start == x.start {
            let e = elems.last_mut().unwrap();
            if t < e.0 { e.0 = t }
            if u < e.1 { e.1 = u }
        } else {
            elems.push((t, u));
        }
        of.push(elems.len() - 1);
    }
    let g = xs.iter().fold(0, |a, x| gcd(a, unit(x.shape.0, x.shape.1)));
    let total_unit: u32 = elems.iter().map(|e| e.1).sum();
    let den = total_unit / g;
    if den < 2 || den > 255 {
        reach("unchanged");
        check(out.len() == n, "unchanged selection keeps its notes");
        for i in 0..n {
            check(out.len() > i && *out[i] == *notes[i], "selection that cannot form a tuplet is unchanged");
        }
        return;
    }
    reach("tuplet");
    let total_tick = elems.iter().map(|e| e.0).sum::<u32>() / den * 2;
    check(out.len() == n, "no note lost or added");
    if out.len() != n {
        return;
    }
    let base = xs[ord[0]].start;
    for k in 0..n {
        let before: u32 = elems[..of[k]].iter().map(|e| e.1).sum();
        let want = Note {
            base_start_tick: base + total_tick * before / total_unit,
            duration: notes[ord[k]].duration.with_denominator(Denominator::from_value(den as u8).unwrap()),
            ..(*notes[ord[k]]).clone()
        };
        check(out[k].base_start_tick == want.base_start_tick, "note starts at its share of the tuplet");
        check(out[k].duration == want.duration, "every note gets the tuplet's denominator");
        check(*out[k] == want, "nothing but start and denominator changes");
        observe("start", out[k].base_start_tick as u64);
    }
    let end = out[n - 1].base_start_tick - base;
    check(end <= total_tick, "the tuplet fits its total length");
}

harness! {
    h_tuplize_empty {
        check(tuplize(vec![]).is_empty(), "nothing stays nothing");
        reach("unchanged");
    }
    h_tuplize {
        // param: number of notes, number of note shapes, 1 = also notes that are tuplet members already
        let n = param(0) as usize;
        let names = ["s0", "s1", "s2", "s3", "s4"];
        let lens = ["l0", "l1", "l2", "l3", "l4"];
        let dens = ["d0", "d1", "d2", "d3", "d4"];
        let vels = ["v0", "v1", "v2", "v3", "v4"];
        let mut xs = vec![];
        for i in 0..n {
            let start = u32_(names[i]);
            assume(start <= i32::MAX as u32);
            let c = choice(lens[i], param(1)) as usize;
            // every note value with up to so many dots, or the list
            let shape = if param(3) == 1 { (c % 8, (c / 8) as u8) } else { SHAPES[c] };
            let den = if param(2) == 1 { u8_(dens[i]) } else { 2 };
            assume(den >= 2);
            xs.push(In { start, shape, den, vel: u8_(vels[i]) });
        }
        run(xs);
    }
    // notes: chords and single notes at certain ticks in another order, one of them anywhere
    h_tuplize_many {
        let n = param(0) as usize;
        let (turn, free) = (choice("rotation", n as u64) as usize, choice("free", n as u64) as usize);
        let at = [100u32, 100, 160, 220, 220, 220, 500, 501, 620];
        let mut xs = vec![];
        for j in 0..n {
            let i = (j + turn) % n;
            let start = if j == free { u32_("s") } else { at[i] };
            assume(start <= i32::MAX as u32);
            xs.push(In { start, shape: [(2, 0), (3, 0), (3, 1), (4, 0), (3, 0)][i % 5], den: 2 + (i % 3) as u8, vel: 10 * i as u8 });
        }
        run(xs);
    }
}
