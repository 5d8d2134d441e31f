//! Undo stack (C17), repeat mark sets (C18), playback positions (C20).
use crate::api::*;
use klavier_core::bar::{Bar, Repeat, RepeatSet, VarIndex};
use klavier_core::models::Models;
use klavier_core::play_iter::{PlayIter, MAX_ITER};
use klavier_core::play_start_tick::{PlayStartTick, ToAccumTickError};
use klavier_core::project::ModelChangeMetadata;
use klavier_core::repeat::Chunk;
use klavier_core::undo::{Undo, UndoStore};

const ALL: [Repeat; 11] = [
    Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Fine, Repeat::Ds, Repeat::Segno, Repeat::Coda,
    Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4,
];

/// Which marks exclude each other on one bar: a variation excludes everything that opens or closes
/// a repeat, jumps, or is a jump's target, and other variations; D.C. and D.S. exclude the start of
/// a repeat and each other; D.C. excludes Segno.
fn excludes(a: Repeat, b: Repeat) -> bool {
    use Repeat::*;
    let var = |r| matches!(r, Var1 | Var2 | Var3 | Var4);
    let one = |a: Repeat, b: Repeat| -> bool {
        (var(a) && (var(b) || matches!(b, Start | End | Dc | Ds | Segno)))
            || matches!((a, b), (Start, Dc) | (Start, Ds) | (Dc, Ds) | (Dc, Segno))
    };
    a != b && (one(a, b) || one(b, a))
}

/// Any set of marks (loading accepts each of them, see KF1).
fn any_set() -> RepeatSet {
    let bits = u16_("marks");
    assume(bits < 1 << 11);
    bincode::deserialize(&bits.to_le_bytes()).unwrap()
}
fn conflict_free(s: RepeatSet) -> bool {
    let mut ok = true;
    for a in ALL {
        for b in ALL {
            ok &= !(s.contains(a) & s.contains(b) & excludes(a, b));
        }
    }
    ok
}

fn mark(id: u32) -> Undo {
    let mut added = Models::empty();
    added.bars.push(Bar::new(id, None, None, RepeatSet::EMPTY));
    Undo::Changed { added, removed: Models::empty(), metadata: ModelChangeMetadata::new() }
}
fn id_of(u: &Undo) -> u32 {
    match u {
        Undo::Changed { added, .. } => added.bars[0].start_tick,
    }
}

fn chunks(n: u64) -> Vec<Chunk> {
    (0..n).map(|_| Chunk::new(u32_("start"), u32_("end"))).collect()
}

/// Pieces that can be played one after the other, the tick each begins at, and the end.
/// (`at` grows strictly because pieces are not empty; stating it spares the solver the sum.)
fn playable(n: u64) -> (Vec<Chunk>, Vec<u32>, u32) {
    let (mut cs, mut at, mut end) = (vec![], vec![], 0u32);
    for i in 0..n {
        // of many, two are anywhere
        let (start, len) = if param(1) == 1 && i != 3 && i != n - 1 { (1000 * (i as u32 % 4), 300 + 100 * i as u32) } else { (u32_("start"), u32_("len")) };
        assume(0 < len);
        let stop = start.checked_add(len);
        assume(stop.is_some());
        let stop = stop.unwrap_or(0);
        cs.push(Chunk::new(start, stop));
        at.push(end);
        if i + 1 < n {
            assume(stop < u32::MAX);
            let next = end.checked_add(len);
            assume(next.is_some());
            let next = next.unwrap_or(0);
            assume(end < next);
            end = next;
        } else {
            assume(stop == u32::MAX || end.checked_add(len).is_some());
        }
    }
    (cs, at, end)
}

harness! {
    // One step from every conflict-free set keeps it conflict-free, so every reachable set is.
    h_repeat_add {
        let s = any_set();
        assume(conflict_free(s));
        let r = ALL[choice("mark", 11) as usize];
        let mut refuses = false;
        for x in ALL {
            refuses |= s.contains(x) & excludes(x, r);
        }
        match s.try_add(r) {
            Ok(t) => {
                reach("ok");
                check(!refuses, "adding is accepted only when nothing excludes the mark");
                check(conflict_free(t), "no conflicting marks");
                for x in ALL {
                    check(t.contains(x) == (s.contains(x) | (x == r)), "exactly the mark is added");
                }
                check(t.len() == s.len() + !s.contains(r) as usize, "size after adding");
            }
            Err(e) => {
                reach("err");
                check(refuses, "adding is refused only when something excludes the mark");
                for x in ALL {
                    check(e.contains(x) == (s.contains(x) & excludes(x, r)), "the refusal names exactly the marks in the way");
                }
            }
        }
    }
    h_repeat_remove {
        let s = any_set();
        let r = ALL[choice("mark", 11) as usize];
        let t = s.remove(r);
        for x in ALL {
            check(t.contains(x) == (s.contains(x) & (x != r)), "exactly the mark is removed");
        }
        check(t.len() + s.contains(r) as usize == s.len(), "size after removal");
        reach("done");
    }
    h_repeat_query {
        let s = any_set();
        let mut n = 0usize;
        for x in ALL {
            n += s.contains(x) as usize;
        }
        check(s.len() == n, "size is the number of marks");
        let t = s.remove_resions();
        let vars = [Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4];
        for x in ALL {
            check(t.contains(x) == (s.contains(x) && !vars.contains(&x)), "removing variations removes exactly them");
        }
        let want = vars.iter().position(|v| s.contains(*v));
        check(s.region_index().map(|v| v.value() as usize) == want.map(|i| i + 1), "variation number of the set");
        check(RepeatSet::EMPTY.len() == 0 && RepeatSet::default() == RepeatSet::EMPTY, "the empty set");
        reach("done");
    }
    h_var_index {
        let v = u8_("value");
        match VarIndex::from_value(v) {
            Ok(i) => {
                reach("ok");
                check(1 <= v && v <= 4 && i.value() == v, "number of the variation");
                check(i.to_repeat() == [Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4][v as usize - 1], "mark of the variation");
                check(i.next().ok().map(|x| x.value()) == if v < 4 { Some(v + 1) } else { None }, "next variation");
                check(i.prev().ok().map(|x| x.value()) == if 1 < v { Some(v - 1) } else { None }, "previous variation");
                check(RepeatSet::EMPTY.try_add(i.to_repeat()).ok().and_then(|s| s.region_index()) == Some(i), "set holding the variation");
            }
            Err(_) => {
                reach("err");
                check(v < 1 || 4 < v, "only 1 to 4 are variations");
            }
        }
    }
    // n operations on a store of any capacity, after some commands were added.
    h_undo_store {
        let n = param(0);
        let capacity = if param(1) == 0 { usize_("capacity") } else { choice("capacity", param(1)) as usize };
        let mut store = UndoStore::new(capacity);
        let mut list: Vec<u32> = vec![]; // oldest first
        let mut cursor = 0usize; // commands applied
        let mut frozen = false;
        let earlier = param(2);
        for i in 0..n + earlier {
            match if i < earlier { 0 } else { choice("op", 4) } {
                0 => {
                    let id = if i < earlier { 1000 + i as u32 } else { u32_("id") };
                    store.add(mark(id));
                    if !frozen {
                        list.truncate(cursor);
                        list.push(id);
                        if capacity < list.len() {
                            list.remove(0);
                        }
                        cursor = list.len();
                    }
                    reach("add");
                }
                1 => {
                    let want = if 0 < cursor { Some(list[cursor - 1]) } else { None };
                    let got = store.undo().map(id_of);
                    check(got == want, "undo returns the command to take back");
                    if want.is_some() {
                        cursor -= 1;
                        reach("undo");
                    } else {
                        reach("no undo");
                    }
                }
                2 => {
                    let want = list.get(cursor).copied();
                    let got = store.redo().map(id_of);
                    check(got == want, "redo returns the command to repeat");
                    if want.is_some() {
                        cursor += 1;
                        reach("redo");
                    } else {
                        reach("no redo");
                    }
                }
                _ => {
                    frozen = bool_("frozen");
                    store.freeze(frozen);
                }
            }
            check(store.len() == list.len(), "number of commands kept");
            check(store.len() <= capacity, "at most the capacity is kept");
            check(store.can_undo() == (0 < cursor), "can_undo");
            check(store.can_redo() == (cursor < list.len()), "can_redo");
            let mut i = list.len();
            for u in store.iter() {
                check(0 < i, "iteration ends");
                i -= 1;
                check(id_of(u) == list[i], "commands kept, newest first");
            }
            check(i == 0, "iteration covers every command");
        }
        reach("done");
    }
    h_chunk_optimize {
        let cs = chunks(param(0));
        let got = Chunk::optimize(&cs);
        let mut want: Vec<(u32, u32)> = vec![];
        for (i, c) in cs.iter().enumerate() {
            if 0 < i && cs[i - 1].end_tick() == c.start_tick() {
                let last = want.len() - 1;
                want[last].1 = c.end_tick();
            } else {
                want.push((c.start_tick(), c.end_tick()));
            }
        }
        check(got.len() == want.len(), "number of pieces");
        for (g, w) in got.iter().zip(want.iter()) {
            check(g.start_tick() == w.0 && g.end_tick() == w.1, "adjacent pieces are joined and nothing else");
        }
        reach("done");
    }
    h_by_accum_tick {
        let (cs, at, _) = playable(param(0));
        let store = Chunk::by_accum_tick(&cs);
        check(store.len() == cs.len(), "one entry per piece");
        for (i, (accum, c)) in store.iter().enumerate() {
            check(*accum == at[i], "accumulated tick of the piece");
            check(*c == cs[i], "pieces in order");
        }
        reach("done");
    }
    h_chunk_parts {
        let c = Chunk::new(u32_("start"), u32_("end"));
        let t = u32_("tick");
        let inside = c.start_tick() <= t && t < c.end_tick();
        check(c.contains(t) == inside, "a piece covers its ticks");
        assume(c.start_tick() <= c.end_tick());
        check(c.len() as u64 + c.start_tick() as u64 == c.end_tick() as u64, "length of a piece");
        reach("done");
    }
    h_to_accum_tick {
        let (cs, at, _) = playable(param(0));
        let (tick, iter) = (u32_("tick"), u8_("iter"));
        let start = PlayStartTick::new(tick, iter);
        let pos = if iter == 0 { 1 } else if MAX_ITER < iter { MAX_ITER } else { iter };
        check(start.tick == tick && start.iter.iter() == pos, "the start position is kept, the pass within 1..=5");
        let mut list = vec![];
        let mut want: Option<u32> = None;
        let mut passes = 0u8;
        for (i, c) in cs.iter().enumerate() {
            list.push((at[i], *c));
            if c.start_tick() <= tick && tick < c.end_tick() {
                passes += 1;
                if passes == pos {
                    want = at[i].checked_add(tick - c.start_tick());
                    assume(want.is_some());
                }
            }
        }
        match (start.to_accum_tick(&list), want) {
            (Ok(got), Some(w)) => {
                reach("found");
                check(got == w, "accumulated tick of the position");
            }
            (Err(ToAccumTickError::CannotFind { specified_iter, max_iter }), None) => {
                reach("not found");
                check(specified_iter.iter() == pos && max_iter == passes, "the error reports how often the tick is played");
            }
            _ => check(false, "the position is found exactly when the tick is played that often"),
        }
    }
    h_play_iter {
        let v = u8_("iter");
        let p = PlayIter::new(v);
        check(p.iter() == v.max(1).min(MAX_ITER), "clamped to 1..=5");
        check(PlayIter::default().iter() == 1 && MAX_ITER == 5, "the first pass is the default");
        let mut q = p;
        let w = u8_("set");
        let ok = q.set_iter(w);
        check(ok == (1 <= w && w <= MAX_ITER), "setting succeeds exactly within 1..=5");
        check(q.iter() == if ok { w } else { p.iter() }, "setting keeps the old pass when refused");
        reach("done");
    }
}
