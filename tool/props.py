"""What each property's check runs: harness entries, shape parameters, bounds."""


def J(entry, *params, **kw):
    d = dict(entry=entry, params=list(params))
    d.update(kw)
    return d


PROPS = {}
NOT_APPLICABLE = {}
PROPS["C01"] = dict(
    part="pitch",
    bounds="every (solfa, octave, accidental); every i32 octave number / staff offset / delta",
    assumes=[],
    jobs=[
        J("h_pitch_value_of", reach=["ok", "low", "high"]),
        J("h_octave_any", reach=["ok", "err", "ok2", "err2"]),
        J("h_pitch_from_score_offset", reach=["done"]),
        J("h_pitch_builder", reach=["ok", "err"]),
    ],
)
PROPS["C02"] = dict(
    part="pitch",
    bounds="every valid pitch; every i32 delta; all 15 keys; all three accidental toggles",
    assumes=[],
    jobs=[
        J("h_pitch_delta", reach=["ok", "err"]),
        J("h_pitch_up_down", reach=["up", "down", "up err", "down err"]),
        J("h_pitch_toggle", 0, reach=["ok", "err"]),
        J("h_pitch_toggle", 1, reach=["ok", "err"]),
        J("h_pitch_toggle", 2, reach=["ok"]),
        J("h_pitch_apply_key", reach=["ok", "err"]),
    ],
)
PROPS["C03"] = dict(
    part="values",
    bounds="every four i16 trimmer values; every i32 delta",
    assumes=[],
    jobs=[J("h_trimmer_sum", k, reach=["done"]) for k in range(4)] + [J("h_trimmer_eq", reach=["done"]), J("h_trimmer_added", reach=["low", "high", "moved"])],
)
PROPS["C04"] = dict(
    part="values",
    bounds="every f32 bit pattern; every percentage 0.0..200.0; tick values (below 2^20 through a rate trimmer); rate trimmers with one free f32 factor (or one squared) or two factors of which one is from a list of 8; pairs of rate trimmers of which one has a free rate and the other one from a list of 8",
    assumes=["the result of applying a percentage fits u32"],
    jobs=[
        J("h_percent_roundtrip", reach=["done"]),
        J("h_percent_from_f32", reach=["low", "mid", "high"]),
        J("h_percent_apply", reach=["done"]),
    ] + [J("h_rate_trimmer_rebuild", k, reach=["done"]) for k in range(3)]
    + [J("h_rate_trimmer_sum", k, reach=["done"]) for k in range(4)]
    + [J("h_rate_trimmer_eq", i, j, reach=["same", "other"]) for i, j in [(0, 0), (2, 2), (3, 3), (0, 1), (2, 3)]]
    + [J("h_rate_trimmer_sum2", i, j, reach=["done"]) for i, j in [(0, 1), (1, 2), (3, 0)]],
)
PROPS["C05"] = dict(
    part="values",
    bounds="every u16 tempo; every u32 tick; every pair of i32 deltas whose resulting tick is a u32; every u8 velocity and channel",
    assumes=["a drag's resulting tick fits u32 (drag has no error result)"],
    jobs=[
        J("h_tempo_new", reach=["done"]), J("h_tempo_new_strict", 0, reach=["done", "panic"]), J("h_tempo_new_strict", 1, reach=["done", "panic"]),
        J("h_tempo_step", reach=["up", "down", "top", "bottom"]), J("h_tempo_drag", reach=["done"]),
        J("h_velocity_channel", reach=["done", "panic"]),
    ],
)
PROPS["C07"] = dict(
    part="values",
    bounds="every numerator, denominator 2..=255, 0..=7 dots; every u8 pair as a rhythm",
    assumes=[],
    jobs=[
        J("h_duration_tick_len", reach=["done"]), J("h_duration_parts", reach=["num", "no num", "den", "no den", "dots", "no dots"]),
        J("h_duration_order", reach=["done"]), J("h_rhythm", reach=["ok", "err"]),
    ] + [J("h_duration_with", n, reach=["done"]) for n in range(8)],
)
PROPS["C08"] = dict(
    part="values",
    bounds="grid sizes 1,2,3,5,7,10,15,30,60,80,120,160,240,320,480,960,1920,2^31,u32::MAX with every |tick| < 2^32; every grid below 2^8 with |tick| < 2^9 (thorough: 2^12); every u16 grid >= 3 at and next to its first multiples",
    assumes=[],
    jobs=[J("h_grid_new", reach=["ok", "err"]), J("h_grid_snap_one", reach=["done"])]
    + [J("h_grid_snap", k, reach=["done"]) for k in [1, 2, 3, 5, 7, 10, 15, 30, 60, 80, 120, 160, 240, 320, 480, 960, 1920, 2**31, 2**32 - 1]]
    + [J("h_grid_snap_any", 9, reach=["done"], cost=5), J("h_grid_snap_any", 12, reach=["done"], thorough=True, cost=9)],
)

PROPS["C06"] = dict(
    part="note",
    bounds="every note (any base tick, trimmers, velocity, ties, dots, denominator; pitch, note value and rate trimmer from lists), every bar/tempo/control-change tick, every i32 delta; drags within the tick and pitch range",
    assumes=["a drag's resulting tick fits u32 and its pitch exists (drag has no error result)"],
    jobs=[
        J("h_note_start", reach=["done"]), J("h_note_velocity", reach=["done"]), J("h_note_shift", 0, reach=["ok", "err"]), J("h_note_shift", 1, reach=["ok", "err"]),
        J("h_note_drag", reach=["done"]), J("h_note_dots", reach=["ok", "err"]), J("h_note_tie", reach=["done"]), J("h_note_pitch_edit", reach=["ok", "err"]),
        J("h_note_duration_edit", reach=["done"]), J("h_event_drag", reach=["done"]),
    ] + [J("h_note_len", k, reach=["done"], cost=3) for k in range(4)] + [J("h_event_shift", k, reach=["ok", "err"]) for k in range(3)],
)
MOVES = [(1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (0, 0, 1, 0, 0), (0, 0, 0, 1, 0), (0, 0, 0, 0, 1), (1, 1, 0, 0, 0), (0, 1, 1, 0, 0), (0, 0, 1, 1, 0), (0, 0, 0, 1, 1), (2, 1, 0, 0, 0), (1, 0, 1, 0, 1), (0, 1, 0, 2, 0), (0, 0, 0, 0, 3), (3, 0, 0, 0, 0), (0, 0, 3, 0, 0)]
PROPS["C21"] = dict(
    part="note",
    bounds="groups of up to 3 items of mixed kinds, one of each kind at every u32 tick, 32 items of which the first of each kind is anywhere, moved to every tick for which the last item stays in range; clippers over every range; 3 interned values",
    assumes=["the latest item of a moved group still has a u32 tick afterwards (moving has no error result)"],
    jobs=[J("h_bundle", reach=["done"]), J("h_clipper", reach=["done"]), J("h_flyweight", reach=["done"]), J("h_move_to_tick", 0, 0, 0, 0, 0, reach=["done"])]
    + [J("h_move_to_tick", *m, reach=["done"]) for m in MOVES] + [J("h_move_to_tick", 1, 1, 1, 1, 1, reach=["done"]), J("h_move_to_tick", 6, 5, 7, 6, 8, 1, reach=["done"])],
)

PROPS["C09"] = dict(
    part="tuple",
    bounds="selections of up to 4 notes (thorough: 5) with every start tick below 2^31 in every order and grouping; note values from a list of 8 (value, dots) shapes for up to 3 notes, 3 shapes for 4 notes (thorough: 8 / 3); every existing tuplet denominator for 2 notes; 2 notes of any value with up to 3 dots; 7 and 9 notes in chords at fixed ticks in several orders, one of them anywhere",
    assumes=["start ticks are below 2^31"],
    jobs=[
        J("h_tuplize_empty", reach=["unchanged"]), J("h_tuplize", 1, 8, 1, reach=["unchanged"]), J("h_tuplize", 2, 8, 1, reach=["tuplet", "unchanged"]),
        J("h_tuplize", 2, 32, 0, 1, reach=["tuplet"], cost=3), J("h_tuplize_many", 7, reach=["tuplet"], cost=3), J("h_tuplize_many", 9, reach=["tuplet"], cost=3),
        J("h_tuplize", 3, 8, 0, reach=["tuplet"], cost=3), J("h_tuplize", 4, 3, 0, reach=["tuplet"], cost=5),
        J("h_tuplize", 4, 4, 0, reach=["tuplet"], thorough=True, cost=5), J("h_tuplize", 3, 8, 1, reach=["tuplet"], thorough=True, cost=5), J("h_tuplize", 5, 2, 0, reach=["tuplet"], thorough=True, cost=9),
    ],
)

PROPS["C10"] = dict(
    part="stored",
    bounds="every field value of every stored type (pitch, key, repeat sets and optional fields from full enumerations or lists); notes, bars, tempos and control changes one or two per collection (7 of each kind with one free tick); binary (bincode) and JSON data model; project files and exported projects as JSON text with any number of up to 3 digits in several places",
    assumes=["the JSON text layer (serde_json's number formatting and parsing) is inside only for the project texts (and in C11, C23)"],
    jobs=[J("h_rt_scalars", k, f, reach=["done"]) for k in range(20) for f in range(2)]
    + [J("h_rt_models", 0, f, reach=["done"]) for f in range(2)] + [J("h_rt_cmd", k, f, reach=["done"]) for k in range(5) for f in range(2)]
    + [J("h_text_project", n, reach=["done"]) for n in (1, 2, 3)] + [J("h_rt_many", 7, f, reach=["done"]) for f in range(2)] + [J("h_rt_exported", 0, f, reach=["done"]) for f in range(2)] + [J("h_rt_project", 0, f, reach=["done"]) for f in range(2)],
)
BIG = (1, 6, 9, 14)  # 32-bit numbers
TEXT_JOBS = [J("h_text_number", k, n, reach=["err"] if n == 5 and k not in BIG + (11,) else ["ok", "err"]) for k in range(15) for n in (1, 2, 3, 4, 5)]
TEXT_JOBS += [J("h_text_number", k, n, reach=["err"] if n == 11 else ["ok", "err"], cost=2) for k in BIG for n in (9, 10, 11)]
TEXT_JOBS += [J("h_text_name", k, n, reach=r) for k, n, r in (
    (0, 1, ["ok", "err"]), (0, 2, ["err"]), (1, 1, ["ok", "err"]), (1, 2, ["ok", "err"]), (1, 3, ["err"]), (2, 1, ["ok", "err"]), (2, 2, ["ok", "err"]), (2, 3, ["err"]),
    (3, 1, ["ok", "err"]), (3, 2, ["ok", "err"]), (3, 3, ["ok", "err"]))]
TEXT_JOBS += [J("h_text_name", k, n, reach=["ok", "err"] if n in (((4, 5, 7, 10, 11), (4, 5, 6, 7))[k - 4]) else ["err"]) for k in (4, 5) for n in range(1, 12)]
PROPS["C11"] = dict(
    part="stored",
    bounds="every byte buffer of exactly the type's size for pitches (12 bytes), durations, rhythms, grids, percentages, tempos, trimmers, velocities, channels, keys, enums and repeat sets; bars from every buffer of 8..15 bytes; in JSON text every number of up to 5 digits with or without a sign in 15 places (ticks and grids: up to 11 digits), every name of up to 11 characters for accidentals and note values, up to 3 for note names, octaves and denominators",
    assumes=["one number or name of a text is free, the rest is fixed"],
    jobs=TEXT_JOBS + [J("h_de_pitch", n, reach=["ok", "err"]) for n in (12,)] + [J("h_de_pitch", 7, reach=["err"])]
    + [J("h_de_small", k, reach=["ok", "err"]) for k in (0, 1, 2, 3, 5, 9, 10, 14, 15, 16, 17, 18)] + [J("h_de_small", k, reach=["ok"]) for k in (4, 6, 7, 8, 11, 12, 13)]
    + [J("h_de_bar", n, reach=["ok", "err"]) for n in (8, 15)],
)

PROPS["C19"] = dict(
    part="repeats",
    bounds="every bar tick (strictly ascending u32, also 0 and u32::MAX), rhythms 1/4..8/4; all arrangements of repeat and variation marks on up to 6 bars (thorough: 7); D.C./D.S., Segno, Fine and Codas anywhere on up to 4 bars (thorough: 6); both together on 3 bars and partly on 4 (thorough: all on 4, partly on 5); repeats with 2 to 4 variations together with D.C./D.S. and Fine anywhere (thorough: and Codas); tunes of 4 or 5 sections (plain, repeats, 2 and 3 variations; up to 21 bars) with D.C./D.S. at the end, Segno and Fine or Codas at section starts; every set of marks on 2 bars, every set of D.C., D.S., Fine, Segno, Coda on 3 bars",
    assumes=["the order is left open where the documentation does not define it: marks on bars the second pass skips, D.C. in an auftakt tune whose partial bars do not complete each other, a variation mark outside any repeat; there only absence of panics and the rest of the behaviour is decided"],
    jobs=[J("h_structure", n, reach=["ok", "err"], cost=n) for n in (1, 2, 3, 4, 5, 6)]
    + [J("h_global", n, d, k, reach=["ok"], cost=n) for n in (1, 2, 3, 4) for d in range(n) for k in range(2)]
    + [J("h_mixed", 3, d, k, f, reach=["ok", "err"], cost=4) for d in range(3) for k in range(2) for f in range(4)]
    + [J("h_mixed", 4, d, k, f, reach=["ok", "err"], cost=8) for d in (2, 3) for k in range(2) for f in (0, 1)]
    + [J("h_variations", v, k, f, reach=["ok"], cost=4) for v in (2, 3, 4) for k in range(2) for f in (0, 1)]
    + [J("h_variations", v, k, f, reach=["ok"], cost=8, thorough=True) for v in (1, 2, 3, 4) for k in range(2) for f in (2, 3)]
    + [J("h_long", n, j, f, reach=["ok"], cost=5) for n, j, f in ((5, 0, 0), (4, 1, 0), (4, 2, 0), (4, 1, 1), (4, 2, 1), (4, 1, 2), (4, 2, 2))]
    + [J("h_any_sets", 2, 0x7ff, reach=["ok", "err"], cost=3), J("h_any_sets", 3, 0x7c, reach=["ok", "err"], cost=3)]
    + [J("h_structure", 7, reach=["ok", "err"], cost=9, thorough=True)]
    + [J("h_global", n, d, k, reach=["ok"], cost=9, thorough=True) for n in (5, 6) for d in range(n) for k in range(2)]
    + [J("h_mixed", 4, d, k, f, reach=["ok", "err"], cost=8, thorough=True) for d in range(4) for k in range(2) for f in (2, 3)]
    + [J("h_mixed", 5, d, k, 0, reach=["ok", "err"], cost=8, thorough=True) for d in (3, 4) for k in range(2)],
)

PROPS["C17"] = dict(
    part="sets",
    bounds="every sequence of up to 6 operations (add, undo, redo, freeze; thorough: 7) with symbolic command contents; any 64-bit capacity for up to 5 operations, capacities 0..=3 beyond; 5 operations after 9 commands with capacities 0..=10",
    assumes=[],
    jobs=[J("h_undo_store", 1, 0, reach=["done"]), J("h_undo_store", 5, 0, reach=["done", "undo", "redo"]), J("h_undo_store", 6, 4, reach=["done", "undo", "redo"], cost=5), J("h_undo_store", 5, 11, 9, reach=["done", "undo", "redo"], cost=3)]
    + [J("h_undo_store", 7, 4, reach=["done"], thorough=True, cost=9)],
)
PROPS["C18"] = dict(
    part="sets",
    bounds="every conflict-free set of the 11 marks (adding, as an inductive step), every set at all (the rest); every mark; every byte as a variation number",
    assumes=["sets start conflict-free (loading stored sets is C11)"],
    jobs=[J("h_repeat_add", reach=["ok", "err"]), J("h_repeat_remove", reach=["done"]), J("h_repeat_query", reach=["done"]), J("h_var_index", reach=["ok", "err"])],
)
PROPS["C20"] = dict(
    part="sets",
    bounds="lists of up to 6 pieces with every u32 start and end tick, of 12 pieces of which two are anywhere, every tick and every pass number",
    assumes=["pieces are not empty, only the last one may be open-ended (end tick u32::MAX), and accumulated ticks fit u32"],
    jobs=[J("h_chunk_parts", reach=["done"]), J("h_play_iter", reach=["done"]), J("h_to_accum_tick", 0, reach=["not found"])]
    + [J("h_chunk_optimize", n, reach=["done"]) for n in (0, 1, 2, 3, 4, 5, 7)] + [J("h_by_accum_tick", n, reach=["done"]) for n in (0, 1, 2, 3, 4, 6)]
    + [J("h_by_accum_tick", 12, 1, reach=["done"]), J("h_to_accum_tick", 12, 1, reach=["found", "not found"])]
    + [J("h_to_accum_tick", n, reach=["found", "not found"]) for n in (1, 2, 3, 4, 5, 6)]
    + [J("h_chunk_optimize", 7, reach=["done"], thorough=True), J("h_by_accum_tick", 6, reach=["done"], thorough=True), J("h_to_accum_tick", 6, reach=["found", "not found"], thorough=True, cost=5)],
)

PROPS["C13"] = dict(
    part="query",
    bounds="every tick; up to 3 events of a kind at any ticks in any order, coinciding ones included (thorough: 4), up to 3 bars with or without rhythm n/4, key and repeat marks (thorough: 4); 9 fixed events of a kind and one anywhere, 8 fixed bars with any rhythm and key on any of them",
    assumes=[],
    jobs=[J("h_query_events", k, n, reach=["done"]) for k in range(3) for n in range(4)] + [J("h_query_bars", n, reach=["done"]) for n in range(4)]
    + [J("h_query_store", reach=["done"])] + [J("h_query_many", k, 9, reach=["done"]) for k in range(3)] + [J("h_query_bars_many", 8, reach=["done"], cost=3)]
    + [J("h_query_events", k, 4, reach=["done"], thorough=True) for k in range(3)] + [J("h_query_bars", 4, reach=["done"], thorough=True)],
)
PROPS["C14"] = dict(
    part="query",
    bounds="every tick and every 64-bit bar number and offset; up to 4 bars at any ascending ticks (thorough: 6); rhythms none, 1/64, 2/4 on bars and 4/4, 1/32 for the project; 9 fixed bars with a rhythm on any of them",
    assumes=[],
    jobs=[J("h_tick_location", n, reach=["done"]) for n in range(6)] + [J("h_location_tick", n, reach=["ok", "err"]) for n in range(5)] + [J("h_bar_no", 3, reach=["done"]), J("h_location_many", 9, reach=["done"], cost=3)]
    + [J("h_tick_location", 8, reach=["done"], thorough=True), J("h_location_tick", 6, reach=["ok", "err"], thorough=True), J("h_bar_no", 5, reach=["done"], thorough=True)],
)
PROPS["C16"] = dict(
    part="query",
    bounds="up to 2 existing bars at any ascending ticks (thorough: 3), rhythms none, 3/8, 99/2 on bars and 4/4, 99/2 for the project; the added item and one earlier item at any tick; up to 3 bars to replenish; 0 or 6 fixed bars, 5 fixed notes and tempos and up to 12 bars (or 257 to 259) to replenish for an item anywhere",
    assumes=["at most three (12, or 257 to 259, behind fixed bars) bars are missing"],
    jobs=[J("h_replenish", k, n, 0, x, reach=["done", "replenished"]) for k in range(5) for n in (0, 1) for x in range(2)]
    + [J("h_replenish", k, n, 1, x, reach=["done", "replenished"], cost=5) for k in (0, 1) for n in (0, 1) for x in range(4)]
    + [J("h_replenish", k, 1, e, x, reach=["done", "replenished"], cost=3) for k in range(4) for e in (2, 3, 4) for x in range(2)] + [J("h_replenish", 0, 2, 0, x, reach=["done", "replenished"], cost=3) for x in range(2)]
    + [J("h_replenish_many", k, n, 12, reach=["done"], cost=3) for k in range(4) for n in (0, 6)]
    + [J("h_replenish_many", k, n, 259, 257, reach=["done"], cost=3) for k, n in ((0, 0), (3, 2))]
    + [J("h_replenish", k, n, 0, x, reach=["done", "replenished"], cost=5, thorough=True) for k in (0, 1, 4) for n in (2, 3) for x in range(2)],
)

OPS = {"add": 0, "bulk add": 1, "bulk remove": 2, "change": 3}
PROPS["C15"] = dict(
    part="undo",
    bounds="every edit (set rhythm/key/grid, add, bulk add, bulk remove, change, tuplize) with up to 2 items of a kind asked for (3 for tuplize) on a project holding up to 2 (3) of that kind and one of every other kind, all ticks and values symbolic, present or not; any item together with 5 fixed ones on a project holding 8 fixed ones of that kind; one of every kind at once; every history of 2 edits (thorough: 3) of one kind, all undone and redone; with bars filled in: up to 2 missing bars",
    assumes=["the undo log is the in-memory stand-in for serdo's SQLite log (same serialized commands); counterexamples and sampled passing paths are replayed on the real one"],
    jobs=[J("h_undo_scalars", reach=["done"])]
    + [J("h_undo", op, k, n, 1, 0, reach=["done"]) for op in range(4) for k in range(5) for n in (0, 1, 2)]
    + [J("h_undo", op, k, 1, 2, 0, reach=["done"]) for op in (1, 2, 3) for k in range(5)]
    + [J("h_undo", op, k, 1, 1, 1, reach=["done"]) for op in (0, 1, 3) for k in range(5)]
    + [J("h_undo", op, 0, 1, 1, 0, 1, reach=["done"]) for op in range(4)] + [J("h_undo_tuplize", 2, 2, 2, 0, 0, 1, reach=["done"])]
    + [J("h_undo_tuplize", n, m, s, reach=["done"]) for n, m, s in [(1, 0, 0), (1, 1, 0), (2, 2, 2), (1, 2, 0), (3, 2, 2), (3, 3, 3)]]
    + [J("h_undo_mixed", op, reach=["done"]) for op in (1, 2, 3)]
    + [J("h_history", 2, k, f, reach=["done"]) for k in range(5) for f in range(5)]
    + [J("h_undo", op, k, 0, 1, 0, 0, 8, 5, reach=["done"], cost=2) for op in range(4) for k in range(5)]
    + [J("h_undo", op, k, 2, 2, 0, reach=["done"], thorough=True, cost=5) for op in (1, 2, 3) for k in range(5)]
    + [J("h_history", 3, k, f, reach=["done"], thorough=True, cost=9) for k in (1, 2) for f in range(5)],
)
PROPS["C22"] = dict(
    part="undo",
    bounds="add, bulk add, bulk remove and change with up to 2 items of a kind asked for on a project holding up to 2 of that kind (2 asked, 2 held: some kinds; thorough: all) and one of every other kind, all ticks and values symbolic, present or not; any item together with 5 fixed ones on a project holding 8 fixed ones of that kind",
    assumes=["as C15"],
    jobs=[J("h_edit", op, k, n, 1, reach=["done"]) for op in range(4) for k in range(5) for n in (0, 1, 2)]
    + [J("h_edit", op, 0, 1, 1, 0, 1, reach=["done"]) for op in range(4)] + [J("h_undo_tuplize", n, n, n, reach=["done"]) for n in (2, 3)]
    + [J("h_edit", op, k, 1, 2, reach=["done"]) for op in (1, 2, 3) for k in range(5)]
    + [J("h_edit", op, k, 0, 1, 0, 0, 8, 5, reach=["done"], cost=2) for op in range(4) for k in range(5)]
    + [J("h_edit", op, k, 2, 2, reach=["done"], cost=5) for op in (1, 2) for k in range(2)] + [J("h_edit", 3, 2, 2, 2, reach=["done"], cost=5)]
    + [J("h_edit", op, k, 2, 2, reach=["done"], cost=9, thorough=True) for op in (1, 2, 3) for k in range(5)],
)
PROPS["C24"] = dict(
    part="undo",
    bounds="every edit with up to 2 items of a kind asked for (tuplize: up to 3 selected) on a project holding up to 2 of that kind (3) and one of every other kind, all ticks, values and metadata symbolic, present or not (any item together with 3 fixed ones on a project holding 6 fixed ones of that kind); its undo and its redo; with up to 2 bars filled in",
    assumes=["as C15"],
    jobs=[J("h_events", op, k, n, 1, 0, reach=["done"]) for op in range(4) for k in range(5) for n in (0, 1, 2)]
    + [J("h_events", op, k, 1, 2, 0, reach=["done"], cost=2) for op in (1, 2, 3) for k in range(5)]
    + [J("h_events", op, k, 1, 1, 1, reach=["done"]) for op in (0, 1, 3) for k in range(5)]
    + [J("h_events_tuplize", n, m, x, reach=["done"]) for n, m, x in ((2, 2, 0), (3, 2, 0), (3, 3, 0), (1, 1, 1), (0, 0, 2), (2, 1, 1))]
    + [J("h_events", op, k, 0, 1, 0, 0, 6, 3, reach=["done"], cost=2) for op in range(4) for k in range(5)]
    + [J("h_events", op, k, 2, 2, 0, reach=["done"], cost=5, thorough=True) for op in (1, 2, 3) for k in range(5)],
)
PROPS["C12"] = dict(
    part="text",
    bounds="every ASCII text of up to 4 characters (location: 5, percentage: 3; thorough: one more) and of 3 characters one of which has two bytes; every number of 6 digits (grid and location: 10 and 12); percentages with 1 digit before and 3 behind the point; edits of a text of 2 characters that append 1, replace it or take the last one away",
    assumes=["the crates std, regex and regex-automata are executed as compiled; memory allocation is modelled"],
    jobs=[J("h_int_field", k, 0, reach=["empty"]) for k in range(6)]
    + [J("h_int_field", k, n, reach=["ok", "empty" if k == 5 else "err"]) for k in range(6) for n in (1, 2, 3, 4)]
    + [J("h_int_digits", k, 6, reach=["ok", "err"], cost=3) for k in (0, 1, 2, 3, 4)] + [J("h_int_digits", 5, 10, reach=["ok", "empty"], cost=9)]
    + [J("h_int_unicode", k, 3, i, reach=["empty" if k == 5 else "err"]) for k in range(6) for i in (0, 2)]
    + [J("h_location", n, reach=["err"]) for n in (0, 1, 2)] + [J("h_location", n, reach=["ok", "err"], cost=3) for n in (3, 4, 5)]
    + [J("h_location_unicode", 3, i, reach=["err"]) for i in (1,)] + [J("h_location_unicode", 2, i, reach=["err"]) for i in (0, 1)] + [J("h_location_unicode", 3, i, reach=["err"], thorough=True, cost=5) for i in (0, 2)] + [J("h_location_display", reach=["done"])]
    + [J("h_location_digits", x, y, reach=["ok"], cost=2) for x, y in ((3, 5), (8, 1), (1, 12))]
    + [J("h_percent", 0, reach=["empty"]), J("h_percent", 1, reach=["ok", "err"]), J("h_percent", 2, reach=["ok", "err"], cost=4), J("h_percent", 3, reach=["ok", "err", "nan"], cost=8)]
    + [J("h_percent_digits", 1, n, reach=["ok"], cost=5) for n in (1, 2, 3)]
    + [J("h_text_input", 2, 1, 0, reach=["done"]), J("h_text_input", 0, 2, 0, reach=["done"])] + [J("h_text_input", 2, n, 1, reach=["done"]) for n in (1, 2)] + [J("h_text_input", 2, 0, 2, reach=["done"])]
    + [J("h_int_field", k, 5, reach=["ok", "empty" if k == 5 else "err"], thorough=True, cost=3) for k in range(6)] + [J("h_location", 6, reach=["ok", "err"], thorough=True, cost=5)]
    + [J("h_location_unicode", 4, 2, reach=["err"], thorough=True, cost=9), J("h_percent", 4, reach=["ok", "err"], thorough=True, cost=9)],
)
PROPS["C23"] = dict(
    part="text",
    bounds="selections of one item of each kind (two notes and two tempos; one of each kind at once; six of each kind of which one tick is free) with ticks below 1000 (bars: 100000), one-digit velocities, three trimmer values of up to two digits, all ties, dots, tuplet denominators 2..=9, some pitches, keys, rhythms n/1..n/4 and marks; every ASCII text of up to 3 characters (thorough: 4) as a copy; every ASCII character in every place of a one-tempo copy; pasted projects of two items of each kind at any ticks as items to add; every text as a selection and as an exported project",
    assumes=["the crates std, serde and serde_json are executed as compiled; memory allocation is modelled", "in damaged copies the replacing character is not . e or E"],
    jobs=[J("h_to_models", reach=["done"])] + [J("h_copy", k, b, reach=["done"], cost=2) for k, b in ((0, 1000), (1, 1), (2, 100000), (3, 1), (4, 100), (5, 100), (6, 100), (7, 1), (8, 1), (9, 100), (10, 1000), (11, 100))]
    + [J("h_paste", n, f, reach=["empty"] if n == 0 else ["empty", "invalid", "version"], cost=1 + n) for n in (0, 1, 2, 3) for f in range(2)]
    + [J("h_paste_version", 1, f, reach=["ok", "version"]) for f in range(2)] + [J("h_paste_version", n, f, reach=["version"]) for n in (2, 3, 9) for f in range(2)]
    + [J("h_paste_damaged", 8 * i, f, reach=["done"]) for i in range(9) for f in range(2)]
    + [J("h_paste", 4, f, reach=["empty", "invalid", "version", "no version"], cost=9, thorough=True) for f in range(2)] + [J("h_copy", 2, 1000000, reach=["done"], cost=8, thorough=True), J("h_copy", 9, 1000, reach=["done"], cost=8, thorough=True)],
)
PROPS["C25"] = dict(
    part="text",
    bounds="every velocity, rhythm numerator and denominator, tuplet denominator, grid below 1000000 (thorough: 100000000); every percentage; every note name and repeat mark; locations below 1000:1000",
    assumes=["the percentages are taken one by one (number formatting of floats is executed with concrete values)"],
    jobs=[J("h_shown", k, 1000000, reach=["done"], cost=3 if k == 5 else 1) for k in (2, 3, 4, 5, 6)] + [J("h_shown", 5, 100000000, reach=["done"], cost=9, thorough=True)] + [J("h_shown_names", reach=["done"]), J("h_location_display", reach=["done"])]
    + [J("h_shown_percent", 250 * i, 250, reach=["done"]) for i in range(8)] + [J("h_shown_percent", 2000, 1, reach=["done"])],
)
PROPS["C26"] = dict(
    part="limits",
    bounds="every u8 velocity, rhythm numerator and denominator, tuplet denominator, dots, note value and pass; every u16 tempo and percentage; every i8 key; every i16 and i32 clipped; every i32 octave; every (solfa, octave, accidental); every duration; rates with one free percentage and three equal ones of 0%, 100% or 200%",
    assumes=["lengths doubled are below 2^31"],
    jobs=[J(h, reach=["done"]) for h in ("h_limits_velocity", "h_limits_tempo", "h_limits_rhythm", "h_limits_duration", "h_limits_tick_len", "h_limits_trimmed_len", "h_limits_octave", "h_limits_percent", "h_limits_iter", "h_defaults")]
    + [J(h, reach=["ok", "err"]) for h in ("h_limits_pitch", "h_limits_key")],
)
for p, n in (("C16", 4), ("C15", 8), ("C22", 8), ("C24", 8), ("C09", 4), ("C17", 3), ("C20", 2), ("C21", 6), ("C23", 2)):
    for j in PROPS[p]["jobs"]:
        j["params"] += [0] * (n - len(j["params"]))
