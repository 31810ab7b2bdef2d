//! C22: the library's own consistency checks. This module is meant for a build with debug
//! assertions, where the library verifies its internal state after every step.

use super::{cde, io, layout, opt, prims};
use crate::engine::*;
use crate::gen::*;
use crate::geom::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::layout::Layout;
use jagua_rs::util::assertions;

/// runs a history for its panics only; what it answers is judged by the property it belongs to
fn quiet(f: fn(&mut Src, &mut Ctx) -> Result<(), String>, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if let Err(e) = f(s, c) {
        // a panic of the library reaches us as one; a wrong answer is another property's business
        if e.contains("panic") {
            return Err(e);
        }
        c.label("judged-elsewhere");
    }
    c.nontrivial = true;
    Ok(())
}

fn c22_engine(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet(cde::c05_history, s, c)
}
fn c22_grid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet(cde::c06_grid, s, c)
}
fn c22_surrogate(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet(if s.chance(1, 2) { cde::c02_piers } else { cde::c02_poles }, s, c)
}
fn c22_layout(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet(layout::c08_layout, s, c)
}
fn c22_bins(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet(layout::c09_bp, s, c)
}
fn c22_strip(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet(layout::c10_sp, s, c)
}
fn c22_io(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet([io::c11_parse, io::c12_roundtrip, io::c20_svg][s.below(3) as usize], s, c)
}
fn c22_shapes(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet([prims::c13_simplify, prims::c14_derived][s.below(2) as usize], s, c)
}
fn c22_solve(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    quiet(if s.chance(1, 2) { opt::c17_feasible } else { opt::c19_search }, s, c)
}

/// the public validators accept what is right and reject what is wrong
fn c22_validators(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let world = world(
        s,
        0,
        &WorldOpts {
            max_zones: 3,
            max_holes: 2,
            contained: true,
            ..Default::default()
        },
    );
    let kit = layout::Kit {
        w: world.w,
        items: layout::gen_items(s, world.w * 0.6, 3, true),
    };
    let mut l = Layout::new(3, world.bin.clone());
    let mut model: Vec<(layout::Placed, Poly)> = vec![];
    let stat = world.static_entities();
    // every relevant hazard of a placement: Some(collides) or None when too close to call
    let verdict = |p: &layout::Placed, op: &Poly, others: &[(layout::Placed, Poly)]| -> Option<bool> {
        let l = world.l.max(max_abs(op));
        let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
        let q = kit.items[p.0].1.base_quality;
        let mut out = Some(false);
        let tolerated = |e: &HazardEntity| match e {
            HazardEntity::InferiorQualityZone { quality, .. } => q.is_some_and(|q| *quality >= q),
            _ => false,
        };
        for (e, h) in stat.iter().filter(|h| !tolerated(&h.0)) {
            match oracle_hazard(op, e, h, m, ce) {
                Some(true) => return Some(true),
                None => out = None,
                _ => {}
            }
        }
        for (o, h) in others {
            if o == p {
                continue;
            }
            match oracle_hazard(op, &layout::ent(o), h, m, ce) {
                Some(true) => return Some(true),
                None => out = None,
                _ => {}
            }
        }
        out
    };
    for _ in 0..s.usize(1, 8) {
        let known: Vec<layout::Placed> = model.iter().map(|m| m.0).collect();
        let (p, op) = layout::gen_placed(s, &kit, &world.outer, &known);
        if known.contains(&p) {
            continue;
        }
        let v = verdict(&p, &op, &model);
        let it = &kit.items[p.0].1;
        let ok = assertions::item_to_place_does_not_collide(it, &p.1.compose(), &l);
        match v {
            Some(hit) => {
                c.label(if hit { "colliding-option" } else { "free-option" });
                if ok == hit {
                    return Err(format!("item_to_place_does_not_collide = {ok}, exact collision {hit}; item {} placed {known:?}", fmt_poly(&op)));
                }
            }
            None => c.label("tolerance-band"),
        }
        if v == Some(true) && s.chance(3, 4) {
            continue;
        }
        l.place_item(it, p.1);
        model.push((p, op));
    }
    let mut exp = Some(false);
    for (p, op) in &model {
        match verdict(p, op, &model) {
            Some(true) => {
                exp = Some(true);
                break;
            }
            None => exp = None,
            _ => {}
        }
    }
    if let Some(hit) = exp {
        c.nontrivial = true;
        c.label(if hit { "colliding-layout" } else { "free-layout" });
        let ok = assertions::layout_is_collision_free(&l);
        if ok == hit {
            return Err(format!("layout_is_collision_free = {ok}, exact collision {hit}; placed {model:?}"));
        }
    }
    // snapshots match the layout they were taken from, and not one that lost an item of theirs
    let snap = l.create_snapshot();
    if !assertions::layouts_match(&l, &snap) || !assertions::layout_qt_matches_fresh_qt(&l) {
        return Err("a layout does not match its own snapshot or a fresh engine".into());
    }
    let keys: Vec<_> = l.placed_items().keys().collect();
    if !keys.is_empty() {
        let k = *s.pick(&keys);
        let commit = s.chance(1, 2);
        l.remove_item(k, commit);
        if assertions::layouts_match(&l, &snap) {
            return Err("a layout that lost an item matches the snapshot still holding it".into());
        }
        if !assertions::qt_contains_no_dangling_hazards(l.cde())
            || !assertions::qt_hz_entity_activation_consistent(l.cde())
            || !assertions::layout_qt_matches_fresh_qt(&l)
        {
            return Err(format!("quadtree judged inconsistent after a removal (committed: {commit})"));
        }
        l.restore(&snap);
        if !assertions::layouts_match(&l, &snap) || !assertions::layout_qt_matches_fresh_qt(&l) {
            return Err("a restored layout does not match its snapshot".into());
        }
    }
    // ids have to be in order
    let items: Vec<_> = kit.items.iter().map(|i| (i.1.clone(), 1usize)).collect();
    let bins = vec![(world.bin.clone(), 1usize)];
    if !assertions::instance_item_bin_ids_correct(&items, &bins) {
        return Err("ids in order are rejected".into());
    }
    let mut bad = items.clone();
    bad.swap(0, 1);
    if assertions::instance_item_bin_ids_correct(&bad, &bins) {
        return Err("ids out of order are accepted".into());
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "A build with debug assertions and overflow checks runs random histories of engines, grids, layouts, bin and strip packing problems, parsing, writing, drawing, simplification, surrogates and the optimizer (the generators of the other properties), in which no assertion may fire; random layouts, free and colliding, are handed to the public validators, whose verdict is compared with the exact oracle. Non-trivial: histories - always (every step is asserted on); validators - the oracle is decisive for the whole layout.",
        assumptions: &["wrong answers without a panic are judged by the property they belong to", "validator verdicts are judged only outside the tolerance band"],
        subs: vec![
            Sub { name: "validators", quick: 4_000, thorough: 200_000, f: c22_validators },
            Sub { name: "engine", quick: 4_000, thorough: 300_000, f: c22_engine },
            Sub { name: "grid", quick: 4_000, thorough: 150_000, f: c22_grid },
            Sub { name: "layout", quick: 2_500, thorough: 200_000, f: c22_layout },
            Sub { name: "bins", quick: 2_500, thorough: 200_000, f: c22_bins },
            Sub { name: "strip", quick: 2_500, thorough: 200_000, f: c22_strip },
            Sub { name: "surrogate", quick: 3_000, thorough: 100_000, f: c22_surrogate },
            Sub { name: "io", quick: 3_000, thorough: 100_000, f: c22_io },
            Sub { name: "shapes", quick: 10_000, thorough: 400_000, f: c22_shapes },
            Sub { name: "solve", quick: 1_200, thorough: 40_000, f: c22_solve },
        ],
    }]
}
