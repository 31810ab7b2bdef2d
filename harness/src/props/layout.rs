//! C07..C10, C21: hazard filters, layouts, bin and strip packing problems, statistics.

use crate::engine::*;
use crate::gen::*;
use crate::geom::*;
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::collision_detection::hazard_filter::*;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::Transformable;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::util::config::CDEConfig;
use std::sync::Arc;

pub type Placed = (usize, DTransformation);

pub fn ent(p: &Placed) -> HazardEntity {
    HazardEntity::PlacedItem { id: p.0, dt: p.1 }
}

/// item shapes with the exact polygon they were built from
pub struct Kit {
    pub w: f64,
    pub items: Vec<(Poly, Item)>,
}

pub fn gen_items(s: &mut Src, w: f64, n: usize, quality: bool) -> Vec<(Poly, Item)> {
    (0..n)
        .map(|id| {
            let p = item_poly(s, w);
            let q = if quality && s.chance(1, 2) {
                Some(s.usize(0, 10))
            } else {
                None
            };
            let it = mk_item(id, &p, AllowedRotation::Continuous, q, cheap_surrogate(s));
            (p, it)
        })
        .collect()
}

pub fn gen_placed(s: &mut Src, kit: &Kit, outer: &Poly, others: &[Placed]) -> (Placed, Poly) {
    let i = s.below(kit.items.len() as u64) as usize;
    let ps: Vec<Poly> = others
        .iter()
        .map(|(k, d)| rigid_of(d).apply_all(&kit.items[*k].0))
        .collect();
    let mut targets = vec![outer];
    targets.extend(ps.iter());
    let (r, t) = placement(s, &kit.items[i].0, &targets, kit.w);
    let d = dt(r, t);
    ((i, d), rigid_of(&d).apply_all(&kit.items[i].0))
}

fn sorted(v: impl Iterator<Item = HazardEntity>) -> Vec<String> {
    let mut v: Vec<String> = v.map(|e| format!("{e:?}")).collect();
    v.sort();
    v
}

fn same_polygon(lib: &[P], exact: &[P], tol: f64) -> bool {
    lib.len() == exact.len() && lib.iter().zip(exact).all(|(a, b)| dist(*a, *b) <= tol)
}

/// everything observable of a layout agrees with the bin it should have and the placements that
/// the history says it holds
fn check_layout(
    s: &mut Src,
    c: &mut Ctx,
    what: &str,
    kit: &Kit,
    l: &Layout,
    bin: &Bin,
    outer: &Poly,
    model: &[Placed],
    queries: usize,
) -> Result<(), String> {
    // the bin
    if l.bin.id != bin.id || l.bin.outer.points != bin.outer.points || l.bin.holes.len() != bin.holes.len() {
        return Err(format!("{what}: layout is on bin {} instead of {}", l.bin.id, bin.id));
    }
    // the placements
    let got = sorted(l.placed_items().values().map(HazardEntity::from));
    let want = sorted(model.iter().map(ent));
    if got != want {
        return Err(format!("{what}: placed {got:?}, history says {want:?}"));
    }
    if l.is_empty() != model.is_empty() {
        return Err(format!("{what}: is_empty() = {}", l.is_empty()));
    }
    let mut area = 0.0;
    for (k, pi) in l.placed_items().iter() {
        let exact = rigid_of(&pi.d_transf).apply_all(&kit.items[pi.item_id].0);
        area += signed_area(&exact).abs();
        let tol = 1e-4 * max_abs(&exact).max(max_abs(&kit.items[pi.item_id].0));
        let mut shape = unsp(&pi.shape);
        let mut ex = exact.clone();
        // the library stores counter clockwise outlines
        if signed_area(&ex) < 0.0 {
            ex.reverse();
        }
        let k0 = (0..shape.len())
            .min_by(|a, b| dist(shape[*a], ex[0]).total_cmp(&dist(shape[*b], ex[0])))
            .unwrap();
        shape.rotate_left(k0);
        if !same_polygon(&shape, &ex, tol) {
            return Err(format!(
                "{what}: item {} placed as {} instead of {}",
                pi.item_id,
                fmt_poly(&shape),
                fmt_poly(&ex)
            ));
        }
        if l.hazard_to_p_item_key(&HazardEntity::from(pi)) != Some(k) {
            return Err(format!("{what}: hazard_to_p_item_key does not find {:?}", HazardEntity::from(pi)));
        }
        let (a, b) = (
            pi.hazard_filter.as_ref().map(|f| f.0),
            kit.items[pi.item_id].1.base_quality,
        );
        if a != b {
            return Err(format!("{what}: placed item filters quality {a:?} instead of {b:?}"));
        }
    }
    if l.hazard_to_p_item_key(&HazardEntity::BinExterior).is_some() {
        return Err(format!("{what}: the bin exterior is reported as a placed item"));
    }
    // usage
    let u = area / exact_bin_area(bin);
    let g = l.usage() as f64;
    if !usage_near(g, u, &[bin]) {
        return Err(format!("{what}: usage {g}, exact {u}"));
    }
    check_cde(s, c, what, kit, l.cde(), bin, outer, model, queries)
}

/// usage figures agree up to rounding; the bin area may suffer cancellation when holes take most of it
fn usage_near(got: f64, exact: f64, bins: &[&Bin]) -> bool {
    if bins.is_empty() {
        return got == exact;
    }
    let outer: f64 = bins.iter().map(|b| signed_area(&unsp(&b.outer)).abs()).sum();
    let net: f64 = bins.iter().map(|b| exact_bin_area(b)).sum();
    let cond = 1.0 + outer / net.abs();
    cond > 100.0 || (got - exact).abs() <= 1e-3 * cond * exact.abs() + 1e-6
}

fn exact_bin_area(bin: &Bin) -> f64 {
    signed_area(&unsp(&bin.outer)).abs()
        - bin.holes.iter().map(|h| signed_area(&unsp(h)).abs()).sum::<f64>()
}

/// the engine answers like a fresh engine of that bin holding exactly the model's placements
fn check_cde(
    s: &mut Src,
    c: &mut Ctx,
    what: &str,
    kit: &Kit,
    cde: &CDEngine,
    bin: &Bin,
    outer: &Poly,
    model: &[Placed],
    queries: usize,
) -> Result<(), String> {
    let got = sorted(cde.dynamic_hazards().iter().map(|h| h.entity));
    let want = sorted(model.iter().map(ent));
    if got != want {
        return Err(format!("{what}: the engine holds {got:?}, history says {want:?}"));
    }
    let got = sorted(cde.static_hazards().iter().map(|h| h.entity));
    let want = sorted(bin.base_cde.static_hazards().iter().map(|h| h.entity));
    if got != want {
        return Err(format!("{what}: the engine's static hazards are {got:?} instead of {want:?}"));
    }
    let mut fresh = bin.base_cde.as_ref().clone();
    for (i, d) in model {
        let shape = kit.items[*i].1.shape.transform_clone(&d.compose());
        fresh.register_hazard(Hazard::new(ent(&(*i, *d)), Arc::new(shape)));
    }
    let all: Vec<HazardEntity> = fresh.all_hazards().map(|h| h.entity).collect();
    for _ in 0..queries {
        let ((i, d), _) = gen_placed(s, kit, outer, model);
        let q = kit.items[i].1.shape.transform_clone(&d.compose());
        let irr: Vec<HazardEntity> = match s.below(3) {
            0 => vec![],
            1 => all.iter().filter(|_| s.chance(1, 3)).copied().collect(),
            _ => all
                .iter()
                .filter(|e| !matches!(e, HazardEntity::PlacedItem { .. }))
                .copied()
                .collect(),
        };
        let (a, b) = (cde.poly_collides(&q, &irr), fresh.poly_collides(&q, &irr));
        c.label(if b { "q:collides" } else { "q:free" });
        if a != b {
            return Err(format!(
                "{what}: poly_collides = {a}, but {b} on a fresh engine with the same contents; query {} irrelevant {irr:?}",
                fmt_poly(&unsp(&q))
            ));
        }
        let (mut da, mut db) = (vec![], vec![]);
        cde.collect_poly_collisions(&q, &irr, &mut da);
        fresh.collect_poly_collisions(&q, &irr, &mut db);
        let (da, db) = (sorted(da.into_iter()), sorted(db.into_iter()));
        if da != db {
            return Err(format!(
                "{what}: collisions {da:?}, but {db:?} on a fresh engine with the same contents; query {} irrelevant {irr:?}",
                fmt_poly(&unsp(&q))
            ));
        }
    }
    if cde.config().hpg_n_cells > 0 && queries > 0 {
        if let Ok(grid) = cde.haz_prox_grid() {
            let fg = fresh.haz_prox_grid().map_err(|_| "fresh grid dirty".to_string())?;
            if grid.grid.cells.len() != fg.grid.cells.len() {
                return Err(format!("{what}: grid has {} cells instead of {}", grid.grid.cells.len(), fg.grid.cells.len()));
            }
            for (a, b) in grid.grid.cells.iter().zip(fg.grid.cells.iter()) {
                match (a, b) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        let (x, y) = (a.uni_prox.0 as f64, b.uni_prox.0 as f64);
                        if (x - y).abs() > 2e-3 * (max_abs(outer) + kit.w) {
                            return Err(format!("{what}: proximity {x} at {:?}, but {y} in a fresh engine", a.centroid));
                        }
                    }
                    _ => return Err(format!("{what}: grid cells differ from a fresh engine's")),
                }
            }
            c.label("grid-compared");
        }
    }
    Ok(())
}

fn snapshot_matches(what: &str, ls: &LayoutSnapshot, id: usize, bin: &Bin, kit: &Kit, model: &[Placed]) -> Result<(), String> {
    if ls.id != id || ls.bin.id != bin.id || ls.bin.outer.points != bin.outer.points {
        return Err(format!("{what}: snapshot of layout {} on bin {} instead of {id} on {}", ls.id, ls.bin.id, bin.id));
    }
    let got = sorted(ls.placed_items.values().map(HazardEntity::from));
    let want = sorted(model.iter().map(ent));
    if got != want {
        return Err(format!("{what}: snapshot holds {got:?} instead of {want:?}"));
    }
    let area: f64 = model.iter().map(|m| signed_area(&kit.items[m.0].0).abs()).sum();
    let u = area / exact_bin_area(bin);
    if !usage_near(ls.usage as f64, u, &[bin]) {
        return Err(format!("{what}: snapshot usage {} instead of {u}", ls.usage));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

struct Recorded(Vec<HazardEntity>);
impl HazardFilter for Recorded {
    fn is_irrelevant(&self, e: &HazardEntity) -> bool {
        self.0.contains(e)
    }
}

fn c07_quality(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let world = world(
        s,
        0,
        &WorldOpts {
            max_zones: 6,
            max_holes: 2,
            contained: true,
            ..Default::default()
        },
    );
    let kit = Kit {
        w: world.w,
        items: gen_items(s, world.w, 2, true),
    };
    let mut layout = Layout::new(7, world.bin.clone());
    let mut model: Vec<Placed> = vec![];
    for _ in 0..s.count(0, 2, 20, 24) {
        let (p, _) = gen_placed(s, &kit, &world.outer, &model);
        if !model.contains(&p) {
            layout.place_item(&kit.items[p.0].1, p.1);
            model.push(p);
        }
    }
    let mut haz = world.static_entities();
    for m in &model {
        haz.push((ent(m), rigid_of(&m.1).apply_all(&kit.items[m.0].0)));
    }
    let cde = layout.cde();
    for _ in 0..4 {
        let i = s.below(kit.items.len() as u64) as usize;
        let it = &kit.items[i].1;
        // aim at a zone most of the time
        let zs: Vec<&Poly> = world.zones.iter().map(|z| &z.2).collect();
        let mut targets = vec![&world.outer];
        targets.extend(zs.iter());
        let (r, t) = placement(s, &kit.items[i].0, &targets, world.w);
        let d = dt(r, t);
        let q = it.shape.transform_clone(&d.compose());
        let op = rigid_of(&d).apply_all(&kit.items[i].0);
        // an item requires full quality unless it states a base quality, and then only zones of a
        // strictly lower quality are off limits
        let off_limits = |e: &HazardEntity| match e {
            HazardEntity::InferiorQualityZone { quality, .. } => {
                it.base_quality.map_or(true, |b| *quality < b)
            }
            _ => true,
        };
        let want: Vec<HazardEntity> = haz.iter().map(|h| h.0).filter(|e| !off_limits(e)).collect();
        let irr = match &it.hazard_filter {
            Some(f) => generate_irrelevant_hazards(f, cde.all_hazards()),
            None => vec![],
        };
        if sorted(irr.iter().copied()) != sorted(want.iter().copied()) {
            return Err(format!(
                "item of base quality {:?}: hazards deemed irrelevant {irr:?}, expected {want:?}",
                it.base_quality
            ));
        }
        // filters combine: irrelevant if any of them says so
        let some: Vec<HazardEntity> = haz.iter().filter(|_| s.chance(1, 3)).map(|h| h.0).collect();
        let ef = EntityHazardFilter(some.clone());
        let rf = Recorded(haz.iter().filter(|_| s.chance(1, 6)).map(|h| h.0).collect());
        let use_bin = s.chance(1, 3);
        let mut filters: Vec<Box<&dyn HazardFilter>> = vec![Box::new(&ef), Box::new(&rf)];
        if use_bin {
            filters.push(Box::new(&BinHazardFilter));
        }
        if let Some(f) = &it.hazard_filter {
            filters.insert(s.below(filters.len() as u64 + 1) as usize, Box::new(f));
        }
        if s.chance(1, 4) {
            filters.clear();
        }
        let n_filters = filters.len();
        let comb = CombinedHazardFilter { filters };
        let irr2 = generate_irrelevant_hazards(&comb, cde.all_hazards());
        let want2: Vec<HazardEntity> = haz
            .iter()
            .map(|h| h.0)
            .filter(|e| {
                n_filters > 0
                    && (some.contains(e)
                        || rf.0.contains(e)
                        || (use_bin && !matches!(e, HazardEntity::PlacedItem { .. }))
                        || (it.hazard_filter.is_some() && !off_limits(e)))
            })
            .collect();
        if sorted(irr2.iter().copied()) != sorted(want2.iter().copied()) {
            return Err(format!("combined filter gives {irr2:?}, expected {want2:?}"));
        }
        // and the verdict follows from exactly the relevant ones
        let ll = world.l.max(max_abs(&op));
        let (m, ce) = (REL_MARGIN * ll, REL_CROSS * ll);
        let verdicts: Vec<(HazardEntity, Option<bool>)> = haz
            .iter()
            .map(|(e, h)| (*e, oracle_hazard(&op, e, h, m, ce)))
            .collect();
        let relevant = verdicts.iter().filter(|v| off_limits(&v.0));
        let mut exp = Some(false);
        for v in relevant {
            match v.1 {
                Some(true) => {
                    exp = Some(true);
                    break;
                }
                None => exp = None,
                _ => {}
            }
        }
        let skipped_zone = verdicts.iter().any(|v| !off_limits(&v.0) && v.1 == Some(true));
        let got = cde.poly_collides(&q, &irr);
        if skipped_zone {
            c.label("overlaps-tolerated-zone");
            c.nontrivial = true;
        }
        if verdicts.iter().any(|v| off_limits(&v.0) && v.1 == Some(true) && matches!(v.0, HazardEntity::InferiorQualityZone { .. })) {
            c.label("overlaps-forbidden-zone");
            c.nontrivial = true;
        }
        if let Some(e) = exp {
            if e != got {
                return Err(format!(
                    "item of base quality {:?} at {d:?}: collides = {got}, exact {e}; zones {:?} item {}",
                    it.base_quality,
                    world.zones,
                    fmt_poly(&op)
                ));
            }
        }
        c.sample(|| format!("base quality {:?}, zones {:?}, verdict {got}", it.base_quality, world.zones.iter().map(|z| z.0).collect::<Vec<_>>()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn c08_layout(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = scale_w(s);
    let nb = s.count(1, 3, 8, 16);
    let mut worlds = vec![];
    for i in 0..nb {
        let hpg = if s.chance(1, 4) { s.usize(1, 40) } else { 0 };
        let cfg = cde_cfg(s, hpg);
        let opts = WorldOpts {
            max_holes: 2,
            max_zones: 2,
            ..Default::default()
        };
        worlds.push(world_with(s, w, cfg, i, &opts));
    }
    if s.chance(1, 4) {
        // bins of different instances may well bear the same id
        worlds.iter_mut().for_each(|w| w.bin.id = 0);
    }
    let ni = s.count(1, 3, 12, 16);
    let kit = Kit {
        w,
        items: gen_items(s, w, ni, true),
    };
    let id0 = s.usize(0, 5);
    let mut layout = Layout::new(id0, worlds[0].bin.clone());
    let mut bin = 0usize;
    let mut model: Vec<(PItemKey, Placed)> = vec![];
    type Snap = (LayoutSnapshot, usize, Vec<(PItemKey, Placed)>);
    let mut snaps: Vec<Snap> = vec![];
    let mut spare: Option<(Layout, usize, Vec<(PItemKey, Placed)>)> = None;
    let mut log: Vec<String> = vec![];
    let (mut n_rest, mut n_change, mut n_unc) = (0, 0, 0);
    for _ in 0..s.count(4, 16, 80, 20) {
        match s.weighted(&[7, 5, 3, 5, 2, 1, 1, 1]) {
            0 => {
                let pls: Vec<Placed> = model.iter().map(|m| m.1).collect();
                let (p, _) = gen_placed(s, &kit, &worlds[bin].outer, &pls);
                if pls.contains(&p) {
                    continue;
                }
                log.push(format!("place {p:?}"));
                let k = layout.place_item(&kit.items[p.0].1, p.1);
                model.push((k, p));
            }
            1 if !model.is_empty() => {
                let i = s.below(model.len() as u64) as usize;
                let commit = s.chance(1, 2);
                n_unc += !commit as usize;
                let (k, p) = model.remove(i);
                log.push(format!("remove {p:?} commit={commit}"));
                let pi = layout.remove_item(k, commit);
                if (pi.item_id, pi.d_transf) != p {
                    return Err(format!("removed {:?} instead of {p:?}", (pi.item_id, pi.d_transf)));
                }
            }
            2 => {
                log.push("snapshot".into());
                snaps.push((layout.create_snapshot(), bin, model.clone()));
            }
            3 if !snaps.is_empty() => {
                let i = s.below(snaps.len() as u64) as usize;
                let (sn, b, m) = &snaps[i];
                n_rest += 1;
                if s.chance(1, 4) {
                    log.push(format!("from_snapshot {i}"));
                    layout = Layout::from_snapshot(sn);
                } else {
                    log.push(format!("restore {i}"));
                    layout.restore(sn);
                }
                bin = *b;
                model = m.clone();
            }
            4 => {
                let b = s.below(nb as u64) as usize;
                log.push(format!("change_bin {b}"));
                n_change += 1;
                layout.change_bin(worlds[b].bin.clone());
                bin = b;
            }
            5 => {
                log.push("flush".into());
                layout.flush_changes();
            }
            6 => {
                // a copy under another id is independent of the original
                log.push("clone_with_id".into());
                let copy = layout.clone_with_id(id0 + 100);
                if copy.id() != id0 + 100 || layout.id() != id0 {
                    return Err("clone_with_id gives wrong ids".into());
                }
                spare = Some((copy, bin, model.clone()));
            }
            7 => {
                if let Some((cp, b, m)) = spare.as_mut() {
                    let pls: Vec<Placed> = m.iter().map(|m| m.1).collect();
                    if s.chance(1, 2) && !m.is_empty() {
                        let i = s.below(m.len() as u64) as usize;
                        let (k, p) = m.remove(i);
                        log.push(format!("copy: remove {p:?}"));
                        cp.remove_item(k, s.chance(1, 2));
                    } else {
                        let (p, _) = gen_placed(s, &kit, &worlds[*b].outer, &pls);
                        if !pls.contains(&p) {
                            log.push(format!("copy: place {p:?}"));
                            let k = cp.place_item(&kit.items[p.0].1, p.1);
                            m.push((k, p));
                        }
                    }
                }
            }
            _ => continue,
        }
        if layout.id() != id0 {
            return Err(format!("layout id became {}; {log:?}", layout.id()));
        }
        // keys stay valid and name the same placement
        for (k, p) in &model {
            match layout.placed_items().get(*k) {
                Some(pi) if (pi.item_id, pi.d_transf) == *p => {}
                x => {
                    return Err(format!(
                        "key {k:?} names {:?} instead of {p:?}; {log:?}",
                        x.map(|pi| (pi.item_id, pi.d_transf))
                    ))
                }
            }
        }
        let m: Vec<Placed> = model.iter().map(|m| m.1).collect();
        check_layout(s, c, "layout", &kit, &layout, &worlds[bin].bin, &worlds[bin].outer, &m, 2)
            .map_err(|e| format!("{e}; history {log:?}"))?;
        if let Some((cp, b, m)) = &spare {
            let m: Vec<Placed> = m.iter().map(|m| m.1).collect();
            check_layout(s, c, "copy", &kit, cp, &worlds[*b].bin, &worlds[*b].outer, &m, 0)
                .map_err(|e| format!("{e}; history {log:?}"))?;
        }
        for (i, (sn, b, m)) in snaps.iter().enumerate() {
            let m: Vec<Placed> = m.iter().map(|m| m.1).collect();
            snapshot_matches(&format!("snapshot {i}"), sn, id0, &worlds[*b].bin, &kit, &m)
                .map_err(|e| format!("{e}; history {log:?}"))?;
        }
    }
    if n_rest > 0 {
        c.label("with-restore");
        if n_change > 0 {
            c.label("restore-and-bin-change");
        }
        if n_unc > 0 || n_change > 0 {
            c.nontrivial = true;
        }
    }
    c.sample(|| format!("{log:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C09

#[derive(Clone)]
struct ML {
    id: usize,
    bin: usize,
    placed: Vec<(PItemKey, Placed)>,
}

impl ML {
    fn placements(&self) -> Vec<Placed> {
        self.placed.iter().map(|p| p.1).collect()
    }
}

#[derive(Clone)]
struct BpState {
    layouts: Vec<ML>,
    stock: Vec<usize>,
}

struct BpWorld {
    kit: Kit,
    worlds: Vec<World>,
    demand: Vec<usize>,
    stock: Vec<usize>,
}

fn gen_bp(s: &mut Src, values: bool) -> BpWorld {
    let w = scale_w(s);
    let nb = s.count(1, 3, 10, 16);
    let mut worlds = vec![];
    for i in 0..nb {
        let hpg = if s.chance(1, 5) { s.usize(1, 30) } else { 0 };
        let cfg = cde_cfg(s, hpg);
        let opts = WorldOpts {
            max_holes: 1,
            max_zones: 1,
            ..Default::default()
        };
        let mut wd = world_with(s, w, cfg, i, &opts);
        if values {
            let big = if s.chance(1, 10) { 1 << 40 } else { 1000 };
            wd.bin.value = s.below(big);
        }
        worlds.push(wd);
    }
    let ni = s.count(1, 4, 16, 16);
    let items = gen_items(s, w, ni, false);
    let demand = (0..ni)
        .map(|_| if s.chance(1, 12) { *s.pick(&[100, 256, 257, 1000, 65536]) } else { s.usize(1, 4) })
        .collect();
    let stock = (0..nb)
        .map(|_| match s.weighted(&[6, 1]) {
            0 => s.usize(1, 3),
            _ => usize::MAX,
        })
        .collect();
    BpWorld {
        kit: Kit { w, items },
        worlds,
        demand,
        stock,
    }
}

fn bp_instance(b: &BpWorld) -> BPInstance {
    BPInstance::new(
        b.kit
            .items
            .iter()
            .zip(&b.demand)
            .map(|((_, it), d)| (it.clone(), *d))
            .collect(),
        b.worlds
            .iter()
            .zip(&b.stock)
            .map(|(w, q)| (w.bin.clone(), *q))
            .collect(),
    )
}

fn placed_counts(n: usize, st: &BpState) -> Vec<usize> {
    let mut v = vec![0; n];
    for l in &st.layouts {
        for (_, p) in &l.placed {
            v[p.0] += 1;
        }
    }
    v
}

fn bp_check(s: &mut Src, c: &mut Ctx, b: &BpWorld, pr: &Problem, st: &BpState, log: &[String], queries: usize) -> Result<(), String> {
    let fail = |m: String| Err(format!("{m}; history {log:?}"));
    if pr.layouts().len() != st.layouts.len() {
        return fail(format!("{} layouts instead of {}", pr.layouts().len(), st.layouts.len()));
    }
    for (i, (l, m)) in pr.layouts().iter().zip(&st.layouts).enumerate() {
        if l.id() != m.id {
            return fail(format!("layout {i} has id {} instead of {}", l.id(), m.id));
        }
        let q = if s.chance(1, 2) { queries } else { 0 };
        check_layout(s, c, &format!("layout {i}"), &b.kit, l, &b.worlds[m.bin].bin, &b.worlds[m.bin].outer, &m.placements(), q)
            .or_else(|e| fail(e))?;
        for (k, p) in &m.placed {
            match l.placed_items().get(*k) {
                Some(pi) if (pi.item_id, pi.d_transf) == *p => {}
                _ => return fail(format!("key {k:?} no longer names {p:?} in layout {i}")),
            }
        }
        if pr.get_layout(LayoutIndex::Real(i)).id() != m.id {
            return fail(format!("get_layout(Real({i})) returns another layout"));
        }
    }
    // ids are unique
    for (i, a) in st.layouts.iter().enumerate() {
        if st.layouts[..i].iter().any(|x| x.id == a.id) {
            return fail(format!("two layouts share id {}", a.id));
        }
    }
    let counts = placed_counts(b.demand.len(), st);
    let got: Vec<usize> = pr.placed_item_qtys().collect();
    if got != counts {
        return fail(format!("placed quantities {got:?} instead of {counts:?}"));
    }
    let missing: Vec<isize> = b.demand.iter().zip(&counts).map(|(d, p)| *d as isize - *p as isize).collect();
    if pr.missing_item_qtys() != missing.as_slice() {
        return fail(format!("missing quantities {:?} instead of {missing:?}", pr.missing_item_qtys()));
    }
    if pr.bin_qtys() != st.stock.as_slice() {
        return fail(format!("bin stock {:?} instead of {:?}", pr.bin_qtys(), st.stock));
    }
    let want: Vec<LayoutIndex> = (0..st.stock.len()).filter(|i| st.stock[*i] > 0).map(LayoutIndex::Template).collect();
    let got: Vec<LayoutIndex> = pr.template_layout_indices_with_stock().collect();
    if got != want {
        return fail(format!("templates with stock {got:?} instead of {want:?}"));
    }
    let got: Vec<LayoutIndex> = pr.layout_indices().collect();
    let want: Vec<LayoutIndex> = (0..st.layouts.len()).map(LayoutIndex::Real).collect();
    if got != want {
        return fail(format!("layout indices {got:?} instead of {want:?}"));
    }
    if pr.template_layouts().len() != b.worlds.len() {
        return fail("the number of templates changed".into());
    }
    for (i, t) in pr.template_layouts().iter().enumerate() {
        if !t.is_empty() || t.bin.id != i || !t.cde().dynamic_hazards().is_empty() {
            return fail(format!("template {i} is not empty any more"));
        }
    }
    Ok(())
}

fn sol_check(b: &BpWorld, sol: &Solution, st: &BpState) -> Result<(), String> {
    if sol.layout_snapshots.len() != st.layouts.len() {
        return Err(format!("solution has {} layouts instead of {}", sol.layout_snapshots.len(), st.layouts.len()));
    }
    for m in &st.layouts {
        let Some(ls) = sol.layout_snapshots.iter().find(|l| l.id == m.id) else {
            return Err(format!("solution lacks layout {}", m.id));
        };
        snapshot_matches("solution", ls, m.id, &b.worlds[m.bin].bin, &b.kit, &m.placements())?;
    }
    let counts = placed_counts(b.demand.len(), st);
    if sol.placed_item_qtys != counts {
        return Err(format!("solution's placed quantities {:?} instead of {counts:?}", sol.placed_item_qtys));
    }
    if sol.target_item_qtys != b.demand {
        return Err(format!("solution's target quantities {:?} instead of {:?}", sol.target_item_qtys, b.demand));
    }
    if sol.bin_qtys != st.stock {
        return Err(format!("solution's bin stock {:?} instead of {:?}", sol.bin_qtys, st.stock));
    }
    Ok(())
}

fn bp_of(p: &mut Problem) -> &mut BPProblem {
    match p {
        Problem::BP(b) => b,
        _ => unreachable!(),
    }
}

pub fn c09_bp(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let b = gen_bp(s, false);
    let mut pr = Problem::from(BPProblem::new(bp_instance(&b)));
    let mut st = BpState {
        layouts: vec![],
        stock: b.stock.clone(),
    };
    let over = s.chance(1, 8);
    let mut sols: Vec<(Solution, BpState)> = vec![];
    let mut last_ref: Option<usize> = None;
    let mut next_foreign = 1_000_000;
    let mut log: Vec<String> = vec![];
    let (mut n_incr, mut n_full, mut n_gone, mut n_inc_sol) = (0, 0, 0, 0);
    bp_check(s, c, &b, &pr, &st, &log, 0)?;
    for _ in 0..s.count(5, 24, 120, 20) {
        match s.weighted(&[9, 6, 1, 1, 4, 5, 1]) {
            0 => {
                let templates: Vec<usize> = (0..b.worlds.len()).filter(|i| st.stock[*i] > 0).collect();
                let k = s.below((templates.len() + 2 * st.layouts.len()).max(1) as u64) as usize;
                let (idx, bin, others) = if k < templates.len() {
                    (LayoutIndex::Template(templates[k]), templates[k], vec![])
                } else if !st.layouts.is_empty() {
                    let i = (k - templates.len()) % st.layouts.len();
                    (LayoutIndex::Real(i), st.layouts[i].bin, st.layouts[i].placements())
                } else {
                    continue;
                };
                let (p, _) = gen_placed(s, &b.kit, &b.worlds[bin].outer, &others);
                let counts = placed_counts(b.demand.len(), &st);
                if others.contains(&p) || (!over && counts[p.0] >= b.demand[p.0]) {
                    continue;
                }
                log.push(format!("place {p:?} at {idx:?}"));
                let (at, key) = pr.place_item(PlacingOption {
                    layout_idx: idx,
                    item_id: p.0,
                    d_transf: p.1,
                });
                match idx {
                    LayoutIndex::Template(t) => {
                        st.stock[t] -= 1;
                        if at != LayoutIndex::Real(st.layouts.len()) {
                            return Err(format!("placing in a template returned {at:?}; {log:?}"));
                        }
                        st.layouts.push(ML {
                            id: pr.layouts().last().map_or(usize::MAX, |l| l.id()),
                            bin: t,
                            placed: vec![(key, p)],
                        });
                    }
                    LayoutIndex::Real(i) => {
                        if at != idx {
                            return Err(format!("placing in {idx:?} returned {at:?}; {log:?}"));
                        }
                        st.layouts[i].placed.push((key, p));
                    }
                }
            }
            1 if st.layouts.iter().any(|l| !l.placed.is_empty()) => {
                let cands: Vec<usize> = (0..st.layouts.len()).filter(|i| !st.layouts[*i].placed.is_empty()).collect();
                let i = *s.pick(&cands);
                let j = s.below(st.layouts[i].placed.len() as u64) as usize;
                let (k, p) = st.layouts[i].placed.remove(j);
                let commit = s.chance(1, 2);
                log.push(format!("remove {p:?} from {i} commit={commit}"));
                let opt = pr.remove_item(LayoutIndex::Real(i), k, commit);
                if opt.item_id != p.0 || opt.d_transf != p.1 || opt.layout_idx != LayoutIndex::Real(i) {
                    return Err(format!("remove_item returned {opt:?}; {log:?}"));
                }
                if st.layouts[i].placed.is_empty() {
                    let l = st.layouts.remove(i);
                    st.stock[l.bin] += 1;
                    n_gone += 1;
                } else if s.chance(1, 4) {
                    log.push("place it back".into());
                    let (at, key) = pr.place_item(opt);
                    if at != LayoutIndex::Real(i) {
                        return Err(format!("placing back returned {at:?}; {log:?}"));
                    }
                    st.layouts[i].placed.push((key, p));
                }
            }
            2 if !st.layouts.is_empty() => {
                let i = s.below(st.layouts.len() as u64) as usize;
                log.push(format!("remove_layout {i}"));
                bp_of(&mut pr).remove_layout(LayoutIndex::Real(i));
                let l = st.layouts.remove(i);
                st.stock[l.bin] += 1;
                n_gone += 1;
            }
            3 if s.chance(1, 3) => {
                // open a bin without placing anything in it yet
                let templates: Vec<usize> = (0..b.worlds.len()).filter(|i| st.stock[*i] > 0).collect();
                if templates.is_empty() {
                    continue;
                }
                let t = *s.pick(&templates);
                next_foreign += 1;
                log.push(format!("register empty layout of bin {t}"));
                let at = bp_of(&mut pr).register_layout(Layout::new(next_foreign, b.worlds[t].bin.clone()));
                if at != LayoutIndex::Real(st.layouts.len()) {
                    return Err(format!("register_layout returned {at:?}; {log:?}"));
                }
                st.stock[t] -= 1;
                st.layouts.push(ML {
                    id: next_foreign,
                    bin: t,
                    placed: vec![],
                });
            }
            3 if !st.layouts.is_empty() => {
                // register a copy of an existing layout (under an id of its own)
                let i = s.below(st.layouts.len() as u64) as usize;
                let m = st.layouts[i].clone();
                let mut counts = placed_counts(b.demand.len(), &st);
                for (_, p) in &m.placed {
                    counts[p.0] += 1;
                }
                if st.stock[m.bin] == 0 || (!over && counts.iter().zip(&b.demand).any(|(c, d)| c > d)) {
                    continue;
                }
                next_foreign += 1;
                log.push(format!("register copy of layout {i}"));
                let copy = pr.layouts()[i].clone_with_id(next_foreign);
                let at = bp_of(&mut pr).register_layout(copy);
                if at != LayoutIndex::Real(st.layouts.len()) {
                    return Err(format!("register_layout returned {at:?}; {log:?}"));
                }
                st.stock[m.bin] -= 1;
                st.layouts.push(ML {
                    id: next_foreign,
                    ..m
                });
            }
            4 => {
                let old = last_ref.filter(|_| s.chance(1, 2));
                log.push(format!("create_solution(incremental={})", old.is_some()));
                n_inc_sol += old.is_some() as usize;
                let sol = match old {
                    Some(i) => {
                        let o = sols[i].0.clone();
                        pr.create_solution(Some(&o))
                    }
                    None => pr.create_solution(None),
                };
                if sols.iter().any(|x| x.0.id == sol.id) {
                    return Err(format!("two solutions share id {}; {log:?}", sol.id));
                }
                // the layouts appear in the problem's order
                let ids: Vec<usize> = sol.layout_snapshots.iter().map(|l| l.id).collect();
                let want: Vec<usize> = st.layouts.iter().map(|l| l.id).collect();
                if ids != want {
                    return Err(format!("solution lists layouts {ids:?} instead of {want:?}; {log:?}"));
                }
                last_ref = Some(sols.len());
                sols.push((sol, st.clone()));
            }
            5 if !sols.is_empty() => {
                let i = if s.chance(1, 2) {
                    last_ref.unwrap()
                } else {
                    s.below(sols.len() as u64) as usize
                };
                if last_ref == Some(i) {
                    n_incr += 1
                } else {
                    n_full += 1
                }
                log.push(format!("restore {i}"));
                pr.restore_to_solution(&sols[i].0);
                st = sols[i].1.clone();
                // the order in which a restored problem lists its layouts is not specified
                let ids: Vec<usize> = pr.layouts().iter().map(|l| l.id()).collect();
                st.layouts.sort_by_key(|l| ids.iter().position(|x| *x == l.id));
                last_ref = Some(i);
            }
            6 => {
                log.push("flush".into());
                pr.flush_changes();
            }
            _ => continue,
        }
        bp_check(s, c, &b, &pr, &st, &log, 1)?;
        for (i, (sol, m)) in sols.iter().enumerate() {
            sol_check(&b, sol, m).map_err(|e| format!("solution {i}: {e}; history {log:?}"))?;
        }
    }
    if n_incr > 0 {
        c.label("restore-incremental");
    }
    if n_full > 0 {
        c.label("restore-full");
    }
    if n_gone > 0 {
        c.label("layout-removed");
    }
    if n_inc_sol > 0 {
        c.label("solution-incremental");
    }
    c.nontrivial = n_incr + n_full > 0 && st.layouts.len() + n_gone > 1;
    c.sample(|| format!("stock {:?} demand {:?}: {log:?}", b.stock, b.demand));
    Ok(())
}

// ---------------------------------------------------------------- C10

#[derive(Clone)]
struct SpState {
    /// exact strip rectangle as the library stores it
    rect: (f64, f64, f64, f64),
    placed: Vec<(PItemKey, Placed)>,
}

struct SpWorld {
    kit: Kit,
    demand: Vec<usize>,
    h: f64,
    width: f64,
    cfg: CDEConfig,
}

fn gen_sp(s: &mut Src) -> SpWorld {
    let h = scale_w(s);
    let width = rf(h * s.float(0.5, 4.0));
    let hpg = if s.chance(1, 5) { s.usize(1, 30) } else { 0 };
    let cfg = cde_cfg(s, hpg);
    let ni = s.count(1, 4, 16, 16);
    let items = gen_items(s, h, ni, false);
    let demand = (0..ni).map(|_| s.usize(1, 4)).collect();
    SpWorld {
        kit: Kit { w: h, items },
        demand,
        h,
        width,
        cfg,
    }
}

fn sp_of(p: &mut Problem) -> &mut SPProblem {
    match p {
        Problem::SP(b) => b,
        _ => unreachable!(),
    }
}

fn placed_poly(k: &Kit, p: &Placed) -> Poly {
    rigid_of(&p.1).apply_all(&k.items[p.0].0)
}

fn occupied(k: &Kit, st: &SpState) -> Option<(f64, f64)> {
    st.placed.iter().map(|(_, p)| bbox(&placed_poly(k, p))).fold(None, |a, b| match a {
        None => Some((b.0, b.2)),
        Some((x, y)) => Some((f64::min(x, b.0), f64::max(y, b.2))),
    })
}

fn sp_check(s: &mut Src, c: &mut Ctx, w: &SpWorld, pr: &mut Problem, st: &SpState, log: &[String], queries: usize) -> Result<(), String> {
    let fail = |m: String| Err(format!("{m}; history {log:?}"));
    let bb = pr.layouts()[0].bin.bbox();
    let got = (bb.x_min as f64, bb.y_min as f64, bb.x_max as f64, bb.y_max as f64);
    let ll = [st.rect.0, st.rect.2, w.h].iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let tol = 1e-5 * ll;
    let close = |a: f64, b: f64| (a - b).abs() <= tol;
    if !(close(got.0, st.rect.0) && close(got.1, st.rect.1) && close(got.2, st.rect.2) && close(got.3, st.rect.3)) {
        return fail(format!("strip is {got:?} instead of {:?}", st.rect));
    }
    let outer = rect(got.0, got.1, got.2, got.3);
    let pls: Vec<Placed> = st.placed.iter().map(|p| p.1).collect();
    // expected bin: a rectangle whose original position is the origin
    let lib_outer = unsp(&pr.layouts()[0].bin.outer);
    if lib_outer.len() != 4 || (signed_area(&lib_outer).abs() - signed_area(&outer).abs()).abs() > 1e-6 * signed_area(&outer).abs() {
        return fail(format!("strip outline is {}", fmt_poly(&lib_outer)));
    }
    let bin = pr.layouts()[0].bin.clone();
    if !bin.holes.is_empty() || bin.quality_zones.iter().any(|q| q.is_some()) {
        return fail("a strip has no holes or quality zones".into());
    }
    if bin.base_cde.config() != w.cfg {
        return fail(format!("the strip's engine configuration became {:?}", bin.base_cde.config()));
    }
    check_layout(s, c, "strip", &w.kit, &pr.layouts()[0], &bin, &outer, &pls, queries).or_else(|e| fail(e))?;
    // exact verdicts against the strip itself
    if queries > 0 {
        let ((i, d), op) = gen_placed(s, &w.kit, &outer, &pls);
        let q = w.kit.items[i].1.shape.transform_clone(&d.compose());
        let lm = max_abs(&op).max(max_abs(&outer));
        let irr: Vec<HazardEntity> = pls.iter().map(ent).collect();
        if let Some(e) = oracle_hazard(&op, &HazardEntity::BinExterior, &outer, REL_MARGIN * lm, REL_CROSS * lm) {
            if pr.layouts()[0].cde().poly_collides(&q, &irr) != e {
                return fail(format!("placement inside the strip judged {}, exact {e}: {}", !e, fmt_poly(&op)));
            }
        }
    }
    for (k, p) in &st.placed {
        match pr.layouts()[0].placed_items().get(*k) {
            Some(pi) if (pi.item_id, pi.d_transf) == *p => {}
            _ => return fail(format!("key {k:?} no longer names {p:?}")),
        }
    }
    let mut counts = vec![0usize; w.demand.len()];
    pls.iter().for_each(|p| counts[p.0] += 1);
    let missing: Vec<isize> = w.demand.iter().zip(&counts).map(|(d, p)| *d as isize - *p as isize).collect();
    if pr.missing_item_qtys() != missing.as_slice() {
        return fail(format!("missing quantities {:?} instead of {missing:?}", pr.missing_item_qtys()));
    }
    let got_counts: Vec<usize> = pr.placed_item_qtys().collect();
    if got_counts != counts {
        return fail(format!("placed quantities {got_counts:?} instead of {counts:?}"));
    }
    if pr.template_layout_indices_with_stock().count() != 0 || pr.layouts().len() != 1 {
        return fail("a strip packing problem has exactly one layout and no templates".into());
    }
    let occ = occupied(&w.kit, st);
    let p = sp_of(pr);
    let tol = 1e-4 * ll.max(occ.map_or(0.0, |o| o.0.abs().max(o.1.abs())));
    let got = p.occupied_range().map(|(a, b)| (a as f64, b as f64));
    let ok = match (got, occ) {
        (None, None) => true,
        (Some(a), Some(b)) => (a.0 - b.0).abs() <= tol && (a.1 - b.1).abs() <= tol,
        _ => false,
    };
    if !ok {
        return fail(format!("occupied range {got:?}, exact {occ:?}"));
    }
    let ow = occ.map_or(0.0, |o| o.1 - o.0);
    if (p.occupied_width() as f64 - ow).abs() > 2.0 * tol {
        return fail(format!("occupied width {}, exact {ow}", p.occupied_width()));
    }
    if (p.strip_width() as f64 - (st.rect.2 - st.rect.0)).abs() > 2.0 * tol || (p.strip_height() as f64 - w.h).abs() > 1e-5 * w.h {
        return fail(format!("strip measures {} x {}", p.strip_width(), p.strip_height()));
    }
    Ok(())
}

pub fn c10_sp(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = gen_sp(s);
    let inst = SPInstance::new(
        w.kit.items.iter().zip(&w.demand).map(|((_, i), d)| (i.clone(), *d)).collect(),
        w.h as F,
    );
    let mut pr = Problem::from(SPProblem::new(inst, w.width as F, w.cfg));
    let mut st = SpState {
        rect: (0.0, 0.0, w.width, rf(w.h)),
        placed: vec![],
    };
    let mut sols: Vec<(Solution, SpState)> = vec![];
    let mut log: Vec<String> = vec![];
    let (mut n_drop, mut n_keep, mut n_rest, mut n_fit) = (0, 0, 0, 0);
    // more items than demanded may be placed: the surplus shows as a negative shortage
    let over = s.chance(1, 8);
    // many items on top of each other, as an optimiser that tolerates overlap leaves them
    let heap = s.chance(1, 30);
    if heap {
        for _ in 0..s.usize(15, 45) {
            let outer = rect(st.rect.0, st.rect.1, st.rect.2, st.rect.3);
            let (p, _) = gen_placed(s, &w.kit, &outer, &[]);
            let pls: Vec<Placed> = st.placed.iter().map(|p| p.1).collect();
            if pls.contains(&p) {
                continue;
            }
            log.push(format!("place {p:?}"));
            let (_, k) = pr.place_item(PlacingOption {
                layout_idx: STRIP_LAYOUT_IDX,
                item_id: p.0,
                d_transf: p.1,
            });
            st.placed.push((k, p));
        }
        c.label("heap");
    }
    sp_check(s, c, &w, &mut pr, &st, &log, 1)?;
    for _ in 0..s.count(4, 16, 80, 20) {
        match s.weighted(&[8, 3, 5, 2, 2, 3, 1]) {
            0 => {
                let pls: Vec<Placed> = st.placed.iter().map(|p| p.1).collect();
                let outer = rect(st.rect.0, st.rect.1, st.rect.2, st.rect.3);
                let (p, op) = gen_placed(s, &w.kit, &outer, &pls);
                let counts = pls.iter().filter(|x| x.0 == p.0).count();
                // most placements lie inside the strip, as they do in practice
                let b = bbox(&op);
                let m = 2e-3 * max_abs(&op).max(max_abs(&outer));
                let inside = b.0 > st.rect.0 + m && b.1 > st.rect.1 + m && b.2 < st.rect.2 - m && b.3 < st.rect.3 - m;
                if pls.contains(&p) || (!over && counts >= w.demand[p.0]) || !(inside || s.chance(1, 8)) {
                    continue;
                }
                log.push(format!("place {p:?}"));
                let (at, k) = pr.place_item(PlacingOption {
                    layout_idx: STRIP_LAYOUT_IDX,
                    item_id: p.0,
                    d_transf: p.1,
                });
                if at != STRIP_LAYOUT_IDX {
                    return Err(format!("place_item returned {at:?}; {log:?}"));
                }
                st.placed.push((k, p));
            }
            1 if !st.placed.is_empty() => {
                let i = s.below(st.placed.len() as u64) as usize;
                let (k, p) = st.placed.remove(i);
                let commit = s.chance(1, 2);
                log.push(format!("remove {p:?} commit={commit}"));
                let o = pr.remove_item(STRIP_LAYOUT_IDX, k, commit);
                if o.item_id != p.0 || o.d_transf != p.1 || o.layout_idx != STRIP_LAYOUT_IDX {
                    return Err(format!("remove_item returned {o:?}; {log:?}"));
                }
            }
            2 => {
                // resize
                let before = st.clone();
                let cur = st.rect.2 - st.rect.0;
                let nw = rf(match s.below(3) {
                    0 => cur * s.float(0.3, 1.0),
                    1 => cur * s.float(1.0, 1.8),
                    _ => occupied(&w.kit, &st).map_or(cur, |o| o.1 - o.0) * s.float(0.6, 1.3),
                });
                if nw < 0.05 * w.h || nw > 30.0 * w.h {
                    continue;
                }
                let occ = occupied(&w.kit, &st);
                let p = sp_of(&mut pr);
                match s.below(4) {
                    0 => {
                        log.push(format!("modify_strip_in_back {nw}"));
                        p.modify_strip_in_back(nw as F);
                        st.rect.2 = st.rect.0 + nw;
                    }
                    1 => {
                        log.push(format!("modify_strip_at_front {nw}"));
                        p.modify_strip_at_front(nw as F);
                        st.rect.0 = st.rect.2 - nw;
                    }
                    2 => {
                        log.push(format!("modify_strip_centered {nw}"));
                        p.modify_strip_centered(nw as F);
                        let o = occ.unwrap_or((0.0, 0.0));
                        let mid = (o.0 + o.1) / 2.0;
                        st.rect.0 = mid - nw / 2.0;
                        st.rect.2 = mid + nw / 2.0;
                    }
                    _ => {
                        let x0 = rf(st.rect.0 + s.sym(0.5 * cur));
                        log.push(format!("modify_strip {x0} {nw}"));
                        p.modify_strip(AARectangle::new(x0 as F, st.rect.1 as F, (x0 + nw) as F, st.rect.3 as F));
                        st.rect.0 = x0;
                        st.rect.2 = rf(x0 + nw);
                    }
                }
                let (k, d) = sp_after_resize(&w, &mut pr, &before, &mut st, &log, false)?;
                n_keep += k;
                n_drop += d;
            }
            3 if !st.placed.is_empty() => {
                // fitting presumes a feasible strip: all items between the strip's long sides
                let m = 2e-3 * w.h.max(st.rect.0.abs()).max(st.rect.2.abs());
                if st.placed.iter().any(|(_, p)| {
                    let b = bbox(&placed_poly(&w.kit, p));
                    b.1 < st.rect.1 + m || b.3 > st.rect.3 - m
                }) {
                    continue;
                }
                let before = st.clone();
                let o = occupied(&w.kit, &st).unwrap();
                log.push("fit_strip".into());
                sp_of(&mut pr).fit_strip();
                // the strip hugs the items on both sides
                let bb = pr.layouts()[0].bin.bbox();
                let (x0, x1) = (bb.x_min as f64, bb.x_max as f64);
                let m = 2e-4 * (o.1 - o.0).max(o.0.abs()).max(o.1.abs()) * 2.0;
                if (x0 - o.0).abs() > m || (x1 - o.1).abs() > m {
                    return Err(format!("fitted strip {x0}..{x1} around items {o:?}; {log:?}"));
                }
                st.rect.0 = x0;
                st.rect.2 = x1;
                let (k, _) = sp_after_resize(&w, &mut pr, &before, &mut st, &log, true)?;
                n_keep += k;
                n_fit += 1;
            }
            4 => {
                log.push("create_solution".into());
                let sol = pr.create_solution(None);
                sols.push((sol, st.clone()));
            }
            5 if !sols.is_empty() => {
                let i = s.below(sols.len() as u64) as usize;
                log.push(format!("restore {i}"));
                pr.restore_to_solution(&sols[i].0);
                st = sols[i].1.clone();
                n_rest += 1;
            }
            6 => {
                log.push("flush".into());
                pr.flush_changes();
            }
            _ => continue,
        }
        sp_check(s, c, &w, &mut pr, &st, &log, 1)?;
        for (i, (sol, m)) in sols.iter().enumerate() {
            let ls = &sol.layout_snapshots[0];
            let got = sorted(ls.placed_items.values().map(HazardEntity::from));
            let want = sorted(m.placed.iter().map(|p| ent(&p.1)));
            if sol.layout_snapshots.len() != 1 || got != want {
                return Err(format!("solution {i} holds {got:?} instead of {want:?}; {log:?}"));
            }
            let b = ls.bin.bbox();
            if (b.x_min as f64 - m.rect.0).abs() > 1e-5 * (m.rect.0.abs() + w.h) || (b.x_max as f64 - m.rect.2).abs() > 1e-5 * (m.rect.2.abs() + w.h) {
                return Err(format!("solution {i} has strip {b:?} instead of {:?}; {log:?}", m.rect));
            }
        }
    }
    if n_drop > 0 {
        c.label("resize-drops");
    }
    if n_keep > 0 {
        c.label("resize-keeps");
    }
    if n_fit > 0 {
        c.label("fitted");
    }
    if n_rest > 0 {
        c.label("restored");
    }
    c.nontrivial = n_keep + n_drop > 0;
    c.sample(|| format!("h {} width {} {log:?}", w.h, w.width));
    Ok(())
}

/// after a strip change: exactly the items that fit the new strip are kept, in place
fn sp_after_resize(w: &SpWorld, pr: &mut Problem, before: &SpState, st: &mut SpState, log: &[String], keep_all: bool) -> Result<(usize, usize), String> {
    let bb = pr.layouts()[0].bin.bbox();
    let outer = rect(bb.x_min as f64, bb.y_min as f64, bb.x_max as f64, bb.y_max as f64);
    let mut left: Vec<(PItemKey, Placed)> = pr.layouts()[0]
        .placed_items()
        .iter()
        .map(|(k, pi)| (k, (pi.item_id, pi.d_transf)))
        .collect();
    let (mut nk, mut nd) = (0, 0);
    let mut kept = vec![];
    for (_, p) in &before.placed {
        let op = placed_poly(&w.kit, p);
        let lm = max_abs(&op).max(max_abs(&outer));
        let collides = oracle_hazard(&op, &HazardEntity::BinExterior, &outer, REL_MARGIN * lm, REL_CROSS * lm);
        let pos = left.iter().position(|x| x.1 == *p);
        match (collides, pos) {
            (Some(true), Some(_)) if !keep_all => {
                return Err(format!("{p:?} does not fit the new strip {bb:?} but was kept; {log:?}"))
            }
            (Some(false), None) => {
                return Err(format!("{p:?} fits the new strip {bb:?} but was removed; {log:?}"))
            }
            (_, None) if keep_all => return Err(format!("fitting the strip removed {p:?}; {log:?}")),
            _ => {}
        }
        if let Some(i) = pos {
            kept.push(left.remove(i));
            nk += 1;
        } else {
            nd += 1;
        }
    }
    if !left.is_empty() {
        return Err(format!("items {left:?} appeared in the strip; {log:?}"));
    }
    st.placed = kept;
    Ok((nk, nd))
}

// ---------------------------------------------------------------- C21

fn c21_bp(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut b = gen_bp(s, true);
    let crowd = s.chance(1, 50);
    if crowd {
        b.demand.iter_mut().for_each(|d| *d = (*d).max(100));
    }
    let inst = bp_instance(&b);
    let generic = Instance::from(inst.clone());
    let mut pr = Problem::from(BPProblem::new(inst));
    let mut st = BpState {
        layouts: vec![],
        stock: b.stock.clone(),
    };
    let areas: Vec<f64> = b.kit.items.iter().map(|i| signed_area(&i.0).abs()).collect();
    let over = s.chance(1, 5);
    let mut prev: Option<Solution> = None;
    let mut saved: Option<(Solution, BpState)> = None;
    let mut log: Vec<String> = vec![];
    for _ in 0..if crowd { s.usize(50, 90) } else { s.count(1, 12, 50, 16) } {
        if s.chance(1, if crowd { 20 } else { 5 }) && !st.layouts.is_empty() {
            let i = s.below(st.layouts.len() as u64) as usize;
            let j = s.below(st.layouts[i].placed.len() as u64) as usize;
            let (k, p) = st.layouts[i].placed.remove(j);
            log.push(format!("remove {p:?}"));
            pr.remove_item(LayoutIndex::Real(i), k, s.chance(1, 2));
            if st.layouts[i].placed.is_empty() {
                let l = st.layouts.remove(i);
                st.stock[l.bin] += 1;
            }
        } else {
            let templates: Vec<usize> = (0..b.worlds.len()).filter(|i| st.stock[*i] > 0).collect();
            let k = s.below((templates.len() + st.layouts.len()).max(1) as u64) as usize;
            // a crowd goes into the first layout
            let k = if crowd && !st.layouts.is_empty() { templates.len() } else { k };
            let (idx, bin, others) = if k < templates.len() {
                (LayoutIndex::Template(templates[k]), templates[k], vec![])
            } else if !st.layouts.is_empty() {
                let i = (k - templates.len()) % st.layouts.len();
                (LayoutIndex::Real(i), st.layouts[i].bin, st.layouts[i].placements())
            } else {
                continue;
            };
            let (p, _) = gen_placed(s, &b.kit, &b.worlds[bin].outer, &others);
            let counts = placed_counts(b.demand.len(), &st);
            if others.contains(&p) || (!over && counts[p.0] >= b.demand[p.0]) {
                continue;
            }
            log.push(format!("place item {} in {idx:?}", p.0));
            let (_, key) = pr.place_item(PlacingOption {
                layout_idx: idx,
                item_id: p.0,
                d_transf: p.1,
            });
            match idx {
                LayoutIndex::Template(t) => {
                    st.stock[t] -= 1;
                    st.layouts.push(ML {
                        id: pr.layouts().last().unwrap().id(),
                        bin: t,
                        placed: vec![(key, p)],
                    });
                }
                LayoutIndex::Real(i) => st.layouts[i].placed.push((key, p)),
            }
        }
        // expected figures
        let counts = placed_counts(b.demand.len(), &st);
        let placed_area: f64 = counts.iter().zip(&areas).map(|(n, a)| *n as f64 * a).sum();
        let bin_area: f64 = st.layouts.iter().map(|l| exact_bin_area(&b.worlds[l.bin].bin)).sum();
        let demanded: f64 = b.demand.iter().zip(&areas).map(|(n, a)| *n as f64 * a).sum();
        let cost: u64 = st.layouts.iter().map(|l| b.worlds[l.bin].bin.value).sum();
        let near = |a: f64, b: f64| (a - b).abs() <= 2e-3 * b.abs() + 1e-6;
        if pr.used_bin_cost() != cost {
            return Err(format!("used bin cost {} instead of {cost}; {log:?}", pr.used_bin_cost()));
        }
        let bins: Vec<&Bin> = st.layouts.iter().map(|l| &b.worlds[l.bin].bin).collect();
        // nothing open: nothing used
        let exact_usage = if st.layouts.is_empty() { 0.0 } else { placed_area / bin_area };
        if !usage_near(pr.usage() as f64, exact_usage, &bins) {
            return Err(format!("usage {} instead of {exact_usage}; {log:?}", pr.usage()));
        }
        for (l, m) in pr.layouts().iter().zip(&st.layouts) {
            let a: f64 = m.placed.iter().map(|p| areas[p.1 .0]).sum();
            let e = a / exact_bin_area(&b.worlds[m.bin].bin);
            if !usage_near(l.usage() as f64, e, &[&l.bin]) {
                return Err(format!("layout usage {} instead of {e}; {log:?}", l.usage()));
            }
            let outer_area = signed_area(&b.worlds[m.bin].outer).abs();
            if (l.bin.area as f64 - exact_bin_area(&b.worlds[m.bin].bin)).abs() > 1e-3 * outer_area {
                return Err(format!("bin area {} instead of {}", l.bin.area, exact_bin_area(&b.worlds[m.bin].bin)));
            }
        }
        if !near(generic.item_area() as f64, demanded) {
            return Err(format!("instance item area {} instead of {demanded}", generic.item_area()));
        }
        if generic.total_item_qty() != b.demand.iter().sum::<usize>() {
            return Err(format!("total item quantity {}", generic.total_item_qty()));
        }
        if s.chance(1, 2) {
            let sol = match &prev {
                Some(p) if s.chance(1, 2) => {
                    let p = p.clone();
                    pr.create_solution(Some(&p))
                }
                _ => pr.create_solution(None),
            };
            stats(&sol, &generic, &counts, &b.demand, &areas, Some(exact_usage), &bins)
                .map_err(|e| format!("{e}; {log:?}"))?;
            for (ls, m) in sol.layout_snapshots.iter().zip(&st.layouts) {
                let a: f64 = m.placed.iter().map(|p| areas[p.1 .0]).sum();
                let e = a / exact_bin_area(&b.worlds[m.bin].bin);
                if !usage_near(ls.usage as f64, e, &[&ls.bin]) {
                    return Err(format!("layout snapshot usage {} instead of {e}; {log:?}", ls.usage));
                }
            }
            if counts.iter().zip(&b.demand).all(|(a, b)| a >= b) {
                c.label("complete");
            } else {
                c.label("incomplete");
            }
            if over && counts.iter().zip(&b.demand).any(|(a, b)| a > b) {
                c.label("over-placed");
            }
            c.nontrivial = true;
            saved = Some((sol.clone(), st.clone()));
            prev = Some(sol);
        } else if s.chance(1, 4) {
            if let Some((sol, m)) = &saved {
                log.push("restore".into());
                pr.restore_to_solution(sol);
                st = m.clone();
                let ids: Vec<usize> = pr.layouts().iter().map(|l| l.id()).collect();
                st.layouts.sort_by_key(|l| ids.iter().position(|x| *x == l.id));
                prev = Some(sol.clone());
            }
        }
    }
    c.sample(|| format!("demand {:?} stock {:?} {log:?}", b.demand, b.stock));
    Ok(())
}

fn stats(sol: &Solution, inst: &Instance, counts: &[usize], demand: &[usize], areas: &[f64], usage: Option<f64>, bins: &[&Bin]) -> Result<(), String> {
    let near = |a: f64, b: f64| (a - b).abs() <= 2e-3 * b.abs() + 1e-6;
    let missing: Vec<isize> = demand.iter().zip(counts).map(|(d, p)| *d as isize - *p as isize).collect();
    if sol.missing_item_qtys(inst) != missing {
        return Err(format!("solution misses {:?} instead of {missing:?}", sol.missing_item_qtys(inst)));
    }
    if sol.n_items_placed() != counts.iter().sum::<usize>() {
        return Err(format!("solution counts {} placed items instead of {counts:?}", sol.n_items_placed()));
    }
    let complete = missing.iter().all(|m| *m <= 0);
    if sol.is_complete(inst) != complete {
        return Err(format!("is_complete = {} with missing {missing:?}", sol.is_complete(inst)));
    }
    let placed: f64 = counts.iter().zip(areas).map(|(n, a)| *n as f64 * a).sum();
    let total: f64 = demand.iter().zip(areas).map(|(n, a)| *n as f64 * a).sum();
    if !near(sol.completeness(inst) as f64, placed / total) {
        return Err(format!("completeness {} instead of {}", sol.completeness(inst), placed / total));
    }
    if let Some(u) = usage {
        if !usage_near(sol.usage as f64, u, bins) {
            return Err(format!("solution usage {} instead of {u}", sol.usage));
        }
    }
    Ok(())
}

fn c21_sp(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = gen_sp(s);
    let inst = SPInstance::new(
        w.kit.items.iter().zip(&w.demand).map(|((_, i), d)| (i.clone(), *d)).collect(),
        w.h as F,
    );
    let generic = Instance::from(inst.clone());
    let mut pr = Problem::from(SPProblem::new(inst, w.width as F, w.cfg));
    let areas: Vec<f64> = w.kit.items.iter().map(|i| signed_area(&i.0).abs()).collect();
    let outer = rect(0.0, 0.0, w.width, w.h);
    let mut pls: Vec<Placed> = vec![];
    for _ in 0..s.count(1, 8, 40, 16) {
        let (p, _) = gen_placed(s, &w.kit, &outer, &pls);
        if pls.contains(&p) || pls.iter().filter(|x| x.0 == p.0).count() >= w.demand[p.0] {
            continue;
        }
        pr.place_item(PlacingOption {
            layout_idx: STRIP_LAYOUT_IDX,
            item_id: p.0,
            d_transf: p.1,
        });
        pls.push(p);
        if s.chance(1, 2) {
            let nw = w.h * s.float(0.5, 4.0);
            sp_of(&mut pr).modify_strip_in_back(nw as F);
            pls = pr.layouts()[0].placed_items().values().map(|pi| (pi.item_id, pi.d_transf)).collect();
        }
        let mut counts = vec![0; w.demand.len()];
        pls.iter().for_each(|p| counts[p.0] += 1);
        let width = sp_of(&mut pr).strip_width() as f64;
        let placed: f64 = pls.iter().map(|p| areas[p.0]).sum();
        let u = placed / (width * w.h);
        let near = |a: f64, b: f64| (a - b).abs() <= 2e-3 * b.abs() + 1e-6;
        if !near(pr.usage() as f64, u) {
            return Err(format!("strip usage {} instead of {u}", pr.usage()));
        }
        let sol = pr.create_solution(None);
        stats(&sol, &generic, &counts, &w.demand, &areas, Some(u), &[&sol.layout_snapshots[0].bin])?;
        c.nontrivial = true;
        c.sample(|| format!("strip {width} x {}, placed {counts:?} of {:?}", w.h, w.demand));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "a query shape overlaps at least one quality zone that its own quality tolerates, or one that it does not tolerate",
            assumptions: &[
                "verdicts are judged only when the shapes are farther apart / deeper overlapping than 1e-3 of the largest coordinate",
            ],
            subs: vec![Sub { name: "quality", quick: 60_000, thorough: 2_000_000, f: c07_quality }],
        },
        Prop {
            id: "C08",
            rule: "the history restores a snapshot after uncommitted removals or a change of bin",
            assumptions: &["no two copies of an item share exactly the same transformation in one layout (the library identifies a placement by item and transformation)"],
            subs: vec![Sub { name: "layout", quick: 36_000, thorough: 800_000, f: c08_layout }],
        },
        Prop {
            id: "C09",
            rule: "the history restores at least one solution and holds more than one layout",
            assumptions: &[
                "solutions are only restored into the problem that created them",
                "no two copies of an item share exactly the same transformation in one layout",
                "layout order after a restore is unspecified",
            ],
            subs: vec![Sub { name: "bp", quick: 36_000, thorough: 800_000, f: c09_bp }],
        },
        Prop {
            id: "C10",
            rule: "the history resizes or fits a strip holding at least one item",
            assumptions: &[
                "items touching the new strip's border within 1e-3 of the largest coordinate may go either way when resizing (never when fitting)",
            ],
            subs: vec![Sub { name: "sp", quick: 45_000, thorough: 1_000_000, f: c10_sp }],
        },
        Prop {
            id: "C21",
            rule: "at least one solution was created and compared",
            assumptions: &["figures are compared with a relative tolerance of 2e-3 (single precision area sums)"],
            subs: vec![
                Sub { name: "bp", quick: 30_000, thorough: 1_500_000, f: c21_bp },
                Sub { name: "sp", quick: 20_000, thorough: 1_000_000, f: c21_sp },
            ],
        },
    ]
}
