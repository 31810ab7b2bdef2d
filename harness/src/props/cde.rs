//! C01..C05: the collision detection engine.

use crate::engine::*;
use crate::gen::*;
use crate::geom::*;
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::geometry::geo_traits::{Transformable, TransformableFrom};
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::util::config::SPSurrogateConfig;
use std::sync::Arc;
use tribool::Tribool;

pub struct Scene {
    pub world: World,
    pub cde: CDEngine,
    /// all registered hazards (static and dynamic) with their exact outline
    pub haz: Vec<(HazardEntity, Poly)>,
    pub shapes: Vec<(Poly, SimplePolygon)>,
    /// hazards that were registered and removed again
    pub gone: Vec<(HazardEntity, Poly)>,
}

/// places a library polygon; returns the library's transformed polygon and the oracle's
pub fn place(p: &Poly, lib: &SimplePolygon, r: f64, t: P) -> (SimplePolygon, Poly, HazardDt) {
    let d = dt(r, t);
    let lp = lib.transform_clone(&d.compose());
    let op = rigid_of(&d).apply_all(p);
    (lp, op, d)
}
pub type HazardDt = jagua_rs::geometry::d_transformation::DTransformation;

pub fn inside_box(p: &[P], cde: &CDEngine, m: f64) -> bool {
    let b = bbox(p);
    let c = cde.bbox();
    b.0 > c.x_min as f64 + m
        && b.1 > c.y_min as f64 + m
        && b.2 < c.x_max as f64 - m
        && b.3 < c.y_max as f64 - m
}

pub fn scene(s: &mut Src, hpg: usize, sur: Option<SPSurrogateConfig>, inside_only: bool) -> Scene {
    let world = world(
        s,
        hpg,
        &WorldOpts {
            contained: inside_only,
            ..Default::default()
        },
    );
    let mut cde = world.bin.base_cde.as_ref().clone();
    let mut haz = world.static_entities();
    let mut gone = vec![];
    let n = s.count(0, 6, 40, 24);
    let nshapes = s.usize(1, 3);
    let mut shapes = vec![];
    for _ in 0..nshapes {
        let mut p = item_poly(s, if n > 6 { 0.4 } else { 1.0 } * world.w);
        if sur.map_or(false, |c| c.n_ff_piers > 0) && s.chance(1, 2) {
            // centred around the centroid, as most items are
            let g = centroid(&p);
            p = moved(&p, -g.0, -g.1);
        }
        let mut lib = sp(&p);
        if let Some(c) = sur {
            lib.generate_surrogate(c);
        }
        shapes.push((p, lib));
    }
    for _ in 0..n {
        let i = s.below(shapes.len() as u64) as usize;
        let targets: Vec<&Poly> = haz.iter().map(|h| &h.1).collect();
        let (r, t) = placement(s, &shapes[i].0, &targets, world.w);
        let (lp, op, d) = place(&shapes[i].0, &shapes[i].1, r, t);
        let e = HazardEntity::PlacedItem { id: i, dt: d };
        if haz.iter().any(|h| h.0 == e) {
            continue;
        }
        if inside_only && !inside_box(&op, &cde, world.margin()) {
            continue;
        }
        cde.register_hazard(Hazard::new(e, Arc::new(lp.clone())));
        if s.chance(1, 5) {
            // placed and taken away again, perhaps with the removal still pending, perhaps put back
            let commit = s.chance(1, 2);
            cde.deregister_hazard(e, commit);
            if s.chance(1, 3) {
                cde.register_hazard(Hazard::new(e, Arc::new(lp)));
            } else {
                gone.push((e, op));
                continue;
            }
        }
        gone.retain(|g: &(HazardEntity, Poly)| g.0 != e);
        haz.push((e, op));
    }
    Scene {
        world,
        cde,
        haz,
        shapes,
        gone,
    }
}

pub fn gen_irrelevant(s: &mut Src, haz: &[(HazardEntity, Poly)]) -> Vec<HazardEntity> {
    let mut irr: Vec<HazardEntity> = match s.weighted(&[4, 3, 1, 1]) {
        0 => vec![],
        1 => haz.iter().filter(|_| s.chance(1, 3)).map(|h| h.0).collect(),
        2 => haz
            .iter()
            .filter(|h| !matches!(h.0, HazardEntity::PlacedItem { .. }))
            .map(|h| h.0)
            .collect(),
        _ => haz.iter().filter(|_| s.chance(2, 3)).map(|h| h.0).collect(),
    };
    if s.chance(1, 3) {
        irr.reverse();
    }
    irr
}

fn any_oracle(
    shape: &[P],
    haz: &[(HazardEntity, Poly)],
    irr: &[HazardEntity],
    m: f64,
    ce: f64,
) -> (Option<bool>, Option<HazardEntity>) {
    let mut unclear = false;
    for (e, h) in haz {
        if irr.contains(e) {
            continue;
        }
        match oracle_hazard(shape, e, h, m, ce) {
            Some(true) => return (Some(true), Some(*e)),
            None => unclear = true,
            Some(false) => {}
        }
    }
    (if unclear { None } else { Some(false) }, None)
}

fn describe(sc: &Scene, q: &[P], irr: &[HazardEntity]) -> String {
    format!(
        "cde depth {} bbox {:?}; query {}; irrelevant {:?}; hazards {}",
        sc.world.cfg.quadtree_depth,
        sc.cde.bbox(),
        fmt_poly(q),
        irr,
        sc.haz
            .iter()
            .map(|(e, p)| format!("{e:?}={}", fmt_poly(p)))
            .collect::<Vec<_>>()
            .join("; ")
    )
}

fn c01_verdict(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sc = scene(s, 0, None, false);
    let nq = s.usize(3, 8);
    for _ in 0..nq {
        let i = s.below(sc.shapes.len() as u64) as usize;
        let targets: Vec<&Poly> = sc.haz.iter().map(|h| &h.1).collect();
        let (r, t) = placement(s, &sc.shapes[i].0, &targets, sc.world.w);
        let irr = gen_irrelevant(s, &sc.haz);
        let (lp, op, _) = place(&sc.shapes[i].0, &sc.shapes[i].1, r, t);
        let l = sc.world.l.max(max_abs(&op));
        let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
        let ext_irr = irr.contains(&HazardEntity::BinExterior);
        if ext_irr && !inside_box(&op, &sc.cde, m) {
            c.label("skip:outside-box");
            continue;
        }
        let (exp, culprit) = any_oracle(&op, &sc.haz, &irr, m, ce);
        let got = sc.cde.poly_collides(&lp, &irr);
        c.sample(|| describe(&sc, &op, &irr));
        match exp {
            None => c.label("tolerance-band"),
            Some(e) => {
                c.label(if e { "collides" } else { "free" });
                if e {
                    let kind = match culprit.unwrap() {
                        HazardEntity::BinExterior => "hit:exterior",
                        HazardEntity::BinHole { .. } => "hit:hole",
                        HazardEntity::InferiorQualityZone { .. } => "hit:zone",
                        HazardEntity::PlacedItem { .. } => "hit:item",
                    };
                    c.label(kind);
                }
                c.nontrivial = true;
                if e != got {
                    return Err(format!(
                        "poly_collides = {got}, exact geometry says {e} (culprit {culprit:?}); {}",
                        describe(&sc, &op, &irr)
                    ));
                }
            }
        }
    }
    Ok(())
}

/// nested and tightly interlocked pairs: one hazard, one query, all containment relations
fn c01_nested(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = scale_w(s);
    let cfg = cde_cfg(s, 0);
    let off = if s.chance(1, 2) {
        (s.sym(2.0 * w), s.sym(2.0 * w))
    } else {
        (0.0, 0.0)
    };
    // bin is much larger than the shapes, so that only the hazard matters
    let outer = moved(&rect(0.0, 0.0, 3.0 * w, 3.0 * w), off.0, off.1);
    let wd = make_world(3.0 * w, cfg, 0, outer, vec![], vec![], 1);
    let mut cde = wd.bin.base_cde.as_ref().clone();
    let ctr = (off.0 + s.float(1.0, 2.0) * w, off.1 + s.float(1.0, 2.0) * w);
    let h = shape(s, w);
    let h = moved(&h, ctr.0, ctr.1);
    let e = HazardEntity::PlacedItem {
        id: 0,
        dt: dt(0.0, (0.0, 0.0)),
    };
    cde.register_hazard(Hazard::new(e, Arc::new(sp(&h))));
    let sc = Scene {
        haz: vec![
            (HazardEntity::BinExterior, wd.outer.clone()),
            (e, h.clone()),
        ],
        world: wd,
        cde,
        shapes: vec![],
            gone: vec![],
    };
    for _ in 0..s.usize(2, 6) {
        let size = *s.pick(&[0.1, 0.3, 0.5, 0.9, 1.1, 1.6]) * w;
        let q0 = shape(s, size);
        let lib = sp(&q0);
        let targets = vec![&h];
        let (r, t) = match s.weighted(&[2, 3]) {
            0 => placement(s, &q0, &targets, w),
            _ => {
                let r = rotation(s);
                let q = Rigid { r, t: (0., 0.) }.apply_all(&q0);
                let cq = centroid(&q);
                (
                    rf(r),
                    rp((ctr.0 - cq.0 + s.sym(0.3 * w), ctr.1 - cq.1 + s.sym(0.3 * w))),
                )
            }
        };
        let (lp, op, _) = place(&q0, &lib, r, t);
        let l = sc.world.l.max(max_abs(&op));
        let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
        let rel = classify(&op, &h, m, ce);
        let (exp, _) = any_oracle(&op, &sc.haz, &[], m, ce);
        c.label(&format!("rel:{rel:?}"));
        c.sample(|| describe(&sc, &op, &[]));
        if let Some(x) = exp {
            c.nontrivial = true;
            let got = sc.cde.poly_collides(&lp, &[]);
            if got != x {
                return Err(format!(
                    "poly_collides = {got}, exact says {x} ({rel:?}); {}",
                    describe(&sc, &op, &[])
                ));
            }
        }
    }
    Ok(())
}

/// a bin with one labyrinth registered as placed item, hole or as the bin outline itself, and the
/// interlocked counterpart as query (roles swapped at random)
pub fn maze_scene(s: &mut Src) -> (Scene, Poly, SimplePolygon, Poly, bool) {
    let w = scale_w(s);
    let cfg = cde_cfg(s, 0);
    let (a, b, inside) = maze_pair(s, w);
    let off = if s.chance(1, 2) {
        (s.sym(2.0 * w), s.sym(2.0 * w))
    } else {
        (0.0, 0.0)
    };
    let quarter = s.below(4) as f64;
    let turn = if s.chance(1, 3) { s.float(0.0, 2.0 * std::f64::consts::PI) } else { quarter * std::f64::consts::FRAC_PI_2 };
    let fin = |p: &Poly, s: &mut Src| {
        let mut p = rpoly(Rigid { r: turn, t: off }.apply_all(p));
        if s.chance(1, 3) {
            p.reverse();
        }
        let k = s.below(p.len() as u64) as usize;
        p.rotate_left(k);
        p
    };
    let (a, b) = (fin(&a, s), fin(&b, s));
    let (h, q) = if s.chance(1, 3) { (b, a) } else { (a, b) };
    let e = HazardEntity::PlacedItem {
        id: 0,
        dt: dt(0.0, (0.0, 0.0)),
    };
    let bb = bbox(&h);
    let bq = bbox(&q);
    let pad = s.float(0.01, 1.0) * w;
    let outer = rpoly(rect(
        bb.0.min(bq.0) - pad,
        bb.1.min(bq.1) - pad * s.float(0.1, 1.0),
        bb.2.max(bq.2) + pad * s.float(0.1, 1.0),
        bb.3.max(bq.3) + pad * s.float(0.1, 1.0),
    ));
    let (wd, haz) = match s.weighted(&[3, 1, 1, 2]) {
        0 => {
            let wd = make_world(w, cfg, 0, outer, vec![], vec![], 1);
            (wd, Some(e))
        }
        1 => (make_world(w, cfg, 0, outer, vec![h.clone()], vec![], 1), None),
        2 => (make_world(w, cfg, 0, outer, vec![], vec![(2, 0, h.clone())], 1), None),
        _ => (make_world(w, cfg, 0, h.clone(), vec![], vec![], 1), None),
    };
    let mut cde = wd.bin.base_cde.as_ref().clone();
    let mut all = wd.static_entities();
    if let Some(e) = haz {
        cde.register_hazard(Hazard::new(e, Arc::new(sp(&h))));
        all.push((e, h.clone()));
    }
    let t = if s.chance(1, 3) {
        rp((s.sym(0.15 * w), s.sym(0.15 * w)))
    } else {
        (0.0, 0.0)
    };
    let lib = sp(&q);
    let (lp, op, _) = place(&q, &lib, 0.0, t);
    (
        Scene {
            haz: all,
            world: wd,
            cde,
            shapes: vec![],
            gone: vec![],
        },
        h,
        lp,
        op,
        inside,
    )
}

fn c01_maze(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (sc, h, lp, op, _) = maze_scene(s);
    let l = sc.world.l.max(max_abs(&op));
    let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
    let rel = classify(&op, &h, m, ce);
    c.label(&format!("rel:{rel:?}"));
    let (exp, culprit) = any_oracle(&op, &sc.haz, &[], m, ce);
    c.sample(|| describe(&sc, &op, &[]));
    if let Some(x) = exp {
        let ctr = centroid(&op);
        if pip(ctr, &h) != matches!(rel, Rel::AInB | Rel::BInA) {
            c.label("misleading-centroid");
        }
        c.nontrivial = true;
        let got = sc.cde.poly_collides(&lp, &[]);
        if got != x {
            return Err(format!(
                "poly_collides = {got}, exact says {x} ({rel:?}, culprit {culprit:?}); {}",
                describe(&sc, &op, &[])
            ));
        }
    }
    Ok(())
}

fn c03_maze(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (sc, h, lp, op, _) = maze_scene(s);
    let l = sc.world.l.max(max_abs(&op));
    let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
    if !inside_box(&op, &sc.cde, m) {
        c.label("skip:outside-box");
        return Ok(());
    }
    c.label(&format!("rel:{:?}", classify(&op, &h, m, ce)));
    c.sample(|| describe(&sc, &op, &[]));
    let mut det = vec![];
    sc.cde.collect_poly_collisions(&lp, &[], &mut det);
    for (e, h) in &sc.haz {
        if let Some(x) = oracle_hazard(&op, e, h, m, ce) {
            c.nontrivial = true;
            let n = det.iter().filter(|d| *d == e).count();
            if n != x as usize {
                return Err(format!(
                    "collected {det:?}: {e:?} reported {n} times but exact says {x}; {}",
                    describe(&sc, &op, &[])
                ));
            }
        }
    }
    Ok(())
}

fn sur_cfg(s: &mut Src, piers: bool) -> SPSurrogateConfig {
    SPSurrogateConfig {
        pole_coverage_goal: s.float(0.0, 0.98) as F,
        max_poles: s.count(1, 8, 30, 16),
        n_ff_poles: s.count(0, 6, 20, 12),
        n_ff_piers: if piers { s.count(1, 3, 8, 10) } else { 0 },
    }
}

/// every pole lies inside the polygon, every pier lies inside the polygon
/// the library decides "centre inside" with a tolerance of about 3.5e-4 of the coordinates, so a
/// minuscule pole can end up just outside a shape with many vertices
fn tiny_pole(base: &Poly) -> f64 {
    5e-4 * max_abs(base)
}
fn stray_pole(p: &Poly, lib: &SimplePolygon) -> bool {
    lib.surrogate().poles.iter().any(|pole| {
        let q = un(&pole.center);
        let d = pt_boundary(q, p);
        let r = pole.radius as f64;
        r.max(d) <= tiny_pole(p) && (!pip(q, p) || r > d)
    })
}
fn surrogate_inside(p: &Poly, lib: &SimplePolygon, m: f64, tiny: f64) -> Result<(), String> {
    let sur = lib.surrogate();
    for (i, pole) in sur.poles.iter().enumerate() {
        let q = un(&pole.center);
        let d = pt_boundary(q, p);
        let r = pole.radius as f64;
        let tol = 256.0 * F::EPSILON as f64 * max_abs(p);
        if r.max(d) <= tiny {
            continue;
        }
        if !pip(q, p) && d > tol {
            return Err(format!("pole {i} centre {q:?} outside {}", fmt_poly(p)));
        }
        if r > d + tol {
            return Err(format!(
                "pole {i} at {q:?} radius {r} sticks out of the shape (boundary at {d}) {}",
                fmt_poly(p)
            ));
        }
        let bc = &sur.poles_bounding_circle;
        let dd = dist(un(&bc.center), q) + r;
        if dd > bc.radius as f64 + m {
            return Err(format!(
                "pole {i} ({q:?}, r {r}) not inside the poles' bounding circle ({:?}, r {})",
                bc.center, bc.radius
            ));
        }
    }
    for (i, pier) in sur.piers.iter().enumerate() {
        let (a, b) = (un(&pier.start), un(&pier.end));
        for k in 0..=64 {
            let u = k as f64 / 64.0;
            let q = (a.0 + u * (b.0 - a.0), a.1 + u * (b.1 - a.1));
            if !pip(q, p) && pt_boundary(q, p) > m {
                return Err(format!(
                    "pier {i} {a:?}-{b:?} leaves the shape at {q:?} {}",
                    fmt_poly(p)
                ));
            }
        }
    }
    Ok(())
}

fn c02_queries(s: &mut Src, c: &mut Ctx, piers: bool) -> Result<(), String> {
    let cfg = sur_cfg(s, piers);
    let sc = scene(s, 0, Some(cfg), false);
    for (p, lib) in &sc.shapes {
        surrogate_inside(p, lib, REL_MARGIN * max_abs(p), tiny_pole(p))?;
    }
    if sc.shapes.iter().any(|(p, lib)| stray_pole(p, lib)) {
        c.label("skip:stray-tiny-pole");
        return Ok(());
    }
    let nq = s.usize(4, 10);
    let mut buffers: Vec<SimplePolygon> = sc.shapes.iter().map(|x| x.1.clone()).collect();
    for _ in 0..nq {
        let i = s.below(sc.shapes.len() as u64) as usize;
        let targets: Vec<&Poly> = sc.haz.iter().map(|h| &h.1).collect();
        let (r, t) = placement(s, &sc.shapes[i].0, &targets, sc.world.w);
        let irr = gen_irrelevant(s, &sc.haz);
        let (p, lib) = &sc.shapes[i];
        let (lp, op, d) = place(p, lib, r, t);
        let tr = d.compose();
        let l = sc.world.l.max(max_abs(&op));
        let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
        let (exp, _) = any_oracle(&op, &sc.haz, &irr, m, ce);
        let ext_irr = irr.contains(&HazardEntity::BinExterior);
        let in_box = inside_box(&op, &sc.cde, m);
        let surrogate = sc.cde.surrogate_collides(lib.surrogate(), &tr, &irr);
        let full = sc.cde.poly_collides(&lp, &irr);
        let both = sc
            .cde
            .surrogate_or_poly_collides(lib, &tr, &mut buffers[i], &irr);
        c.sample(|| describe(&sc, &op, &irr));
        if both != (surrogate || full) {
            return Err(format!(
                "combined check = {both}, surrogate = {surrogate}, full = {full}; {}",
                describe(&sc, &op, &irr)
            ));
        }
        if surrogate {
            c.label("surrogate-hit");
        } else if full {
            c.label("full-only-hit");
        } else {
            c.label("free");
        }
        match exp {
            Some(e) => {
                c.nontrivial = true;
                if surrogate && !e {
                    return Err(format!(
                        "surrogate reports a collision, exact geometry says free; {}",
                        describe(&sc, &op, &irr)
                    ));
                }
                if (!ext_irr || in_box) && both != e {
                    return Err(format!(
                        "surrogate_or_poly_collides = {both}, exact says {e}; {}",
                        describe(&sc, &op, &irr)
                    ));
                }
                // fail-fast hits must be confirmed by the full check
                if surrogate && !full {
                    return Err(format!(
                        "surrogate hit is not confirmed by the full check; {}",
                        describe(&sc, &op, &irr)
                    ));
                }
            }
            None => c.label("tolerance-band"),
        }
        // collecting version: everything the surrogate collects really collides
        let mut det = vec![];
        sc.cde
            .collect_surrogate_collisions(lib.surrogate(), &tr, &irr, &mut det);
        for e in &det {
            if irr.contains(e) {
                return Err(format!("collected irrelevant hazard {e:?}"));
            }
            let h = sc.haz.iter().find(|h| h.0 == *e);
            match h {
                None => return Err(format!("collected unknown hazard {e:?}")),
                Some((e, h)) => {
                    if oracle_hazard(&op, e, h, m, ce) == Some(false) {
                        return Err(format!(
                            "surrogate collected {e:?} which does not collide; {}",
                            describe(&sc, &op, &irr)
                        ));
                    }
                }
            }
        }
        if surrogate == det.is_empty() {
            return Err(format!(
                "surrogate_collides = {surrogate} but collected {det:?}; {}",
                describe(&sc, &op, &irr)
            ));
        }
        // surrogate must be transformed together with the polygon
        surrogate_inside(&op, &lp, m, tiny_pole(p))?;
        let mut buf = lib.clone();
        buf.transform_from(lib, &tr);
        surrogate_inside(&op, &buf, m, tiny_pole(p))?;
    }
    Ok(())
}
pub fn c02_poles(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c02_queries(s, c, false)
}
pub fn c02_piers(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c02_queries(s, c, true)
}
/// exact collected set; each pole/pier of the surrogate against the exact hazards
fn c02_collect(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut cfg = sur_cfg(s, false);
    cfg.n_ff_poles = s.usize(1, 6);
    let sc = scene(s, 0, Some(cfg), true);
    for _ in 0..s.usize(3, 8) {
        let i = s.below(sc.shapes.len() as u64) as usize;
        let targets: Vec<&Poly> = sc.haz.iter().map(|h| &h.1).collect();
        let (r, t) = placement(s, &sc.shapes[i].0, &targets, sc.world.w);
        let (p, lib) = &sc.shapes[i];
        let (_, op, d) = place(p, lib, r, t);
        if !inside_box(&op, &sc.cde, 0.0) {
            c.label("skip:outside-box");
            continue;
        }
        let rg = rigid_of(&d);
        let irr = gen_irrelevant(s, &sc.haz);
        let m = REL_MARGIN * sc.world.l.max(max_abs(&op));
        let mut det = vec![];
        sc.cde
            .collect_surrogate_collisions(lib.surrogate(), &d.compose(), &irr, &mut det);
        let sur = lib.surrogate();
        if sur.ff_poles().len() != cfg.n_ff_poles.min(sur.poles.len()) {
            return Err("unexpected number of fail-fast poles".into());
        }
        for (e, h) in &sc.haz {
            let ext = matches!(e, HazardEntity::BinExterior);
            let mut hit = Some(false);
            for pole in sur.ff_poles() {
                let q = rg.apply(un(&pole.center));
                let inside = pip(q, h) != ext;
                let b = pt_boundary(q, h);
                let r = pole.radius as f64;
                // The pole is guaranteed to be found once it reaches the hazard's boundary; a pole
                // swallowed whole may be (it depends on the quadtree resolution), and a pole that
                // stays clear may not.
                if b < r - m {
                    hit = Some(true);
                    break;
                }
                if inside || b <= r + m {
                    hit = None;
                }
            }
            let hit = if irr.contains(e) { Some(false) } else { hit };
            if let Some(x) = hit {
                c.nontrivial = true;
                c.label(if x { "hit" } else { "miss" });
                if det.contains(e) != x {
                    return Err(format!(
                        "surrogate collection {det:?}: {e:?} should be {x}; {}",
                        describe(&sc, &op, &irr)
                    ));
                }
            } else {
                c.label("tolerance-band");
            }
        }
    }
    Ok(())
}

fn c03_collect(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sc = scene(s, 0, None, true);
    for _ in 0..s.usize(3, 8) {
        let i = s.below(sc.shapes.len() as u64) as usize;
        let targets: Vec<&Poly> = sc.haz.iter().map(|h| &h.1).collect();
        let (r, t) = placement(s, &sc.shapes[i].0, &targets, sc.world.w);
        let irr = gen_irrelevant(s, &sc.haz);
        let pre: Vec<HazardEntity> = if s.chance(1, 3) {
            sc.haz
                .iter()
                .filter(|h| s.chance(if irr.contains(&h.0) { 1 } else { 2 }, 6))
                .map(|h| h.0)
                .collect()
        } else {
            vec![]
        };
        let (lp, op, _) = place(&sc.shapes[i].0, &sc.shapes[i].1, r, t);
        let l = sc.world.l.max(max_abs(&op));
        let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
        let mut det = pre.clone();
        sc.cde.collect_poly_collisions(&lp, &irr, &mut det);
        c.sample(|| describe(&sc, &op, &irr));
        if det.len() < pre.len() || det[..pre.len()] != pre[..] {
            return Err(format!("buffer contents changed: {pre:?} -> {det:?}"));
        }
        let new = &det[pre.len()..];
        let mut hits = 0;
        for (e, h) in &sc.haz {
            let n = new.iter().filter(|x| *x == e).count();
            if n > 1 {
                return Err(format!("{e:?} reported {n} times"));
            }
            if irr.contains(e) || pre.contains(e) {
                if n != 0 {
                    return Err(format!(
                        "{e:?} was irrelevant or already in the buffer but was reported; {}",
                        describe(&sc, &op, &irr)
                    ));
                }
                continue;
            }
            match oracle_hazard(&op, e, h, m, ce) {
                None => c.label("tolerance-band"),
                Some(x) => {
                    hits += x as usize;
                    c.label(if x { "member" } else { "non-member" });
                    if (n == 1) != x {
                        return Err(format!(
                            "collected {new:?}: {e:?} reported={} but exact says {x}; pre {pre:?}; {}",
                            n == 1,
                            describe(&sc, &op, &irr)
                        ));
                    }
                }
            }
        }
        for e in new {
            if !sc.haz.iter().any(|h| h.0 == *e) {
                return Err(format!("reported unregistered hazard {e:?}"));
            }
        }
        if hits >= 2 {
            c.nontrivial = true;
            c.label("multi-collision");
        }
    }
    Ok(())
}

/// hazards_within for edges and circles: exact set of hazards touched by the primitive
fn c03_within(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sc = scene(s, 0, None, true);
    let l = sc.world.l;
    let m = REL_MARGIN * l;
    let b = sc.cde.bbox();
    let (x0, x1, y0, y1) = (b.x_min as f64, b.x_max as f64, b.y_min as f64, b.y_max as f64);
    for _ in 0..s.usize(3, 10) {
        let irr = gen_irrelevant(s, &sc.haz);
        if s.chance(1, 6) {
            // a primitive clear of the bounding square: nothing but the exterior is there
            let (w, h) = (x1 - x0, y1 - y0);
            let r = s.float(0.01, 0.3) * w;
            let far = |s: &mut Src| r + s.float(0.01, 1.0) * w;
            let q = match s.below(4) {
                0 => (x0 - far(s), y0 + s.float(-0.5, 1.5) * h),
                1 => (x1 + far(s), y0 + s.float(-0.5, 1.5) * h),
                2 => (x0 + s.float(-0.5, 1.5) * w, y0 - far(s)),
                _ => (x0 + s.float(-0.5, 1.5) * w, y1 + far(s)),
            };
            let mut det = vec![];
            let what = if s.chance(1, 2) {
                let ang = s.float(0.0, 6.28);
                let z = (q.0 + r * ang.cos(), q.1 + r * ang.sin());
                sc.cde.hazards_within(&Edge::new(pt(q), pt(z)), &irr, &mut det);
                format!("edge {q:?}-{z:?}")
            } else {
                sc.cde.hazards_within(&Circle::new(pt(q), r as F), &irr, &mut det);
                format!("circle {q:?} r {r}")
            };
            let mut exp = vec![HazardEntity::BinExterior];
            exp.retain(|e| !irr.contains(e));
            c.label("outside-box");
            if det != exp {
                return Err(format!(
                    "hazards_within({what}) = {det:?} outside the engine's square, expected {exp:?}; irrelevant {irr:?}; {}",
                    describe(&sc, &[q], &irr)
                ));
            }
            continue;
        }
        let a = rp((s.float(x0, x1), s.float(y0, y1)));
        let is_edge = s.chance(1, 2);
        let mut det = vec![];
        // Some((touches, reaches the boundary)) per hazard
        type V = Option<(bool, bool)>;
        let verdict: Box<dyn Fn(&HazardEntity, &Poly) -> V>;
        let desc;
        if is_edge {
            let z = rp((s.float(x0, x1), s.float(y0, y1)));
            if a == z {
                continue;
            }
            desc = format!("edge {a:?}-{z:?}");
            sc.cde
                .hazards_within(&Edge::new(pt(a), pt(z)), &irr, &mut det);
            verdict = Box::new(move |e, h| {
                let ext = matches!(e, HazardEntity::BinExterior);
                let mut d = f64::MAX;
                for (p, q) in edges(h) {
                    if seg_cross_robust(a, z, p, q, REL_CROSS * l) {
                        return Some((true, true));
                    }
                    d = d.min(seg_seg_dist(a, z, p, q));
                }
                if d <= m {
                    return None;
                }
                Some((pip(a, h) != ext, false))
            });
        } else {
            let r = rf(*s.pick(&[0.02, 0.1, 0.3]) * sc.world.w * s.float(0.5, 1.0));
            desc = format!("circle {a:?} r {r}");
            sc.cde
                .hazards_within(&Circle::new(pt(a), r as F), &irr, &mut det);
            verdict = Box::new(move |e, h| {
                let ext = matches!(e, HazardEntity::BinExterior);
                let d = pt_boundary(a, h);
                if d <= m || (d - r).abs() <= m {
                    return None;
                }
                if d < r {
                    return Some((true, true));
                }
                Some((pip(a, h) != ext, false))
            });
        }
        c.sample(|| format!("{desc}; {}", describe(&sc, &[a], &irr)));
        for (e, h) in &sc.haz {
            let got = det.contains(e);
            if det.iter().filter(|x| *x == e).count() > 1 {
                return Err(format!("{desc}: {e:?} reported twice"));
            }
            if irr.contains(e) {
                if got {
                    return Err(format!("{desc}: irrelevant {e:?} reported"));
                }
                continue;
            }
            if let Some((touch, boundary)) = verdict(e, h) {
                c.nontrivial = true;
                c.label(match (touch, boundary) {
                    (true, true) => "reaches-boundary",
                    (true, false) => "swallowed",
                    _ => "clear",
                });
                // A primitive swallowed by a hazard inside leaf nodes the hazard only partially
                // covers cannot be seen by this query, so membership is only required once the
                // primitive reaches the boundary.
                if (got && !touch) || (!got && boundary) {
                    return Err(format!(
                        "hazards_within({desc}) = {det:?}: {e:?} reported={got}, exact touch={touch} boundary={boundary}; {}",
                        describe(&sc, &[a], &irr)
                    ));
                }
            }
        }
    }
    Ok(())
}


fn c04_definite(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sc = scene(s, 0, None, true);
    let l = sc.world.l;
    let m = REL_MARGIN * l;
    let b = sc.cde.bbox();
    let (x0, x1, y0, y1) = (b.x_min as f64, b.x_max as f64, b.y_min as f64, b.y_max as f64);
    let w = x1 - x0;
    let diag = w / 2f64.powi(sc.world.cfg.quadtree_depth as i32) * 2f64.sqrt();
    let inside = |p: P| p.0 > x0 + m && p.0 < x1 - m && p.1 > y0 + m && p.1 < y1 - m;
    let outside = |p: P| p.0 < x0 - m || p.0 > x1 + m || p.1 < y0 - m || p.1 > y1 + m;
    for _ in 0..s.usize(4, 16) {
        let point = |s: &mut Src| {
            if s.chance(1, 8) {
                rp((s.float(x0 - w, x1 + w), s.float(y0 - w, y1 + w)))
            } else if s.chance(1, 2) {
                let h = &sc.haz[s.below(sc.haz.len() as u64) as usize].1;
                let i = s.below(h.len() as u64) as usize;
                let e = *s.pick(&[0.01, 0.05, 0.2]) * w;
                rp((h[i].0 + s.sym(e), h[i].1 + s.sym(e)))
            } else {
                rp((s.float(x0, x1), s.float(y0, y1)))
            }
        };
        let irr = gen_irrelevant(s, &sc.haz);
        let a = point(s);
        if !inside(a) && !outside(a) {
            continue;
        }
        c.sample(|| describe(&sc, &[a], &irr));
        match s.below(3) {
            0 => {
                // point against one hazard
                if !sc.gone.is_empty() && s.chance(1, 3) {
                    let (e, h) = &sc.gone[s.below(sc.gone.len() as u64) as usize];
                    let a = if s.chance(3, 4) { rp(point_in(s, h)) } else { a };
                    c.label("point-removed");
                    if matches!(sc.cde.point_definitely_collides_with(&pt(a), *e), Tribool::True) {
                        return Err(format!("point {a:?} definitely collides with {e:?}, which was removed; {}", describe(&sc, &[a], &[])));
                    }
                    continue;
                }
                let (e, h) = &sc.haz[s.below(sc.haz.len() as u64) as usize];
                let got = sc.cde.point_definitely_collides_with(&pt(a), *e);
                if outside(a) {
                    if !matches!(got, Tribool::Indeterminate) {
                        return Err(format!("point {a:?} outside the engine's box: {got:?}, expected no information"));
                    }
                    c.label("point-outside");
                    continue;
                }
                let d = pt_boundary(a, h);
                if d <= m {
                    c.label("tolerance-band");
                    continue;
                }
                let ext = matches!(e, HazardEntity::BinExterior);
                let truth = pip(a, h) != ext;
                c.nontrivial = true;
                match got {
                    Tribool::Indeterminate => {
                        c.label("point-undecided");
                        if d > diag + m {
                            return Err(format!("point {a:?} vs {e:?}: undecided although {d} away from its boundary (finest cell diagonal {diag}); {}", describe(&sc, &[a], &[])));
                        }
                    }
                    t => {
                        c.label(if t == Tribool::True { "point-true" } else { "point-false" });
                        if (t == Tribool::True) != truth {
                            return Err(format!("point {a:?} vs {e:?}: answered {t:?}, exact {truth}; {}", describe(&sc, &[a], &[])));
                        }
                    }
                }
            }
            k => {
                let is_edge = k == 1;
                let z = point(s);
                let r = rf(*s.pick(&[0.02, 0.1, 0.3]) * w * s.float(0.5, 1.0));
                let (got, desc, forced) = if is_edge {
                    if a == z || (!inside(z) && !outside(z)) {
                        continue;
                    }
                    (
                        sc.cde.edge_definitely_collides(&Edge::new(pt(a), pt(z)), &irr),
                        format!("edge {a:?}-{z:?}"),
                        outside(a) || outside(z),
                    )
                } else {
                    (
                        sc.cde.circle_definitely_collides(&Circle::new(pt(a), r as F), &irr),
                        format!("circle {a:?} r {r}"),
                        outside(a),
                    )
                };
                if forced {
                    c.label("outside-forced");
                    if !matches!(got, Tribool::True) {
                        return Err(format!("{desc} leaves the engine's box: {got:?}"));
                    }
                    continue;
                }
                // exact verdict over all relevant hazards
                let mut truth = Some(false);
                let mut dmin = f64::MAX;
                for (e, h) in sc.haz.iter().filter(|h| !irr.contains(&h.0)) {
                    let ext = matches!(e, HazardEntity::BinExterior);
                    let mut d = f64::MAX;
                    let mut crossing = false;
                    for (p, q) in edges(h) {
                        if is_edge {
                            crossing |= seg_cross_robust(a, z, p, q, REL_CROSS * l);
                            d = d.min(seg_seg_dist(a, z, p, q));
                        } else {
                            d = d.min(pt_seg(a, p, q));
                        }
                    }
                    if !is_edge {
                        crossing = d < r - m;
                        d = (d - r).max(0.0);
                    }
                    dmin = dmin.min(d);
                    if crossing || (d > m && pip(a, h) != ext) {
                        truth = Some(true);
                    } else if d <= m && truth == Some(false) {
                        truth = None;
                    }
                }
                let Some(truth) = truth else {
                    c.label("tolerance-band");
                    continue;
                };
                c.nontrivial = true;
                match got {
                    Tribool::Indeterminate => {
                        c.label("undecided");
                        if dmin > diag + m {
                            return Err(format!("{desc}: undecided although {dmin} away from all boundaries; {}", describe(&sc, &[a], &irr)));
                        }
                    }
                    t => {
                        c.label(if t == Tribool::True { "true" } else { "false" });
                        if (t == Tribool::True) != truth {
                            return Err(format!("{desc}: answered {t:?}, exact {truth}; {}", describe(&sc, &[a], &irr)));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

type ModelHaz = Vec<(HazardEntity, Arc<SimplePolygon>)>;

/// C05: any history of registrations, (un)committed removals, commits, flushes, snapshots and
/// restores leaves an engine that answers exactly like one built from scratch.
pub fn c05_history(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let hpg = if s.chance(1, 4) { s.usize(1, 40) } else { 0 };
    let world = world(s, hpg, &WorldOpts::default());
    let base = world.bin.base_cde.clone();
    let mut cde = base.as_ref().clone();
    let mut shapes = vec![];
    for _ in 0..s.usize(1, 3) {
        let p = item_poly(s, world.w);
        let mut lib = sp(&p);
        lib.generate_surrogate(cheap_surrogate(s));
        shapes.push((p, lib));
    }
    // a pool of placements; entities are identified by shape and placement
    let outer = world.outer.clone();
    let mut pool: Vec<(HazardEntity, Arc<SimplePolygon>, Poly)> = vec![];
    for _ in 0..s.usize(2, 8) {
        let i = s.below(shapes.len() as u64) as usize;
        let mut targets: Vec<&Poly> = vec![&outer];
        targets.extend(pool.iter().map(|p| &p.2));
        let (r, t) = placement(s, &shapes[i].0, &targets, world.w);
        let (lp, op, d) = place(&shapes[i].0, &shapes[i].1, r, t);
        let e = HazardEntity::PlacedItem { id: i, dt: d };
        if !pool.iter().any(|p| p.0 == e) {
            pool.push((e, Arc::new(lp), op));
        }
    }
    let mut model: ModelHaz = vec![];
    let mut pending = false; // uncommitted removals
    let mut snaps = vec![];
    let mut log: Vec<String> = vec![];
    let nops = s.count(2, 14, 80, 24);
    let (mut n_unc, mut n_rest, mut n_react) = (0, 0, 0);
    let mut unc: Vec<HazardEntity> = vec![];
    for _ in 0..nops {
        let absent: Vec<_> = pool
            .iter()
            .filter(|p| !model.iter().any(|m| m.0 == p.0))
            .collect();
        match s.weighted(&[6, 5, 1, 1, 2, 3]) {
            0 if !absent.is_empty() => {
                let p = absent[s.below(absent.len() as u64) as usize];
                if unc.contains(&p.0) {
                    n_react += 1;
                    unc.retain(|e| *e != p.0);
                }
                log.push(format!("register {:?}", p.0));
                cde.register_hazard(Hazard::new(p.0, p.1.clone()));
                model.push((p.0, p.1.clone()));
            }
            1 if !model.is_empty() => {
                let i = s.below(model.len() as u64) as usize;
                let commit = s.chance(1, 2);
                let (e, _) = model.remove(i);
                log.push(format!("deregister commit={commit} {e:?}"));
                cde.deregister_hazard(e, commit);
                if !commit {
                    unc.push(e);
                    pending = true;
                    n_unc += 1;
                }
            }
            2 => {
                log.push("commit".into());
                cde.commit_deregisters();
                unc.clear();
                pending = false;
            }
            3 => {
                log.push("flush".into());
                cde.flush_haz_prox_grid();
            }
            4 => {
                log.push("snapshot".into());
                let sn = cde.create_snapshot();
                unc.clear();
                pending = false;
                snaps.push((sn, model.clone()));
            }
            5 if !snaps.is_empty() => {
                let i = s.below(snaps.len() as u64) as usize;
                log.push(format!("restore {i}"));
                cde.restore(&snaps[i].0);
                model = snaps[i].1.clone();
                unc.clear();
                pending = false;
                n_rest += 1;
            }
            _ => continue,
        }
        let _ = pending;
        if cde.has_uncommitted_deregisters() != !unc.is_empty() {
            return Err(format!(
                "has_uncommitted_deregisters = {}, expected {}; history {log:?}",
                cde.has_uncommitted_deregisters(),
                !unc.is_empty()
            ));
        }
        check_against_fresh(s, c, &cde, &base, &model, &pool, &shapes, &world, &log)?;
    }
    if n_unc > 0 && (n_rest > 0 || n_react > 0) {
        c.nontrivial = true;
    }
    if n_rest > 0 {
        c.label("with-restore");
    }
    if n_react > 0 {
        c.label("with-reactivation");
    }
    c.sample(|| format!("{log:?}"));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_against_fresh(
    s: &mut Src,
    c: &mut Ctx,
    cde: &CDEngine,
    base: &CDEngine,
    model: &ModelHaz,
    pool: &[(HazardEntity, Arc<SimplePolygon>, Poly)],
    shapes: &[(Poly, SimplePolygon)],
    world: &World,
    log: &[String],
) -> Result<(), String> {
    let dynh = cde.dynamic_hazards();
    if dynh.len() != model.len()
        || !model
            .iter()
            .all(|m| dynh.iter().any(|h| h.entity == m.0 && h.shape.points == m.1.points && h.active))
    {
        return Err(format!(
            "registered hazards {:?} differ from the history's {:?}; {log:?}",
            dynh.iter().map(|h| h.entity).collect::<Vec<_>>(),
            model.iter().map(|h| h.0).collect::<Vec<_>>()
        ));
    }
    let mut fresh = base.clone();
    for (e, sh) in model {
        fresh.register_hazard(Hazard::new(*e, sh.clone()));
    }
    let all: Vec<HazardEntity> = fresh.all_hazards().map(|h| h.entity).collect();
    // queries: all pool members and a few new placements
    let mut queries: Vec<SimplePolygon> = vec![];
    for _ in 0..3 {
        let i = s.below(shapes.len() as u64) as usize;
        let mut targets: Vec<&Poly> = vec![&world.outer];
        targets.extend(pool.iter().map(|p| &p.2));
        let (r, t) = placement(s, &shapes[i].0, &targets, world.w);
        queries.push(place(&shapes[i].0, &shapes[i].1, r, t).0);
    }
    queries.push(pool[s.below(pool.len() as u64) as usize].1.as_ref().clone());
    for q in &queries {
        let irr: Vec<HazardEntity> = match s.below(3) {
            0 => vec![],
            1 => all.iter().filter(|_| s.chance(1, 3)).copied().collect(),
            _ => all
                .iter()
                .filter(|e| !matches!(e, HazardEntity::PlacedItem { .. }))
                .copied()
                .collect(),
        };
        let (a, b) = (cde.poly_collides(q, &irr), fresh.poly_collides(q, &irr));
        c.label(if b { "q:collides" } else { "q:free" });
        if a != b {
            return Err(format!(
                "poly_collides = {a} after history, {b} on a fresh engine; query {} irr {irr:?}; history {log:?}",
                fmt_poly(&unsp(q))
            ));
        }
        let mut da = vec![];
        let mut db = vec![];
        cde.collect_poly_collisions(q, &irr, &mut da);
        fresh.collect_poly_collisions(q, &irr, &mut db);
        let key = |e: &HazardEntity| format!("{e:?}");
        let (mut ka, mut kb): (Vec<_>, Vec<_>) = (
            da.iter().map(key).collect(),
            db.iter().map(key).collect(),
        );
        ka.sort();
        kb.sort();
        if ka != kb {
            return Err(format!("collected {ka:?} after history, {kb:?} on a fresh engine; query {} irr {irr:?}; history {log:?}", fmt_poly(&unsp(q))));
        }
        let empty = HazardDt::empty().compose();
        if let Some(su) = q.surrogate.as_ref() {
            let (a, b) = (
                cde.surrogate_collides(su, &empty, &irr),
                fresh.surrogate_collides(su, &empty, &irr),
            );
            if a != b {
                return Err(format!("surrogate_collides = {a} after history, {b} on a fresh engine; history {log:?}"));
            }
        }
        // definite queries at the query's poi
        for e in all.iter() {
            let (a, b) = (
                cde.point_definitely_collides_with(&q.poi.center, *e),
                fresh.point_definitely_collides_with(&q.poi.center, *e),
            );
            if a != b {
                return Err(format!("point_definitely_collides_with({e:?}) = {a:?} after history, {b:?} fresh; history {log:?}"));
            }
        }
        let (a, b) = (
            cde.circle_definitely_collides(&q.poi, &irr),
            fresh.circle_definitely_collides(&q.poi, &irr),
        );
        if a != b {
            return Err(format!("circle_definitely_collides = {a:?} after history, {b:?} fresh; history {log:?}"));
        }
    }
    // definite queries within every hazard that is present
    for (e, sh) in model {
        let bb = &sh.bbox;
        let mut pts = vec![sh.poi.center];
        for _ in 0..3 {
            pts.push(pt((
                s.float(bb.x_min as f64, bb.x_max as f64),
                s.float(bb.y_min as f64, bb.y_max as f64),
            )));
        }
        for pt in pts {
            let (a, b) = (
                cde.point_definitely_collides_with(&pt, *e),
                fresh.point_definitely_collides_with(&pt, *e),
            );
            if a != b {
                return Err(format!("point_definitely_collides_with({pt:?}, {e:?}) = {a:?} after history, {b:?} fresh; history {log:?}"));
            }
            let ci = Circle::new(pt, sh.poi.radius / 8.0);
            let (a, b) = (cde.circle_definitely_collides(&ci, &[]), fresh.circle_definitely_collides(&ci, &[]));
            if a != b {
                return Err(format!("circle_definitely_collides({ci:?}) = {a:?} after history, {b:?} fresh; history {log:?}"));
            }
            let (mut da, mut db) = (vec![], vec![]);
            cde.hazards_within(&ci, &[], &mut da);
            fresh.hazards_within(&ci, &[], &mut db);
            let key = |e: &HazardEntity| format!("{e:?}");
            let (mut ka, mut kb): (Vec<_>, Vec<_>) = (da.iter().map(key).collect(), db.iter().map(key).collect());
            ka.sort();
            kb.sort();
            if ka != kb {
                return Err(format!("hazards within {ci:?}: {ka:?} after history, {kb:?} fresh; history {log:?}"));
            }
        }
    }
    // entities no longer registered leave no trace
    for p in pool.iter().filter(|p| !model.iter().any(|m| m.0 == p.0)) {
        if cde.point_definitely_collides_with(&p.1.poi.center, p.0) == Tribool::True {
            return Err(format!("removed hazard {:?} still collides; history {log:?}", p.0));
        }
    }
    Ok(())
}

/// C06: hazard proximity grid
pub fn c06_grid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n_cells = match s.weighted(&[60, 40, 20, 4]) {
        0 => s.usize(8, 60),
        1 => s.usize(60, 220),
        2 => s.usize(1, 8),
        // as fine as in practice
        _ => s.usize(800, 3500),
    };
    let world = world(s, n_cells, &WorldOpts::default());
    let mut cde = world.bin.base_cde.as_ref().clone();
    let mut shapes = vec![];
    for _ in 0..s.usize(1, 3) {
        // on fine grids large items span many cells
        let big = n_cells >= 800 && s.chance(2, 3);
        let f = *s.pick(&[0.4, 0.8]);
        let p = if big { shape(s, f * world.w) } else { item_poly(s, world.w) };
        let mut lib = sp(&p);
        let mut cfg = cheap_surrogate(s);
        if s.chance(1, 2) {
            cfg.max_poles = 1;
        }
        lib.generate_surrogate(cfg);
        shapes.push((p, lib));
    }
    let mut pool: Vec<(HazardEntity, Arc<SimplePolygon>, Poly)> = vec![];
    for _ in 0..s.count(1, 7, 30, 24) {
        let i = s.below(shapes.len() as u64) as usize;
        let mut targets: Vec<&Poly> = vec![&world.outer];
        targets.extend(pool.iter().map(|p| &p.2));
        let (r, mut t) = placement(s, &shapes[i].0, &targets, world.w);
        if n_cells >= 800 && !pool.is_empty() && s.chance(1, 2) {
            // overlapping an earlier item in part
            let o = centroid(&s.pick(&pool).2);
            let sz = 0.4 * world.w;
            let g = centroid(&Rigid { r, t: (0., 0.) }.apply_all(&shapes[i].0));
            t = (o.0 - g.0 + s.sym(sz), o.1 - g.1 + s.sym(sz));
        }
        let (lp, op, d) = place(&shapes[i].0, &shapes[i].1, r, t);
        let e = HazardEntity::PlacedItem { id: i, dt: d };
        if !pool.iter().any(|p| p.0 == e) {
            pool.push((e, Arc::new(lp), op));
        }
    }
    let statics = world.static_entities();
    let mut model: Vec<usize> = vec![];
    let mut dirty = false;
    let mut snaps: Vec<(_, Vec<usize>)> = vec![];
    let mut log: Vec<String> = vec![];
    let (mut n_dereg, mut n_checked) = (0, 0);
    let check = |cde: &CDEngine, model: &[usize], log: &[String], s: &mut Src, c: &mut Ctx| -> Result<(), String> {
        let grid = cde.haz_prox_grid().map_err(|_| format!("grid inaccessible although nothing is pending; {log:?}"))?;
        let tol = 2e-3 * world.l + 1e-4 * world.w;
        let mut n = 0;
        let step = match grid.grid.cells.len() {
            0..=80 => 1,
            81..=400 => 4,
            n => n / 100,
        };
        let off = s.below(step as u64) as usize;
        for cell in grid.grid.cells.iter().skip(off).step_by(step) {
            let Some(cell) = cell else { continue };
            n += 1;
            let q = un(&cell.centroid);
            let bb = &cell.bbox;
            let mid = (
                (bb.x_min as f64 + bb.x_max as f64) / 2.0,
                (bb.y_min as f64 + bb.y_max as f64) / 2.0,
            );
            if dist(mid, q) > 1e-4 * world.l {
                return Err(format!("cell centroid {q:?} is not the centre of its box {bb:?}"));
            }
            let mut uni = f64::MAX;
            let mut qz = [f64::MAX; 10];
            let mut unclear = false;
            for (e, h) in &statics {
                let ext = matches!(e, HazardEntity::BinExterior);
                let b = pt_boundary(q, h);
                if b < 5e-4 * world.l {
                    unclear = true;
                }
                let d = if pip(q, h) != ext { 0.0 } else { b };
                match e {
                    HazardEntity::InferiorQualityZone { quality, .. } => {
                        qz[*quality] = qz[*quality].min(d)
                    }
                    _ => uni = uni.min(d),
                }
            }
            // within the tolerance band inside/outside may flip, but both readings are then < tol
            let _ = unclear;
            let static_uni = uni;
            for i in model {
                let sur = pool[*i].1.surrogate();
                for pole in &sur.poles {
                    uni = uni.min((dist(un(&pole.center), q) - pole.radius as f64).max(0.0));
                }
            }
            let got = cell.uni_prox.0 as f64;
            if (got - uni).abs() > tol {
                return Err(format!("cell at {q:?}: proximity {got} ({:?}), exact {uni} (static {static_uni}); history {log:?}; items {:?}; {:?}", cell.uni_prox.1, model.iter().map(|i| pool[*i].1.surrogate().poles.clone()).collect::<Vec<_>>(), fmt_poly(&world.outer)));
            }
            for k in 0..10 {
                let g = cell.qz_prox[k] as f64;
                let e = qz[k];
                let ok = if e == f64::MAX { g > 1e30 } else { (g - e).abs() <= tol };
                if !ok {
                    return Err(format!("cell at {q:?}: proximity to zones of quality {k} is {g}, exact {e}"));
                }
            }
            for ql in [None, Some(0), Some(3), Some(7), Some(10)] {
                let mut e = uni;
                for k in 0..ql.unwrap_or(10) {
                    e = e.min(qz[k]);
                }
                let g = cell.hazard_proximity(ql) as f64;
                if (g - e).abs() > tol {
                    return Err(format!("cell at {q:?}: hazard_proximity({ql:?}) = {g}, exact {e}"));
                }
            }
        }
        c.add("cells", n);
        Ok(())
    };
    check(&cde, &model, &log, s, c)?;
    for _ in 0..s.count(1, 12, 50, 24) {
        let absent: Vec<usize> = (0..pool.len()).filter(|i| !model.contains(i)).collect();
        match s.weighted(&[7, 5, 1, 2, 2, 2]) {
            0 if !absent.is_empty() => {
                let i = *s.pick(&absent);
                log.push(format!("register #{i}"));
                cde.register_hazard(Hazard::new(pool[i].0, pool[i].1.clone()));
                model.push(i);
            }
            1 if !model.is_empty() => {
                let k = s.below(model.len() as u64) as usize;
                let i = model.remove(k);
                let commit = s.chance(1, 2);
                log.push(format!("deregister #{i} commit={commit}"));
                cde.deregister_hazard(pool[i].0, commit);
                dirty |= !commit;
                n_dereg += 1;
            }
            2 => {
                log.push("commit".into());
                cde.commit_deregisters();
                dirty = false;
            }
            3 => {
                log.push("flush".into());
                cde.flush_haz_prox_grid();
                dirty = false;
            }
            4 => {
                log.push("snapshot".into());
                snaps.push((cde.create_snapshot(), model.clone()));
                dirty = false;
            }
            5 if !snaps.is_empty() => {
                let i = s.below(snaps.len() as u64) as usize;
                log.push(format!("restore {i}"));
                cde.restore(&snaps[i].0);
                model = snaps[i].1.clone();
                dirty = false;
            }
            _ => continue,
        }
        if dirty {
            c.label("dirty-refused");
            if cde.haz_prox_grid().is_ok() {
                return Err(format!("the grid is accessible while removals are pending; {log:?}"));
            }
        } else {
            n_checked += 1;
            check(&cde, &model, &log, s, c)?;
        }
    }
    cde.flush_haz_prox_grid();
    log.push("flush".into());
    check(&cde, &model, &log, s, c)?;
    if n_dereg > 0 && n_checked > 1 {
        c.nontrivial = true;
    }
    if n_cells >= 800 {
        c.label("fine-grid");
    }
    c.sample(|| format!("{n_cells} cells, {log:?}, {}", fmt_poly(&world.outer)));
    Ok(())
}

/// C06: a cell that declares it cannot accommodate an item never hides a feasible placement
pub fn c06_sound(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n_cells = s.usize(20, 300);
    let world = world(s, n_cells, &WorldOpts::default());
    let mut cde = world.bin.base_cde.as_ref().clone();
    let mut items = vec![];
    for id in 0..s.usize(1, 3) {
        let sz = *s.pick(&[0.1, 0.2, 0.4, 0.8]) * world.w;
        let p = shape(s, sz);
        let q = if s.chance(1, 2) { Some(s.usize(0, 10)) } else { None };
        let it = mk_item(id, &p, jagua_rs::geometry::geo_enums::AllowedRotation::Continuous, q, cheap_surrogate(s));
        items.push((p, it));
    }
    let mut haz = world.static_entities();
    for _ in 0..s.count(0, 5, 25, 24) {
        let i = s.below(items.len() as u64) as usize;
        let targets: Vec<&Poly> = vec![&world.outer];
        let (r, t) = placement(s, &items[i].0, &targets, world.w);
        let (lp, op, d) = place(&items[i].0, items[i].1.shape.as_ref(), r, t);
        let e = HazardEntity::PlacedItem { id: i, dt: d };
        if haz.iter().any(|h| h.0 == e) {
            continue;
        }
        cde.register_hazard(Hazard::new(e, Arc::new(lp)));
        haz.push((e, op));
    }
    let grid = cde.haz_prox_grid().map_err(|_| "dirty".to_string())?;
    // cells tile the engine's bounding box: absent ones are inside a hazard
    let present: Vec<_> = grid.grid.cells.iter().flatten().collect();
    let side = present[0].bbox.width() as f64;
    let b = cde.bbox();
    for (p, it) in &items {
        let irr_q = |e: &HazardEntity| matches!((e, it.base_quality), (HazardEntity::InferiorQualityZone { quality, .. }, Some(q)) if *quality >= q);
        let relevant: Vec<_> = haz.iter().filter(|h| !irr_q(&h.0)).collect();
        for _ in 0..6 {
            // a poi position anywhere in the box
            let pos = (s.float(b.x_min as f64, b.x_max as f64), s.float(b.y_min as f64, b.y_max as f64));
            let inside_cell = present.iter().find(|k| {
                pos.0 >= k.bbox.x_min as f64 && pos.0 <= k.bbox.x_max as f64 && pos.1 >= k.bbox.y_min as f64 && pos.1 <= k.bbox.y_max as f64
            });
            let claims_impossible = match inside_cell {
                Some(k) => {
                    if (k.bbox.width() as f64 - side).abs() > 1e-3 * side {
                        return Err("cells differ in size".into());
                    }
                    !k.could_accommodate_item(it)
                }
                None => true,
            };
            let r = rotation(s);
            let poi = un(&it.shape.poi.center);
            let rot = Rigid { r, t: (0., 0.) }.apply(poi);
            let d = dt(r, (pos.0 - rot.0, pos.1 - rot.1));
            let op = rigid_of(&d).apply_all(p);
            let l = world.l.max(max_abs(&op));
            let (m, ce) = (REL_MARGIN * l, REL_CROSS * l);
            let mut verdict = Some(false);
            for (e, h) in &relevant {
                match oracle_hazard(&op, e, h, m, ce) {
                    Some(true) => {
                        verdict = Some(true);
                        break;
                    }
                    None => verdict = None,
                    _ => {}
                }
            }
            c.sample(|| format!("item {} quality {:?} poi at {pos:?} rot {r}; bin {}", fmt_poly(p), it.base_quality, fmt_poly(&world.outer)));
            if claims_impossible {
                c.nontrivial = true;
                c.label(if inside_cell.is_some() { "rejected-by-cell" } else { "absent-cell" });
                if verdict == Some(false) {
                    return Err(format!(
                        "grid rules out an item ({} quality {:?}, poi radius {}) with its centre at {pos:?} (rotation {r}), but the placement is feasible; bin {} hazards {:?}",
                        fmt_poly(p), it.base_quality, it.shape.poi.radius, fmt_poly(&world.outer), haz.iter().map(|h| h.0).collect::<Vec<_>>()
                    ));
                }
            } else {
                c.label("not-rejected");
                // completeness: if the poi circle could not fit even when shifted anywhere in the
                // cell, the cell must say so (its radius permitting)
                let k = inside_cell.unwrap();
                let rad = it.shape.poi.radius as f64;
                if (k.radius as f64) < rad - m {
                    let q = un(&k.centroid);
                    let mut prox = f64::MAX;
                    for (e, h) in &relevant {
                        let ext = matches!(e, HazardEntity::BinExterior);
                        if !matches!(e, HazardEntity::PlacedItem { .. }) {
                            prox = prox.min(if pip(q, h) != ext { 0.0 } else { pt_boundary(q, h) });
                        }
                    }
                    if rad > prox + k.radius as f64 + 2.0 * m {
                        return Err(format!("cell {q:?} accepts an item with poi radius {rad} although a static hazard is {prox} away (cell radius {}); quality {:?}", k.radius, it.base_quality));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "Random bins (convex, star, rectilinear, comb, ring and noisy outlines, with holes and quality zones, scales 0.008..2e4), random items placed anywhere including overlapping each other and the border, quadtree depth 0..8, random irrelevant sets; pairs of interlocked or nested labyrinths in either role; the verdict of the shape query is compared with an exact f64 overlap oracle. Non-trivial: the oracle is decisive (overlap deeper / gap wider than the tolerance) for at least one query.",
            assumptions: &["verdicts are judged only outside a tolerance band of about 1e-4 of the largest coordinate", "a shape that leaves the engine's bounding square counts as colliding with the bin exterior; with the exterior irrelevant only shapes inside the square are queried"],
            subs: vec![
                Sub { name: "verdict", quick: 40_000, thorough: 2_000_000, f: c01_verdict },
                Sub { name: "nested", quick: 40_000, thorough: 2_000_000, f: c01_nested },
                Sub { name: "interlocked", quick: 80_000, thorough: 3_000_000, f: c01_maze },
            ],
        },
        Prop {
            id: "C02",
            rule: "Random bins (convex, star, rectilinear, comb, ring and noisy outlines, with holes and quality zones, scales 0.008..2e4), random items placed anywhere including overlapping each other and the border, quadtree depth 0..8, random irrelevant sets, surrogates with random numbers of poles and piers; surrogate verdicts are compared with the full shape query and the oracle, surrogate primitives with the shape itself. Non-trivial: the surrogate collides, or the oracle is decisive.",
            assumptions: &["a surrogate may miss a collision but may not invent one; membership of a hazard is required only when a primitive reaches its boundary", "verdicts are judged outside the tolerance band"],
            subs: vec![
                Sub { name: "poles", quick: 20_000, thorough: 1_000_000, f: c02_poles },
                Sub { name: "collect", quick: 20_000, thorough: 1_000_000, f: c02_collect },
                Sub { name: "piers", quick: 100, thorough: 4_000, f: c02_piers },
            ],
        },
        Prop {
            id: "C03",
            rule: "Random bins (convex, star, rectilinear, comb, ring and noisy outlines, with holes and quality zones, scales 0.008..2e4), random items placed anywhere including overlapping each other and the border, quadtree depth 0..8, random irrelevant sets; the collected hazards are compared with the oracle's set, pre-filled buffers and interlocked labyrinths included. Non-trivial: collect - at least two hazards collide; within and interlocked - the oracle is decisive for a hazard.",
            assumptions: &["membership is judged only outside the tolerance band", "the exact set is required for hazards inside the engine's bounding square"],
            subs: vec![
                Sub { name: "collect", quick: 40_000, thorough: 1_000_000, f: c03_collect },
                Sub { name: "within", quick: 40_000, thorough: 1_000_000, f: c03_within },
                Sub { name: "interlocked", quick: 60_000, thorough: 2_000_000, f: c03_maze },
            ],
        },
        Prop {
            id: "C04",
            rule: "Random bins (convex, star, rectilinear, comb, ring and noisy outlines, with holes and quality zones, scales 0.008..2e4), random items placed anywhere including overlapping each other and the border, quadtree depth 0..8, random irrelevant sets; definite answers for points, edges and circles are compared with the oracle, and must be given when the primitive is farther from every relevant boundary than the finest cell. Non-trivial: the oracle is decisive.",
            assumptions: &["verdicts are judged only outside the tolerance band"],
            subs: vec![
                Sub { name: "definite", quick: 60_000, thorough: 2_000_000, f: c04_definite },
            ],
        },
        Prop {
            id: "C05",
            rule: "Random histories (up to 30 operations) of register, deregister with and without commit, commit, flush, snapshot and restore; after every operation the engine's answers are compared with those of an engine built afresh from the model's hazards. Non-trivial: the history holds an uncommitted removal and a restore or a reactivation.",
            assumptions: &["no two hazards of one engine share an entity", "both engines run the same queries; answers inside the tolerance band are compared only when the oracle is decisive"],
            subs: vec![
                Sub { name: "history", quick: 40_000, thorough: 1_000_000, f: c05_history },
            ],
        },
        Prop {
            id: "C06",
            rule: "Random bins and histories of registering/removing items with poles; every cell's stated proximity is compared with the exact distance (grid), and cells rejected or absent are probed for feasible placements (sound). Non-trivial: grid - a removal happened and the grid was checked at least twice; sound - a cell was rejected or absent where the item's reach would matter.",
            assumptions: &["distances are compared up to single-precision rounding of the largest coordinate", "proximity to placed items is defined by their poles, as documented"],
            subs: vec![
                Sub { name: "grid", quick: 22_000, thorough: 300_000, f: c06_grid },
                Sub { name: "sound", quick: 22_000, thorough: 300_000, f: c06_sound },
            ],
        },
    ]
}
