//! C17..C19: the left-bottom-fill reference optimizer - feasibility of what it returns,
//! reproducibility, and the samplers it searches with.

use crate::engine::*;
use crate::gen::*;
use crate::geom::*;
use crate::jgen::*;
use jagua_rs::collision_detection::hazard_filter::generate_irrelevant_hazards;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::json_solution::JsonContainer;
use jagua_rs::io::parser::{self, Parser};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_cost::LBFPlacingCost;
use lbf::lbf_optimizer::{find_lbf_placement, sample_layout, LBFOptimizer};
use lbf::samplers::hpg_sampler::HPGSampler;
use lbf::samplers::ls_sampler::LSSampler;
use lbf::samplers::uniform_rect_sampler::UniformAARectSampler;
use rand::prelude::SmallRng;
use rand::SeedableRng;
use std::f64::consts::PI;

fn check(ok: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

struct Run {
    j: JInst,
    cfg: LBFConfig,
    seed: u64,
    inst: Instance,
}

fn parse(j: &JInst, cfg: &LBFConfig) -> Instance {
    let simpl = match cfg.poly_simpl_tolerance {
        Some(tolerance) => PolySimplConfig::Enabled { tolerance },
        None => PolySimplConfig::Disabled,
    };
    let ji: JsonInstance = serde_json::from_str(&j.text()).expect("instance");
    Parser::new(simpl, cfg.cde_config, true).parse(&ji)
}

fn gen_cfg(s: &mut Src) -> LBFConfig {
    LBFConfig {
        cde_config: lbf_cde(s),
        poly_simpl_tolerance: if s.chance(1, 2) { None } else { Some(*s.pick(&[0.001, 0.01, 0.05]) as F) },
        prng_seed: Some(0),
        n_samples: s.usize(10, 120),
        ls_frac: *s.pick(&[0.2f32, 0.0, 0.5, 0.9, 1.0]),
        ..Default::default()
    }
}

fn gen_run(s: &mut Src, max_items: usize, max_demand: u64) -> Run {
    let j = gen_instance(
        s,
        &JOpts { strip: None, max_items, max_demand, size: (0.05, 0.45), max_quality: 9 },
    );
    let mut cfg = gen_cfg(s);
    if j.strip.is_some() && cfg.ls_frac >= 1.0 {
        // no uniform samples: nothing could ever be placed in the strip
        cfg.ls_frac = 0.5;
    }
    let seed = s.below(1 << 32);
    let inst = parse(&j, &cfg);
    Run { j, cfg, seed, inst }
}

/// an excerpt of a published instance, with settings as used in practice
fn real_run(s: &mut Src) -> Run {
    let j = real_instance(s, 6, 5);
    let mut cfg = gen_cfg(s);
    if s.chance(1, 2) {
        cfg.cde_config.hpg_n_cells = 2000;
        cfg.cde_config.quadtree_depth = 5;
    }
    if cfg.ls_frac >= 1.0 {
        cfg.ls_frac = 0.5;
    }
    let seed = s.below(1 << 32);
    let inst = parse(&j, &cfg);
    Run { j, cfg, seed, inst }
}

fn describe(r: &Run) -> String {
    format!("seed {} config {} instance {}", r.seed, serde_json::to_string(&r.cfg).unwrap(), r.j.text())
}

/// the two regions overlap by more than the tolerance band
fn overlap(a: &[P], b: &[P], m: f64, ce: f64) -> bool {
    match classify(a, b, m, ce) {
        Rel::Apart => false,
        Rel::Unclear => {
            // boundaries touch: look for a point deep inside both
            let (p, q) = (bbox(a), bbox(b));
            let (x0, y0, x1, y1) = (p.0.max(q.0), p.1.max(q.1), p.2.min(q.2), p.3.min(q.3));
            (1..8).any(|i| {
                (1..8).any(|k| {
                    let z = (x0 + (x1 - x0) * i as f64 / 8.0, y0 + (y1 - y0) * k as f64 / 8.0);
                    pip(z, a) && pip(z, b) && pt_boundary(z, a) > m && pt_boundary(z, b) > m
                })
            })
        }
        _ => true,
    }
}

/// `a` sticks out of `b` by more than the tolerance band
fn sticks_out(a: &[P], b: &[P], m: f64, ce: f64) -> bool {
    match classify(a, b, m, ce) {
        Rel::AInB => false,
        Rel::Unclear => a.iter().any(|q| !pip(*q, b) && pt_boundary(*q, b) > m),
        _ => true,
    }
}

/// the solution, taken as the user sees it (written transformations applied to the shapes of the
/// input file), respects every rule of the instance
fn feasible(r: &Run, sol: &Solution) -> Result<usize, String> {
    let js = parser::compose_json_solution(sol, &r.inst, sol.time_stamp);
    let mut counts = vec![0u64; r.j.items.len()];
    let mut bins_used = vec![0u64; r.j.bins.as_ref().map_or(1, |b| b.len())];
    let mut pairs = 0;
    for (li, l) in js.layouts.iter().enumerate() {
        let (outer, holes, zones): (Poly, Vec<Poly>, Vec<(usize, Poly)>) = match l.container {
            JsonContainer::Strip { width, height } => {
                let h = r.j.strip.ok_or("strip in a bin packing solution")?;
                check((height as f64 - h).abs() <= 1e-5 * h, || format!("strip height {height}"))?;
                bins_used[0] += 1;
                (rect(0.0, 0.0, width as f64, h), vec![], vec![])
            }
            JsonContainer::Bin { index } => {
                let b = r.j.bins.as_ref().and_then(|b| b.get(index)).ok_or_else(|| format!("unknown bin {index}"))?;
                bins_used[index] += 1;
                (b.outer.clone(), b.holes.clone(), b.zones.clone())
            }
        };
        let mut placed: Vec<(usize, Poly)> = vec![];
        for p in &l.placed_items {
            let it = r.j.items.get(p.index).ok_or_else(|| format!("unknown item {}", p.index))?;
            counts[p.index] += 1;
            let t = p.transformation.translation;
            let rot = p.transformation.rotation as f64;
            let rig = Rigid { r: rot, t: (t.0 as f64, t.1 as f64) };
            check(rot.is_finite() && rig.t.0.is_finite() && rig.t.1.is_finite(), || format!("item {} at {rig:?}", p.index))?;
            placed.push((p.index, rig.apply_all(&it.poly)));
            let ok = match &it.orients {
                None => true,
                Some(o) => {
                    let o = if o.is_empty() { vec![0.0] } else { o.clone() };
                    o.iter().any(|d| {
                        let e = (rot - d.to_radians()).rem_euclid(2.0 * PI);
                        e.min(2.0 * PI - e) < 2e-3
                    })
                }
            };
            check(ok, || format!("item {} rotated by {rot} rad, allowed degrees {:?}", p.index, it.orients))?;
        }
        let mut lmax = max_abs(&outer);
        for (_, p) in &placed {
            lmax = lmax.max(max_abs(p));
        }
        let (m, ce) = (REL_MARGIN * lmax, 5e-4 * lmax);
        for (k, (id, p)) in placed.iter().enumerate() {
            check(!sticks_out(p, &outer, m, ce), || format!("layout {li}: item {id} at {} sticks out of the container {}", fmt_poly(p), fmt_poly(&outer)))?;
            for h in &holes {
                check(!overlap(p, h, m, ce), || format!("layout {li}: item {id} at {} overlaps the hole {}", fmt_poly(p), fmt_poly(h)))?;
            }
            for (q, z) in &zones {
                let tolerates = r.j.items[*id].quality.map_or(false, |b| *q >= b);
                if !tolerates {
                    check(!overlap(p, z, m, ce), || {
                        format!("layout {li}: item {id} of quality {:?} at {} overlaps a zone of quality {q} {}", r.j.items[*id].quality, fmt_poly(p), fmt_poly(z))
                    })?;
                }
            }
            for (o, q) in &placed[..k] {
                pairs += 1;
                check(!overlap(p, q, m, ce), || format!("layout {li}: items {id} at {} and {o} at {} overlap", fmt_poly(p), fmt_poly(q)))?;
            }
        }
    }
    for (i, n) in counts.iter().enumerate() {
        let d = r.j.items[i].demand;
        check(*n <= d, || format!("item {i} placed {n} times, demand {d}"))?;
        if r.j.strip.is_some() {
            check(*n == d, || format!("item {i} placed {n} times in the strip, demand {d}"))?;
        }
        check(sol.placed_item_qtys[i] as u64 == *n, || format!("item {i}: {n} placed, reported {}", sol.placed_item_qtys[i]))?;
    }
    if let Some(b) = &r.j.bins {
        for (i, n) in bins_used.iter().enumerate() {
            check(*n <= b[i].stock.unwrap_or(u64::MAX), || format!("bin {i} used {n} times, stock {:?}", b[i].stock))?;
        }
    } else {
        check(js.layouts.len() == 1, || format!("{} strips", js.layouts.len()))?;
    }
    Ok(pairs)
}

type Sig = Vec<(usize, Vec<(usize, [u64; 3])>)>;

/// everything that identifies a solution, bit for bit
fn signature(sol: &Solution) -> Sig {
    sol.layout_snapshots
        .iter()
        .map(|l| {
            let v = l
                .placed_items
                .values()
                .map(|p| {
                    let (x, y) = p.d_transf.translation();
                    let b = |f: F| (f as f64).to_bits();
                    (p.item_id, [b(p.d_transf.rotation()), b(x), b(y)])
                })
                .collect();
            (l.bin.id, v)
        })
        .collect()
}

/// removes some placed items; returns how many
fn remove_some(s: &mut Src, problem: &mut Problem) -> usize {
    let mut n = 0;
    for _ in 0..s.usize(1, 4) {
        let k = problem.layouts().len();
        if k == 0 {
            break;
        }
        let l = s.below(k as u64) as usize;
        let keys: Vec<_> = problem.layouts()[l].placed_items().keys().collect();
        if keys.is_empty() {
            continue;
        }
        let key = *s.pick(&keys);
        problem.remove_item(LayoutIndex::Real(l), key, s.chance(1, 2));
        n += 1;
    }
    problem.flush_changes();
    n
}

pub fn c17_feasible(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let r = gen_run(s, 4, 6);
    c17_with(s, c, r)
}

fn c17_real(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let r = real_run(s);
    c17_with(s, c, r)
}

fn c17_with(s: &mut Src, c: &mut Ctx, r: Run) -> Result<(), String> {
    c.sample(|| describe(&r));
    c.label(if r.j.strip.is_some() { "strip" } else { "bins" });
    let mut opt = LBFOptimizer::new(r.inst.clone(), r.cfg, SmallRng::seed_from_u64(r.seed));
    let sol = opt.solve();
    let pairs = feasible(&r, &sol).map_err(|e| format!("{e}; {}", describe(&r)))?;
    c.add("placed items", sol.n_items_placed() as u64);
    c.nontrivial = pairs > 0;
    let rounds = s.usize(0, 2);
    let mut all = vec![(sol.clone(), signature(&sol))];
    for _ in 0..rounds {
        if s.chance(1, 4) {
            // go back to an earlier solution first
            let (old, _) = s.pick(&all).clone();
            opt.problem.restore_to_solution(&old);
            opt.problem.flush_changes();
            c.label("restored");
        }
        let n = remove_some(s, &mut opt.problem);
        c.add("removed items", n as u64);
        if matches!(opt.problem, Problem::SP(_)) && opt.problem.placed_item_qtys().sum::<usize>() == 0 {
            c.label("strip emptied");
        }
        let kept: Vec<(usize, [u64; 3])> = signature(&opt.problem.create_solution(None)).into_iter().flat_map(|x| x.1).collect();
        let sol = opt.solve();
        feasible(&r, &sol).map_err(|e| format!("after removing {n} items and solving again: {e}; {}", describe(&r)))?;
        c.label("re-solved");
        // solving again only adds
        let mut now: Vec<(usize, [u64; 3])> = signature(&sol).into_iter().flat_map(|x| x.1).collect();
        for k in &kept {
            match now.iter().position(|x| x == k) {
                Some(i) => {
                    now.swap_remove(i);
                }
                None => return Err(format!("solving again moved or dropped item {k:?}; {}", describe(&r))),
            }
        }
        all.push((sol.clone(), signature(&sol)));
        for (old, sig) in &all {
            check(signature(old) == *sig, || format!("an earlier solution changed; {}", describe(&r)))?;
        }
    }
    Ok(())
}

fn c18_repeat(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let r = if s.chance(1, 16) { real_run(s) } else { gen_run(s, 4, 5) };
    c.sample(|| describe(&r));
    let script: Vec<u64> = (0..64).map(|_| s.below(1 << 20)).collect();
    let again = s.chance(1, 2);
    let go = |inst: Instance| {
        let mut opt = LBFOptimizer::new(inst, r.cfg, SmallRng::seed_from_u64(r.seed));
        let sol = opt.solve();
        let mut sigs = vec![(signature(&sol), opt.sample_counter, (sol.usage as f64).to_bits())];
        if again {
            let mut t = Src::from_tape(script.clone());
            remove_some(&mut t, &mut opt.problem);
            let sol = opt.solve();
            sigs.push((signature(&sol), opt.sample_counter, (sol.usage as f64).to_bits()));
        }
        (sigs, sol)
    };
    let (a, sol) = go(r.inst.clone());
    let (b, _) = go(r.inst.clone());
    check(a == b, || format!("two runs on the same instance differ: {a:?} vs {b:?}; {}", describe(&r)))?;
    // a fresh parse of the same text behaves the same
    let (d, _) = go(parse(&r.j, &r.cfg));
    check(a == d, || format!("a run on a freshly parsed instance differs: {a:?} vs {d:?}; {}", describe(&r)))?;
    // drawing options have no influence
    let mut cfg = r.cfg;
    cfg.svg_draw_options.surrogate = true;
    let mut opt = LBFOptimizer::new(r.inst.clone(), cfg, SmallRng::seed_from_u64(r.seed));
    let e = opt.solve();
    check(signature(&e) == a[0].0, || format!("drawing options changed the solution; {}", describe(&r)))?;
    let n = sol.n_items_placed();
    c.add("placed items", n as u64);
    c.add("samples", a[0].1 as u64);
    c.nontrivial = n > 1;
    Ok(())
}

// ------------------------------------------------------------------------------------- C19

fn allowed(item: &Item, rot: f64) -> bool {
    match &item.allowed_rotation {
        AllowedRotation::None => rot.abs() < 1e-5,
        AllowedRotation::Continuous => true,
        AllowedRotation::Discrete(v) => v.iter().any(|a| {
            let e = (rot - *a as f64).rem_euclid(2.0 * PI);
            e.min(2.0 * PI - e) < 1e-3
        }),
    }
}

fn any_item(s: &mut Src, w: f64, id: usize, q: Option<usize>) -> (Poly, Item) {
    let size = s.float(0.05, 0.45) * w;
    let mut p = shape(s, size);
    if s.chance(1, 3) {
        let (dx, dy) = (s.sym(size), s.sym(size));
        p = moved(&p, dx, dy);
    }
    let rot = match s.below(3) {
        0 => AllowedRotation::None,
        1 => AllowedRotation::Continuous,
        _ => {
            let n = s.count(1, 4, 24, 8);
            AllowedRotation::Discrete(
                (0..n)
                    .map(|i| if i < 6 { *s.pick(&[0.0, PI / 2.0, PI, 1.0, -0.7, 4.0]) } else { i as f64 * 0.25 } as F)
                    .collect(),
            )
        }
    };
    let mut cfg = cheap_surrogate(s);
    cfg.n_ff_piers = 0;
    let it = mk_item(id, &p, rot, q, cfg);
    (p, it)
}

fn c19_samplers(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = scale_w(s);
    let (_, item) = any_item(s, w, 0, None);
    let mut rng = SmallRng::seed_from_u64(s.below(1 << 32));
    // uniform samples stay in the rectangle and keep to the allowed rotations
    let (x, y) = (rf(s.sym(w)), rf(s.sym(w)));
    let (a, b) = (rf(x + s.float(0.001, 1.0) * w), rf(y + s.float(0.001, 1.0) * w));
    let us = UniformAARectSampler::new(AARectangle::new(x as F, y as F, a as F, b as F), &item);
    let mut quad = [false; 4];
    let mut rots = vec![];
    let ns = match &item.allowed_rotation {
        AllowedRotation::Discrete(v) => 200.max(50 * v.len()),
        _ => 200,
    };
    for _ in 0..ns {
        let d = us.sample(&mut rng);
        let (u, v) = d.translation();
        let (u, v) = (u as f64, v as f64);
        check(u >= x && u <= a && v >= y && v <= b, || format!("sample ({u}, {v}) outside of [{x}, {a}] x [{y}, {b}]"))?;
        check(allowed(&item, d.rotation() as f64), || format!("rotation {} not allowed by {:?}", d.rotation(), item.allowed_rotation))?;
        quad[(u > (x + a) / 2.0) as usize + 2 * (v > (y + b) / 2.0) as usize] = true;
        rots.push(d.rotation() as f64);
    }
    // probability of missing a quadrant in 200 samples: below 1e-24
    check(quad.iter().all(|q| *q), || format!("200 uniform samples miss a quadrant of [{x}, {a}] x [{y}, {b}]"))?;
    match &item.allowed_rotation {
        AllowedRotation::Continuous => {
            let mut oct = [false; 4];
            for r in &rots {
                oct[((r.rem_euclid(2.0 * PI)) / (PI / 2.0)).min(3.0) as usize] = true;
            }
            check(oct.iter().all(|q| *q), || "200 continuous rotations miss a quarter of the circle".into())?;
        }
        AllowedRotation::Discrete(v) => {
            for a in v {
                check(rots.iter().any(|r| (*r - *a as f64).abs() < 1e-6), || format!("allowed rotation {a} never sampled in {v:?}"))?;
            }
        }
        AllowedRotation::None => {}
    }
    // local search samples follow the stated normal distributions
    let r0 = match &item.allowed_rotation {
        AllowedRotation::None => 0.0,
        AllowedRotation::Continuous => rf(s.float(-PI, PI)),
        AllowedRotation::Discrete(v) => *s.pick(v) as f64,
    };
    let sdt = (rf(s.float(0.005, 0.05) * w), rf(s.float(0.0001, 0.004) * w));
    let sdr = (rf(s.float(0.02, 0.1)), rf(s.float(0.001, 0.015)));
    let default = s.chance(1, 3);
    let (sdt, sdr, mut ls) = if default {
        let bb = AARectangle::new(0.0, 0.0, w as F, (w * s.float(0.2, 1.0)) as F);
        ((0.01 * w, 0.0005 * w), (PI / 90.0, PI / 360.0), LSSampler::from_defaults(&item, &dt(r0, (x, y)), &bb))
    } else {
        (sdt, sdr, LSSampler::new(&item, &dt(r0, (x, y)), (sdt.0 as F, sdt.1 as F), (sdr.0 as F, sdr.1 as F)))
    };
    let mut mean = (x, y);
    let mut mean_r = r0;
    let mut sd = (sdt.0, sdr.0);
    let cont = item.allowed_rotation == AllowedRotation::Continuous;
    for _ in 0..s.usize(1, 6) {
        match s.below(4) {
            0 => {
                let (dx, dy) = (s.sym(w), s.sym(w));
                mean = (rf(mean.0 / 2.0 + dx), rf(mean.1 / 2.0 + dy));
                if cont {
                    mean_r = rf(s.float(-PI, PI));
                }
                ls.shift_mean(&dt(mean_r, mean));
                c.label("shift");
            }
            1 => {
                let p = s.f01();
                ls.decay_stddev(p as F);
                sd = (sdt.0 * (sdt.1 / sdt.0).powf(p), sdr.0 * (sdr.1 / sdr.0).powf(p));
                c.label("decay");
            }
            2 => {
                let t = rf(s.float(0.0, 0.02) * w);
                let r = rf(s.float(0.0, 0.1));
                ls.set_stddev(t as F, r as F);
                sd = (t, r);
                c.label("stddev");
            }
            _ => {}
        }
        let l = w + mean.0.abs() + mean.1.abs();
        let (mut dx, mut dy, mut dr) = (0.0f64, 0.0f64, 0.0f64);
        for _ in 0..60 {
            let d = ls.sample(&mut rng);
            let (u, v) = d.translation();
            dx = dx.max((u as f64 - mean.0).abs());
            dy = dy.max((v as f64 - mean.1).abs());
            let r = d.rotation() as f64;
            check(allowed(&item, r), || format!("local rotation {r} not allowed by {:?}", item.allowed_rotation))?;
            dr = dr.max((r - mean_r).abs());
        }
        let e = 1e-6 * l;
        // beyond 9 sigma: below 1e-17; all 60 within 0.2 sigma: below 1e-47
        for (name, d) in [("x", dx), ("y", dy)] {
            check(d <= 9.0 * sd.0 + e && d + e >= 0.2 * sd.0, || format!("local samples spread {d} in {name} around {mean:?}, stddev should be {}", sd.0))?;
        }
        if cont {
            check(dr <= 9.0 * sd.1 + 1e-5 && dr + 1e-5 >= 0.2 * sd.1, || format!("local samples spread {dr} in rotation, stddev should be {}", sd.1))?;
        } else {
            check(dr <= 1e-5, || format!("local search changed a fixed rotation {mean_r} by {dr}"))?;
        }
    }
    // cost order
    let (p, q) = ((s.sym(w), s.sym(w)), (s.float(0.01, 1.0) * w, s.float(0.0, 1.0) * w));
    let k = |x: f64, y: f64| LBFPlacingCost::new(x as F, y as F);
    check(k(p.0, p.1) < k(p.0 + q.0, p.1) && k(p.0, p.1) < k(p.0, p.1 + q.0), || "cost does not prefer left and bottom".into())?;
    check(k(p.0, p.1 + q.0) < k(p.0 + q.0, p.1), || "cost does not prefer left over bottom".into())?;
    c.nontrivial = true;
    c.sample(|| format!("item rotation {:?} rectangle [{x}, {a}] x [{y}, {b}] stddev {sdt:?} {sdr:?}", item.allowed_rotation));
    Ok(())
}

/// a layout with a few items in it
fn gen_layout(s: &mut Src) -> (World, Vec<(Poly, Item)>, Layout, Vec<(usize, Poly)>) {
    let hpg = *s.pick(&[50usize, 1, 5, 20, 200, 500]);
    let world = world(s, hpg, &WorldOpts { max_holes: 2, max_zones: 2, ..Default::default() });
    let n = s.usize(1, 3);
    let items: Vec<(Poly, Item)> = (0..n)
        .map(|i| {
            let q = if s.chance(1, 2) { Some(s.usize(0, 9)) } else { None };
            any_item(s, world.w, i, q)
        })
        .collect();
    let mut layout = Layout::new(0, world.bin.clone());
    let mut placed: Vec<(usize, Poly)> = vec![];
    let mut keys = vec![];
    for _ in 0..s.count(0, 5, 25, 16) {
        let i = s.below(n as u64) as usize;
        let (r, t) = placement(s, &items[i].0, &[&world.outer], world.w);
        if placed.iter().any(|p| p.0 == i && p.1 == (Rigid { r, t }).apply_all(&items[i].0)) {
            continue;
        }
        keys.push(layout.place_item(&items[i].1, dt(r, t)));
        placed.push((i, Rigid { r, t }.apply_all(&items[i].0)));
    }
    if !keys.is_empty() && s.chance(1, 4) {
        let k = s.below(keys.len() as u64) as usize;
        layout.remove_item(keys[k], s.chance(1, 2));
        placed.remove(k);
    }
    layout.flush_changes();
    (world, items, layout, placed)
}

/// Some(true) if the placed outline certainly collides with something relevant for the item,
/// Some(false) if it certainly is free
fn verdict(world: &World, placed: &[(usize, Poly)], item: &Item, p: &[P]) -> Option<bool> {
    let l = world.l.max(max_abs(p));
    let (m, ce) = (REL_MARGIN * l, 5e-4 * l);
    let mut unclear = false;
    if sticks_out(p, &world.outer, m, ce) {
        return Some(true);
    }
    if classify(p, &world.outer, m, ce) != Rel::AInB {
        unclear = true;
    }
    let solid = world
        .holes
        .iter()
        .chain(world.zones.iter().filter(|z| !item.base_quality.map_or(false, |b| z.0 >= b)).map(|z| &z.2))
        .chain(placed.iter().map(|p| &p.1));
    for h in solid {
        if overlap(p, h, m, ce) {
            return Some(true);
        }
        if classify(p, h, m, ce) != Rel::Apart {
            unclear = true;
        }
    }
    if unclear {
        None
    } else {
        Some(false)
    }
}

fn transf(t: &Transformation) -> Rigid {
    rigid_of(&t.decompose())
}

fn c19_grid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (world, items, layout, placed) = gen_layout(s);
    let (poly, item) = {
        let i = s.below(items.len() as u64) as usize;
        (&items[i].0, &items[i].1)
    };
    let desc = || {
        format!(
            "bin {} holes {:?} zones {:?} placed {:?} item {} {:?} quality {:?} cells {}",
            fmt_poly(&world.outer),
            world.holes.iter().map(|h| fmt_poly(h)).collect::<Vec<_>>(),
            world.zones.iter().map(|z| (z.0, fmt_poly(&z.2))).collect::<Vec<_>>(),
            placed.iter().map(|p| fmt_poly(&p.1)).collect::<Vec<_>>(),
            fmt_poly(poly),
            item.allowed_rotation,
            item.base_quality,
            world.cfg.hpg_n_cells
        )
    };
    c.sample(desc);
    let mut rng = SmallRng::seed_from_u64(s.below(1 << 32));
    let poi = un(&item.shape.poi.center);
    let eps = 1e-4 * world.l;
    let mut sampler = HPGSampler::new(item, &layout);
    let bb = bbox(&world.outer);
    type Cells = Vec<(f64, f64, f64, f64)>;
    let cells = |h: &HPGSampler| -> Cells {
        h.cell_samplers.iter().map(|u| (u.bbox.x_min as f64, u.bbox.y_min as f64, u.bbox.x_max as f64, u.bbox.y_max as f64)).collect()
    };
    let covers = |v: &Cells, q: P| v.iter().any(|r| q.0 >= r.0 - eps && q.0 <= r.2 + eps && q.1 >= r.1 - eps && q.1 <= r.3 + eps);
    let area = |v: &Cells| v.iter().map(|r| (r.2 - r.0) * (r.3 - r.1)).sum::<f64>();
    let initial: Cells = sampler.as_ref().map(cells).unwrap_or_default();
    c.label(if sampler.is_some() { "cells" } else { "no cells" });
    // no feasible placement is lost
    let mut targets: Vec<&Poly> = vec![&world.outer];
    targets.extend(placed.iter().map(|p| &p.1));
    for _ in 0..12 {
        let (r, t) = placement(s, poly, &targets, world.w);
        let rig = Rigid { r, t };
        let p = rig.apply_all(poly);
        if verdict(&world, &placed, item, &p) == Some(false) {
            c.label("feasible placement");
            c.nontrivial = true;
            let q = rig.apply(poi);
            check(covers(&initial, q), || format!("placement {rig:?} is free but its cell at {q:?} was discarded; {}", desc()))?;
        }
    }
    let Some(h) = sampler.as_mut() else {
        return Ok(());
    };
    for r in &initial {
        check(r.0 >= bb.0 - eps && r.1 >= bb.1 - eps && r.2 <= bb.2 + eps && r.3 <= bb.3 + eps, || format!("cell {r:?} outside of the bin's box {bb:?}"))?;
    }
    let a = area(&initial);
    let bin_area = (bb.2 - bb.0) * (bb.3 - bb.1);
    check((h.coverage_area as f64 - a).abs() <= 1e-3 * bin_area, || format!("coverage {} instead of {a}", h.coverage_area))?;
    check(a <= bin_area * (1.0 + 1e-3), || format!("cells cover {a} of {bin_area}"))?;
    // samples put the pole of inaccessibility in an eligible cell
    let mut seen: Vec<(P, f64, f64)> = vec![];
    for k in 0..40 {
        let t = h.sample(&mut rng);
        check(h.n_samples == k + 1, || format!("{} samples counted after {}", h.n_samples, k + 1))?;
        let rig = transf(&t);
        let q = rig.apply(poi);
        check(covers(&initial, q), || format!("sample {rig:?} puts the pole at {q:?}, outside of every eligible cell; {}", desc()))?;
        check(allowed(item, rig.r), || format!("sampled rotation {} not allowed by {:?}", rig.r, item.allowed_rotation))?;
        let shape = item.shape.transform_clone(&t);
        let b = shape.bbox();
        seen.push((q, b.x_max as f64, b.y_max as f64));
    }
    // tightening keeps every cell that could still give a better placement
    for _ in 0..s.usize(1, 3) {
        let before = cells(h);
        if before.is_empty() {
            break;
        }
        let (_, bx, by) = *s.pick(&seen);
        let best = LBFPlacingCost::new(bx as F, by as F);
        h.tighten(best);
        let after = cells(h);
        check(after.iter().all(|r| before.contains(r)), || "tightening added cells".into())?;
        c.add("cells dropped", (before.len() - after.len()) as u64);
        for (q, x, y) in &seen {
            let cost = LBFPlacingCost::new((*x + eps) as F, (*y + eps) as F);
            if cost < best && covers(&before, *q) {
                let strictly = before.iter().any(|r| q.0 >= r.0 && q.0 <= r.2 && q.1 >= r.1 && q.1 <= r.3);
                check(!strictly || covers(&after, *q), || {
                    format!("after tightening to ({bx}, {by}) a better placement reaching ({x}, {y}) is no longer reachable; {}", desc())
                })?;
            }
        }
        check((h.coverage_area as f64 - area(&after)).abs() <= 2e-3 * bin_area, || format!("coverage {} instead of {} after tightening", h.coverage_area, area(&after)))?;
    }
    Ok(())
}

pub fn c19_search(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (world, items, layout, placed) = gen_layout(s);
    let i = s.below(items.len() as u64) as usize;
    let item = &items[i].1;
    let cfg = gen_cfg(s);
    let mut rng = SmallRng::seed_from_u64(s.below(1 << 32));
    // one layout of a bin packing problem
    let inst = jagua_rs::entities::instances::bin_packing::BPInstance::new(items.iter().map(|x| (x.1.clone(), 20)).collect(), vec![(world.bin.clone(), 5)]);
    let mut bp = BPProblem::new(inst);
    let mut idx = LayoutIndex::Template(0);
    for pi in layout.placed_items().values() {
        idx = bp.place_item(PlacingOption { layout_idx: idx, item_id: pi.item_id, d_transf: pi.d_transf }).0;
    }
    bp.flush_changes();
    let pr: Problem = bp.into();
    let mut n = 7usize;
    let mut shadow = rng.clone();
    let got = sample_layout(&pr, idx, item, &cfg, &mut rng, &mut n);
    check(n >= 7 && n - 7 <= cfg.n_samples, || format!("{} samples counted, budget {}", n - 7, cfg.n_samples))?;
    let desc = || {
        format!(
            "bin {} holes {:?} zones {:?} placed {:?} item {} {:?} quality {:?} result {got:?}",
            fmt_poly(&world.outer),
            world.holes.iter().map(|h| fmt_poly(h)).collect::<Vec<_>>(),
            world.zones.iter().map(|z| (z.0, fmt_poly(&z.2))).collect::<Vec<_>>(),
            placed.iter().map(|p| fmt_poly(&p.1)).collect::<Vec<_>>(),
            fmt_poly(&items[i].0),
            item.allowed_rotation,
            item.base_quality
        )
    };
    c.sample(desc);
    c.label(if got.is_some() { "found" } else { "none" });
    if let Some(o) = &got {
        c.nontrivial = true;
        check(o.item_id == item.id, || format!("placement is for item {} instead of {}", o.item_id, item.id))?;
        check(format!("{:?}", o.layout_idx) == format!("{idx:?}"), || format!("placement is for layout {:?} instead of {idx:?}", o.layout_idx))?;
        check(allowed(item, o.d_transf.rotation() as f64), || format!("rotation not allowed; {}", desc()))?;
        let p = rigid_of(&o.d_transf).apply_all(&items[i].0);
        check(verdict(&world, &placed, item, &p) != Some(true), || format!("the placement found at {} collides; {}", fmt_poly(&p), desc()))?;
        // replay the samples the search drew; if the result is one of them, it has to be the best
        let seen = replay(pr.get_layout(idx), item, &cfg, &mut shadow);
        let best = seen.iter().map(|x| x.1).min();
        match seen.iter().filter(|x| x.0 == o.d_transf).map(|x| x.1).min() {
            Some(cost) => {
                c.label("replayed");
                check(Some(cost) == best, || {
                    format!("the search returned a placement of cost {cost:?}, but had found one of cost {best:?}: {:?}; {}", seen.iter().find(|x| Some(x.1) == best), desc())
                })?;
            }
            None => c.label("not replayed"),
        }
    }
    Ok(())
}

/// the collision-free samples (with their cost) a search with this random generator comes across
fn replay(layout: &Layout, item: &Item, cfg: &LBFConfig, rng: &mut SmallRng) -> Vec<(DTransformation, LBFPlacingCost)> {
    let cde = layout.cde();
    let irr = match item.hazard_filter.as_ref() {
        None => vec![],
        Some(hf) => generate_irrelevant_hazards(hf, cde.all_hazards()),
    };
    let n_ls = (cfg.n_samples as f32 * cfg.ls_frac) as usize;
    let mut seen: Vec<(DTransformation, LBFPlacingCost)> = vec![];
    let Some(mut hs) = HPGSampler::new(item, layout) else {
        return seen;
    };
    let mut best: Option<(DTransformation, LBFPlacingCost)> = None;
    let free = |t: &Transformation| {
        if cde.surrogate_collides(item.shape.surrogate(), t, &irr) {
            return None;
        }
        let p = item.shape.transform_clone(t);
        if cde.poly_collides(&p, &irr) {
            return None;
        }
        Some(LBFPlacingCost::from_shape(&p))
    };
    for _ in 0..cfg.n_samples - n_ls {
        if hs.cell_samplers.is_empty() {
            return seen;
        }
        let t = hs.sample(rng);
        if let Some(cost) = free(&t) {
            seen.push((t.decompose(), cost));
            if best.is_none_or(|b| cost < b.1) {
                hs.tighten(cost);
                best = Some((t.decompose(), cost));
            }
        }
    }
    let Some(mut best) = best else {
        return seen;
    };
    let mut ls = LSSampler::from_defaults(item, &best.0, &layout.bin.bbox());
    for i in 0..n_ls {
        let d = ls.sample(rng);
        if let Some(cost) = free(&d.compose()) {
            seen.push((d, cost));
            if cost < best.1 {
                ls.shift_mean(&d);
                best = (d, cost);
            }
        }
        ls.decay_stddev(i as F / n_ls as F);
    }
    seen
}

/// easy cases in which chance plays no role: order of layouts, stock, and left-bottom preference
fn c19_order(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = *s.pick(&[100.0, 10.0, 1000.0]);
    let nb = s.count(1, 3, 8, 16);
    let mut bins = vec![];
    let mut cfg = gen_cfg(s);
    cfg.n_samples = 200;
    cfg.ls_frac = *s.pick(&[0.2f32, 0.0, 0.5]);
    cfg.cde_config.hpg_n_cells = *s.pick(&[100usize, 20, 400, 1]);
    for i in 0..nb {
        let (a, b) = (rf(s.float(0.7, 1.3) * w), rf(s.float(0.7, 1.3) * w));
        let wd = make_world(w, cfg.cde_config, i, rect(0.0, 0.0, a, b), vec![], vec![], 1);
        bins.push((wd.bin, s.usize(0, 2)));
    }
    let size = s.float(0.02, 0.06) * w;
    let p = shape(s, size);
    let g = centroid(&p);
    let p = moved(&p, -g.0, -g.1);
    let rot = if s.chance(1, 2) { AllowedRotation::None } else { AllowedRotation::Continuous };
    let item = mk_item(0, &p, rot, None, cheap_surrogate(s));
    let stock: Vec<usize> = bins.iter().map(|b| b.1).collect();
    let inst = jagua_rs::entities::instances::bin_packing::BPInstance::new(vec![(item.clone(), 20)], bins.clone());
    let mut pr: Problem = BPProblem::new(inst).into();
    let mut left = stock.clone();
    let mut open = vec![];
    for _ in 0..s.count(0, 3, 15, 16) {
        let cands: Vec<usize> = (0..nb).filter(|b| left[*b] > 0).collect();
        if cands.is_empty() {
            break;
        }
        let b = *s.pick(&cands);
        let (x, y) = (s.float(0.1, 0.6) * w, s.float(0.1, 0.6) * w);
        pr.place_item(PlacingOption { layout_idx: LayoutIndex::Template(b), item_id: 0, d_transf: dt(0.0, rp((x, y))) });
        left[b] -= 1;
        open.push(b);
    }
    pr.flush_changes();
    let mut rng = SmallRng::seed_from_u64(s.below(1 << 32));
    let mut n = 0;
    let got = find_lbf_placement(&pr, &item, &cfg, &mut rng, &mut n);
    let desc = || format!("stock {stock:?} open layouts in bins {open:?} result {got:?}");
    c.sample(desc);
    c.nontrivial = !open.is_empty() && left.iter().any(|x| *x > 0);
    let want = if !open.is_empty() {
        c.label("existing");
        Some((LayoutIndex::Real(0), open[0]))
    } else if let Some(b) = left.iter().position(|x| *x > 0) {
        c.label("template");
        Some((LayoutIndex::Template(b), b))
    } else {
        c.label("no stock");
        None
    };
    match (&got, &want) {
        (None, None) => Ok(()),
        (Some(o), Some((idx, b))) => {
            check(format!("{:?}", o.layout_idx) == format!("{idx:?}"), || format!("expected {idx:?}; {}", desc()))?;
            let q = bbox(&rigid_of(&o.d_transf).apply_all(&p));
            let bb = bbox(&unsp(&bins[*b].0.outer));
            // at least 100 uniform samples of a nearly empty bin: all of them in the right half has
            // probability below 1e-18
            check(q.2 <= (bb.0 + bb.2) / 2.0 + size, || format!("left-bottom fill put the item at {q:?} in an empty bin {bb:?}; {}", desc()))
        }
        _ => Err(format!("expected {want:?}; {}", desc())),
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "the solution holds at least two items in one layout",
            assumptions: &[
                "items are at most 0.45 of the strip height or about the bin size, so that a strip placement always exists",
                "overlaps below 1e-3 of the largest coordinate are within the library's numerical tolerance",
            ],
            subs: vec![
                Sub { name: "solve", quick: 8_000, thorough: 300_000, f: c17_feasible },
                Sub { name: "real", quick: 600, thorough: 20_000, f: c17_real },
            ],
        },
        Prop {
            id: "C18",
            rule: "the compared solutions hold at least two items",
            assumptions: &["the generator is seeded explicitly, as the program does when a seed is configured"],
            subs: vec![Sub { name: "repeat", quick: 4_000, thorough: 150_000, f: c18_repeat }],
        },
        Prop {
            id: "C19",
            rule: "samplers: every case; grid: a certainly free placement was tested against the eligible cells; search: a placement was found; order: open layouts and stock compete",
            assumptions: &["statistical statements are made only where chance failure is below 1e-15"],
            subs: vec![
                Sub { name: "samplers", quick: 20_000, thorough: 500_000, f: c19_samplers },
                Sub { name: "grid", quick: 12_000, thorough: 400_000, f: c19_grid },
                Sub { name: "search", quick: 10_000, thorough: 300_000, f: c19_search },
                Sub { name: "order", quick: 5_000, thorough: 100_000, f: c19_order },
            ],
        },
    ]
}
