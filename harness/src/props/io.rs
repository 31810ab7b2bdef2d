//! C11, C12, C20: reading instances, writing and re-reading solutions, and the files and drawings
//! the reference optimizer produces.

use crate::engine::*;
use crate::gen::*;
use crate::geom::*;
use crate::jgen::*;
use crate::svgtree::*;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::JsonInstance;
use jagua_rs::io::json_solution::{JsonContainer, JsonSolution};
use jagua_rs::io::parser::{self, Parser};
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};
use jagua_rs::util::polygon_simplification::PolySimplConfig;
use lbf::io::layout_to_svg::s_layout_to_svg;
use lbf::io::svg_util::{SvgDrawOptions, SvgLayoutTheme};
use lbf::io::json_output::JsonOutput;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::prelude::SmallRng;
use rand::SeedableRng;
use serde_json::{json, Value};
use std::time::Duration;

fn check(ok: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

fn simpl(s: &mut Src) -> (PolySimplConfig, Option<f64>) {
    if s.chance(1, 3) {
        let t = *s.pick(&[0.01, 0.001, 0.05, 0.2]);
        (PolySimplConfig::Enabled { tolerance: t as F }, Some(t))
    } else {
        (PolySimplConfig::Disabled, None)
    }
}

fn light_cde(s: &mut Src) -> CDEConfig {
    CDEConfig {
        quadtree_depth: *s.pick(&[2u8, 0, 1, 3, 4, 5]),
        hpg_n_cells: *s.pick(&[0usize, 1, 20, 100]),
        item_surrogate_config: SPSurrogateConfig {
            pole_coverage_goal: s.float(0.3, 0.95) as F,
            max_poles: s.usize(1, 5),
            n_ff_poles: s.usize(0, 3),
            n_ff_piers: if s.chance(1, 400) { 1 } else { 0 },
        },
    }
}

fn read(text: &str) -> Result<JsonInstance, String> {
    serde_json::from_str(text).map_err(|e| format!("valid instance rejected: {e}"))
}

/// the outline the library holds, back in the coordinates of the input file
fn input_frame(p: &SimplePolygon, pre: &Transformation) -> Poly {
    rigid_of(&pre.decompose()).unapply_all(&unsp(p))
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Grow,
    Shrink,
}

/// `got` (in input coordinates) is the outline `exact`, or a conservative simplification of it
fn outline_ok(what: &str, got: &[P], exact: &[P], tol: Option<f64>, mode: Mode, l: f64) -> Result<bool, String> {
    let band = 1e-4 * l;
    let d = || format!("{what}: input {} parsed {}", fmt_poly(exact), fmt_poly(got));
    if same_outline(got, exact, band) {
        return Ok(false);
    }
    let Some(t) = tol else {
        return Err(format!("parsed outline differs from the input: {}", d()));
    };
    check(got.len() <= exact.len(), || format!("simplification added vertices: {}", d()))?;
    let (a0, a1) = (signed_area(exact).abs(), signed_area(got).abs());
    check((a1 - a0).abs() <= t * a0 * (1.0 + 1e-3) + 1e-4 * l * perimeter(exact), || {
        format!("area changed from {a0} to {a1}, allowed fraction {t}: {}", d())
    })?;
    match mode {
        Mode::Grow => contained_in(exact, got, band),
        Mode::Shrink => contained_in(got, exact, band),
    }
    .map_err(|e| format!("simplification is not conservative: {e}; {}", d()))?;
    Ok(true)
}

fn norm_deg(d: f64) -> f64 {
    d.rem_euclid(360.0)
}

fn same_angle_set(a: &[f64], b: &[f64]) -> bool {
    let near = |x: f64, y: f64| {
        let d = (x - y).rem_euclid(360.0);
        d.min(360.0 - d) < 1e-2
    };
    a.iter().all(|x| b.iter().any(|y| near(*x, *y))) && b.iter().all(|x| a.iter().any(|y| near(*x, *y)))
}

fn check_parsed(inst: &Instance, j: &JInst, tol: Option<f64>, centred: bool, cde: CDEConfig) -> Result<u64, String> {
    let mut simplified = 0;
    check(inst.items().len() == j.items.len(), || "number of items changed".into())?;
    for (i, ((it, qty), ji)) in inst.items().iter().zip(&j.items).enumerate() {
        check(it.id == i, || format!("item {i} got id {}", it.id))?;
        check(*qty as u64 == ji.demand, || format!("item {i}: demand {qty}, stated {}", ji.demand))?;
        check(it.value == ji.value.unwrap_or(0), || format!("item {i}: value {} stated {:?}", it.value, ji.value))?;
        check(it.base_quality == ji.quality, || format!("item {i}: quality {:?} stated {:?}", it.base_quality, ji.quality))?;
        check(it.hazard_filter.as_ref().map(|f| f.0) == ji.quality, || {
            format!("item {i}: hazard filter {:?}, quality {:?}", it.hazard_filter, ji.quality)
        })?;
        check(it.surrogate_config == cde.item_surrogate_config, || format!("item {i}: surrogate config lost"))?;
        check(it.shape.surrogate.is_some(), || format!("item {i} has no surrogate"))?;
        let rot_ok = match (&it.allowed_rotation, &ji.orients) {
            (AllowedRotation::Continuous, None) => true,
            (AllowedRotation::None, Some(o)) => o.iter().all(|d| norm_deg(*d) == 0.0),
            (AllowedRotation::Discrete(r), Some(o)) => {
                let got: Vec<f64> = r.iter().map(|a| (*a as f64).to_degrees()).collect();
                let want = if o.is_empty() { vec![0.0] } else { o.clone() };
                same_angle_set(&got, &want)
            }
            _ => false,
        };
        check(rot_ok, || format!("item {i}: allowed orientations {:?} became {:?}", ji.orients, it.allowed_rotation))?;
        let l = max_abs(&ji.poly);
        let got = input_frame(&it.shape, &it.pretransform);
        simplified += outline_ok(&format!("item {i}"), &got, &ji.poly, tol, Mode::Grow, l)? as u64;
        if centred {
            let c = centroid(&unsp(&it.shape));
            check(norm(c) <= 1e-3 * l, || format!("item {i} is not centred: centroid {c:?}"))?;
        } else {
            check(norm(it.pretransform.decompose().translation().into_f64()) == 0.0, || format!("item {i} was moved without centring"))?;
        }
        check(it.pretransform.decompose().rotation() == 0.0, || format!("item {i} was rotated on input"))?;
        let a: f64 = signed_area(&unsp(&it.shape)).abs();
        check((it.shape.area as f64 - a).abs() <= 1e-3 * a, || format!("item {i}: area"))?;
    }
    match (inst, &j.bins, &j.strip) {
        (Instance::BP(b), Some(bins), None) => {
            check(b.bins.len() == bins.len(), || "number of bins changed".into())?;
            for (i, ((bin, stock), jb)) in b.bins.iter().zip(bins).enumerate() {
                check(bin.id == i, || format!("bin {i} got id {}", bin.id))?;
                check(*stock as u64 == jb.stock.unwrap_or(u64::MAX), || format!("bin {i}: stock {stock} stated {:?}", jb.stock))?;
                check(bin.value == jb.cost, || format!("bin {i}: stated cost {}, parsed {}", jb.cost, bin.value))?;
                check(bin.base_cde.config() == cde, || format!("bin {i}: engine configuration lost"))?;
                let mut l = max_abs(&jb.outer);
                for q in jb.holes.iter().chain(jb.zones.iter().map(|z| &z.1)) {
                    l = l.max(max_abs(q));
                }
                let pre = &bin.pretransform;
                simplified += outline_ok(&format!("bin {i}"), &input_frame(&bin.outer, pre), &jb.outer, tol, Mode::Shrink, l)? as u64;
                if centred {
                    let c = centroid(&unsp(&bin.outer));
                    check(norm(c) <= 1e-3 * l, || format!("bin {i} is not centred: centroid {c:?}"))?;
                }
                check(bin.holes.len() == jb.holes.len(), || format!("bin {i}: {} holes, stated {}", bin.holes.len(), jb.holes.len()))?;
                for (h, jh) in bin.holes.iter().zip(&jb.holes) {
                    simplified += outline_ok(&format!("hole of bin {i}"), &input_frame(h, pre), jh, tol, Mode::Grow, l)? as u64;
                }
                for q in 0..10usize {
                    let want: Vec<&Poly> = jb.zones.iter().filter(|z| z.0 == q).map(|z| &z.1).collect();
                    let got: Vec<_> = match &bin.quality_zones[q] {
                        None => vec![],
                        Some(z) => {
                            check(z.quality == q, || format!("bin {i}: zone of quality {} filed under {q}", z.quality))?;
                            z.zones.iter().collect()
                        }
                    };
                    check(got.len() == want.len(), || format!("bin {i}: {} zones of quality {q}, stated {}", got.len(), want.len()))?;
                    for (g, w) in got.iter().zip(want) {
                        simplified += outline_ok(&format!("zone of quality {q} of bin {i}"), &input_frame(g, pre), w, tol, Mode::Grow, l)? as u64;
                    }
                }
                let n = bin.base_cde.all_hazards().count();
                check(n == 1 + jb.holes.len() + jb.zones.len(), || format!("bin {i}: {n} hazards in its engine"))?;
            }
        }
        (Instance::SP(sp), None, Some(h)) => {
            check((sp.strip_height as f64 - h).abs() <= 1e-6 * h, || format!("strip height {} stated {h}", sp.strip_height))?;
        }
        _ => return Err("kind of problem changed".into()),
    }
    let area: f64 = inst.items().iter().map(|(it, q)| signed_area(&unsp(&it.shape)).abs() * *q as f64).sum();
    check((inst.item_area() as f64 - area).abs() <= 1e-3 * area, || format!("total item area {} exact {area}", inst.item_area()))?;
    let total: u64 = j.items.iter().map(|i| i.demand).sum();
    check(inst.total_item_qty() as u64 == total, || "total number of items".into())?;
    Ok(simplified)
}

trait IntoF64 {
    fn into_f64(self) -> P;
}
impl IntoF64 for (F, F) {
    fn into_f64(self) -> P {
        (self.0 as f64, self.1 as f64)
    }
}

pub fn c11_parse(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let j = if s.chance(1, 30) {
        real_instance(s, 8, 100)
    } else {
        let opts = JOpts { strip: None, max_items: 4, max_demand: 50, size: (0.05, 0.6), max_quality: 9 };
        gen_instance(s, &opts)
    };
    let (cfg, tol) = simpl(s);
    let cde = light_cde(s);
    let centred = s.chance(1, 2);
    let text = if s.chance(1, 2) { j.text() } else { serde_json::to_string_pretty(&j.json).unwrap() };
    c.sample(|| format!("simplification {tol:?} centred {centred} {text}"));
    let ji = read(&text)?;
    let inst = Parser::new(cfg, cde, centred).parse(&ji);
    let n = check_parsed(&inst, &j, tol, centred, cde).map_err(|e| format!("{e}; simplification {tol:?} centred {centred} instance {text}"))?;
    c.label(if j.strip.is_some() { "strip" } else { "bins" });
    c.add("simplified outlines", n);
    c.nontrivial = n > 0
        || j.items.iter().any(|i| i.orients.as_ref().map_or(false, |o| o.len() > 1))
        || j.bins.as_ref().map_or(false, |b| b.iter().any(|b| !b.holes.is_empty() || !b.zones.is_empty()));
    // writing the instance back and reading it again changes nothing
    let again = read(&serde_json::to_string(&ji).map_err(|e| e.to_string())?)?;
    let inst = Parser::new(cfg, cde, centred).parse(&again);
    check_parsed(&inst, &j, tol, centred, cde).map_err(|e| format!("after writing the instance back: {e}; instance {text}"))?;
    Ok(())
}

/// malformed input is refused rather than read as something else
fn c11_reject(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let j = gen_instance(
        s,
        &JOpts { strip: None, max_items: 3, max_demand: 5, size: (0.05, 0.6), max_quality: 9 },
    );
    let mut v = j.json.clone();
    let k = s.below(j.items.len() as u64) as usize;
    let nb = j.bins.as_ref().map_or(0, |b| b.len());
    let shape_bin = if nb > 0 && s.chance(1, 2) { Some(s.below(nb as u64) as usize) } else { None };
    let tri = json!([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]);
    let kind = s.below(12);
    let name = match kind {
        0 => {
            v["Strip"] = json!({"Height": 10.0});
            v["Objects"] = json!([{"Cost": 1, "Shape": {"Type": "SimplePolygon", "Data": tri}}]);
            "both bins and strip"
        }
        1 => {
            v.as_object_mut().unwrap().remove("Strip");
            v.as_object_mut().unwrap().remove("Objects");
            "neither bins nor strip"
        }
        2..=5 => {
            let p = vec![(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (0.0, 4.0)];
            let (name, pts): (&str, Vec<P>) = match kind {
                2 => ("two points", vec![p[0], p[1]]),
                3 => ("closed two points", vec![p[0], p[1], p[0]]),
                4 => ("repeated vertex", vec![p[0], p[1], p[2], p[1], p[3]]),
                _ => ("zero area", vec![p[0], (2.0, 0.0), p[1]]),
            };
            let sh = json!({"Type": "SimplePolygon", "Data": json_pts(&pts)});
            match shape_bin {
                Some(b) => v["Objects"][b]["Shape"] = sh,
                None => v["Items"][k]["Shape"] = sh,
            }
            name
        }
        6 => {
            if nb == 0 {
                return Ok(());
            }
            let b = s.below(nb as u64) as usize;
            let q = 10 + s.below(3);
            v["Objects"][b]["Zones"] = json!([{"Quality": q, "Shape": {"Type": "SimplePolygon", "Data": tri}}]);
            "zone quality out of range"
        }
        7 => {
            let sh = json!({"Type": "MultiPolygon", "Data": [{"Outer": tri}]});
            match shape_bin {
                Some(b) => v["Objects"][b]["Shape"] = sh,
                None => v["Items"][k]["Shape"] = sh,
            }
            "multi polygon"
        }
        8 => {
            v["Items"][k]["Shape"] = json!({"Type": "Polygon", "Data": {"Outer": [[0.0,0.0],[4.0,0.0],[0.0,4.0]], "Inner": [[[0.5,0.5],[1.0,0.5],[0.5,1.0]]]}});
            "item with a hole"
        }
        9 => {
            let f = *s.pick(&["Demand", "Shape"]);
            v["Items"][k].as_object_mut().unwrap().remove(f);
            "missing field"
        }
        10 => {
            v["Items"][k]["Demand"] = json!(-1);
            "negative demand"
        }
        _ => {
            v["Items"][k]["Shape"] = json!({"Type": "Circle", "Data": {"Radius": 1.0}});
            "unknown shape"
        }
    };
    let (cfg, _) = simpl(s);
    let cde = light_cde(s);
    let centred = s.chance(1, 2);
    let text = v.to_string();
    let r = guarded(|| match serde_json::from_str::<JsonInstance>(&text) {
        Err(_) => None,
        Ok(ji) => Some(Parser::new(cfg, cde, centred).parse(&ji)),
    });
    c.label(name);
    c.nontrivial = true;
    c.sample(|| format!("{name}: {text}"));
    match r {
        Err(_) | Ok(None) => Ok(()),
        Ok(Some(_)) => Err(format!("malformed instance accepted ({name}): {text}")),
    }
}

// ------------------------------------------------------------------------------------- C12

struct Built {
    j: JInst,
    tol: Option<f64>,
    cde: CDEConfig,
    centred: bool,
    cfg: PolySimplConfig,
    extra: bool,
    inst: Instance,
    problem: Option<Problem>,
    sol: Solution,
}

fn any_rigid(s: &mut Src, w: f64) -> Transformation {
    let r = rotation(s);
    let (x, y) = (s.sym(w), s.sym(w));
    dt(r, (x, y)).compose()
}

/// an instance with a random (not necessarily feasible) arrangement of items
fn build(s: &mut Src, hpg: bool) -> Built {
    let crowd = s.chance(1, 24);
    let j = gen_instance(
        s,
        &JOpts { strip: None, max_items: 4, max_demand: if crowd { 49 } else { 4 }, size: (0.05, 0.6), max_quality: 9 },
    );
    let (cfg, tol) = simpl(s);
    let mut cde = light_cde(s);
    if hpg && cde.hpg_n_cells == 0 {
        cde.hpg_n_cells = 10;
    }
    let centred = s.chance(2, 3);
    let ji: JsonInstance = serde_json::from_str(&j.text()).expect("instance");
    let mut inst = Parser::new(cfg, cde, centred).parse(&ji);
    let extra = s.chance(1, 3);
    if extra {
        // additional preprocessing by the user of the library
        let w = j.w;
        inst = match inst {
            Instance::BP(b) => {
                let items = b.items.iter().map(|(i, q)| (parser::pretransform_item(i, &any_rigid(s, w)), *q)).collect();
                let bins = b.bins.iter().map(|(i, q)| (parser::pretransform_bin(i, &any_rigid(s, w)), *q)).collect();
                BPInstance::new(items, bins).into()
            }
            Instance::SP(p) => {
                let items = p.items.iter().map(|(i, q)| (parser::pretransform_item(i, &any_rigid(s, w)), *q)).collect();
                SPInstance::new(items, p.strip_height).into()
            }
        };
    }
    let mut problem: Problem = match &inst {
        Instance::BP(b) => BPProblem::new(b.clone()).into(),
        Instance::SP(p) => {
            let w = rf(s.float(0.5, 3.0) * j.w);
            SPProblem::new(p.clone(), w as F, cde).into()
        }
    };
    if let Problem::SP(p) = &mut problem {
        if s.chance(1, 2) {
            let x0 = rf(s.sym(2.0 * j.w));
            let w = rf(s.float(0.5, 3.0) * j.w);
            let h = p.strip_height();
            p.modify_strip(AARectangle::new(x0 as F, 0.0, (x0 + w) as F, h));
        }
    }
    let n = if crowd { s.usize(9, 120) } else { s.usize(1, 9) };
    for _ in 0..n {
        let missing: Vec<usize> = (0..j.items.len()).filter(|i| problem.missing_item_qtys()[*i] > 0).collect();
        let open = problem.layouts().len();
        if matches!(problem, Problem::BP(_)) && open > 0 && s.chance(1, 6) {
            let l = s.below(open as u64) as usize;
            let keys: Vec<_> = problem.layouts()[l].placed_items().keys().collect();
            if !keys.is_empty() {
                let k = *s.pick(&keys);
                problem.remove_item(LayoutIndex::Real(l), k, s.chance(1, 2));
                problem.flush_changes();
                continue;
            }
        }
        if missing.is_empty() {
            break;
        }
        let it = *s.pick(&missing);
        let layout_idx = match &problem {
            Problem::SP(_) => STRIP_LAYOUT_IDX,
            Problem::BP(_) => {
                let t: Vec<LayoutIndex> = problem.template_layout_indices_with_stock().collect();
                if open > 0 && (t.is_empty() || s.chance(2, 3)) {
                    LayoutIndex::Real(s.below(open as u64) as usize)
                } else if t.is_empty() {
                    break;
                } else {
                    *s.pick(&t)
                }
            }
        };
        let outer = unsp(&problem.get_layout(layout_idx).bin.outer);
        let p = unsp(&inst.item(it).shape);
        let (r, t) = placement(s, &p, &[&outer], j.w);
        // stay near the container so that coordinates keep their precision
        problem.place_item(PlacingOption { layout_idx, item_id: it, d_transf: dt(r, t) });
        problem.flush_changes();
    }
    let sol = problem.create_solution(None);
    Built { j, tol, cde, centred, cfg, extra, inst, problem: Some(problem), sol }
}

fn bin_inverse(bin: &Bin, strip: bool) -> Rigid {
    if strip {
        // the strip's lower left corner is the origin of the output
        let b = bbox(&unsp(&bin.outer));
        return Rigid { r: 0.0, t: (b.0, b.1) };
    }
    rigid_of(&bin.pretransform.decompose())
}

/// (item, outline in input coordinates) of everything placed in a layout
fn absolute(sl: &LayoutSnapshot, strip: bool) -> Vec<(usize, Poly)> {
    let inv = bin_inverse(&sl.bin, strip);
    sl.placed_items.values().map(|pi| (pi.item_id, inv.unapply_all(&unsp(&pi.shape)))).collect()
}

fn scale_of(b: &Built) -> f64 {
    let mut l = b.j.w;
    for it in &b.j.items {
        l = l.max(max_abs(&it.poly));
    }
    for bin in b.j.bins.iter().flatten() {
        l = l.max(max_abs(&bin.outer));
    }
    for sl in &b.sol.layout_snapshots {
        l = l.max(max_abs(&unsp(&sl.bin.outer)));
        for pi in sl.placed_items.values() {
            l = l.max(max_abs(&unsp(&pi.shape)));
            let (x, y) = pi.d_transf.translation();
            l = l.max(x.abs() as f64).max(y.abs() as f64);
        }
    }
    for (it, _) in b.inst.items() {
        l = l.max(max_abs(&unsp(&it.shape)));
    }
    l
}

/// matches two lists of placed outlines (same item, same position) irrespective of order
fn match_placed(a: &[(usize, Poly)], b: &[(usize, Poly)], ok: impl Fn(usize, &Poly, &Poly) -> bool) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} items instead of {}", b.len(), a.len()));
    }
    let mut used = vec![false; b.len()];
    for (id, p) in a {
        let m = (0..b.len()).find(|k| !used[*k] && b[*k].0 == *id && ok(*id, p, &b[*k].1));
        match m {
            Some(k) => used[k] = true,
            None => {
                let cand: Vec<String> = b.iter().filter(|x| x.0 == *id).map(|x| fmt_poly(&x.1)).collect();
                return Err(format!("item {id} at {} has no counterpart among {cand:?}", fmt_poly(p)));
            }
        }
    }
    Ok(())
}

pub fn c12_roundtrip(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let b = build(s, false);
    let strip = b.j.strip.is_some();
    let sol = &b.sol;
    let placed: usize = sol.layout_snapshots.iter().map(|l| l.placed_items.len()).sum();
    if placed == 0 {
        c.label("nothing placed");
    }
    c.label(if strip { "strip" } else { "bins" });
    c.add("placed items", placed as u64);
    c.nontrivial = placed > 1;
    let l = scale_of(&b);
    let tol = 3e-5 * l * if cfg!(feature = "dp") { 0.1 } else { 6.0 };
    let secs = s.below(5000);
    let nanos = s.below(1_000_000_000) as u32;
    let Some(epoch) = sol.time_stamp.checked_sub(Duration::new(secs, nanos)) else {
        return Ok(());
    };
    let js = parser::compose_json_solution(sol, &b.inst, epoch);
    let text = serde_json::to_string_pretty(&js).map_err(|e| e.to_string())?;
    let desc = || format!("simplification {:?} centred {} extra pretransforms {} instance {} solution {text}", b.tol, b.centred, b.extra, b.j.text());
    c.sample(desc);
    let js: JsonSolution = serde_json::from_str(&text).map_err(|e| format!("written solution cannot be read: {e}; {}", desc()))?;
    check(js.run_time_sec == secs, || format!("run time {} instead of {secs}; {}", js.run_time_sec, desc()))?;
    check((js.usage as f64 - sol.usage as f64).abs() <= 1e-6 + 1e-5 * (sol.usage as f64).abs(), || format!("usage {} written as {}; {}", sol.usage, js.usage, desc()))?;
    check(js.layouts.len() == sol.layout_snapshots.len(), || format!("{} layouts written as {}; {}", sol.layout_snapshots.len(), js.layouts.len(), desc()))?;
    for (i, (jl, sl)) in js.layouts.iter().zip(&sol.layout_snapshots).enumerate() {
        match jl.container {
            JsonContainer::Bin { index } => check(!strip && index == sl.bin.id, || format!("layout {i}: bin {index} written for bin {}; {}", sl.bin.id, desc()))?,
            JsonContainer::Strip { width, height } => {
                let bb = bbox(&unsp(&sl.bin.outer));
                check(
                    strip
                        && (width as f64 - (bb.2 - bb.0)).abs() <= tol
                        && (height as f64 - b.j.strip.unwrap_or(-1.0)).abs() <= tol,
                    || format!("strip written as {width} x {height}; {}", desc()),
                )?;
            }
        }
        check((jl.statistics.usage as f64 - sl.usage as f64).abs() <= 1e-6 + 1e-5 * (sl.usage as f64).abs(), || format!("layout {i}: usage; {}", desc()))?;
        let abs = absolute(sl, strip);
        // the written transformation applied to the shape in the input file
        let written: Vec<(usize, Poly)> = jl
            .placed_items
            .iter()
            .map(|p| {
                let t = p.transformation.translation;
                let r = Rigid { r: p.transformation.rotation as f64, t: (t.0 as f64, t.1 as f64) };
                match b.j.items.get(p.index) {
                    Some(it) => (p.index, r.apply_all(&it.poly)),
                    None => (p.index, vec![]),
                }
            })
            .collect();
        match_placed(&abs, &written, |_, a, w| match b.tol {
            None => same_outline(a, w, tol),
            Some(t) => same_outline(a, w, tol) || (contained_in(w, a, tol).is_ok() && (signed_area(a).abs() - signed_area(w).abs()) <= t * signed_area(w).abs() * 1.001 + tol * perimeter(w)),
        })
        .map_err(|e| format!("layout {i}: the written placements do not reproduce the layout: {e}; {}", desc()))?;
        // the bin itself is where the input file says
        if !strip && b.tol.is_none() {
            let outer = bin_inverse(&sl.bin, false).unapply_all(&unsp(&sl.bin.outer));
            let want = &b.j.bins.as_ref().unwrap()[sl.bin.id].outer;
            check(same_outline(&outer, want, tol), || format!("layout {i}: bin outline moved: {} ; {}", fmt_poly(&outer), desc()))?;
        }
    }
    if strip && placed == 0 {
        return Ok(());
    }
    // reading the solution back
    let back = if b.extra || s.chance(1, 2) {
        parser::build_solution_from_json(&b.inst, &js.layouts, b.cde)
    } else {
        let ji: JsonInstance = read(&b.j.text())?;
        Parser::new(b.cfg, b.cde, b.centred).parse_and_build_solution(&ji, &js.layouts).1
    };
    check(back.layout_snapshots.len() == sol.layout_snapshots.len(), || format!("{} layouts after reading back {}; {}", back.layout_snapshots.len(), sol.layout_snapshots.len(), desc()))?;
    for (i, (x, y)) in sol.layout_snapshots.iter().zip(&back.layout_snapshots).enumerate() {
        check(x.bin.id == y.bin.id, || format!("layout {i} read back in bin {} instead of {}; {}", y.bin.id, x.bin.id, desc()))?;
        if strip {
            let (p, q) = (bbox(&unsp(&x.bin.outer)), bbox(&unsp(&y.bin.outer)));
            check(((p.2 - p.0) - (q.2 - q.0)).abs() <= tol && ((p.3 - p.1) - (q.3 - q.1)).abs() <= tol, || format!("strip size changed on reading back; {}", desc()))?;
        }
        match_placed(&absolute(x, strip), &absolute(y, strip), |_, a, w| same_outline(a, w, tol))
            .map_err(|e| format!("layout {i} differs after reading back: {e}; {}", desc()))?;
        check((x.usage as f64 - y.usage as f64).abs() <= 1e-3 * (x.usage as f64).abs() + 1e-6, || format!("layout {i}: usage {} became {}; {}", x.usage, y.usage, desc()))?;
    }
    check(back.placed_item_qtys == sol.placed_item_qtys, || format!("placed quantities {:?} read back as {:?}; {}", sol.placed_item_qtys, back.placed_item_qtys, desc()))?;
    check(back.target_item_qtys == sol.target_item_qtys, || format!("target quantities; {}", desc()))?;
    check(back.bin_qtys == sol.bin_qtys, || format!("bin quantities {:?} read back as {:?}; {}", sol.bin_qtys, back.bin_qtys, desc()))?;
    check((back.usage as f64 - sol.usage as f64).abs() <= 1e-3 * (sol.usage as f64).abs() + 1e-6, || format!("usage {} became {}; {}", sol.usage, back.usage, desc()))?;
    let _ = &b.problem;
    Ok(())
}

/// converting between internal and absolute placements is an exact inverse for any pretransform
fn c12_frames(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = scale_w(s);
    let gen = |s: &mut Src| {
        let r = rotation(s);
        let (x, y) = (s.sym(w), s.sym(w));
        (dt(r, (x, y)), Rigid { r: rf(r), t: rp((x, y)) })
    };
    let (pd, p) = gen(s);
    let (id, i) = gen(s);
    let (bd, b) = gen(s);
    let (ip, bp) = (id.compose(), bd.compose());
    let abs = parser::internal_to_absolute_transform(&pd, &ip, &bp).decompose();
    let back = parser::absolute_to_internal_transform(&abs, &ip, &bp).decompose();
    let (ra, rb) = (rigid_of(&abs), rigid_of(&back));
    c.nontrivial = i.r != 0.0 || b.r != 0.0;
    c.label(if c.nontrivial { "rotated frames" } else { "translated frames" });
    let d = || format!("placement {p:?} item pretransform {i:?} bin pretransform {b:?}: absolute {ra:?} back {rb:?}");
    c.sample(d);
    let tol = 4e-5 * w * if cfg!(feature = "dp") { 0.01 } else { 1.0 };
    for _ in 0..4 {
        let x = (s.sym(w), s.sym(w));
        let want = b.unapply(p.apply(i.apply(x)));
        let got = ra.apply(x);
        check(dist(want, got) <= tol, || format!("absolute transformation maps {x:?} to {got:?}, expected {want:?}: {}", d()))?;
        let (u, v) = (p.apply(x), rb.apply(x));
        check(dist(u, v) <= tol, || format!("internal placement not recovered: {x:?} goes to {v:?} instead of {u:?}: {}", d()))?;
        // and starting from an absolute placement
        let q = rigid_of(&parser::absolute_to_internal_transform(&pd, &ip, &bp).decompose());
        let want = b.apply(p.apply(i.unapply(x)));
        let got = q.apply(x);
        check(dist(want, got) <= tol, || format!("internal transformation maps {x:?} to {got:?}, expected {want:?}: {}", d()))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C20

pub fn c20_svg(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let b = build(s, true);
    let strip = b.j.strip.is_some();
    let Some(sl) = b.sol.layout_snapshots.first() else {
        return Ok(());
    };
    let sl = if b.sol.layout_snapshots.len() > 1 { s.pick(&b.sol.layout_snapshots) } else { sl };
    let mut opts = SvgDrawOptions {
        quadtree: s.chance(1, 4),
        haz_prox_grid: s.chance(1, 4),
        surrogate: s.chance(1, 3),
        ..Default::default()
    };
    if s.chance(1, 2) {
        opts.theme = SvgLayoutTheme::gray();
    }
    let l = scale_of(&b);
    let tol = 3e-5 * l * if cfg!(feature = "dp") { 0.1 } else { 6.0 };
    let text = s_layout_to_svg(sl, &b.inst, opts).to_string();
    let desc = || format!("options {opts:?} instance {} drawing {text}", b.j.text());
    c.add("placed items", sl.placed_items.len() as u64);
    c.nontrivial = sl.placed_items.len() > 1;
    c.label(if strip { "strip" } else { "bins" });
    c.sample(desc);
    let frame = bin_inverse(&sl.bin, strip);
    drawing_ok(&text, &b, sl, strip, &frame, tol, &opts).map_err(|e| format!("{e}; {}", desc()))
}

fn drawing_ok(text: &str, b: &Built, sl: &LayoutSnapshot, strip: bool, frame: &Rigid, tol: f64, opts: &SvgDrawOptions) -> Result<(), String> {
    let doc = parse_xml(text)?;
    let inv = |p: &SimplePolygon| frame.unapply_all(&unsp(p));
    let drawn = Drawing::read(&doc)?;
    // the bin, its holes and zones
    let outer = inv(&sl.bin.outer);
    let id = format!("bin_{}", sl.bin.id);
    let bin_paths = drawn.group_outlines(&id)?;
    let mut expected = vec![outer.clone()];
    expected.extend(sl.bin.holes.iter().map(|h| inv(h)));
    same_outlines("bin and holes", &bin_paths, &expected, tol)?;
    let zones: Vec<Poly> = sl.bin.quality_zones.iter().flatten().flat_map(|z| z.zones.iter().map(|p| inv(p))).collect();
    same_outlines("quality zones", &drawn.group_outlines("quality_zones")?, &zones, tol)?;
    // every placed item, once, where it was placed
    let items = drawn.uses("items")?;
    let want = absolute(sl, strip);
    let got: Vec<(usize, Poly)> = items
        .iter()
        .map(|(href, p)| {
            let id: usize = href.strip_prefix("item_").and_then(|x| x.parse().ok()).ok_or_else(|| format!("reference to {href}"))?;
            Ok((id, p.first().cloned().unwrap_or_default()))
        })
        .collect::<Result<_, String>>()?;
    match_placed(&want, &got, |_, a, g| same_outline(a, g, tol)).map_err(|e| format!("drawn items differ from the layout: {e}"))?;
    // the view shows the whole bin
    let vb = drawn.view_box;
    let bb = bbox(&outer);
    check(
        vb.0 <= bb.0 + tol && vb.1 <= bb.1 + tol && vb.0 + vb.2 >= bb.2 - tol && vb.1 + vb.3 >= bb.3 - tol,
        || format!("view box {vb:?} does not show the bin {bb:?}"),
    )?;
    if opts.surrogate {
        let surr = drawn.use_circles("surrogates")?;
        check(surr.len() == want.len(), || format!("{} surrogates drawn for {} items", surr.len(), want.len()))?;
        // poles lie inside the item they belong to
        for (href, circles) in &surr {
            let id: usize = href.strip_prefix("surrogate_").and_then(|x| x.parse().ok()).ok_or_else(|| format!("reference to {href}"))?;
            let ok = want.iter().filter(|w| w.0 == id).any(|w| {
                circles.iter().all(|(q, r)| pip(*q, &w.1) && pt_boundary(*q, &w.1) >= r - 10.0 * tol - 1e-3 * r)
            });
            check(ok, || format!("{href} drawn with poles outside of the item: {circles:?}"))?;
        }
    }
    if opts.quadtree {
        // leaves partition the engine's box; free leaves touch no hazard, full leaves lie in one
        let leaves = drawn.filled_outlines("quadtree")?;
        let side = (bb.2 - bb.0).max(bb.3 - bb.1);
        let total: f64 = leaves.iter().map(|(_, p)| signed_area(p).abs()).sum();
        if b.j.strip.is_some() || !b.extra {
            check((total - side * side).abs() <= 1e-2 * side * side, || format!("drawn quadtree covers {total}, box is {}", side * side))?;
        }
        let mut solid: Vec<Poly> = sl.bin.holes.iter().map(|h| inv(h)).collect();
        solid.extend(zones.iter().cloned());
        solid.extend(want.iter().map(|w| w.1.clone()));
        let m = 1e-3 * tol.max(side);
        for (fill, p) in &leaves {
            let q = centroid(p);
            let depth = |z: &Poly| pt_boundary(q, z);
            let clear_in = |z: &Poly| pip(q, z) && depth(z) > m;
            let hit = (!pip(q, &outer) && depth(&outer) > m) || solid.iter().any(clear_in);
            let free = (pip(q, &outer) && depth(&outer) > m) && solid.iter().all(|z| !pip(q, z) && depth(z) > m);
            match fill.as_str() {
                "green" => check(!hit, || format!("free leaf drawn over a hazard at {q:?}"))?,
                "red" => check(!free, || format!("fully covered leaf drawn in free space at {q:?}"))?,
                _ => {}
            }
        }
    }
    if opts.haz_prox_grid {
        let circles = drawn.circles("haz_prox_grid")?;
        // one circle per cell of the layout's own grid, as large as the distance the cell states
        let layout = Layout::from_snapshot(sl);
        let grid = layout.cde().haz_prox_grid().map_err(|_| "grid has pending changes".to_string())?;
        let cells: Vec<(P, f64)> = grid
            .grid
            .cells
            .iter()
            .flatten()
            .map(|x| (frame.unapply((x.centroid.0 as f64, x.centroid.1 as f64)), x.hazard_proximity(None) as f64))
            .collect();
        for (q, r) in &cells {
            check(circles.iter().any(|x| dist(x.0, *q) <= tol && (x.1 - r).abs() <= tol), || {
                format!("cell at {q:?} with proximity {r} is not drawn as such: {:?}", circles.iter().filter(|x| dist(x.0, *q) <= tol).collect::<Vec<_>>())
            })?;
        }
        for (q, r) in &circles {
            check(cells.iter().any(|x| dist(x.0, *q) <= tol), || format!("circle of radius {r} drawn at {q:?}, where the grid has no cell"))?;
        }
    }
    Ok(())
}

// ---- the command line program

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn scratch() -> Scratch {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let d = std::env::temp_dir().join(format!("jagua-verif-{}-{k}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    Scratch(d)
}

fn cli_path() -> std::path::PathBuf {
    if let Some(p) = std::env::var_os("HARNESS_CLI") {
        return p.into();
    }
    std::env::current_exe().expect("own path").with_file_name("lbf_cli")
}

fn run_cli(dir: &std::path::Path, args: &[String]) -> Result<(bool, String), String> {
    use std::process::{Command, Stdio};
    let mut ch = Command::new(cli_path())
        .args(args)
        .current_dir(dir)
        .env("RAYON_NUM_THREADS", "2")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start lbf_cli");
    let t0 = std::time::Instant::now();
    let mut pipe = ch.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut pipe, &mut s);
        s
    });
    loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            return Ok((st.success(), reader.join().unwrap_or_default()));
        }
        if t0.elapsed() > Duration::from_secs(150) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the program did not terminate within 150 s".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn files_in(d: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d)
        .map(|r| r.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn c20_cli(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let strip = s.chance(1, 2);
    let j = gen_instance(
        s,
        &JOpts { strip: Some(strip), max_items: 3, max_demand: 3, size: (0.05, 0.45), max_quality: 9 },
    );
    let with_config = !s.chance(1, 25);
    let mut cfg = LBFConfig::default();
    if with_config {
        cfg.cde_config = lbf_cde(s);
        cfg.poly_simpl_tolerance = if s.chance(1, 2) { None } else { Some(*s.pick(&[0.001, 0.01, 0.05]) as F) };
        cfg.prng_seed = Some(s.below(1 << 40));
        cfg.n_samples = s.usize(20, 150);
        cfg.ls_frac = *s.pick(&[0.2f32, 0.0, 0.5, 0.9]);
        cfg.svg_draw_options = SvgDrawOptions {
            quadtree: s.chance(1, 5),
            haz_prox_grid: s.chance(1, 5),
            surrogate: s.chance(1, 4),
            ..Default::default()
        };
    }
    let dir = scratch();
    let stem = *s.pick(&["inst", "a.b", "with space", "x_1"]);
    let out = *s.pick(&["out", "deep/er/out"]);
    let input = dir.0.join(format!("{stem}.json"));
    let out_dir = dir.0.join(out);
    if s.chance(1, 3) {
        std::fs::create_dir_all(&out_dir).expect("scratch");
    }
    let mut text = j.text();
    let bad = if s.chance(1, 6) { Some(*s.pick(&["truncated", "missing file", "bad config", "no container", "missing config"])) } else { None };
    let mut cfg_text = serde_json::to_string(&cfg).unwrap();
    match bad {
        Some("truncated") => text.truncate(text.len() / 2),
        Some("bad config") => cfg_text = "{\"n_samples\": 10}".into(),
        Some("no container") => {
            let mut v = j.json.clone();
            v.as_object_mut().unwrap().remove("Strip");
            v.as_object_mut().unwrap().remove("Objects");
            text = v.to_string();
        }
        _ => {}
    }
    if bad != Some("missing file") {
        std::fs::write(&input, &text).expect("scratch");
    }
    let cfg_path = dir.0.join("config.json");
    if bad != Some("missing config") {
        std::fs::write(&cfg_path, &cfg_text).expect("scratch");
    }
    let rel = s.chance(1, 2);
    let show = |p: &std::path::Path| {
        let p = if rel { p.strip_prefix(&dir.0).unwrap() } else { p };
        p.to_str().unwrap().to_string()
    };
    let long = s.chance(1, 3);
    let flag = |sh: &str, lg: &str| if long { format!("--{lg}") } else { format!("-{sh}") };
    let mut args = vec![flag("i", "input-file"), show(&input), flag("s", "solution-folder"), show(&out_dir)];
    if with_config || bad == Some("bad config") || bad == Some("missing config") {
        args.extend([flag("c", "config-file"), show(&cfg_path)]);
    }
    if s.chance(2, 3) {
        args.extend([flag("l", "log-level"), (*s.pick(&["off", "error", "info", "debug"])).to_string()]);
    }
    let desc = || format!("arguments {args:?} config {cfg_text} instance {text}");
    c.sample(desc);
    let (ok, err) = run_cli(&dir.0, &args).map_err(|e| format!("{e}; {}", desc()))?;
    let files = files_in(&out_dir);
    if let Some(b) = bad {
        c.label(&format!("refused: {b}"));
        c.nontrivial = true;
        check(!ok, || format!("{b}: the program reported success; {}", desc()))?;
        return check(files.is_empty(), || format!("{b}: output written all the same: {files:?}; {}", desc()));
    }
    check(ok, || format!("the program failed: {err}; {}", desc()))?;
    // the same run through the library
    let ji = read(&text)?;
    let simpl = match cfg.poly_simpl_tolerance {
        Some(tolerance) => PolySimplConfig::Enabled { tolerance },
        None => PolySimplConfig::Disabled,
    };
    let inst = Parser::new(simpl, cfg.cde_config, true).parse(&ji);
    let sol = LBFOptimizer::new(inst.clone(), cfg, SmallRng::seed_from_u64(cfg.prng_seed.unwrap_or(0))).solve();
    let n: usize = sol.placed_item_qtys.iter().sum();
    c.label(if strip { "strip" } else { "bins" });
    c.add("placed items", n as u64);
    c.nontrivial = n > 1;
    let mut want = vec![format!("sol_{stem}.json")];
    want.extend((0..sol.layout_snapshots.len()).map(|i| format!("sol_{stem}_{i}.svg")));
    want.sort();
    check(files == want, || format!("files written {files:?}, expected {want:?}; {}", desc()))?;
    let written = std::fs::read_to_string(out_dir.join(format!("sol_{stem}.json"))).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&written).map_err(|e| format!("solution file is not JSON: {e}"))?;
    let back: JsonOutput = serde_json::from_str(&written).map_err(|e| format!("solution file cannot be read: {e}; {written}"))?;
    check(serde_json::to_value(&back.instance).unwrap() == serde_json::to_value(&ji).unwrap(), || format!("instance not reproduced in {written}; {}", desc()))?;
    check(serde_json::to_value(back.config).unwrap() == serde_json::to_value(cfg).unwrap(), || format!("configuration not reproduced in {written}; {}", desc()))?;
    let exp = parser::compose_json_solution(&sol, &inst, sol.time_stamp);
    let mut exp = serde_json::to_value(&exp).unwrap();
    let mut got = v["Solution"].clone();
    for x in [&mut exp, &mut got] {
        if let Some(o) = x.as_object_mut() {
            o.remove("RunTimeSec");
        }
    }
    let exp: Value = serde_json::from_str(&exp.to_string()).unwrap();
    check(near_value(&exp, &got), || format!("the program's solution {got} differs from the library's {exp}; {}", desc()))?;
    let b = Built { j, tol: None, cde: cfg.cde_config, centred: true, cfg: simpl, extra: false, inst, problem: None, sol };
    let l = scale_of(&b);
    let tol = 3e-5 * l * if cfg!(feature = "dp") { 0.1 } else { 6.0 };
    for (i, sl) in b.sol.layout_snapshots.iter().enumerate() {
        let svg = std::fs::read_to_string(out_dir.join(format!("sol_{stem}_{i}.svg"))).map_err(|e| e.to_string())?;
        let frame = bin_inverse(&sl.bin, strip);
        drawing_ok(&svg, &b, sl, strip, &frame, tol, &cfg.svg_draw_options).map_err(|e| format!("drawing {i}: {e}; {}; {svg}", desc()))?;
    }
    Ok(())
}

/// equal JSON up to the last digits of floats
fn near_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            (x - y).abs() <= 1e-5 * (1e-3 + x.abs().max(y.abs()))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| near_value(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| near_value(p, q))),
        _ => a == b,
    }
}

fn same_outlines(what: &str, got: &[Poly], want: &[Poly], tol: f64) -> Result<(), String> {
    let g: Vec<(usize, Poly)> = got.iter().map(|p| (0, p.clone())).collect();
    let w: Vec<(usize, Poly)> = want.iter().map(|p| (0, p.clone())).collect();
    match_placed(&w, &g, |_, a, b| same_outline(a, b, tol)).map_err(|e| format!("drawn {what} differ: {e}"))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "the instance has holes, quality zones, several orientations or an outline that simplification changed; or it is malformed in a stated way",
            assumptions: &[
                "coordinates are representable in the library's float type; outlines are simple polygons",
                "base qualities and zone qualities are below 10",
            ],
            subs: vec![
                Sub { name: "parse", quick: 9_000, thorough: 600_000, f: c11_parse },
                Sub { name: "reject", quick: 4_000, thorough: 100_000, f: c11_reject },
            ],
        },
        Prop {
            id: "C12",
            rule: "at least two items are placed (roundtrip); a pretransform rotates (frames)",
            assumptions: &[
                "positions are compared up to 2e-4 of the largest coordinate involved (single precision)",
                "every layout of a bin packing solution holds at least one item",
            ],
            subs: vec![
                Sub { name: "roundtrip", quick: 10_000, thorough: 600_000, f: c12_roundtrip },
                Sub { name: "frames", quick: 1_000_000, thorough: 20_000_000, f: c12_frames },
            ],
        },
        Prop {
            id: "C20",
            rule: "the drawn layout holds at least two items; the run of the program places at least two items",
            assumptions: &["positions are compared up to 2e-4 of the largest coordinate involved (single precision)"],
            subs: vec![
                Sub { name: "svg", quick: 7_000, thorough: 300_000, f: c20_svg },
                Sub { name: "cli", quick: 1_500, thorough: 40_000, f: c20_cli },
            ],
        },
    ]
}

