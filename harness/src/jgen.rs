//! Generated problem instances in the library's JSON input format, with the exact geometry and
//! attributes they describe.

use crate::engine::Src;
use crate::gen::*;
use crate::geom::*;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct JItem {
    pub poly: Poly,
    pub demand: u64,
    /// degrees, as written
    pub orients: Option<Vec<f64>>,
    pub quality: Option<usize>,
    pub value: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct JBin {
    pub outer: Poly,
    pub holes: Vec<Poly>,
    pub zones: Vec<(usize, Poly)>,
    pub stock: Option<u64>,
    pub cost: u64,
}

#[derive(Clone, Debug)]
pub struct JInst {
    pub w: f64,
    pub items: Vec<JItem>,
    pub bins: Option<Vec<JBin>>,
    pub strip: Option<f64>,
    pub json: Value,
}

impl JInst {
    pub fn text(&self) -> String {
        serde_json::to_string(&self.json).unwrap()
    }
}

pub struct JOpts {
    pub strip: Option<bool>,
    pub max_items: usize,
    pub max_demand: u64,
    /// item size relative to the container
    pub size: (f64, f64),
    pub max_quality: usize,
}

pub fn json_pts(p: &[P]) -> Value {
    Value::Array(p.iter().map(|q| json!([q.0, q.1])).collect())
}

/// a shape as the input format spells it: (exact outline, JSON)
fn jshape(s: &mut Src, size: f64, at: Option<P>) -> (Poly, Value) {
    if at.is_none() && s.chance(1, 4) {
        let (a, b) = (rf(s.float(0.3, 1.0) * size), rf(s.float(0.3, 1.0) * size));
        return (
            rect(0.0, 0.0, a, b),
            json!({"Type": "Rectangle", "Data": {"Width": a, "Height": b}}),
        );
    }
    let p = shape(s, size);
    let p = match at {
        Some(c) => moved(&p, c.0, c.1),
        None => {
            if s.chance(1, 2) {
                let (dx, dy) = (s.sym(size), s.sym(size));
                moved(&p, dx, dy)
            } else {
                p
            }
        }
    };
    let mut pts = p.clone();
    if s.chance(1, 2) {
        // closed ring notation
        pts.push(p[0]);
    }
    (p, json!({"Type": "SimplePolygon", "Data": json_pts(&pts)}))
}

fn ring(s: &mut Src, p: &[P]) -> Value {
    let mut q = p.to_vec();
    if s.chance(1, 2) {
        q.push(p[0]);
    }
    json_pts(&q)
}

pub fn orientations(s: &mut Src) -> Option<Vec<f64>> {
    match s.weighted(&[3, 2, 1, 2, 3, 2]) {
        0 => None,
        1 => Some(vec![0.0]),
        2 => Some(vec![]),
        3 => Some(vec![0.0, 180.0]),
        4 => Some(vec![0.0, 90.0, 180.0, 270.0]),
        _ => {
            let n = s.count(1, 4, 40, 16);
            Some((0..n).map(|_| rf(*s.pick(&[45.0, 90.0, 30.0, 200.0, -60.0, 123.4]))).collect())
        }
    }
}

/// large items, at most one to a bin: many layouts
fn many_bins(s: &mut Src, o: &JOpts) -> JInst {
    let w = *s.pick(&[100.0, 10.0, 1000.0]);
    let n = s.usize(1, 2);
    let mut items = vec![];
    let mut jitems = vec![];
    for _ in 0..n {
        let (a, b) = (rf(s.float(0.55, 0.75) * w), rf(s.float(0.55, 0.75) * w));
        let demand = s.usize(5, 10) as u64;
        let quality = if s.chance(1, 2) { Some(s.usize(0, o.max_quality)) } else { None };
        let mut j = json!({"Demand": demand, "AllowedOrientations": [0.0], "Shape": {"Type": "Rectangle", "Data": {"Width": a, "Height": b}}});
        if let Some(q) = quality {
            j["BaseQuality"] = json!(q);
        }
        jitems.push(j);
        items.push(JItem { poly: rect(0.0, 0.0, a, b), demand, orients: Some(vec![0.0]), quality, value: None });
    }
    let mut bins = vec![];
    let mut jbins = vec![];
    for _ in 0..s.usize(1, 2) {
        let stock = if s.chance(1, 2) { Some(s.usize(1, 12) as u64) } else { None };
        let cost = s.below(500);
        let mut jb = json!({"Cost": cost, "Shape": {"Type": "Rectangle", "Data": {"Width": w, "Height": w}}});
        if let Some(k) = stock {
            jb["Stock"] = json!(k);
        }
        jbins.push(jb);
        bins.push(JBin { outer: rect(0.0, 0.0, w, w), holes: vec![], zones: vec![], stock, cost });
    }
    let j = json!({"Name": "many bins", "Items": jitems, "Objects": jbins});
    JInst { w, items, bins: Some(bins), strip: None, json: j }
}

pub fn gen_instance(s: &mut Src, o: &JOpts) -> JInst {
    if o.strip != Some(true) && s.chance(1, 24) {
        return many_bins(s, o);
    }
    let w = *s.pick(&[100.0, 10.0, 1000.0, 2.0, 20000.0, 0.0078125]);
    let is_strip = o.strip.unwrap_or_else(|| s.chance(1, 2));
    let ni = s.count(1, o.max_items, 4 * o.max_items, 20);
    let mut items = vec![];
    let mut jitems = vec![];
    for _ in 0..ni {
        let size = s.float(o.size.0, o.size.1) * w;
        let (poly, js) = jshape(s, size, None);
        let huge = o.max_demand >= 50 && s.chance(1, 8);
        let max = if huge { 1 << *s.pick(&[20, 40]) } else { o.max_demand };
        let demand = 1 + s.below(max);
        let orients = orientations(s);
        let quality = if s.chance(1, 2) { Some(s.usize(0, o.max_quality)) } else { None };
        let vmax = if s.chance(1, 8) { 1 << 40 } else { 1000 };
        let value = if s.chance(1, 2) { Some(s.below(vmax)) } else { None };
        let mut j = json!({"Demand": demand, "Shape": js});
        if let Some(v) = &orients {
            j["AllowedOrientations"] = json!(v);
        }
        if let Some(q) = quality {
            j["BaseQuality"] = json!(q);
        }
        if let Some(v) = value {
            j["Value"] = json!(v);
        }
        jitems.push(j);
        items.push(JItem { poly, demand, orients, quality, value });
    }
    let mut j = json!({"Name": "generated", "Items": jitems});
    if is_strip {
        let h = rf(w);
        j["Strip"] = json!({"Height": h});
        return JInst { w, items, bins: None, strip: Some(h), json: j };
    }
    let mut bins = vec![];
    let mut jbins = vec![];
    for _ in 0..s.count(1, 3, 10, 16) {
        let kind = s.below(3);
        let (outer, mut js) = if kind == 0 {
            let (a, b) = (rf(s.float(0.6, 1.3) * w), rf(s.float(0.6, 1.3) * w));
            (rect(0.0, 0.0, a, b), json!({"Type": "Rectangle", "Data": {"Width": a, "Height": b}}))
        } else {
            let p = if s.chance(1, 2) {
                rpoly(rect(0.0, 0.0, s.float(0.6, 1.3) * w, s.float(0.6, 1.3) * w))
            } else {
                shape(s, w)
            };
            let p = if s.chance(1, 2) {
                let (dx, dy) = (s.sym(w), s.sym(w));
                moved(&p, dx, dy)
            } else {
                p
            };
            let r = ring(s, &p);
            (p, json!({"Type": "SimplePolygon", "Data": r}))
        };
        let mut holes = vec![];
        if kind == 2 {
            let mut inner = vec![];
            for _ in 0..s.count(0, 2, 12, 16) {
                let sz = s.float(0.05, 0.2) * w;
                let c = point_in(s, &outer);
                let h = shape(s, sz);
                let h = moved(&h, c.0, c.1);
                inner.push(ring(s, &h));
                holes.push(h);
            }
            js = json!({"Type": "Polygon", "Data": {"Outer": js["Data"], "Inner": inner}});
            if holes.is_empty() && s.chance(1, 2) {
                js["Data"].as_object_mut().unwrap().remove("Inner");
            }
        }
        let mut zones = vec![];
        let mut jz = vec![];
        for _ in 0..s.count(0, 3, 20, 16) {
            let sz = s.float(0.05, 0.3) * w;
            let at = if s.chance(1, 6) { None } else { Some(point_in(s, &outer)) };
            let (p, zj) = jshape(s, sz, at);
            let q = s.usize(0, 9);
            jz.push(json!({"Quality": q, "Shape": zj}));
            zones.push((q, p));
        }
        let max = if o.max_demand >= 50 && s.chance(1, 8) { 1 << *s.pick(&[20, 40]) } else { 4 };
        let stock = if s.chance(2, 3) { Some(1 + s.below(max)) } else { None };
        let max = if s.chance(1, 8) { 1 << 40 } else { 500 };
        let cost = s.below(max);
        let mut jb = json!({"Cost": cost, "Shape": js});
        if let Some(k) = stock {
            jb["Stock"] = json!(k);
        }
        if !jz.is_empty() {
            jb["Zones"] = Value::Array(jz);
        }
        jbins.push(jb);
        bins.push(JBin { outer, holes, zones, stock, cost });
    }
    j["Objects"] = Value::Array(jbins);
    JInst { w, items, bins: Some(bins), strip: None, json: j }
}

/// an excerpt of one of the published instances
pub fn real_instance(s: &mut Src, max_types: usize, max_demand: u64) -> JInst {
    let all = corpus().as_array().unwrap();
    let inst = &all[s.below(all.len() as u64) as usize];
    let types = inst["items"].as_array().unwrap();
    let mut items = vec![];
    let mut jitems = vec![];
    for _ in 0..s.usize(1, max_types) {
        let t = s.pick(types);
        let poly = json_outline(&t["shape"]);
        let demand = 1 + s.below(t["demand"].as_u64().unwrap().min(max_demand));
        let orients: Option<Vec<f64>> = t["orients"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect());
        let quality = t["quality"].as_u64().map(|q| q as usize);
        let mut j = json!({"Demand": demand, "Shape": {"Type": "SimplePolygon", "Data": json_pts(&poly)}});
        if let Some(o) = &orients {
            j["AllowedOrientations"] = json!(o);
        }
        if let Some(q) = quality {
            j["BaseQuality"] = json!(q);
        }
        jitems.push(j);
        items.push(JItem { poly, demand, orients, quality, value: None });
    }
    let mut j = json!({"Name": inst["name"], "Items": jitems});
    if let Some(h) = inst["strip"].as_f64() {
        j["Strip"] = json!({"Height": h});
        return JInst { w: h, items, bins: None, strip: Some(h), json: j };
    }
    let mut bins = vec![];
    let mut jbins = vec![];
    for _ in 0..s.usize(1, 2) {
        let b = s.pick(inst["bins"].as_array().unwrap());
        let outer = json_outline(&b["outer"]);
        let holes: Vec<Poly> = b["holes"].as_array().unwrap().iter().map(json_outline).collect();
        let zones: Vec<(usize, Poly)> = b["zones"]
            .as_array()
            .unwrap()
            .iter()
            .map(|z| (z["q"].as_u64().unwrap() as usize, json_outline(&z["shape"])))
            .collect();
        let stock = 1 + s.below(2);
        jbins.push(json!({
            "Cost": 1, "Stock": stock,
            "Zones": zones.iter().map(|(q, z)| json!({"Quality": q, "Shape": {"Type": "SimplePolygon", "Data": json_pts(z)}})).collect::<Vec<_>>(),
            "Shape": {"Type": "Polygon", "Data": {"Outer": json_pts(&outer), "Inner": holes.iter().map(|h| json_pts(h)).collect::<Vec<_>>()}},
        }));
        bins.push(JBin { outer, holes, zones, stock: Some(stock), cost: 1 });
    }
    let w = max_abs(&bins[0].outer);
    j["Objects"] = Value::Array(jbins);
    JInst { w, items, bins: Some(bins), strip: None, json: j }
}

/// collision engine configuration with a proximity grid
pub fn lbf_cde(s: &mut Src) -> CDEConfig {
    let max_poles = s.usize(1, 8);
    CDEConfig {
        quadtree_depth: *s.pick(&[4u8, 0, 2, 3, 5, 6]),
        hpg_n_cells: *s.pick(&[100, 20, 50, 400, 5, 1]),
        item_surrogate_config: SPSurrogateConfig {
            pole_coverage_goal: s.float(0.3, 0.95) as F,
            max_poles,
            n_ff_poles: s.usize(0, 4),
            n_ff_piers: 0,
        },
    }
}

/// outline equality up to the start vertex and direction
pub fn same_outline(a: &[P], b: &[P], tol: f64) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let n = a.len();
    let try_dir = |b: &[P]| (0..n).any(|k| (0..n).all(|i| dist(a[i], b[(i + k) % n]) <= tol));
    if try_dir(b) {
        return true;
    }
    let mut r = b.to_vec();
    r.reverse();
    try_dir(&r)
}

impl Rigid {
    pub fn unapply(&self, p: P) -> P {
        let q = (p.0 - self.t.0, p.1 - self.t.1);
        Rigid { r: -self.r, t: (0., 0.) }.apply(q)
    }
    pub fn unapply_all(&self, p: &[P]) -> Poly {
        p.iter().map(|q| self.unapply(*q)).collect()
    }
}
