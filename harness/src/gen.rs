//! Generators shared by the properties. Everything is generated in f64 and rounded to the
//! library's float type at once, so that the oracle sees exactly the coordinates the library sees.

use crate::engine::Src;
use crate::geom::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};
use std::f64::consts::PI;

pub type F = jagua_rs::fsize;

/// relative width of the numerical tolerance band for containment / distance verdicts
pub const REL_MARGIN: f64 = 1e-4;
/// relative robustness required of an edge crossing to count as decisive
pub const REL_CROSS: f64 = 2e-5;

pub fn rf(x: f64) -> f64 {
    x as F as f64
}
pub fn rp(p: P) -> P {
    (rf(p.0), rf(p.1))
}
pub fn rpoly(p: Poly) -> Poly {
    p.into_iter().map(rp).collect()
}
pub fn pt(p: P) -> Point {
    Point(p.0 as F, p.1 as F)
}
pub fn un(p: &Point) -> P {
    (p.0 as f64, p.1 as f64)
}
pub fn sp(p: &[P]) -> SimplePolygon {
    SimplePolygon::new(p.iter().map(|q| pt(*q)).collect())
}
pub fn unsp(s: &SimplePolygon) -> Poly {
    s.points.iter().map(un).collect()
}

pub fn rect(x0: f64, y0: f64, x1: f64, y1: f64) -> Poly {
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
}

/// problem instances published with the library, as compact JSON (see tools/corpus.py)
pub fn corpus() -> &'static serde_json::Value {
    static C: std::sync::OnceLock<serde_json::Value> = std::sync::OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("corpus.json")).unwrap())
}

pub fn json_outline(v: &serde_json::Value) -> Poly {
    v.as_array()
        .unwrap()
        .iter()
        .map(|q| (q[0].as_f64().unwrap(), q[1].as_f64().unwrap()))
        .collect()
}

/// the outlines in the corpus, centred and scaled to fill [-1, 1]
fn outlines() -> &'static [Poly] {
    static O: std::sync::OnceLock<Vec<Poly>> = std::sync::OnceLock::new();
    O.get_or_init(|| {
        let mut v = vec![];
        for inst in corpus().as_array().unwrap() {
            v.extend(inst["items"].as_array().unwrap().iter().map(|i| json_outline(&i["shape"])));
            for b in inst["bins"].as_array().iter().flat_map(|b| b.iter()) {
                v.push(json_outline(&b["outer"]));
                v.extend(b["holes"].as_array().unwrap().iter().map(json_outline));
                v.extend(b["zones"].as_array().unwrap().iter().map(|z| json_outline(&z["shape"])));
            }
        }
        v.iter()
            .map(|p| {
                let b = bbox(p);
                let (cx, cy) = ((b.0 + b.2) / 2.0, (b.1 + b.3) / 2.0);
                let k = 2.0 / (b.2 - b.0).max(b.3 - b.1);
                p.iter().map(|q| ((q.0 - cx) * k, (q.1 - cy) * k)).collect()
            })
            .collect()
    })
}

/// a polygon of roughly the given size, centred somewhere near the origin
pub fn raw_shape(s: &mut Src, size: f64) -> Poly {
    let h = size / 2.0;
    let k = s.weighted(&[8, 6, 8, 10, 6, 4, 6, 4, 4, 6, 4, 4, 6, 2, 4, 1, 2]);
    match k {
        16 => {
            // the outline of an item or zone in use, scaled
            let all = outlines();
            let p = &all[s.below(all.len() as u64) as usize];
            p.iter().map(|q| (q.0 * h, q.1 * h)).collect()
        }
        15 => {
            // very many vertices: a gear with 4..9 lobes
            let n = s.usize(50, 150);
            let (lobes, amp) = (s.usize(4, 9) as f64, s.float(0.0, 0.3));
            (0..n)
                .map(|i| {
                    let a = (i as f64 + s.float(0.0, 0.3)) * 2.0 * PI / n as f64;
                    let r = h * (1.0 - amp * (0.5 + 0.5 * (lobes * a).cos()));
                    (r * a.cos(), r * a.sin())
                })
                .collect()
        }
        0 => {
            let w = s.float(0.2, 1.0) * h;
            let v = s.float(0.2, 1.0) * h;
            rect(-w, -v, w, v)
        }
        1 => (0..3)
            .map(|i| {
                let a = (i as f64 + s.float(0.0, 0.7)) * 2.0 * PI / 3.0;
                let r = h * s.float(0.5, 1.0);
                (r * a.cos(), r * a.sin())
            })
            .collect(),
        2 => {
            let n = s.usize(3, 12);
            let ay = s.float(0.4, 1.0);
            let a0 = s.float(0.0, 1.0);
            (0..n)
                .map(|i| {
                    let a = a0 + (i as f64 + s.float(0.0, 0.6)) * 2.0 * PI / n as f64;
                    (h * a.cos(), h * ay * a.sin())
                })
                .collect()
        }
        3 => {
            let n = s.usize(4, 14);
            (0..n)
                .map(|i| {
                    let a = (i as f64 + s.float(0.0, 0.5)) * 2.0 * PI / n as f64;
                    let r = h * s.float(0.3, 1.0);
                    (r * a.cos(), r * a.sin())
                })
                .collect()
        }
        4 => {
            // L
            let a = s.float(0.15, 0.85) * size;
            let b = s.float(0.15, 0.85) * size;
            shift(
                vec![(0., 0.), (size, 0.), (size, b), (a, b), (a, size), (0., size)],
                -h,
                -h,
            )
        }
        5 => {
            // T
            let a = s.float(0.1, 0.4) * size;
            let b = s.float(0.15, 0.85) * size;
            shift(
                vec![
                    (a, 0.),
                    (size - a, 0.),
                    (size - a, b),
                    (size, b),
                    (size, size),
                    (0., size),
                    (0., b),
                    (a, b),
                ],
                -h,
                -h,
            )
        }
        6 => {
            // U
            let t = s.float(0.08, 0.35) * size;
            let b = s.float(0.08, 0.85) * size;
            shift(
                vec![
                    (0., 0.),
                    (size, 0.),
                    (size, size),
                    (size - t, size),
                    (size - t, b),
                    (t, b),
                    (t, size),
                    (0., size),
                ],
                -h,
                -h,
            )
        }
        7 => {
            // plus
            let t = s.float(0.1, 0.4) * size;
            let u = size - t;
            shift(
                vec![
                    (t, 0.),
                    (u, 0.),
                    (u, t),
                    (size, t),
                    (size, u),
                    (u, u),
                    (u, size),
                    (t, size),
                    (t, u),
                    (0., u),
                    (0., t),
                    (t, t),
                ],
                -h,
                -h,
            )
        }
        8 => {
            // comb
            let n = s.usize(2, 4);
            let base = s.float(0.1, 0.4) * size;
            let mut p = vec![(0., 0.), (size, 0.)];
            let cell = size / (2 * n - 1) as f64;
            for i in (0..n).rev() {
                let x0 = (2 * i) as f64 * cell;
                let x1 = x0 + cell;
                let top = base + s.float(0.2, 1.0) * (size - base);
                p.push((x1, top));
                p.push((x0, top));
                if i > 0 {
                    p.push((x0, base));
                    p.push((x0 - cell, base));
                }
            }
            // first vertical edge starts at (size,0) and ends at (size, top)
            shift(p, -h, -h)
        }
        9 => {
            // ring with a gap (C / spiral like)
            let n = s.usize(6, 14);
            let gap = s.float(0.15, 1.2);
            let th = s.float(0.12, 0.4) * h;
            let mut out = vec![];
            let mut inn = vec![];
            for i in 0..=n {
                let a = gap + (2.0 * PI - 2.0 * gap) * i as f64 / n as f64;
                out.push((h * a.cos(), h * a.sin()));
                inn.push(((h - th) * a.cos(), (h - th) * a.sin()));
            }
            inn.reverse();
            out.extend(inn);
            out
        }
        10 => {
            // rectangular spiral arm
            let t = s.float(0.08, 0.14) * size;
            shift(
                vec![
                    (0., 0.),
                    (size, 0.),
                    (size, size),
                    (2. * t, size),
                    (2. * t, 3. * t),
                    (size - 2. * t, 3. * t),
                    (size - 2. * t, size - 2. * t),
                    (size - 3. * t, size - 2. * t),
                    (size - 3. * t, 4. * t),
                    (3. * t, 4. * t),
                    (3. * t, size - t),
                    (size - t, size - t),
                    (size - t, t),
                    (0., t),
                ],
                -h,
                -h,
            )
        }
        11 => {
            // zigzag band
            let n = s.usize(2, 6);
            let th = s.float(0.12, 0.3) * size;
            let amp = s.float(0.0, 0.4) * size;
            let mut lo = vec![];
            let mut hi = vec![];
            for i in 0..=n {
                let x = size * i as f64 / n as f64;
                let y = if i % 2 == 0 { 0.0 } else { amp };
                lo.push((x, y));
                hi.push((x, y + th));
            }
            hi.reverse();
            lo.extend(hi);
            shift(lo, -h, -h * 0.5)
        }
        12 => {
            // skyline on an integer grid (many ties in x and y)
            let n = s.usize(2, 6);
            let u = size / 8.0;
            let mut p = vec![(0., 0.), (n as f64 * u, 0.)];
            let mut last = -1i64;
            for i in (0..n).rev() {
                let mut hh = 1 + s.below(6) as i64;
                if hh == last {
                    hh = if hh == 6 { 1 } else { hh + 1 };
                }
                p.push(((i + 1) as f64 * u, hh as f64 * u));
                p.push((i as f64 * u, hh as f64 * u));
                last = hh;
            }
            shift(p, -(n as f64) * u / 2.0, -3.0 * u)
        }
        14 => {
            // labyrinth: a thickened random tree
            let n = s.usize(2, 3);
            let adj = maze_forest(s, n, 1);
            let lines = maze_lines(s, n, 1.0);
            let mut p = maze_outline(&adj[0], n, &lines, &lines, 0.0);
            for q in p.iter_mut() {
                *q = ((q.0 - 0.5) * size, (q.1 - 0.5) * size);
            }
            p
        }
        _ => {
            let n = s.usize(24, 48);
            (0..n)
                .map(|i| {
                    let a = i as f64 * 2.0 * PI / n as f64;
                    let r = h * s.float(0.6, 1.0);
                    (r * a.cos(), r * a.sin())
                })
                .collect()
        }
    }
}

/// Random disjoint trees over the nodes of an n x n lattice; each tree is the set of fine cells
/// (on a (2n-1) x (2n-1) lattice) of its nodes and of the edges between them.
pub fn maze_forest(s: &mut Src, n: usize, k: usize) -> Vec<Vec<(usize, usize)>> {
    let m = n * n;
    let mut owner = vec![usize::MAX; m];
    let mut nodes: Vec<Vec<usize>> = vec![];
    let mut cells: Vec<Vec<(usize, usize)>> = vec![];
    for t in 0..k {
        let mut st = s.below(m as u64) as usize;
        while owner[st] != usize::MAX {
            st = (st + 1) % m;
        }
        owner[st] = t;
        nodes.push(vec![st]);
        cells.push(vec![(2 * (st % n), 2 * (st / n))]);
    }
    let steps = s.usize(m / 2, 2 * m);
    for i in 0..steps {
        let t = i % k;
        // depth first flavour: mostly extend the newest node
        let j = if s.chance(3, 4) {
            nodes[t].len() - 1
        } else {
            s.below(nodes[t].len() as u64) as usize
        };
        let v = nodes[t][j];
        let (x, y) = (v % n, v / n);
        let d = s.below(4);
        for r in 0..4 {
            let (dx, dy): (i64, i64) = [(1, 0), (0, 1), (-1, 0), (0, -1)][((d + r) % 4) as usize];
            let (nx, ny) = (x as i64 + dx, y as i64 + dy);
            if nx < 0 || ny < 0 || nx >= n as i64 || ny >= n as i64 {
                continue;
            }
            let u = ny as usize * n + nx as usize;
            if owner[u] != usize::MAX {
                continue;
            }
            owner[u] = t;
            nodes[t].push(u);
            cells[t].push(((2 * x as i64 + dx) as usize, (2 * y as i64 + dy) as usize));
            cells[t].push((2 * nx as usize, 2 * ny as usize));
            break;
        }
    }
    cells
}

/// positions of the 2n lines of the fine lattice: random widths, total length `size`
pub fn maze_lines(s: &mut Src, n: usize, size: f64) -> Vec<f64> {
    let mut v = vec![0.0];
    for _ in 0..2 * n - 1 {
        let w = *s.pick(&[1.0, 0.5, 2.0]);
        v.push(v[v.len() - 1] + w);
    }
    let f = size / v[v.len() - 1];
    v.iter().map(|x| x * f).collect()
}

/// counterclockwise outline of a tree of fine cells, every edge moved inwards by `inset`
pub fn maze_outline(cells: &[(usize, usize)], n: usize, xs: &[f64], ys: &[f64], inset: f64) -> Poly {
    let g = 2 * n - 1;
    let has = |x: i64, y: i64| {
        x >= 0 && y >= 0 && (x as usize) < g && (y as usize) < g && cells.contains(&(x as usize, y as usize))
    };
    // directed unit boundary edges with the interior on the left
    let mut next = std::collections::BTreeMap::new();
    for &(x, y) in cells {
        let (x, y) = (x as i64, y as i64);
        for (dx, dy, a, b) in [
            (0, -1, (x, y), (x + 1, y)),
            (1, 0, (x + 1, y), (x + 1, y + 1)),
            (0, 1, (x + 1, y + 1), (x, y + 1)),
            (-1, 0, (x, y + 1), (x, y)),
        ] {
            if !has(x + dx, y + dy) {
                next.insert(a, b);
            }
        }
    }
    let start = *next.keys().next().unwrap();
    let mut loop_ = vec![start];
    let mut cur = next[&start];
    while cur != start {
        loop_.push(cur);
        cur = next[&cur];
    }
    let m = loop_.len();
    let mut out = vec![];
    for i in 0..m {
        let (a, b, c) = (loop_[(i + m - 1) % m], loop_[i], loop_[(i + 1) % m]);
        let (d0, d1) = ((b.0 - a.0, b.1 - a.1), (c.0 - b.0, c.1 - b.1));
        if d0 == d1 {
            continue;
        }
        // inward normals of the two edges (one horizontal, one vertical)
        let (n0, n1) = ((-d0.1, d0.0), (-d1.1, d1.0));
        out.push((
            xs[b.0 as usize] + inset * (n0.0 + n1.0) as f64,
            ys[b.1 as usize] + inset * (n0.1 + n1.1) as f64,
        ));
    }
    out
}

/// Two labyrinths inside the square [0, size]^2: either disjoint but interlocked, or the second
/// running inside the corridors of the first. Returns (a, b, b inside a).
pub fn maze_pair(s: &mut Src, size: f64) -> (Poly, Poly, bool) {
    let n = s.usize(3, 5);
    let xs = maze_lines(s, n, size);
    let ys = maze_lines(s, n, size);
    let min = xs
        .windows(2)
        .chain(ys.windows(2))
        .map(|w| w[1] - w[0])
        .fold(f64::MAX, f64::min);
    let inside = s.chance(1, 2);
    let (a, b) = if inside {
        let f = maze_forest(s, n, 1);
        let keep = s.usize(1, f[0].len().div_ceil(2)) * 2 - 1;
        let keep = keep.min(f[0].len());
        (
            maze_outline(&f[0], n, &xs, &ys, 0.0),
            maze_outline(&f[0][..keep], n, &xs, &ys, s.float(0.1, 0.4) * min),
        )
    } else {
        let f = maze_forest(s, n, 2);
        let (i, j) = (s.sym(0.35) * min, s.sym(0.35) * min);
        (
            maze_outline(&f[0], n, &xs, &ys, i),
            maze_outline(&f[1], n, &xs, &ys, j),
        )
    };
    (a, b, inside)
}

pub fn shift(p: Poly, dx: f64, dy: f64) -> Poly {
    p.into_iter().map(|(x, y)| (x + dx, y + dy)).collect()
}

pub fn valid(p: &[P], size: f64) -> bool {
    p.len() >= 3
        && min_self_gap(p) >= 0.01 * size
        && signed_area(p).abs() / perimeter(p) >= 0.02 * size
}

/// A simple polygon of the given size around the origin: any orientation, any start vertex,
/// sometimes rotated.
pub fn shape(s: &mut Src, size: f64) -> Poly {
    let mut p = raw_shape(s, size);
    if s.chance(1, 4) {
        let r = Rigid {
            r: s.float(0.0, 2.0 * PI),
            t: (0., 0.),
        };
        p = r.apply_all(&p);
    }
    if s.chance(1, 3) {
        p.reverse();
    }
    let k = s.below(p.len() as u64) as usize;
    p.rotate_left(k);
    let p = rpoly(p);
    if valid(&p, size) {
        p
    } else {
        rpoly(rect(-size * 0.4, -size * 0.3, size * 0.4, size * 0.3))
    }
}

/// translate and re-round
pub fn moved(p: &[P], dx: f64, dy: f64) -> Poly {
    rpoly(shift(p.to_vec(), dx, dy))
}

pub fn scale_w(s: &mut Src) -> f64 {
    *s.pick(&[100.0, 10.0, 1000.0, 1.0, 20000.0, 0.0078125])
}

pub fn rotation(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 4]) {
        0 => 0.0,
        1 => *s.pick(&[PI / 2.0, PI, -PI / 2.0, PI / 4.0]),
        _ => s.float(-PI, PI),
    }
}

pub fn dt(r: f64, t: P) -> DTransformation {
    DTransformation::new(r as F, (t.0 as F, t.1 as F))
}
pub fn rigid_of(d: &DTransformation) -> Rigid {
    let (x, y) = d.translation();
    Rigid {
        r: d.rotation() as f64,
        t: (x as f64, y as f64),
    }
}

pub fn no_surrogate() -> SPSurrogateConfig {
    SPSurrogateConfig::none()
}

pub fn cheap_surrogate(s: &mut Src) -> SPSurrogateConfig {
    let max_poles = s.count(1, 6, 24, 16);
    SPSurrogateConfig {
        pole_coverage_goal: s.float(0.3, 0.95) as F,
        max_poles,
        n_ff_poles: s.count(0, 4, 16, 16),
        n_ff_piers: 0,
    }
}

pub fn cde_cfg(s: &mut Src, hpg: usize) -> CDEConfig {
    CDEConfig {
        quadtree_depth: *s.pick(&[4u8, 0, 1, 2, 3, 5, 6, 8]),
        hpg_n_cells: hpg,
        item_surrogate_config: no_surrogate(),
    }
}

#[derive(Clone)]
pub struct World {
    pub w: f64,
    /// max |coordinate|
    pub l: f64,
    pub outer: Poly,
    pub holes: Vec<Poly>,
    /// (quality, index within the quality, shape)
    pub zones: Vec<(usize, usize, Poly)>,
    pub bin: Bin,
    pub cfg: CDEConfig,
}

impl World {
    pub fn margin(&self) -> f64 {
        REL_MARGIN * self.l
    }
    pub fn cross(&self) -> f64 {
        REL_CROSS * self.l
    }
    pub fn static_entities(&self) -> Vec<(HazardEntity, Poly)> {
        let mut v = vec![(HazardEntity::BinExterior, self.outer.clone())];
        for (i, h) in self.holes.iter().enumerate() {
            v.push((HazardEntity::BinHole { id: i }, h.clone()));
        }
        for (q, id, z) in self.zones.iter() {
            v.push((
                HazardEntity::InferiorQualityZone {
                    quality: *q,
                    id: *id,
                },
                z.clone(),
            ));
        }
        v
    }
}

pub struct WorldOpts {
    pub max_holes: usize,
    pub max_zones: usize,
    pub offset: bool,
    pub rect_only: bool,
    /// keep only holes and zones that lie inside the bin's bounding box
    pub contained: bool,
}
impl Default for WorldOpts {
    fn default() -> Self {
        WorldOpts {
            max_holes: 3,
            max_zones: 3,
            offset: true,
            rect_only: false,
            contained: false,
        }
    }
}

/// point inside polygon `p` (rejection with fallback to its centroid/vertex mean)
pub fn point_in(s: &mut Src, p: &[P]) -> P {
    let b = bbox(p);
    for _ in 0..6 {
        let q = (s.float(b.0, b.2), s.float(b.1, b.3));
        if pip(q, p) {
            return q;
        }
    }
    centroid(p)
}

fn box_in(p: &[P], outer: &[P], w: f64) -> bool {
    let (a, b) = (bbox(p), bbox(outer));
    let m = 0.001 * w;
    a.0 > b.0 + m && a.1 > b.1 + m && a.2 < b.2 - m && a.3 < b.3 - m
}

pub fn world(s: &mut Src, hpg: usize, o: &WorldOpts) -> World {
    let w = scale_w(s);
    let cfg = cde_cfg(s, hpg);
    world_with(s, w, cfg, 0, o)
}

pub fn world_with(s: &mut Src, w: f64, cfg: CDEConfig, id: usize, o: &WorldOpts) -> World {
    let mut outer = if o.rect_only || s.chance(1, 2) {
        let a = s.float(0.5, 1.0) * w;
        let b = s.float(0.5, 1.0) * w;
        rpoly(rect(0.0, 0.0, a, b))
    } else {
        shape(s, w)
    };
    if o.offset && s.chance(1, 2) {
        let (dx, dy) = (s.sym(2.0 * w), s.sym(2.0 * w));
        outer = moved(&outer, dx, dy);
        if !valid(&outer, w * 0.5) {
            outer = moved(&rect(0.0, 0.0, w, w * 0.7), dx, dy);
        }
    }
    let nh = s.usize(0, o.max_holes);
    let mut holes = vec![];
    for _ in 0..nh {
        let sz = s.float(0.06, 0.3) * w;
        let h = shape(s, sz);
        let c = point_in(s, &outer);
        let h = moved(&h, c.0, c.1);
        if !o.contained || box_in(&h, &outer, w) {
            holes.push(h);
        }
    }
    let nz = s.usize(0, o.max_zones);
    let mut zones: Vec<(usize, usize, Poly)> = vec![];
    for _ in 0..nz {
        let sz = s.float(0.06, 0.4) * w;
        let h = shape(s, sz);
        let c = point_in(s, &outer);
        let q = s.usize(0, 9);
        let id = zones.iter().filter(|z| z.0 == q).count();
        let h = moved(&h, c.0, c.1);
        if !o.contained || box_in(&h, &outer, w) {
            zones.push((q, id, h));
        }
    }
    if o.max_holes + o.max_zones > 0 && s.chance(1, 24) {
        // a crowd of small holes or zones, most of them of one quality
        let q0 = s.usize(0, 9);
        let hole = o.max_zones == 0 || (o.max_holes > 0 && s.chance(1, 3));
        for _ in 0..s.usize(10, 50) {
            let sz = s.float(0.02, 0.06) * w;
            let h = if s.chance(1, 4) { shape(s, sz) } else { rect(-sz, -sz * s.float(0.3, 1.0), sz, sz * s.float(0.3, 1.0)) };
            let c = point_in(s, &outer);
            let h = moved(&h, c.0, c.1);
            let q = if s.chance(1, 6) { s.usize(0, 9) } else { q0 };
            if !o.contained || box_in(&h, &outer, w) {
                if hole {
                    holes.push(h);
                } else {
                    let id = zones.iter().filter(|z| z.0 == q).count();
                    zones.push((q, id, h));
                }
            }
        }
    }
    make_world(w, cfg, id, outer, holes, zones, 1)
}

pub fn make_world(
    w: f64,
    cfg: CDEConfig,
    id: usize,
    outer: Poly,
    holes: Vec<Poly>,
    zones: Vec<(usize, usize, Poly)>,
    value: u64,
) -> World {
    let mut l = max_abs(&outer);
    for h in holes.iter().chain(zones.iter().map(|z| &z.2)) {
        l = l.max(max_abs(h));
    }
    let mut qzs = vec![];
    for q in 0..10 {
        let zs: Vec<_> = zones.iter().filter(|z| z.0 == q).map(|z| sp(&z.2)).collect();
        if !zs.is_empty() {
            qzs.push(InferiorQualityZone::new(q, zs));
        }
    }
    let bin = Bin::new(
        id,
        sp(&outer),
        value,
        Transformation::empty(),
        holes.iter().map(|h| sp(h)).collect(),
        qzs,
        cfg,
    );
    World {
        w,
        l,
        outer,
        holes,
        zones,
        bin,
        cfg,
    }
}

/// an item shape relative to a bin of size w; sometimes not centred
pub fn item_poly(s: &mut Src, w: f64) -> Poly {
    let size = match s.weighted(&[12, 3, 1]) {
        0 => s.float(0.05, 0.4) * w,
        1 => s.float(0.4, 0.9) * w,
        _ => s.float(0.9, 1.6) * w,
    };
    let p = shape(s, size);
    if s.chance(1, 4) {
        let (dx, dy) = (s.sym(size), s.sym(size));
        let q = moved(&p, dx, dy);
        if valid(&q, size) {
            return q;
        }
    }
    p
}

pub fn mk_item(id: usize, p: &[P], rot: AllowedRotation, q: Option<usize>, cfg: SPSurrogateConfig) -> Item {
    Item::new(id, sp(p), rot, q, 1, Transformation::empty(), cfg)
}

/// A placement (rotation + translation) of reference polygon `p`, aimed at interesting positions
/// relative to the polygons in `targets` (targets[0] is the bin outline).
pub fn placement(s: &mut Src, p: &[P], targets: &[&Poly], w: f64) -> (f64, P) {
    let r = rotation(s);
    let q = Rigid { r, t: (0., 0.) }.apply_all(p);
    let bb = bbox(targets[0]);
    let t = match s.weighted(&[4, 5, 3, 2]) {
        // anywhere over the bin
        0 => {
            let c = bbox(&q);
            let cc = ((c.0 + c.2) / 2.0, (c.1 + c.3) / 2.0);
            let a = (s.float(bb.0, bb.2), s.float(bb.1, bb.3));
            (a.0 - cc.0, a.1 - cc.1)
        }
        // a vertex of the shape close to a point on a target's boundary
        1 => {
            let tg = *s.pick(targets);
            let i = s.below(tg.len() as u64) as usize;
            let (a, b) = (tg[i], tg[(i + 1) % tg.len()]);
            let u = *s.pick(&[0.0, 0.5, 0.25, 0.9]);
            let v = q[s.below(q.len() as u64) as usize];
            let e = *s.pick(&[0.0008, 0.004, 0.01, 0.03, 0.1]) * w;
            let ang = s.float(0.0, 2.0 * PI);
            (
                a.0 + u * (b.0 - a.0) + e * ang.cos() - v.0,
                a.1 + u * (b.1 - a.1) + e * ang.sin() - v.1,
            )
        }
        // centred inside a target (containment)
        2 => {
            let tg = *s.pick(targets);
            let c = centroid(&q);
            let d = point_in(s, tg);
            (d.0 - c.0, d.1 - c.1)
        }
        // fully inside the bin's bounding box when it fits
        _ => {
            let c = bbox(&q);
            let (fw, fh) = ((bb.2 - bb.0) - (c.2 - c.0), (bb.3 - bb.1) - (c.3 - c.1));
            let (u, v) = (s.f01(), s.f01());
            (
                bb.0 - c.0 + u * fw.max(0.0),
                bb.1 - c.1 + v * fh.max(0.0),
            )
        }
    };
    (rf(r), rp(t))
}

/// Some(true): collides for certain, Some(false): certainly not, None: inside the tolerance band
pub fn oracle_hazard(shape: &[P], e: &HazardEntity, hz: &[P], margin: f64, ce: f64) -> Option<bool> {
    let exterior = matches!(e, HazardEntity::BinExterior);
    match (classify(shape, hz, margin, ce), exterior) {
        (Rel::Unclear, _) => None,
        (Rel::Cross, _) => Some(true),
        (Rel::AInB, true) => Some(false),
        (_, true) => Some(true),
        (Rel::Apart, false) => Some(false),
        (_, false) => Some(true),
    }
}

pub fn fmt_poly(p: &[P]) -> String {
    let v: Vec<String> = p.iter().map(|q| format!("({:?},{:?})", q.0, q.1)).collect();
    format!("[{}]", v.join(","))
}
