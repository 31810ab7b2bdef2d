//! Independent f64 geometry used as the oracle. Deliberately naive.

pub type P = (f64, f64);
pub type Poly = Vec<P>;

pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
pub fn dot(a: P, b: P) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
pub fn cross(a: P, b: P) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
pub fn orient(a: P, b: P, c: P) -> f64 {
    cross(sub(b, a), sub(c, a))
}
pub fn norm(a: P) -> f64 {
    a.0.hypot(a.1)
}
pub fn dist(a: P, b: P) -> f64 {
    norm(sub(a, b))
}
pub fn edges(p: &[P]) -> impl Iterator<Item = (P, P)> + '_ {
    (0..p.len()).map(move |i| (p[i], p[(i + 1) % p.len()]))
}
pub fn signed_area(p: &[P]) -> f64 {
    // translate to the first vertex for accuracy
    let o = p[0];
    0.5 * edges(p).map(|(a, b)| cross(sub(a, o), sub(b, o))).sum::<f64>()
}
pub fn perimeter(p: &[P]) -> f64 {
    edges(p).map(|(a, b)| dist(a, b)).sum()
}
pub fn centroid(p: &[P]) -> P {
    let o = p[0];
    let mut cx = 0.0;
    let mut cy = 0.0;
    let mut a = 0.0;
    for (s, e) in edges(p) {
        let (s, e) = (sub(s, o), sub(e, o));
        let c = cross(s, e);
        a += c;
        cx += (s.0 + e.0) * c;
        cy += (s.1 + e.1) * c;
    }
    (o.0 + cx / (3.0 * a), o.1 + cy / (3.0 * a))
}
pub fn bbox(p: &[P]) -> (f64, f64, f64, f64) {
    p.iter().fold(
        (f64::MAX, f64::MAX, f64::MIN, f64::MIN),
        |b, q| (b.0.min(q.0), b.1.min(q.1), b.2.max(q.0), b.3.max(q.1)),
    )
}
pub fn max_abs(p: &[P]) -> f64 {
    p.iter().fold(0.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()))
}
pub fn diameter(p: &[P]) -> f64 {
    let mut d = 0.0f64;
    for i in 0..p.len() {
        for j in 0..i {
            d = d.max(dist(p[i], p[j]));
        }
    }
    d
}
pub fn pt_seg(p: P, a: P, b: P) -> f64 {
    let ab = sub(b, a);
    let l2 = dot(ab, ab);
    if l2 == 0.0 {
        return dist(p, a);
    }
    let t = (dot(sub(p, a), ab) / l2).clamp(0.0, 1.0);
    dist(p, (a.0 + t * ab.0, a.1 + t * ab.1))
}
/// closed-segment intersection test (exact up to f64 rounding)
pub fn seg_int(a: P, b: P, c: P, d: P) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if ((o1 > 0.0 && o2 < 0.0) || (o1 < 0.0 && o2 > 0.0))
        && ((o3 > 0.0 && o4 < 0.0) || (o3 < 0.0 && o4 > 0.0))
    {
        return true;
    }
    let on = |p: P, q: P, r: P, o: f64| {
        o == 0.0
            && r.0 <= p.0.max(q.0)
            && r.0 >= p.0.min(q.0)
            && r.1 <= p.1.max(q.1)
            && r.1 >= p.1.min(q.1)
    };
    on(a, b, c, o1) || on(a, b, d, o2) || on(c, d, a, o3) || on(c, d, b, o4)
}
/// crossing that survives moving any endpoint by eps
pub fn seg_cross_robust(a: P, b: P, c: P, d: P, eps: f64) -> bool {
    let lab = dist(a, b);
    let lcd = dist(c, d);
    if lab == 0.0 || lcd == 0.0 {
        return false;
    }
    let o1 = orient(a, b, c) / lab;
    let o2 = orient(a, b, d) / lab;
    let o3 = orient(c, d, a) / lcd;
    let o4 = orient(c, d, b) / lcd;
    ((o1 > eps && o2 < -eps) || (o1 < -eps && o2 > eps))
        && ((o3 > eps && o4 < -eps) || (o3 < -eps && o4 > eps))
}
pub fn seg_seg_dist(a: P, b: P, c: P, d: P) -> f64 {
    if seg_int(a, b, c, d) {
        return 0.0;
    }
    pt_seg(a, c, d)
        .min(pt_seg(b, c, d))
        .min(pt_seg(c, a, b))
        .min(pt_seg(d, a, b))
}
/// crossing-number point in polygon
pub fn pip(p: P, poly: &[P]) -> bool {
    let mut inside = false;
    for (a, b) in edges(poly) {
        if (a.1 > p.1) != (b.1 > p.1) {
            let x = a.0 + (p.1 - a.1) / (b.1 - a.1) * (b.0 - a.0);
            if x > p.0 {
                inside = !inside;
            }
        }
    }
    inside
}
pub fn pt_boundary(p: P, poly: &[P]) -> f64 {
    edges(poly)
        .map(|(a, b)| pt_seg(p, a, b))
        .fold(f64::MAX, f64::min)
}
pub fn boundary_dist(a: &[P], b: &[P]) -> f64 {
    let mut d = f64::MAX;
    for (p, q) in edges(a) {
        for (r, s) in edges(b) {
            d = d.min(seg_seg_dist(p, q, r, s));
        }
    }
    d
}
/// distance between two closed regions
pub fn region_dist(a: &[P], b: &[P]) -> f64 {
    if pip(a[0], b) || pip(b[0], a) {
        return 0.0;
    }
    boundary_dist(a, b)
}
pub fn is_simple(p: &[P]) -> bool {
    min_self_gap(p) > 0.0
}
/// smallest distance between two non-adjacent edges (0 if they touch), also guards adjacent folds
pub fn min_self_gap(p: &[P]) -> f64 {
    let n = p.len();
    let mut g = f64::MAX;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        g = g.min(dist(a, b));
        for j in (i + 1)..n {
            if j == i + 1 || (i == 0 && j == n - 1) {
                continue;
            }
            g = g.min(seg_seg_dist(a, b, p[j], p[(j + 1) % n]));
        }
        // adjacent edges may not fold back on each other
        let c = p[(i + 2) % n];
        let (u, v) = (sub(b, a), sub(c, b));
        if dot(u, v) < 0.0 {
            let s = cross(u, v).abs() / (norm(u) * norm(v)).max(1e-300);
            g = g.min(s * norm(u).min(norm(v)));
        }
    }
    g
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel {
    /// regions apart by more than the margin
    Apart,
    /// a strictly inside b, by more than the margin
    AInB,
    BInA,
    /// boundaries cross decisively
    Cross,
    /// within the numerical tolerance band
    Unclear,
}

pub fn classify(a: &[P], b: &[P], margin: f64, cross_eps: f64) -> Rel {
    let (ba, bb) = (bbox(a), bbox(b));
    if ba.0 > bb.2 + margin || bb.0 > ba.2 + margin || ba.1 > bb.3 + margin || bb.1 > ba.3 + margin
    {
        return Rel::Apart;
    }
    let mut d = f64::MAX;
    for (p, q) in edges(a) {
        let e = (p.0.min(q.0), p.1.min(q.1), p.0.max(q.0), p.1.max(q.1));
        for (r, s) in edges(b) {
            let f = (r.0.min(s.0), r.1.min(s.1), r.0.max(s.0), r.1.max(s.1));
            if e.0 > f.2 + margin || f.0 > e.2 + margin || e.1 > f.3 + margin || f.1 > e.3 + margin {
                continue;
            }
            if seg_cross_robust(p, q, r, s, cross_eps) {
                return Rel::Cross;
            }
            d = d.min(seg_seg_dist(p, q, r, s));
        }
    }
    if d <= margin {
        return Rel::Unclear;
    }
    if pip(a[0], b) {
        Rel::AInB
    } else if pip(b[0], a) {
        Rel::BInA
    } else {
        Rel::Apart
    }
}

/// convex hull area by brute-force monotone chain with full tie-breaking
pub fn hull(p: &[P]) -> Poly {
    let mut pts = p.to_vec();
    pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    pts.dedup();
    if pts.len() < 3 {
        return pts;
    }
    let mut lower: Poly = vec![];
    for &q in &pts {
        while lower.len() >= 2 && orient(lower[lower.len() - 2], lower[lower.len() - 1], q) <= 0.0 {
            lower.pop();
        }
        lower.push(q);
    }
    let mut upper: Poly = vec![];
    for &q in pts.iter().rev() {
        while upper.len() >= 2 && orient(upper[upper.len() - 2], upper[upper.len() - 1], q) <= 0.0 {
            upper.pop();
        }
        upper.push(q);
    }
    lower.pop();
    upper.pop();
    lower.extend(upper);
    lower
}

#[derive(Clone, Copy, Debug)]
pub struct Rigid {
    pub r: f64,
    pub t: P,
}
impl Rigid {
    pub fn apply(&self, p: P) -> P {
        let (s, c) = self.r.sin_cos();
        (
            c * p.0 - s * p.1 + self.t.0,
            s * p.0 + c * p.1 + self.t.1,
        )
    }
    pub fn apply_all(&self, p: &[P]) -> Poly {
        p.iter().map(|q| self.apply(*q)).collect()
    }
}

/// how far (signed) `q` is outside of `p`: 0 if inside
pub fn outside_by(q: P, p: &[P]) -> f64 {
    if pip(q, p) {
        0.0
    } else {
        pt_boundary(q, p)
    }
}

/// sample points along the boundary of a
pub fn boundary_samples(a: &[P], per_edge: usize) -> Vec<P> {
    let mut v = vec![];
    for (s, e) in edges(a) {
        for k in 0..per_edge {
            let u = k as f64 / per_edge as f64;
            v.push((s.0 + u * (e.0 - s.0), s.1 + u * (e.1 - s.1)));
        }
    }
    v
}

/// a ⊆ b up to tol
pub fn contained_in(a: &[P], b: &[P], tol: f64) -> Result<(), String> {
    for q in boundary_samples(a, 8) {
        let d = outside_by(q, b);
        if d > tol {
            return Err(format!("point {q:?} of the inner shape lies {d:e} outside the outer one"));
        }
    }
    // no vertex of b may poke into a
    for q in boundary_samples(b, 4) {
        if pip(q, a) && pt_boundary(q, a) > tol {
            return Err(format!("boundary point {q:?} of the outer shape lies inside the inner one"));
        }
    }
    Ok(())
}
