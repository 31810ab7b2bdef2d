//! C13..C16: polygon simplification, data derived from polygons, rigid transformations and the
//! collision / distance predicates of the geometric primitives.

use crate::engine::*;
use crate::gen::*;
use crate::geom::*;
use jagua_rs::geometry::convex_hull::{convex_hull_from_points, convex_hull_from_shapes, convex_hull_indices};
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::{GeoPosition, GeoRelation};
use jagua_rs::geometry::geo_traits::{
    AlmostCollidesWith, CollidesWith, DistanceFrom, Shape, Transformable, TransformableFrom,
};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::polygon_simplification::{simplify_shape, PolySimplMode};
use std::f64::consts::PI;

const EPS: f64 = F::EPSILON as f64;

fn check(ok: bool, f: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(f())
    }
}

fn close(a: f64, b: f64, tol: f64, what: &str, f: impl FnOnce() -> String) -> Result<(), String> {
    if (a - b).abs() <= tol && a.is_finite() {
        Ok(())
    } else {
        Err(format!("{what}: library {a:?}, expected {b:?} (tolerance {tol:e}); {}", f()))
    }
}

// ---------------------------------------------------------------------------------- C13

/// polygons with many removable vertices
fn wiggly(s: &mut Src) -> (Poly, f64) {
    let w = scale_w(s);
    let mut p = match s.below(3) {
        0 => shape(s, w),
        1 => {
            // noisy blob
            let n = s.usize(6, 40);
            let noise = *s.pick(&[0.02, 0.1, 0.3]);
            (0..n)
                .map(|i| {
                    let a = i as f64 * 2.0 * PI / n as f64;
                    let r = w / 2.0 * (1.0 - noise * s.f01());
                    (r * a.cos(), r * a.sin())
                })
                .collect()
        }
        _ => {
            // shape with subdivided and perturbed edges
            let b = shape(s, w);
            let k = s.usize(1, 3);
            let amp = *s.pick(&[0.0, 0.001, 0.005, 0.02]) * w;
            let mut v = vec![];
            for (a, c) in edges(&b) {
                for j in 0..=k {
                    let u = j as f64 / (k + 1) as f64;
                    let q = (a.0 + u * (c.0 - a.0), a.1 + u * (c.1 - a.1));
                    if j == 0 {
                        v.push(q);
                    } else {
                        v.push((q.0 + s.sym(amp), q.1 + s.sym(amp)));
                    }
                }
            }
            v
        }
    };
    if s.chance(1, 3) {
        let (dx, dy) = (s.sym(w), s.sym(w));
        p = shift(p, dx, dy);
    }
    if s.chance(1, 3) {
        p.reverse();
    }
    let p = rpoly(p);
    if p.len() >= 3 && min_self_gap(&p) >= 0.002 * w && signed_area(&p).abs() / perimeter(&p) >= 0.02 * w {
        (p, w)
    } else {
        (rpoly(rect(-w * 0.4, -w * 0.3, w * 0.4, w * 0.3)), w)
    }
}

pub fn c13_simplify(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (p, w) = wiggly(s);
    let mode = if s.chance(1, 2) { PolySimplMode::Deflate } else { PolySimplMode::Inflate };
    let tol = *s.pick(&[0.01, 0.001, 0.0, 0.05, 0.2, 0.5]);
    let lib = sp(&p);
    let res = simplify_shape(&lib, mode, tol as F);
    let q = unsp(&res);
    let d = || format!("mode {mode:?} max area change {tol} original {} result {}", fmt_poly(&p), fmt_poly(&q));
    ctx.label(if q.len() < p.len() { "simplified" } else { "unchanged" });
    ctx.label(if mode == PolySimplMode::Inflate { "inflate" } else { "deflate" });
    ctx.nontrivial = q.len() < p.len();
    ctx.sample(|| d());
    let l = max_abs(&p).max(w);
    let band = 2e-5 * l; // numerical tolerance
    check(q.len() <= p.len() && q.len() >= 3, || format!("number of vertices grew: {}", d()))?;
    if q.len() == p.len() {
        // nothing removed: same region
        let same = signed_area(&q).abs() - signed_area(&p).abs();
        check(same.abs() <= 1e-4 * w * w, || format!("unsimplified shape changed: {}", d()))?;
    }
    let (a0, a1) = (signed_area(&p).abs(), signed_area(&q));
    let area_eps = 16.0 * p.len() as f64 * EPS * l * l;
    check(a1 > 0.0, || format!("simplified polygon is not counterclockwise: {}", d()))?;
    check((a1 - a0).abs() <= tol * a0 * (1.0 + 1e-4) + 2.0 * area_eps, || {
        format!("area changed from {a0} to {a1}: {}", d())
    })?;
    // the result is still a simple polygon
    let n = q.len();
    for i in 0..n {
        for j in (i + 2)..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            check(
                !seg_cross_robust(q[i], q[(i + 1) % n], q[j], q[(j + 1) % n], band),
                || format!("simplified polygon intersects itself (edges {i} and {j}): {}", d()),
            )?;
        }
    }
    match mode {
        PolySimplMode::Inflate => contained_in(&p, &q, band),
        PolySimplMode::Deflate => contained_in(&q, &p, band),
    }
    .map_err(|e| format!("{mode:?} is not conservative: {e}; {}", d()))
}

// ---------------------------------------------------------------------------------- C14

/// polygon with many coordinate ties and possibly a large offset
fn any_poly(s: &mut Src) -> (Poly, f64) {
    let w = scale_w(s);
    let p = shape(s, w);
    if s.chance(1, 3) {
        let (dx, dy) = (s.sym(2.0 * w), s.sym(2.0 * w));
        let q = moved(&p, dx, dy);
        if valid(&q, w) {
            return (q, w);
        }
    }
    (p, w)
}

pub fn c14_derived(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (p, w) = any_poly(s);
    let l = max_abs(&p).max(w * 0.5);
    let n = p.len() as f64;
    let lib = sp(&p);
    let d = || format!("polygon {}", fmt_poly(&p));
    ctx.nontrivial = p.len() > 4 || signed_area(&p) < 0.0;
    ctx.label(if signed_area(&p) < 0.0 { "clockwise" } else { "counterclockwise" });
    ctx.sample(|| d());
    // same outline, counterclockwise
    let q = unsp(&lib);
    check(q.len() == p.len(), || format!("vertex count changed: {}", d()))?;
    check(signed_area(&q) > 0.0, || format!("not counterclockwise: {}", d()))?;
    let mut expect = p.clone();
    if signed_area(&p) < 0.0 {
        expect.reverse();
    }
    let k = expect.iter().position(|v| *v == q[0]);
    check(k.is_some(), || format!("vertices changed: {}", d()))?;
    expect.rotate_left(k.unwrap());
    check(expect == q, || format!("vertex order changed: {} became {}", d(), fmt_poly(&q)))?;

    let area = signed_area(&q);
    close(lib.area() as f64, area, 16.0 * n * EPS * l * l, "area", d)?;
    let b = bbox(&p);
    let lb = lib.bbox();
    check(
        (lb.x_min as f64, lb.y_min as f64, lb.x_max as f64, lb.y_max as f64) == b,
        || format!("bounding box {lb:?}, expected {b:?}; {}", d()),
    )?;
    close(lib.diameter() as f64, diameter(&p), 16.0 * EPS * l, "diameter", d)?;
    let c = un(&lib.centroid());
    let oc = centroid(&p);
    let ctol = 64.0 * n * EPS * l * l * l / area;
    close(c.0, oc.0, ctol, "centroid x", d)?;
    close(c.1, oc.1, ctol, "centroid y", d)?;
    // pole of inaccessibility: inside, and as large as any other inscribed circle up to the
    // resolution of the search (the bounding square divided 10 times)
    let poi = (un(&lib.poi.center), lib.poi.radius as f64);
    check(poi.1 > 0.0 && pip(poi.0, &p), || format!("pole of inaccessibility {poi:?} not inside; {}", d()))?;
    close(pt_boundary(poi.0, &p), poi.1, 64.0 * EPS * l, "distance from the pole of inaccessibility to the boundary", d)?;
    let side = (b.2 - b.0).max(b.3 - b.1);
    let res = side * std::f64::consts::SQRT_2 / 2.0 / 1024.0;
    let mut best = 0.0f64;
    let mut bq = poi.0;
    for _ in 0..40 {
        let x = (b.0 + s.f01() * (b.2 - b.0), b.1 + s.f01() * (b.3 - b.1));
        if pip(x, &p) {
            let r = pt_boundary(x, &p);
            if r > best {
                best = r;
                bq = x;
            }
        }
    }
    let mut step = 0.1 * w;
    for k in 0..60 {
        let a = k as f64 * 2.399963;
        let x = (bq.0 + step * a.cos(), bq.1 + step * a.sin());
        if pip(x, &p) && pt_boundary(x, &p) > best {
            best = pt_boundary(x, &p);
            bq = x;
        }
        step *= 0.93;
    }
    check(poi.1 >= best - res - 64.0 * EPS * l, || {
        format!("pole of inaccessibility has radius {}, but a circle of radius {best} around {bq:?} fits as well; {}", poi.1, d())
    })
}

fn any_points(s: &mut Src) -> Poly {
    let w = scale_w(s);
    let n = s.usize(3, 24);
    let grid = s.chance(1, 2);
    (0..n)
        .map(|_| {
            if grid {
                let m = 6;
                (s.below(m) as f64 * w / 8.0, s.below(m) as f64 * w / 8.0)
            } else {
                (s.sym(w), s.sym(w))
            }
        })
        .map(rp)
        .collect()
}

fn check_hull(h: &[P], pts: &[P], what: &str) -> Result<(), String> {
    let oh = hull(pts);
    let l = max_abs(pts);
    let tol = 64.0 * EPS * l;
    let d = || format!("{what}: hull {} of points {}", fmt_poly(h), fmt_poly(pts));
    for v in h {
        check(pts.contains(v), || format!("hull vertex {v:?} is not one of the points; {}", d()))?;
    }
    if oh.len() < 3 || signed_area(&oh) < 1e-3 * l * l {
        return Ok(()); // (nearly) degenerate
    }
    check(h.len() >= 3, || format!("hull has fewer than 3 vertices; {}", d()))?;
    let ndup = h.iter().enumerate().filter(|(i, v)| h[..*i].contains(v)).count();
    check(ndup == 0, || format!("hull repeats a vertex; {}", d()))?;
    check(signed_area(h) > 0.0, || format!("hull is not counterclockwise; {}", d()))?;
    // convex
    for i in 0..h.len() {
        let (a, b, c) = (h[i], h[(i + 1) % h.len()], h[(i + 2) % h.len()]);
        check(orient(a, b, c) >= -tol * (dist(a, b) + dist(b, c)), || format!("hull is not convex at {b:?}; {}", d()))?;
    }
    // and contains every point
    for q in pts {
        let o = outside_by(*q, h);
        check(o <= tol, || format!("point {q:?} lies {o:e} outside the hull; {}", d()))?;
    }
    Ok(())
}

fn c14_hull(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match s.below(3) {
        0 => {
            let pts = any_points(s);
            let mut u: Poly = vec![];
            for q in pts {
                if !u.contains(&q) || s.chance(1, 8) {
                    u.push(q);
                }
            }
            if u.len() < 3 {
                return Ok(());
            }
            ctx.nontrivial = hull(&u).len() >= 3;
            ctx.sample(|| fmt_poly(&u));
            let h: Poly = convex_hull_from_points(u.iter().map(|q| pt(*q)).collect()).iter().map(un).collect();
            ctx.label("points");
            check_hull(&h, &u, "convex_hull_from_points")
        }
        1 => {
            let (p, _) = any_poly(s);
            let lib = sp(&p);
            ctx.nontrivial = hull(&p).len() < p.len();
            ctx.label("polygon");
            ctx.sample(|| fmt_poly(&p));
            let idx = convex_hull_indices(&lib);
            check(idx.iter().all(|i| *i < lib.points.len()), || "hull index out of range".into())?;
            let h: Poly = idx.iter().map(|i| un(&lib.points[*i])).collect();
            check_hull(&h, &p, "convex_hull_indices")
        }
        _ => {
            let k = s.usize(1, 4);
            let mut libs = vec![];
            let mut pts = vec![];
            let w = scale_w(s);
            for _ in 0..k {
                let sz = s.float(0.2, 1.0) * w;
                let p = shape(s, sz);
                let p = moved(&p, s.sym(w), s.sym(w));
                if min_self_gap(&p) <= 0.0 {
                    continue;
                }
                let mut lib = sp(&p);
                if s.chance(1, 2) {
                    lib.generate_surrogate(no_surrogate());
                    if s.chance(1, 2) {
                        // the hull indices must stay valid after a transformation
                        let t = dt(rotation(s), (s.sym(w), s.sym(w)));
                        lib.transform(&t.compose());
                    }
                }
                pts.extend(unsp(&lib));
                libs.push(lib);
            }
            if libs.is_empty() {
                return Ok(());
            }
            ctx.nontrivial = libs.len() > 1;
            ctx.label("shapes");
            let h: Poly = convex_hull_from_shapes(libs.iter()).iter().map(un).collect();
            check_hull(&h, &pts, "convex_hull_from_shapes")
        }
    }
}

fn c14_transform(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (p, w) = any_poly(s);
    let mut lib = sp(&p);
    let with_sur = s.chance(2, 3);
    if with_sur {
        let c = cheap_surrogate(s);
        lib.generate_surrogate(c);
    }
    let lib = lib;
    let n = s.usize(1, 4);
    ctx.nontrivial = true;
    ctx.label(if with_sur { "surrogate" } else { "plain" });
    // the buffer is reused over several transformations, as the optimizer does
    let mut buf = lib.clone();
    for _ in 0..n {
        let d = if s.chance(1, 6) {
            // the identity, on a buffer that may hold another placement
            DTransformation::empty()
        } else {
            dt(rotation(s), (rf(s.sym(3.0 * w)), rf(s.sym(3.0 * w))))
        };
        let t = d.compose();
        let rg = rigid_of(&d);
        let moved_lib = lib.transform_clone(&t);
        buf.transform_from(&lib, &t);
        let desc = || format!("polygon {} transformed by {d:?}", fmt_poly(&p));
        ctx.sample(desc);
        let l = max_abs(&p) + norm(rg.t) + w;
        let tol = 32.0 * EPS * l;
        for (which, m) in [("transform", &moved_lib), ("transform_from", &buf)] {
            let e = |x: &str| format!("{which}: {x}; {}", desc());
            check(m.points.len() == lib.points.len(), || e("vertex count changed"))?;
            for (i, q) in m.points.iter().enumerate() {
                let o = rg.apply(un(&lib.points[i]));
                check(dist(un(q), o) <= tol, || e(&format!("vertex {i} is {q:?}, expected {o:?}")))?;
            }
            check(m.area == lib.area && m.diameter == lib.diameter, || e("area or diameter changed"))?;
            let b = bbox(&unsp(m));
            let lb = m.bbox();
            check(
                (lb.x_min as f64, lb.y_min as f64, lb.x_max as f64, lb.y_max as f64) == b,
                || e(&format!("bounding box {lb:?} does not match the vertices {b:?}")),
            )?;
            let circ = |a: &Circle, o: &Circle, what: &str| -> Result<(), String> {
                let c = rg.apply(un(&o.center));
                check(a.radius == o.radius && dist(un(&a.center), c) <= tol, || {
                    e(&format!("{what} is {a:?}, expected the image {c:?} of {o:?}"))
                })
            };
            circ(&m.poi, &lib.poi, "pole of inaccessibility")?;
            check(m.surrogate.is_some() == lib.surrogate.is_some(), || e("surrogate lost"))?;
            if let (Some(a), Some(o)) = (&m.surrogate, &lib.surrogate) {
                check(a.poles.len() == o.poles.len() && a.n_ff_poles == o.n_ff_poles, || e("poles lost"))?;
                for (x, y) in a.poles.iter().zip(&o.poles) {
                    circ(x, y, "pole")?;
                }
                circ(&a.poles_bounding_circle, &o.poles_bounding_circle, "poles' bounding circle")?;
                check(a.convex_hull_indices == o.convex_hull_indices, || e("hull indices changed"))?;
                close(
                    a.convex_hull_area as f64,
                    signed_area(&hull(&p)),
                    64.0 * p.len() as f64 * EPS * l * l,
                    "convex hull area",
                    desc,
                )?;
            }
        }
    }
    Ok(())
}

fn c14_poles(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (p, w) = any_poly(s);
    let mut lib = sp(&p);
    let c = cheap_surrogate(s);
    lib.generate_surrogate(c);
    let sur = lib.surrogate();
    let d = || format!("polygon {} config {c:?}", fmt_poly(&p));
    ctx.nontrivial = sur.poles.len() > 1;
    ctx.add("poles", sur.poles.len() as u64);
    ctx.sample(d);
    let l = max_abs(&p).max(w);
    let tol = 128.0 * EPS * l;
    check(!sur.poles.is_empty() && sur.poles.len() <= c.max_poles.max(1), || {
        format!("{} poles generated; {}", sur.poles.len(), d())
    })?;
    check(sur.poles[0] == lib.poi, || format!("first pole is not the pole of inaccessibility; {}", d()))?;
    check(sur.ff_poles().len() == c.n_ff_poles.min(sur.poles.len()), || format!("wrong number of fail-fast poles; {}", d()))?;
    for (i, q) in sur.poles.iter().enumerate() {
        let (cc, r) = (un(&q.center), q.radius as f64);
        // poles smaller than the tolerance of the point-in-polygon test may lie just outside
        let b = pt_boundary(cc, &p);
        let tiny = r.max(b) <= 5e-4 * l;
        check(r >= 0.0 && (tiny || pip(cc, &p) && b >= r - tol), || {
            format!("pole {i} {q:?} is not inside the polygon; {}", d())
        })?;
        let b = &sur.poles_bounding_circle;
        check(dist(un(&b.center), cc) + r <= b.radius as f64 * (1.0 + 1e-5) + tol, || {
            format!("pole {i} {q:?} sticks out of the bounding circle {b:?}; {}", d())
        })?;
        for (j, o) in sur.poles[..i].iter().enumerate() {
            check(dist(un(&o.center), cc) >= r + o.radius as f64 - tol, || {
                format!("poles {j} and {i} overlap; {}", d())
            })?;
        }
    }
    // either the coverage goal or the maximum number of poles is reached
    let covered: f64 = sur.poles.iter().map(|q| PI * (q.radius as f64).powi(2)).sum();
    let goal = c.pole_coverage_goal as f64 * signed_area(&p).abs();
    check(covered >= goal * (1.0 - 1e-3) || sur.poles.len() == c.max_poles.max(1), || {
        format!("poles cover {covered} of the requested {goal} with {} poles; {}", sur.poles.len(), d())
    })
}

// ---------------------------------------------------------------------------------- C15

type M = [[f64; 3]; 3];
fn mmul(a: &M, b: &M) -> M {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
fn mrot(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [[c, -s, 0.], [s, c, 0.], [0., 0., 1.]]
}
fn mtr(t: P) -> M {
    [[1., 0., t.0], [0., 1., t.1], [0., 0., 1.]]
}
fn minv(m: &M) -> M {
    // rigid: transpose the rotation
    let t = (m[0][2], m[1][2]);
    [
        [m[0][0], m[1][0], -(m[0][0] * t.0 + m[1][0] * t.1)],
        [m[0][1], m[1][1], -(m[0][1] * t.0 + m[1][1] * t.1)],
        [0., 0., 1.],
    ]
}
fn mapply(m: &M, p: P) -> P {
    (
        m[0][0] * p.0 + m[0][1] * p.1 + m[0][2],
        m[1][0] * p.0 + m[1][1] * p.1 + m[1][2],
    )
}

fn c15_algebra(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let w = scale_w(s);
    let n = s.usize(1, 8);
    let mut lib = Transformation::empty();
    let mut model: M = mtr((0., 0.));
    let mut log = vec![];
    let mut reach = w;
    let gen_a = |s: &mut Src| rf(rotation(s));
    let gen_t = |s: &mut Src| (rf(s.sym(w)), rf(s.sym(w)));
    check(lib.is_empty(), || "the empty transformation is not empty".into())?;
    let mk = |a: f64, t: P| DTransformation::new(a as F, (t.0 as F, t.1 as F));
    for _ in 0..n {
        let (a, t) = (gen_a(s), gen_t(s));
        reach += norm(t);
        let tf = (t.0 as F, t.1 as F);
        match s.below(9) {
            0 => {
                lib = lib.rotate(a as F);
                model = mmul(&mrot(a), &model);
                log.push(format!("rotate({a})"));
            }
            1 => {
                lib = lib.translate(tf);
                model = mmul(&mtr(t), &model);
                log.push(format!("translate({t:?})"));
            }
            2 => {
                lib = lib.rotate_translate(a as F, tf);
                model = mmul(&mtr(t), &mmul(&mrot(a), &model));
                log.push(format!("rotate_translate({a},{t:?})"));
            }
            3 => {
                lib = lib.translate_rotate(tf, a as F);
                model = mmul(&mrot(a), &mmul(&mtr(t), &model));
                log.push(format!("translate_rotate({t:?},{a})"));
            }
            4 => {
                lib = lib.transform(&Transformation::from_dt(&mk(a, t)));
                model = mmul(&mtr(t), &mmul(&mrot(a), &model));
                log.push(format!("transform(from_dt({a},{t:?}))"));
            }
            5 => {
                lib = lib.transform_from_decomposed(&mk(a, t));
                model = mmul(&mtr(t), &mmul(&mrot(a), &model));
                log.push(format!("transform_from_decomposed({a},{t:?})"));
            }
            6 => {
                lib = lib.inverse();
                model = minv(&model);
                log.push("inverse".into());
            }
            7 => {
                lib = lib
                    .transform(&Transformation::from_rotation(a as F))
                    .transform(&Transformation::from_translation(tf));
                model = mmul(&mtr(t), &mmul(&mrot(a), &model));
                log.push(format!("transform(from_rotation({a})),transform(from_translation({t:?}))"));
            }
            _ => {
                // through the decomposed form
                let d = lib.decompose();
                lib = d.compose();
                log.push("decompose+compose".into());
            }
        }
    }
    ctx.nontrivial = n >= 2;
    ctx.add("operations", n as u64);
    ctx.sample(|| log.join(" "));
    let tol = 64.0 * (n as f64 + 2.0) * EPS * reach;
    let d = || format!("operations [{}]", log.join(", "));
    let dec = lib.decompose();
    let rg = rigid_of(&dec);
    let inv = lib.clone().inverse();
    let rec = dec.compose();
    let rec2 = Transformation::from(&dec);
    let dec2 = DTransformation::from(&lib);
    check(dec2 == dec, || format!("DTransformation::from differs from decompose; {}", d()))?;
    check(dec.rotation().abs() as f64 <= PI + 1e-5, || format!("decomposed rotation {} out of range; {}", dec.rotation(), d()))?;
    for k in 0..4 {
        let q = match k {
            0 => (0.0, 0.0),
            1 => (rf(w), 0.0),
            2 => (0.0, rf(w)),
            _ => (rf(s.sym(w)), rf(s.sym(w))),
        };
        let o = mapply(&model, q);
        let via = |t: &Transformation, x: P| un(&pt(x).transform_clone(t));
        let e = |what: &str, got: P, exp: P| {
            check(dist(got, exp) <= tol, || {
                format!("{what} maps {q:?} to {got:?}, expected {exp:?}; {}", d())
            })
        };
        let img = via(&lib, q);
        e("transformation", img, o)?;
        e("decomposed transformation (rotation, then translation)", rg.apply(q), o)?;
        e("recomposed transformation", via(&rec, q), o)?;
        e("recomposed transformation", via(&rec2, q), o)?;
        e("inverse after transformation", via(&inv, img), q)?;
        e("transformation followed by inverse", via(&lib.clone().transform(&inv), q), q)?;
        // distances are preserved
        let (mut a, z) = (Point(0.0, 0.0), pt(q));
        a.transform_from(&z, &lib);
        check(un(&a) == img, || format!("transform_from differs from transform; {}", d()))?;
    }
    // primitives follow the points
    let (a, b) = ((rf(s.sym(w)), rf(s.sym(w))), (rf(s.sym(w)), rf(s.sym(w))));
    if a != b {
        let ed = Edge::new(pt(a), pt(b));
        let m = ed.transform_clone(&lib);
        check(
            dist(un(&m.start), mapply(&model, a)) <= tol && dist(un(&m.end), mapply(&model, b)) <= tol,
            || format!("edge ends moved to {m:?}; {}", d()),
        )?;
        let mut m2 = Edge::new(Point(0.0, 0.0), Point(1.0, 1.0));
        m2.transform_from(&ed, &lib);
        check(m2 == m, || format!("edge transform_from differs; {}", d()))?;
    }
    let c = Circle::new(pt(a), 0.25 * w as F);
    let m = c.transform_clone(&lib);
    check(m.radius == c.radius && dist(un(&m.center), mapply(&model, a)) <= tol, || {
        format!("circle moved to {m:?}; {}", d())
    })?;
    Ok(())
}

// ---------------------------------------------------------------------------------- C16

struct G {
    w: f64,
    tol: f64,
}
impl G {
    fn pt(&self, s: &mut Src) -> P {
        // mixture of a coarse grid (exact ties) and continuous values
        match s.below(3) {
            0 => (s.below(9) as f64 * self.w / 8.0, s.below(9) as f64 * self.w / 8.0),
            _ => rp((s.sym(self.w), s.sym(self.w))),
        }
    }
    fn edge(&self, s: &mut Src) -> (P, P) {
        let a = self.pt(s);
        for _ in 0..4 {
            let b = match s.below(4) {
                0 => {
                    let q = self.pt(s);
                    (a.0, q.1)
                }
                1 => {
                    let q = self.pt(s);
                    (q.0, a.1)
                }
                _ => self.pt(s),
            };
            if dist(a, b) > 0.05 * self.w {
                return (a, b);
            }
        }
        (a, rp((a.0 + 0.5 * self.w, a.1 + 0.25 * self.w)))
    }
    fn rect(&self, s: &mut Src) -> (f64, f64, f64, f64) {
        let a = self.pt(s);
        let grid = s.chance(1, 2);
        let ext = |s: &mut Src| {
            if grid {
                (1 + s.below(8)) as f64 * self.w / 8.0
            } else {
                s.float(0.02, 1.0) * self.w
            }
        };
        let (dx, dy) = (ext(s), ext(s));
        (a.0, a.1, rf(a.0 + dx), rf(a.1 + dy))
    }
    fn circle(&self, s: &mut Src) -> (P, f64) {
        (self.pt(s), rf(s.float(0.01, 0.8) * self.w))
    }
}
fn lrect(r: (f64, f64, f64, f64)) -> AARectangle {
    AARectangle::new(r.0 as F, r.1 as F, r.2 as F, r.3 as F)
}
fn ledge(e: (P, P)) -> Edge {
    Edge::new(pt(e.0), pt(e.1))
}
fn lcirc(c: (P, f64)) -> Circle {
    Circle::new(pt(c.0), c.1 as F)
}
fn rpoly4(r: (f64, f64, f64, f64)) -> Poly {
    rect(r.0, r.1, r.2, r.3)
}
fn in_rect(p: P, r: (f64, f64, f64, f64)) -> bool {
    p.0 >= r.0 && p.0 <= r.2 && p.1 >= r.1 && p.1 <= r.3
}
fn seg_rect_dist(e: (P, P), r: (f64, f64, f64, f64)) -> f64 {
    if in_rect(e.0, r) || in_rect(e.1, r) {
        return 0.0;
    }
    edges(&rpoly4(r))
        .map(|(a, b)| seg_seg_dist(e.0, e.1, a, b))
        .fold(f64::MAX, f64::min)
}
fn pt_rect_dist(p: P, r: (f64, f64, f64, f64)) -> f64 {
    let dx = (r.0 - p.0).max(0.0).max(p.0 - r.2);
    let dy = (r.1 - p.1).max(0.0).max(p.1 - r.3);
    dx.hypot(dy)
}
fn g(s: &mut Src) -> G {
    let w = scale_w(s);
    G { w, tol: 64.0 * EPS * w }
}
fn dist_check(what: &str, got: (F, F), exp: f64, tol: f64, w: f64, d: &dyn Fn() -> String) -> Result<(), String> {
    let (dd, sq) = (got.0 as f64, got.1 as f64);
    close(dd, exp, tol, &format!("{what} (distance)"), d)?;
    close(sq, exp * exp, 4.0 * tol * (exp + w * 1e-2), &format!("{what} (squared distance)"), d)
}

fn c16_edges(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let g = g(s);
    let a = g.edge(s);
    let b = if s.chance(1, 3) {
        // aimed at a point of a
        let u = s.f01();
        let m = (a.0 .0 + u * (a.1 .0 - a.0 .0), a.0 .1 + u * (a.1 .1 - a.0 .1));
        let v = g.pt(s);
        let k = s.float(-1.0, 0.5);
        let o = (m.0 + k * (v.0 - m.0), m.1 + k * (v.1 - m.1));
        if dist(v, o) > 0.05 * g.w {
            (rp(v), rp(o))
        } else {
            g.edge(s)
        }
    } else {
        g.edge(s)
    };
    let d = || format!("edges {a:?} and {b:?}");
    ctx.sample(d);
    let (la, lb) = (ledge(a), ledge(b));
    let col = la.collides_with(&lb);
    let at = la.collides_at(&lb);
    check(at.is_some() == col, || format!("collides_at and collides_with disagree; {}", d()))?;
    let dd = seg_seg_dist(a.0, a.1, b.0, b.1);
    let par = cross(sub(a.1, a.0), sub(b.1, b.0)).abs() / (dist(a.0, a.1) * dist(b.0, b.1));
    if seg_cross_robust(a.0, a.1, b.0, b.1, 1e-4 * g.w) {
        ctx.nontrivial = true;
        ctx.label("crossing");
        check(col, || format!("crossing edges reported as not colliding; {}", d()))?;
        if par > 0.02 {
            let q = un(&at.unwrap());
            let t = 1e-4 * g.w;
            check(pt_seg(q, a.0, a.1) <= t && pt_seg(q, b.0, b.1) <= t, || {
                format!("reported intersection {q:?} is not on both edges; {}", d())
            })?;
        }
    } else if dd > 1e-3 * g.w {
        ctx.label("apart");
        ctx.nontrivial = true;
        check(!col, || format!("edges {dd} apart reported as colliding; {}", d()))?;
    } else {
        ctx.label("unclear");
    }
    if ctx.nontrivial {
        check(col == lb.collides_with(&la), || format!("edge collision is not symmetric; {}", d()))?;
        check(col == la.clone().reverse().collides_with(&lb), || format!("edge collision depends on the direction; {}", d()))?;
    }
    // distances to points
    let p = g.pt(s);
    let exp = pt_seg(p, a.0, a.1);
    let dp = || format!("edge {a:?} point {p:?}");
    let tol = 4.0 * g.tol;
    dist_check("point to edge", (la.distance(&pt(p)), la.sq_distance(&pt(p))), exp, tol, g.w, &dp)?;
    let cl = un(&la.closest_point_on_edge(&pt(p)));
    check(pt_seg(cl, a.0, a.1) <= tol && (dist(cl, p) - exp).abs() <= tol, || {
        format!("closest point {cl:?}; {}", dp())
    })?;
    let (pos, bd) = la.distance_from_border(&pt(p));
    check(pos == GeoPosition::Exterior, || "edge has no interior".into())?;
    close(bd as f64, exp, tol, "border distance of an edge", dp)?;
    // length, box, extension
    close(la.diameter() as f64, dist(a.0, a.1), tol, "edge length", dp)?;
    let k = rf(s.float(0.0, 1.0) * g.w);
    let len = dist(a.0, a.1);
    let u = ((a.1 .0 - a.0 .0) / len, (a.1 .1 - a.0 .1) / len);
    let f = la.clone().extend_at_front(k as F);
    let bk = la.clone().extend_at_back(k as F);
    let ext = |p: P, x: f64| (p.0 + x * u.0, p.1 + x * u.1);
    let t2 = tol * 4.0;
    check(un(&f.end) == a.1 && dist(un(&f.start), ext(a.0, -k)) <= t2, || format!("extend_at_front({k}) gave {f:?}; {}", dp()))?;
    check(un(&bk.start) == a.0 && dist(un(&bk.end), ext(a.1, k)) <= t2, || format!("extend_at_back({k}) gave {bk:?}; {}", dp()))?;
    let fac = rf(s.float(0.2, 3.0));
    let sc = la.clone().scale(fac as F);
    let h = len * (fac - 1.0) / 2.0;
    check(dist(un(&sc.start), ext(a.0, -h)) <= t2 && dist(un(&sc.end), ext(a.1, h)) <= t2, || {
        format!("scale({fac}) gave {sc:?}; {}", dp())
    })
}

fn c16_rects(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let g = g(s);
    let a = g.rect(s);
    let b = match s.below(4) {
        0 => {
            // nested
            let (x0, x1) = (s.float(a.0, a.2), s.float(a.0, a.2));
            let (y0, y1) = (s.float(a.1, a.3), s.float(a.1, a.3));
            let r = (rf(x0.min(x1)), rf(y0.min(y1)), rf(x0.max(x1)), rf(y0.max(y1)));
            if r.0 < r.2 && r.1 < r.3 {
                r
            } else {
                a
            }
        }
        _ => g.rect(s),
    };
    let (la, lb) = (lrect(a), lrect(b));
    let d = || format!("rectangles {a:?} and {b:?}");
    ctx.sample(d);
    ctx.nontrivial = true;
    // closed rectangles; the comparisons are exact
    let meet = a.0.max(b.0) <= a.2.min(b.2) && a.1.max(b.1) <= a.3.min(b.3);
    check(la.collides_with(&lb) == meet, || format!("collides_with != {meet}; {}", d()))?;
    let sur = a.0 <= b.0 && a.1 <= b.1 && a.2 >= b.2 && a.3 >= b.3;
    let enc = b.0 <= a.0 && b.1 <= a.1 && b.2 >= a.2 && b.3 >= a.3;
    let rel = la.relation_to(&lb);
    let ok = match rel {
        GeoRelation::Disjoint => !meet,
        GeoRelation::Surrounding => sur,
        GeoRelation::Enclosed => enc,
        GeoRelation::Intersecting => meet && !sur && !enc,
    };
    ctx.label(match rel {
        GeoRelation::Disjoint => "disjoint",
        GeoRelation::Surrounding => "surrounding",
        GeoRelation::Enclosed => "enclosed",
        GeoRelation::Intersecting => "intersecting",
    });
    check(ok, || format!("relation_to = {rel:?}; {}", d()))?;
    // the tolerant variants may only differ close to the boundary
    if meet {
        check(la.almost_collides_with(&lb), || format!("almost_collides_with misses a collision; {}", d()))?;
        if sur {
            check(la.almost_relation_to(&lb) == GeoRelation::Surrounding, || format!("almost_relation_to misses containment; {}", d()))?;
        } else if enc {
            let r = la.almost_relation_to(&lb);
            check(matches!(r, GeoRelation::Enclosed | GeoRelation::Surrounding), || format!("almost_relation_to misses containment; {}", d()))?;
        }
    }
    let gap = (a.0.max(b.0) - a.2.min(b.2)).max(a.1.max(b.1) - a.3.min(b.3));
    if gap > 2e-3 * g.w {
        check(!la.almost_collides_with(&lb), || format!("almost_collides_with is far off; {}", d()))?;
        check(la.almost_relation_to(&lb) == GeoRelation::Disjoint, || format!("almost_relation_to is far off; {}", d()))?;
    }
    let m = 2e-3 * g.w;
    let excess = |x: (f64, f64, f64, f64), y: (f64, f64, f64, f64)| {
        (x.0 - y.0).max(x.1 - y.1).max(y.2 - x.2).max(y.3 - x.3)
    };
    if gap < -m && excess(a, b) > m && excess(b, a) > m {
        check(la.almost_relation_to(&lb) == GeoRelation::Intersecting, || format!("almost_relation_to is far off; {}", d()))?;
    }
    // intersection, bounding rectangle
    let i = (a.0.max(b.0), a.1.max(b.1), a.2.min(b.2), a.3.min(b.3));
    let li = AARectangle::from_intersection(&la, &lb);
    if i.0 < i.2 && i.1 < i.3 {
        check(li == Some(lrect(i)), || format!("from_intersection gave {li:?}; {}", d()))?;
    } else {
        check(li.is_none(), || format!("from_intersection gave {li:?}; {}", d()))?;
    }
    let bb = (a.0.min(b.0), a.1.min(b.1), a.2.max(b.2), a.3.max(b.3));
    check(AARectangle::bounding_rectangle(&la, &lb) == lrect(bb), || format!("bounding_rectangle; {}", d()))?;
    // size
    let (wd, ht) = (a.2 - a.0, a.3 - a.1);
    close(la.area() as f64, wd * ht, 4.0 * g.tol * (wd + ht), "rectangle area", d)?;
    close(la.diameter() as f64, wd.hypot(ht), g.tol, "rectangle diameter", d)?;
    close(la.width() as f64, wd, g.tol, "width", d)?;
    close(la.height() as f64, ht, g.tol, "height", d)?;
    let c = un(&la.centroid());
    check(dist(c, ((a.0 + a.2) / 2.0, (a.1 + a.3) / 2.0)) <= g.tol, || format!("centroid {c:?}; {}", d()))?;
    // quadrants: I, II, III, IV around the centroid
    let q = la.quadrants();
    let exp = [
        (c.0, c.1, a.2, a.3),
        (a.0, c.1, c.0, a.3),
        (a.0, a.1, c.0, c.1),
        (c.0, a.1, a.2, c.1),
    ];
    for k in 0..4 {
        check(q[k] == lrect(exp[k]), || format!("quadrant {k} is {:?}; {}", q[k], d()))?;
        let corner = un(&la.corners()[k]);
        check(in_rect(corner, exp[k]), || format!("corner {k} is not in quadrant {k}; {}", d()))?;
        let e = &la.edges()[k];
        check(
            un(&e.start) == corner && un(&e.end) == un(&la.corners()[(k + 1) % 4]),
            || format!("edge {k} does not connect corners {k} and {}; {}", (k + 1) % 4, d()),
        )?;
        let nb = AARectangle::QUADRANT_NEIGHBOR_LAYOUT[k];
        for j in 0..4 {
            let adj = j != k && (j + 2) % 4 != k;
            check(nb.contains(&j) == adj, || format!("quadrant neighbours of {k}: {nb:?}"))?;
        }
    }
    let sq = la.inflate_to_square();
    let side = wd.max(ht);
    let t = 4.0 * g.tol;
    let expsq = (c.0 - side / 2.0, c.1 - side / 2.0, c.0 + side / 2.0, c.1 + side / 2.0);
    let near = |r: &AARectangle, e: (f64, f64, f64, f64)| {
        (r.x_min as f64 - e.0).abs() <= t && (r.y_min as f64 - e.1).abs() <= t && (r.x_max as f64 - e.2).abs() <= t && (r.y_max as f64 - e.3).abs() <= t
    };
    check(near(&sq, expsq), || format!("inflate_to_square gave {sq:?}; {}", d()))?;
    let fac = rf(s.float(0.5, 3.0));
    let sc = la.clone().scale(fac as F);
    check(near(&sc, (c.0 - wd * fac / 2.0, c.1 - ht * fac / 2.0, c.0 + wd * fac / 2.0, c.1 + ht * fac / 2.0)), || {
        format!("scale({fac}) gave {sc:?}; {}", d())
    })?;
    // points
    let p = match s.below(3) {
        0 => (rf(s.float(a.0, a.2)), rf(s.float(a.1, a.3))),
        1 => (a.0, rf(s.float(a.1, a.3))),
        _ => g.pt(s),
    };
    let dp = || format!("rectangle {a:?} point {p:?}");
    let inside = in_rect(p, a);
    ctx.label(if inside { "point inside" } else { "point outside" });
    check(la.collides_with(&pt(p)) == inside && pt(p).collides_with(&la) == inside, || format!("point containment != {inside}; {}", dp()))?;
    if inside {
        check(la.almost_collides_with(&pt(p)), || format!("tolerant point containment; {}", dp()))?;
    } else if pt_rect_dist(p, a) > m {
        check(!la.almost_collides_with(&pt(p)), || format!("tolerant point containment; {}", dp()))?;
    }
    dist_check("point to rectangle", (la.distance(&pt(p)), la.sq_distance(&pt(p))), pt_rect_dist(p, a), 4.0 * g.tol, g.w, &dp)?;
    let bd = pt_boundary(p, &rpoly4(a));
    let ((p1, b1), (p2, b2)) = (la.distance_from_border(&pt(p)), la.sq_distance_from_border(&pt(p)));
    let pos = if inside { GeoPosition::Interior } else { GeoPosition::Exterior };
    check(p1 == pos && p2 == pos, || format!("border position; {}", dp()))?;
    dist_check("point to rectangle border", (b1, b2), bd, 4.0 * g.tol, g.w, &dp)?;
    // edges
    let e = g.edge(s);
    let le = ledge(e);
    let de = || format!("rectangle {a:?} edge {e:?}");
    let hit = la.collides_with(&le);
    check(hit == le.collides_with(&la), || format!("rectangle-edge collision is not symmetric; {}", de()))?;
    let ed = seg_rect_dist(e, a);
    let robust = edges(&rpoly4(a)).any(|(x, y)| seg_cross_robust(e.0, e.1, x, y, 1e-4 * g.w)) || in_rect(e.0, a) || in_rect(e.1, a);
    if robust {
        ctx.label("edge hits rectangle");
        check(hit, || format!("edge in or through the rectangle is missed; {}", de()))?;
    } else if ed > 1e-3 * g.w {
        ctx.label("edge misses rectangle");
        check(!hit, || format!("edge {ed} away reported as colliding; {}", de()))?;
    }
    Ok(())
}

fn c16_circles(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let g = g(s);
    let a = g.circle(s);
    let la = lcirc(a);
    let tol = 8.0 * g.tol;
    let m = 1e-4 * g.w;
    ctx.nontrivial = true;
    let pred = |what: &str, got: bool, signed: f64, d: &dyn Fn() -> String| -> Result<(), String> {
        // signed: distance of the other object to the circle's centre minus the reach
        if signed < -m {
            check(got, || format!("{what}: collision missed (overlap {}); {}", -signed, d()))
        } else if signed > m {
            check(!got, || format!("{what}: false collision (gap {signed}); {}", d()))
        } else {
            Ok(())
        }
    };
    // point
    let p = if s.chance(1, 2) {
        let (r, t) = (s.f01() * 1.5 * a.1, s.float(0.0, 2.0 * PI));
        rp((a.0 .0 + r * t.cos(), a.0 .1 + r * t.sin()))
    } else {
        g.pt(s)
    };
    let dp = || format!("circle {a:?} point {p:?}");
    ctx.sample(dp);
    let dc = dist(p, a.0);
    pred("circle-point", la.collides_with(&pt(p)), dc - a.1, &dp)?;
    dist_check("point to circle", (DistanceFrom::<Point>::distance(&la, &pt(p)), DistanceFrom::<Point>::sq_distance(&la, &pt(p))), (dc - a.1).max(0.0), tol, g.w, &dp)?;
    let ((p1, b1), (p2, b2)) = (la.distance_from_border(&pt(p)), la.sq_distance_from_border(&pt(p)));
    dist_check("point to circle border", (b1, b2), (dc - a.1).abs(), tol, g.w, &dp)?;
    if (dc - a.1).abs() > m {
        let pos = if dc < a.1 { GeoPosition::Interior } else { GeoPosition::Exterior };
        ctx.label(if dc < a.1 { "point inside" } else { "point outside" });
        check(p1 == pos && p2 == pos, || format!("position; {}", dp()))?;
    }
    // circle
    let b = g.circle(s);
    let lb = lcirc(b);
    let db = || format!("circles {a:?} and {b:?}");
    let dcc = dist(a.0, b.0) - a.1 - b.1;
    pred("circle-circle", la.collides_with(&lb), dcc, &db)?;
    check(la.collides_with(&lb) == lb.collides_with(&la), || format!("circle collision not symmetric; {}", db()))?;
    dist_check("circle to circle", (DistanceFrom::<Circle>::distance(&la, &lb), DistanceFrom::<Circle>::sq_distance(&la, &lb)), dcc.max(0.0), tol, g.w, &db)?;
    let (pos, bd) = DistanceFrom::<Circle>::distance_from_border(&la, &lb);
    close(bd as f64, dcc.abs(), tol, "circle to circle border", db)?;
    if dcc.abs() > m {
        check((pos == GeoPosition::Interior) == (dcc < 0.0), || format!("circle-circle position; {}", db()))?;
    }
    // edge
    let e = g.edge(s);
    let le = ledge(e);
    let de = || format!("circle {a:?} edge {e:?}");
    let dce = pt_seg(a.0, e.0, e.1) - a.1;
    pred("circle-edge", la.collides_with(&le), dce, &de)?;
    dist_check("edge to circle", (DistanceFrom::<Edge>::distance(&la, &le), DistanceFrom::<Edge>::sq_distance(&la, &le)), dce.max(0.0), tol, g.w, &de)?;
    // rectangle
    let r = g.rect(s);
    let lr = lrect(r);
    let dr = || format!("circle {a:?} rectangle {r:?}");
    pred("circle-rectangle", la.collides_with(&lr), pt_rect_dist(a.0, r) - a.1, &dr)?;
    // shape data
    close(la.area() as f64, PI * a.1 * a.1, 8.0 * EPS * a.1 * a.1 * PI, "circle area", dp)?;
    close(la.diameter() as f64, 2.0 * a.1, tol, "circle diameter", dp)?;
    let bb = la.bbox();
    let eb = (a.0 .0 - a.1, a.0 .1 - a.1, a.0 .0 + a.1, a.0 .1 + a.1);
    check(
        (bb.x_min as f64 - eb.0).abs() <= tol && (bb.y_min as f64 - eb.1).abs() <= tol && (bb.x_max as f64 - eb.2).abs() <= tol && (bb.y_max as f64 - eb.3).abs() <= tol,
        || format!("circle bounding box {bb:?}; {}", dp()),
    )?;
    close(pt(p).distance(pt(a.0)) as f64, dc, tol, "point distance", dp)?;
    Ok(())
}

fn c16_bounding_circle(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let g = g(s);
    let n = s.usize(1, 6);
    let mut cs: Vec<(P, f64)> = vec![];
    for _ in 0..n {
        let c = if !cs.is_empty() && s.chance(1, 4) {
            // concentric with / around / inside an earlier one
            let o = cs[s.below(cs.len() as u64) as usize];
            (o.0, rf(s.float(0.3, 3.0) * o.1))
        } else {
            g.circle(s)
        };
        cs.push(c);
    }
    let ls: Vec<Circle> = cs.iter().map(|c| lcirc(*c)).collect();
    let d = || format!("circles {cs:?}");
    ctx.nontrivial = n >= 2;
    ctx.add("circles", n as u64);
    ctx.sample(d);
    let b = Circle::bounding_circle(&ls);
    let tol = 1e-5 * g.w;
    for c in &cs {
        check(dist(un(&b.center), c.0) + c.1 <= b.radius as f64 + tol, || {
            format!("bounding circle {b:?} does not contain {c:?}; {}", d())
        })?;
    }
    if n <= 2 {
        // two circles: the smallest enclosing circle is known
        let (x, y) = (cs[0], *cs.last().unwrap());
        let dd = dist(x.0, y.0);
        let r = if dd + y.1 <= x.1 {
            x.1
        } else if dd + x.1 <= y.1 {
            y.1
        } else {
            (dd + x.1 + y.1) / 2.0
        };
        close(b.radius as f64, r, tol, "smallest enclosing circle of two circles", d)?;
    }
    Ok(())
}

fn c16_polygon(s: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let (p, w) = any_poly(s);
    let l = max_abs(&p).max(w);
    let lib: SimplePolygon = sp(&p);
    let n = 8;
    ctx.nontrivial = true;
    let b = bbox(&p);
    for _ in 0..n {
        let q = match s.below(4) {
            // level with a vertex (the ray passes through it)
            0 => {
                let v = p[s.below(p.len() as u64) as usize];
                (rf(s.float(b.0, b.2)), v.1)
            }
            1 => {
                let i = s.below(p.len() as u64) as usize;
                let (a, c) = (p[i], p[(i + 1) % p.len()]);
                let u = s.f01();
                rp((a.0 + u * (c.0 - a.0) + s.sym(0.02 * w), a.1 + u * (c.1 - a.1) + s.sym(0.02 * w)))
            }
            _ => rp((s.float(b.0 - 0.2 * w, b.2 + 0.2 * w), s.float(b.1 - 0.2 * w, b.3 + 0.2 * w))),
        };
        let d = || format!("polygon {} point {q:?}", fmt_poly(&p));
        ctx.sample(d);
        let bd = pt_boundary(q, &p);
        let tol = 64.0 * EPS * l;
        let inside = pip(q, &p);
        // the point test compares with the relative tolerance of FPA, 3.5e-4
        let margin = 5e-4 * l;
        let ((p1, b1), (p2, b2)) = (lib.distance_from_border(&pt(q)), lib.sq_distance_from_border(&pt(q)));
        dist_check("point to polygon border", (b1, b2), bd, tol, l, &d)?;
        if bd > margin {
            ctx.label(if inside { "inside" } else { "outside" });
            check(lib.collides_with(&pt(q)) == inside, || format!("point in polygon is {inside}; {}", d()))?;
            let pos = if inside { GeoPosition::Interior } else { GeoPosition::Exterior };
            check(p1 == pos && p2 == pos, || format!("position of the point; {}", d()))?;
            dist_check("point to polygon", (lib.distance(&pt(q)), lib.sq_distance(&pt(q))), if inside { 0.0 } else { bd }, tol, l, &d)?;
        } else {
            ctx.label("near the boundary");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "Random simple polygons (families of convex, star, rectilinear, ring, comb, spiral and noisy shapes, any orientation/offset/scale 0.008..2e4, with extra nearly collinear vertices) x inflate/deflate x area budget. Non-trivial: at least one vertex was removed.",
            assumptions: &["Original polygons are simple with feature size >= 0.2% of their extent", "containment is judged up to 2e-5 of the coordinate magnitude"],
            subs: vec![Sub { name: "simplify", quick: 240_000, thorough: 4_000_000, f: c13_simplify }],
        },
        Prop {
            id: "C14",
            rule: "Random simple polygons / point sets (incl. integer-grid ties) and rigid transformations; every derived quantity is recomputed in f64. Non-trivial: derived - more than 4 vertices or clockwise input; hull - hull differs from the input set; poles - more than one pole; transform - always.",
            assumptions: &["numerical tolerance proportional to machine epsilon x coordinate magnitude", "pole of inaccessibility is optimal up to 1/1024 of the bounding square's half diagonal"],
            subs: vec![
                Sub { name: "derived", quick: 60_000, thorough: 1_000_000, f: c14_derived },
                Sub { name: "hull", quick: 180_000, thorough: 3_000_000, f: c14_hull },
                Sub { name: "transform", quick: 30_000, thorough: 500_000, f: c14_transform },
                Sub { name: "poles", quick: 30_000, thorough: 500_000, f: c14_poles },
            ],
        },
        Prop {
            id: "C15",
            rule: "Random sequences of up to 8 transformation-building operations executed on the library type and on an f64 matrix model; images of probe points, the decomposed form, the inverse and transformed primitives are compared. Non-trivial: at least two operations.",
            assumptions: &["tolerance 64 (n+2) machine epsilons x reach"],
            subs: vec![Sub { name: "algebra", quick: 6_000_000, thorough: 30_000_000, f: c15_algebra }],
        },
        Prop {
            id: "C16",
            rule: "Random points, edges, rectangles, circles and polygons (half of the coordinates on a coarse grid to force ties) at scales 0.008..2e4; predicates are compared with an f64 oracle outside a tolerance band, distances up to machine epsilon x scale. Non-trivial: the oracle is decisive for at least one predicate.",
            assumptions: &["edge predicates are only judged outside a band of 1e-4 (crossings) / 1e-3 (gaps) of the scale; collinear overlaps are not judged"],
            subs: vec![
                Sub { name: "edges", quick: 7_000_000, thorough: 40_000_000, f: c16_edges },
                Sub { name: "rects", quick: 7_000_000, thorough: 40_000_000, f: c16_rects },
                Sub { name: "circles", quick: 7_000_000, thorough: 40_000_000, f: c16_circles },
                Sub { name: "bounding_circle", quick: 5_000_000, thorough: 20_000_000, f: c16_bounding_circle },
                Sub { name: "polygon", quick: 100_000, thorough: 1_000_000, f: c16_polygon },
            ],
        },
    ]
}
