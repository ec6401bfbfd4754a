//! C01 C02 C24 C26: bounding boxes (planar and linear).
use crate::case::*;
use crate::ensure;
use crate::gen::Rng;
use magog::linear::primitives as lp;
use magog::linear::types as lt;
use magog::planar::primitives::{Envelope, Position};
use magog::Coordinate;

pub type E = Option<[f64; 4]>;

/// Positions handed to the code are multiplied by SCALE (a power of two, so exact);
/// the oracles work on the unscaled integers.
pub fn pos(p: P) -> Position<f64> { let s = scale(); Position::new(p[0] * s, p[1] * s) }

/// same ordered value (NaN ~ NaN, -0 ~ 0)
pub fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn omin(a: f64, b: f64) -> f64 { if a.is_nan() { b } else if b.is_nan() { a } else if a <= b { a } else { b } }
fn omax(a: f64, b: f64) -> f64 { if a.is_nan() { b } else if b.is_nan() { a } else if a >= b { a } else { b } }

pub fn ov(e: &Envelope<f64>) -> E {
    match e {
        Envelope::Empty => None,
        Envelope::Bounds { min, max } => Some([min.x, min.y, max.x, max.y]),
    }
}
pub fn osame(a: E, b: E) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => (0..4).all(|i| same(a[i], b[i])),
        _ => false,
    }
}
pub fn ojoin(a: E, b: E) -> E {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => Some([omin(a[0], b[0]), omin(a[1], b[1]), omax(a[2], b[2]), omax(a[3], b[3])]),
    }
}
pub fn opts(ps: &[P]) -> E {
    ps.iter().fold(None, |e, p| ojoin(e, Some([p[0], p[1], p[0], p[1]])))
}
pub fn ocontains(a: E, b: E) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a[0] <= b[0] && b[2] <= a[2] && a[1] <= b[1] && b[3] <= a[3],
        _ => false,
    }
}
pub fn ointersects(a: E, b: E) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a[0] <= b[2] && b[0] <= a[2] && a[1] <= b[3] && b[1] <= a[3],
        _ => false,
    }
}
/// 0 points: Empty; 1: a point; 2: exactly these bounds (not reordered)
pub fn env(b: &[P]) -> Envelope<f64> {
    match b.len() {
        0 => Envelope::Empty,
        1 => Envelope::Bounds { min: pos(b[0]), max: pos(b[0]) },
        _ => Envelope::Bounds { min: pos(b[0]), max: pos(b[1]) },
    }
}
pub fn oenv(b: &[P]) -> E {
    match b.len() {
        0 => None,
        1 => Some([b[0][0], b[0][1], b[0][0], b[0][1]]),
        _ => Some([b[0][0], b[0][1], b[1][0], b[1][1]]),
    }
}

fn val(r: &mut Rng, mode: u64) -> f64 { if mode == 0 { r.any() } else { r.range(-3, 3) as f64 } }

fn gen_boxes(kind: &'static str, r: &mut Rng, n: usize) -> Option<Case> {
    let mode = r.below(3);
    let mut g = vec![];
    for _ in 0..n {
        let k = match r.below(8) { 0 => 0, 1 => 1, _ => 2 };
        let mut b: Vec<P> = (0..k).map(|_| [val(r, mode), val(r, mode)]).collect();
        if k == 2 && r.chance(3, 4) {
            // ordered bounds
            let (p, q) = (b[0], b[1]);
            b = vec![[omin(p[0], q[0]), omin(p[1], q[1])], [omax(p[0], q[0]), omax(p[1], q[1])]];
        }
        g.push(vec![b]);
    }
    Some(Case::new(kind, vec![], g))
}

const V: [f64; 5] = [0.0, 1.0, 2.0, f64::NAN, f64::INFINITY];
/// all pairs of boxes over a 4-value alphabet, bounds in any order
fn exh_pair(kind: &'static str, i: Option<u64>) -> (Option<Case>, u64) {
    let one = 1 + 4u64.pow(4);
    let total = one * one;
    let i = match i { None => return (None, total), Some(i) => i };
    let dec = |mut k: u64| -> Vec<Vec<P>> {
        if k == 0 { return vec![vec![]]; }
        k -= 1;
        let mut d = || { let v = V[(k % 4) as usize]; k /= 4; v };
        let (a, b, c, e) = (d(), d(), d(), d());
        vec![vec![[a, b], [c, e]]]
    };
    (Some(Case::new(kind, vec![], vec![dec(i % one), dec(i / one)])), total)
}

fn chk_union(c: &Case) -> Res {
    let a = env(c.g[0].get(0).map(|x| &x[..]).unwrap_or(&[]));
    let oa = ov(&a);
    let b = env(c.g[1].get(0).map(|x| &x[..]).unwrap_or(&[]));
    let ob = ov(&b);
    let want = ojoin(oa, ob);
    let m = a.merge(b);
    ensure!(osame(ov(&m), want), "merge: {:?} join {:?} gave {:?}, least box is {:?}", a, b, m, want);
    let m2 = b.merge(a);
    ensure!(osame(ov(&m2), want), "merge is not symmetric: {:?} vs {:?}", m2, want);
    let mut e = a;
    e.expand(b);
    ensure!(osame(ov(&e), want), "expand: {:?} by {:?} gave {:?}, least box is {:?}", a, b, e, want);
    if let Some(o) = ob {
        let p = [o[0], o[3]];
        let want = ojoin(oa, opts(&[p]));
        let m = a.merge(pos(p));
        ensure!(osame(ov(&m), want), "merge with position {:?}: {:?}, want {:?}", p, m, want);
        let mut e = a;
        e.expand(pos(p));
        ensure!(osame(ov(&e), want), "expand with position {:?}: {:?}, want {:?}", p, e, want);
        let q = [o[2], o[1]];
        let n = Envelope::new(pos(p), pos(q));
        ensure!(osame(ov(&n), opts(&[p, q])), "new({:?},{:?}) = {:?}", p, q, n);
        let (x, y) = Position::min_max(pos(p), pos(q));
        ensure!(same(x.x, omin(p[0], q[0])) && same(x.y, omin(p[1], q[1])) && same(y.x, omax(p[0], q[0])) && same(y.y, omax(p[1], q[1])), "Position::min_max({:?},{:?}) = {:?}", p, q, (x, y));
        let mn = pos(p).min(pos(q));
        let mx = pos(p).max(pos(q));
        ensure!(same(mn.x, x.x) && same(mn.y, x.y) && same(mx.x, y.x) && same(mx.y, y.y), "Position::min/max of {:?} {:?}: {:?} {:?}", p, q, mn, mx);
        let (l, h) = p[0].min_max(q[0]);
        ensure!(same(l, omin(p[0], q[0])) && same(h, omax(p[0], q[0])), "min_max({:?},{:?}) = {:?}", p[0], q[0], (l, h));
    }
    ensure!(Envelope::<f64>::empty() == Envelope::Empty, "empty() is not Empty");
    ensure!(a.is_empty() == oa.is_none(), "is_empty({:?}) = {}", a, a.is_empty());
    match (a.min(), a.max(), oa) {
        (None, None, None) => (),
        (Some(m), Some(x), Some(o)) => ensure!(osame(Some([m.x, m.y, x.x, x.y]), Some(o)), "corners of {:?}: {:?} {:?}", a, m, x),
        x => return Err(format!("corners of {:?}: {:?}", a, x)),
    }
    Ok(oa.is_some() && ob.is_some())
}

fn chk_of(c: &Case) -> Res {
    let es: Vec<Envelope<f64>> = c.g.iter().map(|b| env(b.get(0).map(|x| &x[..]).unwrap_or(&[]))).collect();
    let want = es.iter().fold(None, |a, e| ojoin(a, ov(e)));
    let got = Envelope::of(es.iter());
    ensure!(osame(ov(&got), want), "of({:?}) = {:?}, least box is {:?}", es, got, want);
    let ps: Vec<P> = c.g.iter().flatten().flatten().copied().collect();
    let pps: Vec<Position<f64>> = ps.iter().map(|&p| pos(p)).collect();
    let got = Envelope::of(pps.iter());
    ensure!(osame(ov(&got), opts(&ps)), "of positions {:?} = {:?}", ps, got);
    Ok(es.len() > 1)
}

fn chk_pred(c: &Case) -> Res {
    let a = env(c.g[0].get(0).map(|x| &x[..]).unwrap_or(&[]));
    let b = env(c.g[1].get(0).map(|x| &x[..]).unwrap_or(&[]));
    let (oa, ob) = (ov(&a), ov(&b));
    ensure!(a.contains(b) == ocontains(oa, ob), "{:?}.contains({:?}) = {}", a, b, a.contains(b));
    ensure!(a.intersects(b) == ointersects(oa, ob), "{:?}.intersects({:?}) = {}", a, b, a.intersects(b));
    ensure!(b.intersects(a) == ointersects(oa, ob), "intersects not symmetric on {:?} {:?}", a, b);
    if let Some(o) = ob {
        let p = [o[0], o[1]];
        ensure!(a.contains(pos(p)) == ocontains(oa, opts(&[p])), "{:?}.contains(position {:?}) = {}", a, p, a.contains(pos(p)));
    }
    Ok(oa.is_some() && ob.is_some())
}

fn chk_buffer(c: &Case) -> Res {
    let a = env(c.g[0].get(0).map(|x| &x[..]).unwrap_or(&[]));
    let d = c.g[1].get(0).and_then(|x| x.get(0)).map(|p| p[0]).unwrap_or(0.0);
    let b = a.buffer(d);
    match ov(&a) {
        None => {
            ensure!(b.is_empty(), "buffer of Empty is {:?}", b);
            ensure!(a.center().is_none(), "centre of Empty is {:?}", a.center());
            Ok(false)
        }
        Some(o) => {
            ensure!(osame(ov(&b), Some([o[0] - d, o[1] - d, o[2] + d, o[3] + d])), "{:?}.buffer({:?}) = {:?}", a, d, b);
            let ce = a.center().ok_or("no centre for a non-empty box".to_string())?;
            let ordered = (0..2).all(|i| o[i] <= o[i + 2]);
            if ordered && o.iter().all(|x| x.is_finite() && x.abs() < 1e300) {
                ensure!(a.contains(ce), "centre {:?} outside {:?}", ce, a);
                for i in 0..2 {
                    let (lo, hi) = (o[i], o[i + 2]);
                    let x = if i == 0 { ce.x } else { ce.y };
                    let tol = (hi - lo).abs() * 1e-9 + (lo.abs() + hi.abs()) * 1e-9 + 1e-320;
                    ensure!((x - lo - (hi - x)).abs() <= tol, "centre {:?} of {:?} is not the midpoint", ce, a);
                }
            }
            Ok(true)
        }
    }
}

// ---- linear ----
type LE = lp::Envelope<f64>;
fn lenv(b: &[P]) -> LE {
    match b.len() {
        0 => lp::Envelope::Empty,
        _ => lp::Envelope::Bounds { min: lp::Position::new(b[0][0]), max: lp::Position::new(b[0][1]) },
    }
}
fn lv(e: &LE) -> Option<(f64, f64)> {
    match e { lp::Envelope::Empty => None, lp::Envelope::Bounds { min, max } => Some((min.x, max.x)) }
}
fn lsame(a: Option<(f64, f64)>, b: Option<(f64, f64)>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(a.0, b.0) && same(a.1, b.1), _ => false }
}
fn ljoin(a: Option<(f64, f64)>, b: Option<(f64, f64)>) -> Option<(f64, f64)> {
    match (a, b) { (None, x) | (x, None) => x, (Some(a), Some(b)) => Some((omin(a.0, b.0), omax(a.1, b.1))) }
}
fn lpts(xs: &[f64]) -> Option<(f64, f64)> { xs.iter().fold(None, |e, &x| ljoin(e, Some((x, x)))) }

fn gen_linear(r: &mut Rng, size: usize) -> Option<Case> {
    let mode = r.below(3);
    let n = r.below(size as u64 + 1);
    let pts = (0..n).map(|_| [val(r, mode), val(r, mode)]).collect();
    let b = |r: &mut Rng| if r.chance(1, 8) { vec![] } else { vec![[val(r, mode), val(r, mode)]] };
    Some(Case::new("linear", vec![], vec![vec![b(r)], vec![b(r)], vec![pts]]))
}
fn chk_linear(c: &Case) -> Res {
    let get = |i: usize| -> Vec<P> { c.g.get(i).and_then(|x| x.get(0)).cloned().unwrap_or_default() };
    let (a, b) = (lenv(&get(0)), lenv(&get(1)));
    let (oa, ob) = (lv(&a), lv(&b));
    let want = ljoin(oa, ob);
    ensure!(lsame(lv(&a.merge(b)), want), "linear merge {:?} {:?} = {:?}", a, b, a.merge(b));
    let mut e = a;
    e.expand(b);
    ensure!(lsame(lv(&e), want), "linear expand {:?} {:?} = {:?}", a, b, e);
    let ct = match (oa, ob) { (Some(a), Some(b)) => a.0 <= b.0 && b.1 <= a.1, _ => false };
    let is = match (oa, ob) { (Some(a), Some(b)) => a.0 <= b.1 && b.0 <= a.1, _ => false };
    ensure!(a.contains(b) == ct, "linear {:?}.contains({:?}) = {}", a, b, !ct);
    ensure!(a.intersects(b) == is, "linear {:?}.intersects({:?}) = {}", a, b, !is);
    ensure!(a.is_empty() == oa.is_none(), "linear is_empty {:?}", a);
    let valid = match oa { None => true, Some((l, h)) => l.is_finite() && h.is_finite() && l <= h };
    ensure!(a.validate().is_ok() == valid, "linear envelope validate {:?} = {:?}", a, a.validate());
    let ps = get(2);
    let xs: Vec<f64> = ps.iter().map(|p| p[0]).collect();
    let poss: Vec<lp::Position<f64>> = xs.iter().map(|&x| lp::Position::new(x)).collect();
    ensure!(lsame(lv(&LE::of(poss.iter())), lpts(&xs)), "linear of {:?} = {:?}", xs, LE::of(poss.iter()));
    let mp = lt::MultiPoint::new(poss.clone());
    use lp::HasEnvelope;
    ensure!(lsame(lv(&mp.envelope()), lpts(&xs)), "linear MultiPoint envelope {:?} = {:?}", xs, mp.envelope());
    ensure!(mp.num_points() == xs.len(), "linear MultiPoint num_points {} of {}", mp.num_points(), xs.len());
    for i in (0..xs.len() + 2).chain(FAR) {
        match (mp.get_point(i), xs.get(i)) {
            (None, None) => (),
            (Some(p), Some(&x)) => ensure!(same(p.0.x, x), "linear get_point({}) = {:?}", i, p),
            (p, x) => return Err(format!("linear get_point({}) = {:?}, stored {:?}", i, p, x)),
        }
    }
    let segs: Vec<lp::Segment<f64>> = ps.iter().map(|p| lp::Segment::new(lp::Position::new(p[0]), lp::Position::new(p[1]))).collect();
    let all: Vec<f64> = ps.iter().flatten().copied().collect();
    let ml = lt::MultiLine::new(segs.clone());
    ensure!(lsame(lv(&ml.envelope()), lpts(&all)), "linear MultiLine envelope {:?} = {:?}", all, ml.envelope());
    ensure!(ml.is_empty() == segs.is_empty(), "linear MultiLine is_empty with {} segments", segs.len());
    for i in (0..segs.len() + 2).chain(FAR) {
        match (ml.get_line(i), ps.get(i)) {
            (None, None) => (),
            (Some(l), Some(p)) => {
                ensure!(!l.is_empty(), "linear get_line({}) is empty", i);
                let (s, e) = (l.start().map(|q| q.0.x), l.end().map(|q| q.0.x));
                ensure!(s.map_or(false, |s| same(s, p[0])) && e.map_or(false, |e| same(e, p[1])), "linear get_line({}) = {:?}", i, l);
                ensure!(lsame(lv(&l.envelope()), lpts(p)), "linear Line envelope {:?} = {:?}", l, l.envelope());
            }
            (l, p) => return Err(format!("linear get_line({}) = {:?}, stored {:?}", i, l, p)),
        }
    }
    for (s, p) in segs.iter().zip(&ps) {
        ensure!(same(s.min().x, omin(p[0], p[1])) && same(s.max().x, omax(p[0], p[1])), "linear Segment min/max {:?} {:?} {:?}", s, s.min(), s.max());
        ensure!(s.validate().is_ok() == (p[0].is_finite() && p[1].is_finite()), "linear Segment validate {:?}", s);
        ensure!(lsame(lv(&s.envelope()), lpts(p)), "linear Segment envelope {:?} = {:?}", s, s.envelope());
        let pt = lt::Point::new(s.start);
        ensure!(pt.is_empty() == p[0].is_nan(), "linear Point is_empty {:?}", pt);
        ensure!(pt.x().map_or(p[0].is_nan(), |x| same(x, p[0]) && !x.is_nan()), "linear Point x {:?} = {:?}", pt, pt.x());
        ensure!(lsame(lv(&pt.envelope()), if p[0].is_nan() { None } else { lpts(&p[..1]) }), "linear Point envelope {:?} = {:?}", pt, pt.envelope());
        ensure!(s.start.validate().is_ok() == p[0].is_finite(), "linear Position validate {:?}", s.start);
        ensure!(s.start.to_hashable().is_ok() == !p[0].is_nan(), "linear to_hashable {:?}", s.start);
    }
    for w in xs.windows(2) {
        let (p, q) = (lp::Position::new(w[0]), lp::Position::new(w[1]));
        let (l, h) = lp::Position::min_max(p, q);
        ensure!(same(l.x, omin(w[0], w[1])) && same(h.x, omax(w[0], w[1])), "linear min_max({:?}, {:?}) = {:?} {:?}", p, q, l, h);
        let o = |a: f64, b: f64| same(a, b) || (a.is_nan() && b.is_nan());
        ensure!(o((p + q).x, w[0] + w[1]) && o((p - q).x, w[0] - w[1]), "linear {:?} + {:?} = {:?}, - = {:?}", p, q, p + q, p - q);
        ensure!(o((p * w[1]).x, w[0] * w[1]) && o((p / w[1]).x, w[0] / w[1]), "linear {:?} * {:?} = {:?}, / = {:?}", p, w[1], p * w[1], p / w[1]);
        ensure!(o(lp::Position::from(w[0]).x, w[0]) && lsame(lv(&p.envelope()), lpts(&w[..1])), "linear position from {:?}", w[0]);
        let ends: Vec<f64> = w.to_vec();
        ensure!(lsame(lv(&LE::from((p, q))), lpts(&ends)) && lsame(lv(&LE::new(p, q)), lpts(&ends)), "linear box of {:?}: {:?} {:?}", w, LE::from((p, q)), LE::new(p, q));
        ensure!(LE::from((p, q)).contains(p) == LE::from((p, q)).contains(p.envelope()), "linear contains position");
    }
    ensure!(lt::Line::<f64>::empty().is_empty() && lt::Line::<f64>::empty().envelope().is_empty() && lt::Line::<f64>::empty().start().is_none() && lt::Line::<f64>::empty().end().is_none(), "linear empty Line");
    ensure!(lt::MultiLine::<f64>::empty().is_empty() && lt::MultiPoint::<f64>::empty().num_points() == 0 && lt::Point::<f64>::empty().is_empty(), "linear empties");
    Ok(!ps.is_empty())
}

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C01", kind: "env_union", rule: "pairs of boxes/positions, NaN/inf included; non-trivial when both are non-empty; plus every pair of boxes with bounds in {0,1,2,NaN}", iters: 300_000,
            gen: Some(|r, _| gen_boxes("env_union", r, 2)), exhaustive: Some(|i| exh_pair("env_union", i)), chk: chk_union, noshrink: true },
        Suite { prop: "C01", kind: "env_of", rule: "lists of boxes; non-trivial with two or more", iters: 60_000,
            gen: Some(|r, s| { let n = r.below(s as u64 + 1) as usize; gen_boxes("env_of", r, n) }), exhaustive: None, chk: chk_of, noshrink: false },
        Suite { prop: "C02", kind: "env_pred", rule: "pairs of boxes, NaN/inf included; non-trivial when both non-empty; plus every pair of boxes with bounds in {0,1,2,NaN}", iters: 300_000,
            gen: Some(|r, _| gen_boxes("env_pred", r, 2)), exhaustive: Some(|i| exh_pair("env_pred", i)), chk: chk_pred, noshrink: true },
        Suite { prop: "C26", kind: "env_buffer", rule: "a box and a distance; non-trivial when the box is non-empty", iters: 300_000,
            gen: Some(|r, _| { let mut c = gen_boxes("env_buffer", r, 1)?; let d = r.any(); c.g.push(vec![vec![[d, d]]]); Some(c) }), exhaustive: None, chk: chk_buffer, noshrink: true },
        Suite { prop: "C24", kind: "linear", rule: "two 1-D boxes and a list of 1-D segments; non-trivial with a segment", iters: 150_000,
            gen: Some(gen_linear), exhaustive: None, chk: chk_linear, noshrink: false },
    ]
}
