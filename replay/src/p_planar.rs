//! C10 C11 C22: segments, orientation, measures.
use crate::case::*;
use crate::ensure;
use crate::exact::{self, X};
use crate::gen::Rng;
use crate::p_env::pos;
use magog::planar::primitives::{Position, PositionLocation, Segment, SegmentIntersection, Triangle};
use magog::planar::types::{LineString, MultiLineString};

pub fn seg(a: P, b: P) -> Segment<f64> { Segment::new(pos(a), pos(b)) }
pub fn pt(p: Position<f64>) -> P { let s = scale(); [p.x / s, p.y / s] }

fn four(c: &Case) -> Option<[P; 4]> {
    let v = c.g.get(0)?.get(0)?;
    if v.len() < 4 { return None; }
    Some([v[0], v[1], v[2], v[3]])
}

fn chk_isect(c: &Case) -> Res {
    let [a, b, d, e] = match four(c) { Some(q) => q, None => return Ok(false) };
    let want = exact::isect(a, b, d, e);
    for (s, t) in [(seg(a, b), seg(d, e)), (seg(b, a), seg(d, e)), (seg(a, b), seg(e, d)), (seg(d, e), seg(a, b)), (seg(e, d), seg(b, a))] {
        let got = s.intersect_segment(t);
        let ok = match (&got, &want) {
            (SegmentIntersection::None, X::None) => true,
            (SegmentIntersection::Position(p), X::Point(n, m, q)) => {
                // an end of either segment must come back exactly
                let ends = [a, b, d, e].iter().any(|&v| exact::point_is(want, v));
                if ends {
                    { let p = pt(*p); exact::point_is(want, p) && p[0].fract() == 0.0 && p[1].fract() == 0.0 }
                } else {
                    let (wx, wy) = (*n as f64 / *q as f64, *m as f64 / *q as f64);
                    let scale = [a, b, d, e].iter().flatten().fold(1.0f64, |s, x| s.max(x.abs()));
                    let p = pt(*p);
                    (p[0] - wx).abs() <= 1e-9 * scale && (p[1] - wy).abs() <= 1e-9 * scale
                }
            }
            (SegmentIntersection::Segment(g), X::Seg(lo, hi)) => {
                let (x, y) = (pt(g.start), pt(g.end));
                (x == *lo && y == *hi) || (x == *hi && y == *lo)
            }
            _ => false,
        };
        ensure!(ok, "{:?} meets {:?}: got {:?}, exactly {:?}", s, t, got, want);
    }
    Ok(want != X::None)
}

/// Segments sharing an end exactly, coordinates not exact in arithmetic.
fn chk_share(c: &Case) -> Res {
    let v = match c.g.get(0).and_then(|x| x.get(0)) { Some(v) if v.len() >= 3 => v, _ => return Ok(false) };
    let (a, b, d) = (v[0], v[1], v[2]);
    // clearly not parallel
    let (u, w) = ([b[0] - a[0], b[1] - a[1]], [d[0] - b[0], d[1] - b[1]]);
    let (lu, lw) = (u[0].hypot(u[1]), w[0].hypot(w[1]));
    if lu < 1e-3 || lw < 1e-3 || (u[0] * w[1] - u[1] * w[0]).abs() < 1e-3 * lu * lw { return Ok(false); }
    for (s, t) in [(seg(a, b), seg(b, d)), (seg(b, a), seg(b, d)), (seg(a, b), seg(d, b)), (seg(b, a), seg(d, b))] {
        let got = s.intersect_segment(t);
        ensure!(got == SegmentIntersection::Position(pos(b)), "{:?} and {:?} share the end {:?} but meet at {:?}", s, t, b, got);
    }
    Ok(true)
}

fn exh_isect(i: Option<u64>) -> (Option<Case>, u64) {
    let total = 9u64.pow(4);
    let i = match i { None => return (None, total), Some(i) => i };
    let mut k = i;
    let mut d = || { let v = k % 9; k /= 9; [(v % 3) as f64, (v / 3) as f64] };
    let q = vec![d(), d(), d(), d()];
    (Some(Case::new("seg_isect", vec![], vec![vec![q]])), total)
}
fn gen_isect(r: &mut Rng, size: usize) -> Option<Case> {
    let k = match r.below(3) { 0 => 3, 1 => 10, _ => 1 + (size * size * size * 40) as i64 };
    let (a, b) = (r.gp(k), r.gp(k));
    let mut d = r.gp(k);
    let mut e = r.gp(k);
    let lerp = |r: &mut Rng| { let m = r.range(-2, 4) as f64; [a[0] + (b[0] - a[0]) * m, a[1] + (b[1] - a[1]) * m] };
    match r.below(6) {
        0 => { d = lerp(r); e = lerp(r); }
        1 => { d = lerp(r); }
        2 => { e = b; }
        3 => { // through the midpoint of ab when it is on the grid
            let m = [((a[0] + b[0]) / 2.0).floor(), ((a[1] + b[1]) / 2.0).floor()];
            e = [2.0 * m[0] - d[0], 2.0 * m[1] - d[1]];
            if r.chance(1, 2) { d = m; }
        }
        _ => (),
    }
    if [a, b, d, e].iter().flatten().any(|x| x.abs() > 1e7) { return None; }
    Some(Case::new("seg_isect", vec![], vec![vec![vec![a, b, d, e]]]))
}

fn chk_orient(c: &Case) -> Res {
    let v = match c.g.get(0).and_then(|x| x.get(0)) { Some(v) if v.len() >= 3 => v, _ => return Ok(false) };
    let (a, b, p) = (v[0], v[1], v[2]);
    let s = seg(a, b);
    let cr = exact::cross(a, b, p);
    let want = if cr > 0 { PositionLocation::Left } else if cr == 0 { PositionLocation::On } else { PositionLocation::Right };
    let got = s.position_location(pos(p));
    ensure!(got == want, "{:?} is {:?} of {:?}, exactly {:?}", p, got, s, want);
    let on = exact::on_segment(p, a, b);
    ensure!(s.contains(pos(p)) == on, "{:?}.contains({:?}) = {}, exactly {}", s, p, !on, on);
    Ok(cr == 0)
}
fn gen_orient(r: &mut Rng, size: usize) -> Option<Case> {
    let k = if r.chance(1, 2) { 4 } else { 1 + (size * size * size * 60) as i64 };
    let (a, b) = (r.gp(k), r.gp(k));
    let mut p = r.gp(k);
    if r.chance(1, 2) {
        let m = r.range(-2, 4) as f64;
        p = [a[0] + (b[0] - a[0]) * m, a[1] + (b[1] - a[1]) * m];
        if r.chance(1, 3) { p[r.below(2) as usize] += r.range(-1, 1) as f64; }
        if r.chance(1, 3) { p = [((a[0] + b[0]) / 2.0).floor(), ((a[1] + b[1]) / 2.0).floor()]; }
    }
    if p.iter().any(|x| x.abs() > 1e7) { return None; }
    Some(Case::new("seg_orient", vec![], vec![vec![vec![a, b, p]]]))
}
fn exh_orient(i: Option<u64>) -> (Option<Case>, u64) {
    let total = 16u64.pow(3);
    let i = match i { None => return (None, total), Some(i) => i };
    let mut k = i;
    let mut d = || { let v = k % 16; k /= 16; [(v % 4) as f64, (v / 4) as f64] };
    (Some(Case::new("seg_orient", vec![], vec![vec![vec![d(), d(), d()]]])), total)
}

fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) }

fn chk_measure(c: &Case) -> Res {
    let empty: Vec<P> = vec![];
    let v = c.g.get(0).and_then(|x| x.get(0)).unwrap_or(&empty);
    let mut total = 0.0;
    for w in v.windows(2) {
        let s = seg(w[0], w[1]);
        let (dx, dy) = ((w[1][0] - w[0][0]) as i128, (w[1][1] - w[0][1]) as i128);
        let l2 = (dx * dx + dy * dy) as f64 * scale() * scale();
        ensure!(s.length_squared() == l2, "length_squared of {:?} = {:?}, exactly {:?}", s, s.length_squared(), l2);
        ensure!(close(s.length(), l2.sqrt()), "length of {:?} = {:?}, sqrt is {:?}", s, s.length(), l2.sqrt());
        ensure!(s.length() >= 0.0 && (s.length() == 0.0) == (w[0] == w[1]), "length of {:?} = {:?}", s, s.length());
        let det = (w[0][0] as i128 * w[1][1] as i128 - w[0][1] as i128 * w[1][0] as i128) as f64 * scale() * scale();
        ensure!(s.determinant() == det, "determinant of {:?} = {:?}, exactly {:?}", s, s.determinant(), det);
        total += l2.sqrt();
    }
    let ls = LineString::new(v.iter().map(|&p| pos(p)).collect());
    ensure!(close(ls.length(), total), "length of {:?} is {:?}, sum of segments {:?}", ls.positions, ls.length(), total);
    let lss: Vec<LineString<f64>> = c.g.get(0).map(|g| g.iter().map(|l| LineString::new(l.iter().map(|&p| pos(p)).collect())).collect()).unwrap_or_default();
    let sum: f64 = c.g.get(0).map(|g| g.iter().map(|l| l.windows(2).map(|w| (w[1][0] - w[0][0]).hypot(w[1][1] - w[0][1])).sum::<f64>()).sum()).unwrap_or(0.0) * scale();
    let mls = MultiLineString::new(lss);
    ensure!(close(mls.length(), sum), "multi length {:?}, sum {:?}", mls.length(), sum);
    for w in v.windows(3) {
        let a2 = exact::cross(w[0], w[1], w[2]);
        let want = a2 as f64 / 2.0 * scale() * scale();
        let t = Triangle::new(pos(w[0]), pos(w[1]), pos(w[2]));
        ensure!(t.signed_area() == want, "signed area of {:?} = {:?}, exactly {:?}", t, t.signed_area(), want);
        ensure!(t.area() == want.abs(), "area of {:?} = {:?}, exactly {:?}", t, t.area(), want.abs());
        let (p, q) = ([w[1][0] - w[0][0], w[1][1] - w[0][1]], [w[2][0] - w[0][0], w[2][1] - w[0][1]]);
        ensure!(Position::cross(pos(p), pos(q)) == a2 as f64 * scale() * scale(), "cross({:?},{:?}) = {:?}", p, q, Position::cross(pos(p), pos(q)));
        let dot = (p[0] as i128 * q[0] as i128 + p[1] as i128 * q[1] as i128) as f64 * scale() * scale();
        ensure!(Position::dot(pos(p), pos(q)) == dot, "dot({:?},{:?}) = {:?}", p, q, Position::dot(pos(p), pos(q)));
        let arr = t.to_array();
        ensure!((0..3).all(|i| pt(arr[i]) == w[i]), "to_array {:?}", arr);
    }
    Ok(v.len() > 2)
}

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C10", kind: "seg_isect", rule: "integer segment pairs (crossing, touching, collinear, zero-length), five argument orders; every pair on the 3x3 grid; non-trivial when they meet", iters: 400_000,
            gen: Some(gen_isect), exhaustive: Some(exh_isect), chk: chk_isect, noshrink: true },
        Suite { prop: "C10", kind: "seg_share", rule: "pairs sharing one end, decimal coordinates; non-trivial when clearly not parallel", iters: 200_000,
            gen: Some(|r, _| { let mut p = || [r.decimal(), r.decimal()]; let v = vec![p(), p(), p()]; Some(Case::new("seg_share", vec![], vec![vec![v]])) }), exhaustive: None, chk: chk_share, noshrink: true },
        Suite { prop: "C11", kind: "seg_orient", rule: "integer segment and position; every triple on the 4x4 grid; non-trivial when collinear", iters: 400_000,
            gen: Some(gen_orient), exhaustive: Some(exh_orient), chk: chk_orient, noshrink: true },
        Suite { prop: "C22", kind: "measure", rule: "integer polylines and triangles; non-trivial with three positions", iters: 60_000,
            gen: Some(|r, s| { let m = r.below(4); let g = (0..m).map(|_| { let n = r.below(s as u64 / 3 + 4); let k = if r.chance(1, 2) { 5 } else { 100000 }; (0..n).map(|_| r.gp(k)).collect() }).collect(); Some(Case::new("measure", vec![], vec![g])) }),
            exhaustive: None, chk: chk_measure, noshrink: false },
    ]
}
