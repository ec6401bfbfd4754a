//! C12..C18: validity, simplification, boundaries.
use crate::case::*;
use crate::ensure;
use crate::exact::{self, Loc, X};
use crate::gen::{self, Rng};
use crate::p_env::pos;
use crate::p_planar::{pt, seg};
use magog::planar::primitives::Envelope;
use magog::planar::types::*;

pub fn ls(v: &[P]) -> LineString<f64> { LineString::new(v.iter().map(|&p| pos(p)).collect()) }
pub fn poly(rings: &[Vec<P>]) -> Polygon<f64> {
    let e: Vec<P> = rings.get(0).cloned().unwrap_or_default();
    Polygon::new(ls(&e), rings.iter().skip(1).map(|r| ls(r)).collect())
}
fn g0(c: &Case) -> Vec<Vec<P>> { c.g.get(0).cloned().unwrap_or_default() }
fn fin(v: &[P]) -> bool { v.iter().flatten().all(|x| x.is_finite()) }
fn is_grid(v: &[P]) -> bool { v.iter().flatten().all(|x| x.fract() == 0.0 && x.abs() <= 2e6) }

// ---------- C12
fn chk_line(c: &Case) -> Res {
    let v = g0(c).get(0).cloned().unwrap_or_default();
    if fin(&v) && !is_grid(&v) { return Ok(false); }
    let want = fin(&v) && exact::line_valid(&v) || v.is_empty();
    let l = ls(&v);
    let got = l.validate();
    ensure!(got.is_ok() == want, "LineString validate = {:?}, the chain is {}", got, if want { "simple" } else { "not simple" });
    ensure!(l.is_simple() == want, "is_simple = {}", l.is_simple());
    ensure!(l.is_ring() == (want && l.is_closed()), "is_ring = {}", l.is_ring());
    Ok(want && v.len() > 2)
}
fn gen_line(r: &mut Rng, size: usize) -> Option<Case> {
    let n = r.below(size as u64 / 2 + 5) as usize;
    let k = match r.below(4) { 0 => 2, 1 => 4, 2 => 12, _ => 1000 };
    let mut v: Vec<P> = match r.below(6) {
        0 => gen::simple_ring(r, 3 + n / 2, k.max(3))?,
        1 => {
            // a part of a simple ring: an open simple chain
            let mut q = gen::simple_ring(r, 4 + n, k.max(4))?;
            let cut = 1 + r.below(q.len() as u64 - 1) as usize;
            q.truncate(cut);
            q
        }
        2 => { // monotone chain, long enough for several index levels
            let m = r.below((size * size / 4) as u64 + 3) as i64;
            let mut x = 0.0;
            (0..m).map(|_| { x += r.range(1, 3) as f64; [x, r.grid(3)] }).collect()
        }
        _ => (0..n).map(|_| r.gp(k)).collect(),
    };
    match r.below(8) {
        0 if v.len() > 2 => { let p = v[0]; v.push(p); }
        1 if v.len() > 2 => { // revisit a vertex
            let p = v[r.below(v.len() as u64) as usize];
            let at = r.below(v.len() as u64 + 1) as usize;
            v.insert(at, p);
        }
        2 if v.len() > 3 => { // end on an earlier segment's midpoint
            let i = r.below(v.len() as u64 - 1) as usize;
            v.push([((v[i][0] + v[i + 1][0]) / 2.0).floor(), ((v[i][1] + v[i + 1][1]) / 2.0).floor()]);
        }
        3 if !v.is_empty() && r.chance(1, 3) => { let i = r.below(v.len() as u64) as usize; v[i][r.below(2) as usize] = *[f64::NAN, f64::INFINITY, f64::NEG_INFINITY].get(r.below(3) as usize).unwrap(); }
        _ => (),
    }
    Some(Case::new("line_valid", vec![], vec![vec![v]]))
}
fn exh_line(i: Option<u64>) -> (Option<Case>, u64) {
    // all chains of 0..5 vertices on the 3x3 grid
    let mut total = 0;
    for m in 0..=5u32 { total += 9u64.pow(m); }
    let mut k = match i { None => return (None, total), Some(i) => i };
    let mut m = 0u32;
    while k >= 9u64.pow(m) { k -= 9u64.pow(m); m += 1; }
    let mut v = vec![];
    for _ in 0..m { let c = k % 9; k /= 9; v.push([(c % 3) as f64, (c / 3) as f64]); }
    (Some(Case::new("line_valid", vec![], vec![vec![v]])), total)
}

fn dist_pt_seg(p: P, a: P, b: P) -> f64 {
    let d = [b[0] - a[0], b[1] - a[1]];
    let l2 = d[0] * d[0] + d[1] * d[1];
    let t = if l2 == 0.0 { 0.0 } else { (((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / l2).max(0.0).min(1.0) };
    (p[0] - a[0] - t * d[0]).hypot(p[1] - a[1] - t * d[1])
}
fn side(a: P, b: P, p: P) -> f64 { (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) }
/// do ab and cd cross well inside both; None when too close to call
fn clear_cross(a: P, b: P, c: P, d: P, eps: f64) -> Option<bool> {
    let near = dist_pt_seg(a, c, d).min(dist_pt_seg(b, c, d)).min(dist_pt_seg(c, a, b)).min(dist_pt_seg(d, a, b));
    let cross = side(a, b, c) * side(a, b, d) < 0.0 && side(c, d, a) * side(c, d, b) < 0.0;
    if near < eps { return None; }
    Some(cross)
}
/// decimal chains whose answer is clear with a margin: rounding must not change it
fn chk_line_dec(c: &Case) -> Res {
    let v = g0(c).get(0).cloned().unwrap_or_default();
    if v.len() < 3 || !fin(&v) { return Ok(false); }
    let m = v.len() - 1;
    let closed = v.len() >= 4 && v[0] == v[m];
    let mut bad = false;
    for a in 0..m {
        if (v[a][0] - v[a + 1][0]).hypot(v[a][1] - v[a + 1][1]) < 1e-2 { return Ok(false); }
        for b in a + 1..m {
            let adj = b == a + 1;
            let wrap = closed && a == 0 && b == m - 1;
            if adj || wrap {
                let (p, q, s) = if adj { (v[a], v[b], v[b + 1]) } else { (v[m - 1], v[0], v[1]) };
                let (l1, l2) = ((q[0] - p[0]).hypot(q[1] - p[1]), (q[0] - s[0]).hypot(q[1] - s[1]));
                if side(p, q, s).abs() < 1e-3 * l1 * l2 { return Ok(false); }
            } else {
                match clear_cross(v[a], v[a + 1], v[b], v[b + 1], 1e-3) { None => return Ok(false), Some(x) => bad |= x }
            }
        }
    }
    let got = ls(&v).validate();
    ensure!(got.is_ok() == !bad, "LineString validate = {:?} but the chain is clearly {}", got, if bad { "self-crossing" } else { "simple" });
    Ok(!bad)
}

// ---------- C13
/// Some(valid) by the exact rule
fn mls_valid(ls_: &[Vec<P>]) -> bool {
    if !ls_.iter().all(|v| exact::line_valid(v)) { return false; }
    let ends = |v: &Vec<P>| -> Vec<P> { if v.len() >= 4 && v[0] == v[v.len() - 1] { vec![] } else { vec![v[0], v[v.len() - 1]] } };
    for i in 0..ls_.len() {
        for j in i + 1..ls_.len() {
            for s in ls_[i].windows(2) {
                for t in ls_[j].windows(2) {
                    match exact::isect(s[0], s[1], t[0], t[1]) {
                        X::None => (),
                        X::Seg(..) => return false,
                        x => {
                            if !(ends(&ls_[i]).iter().any(|&p| exact::point_is(x, p)) && ends(&ls_[j]).iter().any(|&p| exact::point_is(x, p))) { return false; }
                        }
                    }
                }
            }
        }
    }
    true
}
fn chk_mls(c: &Case) -> Res {
    let v = g0(c);
    if v.iter().any(|l| fin(l) && !is_grid(l)) { return Ok(false); }
    let want = v.iter().all(|l| fin(l)) && mls_valid(&v);
    let m = MultiLineString::new(v.iter().map(|l| ls(l)).collect());
    let got = m.validate();
    ensure!(got.is_ok() == want, "MultiLineString validate = {:?}, exactly {}", got, if want { "simple" } else { "not simple" });
    ensure!(m.is_simple() == want, "is_simple = {}", m.is_simple());
    Ok(want && v.len() > 1)
}
fn gen_mls(r: &mut Rng, size: usize) -> Option<Case> {
    let m = r.below(size as u64 / 4 + 4) as usize;
    let k = *[4i64, 8, 30, 300].get(r.below(4) as usize).unwrap();
    let style = r.below(4);
    let mut out: Vec<Vec<P>> = vec![];
    for _ in 0..m {
        let mut l: Vec<P> = match style {
            0 => vec![r.gp(k), r.gp(k)],
            1 => { // short pieces spread out
                let o = r.gp(k);
                let n = 1 + r.below(3);
                let mut x = o[0];
                let mut w = vec![o];
                for _ in 0..n { x += 1.0; w.push([x, o[1] + r.range(-1, 1) as f64]); }
                w
            }
            2 => if r.chance(1, 3) { gen::rect_ring(r, k) } else { let o = r.gp(k); vec![o, [o[0] + r.range(0, 3) as f64, o[1] + r.range(1, 3) as f64]] },
            _ => { let n = r.below(4) + 1; (0..=n).map(|_| r.gp(k)).collect() }
        };
        if !out.is_empty() && r.chance(1, 2) {
            // start at another line's end or vertex or middle
            let o = out[r.below(out.len() as u64) as usize].clone();
            if !o.is_empty() && !l.is_empty() {
                let q = match r.below(4) { 0 => o[r.below(o.len() as u64) as usize], 1 => o[0], _ => o[o.len() - 1] };
                let d = [q[0] - l[0][0], q[1] - l[0][1]];
                for p in l.iter_mut() { p[0] += d[0]; p[1] += d[1]; }
                if r.chance(1, 2) { l.reverse(); }
            }
        }
        if r.chance(1, 40) { l.clear(); }
        out.push(l);
    }
    Some(Case::new("mls_valid", vec![], vec![out]))
}
/// decimal pieces joined end to end at exactly equal ends, otherwise clearly apart
fn chk_mls_dec(c: &Case) -> Res {
    let v = g0(c);
    if v.len() < 2 || v.iter().any(|l| l.len() != 2 || !fin(l)) { return Ok(false); }
    let mut bad = false;
    for i in 0..v.len() {
        if (v[i][0][0] - v[i][1][0]).hypot(v[i][0][1] - v[i][1][1]) < 1e-2 { return Ok(false); }
        for j in i + 1..v.len() {
            let (a, b, d, e) = (v[i][0], v[i][1], v[j][0], v[j][1]);
            let shared = [(a, b, d, e), (a, b, e, d), (b, a, d, e), (b, a, e, d)].iter().find(|q| q.0 == q.2).copied();
            match shared {
                Some((p, x, _, y)) => {
                    let (l1, l2) = ((p[0] - x[0]).hypot(p[1] - x[1]), (p[0] - y[0]).hypot(p[1] - y[1]));
                    if side(x, p, y).abs() < 1e-3 * l1 * l2 { return Ok(false); }
                }
                None => match clear_cross(a, b, d, e, 1e-3) { None => return Ok(false), Some(x) => bad |= x },
            }
        }
    }
    let m = MultiLineString::new(v.iter().map(|l| ls(l)).collect());
    let got = m.validate();
    ensure!(got.is_ok() == !bad, "MultiLineString validate = {:?} but the pieces clearly {}", got, if bad { "cross" } else { "meet only at ends" });
    Ok(!bad)
}

// ---------- C14 C15
fn chk_elem(c: &Case) -> Res {
    let v = g0(c).get(0).cloned().unwrap_or_default();
    let f = |p: &P| p[0].is_finite() && p[1].is_finite();
    for p in &v {
        ensure!(pos(*p).validate().is_ok() == f(p), "Position {:?} validate = {:?}", p, pos(*p).validate());
        let q = Point::new(pos(*p));
        ensure!(q.validate().is_ok() == f(p) && q.is_simple() == f(p), "Point {:?} validate = {:?}", p, q.validate());
        let h = pos(*p).to_hashable();
        ensure!(h.is_ok() == !(p[0].is_nan() || p[1].is_nan()), "to_hashable {:?} = {:?}", p, h);
        if let Ok((x, y)) = h { ensure!(x.into_inner() == p[0] && y.into_inner() == p[1], "to_hashable {:?}", p); }
    }
    for w in v.windows(2) {
        ensure!(seg(w[0], w[1]).validate().is_ok() == (f(&w[0]) && f(&w[1])), "Segment {:?} validate = {:?}", w, seg(w[0], w[1]).validate());
        let e = Envelope::Bounds { min: pos(w[0]), max: pos(w[1]) };
        let ok = f(&w[0]) && f(&w[1]) && w[0][0] <= w[1][0] && w[0][1] <= w[1][1];
        ensure!(e.validate().is_ok() == ok, "Envelope {:?} validate = {:?}", e, e.validate());
        let n = Envelope::new(pos(w[0]), pos(w[1]));
        ensure!(n.validate().is_ok() || !(f(&w[0]) && f(&w[1])), "Envelope::new of {:?} is invalid", w);
    }
    ensure!(Envelope::<f64>::Empty.validate().is_ok(), "empty envelope invalid");
    let mut dup = false;
    for i in 0..v.len() { for j in 0..i { dup |= v[i] == v[j]; } }
    let want = v.iter().all(f) && !dup;
    let mp = MultiPoint::new(v.iter().map(|&p| Point::new(pos(p))).collect());
    ensure!(mp.validate().is_ok() == want, "MultiPoint {:?} validate = {:?}", v, mp.validate());
    ensure!(mp.is_simple() == want, "MultiPoint is_simple = {}", mp.is_simple());
    Ok(v.len() > 1)
}
fn gen_pts(kind: &'static str, r: &mut Rng, size: usize) -> Option<Case> {
    let n = r.below(size as u64 + 3);
    let mode = r.below(4);
    let mut v: Vec<P> = (0..n).map(|_| match mode { 0 => r.ap(), 1 => r.gp(2), _ => r.gp(50) }).collect();
    if v.len() > 1 && r.chance(1, 3) { let i = r.below(n) as usize; let j = r.below(n) as usize; v[i] = v[j]; }
    if v.len() > 1 && r.chance(1, 6) { let i = r.below(n) as usize; let j = r.below(n) as usize; v[i] = [0.0, 1.0]; v[j] = [-0.0, 1.0]; }
    Some(Case::new(kind, vec![], vec![vec![v]]))
}
fn chk_make_simple(c: &Case) -> Res {
    let v = g0(c).get(0).cloned().unwrap_or_default();
    let mp = MultiPoint::new(v.iter().map(|&p| Point::new(pos(p))).collect());
    let mut want: Vec<P> = v.iter().copied().filter(|p| p[0].is_finite() && p[1].is_finite()).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    want.dedup();
    match mp.make_simple() {
        Geometry::Empty(_) => ensure!(want.is_empty(), "make_simple dropped everything, {:?} should remain", want),
        Geometry::MultiPoint(m) => {
            let got: Vec<P> = m.points.iter().map(|p| pt(p.0)).collect();
            ensure!(!want.is_empty() && got == want, "make_simple({:?}) = {:?}, want {:?}", v, got, want);
            ensure!(m.validate().is_ok(), "make_simple result is not simple");
        }
        g => return Err(format!("make_simple gave {:?}", g)),
    }
    Ok(v.len() > 1)
}

// ---------- C16
fn gp(g: Geometry<f64>) -> Result<Option<Vec<P>>, String> {
    match g {
        Geometry::Empty(_) => Ok(None),
        Geometry::MultiPoint(m) => Ok(Some(m.points.iter().map(|p| pt(p.0)).collect())),
        g => Err(format!("boundary of a line is {:?}", g)),
    }
}
fn nanless(v: &[P]) -> bool { !v.iter().flatten().any(|x| x.is_nan()) }
fn chk_boundary(c: &Case) -> Res {
    let v = g0(c);
    // LineString
    let mut ends: Vec<P> = vec![];
    for l in &v {
        let b = gp(ls(l).boundary())?;
        let closed = l.len() >= 4 && l[0] == l[l.len() - 1];
        ensure!(ls(l).is_closed() == closed, "is_closed {:?} = {}", l, !closed);
        if l.is_empty() || closed {
            ensure!(b.is_none(), "boundary of {:?} is {:?}", l, b);
        } else {
            let (s, e) = (l[0], l[l.len() - 1]);
            let ok = b.as_ref().map_or(false, |b| b.len() == 2 && ((sp(b[0], s) && sp(b[1], e)) || (sp(b[0], e) && sp(b[1], s))));
            ensure!(ok, "boundary of {:?} is {:?}", l, b);
            ends.push(s);
            ends.push(e);
        }
    }
    // MultiLineString: mod 2
    let m = MultiLineString::new(v.iter().map(|l| ls(l)).collect());
    ensure!(m.is_closed() == v.iter().all(|l| l.len() >= 4 && l[0] == l[l.len() - 1]), "multi is_closed = {}", m.is_closed());
    let mut want: Vec<P> = vec![];
    for p in ends.iter().filter(|p| nanless(&[**p])) {
        match want.iter().position(|q| q == p) { Some(i) => { want.remove(i); } None => want.push(*p) }
    }
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let got = gp(m.boundary())?;
    let mut gs = got.clone().unwrap_or_default();
    if gs.iter().any(|p| !nanless(&[*p])) { return Err(format!("NaN boundary point {:?}", gs)); }
    gs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(gs == want && got.is_some() == !want.is_empty(), "boundary of {:?} is {:?}, mod-2 rule gives {:?}", v, got, want);
    // Polygon / MultiPolygon: the rings, in order
    let f = |l: &LineString<f64>| -> Vec<P> { l.positions.iter().map(|&p| pt(p)).collect() };
    let rings = |g: Geometry<f64>| -> Result<Vec<Vec<P>>, String> {
        match g { Geometry::MultiLineString(m) => Ok(m.line_strings.iter().map(f).collect()), g => Err(format!("boundary of a polygon is {:?}", g)) }
    };
    if !v.is_empty() {
        let got = rings(poly(&v).boundary())?;
        ensure!(sr(&got, &v), "polygon boundary {:?}, rings {:?}", got, v);
    }
    let polys: Vec<Vec<Vec<P>>> = c.g.clone();
    let mp = MultiPolygon::new(polys.iter().map(|p| poly(p)).collect());
    let mut want: Vec<Vec<P>> = vec![];
    for p in &polys {
        let mut rs = p.clone();
        if rs.is_empty() { rs.push(vec![]); }
        if rs.iter().any(|l| !l.is_empty()) { want.extend(rs); }
    }
    let got = rings(mp.boundary())?;
    ensure!(sr(&got, &want), "multipolygon boundary {:?}, rings {:?}", got, want);
    let none = |g: Geometry<f64>| g == Geometry::empty();
    ensure!(none(Point::new(pos([0.0, 1.0])).boundary()) && none(Empty::<f64>::new().boundary()), "boundary of a point is not empty");
    let pts: Vec<Point<f64>> = v.iter().flatten().map(|&p| Point::new(pos(p))).collect();
    ensure!(none(MultiPoint::new(pts).boundary()), "boundary of points is not empty");
    Ok(!v.is_empty())
}
fn sp(a: P, b: P) -> bool { crate::p_env::same(a[0], b[0]) && crate::p_env::same(a[1], b[1]) }
fn sr(a: &[Vec<P>], b: &[Vec<P>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| sp(*p, *q)))
}
fn gen_boundary(r: &mut Rng, size: usize) -> Option<Case> {
    let np = 1 + r.below(3);
    let mut g = vec![];
    for _ in 0..np {
        let m = r.below(size as u64 / 4 + 3);
        let mut ll = vec![];
        for _ in 0..m {
            let n = r.below(6);
            let anyf = r.chance(1, 8);
            let mut l: Vec<P> = (0..n).map(|_| if anyf { r.ap() } else { r.gp(1) }).collect();
            if l.len() >= 3 && r.chance(1, 3) { l.push(l[0]); }
            ll.push(l);
        }
        g.push(ll);
    }
    Some(Case::new("boundary", vec![], g))
}

// ---------- C17 C18
fn shared(a: &[P], b: &[P]) -> usize {
    let mut v: Vec<(i128, i128, i128)> = vec![];
    for s in a.windows(2) { for t in b.windows(2) {
        match exact::isect(s[0], s[1], t[0], t[1]) {
            X::None => (),
            X::Seg(..) => return usize::MAX,
            X::Point(n, m, d) => if !v.iter().any(|q| q.0 * d == n * q.2 && q.1 * d == m * q.2) { v.push((n, m, d)); },
        }
    } }
    v.len()
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Rel { Sep, Contains, Within, Bad, Unknown }
/// relation of two simple rings; Unknown when they share two or more points without being clearly bad
fn rel(a: &[P], b: &[P]) -> Rel {
    if exact::rings_bad(a, b) { return Rel::Bad; }
    if shared(a, b) > 1 { return Rel::Unknown; }
    let off = |x: &[P], y: &[P]| x.iter().map(|&p| exact::locate(p, y)).find(|l| *l != Loc::On);
    match (off(a, b), off(b, a)) {
        (Some(Loc::Out), Some(Loc::Out)) => Rel::Sep,
        (Some(Loc::Out), Some(Loc::In)) => Rel::Contains,
        (Some(Loc::In), Some(Loc::Out)) => Rel::Within,
        _ => Rel::Unknown,
    }
}
/// Some(valid?) or None when outside the property's domain
fn poly_valid(rings: &[Vec<P>]) -> Option<bool> {
    let e: &[P] = rings.get(0).map(|x| &x[..]).unwrap_or(&[]);
    if e.is_empty() && rings.len() <= 1 { return Some(true); }
    if !rings.iter().all(|r| fin(r)) { return Some(false); }
    let ring = |v: &[P]| v.len() >= 4 && v[0] == v[v.len() - 1] && exact::line_valid(v);
    if !ring(e) { return Some(false); }
    if !rings[1..].iter().all(|r| ring(r)) { return Some(false); }
    let mut unknown = false;
    for h in &rings[1..] {
        match rel(e, h) { Rel::Contains => (), Rel::Unknown => unknown = true, _ => return Some(false) }
    }
    for i in 1..rings.len() { for j in i + 1..rings.len() {
        match rel(&rings[i], &rings[j]) { Rel::Sep => (), Rel::Unknown => unknown = true, _ => return Some(false) }
    } }
    if unknown { None } else { Some(true) }
}
/// the known panic/misjudgement: rings sharing two or more points, all vertices on the other ring
fn chk_poly(c: &Case) -> Res {
    let rings = g0(c);
    if rings.iter().any(|l| fin(l) && !is_grid(l)) { return Ok(false); }
    let want = match poly_valid(&rings) { None => return Ok(false), Some(w) => w };
    // rings sharing several points elsewhere in the polygon are outside the domain
    if !want && has_unknown(&[rings.clone()]) { return Ok(false); }
    let p = poly(&rings);
    let got = p.validate();
    ensure!(got.is_ok() == want, "Polygon validate = {:?}, exactly {}", got, if want { "valid" } else { "invalid" });
    ensure!(p.is_simple() == want, "is_simple = {}", p.is_simple());
    Ok(want && rings.len() > 1)
}
pub fn has_unknown(polys: &[Vec<Vec<P>>]) -> bool {
    let all: Vec<&Vec<P>> = polys.iter().flatten().filter(|r| fin(r) && r.len() >= 4).collect();
    for i in 0..all.len() { for j in i + 1..all.len() {
        if rel(all[i], all[j]) == Rel::Unknown { return true; }
    } }
    false
}
/// does some vertex of a lie strictly inside / outside b
fn has_at(a: &[P], b: &[P], want: Loc) -> bool { a.iter().any(|&p| exact::locate(p, b) == want) }
/// Some vertex is on the wrong side, or edges cross or overlap: no reading of the rings makes this valid.
fn wrong_hole(e: &[P], h: &[P]) -> bool { exact::rings_bad(e, h) || has_at(h, e, Loc::Out) || has_at(e, h, Loc::In) }
fn wrong_holes(a: &[P], b: &[P]) -> bool { exact::rings_bad(a, b) || has_at(a, b, Loc::In) || has_at(b, a, Loc::In) }
fn is_ring(v: &[P]) -> bool { fin(v) && v.len() >= 4 && v[0] == v[v.len() - 1] && exact::line_valid(v) }
fn wrong_poly(rings: &[Vec<P>]) -> bool {
    rings[1..].iter().any(|h| wrong_hole(&rings[0], h)) || (1..rings.len()).any(|i| (i + 1..rings.len()).any(|j| wrong_holes(&rings[i], &rings[j])))
}
/// a vertex of a's exterior strictly inside b and in none of its holes
fn wrong_member(a: &[Vec<P>], b: &[Vec<P>]) -> bool {
    a[0].iter().any(|&p| exact::locate(p, &b[0]) == Loc::In && b[1..].iter().all(|h| exact::locate(p, h) == Loc::Out))
}
/// Rings that may share any number of points: plainly wrong collections are never accepted (they may be refused by a panic).
fn chk_touch(c: &Case) -> Res {
    let polys = c.g.clone();
    if polys.iter().any(|p| p.is_empty()) || polys.iter().flatten().any(|l| !is_ring(l) || !is_grid(l)) { return Ok(false); }
    let mut wrong = false;
    for (i, p) in polys.iter().enumerate() {
        let w = wrong_poly(p);
        wrong |= w;
        let q = poly(p);
        if let Ok(ok) = std::panic::catch_unwind(|| q.validate().is_ok()) { ensure!(!(w && ok), "polygon {} accepted with a vertex on the wrong side or crossing edges", i); }
        else { ensure!(has_unknown(&[p.clone()]), "polygon {}: validate panics although no two rings share two points", i); }
    }
    for i in 0..polys.len() { for j in i + 1..polys.len() {
        wrong |= exact::rings_bad(&polys[i][0], &polys[j][0]) || wrong_member(&polys[i], &polys[j]) || wrong_member(&polys[j], &polys[i]);
    } }
    if polys.len() > 1 {
        let m = MultiPolygon::new(polys.iter().map(|p| poly(p)).collect());
        if let Ok(ok) = std::panic::catch_unwind(|| m.validate().is_ok()) { ensure!(!(wrong && ok), "multi polygon accepted with a vertex on the wrong side or crossing edges"); }
    }
    Ok(wrong && has_unknown(&polys))
}
/// a ring through several vertices of `o`
fn touching(r: &mut Rng, o: &[P], k: i64) -> Vec<P> {
    let n = 3 + r.below(2) as usize;
    let mut v: Vec<P> = (0..n).map(|_| if r.chance(3, 4) { o[r.below(o.len() as u64) as usize] } else { let d = r.gp(k); let b = o[r.below(o.len() as u64) as usize]; [((d[0] + b[0]) / 2.0).floor(), ((d[1] + b[1]) / 2.0).floor()] }).collect();
    v.push(v[0]);
    v
}
fn gen_touch(r: &mut Rng, size: usize, members: bool) -> Option<Vec<Vec<Vec<P>>>> {
    let k = *[4i64, 6, 10].get(r.below(3) as usize).unwrap();
    let n = 4 + r.below(size as u64 / 6 + 5) as usize;
    let ext = if r.chance(1, 3) { let z = k as f64; gen::rotate_flip(r, vec![[-z, -z], [0.0, -z], [z, -z], [z, 0.0], [z, z], [0.0, z], [-z, z], [-z, 0.0], [-z, -z]]) } else { gen::simple_ring(r, n, k)? };
    let mut rings = vec![ext];
    for _ in 0..1 + r.below(2) {
        for _ in 0..8 {
            let o = rings[r.below(rings.len() as u64) as usize].clone();
            let h = if r.chance(1, 6) { let s = small_ring(r); shift(&s, r.gp(k)) } else { touching(r, &o, k) };
            if is_ring(&h) && !rings.iter().any(|x| exact::rings_bad(x, &h)) { rings.push(h); break; }
        }
    }
    if members && rings.len() > 1 {
        // each ring a polygon of its own, or the last one a member beside a polygon with holes
        if r.chance(1, 2) { let last = rings.pop().unwrap(); return Some(if r.chance(1, 2) { vec![rings, vec![last]] } else { vec![vec![last], rings] }); }
        return Some(rings.into_iter().map(|x| vec![x]).collect());
    }
    Some(vec![rings])
}
fn shift(v: &[P], d: P) -> Vec<P> { v.iter().map(|p| [p[0] + d[0], p[1] + d[1]]).collect() }
fn small_ring(r: &mut Rng) -> Vec<P> {
    if r.chance(1, 2) { gen::rect_ring(r, 2) } else { let n = 3 + r.below(4) as usize; gen::simple_ring(r, n, 3).unwrap_or_else(|| gen::rect_ring(r, 2)) }
}
/// Scale everything and cut the edges of some rings, so that rings need several index levels.
fn densify(r: &mut Rng, rings: &mut Vec<Vec<P>>) {
    let m = *[2i64, 3, 5, 9].get(r.below(4) as usize).unwrap();
    for l in rings.iter_mut() {
        for p in l.iter_mut() { p[0] *= m as f64; p[1] *= m as f64; }
        if r.chance(1, 2) {
            let mut v = vec![];
            for s in l.windows(2) {
                let d = [(s[1][0] - s[0][0]) / m as f64, (s[1][1] - s[0][1]) / m as f64];
                for i in 0..m { v.push([s[0][0] + d[0] * i as f64, s[0][1] + d[1] * i as f64]); }
            }
            if let Some(p) = l.last() { v.push(*p); }
            *l = v;
        }
    }
}
/// A field of small rings, more than one index node holds.
fn field(r: &mut Rng) -> Vec<Vec<P>> {
    let w = r.range(3, 7);
    let mut v = vec![];
    for i in 0..w { for j in 0..w {
        if r.chance(1, 8) { continue; }
        let s = small_ring(r);
        v.push(shift(&s, [(i * 7) as f64, (j * 7) as f64]));
    } }
    if r.chance(1, 3) { let s = small_ring(r); v.push(shift(&s, [r.range(0, 7 * w) as f64, r.range(0, 7 * w) as f64])); }
    r.shuffle(&mut v);
    v
}
fn gen_rings(r: &mut Rng, size: usize) -> Option<Vec<Vec<P>>> {
    if r.chance(1, 12) {
        let mut v = field(r);
        let z = 60.0;
        v.insert(0, gen::rotate_flip(r, vec![[-z, -z], [z, -z], [z, z], [-z, z], [-z, -z]]));
        return Some(v);
    }
    let mut v = gen_rings0(r, size)?;
    if r.chance(1, 6) { densify(r, &mut v); }
    Some(v)
}
fn gen_rings0(r: &mut Rng, size: usize) -> Option<Vec<Vec<P>>> {
    let k = *[6i64, 10, 16, 40].get(r.below(4) as usize).unwrap();
    let n = 3 + r.below(size as u64 / 3 + 4) as usize;
    let ext = match r.below(4) { 0 => { let z = k as f64; gen::rotate_flip(r, vec![[-z, -z], [z, -z], [z, z], [-z, z], [-z, -z]]) } _ => gen::simple_ring(r, n, k)? };
    let mut rings = vec![ext.clone()];
    let m = r.below(5).min(size as u64 / 3 + 1);
    for _ in 0..m {
        let h = small_ring(r);
        let mut h = shift(&h, r.gp(k));
        match r.below(6) {
            0 => { // touch another ring at a vertex
                let o = rings[r.below(rings.len() as u64) as usize].clone();
                let q = o[r.below(o.len() as u64) as usize];
                let v = h[r.below(h.len() as u64) as usize];
                h = shift(&h, [q[0] - v[0], q[1] - v[1]]);
            }
            1 => { // a scaled copy inside another hole
                let o = rings[r.below(rings.len() as u64) as usize].clone();
                let cx = (o[0][0] + o[o.len() / 2][0]) / 2.0;
                let cy = (o[0][1] + o[o.len() / 2][1]) / 2.0;
                h = shift(&h, [cx.floor() - h[0][0], cy.floor() - h[0][1]]);
            }
            _ => {
                // aim for the inside of the exterior
                for _ in 0..6 {
                    if h.iter().all(|&p| exact::locate(p, &ext) == Loc::In) { break; }
                    let d = r.gp(k);
                    let o = h[0];
                    h = shift(&h, [d[0] - o[0], d[1] - o[1]]);
                }
            }
        }
        rings.push(h);
    }
    if r.chance(1, 25) { let i = r.below(rings.len() as u64) as usize; let j = r.below(rings[i].len() as u64) as usize; rings[i].remove(j); }
    if r.chance(1, 60) { let i = r.below(rings.len() as u64) as usize; rings[i].clear(); }
    if r.chance(1, 80) { let i = r.below(rings.len() as u64) as usize; if !rings[i].is_empty() { rings[i][0][0] = f64::NAN; } }
    Some(rings)
}
fn chk_mpoly(c: &Case) -> Res {
    let polys = c.g.clone();
    if polys.iter().flatten().any(|l| fin(l) && !is_grid(l)) { return Ok(false); }
    let mut all = true;
    for p in &polys { match poly_valid(p) { None => return Ok(false), Some(w) => all &= w } }
    if has_unknown(&polys) { return Ok(false); }
    let mut want = all;
    if all {
        'o: for i in 0..polys.len() { for j in i + 1..polys.len() {
            let (a, b) = (&polys[i], &polys[j]);
            if a.is_empty() || b.is_empty() || a[0].is_empty() || b[0].is_empty() { continue; }
            let (outer, inner) = match rel(&a[0], &b[0]) {
                Rel::Sep => continue,
                Rel::Contains => (a, b),
                Rel::Within => (b, a),
                _ => { want = false; break 'o; }
            };
            if !outer[1..].iter().any(|h| rel(&inner[0], h) == Rel::Within) { want = false; break 'o; }
        } }
    }
    let m = MultiPolygon::new(polys.iter().map(|p| poly(p)).collect());
    let got = m.validate();
    ensure!(got.is_ok() == want, "MultiPolygon validate = {:?}, exactly {}", got, if want { "valid" } else { "invalid" });
    ensure!(m.is_simple() == want, "is_simple = {}", m.is_simple());
    Ok(want && polys.len() > 1)
}
fn sq(r: &mut Rng, x: i64, y: i64, h: i64) -> Vec<P> {
    let f = |a: i64, b: i64| [a as f64, b as f64];
    let v = vec![f(x - h, y - h), f(x + h, y - h), f(x + h, y + h), f(x - h, y + h), f(x - h, y - h)];
    gen::rotate_flip(r, v)
}
/// A polygon with holes on a grid of cells, and other polygons in those cells, mostly in holes.
fn archipelago(r: &mut Rng) -> Vec<Vec<Vec<P>>> {
    let (w, h) = (1 + r.below(4) as i64, 1 + r.below(3) as i64);
    let pitch = 12;
    let f = |a: i64, b: i64| [a as f64, b as f64];
    let (x1, y1) = (w * pitch - 6, h * pitch - 6);
    let mut outer = vec![gen::rotate_flip(r, vec![f(-7, -7), f(x1 + 1, -7), f(x1 + 1, y1 + 1), f(-7, y1 + 1), f(-7, -7)])];
    let mut polys = vec![];
    let land = r.below(3);
    let mut cells: Vec<(i64, i64)> = (0..w * h).map(|k| (k % w * pitch, k / w * pitch)).collect();
    r.shuffle(&mut cells);
    let mut holes = vec![];
    for &(x, y) in &cells {
        let g = 2 + r.below(4) as i64;
        if r.chance(4, 5) { holes.push(sq(r, x, y, g)); } else if r.below(12) >= land { continue; }
        match r.below(6) {
            0 => {}
            1 if g >= 3 => {
                // two in one hole
                let d = r.range(1, 2);
                polys.push(vec![sq(r, x - 2, y, 1)]);
                polys.push(vec![gen::rotate_flip(r, vec![f(x + d, y - 1), f(x + d + 1, y), f(x + d, y + 1), f(x + d, y - 1)])]);
            }
            2 if g >= 4 => {
                polys.push(vec![sq(r, x, y, g - 1), sq(r, x, y, g - 2)]);
                let k = r.range(1, g - 3);
                if r.chance(3, 4) { polys.push(vec![sq(r, x, y, k)]); }
            }
            _ => {
                let k = r.range(1, g - 1);
                let k = if r.chance(1, 30) { k + 2 } else { k };
                polys.push(vec![sq(r, x, y, k)]);
            }
        }
    }
    r.shuffle(&mut holes);
    outer.extend(holes);
    polys.push(outer);
    polys
}
fn gen_mpoly(r: &mut Rng, size: usize) -> Option<Case> {
    let mut polys: Vec<Vec<Vec<P>>> = vec![];
    if r.chance(1, 12) {
        polys = field(r).into_iter().map(|x| vec![x]).collect();
    } else if r.chance(1, 6) {
        polys = archipelago(r);
    } else if r.chance(1, 2) {
        // nested squares around a few centres
        let n = 1 + r.below(3);
        for i in 0..n {
            let (cx, cy) = (i as i64 * r.range(16, 44), r.range(-4, 4));
            let mut h = r.range(8, 20);
            let depth = 1 + r.below(3);
            for _ in 0..depth {
                if h < 2 { break; }
                let mut rings = vec![sq(r, cx, cy, h)];
                let h2 = h - r.range(1, 6);
                if h2 >= 1 && r.chance(4, 5) {
                    if h2 >= 6 && r.chance(1, 3) {
                        // several holes
                        rings.push(sq(r, cx - h2 / 2 - 1, cy, h2 / 2 - 1));
                        rings.push(sq(r, cx + h2 / 2 + 1, cy, h2 / 2 - 1));
                        if r.chance(1, 2) { rings.swap(1, 2); }
                        polys.push(rings);
                        let sgn = if r.chance(1, 2) { -1 } else { 1 };
                        let hh = h2 / 2 - 1 - r.range(0, 1);
                        if hh >= 1 { polys.push(vec![sq(r, cx + sgn * (h2 / 2 + 1), cy, hh)]); }
                        break;
                    }
                    rings.push(sq(r, cx, cy, h2));
                }
                polys.push(rings);
                h = h2 - r.range(-1, 3);
            }
        }
    } else {
        let m = r.below(5);
        for _ in 0..m {
            let mut p = gen_rings(r, size / 2 + 1)?;
            if r.chance(2, 3) { let d = r.gp(40); for l in p.iter_mut() { *l = shift(l, d); } }
            if r.chance(1, 2) { p.truncate(1); }
            polys.push(p);
        }
    }
    if r.chance(1, 20) { polys.push(vec![]); }
    r.shuffle(&mut polys);
    Some(Case::new("mpoly_valid", vec![], polys))
}

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C12", kind: "line_valid", rule: "integer chains (random, simple, closed, revisiting), every chain of up to 5 vertices on the 3x3 grid; non-trivial when valid with 3+ positions", iters: 150_000,
            gen: Some(gen_line), exhaustive: Some(exh_line), chk: chk_line, noshrink: false },
        Suite { prop: "C12", kind: "line_valid_dec", rule: "decimal chains whose answer is clear by 1e-3; non-trivial when simple", iters: 100_000,
            gen: Some(|r, s| { let n = 3 + r.below(s as u64 / 3 + 2); let mut v: Vec<P> = (0..n).map(|_| [r.decimal(), r.decimal()]).collect(); if r.chance(1, 3) { v.push(v[0]); } if r.chance(1, 3) { v.sort_by(|a, b| a.partial_cmp(b).unwrap()); } Some(Case::new("line_valid_dec", vec![], vec![vec![v]])) }),
            exhaustive: None, chk: chk_line_dec, noshrink: false },
        Suite { prop: "C13", kind: "mls_valid", rule: "integer line collections sharing ends/vertices; non-trivial when valid with 2+ lines", iters: 100_000,
            gen: Some(gen_mls), exhaustive: None, chk: chk_mls, noshrink: false },
        Suite { prop: "C13", kind: "mls_valid_dec", rule: "decimal two-position lines sharing ends exactly; non-trivial when valid", iters: 60_000,
            gen: Some(|r, s| { let n = 2 + r.below(s as u64 / 8 + 2); let mut v: Vec<Vec<P>> = vec![]; for _ in 0..n { let mut l = vec![[r.decimal(), r.decimal()], [r.decimal(), r.decimal()]]; if !v.is_empty() && r.chance(1, 2) { let o = v[r.below(v.len() as u64) as usize].clone(); l[r.below(2) as usize] = o[r.below(2) as usize]; } v.push(l); } Some(Case::new("mls_valid_dec", vec![], vec![v])) }),
            exhaustive: None, chk: chk_mls_dec, noshrink: false },
        Suite { prop: "C14", kind: "elem_valid", rule: "position lists with NaN/inf/duplicates/signed zeros; non-trivial with two", iters: 150_000,
            gen: Some(|r, s| gen_pts("elem_valid", r, s)), exhaustive: None, chk: chk_elem, noshrink: false },
        Suite { prop: "C15", kind: "make_simple", rule: "position lists with NaN/inf/duplicates/signed zeros; non-trivial with two", iters: 150_000,
            gen: Some(|r, s| gen_pts("make_simple", r, s)), exhaustive: None, chk: chk_make_simple, noshrink: false },
        Suite { prop: "C16", kind: "boundary", rule: "up to three groups of short chains on a 3x3 grid; non-trivial with a chain", iters: 100_000,
            gen: Some(gen_boundary), exhaustive: None, chk: chk_boundary, noshrink: false },
        Suite { prop: "C17", kind: "poly_valid", rule: "integer rings with holes (inside, outside, touching, nested, broken; some rings and fields of holes spanning several index levels); non-trivial when valid with a hole", iters: 60_000,
            gen: Some(|r, s| Some(Case::new("poly_valid", vec![], vec![gen_rings(r, s)?]))), exhaustive: None, chk: chk_poly, noshrink: false },
        Suite { prop: "C17", kind: "poly_touch", rule: "rings through vertices of other rings, sharing any number of points; non-trivial when plainly wrong and two rings share two points", iters: 40_000,
            gen: Some(|r, s| Some(Case::new("poly_touch", vec![], gen_touch(r, s, false)?))), exhaustive: None, chk: chk_touch, noshrink: false },
        Suite { prop: "C18", kind: "mpoly_touch", rule: "the same, rings spread over members", iters: 30_000,
            gen: Some(|r, s| Some(Case::new("mpoly_touch", vec![], gen_touch(r, s, true)?))), exhaustive: None, chk: chk_touch, noshrink: false },
        Suite { prop: "C18", kind: "mpoly_valid", rule: "nested squares with holes, random polygons; non-trivial when valid with two polygons", iters: 50_000,
            gen: Some(gen_mpoly), exhaustive: None, chk: chk_mpoly, noshrink: false },
    ]
}
