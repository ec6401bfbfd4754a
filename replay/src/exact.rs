//! Exact oracles over integer-valued coordinates (i128 arithmetic, no rounding).
use crate::case::P;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum X {
    None,
    /// one common point, as exact fraction (xn/d, yn/d), d > 0
    Point(i128, i128, i128),
    /// the shared portion has positive length: its two ends
    Seg(P, P),
}

pub fn i(p: P) -> (i128, i128) { (p[0] as i128, p[1] as i128) }

pub fn cross(o: P, a: P, b: P) -> i128 {
    let (ox, oy) = i(o);
    let (ax, ay) = i(a);
    let (bx, by) = i(b);
    (ax - ox) * (by - oy) - (ay - oy) * (bx - ox)
}

pub fn on_segment(p: P, a: P, b: P) -> bool {
    cross(a, b, p) == 0
        && p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0])
        && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1])
}

fn pt(p: P) -> X { X::Point(p[0] as i128, p[1] as i128, 1) }

/// The exact set of common points of closed segments ab and cd.
pub fn isect(a: P, b: P, c: P, d: P) -> X {
    if a == b {
        return if on_segment(a, c, d) { pt(a) } else { X::None };
    }
    if c == d {
        return if on_segment(c, a, b) { pt(c) } else { X::None };
    }
    let (ax, ay) = i(a);
    let (bx, by) = i(b);
    let (cx, cy) = i(c);
    let (dx, dy) = i(d);
    let den = (bx - ax) * (dy - cy) - (by - ay) * (dx - cx);
    if den != 0 {
        let mut tn = (cx - ax) * (dy - cy) - (cy - ay) * (dx - cx);
        let mut un = (cx - ax) * (by - ay) - (cy - ay) * (bx - ax);
        let mut q = den;
        if q < 0 { q = -q; tn = -tn; un = -un; }
        if tn < 0 || tn > q || un < 0 || un > q { return X::None; }
        return X::Point(ax * q + (bx - ax) * tn, ay * q + (by - ay) * tn, q);
    }
    if cross(a, b, c) != 0 { return X::None; }
    // collinear: order along the dominant axis
    let key = |p: P| if (bx - ax) != 0 { p[0] } else { p[1] };
    let (a1, b1) = if key(a) <= key(b) { (a, b) } else { (b, a) };
    let (c1, d1) = if key(c) <= key(d) { (c, d) } else { (d, c) };
    let lo = if key(a1) >= key(c1) { a1 } else { c1 };
    let hi = if key(b1) <= key(d1) { b1 } else { d1 };
    if key(lo) > key(hi) { X::None } else if key(lo) == key(hi) { pt(lo) } else { X::Seg(lo, hi) }
}

pub fn point_is(x: X, p: P) -> bool {
    match x {
        X::Point(n, m, d) => n == (p[0] as i128) * d && m == (p[1] as i128) * d,
        _ => false,
    }
}

/// Simple (no self-intersection except a closing vertex), as the SFA spec defines it.
pub fn line_valid(v: &[P]) -> bool {
    if v.is_empty() { return true; }
    if v.len() < 2 { return false; }
    let m = v.len() - 1;
    let closed = v[0] == v[m];
    for k in 0..m { if v[k] == v[k + 1] { return false; } }
    for a in 0..m {
        for b in a + 1..m {
            match isect(v[a], v[a + 1], v[b], v[b + 1]) {
                X::None => (),
                X::Seg(..) => return false,
                x => {
                    let adj = b == a + 1 && point_is(x, v[b]);
                    let wrap = closed && a == 0 && b == m - 1 && point_is(x, v[0]);
                    if !adj && !wrap { return false; }
                }
            }
        }
    }
    true
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loc { Out, On, In }

/// Even-odd point location, exact.
pub fn locate(p: P, ring: &[P]) -> Loc {
    let mut inside = false;
    for w in ring.windows(2) {
        if on_segment(p, w[0], w[1]) { return Loc::On; }
        let (lo, hi) = if w[0][1] <= w[1][1] { (w[0], w[1]) } else { (w[1], w[0]) };
        if lo[1] <= p[1] && p[1] < hi[1] {
            // crossing strictly to the right of p?
            if cross(lo, hi, p) > 0 { inside = !inside; }
        }
    }
    if inside { Loc::In } else { Loc::Out }
}

/// Do the rings (as curves) share any point?
pub fn rings_touch(a: &[P], b: &[P]) -> bool {
    a.windows(2).any(|s| b.windows(2).any(|t| isect(s[0], s[1], t[0], t[1]) != X::None))
}

/// Do the rings overlap along an edge or cross at a point that is no vertex of either?
pub fn rings_bad(a: &[P], b: &[P]) -> bool {
    a.windows(2).any(|s| b.windows(2).any(|t| match isect(s[0], s[1], t[0], t[1]) {
        X::None => false,
        X::Seg(..) => true,
        x => ![s[0], s[1], t[0], t[1]].iter().any(|&p| point_is(x, p)),
    }))
}

/// Convex hull, strictly convex vertices, counter-clockwise, starting at the lowest-leftmost.
pub fn hull(points: &[P]) -> Vec<P> {
    let mut p: Vec<P> = points.to_vec();
    p.sort_by(|a, b| a.partial_cmp(b).unwrap());
    p.dedup();
    if p.len() < 3 { return p; }
    let mut h: Vec<P> = vec![];
    for pass in 0..2 {
        let base = h.len();
        let it: Box<dyn Iterator<Item = &P>> = if pass == 0 { Box::new(p.iter()) } else { Box::new(p.iter().rev()) };
        for &q in it {
            while h.len() >= base + 2 && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0 { h.pop(); }
            h.push(q);
        }
        h.pop();
    }
    h
}
