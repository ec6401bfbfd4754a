//! The same calls with f32 and with f64 coordinates, on inputs both represent exactly and on which both
//! compute the answer exactly (comparisons only, or small integers): the answers are the same.
use crate::case::*;
use crate::ensure;
use crate::exact;

macro_rules! probe {
    ($m:ident, $t:ty) => {
        mod $m {
            use crate::case::P;
            use magog::flatbush::{Flatbush, FlatbushNode};
            use magog::linear::primitives as lp;
            use magog::planar::primitives::*;
            use magog::planar::types::*;
            use std::fmt::Write;
            type T = $t;
            fn ps(p: Position<T>) -> String { format!("({:?} {:?})", p.x as f64 + 0.0, p.y as f64 + 0.0) }
            fn es(e: Envelope<T>) -> String { match (e.min(), e.max()) { (Some(a), Some(b)) => ps(a) + &ps(b), _ => "none".into() } }
            fn pos(p: &P) -> Position<T> { Position::new(p[0] as T, p[1] as T) }
            fn poss(l: &[P]) -> Vec<Position<T>> { l.iter().map(pos).collect() }
            fn ls(l: &[P]) -> LineString<T> { LineString::new(poss(l)) }
            fn poly(g: &[Vec<P>]) -> Polygon<T> {
                Polygon::new(ls(g.get(0).map_or(&[][..], |x| x)), g.iter().skip(1).map(|l| ls(l)).collect())
            }
            fn gs(g: Geometry<T>) -> String {
                match g {
                    Geometry::Empty(_) => "empty".into(),
                    Geometry::MultiPoint(m) => m.points.iter().map(|p| ps(p.0)).collect(),
                    Geometry::MultiLineString(m) => m.line_strings.iter().map(|l| l.positions.iter().map(|&p| ps(p)).collect::<String>() + "/").collect(),
                    g => g.geometry_type().into(),
                }
            }
            fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> { v.sort(); v }
            fn walk(t: &Flatbush<T>, n: FlatbushNode<T>, s: &mut String) {
                let _ = write!(s, "{} {} {};", n.level, n.sibling_index, es(n.envelope));
                if n.level > 0 && !n.envelope.is_empty() { for c in t.get_children(n) { walk(t, c, s); } }
            }
            pub fn run(prop: &str, g: &[Vec<Vec<P>>], ring: Option<&[P]>) -> String {
                let mut s = String::new();
                let lists: Vec<&Vec<P>> = g.iter().flatten().collect();
                let lines: Vec<LineString<T>> = lists.iter().map(|l| ls(l)).collect();
                let all: Vec<Position<T>> = lists.iter().flat_map(|l| poss(l)).collect();
                let boxes: Vec<Envelope<T>> = lists.iter().map(|l| Envelope::of(poss(l).iter())).collect();
                macro_rules! put { ($e:expr) => { let _ = write!(s, "{:?};", $e); } }
                match prop {
                    "C01" => {
                        for a in &boxes { for b in &boxes { s += &es(a.merge(*b)); let mut c = *a; c.expand(*b); s += &es(c); } }
                        s += &es(Envelope::of(all.iter()));
                    }
                    "C02" => for a in &boxes { for b in &boxes { put!((a.contains(*b), a.intersects(*b))); } for p in all.iter().take(20) { put!(a.contains(*p)); } },
                    "C03" => {
                        for l in &lines { s += &es(l.envelope()); }
                        s += &es(MultiLineString::new(lists.iter().map(|l| ls(l)).collect::<Vec<_>>()).envelope());
                        s += &es(MultiPoint::from(all.clone()).envelope());
                        for p in g { s += &es(poly(p).envelope()); }
                        s += &es(MultiPolygon::new(g.iter().map(|p| poly(p)).collect()).envelope());
                    }
                    "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C25" => for d in [2, 4, 16] {
                        let points: Vec<Envelope<T>> = all.iter().map(|p| p.envelope()).collect();
                        for items in [&boxes, &points] {
                            let (t, u) = (Flatbush::new(items, d), Flatbush::new_unsorted(items, d));
                            match prop {
                                "C04" => for q in boxes.iter().take(12) { put!((sorted(t.find_intersection_candidates(*q)), sorted(u.find_intersection_candidates(*q)))); },
                                "C05" => { put!((sorted(t.find_self_intersection_candidates()), sorted(u.find_self_intersection_candidates()))); }
                                "C06" => { put!((sorted(t.find_other_rtree_intersection_candidates(&u)), sorted(u.find_other_rtree_intersection_candidates(&Flatbush::new(&boxes, 4))))); }
                                "C07" => for (i, p) in all.iter().enumerate().take(8) { put!((sorted(t.find_candidates_within(*p, i as T)), sorted(u.find_candidates_within(*p, 2 as T)))); },
                                "C09" => { walk(&t, t.root_node(), &mut s); }
                                _ => { put!(items.len()); if prop == "C08" { let _ = t; } walk(&u, u.root_node(), &mut s); }
                            }
                        }
                    },
                    "C10" | "C11" => {
                        let segs: Vec<Segment<T>> = all.windows(2).take(8).map(|w| Segment::new(w[0], w[1])).collect();
                        for a in &segs {
                            if prop == "C11" { for p in all.iter().take(8) { put!((a.position_location(*p), a.contains(*p))); } continue; }
                            for b in &segs {
                                match a.intersect_segment(*b) {
                                    SegmentIntersection::None => s += "none;",
                                    SegmentIntersection::Segment(x) => s += &(ps(x.start) + &ps(x.end)),
                                    SegmentIntersection::Position(p) => { put!((p == a.start, p == a.end, p == b.start, p == b.end)); }
                                }
                            }
                        }
                    }
                    "C12" => for l in &lines { put!((l.validate(), l.is_simple(), l.is_closed(), l.is_ring())); },
                    "C13" => for p in g { put!(MultiLineString::new(p.iter().map(|l| ls(l)).collect::<Vec<_>>()).validate()); },
                    "C14" => {
                        for p in all.iter().take(30) { put!((p.validate(), Point(*p).validate())); }
                        for l in &lists { put!(MultiPoint::from(poss(l)).validate()); }
                        for b in &boxes { put!(b.validate()); }
                        for w in all.windows(2).take(30) { put!(Segment::new(w[0], w[1]).validate()); }
                    }
                    "C15" => for l in &lists { s += &gs(MultiPoint::from(poss(l)).make_simple()); },
                    "C16" => {
                        for l in &lines { s += &gs(l.boundary()); }
                        for p in g { s += &gs(MultiLineString::new(p.iter().map(|l| ls(l)).collect::<Vec<_>>()).boundary()); s += &gs(poly(p).boundary()); }
                    }
                    "C17" => for p in g { put!(poly(p).validate()); },
                    "C18" => { put!(MultiPolygon::new(g.iter().map(|p| poly(p)).collect()).validate()); }
                    "C19" => if let Some(r) = ring { s += &Polygon::from(ls(r)).convex_hull().positions.iter().map(|&p| ps(p)).collect::<String>(); },
                    "C22" => {
                        for w in all.windows(3).take(30) {
                            put!((Segment::new(w[0], w[1]).length_squared() as f64, Segment::new(w[0], w[1]).determinant() as f64 + 0.0));
                            put!((Triangle(w[0], w[1], w[2]).signed_area() as f64 + 0.0, Triangle(w[0], w[1], w[2]).area() as f64));
                            put!((Position::cross(w[0], w[1]) as f64 + 0.0, Position::dot(w[0], w[1]) as f64 + 0.0));
                        }
                        // Lengths along the axes are whole numbers.
                        let flat: Vec<Position<T>> = all.iter().flat_map(|p| vec![Position::new(p.x, 0 as T), Position::new(0 as T, 0 as T), Position::new(0 as T, p.y), Position::new(0 as T, 0 as T)]).take(300).collect();
                        put!(LineString::new(flat).length() as f64);
                    }
                    "C23" => for l in &lines {
                        put!((l.num_points(), l.is_closed(), l.is_empty()));
                        s += &l.segments_iter().map(|x| ps(x.start) + &ps(x.end)).collect::<String>();
                    },
                    "C24" => {
                        let iv: Vec<lp::Envelope<T>> = all.iter().take(12).map(|p| lp::Envelope::new(lp::Position::new(p.x), lp::Position::new(p.y))).collect();
                        let e = |e: lp::Envelope<T>| match e { lp::Envelope::Empty => "none".to_string(), lp::Envelope::Bounds { min: a, max: b } => format!("{:?} {:?}", a.x as f64 + 0.0, b.x as f64 + 0.0) };
                        for a in &iv { for b in &iv { put!((a.contains(*b), a.intersects(*b), a.is_empty(), a.validate())); s += &e(a.merge(*b)); } }
                    }
                    "C26" => for (i, b) in boxes.iter().enumerate() {
                        s += &es(b.buffer(i as T));
                        s += &es(b.buffer(-1 as T));
                        s += &b.center().map_or("none".into(), ps);
                    },
                    "C27" => {
                        for p in g { s += &poly(p).point_on_surface().map_or("none".into(), |p| ps(p.0)); }
                        s += &MultiPolygon::new(g.iter().map(|p| poly(p)).collect()).point_on_surface().map_or("none".into(), |p| ps(p.0));
                    }
                    _ => (),
                }
                s
            }
        }
    };
}
probe!(single, f32);
probe!(double, f64);

/// Properties whose functions only compare: any number; the others: whole numbers up to this.
const LIMIT: [(&str, f64); 11] = [
    ("C07", 1000.0), ("C09", 65535.0), ("C10", 30.0), ("C11", 1000.0), ("C12", 30.0), ("C13", 30.0), ("C17", 30.0),
    ("C18", 30.0), ("C19", 1000.0), ("C22", 1000.0), ("C26", 10000.0),
];
fn chk(c: &Case) -> Res {
    let prop = c.kind.trim_start_matches("f32_");
    let mut g = c.g.clone();
    let limit = LIMIT.iter().find(|l| l.0 == prop).map(|l| l.1);
    for p in g.iter_mut().flatten().flatten() { for x in p.iter_mut() {
        *x = *x as f32 as f64;
        if limit.map_or(false, |m| !(x.abs() <= m && x.fract() == 0.0)) { return Ok(false); }
    } }
    // Rings that share several points are outside the domain of C17 and C18 (see DESIGN).
    if (prop == "C17" || prop == "C18") && crate::p_valid::has_unknown(&g) { return Ok(false); }
    // Cells one wide, so that scaling is exact.
    if prop == "C09" {
        let side = |k: usize| g.iter().flatten().flatten().map(|p| p[k]).fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x), a.1.max(x)));
        if (0..2).any(|k| side(k).1 - side(k).0 != 65535.0) { return Ok(false); }
    }
    let ring = g.get(0).and_then(|p| p.get(0)).filter(|r| prop == "C19" && r.len() >= 4 && r[0] == r[r.len() - 1] && exact::line_valid(r)).cloned();
    let (a, b) = (single::run(prop, &g, ring.as_deref()), double::run(prop, &g, ring.as_deref()));
    if a != b {
        let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(40)..s.len().min(k + 60)]).to_string();
        ensure!(false, "with f32 coordinates .. {}, with f64 .. {}", cut(&a), cut(&b));
    }
    Ok(!a.is_empty() && g.iter().flatten().flatten().count() > 1)
}
fn gen(name: &'static str, r: &mut crate::gen::Rng, size: usize) -> Option<Case> {
    let prop = name.trim_start_matches("f32_");
    let from: Vec<_> = crate::suites().into_iter().filter(|s| s.prop == prop && s.kind != name && s.gen.is_some()).collect();
    let mut c = from[r.below(from.len() as u64) as usize].gen?(r, size)?;
    if prop == "C09" && r.chance(1, 2) {
        // Corners that make every cell one wide.
        c.g = vec![vec![vec![[0.0, 0.0]], vec![[65535.0, 65535.0]]]];
        let (x, y) = (r.below(65500), r.below(65500));
        for _ in 0..r.below(12) { c.g[0].push(vec![if r.chance(1, 2) { [r.below(65536) as f64, r.below(65536) as f64] } else { [(x + r.below(16)) as f64, (y + r.below(16)) as f64] }]); }
        r.shuffle(&mut c.g[0]);
    }
    if LIMIT.iter().any(|l| l.0 == prop && l.1 < 100.0) {
        // Move near the origin.
        if let Some(q) = c.g.iter().flatten().flatten().next().copied() {
            if q.iter().all(|x| x.is_finite()) { for p in c.g.iter_mut().flatten().flatten() { p[0] -= q[0]; p[1] -= q[1]; } }
        }
    }
    Some(Case::new(name, vec![], c.g))
}
macro_rules! suite {
    ($p:expr, $k:expr) => {
        Suite { prop: $p, kind: $k, rule: "inputs of the other kinds, run with f32 and f64 coordinates", iters: 8_000, gen: Some(|r, s| gen($k, r, s)), exhaustive: None, chk, noshrink: false }
    };
}
pub fn suites() -> Vec<Suite> {
    vec![
        suite!("C01", "f32_C01"), suite!("C02", "f32_C02"), suite!("C03", "f32_C03"), suite!("C04", "f32_C04"), suite!("C05", "f32_C05"),
        suite!("C06", "f32_C06"), suite!("C07", "f32_C07"), suite!("C08", "f32_C08"), suite!("C09", "f32_C09"), suite!("C10", "f32_C10"),
        suite!("C11", "f32_C11"), suite!("C12", "f32_C12"), suite!("C13", "f32_C13"), suite!("C14", "f32_C14"), suite!("C15", "f32_C15"),
        suite!("C16", "f32_C16"), suite!("C17", "f32_C17"), suite!("C18", "f32_C18"), suite!("C19", "f32_C19"), suite!("C22", "f32_C22"),
        suite!("C23", "f32_C23"), suite!("C24", "f32_C24"), suite!("C25", "f32_C25"), suite!("C26", "f32_C26"), suite!("C27", "f32_C27"),
    ]
}
