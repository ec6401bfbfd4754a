//! C03 C19 C20 C21 C23 C27: geometry types, hull, conversions, WKT.
use crate::case::*;
use crate::ensure;
use crate::exact;
use crate::gen::{self, Rng};
use crate::p_env::*;
use crate::p_planar::pt;
use crate::p_valid::{ls, poly};
use magog::flatbush::Flatbush;
use magog::planar::primitives::{HasEnvelope, Position, Segment};
use magog::planar::types::*;
use magog::serde::wkt::parse_wkt;

fn g0(c: &Case) -> Vec<Vec<P>> { c.g.get(0).cloned().unwrap_or_default() }

fn gen_any(kind: &'static str, r: &mut Rng, size: usize) -> Option<Case> {
    let np = r.below(4);
    let mode = r.below(4);
    let mut g = vec![];
    for _ in 0..np {
        let m = r.below(size as u64 / 6 + 3);
        let mut ll = vec![];
        for _ in 0..m {
            let n = r.below(size as u64 / 4 + 4);
            let mut l: Vec<P> = (0..n).map(|_| match mode { 0 => r.ap(), 1 => [r.decimal(), r.decimal()], _ => r.gp(6) }).collect();
            if l.len() >= 3 && r.chance(1, 3) { l.push(l[0]); }
            if r.chance(1, 10) { l = gen::rect_ring(r, 6); }
            ll.push(l);
        }
        g.push(ll);
    }
    Some(Case::new(kind, vec![], g))
}

fn chk_bbox(c: &Case) -> Res {
    let v = g0(c);
    let flat: Vec<P> = v.iter().flatten().copied().collect();
    for p in &flat {
        ensure!(osame(ov(&Point::new(pos(*p)).envelope()), opts(&[*p])), "Point {:?} box {:?}", p, Point::new(pos(*p)).envelope());
        ensure!(osame(ov(&pos(*p).envelope()), opts(&[*p])), "Position {:?} box", p);
    }
    for w in flat.windows(2) {
        let s = Segment::new(pos(w[0]), pos(w[1]));
        ensure!(osame(ov(&s.envelope()), opts(w)), "Segment {:?} box {:?}", s, s.envelope());
    }
    for l in &v {
        let x = ls(l);
        ensure!(osame(ov(&x.envelope()), opts(l)), "LineString {:?} box {:?}", l, x.envelope());
        let y = LineString::from(l.iter().map(|p| (p[0], p[1])).collect::<Vec<_>>());
        ensure!(osame(ov(&y.envelope()), opts(l)), "LineString::from {:?} box {:?}", l, y.envelope());
        let z = LineString::collect_from(l.iter().map(|p| pos(*p)));
        ensure!(osame(ov(&z.envelope()), opts(l)), "LineString::collect_from {:?} box {:?}", l, z.envelope());
        let t = x.build_rtree();
        if l.len() >= 2 { ensure!(osame(ov(&t.envelope()), opts(l)), "segment index of {:?} box {:?}", l, t.envelope()); }
        ensure!(x.is_empty() == l.is_empty(), "LineString is_empty");
    }
    let mp = MultiPoint::new(flat.iter().map(|&p| Point::new(pos(p))).collect());
    ensure!(osame(ov(&mp.envelope()), opts(&flat)), "MultiPoint {:?} box {:?}", flat, mp.envelope());
    let mls = MultiLineString::new(v.iter().map(|l| ls(l)).collect());
    ensure!(osame(ov(&mls.envelope()), opts(&flat)), "MultiLineString {:?} box {:?}", v, mls.envelope());
    let p = poly(&v);
    let ext: Vec<P> = v.get(0).cloned().unwrap_or_default();
    ensure!(osame(ov(&p.envelope()), opts(&ext)), "Polygon {:?} box {:?}", ext, p.envelope());
    ensure!(osame(ov(&Polygon::from(ls(&ext)).envelope()), opts(&ext)), "Polygon::from {:?} box", ext);
    let mpoly = MultiPolygon::new(c.g.iter().map(|q| poly(q)).collect());
    let exts: Vec<P> = c.g.iter().filter_map(|q| q.get(0)).flatten().copied().collect();
    ensure!(osame(ov(&mpoly.envelope()), opts(&exts)), "MultiPolygon box {:?}, exteriors {:?}", mpoly.envelope(), exts);
    ensure!(Empty::<f64>::new().envelope().is_empty(), "Empty box");
    let t = Flatbush::new(&flat.iter().map(|&p| pos(p)).collect::<Vec<Position<f64>>>(), 4);
    ensure!(osame(ov(&t.envelope()), opts(&flat)), "index of {:?} box {:?}", flat, t.envelope());
    ensure!(mpoly.is_empty() == c.g.iter().all(|q| q.get(0).map_or(true, |l| l.is_empty())), "MultiPolygon is_empty = {}", mpoly.is_empty());
    ensure!(mls.is_empty() == v.iter().all(|l| l.is_empty()), "MultiLineString is_empty = {}", mls.is_empty());
    ensure!(mp.is_empty() == flat.is_empty() && mp.num_points() == flat.len(), "MultiPoint is_empty = {}", mp.is_empty());
    ensure!(p.is_empty() == ext.is_empty(), "Polygon is_empty = {}", p.is_empty());
    Ok(flat.len() > 1)
}

// ---- C19
fn chk_hull(c: &Case) -> Res {
    let ring = g0(c).get(0).cloned().unwrap_or_default();
    if ring.len() < 4 || ring[0] != ring[ring.len() - 1] { return Ok(false); }
    if !ring.iter().flatten().all(|x| x.fract() == 0.0 && x.abs() < 1e6) || !exact::line_valid(&ring) { return Ok(false); }
    let h: Vec<P> = Polygon::from(ls(&ring)).convex_hull().positions.iter().map(|&p| pt(p)).collect();
    ensure!(h.len() >= 4 && h[0] == h[h.len() - 1], "hull {:?} is not a closed ring", h);
    for v in &h { ensure!(ring.contains(v), "hull vertex {:?} is not a ring vertex", v); }
    for w in h.windows(2) {
        ensure!(w[0] != w[1], "hull {:?} repeats {:?}", h, w[0]);
        for p in &ring { ensure!(exact::cross(w[0], w[1], *p) >= 0, "ring vertex {:?} lies outside hull edge {:?}", p, w); }
    }
    for k in 0..h.len() - 1 {
        let (a, b, d) = (h[if k == 0 { h.len() - 2 } else { k - 1 }], h[k], h[k + 1]);
        ensure!(exact::cross(a, b, d) > 0, "hull {:?} does not turn at {:?}", h, b);
    }
    for v in exact::hull(&ring) { ensure!(h.contains(&v), "hull {:?} misses corner {:?}", h, v); }
    // once around
    let a2: i128 = h.windows(2).map(|w| w[0][0] as i128 * w[1][1] as i128 - w[0][1] as i128 * w[1][0] as i128).sum();
    let e = exact::hull(&ring);
    let b2: i128 = (0..e.len()).map(|i| { let (p, q) = (e[i], e[(i + 1) % e.len()]); p[0] as i128 * q[1] as i128 - p[1] as i128 * q[0] as i128 }).sum();
    ensure!(a2 == b2, "hull {:?} encloses twice-area {}, the convex hull {}", h, a2, b2);
    Ok(ring.len() > 4)
}

// ---- C20
fn dbg<T: std::fmt::Debug>(x: T) -> String { format!("{:?}", x) }
macro_rules! disp {
    ($mk:expr, $ty:expr, $dim:expr) => {{
        let own = $mk;
        ensure!(own.geometry_type() == $ty, "{} calls itself {}", $ty, own.geometry_type());
        ensure!(own.dimension() == $dim, "{} has dimension {}", $ty, own.dimension());
        let g: Geometry<f64> = Geometry::from($mk);
        ensure!(g.geometry_type() == $ty, "{} dispatches to {}", $ty, g.geometry_type());
        ensure!(g.dimension() == own.dimension(), "{} dimension {}", $ty, g.dimension());
        ensure!(dbg(g.envelope()) == dbg(own.envelope()), "{} envelope {:?}", $ty, g.envelope());
        ensure!(g.is_empty() == own.is_empty(), "{} is_empty {}", $ty, g.is_empty());
        if let (Ok(a), Ok(b)) = (panics(|| g.is_simple()), panics(|| own.is_simple())) {
            ensure!(a == b, "{} is_simple {}", $ty, a);
        }
        ensure!(dbg(g.boundary()) == dbg(own.boundary()), "{} boundary {:?}", $ty, g.boundary());
        let want = dbg(&own);
        let mkg = || -> Geometry<f64> { Geometry::from($mk) };
        let conv: [(&str, Option<String>); 6] = [
            ("Point", mkg().as_point().map(dbg)), ("LineString", mkg().as_linestring().map(dbg)),
            ("Polygon", mkg().as_polygon().map(dbg)), ("MultiPoint", mkg().as_multipoint().map(dbg)),
            ("MultiLineString", mkg().as_multilinestring().map(dbg)), ("MultiPolygon", mkg().as_multipolygon().map(dbg)),
        ];
        for (n, r) in conv.iter() {
            if *n == $ty { ensure!(r.as_ref() == Some(&want), "{} came back as {:?}", $ty, r); }
            else { ensure!(r.is_none(), "{} converted to {}: {:?}", $ty, n, r); }
        }
        ensure!(mkg().as_empty().is_some() == own.is_empty(), "{} as_empty", $ty);
    }};
}
fn chk_dispatch(c: &Case) -> Res {
    let v = g0(c);
    let flat: Vec<P> = v.iter().flatten().copied().collect();
    let l0: Vec<P> = v.get(0).cloned().unwrap_or_default();
    let p0 = flat.get(0).copied().unwrap_or([0.0, 0.0]);
    disp!(Empty::<f64>::new(), "Empty", 0);
    disp!(Point::new(pos(p0)), "Point", 0);
    disp!(ls(&l0), "LineString", 1);
    disp!(poly(&v), "Polygon", 2);
    disp!(MultiPoint::new(flat.iter().map(|&p| Point::new(pos(p))).collect()), "MultiPoint", 0);
    disp!(MultiLineString::new(v.iter().map(|l| ls(l)).collect()), "MultiLineString", 1);
    disp!(MultiPolygon::new(c.g.iter().map(|q| poly(q)).collect()), "MultiPolygon", 2);
    ensure!(Geometry::<f64>::empty().is_empty() && Geometry::<f64>::empty().geometry_type() == "Empty", "Geometry::empty");
    let p = poly(&v);
    ensure!(p.point_on_surface().map(|q| dbg(pt(q.0))) == l0.get(0).map(|q| dbg(*q)), "point_on_surface {:?}", p.point_on_surface());
    let mp = MultiPolygon::new(c.g.iter().map(|q| poly(q)).collect());
    let first = c.g.iter().filter_map(|q| q.get(0)).find(|l| !l.is_empty()).map(|l| dbg(l[0]));
    ensure!(mp.point_on_surface().map(|q| dbg(pt(q.0))) == first, "multi point_on_surface {:?}", mp.point_on_surface());
    let m = MultiPoint::new(flat.iter().map(|&p| Point::new(pos(p))).collect());
    ensure!(m.contains_point(&Point::new(pos(p0))) == flat.contains(&p0), "contains_point");
    ensure!(!m.contains_point(&Point::new(pos([1e17, 1e17]))), "contains_point of an absent point");
    Ok(flat.len() > 1)
}

// ---- C21
fn num(r: &mut Rng) -> f64 {
    match r.below(5) { 0 => r.finite(), 1 => r.decimal(), 2 => r.unit() * 1e-5, _ => r.range(-50, 50) as f64 }
}
fn wp(p: &P) -> String {
    // Decimal or with an exponent.
    if p[0].to_bits() % 3 == 0 { format!("{:e} {}", p[0], p[1]) } else { format!("{} {}", p[0], p[1]) }
}
fn wl(l: &[P]) -> String { if l.is_empty() { "EMPTY".into() } else { format!("({})", l.iter().map(wp).collect::<Vec<_>>().join(", ")) } }
fn wr(rs: &[Vec<P>]) -> String { if rs.is_empty() { "EMPTY".into() } else { format!("({})", rs.iter().map(|l| wl(l)).collect::<Vec<_>>().join(",")) } }
fn parse1(s: &str) -> Result<Geometry<f64>, String> {
    let mut v = parse_wkt(s).map_err(|e| format!("{} was rejected: {}", s, e))?;
    if v.len() != 1 { return Err(format!("{} gave {} geometries", s, v.len())); }
    Ok(v.remove(0))
}
fn want(s: String, w: Geometry<f64>) -> Res {
    let g = parse1(&s)?;
    ensure!(dbg(&g) == dbg(&w), "{} parsed as {:?}, want {:?}", s, g, w);
    // The same text in other clothes: case of the words, blanks between tokens, text after the geometry.
    if s.len() < 400 {
        let gap = [" ", "\n", "\t ", "\r\n  "][s.len() % 4];
        let mut t: String = gap.into();
        for (i, c) in s.chars().enumerate() {
            match c {
                '(' | ')' | ',' => { t.push_str(gap); t.push(c); t.push_str(gap); }
                ' ' => { t.push(' '); t.push_str(gap); }
                c if c.is_ascii_alphabetic() && (i + s.len()) % 3 != 0 => t.push(c.to_ascii_lowercase()),
                c => t.push(c),
            }
        }
        let g = parse1(&t)?;
        ensure!(dbg(&g) == dbg(&w), "{:?} parsed as {:?}, want {:?}", t, g, w);
        const TAILS: [&str; 7] = [" ((((((", " POINT(1 2)", " ) x (", ")))", " GEOMETRYCOLLECTION(POINT(1 2))", "\u{0}\u{e9}(", ",,-x"];
        let t = format!("{}{}", s, TAILS[s.len() % 7]);
        let g = parse1(&t)?;
        ensure!(dbg(&g) == dbg(&w), "{:?} parsed as {:?}, want {:?}", t, g, w);
    }
    Ok(true)
}
fn chk_wkt(c: &Case) -> Res {
    let v = g0(c);
    let flat: Vec<P> = v.iter().flatten().copied().collect();
    let l0: Vec<P> = v.get(0).cloned().unwrap_or_default();
    want("POINT EMPTY".into(), Geometry::empty())?;
    if let Some(p) = flat.get(0) { want(format!("POINT({})", wp(p)), Point::new(pos(*p)).into())?; }
    want(format!("LINESTRING {}", wl(&l0)), ls(&l0).into())?;
    if l0.is_empty() && !v.is_empty() { } else {
        want(format!("POLYGON {}", wr(&v)), if v.is_empty() { Geometry::empty() } else { poly(&v).into() })?;
    }
    let mp = || MultiPoint::new(flat.iter().map(|&p| Point::new(pos(p))).collect());
    let w = if flat.is_empty() { "EMPTY".to_string() } else { format!("({})", flat.iter().map(|p| format!("({})", wp(p))).collect::<Vec<_>>().join(",")) };
    want(format!("MULTIPOINT {}", w), mp().into())?;
    want(format!("MULTILINESTRING {}", wr(&v)), MultiLineString::new(v.iter().map(|l| ls(l)).collect()).into())?;
    let w = if c.g.is_empty() { "EMPTY".to_string() } else { format!("({})", c.g.iter().map(|q| wr(q)).collect::<Vec<_>>().join(",")) };
    want(format!("MULTIPOLYGON {}", w), MultiPolygon::new(c.g.iter().filter(|q| !q.is_empty()).map(|q| poly(q)).collect()).into())?;
    Ok(flat.len() > 1)
}
/// Well-formed text, cut short anywhere, is an error; so is the same geometry inside a collection.
fn chk_wkt_cut(c: &Case) -> Res {
    let v: Vec<Vec<P>> = g0(c).into_iter().filter(|l| !l.is_empty()).collect();
    if v.is_empty() { return Ok(false); }
    let body = match c.n[0] % 4 {
        0 => format!("POLYGON {}", wr(&v)),
        1 => format!("MULTILINESTRING {}", wr(&v)),
        2 => format!("MULTIPOLYGON ({},{})", wr(&v), wr(&v)),
        _ => format!("LINESTRING {}", wl(&v[0])),
    };
    let full = parse1(&body)?;
    ensure!(dbg(&full) != dbg(&Geometry::<f64>::empty()), "{} parsed as empty", body);
    let cut = 1 + (c.n[1].unsigned_abs() as usize) % (body.len() - 1);
    let text = &body[..cut];
    ensure!(matches!(panics(|| parse_wkt(text).is_err()), Ok(true)), "{:?} (cut off) was accepted", text);
    let text = format!("GEOMETRYCOLLECTION({})", body);
    ensure!(matches!(panics(|| parse_wkt(&text).is_err()), Ok(true)), "{:?} (unsupported type) was accepted", text);
    let text = body.replacen("N", "M", 1);
    ensure!(matches!(panics(|| parse_wkt(&text).is_err()), Ok(true)), "{:?} (no such type) was accepted", text);
    Ok(true)
}
fn gen_wkt_cut(r: &mut Rng, size: usize) -> Option<Case> {
    let n = vec![r.range(0, 3), r.range(0, 100_000)];
    gen_wkt(r, size).map(|c| Case::new("wkt_cut", n, c.g))
}
/// Nested text is parsed in a process of its own: a stack overflow cannot be caught.
pub fn nested_text(kind: i64, depth: usize) -> String {
    let (open, close) = match kind % 8 {
        0 => ("GEOMETRYCOLLECTION(", ")"),
        1 => ("(", ")"),
        2 => ("geometrycollection (POINT EMPTY, geometrycollection(", "))"),
        3 => ("GEOMETRYCOLLECTION(", ""),
        4 => ("GEOMETRYCOLLECTION (\u{0}(", ")"),
        6 => ("\r\n \tGeometryCollection\n(", ")"),
        7 => (" GEOMETRYCOLLECTION(POINT EMPTY,", ")"),
        _ => ("MULTIPOLYGON(", ")"),
    };
    let mut s = if kind % 8 == 1 { "MULTIPOLYGON".to_string() } else { String::new() };
    for _ in 0..depth { s.push_str(open); }
    s.push_str("POINT(1 2)");
    for _ in 0..depth { s.push_str(close); }
    s
}
fn chk_wkt_deep(c: &Case) -> Res {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).arg("nested").arg(c.n[0].to_string()).arg(c.n[1].to_string())
        .stderr(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    ensure!(out.status.success(), "reading WKT nested {} deep (kind {}) ended with {}", c.n[1], c.n[0], out.status);
    ensure!(out.stdout.starts_with(b"error"), "WKT nested {} deep (kind {}) was accepted", c.n[1], c.n[0]);
    Ok(true)
}
const DEPTHS: [i64; 6] = [4, 5, 100, 5_000, 200_000, 2_000_000];
fn ex_wkt_deep(i: Option<u64>) -> (Option<Case>, u64) {
    let n = 8 * DEPTHS.len() as u64;
    (i.map(|i| Case::new("wkt_deep", vec![(i % 8) as i64, DEPTHS[(i / 8) as usize]], vec![])), n)
}
fn gen_wkt(r: &mut Rng, size: usize) -> Option<Case> {
    let np = r.below(4);
    Some(Case::new("wkt", vec![], (0..np).map(|_| { let m = r.below(4); (0..m).map(|_| { let n = r.below(size as u64 / 4 + 3); (0..n).map(|_| [num(r), num(r)]).collect() }).collect() }).collect()))
}
const TOK: [&str; 22] = ["POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION", "EMPTY", "(", ")", ",", " ", "1", "-2.5", "1e400", "nan", "inf", "Z", "abc", "((", "))", "3 4"];
/// any text: an answer or an error, never a failure
fn chk_wkt_text(c: &Case) -> Res {
    let mut s = String::new();
    for t in &c.n { s.push_str(TOK[(*t as usize) % TOK.len()]); if t / 100 % 2 == 1 { s.push(' '); } }
    match panics(|| parse_wkt(&s).map(|v| v.len()).map_err(|e| e.to_string())) {
        Ok(r) => Ok(r.is_ok()),
        Err(e) => Err(format!("parse_wkt({:?}) failed: {}", s, e)),
    }
}
fn gen_wkt_text(r: &mut Rng, size: usize) -> Option<Case> {
    let mut n: Vec<i64> = vec![];
    if r.chance(2, 3) { n.push(r.range(0, 6)); }
    if r.chance(1, 2) {
        // a mostly well-formed body
        let d = r.range(1, 3);
        for _ in 0..d { n.push(8); }
        let k = r.range(0, 3);
        for i in 0..k { if i > 0 { n.push(10); } n.push(r.range(0, 1) * 7 + 14); n.push(21); }
        for _ in 0..d { n.push(9); }
    }
    for _ in 0..r.below(size as u64 / 2 + 2) { let t = r.range(0, 21) + 100 * r.range(0, 1); let at = r.below(n.len() as u64 + 1) as usize; n.insert(at, t); }
    Some(Case::new("wkt_text", n, vec![]))
}

// ---- C23
fn chk_struct(c: &Case) -> Res {
    let v = g0(c).get(0).cloned().unwrap_or_default();
    let l = ls(&v);
    let n = v.len();
    let sp = |a: Position<f64>, b: P| same(a.x, b[0]) && same(a.y, b[1]);
    ensure!(l.num_points() == n && l.positions.len() == n, "num_points {} of {}", l.num_points(), n);
    let segs: Vec<Segment<f64>> = l.segments_iter().collect();
    ensure!(segs.len() == n.saturating_sub(1), "{} segments from {} positions", segs.len(), n);
    for (i, s) in segs.iter().enumerate() {
        ensure!(sp(s.start, v[i]) && sp(s.end, v[i + 1]), "segment {} is {:?}", i, s);
        let t = l.get_segment(i);
        ensure!(sp(t.start, v[i]) && sp(t.end, v[i + 1]), "get_segment({}) is {:?}", i, t);
    }
    for i in (0..n + 2).chain(FAR) {
        match (l.get_point(i), v.get(i)) {
            (None, None) => (),
            (Some(p), Some(q)) => ensure!(sp(p.0, *q), "get_point({}) = {:?}", i, p),
            (p, q) => return Err(format!("get_point({}) = {:?}, stored {:?}", i, p, q)),
        }
    }
    ensure!(l.start_point().map_or(n == 0, |p| n > 0 && sp(p.0, v[0])), "start_point {:?}", l.start_point());
    ensure!(l.end_point().map_or(n == 0, |p| n > 0 && sp(p.0, v[n - 1])), "end_point {:?}", l.end_point());
    ensure!(l.is_closed() == (n >= 4 && v[0] == v[n - 1]), "is_closed {}", l.is_closed());
    let f = LineString::from(v.iter().map(|p| (p[0], p[1])).collect::<Vec<_>>());
    ensure!(dbg(&f) == dbg(&l) && dbg(LineString::collect_from(l.positions.iter().copied())) == dbg(&l), "constructors differ");
    let t = l.build_rtree();
    let all: Vec<usize> = t.find_intersection_candidates(t.envelope());
    let nonan = segs.iter().filter(|s| ![s.start.x, s.start.y, s.end.x, s.end.y].iter().any(|x| x.is_nan())).count();
    if nonan == segs.len() {
        let mut a = all.clone();
        a.sort();
        ensure!(a == (0..segs.len()).collect::<Vec<_>>(), "segment index lists {:?} of {}", a, segs.len());
    }
    Ok(n > 2)
}

// ---- C27
fn chk_surface(c: &Case) -> Res {
    let mut polys = vec![];
    let mut rings: Vec<Vec<P>> = vec![];
    let sp = |a: Position<f64>, b: P| same(a.x, b[0]) && same(a.y, b[1]);
    for g in &c.g {
        let p = if g.is_empty() { poly(&[vec![]]) } else { poly(g) };
        let ext = g.get(0).cloned().unwrap_or_default();
        match p.point_on_surface() {
            None => ensure!(ext.is_empty(), "no point on a polygon with exterior {:?}", ext),
            Some(q) => ensure!(ext.iter().any(|e| sp(q.0, *e)), "point on surface {:?} is not on the exterior {:?}", q, ext),
        }
        polys.push(p);
        rings.push(ext);
    }
    let mp = MultiPolygon::new(polys);
    match mp.point_on_surface() {
        None => ensure!(rings.iter().all(|r| r.is_empty()), "no point on a collection with exteriors {:?}", rings),
        Some(q) => ensure!(rings.iter().flatten().any(|e| sp(q.0, *e)), "point on surface {:?} is on no exterior of {:?}", q, rings),
    }
    let lines: Vec<LineString<f64>> = g0(c).iter().map(|l| ls(l)).collect();
    let closed = g0(c).iter().all(|l| l.len() >= 4 && l[0] == l[l.len() - 1]);
    ensure!(MultiLineString::new(lines).is_closed() == closed, "is_closed of {:?}", g0(c));
    let flat: Vec<P> = g0(c).into_iter().flatten().collect();
    for p in &flat {
        let q = Point::new(pos(*p));
        ensure!(same(q.x(), p[0]) && same(q.y(), p[1]), "point {:?} reports ({}, {})", p, q.x(), q.y());
    }
    ensure!(MultiPoint::new(flat.iter().map(|p| Point::new(pos(*p))).collect()).num_points() == flat.len(), "num_points of {} points", flat.len());
    Ok(rings.iter().any(|r| r.len() > 1))
}

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { prop: "C03", kind: "bbox", rule: "nested position lists used as every geometry type; non-trivial with two positions", iters: 80_000,
            gen: Some(|r, s| gen_any("bbox", r, s)), exhaustive: None, chk: chk_bbox, noshrink: false },
        Suite { prop: "C19", kind: "hull", rule: "simple integer rings; non-trivial with four or more corners", iters: 120_000,
            gen: Some(|r, s| { let n = 3 + r.below(s as u64 / 2 + 6) as usize; let k = *[3i64, 5, 10, 100].get(r.below(4) as usize).unwrap(); Some(Case::new("hull", vec![], vec![vec![gen::simple_ring(r, n, k)?]])) }), exhaustive: None, chk: chk_hull, noshrink: false },
        Suite { prop: "C20", kind: "dispatch", rule: "nested position lists used as every geometry type; non-trivial with two positions", iters: 20_000,
            gen: Some(|r, s| gen_any("dispatch", r, s)), exhaustive: None, chk: chk_dispatch, noshrink: false },
        Suite { prop: "C21", kind: "wkt", rule: "written as WKT of every type and parsed back; non-trivial with two positions", iters: 40_000,
            gen: Some(gen_wkt), exhaustive: None, chk: chk_wkt, noshrink: false },
        Suite { prop: "C21", kind: "wkt_cut", rule: "well-formed text cut short, of no known type, or in a collection", iters: 40_000,
            gen: Some(gen_wkt_cut), exhaustive: None, chk: chk_wkt_cut, noshrink: false },
        Suite { prop: "C21", kind: "wkt_deep", rule: "nested text, each read in its own process", iters: 0,
            gen: None, exhaustive: Some(ex_wkt_deep), chk: chk_wkt_deep, noshrink: true },
        Suite { prop: "C21", kind: "wkt_text", rule: "token soup; non-trivial when accepted", iters: 100_000,
            gen: Some(gen_wkt_text), exhaustive: None, chk: chk_wkt_text, noshrink: true },
        Suite { prop: "C27", kind: "surface", rule: "nested position lists as polygons; non-trivial with an exterior of two positions", iters: 80_000,
            gen: Some(|r, s| gen_any("surface", r, s)), exhaustive: None, chk: chk_surface, noshrink: false },
        Suite { prop: "C23", kind: "structure", rule: "position lists; non-trivial with three", iters: 80_000,
            gen: Some(|r, s| { let mut c = gen_any("structure", r, s)?; c.g.truncate(1); Some(c) }), exhaustive: None, chk: chk_struct, noshrink: false },
    ]
}
