//! C04 C05 C06 C07 C08 C09 C25: the spatial index.
use crate::case::*;
use crate::ensure;
use crate::gen::Rng;
use crate::p_env::*;
use magog::flatbush::{Flatbush, FlatbushNode};
use magog::planar::primitives::{Envelope, HasEnvelope, Position};
use std::collections::BTreeMap;

// Case layout: n = [degree1, sorted1, degree2, sorted2], g[0] = items (one list of 0..2 positions each),
// g[1] = second items or the query.

fn boxes(v: &[Vec<P>]) -> Vec<Envelope<f64>> { v.iter().map(|b| env(b)).collect() }

fn build(v: &[Vec<P>], degree: i64, sorted: i64) -> Flatbush<f64> {
    let b = boxes(v);
    if sorted != 0 { Flatbush::new(&b, degree as usize) } else { Flatbush::new_unsorted(&b, degree as usize) }
}

fn gen_items(r: &mut Rng, size: usize) -> Vec<Vec<P>> {
    let n = match r.below(6) {
        0 => r.below(3),
        1 => *[1u64, 2, 3, 4, 7, 8, 9, 15, 16, 17, 63, 64, 65].get(r.below(13) as usize).unwrap(),
        _ => r.below((size * size / 5 + 4) as u64),
    } as usize;
    let mode = r.below(5);
    let k = r.range(1, 20);
    (0..n)
        .map(|_| {
            let e = r.below(12);
            if e == 0 { return vec![]; }
            let mut c = || match mode {
                0 => r.any(),
                1 => r.decimal(),
                _ => r.range(-k, k) as f64,
            };
            let (x, y) = (c(), c());
            if e == 1 { return vec![[x, y]]; }
            let (mut x2, mut y2) = (c(), c());
            if mode == 3 { x2 = x + (r.below(3) as f64); y2 = y + (r.below(3) as f64); }
            if e != 2 {
                return vec![[x.min(x2), y.min(y2)], [x.max(x2), y.max(y2)]];
            }
            vec![[x, y], [x2, y2]]
        })
        .collect()
}

fn deg(r: &mut Rng) -> i64 { *[2, 2, 4, 8, 8, 16, 32].get(r.below(7) as usize).unwrap() }

fn gen_query(kind: &'static str, r: &mut Rng, size: usize) -> Option<Case> {
    let items = gen_items(r, size);
    let q = if !items.is_empty() && r.chance(1, 4) {
        items[r.below(items.len() as u64) as usize].clone()
    } else if r.chance(1, 6) {
        vec![r.ap(), r.ap()]
    } else if r.chance(1, 20) {
        vec![]
    } else {
        let (a, b) = (r.gp(20), r.gp(20));
        vec![[a[0].min(b[0]), a[1].min(b[1])], [a[0].max(b[0]), a[1].max(b[1])]]
    };
    Some(Case::new(kind, vec![deg(r), r.range(0, 1)], vec![items, vec![q]]))
}

fn same_multiset<T: Ord + Clone + std::fmt::Debug>(got: &[T], want: &[T], what: &str) -> Res {
    let mut m: BTreeMap<T, i64> = BTreeMap::new();
    for x in got { *m.entry(x.clone()).or_insert(0) += 1; }
    for x in want { *m.entry(x.clone()).or_insert(0) -= 1; }
    for (k, v) in &m {
        ensure!(*v <= 0 || want.contains(k), "{}: spurious result {:?} (got {:?})", what, k, trunc(got));
        ensure!(*v <= 0, "{}: {:?} reported {} times too many", what, k, v);
        ensure!(*v == 0, "{}: {:?} missing (got {:?})", what, k, trunc(got));
    }
    Ok(!want.is_empty())
}
fn trunc<T: Clone>(v: &[T]) -> Vec<T> { v.iter().take(20).cloned().collect() }

fn chk_query(c: &Case) -> Res {
    let t = build(&c.g[0], c.n[0], c.n[1]);
    let q = env(c.g[1].get(0).map(|x| &x[..]).unwrap_or(&[]));
    let got = t.find_intersection_candidates(q);
    let want: Vec<usize> = (0..c.g[0].len()).filter(|&i| ointersects(oenv(&c.g[0][i]), ov(&q))).collect();
    same_multiset(&got, &want, "range query")
}

fn chk_self(c: &Case) -> Res {
    let t = build(&c.g[0], c.n[0], c.n[1]);
    let got = t.find_self_intersection_candidates();
    let m = c.g[0].len();
    let mut want = vec![];
    for i in 0..m { for j in i + 1..m { if ointersects(oenv(&c.g[0][i]), oenv(&c.g[0][j])) { want.push((i, j)); } } }
    same_multiset(&got, &want, "self join")
}

fn chk_cross(c: &Case) -> Res {
    let t = build(&c.g[0], c.n[0], c.n[1]);
    let u = build(&c.g[1], c.n[2], c.n[3]);
    let got = t.find_other_rtree_intersection_candidates(&u);
    let mut want = vec![];
    for i in 0..c.g[0].len() { for j in 0..c.g[1].len() { if ointersects(oenv(&c.g[0][i]), oenv(&c.g[1][j])) { want.push((i, j)); } } }
    if c.g[0].len() <= 40 {
        let m = c.g[0].len();
        let mut both = vec![];
        for i in 0..m { for j in 0..m { if ointersects(oenv(&c.g[0][i]), oenv(&c.g[0][j])) { both.push((i, j)); } } }
        same_multiset(&t.find_other_rtree_intersection_candidates(&t), &both, "join of an index with itself")?;
        let twin = build(&c.g[0], c.n[0], c.n[1]);
        same_multiset(&t.find_other_rtree_intersection_candidates(&twin), &both, "join of two equal indexes")?;
    }
    same_multiset(&got, &want, "cross join")
}

fn chk_within(c: &Case) -> Res {
    let t = build(&c.g[0], c.n[0], c.n[1]);
    let q = match c.g[1].get(0) { Some(q) if q.len() == 2 => q.clone(), _ => return Ok(false) };
    let (p, d) = (q[0], q[1][0]);
    if !(d >= 0.0) { return Ok(false); }
    let got = t.find_candidates_within(pos(p), d);
    let sq = Some([p[0] - d, p[1] - d, p[0] + d, p[1] + d]);
    if sq.unwrap().iter().any(|x| x.is_nan()) { return Ok(false); }
    let want: Vec<usize> = (0..c.g[0].len()).filter(|&i| ointersects(oenv(&c.g[0][i]), sq)).collect();
    same_multiset(&got, &want, "within-distance query")
}

/// Every boxed shape of items: builds without failing, keeps degree, reports the enclosing box.
fn chk_build(c: &Case) -> Res {
    let degree = c.n[0];
    let items = &c.g[0];
    let what = if c.n[1] != 0 { "new" } else { "new_unsorted" };
    let pow2 = degree >= 2 && (degree & (degree - 1)) == 0;
    let r = panics(|| build(items, degree, c.n[1]));
    if !pow2 {
        if degree == 1 && items.is_empty() { return Ok(false); }
        ensure!(r.is_err(), "{} accepted degree {} for {} items", what, degree, items.len());
        return Ok(true);
    }
    match r {
        Err(e) => Err(format!("{} with degree {} failed on {} items: {}", what, degree, items.len(), e)),
        Ok(t) => {
            if !items.is_empty() { ensure!(t.degree == degree as usize, "degree {} became {}", degree, t.degree); }
            let want = items.iter().fold(None, |a, b| ojoin(a, oenv(b)));
            ensure!(osame(ov(&t.envelope()), want), "index box {:?}, items' box {:?}", t.envelope(), want);
            // usable: the three queries terminate without panicking
            let q = t.envelope();
            t.find_intersection_candidates(q);
            if items.len() > 3_000 || degree > 2_000 { return Ok(true); }
            t.find_self_intersection_candidates();
            t.find_other_rtree_intersection_candidates(&t);
            Ok(items.len() > 1)
        }
    }
}

fn gen_build(r: &mut Rng, size: usize) -> Option<Case> {
    let mut items = gen_items(r, size);
    match r.below(4) {
        0 => { let y = r.any(); for b in items.iter_mut() { for p in b.iter_mut() { p[1] = y; } } }
        1 => { let x = r.any(); for b in items.iter_mut() { for p in b.iter_mut() { p[0] = x; } } }
        _ => (),
    }
    let d = if r.chance(1, 6) { r.range(0, 40) } else { deg(r) };
    Some(Case::new("index_build", vec![d, r.range(0, 1)], vec![items]))
}

/// Degrees that a narrower integer cannot hold; few items, since a level is padded to the degree.
const WIDE: [i64; 16] = [255, 256, 257, 258, 512, 65_535, 65_536, 65_537, 65_538, 131_072, 131_074, (1 << 31) + 2, (1 << 32) + 2, (1 << 33) + 2, (1 << 48) + (1 << 20), (1 << 62) + 4];
fn ex_build(i: Option<u64>) -> (Option<Case>, u64) {
    let n = 16 * 6;
    (i.map(|i| {
        let items = (0..(i / 2 % 3) as usize).map(|k| vec![[k as f64, 1.], [2., 0.]]).collect();
        Case::new("index_build", vec![WIDE[(i / 6) as usize], (i % 2) as i64], vec![items])
    }), n)
}

fn chk_nodes(c: &Case) -> Res {
    let t = build(&c.g[0], c.n[0], c.n[1]);
    let m = c.g[0].len();
    let mut seen = vec![0; m];
    let mut stack: Vec<FlatbushNode<f64>> = vec![t.root_node()];
    let mut ids = std::collections::BTreeSet::new();
    ids.insert(t.root_node().tree_index);
    while let Some(node) = stack.pop() {
        if node.level == 0 {
            if node.sibling_index < m {
                seen[node.sibling_index] += 1;
                let w = oenv(&c.g[0][node.sibling_index]);
                ensure!(osame(ov(&node.envelope), w), "leaf {} carries {:?}, item is {:?}", node.sibling_index, node.envelope, w);
            } else {
                ensure!(node.envelope.is_empty(), "padding leaf {:?} is not empty", node);
            }
        } else if !node.envelope.is_empty() {
            let ch = t.get_children(node);
            ensure!(ch.len() == t.degree, "node {:?} has {} children", node, ch.len());
            let mut e: E = None;
            for k in &ch {
                ensure!(k.level + 1 == node.level, "child {:?} of {:?}", k, node);
                ensure!(ids.insert(k.tree_index), "node {:?} reached twice", k);
                e = ojoin(e, ov(&k.envelope));
            }
            ensure!(osame(e, ov(&node.envelope)), "node {:?}: children's least box is {:?}", node, e);
            stack.extend(ch);
        }
    }
    if m > 0 {
        for (i, s) in seen.iter().enumerate() {
            let empty = oenv(&c.g[0][i]).is_none();
            ensure!(*s == 1 || (empty && *s == 0), "item {} reached {} times", i, s);
        }
    }
    Ok(m > 1)
}

// C09: block of 2^k x 2^k cells with stride 2^s, aligned, order of the leaves.
fn gen_hilbert(r: &mut Rng, size: usize) -> Option<Case> {
    let k = 1 + r.below(((size / 6) as u64 + 1).min(5)) as i64;
    let s = r.range(0, 16 - k);
    let cells = 1i64 << (16 - k - s);
    Some(Case::new("hilbert_order", vec![k, s, r.below(cells as u64) as i64, r.below(cells as u64) as i64, r.range(0, 1000)], vec![]))
}
fn chk_hilbert(c: &Case) -> Res {
    let (k, s, bx, by) = (c.n[0], c.n[1], c.n[2], c.n[3]);
    let mut r = Rng::new(c.n[4] as u64);
    let m = 1i64 << k;
    let mut cells: Vec<(i64, i64)> = vec![];
    for i in 0..m { for j in 0..m { cells.push((((bx << k) + i) << s, ((by << k) + j) << s)); } }
    r.shuffle(&mut cells);
    // Every other case: boxes centred in the cells, of any extent that stays on the grid.
    let wide = c.n[4] % 2 == 1;
    let mut items: Vec<Envelope<f64>> = cells.iter().map(|c| {
        let (x, y) = (c.0 as f64, c.1 as f64);
        let mut half = |v: f64| if wide { let m = v.min(65535.0 - v) as i64; r.range(0, m) as f64 } else { 0.0 };
        let (hx, hy) = (half(x), half(y));
        Envelope::new(Position::new(x - hx, y - hy), Position::new(x + hx, y + hy))
    }).collect();
    let nblock = items.len();
    for v in [0.0, 65535.0] { items.push(Envelope::new(Position::new(v, v), Position::new(v, v))); }
    let t = Flatbush::new(&items, 2);
    // leaves in storage order
    let mut leaves: Vec<(usize, usize)> = vec![];
    let mut stack = vec![t.root_node()];
    while let Some(n) = stack.pop() {
        if n.level == 0 { leaves.push((n.tree_index, n.sibling_index)); } else if !n.envelope.is_empty() { stack.extend(t.get_children(n)); }
    }
    leaves.sort();
    let order: Vec<(i64, i64)> = leaves.iter().filter(|l| l.1 < nblock).map(|l| cells[l.1]).collect();
    ensure!(order.len() == nblock, "{} of {} cells indexed", order.len(), nblock);
    for w in order.windows(2) {
        let d = ((w[0].0 - w[1].0).abs() + (w[0].1 - w[1].1).abs()) >> s;
        ensure!(d == 1, "cells {:?} and {:?} are consecutive along the curve but {} steps apart (block {:?})", w[0], w[1], d, &c.n);
    }
    Ok(true)
}

// Long item lists: boxes on a shuffled W x W lattice, cell (i, j) touching only (i+1, j).
fn big_items(n: usize, seed: i64) -> (Vec<Vec<P>>, Vec<(usize, usize)>) {
    let w = (n as f64).sqrt().ceil() as usize;
    let mut order: Vec<usize> = (0..n).collect();
    Rng::new(seed as u64 + 1).shuffle(&mut order);
    let mut at = vec![usize::MAX; w * w];
    let items = order.iter().enumerate().map(|(id, &k)| {
        at[k] = id;
        let (x, y) = ((k % w) as f64, (k / w) as f64);
        vec![[x, y], [x + 1.0, y + 0.5]]
    }).collect();
    let mut pairs = vec![];
    for k in 0..w * w {
        if k % w + 1 < w && at[k] != usize::MAX && at[k + 1] != usize::MAX { pairs.push((at[k].min(at[k + 1]), at[k].max(at[k + 1]))); }
    }
    (items, pairs)
}
// n = [degree, sorted, length, seed]
const BIG: [(i64, i64, i64); 8] = [(2, 1, 1_000), (2, 0, 4_097), (4, 1, 4_096), (8, 0, 6_000), (2, 1, 66_000), (8, 1, 70_000), (16, 1, 5_000), (64, 1, 9_000)];
fn ex_big(kind: &'static str, i: Option<u64>) -> (Option<Case>, u64) {
    (i.map(|i| { let b = BIG[i as usize]; Case::new(kind, vec![b.0, b.1, b.2, i as i64], vec![]) }), BIG.len() as u64)
}
fn chk_big(c: &Case) -> Res {
    let (items, pairs) = big_items(c.n[2] as usize, c.n[3]);
    let w = (c.n[2] as f64).sqrt().ceil();
    let mut r = Rng::new(c.n[3] as u64 + 77);
    match c.kind.as_str() {
        "range_query_big" | "within_big" => {
            for q in 0..12 {
                let p = [r.below(w as u64) as f64 + 0.25, r.below(w as u64) as f64 + 0.75 - 0.5 * (q % 2) as f64];
                let d = if q == 0 { w } else { r.below(6) as f64 / 2.0 };
                let n = vec![c.n[0], c.n[1]];
                if c.kind == "within_big" {
                    chk_within(&Case::new("within", n, vec![items.clone(), vec![vec![p, [d, d]]]]))?;
                } else {
                    chk_query(&Case::new("range_query", n, vec![items.clone(), vec![vec![p, [p[0] + d, p[1] + d]]]]))?;
                }
            }
            Ok(true)
        }
        "self_join_big" => same_multiset(&build(&items, c.n[0], c.n[1]).find_self_intersection_candidates(), &pairs, "self join"),
        "cross_join_big" => {
            // The same lattice, shuffled otherwise and a quarter as long, half a cell to the right.
            let (mut other, _) = big_items(c.n[2] as usize / 4, c.n[3] + 100);
            let mut at = BTreeMap::new();
            for (id, b) in items.iter().enumerate() { at.insert((b[0][0] as i64, b[0][1] as i64), id); }
            let mut want = vec![];
            for (j, b) in other.iter_mut().enumerate() {
                for p in b.iter_mut() { p[0] += 0.5; }
                let (x, y) = ((b[0][0] - 0.5) as i64, b[0][1] as i64);
                for dx in 0..2 { if let Some(&i) = at.get(&(x + dx, y)) { want.push((i, j)); } }
            }
            let t = build(&items, c.n[0], c.n[1]);
            let u = build(&other, if c.n[0] == 2 { 8 } else { c.n[0] / 2 }, if other.len() < 2_000 { 1 - c.n[1] } else { 1 });
            same_multiset(&t.find_other_rtree_intersection_candidates(&u), &want, "cross join")?;
            let back: Vec<(usize, usize)> = want.iter().map(|&(i, j)| (j, i)).collect();
            same_multiset(&u.find_other_rtree_intersection_candidates(&t), &back, "cross join")
        }
        "index_build_big" => chk_build(&Case::new("index_build", vec![c.n[0], c.n[1]], vec![items])),
        _ => chk_nodes(&Case::new("index_nodes", vec![c.n[0], c.n[1]], vec![items])),
    }
}
fn big(prop: &'static str, kind: &'static str, ex: fn(Option<u64>) -> (Option<Case>, u64)) -> Suite {
    Suite { prop, kind, rule: "1,000 to 70,000 boxes on a shuffled lattice", iters: 0, gen: None, exhaustive: Some(ex), chk: chk_big, noshrink: true }
}

pub fn suites() -> Vec<Suite> {
    vec![
        big("C04", "range_query_big", |i| ex_big("range_query_big", i)),
        big("C05", "self_join_big", |i| ex_big("self_join_big", i)),
        big("C06", "cross_join_big", |i| ex_big("cross_join_big", i)),
        big("C07", "within_big", |i| ex_big("within_big", i)),
        big("C08", "index_build_big", |i| ex_big("index_build_big", i)),
        big("C25", "index_nodes_big", |i| ex_big("index_nodes_big", i)),
        Suite { prop: "C04", kind: "range_query", rule: "items x query box, degrees 2..32, both constructors; non-trivial when something matches", iters: 60_000,
            gen: Some(|r, s| gen_query("range_query", r, s)), exhaustive: None, chk: chk_query, noshrink: false },
        Suite { prop: "C05", kind: "self_join", rule: "items, degrees 2..32, both constructors; non-trivial when some pair meets", iters: 40_000,
            gen: Some(|r, s| { let i = gen_items(r, s); Some(Case::new("self_join", vec![deg(r), r.range(0, 1)], vec![i])) }), exhaustive: None, chk: chk_self, noshrink: false },
        Suite { prop: "C06", kind: "cross_join", rule: "two item lists of independent sizes and degrees; non-trivial when some pair meets", iters: 40_000,
            gen: Some(|r, s| { let i = gen_items(r, s); let s2 = 1 + r.below(s as u64) as usize; let j = gen_items(r, s2);
                Some(Case::new("cross_join", vec![deg(r), r.range(0, 1), deg(r), r.range(0, 1)], vec![i, j])) }), exhaustive: None, chk: chk_cross, noshrink: false },
        Suite { prop: "C07", kind: "within", rule: "items x position x distance >= 0; non-trivial when something matches", iters: 60_000,
            gen: Some(|r, s| { let i = gen_items(r, s); let p = if r.chance(1, 5) { [r.any(), r.any()] } else { [r.decimal(), r.decimal()] };
                let d = match r.below(3) { 0 => r.any().abs(), 1 => r.range(0, 20) as f64, _ => r.decimal().abs() };
                Some(Case::new("within", vec![deg(r), r.range(0, 1)], vec![i, vec![vec![p, [d, d]]]])) }), exhaustive: None, chk: chk_within, noshrink: false },
        Suite { prop: "C08", kind: "index_build", rule: "any item list (aligned, empty, huge, NaN boxes) and any degree 0..40, and 16 wider ones; non-trivial with two items or a bad degree", iters: 60_000,
            gen: Some(gen_build), exhaustive: Some(ex_build), chk: chk_build, noshrink: false },
        Suite { prop: "C09", kind: "hilbert_order", rule: "aligned 2^k blocks of cells at stride 2^s of the 16-bit grid, k<=5, positions and boxes centred in the cells; every case is non-trivial", iters: 30_000,
            gen: Some(gen_hilbert), exhaustive: None, chk: chk_hilbert, noshrink: true },
        Suite { prop: "C25", kind: "index_nodes", rule: "item lists, walked from the root; non-trivial with two items", iters: 40_000,
            gen: Some(|r, s| { let i = gen_items(r, s); Some(Case::new("index_nodes", vec![deg(r), r.range(0, 1)], vec![i])) }), exhaustive: None, chk: chk_nodes, noshrink: false },
    ]
}
