//! Long inputs: the same contracts as the other suites, on inputs of hundreds to tens of thousands of parts.
use crate::case::*;
use crate::gen::Rng;

/// A comb: closed, simple, counter-clockwise, about n positions; `dent` makes one tooth cross the back.
fn comb(n: usize, dent: bool) -> Vec<P> {
    let m = n / 2 * 2;
    let mut v: Vec<P> = (0..m).map(|i| [(m - i) as f64, if i % 2 == 0 { 3.0 } else { 9.0 + (i % 7) as f64 }]).collect();
    v.push([0.0, 1.0]);
    v.push([m as f64, 1.0]);
    v.push([m as f64, 3.0]);
    if dent { let k = m / 2 / 2 * 2; v[k] = [v[k][0], -4.0]; }
    v
}
fn square(x: f64, y: f64, w: f64) -> Vec<P> { vec![[x, y], [x + w, y], [x + w, y + w], [x, y + w], [x, y]] }
/// n thin triangles that meet in one point.
fn fan(n: usize) -> Vec<Vec<P>> {
    (0..n).map(|i| { let x = 3.0 * i as f64; let mut t = vec![[0.0, 0.0], [x + 1.0, 40.0], [x, 40.0], [0.0, 0.0]]; if i % 3 == 1 { t.reverse(); } if i % 2 == 1 { t.rotate_left(1); t[3] = t[0]; } t }).collect()
}
/// n segments that meet in one point.
fn star(n: usize) -> Vec<Vec<P>> {
    (0..n).map(|i| { let mut l = vec![[0.0, 0.0], [i as f64, 7.0]]; if i % 2 == 1 { l.reverse(); } l }).collect()
}
fn lattice(n: usize, step: f64) -> Vec<P> {
    let w = (n as f64).sqrt().ceil() as usize;
    (0..n).map(|k| [(k % w) as f64 * step, (k / w) as f64 * step]).collect()
}

/// n = [size, variant]
fn inner(kind: &str, n: usize, variant: i64) -> Case {
    let mut r = Rng::new(1000 + variant as u64);
    let odd = variant % 2 == 1;
    let any = |r: &mut Rng, m: usize| -> Vec<P> { (0..m).map(|_| [r.decimal(), r.decimal()]).collect() };
    let ints = |r: &mut Rng, m: usize| -> Vec<P> { (0..m).map(|_| r.gp(900)).collect() };
    match kind {
        "env_of" => Case::new(kind, vec![], (0..n).map(|_| vec![vec![r.ap(), r.ap()]]).collect()),
        "line_valid" => {
            let mut v = comb(n, odd);
            if variant == 2 { v.truncate(n); }
            // The last segments meet a tooth near the start.
            if variant == 3 { v[2] = [v[2][0], -4.0]; }
            Case::new(kind, vec![], vec![vec![v]])
        }
        "mls_valid" if variant == 3 => {
            let mut g = star(n / 8);
            if n % 2 == 0 { g.push(vec![[2.0, 7.0], [2.0, 9.0]]); }
            Case::new(kind, vec![], vec![g])
        }
        "mls_valid" => {
            let mut g: Vec<Vec<P>> = lattice(n, 3.0).iter().enumerate().map(|(i, p)| {
                let q = match i % 3 { 0 => [p[0] + 3.0, p[1]], 1 => [p[0], p[1] + 3.0], _ => [p[0] + 3.0, p[1] + 3.0] };
                vec![*p, q]
            }).collect();
            r.shuffle(&mut g);
            if odd { g.push(vec![[4.0, 4.0], [5.0, 8.0]]); }
            if variant == 2 { let l = g[n / 2].clone(); g.push(l); }
            Case::new(kind, vec![], vec![g])
        }
        "elem_valid" | "make_simple" => {
            let mut v = lattice(n, 1.0);
            if odd { v[n - 1] = v[0]; }
            r.shuffle(&mut v);
            if variant == 2 { v[n / 2] = [f64::NAN, 1.0]; }
            Case::new(kind, vec![], vec![vec![v]])
        }
        "boundary" if variant >= 2 => Case::new(kind, vec![], vec![star(n / 2 * 2 + variant as usize % 2)]),
        "boundary" => {
            let mut g: Vec<Vec<P>> = lattice(n, 2.0).iter().enumerate().map(|(i, p)| match i % 4 {
                0 => square(p[0], p[1], 1.0),
                1 => vec![*p, [p[0] + 1.0, p[1]], [p[0] + 2.0, p[1]]],
                2 => vec![*p, [p[0], p[1] + 2.0]],
                _ => vec![[p[0] + 2.0, p[1] + 2.0], *p],
            }).collect();
            if odd { for l in g.iter_mut() { if r.chance(1, 2) { l.reverse(); } } }
            Case::new(kind, vec![], vec![g])
        }
        "poly_valid" if variant == 3 => {
            let w = 3.0 * n as f64 + 9.0;
            let mut g = vec![vec![[-9.0, -9.0], [w, -9.0], [w, 49.0], [-9.0, 49.0], [-9.0, -9.0]]];
            g.extend(fan(n));
            Case::new(kind, vec![], vec![g])
        }
        "mpoly_valid" if variant == 3 => Case::new(kind, vec![], fan(n).into_iter().map(|h| vec![h]).collect()),
        "poly_valid" | "mpoly_valid" => {
            let mut holes: Vec<Vec<P>> = lattice(n, 8.0).iter().enumerate().map(|(i, p)| {
                let mut s = square(p[0] + (i % 3) as f64, p[1], 5.0);
                if i % 2 == 1 { s.reverse(); }
                s
            }).collect();
            if odd { let k = holes.len() / 2; let p = holes[k][0]; holes.push(square(p[0] + 3.0, p[1] - 1.0, 2.0)); }
            if variant == 2 { let p = holes[0][0]; holes.push(square(p[0] + 1.0, p[1] + 1.0, 1.0)); }
            r.shuffle(&mut holes);
            if kind == "poly_valid" {
                let w = (n as f64).sqrt().ceil() * 8.0 + 40.0;
                let mut e: Vec<P> = comb(w as usize * 2, false);
                let x = e.len();
                e[x - 3] = [0.0 - w, -w];
                e[x - 2] = [w * 2.0, -w];
                let shift = w + 20.0;
                for (i, p) in e.iter_mut().enumerate() { *p = [p[0] - 20.0, if i == x - 3 || i == x - 2 { -40.0 } else { p[1] + shift }]; }
                holes.insert(0, e);
                Case::new(kind, vec![], vec![holes])
            } else {
                Case::new(kind, vec![], holes.into_iter().map(|h| vec![h]).collect())
            }
        }
        "hull" => Case::new(kind, vec![], vec![vec![comb(n, false)]]),
        "measure" => Case::new(kind, vec![0], vec![vec![ints(&mut r, n), ints(&mut r, n / 2)]]),
        "linear" => Case::new(kind, vec![], vec![vec![vec![[1.0, 5.0]]], vec![vec![[2.0, 900.0]]], vec![any(&mut r, n)]]),
        "structure" => { let mut v = any(&mut r, n); if odd { let p = v[0]; v.push(p); } Case::new(kind, vec![], vec![vec![v]]) }
        _ => Case::new(kind, vec![], (0..2).map(|_| (0..(n / 100).max(3)).map(|i| { let mut v = any(&mut r, if i < 2 { n } else { 20 }); if i % 2 == 0 { let p = v[0]; v.push(p); } v }).collect()).collect()),
    }
}
const KINDS: [(&str, &str, i64); 16] = [
    ("C01", "env_of", 20_000), ("C03", "bbox", 5_000), ("C12", "line_valid", 3_000), ("C13", "mls_valid", 2_000),
    ("C14", "elem_valid", 3_000), ("C15", "make_simple", 5_000), ("C16", "boundary", 2_000), ("C17", "poly_valid", 250),
    ("C18", "mpoly_valid", 150), ("C19", "hull", 2_500), ("C20", "dispatch", 300), ("C21", "wkt", 2_000),
    ("C22", "measure", 5_000), ("C23", "structure", 5_000), ("C24", "linear", 2_000), ("C27", "surface", 2_000),
];
fn chk(c: &Case) -> Res {
    let kind = c.kind.trim_end_matches("_big");
    let s = crate::suites().into_iter().find(|s| s.kind == kind).ok_or("no such suite")?;
    run_case(&s, &inner(kind, c.n[0] as usize, c.n[1])).map_err(|e| if e.len() > 700 { let k = (0..=700).rev().find(|&k| e.is_char_boundary(k)).unwrap(); format!("{} ...", &e[..k]) } else { e })
}
macro_rules! ex {
    ($k:expr, $name:expr) => {
        |i: Option<u64>| (i.map(|i| { let z = KINDS[$k].2; Case::new($name, vec![if i < 4 { z } else { z / 9 + 5 }, (i % 4) as i64], vec![]) }), 8u64)
    };
}
macro_rules! suite {
    ($k:expr, $name:expr) => {
        Suite { prop: KINDS[$k].0, kind: $name, rule: "long structured inputs, valid and with one defect", iters: 0, gen: None, exhaustive: Some(ex!($k, $name)), chk, noshrink: true }
    };
}
pub fn suites() -> Vec<Suite> {
    vec![
        suite!(0, "env_of_big"), suite!(1, "bbox_big"), suite!(2, "line_valid_big"), suite!(3, "mls_valid_big"),
        suite!(4, "elem_valid_big"), suite!(5, "make_simple_big"), suite!(6, "boundary_big"), suite!(7, "poly_valid_big"),
        suite!(8, "mpoly_valid_big"), suite!(9, "hull_big"), suite!(10, "dispatch_big"), suite!(11, "wkt_big"),
        suite!(12, "measure_big"), suite!(13, "structure_big"), suite!(14, "linear_big"), suite!(15, "surface_big"),
    ]
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn shapes() {
        for (_, k, z) in KINDS.iter() {
            for v in 0..4 {
                let c = inner(k, *z as usize, v);
                let s = crate::suites().into_iter().find(|s| s.kind == *k).unwrap();
                let t = std::time::Instant::now();
                println!("{} {} {:?} {:?}", k, v, run_case(&s, &c).map_err(|e| e.chars().take(200).collect::<String>()), t.elapsed());
            }
        }
    }
}
