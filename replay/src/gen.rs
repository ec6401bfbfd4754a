use crate::case::P;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x2545F4914F6CDD1D);
        if r.0 == 0 { r.0 = 1; }
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// Integer grid coordinate.
    pub fn grid(&mut self, k: i64) -> f64 { self.range(-k, k) as f64 }
    pub fn gp(&mut self, k: i64) -> P { [self.grid(k), self.grid(k)] }
    /// Any float: grids, decimals, extremes, NaN, infinities, signed zeros, raw bits.
    pub fn any(&mut self) -> f64 {
        match self.below(16) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => -0.0,
            4 => 0.0,
            5 => f64::MAX,
            6 => f64::MIN,
            7 => f64::MIN_POSITIVE,
            8 => 5e-324,
            9 => f64::from_bits(self.next()),
            10 => self.unit(),
            11 => (self.range(-100, 100) as f64) / 10.0,
            _ => self.range(-3, 3) as f64,
        }
    }
    pub fn finite(&mut self) -> f64 {
        loop { let x = self.any(); if x.is_finite() { return x; } }
    }
    /// Finite, moderate magnitude, not necessarily exact in arithmetic.
    pub fn decimal(&mut self) -> f64 {
        match self.below(4) {
            0 => (self.range(-1000, 1000) as f64) / 10.0,
            1 => (self.range(-1000, 1000) as f64) / 7.0,
            2 => (self.unit() - 0.5) * 1e3,
            _ => self.range(-20, 20) as f64,
        }
    }
    pub fn ap(&mut self) -> P { [self.any(), self.any()] }
}

pub fn seg_i(a: P) -> (i128, i128) { (a[0] as i128, a[1] as i128) }

/// A random simple ring (closed, first == last) on the integer grid [-k, k], n vertices.
pub fn simple_ring(r: &mut Rng, n: usize, k: i64) -> Option<Vec<P>> {
    match r.below(4) {
        0 => return Some(rect_ring(r, k)),
        1 => return star_ring(r, n, k),
        _ => (),
    }
    for _ in 0..20 {
        let mut pts: Vec<P> = vec![];
        let mut guard = 0;
        while pts.len() < n && guard < 200 {
            guard += 1;
            let p = r.gp(k);
            if !pts.contains(&p) { pts.push(p); }
        }
        if pts.len() < 3 { return None; }
        // 2-opt: uncross until simple
        let mut iter = 0;
        loop {
            let m = pts.len();
            let mut crossed = None;
            'o: for i in 0..m {
                for j in i + 1..m {
                    let (a, b) = (pts[i], pts[(i + 1) % m]);
                    let (c, d) = (pts[j], pts[(j + 1) % m]);
                    if j == i + 1 || (i == 0 && j == m - 1) { continue; }
                    if crate::exact::isect(a, b, c, d) != crate::exact::X::None { crossed = Some((i, j)); break 'o; }
                }
            }
            match crossed {
                None => break,
                Some((i, j)) => pts[i + 1..=j].reverse(),
            }
            iter += 1;
            if iter > 60 { break; }
        }
        let mut ring = pts.clone();
        ring.push(pts[0]);
        if crate::exact::line_valid(&ring) { return Some(rotate_flip(r, ring)); }
    }
    None
}

pub fn rotate_flip(r: &mut Rng, ring: Vec<P>) -> Vec<P> {
    let mut v = ring;
    v.pop();
    let m = v.len();
    let k = r.below(m as u64) as usize;
    v.rotate_left(k);
    if r.chance(1, 2) { v.reverse(); }
    v.push(v[0]);
    v
}

pub fn rect_ring(r: &mut Rng, k: i64) -> Vec<P> {
    let x0 = r.range(-k, k - 1);
    let y0 = r.range(-k, k - 1);
    let x1 = r.range(x0 + 1, k);
    let y1 = r.range(y0 + 1, k);
    let f = |x: i64, y: i64| [x as f64, y as f64];
    let mut v = vec![f(x0, y0), f(x1, y0), f(x1, y1), f(x0, y1)];
    // sometimes add collinear edge vertices
    if r.chance(1, 3) && x1 - x0 >= 2 { v.insert(1, f(r.range(x0 + 1, x1 - 1), y0)); }
    v.push(v[0]);
    rotate_flip(r, v)
}

/// Star-shaped ring around a grid centre.
pub fn star_ring(r: &mut Rng, n: usize, k: i64) -> Option<Vec<P>> {
    let c = [r.grid((k / 2).max(1)), r.grid((k / 2).max(1))];
    let mut dirs: Vec<(i64, i64)> = vec![];
    let mut guard = 0;
    while dirs.len() < n && guard < 100 {
        guard += 1;
        let d = (r.range(-k, k), r.range(-k, k));
        if d == (0, 0) { continue; }
        if dirs.iter().any(|e| e.0 * d.1 - e.1 * d.0 == 0 && e.0 * d.0 + e.1 * d.1 > 0) { continue; }
        dirs.push(d);
    }
    dirs.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).partial_cmp(&(b.1 as f64).atan2(b.0 as f64)).unwrap());
    let mut ring: Vec<P> = dirs.iter().map(|d| [c[0] + d.0 as f64, c[1] + d.1 as f64]).collect();
    if ring.len() < 3 { return None; }
    ring.push(ring[0]);
    if crate::exact::line_valid(&ring) { Some(rotate_flip(r, ring)) } else { None }
}
