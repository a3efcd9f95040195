//! Exact plane geometry on integer points: the oracle of the path-planning checks.
#![allow(dead_code)]

use trellis::vec2::Vec2;

pub type Pt = (i64, i64);

/// > 0: a, b, c turn counter-clockwise (y upwards).
pub fn orient(a: Pt, b: Pt, c: Pt) -> i64 {
    ((b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128).signum() as i64
}
/// Twice the signed area, counter-clockwise positive.
pub fn cross(a: Pt, b: Pt, c: Pt) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn area2i(p: &[Pt]) -> i64 {
    let n = p.len();
    (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[(i + 1) % n].0 * p[i].1).sum()
}
/// The same for coordinates of more than 30 bits.
pub fn area2w(p: &[Pt]) -> i128 {
    let n = p.len();
    (0..n).map(|i| p[i].0 as i128 * p[(i + 1) % n].1 as i128 - p[(i + 1) % n].0 as i128 * p[i].1 as i128).sum()
}
/// The size of a unit, in the least amount that doubles can tell at this size.
pub const NUDGE: i64 = 1 << 51;
/// A lattice turned such that doubles hold its points, but not the products of their coordinates; moved by a hair.
pub fn nudged(p: Pt, d: Pt) -> Pt {
    const A: i64 = (1 << 50) + 98_765_432_101;
    const B: i64 = (1 << 48) + 12_345_678_911;
    (A * p.0 - B * p.1 + d.0, B * p.0 + A * p.1 + d.1)
}
const AROUND: [Pt; 8] = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)];
pub fn around(k: i64) -> Pt {
    AROUND[k.rem_euclid(8) as usize]
}
/// Every polygon of n points, each a hair beside another of m points on a line, with its points and how they are moved.
pub fn slivers(n: usize, m: i64, f: &mut dyn FnMut(&[Pt], &[Pt])) {
    fn go(n: usize, m: i64, p: &mut Vec<Pt>, f: &mut dyn FnMut(&[Pt], &[Pt])) {
        if p.len() == n {
            nudges(n, n, &mut |d| {
                let q: Vec<Pt> = p.iter().zip(d).map(|(p, d)| nudged(*p, *d)).collect();
                if simple(&q) {
                    f(p, d);
                }
            });
            return;
        }
        for k in 0..m {
            // The leftmost point first.
            if !p.contains(&(k, 0)) && p.iter().all(|q| p[0].0 < k && q.0 != k) {
                p.push((k, 0));
                go(n, m, p, f);
                p.pop();
            }
        }
    }
    go(n, m, &mut vec![], f);
}
/// Every way to move up to `most` of n points by a hair.
pub fn nudges(n: usize, most: usize, f: &mut dyn FnMut(&[Pt])) {
    fn go(n: usize, most: usize, by: &mut Vec<Pt>, f: &mut dyn FnMut(&[Pt])) {
        if by.len() == n {
            f(by);
            return;
        }
        by.push((0, 0));
        go(n, most, by, f);
        by.pop();
        if by.iter().filter(|d| **d != (0, 0)).count() < most {
            for d in AROUND {
                by.push(d);
                go(n, most, by, f);
                by.pop();
            }
        }
    }
    go(n, most, &mut vec![], f);
}
pub fn within(a: Pt, b: Pt, p: Pt) -> bool {
    a.0.min(b.0) <= p.0 && p.0 <= a.0.max(b.0) && a.1.min(b.1) <= p.1 && p.1 <= a.1.max(b.1)
}
pub fn on_segment(a: Pt, b: Pt, p: Pt) -> bool {
    orient(a, b, p) == 0 && within(a, b, p)
}
/// p is on the open segment ab.
pub fn between(a: Pt, b: Pt, p: Pt) -> bool {
    p != a && p != b && on_segment(a, b, p)
}
/// The open segments cross at one point interior to both.
pub fn crosses(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}
/// The closed segments have a point in common.
pub fn touch(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    crosses(a, b, c, d) || on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}
/// 1 inside, 0 on the boundary, -1 outside.
pub fn locate(p: Pt, poly: &[Pt]) -> i32 {
    let n = poly.len();
    let mut odd = false;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if on_segment(a, b, p) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            // The edge crosses the ray to the right of p?
            let o = orient(a, b, p);
            if (b.1 > a.1 && o > 0) || (b.1 < a.1 && o < 0) {
                odd = !odd;
            }
        }
    }
    if odd {
        1
    } else {
        -1
    }
}
fn twice(p: Pt) -> Pt {
    (2 * p.0, 2 * p.1)
}
/// Is the closed segment in the closed polygon?
pub fn segment_in_polygon(a: Pt, b: Pt, poly: &[Pt]) -> bool {
    let n = poly.len();
    if locate(a, poly) < 0 || locate(b, poly) < 0 {
        return false;
    }
    let mut stops = vec![a, b];
    for i in 0..n {
        if crosses(a, b, poly[i], poly[(i + 1) % n]) {
            return false;
        }
        if between(a, b, poly[i]) {
            stops.push(poly[i]);
        }
    }
    let key = |p: &Pt| (p.0 - a.0).abs() + (p.1 - a.1).abs();
    stops.sort_by_key(key);
    let poly2: Vec<Pt> = poly.iter().map(|p| twice(*p)).collect();
    stops.windows(2).all(|w| w[0] == w[1] || locate((w[0].0 + w[1].0, w[0].1 + w[1].1), &poly2) >= 0)
}
pub fn triangles_overlap(s: &[Pt], t: &[Pt]) -> bool {
    // Interiors are disjoint exactly when a side of one separates them.
    let separated = |s: &[Pt], t: &[Pt]| {
        let o = orient(s[0], s[1], s[2]);
        (0..3).any(|i| t.iter().all(|p| orient(s[i], s[(i + 1) % 3], *p) * o <= 0))
    };
    !(separated(s, t) || separated(t, s))
}
pub fn convex(p: &[Pt]) -> bool {
    let n = p.len();
    let mut seen = [false; 2];
    for i in 0..n {
        match orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) {
            1 => seen[0] = true,
            -1 => seen[1] = true,
            _ => {}
        }
    }
    !(seen[0] && seen[1])
}
/// Simple, with no collinear consecutive vertices.
pub fn simple(p: &[Pt]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        if orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0 {
            return false;
        }
        for j in 0..i {
            if p[i] == p[j] {
                return false;
            }
            if (j + 1) % n == i || (i + 1) % n == j {
                continue;
            }
            if touch(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]) {
                return false;
            }
        }
    }
    // Neighbouring edges may only meet at their common vertex.
    (0..n).all(|i| {
        let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
        !between(a, b, c) && !between(b, c, a)
    })
}

pub fn dist(a: Pt, b: Pt) -> f64 {
    ((a.0 - b.0) as f64).hypot((a.1 - b.1) as f64)
}

// ------------------------------------------------------------------------------- enumerations

/// All simple polygons with n vertices on a w x h lattice. `all`: as every closed walk (each
/// start, each direction); otherwise once, counter-clockwise from the least vertex.
pub fn lattice_polygons(w: i64, h: i64, n: usize, all: bool, f: &mut dyn FnMut(&[Pt]) -> bool) {
    let pts: Vec<Pt> = (0..w * h).map(|k| (k % w, k / w)).collect();
    let mut walk: Vec<Pt> = vec![];
    fn go(pts: &[Pt], n: usize, all: bool, walk: &mut Vec<Pt>, f: &mut dyn FnMut(&[Pt]) -> bool) -> bool {
        if walk.len() == n {
            if simple(walk) && (all || area2i(walk) > 0) {
                return f(walk);
            }
            return true;
        }
        for &p in pts {
            if walk.contains(&p) || (!all && !walk.is_empty() && p < walk[0]) {
                continue;
            }
            let k = walk.len();
            if k >= 2 && orient(walk[k - 2], walk[k - 1], p) == 0 {
                continue;
            }
            if k >= 1 && (0..k - 1).any(|i| if i + 2 == k { on_segment(walk[i], walk[i + 1], p) } else { touch(walk[i], walk[i + 1], walk[k - 1], p) }) {
                continue;
            }
            walk.push(p);
            let on = go(pts, n, all, walk, f);
            walk.pop();
            if !on {
                return false;
            }
        }
        true
    }
    go(&pts, n, all, &mut walk, f);
}

fn star(k: usize, long: f64, short: f64, turn: f64) -> Vec<Pt> {
    (0..2 * k)
        .map(|i| {
            let r = if i % 2 == 0 { long } else { short };
            let t = turn + std::f64::consts::PI * i as f64 / k as f64;
            ((r * t.cos()).round() as i64, (r * t.sin()).round() as i64)
        })
        .collect()
}

fn comb(k: i64, height: &dyn Fn(i64) -> i64) -> Vec<Pt> {
    let mut p = vec![(0, 0), (4 * k, 0)];
    for i in (0..k).rev() {
        p.push((4 * i + 2, height(i)));
        if i > 0 {
            p.push((4 * i, 1 + i % 2));
        }
    }
    p
}

/// A corridor of right-angled turns around the given corners, two wide.
fn corridor(c: &[Pt]) -> Vec<Pt> {
    let n = c.len();
    let dir = |a: Pt, b: Pt| ((b.0 - a.0).signum(), (b.1 - a.1).signum());
    let mut left = vec![];
    let mut right = vec![];
    for i in 0..n {
        let d = if i + 1 < n { dir(c[i], c[i + 1]) } else { dir(c[i - 1], c[i]) };
        let e = if i > 0 { dir(c[i - 1], c[i]) } else { d };
        // The corner of the two offset lines: left of both directions.
        let off = if e == d { (-d.1, d.0) } else { (-d.1 - e.1, d.0 + e.0) };
        left.push((c[i].0 + off.0, c[i].1 + off.1));
        right.push((c[i].0 - off.0, c[i].1 - off.1));
    }
    right.reverse();
    left.extend(right);
    left
}

fn spiral(m: i64) -> Vec<Pt> {
    let mut c = vec![(0, 0)];
    let mut d = (1, 0);
    for i in 0..m {
        let len = 4 * (i / 2 + 1);
        let l = *c.last().unwrap();
        c.push((l.0 + d.0 * len, l.1 + d.1 * len));
        d = (-d.1, d.0);
    }
    corridor(&c)
}

fn snake(m: i64) -> Vec<Pt> {
    let mut c = vec![(0, 0)];
    for i in 0..m {
        let l = *c.last().unwrap();
        let s = match i % 4 {
            0 => (10, 0),
            2 => (-10, 0),
            _ => (0, 4),
        };
        c.push((l.0 + s.0, l.1 + s.1));
    }
    corridor(&c)
}

fn stairs(k: i64) -> Vec<Pt> {
    let mut p = vec![(0, 0), (2 * k, 0)];
    for i in 0..k {
        p.push((2 * (k - i), 2 * (i + 1)));
        if i + 1 < k {
            p.push((2 * (k - i - 1), 2 * (i + 1)));
        }
    }
    p.push((0, 2 * k));
    p
}

fn saw(k: i64) -> Vec<Pt> {
    let f = |i: i64| if i % 2 == 0 { 0 } else { 5 };
    let mut p: Vec<Pt> = (0..=k).map(|i| (3 * i, f(i))).collect();
    p.extend((0..=k).rev().map(|i| (3 * i, f(i) + 3)));
    p
}

/// Patterned polygons with at most `most` vertices: combs, stars, spirals, snakes, stairs, saws.
pub fn families(most: i64) -> Vec<Vec<Pt>> {
    let mut out = vec![];
    for k in 2..=most {
        out.push(comb(k, &|_| 10));
        out.push(comb(k, &|i| 4 + 3 * i));
        out.push(comb(k, &|i| 6 + (i * 5) % 7));
        out.push(stairs(k));
        out.push(spiral(k));
        out.push(snake(k));
        out.push(saw(k));
        if k >= 3 {
            out.push(star(k as usize, 40.0, 15.0, 0.1));
            out.push(star(k as usize, 40.0, 4.0, 0.4));
            out.push(star(k as usize, 40.0, 38.0, 0.25));
        }
    }
    let mut ok: Vec<Vec<Pt>> = vec![];
    for mut p in out {
        if p.len() as i64 <= most && simple(&p) {
            if area2i(&p) < 0 {
                p.reverse();
            }
            if !ok.contains(&p) {
                ok.push(p);
            }
        }
    }
    ok
}

/// A convex chain: n vertices of a parabola, closed by the chord.
fn arc(n: i64) -> Vec<Pt> {
    (0..n).map(|i| (i, i * (i - n))).collect()
}

/// A room above a round hill of n + 1 vertices with a pit on either side (funnels grow on one side).
fn hill(n: i64) -> Vec<Pt> {
    let low = -n * n / 4 - 3;
    let high = n * n / 4 + 5;
    let mut p: Vec<Pt> = vec![(-2, low), (0, low)];
    p.extend((1..n).map(|i| (i, i * (n - i))));
    p.extend([(n, low), (n + 2, low), (n + 2, high), (-2, high)]);
    p
}

/// A corridor that bends around one round hill from above and another from below.
fn wave(n: i64) -> Vec<Pt> {
    let f = |i: i64| if i <= n { i * (n - i) } else { (i - n) * (i - 2 * n) };
    let mut p: Vec<Pt> = (0..=2 * n).map(|i| (3 * i, 2 * f(i))).collect();
    p.extend((0..=2 * n).rev().map(|i| (3 * i, 2 * f(i) + 7)));
    p
}

/// Patterned polygons of about n vertices.
pub fn large(n: i64) -> Vec<Vec<Pt>> {
    let r = (n * n) as f64;
    let all = vec![
        arc(n),
        hill(n - 5),
        hill(n - 5).iter().map(|p| (p.0, -p.1)).collect(),
        wave(n / 4),
        comb(n / 2, &|_| 10),
        comb(n / 2, &|i| 4 + 3 * i),
        stairs(n / 2),
        saw(n / 2 - 1),
        spiral(n / 2 - 1),
        snake(n / 2 - 1),
        star((n / 2) as usize, r, r / 3.0, 0.1),
        star((n / 2) as usize, r, r * (std::f64::consts::PI / n as f64 * 2.0).cos() * 0.999, 0.4),
    ];
    all.into_iter()
        .filter(|p| simple(p))
        .map(|mut p| {
            if area2i(&p) < 0 {
                p.reverse();
            }
            p
        })
        .collect()
}

/// A room above a round hill of n vertices with a tower behind it: the way from the left of the
/// hill to the right of the tower leaves the hill at vertex `leave`, from 1 to n.
fn tower(n: i64, leave: i64) -> Vec<Pt> {
    let slope = |k: i64| 10 * (n - k) + 5;
    let y = |k: i64| 20 + (1..k).map(slope).sum::<i64>();
    let top = y(leave) + (slope(leave) + 5) * (n + 2 - leave);
    let mut p: Vec<Pt> = vec![(-2, -1), (0, -1)];
    p.extend((1..=n).map(|k| (k, y(k))));
    p.extend([(n + 1, -1), (n + 2, top), (n + 3, -1), (n + 9, -1), (n + 9, 2 * y(n) + 20 * n + 60), (-2, 2 * y(n) + 20 * n + 60)]);
    p
}

/// Hills with towers, counter-clockwise, and both mirrored.
pub fn towers(n: i64) -> Vec<Vec<Pt>> {
    let mut out = vec![];
    for leave in 1..=n {
        let mut p = tower(n, leave);
        assert!(simple(&p));
        if area2i(&p) < 0 {
            p.reverse();
        }
        out.push(p.clone());
        let mut q: Vec<Pt> = p.iter().map(|p| (-p.0, p.1)).collect();
        q.reverse();
        out.push(q);
    }
    out
}

/// Every star-shaped octagon with radii from 1..=k in the eight lattice directions.
pub fn radial(k: i64, f: &mut dyn FnMut(&[Pt])) {
    let dirs = [(2, 0), (2, 2), (0, 2), (-2, 2), (-2, 0), (-2, -2), (0, -2), (2, -2)];
    mc::sequences(k, 8, &mut |r| {
        let p: Vec<Pt> = (0..8).map(|i| (dirs[i].0 * (r[i] + 1), dirs[i].1 * (r[i] + 1))).collect();
        if simple(&p) {
            f(&p);
        }
        true
    });
}

// ---------------------------------------------------------------------------------- placements

/// An exact similarity: (x, y) -> ((a x - b y) / 2^s + tx, (b x + a y) / 2^s + ty), mirrored first
/// when asked. All values stay dyadic, so that doubles hold them exactly.
#[derive(Copy, Clone, Debug)]
pub struct Place {
    pub a: i64,
    pub b: i64,
    pub shift: u32,
    pub tx: f64,
    pub ty: f64,
    pub mirror: bool,
}

pub const PLACES: &[Place] = &[
    Place { a: 1, b: 0, shift: 0, tx: 0.0, ty: 0.0, mirror: false },
    Place { a: 3, b: 4, shift: 0, tx: 0.0, ty: 0.0, mirror: false },
    Place { a: 0, b: 1, shift: 0, tx: -7.0, ty: 11.0, mirror: false },
    Place { a: 1, b: 0, shift: 5, tx: 0.0, ty: 0.0, mirror: false },
    Place { a: 1, b: 0, shift: 0, tx: 1048576.0, ty: -524288.0, mirror: false },
    Place { a: -5, b: 12, shift: 3, tx: 100.25, ty: -3.5, mirror: true },
    Place { a: 1000, b: 1, shift: 0, tx: 0.5, ty: 0.5, mirror: false },
    Place { a: -1, b: 0, shift: 5, tx: -0.125, ty: 0.375, mirror: true },
    Place { a: 1, b: 0, shift: 0, tx: 1073741824.0, ty: -2147483649.0, mirror: false },
    Place { a: 1 << 20, b: 0, shift: 0, tx: 0.0, ty: 0.0, mirror: false },
    Place { a: 0, b: -1, shift: 24, tx: 0.0, ty: 0.0, mirror: true },
];

/// Placements on which the turn of three points, with its tolerance of 1/10000, is exact.
pub const WIDE: usize = 10;

/// Placements without very large offsets.
pub const NEAR: usize = 8;

/// The placements under which doubles hold coordinates and double areas of these points (in units
/// of 1/den) exactly.
pub fn places_for(polys: &[Vec<Pt>], den: i64) -> Vec<i64> {
    let (mut lo, mut hi) = ((0, 0), (0, 0));
    for p in polys.iter().flatten() {
        lo = (lo.0.min(p.0), lo.1.min(p.1));
        hi = (hi.0.max(p.0), hi.1.max(p.1));
    }
    let span = (hi.0 - lo.0 + hi.1 - lo.1 + 8) * den;
    (0..PLACES.len() as i64)
        .filter(|k| {
            let p = &PLACES[*k as usize];
            let both = p.a | p.b;
            let d = span as f64 * ((p.a.abs() + p.b.abs()) >> both.trailing_zeros()) as f64;
            d * d < 4e15
        })
        .collect()
}

impl Place {
    /// Places a point whose coordinates are in units of 1/den (den a power of two).
    pub fn at(&self, p: Pt, den: i64) -> Vec2<f64> {
        let x = if self.mirror { -p.0 } else { p.0 };
        let d = den as f64 * (1u64 << self.shift) as f64;
        Vec2 {
            x: (self.a * x - self.b * p.1) as f64 / d + self.tx,
            y: (self.b * x + self.a * p.1) as f64 / d + self.ty,
        }
    }
    /// Factor on lengths.
    pub fn scale(&self) -> f64 {
        ((self.a * self.a + self.b * self.b) as f64).sqrt() / (1u64 << self.shift) as f64
    }
    /// Factor on (signed) areas.
    pub fn area(&self) -> f64 {
        let m = (self.a * self.a + self.b * self.b) as f64 / ((1u64 << self.shift) as f64).powi(2);
        if self.mirror {
            -m
        } else {
            m
        }
    }
}

pub fn push_poly(case: &mut Vec<i64>, p: &[Pt]) {
    case.push(p.len() as i64);
    for q in p {
        case.push(q.0);
        case.push(q.1);
    }
}
/// Reads a polygon at `*i` and moves behind it.
pub fn read_poly(case: &[i64], i: &mut usize) -> Vec<Pt> {
    let n = case[*i] as usize;
    let p = (0..n).map(|k| (case[*i + 1 + 2 * k], case[*i + 2 + 2 * k])).collect();
    *i += 1 + 2 * n;
    p
}

/// Single-source shortest distances over an explicit list of visible pairs.
pub fn dijkstra(n: usize, from: usize, w: &dyn Fn(usize, usize) -> Option<f64>) -> Vec<f64> {
    let mut d = vec![f64::INFINITY; n];
    let mut done = vec![false; n];
    d[from] = 0.0;
    loop {
        let mut k = n;
        for i in 0..n {
            if !done[i] && d[i].is_finite() && (k == n || d[i] < d[k]) {
                k = i;
            }
        }
        if k == n {
            return d;
        }
        done[k] = true;
        for i in 0..n {
            if !done[i] {
                if let Some(x) = w(k, i) {
                    if d[k] + x < d[i] {
                        d[i] = d[k] + x;
                    }
                }
            }
        }
    }
}
