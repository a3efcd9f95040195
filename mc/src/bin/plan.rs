//! P01-P07, P09: visibility, obstacle routing, geodesics, splines, roots, predicates.
#[path = "../geo.rs"]
mod geo;

use geo::*;
use mc::*;
use std::cell::Cell;
use trellis::pathplan::array2::Array2;
use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::in_poly::in_poly;
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::shortest::{Pshortestpath, ShortestPathError};
use trellis::pathplan::shortestpth::{makePath, shortestPath, shortestPathGeneric};
use trellis::pathplan::solvers::solve3;
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::visibility::{area2, directVis, inBetween, polyhit, ptVis, visibility, wind};
use trellis::pathplan::{Pedge_t, POLYID_NONE, POLYID_UNKNOWN};
use trellis::polyline::{Ppoly_t, Ppolyline_t};
use trellis::vec2::Vec2;

type V = Vec2<f64>;

fn rel(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

// ------------------------------------------------------------------------- obstacle configurations

/// Turns and scales whose results are rounded: sine, cosine and factor, and an offset.
const TURNS: [(f64, f64, f64, f64); 8] =
    [(0.0, 0.1, 0.0, 0.0), (0.0, 1.0 / 3.0, 0.7, -0.3), (0.3, 1.0, 0.0, 0.0), (1.0, 0.07, 12.3, 4.56), (2.0, 1e-3, 0.0, 0.0), (-0.7853981633974483, 1.7, 1000.1, -2000.2), (1.5707963267948966, 33.3, 0.0, 0.0), (4.0, 1e6 / 7.0, 1e5 / 3.0, 0.0)];

fn turn_at(k: i64, p: Pt, den: i64) -> V {
    let (angle, by, tx, ty) = TURNS[k as usize];
    let (s, c) = angle.sin_cos();
    let (x, y) = (p.0 as f64 / den as f64 * by, p.1 as f64 / den as f64 * by);
    Vec2 { x: c * x - s * y + tx, y: s * x + c * y + ty }
}

/// The turns, as placements, under which the turn of three points with its tolerance of 1/10000 is as on the lattice.
const TURNED: [i64; 6] = [100, 101, 102, 103, 105, 106];

/// Obstacles in integer coordinates of 1/den, in the order and direction handed to the code.
struct Scene {
    /// 100 and more: one of the turns, whose results are rounded.
    place: i64,
    den: i64,
    polys: Vec<Vec<Pt>>,
    pts: Vec<Pt>,
    owner: Vec<usize>,
    next: Vec<usize>,
    prev: Vec<usize>,
    real: Vec<Ppoly_t>,
    /// Edges as pairs of vertex numbers.
    edges: Vec<(usize, usize)>,
}

fn placed(place: i64, p: Pt, den: i64) -> V {
    if place < 100 {
        PLACES[place as usize].at(p, den)
    } else {
        turn_at(place - 100, p, den)
    }
}

fn scale(place: i64) -> f64 {
    if place < 100 {
        PLACES[place as usize].scale()
    } else {
        TURNS[place as usize - 100].1
    }
}

impl Scene {
    /// case: placement, number of obstacles, obstacles (clockwise)
    fn read(case: &[i64], i: &mut usize, den: i64) -> Scene {
        let place = case[*i];
        let n = case[*i + 1];
        *i += 2;
        let mut polys = vec![];
        for _ in 0..n {
            let mut p: Vec<Pt> = read_poly(case, i).into_iter().map(|q| (q.0 * den, q.1 * den)).collect();
            if place < 100 && PLACES[place as usize].mirror {
                p.reverse();
            }
            polys.push(p);
        }
        let real = polys.iter().map(|p| Ppoly_t { ps: p.iter().map(|q| placed(place, *q, den)).collect() }).collect();
        let mut s = Scene { place, den, polys, pts: vec![], owner: vec![], next: vec![], prev: vec![], real, edges: vec![] };
        for (k, p) in s.polys.iter().enumerate() {
            let base = s.pts.len();
            for (j, q) in p.iter().enumerate() {
                s.pts.push(*q);
                s.owner.push(k);
                s.next.push(base + (j + 1) % p.len());
                s.prev.push(base + (j + p.len() - 1) % p.len());
                s.edges.push((base + j, base + (j + 1) % p.len()));
            }
        }
        s
    }
    fn open(&self) -> vconfig_t {
        let refs: Vec<&Ppoly_t> = self.real.iter().collect();
        Pobsopen(&refs)
    }
    fn at(&self, p: Pt) -> V {
        placed(self.place, p, self.den)
    }
    fn length(&self, a: Pt, b: Pt) -> f64 {
        dist(a, b) * scale(self.place) / self.den as f64
    }
    /// The open segment ab contains no obstacle vertex, crosses no obstacle edge and does not run
    /// inside an obstacle, for the obstacles that are not transparent.
    fn free(&self, a: Pt, b: Pt, transparent: &dyn Fn(usize) -> bool) -> bool {
        for (i, p) in self.pts.iter().enumerate() {
            if !transparent(self.owner[i]) && between(a, b, *p) {
                return false;
            }
        }
        for &(i, j) in &self.edges {
            if !transparent(self.owner[i]) && crosses(a, b, self.pts[i], self.pts[j]) {
                return false;
            }
        }
        for (k, p) in self.polys.iter().enumerate() {
            if !transparent(k) && p.len() > 2 {
                let p2: Vec<Pt> = p.iter().map(|q| (2 * q.0, 2 * q.1)).collect();
                if locate((a.0 + b.0, a.1 + b.1), &p2) > 0 {
                    return false;
                }
            }
        }
        true
    }
    fn neighbours(&self, i: usize, j: usize) -> bool {
        self.next[i] == j || self.prev[i] == j
    }
    fn sees(&self, i: usize, j: usize) -> bool {
        i != j && (self.neighbours(i, j) || self.free(self.pts[i], self.pts[j], &|_| false))
    }
    /// Strictly outside obstacle k.
    fn outside(&self, p: Pt, k: usize) -> bool {
        let q = &self.polys[k];
        match q.len() {
            1 => q[0] != p,
            2 => !on_segment(q[0], q[1], p),
            _ => locate(p, q) < 0,
        }
    }
    fn grid(&self, step: i64, margin: i64) -> Vec<Pt> {
        let m = margin * self.den;
        let (x0, x1) = (self.pts.iter().map(|p| p.0).min().unwrap_or(0) - m, self.pts.iter().map(|p| p.0).max().unwrap_or(0) + m);
        let (y0, y1) = (self.pts.iter().map(|p| p.1).min().unwrap_or(0) - m, self.pts.iter().map(|p| p.1).max().unwrap_or(0) + m);
        let mut out = vec![];
        let mut x = x0;
        while x <= x1 {
            let mut y = y0;
            while y <= y1 {
                out.push((x, y));
                y += step;
            }
            x += step;
        }
        out
    }
}

fn wide_places(polys: &[Vec<Pt>], den: i64) -> Vec<i64> {
    let mut p = places_for(polys, den);
    p.retain(|k| (*k as usize) < WIDE);
    p
}

/// The smallest step in halves, from `least`, that leaves a grid around the obstacles of at most `most` points.
fn step_for(polys: &[Vec<Pt>], least: i64, most: i64) -> i64 {
    let (mut lo, mut hi) = ((i64::MAX, i64::MAX), (i64::MIN, i64::MIN));
    for p in polys.iter().flatten() {
        lo = (lo.0.min(p.0), lo.1.min(p.1));
        hi = (hi.0.max(p.0), hi.1.max(p.1));
    }
    let (w, h) = (2 * (hi.0 - lo.0) + 4, 2 * (hi.1 - lo.1) + 4);
    let mut step = least;
    while (w / step + 1) * (h / step + 1) > most {
        step += 1;
    }
    step
}

fn clockwise(mut p: Vec<Pt>) -> Vec<Pt> {
    if area2i(&p) > 0 {
        p.reverse();
    }
    p
}

/// Points, segments and clockwise polygons of up to `most` vertices on a lattice.
fn shapes(w: i64, h: i64, most: usize) -> Vec<Vec<Pt>> {
    let mut out = vec![];
    let pts: Vec<Pt> = (0..w * h).map(|k| (k % w, k / w)).collect();
    for &p in &pts {
        out.push(vec![p]);
    }
    for &p in &pts {
        for &q in &pts {
            if p < q {
                out.push(vec![p, q]);
            }
        }
    }
    for n in 3..=most {
        lattice_polygons(w, h, n, false, &mut |p| {
            out.push(clockwise(p.to_vec()));
            true
        });
    }
    out
}

fn edges_of(p: &[Pt]) -> Vec<(Pt, Pt)> {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect()
}

fn disjoint(p: &[Pt], q: &[Pt]) -> bool {
    for (a, b) in edges_of(p) {
        for (c, d) in edges_of(q) {
            if a == b && c == d {
                if a == c {
                    return false;
                }
            } else if a == b {
                if on_segment(c, d, a) {
                    return false;
                }
            } else if c == d {
                if on_segment(a, b, c) {
                    return false;
                }
            } else if touch(a, b, c, d) {
                return false;
            }
        }
    }
    (p.len() < 3 || locate(q[0], p) < 0) && (q.len() < 3 || locate(p[0], q) < 0)
}

fn scene_case(head: &[i64], place: i64, polys: &[&[Pt]]) -> Vec<i64> {
    let mut c = head.to_vec();
    c.push(place);
    c.push(polys.len() as i64);
    for p in polys {
        push_poly(&mut c, p);
    }
    c
}

fn shift(p: &[Pt], dx: i64, dy: i64) -> Vec<Pt> {
    p.iter().map(|q| (q.0 + dx, q.1 + dy)).collect()
}

fn sound(s: &[Vec<Pt>]) -> bool {
    s.iter().enumerate().all(|(i, p)| (p.len() < 3 || simple(p)) && s[..i].iter().all(|q| disjoint(p, q)))
}

/// Grids, bricks, diamonds, mixtures, nested brackets, rows: k obstacles on a side.
fn arrangements_of(k: i64) -> Vec<Vec<Vec<Pt>>> {
    let square = |x: i64, y: i64, s: i64| vec![(x, y), (x, y + s), (x + s, y + s), (x + s, y)];
    let diamond = |x: i64, y: i64, s: i64| vec![(x - s, y), (x, y + s), (x + s, y), (x, y - s)];
    let bracket = |x: i64, y: i64, w: i64, h: i64| {
        clockwise(vec![(x, y), (x + w, y), (x + w, y + 1), (x + 1, y + 1), (x + 1, y + h - 1), (x + w, y + h - 1), (x + w, y + h), (x, y + h)])
    };
    let mut out: Vec<Vec<Vec<Pt>>> = vec![];
    {
        let mut grid = vec![];
        let mut bricks = vec![];
        let mut diamonds = vec![];
        let mut mixed = vec![];
        for i in 0..k {
            for j in 0..k {
                grid.push(square(3 * i, 3 * j, 1));
                bricks.push(clockwise(vec![(6 * i + 3 * (j % 2), 3 * j), (6 * i + 4 + 3 * (j % 2), 3 * j), (6 * i + 4 + 3 * (j % 2), 3 * j + 1), (6 * i + 3 * (j % 2), 3 * j + 1)]));
                diamonds.push(diamond(5 * i + j, 5 * j - i, 2));
                mixed.push(match (i + 2 * j) % 5 {
                    0 => vec![(4 * i, 4 * j)],
                    1 => vec![(4 * i, 4 * j), (4 * i + 2, 4 * j + 1)],
                    2 => clockwise(vec![(4 * i, 4 * j), (4 * i + 3, 4 * j), (4 * i + 1, 4 * j + 2)]),
                    3 => square(4 * i, 4 * j, 2),
                    _ => clockwise(vec![(4 * i, 4 * j), (4 * i + 3, 4 * j), (4 * i + 3, 4 * j + 3), (4 * i + 2, 4 * j + 1)]),
                });
            }
        }
        out.extend([grid, bricks, diamonds, mixed]);
        let mut nest = vec![];
        for i in 0..k {
            let m = 4 * (k - i);
            nest.push(bracket(3 * i, 3 * i, m + 1, 2 * m + 1 + 6 * 0));
        }
        if nest.iter().enumerate().all(|(i, p)| nest[..i].iter().all(|q| disjoint(p, q))) {
            out.push(nest);
        }
        // Collinear squares and points on one line.
        out.push((0..k).map(|i| square(2 * i, 0, 1)).collect());
        out.push((0..k).map(|i| vec![(2 * i, i)]).collect());
        out.push((0..k).map(|i| vec![(3 * i, 0), (3 * i + 1, 4)]).collect());
    }
    out.retain(|s| sound(s));
    out
}

/// Larger arrangements, and families with points in their bays.
fn arrangements(size: i64) -> Vec<Vec<Vec<Pt>>> {
    let mut out: Vec<Vec<Vec<Pt>>> = (1..=size).flat_map(arrangements_of).collect();
    for p in families(10 + 2 * size) {
        let q = clockwise(p.clone());
        out.push(vec![q.clone()]);
        // A point obstacle and a segment near it, where there is room.
        let x1 = q.iter().map(|p| p.0).max().unwrap();
        let mut extra: Vec<Vec<Pt>> = vec![vec![(x1 + 2, 3)], vec![(x1 + 4, 0), (x1 + 5, 9)]];
        'find: for x in 0..x1 {
            for y in 0..12 {
                let cand = vec![(x, y)];
                if disjoint(&cand, &q) {
                    extra.push(cand);
                    break 'find;
                }
            }
        }
        let mut all = vec![q];
        all.extend(extra);
        out.push(all);
    }
    out.retain(|s| sound(s));
    out
}

/// Large polygons as obstacles, alone and with a point and a segment beside them.
fn large_scenes(n: i64) -> Vec<Vec<Vec<Pt>>> {
    let mut out = vec![];
    for p in large(n) {
        let q = clockwise(p);
        let (x1, y1) = (q.iter().map(|p| p.0).max().unwrap(), q.iter().map(|p| p.1).max().unwrap());
        out.push(vec![vec![(x1 + 2, y1 / 2)], q.clone(), vec![(0, y1 + 3), (x1, y1 + 4)]]);
        out.push(vec![q]);
    }
    out.retain(|s| sound(s));
    out
}

/// The polygon twice as large, with points on the middle of its edges: of one in turn, and of all.
fn studded(p: &[Pt]) -> Vec<Vec<Pt>> {
    let n = p.len();
    (0..=n)
        .flat_map(|i| {
            let q: Vec<Pt> = (0..n)
                .flat_map(|j| {
                    let (a, b) = (p[j], p[(j + 1) % n]);
                    let mut v = vec![(2 * a.0, 2 * a.1)];
                    if i == n || i == j {
                        v.push((a.0 + b.0, a.1 + b.1));
                    }
                    v
                })
                .collect();
            (0..if i == n { 2 } else { q.len() }).map(move |r| {
                let mut q = q.clone();
                q.rotate_left(r);
                q
            })
        })
        .collect()
}

/// Scenes of one or two obstacles with points on their edges.
fn studded_scenes(w: i64, h: i64, most: usize, f: &mut dyn FnMut(&[&[Pt]]) -> bool) {
    for n in 3..=most {
        let mut on = true;
        lattice_polygons(w, h, n, false, &mut |p| {
            for q in studded(&clockwise(p.to_vec())) {
                on = on && f(&[&q]);
            }
            on
        });
        if !on {
            return;
        }
    }
    let list = shapes(3, 3, 3);
    let mut k = 0;
    pairs(&list, &mut |p, q| {
        if p.len() < 3 {
            return true;
        }
        let double: Vec<Pt> = q.iter().map(|p| (2 * p.0, 2 * p.1)).collect();
        for (i, s) in studded(p).iter().enumerate() {
            k += 1;
            if i % 4 == k % 4 && !f(&[s, &double]) {
                return false;
            }
            if q.len() > 2 && i % 4 == k % 4 && !f(&[s, &studded(q)[i % (3 * q.len())]]) {
                return false;
            }
        }
        true
    });
}

/// Pairs of disjoint shapes in both orders; `third` also tries a third one from another list.
fn pairs(list: &[Vec<Pt>], f: &mut dyn FnMut(&[Pt], &[Pt]) -> bool) {
    for p in list {
        for q in list {
            if disjoint(p, q) && !f(p, q) {
                return;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- P01

fn p01(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    let mut at = 0;
    let before = if fam == "again" { Some(Scene::read(case, &mut at, 1)) } else { None };
    let s = Scene::read(case, &mut at, 1);
    let mut c = s.open();
    if let Some(b) = before {
        // The graph of other obstacles is there already, and is computed anew for these.
        c.vis = b.open().vis;
        visibility(&mut c);
    }
    let n = s.pts.len();
    ensure_eq!((c.N, c.Npoly), (n, s.polys.len()), "points and obstacles");
    ensure_eq!((c.P.len(), c.next.len(), c.prev.len(), c.start.len()), (n, n, n, s.polys.len() + 1), "lengths of the tables");
    let mut at = 0;
    for (k, p) in s.polys.iter().enumerate() {
        ensure_eq!(c.start[k], at, "start of obstacle {}", k);
        at += p.len() as i32;
    }
    ensure_eq!(c.start[s.polys.len()], at, "end of the last obstacle");
    for i in 0..n {
        ensure!(c.P[i] == s.at(s.pts[i]), "point {} is {:?} instead of {:?}", i, c.P[i], s.at(s.pts[i]));
        ensure_eq!((c.next[i] as usize, c.prev[i] as usize), (s.next[i], s.prev[i]), "neighbours of point {}", i);
    }
    let mut seen = 0;
    for i in 0..n {
        for j in 0..n {
            obs.step();
            let got = c.vis[(i, j)];
            let sees = s.sees(i, j);
            ensure!(
                (got != 0.0) == sees,
                "vertices {} {:?} and {} {:?} of {:?} {}, but the graph holds {}",
                i,
                s.pts[i],
                j,
                s.pts[j],
                s.polys,
                if sees { "see each other" } else { "do not see each other" },
                got
            );
            if sees {
                ensure!(rel(got, s.length(s.pts[i], s.pts[j]), if s.place < 100 { 1e-12 } else { 1e-9 }), "distance of vertices {} and {}: {}", i, j, got);
                seen += (i > j && !s.neighbours(i, j)) as usize;
            }
            ensure!(got == c.vis[(j, i)], "vertices {} and {} are {} apart one way and {} the other", i, j, got, c.vis[(j, i)]);
        }
    }
    obs.state(fp_i64(1, s.pts.iter().flat_map(|p| [p.0, p.1]).chain(s.polys.iter().map(|p| p.len() as i64))));
    obs.nontrivial(seen > 0 && n > 2);
    obs.note(|| format!("{:?}: {} visible pairs that are no neighbours", s.polys, seen));
    Ok(())
}

fn p01_enum(e: &mut Enum) {
    studded_scenes(4, e.pick(3, 4), 5, &mut |s| {
        if e.mine() {
            e.emit("studded", &scene_case(&[], 0, s));
        }
        !e.stopped()
    });
    e.emit("single", &scene_case(&[], 0, &[]));
    let plan: &[(i64, i64, usize)] = if e.thorough() {
        &[(4, 4, 3), (4, 4, 4), (4, 4, 5), (4, 4, 6), (4, 4, 7), (3, 3, 8), (4, 3, 8), (5, 4, 6), (5, 5, 5), (6, 6, 4), (4, 3, 9)]
    } else {
        &[(4, 4, 3), (4, 4, 4), (4, 4, 5), (4, 4, 6), (4, 3, 7), (3, 3, 8), (4, 3, 8), (5, 4, 5)]
    };
    for &(w, h, n) in plan {
        lattice_polygons(w, h, n, true, &mut |p| {
            if area2i(p) < 0 && e.mine() {
                e.emit("single", &scene_case(&[], 0, &[p]));
            }
            !e.stopped()
        });
    }
    radial(3, &mut |p| {
        let p = clockwise(p.to_vec());
        e.emit("radial", &scene_case(&[], 0, &[&p]));
    });
    let list = if e.thorough() { shapes(4, 4, 5) } else { shapes(4, 4, 4) };
    pairs(&list, &mut |p, q| {
        if e.mine() {
            e.emit("pair", &scene_case(&[], 0, &[p, q]));
        }
        !e.stopped()
    });
    // One obstacle may lie in the bay of another.
    let small = shapes(4, 3, e.pick(3, 4));
    let hooks: Vec<Vec<Pt>> = families(e.pick(12, 20)).into_iter().map(clockwise).collect();
    for h in &hooks {
        for q in &small {
            for dx in 0..10 {
                for dy in 0..8 {
                    let q = shift(q, dx * 2, dy);
                    if disjoint(h, &q) && e.mine() {
                        e.emit("bay", &scene_case(&[], 0, &[h, &q]));
                    }
                }
            }
        }
        if e.stopped() {
            return;
        }
    }
    // Each scene behind another of as many points, and behind one of another number.
    let some = shapes(3, 3, e.pick(4, 5));
    let mut last: Vec<Option<Vec<i64>>> = vec![None; 16];
    let mut k = 0;
    pairs(&some, &mut |p, q| {
        let n = p.len() + q.len();
        let this = scene_case(&[], 0, &[p, q]);
        let olds = [last[n].clone(), last[n + 1].clone(), last[n - 1].clone()];
        for (i, old) in olds.iter().enumerate() {
            if let Some(old) = old {
                k += 1;
                if (i == 0 || k % 8 == 0) && e.mine() {
                    let c: Vec<i64> = old.iter().chain(&this).cloned().collect();
                    e.emit("again", &c);
                }
            }
        }
        if let Some(old) = &olds[0] {
            if e.mine() {
                let c: Vec<i64> = this.iter().chain(old).cloned().collect();
                e.emit("again", &c);
            }
        }
        last[n] = Some(this);
        !e.stopped()
    });
    let three = if e.thorough() { shapes(4, 4, 3) } else { shapes(4, 3, 3) };
    for (i, p) in three.iter().enumerate() {
        for (j, q) in three.iter().enumerate().skip(i + 1) {
            if !disjoint(p, q) {
                continue;
            }
            for r in &three[j + 1..] {
                if disjoint(p, r) && disjoint(q, r) && e.mine() {
                    e.emit("triple", &scene_case(&[], 0, &[p, q, r]));
                }
            }
        }
        if e.stopped() {
            return;
        }
    }
    for a in arrangements(e.pick(4, 6)) {
        for k in 0..WIDE as i64 {
            let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
            e.emit("arrangement", &scene_case(&[], k, &refs));
            let rev: Vec<&[Pt]> = a.iter().rev().map(|p| &p[..]).collect();
            e.emit("arrangement", &scene_case(&[], k, &rev));
        }
    }
    for k in if e.thorough() { vec![6, 7, 8, 9, 10, 12, 14, 17] } else { vec![5, 6, 7, 8, 9, 10] } {
        for (i, a) in arrangements_of(k).into_iter().enumerate() {
            let places = wide_places(&a, 1);
            let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
            e.emit("large", &scene_case(&[], places[i % places.len()], &refs));
        }
    }
    for n in if e.thorough() { vec![20, 30, 33, 40, 50, 66, 80, 100, 129, 130, 180, 258, 300, 400, 514] } else { vec![33, 40, 66, 100, 130, 180, 258, 300] } {
        for (i, a) in large_scenes(n).into_iter().enumerate() {
            let places = wide_places(&a, 1);
            let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
            e.emit("large", &scene_case(&[], places[i % places.len()], &refs));
        }
    }
    // Small scenes under every placement.
    let few = if e.thorough() { shapes(4, 3, 4) } else { shapes(3, 3, 4) };
    pairs(&few, &mut |p, q| {
        for k in 1..WIDE as i64 {
            if e.mine() {
                e.emit("placed", &scene_case(&[], k, &[p, q]));
            }
        }
        !e.stopped()
    });
    // Coordinates that are rounded.
    pairs(&few, &mut |p, q| {
        for k in TURNED {
            if e.mine() {
                e.emit("turned", &scene_case(&[], k, &[p, q]));
            }
        }
        !e.stopped()
    });
    for a in arrangements(e.pick(4, 6)) {
        for k in TURNED {
            let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
            e.emit("turned", &scene_case(&[], k, &refs));
        }
    }
}

// ---------------------------------------------------------------------------------------- P02

fn p02(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    // grid step in halves, margin, scene
    let s = Scene::read(case, &mut 2, 2);
    let c = s.open();
    let n = s.pts.len();
    let np = s.polys.len();
    let pts = s.grid(case[0], case[1]);
    let mut blocked = 0u64;
    let mut open = 0u64;
    if fam == "hit" {
        // Obstacles here may overlap: the first in order counts.
        for (k, &p) in pts.iter().enumerate() {
            let want = s.polys.iter().position(|q| locate(p, q) >= 0).map(|k| k as i32).unwrap_or(POLYID_NONE);
            ensure_eq!(polyhit(&c, s.at(p)), want, "obstacle that contains {:?} of {:?} (in halves)", p, s.polys);
            obs.step();
            if np > 2 && k % (pts.len() / 40 + 1) == 0 {
                // The owner is looked up the same way.
                let (looked, told) = (ptVis(&c, POLYID_UNKNOWN, s.at(p)), ptVis(&c, want, s.at(p)));
                ensure!(looked == told, "point {:?} of {} obstacles: the vector differs when the owner {} is looked up", p, np, want);
            }
            open += (want == POLYID_NONE) as u64;
            blocked += (want != POLYID_NONE) as u64;
        }
        obs.nontrivial(open > 0 && blocked > 0);
        return Ok(());
    }
    let round = s.polys.iter().all(|p| p.len() > 2 && convex(p));
    for &p in &pts {
        let out: Vec<bool> = (0..np).map(|k| s.outside(p, k)).collect();
        for owner in -1..np as i32 {
            if (0..np).any(|k| k as i32 != owner && !out[k]) {
                continue;
            }
            obs.step();
            let declared = if owner < 0 { POLYID_NONE } else { owner };
            let got = ptVis(&c, declared, s.at(p));
            ensure_eq!(got.len(), n + 2, "length of the visibility vector");
            ensure!(got[n] == 0.0 && got[n + 1] == 0.0, "the last two entries are {} and {}", got[n], got[n + 1]);
            for i in 0..n {
                let sees = s.owner[i] as i32 != owner && s.free(p, s.pts[i], &|k| k as i32 == owner);
                ensure!(
                    (got[i] != 0.0) == sees,
                    "point {:?} (owner {}) and vertex {} {:?} of {:?} (in halves): visible is {}, got {}",
                    p,
                    owner,
                    i,
                    s.pts[i],
                    s.polys,
                    sees,
                    got[i]
                );
                if sees {
                    open += 1;
                    ensure!(rel(got[i], s.length(p, s.pts[i]), if s.place < 100 { 1e-12 } else { 1e-9 }), "distance from {:?} to vertex {}: {}", p, i, got[i]);
                } else {
                    blocked += 1;
                }
            }
            if round && (owner >= 0 || out.iter().all(|x| *x)) && (owner < 0 || !out[owner as usize]) {
                let unknown = ptVis(&c, POLYID_UNKNOWN, s.at(p));
                ensure!(unknown == got, "point {:?} of {:?}: the vector differs when the owner is looked up", p, s.polys);
                ensure_eq!(polyhit(&c, s.at(p)), declared, "obstacle that contains {:?} of {:?} (in halves)", p, s.polys);
            }
        }
    }
    // Pairs of points, each outside every obstacle but its own.
    let free: Vec<(Pt, i32)> = pts
        .iter()
        .flat_map(|&p| (-1..np as i32).filter(move |_| true).map(move |o| (p, o)))
        .filter(|&(p, o)| (0..np).all(|k| k as i32 == o || s.outside(p, k)))
        // A point that is outside its owner too adds little: keep every third of them.
        .filter(|&(p, o)| o < 0 || !s.outside(p, o as usize) || (p.0 + p.1).rem_euclid(3) == 0)
        .collect();
    for &(p, pp) in &free {
        for &(q, qp) in &free {
            if fam == "asym" || q >= p {
                obs.step();
                let (dp, dq) = (if pp < 0 { POLYID_NONE } else { pp }, if qp < 0 { POLYID_NONE } else { qp });
                let want = s.free(p, q, &|k| k as i32 == pp || k as i32 == qp);
                let got = directVis(s.at(p), dp, s.at(q), dq, &c);
                ensure!(got == want, "points {:?} (owner {}) and {:?} (owner {}) among {:?} (in halves): visible is {}, got {}", p, pp, q, qp, s.polys, want, got);
                if want {
                    open += 1
                } else {
                    blocked += 1
                }
            }
        }
    }
    obs.state(fp_i64(2, case.iter().copied()));
    obs.nontrivial(open > 0 && blocked > 0);
    obs.note(|| format!("{:?}: {} visible, {} not", s.polys, open, blocked));
    Ok(())
}

fn p02_enum(e: &mut Enum) {
    studded_scenes(e.pick(3, 4), 3, 5, &mut |s| {
        if e.mine() {
            e.emit("studded", &scene_case(&[e.pick(2, 1), 1], 0, s));
        }
        !e.stopped()
    });
    let singles: &[(i64, i64, usize)] = if e.thorough() { &[(4, 4, 3), (4, 4, 4), (4, 4, 5), (4, 4, 6), (4, 3, 7), (3, 3, 8), (4, 3, 8)] } else { &[(4, 4, 3), (4, 4, 4), (4, 3, 5), (3, 3, 6), (3, 3, 7), (3, 3, 8)] };
    for &(w, h, n) in singles {
        lattice_polygons(w, h, n, false, &mut |p| {
            if e.mine() {
                let p = clockwise(p.to_vec());
                e.emit("single", &scene_case(&[1, 1], 0, &[&p]));
            }
            !e.stopped()
        });
    }
    let list = if e.thorough() { shapes(4, 4, 4) } else { shapes(3, 3, 4) };
    pairs(&list, &mut |p, q| {
        if e.mine() {
            e.emit("pair", &scene_case(&[if e.thorough() { 2 } else { 1 }, 1], 0, &[p, q]));
        }
        !e.stopped()
    });
    {
        pairs(&if e.thorough() { shapes(5, 4, 3) } else { shapes(4, 3, 3) }, &mut |p, q| {
            if e.mine() {
                e.emit("pair", &scene_case(&[2, 1], 0, &[p, q]));
            }
            !e.stopped()
        });
    }
    // Triples: owners before, between and after the others.
    let three = if e.thorough() { shapes(4, 3, 3) } else { shapes(3, 3, 3) };
    let mut n = 0;
    for p in &three {
        for q in &three {
            if !disjoint(p, q) {
                continue;
            }
            for r in &three {
                if disjoint(p, r) && disjoint(q, r) {
                    n += 1;
                    if (if e.thorough() { p.len() + q.len() + r.len() >= 5 } else { n % 2 == 0 || p.len() + q.len() + r.len() > 5 }) && e.mine() {
                        e.emit("triple", &scene_case(&[2, 1], 0, &[p, q, r]));
                    }
                }
            }
        }
        if e.stopped() {
            return;
        }
    }
    for a in arrangements(e.pick(2, 4)) {
        let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
        let step = step_for(&a, e.pick(3, 2), e.pick(60, 150));
        for k in 0..WIDE as i64 {
            e.emit("arrangement", &scene_case(&[step, 1], k, &refs));
        }
    }
    let mut big: Vec<Vec<Vec<Pt>>> = vec![];
    for k in if e.thorough() { vec![4, 5, 6, 7, 8, 9] } else { vec![4, 5, 6, 7] } {
        big.extend(arrangements_of(k));
    }
    for n in if e.thorough() { vec![20, 33, 40, 50, 66, 80, 100, 130, 180, 258, 300, 514] } else { vec![20, 33, 40, 66, 100, 130, 180, 258] } {
        big.extend(large_scenes(n));
    }
    for (i, a) in big.iter().enumerate() {
        let places = wide_places(a, 2);
        let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
        let step = step_for(a, 3, e.pick(10, 24));
        e.emit("large", &scene_case(&[step, 1], places[i % places.len()], &refs));
    }
    for k in 1..WIDE as i64 {
        let few = shapes(3, 2, 3);
        pairs(&few, &mut |p, q| {
            if e.mine() {
                e.emit("asym", &scene_case(&[1, 1], k, &[p, q]));
            }
            !e.stopped()
        });
    }
    // Coordinates that are rounded.
    for k in TURNED {
        pairs(&shapes(3, 3, 3), &mut |p, q| {
            if e.mine() {
                e.emit("turned", &scene_case(&[2, 1], k, &[p, q]));
            }
            !e.stopped()
        });
        for a in arrangements(e.pick(2, 4)) {
            let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
            e.emit("turned", &scene_case(&[step_for(&a, e.pick(3, 2), e.pick(60, 150)), 1], k, &refs));
        }
    }
    // Point location among convex obstacles, disjoint or not.
    let mut round: Vec<Vec<Pt>> = shapes(3, 3, 6).into_iter().filter(|p| p.len() > 2 && convex(p)).collect();
    round.extend(shapes(4, 4, 4).into_iter().filter(|p| p.len() > 3 && convex(p)));
    for p in &round {
        for r in 0..p.len() {
            let mut q = p.clone();
            q.rotate_left(r);
            for k in 0..WIDE as i64 {
                e.emit("hit", &scene_case(&[1, 1], k, &[&q]));
            }
        }
        for q in &round {
            if e.mine() {
                e.emit("hit", &scene_case(&[1, 1], 0, &[p, q]));
            }
        }
    }
    // Rows of many obstacles, with points in each.
    for (rows, cols) in if e.thorough() { vec![(1, 40), (3, 11), (1, 270), (2, 130), (9, 15), (17, 16), (23, 23)] } else { vec![(1, 40), (3, 11), (1, 130), (2, 66), (13, 20), (17, 16)] } {
        let scene: Vec<Vec<Pt>> = (0..rows * cols)
            .map(|k| {
                let (x, y) = (4 * (k % cols), 4 * (k / cols));
                if k % 3 == 0 { clockwise(vec![(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)]) } else { clockwise(vec![(x, y), (x + 2, y), (x, y + 2)]) }
            })
            .collect();
        let refs: Vec<&[Pt]> = scene.iter().map(|p| &p[..]).collect();
        e.emit("hit", &scene_case(&[rows.min(2) * 2 - 1, 1], 0, &refs));
    }
}

// ---------------------------------------------------------------------------------------- P03

fn p03(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    let s = Scene::read(case, &mut 2, 2);
    let c = s.open();
    let n = s.pts.len();
    let sees: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| s.sees(i, j)).collect()).collect();
    let mut pts = s.grid(case[0], case[1]);
    if fam == "wall" {
        // Close to the obstacles: beside the middles of their edges and beyond their corners.
        for &(i, j) in &s.edges {
            let (a, b) = (s.pts[i], s.pts[j]);
            for m in [((a.0 + b.0) / 2, (a.1 + b.1) / 2), a] {
                pts.extend([(m.0 + 1, m.1), (m.0 - 1, m.1), (m.0, m.1 + 1), (m.0, m.1 - 1)]);
            }
        }
        pts.sort();
        pts.dedup();
    }
    pts.retain(|p| (0..s.polys.len()).all(|k| s.outside(*p, k)));
    let vis: Vec<Vec<bool>> = pts.iter().map(|p| (0..n).map(|i| s.free(*p, s.pts[i], &|_| false)).collect()).collect();
    let real: Vec<Vec<f64>> = pts.iter().map(|p| ptVis(&c, POLYID_NONE, s.at(*p))).collect();
    let mut bends = 0u64;
    let mut most = 0;
    for (a, &p) in pts.iter().enumerate() {
        // Distances from p over the vertices.
        let d = dijkstra(n + 1, n, &|i, j| {
            if i == n {
                vis[a][j].then(|| s.length(p, s.pts[j]))
            } else if j < n && sees[i][j] {
                Some(s.length(s.pts[i], s.pts[j]))
            } else {
                None
            }
        });
        for (b, &q) in pts.iter().enumerate() {
            if fam == "half" && b > a {
                continue;
            }
            obs.step();
            let dad = makePath(s.at(p), POLYID_NONE, &real[a], s.at(q), POLYID_NONE, &real[b], &c);
            ensure_eq!(dad.len(), n + 2, "number of predecessors");
            ensure!(dad[n + 1] == -1, "the origin's predecessor is {}", dad[n + 1]);
            let place = |i: usize| match i {
                _ if i == n => q,
                _ if i == n + 1 => p,
                _ => s.pts[i],
            };
            let mut walk = vec![n];
            let mut length = 0.0;
            while *walk.last().unwrap() != n + 1 {
                let i = *walk.last().unwrap();
                ensure!(dad[i] >= 0 && (dad[i] as usize) < n + 2 && walk.len() <= n + 2, "the predecessors from {:?} to {:?} do not reach the origin: {:?}", q, p, dad);
                let j = dad[i] as usize;
                let ok = if i < n && j < n { sees[i][j] } else { s.free(place(i), place(j), &|_| false) };
                ensure!(ok, "the route from {:?} to {:?} among {:?} (in halves) goes from {:?} straight to {:?}", p, q, s.polys, place(j), place(i));
                length += s.length(place(i), place(j));
                walk.push(j);
            }
            let direct = s.free(p, q, &|_| false);
            if direct {
                ensure!(walk.len() == 2, "{:?} and {:?} among {:?} (in halves) see each other, but the route has {} bends", p, q, s.polys, walk.len() - 2);
            } else {
                let best = (0..n).filter(|i| vis[b][*i]).map(|i| d[i] + s.length(s.pts[i], q)).fold(f64::INFINITY, f64::min);
                ensure!(
                    rel(length, best, 1e-9),
                    "the route from {:?} to {:?} among {:?} (in halves) is {} long instead of {}: {:?}",
                    p,
                    q,
                    s.polys,
                    length,
                    best,
                    walk
                );
                bends += 1;
                most = most.max(walk.len() - 2);
                obs.state(fp_i64(3, walk[1..walk.len() - 1].iter().map(|x| *x as i64).chain([case.len() as i64])));
            }
        }
    }
    obs.nontrivial(most > 1);
    obs.note(|| format!("{:?}: {} bent routes, with up to {} bends", s.polys, bends, most));
    Ok(())
}

fn p03_enum(e: &mut Enum) {
    studded_scenes(e.pick(3, 4), 3, 5, &mut |s| {
        if e.mine() {
            e.emit("studded", &scene_case(&[e.pick(3, 2), 1], 0, s));
        }
        !e.stopped()
    });
    let singles: &[(i64, i64, usize)] = if e.thorough() { &[(4, 4, 3), (4, 4, 4), (4, 4, 5), (4, 4, 6), (4, 3, 7), (3, 3, 8), (4, 3, 8)] } else { &[(4, 4, 3), (4, 4, 4), (4, 3, 5), (4, 3, 6), (3, 3, 7), (3, 3, 8)] };
    for &(w, h, n) in singles {
        lattice_polygons(w, h, n, false, &mut |p| {
            if e.mine() {
                let p = clockwise(p.to_vec());
                e.emit("single", &scene_case(&[if n < 6 || e.thorough() { 1 } else { 2 }, 1], 0, &[&p]));
            }
            !e.stopped()
        });
    }
    let list = if e.thorough() { shapes(4, 4, 4) } else { shapes(4, 3, 3) };
    pairs(&list, &mut |p, q| {
        if e.mine() {
            e.emit("half", &scene_case(&[e.pick(2, 2), 1], 0, &[p, q]));
        }
        !e.stopped()
    });
    if !e.thorough() {
        pairs(&shapes(3, 3, 4), &mut |p, q| {
            if e.mine() {
                e.emit("half", &scene_case(&[2, 1], 0, &[p, q]));
            }
            !e.stopped()
        });
    }
    let three = if e.thorough() { shapes(4, 3, 3) } else { shapes(3, 3, 3) };
    for (i, p) in three.iter().enumerate() {
        for (j, q) in three.iter().enumerate().skip(i + 1) {
            if !disjoint(p, q) {
                continue;
            }
            for r in &three[j + 1..] {
                if p.len() + q.len() + r.len() >= e.pick(5, 6) && disjoint(p, r) && disjoint(q, r) && e.mine() {
                    e.emit("half", &scene_case(&[2, 1], 0, &[p, q, r]));
                }
            }
        }
        if e.stopped() {
            return;
        }
    }
    for a in arrangements(e.pick(3, 5)) {
        let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
        let step = step_for(&a, 3, e.pick(50, 120));
        for k in 0..WIDE as i64 {
            e.emit("arrangement", &scene_case(&[step, 1], k, &refs));
        }
    }
    // Coordinates that are rounded.
    for k in TURNED {
        pairs(&shapes(3, 3, 3), &mut |p, q| {
            if e.mine() {
                e.emit("turned", &scene_case(&[2, 1], k, &[p, q]));
            }
            !e.stopped()
        });
        for a in arrangements(e.pick(3, 5)) {
            let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
            e.emit("turned", &scene_case(&[step_for(&a, 3, e.pick(50, 120)), 1], k, &refs));
        }
    }
    // Long walls, with points just on either side.
    for l in if e.thorough() { vec![5, 10, 16, 32, 50, 100, 200, 316, 1000, 3162, 10_000, 31_623, 100_000] } else { vec![10, 32, 100, 316, 1000, 3162, 10_000, 100_000] } {
        let bar = |x: i64, y: i64, w: i64, h: i64| clockwise(vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)]);
        let scenes: Vec<Vec<Vec<Pt>>> = vec![
            vec![bar(0, 0, l, 1)],
            vec![bar(0, 0, 1, l)],
            vec![bar(0, 0, l, 1), bar(l / 2, 3, l, 1)],
            vec![bar(0, 0, l, 1), bar(3, 3, l, 1), bar(-2, 6, l, 1)],
            vec![bar(0, 0, l, 1), bar(l + 1, -l, 1, 2 * l)],
            vec![clockwise(vec![(0, 0), (l, l), (l, l + 2), (0, 2)])],
            vec![clockwise(vec![(0, 0), (l, 1), (l, 3), (2, 2)])],
            vec![clockwise(vec![(0, 0), (l, 0), (l, 1), (1, 1), (1, 5), (l, 5), (l, 6), (0, 6)]), vec![(2, 3)]],
            vec![vec![(0, 0), (l, 0)], vec![(l / 2, 2), (l / 2, 5)]],
        ];
        for s in scenes.iter().filter(|s| sound(s)) {
            let refs: Vec<&[Pt]> = s.iter().map(|p| &p[..]).collect();
            let step = step_for(s, 3, 12);
            for k in wide_places(s, 2) {
                if e.mine() {
                    e.emit("wall", &scene_case(&[step, 2], k, &refs));
                }
            }
        }
    }
    let mut big: Vec<Vec<Vec<Pt>>> = vec![];
    for k in if e.thorough() { vec![5, 6, 7, 8, 9, 10, 12] } else { vec![5, 6, 7, 8] } {
        big.extend(arrangements_of(k));
    }
    for n in if e.thorough() { vec![20, 33, 40, 50, 66, 80, 100, 130, 180, 258, 300] } else { vec![20, 33, 40, 66, 100, 130, 180, 258] } {
        big.extend(large_scenes(n));
    }
    for (i, a) in big.iter().enumerate() {
        let places = wide_places(a, 2);
        let refs: Vec<&[Pt]> = a.iter().map(|p| &p[..]).collect();
        let step = step_for(a, 3, e.pick(14, 40));
        e.emit("large", &scene_case(&[step, 1], places[i % places.len()], &refs));
    }
}

// ---------------------------------------------------------------------------------------- P04

/// Weights by index: zero means no edge.
fn weight(k: i64, table: i64) -> f64 {
    match table {
        0 => k as f64,
        1 => [0.0, 0.25, 0.5, 1.75, 1048576.0][k as usize],
        2 => [0.0, 1e8, 3e8, 0.125, 7.0][k as usize],
        3 => [0.0, 1e-9, 3e-9, 9.5367431640625e-7, 1e-300][k as usize],
        4 => [0.0, 16777216.0, 16777217.0, 1.0, 2.0][k as usize],
        5 => [0.0, 5e8, 500000000.25, 1e-7, 3.0][k as usize],
        // Patterns over many vertices.
        6 => k as f64 * 9.5367431640625e-7,
        // Small integers times a power of two.
        100.. => k as f64 * 2f64.powi(table as i32 - 200),
        // Small differences on top of one.
        10.. => if k == 0 { 0.0 } else { 1.0 + (k - 1) as f64 * 2f64.powi(-(table as i32)) },
        _ => k as f64 * 524288.0 + 1.0 / k.max(1) as f64 * (k > 0) as i64 as f64,
    }
}

fn p04(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    // vertices, weight table, then the lower triangle row by row
    let (v, table) = (case[0] as usize, case[1]);
    let mut w = vec![vec![0.0; v]; v];
    let mut k = 2;
    for i in 0..v {
        for j in 0..i {
            w[i][j] = weight(case[k], table);
            w[j][i] = w[i][j];
            k += 1;
        }
    }
    // What lies above the diagonal misleads; what is on it must not matter.
    let extra = if fam == "spare" { 2 } else { 0 };
    let mut m: Array2<f64> = Array2::new(v, v, extra);
    for i in 0..v {
        for j in 0..v + extra {
            m[(i, j)] = if i > j {
                w[i][j]
            } else if i == j {
                0.0
            } else {
                0.0625
            };
        }
    }
    let mut reached = 0;
    // Of many vertices, a few roots and targets.
    let some: Vec<usize> = if fam == "large" { vec![0, 1, v / 3, v - 2, v - 1] } else { (0..v).collect() };
    // Sums of integers times a power of two are exact.
    let slack = if table == 0 || table >= 10 { 0.0 } else { 1e-12 };
    let near = |a: f64, b: f64| (a - b).abs() <= slack * a.abs().max(b.abs());
    for &root in &some {
        let d = dijkstra(v, root, &|i, j| (w[i][j] != 0.0).then_some(w[i][j]));
        for &target in &some {
            obs.step();
            let dad = shortestPath(root as i32, target as i32, v, &m);
            let above = Cell::new(None);
            let generic = shortestPathGeneric(root as i32, target as i32, v, |i, j| {
                if i < j || i >= v {
                    above.set(Some((i, j)));
                }
                w[i][j]
            });
            ensure!(above.get().is_none(), "entry {:?} was consulted", above.get());
            for (dad, what) in [(&dad, "matrix"), (&generic, "function")] {
                ensure_eq!(dad.len(), v, "number of predecessors");
                ensure!(dad[root] == -1, "the root's predecessor is {}", dad[root]);
                let mut at = target;
                let mut len = 0.0;
                let mut hops = 0;
                while at != root && dad[at] >= 0 && hops <= v {
                    let p = dad[at] as usize;
                    ensure!(p < v, "predecessor {} of {}", p, at);
                    if d[target].is_finite() {
                        ensure!(w[at][p] != 0.0, "{} has predecessor {} without an edge ({})", at, p, what);
                    }
                    len += w[at][p];
                    at = p;
                    hops += 1;
                }
                ensure!(hops <= v, "the predecessors run in a circle");
                if d[target].is_finite() {
                    ensure!(at == root, "{} can be reached from {} but the predecessors {:?} do not say how ({})", target, root, dad, what);
                    ensure!(near(len, d[target]), "from {} to {}: {} long instead of {} ({}, weights {:?})", root, target, len, d[target], what, if v < 9 { &w[..] } else { &[] });
                    reached += (hops > 1) as usize;
                } else {
                    ensure!(at != root, "{} cannot be reached from {} but the predecessors {:?} lead there ({})", target, root, dad, what);
                }
            }
            obs.state(fp_i64(4, dad.iter().map(|x| *x as i64).chain([root as i64, target as i64])));
        }
    }
    obs.nontrivial(reached > 0);
    obs.note(|| format!("{:?}: {} paths of more than one edge", case, reached));
    Ok(())
}

fn p04_enum(e: &mut Enum) {
    let plan: &[(i64, i64)] = if e.thorough() { &[(1, 2), (2, 5), (3, 5), (4, 5), (5, 4), (6, 3), (7, 2)] } else { &[(1, 2), (2, 5), (3, 5), (4, 5), (5, 3), (6, 2)] };
    for &(v, k) in plan {
        for table in 0..6 {
            if v == 6 && (table == 5 || table >= 2 && e.thorough()) || v == 7 && table != 0 {
                continue;
            }
            sequences(k, (v * (v - 1) / 2) as usize, &mut |s| {
                if e.mine() {
                    let mut c = vec![v, table];
                    c.extend(s);
                    e.emit(if table == 1 { "spare" } else { "dense" }, &c);
                }
                !e.stopped()
            });
        }
    }
    // Integers times powers of two, and tiny differences.
    for table in [20, 30, 40, 48, 200 - 90, 200 - 60, 200 - 40, 200 - 30, 200 - 20, 200 - 10, 210, 220, 228, 233, 245, 300, 1100] {
        for (v, k) in [(3, 5), (4, 4)] {
            sequences(k, v * (v - 1) / 2, &mut |s| {
                if e.mine() {
                    let mut c = vec![v as i64, table];
                    c.extend(s);
                    e.emit("dense", &c);
                }
                !e.stopped()
            });
        }
        for v in [5, 6, 7, 8, 12, 20, 40] {
            for kind in 0..5 {
                for a in 1..=e.pick(6, 10) {
                    if e.mine() {
                        e.emit("dense", &p04_pattern(v, table, kind, a, 5 - a));
                    }
                }
            }
        }
    }
    // Larger: cycles, paths, grids and complete graphs under weights that follow a pattern.
    for v in 6..=e.pick(20i64, 32) {
        for kind in 0..5 {
            for a in 1..=e.pick(9i64, 12) {
                for b in 0..e.pick(9i64, 12) {
                    let table = if (a + b) % 3 == 0 { 0 } else { 5 + (a + b) % 3 };
                    e.emit("dense", &p04_pattern(v, table, kind, a, b));
                }
            }
        }
    }
    for v in if e.thorough() { (26..70).chain([96, 97, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 400, 512, 513]).collect() } else { vec![33, 40, 64, 65, 100, 128, 129, 130, 200, 257, 258, 300] } {
        for kind in 0..5 {
            for a in 1..=e.pick(4i64, 6) {
                if e.mine() {
                    e.emit("large", &p04_pattern(v, if a == 1 { 0 } else { 5 + a.min(2) }, kind, a, 7 - a));
                }
            }
        }
    }
}

/// Cycles, bands, ladders, complete graphs, cliques.
fn p04_pattern(v: i64, table: i64, kind: i64, a: i64, b: i64) -> Vec<i64> {
    let mut c = vec![v, table];
    for i in 0..v {
        for j in 0..i {
            let edge = match kind {
                0 => i - j == 1 || i - j == v - 1,
                1 => i - j <= 3,
                2 => i - j == 1 && i % 4 != 0 || i - j == 4,
                3 => true,
                _ => i % 3 == j % 3,
            };
            c.push(if edge { 1 + (a * i * i + b * j + i * j) % 11 } else { 0 });
        }
    }
    c
}

// ---------------------------------------------------------------------------------------- P05

fn p05(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    // grid step in halves, margin, placement, polygon (as handed over: either direction)
    let turned = fam == "turned";
    let hair = fam == "nudged";
    let at = |p: Pt| match fam {
        "turned" => turn_at(case[2], p, 1),
        "nudged" => Vec2 { x: p.0 as f64 / NUDGE as f64, y: p.1 as f64 / NUDGE as f64 },
        _ => PLACES[case[2] as usize].at(p, 2),
    };
    let mut i = 3;
    let mut given: Vec<Pt> = read_poly(case, &mut i).into_iter().map(|p| (2 * p.0, 2 * p.1)).collect();
    if hair {
        // By the least amount that doubles can tell.
        let by = read_poly(case, &mut i);
        given = given.iter().zip(by).map(|(p, d)| nudged((p.0 / 2, p.1 / 2), d)).collect();
    }
    let real = Ppoly_t { ps: given.iter().map(|p| at(*p)).collect() };
    // Points given twice in a row and points in the middle of an edge change nothing.
    let mut poly = given;
    while let Some(i) = (0..poly.len()).find(|&i| orient(poly[(i + poly.len() - 1) % poly.len()], poly[i], poly[(i + 1) % poly.len()]) == 0) {
        poly.remove(i);
    }
    let n = poly.len();
    let mut all = vec![vec![f64::INFINITY; n]; n];
    for i in 0..n {
        all[i][i] = 0.0;
        for j in 0..i {
            if segment_in_polygon(poly[i], poly[j], &poly) {
                all[i][j] = dist(poly[i], poly[j]);
                all[j][i] = all[i][j];
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                let x = all[i][k] + all[k][j];
                if x < all[i][j] {
                    all[i][j] = x;
                }
            }
        }
    }
    let mut pts = vec![];
    let (x0, x1) = (poly.iter().map(|p| p.0).min().unwrap() - 2 * case[1], poly.iter().map(|p| p.0).max().unwrap() + 2 * case[1]);
    let (y0, y1) = (poly.iter().map(|p| p.1).min().unwrap() - 2 * case[1], poly.iter().map(|p| p.1).max().unwrap() + 2 * case[1]);
    let mut x = x0;
    while x <= x1 && !hair {
        let mut y = y0;
        while y <= y1 {
            pts.push((x, y));
            y += case[0];
        }
        x += case[0];
    }
    if hair {
        for k in 0..12 {
            let p = (k % 4, k / 4);
            pts.extend([nudged(p, (0, 0)), nudged(p, around(case[0] + k))]);
        }
    }
    if fam == "family" || turned || hair {
        for i in 0..n {
            let (a, b) = (poly[i], poly[(i + 1) % n]);
            pts.push(a);
            pts.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
        }
        pts.sort();
        pts.dedup();
    }
    if fam == "large" {
        let (most, inner) = if n < 100 { (9, 7) } else { (6, 5) };
        for i in (0..n).step_by((n / most).max(1)) {
            let (a, b) = (poly[i], poly[(i + 1) % n]);
            pts.push(a);
            pts.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
        }
        // A little inside the corners.
        for i in (1..n).step_by((n / inner).max(1)) {
            let (a, b, c) = (poly[i - 1], poly[i], poly[(i + 1) % n]);
            pts.push((b.0 + (a.0 + c.0 - 2 * b.0).signum(), b.1 + (a.1 + c.1 - 2 * b.1).signum()));
        }
        pts.sort();
        pts.dedup();
    }
    if turned {
        // Of the boundary, only the vertices stay where they are.
        pts.retain(|p| locate(*p, &poly) != 0 || poly.contains(p));
    }
    let inside: Vec<bool> = pts.iter().map(|p| locate(*p, &poly) >= 0).collect();
    let sees: Vec<Vec<bool>> = pts.iter().enumerate().map(|(k, p)| (0..n).map(|i| inside[k] && segment_in_polygon(*p, poly[i], &poly)).collect()).collect();
    let back = |v: &V| -> Option<Pt> { pts.iter().chain(&poly).find(|p| at(**p) == *v).copied() };
    let mut most = 0;
    for (a, &p) in pts.iter().enumerate() {
        // Distances from p to every vertex.
        let to: Vec<f64> = (0..n)
            .map(|v| (0..n).filter(|u| sees[a][*u]).map(|u| dist(p, poly[u]) + all[u][v]).fold(f64::INFINITY, f64::min))
            .collect();
        // One point outside says as much as another: try the source against a few only.
        for (b, &q) in pts.iter().enumerate() {
            if !inside[a] && (a + b) % 3 != 0 {
                continue;
            }
            obs.step();
            let r = Pshortestpath(&real, &[at(p), at(q)]);
            let path = match r {
                Err(ShortestPathError::SourcePointNotInAnyTriangle) => {
                    ensure!(!inside[a], "{:?} is in {:?} (in halves), but is reported as a bad source", p, poly);
                    continue;
                }
                Err(ShortestPathError::DestPointNotInAnyTriangle) => {
                    ensure!(inside[a], "{:?} is not in {:?} (in halves), but only the destination is reported", p, poly);
                    ensure!(!inside[b], "{:?} is in {:?} (in halves), but is reported as a bad destination", q, poly);
                    continue;
                }
                Ok(x) => x.ps,
            };
            ensure!(inside[a], "{:?} is not in {:?} (in halves), but is accepted as a source", p, poly);
            ensure!(inside[b], "{:?} is not in {:?} (in halves), but is accepted as a destination", q, poly);
            ensure!(path.len() >= 2, "a path of {} points", path.len());
            ensure!(path[0] == at(p), "the path from {:?} starts at {:?}", p, path[0]);
            ensure!(path[path.len() - 1] == at(q), "the path to {:?} ends at {:?}", q, path[path.len() - 1]);
            let mut len = 0.0;
            let mut ips = vec![];
            for v in &path {
                match back(v) {
                    Some(i) => ips.push(i),
                    None => return Err(format!("the path from {:?} to {:?} in {:?} (in halves) bends at {:?}", p, q, poly, v)),
                }
            }
            for w in ips.windows(2) {
                ensure!(segment_in_polygon(w[0], w[1], &poly), "the path from {:?} to {:?} leaves {:?} (in halves) between {:?} and {:?}", p, q, poly, w[0], w[1]);
                len += dist(w[0], w[1]);
            }
            let best = if segment_in_polygon(p, q, &poly) {
                dist(p, q)
            } else {
                (0..n).filter(|v| sees[b][*v]).map(|v| to[v] + dist(poly[v], q)).fold(f64::INFINITY, f64::min)
            };
            ensure!(
                (len - best).abs() <= 1e-9 * best,
                "the path from {:?} to {:?} in {:?} (in halves) is {} long instead of {}: {:?}",
                p,
                q,
                poly,
                len,
                best,
                ips
            );
            most = most.max(path.len() - 2);
            if path.len() > 2 {
                obs.state(fp_i64(5, ips[1..ips.len() - 1].iter().flat_map(|p| [p.0, p.1])));
            }
        }
    }
    obs.nontrivial(most > 0);
    obs.note(|| format!("{:?} (in halves): {} points, paths with up to {} bends", poly, pts.len(), most));
    Ok(())
}

/// Ways to give the same polygon, three times as large: every point or edge in turn, and all at
/// once, with points repeated or added on the edges, from every start.
fn spellings(p: &[Pt], k: usize) -> Vec<Vec<Pt>> {
    let n = p.len();
    let p: Vec<Pt> = p.iter().map(|p| (3 * p.0, 3 * p.1)).collect();
    let mut all: Vec<Vec<Pt>> = vec![];
    for times in 2..4 {
        for i in 0..=n {
            all.push(p.iter().enumerate().flat_map(|(j, q)| vec![*q; if i == n || i == j { times } else { 1 }]).collect());
        }
    }
    let on = |i: usize, part: i64| {
        let (a, b) = (p[i], p[(i + 1) % n]);
        (a.0 + (b.0 - a.0) / 3 * part, a.1 + (b.1 - a.1) / 3 * part)
    };
    for parts in [&[1][..], &[2], &[1, 2], &[1, 1, 2]] {
        for i in 0..=n {
            all.push((0..n).flat_map(|j| [p[j]].into_iter().chain(parts.iter().filter(|_| i == n || i == j).map(|x| on(j, *x)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect());
        }
    }
    let mut result = vec![];
    for (i, q) in all.iter().enumerate() {
        for r in 0..q.len() {
            let mut q = q.clone();
            q.rotate_left(r);
            if (i + r + k) % 2 == 1 {
                q.reverse();
            }
            result.push(q);
        }
    }
    result
}

fn p05_enum(e: &mut Enum) {
    let case = |step: i64, margin: i64, place: i64, p: &[Pt]| {
        let mut c = vec![step, margin, place];
        push_poly(&mut c, p);
        c
    };
    // Every start and direction of every polygon with few vertices.
    let plan: &[(i64, i64, usize, bool, i64)] = if e.thorough() {
        &[(4, 4, 3, true, 1), (4, 4, 4, true, 1), (4, 3, 5, true, 1), (4, 4, 5, true, 2), (3, 3, 6, true, 1), (3, 3, 7, true, 1), (3, 3, 8, true, 1), (4, 4, 6, false, 2), (4, 3, 6, true, 2), (4, 3, 7, false, 2), (4, 3, 8, false, 2)]
    } else {
        &[(3, 3, 3, true, 1), (4, 4, 3, false, 1), (3, 3, 4, true, 1), (3, 3, 5, true, 1), (3, 3, 6, true, 2), (3, 3, 7, true, 2), (3, 3, 8, true, 2), (4, 3, 5, false, 1), (4, 3, 6, false, 2)]
    };
    for &(w, h, n, all, step) in plan {
        lattice_polygons(w, h, n, all, &mut |p| {
            if e.mine() {
                e.emit("lattice", &case(step, 1, 0, p));
            }
            !e.stopped()
        });
    }
    // Points a hair beside a line.
    for &(n, m) in if e.thorough() { &[(3, 5), (4, 4), (4, 5)][..] } else { &[(3, 5), (4, 4)][..] } {
        let mut k = 0;
        slivers(n, m, &mut |p, d| {
            k += 1;
            if e.mine() {
                let mut c = case(k, 0, 0, p);
                push_poly(&mut c, d);
                e.emit("nudged", &c);
            }
        });
    }
    // Points a hair beside the lattice.
    for &(w, h, n, most) in if e.thorough() { &[(3, 3, 3, 3), (3, 3, 4, 3), (4, 3, 4, 2), (3, 3, 5, 2), (4, 3, 5, 1), (3, 3, 6, 2), (4, 3, 6, 0), (3, 3, 8, 1), (4, 4, 5, 0)][..] } else { &[(3, 3, 3, 3), (3, 3, 4, 2), (4, 3, 4, 1), (3, 3, 5, 1), (4, 3, 5, 0), (4, 3, 6, 0)][..] } {
        let mut k = 0;
        lattice_polygons(w, h, n, false, &mut |p| {
            nudges(n, most, &mut |d| {
                k += 1;
                if e.mine() {
                    let mut c = case(k, 0, 0, p);
                    push_poly(&mut c, d);
                    e.emit("nudged", &c);
                }
            });
            !e.stopped()
        });
    }
    // Coordinates that are rounded.
    for &(w, h, n, all, step) in &[(3, 3, 3, true, 1), (3, 3, 4, true, 1), (3, 3, 5, false, 1), (3, 3, 6, false, 1), (3, 3, 7, false, 1), (3, 3, 8, false, 1), (4, 3, 5, false, 1), (4, 3, 6, false, 2)] {
        lattice_polygons(w, h, n, all, &mut |p| {
            for k in 0..TURNS.len() as i64 {
                if e.mine() {
                    e.emit("turned", &case(step, 1, k, p));
                }
            }
            !e.stopped()
        });
    }
    // The same polygon given with points repeated and with points in the middle of its edges.
    for &(w, h, n, all) in if e.thorough() { &[(3, 3, 3, true), (3, 3, 4, true), (3, 3, 5, true), (3, 3, 6, true), (4, 4, 4, false), (4, 3, 5, false)][..] } else { &[(3, 3, 3, true), (3, 3, 4, true), (3, 3, 5, false), (4, 3, 5, false)][..] } {
        let mut k = 0;
        lattice_polygons(w, h, n, all, &mut |p| {
            k += 1;
            for q in spellings(p, k) {
                if e.mine() {
                    e.emit("spelling", &case(if e.thorough() { 3 } else { 6 }, 1, 0, &q));
                }
            }
            !e.stopped()
        });
    }
    radial(e.pick(2, 3), &mut |p| e.emit("radial", &case(4, 1, 0, p)));
    let most = e.pick(40, 64);
    for p in families(e.pick(14, 26)) {
        for r in 0..p.len() {
            let mut q = p.clone();
            q.rotate_left(r);
            let k = (r % PLACES.len()) as i64;
            let step = step_for(&[p.clone()], 5, most);
            e.emit("family", &case(step, 1, k, &q));
            q.reverse();
            e.emit("family", &case(step, 1, 0, &q));
            for k in 0..TURNS.len() {
                if e.thorough() || (r + k) % 3 == 0 {
                    e.emit("turned", &case(step, 1, k as i64, &q));
                }
            }
            if e.thorough() {
                for k in 0..PLACES.len() as i64 {
                    e.emit("family", &case(step, 1, k, &q));
                }
            }
        }
    }
    for (i, p) in families(e.pick(9, 16)).into_iter().enumerate() {
        let all = spellings(&p, i);
        let step = step_for(&[all[0].clone()], 3, e.pick(16, 30));
        for q in all.iter().skip(i).step_by(all.len() / e.pick(20, 60) + 1) {
            if e.mine() {
                e.emit("spelling", &case(step, 1, 0, q));
            }
        }
    }
    // Hills that a tower behind them lets the way leave at every vertex.
    for n in if e.thorough() { vec![3, 6, 9, 10, 12, 14, 20, 33] } else { vec![4, 9, 12, 20] } {
        for (i, p) in towers(n).into_iter().enumerate() {
            let places = places_for(&[p.clone()], 2);
            let step = step_for(&[p.clone()], 3, e.pick(12, 30));
            for (j, r) in [0, n as usize / 2, p.len() - 1].into_iter().enumerate() {
                let mut q = p.clone();
                q.rotate_left(r);
                if j == 1 {
                    q.reverse();
                }
                if e.mine() {
                    e.emit(if n < 11 { "family" } else { "large" }, &case(step, 1, places[(i + j) % places.len()], &q));
                }
            }
        }
    }
    for n in if e.thorough() { vec![17, 20, 25, 33, 40, 66, 100, 130, 200] } else { vec![20, 33, 66, 130] } {
        for (i, p) in large(n).into_iter().enumerate() {
            let places = places_for(&[p.clone()], 2);
            let step = step_for(&[p.clone()], 3, if n < 100 { e.pick(25, 60) } else { e.pick(14, 30) });
            for (j, r) in [0, n as usize / 3, p.len() - 1].into_iter().enumerate() {
                let mut q = p.clone();
                q.rotate_left(r % p.len());
                if (i + j) % 2 == 1 {
                    q.reverse();
                }
                if e.mine() {
                    e.emit("large", &case(step, 1, places[(i + j) % places.len()], &q));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- P06

fn bez(p: &[V], t: f64) -> V {
    let s = 1.0 - t;
    p[0] * (s * s * s) + p[1] * (3.0 * s * s * t) + p[2] * (3.0 * s * t * t) + p[3] * (t * t * t)
}
fn norm(v: V) -> f64 {
    v.x.hypot(v.y)
}
fn unit(v: V) -> V {
    v / norm(v)
}
fn near(a: V, b: V, tol: f64) -> bool {
    norm(a - b) <= tol
}

const DIRS: &[(f64, f64)] = &[(0.0, 0.0), (1.0, 0.0), (0.0, 2.0), (-1.0, 0.0), (0.0, -3.0), (1.0, 1.0), (-5.0, 2.0), (3.0, -4.0), (-0.25, -0.5)];

/// Is the segment a straight line from its first to its last point?
fn is_straight(s: &[V]) -> bool {
    near(s[1], s[0], 0.0) && near(s[2], s[3], 0.0)
}

/// A point of the curve that crosses ab away from the ends of both, if sampling finds one.
fn crossing(s: &[V], a: V, b: V) -> Option<V> {
    let len = norm(b - a);
    if len < 0.2 {
        return None;
    }
    let u = (b - a) / len;
    let side = |p: V| u.x * (p.y - a.y) - u.y * (p.x - a.x);
    let along = |p: V| u.x * (p.x - a.x) + u.y * (p.y - a.y);
    let n = 200;
    let mut t0 = 0.0;
    let mut d0 = side(bez(s, t0));
    for i in 1..=n {
        let t1 = i as f64 / n as f64;
        let d1 = side(bez(s, t1));
        if d0 * d1 < 0.0 && d0.abs().max(d1.abs()) > 1e-6 {
            let (mut lo, mut hi, dl) = (t0, t1, d0);
            for _ in 0..60 {
                let m = 0.5 * (lo + hi);
                if side(bez(s, m)) * dl > 0.0 {
                    lo = m
                } else {
                    hi = m
                }
            }
            let p = bez(s, lo);
            let x = along(p);
            if x > 0.05 && x < len - 0.05 && lo > 1e-4 && lo < 1.0 - 1e-4 && norm(p - s[0]) > 1e-3 && norm(p - s[3]) > 1e-3 {
                return Some(p);
            }
        }
        t0 = t1;
        d0 = d1;
    }
    None
}

fn p06(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    // placement, directions at both ends, route, barriers (pairs of points, in one list)
    let ev = [DIRS[case[1] as usize], DIRS[case[2] as usize]];
    let mut i = 3;
    let route: Vec<V> = read_poly(case, &mut i).iter().map(|p| placed(case[0], *p, 1)).collect();
    let ends: Vec<V> = read_poly(case, &mut i).iter().map(|p| placed(case[0], *p, 1)).collect();
    let edges: Vec<Pedge_t> = ends.chunks(2).map(|c| Pedge_t { a: c[0], b: c[1] }).collect();
    let mut evs: Vec<V> = ev.iter().map(|e| V { x: e.0, y: e.1 }).collect();
    // Whatever the output held before, with room to spare or without, the curve replaces it.
    let mut out = Ppolyline_t::default();
    match (case[1] + 2 * case[2] + case.len() as i64) % 5 {
        1 => {
            out.ps.reserve(1000);
            out.ps.push(V { x: 3.0, y: -4.0 });
        }
        2 => out.ps = vec![V { x: 5.0, y: 6.0 }; 2],
        3 => out.ps = vec![V { x: 7.0, y: 8.0 }; 300],
        4 => out.ps = route.clone(),
        _ => {}
    }
    let r = Proutespline(&edges, &Ppolyline_t { ps: route.clone() }, &mut evs[..], &mut out);
    ensure!(r.is_ok(), "routing fails");
    let ps = out.ps;
    let size = route.iter().map(|p| p.x.abs() + p.y.abs()).fold(1.0, f64::max);
    ensure!(ps.len() >= 4 && ps.len() % 3 == 1, "{} points are no chain of cubic segments", ps.len());
    ensure!(ps.iter().all(|p| p.x.is_finite() && p.y.is_finite()), "a coordinate is not finite: {:?}", ps);
    let segs: Vec<&[V]> = (0..ps.len() / 3).map(|k| &ps[3 * k..3 * k + 4]).collect();
    let tol = 1e-9 * size;
    ensure!(near(ps[0], route[0], tol), "the spline starts at {:?}", ps[0]);
    ensure!(near(ps[ps.len() - 1], route[route.len() - 1], tol), "the spline ends at {:?}", ps[ps.len() - 1]);
    // The joints, as route points in order.
    let mut at = vec![0usize];
    for s in &segs[..segs.len() - 1] {
        let from = at[at.len() - 1] + 1;
        match (from..route.len()).find(|k| near(route[*k], s[3], tol)) {
            Some(k) => at.push(k),
            None => return Err(format!("the joint {:?} is not a later point of the route {:?}", s[3], route)),
        }
    }
    at.push(route.len() - 1);
    ensure!(at.windows(2).all(|w| w[0] < w[1]), "the joints are not in route order: {:?}", at);
    if fam == "repeats" {
        obs.step();
        obs.nontrivial(segs.len() > 1);
        return Ok(());
    }
    let dir = |v: V| if norm(v) > 0.0 { Some(unit(v)) } else { None };
    let same = |a: V, b: V, scale: f64| near(a, b, 1e-6 + 1e-12 * size / scale);
    let mut bent = 0;
    for (k, s) in segs.iter().enumerate() {
        obs.step();
        let straight = is_straight(s);
        bent += !straight as usize;
        // Leaving and arriving.
        for (end, v, want) in [(k == 0, s[1] - s[0], ev[0]), (k + 1 == segs.len(), s[3] - s[2], ev[1])] {
            if end {
                match (dir(v), dir(V { x: want.0, y: want.1 })) {
                    (Some(d), Some(w)) => ensure!(same(d, w, norm(v)), "the end direction is {:?} instead of {:?}: segment {:?}", d, w, s),
                    (None, Some(_)) => ensure!(straight && !edges.is_empty(), "segment {:?} has no direction at the end, with nothing in its way", s),
                    _ => {}
                }
            }
        }
        if k > 0 {
            let (u, v) = (segs[k - 1][3] - segs[k - 1][2], s[1] - s[0]);
            if let (Some(d), Some(w)) = (dir(u), dir(v)) {
                ensure!(same(d, w, norm(u).min(norm(v))), "the tangents at the joint {:?} are {:?} and {:?}", s[0], d, w);
                // Where the route turns, the tangent goes on with it.
                let (x, y) = (unit(route[at[k]] - route[at[k] - 1]), unit(route[at[k] + 1] - route[at[k]]));
                if norm(x + y) > 1e-3 {
                    ensure!(d.x * (x + y).x + d.y * (x + y).y > 0.0, "the tangent {:?} at the joint {:?} points back", d, s[0]);
                }
            } else {
                // One side has no tangent: that side must be a straight line, with barriers about.
                let r = dir(route[at[k]] - route[at[k] - 1]).zip(dir(route[at[k] + 1] - route[at[k]]));
                let turns_back = r.map(|(x, y)| norm(x + y) < 1e-3).unwrap_or(true);
                ensure!(
                    turns_back || (!edges.is_empty() && (is_straight(segs[k - 1]) || straight)),
                    "there is no tangent at the joint {:?}, with nothing in its way",
                    s[0]
                );
            }
        }
        let adjacent = at[k + 1] - at[k] == 1;
        if !(straight && adjacent) {
            for e in &edges {
                if let Some(p) = crossing(s, e.a, e.b) {
                    return Err(format!("segment {:?} crosses the barrier {:?} at {:?}", s, e, p));
                }
            }
        }
    }
    obs.state(fp_i64(6, at.iter().map(|x| *x as i64).chain(case[..3].iter().copied()).chain([bent as i64])));
    obs.nontrivial(bent > 0 && segs.len() > 1);
    obs.note(|| format!("route {:?}, {} barriers: joints at {:?}, {} bent", route, edges.len(), at, bent));
    Ok(())
}

fn p06_case(place: i64, e0: i64, e1: i64, route: &[Pt], barriers: &[(Pt, Pt)]) -> Vec<i64> {
    let mut c = vec![place, e0, e1];
    push_poly(&mut c, route);
    let ends: Vec<Pt> = barriers.iter().flat_map(|b| [b.0, b.1]).collect();
    push_poly(&mut c, &ends);
    c
}

fn p06_enum(e: &mut Enum) {
    let nd = DIRS.len() as i64;
    // Free routes: every route of up to 4 points on a lattice, every pair of directions.
    let grid: Vec<Pt> = (0..9).map(|k| (10 * (k % 3), 10 * (k / 3))).collect();
    for n in 2..=5 {
        sequences(9, n, &mut |s| {
            if s.iter().enumerate().any(|(i, x)| s[..i].contains(x)) {
                return true;
            }
            let r: Vec<Pt> = s.iter().map(|k| grid[*k as usize]).collect();
            let step = if n >= 4 { e.pick(4, 2) } else { 1 };
            for d0 in (0..nd).step_by(step) {
                for d1 in (0..nd).step_by(step) {
                    e.emit("free", &p06_case(0, d0, d1, &r, &[]));
                }
            }
            !e.stopped()
        });
    }
    for k in 1..NEAR as i64 {
        for d0 in 0..nd {
            for d1 in 0..nd {
                e.emit("free", &p06_case(k, d0, d1, &[(0, 0), (10, 0), (10, 10), (30, 10), (20, -10)], &[]));
                e.emit("free", &p06_case(k, d0, d1, &[(0, 0), (10, 3), (20, 0), (30, 3), (40, 0), (50, 3)], &[(((5, -10)), (5, 1)), ((15, 3), (15, 20))]));
            }
        }
    }
    // One barrier anywhere, two in pairs.
    let fine: Vec<Pt> = (0..30).map(|k| (-3 + 8 * (k % 6), -7 + 8 * (k / 6))).collect();
    let routes: &[&[Pt]] = &[
        &[(0, 0), (30, 0)],
        &[(0, 0), (20, 10), (30, 0)],
        &[(0, 0), (10, 20), (20, 0), (30, 20)],
        &[(0, 0), (0, 20), (20, 20), (20, 0)],
        &[(0, 20), (10, 10), (20, 5), (30, 4)],
        &[(0, 0), (10, 0), (20, 0), (30, 10)],
    ];
    let mut all = vec![];
    for (i, a) in fine.iter().enumerate() {
        for b in &fine[i + 1..] {
            all.push((*a, *b));
        }
    }
    let dstep = 1;
    for r in routes {
        for b in &all {
            for d0 in (0..nd).step_by(dstep) {
                for d1 in (0..nd).step_by(dstep) {
                    if e.mine() {
                        e.emit("barrier", &p06_case(0, d0, d1, r, &[*b]));
                    }
                }
            }
        }
        if e.stopped() {
            return;
        }
        for b in &all {
            for k in TURNED {
                for (d0, d1) in [(1, 1), (5, 7), (2, 3), (0, 1)] {
                    if e.mine() {
                        e.emit("turned", &p06_case(k, d0, d1, r, &[*b]));
                    }
                }
            }
        }
        let few: Vec<(Pt, Pt)> = all.iter().copied().enumerate().filter(|(i, _)| i % e.pick(3, 1) == 0).map(|x| x.1).collect();
        for (i, b) in few.iter().enumerate() {
            for c in &few[i + 1..] {
                for (d0, d1) in [(1, 1), (5, 7), (2, 3), (0, 1)] {
                    if e.mine() {
                        e.emit("barriers", &p06_case(0, d0, d1, r, &[*b, *c]));
                    }
                }
            }
        }
    }
    // Geodesics inside polygons, with the polygon's edges as barriers.
    for p in families(e.pick(20, 33)) {
        let p: Vec<Pt> = p.iter().map(|q| (q.0 * 6, q.1 * 6)).collect();
        let n = p.len();
        let barriers = edges_of(&p);
        let (x0, x1) = (p.iter().map(|q| q.0).min().unwrap(), p.iter().map(|q| q.0).max().unwrap());
        let (y0, y1) = (p.iter().map(|q| q.1).min().unwrap(), p.iter().map(|q| q.1).max().unwrap());
        let mut pts = vec![];
        for i in 1..8 {
            for j in 1..8 {
                let q = (x0 + (x1 - x0) * i / 8, y0 + (y1 - y0) * j / 8);
                if locate(q, &p) > 0 {
                    pts.push(q);
                }
            }
        }
        for (a, &s) in pts.iter().enumerate() {
            for &t in &pts[a + 1..] {
                // Shortest route over the visible pairs, with the last vertex before each.
                let at = |k: usize| if k < n { p[k] } else if k == n { s } else { t };
                let route = || -> Vec<Pt> {
                    let r = route_in(n + 2, n, n + 1, &|i, j| segment_in_polygon(at(i), at(j), &p).then(|| dist(at(i), at(j))));
                    r.iter().map(|k| at(*k)).collect()
                };
                if e.mine() {
                    let r = route();
                    let k = (r.len() as i64 + a as i64) % nd;
                    e.emit("polygon", &p06_case(0, k, (k * 5 + 2) % nd, &r, &barriers));
                }
                if e.mine() {
                    let r = route();
                    let k = (r.len() as i64 + a as i64) % nd;
                    e.emit("turned", &p06_case(TURNED[k as usize % TURNED.len()], k, (k * 5 + 2) % nd, &r, &barriers));
                }
            }
        }
        if e.stopped() {
            return;
        }
    }
    // Barriers that are almost upright or level: coordinates in 1/32.
    for r in routes.iter().filter(|r| r.len() < 4) {
        let r: Vec<Pt> = r.iter().map(|p| (32 * p.0, 32 * p.1)).collect();
        for d in [0, 1, -1, 3, -8, 15, -20] {
            for at in (1..30).step_by(e.pick(2, 1)) {
                for (lo, hi) in [(-40, 60), (-12, -1), (-7, 4), (2, 14), (5, 30), (1, 2)] {
                    for flat in [false, true] {
                        let at = if flat { at - 10 } else { at };
                        let (mut a, mut b) = ((32 * at + 16, 32 * lo), (32 * at + 16 + d, 32 * hi));
                        if flat {
                            a = (a.1, a.0);
                            b = (b.1, b.0);
                        }
                        for (a, b) in [(a, b), (b, a)] {
                            for d0 in (0..nd).step_by(dstep) {
                                for d1 in (0..nd).step_by(dstep) {
                                    if e.mine() {
                                        e.emit("upright", &p06_case(3, d0, d1, &r, &[(a, b)]));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // Long routes: zigzags, waves, stairs, spirals; free, between walls, past pegs.
    for n in if e.thorough() { (6..42).chain([50, 64, 65, 66, 100, 129, 130, 200, 257]).collect() } else { vec![6, 7, 8, 10, 12, 15, 17, 20, 25, 33, 40, 65] } {
        let shapes: [&dyn Fn(i64) -> Pt; 5] = [
            &|i| (10 * i, if i % 2 == 0 { 0 } else { 12 }),
            &|i| (8 * i, (i * (n - i)) / 2),
            &|i| (10 * ((i + 1) / 2), 10 * (i / 2)),
            &|i| (10 * i, [0, 3, 8, 10, 8, 3][i as usize % 6]),
            &|i| {
                let t = i as f64 * 0.7;
                (((20.0 + 6.0 * t) * t.cos()) as i64, ((20.0 + 6.0 * t) * t.sin()) as i64)
            },
        ];
        for f in shapes {
            let r: Vec<Pt> = (0..n).map(f).collect();
            let pegs: Vec<(Pt, Pt)> = r.windows(2).map(|w| ((w[0].0 + 3, w[0].1 + 5), (w[0].0 + 6, w[1].1 + 9))).collect();
            let walls: Vec<(Pt, Pt)> = r.windows(2).flat_map(|w| [((w[0].0, w[0].1 + 6), (w[1].0, w[1].1 + 6)), ((w[0].0, w[0].1 - 6), (w[1].0, w[1].1 - 6))]).collect();
            for d0 in (0..nd).step_by(dstep) {
                for d1 in (0..nd).step_by(dstep) {
                    for k in [0, 1 + (d0 + n) % (NEAR as i64 - 1)] {
                        for bars in [&[][..], &pegs, &walls] {
                            if e.mine() {
                                e.emit("long", &p06_case(k, d0, d1, &r, bars));
                            }
                        }
                    }
                }
            }
        }
    }
    // One barrier that matters, first, in the middle or last among many far away.
    for n in if e.thorough() { (1..140).chain([192, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4097]).collect() } else { vec![5, 15, 16, 31, 32, 33, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025] } {
        for r in [&[(0, 0), (10, 0)][..], &[(0, 0), (10, 10), (20, 0)], &[(0, 0), (10, 20), (20, 0), (30, 20)]] {
            for at in [0, n / 2, n - 1, n] {
                for bar in [((5, 1), (5, 9)), ((6, 2), (4, 11)), ((3, 3), (9, 3)), ((15, -9), (15, 4))] {
                    let mut bars: Vec<(Pt, Pt)> = (0..n).map(|i| ((500 + i % 7, 500 + i), (501 + i, 502))).collect();
                    bars.insert(at as usize, bar);
                    for (d0, d1) in [(2, 4), (1, 1), (5, 7), (4, 2)] {
                        if e.mine() {
                            e.emit("many", &p06_case(0, d0, d1, r, &bars));
                        }
                    }
                }
            }
        }
    }
    // Sharp bends: legs almost back on themselves, with walls between the legs or none.
    for n in 4..=e.pick(12i64, 20) {
        for dy in [1, 2, 4, 7, 15, 30] {
            for skew in [0, 20, -35] {
                let r: Vec<Pt> = (0..n).map(|i| (if i % 2 == 0 { skew * i / 4 } else { 100 + skew * i / 4 }, dy * i)).collect();
                let walls: Vec<(Pt, Pt)> = r.windows(3).map(|w| {
                    // From a little beyond the bend's mouth towards it.
                    let m = ((w[0].0 + w[2].0) / 2, (w[0].1 + w[2].1) / 2);
                    (m, (m.0 + (w[1].0 - m.0) * 9 / 10, m.1 + (w[1].1 - m.1) * 9 / 10))
                }).collect();
                for d0 in (0..nd).step_by(dstep) {
                    for d1 in (0..nd).step_by(dstep) {
                        for bars in [&[][..], &walls] {
                            for k in [0, 5] {
                                if e.mine() {
                                    e.emit("sharp", &p06_case(k, d0, d1, &r, bars));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // Barriers of no length, on the route, beside it and at its ends, alone or before a real one.
    for r in routes {
        let r: Vec<Pt> = r.iter().map(|p| (2 * p.0, 2 * p.1)).collect();
        for x in -3..22 {
            for y in -3..16 {
                let p = (3 * x, 3 * y);
                for d0 in 0..nd {
                    for d1 in (0..nd).step_by(e.pick(2, 1)) {
                        let place = 1 + (d0 + x + 3) % (NEAR as i64 - 1);
                        for (k, bars) in [(0, &[(p, p)][..]), (place, &[(p, p), ((31, 3), (27, 60)), (r[0], r[0])])] {
                            if e.mine() {
                                e.emit("points", &p06_case(k, d0, d1, &r, bars));
                            }
                        }
                    }
                }
            }
        }
    }
    // Points that repeat.
    for n in 2..=5 {
        sequences(3, n, &mut |s| {
            let r: Vec<Pt> = s.iter().map(|k| [(0, 0), (10, 0), (5, 9)][*k as usize]).collect();
            if r.iter().any(|p| *p != r[0]) {
                for d in 0..nd {
                    e.emit("repeats", &p06_case(0, d, (d + 3) % nd, &r, &[]));
                    e.emit("repeats", &p06_case(0, d, (d + 3) % nd, &r, &[((3, -5), (3, 2))]));
                }
            }
            true
        });
    }
}

fn route_in(n: usize, from: usize, to: usize, w: &dyn Fn(usize, usize) -> Option<f64>) -> Vec<usize> {
    let d = dijkstra(n, from, w);
    let mut r = vec![to];
    while *r.last().unwrap() != from {
        let k = *r.last().unwrap();
        let best = (0..n)
            .filter(|j| *j != k && d[*j] < d[k])
            .filter_map(|j| w(j, k).map(|x| (j, (d[j] + x - d[k]).abs())))
            .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap())
            .unwrap();
        r.push(best.0);
    }
    r.reverse();
    r
}

// ---------------------------------------------------------------------------------------- P07

fn eval(c: &[f64; 4], x: f64) -> f64 {
    ((c[3] * x + c[2]) * x + c[1]) * x + c[0]
}

/// The real roots of an integer polynomial with their multiplicities.
fn roots(c: &[i64]) -> Vec<(f64, i32)> {
    let f = [c[0] as f64, c[1] as f64, c[2] as f64, c[3] as f64];
    let (d, cc, b, a) = (c[0] as i128, c[1] as i128, c[2] as i128, c[3] as i128);
    let bisect = |mut lo: f64, mut hi: f64| {
        let s = eval(&f, lo);
        for _ in 0..200 {
            let m = 0.5 * (lo + hi);
            if (eval(&f, m) > 0.0) == (s > 0.0) {
                lo = m
            } else {
                hi = m
            }
        }
        0.5 * (lo + hi)
    };
    if a != 0 {
        let disc = 18 * a * b * cc * d - 4 * b * b * b * d + b * b * cc * cc - 4 * a * cc * cc * cc - 27 * a * a * d * d;
        let h = b * b - 3 * a * cc;
        let bound = 1.0 + [d, cc, b].iter().map(|x| (*x as f64 / a as f64).abs()).fold(0.0, f64::max);
        if disc == 0 {
            if h == 0 {
                return vec![(-(b as f64) / (3.0 * a as f64), 3)];
            }
            let dbl = (9 * a * d - b * cc) as f64 / (2 * h) as f64;
            let one = (4 * a * b * cc - 9 * a * a * d - b * b * b) as f64 / (a * h) as f64;
            return vec![(dbl, 2), (one, 1)];
        }
        if disc < 0 {
            return vec![(bisect(-bound, bound), 1)];
        }
        let s = (h as f64).sqrt();
        let (mut u, mut v) = ((-(b as f64) - s) / (3.0 * a as f64), (-(b as f64) + s) / (3.0 * a as f64));
        if u > v {
            std::mem::swap(&mut u, &mut v);
        }
        return vec![(bisect(-bound, u), 1), (bisect(u, v), 1), (bisect(v, bound), 1)];
    }
    if b != 0 {
        let disc = cc * cc - 4 * b * d;
        let m = -(cc as f64) / (2.0 * b as f64);
        return match disc {
            0 => vec![(m, 2)],
            x if x < 0 => vec![],
            _ => {
                let s = (disc as f64).sqrt() / (2.0 * b as f64);
                vec![(m - s, 1), (m + s, 1)]
            }
        };
    }
    if cc != 0 {
        return vec![(-(d as f64) / cc as f64, 1)];
    }
    vec![]
}

/// Would the discriminant of this integer polynomial come out exactly in doubles?
fn plain(c: &[i64]) -> bool {
    let pow2 = |x: i64| x != 0 && x.abs() & (x.abs() - 1) == 0;
    if c[3] != 0 {
        c[2] % (3 * c[3]) == 0 && (pow2(c[3]) || (c[1] % c[3] == 0 && c[0] % c[3] == 0)) && (c[1] * 1).rem_euclid(3) == 0
    } else if c[2] != 0 {
        pow2(c[2]) || (c[1] % (2 * c[2]) == 0 && c[0] % c[2] == 0)
    } else {
        true
    }
}

fn p07(_fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    // coefficients from the constant up, power of two that scales them all,
    // power of two that scales the variable
    let c = &case[..4];
    let (up, xs) = (2f64.powi(case[4] as i32), 2f64.powi(case[5] as i32));
    let f = [c[0] as f64 * up, c[1] as f64 * up * xs, c[2] as f64 * up * xs * xs, c[3] as f64 * up * xs * xs * xs];
    let (n, got) = solve3(&f);
    obs.step();
    if c.iter().all(|x| *x == 0) {
        ensure!(n == 4, "the zero polynomial: {} roots", n);
        return Ok(());
    }
    ensure!(n <= 3, "{:?}: {} roots", f, n);
    let got: Vec<f64> = got[..n].iter().map(|x| x * xs).collect();
    let want = roots(c);
    let deg = (0..4).rev().find(|k| c[*k] != 0).unwrap();
    ensure!(n <= deg, "{:?} of degree {}: {} roots", f, deg, n);
    let big = want.iter().map(|x| x.0.abs()).fold(0.0, f64::max) + (c[2] as f64 / c[3].max(1) as f64).abs() + 1.0;
    // How far rounding may move a root of this multiplicity.
    let tol = |m: i32| match m {
        1 => 1e-9 * big,
        2 => 1e-5 * big,
        _ => 1e-3 * big,
    };
    for (r, m) in &want {
        let found = got.iter().any(|x| (x - r).abs() <= tol(*m));
        // A double root is lost when rounding tips its discriminant over.
        ensure!(found || (*m == 2 && !plain(c)), "{:?} (variable scaled by {}): root {} is missing in {:?}", c, xs, r, got);
    }
    for x in &got {
        ensure!(want.iter().any(|(r, m)| (x - r).abs() <= tol(*m)), "{:?} (variable scaled by {}): {} is no root; roots are {:?}", c, xs, x, want);
    }
    obs.state(fp_i64(7, c.iter().copied()));
    obs.nontrivial(want.len() > 1);
    obs.note(|| format!("{:?}: {:?}, expected {:?}", f, got, want));
    Ok(())
}

fn p07_enum(e: &mut Enum) {
    let k = e.pick(16i64, 30);
    sequences(2 * k + 1, 4, &mut |s| {
        if e.mine() {
            let c: Vec<i64> = s.iter().map(|x| x - k).collect();
            e.emit("coefficients", &[c[0], c[1], c[2], c[3], 0, 0]);
        }
        !e.stopped()
    });
    let k = e.pick(5, 8);
    sequences(2 * k + 1, 4, &mut |s| {
        let c: Vec<i64> = s.iter().map(|x| x - k).collect();
        for (up, xs) in [(3, 0), (-3, 0), (10, 0), (-6, 0), (0, 1), (0, -1), (0, 3), (0, -3), (2, -2), (20, 4)] {
            if e.mine() {
                e.emit("scaled", &[c[0], c[1], c[2], c[3], up, xs]);
            }
        }
        !e.stopped()
    });
    // Small and large coefficients, all of them together.
    let k = e.pick(4, 6);
    sequences(2 * k + 1, 4, &mut |s| {
        let c: Vec<i64> = s.iter().map(|x| x - k).collect();
        for up in -22..=40 {
            if e.mine() {
                e.emit("scaled", &[c[0], c[1], c[2], c[3], up, 0]);
            }
        }
        !e.stopped()
    });
    // The variable scaled, with the leading coefficient as it is: coefficients far apart.
    let k = e.pick(4i64, 6);
    sequences(2 * k + 1, 4, &mut |s| {
        let c: Vec<i64> = s.iter().map(|x| x - k).collect();
        let deg = (0..4).rev().find(|k| c[*k] != 0).unwrap_or(0) as i64;
        for xs in -40..=20 {
            if e.mine() {
                e.emit("apart", &[c[0], c[1], c[2], c[3], -deg * xs, xs]);
            }
        }
        !e.stopped()
    });
    for r in -5i64..=5 {
        for s in r..=5 {
            for t in [-40, -30, -17, 19, 33, 50] {
                for xs in -40..=20 {
                    e.emit("apart", &[-r * s * t, r * s + r * t + s * t, -(r + s + t), 1, -3 * xs, xs]);
                    e.emit("apart", &[r * t, -(r + t), 1, 0, -2 * xs, xs]);
                }
            }
        }
    }
    // Roots far from zero and close to each other, and complex pairs close to the axis.
    for r in [10i64, 11, 50, 99, 100, 101, 500, 999, 1000, 1001, 3000, 10_000, 20_000] {
        for d in [1i64, 2, 3, 5, 10, 100] {
            for sign in [-1, 1] {
                let (x, y) = (sign * r, sign * (r + d));
                for a in [1, -1, 2, 3, -5, 8] {
                    e.emit("close", &[a * x * y, -a * (x + y), a, 0, 0, 0]);
                    e.emit("close", &[a * (x * x + d), -a * 2 * x, a, 0, 0, 0]);
                    if r <= 101 {
                        for z in [0, 1, -x, x + 3 * sign * d, 7 * x] {
                            e.emit("close", &[-a * x * y * z, a * (x * y + x * z + y * z), -a * (x + y + z), a, 0, 0]);
                        }
                    }
                }
            }
        }
    }
    // A small slope against a large constant: the two cube roots of the formula differ widely.
    for k in 1..=28 {
        for s in [1i64, -1, 2, -3, 5, 7, -11] {
            for m in [1i64, -1, 3, -5] {
                for h in [0i64, 1, -2] {
                    // a (x - h)^3 + s (x - h) - a m
                    let a = 1i64 << k;
                    if e.mine() {
                        e.emit("slope", &[-a * h * h * h - s * h - a * m, 3 * a * h * h + s, -3 * a * h, a, -k, 0]);
                    }
                    if e.mine() {
                        e.emit("slope", &[-a * h * h * h - s * h - a * m, 3 * a * h * h + s, -3 * a * h, a, -k, (k + s + m) % 5 - 2]);
                    }
                }
            }
        }
    }
    // By their roots, with leading coefficients and multiplicities.
    let m = e.pick(14i64, 30);
    for r in -m..=m {
        for s in r..=m {
            for t in s..=m {
                for a in [1, -1, 2, 3, -5, 8] {
                    e.emit("roots", &[-a * r * s * t, a * (r * s + r * t + s * t), -a * (r + s + t), a, 0, 0]);
                    e.emit("roots", &[-a * r * s * t, a * (r * s + r * t + s * t), -a * (r + s + t), a, 0, -2]);
                }
            }
            for a in [1, -1, 2, 3, -5, 8] {
                // A real root and a complex pair.
                let (p, q) = (s, s * s + 1 + (r + m) / 3);
                e.emit("roots", &[-a * r * q, a * (q + 2 * p * r), -a * (2 * p + r), a, 0, 0]);
                e.emit("roots", &[a * r * s, -a * (r + s), a, 0, 0, 0]);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- P09

fn p09(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    let place = PLACES[case[0] as usize];
    match fam {
        "triple" => {
            let p: Vec<Pt> = (0..3).map(|i| (case[1 + 2 * i], case[2 + 2 * i])).collect();
            let v: Vec<V> = p.iter().map(|q| place.at(*q, 1)).collect();
            let a = cross(p[0], p[1], p[2]) as f64 * place.area();
            let sign = if a > 0.0 { 1 } else { -((a < 0.0) as i32) };
            for r in 0..3 {
                let (x, y, z) = (v[r], v[(r + 1) % 3], v[(r + 2) % 3]);
                ensure!(area2(x, y, z) == a, "twice the area of {:?} {:?} {:?}: {} instead of {}", x, y, z, area2(x, y, z), a);
                ensure!(area2(y, x, z) == -a, "twice the area of {:?} {:?} {:?}", y, x, z);
                if (case[0] as usize) < WIDE {
                    ensure_eq!(wind(x, y, z), sign, "turn of {:?} {:?} {:?}", x, y, z);
                    ensure_eq!(wind(y, x, z), -sign, "turn of {:?} {:?} {:?}", y, x, z);
                }
                obs.steps(4);
                if sign == 0 {
                    let want = between(p[r], p[(r + 1) % 3], p[(r + 2) % 3]);
                    ensure_eq!(inBetween(x, y, z), want, "is {:?} between {:?} and {:?}", z, x, y);
                    ensure_eq!(inBetween(y, x, z), want, "is {:?} between {:?} and {:?}", z, y, x);
                    obs.steps(2);
                }
            }
            obs.nontrivial(p[0] != p[1] && p[1] != p[2] && p[0] != p[2]);
            obs.state(fp_i64(9, case.iter().copied()));
        }
        "convex" => {
            // A convex polygon, clockwise once placed; query points on a grid of quarters.
            let mut poly: Vec<Pt> = read_poly(case, &mut 1).into_iter().map(|p| (4 * p.0, 4 * p.1)).collect();
            if place.mirror {
                poly.reverse();
            }
            let v: Vec<V> = poly.iter().map(|p| place.at(*p, 4)).collect();
            let (x1, y1) = (poly.iter().map(|p| p.0).max().unwrap(), poly.iter().map(|p| p.1).max().unwrap());
            let step = if place.shift > 0 { 4 } else { 1 };
            let mut hits = 0;
            for x in (-4..=x1 + 4).step_by(step) {
                for y in (-4..=y1 + 4).step_by(step) {
                    let want = locate((x, y), &poly) >= 0;
                    ensure_eq!(in_poly(&v, place.at((x, y), 4)), want, "is {:?} in {:?} (in quarters)", (x, y), poly);
                    hits += want as u64;
                    obs.step();
                }
            }
            obs.nontrivial(hits > 0);
        }
        "edges" => {
            // Query points at vertices, midpoints of edges and beside them, in quarters.
            let mut poly: Vec<Pt> = read_poly(case, &mut 1).into_iter().map(|p| (4 * p.0, 4 * p.1)).collect();
            if place.mirror {
                poly.reverse();
            }
            let v: Vec<V> = poly.iter().map(|p| place.at(*p, 4)).collect();
            let n = poly.len();
            let by = if place.shift > 0 { 4 } else { 1 };
            let (mut hits, mut misses) = (0, 0);
            for i in 0..n {
                let (a, b) = (poly[i], poly[(i + 1) % n]);
                let mid = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
                let u = ((b.0 - a.0) / 4, (b.1 - a.1) / 4);
                // On the edge's line beyond its ends, too.
                let beyond = [(a.0 - u.0, a.1 - u.1), (b.0 + u.0, b.1 + u.1), (2 * a.0 - b.0, 2 * a.1 - b.1), (2 * b.0 - a.0, 2 * b.1 - a.1)];
                for c in [a, mid].into_iter().chain(beyond) {
                    for (dx, dy) in [(0, 0), (by, 0), (-by, 0), (0, by), (0, -by)] {
                        let q = (c.0 + dx, c.1 + dy);
                        let want = locate(q, &poly) >= 0;
                        ensure_eq!(in_poly(&v, place.at(q, 4)), want, "is {:?} in the polygon (in quarters)", q);
                        obs.step();
                        if want {
                            hits += 1
                        } else {
                            misses += 1
                        }
                    }
                }
            }
            obs.nontrivial(hits > 0 && misses > 0);
        }
        _ => return Err("no such family".into()),
    }
    obs.note(|| format!("{} {:?}", fam, case));
    Ok(())
}

fn p09_enum(e: &mut Enum) {
    let k = e.pick(6i64, 8);
    sequences(k * k, 3, &mut |s| {
        for p in 0..PLACES.len() as i64 {
            if e.mine() {
                let mut c = vec![p];
                for x in s {
                    c.extend([x % k, x / k]);
                }
                e.emit("triple", &c);
            }
        }
        !e.stopped()
    });
    // Long thin triangles.
    let wide: &[i64] = if e.thorough() { &[0, 1, 2, 3, 1000, 1 << 20, (1 << 20) + 1, (1 << 23) - 1, (1 << 24) - 1, 1 << 24] } else { &[0, 1, 3, 1 << 20, (1 << 20) + 1, (1 << 24) - 1, 1 << 24] };
    let m = wide.len() as i64;
    let places = wide_places(&[wide.iter().map(|x| (*x, *x)).collect()], 1);
    sequences(m * m, 3, &mut |s| {
        for p in &places {
            if e.mine() {
                let mut c = vec![*p];
                for x in s {
                    c.extend([wide[(x % m) as usize], wide[(x / m) as usize]]);
                }
                e.emit("triple", &c);
            }
        }
        !e.stopped()
    });
    let mut list: Vec<Vec<Pt>> = vec![];
    let plan: &[(i64, i64, usize)] = if e.thorough() { &[(5, 5, 3), (6, 6, 4), (5, 5, 5), (4, 4, 6), (5, 3, 6), (5, 5, 6), (4, 4, 8)] } else { &[(5, 5, 3), (5, 5, 4), (4, 4, 5), (4, 4, 6), (5, 3, 6)] };
    for &(w, h, n) in plan {
        lattice_polygons(w, h, n, false, &mut |p| {
            if convex(p) {
                list.push(clockwise(p.to_vec()));
            }
            true
        });
    }
    list.push(clockwise(vec![(2, 0), (4, 0), (6, 1), (7, 3), (6, 5), (4, 6), (2, 6), (1, 5), (0, 3), (1, 1)]));
    for p in &list {
        for r in 0..p.len() {
            let mut q = p.clone();
            q.rotate_left(r);
            for k in 0..WIDE as i64 {
                if e.mine() {
                    let mut c = vec![k];
                    push_poly(&mut c, &q);
                    e.emit("convex", &c);
                }
            }
        }
    }
    // Points on the edges, and points given twice.
    for (i, p) in list.iter().enumerate().step_by(e.pick(3, 1)) {
        let mut all = studded(p);
        for r in 0..p.len() {
            let mut q = p.clone();
            q.insert(r, p[r]);
            let by = i % q.len();
            q.rotate_left(by);
            all.push(q);
        }
        for q in all {
            if e.mine() {
                let mut c = vec![(i % WIDE) as i64];
                push_poly(&mut c, &q);
                e.emit("convex", &c);
            }
        }
    }
    // Many vertices: parabolic arcs and round polygons, queried along their edges.
    for n in if e.thorough() { (9..140).chain([200, 255, 256, 257, 258, 300, 400, 512, 520, 1000, 1030, 2050, 4100]).collect() } else { vec![9, 17, 33, 66, 100, 130, 200, 258, 300, 520, 1030, 2050] } {
        for p in large(n) {
            if !convex(&p) {
                continue;
            }
            let p = clockwise(p);
            let places = wide_places(&[p.clone()], 4);
            for r in [0, 1, p.len() / 2, p.len() - 1] {
                let mut q = p.clone();
                q.rotate_left(r);
                for k in &places {
                    if e.mine() {
                        let mut c = vec![*k];
                        push_poly(&mut c, &q);
                        e.emit("edges", &c);
                    }
                }
            }
        }
    }
}

static PROPS: &[Prop] = &[
    Prop {
        id: "P01",
        enumerate: p01_enum,
        check: p01,
        rule: "A case is a set of disjoint obstacles; the configuration's tables are compared with the input and every entry of the visibility matrix with exact integer geometry. States are configurations. Non-trivial: some vertices that are no neighbours see each other.",
        bounds_quick: "single obstacles: every simple polygon from every start with up to 6 vertices on a 4x4 lattice, 5 on 5x4, 8 on 4x3, all star-shaped octagons with radii up to 3; polygons of up to 5 vertices with points on the middle of their edges, alone and in pairs; every ordered pair of disjoint points, segments, triangles and quadrilaterals on 4x4 and every triple of points, segments and triangles on 4x3; every pair of shapes on 3x3 computed anew over the graph of another scene; small obstacles in the bays of 12-vertex families; grids, bricks, brackets, families of up to 16 vertices under 10 exact similarities (offsets to 2^31, scales 1/32 to 2^20, mirrored); arrangements of 5x5 to 10x10 obstacles; obstacles of eight sizes from about 33 to 300 vertices; small scenes and arrangements under 6 turns and scales that round every coordinate",
        bounds_thorough: "as quick, with 7 vertices on 4x4, 9 on 4x3, 6 on 5x4, 5 on 5x5, 4 on 6x6, pairs with pentagons, triples on 4x4, families of 20 vertices, arrangements of up to 17x17 obstacles, obstacles of up to 514 vertices",
        assumptions: &["coordinates are dyadic, so that doubles represent them exactly, with twice-areas of at least 2^-10"],
    },
    Prop {
        id: "P02",
        enumerate: p02_enum,
        check: p02,
        rule: "A case is a set of obstacles; every point of a half-integer grid around them, with every admissible owner, is compared with exact geometry against all vertices, and every pair of such points against each other. Non-trivial: some pairs see each other and some do not.",
        bounds_quick: "single polygons of up to 4 vertices on 4x4, 5 on 4x3, 8 on 3x3; polygons of up to 5 vertices with points on their edges; ordered pairs of points, segments and triangles on 4x3, with quadrilaterals on 3x3; triples on 3x3; arrangements of up to 2x2 obstacles under 10 exact similarities; 4x4 to 7x7 obstacles, and obstacles of eight sizes from about 20 to 258 vertices; point location in convex polygons of up to 6 vertices, alone, in (overlapping) pairs and among up to 272; small scenes and arrangements under 6 turns and scales that round every coordinate",
        bounds_thorough: "single polygons of up to 6 vertices on 4x4, 8 on 4x3; pairs with quadrilaterals on 4x4 and triangles on 5x4; triples on 4x3; arrangements of up to 4x4; up to 9x9 obstacles, obstacles of up to 514 vertices; point location among up to 529 polygons",
        assumptions: &["coordinates are dyadic, with twice-areas of at least 2^-12"],
    },
    Prop {
        id: "P03",
        enumerate: p03_enum,
        check: p03,
        rule: "A case is a set of obstacles; routes between all pairs of free grid points are followed back through the predecessors, checked hop by hop for exact visibility and compared in length with a shortest path over the exact visibility graph. States are sequences of bends. Non-trivial: a route with two bends or more.",
        bounds_quick: "single polygons of up to 4 vertices on 4x4, 6 on 4x3, 8 on 3x3; polygons of up to 5 vertices with points on their edges; pairs with triangles on 4x3 and quadrilaterals on 3x3, triples with triangles on 3x3; arrangements of up to 3x3 obstacles under 10 exact similarities (scales to 2^20); walls of up to 100,000 units that force routes the long way round; 5x5 to 8x8 obstacles; obstacles of eight sizes from about 20 to 258 vertices; small scenes and arrangements under 6 turns and scales that round every coordinate",
        bounds_thorough: "single polygons of up to 6 vertices on 4x4, 8 on 4x3; pairs with quadrilaterals on 4x4 and triples with triangles on 4x3; arrangements of up to 5x5; up to 12x12 obstacles, obstacles of up to 300 vertices",
        assumptions: &["lengths are compared to 1e-9 of their size"],
    },
    Prop {
        id: "P04",
        enumerate: p04_enum,
        check: p04,
        rule: "A case is a weight matrix; for every root and target the predecessors are followed and compared with an independent shortest-path computation; entries above the diagonal mislead, and a weight function records what is consulted. States are predecessor vectors. Non-trivial: a path of more than one edge.",
        bounds_quick: "every matrix of up to 4 vertices over 5 weights and 6 over 2, for six weight tables (tiny, huge and nearly equal weights included), 5 over 3 for two; 3 vertices over 5 and 4 over 4 weights 1 + k 2^-t and (1 + k) 2^(t - 200), where sums are exact and compared exactly; patterned matrices of 6 to 20 and of twelve sizes from 33 to 300 vertices",
        bounds_thorough: "as quick, with 5 vertices over 4 weights, 6 over 3, 7 over 2; patterned matrices of 6 to 69 vertices and of sixteen sizes up to 513",
        assumptions: &["path totals are finite; outside the exact tables they are compared to 1e-9"],
    },
    Prop {
        id: "P05",
        enumerate: p05_enum,
        check: p05,
        rule: "A case is a simple polygon; paths between all pairs of points of a grid in and around it, vertices and edge midpoints included, are compared with exact containment and the length of a shortest path over exactly visible vertex pairs. States are sequences of bends. Non-trivial: a path with a bend.",
        bounds_quick: "every start and direction of every simple polygon with up to 8 vertices on 3x3; 5 and 6 vertices on 4x3; every polygon of up to 5 vertices on 3x3 (4x3 for 5) with points repeated two or three times or added on the edges, one by one and everywhere, from every start; star-shaped octagons with radii up to 2; combs, stars, spirals, snakes, saws and stairs of up to 14 vertices from every start in both directions, under 11 exact similarities (scales 2^-24 to 2^20); towers with slanted sides; polygons of about 20, 33, 66 and 130 vertices; the small polygons under 8 turns and scales that round every coordinate, families of up to 14 vertices under some of them; 3x3 and 4x3 lattices turned so that products of coordinates are rounded, every polygon of 3 (4; 5; 6) vertices with up to 3 (2; 1; 0) of them moved by the least amount that doubles can tell, and every polygon of 3 (4) points that far beside 5 (4) of a line, exactly decided",
        bounds_thorough: "as quick, with up to 6 vertices on 4x4 and 8 on 4x3, repetitions and points on edges for up to 6 on 3x3, families of up to 26 vertices, radii up to 3, polygons of up to 200 vertices, moved vertices in polygons of up to 8",
        assumptions: &["coordinates are dyadic, or those of a small lattice turned and scaled"],
    },
    Prop {
        id: "P06",
        enumerate: p06_enum,
        check: p06,
        rule: "A case is a route, two end directions and a set of barriers; ends, joints, tangents are compared with the route, and every segment but a straight one between adjacent route points is sampled at 200 points for crossings of barriers. States are (joints, directions, number of bent segments). Non-trivial: several segments, some bent.",
        bounds_quick: "every route of 2 to 5 distinct points of a 3x3 lattice under up to 81 pairs of directions; 6 routes under every barrier between 30 lattice points and all pairs of directions, and under pairs of 145 barriers; geodesics in polygons of up to 20 vertices with the edges as barriers; routes with repeated points; barriers almost upright or level; routes of 6 to 65 points, free, between walls and past pegs; sharp bends; 5 to 1025 barriers of which one matters; an output that held an earlier route; single barriers and geodesics under 6 turns and scales that round every coordinate",
        bounds_thorough: "as quick, with pairs of all 435 barriers, polygons of up to 33 vertices, routes of up to 257 points, 1 to 4097 barriers",
        assumptions: &["a crossing counts when it is more than 0.05 from the barrier's ends and more than 0.001 from the segment's", "crossings between samples of equal sign are not seen"],
    },
    Prop {
        id: "P07",
        enumerate: p07_enum,
        check: p07,
        rule: "A case is an integer polynomial scaled by powers of two; the number of distinct real roots comes from the exact discriminant and their values from bisection. Non-trivial: more than one real root.",
        bounds_quick: "every polynomial with coefficients from -16 to 16; coefficients from -5 to 5 under 10 scalings, from -4 to 4 under overall scales from 2^-22 to 2^40; every triple and pair of integer roots from -14 to 14, complex pairs too, with 6 leading coefficients; scaled variables (2^-40 to 2^20) with and without a root far from the others; pairs of roots r and r + d and complex pairs with r up to 20000; lone roots with slopes down to 2^-28 of the leading coefficient",
        bounds_thorough: "coefficients from -30 to 30, from -8 to 8 under 10 scalings, from -6 to 6 under every overall scale, roots from -30 to 30",
        assumptions: &["a simple root is accepted to 1e-9, a double one to 1e-5, a triple one to 1e-3 of the largest root; a double root may be missed where rounding affects the discriminant"],
    },
    Prop {
        id: "P09",
        enumerate: p09_enum,
        check: p09,
        rule: "A case is a triple of points or a convex polygon with a grid of query points, under an exact similarity; every predicate is compared with integer arithmetic, under all rotations and swaps of the arguments. Non-trivial: distinct points; a polygon that holds query points.",
        bounds_quick: "every triple of points of a 6x6 lattice, every convex polygon of up to 4 vertices on 5x5 and 6 on 4x4 and 5x3 from every start, with queries on a grid of quarters and on the lines of the edges beyond their ends, under 11 exact similarities (offsets to 2^31, scales 2^-24 to 2^20, mirrored; in-polygon queries under 10); polygons with points on their edges or given twice; every triple of points with coordinates among 0, 1, 3, 2^20, 2^20 + 1, 2^24 - 1, 2^24; convex polygons of up to 2050 vertices queried along their edges",
        bounds_thorough: "triples of an 8x8 lattice, convex polygons of up to 8 vertices on 4x4, 6 on 5x5, 4 on 6x6, and of up to 4100 vertices",
        assumptions: &["coordinates are dyadic, with twice-areas of at least 2^-10"],
    },
];

fn main() {
    mc_main(PROPS)
}
