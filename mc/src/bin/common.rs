//! C01, C03, C04: elliptic wedges, boxes and numbers, vectors and dense arrays.
use mc::*;
use std::f64::consts::PI;
use trellis::common::arith::*;
use trellis::common::ellipse::{ellipticWedge, PathTarget};
use trellis::common::geom::*;
use trellis::math;
use trellis::pathplan::array2::{allocArray, Array2};
use trellis::polyline::Ppolyline_t;
use trellis::vec2::Vec2;

type V = Vec2<f64>;
fn v(x: f64, y: f64) -> V {
    Vec2 { x, y }
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
fn near(a: V, b: V, tol: f64) -> bool {
    (a.x - b.x).hypot(a.y - b.y) <= tol
}

// ---------------------------------------------------------------------------------------- C01

/// Half-axes in thousandths: (x, y).
const AXES: &[(i64, i64)] = &[
    (1000, 1000),
    (2000, 1000),
    (1000, 2000),
    (100_000, 50_000),
    (50_000, 100_000),
    (3000, 7000),
    (10_000, 1000),
    (1000, 10_000),
    (400_000, 90_000),
    (500, 500),
    (10, 20),
    (1_000_000, 999_000),
    (200_000, 4000),
    (5_000_000, 3_000_000),
];
const CENTRES: &[(i64, i64)] = &[(0, 0), (200, 200), (-37, 1500)];

/// A case: centre, half-axes in thousandths, start angle and sweep as counts of a unit angle;
/// the unit is pi/48 or a tenth of a radian or 1/7 radian.
fn unit(k: i64, u: i64) -> f64 {
    match u {
        0 => k as f64 * PI / 48.0,
        1 => k as f64 * 0.1,
        _ => k as f64 / 7.0,
    }
}

/// The ellipse's parameter at the polar angle `l`, made continuous.
fn param(l: f64, a: f64, b: f64) -> f64 {
    let turns = (l / (2.0 * PI)).round();
    let r = l - turns * 2.0 * PI;
    let mut e = (r.sin() / b).atan2(r.cos() / a);
    // r is within [-pi, pi]; keep the parameter in the same half-turn.
    if r > 2.0 && e < 0.0 {
        e += 2.0 * PI
    } else if r < -2.0 && e > 0.0 {
        e -= 2.0 * PI
    }
    e + turns * 2.0 * PI
}

/// Distance from a point to the ellipse, both relative to the centre.
fn ellipse_distance(p: V, a: f64, b: f64) -> f64 {
    let e0 = (p.y / b).atan2(p.x / a);
    let d = |e: f64| (p.x - a * e.cos()).hypot(p.y - b * e.sin());
    let mut best = d(e0);
    let n = 2000;
    let mut at = e0;
    for i in 0..n {
        let e = e0 + (i as f64 / n as f64 - 0.5) * PI;
        if d(e) < best {
            best = d(e);
            at = e;
        }
    }
    let (mut lo, mut hi) = (at - PI / n as f64, at + PI / n as f64);
    for _ in 0..100 {
        let (m1, m2) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
        if d(m1) < d(m2) {
            hi = m2
        } else {
            lo = m1
        }
    }
    best.min(d(lo))
}

fn bezier(p: &[V], t: f64) -> V {
    let s = 1.0 - t;
    let (a, b, c, d) = (s * s * s, 3.0 * s * s * t, 3.0 * s * t * t, t * t * t);
    v(
        a * p[0].x + b * p[1].x + c * p[2].x + d * p[3].x,
        a * p[0].y + b * p[1].y + c * p[2].y + d * p[3].y,
    )
}

fn straight(seg: &[V], tol: f64) -> bool {
    // Control points on the segment make the curve the segment.
    let (p, q) = (seg[0], seg[3]);
    let len = (q.x - p.x).hypot(q.y - p.y);
    seg[1..3].iter().all(|m| {
        if len <= tol {
            return near(*m, p, 2.0 * tol);
        }
        let t = ((m.x - p.x) * (q.x - p.x) + (m.y - p.y) * (q.y - p.y)) / (len * len);
        t >= -tol / len && t <= 1.0 + tol / len && near(*m, v(p.x + t * (q.x - p.x), p.y + t * (q.y - p.y)), tol)
    })
}

#[derive(Default)]
struct Rec {
    pts: Vec<V>,
    ops: Vec<char>,
    closed: Option<bool>,
}
impl PathTarget for Rec {
    fn move_to(&mut self, p: V) {
        self.pts.push(p);
        self.ops.push('M');
    }
    fn line_to(&mut self, p: V) {
        self.pts.push(p);
        self.ops.push('L');
    }
    fn curve_to(&mut self, a: V, b: V, c: V) {
        self.pts.extend([a, b, c]);
        self.ops.push('C');
    }
    fn end_path(&mut self, close: bool) {
        self.closed = Some(close);
    }
}

fn c01(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    let c = match fam {
        "far" => v(case[0] as f64 / 8.0, case[1] as f64 / 8.0),
        _ => v(case[0] as f64, case[1] as f64),
    };
    // Half-axes in thousandths, or in billionths.
    let per = if fam == "tiny" { 1e9 } else { 1e3 };
    let (a, b) = (case[2] as f64 / per, case[3] as f64 / per);
    let (l1, sweep) = match fam {
        "full-turn" => (unit(case[4], case[6]), 2.0 * PI),
        "half-turn" => (unit(case[4], case[6]), PI),
        // All but a little of a turn, and that little on its own: 10^-k.
        "almost" | "almost-below" => (unit(case[4], case[6]), 2.0 * PI - 10f64.powi(-case[5] as i32)),
        "little" | "little-below" => (unit(case[4], case[6]), 10f64.powi(-case[5] as i32)),
        _ => (unit(case[4], case[6]), unit(case[5], case[6])),
    };
    let l2 = l1 + sweep;
    let mut path = Ppolyline_t::default();
    // Whatever the target held before, the wedge replaces it.
    path.ps = vec![v(1.0, 2.0)];
    if case[4] % 2 == 0 {
        path.ps = vec![v(-3.0, 4.0); 40 + (case[4].unsigned_abs() as usize % 5) * 100];
    }
    // The end angle may be less than the start angle: the sweep is the same.
    let given = match fam {
        "below" => l2 - 2.0 * PI,
        "little-below" => l2 - 2.0 * PI,
        "almost-below" => l1 - 10f64.powi(-case[5] as i32),
        _ => l2,
    };
    ellipticWedge(c, a, b, l1, given, &mut path);
    let ps = &path.ps;
    let big = a.max(b);
    let tol = 1e-10 * (big + c.x.abs() + c.y.abs());
    // Small ellipses may be drawn more coarsely, up to an eighth of a turn per curve.
    let quality = if big < 0.1 { 3e-5 } else { 1e-5 };
    ensure!(ps.iter().all(|p| p.x.is_finite() && p.y.is_finite()), "a coordinate is not finite");
    ensure!(ps.len() % 3 == 1 && ps.len() >= 10, "{} points are not a wedge of cubic segments", ps.len());
    let segs: Vec<&[V]> = (0..ps.len() / 3).map(|i| &ps[3 * i..3 * i + 4]).collect();
    let n = segs.len();
    let (e1, e2) = (param(l1, a, b), param(l2, a, b));
    let on = |e: f64| v(c.x + a * e.cos(), c.y + b * e.sin());
    ensure!(near(ps[0], c, 1e-14 * (c.x.abs() + c.y.abs())), "the wedge starts at {:?}, not at the centre {:?}", ps[0], c);
    ensure!(near(ps[ps.len() - 1], c, 1e-14 * (c.x.abs() + c.y.abs())), "the wedge ends at {:?}, not at the centre {:?}", ps[ps.len() - 1], c);
    ensure!(near(segs[0][3], on(e1), tol), "the arc starts at {:?}, not at {:?}", segs[0][3], on(e1));
    ensure!(near(segs[n - 1][0], on(e2), tol), "the arc ends at {:?}, not at {:?}", segs[n - 1][0], on(e2));
    ensure!(straight(segs[0], tol), "the way to the ellipse is not straight: {:?}", segs[0]);
    ensure!(straight(segs[n - 1], tol), "the way back to the centre is not straight: {:?}", segs[n - 1]);
    obs.step();
    let mut eta = e1;
    let samples = 16;
    let mut worst: f64 = 0.0;
    for s in &segs[1..n - 1] {
        obs.step();
        for i in 1..=samples {
            let p = bezier(s, i as f64 / samples as f64);
            let rel = v(p.x - c.x, p.y - c.y);
            let (ux, uy) = (rel.x / a, rel.y / b);
            let off = (ux.hypot(uy) - 1.0).abs() * big;
            worst = worst.max(off);
            if off > quality * big + tol {
                let d = ellipse_distance(rel, a, b);
                ensure!(d <= quality * big + tol, "{:?} is {} away from the ellipse", p, d);
            }
            // Advance to this sample's parameter, by the shorter way round.
            let mut d = uy.atan2(ux) - eta;
            d -= 2.0 * PI * (d / (2.0 * PI)).round();
            let floor = if sweep > 1e-6 { 0.0 } else { -1e-6 };
            ensure!(d > floor - 1e-9 - 1e-15 * (c.x.abs() + c.y.abs()) / a.min(b), "the angle goes back by {} at {:?}", -d, p);
            eta += d;
        }
        if sweep > 1e-6 {
            // The chord itself must not skip a turn.
            obs.state(fp_i64(3, [case[2], case[3], (eta * 1e6) as i64]));
        }
    }
    // The documented quality, which the error estimate covers where x is the longer half-axis.
    if a >= b {
        ensure!(worst <= 1e-5 + 1e-3 * tol, "the arc is {} off the ellipse", worst);
    }
    ensure!(
        close(eta - e1, e2 - e1, 1e-6),
        "the arc sweeps {} of the ellipse's parameter instead of {}",
        eta - e1,
        e2 - e1
    );
    if sweep > 1e-3 {
        for i in 1..n - 2 {
            let (p, q) = (segs[i], segs[i + 1]);
            let t1 = v(p[3].x - p[2].x, p[3].y - p[2].y);
            let t2 = v(q[1].x - q[0].x, q[1].y - q[0].y);
            let (n1, n2) = (t1.x.hypot(t1.y), t2.x.hypot(t2.y));
            // Cancellation in the differences limits what can be told.
            let ttol = 1e-6 + 1e-12 * (big + c.x.abs() + c.y.abs()) / n1.min(n2);
            ensure!(
                n1 > 0.0 && n2 > 0.0 && near(v(t1.x / n1, t1.y / n1), v(t2.x / n2, t2.y / n2), ttol),
                "the tangents differ at the joint {:?}: {:?} and {:?}",
                p[3],
                t1,
                t2
            );
        }
    }
    // Another target is told the same path.
    if fam == "targets" {
        let mut r = Rec::default();
        ellipticWedge(c, a, b, l1, l2, &mut r);
        ensure!(r.ops[0] == 'M' && r.ops[1] == 'L' && r.closed == Some(true), "the wedge is not move, line, ..., close");
        ensure!(r.ops[2..].iter().all(|o| *o == 'C'), "the arc is not made of curves");
        ensure_eq!(r.ops.len() - 2, n - 2, "segments of the arc");
        ensure!(near(r.pts[0], c, 0.0) && near(r.pts[1], segs[0][3], tol), "move and line");
        for (i, p) in r.pts[2..].iter().enumerate() {
            ensure!(near(*p, ps[4 + i], tol), "point {} of the arc", i);
        }
        // And the same target serves again.
        let before = ps.clone();
        ellipticWedge(v(c.x + 9.0, c.y), b, a, l1, l2, &mut path);
        ellipticWedge(c, a, b, l1, l2, &mut path);
        ensure!(path.ps == before, "a target that is used again gets another path");
    }
    obs.nontrivial(sweep > 0.0 && n > 4);
    obs.note(|| format!("centre {:?} axes {} {} from {} sweep {}: {} segments, off by {:e}", c, a, b, l1, sweep, n - 2, worst));
    Ok(())
}

fn c01_enum(e: &mut Enum) {
    let starts: Vec<i64> = if e.thorough() { (-100..=100).collect() } else { (-96..=96).step_by(4).collect() };
    let sweeps: Vec<i64> = if e.thorough() {
        (0..=96).collect()
    } else {
        let mut s: Vec<i64> = (0..=96).step_by(4).collect();
        s.extend([1, 2, 3, 6, 23, 25, 46, 47, 49, 50, 71, 73, 94, 95]);
        s
    };
    for &(a, b) in AXES {
        for (ci, &(cx, cy)) in CENTRES.iter().enumerate() {
            if ci > 0 && !e.thorough() && a > 100_000 {
                continue;
            }
            for &s in &starts {
                for &w in &sweeps {
                    if ci > 0 && (s + w) % 4 != 0 {
                        continue;
                    }
                    e.emit("wedge", &[cx, cy, a, b, s, w, 0]);
                }
            }
        }
        for &s in &starts {
            for u in 1..3 {
                let most = (2.0 * PI / unit(1, u)) as i64;
                for w in (0..=most).step_by(e.pick(5, 1)) {
                    e.emit("wedge", &[0, 0, a, b, s, w, u]);
                }
            }
            e.emit("targets", &[5, -7, a, b, s, 40, 0]);
            for u in 0..3 {
                for k in 1..=7 {
                    for fam in ["almost", "almost-below", "little", "little-below"] {
                        e.emit(fam, &[0, 0, a, b, s, k, u]);
                    }
                }
            }
            for &w in &sweeps {
                if w > 0 && w < 96 {
                    e.emit("below", &[0, 0, a, b, s, w, 0]);
                }
            }
            // Centres that are far away, in eighths.
            if a.min(b) >= 1000 {
                for (cx, cy) in [(160_000_004, 3), (-3, -80_000_001), (800_000_001, 1_600_000_003), (12_345_677, -999_999_999)] {
                    for w in [3, 24, 50, 90, 96] {
                        e.emit("far", &[cx, cy, a, b, s, w, 0]);
                    }
                }
            }
        }
        // Very large and very small ellipses.
        if a <= 10_000 {
            for &s in starts.iter().step_by(e.pick(2, 5)) {
                for &w in &sweeps {
                    for scale in [30, 500, 5000] {
                        e.emit("huge", &[0, 0, 1000 * scale * a, 1000 * scale * b, s, w, 0]);
                    }
                    for scale in [1, 100, 10_000, 100_000] {
                        e.emit("tiny", &[0, 0, scale * a, scale * b, s, w, 0]);
                    }
                }
            }
        }
        // A half turn and a full turn are where rounding can tip the angle over.
        for s in -100..=100 {
            for u in 0..3 {
                if a > 100_000 && s % 2 != 0 && !e.thorough() {
                    continue;
                }
                e.emit("half-turn", &[0, 0, a, b, s, 0, u]);
                e.emit("full-turn", &[0, 0, a, b, s, 0, u]);
            }
        }
        if e.stopped() {
            return;
        }
    }
}

// ---------------------------------------------------------------------------------------- C03

/// Ways to put the lattice of halves elsewhere: scale and offsets in x and y, all exact.
const LATTICES: &[(f64, f64, f64)] = &[
    (1.0, 0.0, 0.0),
    (1.0 / 1099511627776.0, 0.0, 0.0),
    (1.0 / 1048576.0, 1.0, -3.0),
    (1.0, 1073741824.0, -4294967297.0),
    (1048576.0, 0.0, 1048576.0),
    (1267650600228229401496703205376.0, 0.0, 0.0),
    (0.0078125, -123456.75, 98765.5),
];
fn lat(m: i64, x: i64, y: i64, per: f64) -> V {
    let (s, dx, dy) = LATTICES[m as usize];
    v(x as f64 / per * s + dx, y as f64 / per * s + dy)
}
fn mkbox(m: i64, c: &[i64]) -> boxf {
    // Halves make off-lattice corners; the sign of zero is not of interest.
    boxf { LL: lat(m, c[0], c[1], 2.0), UR: lat(m, c[2], c[3], 2.0) }
}
fn corners(b: &boxf) -> [f64; 4] {
    [b.LL.x, b.LL.y, b.UR.x, b.UR.y]
}
fn well_formed(c: &[i64]) -> bool {
    c[0] <= c[2] && c[1] <= c[3]
}

/// Membership by definition on the half-integer lattice scaled by four (so that the lattice is
/// finer than the corners): a set of points.
fn members(c: &[i64], lo: i64, hi: i64) -> Vec<(i64, i64)> {
    let mut out = vec![];
    for x in 2 * lo..=2 * hi {
        for y in 2 * lo..=2 * hi {
            if 2 * c[0] <= x && x <= 2 * c[2] && 2 * c[1] <= y && y <= 2 * c[3] {
                out.push((x, y));
            }
        }
    }
    out
}

/// Representative numbers.
fn number(i: i64) -> f64 {
    const N: &[f64] = &[
        0.0,
        0.25,
        0.5,
        0.75,
        1.0,
        1.5,
        2.0,
        2.5,
        3.0,
        3.499999999,
        3.5,
        3.500000001,
        10.0,
        71.5,
        72.0,
        99.99,
        100.5,
        1e3,
        12345.678,
        65535.5,
        1e6,
        1e9,
        1e-3,
        1e-6,
        1e-9,
        0.49999999999999994,
        0.5000000000000001,
        1.4999999999999998,
        2.5000000000000004,
        8388607.5,
        1073741823.5,
        2147483646.5,
        2147483647.0,
    ];
    let m = N[(i.unsigned_abs() as usize - 1) % N.len()];
    if i < 0 {
        -m
    } else {
        m
    }
}
const NUMBERS: i64 = 33;

/// Nearest integer, halves away from zero, computed without adding a half.
fn round_model(f: f64) -> i64 {
    let t = f.trunc();
    let r = (f - t).abs();
    t as i64 + if r >= 0.5 { if f > 0.0 { 1 } else { -1 } } else { 0 }
}

fn c03(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    match fam {
        "box-and-point" => {
            let (bc, pc, m) = (&case[..4], &case[4..6], case[6]);
            let b = mkbox(m, bc);
            let p = lat(m, pc[0], pc[1], 2.0);
            let inside = bc[0] <= pc[0] && pc[0] <= bc[2] && bc[1] <= pc[1] && pc[1] <= bc[3];
            ensure_eq!(INSIDE(p, &b), inside, "is {:?} inside {:?}", p, corners(&b));
            let mut x = mkbox(m, bc);
            EXPANDBP(&mut x, p);
            let want = corners(&mkbox(m, &[bc[0].min(pc[0]), bc[1].min(pc[1]), bc[2].max(pc[0]), bc[3].max(pc[1])]));
            ensure_eq!(corners(&x), want, "{:?} expanded to hold {:?}", corners(&b), p);
            ensure!(INSIDE(p, &x), "the expanded box does not hold the point");
            obs.steps(2);
            obs.nontrivial(inside);
        }
        "two-boxes" => {
            let (c0, c1, m) = (&case[..4], &case[4..8], case[8]);
            let (b0, b1) = (mkbox(m, c0), mkbox(m, c1));
            let (lo, hi) = (case[..8].iter().min().unwrap() - 1, case[..8].iter().max().unwrap() + 1);
            let m0 = members(c0, lo, hi);
            let m1 = members(c1, lo, hi);
            let both: Vec<_> = m0.iter().filter(|p| m1.binary_search(p).is_ok()).copied().collect();
            ensure_eq!(OVERLAP(&b0, &b1), !both.is_empty(), "overlap of {:?} and {:?}", c0, c1);
            ensure_eq!(CONTAINS(&b0, &b1), both.len() == m1.len(), "does {:?} contain {:?}", c0, c1);
            let mut x = mkbox(m, c0);
            EXPANDBB(&mut x, &b1);
            let all: Vec<_> = m0.iter().chain(&m1).copied().collect();
            let hull = |s: &[(i64, i64)]| {
                let low = lat(m, s.iter().map(|p| p.0).min().unwrap(), s.iter().map(|p| p.1).min().unwrap(), 4.0);
                let high = lat(m, s.iter().map(|p| p.0).max().unwrap(), s.iter().map(|p| p.1).max().unwrap(), 4.0);
                [low.x, low.y, high.x, high.y]
            };
            ensure_eq!(corners(&x), hull(&all), "{:?} expanded to hold {:?}", c0, c1);
            ensure_eq!(corners(&b1), corners(&mkbox(m, c1)), "the other box");
            if !both.is_empty() {
                let mut x = mkbox(m, c0);
                CLIPBB(&mut x, &b1);
                ensure_eq!(corners(&x), hull(&both), "{:?} clipped to {:?}", c0, c1);
            }
            obs.steps(4);
            obs.nontrivial(!both.is_empty() && both.len() < m0.len() && both.len() < m1.len());
        }
        "rounding" => {
            let f = case[0] as f64 / case[1] as f64;
            let want = round_model(f);
            ensure_eq!(ROUND(f) as i64, want, "{} rounded", f);
            let p = PF2P(v(f, -f));
            ensure_eq!((p.x as i64, p.y as i64), (want, -want), "({}, {}) rounded", f, -f);
            let b = BF2B(&boxf { LL: v(f, f + 1.0), UR: v(-f, f - 1.0) });
            let got = [b.LL.x, b.LL.y, b.UR.x, b.UR.y].map(|k| k as i64);
            ensure_eq!(got, [want, round_model(f + 1.0), -want, round_model(f - 1.0)], "box rounded");
            if f.abs() < 2e7 {
                ensure_eq!(POINTS(f) as i64, round_model(f * 72.0), "{} inches in points", f);
            }
            obs.nontrivial(f != want as f64);
        }
        "integers" => {
            let (x, y) = (case[0] as i32, case[1] as i32);
            let f = P2PF(Vec2 { x, y });
            ensure_eq!((f.x, f.y), (x as f64, y as f64), "conversion");
            let back = PF2P(f);
            ensure_eq!((back.x, back.y), (x, y), "conversion there and back");
            let b = boxi { LL: Vec2 { x, y }, UR: Vec2 { x: y, y: x } };
            let g = B2BF(&b);
            ensure_eq!(corners(&g), [x as f64, y as f64, y as f64, x as f64], "box conversion");
            let h = BF2B(&g);
            ensure_eq!([h.LL.x, h.LL.y, h.UR.x, h.UR.y], [x, y, y, x], "box conversion there and back");
            obs.nontrivial(x != y);
        }
        "two-numbers" => {
            let (a, b) = (number(case[0]), number(case[1]));
            ensure_eq!(MIN(a, b), if a <= b { a } else { b }, "MIN({}, {})", a, b);
            ensure_eq!(MAX(a, b), if a >= b { a } else { b }, "MAX({}, {})", a, b);
            ensure_eq!(math::fmin(a, b), if a <= b { a } else { b }, "fmin({}, {})", a, b);
            ensure_eq!(math::fmax(a, b), if a >= b { a } else { b }, "fmax({}, {})", a, b);
            ensure_eq!(MIN(case[0], case[1]), case[0].min(case[1]), "MIN of integers");
            ensure_eq!(MAX(case[0], case[1]), case[0].max(case[1]), "MAX of integers");
            ensure_eq!(CMP(a, b), a.partial_cmp(&b).unwrap() as i32, "CMP({}, {})", a, b);
            let scale = a.abs() + b.abs();
            ensure!(close(AVG(a, b), a / 2.0 + b / 2.0, 1e-15 * scale), "AVG({}, {}) = {}", a, b, AVG(a, b));
            ensure!(close(LEN2(a, b), a * a + b * b, 1e-15 * scale * scale), "LEN2({}, {})", a, b);
            ensure!(close(LEN(a, b), a.hypot(b), 1e-14 * scale), "LEN({}, {})", a, b);
            ensure_eq!(SGN(a), if a < 0.0 { -1 } else { 1 }, "SGN({})", a);
            ensure!(close(trellis::common::arith::SQR(a), a * a, 0.0) && math::sqr(a) == a * a, "square of {}", a);
            ensure_eq!(math::sqr(case[0]), case[0] * case[0], "square of an integer");
            obs.steps(10);
            obs.nontrivial(a != b);
        }
        "three-numbers" => {
            let (a, b, c) = (number(case[0]), number(case[1]), number(case[2]));
            ensure_eq!(BETWEEN(a, b, c), !(a > b || b > c), "BETWEEN({}, {}, {})", a, b, c);
            let tol = c.abs();
            ensure_eq!(APPROXEQ(a, b, tol), a - b < tol && b - a < tol, "APPROXEQ({}, {}, {})", a, b, tol);
            obs.nontrivial(BETWEEN(a, b, c));
        }
        "distances" => {
            let p = v(number(case[0]), number(case[1]));
            let q = v(number(case[2]), number(case[3]));
            let (dx, dy) = (p.x - q.x, p.y - q.y);
            let s = dx.abs() + dy.abs();
            ensure!(close(DIST2(p, q), dx * dx + dy * dy, 1e-14 * s * s), "DIST2({:?}, {:?}) = {}", p, q, DIST2(p, q));
            ensure!(close(DIST(p, q), dx.hypot(dy), 1e-14 * s), "DIST({:?}, {:?}) = {}", p, q, DIST(p, q));
            ensure!(DIST(p, q) == DIST(q, p), "distance is not symmetric");
            for t in [0.001, 0.25, 1.0, 5.0, 1000.0] {
                let d = dx.hypot(dy);
                // Within rounding of the tolerance either answer is right.
                if (d - t).abs() > 1e-9 * (t + s) {
                    ensure_eq!(APPROXEQPT(p, q, t), d < t, "APPROXEQPT({:?}, {:?}, {})", p, q, t);
                } else if case[0] == case[2] && case[1] == case[3] {
                    ensure!(APPROXEQPT(p, q, t), "a point is not near itself");
                }
            }
            obs.nontrivial(s > 0.0);
        }
        "close-points" => {
            // a point, and another at a small offset in 2^-k
            let per = 2f64.powi(-case[4] as i32);
            let p = v(case[0] as f64, case[1] as f64);
            let (dx, dy) = (case[2] as f64 * per, case[3] as f64 * per);
            let q = v(p.x - dx, p.y - dy);
            let s = dx.abs() + dy.abs();
            ensure!(close(DIST2(p, q), dx * dx + dy * dy, 1e-14 * s * s), "DIST2({:?}, {:?}) = {}", p, q, DIST2(p, q));
            ensure!(close(DIST(p, q), dx.hypot(dy), 1e-14 * s), "DIST({:?}, {:?}) = {}", p, q, DIST(p, q));
            for t in [0.5, 1.5, 10.0] {
                let (t, d) = (t * per, dx.hypot(dy));
                ensure_eq!(APPROXEQPT(p, q, t), d < t, "APPROXEQPT({:?}, {:?}, {})", p, q, t);
            }
            obs.nontrivial(s > 0.0);
        }
        "units" => {
            let a = number(case[0]);
            let tol = 1e-12 * a.abs();
            ensure!(close(RADIANS(a), a * (PI / 180.0), tol), "{} degrees in radians: {}", a, RADIANS(a));
            ensure!(close(DEGREES(a), a * (180.0 / PI), 100.0 * tol), "{} radians in degrees: {}", a, DEGREES(a));
            ensure!(close(DEGREES(RADIANS(a)), a, tol) && close(RADIANS(DEGREES(a)), a, tol), "radians of {} there and back", a);
            ensure!(close(INCH2PS(a), 72.0 * a, 72.0 * tol), "{} inches: {}", a, INCH2PS(a));
            ensure!(close(PS2INCH(a), a / 72.0, tol), "{} points: {}", a, PS2INCH(a));
            ensure!(close(INCH2PS(PS2INCH(a)), a, tol) && close(PS2INCH(INCH2PS(a)), a, tol), "inches of {} there and back", a);
            ensure!(
                close(POINTS_PER_INCH, 72.0, 0.0)
                    && close(POINTS_PER_PC, 12.0, 1e-6)
                    && close(POINTS_PER_CM, 72.0 / 2.54, 1e-6)
                    && close(POINTS_PER_MM, 72.0 / 25.4, 1e-6)
                    && close(M_PI, PI, 1e-15)
                    && close(SQRT2, 2f64.sqrt(), 1e-15)
                    && close(MILLIPOINT, 1e-3, 0.0)
                    && close(MICROPOINT, 1e-6, 0.0),
                "a constant is wrong"
            );
            obs.nontrivial(a != 0.0);
        }
        _ => return Err("no such family".into()),
    }
    obs.step();
    obs.note(|| format!("{} {:?}", fam, case));
    Ok(())
}

fn c03_enum(e: &mut Enum) {
    let m = e.pick(4i64, 5);
    let mut boxes: Vec<Vec<i64>> = vec![];
    sequences(m + 1, 4, &mut |s| {
        let c: Vec<i64> = s.iter().map(|x| x - m / 2).collect();
        if well_formed(&c) {
            boxes.push(c);
        }
        true
    });
    for b in &boxes {
        for x in -m..=m {
            for y in -m..=m {
                for k in 0..LATTICES.len() as i64 {
                    e.emit("box-and-point", &[b[0], b[1], b[2], b[3], x, y, k]);
                }
            }
        }
        for c in &boxes {
            for k in 0..LATTICES.len() as i64 {
                if e.mine() {
                    let mut case = b.clone();
                    case.extend(c);
                    case.push(k);
                    e.emit("two-boxes", &case);
                }
            }
        }
    }
    let top = e.pick(20_000, 400_000);
    for k in -top..=top {
        e.emit("rounding", &[k, 8]);
        e.emit("rounding", &[k, 10]);
        e.emit("rounding", &[k, 7]);
    }
    // Around every half up to 2^30: just below, at and just above it.
    for i in 0..30 {
        for s in [-1i64, 1] {
            for d in [-1i64, 0, 1] {
                // (2^i + 1/2) * 2^20 + d over 2^20: exact in a double.
                e.emit("rounding", &[s * (((1i64 << i) << 20) + (1 << 19) + d), 1 << 20]);
            }
        }
    }
    // Inches that are almost half a point.
    for j in (0..40).chain([99, 719, 720, 10_000, 1_000_000]) {
        for k in [2, 6, 10, 11, 12, 14, 20, 28] {
            for d in -3i64..=3 {
                for s in [-1, 1] {
                    e.emit("rounding", &[s * (((2 * j + 1) << k) + d), 72 << (k + 1)]);
                }
            }
        }
    }
    // The largest number below a half, and its neighbours: n / 2^54.
    for d in -4i64..=4 {
        for s in [-1, 1] {
            e.emit("rounding", &[s * ((1i64 << 53) + d), 1i64 << 54]);
        }
    }
    let ints = [0, 1, -1, 2, -2, 3, -3, 7, 71, 72, -72, 1000, -1000, 65535, 65536, 1 << 24, (1 << 24) + 1, i32::MAX as i64, i32::MIN as i64];
    for x in ints {
        for y in ints {
            e.emit("integers", &[x, y]);
        }
    }
    let nums: Vec<i64> = (-NUMBERS..=NUMBERS).filter(|x| *x != 0).collect();
    for &a in &nums {
        e.emit("units", &[a]);
        for &b in &nums {
            e.emit("two-numbers", &[a, b]);
            for &c in &nums {
                e.emit("three-numbers", &[a, b, c]);
            }
        }
    }
    let far = [0i64, 1, -7, 1000, -12_345, 100_001, 1 << 20, -100_000_000, 1 << 34];
    for x in far {
        for y in far {
            for dx in -3..=3 {
                for dy in -3..=3 {
                    for k in [0, 1, 5, 10, 16] {
                        e.emit("close-points", &[x, y, dx, dy, k]);
                    }
                }
            }
        }
    }
    let few: Vec<i64> = nums.iter().copied().filter(|x| x.abs() <= e.pick(14, 20)).collect();
    for &a in &few {
        for &b in &few {
            for &c in &few {
                for &d in &few {
                    e.emit("distances", &[a, b, c, d]);
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- C04

fn c04(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
    match fam {
        "vectors" => {
            let (a, b, k) = ((number(case[0]), number(case[1])), (number(case[2]), number(case[3])), number(case[4]));
            let (p, q) = (v(a.0, a.1), v(b.0, b.1));
            let pair = |p: V| -> (f64, f64) { (p.x, p.y) };
            ensure_eq!(pair(p + q), (a.0 + b.0, a.1 + b.1), "{:?} + {:?}", p, q);
            ensure_eq!(pair(p - q), (a.0 - b.0, a.1 - b.1), "{:?} - {:?}", p, q);
            ensure_eq!(pair(p * k), (a.0 * k, a.1 * k), "{:?} * {}", p, k);
            ensure_eq!(pair(k * p), (k * a.0, k * a.1), "{} * {:?}", k, p);
            if k != 0.0 {
                let d = pair(p / k);
                ensure!(close(d.0, a.0 / k, 1e-15 * (a.0 / k).abs()) && close(d.1, a.1 / k, 1e-15 * (a.1 / k).abs()), "{:?} / {}: {:?}", p, k, d);
            }
            let f: V = a.into();
            ensure_eq!(pair(f), a, "vector from {:?}", a);
            let g: (f64, f64) = p.into();
            ensure_eq!(g, a, "pair from {:?}", p);
            ensure_eq!(p == q, a == b, "{:?} == {:?}", p, q);
            ensure_eq!(format!("{:?}", p), format!("{:?}", a), "the vector's text");
            obs.steps(8);
            obs.nontrivial(a != b && a.0 != a.1);
        }
        "integer-vectors" => {
            let c: Vec<i32> = case.iter().map(|x| *x as i32).collect();
            let (p, q): (Vec2<i32>, Vec2<i32>) = ((c[0], c[1]).into(), (c[2], c[3]).into());
            let k = c[4];
            let pair = |p: Vec2<i32>| -> (i32, i32) { p.into() };
            ensure_eq!(pair(p), (c[0], c[1]), "pair and back");
            ensure_eq!(pair(p + q), (c[0] + c[2], c[1] + c[3]), "sum");
            ensure_eq!(pair(p - q), (c[0] - c[2], c[1] - c[3]), "difference");
            ensure_eq!(pair(p * k), (c[0] * k, c[1] * k), "product");
            if k != 0 {
                ensure_eq!(pair(p / k), (c[0] / k, c[1] / k), "quotient");
            }
            ensure_eq!(p == q, c[0] == c[2] && c[1] == c[3], "equality");
            ensure_eq!(pair(Vec2::default()), (0, 0), "default");
            obs.steps(5);
            obs.nontrivial(c[0] != c[1] && c[2] != c[3]);
        }
        "angles" => {
            let t = match case[1] {
                // Quarter turns, and angles close to them.
                3 => case[0] as f64 * (PI / 2.0) + case[2] as f64 * 10f64.powi(-case[3] as i32),
                _ => unit(case[0], case[1]),
            };
            let d = V::from_angle(t);
            let want = v(t.cos(), t.sin());
            ensure!(near(d, want, 1e-15), "the vector at angle {} is {:?}", t, d);
            ensure!(close(d.x.hypot(d.y), 1.0, 1e-12), "the vector at angle {} has length {}", t, d.x.hypot(d.y));
            obs.step();
            obs.nontrivial(t != 0.0);
        }
        "fill" => {
            // rows, columns, extra: every cell gets a value of its own, forwards and backwards
            let (r, c, x) = (case[0] as usize, case[1] as usize, case[2] as usize);
            let w = c + x;
            let mut arr: Array2<i32> = Array2::new(r, c, x);
            for pass in [1, -1] {
                for k in 0..r * w {
                    let k = if pass > 0 { k } else { r * w - 1 - k };
                    arr[(k / w, k % w)] = pass * (k as i32 + 1);
                }
                for k in 0..r * w {
                    ensure_eq!(arr[(k / w, k % w)], pass * (k as i32 + 1), "cell ({}, {}) of {} rows of {} + {}", k / w, k % w, r, c, x);
                }
            }
            obs.steps(2 * (r * w) as u64);
            obs.nontrivial(r * w > 1);
        }
        "array" => {
            // rows, columns, extra, constructor, then cells to write in turn
            let (r, c, x) = (case[0] as usize, case[1] as usize, case[2] as usize);
            let mut arr: Array2<i64> = if case[3] == 1 { allocArray(r, x) } else { Array2::new(r, c, x) };
            ensure_eq!((arr.rows, arr.cols, arr.extra, arr.row_size), (r, c, x, c + x), "the array's shape");
            let w = c + x;
            let mut model = vec![0i64; r * w];
            let compare = |arr: &Array2<i64>, model: &[i64]| -> CheckResult {
                for i in 0..r {
                    for j in 0..w {
                        ensure_eq!(arr[(i, j)], model[i * w + j], "cell ({}, {})", i, j);
                    }
                }
                Ok(())
            };
            compare(&arr, &model)?;
            for (n, &cell) in case[4..].iter().enumerate() {
                let (i, j) = (cell as usize / w, cell as usize % w);
                let val = 10 + n as i64;
                arr[(i, j)] = val;
                model[i * w + j] = val;
                compare(&arr, &model)?;
                arr[(i, j)] += 100;
                model[i * w + j] += 100;
                compare(&arr, &model)?;
                obs.steps(2);
                obs.state(fp_i64((r * 100 + w) as u64, model.iter().copied()));
            }
            let copy = arr.clone();
            if r * w > 0 {
                arr[(0, 0)] = -1;
            }
            compare(&copy, &model)?;
            obs.nontrivial(case.len() > 5);
        }
        _ => return Err("no such family".into()),
    }
    obs.note(|| format!("{} {:?}", fam, case));
    Ok(())
}

fn c04_enum(e: &mut Enum) {
    let few: &[i64] = &[1, 2, 3, 5, 13, -3, -5, -16, 19];
    let few = &few[..9];
    for &a in few {
        for &b in few {
            for &c in few {
                for &d in few {
                    for &k in few {
                        e.emit("vectors", &[a, b, c, d, k]);
                    }
                }
            }
        }
    }
    let m = e.pick(3, 5);
    sequences(2 * m + 1, 5, &mut |s| {
        let c: Vec<i64> = s.iter().map(|x| (x - m) * 5 + 1).collect();
        e.emit("integer-vectors", &c);
        true
    });
    for k in -200..=200 {
        for u in 0..3 {
            e.emit("angles", &[k, u]);
        }
    }
    for k in -12..=12 {
        for e10 in 1..=15 {
            for d in [-3, -1, 0, 1, 3] {
                e.emit("angles", &[k, 3, d, e10]);
            }
        }
    }
    for k in [201, 1000, 9999, 10_001, 1_000_003, 1 << 40] {
        for u in 0..3 {
            e.emit("angles", &[k, u]);
            e.emit("angles", &[-k, u]);
        }
    }
    // Long and thin arrays, every cell written.
    let long: &[i64] = if e.thorough() { &[63, 127, 255, 256, 257, 400, 511, 513, 1000, 1001, 1024, 1025, 2049, 4096, 4097, 8191, 8193, 10_000, 16_385, 32_769, 65_535, 65_537, 131_073, 262_145] } else { &[255, 256, 257, 513, 1000, 1001, 1024, 1025, 2049, 4096, 4097, 8191, 8193, 10_000, 16_385, 32_769, 65_535, 65_537, 131_073] };
    for &n in long {
        for m in [1, 2, 3, 5] {
            for x in [0, 1, 7, 63, 64, 65, 100, 257, 1000, 1025] {
                if m * (n + x) < 400_000 && e.mine() {
                    e.emit("fill", &[m, n, x]);
                }
                if n * (m + x) < 400_000 && e.mine() {
                    e.emit("fill", &[n, m, x]);
                }
            }
        }
    }
    for n in [1i64, 2, 3, 8, 16, 17, 31, 64, 65, 100, 129, 257, 300] {
        for m in [1i64, 4, 9, 33, 64, 130, 257, 300] {
            for x in [0, 1, 5, 300] {
                if e.mine() {
                    e.emit("fill", &[n, m, x]);
                }
            }
        }
    }
    // Larger arrays, a few cells each.
    let sides: &[i64] = if e.thorough() { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300] } else { &[1, 2, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 65, 129, 256, 257, 300] };
    for &r in sides {
        for &c in sides {
            for x in [0, 1, 2, 5] {
                let (w, n) = (c + x, r * (c + x));
                let cells = [0, w - 1, n - 1, n / 2, (r - 1) * w, (r - 1) * w + c - 1, (n - 1).min(w), (r / 2) * w + c / 2];
                for (i, k) in cells.iter().enumerate() {
                    if r * c > 10_000 && i > 2 {
                        continue;
                    }
                    if e.mine() {
                        e.emit("array", &[r, c, x, 0, *k, cells[(i + 3) % 8]]);
                    }
                    if r == c && e.mine() {
                        e.emit("array", &[r, c, x, 1, *k, cells[(i + 3) % 8]]);
                    }
                }
            }
        }
    }
    for r in 0..=e.pick(4i64, 5) {
        for c in 0..=e.pick(4i64, 5) {
            for x in 0..=2i64 {
                let cells = r * (c + x);
                for len in 0..=if r * (c + x) > 24 { 2 } else { 3 } {
                    if len > 0 && cells == 0 {
                        continue;
                    }
                    sequences(cells.max(1), len, &mut |s| {
                        let mut case = vec![r, c, x, 0];
                        case.extend(s);
                        e.emit("array", &case);
                        if r == c {
                            case[3] = 1;
                            e.emit("array", &case);
                        }
                        !e.stopped()
                    });
                }
            }
        }
    }
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        enumerate: c01_enum,
        check: c01,
        rule: "A case is a centre, a pair of half-axes, a start angle and a sweep; the emitted path is sampled at 16 points of every segment and compared with the ellipse's equation, its parameter is followed through the whole sweep, joints are compared for tangents. States are (axes, parameter) pairs reached at the joints. Non-trivial: a positive sweep in more than two arc segments.",
        bounds_quick: "14 pairs of half-axes (ratio up to 50, either longer), 9 of them also scaled by 10^-6 to 5000000, x 3 centres x start angles pi/12 apart over four half-turns x sweeps pi/12 apart (and the neighbours of the quarter turns); other angle units; half and full turns from 603 start angles per pair of axes; sweeps of 10^-1 to 10^-7, and that much less than a full turn; centres up to 2*10^8 away",
        bounds_thorough: "as quick, with start angles and sweeps pi/48 apart",
        assumptions: &["the Euclidean distance to the ellipse is computed to 1e-9 of the larger half-axis", "of sweeps below a thousandth of a radian only some powers of ten are explored"],
    },
    Prop {
        id: "C03",
        enumerate: c03_enum,
        check: c03,
        rule: "A case is a pair of boxes, a box with a point, or a tuple of representative numbers; box relations are compared with point sets on a lattice finer than the corners, number functions with their definitions. Non-trivial: boxes that overlap in part, points inside, numbers that rounding changes, unequal operands.",
        bounds_quick: "every pair of well-formed boxes with corners on a 5x5 lattice (degenerate ones included); the same boxes shifted and scaled (2^-40 to 2^100); pairs of points as close as doubles allow; every multiple of 1/8, 1/10 and 1/7 with numerator up to 20000; the neighbours of every 2^i + 1/2 and of 1/2; pairs and triples of 66 numbers",
        bounds_thorough: "as quick, on a 6x6 lattice and with numerators up to 400000",
        assumptions: &["NaN and numbers whose rounding does not fit 32 bits are not explored"],
    },
    Prop {
        id: "C04",
        enumerate: c04_enum,
        check: c04,
        rule: "A case is a pair of vectors with a scalar, an angle, or an array shape with a sequence of writes; after every write all cells are compared with the model. States are array contents. Non-trivial: vectors with distinct components; at least two writes.",
        bounds_quick: "9^5 floating and 7^5 integer operand tuples; 1203 angles, angles 10^-1 to 10^-15 beside the axes, and large ones; every array of up to 4 rows, 4 columns and 2 extra columns under every sequence of up to 3 writes; 17 x 17 shapes up to 300 x 305 with pairs of writes at their edges; arrays of up to 131073 rows or columns filled and read back",
        bounds_thorough: "9^5 and 11^5 tuples; arrays of up to 5 x 5 with 2 extra columns under every sequence of up to 3 writes (2 beyond 24 cells); 27 x 27 shapes",
        assumptions: &["arrays of one element type"],
    },
];

fn main() {
    mc_main(PROPS)
}
