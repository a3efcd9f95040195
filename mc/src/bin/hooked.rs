//! P08, C02: private entry points, reached through hooks guarded by cfg(trellis_verif).
#[cfg(not(trellis_verif))]
fn main() {
    eprintln!("built without --cfg trellis_verif");
    std::process::exit(2)
}

#[cfg(trellis_verif)]
#[path = "../geo.rs"]
mod geo;

#[cfg(trellis_verif)]
fn main() {
    mc::mc_main(imp::PROPS)
}

#[cfg(trellis_verif)]
mod imp {
    use crate::geo::*;
    use mc::*;
    use trellis::common::colxlate::verif as col;
    use trellis::pathplan::triang::verif_triangulate;
    use trellis::polyline::Ppoly_t;

    // ------------------------------------------------------------------------------------ P08

    fn p08(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
        // placement, polygon
        let place = PLACES[case[0] as usize];
        let mut i = 1;
        let mut base = read_poly(case, &mut i);
        if fam == "nudged" {
            // By the least amount that doubles can tell.
            let by = read_poly(case, &mut i);
            base = base.iter().zip(by).map(|(p, d)| nudged(*p, d)).collect();
        }
        // The direction that the convexity test takes for ears: clockwise with y upwards.
        let flip = (area2w(&base) > 0) != place.mirror;
        let poly: Vec<Pt> = if flip { base.into_iter().rev().collect() } else { base };
        let n = poly.len();
        let ps: Vec<_> = poly.iter().map(|p| place.at(*p, if fam == "nudged" { NUDGE } else { 1 })).collect();
        let mut tris: Vec<[Pt; 3]> = vec![];
        let mut foreign = None;
        let r = verif_triangulate(&Ppoly_t { ps: ps.clone() }, &mut |a, b, c| {
            let mut t = [(0, 0); 3];
            for (i, p) in [a, b, c].into_iter().enumerate() {
                match ps.iter().position(|q| q.x == p.x && q.y == p.y) {
                    Some(k) => t[i] = poly[k],
                    None => foreign = Some(p),
                }
            }
            tris.push(t);
        });
        ensure!(r.is_ok(), "triangulation reports an error");
        ensure!(foreign.is_none(), "{:?} is not a vertex of the polygon", foreign);
        ensure_eq!(tris.len(), n - 2, "number of triangles");
        let total: i128 = tris.iter().map(|t| area2w(t).abs()).sum();
        for t in &tris {
            obs.step();
            let mut s = t.to_vec();
            s.sort();
            obs.state(fp_i64(8, s.iter().flat_map(|p| [p.0, p.1])));
            ensure!(area2w(t) != 0, "the triangle {:?} is flat", t);
            // Inside: every side is inside the closed polygon, and so is the centroid.
            for i in 0..3 {
                ensure!(segment_in_polygon(t[i], t[(i + 1) % 3], &poly), "the side {:?} of {:?} leaves the polygon", (t[i], t[(i + 1) % 3]), t);
            }
            let c3 = (t[0].0 + t[1].0 + t[2].0, t[0].1 + t[1].1 + t[2].1);
            let poly3: Vec<Pt> = poly.iter().map(|p| (3 * p.0, 3 * p.1)).collect();
            ensure!(locate(c3, &poly3) > 0, "the triangle {:?} is outside the polygon", t);
        }
        for i in 0..tris.len() {
            for j in 0..i {
                ensure!(!triangles_overlap(&tris[i], &tris[j]), "the triangles {:?} and {:?} overlap", tris[i], tris[j]);
            }
        }
        ensure_eq!(total, area2w(&poly).abs(), "twice the area covered");
        obs.nontrivial(n > 3 && !convex(&poly));
        obs.note(|| format!("{:?} -> {:?}", poly, tris));
        Ok(())
    }

    fn case(place: i64, p: &[Pt]) -> Vec<i64> {
        let mut c = vec![place];
        push_poly(&mut c, p);
        c
    }

    fn p08_enum(e: &mut Enum) {
        // Points a hair beside a line.
        for &(n, m) in if e.thorough() { &[(3, 6), (4, 5), (5, 5)][..] } else { &[(3, 6), (4, 5), (5, 4)][..] } {
            slivers(n, m, &mut |p, d| {
                if e.mine() {
                    let mut c = case(0, p);
                    push_poly(&mut c, d);
                    e.emit("nudged", &c);
                }
            });
        }
        // Points a hair beside the lattice.
        for &(w, h, n, most) in if e.thorough() { &[(3, 3, 3, 3), (4, 3, 4, 3), (4, 4, 4, 2), (3, 3, 5, 3), (4, 3, 5, 2), (4, 4, 5, 1), (3, 3, 6, 2), (4, 3, 6, 1), (4, 4, 6, 0), (3, 3, 8, 1), (4, 3, 7, 1), (4, 3, 8, 0), (5, 5, 4, 0), (5, 5, 5, 0)][..] } else { &[(3, 3, 3, 3), (3, 3, 4, 3), (4, 3, 4, 2), (4, 4, 4, 1), (3, 3, 5, 2), (4, 3, 5, 1), (4, 4, 5, 0), (4, 3, 6, 0), (3, 3, 8, 1), (4, 3, 7, 0)][..] } {
            lattice_polygons(w, h, n, n < 6, &mut |p| {
                nudges(n, most, &mut |d| {
                    let q: Vec<Pt> = p.iter().zip(d).map(|(p, d)| nudged(*p, *d)).collect();
                    if (0..n).all(|i| orient(q[i], q[(i + 1) % n], q[(i + 2) % n]) != 0) && e.mine() {
                        let mut c = case(0, p);
                        push_poly(&mut c, d);
                        e.emit("nudged", &c);
                    }
                });
                !e.stopped()
            });
        }
        let plan: &[(i64, i64, usize)] = if e.thorough() {
            &[(4, 4, 3), (4, 4, 4), (4, 4, 5), (4, 4, 6), (4, 4, 7), (4, 4, 8), (3, 3, 8), (4, 3, 8), (4, 3, 9), (5, 3, 7), (5, 5, 4), (5, 5, 5), (5, 4, 6), (6, 6, 4)]
        } else {
            &[(4, 4, 3), (4, 4, 4), (4, 4, 5), (4, 4, 6), (4, 4, 7), (3, 3, 8), (4, 3, 8), (5, 3, 7), (5, 5, 4), (5, 5, 5)]
        };
        for &(w, h, n) in plan {
            lattice_polygons(w, h, n, true, &mut |p| {
                if area2i(p) < 0 && e.mine() {
                    e.emit("lattice", &case(0, p));
                }
                !e.stopped()
            });
        }
        radial(e.pick(4, 5), &mut |p| e.emit("radial", &case(0, p)));
        for p in families(e.pick(30, 60)) {
            // Every starting vertex.
            for r in 0..p.len() {
                let mut q = p.clone();
                q.rotate_left(r);
                for k in 0..PLACES.len() as i64 {
                    e.emit("family", &case(k, &q));
                }
            }
        }
        // Many vertices, a few starts each.
        let sizes: &[i64] = if e.thorough() { &[40, 66, 100, 130, 180, 258, 300, 400, 514, 600, 800, 1030] } else { &[40, 66, 100, 130, 180, 258, 300, 400, 520] };
        for &m in sizes {
            for p in large(m) {
                let places = places_for(&[p.clone()], 1);
                for r in [0, 1, p.len() / 3, p.len() / 2, p.len() - 1] {
                    if r > 1 && m > 200 && !e.thorough() {
                        continue;
                    }
                    let mut q = p.clone();
                    q.rotate_left(r);
                    e.emit("large", &case(places[r % places.len()], &q));
                }
            }
        }
    }

    // ------------------------------------------------------------------------------------ C02

    fn sector(h: f64, s: f64, v: f64, n: f64) -> f64 {
        // The standard closed form: v - v s max(0, min(k, 4 - k, 1)), k = (n + 6 h) mod 6.
        let k = (n + 6.0 * h) % 6.0;
        v - v * s * k.min(4.0 - k).min(1.0).max(0.0)
    }

    fn rgb_checks(r: i64, g: i64, b: i64, d: i64) -> CheckResult {
        let f = |x: i64| x as f64 / d as f64;
        let [h, s, v] = col::rgb2hsv(f(r), f(g), f(b));
        let (mx, mn) = (r.max(g).max(b), r.min(g).min(b));
        ensure!((v - f(mx)).abs() < 1e-12, "value of ({}, {}, {})/{}: {}", r, g, b, d, v);
        let ws = if mx == 0 { 0.0 } else { (mx - mn) as f64 / mx as f64 };
        ensure!((s - ws).abs() < 1e-12, "saturation of ({}, {}, {})/{}: {} instead of {}", r, g, b, d, s, ws);
        // Hue in exact sixths over (max - min).
        let wh = if mx == mn {
            0.0
        } else {
            let c = (mx - mn) as i128;
            let [r, g, b, mx] = [r as i128, g as i128, b as i128, mx as i128];
            let num = if mx == r {
                (g - b).rem_euclid(6 * c)
            } else if mx == g {
                2 * c + (b - r)
            } else {
                4 * c + (r - g)
            };
            num as f64 / (6 * c) as f64
        };
        ensure!((0.0..1.0).contains(&h), "hue of ({}, {}, {})/{} is {}", r, g, b, d, h);
        // Hues just below one may round to zero.
        let dh = (h - wh).abs();
        ensure!(dh < 1e-12 || wh > 0.5 && (dh - 1.0).abs() < 1e-12, "hue of ({}, {}, {})/{}: {} instead of {}", r, g, b, d, h, wh);
        let [r2, g2, b2] = col::hsv2rgb(h, s, v);
        ensure!(
            (r2 - f(r)).abs() < 1e-12 && (g2 - f(g)).abs() < 1e-12 && (b2 - f(b)).abs() < 1e-12,
            "({}, {}, {})/{} through HSV becomes {:?}",
            r,
            g,
            b,
            d,
            (r2, g2, b2)
        );
        let cmyk = col::rgb2cmyk(f(r), f(g), f(b));
        ensure!(cmyk.iter().all(|x| *x >= 0.0 && *x <= 1.0), "CMYK of ({}, {}, {})/{}: {:?}", r, g, b, d, cmyk);
        let [c, m, y, k] = cmyk;
        ensure!((k - (1.0 - f(mx))).abs() < 1e-12, "black of ({}, {}, {})/{}: {}", r, g, b, d, k);
        ensure!(
            (1.0 - c - k - f(r)).abs() < 1e-12 && (1.0 - m - k - f(g)).abs() < 1e-12 && (1.0 - y - k - f(b)).abs() < 1e-12,
            "({}, {}, {})/{} is not recovered from {:?}",
            r,
            g,
            b,
            d,
            cmyk
        );
        Ok(())
    }

    fn c02(fam: &str, case: &[i64], obs: &mut Obs) -> CheckResult {
        match fam {
            // One row of the colour cube: red, green, denominator, step of blue.
            "colours" => {
                let mut b = 0;
                while b <= case[2] {
                    rgb_checks(case[0], case[1], b, case[2])?;
                    obs.steps(4);
                    b += case[3];
                }
                obs.nontrivial(case[0] != case[1]);
            }
            "colour" => {
                rgb_checks(case[0], case[1], case[2], case[3])?;
                obs.steps(4);
                obs.nontrivial(case[0] != case[1] && case[1] != case[2]);
            }
            // hue, saturation, value over their denominators
            "hsv" => {
                let (h, s, v) = (case[0] as f64 / case[1] as f64, case[2] as f64 / case[3] as f64, case[4] as f64 / case[5] as f64);
                let got = col::hsv2rgb(h, s, v);
                let hh = if h >= 1.0 { 0.0 } else { h };
                let want = [sector(hh, s, v, 5.0), sector(hh, s, v, 3.0), sector(hh, s, v, 1.0)];
                for i in 0..3 {
                    ensure!((got[i] - want[i]).abs() < 1e-12, "HSV ({}, {}, {}) is {:?}, expected {:?}", h, s, v, got, want);
                }
                let [h2, s2, v2] = col::rgb2hsv(got[0], got[1], got[2]);
                ensure!((v2 - v).abs() < 1e-12, "value {} becomes {}", v, v2);
                if v > 0.0 {
                    ensure!((s2 - s).abs() < 1e-9, "saturation {} becomes {}", s, s2);
                    if s > 0.0 {
                        let d = (h2 - hh).abs();
                        ensure!(d.min(1.0 - d) < 1e-9, "hue {} becomes {}", h, h2);
                    } else {
                        ensure!(h2 == 0.0, "the grey has hue {}", h2);
                    }
                }
                obs.steps(2);
                obs.nontrivial(s > 0.0 && v > 0.0);
            }
            _ => return Err("no such family".into()),
        }
        obs.note(|| format!("{} {:?}", fam, case));
        Ok(())
    }

    fn c02_enum(e: &mut Enum) {
        let step = 1;
        let mut r = 0;
        while r <= 255 {
            let mut g = 0;
            while g <= 255 {
                e.emit("colours", &[r, g, 255, step]);
                g += step;
            }
            r += step;
        }
        for n in if e.thorough() { vec![360, 100, 127, 256, 511] } else { vec![100] } {
            for r in 0..=n {
                for g in 0..=n {
                    e.emit("colours", &[r, g, n, 1]);
                }
            }
        }
        // Colours with two channels that are equal or differ by one.
        for a in 0..256 {
            for b in 0..256 {
                for d in [-1, 0, 1] {
                    let c = (a + d).clamp(0, 255);
                    for t in [[a, c, b], [a, b, c], [b, a, c]] {
                        e.emit("colour", &[t[0], t[1], t[2], 255]);
                    }
                }
            }
        }
        // Channels that are tiny, nearly equal, or nearly full.
        let d = 1i64 << 60;
        let mut near: Vec<i64> = vec![0, 1, 1 << 7, 1 << 12, 1 << 20, d / 4096, d / 2048, d / 1024, d / 256, d / 3 >> 10 << 10, d / 4, d / 2, d];
        for x in [d / 4, d / 2, d] {
            for k in [8, 12, 20, 30, 40, 48, 49, 50, 52].iter().take(9) {
                near.push(x - (1 << k));
                if x < d {
                    near.push(x + (1 << (k + 1)));
                }
            }
        }
        near.retain(|x| *x as f64 as i64 == *x);
        for &r in &near {
            for &g in &near {
                for &b in &near {
                    if e.mine() {
                        e.emit("colour", &[r, g, b, d]);
                    }
                }
            }
        }
        let hs = e.pick(720, 1440);
        let q = e.pick(40, 100);
        for h in 0..=hs {
            for s in 0..=q {
                for v in 0..=q {
                    e.emit("hsv", &[h, hs, s, q, v, q]);
                }
            }
        }
        // Beside every sector boundary.
        for k in 0..=6i64 {
            for d in [-1i64, 1] {
                let h = k * (1 << 30) + d;
                if h < 0 {
                    continue;
                }
                for s in 0..=q.min(60) {
                    e.emit("hsv", &[h, 6 << 30, s, q, 3, 4]);
                }
            }
        }
    }

    pub static PROPS: &[Prop] = &[
        Prop {
            id: "P08",
            enumerate: p08_enum,
            check: p08,
            rule: "A case is a simple polygon given by its vertices; the emitted triangles are compared with it exactly in integers: corners are vertices, n-2 triangles, every side and the centroid in the closed polygon, no two interiors meet, areas add up. States are distinct triangles. Non-trivial: a non-convex polygon.",
            bounds_quick: "every simple polygon without collinear consecutive vertices, from every starting vertex: up to 7 vertices on a 4x4 lattice and 5x3, 8 on 4x3, 5 on 5x5; every star-shaped octagon with radii up to 4; combs, stars, spirals, snakes, saws and staircases of up to 30 vertices from every start under 11 exact similarities (offsets to 2^31, scales 2^-24 to 2^20); parabolic arcs, hills, waves, combs, stairs, saws, spirals, snakes, stars of nine sizes from about 40 to 520 vertices; lattices turned so that products of coordinates are rounded, with up to 3 vertices moved by the least amount that doubles can tell, and every polygon of 3 (4; 5) points that far beside 6 (5; 4) of a line, exactly decided",
            bounds_thorough: "as quick, with up to 8 vertices on 4x4, 9 on 4x3, 6 on 5x4, 4 on 6x6, families of up to 60 vertices, radii up to 5, large polygons of 12 sizes up to 1030 vertices from 5 starts",
            assumptions: &["polygons are given in the direction that the triangulation expects (clockwise with y upwards)"],
        },
        Prop {
            id: "C02",
            enumerate: c02_enum,
            check: c02,
            rule: "A case is a row of the colour cube, a colour, or a hue/saturation/value triple; conversions are compared with the standard formulas in exact integer fractions and taken there and back. Non-trivial: unequal channels; positive saturation and value.",
            bounds_quick: "all 256^3 colours and all whose channels are multiples of 1/100; 721 hues x 41 saturations x 41 values, and both sides of every sector boundary; all triples of 39 channels that are tiny, nearly full or nearly equal to a quarter, a half or one",
            bounds_thorough: "as quick, with 1441 hues x 101 saturations x 101 values, and all colours whose channels are multiples of 1/127, 1/256, 1/360 or 1/511",
            assumptions: &["components are compared to within 1e-12"],
        },
    ];
}
