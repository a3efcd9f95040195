//! G01-G10: graphs.
use mc::*;
use std::collections::BTreeMap;
use trellis::graph::Graph;
use trellis::layering::{create_layer_map, create_proper_graph, LayerMap};
use trellis::ortho::shortest_path::find_shortest_path;
use trellis::ramp_table::RampTable;
use trellis::testing::{graph_builder, graph_from_paths};
use trellis::topo_sort::{topo_sort, topo_sort_reverse};

/// The model of a graph: for each vertex, the heads of its edges in order.
type Gr = Vec<Vec<u32>>;

// ------------------------------------------------------------------------- the space of graphs

fn from_bits(n: usize, bits: i64, loops: bool) -> Gr {
    let mut g = vec![vec![]; n];
    let mut k = 0;
    for f in 0..n {
        for t in 0..n {
            if f == t && !loops {
                continue;
            }
            if bits >> k & 1 == 1 {
                g[f].push(t as u32);
            }
            k += 1;
        }
    }
    g
}

/// The numbering of the sequences over 0..k of length up to m: shorter first.
fn nth_list(k: usize, mut i: i64) -> Vec<u32> {
    let mut len = 0;
    let mut c = 1i64;
    while i >= c {
        i -= c;
        c *= k as i64;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let d = i % k as i64;
            i /= k as i64;
            d as u32
        })
        .collect()
}
fn num_lists(k: i64, maxlen: u32) -> i64 {
    (0..=maxlen).map(|l| k.pow(l)).sum()
}

const KINDS: i64 = 28;
const PERMS: i64 = 7;

fn big(kind: i64, n: usize, p: i64, perm: i64) -> Gr {
    let mut e: Vec<(usize, usize)> = vec![];
    let pn = p.max(1) as usize;
    match kind {
        0 => (1..n).for_each(|i| e.push((i - 1, i))),
        1 => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        2 => (1..n).for_each(|i| e.push((0, i))),
        3 => (1..n).for_each(|i| e.push((i, 0))),
        4 => (1..n).for_each(|i| e.push(((i - 1) / 2, i))),
        5 => (1..n).for_each(|i| e.push((i, (i - 1) / 2))),
        6 => {
            // a grid, pn columns, edges right and down
            for i in 0..n {
                if (i + 1) % (pn + 1) != 0 && i + 1 < n {
                    e.push((i, i + 1));
                }
                if i + pn + 1 < n {
                    e.push((i, i + pn + 1));
                }
            }
        }
        7 => {
            // separate paths of pn + 1 vertices
            for i in 1..n {
                if i % (pn + 1) != 0 {
                    e.push((i - 1, i));
                }
            }
        }
        8 => {
            if n <= 40 {
                for i in 0..n {
                    for j in i + 1..n {
                        e.push((i, j));
                    }
                }
            }
        }
        9 => {
            if n <= 24 {
                for i in 0..n {
                    for j in 0..n {
                        e.push((i, j));
                    }
                }
            }
        }
        10 => {
            // patterned, sparse
            for i in 0..n {
                for j in 0..n {
                    if mix((i * 1000 + j) as u64 ^ (p as u64) << 32) % (n as u64) < 1 + p as u64 % 3 {
                        e.push((i, j));
                    }
                }
            }
        }
        11 => {
            // patterned and acyclic
            for i in 0..n {
                for j in i + 1..n {
                    if mix((i * 1000 + j) as u64 ^ (p as u64) << 32) % (n as u64) < 2 + p as u64 % 4 {
                        e.push((i, j));
                    }
                }
            }
        }
        12 => {
            // a ladder of diamonds
            let mut i = 0;
            while i + 3 < n {
                e.extend([(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]);
                i += 3;
            }
        }
        13 => {
            // parallel edges
            for i in 1..n {
                for _ in 0..=i % (pn + 1) {
                    e.push((i - 1, i));
                }
            }
        }
        14 => {
            // an edge of every length
            for i in 0..n {
                for k in [1, 2, 4, 8, 16] {
                    if i + k < n && (i / k) % (pn + 1) == 0 {
                        e.push((i, i + k));
                    }
                }
            }
        }
        15 => {
            // a path with loops at every pn-th vertex
            for i in 0..n {
                if i % pn == 0 {
                    e.push((i, i));
                }
                if i + 1 < n {
                    e.push((i, i + 1));
                }
            }
        }
        16 => {
            // a comb: a spine with teeth
            for i in 0..n / 2 {
                if i + 1 < n / 2 {
                    e.push((i, i + 1));
                }
                e.push((i, n / 2 + i));
            }
        }
        17 => {
            // pairs, then pairs of pairs, and so on: components joined as a tournament
            let mut step = 1;
            while step < n {
                let mut i = 0;
                while i + step < n {
                    if p % 2 == 0 {
                        e.push((i, i + step));
                    } else {
                        e.push((i + step, i));
                    }
                    i += 2 * step;
                }
                step *= 2;
            }
        }
        18 => {
            // cycles of pn + 2 vertices, joined by single edges
            let k = pn + 2;
            for i in 0..n / k * k {
                e.push((i, if i % k == k - 1 { i + 1 - k } else { i + 1 }));
                if i % k == 0 && i > 0 {
                    e.push((i - 1, i));
                }
            }
        }
        19 => {
            // paths of different lengths from one vertex to another
            let mut i = 2;
            let mut len = 1;
            while i + len <= n {
                let mut prev = 0;
                for k in 0..len {
                    e.push((prev, i + k));
                    prev = i + k;
                }
                e.push((prev, 1));
                i += len;
                len = len % (pn + 3) + 1;
            }
        }
        20 => {
            // as a path, with the last vertices isolated and one back edge
            let m = n - n / 3;
            (1..m).for_each(|i| e.push((i - 1, i)));
            if m > 2 && p > 0 {
                e.push((m - 1, m / 2));
            }
        }
        21 => {
            // bipartite, both ways round by p
            let h = n / 2;
            for i in 0..h {
                for k in 0..3 {
                    let j = h + (i * (k + 1) + k) % (n - h).max(1);
                    if p % 2 == 0 {
                        e.push((i, j));
                    } else {
                        e.push((j, i));
                    }
                }
            }
        }
        22 => {
            // many edges between two vertices, and on
            let m = (pn + 1).min(n);
            for i in 0..n {
                e.push((0, 1 % m));
                if i % 7 == 0 && m > 2 {
                    e.push((1, 2));
                }
            }
            let mut g = vec![vec![]; m];
            for (f, t) in e {
                let (f, t) = if perm % 2 == 0 { (f, t) } else { (m - 1 - f, m - 1 - t) };
                g[f].push(t as u32);
            }
            return g;
        }
        23 => {
            // a path with a long edge from its start after short ones
            (1..n).for_each(|i| e.push((i - 1, i)));
            (2..n).for_each(|i| {
                if i % pn == 0 {
                    e.push((0, i))
                }
            });
        }
        24 => {
            // a start with edges to a whole path, the last of them to the path's start
            (1..n).for_each(|i| e.push((0, i)));
            (2..n).for_each(|i| {
                if i % (pn + 1) != 0 {
                    e.push((i, i - 1))
                }
            });
        }
        25 => {
            // a vertex with edges to all the later ones, behind another one; something leads back
            (2..n).for_each(|i| e.push((1, i)));
            if n > 3 {
                e.insert(0, (0, 1));
                match p {
                    0 => {}
                    1 => e.push((n - 1, 1)),
                    2 => e.push((n - 1, 0)),
                    _ => e.push((1, 1)),
                }
            }
        }
        26 => {
            // chains side by side between two vertices, or round one
            let end = if p == 3 { 0 } else { 1 };
            let mut i = 2;
            while i + pn <= n {
                let mut prev = 0;
                for k in i..i + pn {
                    e.push((prev, k));
                    prev = k;
                }
                e.push((prev, end));
                i += pn;
            }
        }
        27 => {
            // pairs, and few joins between them that lie far apart
            (0..n / 2).for_each(|i| e.push((2 * i, 2 * i + 1)));
            let m = n / 2 * 2;
            if m > 3 {
                match p {
                    0 => {}
                    1 => e.push((m - 1, 0)),
                    2 => e.extend([(0, m - 1), (2, m / 2), (m / 2, m - 2)]),
                    _ => (0..m / 4).for_each(|i| e.push((m - 1 - 2 * i, 2 * i))),
                }
            }
        }
        _ => unreachable!(),
    }
    let backwards = perm >= 5;
    let perm = if backwards { perm - 5 } else { perm };
    let mut label: Vec<usize> = (0..n).collect();
    match perm {
        0 => {}
        1 => label.reverse(),
        2 => {
            // halves interleaved
            label = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
        }
        _ => label.sort_by_key(|&i| mix(i as u64 ^ (perm as u64) << 20)),
    }
    let mut g = vec![vec![]; n];
    for (f, t) in e {
        g[label[f]].push(label[t] as u32);
    }
    if backwards {
        g.iter_mut().for_each(|l| l.reverse());
    }
    g
}

/// Decodes the graph at the start of a case; gives also what follows it.
fn decode<'a>(fam: &str, case: &'a [i64]) -> (Gr, &'a [i64]) {
    let n = case[0] as usize;
    match fam {
        "adjacency" => (from_bits(n, case[1], true), &case[2..]),
        "loopless" => (from_bits(n, case[1], false), &case[2..]),
        "lists" => ((0..n).map(|i| nth_list(n, case[1 + i])).collect(), &case[1 + n..]),
        "sparse" => {
            // n, number of edges, edge numbers
            let mut g = vec![vec![]; n];
            let k = case[1] as usize;
            for &x in &case[2..2 + k] {
                g[x as usize / n].push((x as usize % n) as u32);
            }
            (g, &case[2 + k..])
        }
        "joins" => {
            // k groups, each of an early vertex and a leaf; then vertices that join two or three
            let (k, m) = (n, case[1] as usize);
            let mut g = vec![vec![]; 2 * k + m];
            for i in 0..k {
                g[i].push((k + i) as u32);
            }
            for j in 0..m {
                let x = case[2 + j] as usize;
                let (a, b) = (x % k, x / k);
                g[2 * k + j].push((k + a) as u32);
                g[2 * k + j].push(if j % 2 == 0 { b } else { k + b } as u32);
            }
            (g, &case[2 + m..])
        }
        "patterned" => (big(case[0], case[1] as usize, case[2], case[3]), &case[4..]),
        _ => unreachable!(),
    }
}

fn build(g: &Gr) -> Graph {
    let mut r = Graph::new();
    for (i, l) in g.iter().enumerate() {
        for &t in l {
            if i % 2 == 0 {
                r.push_to(t);
            } else {
                r.edges_mut().push_value(t);
            }
        }
        r.finish_from();
    }
    r
}

fn gfp(g: &Gr) -> u64 {
    fp_i64(31, g.iter().flat_map(|l| l.iter().map(|x| *x as i64).chain([-1])))
}

fn combinations(n: i64, k: usize, f: &mut dyn FnMut(&[i64])) {
    let mut v: Vec<i64> = (0..k as i64).collect();
    if k as i64 > n {
        return;
    }
    loop {
        f(&v);
        let mut i = k;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            if v[i] < n - (k - i) as i64 {
                break;
            }
        }
        v[i] += 1;
        for j in i + 1..k {
            v[j] = v[j - 1] + 1;
        }
    }
}

fn emit_sparse(e: &mut Enum, n: i64, maxk: usize) {
    for k in 0..=maxk {
        combinations(n * n, k, &mut |c| {
            if !e.mine() {
                return;
            }
            let mut v = vec![n, k as i64];
            v.extend_from_slice(c);
            e.emit("sparse", &v);
        });
    }
}

fn emit_lists(e: &mut Enum, n: usize, maxlen: u32) {
    let k = num_lists(n as i64, maxlen);
    sequences(k, n, &mut |s| {
        if !e.mine() {
            return true;
        }
        let mut v = vec![n as i64];
        v.extend_from_slice(s);
        e.emit("lists", &v);
        !e.stopped()
    });
}

fn emit_patterned(e: &mut Enum, nmax: i64) {
    for n in 1..=nmax {
        for kind in 0..KINDS {
            for p in 0..4 {
                for perm in 0..PERMS {
                    e.emit("patterned", &[kind, n, p, perm]);
                }
            }
        }
    }
}

/// Sizes at which a count, a degree, a layer or a vertex number kept in too few bits would show.
fn emit_large(e: &mut Enum) {
    let mut sizes: Vec<i64> = vec![63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 514, 1023, 1024, 1025];
    if e.thorough() {
        sizes.extend([1026, 1500, 2047, 2048, 2049]);
    }
    let perms: &[i64] = if e.thorough() { &[0, 1, 2, 3, 4, 5, 6] } else { &[0, 1, 2, 5, 6] };
    for n in sizes {
        for kind in 0..KINDS {
            for p in 0..4 {
                for &perm in perms {
                    e.emit("patterned", &[kind, n, p, perm]);
                }
            }
        }
    }
    let mut sizes: Vec<i64> = vec![1400, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 6000, 8191, 8192, 8193, 10_000, 12_000];
    if e.thorough() {
        sizes.extend([16_383, 16_384, 16_385, 20_000]);
    }
    for n in sizes {
        for kind in (0..KINDS).filter(|k| !(8..12).contains(k)) {
            for p in 0..4 {
                if p > 0 && (kind < 6 || kind == 12 || kind == 16) {
                    continue;
                }
                for perm in 0..e.pick(2, 6) {
                    e.emit("patterned", &[kind, n, p, perm]);
                }
            }
        }
    }
    for n in [32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 70000] {
        for kind in [2, 3, 4, 5, 7, 16, 22, 25, 26, 27] {
            for p in 0..4 {
                if kind < 6 && p > 0 {
                    continue;
                }
                if kind == 16 && (n > 40000 || p > 0) {
                    continue;
                }
                for perm in 0..2 {
                    e.emit("patterned", &[kind, n, p, perm]);
                }
            }
        }
    }
    // Long paths, numbered from their ends (the search for an order takes them up in short pieces)
    // and, a few, from their starts.
    for n in [16_385, 20_000, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 65_538, 70_000, 131_073, 140_000] {
        for kind in [0, 20, 23] {
            for p in [0, 3] {
                if kind == 0 && p > 0 {
                    continue;
                }
                e.emit("patterned", &[kind, n, p * 1000, 1]);
            }
        }
    }
    // 65,538 takes seconds: a long stack is looked through at every step.
    for n in if e.thorough() { [32_769, 65_538] } else { [20_000, 32_769] } {
        e.emit("patterned", &[0, n, 0, 0]);
    }
    for n in [131_071, 131_072, 131_073, 140_001, 262_143, 262_144, 262_145] {
        for kind in [2, 3, 4, 5, 7, 25, 27] {
            for perm in 0..2 {
                e.emit("patterned", &[kind, n, 1, perm]);
            }
        }
    }
}

/// The graphs every graph property is checked on.
fn graphs(e: &mut Enum) {
    emit_large(e);
    for n in 0..=4 {
        for b in 0..1i64 << (n * n) {
            e.emit("adjacency", &[n, b]);
        }
    }
    for (n, l) in [(1, 4), (2, 4), (3, 4), (4, 2)] {
        emit_lists(e, n, l);
    }
    emit_sparse(e, 5, e.pick(5, 7));
    emit_sparse(e, 6, e.pick(5, 6));
    emit_sparse(e, 7, e.pick(4, 6));
    emit_sparse(e, 8, e.pick(4, 5));
    emit_sparse(e, 9, e.pick(3, 4));
    emit_patterned(e, e.pick(80, 160));
    for b in 0..1i64 << 20 {
        e.emit("loopless", &[5, b]);
    }
    if e.thorough() {
        for b in 0..1i64 << 25 {
            e.emit("adjacency", &[5, b]);
            if b & 0xffff == 0 && e.stopped() {
                break;
            }
        }
    }
}

const GQ: &str = "all digraphs with loops on up to 4 vertices and without on 5; all ordered edge lists up to 4 edges per vertex on 1-3 vertices, 2 on 4; all graphs of up to 5 edges on 5 and 6 vertices, 4 on 7 and 8, 3 on 9; 28 patterns x 4 parameters x 7 numberings on 1..80 vertices, x 5 numberings on 23 sizes up to 1025, 24 patterns on 16 sizes up to 12000 (stars, trees, pairs, chains and bundles up to 262145; paths up to 140000)";
const GT: &str = "all digraphs with loops on up to 5 vertices; all ordered edge lists up to 4 edges per vertex on 1-3 vertices, 2 on 4; all graphs of up to 7 edges on 5 vertices, 6 on 6 and 7, 5 on 8, 4 on 9; 28 patterns x 4 parameters x 7 numberings on 1..160 vertices, and on 28 sizes up to 2049, 24 patterns x 6 numberings on 20 sizes up to 20000 (stars, trees, pairs, chains and bundles up to 262145; paths up to 140000)";

/// Vertices in an order in which every tail comes before its heads, if there is one.
fn kahn(g: &Gr) -> Option<Vec<usize>> {
    let n = g.len();
    let mut indeg = vec![0; n];
    for l in g {
        for &t in l {
            indeg[t as usize] += 1;
        }
    }
    let mut ready: Vec<usize> = (0..n).filter(|&v| indeg[v] == 0).collect();
    let mut out = vec![];
    while let Some(v) = ready.pop() {
        out.push(v);
        for &t in &g[v] {
            indeg[t as usize] -= 1;
            if indeg[t as usize] == 0 {
                ready.push(t as usize);
            }
        }
    }
    if out.len() == n {
        Some(out)
    } else {
        None
    }
}

fn has_edge(g: &Gr) -> Vec<bool> {
    let mut r: Vec<bool> = g.iter().map(|l| !l.is_empty()).collect();
    for l in g {
        for &t in l {
            r[t as usize] = true;
        }
    }
    r
}

fn unchanged(graph: &Graph, g: &Gr) -> CheckResult {
    ensure!(graph.edges().iter().eq(g.iter().map(|l| &l[..])), "the input graph changed: {:?}, expected {:?}", graph, g);
    Ok(())
}

// ------------------------------------------------------------------------------------------ G01

fn g01_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let (g, _) = decode(fam, case);
    let graph = build(&g);
    let t = graph.transpose();
    o.step();
    let mut want: Gr = vec![vec![]; g.len()];
    for (f, l) in g.iter().enumerate() {
        for &to in l {
            want[to as usize].push(f as u32);
        }
    }
    ensure_eq!(t.num_verts(), g.len(), "{:?}: vertices of the transpose", g);
    ensure_eq!(t.num_edges(), graph.num_edges(), "{:?}: edges of the transpose", g);
    for v in 0..g.len() {
        ensure_eq!(t.edges_from(v as u32), &want[v][..], "{:?}: edges of {} in the transpose", g, v);
    }
    let tt = t.transpose();
    o.step();
    for v in 0..g.len() {
        let mut l = g[v].clone();
        l.sort();
        ensure_eq!(tt.edges_from(v as u32), &l[..], "{:?}: edges of {} in the transpose of the transpose", g, v);
    }
    ensure!(tt.transpose() == t, "{:?}: three transposes differ from one", g);
    unchanged(&graph, &g)?;
    o.state(gfp(&g));
    o.nontrivial(want.iter().any(|l| l.len() > 1));
    o.note(|| format!("{:?} -> {:?}", g, want));
    Ok(())
}

// ------------------------------------------------------------------------------------------ G02

fn g02_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let (g, _) = decode(fam, case);
    let graph = build(&g);
    let cyclic = kahn(&g).is_none();
    for rev in [false, true] {
        let r = if rev { topo_sort_reverse(&graph) } else { topo_sort(&graph) };
        o.step();
        match r {
            Err(e) => {
                ensure!(cyclic, "{:?} (reverse {}): error {:?} for a graph without cycles", g, rev, e);
                ensure!(e == trellis::error::Error::FoundCycle, "{:?}: error {:?}", g, e);
            }
            Ok(order) => {
                ensure!(!cyclic, "{:?} (reverse {}): order {:?} for a graph with a cycle", g, rev, order);
                let mut pos = vec![usize::MAX; g.len()];
                for (i, &v) in order.iter().enumerate() {
                    ensure!((v as usize) < g.len(), "{:?}: order {:?} has a vertex that does not exist", g, order);
                    ensure!(pos[v as usize] == usize::MAX, "{:?}: order {:?} lists {} twice", g, order, v);
                    pos[v as usize] = i;
                }
                for (v, &h) in has_edge(&g).iter().enumerate() {
                    ensure!(h == (pos[v] != usize::MAX), "{:?} (reverse {}): order {:?} at vertex {}", g, rev, order, v);
                }
                for (f, l) in g.iter().enumerate() {
                    for &t in l {
                        let ok = if rev { pos[f] > pos[t as usize] } else { pos[f] < pos[t as usize] };
                        ensure!(ok, "{:?} (reverse {}): order {:?} against the edge {} -> {}", g, rev, order, f, t);
                    }
                }
            }
        }
    }
    unchanged(&graph, &g)?;
    o.state(gfp(&g));
    o.nontrivial(g.iter().map(|l| l.len()).sum::<usize>() > 1);
    o.note(|| format!("{:?} cyclic {}", g, cyclic));
    Ok(())
}

// ------------------------------------------------------------------------------------------ G03

fn longest(g: &Gr) -> Option<Vec<u32>> {
    let order = kahn(g)?;
    let mut l = vec![0u32; g.len()];
    for &f in order.iter().rev() {
        for &t in &g[f] {
            l[f] = l[f].max(l[t as usize] + 1);
        }
    }
    Some(l)
}

fn g03_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let (g, _) = decode(fam, case);
    let graph = build(&g);
    let got = create_layer_map(&graph);
    o.step();
    match (got, longest(&g)) {
        (Err(e), None) => ensure!(e == trellis::error::Error::FoundCycle, "{:?}: error {:?}", g, e),
        (Ok(m), Some(l)) => {
            ensure_eq!(m.v_layer, l, "{:?}: layers", g);
            ensure_eq!(m.num_layers, l.iter().max().copied().unwrap_or(0) as usize + 1, "{:?}: number of layers", g);
            o.nontrivial(m.num_layers > 2);
        }
        (a, b) => return Err(format!("{:?}: got {:?}, expected {:?}", g, a, b)),
    }
    unchanged(&graph, &g)?;
    o.state(gfp(&g));
    o.note(|| format!("{:?} -> {:?}", g, longest(&g)));
    Ok(())
}

// ------------------------------------------------------------------------------------------ G04

fn proper_check(g: &Gr, layers: &[u32], o: &mut Obs) -> CheckResult {
    let graph = build(g);
    let lm = LayerMap { num_layers: layers.iter().max().copied().unwrap_or(0) as usize + 1, v_layer: layers.to_vec() };
    let ctx = || format!("{:?} with layers {:?}", g, layers);
    let p = create_proper_graph(&graph, &lm);
    o.step();
    let nv = g.len();
    let mut want: Vec<(u32, u32, u32)> = vec![];
    for (f, l) in g.iter().enumerate() {
        for &t in l {
            want.push((f as u32, t, layers[f] - layers[t as usize]));
        }
    }
    let virt: usize = want.iter().map(|x| x.2 as usize - 1).sum();
    ensure_eq!(p.num_verts(), nv + virt, "{}: vertices", ctx());
    ensure_eq!(p.num_edges(), want.len() + virt, "{}: edges", ctx());
    let all: Vec<Vec<u32>> = p.edges().iter().map(|l| l.to_vec()).collect();
    ensure_eq!(all.len(), nv + virt, "{}: vertices iterated", ctx());
    let mut indeg = vec![0; nv + virt];
    for l in &all {
        for &t in l {
            ensure!((t as usize) < nv + virt, "{}: an edge to vertex {} of {}", ctx(), t, nv + virt);
            indeg[t as usize] += 1;
        }
    }
    for v in nv..nv + virt {
        ensure!(all[v].len() == 1 && indeg[v] == 1, "{}: new vertex {} has {} edges out and {} in: {:?}", ctx(), v, all[v].len(), indeg[v], all);
    }
    let mut got = vec![];
    let mut used = vec![false; nv + virt];
    for f in 0..nv {
        for &t in &all[f] {
            let mut len = 1;
            let mut v = t as usize;
            while v >= nv {
                ensure!(!used[v], "{}: new vertex {} belongs to two edges: {:?}", ctx(), v, all);
                used[v] = true;
                v = all[v][0] as usize;
                len += 1;
            }
            got.push((f as u32, v as u32, len));
        }
    }
    for v in nv..nv + virt {
        ensure!(used[v], "{}: new vertex {} belongs to no edge: {:?}", ctx(), v, all);
    }
    got.sort();
    want.sort();
    ensure_eq!(got, want, "{}: (from, to, span) of the edges", ctx());
    unchanged(&graph, g)?;
    o.nontrivial(virt > 0);
    o.state(fp_i64(gfp(g), layers.iter().map(|x| *x as i64)));
    o.note(|| format!("{} -> {:?}", ctx(), all));
    Ok(())
}

fn valid(g: &Gr, layers: &[u32]) -> bool {
    g.iter().enumerate().all(|(f, l)| l.iter().all(|&t| layers[f] > layers[t as usize]))
}

fn g04_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let (g, rest) = decode(fam, case);
    if rest.is_empty() {
        if let Some(l) = longest(&g) {
            let virt: u64 = g.iter().enumerate().map(|(f, to)| to.iter().map(|&t| (l[f] - l[t as usize] - 1) as u64).sum::<u64>()).sum();
            if virt > 300_000 {
                return Ok(());
            }
            proper_check(&g, &l, o)?;
            let cm = create_layer_map(&build(&g)).map_err(|e| format!("{:?}: {:?}", g, e))?;
            ensure_eq!(cm.v_layer, l, "{:?}: layers", g);
            if g.len() > 200 {
                // The new vertices would be too many.
                return Ok(());
            }
            // stretched, and with gaps
            let s: Vec<u32> = l.iter().map(|x| x * 3 + 2).collect();
            proper_check(&g, &s, o)?;
            let s: Vec<u32> = l.iter().enumerate().map(|(i, x)| x * (g.len() as u32 + 1) + i as u32).collect();
            proper_check(&g, &s, o)?;
        }
        Ok(())
    } else {
        let l: Vec<u32> = rest.iter().map(|x| *x as u32).collect();
        proper_check(&g, &l, o)
    }
}

fn g04_enum(e: &mut Enum) {
    // Every acyclic graph on up to four vertices with every valid layering in a few layers.
    let layers = e.pick(5, 6);
    let n5 = e.thorough();
    let mut layered = |e: &mut Enum, fam: &'static str, code: Vec<i64>, layers: i64| {
        let (g, _) = decode(fam, &code);
        if kahn(&g).is_none() {
            return;
        }
        sequences(layers, g.len(), &mut |s| {
            let l: Vec<u32> = s.iter().map(|x| *x as u32).collect();
            if valid(&g, &l) {
                let mut c = code.clone();
                c.extend_from_slice(s);
                e.emit(fam, &c);
            }
            !e.stopped()
        });
    };
    for n in 1..=4 {
        for b in 0..1i64 << (n * (n - 1)) {
            layered(e, "loopless", vec![n, b], layers);
        }
    }
    let k = num_lists(3, 3);
    sequences(k, 3, &mut |s| {
        let mut c = vec![3];
        c.extend_from_slice(s);
        layered(e, "lists", c, 4);
        !e.stopped()
    });
    if n5 {
        for b in 0..1i64 << 20 {
            layered(e, "loopless", vec![5, b], 5);
        }
    }
    // Long edges.
    let mut spans: Vec<i64> = (1..=300).collect();
    spans.extend([511, 512, 513, 1023, 1024, 1025, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000]);
    for s in spans {
        // 0 -> 1; 0 -> 1 twice and 1 -> 2; 2 -> 1, 2 -> 0, 1 -> 0
        e.emit("lists", &[2, 2, 0, s, 0]);
        e.emit("lists", &[3, 8, 3, 0, s + 1, 1, 0]);
        e.emit("lists", &[3, 0, 1, 5, 0, s, s + 2]);
    }
    graphs(e);
}

// ------------------------------------------------------------------------------------------ G05

fn g05_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let (g, _) = decode(fam, case);
    let graph = build(&g);
    let d = trellis::disjoint::find_disjoint_subgraphs(&graph);
    o.step();
    // Components by repeated flooding.
    let n = g.len();
    let mut adj = vec![vec![]; n];
    for (f, l) in g.iter().enumerate() {
        for &t in l {
            adj[f].push(t as usize);
            adj[t as usize].push(f);
        }
    }
    let has = has_edge(&g);
    let mut seen = vec![false; n];
    let mut want: Vec<Vec<u32>> = vec![];
    for v in 0..n {
        if has[v] && !seen[v] {
            let mut comp = vec![];
            let mut st = vec![v];
            seen[v] = true;
            while let Some(x) = st.pop() {
                comp.push(x as u32);
                for &y in &adj[x] {
                    if !seen[y] {
                        seen[y] = true;
                        st.push(y);
                    }
                }
            }
            comp.sort();
            want.push(comp);
        }
    }
    let mut got: Vec<Vec<u32>> = d.subgraphs.iter().map(|s| s.to_vec()).collect();
    for s in &mut got {
        s.sort();
    }
    got.sort();
    want.sort();
    ensure_eq!(got, want, "{:?}: subgraphs", g);
    ensure_eq!(d.subgraphs.num_values(), want.iter().map(|x| x.len()).sum::<usize>(), "{:?}: vertices in subgraphs", g);
    unchanged(&graph, &g)?;
    o.state(gfp(&g));
    o.nontrivial(want.len() > 1 || want.iter().any(|c| c.len() > 2));
    o.note(|| format!("{:?} -> {:?}", g, want));
    Ok(())
}

fn g05_enum(e: &mut Enum) {
    graphs(e);
    for (k, m) in [(2, 3), (3, 3), (4, 3), (4, 4), (5, e.pick(3, 4)), (6, e.pick(3, 4))] {
        for m in 0..=m {
            sequences(k * k, m, &mut |s| {
                if !e.mine() {
                    return true;
                }
                let mut c = vec![k, m as i64];
                c.extend_from_slice(s);
                e.emit("joins", &c);
                !e.stopped()
            });
        }
    }
}

// ------------------------------------------------------------------------------------------ G06

fn g06_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let (g, _) = decode(fam, case);
    let graph = build(&g);
    let c = trellis::find_chains::find_chains(&graph);
    o.step();
    let n = g.len();
    let mut indeg = vec![0; n];
    for l in &g {
        for &t in l {
            indeg[t as usize] += 1;
        }
    }
    let plain = |v: u32| indeg[v as usize] == 1 && g[v as usize].len() == 1 && g[v as usize][0] != v;
    let mut want = vec![];
    for f in 0..n as u32 {
        if plain(f) {
            continue;
        }
        for &t in &g[f as usize] {
            if plain(t) {
                let mut ch = vec![f];
                let mut v = t;
                while plain(v) {
                    ch.push(v);
                    v = g[v as usize][0];
                }
                ch.push(v);
                want.push(ch);
            }
        }
    }
    let mut got: Vec<Vec<u32>> = c.iter().map(|s| s.to_vec()).collect();
    ensure_eq!(c.num_values(), got.iter().map(|x| x.len()).sum::<usize>(), "{:?}: values outside chains", g);
    got.sort();
    want.sort();
    ensure_eq!(got, want, "{:?}: chains", g);
    unchanged(&graph, &g)?;
    o.state(gfp(&g));
    o.nontrivial(want.iter().any(|c| c.len() > 3) || want.len() > 1);
    o.note(|| format!("{:?} -> {:?}", g, want));
    Ok(())
}

// ------------------------------------------------------------------------------------------ G07

fn g07_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    match fam {
        "degrees" => {
            // nv, list...
            let nv = case[0];
            let list: Vec<u32> = case[1..].iter().map(|x| *x as u32).collect();
            let want: Vec<u64> = (0..nv).map(|v| list.iter().filter(|x| **x as i64 == v).count() as u64).collect();
            let got = trellis::find_degree(&list, nv as u32);
            o.step();
            ensure_eq!(got.iter().map(|x| *x as u64).collect::<Vec<_>>(), want, "{:?}: degrees", list);
            let r = trellis::find_referenced_edges(&list, nv as usize);
            o.step();
            ensure_eq!(r, want.iter().map(|x| *x > 0).collect::<Vec<_>>(), "{:?}: referenced", list);
            o.state(fp_i64(41, want.iter().map(|x| *x as i64)));
            o.nontrivial(want.iter().filter(|x| **x > 1).count() > 0);
        }
        "held" => {
            // three starting degrees, list...
            let start = [case[0], case[1], case[2]];
            let list: Vec<u32> = case[3..].iter().map(|x| *x as u32).collect();
            let mut d: Vec<u16> = start.iter().map(|x| *x as u16).collect();
            let got = trellis::add_degree(&list, &mut d);
            o.steps(list.len() as u64);
            let exact: Vec<i64> = (0..3).map(|v| start[v] + list.iter().filter(|x| **x as usize == v).count() as i64).collect();
            ensure_eq!(d.iter().map(|x| *x as i64).collect::<Vec<_>>(), exact.iter().map(|x| (*x).min(65535)).collect::<Vec<_>>(), "{:?} then {:?}: degrees", start, list);
            ensure_eq!(got, exact.iter().any(|x| *x > 65535), "{:?} then {:?}: held", start, list);
            o.state(fp_i64(42, exact.iter().copied()));
            o.nontrivial(got);
        }
        "many" => {
            // count of vertex 0, count of vertex 1, interleaved
            let (a, b) = (case[0], case[1]);
            let mut list = vec![];
            for i in 0..a.max(b) {
                if i < a {
                    list.push(0);
                }
                if i < b {
                    list.push(1);
                }
            }
            let got = trellis::find_degree(&list, 3);
            o.steps(list.len() as u64);
            ensure_eq!(got.iter().map(|x| *x as i64).collect::<Vec<_>>(), vec![a.min(65535), b.min(65535), 0], "{} and {} mentions: degrees", a, b);
            // in two goes
            let mut d = vec![0u16; 3];
            let h = list.len() / 2;
            let r1 = trellis::add_degree(&list[..h], &mut d);
            let r2 = trellis::add_degree(&list[h..], &mut d);
            ensure_eq!(d, got, "{} and {} mentions: degrees in two goes", a, b);
            ensure_eq!(r1 || r2, a > 65535 || b > 65535, "{} and {} mentions: held", a, b);
            // one mention of the last vertex, behind all the others
            list.push(2);
            let r = trellis::find_referenced_edges(&list, 4);
            ensure_eq!(r, vec![a > 0, b > 0, true, false], "{} and {} mentions, then one of vertex 2: referenced", a, b);
            let got = trellis::find_degree(&list, 4);
            ensure_eq!(got.iter().map(|x| *x as i64).collect::<Vec<_>>(), vec![a.min(65535), b.min(65535), 1, 0], "{} and {} mentions, then one of vertex 2: degrees", a, b);
            o.state(fp_i64(43, case.iter().copied()));
            o.nontrivial(a > 65535);
        }
        _ => {
            let (g, _) = decode(fam, case);
            let graph = build(&g);
            let n = g.len();
            let mut inc = vec![0i64; n];
            let mut all = vec![];
            for l in &g {
                for &t in l {
                    inc[t as usize] += 1;
                    all.push(t);
                }
            }
            ensure_eq!(trellis::find_sources(graph.edges()), inc.iter().map(|x| *x == 0).collect::<Vec<_>>(), "{:?}: sources", g);
            ensure_eq!(trellis::find_sinks(graph.edges()), g.iter().map(|l| l.is_empty()).collect::<Vec<_>>(), "{:?}: sinks", g);
            ensure_eq!(trellis::find_referenced_edges(graph.edges().all_values(), n), inc.iter().map(|x| *x > 0).collect::<Vec<_>>(), "{:?}: referenced", g);
            ensure_eq!(trellis::find_degree(&all, n as u32).iter().map(|x| *x as i64).collect::<Vec<_>>(), inc.iter().map(|x| (*x).min(65535)).collect::<Vec<_>>(), "{:?}: degrees", g);
            o.steps(4);
            o.state(gfp(&g));
            o.nontrivial(all.len() > 1);
        }
    }
    o.note(|| format!("{:?}", &case[..case.len().min(8)]));
    Ok(())
}

fn g07_enum(e: &mut Enum) {
    for nv in 1..=4 {
        for len in 0..=e.pick(6, 8) {
            sequences(nv, len, &mut |s| {
                let mut c = vec![nv];
                c.extend_from_slice(s);
                e.emit("degrees", &c);
                true
            });
        }
    }
    let ds = [0i64, 1, 255, 256, 32767, 65532, 65533, 65534, 65535];
    for s in 0..ds.len().pow(3) {
        let (a, b, c) = (ds[s % 9], ds[s / 9 % 9], ds[s / 81]);
        for len in 0..=e.pick(4, 5) {
            sequences(3, len, &mut |q| {
                let mut v = vec![a, b, c];
                v.extend_from_slice(q);
                e.emit("held", &v);
                true
            });
        }
    }
    for a in [0i64, 1, 254, 255, 256, 257, 511, 512, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 70000, 131070, 131071, 131072, 131073, 200_000, 262_143, 262_145, 1_048_577] {
        for b in [0i64, 1, 255, 256, 65534, 65535, 65536] {
            e.emit("many", &[a, b]);
        }
    }
    graphs(e);
}

// ------------------------------------------------------------------------------------------ G08

/// The first `max` walks from `v`, in order.
fn walks(g: &Gr, v: u32, out: &mut Vec<u32>, max: usize) {
    // vertices on the way, with the number of edges taken
    let mut way = vec![(v, 0)];
    while let Some((v, i)) = way.last_mut() {
        match g[*v as usize].get(*i) {
            None => {
                way.pop();
            }
            Some(&t) => {
                if out.len() >= max {
                    return;
                }
                *i += 1;
                out.push(t);
                way.push((t, 0));
            }
        }
    }
}

fn g08_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let (g, _) = decode(fam, case);
    let graph = build(&g);
    let n = g.len();
    let max = match n {
        0..=4 => 48,
        5..=99 => 300,
        _ => 3 * n + 300,
    };
    let starts: Vec<usize> = if n < 1400 && fam == "patterned" || n < 100 { (0..n).collect() } else { vec![0, 1, 2, n / 3, n / 2, n - 2, n - 1] };
    for s in starts {
        let s = s as u32;
        let max = if n < 1400 && s as usize % 97 > 2 { max.min(300) } else { max };
        let mut want = vec![];
        walks(&g, s, &mut want, max);
        let mut it = trellis::traverse_depth_first_preorder(graph.edges(), s);
        for (i, &w) in want.iter().enumerate() {
            let x = it.next();
            o.step();
            ensure!(x == Some(w), "{:?} from {}: item {} is {:?}, expected {} of {:?}", g, s, i, x, w, want);
        }
        if want.len() < max {
            for _ in 0..3 {
                let x = it.next();
                ensure!(x.is_none(), "{:?} from {}: goes on with {:?} after {:?}", g, s, x, want);
            }
        }
        // However it is consumed.
        if n <= 3 || fam == "patterned" && n < 60 {
            if want.len() < max && want.len() < 70 {
                iter_laws!(trellis::traverse_depth_first_preorder(graph.edges(), s), &want, |x: u32| x, CheckResult::Ok(()), "the traversal").map_err(|e| format!("{:?} from {}: {}", g, s, e))?;
            }
            for first in 0..2 {
                for k in [0, 1, 2, 3, 7, 20, 40] {
                    if first + k + 2 < want.len() {
                        let mut it = trellis::traverse_depth_first_preorder(graph.edges(), s);
                        if first > 0 {
                            it.next();
                        }
                        let left = if want.len() == max { usize::MAX } else { want.len() - first };
                        let (lo, hi) = it.size_hint();
                        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{:?} from {}: size_hint after {} is {:?}", g, s, first, (lo, hi));
                        let x = (it.nth(k), it.next());
                        let w = (Some(want[first + k]), Some(want[first + k + 1]));
                        ensure!(x == w, "{:?} from {}: nth({}) after {} and the next are {:?}, expected {:?}", g, s, k, first, x, w);
                    }
                }
            }
        }
        if want.len() > 2 {
            o.nontrivial(true);
            o.note(|| format!("{:?} from {}: {:?}", g, s, &want[..want.len().min(20)]));
        }
        // Two traversals at once do not disturb one another.
        if want.len() > 1 && want.len() < 10 {
            let mut a = trellis::traverse_depth_first_preorder(graph.edges(), s);
            a.next();
            let b: Vec<u32> = trellis::traverse_depth_first_preorder(graph.edges(), s).take(want.len() + 1).collect();
            ensure_eq!(b, want, "{:?} from {}: second traversal", g, s);
            ensure_eq!(a.next(), Some(want[1]), "{:?} from {}: first traversal, second item", g, s);
        }
    }
    o.state(gfp(&g));
    Ok(())
}

// ------------------------------------------------------------------------------------------ G09

/// A builder call; vertices are scaled by `scale`.
fn g09_op(op: i64, b: &mut trellis::testing::GraphBuilder, m: &mut Vec<(u32, u32)>, scale: u32) {
    let mut path = |m: &mut Vec<(u32, u32)>, vs: &[u32]| {
        for w in vs.windows(2) {
            m.push((w[0], w[1]));
        }
    };
    match op {
        0..=8 => {
            let vs = [0, 1, 3];
            let (f, t) = (vs[op as usize / 3] * scale, vs[op as usize % 3] * scale);
            b.edge(f, t);
            m.push((f, t));
        }
        9 => {
            let p = [2 * scale, 0, scale];
            b.path(&p);
            path(m, &p);
        }
        10 => {
            let p = [scale, scale, 4 * scale, scale];
            b.path(&p);
            path(m, &p);
        }
        11 => b.path(&[5 * scale]),
        12 => b.path(&[]),
        13 => {
            b.from(2 * scale).to(scale).to(0).to(2 * scale);
            path(m, &[2 * scale, scale, 0, 2 * scale]);
        }
        14 => {
            b.from(0).to(4 * scale);
            m.push((0, 4 * scale));
        }
        15 => {
            let _ = b.from(7 * scale);
        }
        _ => unreachable!(),
    }
}

fn views_agree(graph: &Graph, want: &Gr) -> CheckResult {
    ensure_eq!(graph.num_verts(), want.len(), "{:?}: vertices", want);
    ensure_eq!(graph.num_edges(), want.iter().map(|l| l.len()).sum::<usize>(), "{:?}: edges", want);
    for v in 0..want.len() {
        ensure_eq!(graph.edges_from(v as u32), &want[v][..], "edges of {}", v);
        ensure_eq!(graph.edges().entry_values(v), &want[v][..], "table entry of {}", v);
    }
    let flat: Vec<(u32, u32)> = want.iter().enumerate().flat_map(|(f, l)| l.iter().map(move |t| (f as u32, *t))).collect();
    ensure_eq!(graph.iter_edges_flattened().collect::<Vec<_>>(), flat, "flattened edges");
    let per: Vec<(u32, Vec<u32>)> = want.iter().enumerate().map(|(f, l)| (f as u32, l.clone())).collect();
    ensure_eq!(graph.iter_from_edges().map(|(f, l)| (f, l.to_vec())).collect::<Vec<_>>(), per, "edges per vertex");
    Ok(())
}

fn g09_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let model = |m: &[(u32, u32)]| {
        let n = m.iter().map(|&(f, t)| f.max(t) as usize + 1).max().unwrap_or(0);
        let mut w: Gr = vec![vec![]; n];
        for &(f, t) in m {
            w[f as usize].push(t);
        }
        w
    };
    match fam {
        "builder" => {
            let mut b = graph_builder();
            let mut m = vec![];
            for &op in &case[1..] {
                g09_op(op, &mut b, &mut m, case[0] as u32);
                o.step();
            }
            let graph = b.build();
            let want = model(&m);
            views_agree(&graph, &want).map_err(|e| format!("after {:?}: {}", m, e))?;
            o.state(gfp(&want));
            o.nontrivial(m.len() > 2);
            o.note(|| format!("{:?}", m));
        }
        "paths" => {
            // several paths, separated by -1
            let paths: Vec<Vec<u32>> = case.split(|x| *x < 0).map(|p| p.iter().map(|x| *x as u32).collect()).collect();
            let refs: Vec<&[u32]> = paths.iter().map(|p| &p[..]).collect();
            let graph = graph_from_paths(&refs);
            o.step();
            let mut m = vec![];
            for p in &paths {
                for w in p.windows(2) {
                    m.push((w[0], w[1]));
                }
            }
            let want = model(&m);
            views_agree(&graph, &want).map_err(|e| format!("paths {:?}: {}", paths, e))?;
            o.state(gfp(&want));
            o.nontrivial(m.len() > 2);
        }
        "long" => {
            // a path of `len` vertices, v * by + from modulo `n`; in one go, in pieces and by steps
            let (len, by, from, n) = (case[0] as u32, case[1] as u64, case[2] as u64, case[3] as u64);
            let vs: Vec<u32> = (0..len as u64).map(|i| ((i * by + from) % n) as u32).collect();
            let m: Vec<(u32, u32)> = vs.windows(2).map(|w| (w[0], w[1])).collect();
            let want = model(&m);
            let mut b = graph_builder();
            b.path(&vs);
            let one = b.build();
            o.step();
            views_agree(&one, &want).map_err(|e| format!("a path of {} vertices {} * i + {} modulo {}: {}", len, by, from, n, e))?;
            ensure!(graph_from_paths(&[&vs]) == one, "{:?}: graph_from_paths", case);
            let mut b = graph_builder();
            let mut at = 0;
            let mut piece = 2;
            while at + 1 < vs.len() {
                let to = (at + piece).min(vs.len());
                b.path(&vs[at..to]);
                o.step();
                at = to - 1;
                piece = piece * 2 - 1;
            }
            ensure!(b.build() == one, "{:?}: the path in pieces of doubling length", case);
            let pieces: Vec<&[u32]> = vs.windows(2).collect();
            ensure!(graph_from_paths(&pieces) == one, "{:?}: graph_from_paths of the edges", case);
            if let Some(&f) = vs.first() {
                let mut b = graph_builder();
                let mut s = b.from(f);
                for &v in &vs[1..] {
                    s = s.to(v);
                }
                o.step();
                ensure!(b.build() == one, "{:?}: the path by steps", case);
            }
            o.state(fp_i64(44, case.iter().copied()));
            o.nontrivial(len > 2);
        }
        "dangling" => {
            // vertices, then edge lists separated by -2; -1 is the largest number there is
            let n = case[0] as usize;
            let g: Gr = case[1..].split(|x| *x == -2).take(n).map(|l| l.iter().map(|x| if *x == -1 { u32::MAX } else { *x as u32 }).collect()).collect();
            let graph = build(&g);
            let good = g.iter().flatten().all(|t| (*t as usize) < n);
            let r = std::panic::catch_unwind(|| trellis::graph::assert_graph_is_well_formed(&graph));
            if r.is_err() {
                let _ = last_panic();
            }
            ensure_eq!(r.is_ok(), good, "{:?}: the graph is found well formed", g);
            o.step();
            o.state(gfp(&g));
            o.nontrivial(!good && g.iter().flatten().count() > 1);
        }
        _ => {
            let (g, _) = decode(fam, case);
            let graph = build(&g);
            o.step();
            trellis::graph::assert_graph_is_well_formed(&graph);
            views_agree(&graph, &g).map_err(|e| format!("{:?}: {}", g, e))?;
            // The builder gives the same graph, up to trailing isolated vertices.
            let mut b = graph_builder();
            let mut m = vec![];
            for f in (0..g.len()).rev() {
                for &t in &g[f] {
                    b.edge(f as u32, t);
                    m.push((f as u32, t));
                    o.step();
                }
            }
            let built = b.build();
            views_agree(&built, &model(&m)).map_err(|e| format!("{:?} built: {}", m, e))?;
            let same = g.len() == model(&m).len();
            ensure_eq!(built == graph, same, "{:?}: equality of a graph and its rebuilding", g);
            ensure!(graph.clone() == graph, "{:?}: a clone differs", g);
            if g.len() <= 3 || fam == "patterned" && g.len() < 80 {
                let flat: Vec<(u32, u32)> = g.iter().enumerate().flat_map(|(f, l)| l.iter().map(move |t| (f as u32, *t))).collect();
                let per: Vec<(u32, Vec<u32>)> = g.iter().enumerate().map(|(f, l)| (f as u32, l.clone())).collect();
                iter_laws!(graph.iter_edges_flattened(), &flat, |x: (u32, u32)| x, CheckResult::Ok(()), "iter_edges_flattened").map_err(|e| format!("{:?}: {}", g, e))?;
                iter_laws!(graph.iter_from_edges(), &per, |(f, l): (u32, &[u32])| (f, l.to_vec()), CheckResult::Ok(()), "iter_from_edges").map_err(|e| format!("{:?}: {}", g, e))?;
            }
            o.state(gfp(&g));
            o.nontrivial(m.len() > 1);
        }
    }
    Ok(())
}

fn g09_enum(e: &mut Enum) {
    for scale in [1, 40] {
        for len in 0..=if scale == 1 { e.pick(4, 5) } else { 3 } {
            sequences(16, len, &mut |s| {
                if !e.mine() {
                    return true;
                }
                let mut c = vec![scale];
                c.extend_from_slice(s);
                e.emit("builder", &c);
                !e.stopped()
            });
        }
    }
    for len in 1..=e.pick(7, 8) {
        sequences(4, len, &mut |s| {
            let c: Vec<i64> = s.iter().map(|x| [-1, 0, 2, 3][*x as usize]).collect();
            e.emit("paths", &c);
            true
        });
    }
    // Long paths: through all vertices, back through them, round and round.
    for len in (0..=140).chain([255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 4098, 5000, 8193, 10_000, 16_385, 20_000, 32_769, 65_535, 65_536, 65_537, 65_538, 70_000]) {
        let n = len.max(1);
        for (by, from, modulus) in [(1, 0, n), (n - 1, n - 1, n), (1, 0, 3), (1, 0, 1), (7, 3, n / 2 + 1), (1, 0, 100), (5, 0, 66_000)] {
            e.emit("long", &[len, by, from, modulus]);
        }
    }
    // Edges to vertices that may not exist.
    for n in 0..=3i64 {
        for len in 0..=if n == 0 { 0 } else { n - 1 + e.pick(3, 4) } {
            let alphabet = [-2, 0, n - 1, n, -1];
            sequences(5, len as usize, &mut |s| {
                let c: Vec<i64> = s.iter().map(|x| alphabet[*x as usize]).collect();
                if c.iter().filter(|x| **x == -2).count() as i64 == n - 1 {
                    e.emit("dangling", &[&[n], &c[..]].concat());
                }
                true
            });
        }
    }
    for n in [10i64, 40, 64, 65, 130, 257, 300] {
        for bad in [n, n + 1, 65_536 + n / 2, -1] {
            for at in (0..n).filter(|a| n < 20 || a % 9 == 0 || *a > n - 5) {
                for place in 0..4 {
                    let mut c = vec![n];
                    for v in 0..n {
                        for k in 0..3 {
                            c.push(if v == at && k == place { bad } else { (v * 3 + k) % n });
                        }
                        if v + 1 < n {
                            c.push(-2);
                        }
                    }
                    e.emit("dangling", &c);
                }
            }
        }
    }
    graphs(e);
}

// ------------------------------------------------------------------------------------------ G10

type Wg = Vec<Vec<(i32, i32)>>;

/// The vertices are known to the search as `v * name_by + name_from`.
fn path_check(g: &Wg, name_by: i32, name_from: i32, o: &mut Obs) -> CheckResult {
    let n = g.len();
    let inf = i64::MAX / 4;
    let mut d = vec![];
    if n <= 40 {
        // Floyd-Warshall.
        d = vec![vec![inf; n]; n];
        for v in 0..n {
            for &(t, w) in &g[v] {
                d[v][t as usize] = d[v][t as usize].min(w as i64);
            }
            d[v][v] = 0;
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    d[i][j] = d[i][j].min(d[i][k] + d[k][j]);
                }
            }
        }
    }
    let from = |a: usize| -> Vec<i64> {
        // Bellman and Ford's.
        if let Some(r) = d.get(a) {
            return r.clone();
        }
        let mut r = vec![inf; n];
        r[a] = 0;
        if n > 600 {
            // Dijkstra's.
            let mut q = std::collections::BinaryHeap::new();
            q.push((std::cmp::Reverse(0i64), a));
            while let Some((std::cmp::Reverse(d), v)) = q.pop() {
                if d > r[v] {
                    continue;
                }
                for &(t, w) in &g[v] {
                    if d + (w as i64) < r[t as usize] {
                        r[t as usize] = d + w as i64;
                        q.push((std::cmp::Reverse(r[t as usize]), t as usize));
                    }
                }
            }
            return r;
        }
        let mut again = true;
        while again {
            again = false;
            for v in 0..n {
                for &(t, w) in &g[v] {
                    if r[v] < inf && r[v] + (w as i64) < r[t as usize] {
                        r[t as usize] = r[v] + w as i64;
                        again = true;
                    }
                }
            }
        }
        r
    };
    let pairs: Vec<(usize, usize)> = if n <= 6 {
        (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect()
    } else {
        let m = n - 1;
        vec![(0, m), (m, 0), (0, m / 2), (m / 2, 0), (m / 3, m), (1, 1)]
    };
    for (a, b) in pairs {
        let d = from(a);
        let name = |v: i32| v.wrapping_mul(name_by).wrapping_add(name_from);
        let unname = |x: i32| (0..n as i32).find(|&v| name(v) == x);
        let asked = std::cell::Cell::new(0usize);
        let r = if name_by == 1 && name_from == 0 {
            find_shortest_path(
                |v: i32| {
                    asked.set(asked.get() + 1);
                    g[v as usize].iter().copied()
                },
                a as i32,
                b as i32,
            )
        } else {
            let r = find_shortest_path(
                |x: i32| g[unname(x).expect("a vertex that does not exist") as usize].iter().map(|&(t, w)| (name(t), w)),
                name(a as i32),
                name(b as i32),
            );
            match r {
                None => None,
                Some(p) => {
                    let q: Option<Vec<i32>> = p.iter().map(|&x| unname(x)).collect();
                    ensure!(q.is_some(), "{:?}: path {:?} has a vertex that does not exist", g, p);
                    q
                }
            }
        };
        o.step();
        let edges: usize = (0..n).filter(|v| d[*v] < inf).map(|v| g[v].len()).sum();
        ensure!(asked.get() <= edges + 1, "{:?}: the search from {} to {} asks {} times for the edges of a vertex; {} edges can be reached", g, a, b, asked.get(), edges);
        match r {
            None => ensure!(d[b] >= inf, "{:?}: no path from {} to {}, but one of weight {} exists", g, a, b, d[b]),
            Some(p) => {
                ensure!(d[b] < inf, "{:?}: path {:?} from {} to {}, which cannot be reached", g, p, a, b);
                ensure!(p.first() == Some(&(b as i32)) && p.last() == Some(&(a as i32)), "{:?}: path {:?} does not lead from {} to {}", g, p, a, b);
                ensure!(a != b || p.len() == 1, "{:?}: path {:?} from {} to itself", g, p, a);
                let mut w = 0i64;
                for s in p.windows(2) {
                    // listed from the destination back
                    let e = g[s[1] as usize].iter().filter(|x| x.0 == s[0]).map(|x| x.1).min();
                    match e {
                        None => return Err(format!("{:?}: path {:?} uses an edge {} -> {} that does not exist", g, p, s[1], s[0])),
                        Some(e) => w += e as i64,
                    }
                }
                ensure!(w == d[b], "{:?}: path {:?} from {} to {} has weight {}, the least is {}", g, p, a, b, w, d[b]);
                o.nontrivial(p.len() > 2);
                o.note(|| format!("{:?}: {:?}", g, p));
            }
        }
    }
    Ok(())
}

fn g10_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let g: Wg = match fam {
        "matrix" => {
            // n, weights of all ordered pairs (loops too), -1 for none
            let n = case[0] as usize;
            (0..n).map(|f| (0..n).filter(|t| case[1 + f * n + t] >= 0).map(|t| (t as i32, case[1 + f * n + t] as i32)).collect()).collect()
        }
        "loopless" => {
            let n = case[0] as usize;
            let mut k = 1;
            let mut g: Wg = vec![vec![]; n];
            for f in 0..n {
                for t in 0..n {
                    if f != t {
                        if case[k] >= 0 {
                            g[f].push((t as i32, case[k] as i32));
                        }
                        k += 1;
                    }
                }
            }
            g
        }
        "acyclic" => {
            // n, reversed order of edges?, permutation kind, weights of the pairs i < j
            let n = case[0] as usize;
            let lab = |i: usize| match case[2] {
                0 => i,
                1 => n - 1 - i,
                _ => (i * 3 + 2) % n,
            };
            let mut k = 3;
            let mut g: Wg = vec![vec![]; n];
            for f in 0..n {
                for t in f + 1..n {
                    if case[k] >= 0 {
                        g[lab(f)].push((lab(t) as i32, case[k] as i32));
                    }
                    k += 1;
                }
            }
            if case[1] == 1 {
                g.iter_mut().for_each(|l| l.reverse());
            }
            g
        }
        "parallel" => {
            // n, then (from, to, weight) triples in order
            let mut g: Wg = vec![vec![]; case[0] as usize];
            for t in case[1..].chunks(3) {
                g[t[0] as usize].push((t[1] as i32, t[2] as i32));
            }
            g
        }
        "fan" => {
            // a fan of k middles: weights in, weights out
            let k = (case.len() - 1) / 2;
            let mut g: Wg = vec![vec![]; k + 2];
            for i in 0..k {
                g[0].push((i as i32 + 2, case[1 + i] as i32));
                g[i + 2].push((1, case[1 + k + i] as i32));
                if case[0] == 1 {
                    g[i + 2].push(((i + 1) as i32 % k as i32 + 2, 1));
                }
            }
            g
        }
        "patterned" => {
            let (g, rest) = decode("patterned", case);
            g.iter().enumerate().map(|(f, l)| l.iter().enumerate().map(|(i, &t)| (t as i32, match rest[0] {
                0 => 1,
                1 => ((f * 7 + t as usize * 3 + i) % 5) as i32,
                2 => (mix((f * 1000 + t as usize) as u64) % 1000) as i32,
                _ => if (f + i) % 3 == 0 { if g.len() > 600 { 10_000 } else { 1_000_000 } } else { 0 },
            })).collect()).collect()
        }
        _ => unreachable!(),
    };
    o.state(fp_i64(51, g.iter().flat_map(|l| l.iter().flat_map(|x| [x.0 as i64, x.1 as i64]).chain([-9]))));
    path_check(&g, 1, 0, o)?;
    if g.len() <= 5 && fam != "loopless" {
        path_check(&g, -1, -1, o)?;
        let most = g.iter().flatten().map(|x| x.1).max().unwrap_or(0);
        if most < 8 {
            let mut h = g.clone();
            h.iter_mut().flatten().for_each(|x| x.1 *= 60_000_001);
            path_check(&h, 715_827_883, -1_431_655_766, o)?;
        }
    }
    Ok(())
}

fn g10_enum(e: &mut Enum) {
    let weights = |e: &mut Enum, fam: &'static str, pre: &[i64], slots: usize, ws: &[i64]| {
        sequences(ws.len() as i64, slots, &mut |s| {
            if !e.mine() {
                return true;
            }
            let mut c = pre.to_vec();
            c.extend(s.iter().map(|x| ws[*x as usize]));
            e.emit(fam, &c);
            !e.stopped()
        });
    };
    weights(e, "matrix", &[1], 1, &[-1, 0, 1]);
    weights(e, "matrix", &[2], 4, &[-1, 0, 1, 2, 3, 100]);
    weights(e, "matrix", &[3], 9, &[-1, 0, 1, 3]);
    weights(e, "loopless", &[3], 6, &[-1, 0, 1, 2, 3, 5]);
    weights(e, "loopless", &[4], 12, if e.thorough() { &[-1, 0, 1, 4] } else { &[-1, 1, 3] });
    for r in 0..2 {
        for l in 0..3 {
            weights(e, "acyclic", &[4, r, l], 6, &[-1, 0, 1, 2, 4, 7]);
            weights(e, "acyclic", &[5, r, l], 10, if e.thorough() { &[-1, 1, 2, 5] } else { &[-1, 1, 4] });
        }
    }
    for n in 2..=3i64 {
        for len in 0..=e.pick(3, 4) {
            sequences(n * n * 3, len, &mut |s| {
                let mut c = vec![n];
                for x in s {
                    c.extend([x % n, x / n % n, x / n / n]);
                }
                e.emit("parallel", &c);
                !e.stopped()
            });
        }
    }
    for n in [41, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513] {
        for kind in 0..KINDS {
            for p in 0..3 {
                for perm in 0..e.pick(2, PERMS) {
                    for w in 0..4 {
                        e.emit("patterned", &[kind, n, p, perm, w]);
                    }
                }
            }
        }
    }
    for n in [1023, 1024, 1025, 2049, 4095, 4096, 4097, 5000] {
        for kind in 0..KINDS {
            for p in 0..3 {
                for perm in 0..2 {
                    e.emit("patterned", &[kind, n, p, perm, (kind + p + perm + n / 1000) % 4]);
                }
            }
        }
    }
    for n in [8193, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000] {
        for kind in [0, 1, 2, 4, 6, 12] {
            for w in 0..4 {
                e.emit("patterned", &[kind, n, 2, n % 2, w]);
            }
        }
    }
    // Fans of middles in patterned orders.
    for k in (8..=e.pick(40, 100)).chain([127, 128, 129, 255, 256, 257, 300]) {
        for cross in 0..2 {
            for by in 1..k.min(24) {
                for outs in 0..3 {
                    let mut c = vec![cross];
                    let ins: Vec<i64> = (0..k).map(|i| 1 + (i * by + i / 7) % k).collect();
                    c.extend(&ins);
                    c.extend(ins.iter().enumerate().map(|(i, x)| match outs {
                        0 => 1,
                        1 => k - x,
                        _ => (i as i64 * 5 + 3) % k,
                    }));
                    e.emit("fan", &c);
                }
            }
        }
    }
    for k in 1..=e.pick(7, 8) {
        permutations(k, &mut |p| {
            for cross in 0..2 {
                for outs in 0..4 {
                    let mut c = vec![cross];
                    c.extend(p.iter().map(|x| x + 1));
                    c.extend((0..k as i64).map(|i| match outs {
                        0 => 0,
                        1 => k as i64 - p[i as usize],
                        2 => 2 * (k as i64 - p[i as usize]),
                        _ => i * 3 % 4,
                    }));
                    e.emit("fan", &c);
                }
            }
        });
    }
    for n in 1..=e.pick(30, 80) {
        for kind in 0..KINDS {
            for p in 0..3 {
                for perm in 0..PERMS {
                    for w in 0..4 {
                        e.emit("patterned", &[kind, n, p, perm, w]);
                    }
                }
            }
        }
    }
}

static PROPS: &[Prop] = &[
    Prop { id: "G01", enumerate: graphs, check: g01_check, rule: "Every graph of a bounded space is transposed once, twice and three times and compared with the reversed edge multiset. Non-trivial: a vertex with several incoming edges.", bounds_quick: GQ, bounds_thorough: GT, assumptions: &["every vertex is finished (no edges without a tail)"] },
    Prop { id: "G02", enumerate: graphs, check: g02_check, rule: "Every graph of a bounded space is sorted both ways; the verdict is compared with repeated removal of sources, and an order is checked against every edge. Non-trivial: at least two edges.", bounds_quick: GQ, bounds_thorough: GT, assumptions: &["every vertex is finished (no edges without a tail)"] },
    Prop { id: "G03", enumerate: graphs, check: g03_check, rule: "Every graph of a bounded space is layered and compared with the longest paths, found as a fixed point. Non-trivial: at least three layers.", bounds_quick: GQ, bounds_thorough: GT, assumptions: &["every vertex is finished (no edges without a tail)"] },
    Prop { id: "G04", enumerate: g04_enum, check: g04_check, rule: "Every acyclic graph of a bounded space with every valid layering in few layers, and larger ones with the computed layering and two stretched ones; the chains are read back from the proper graph. Non-trivial: at least one new vertex.", bounds_quick: "all acyclic graphs on up to 4 vertices x all valid layerings in 5 layers; all ordered edge lists up to 3 edges per vertex on 3 vertices x all valid layerings in 4 layers; the acyclic ones among the common graph space with 3 layerings each", bounds_thorough: "6 layers on up to 4 vertices; all acyclic graphs on 5 vertices x all valid layerings in 5 layers; the thorough common graph space", assumptions: &["the layering is valid and its layer count is one more than its highest layer"] },
    Prop { id: "G05", enumerate: g05_enum, check: g05_check, rule: "Every graph of a bounded space, and every sequence of joins between separately started groups; compared with components found by flooding. Non-trivial: several components, or one of at least three vertices.", bounds_quick: "the common graph space; all sequences of up to 4 joins of 4 groups and 3 of 5 and 6", bounds_thorough: "the thorough common graph space; up to 4 joins of up to 6 groups", assumptions: &["every vertex is finished (no edges without a tail)"] },
    Prop { id: "G06", enumerate: graphs, check: g06_check, rule: "Every graph of a bounded space; compared with chains read off from exact degrees. Non-trivial: several chains or one with two plain vertices.", bounds_quick: GQ, bounds_thorough: GT, assumptions: &["every vertex is finished (no edges without a tail)"] },
    Prop { id: "G07", enumerate: g07_enum, check: g07_check, rule: "Every short edge list; every triple of starting degrees near the limits with every short list; counts around the limit; every graph of a bounded space. Non-trivial: a degree above one or held.", bounds_quick: "all lists up to length 6 on 1-4 vertices; 9^3 starting degrees x all lists up to length 4; 27 x 7 counts up to 1048577; the common graph space", bounds_thorough: "lists up to length 8 and 5; the thorough common graph space", assumptions: &[] },
    Prop { id: "G08", enumerate: graphs, check: g08_check, rule: "Every graph of a bounded space, from every start; the first items (all, if the traversal ends before) are compared with recursively enumerated walks. Non-trivial: at least three items.", bounds_quick: "the common graph space (see G01), every start, the first 48 items on up to 4 vertices and 300 on more; 3n + 300 items from 7 starts and more on 100 vertices and up; on up to 3 vertices and patterned graphs below 60 also consumed in every way", bounds_thorough: "the thorough common graph space, likewise", assumptions: &[] },
    Prop { id: "G09", enumerate: g09_enum, check: g09_check, rule: "Every history of builder calls, every set of short paths, every graph of a bounded space; all views compared with the list of added edges. Non-trivial: at least two or three edges.", bounds_quick: "all histories of 16 builder calls up to length 4, and up to 3 with vertices scaled to 280; all short edge lists on up to 3 vertices with edges to missing vertices, and one such edge among up to 900; all path sets of total length up to 7; 7 paths of each of 173 lengths up to 70000, whole, in pieces and by steps; the common graph space; both edge iterators of the small graphs consumed in every way", bounds_thorough: "histories up to length 5, path sets up to 8; the thorough common graph space", assumptions: &["every vertex is finished (no edges without a tail)"] },
    Prop { id: "G10", enumerate: g10_enum, check: g10_check, rule: "Every weighted graph of a bounded space, every pair of vertices; weight compared with Floyd-Warshall, the path with the graph, and the requests for edges counted. Non-trivial: a path of at least two edges.", bounds_quick: "all graphs with loops on 3 vertices, weights {none,0,1,3}; without on 3, weights {none,0,1,2,3,5}; on 4, {none,1,3}; acyclic on 4 and 5 vertices in 3 numberings and both edge orders; all lists of up to 3 parallel edges; all permutations of fans up to 7, patterned fans up to 300; 28 patterns x 21 x 4 weightings on 1..30 vertices and on 13 sizes up to 513, x 6 on 8 sizes up to 5,000, 6 patterns up to 70,000 vertices; renamed vertices and heavy weights for up to 5 vertices", bounds_thorough: "on 4 vertices weights {none,0,1,4}; acyclic on 5, {none,1,2,5}; 4 parallel edges; fans of 8; patterns up to 80 vertices", assumptions: &["path weights fit in 32 bits"] },
];

fn main() {
    mc_main(PROPS)
}
