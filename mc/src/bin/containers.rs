//! R01-R02 (ramp table), V01-V04 (optional vector), Q01 (priority queue).
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use trellis::priority_queue::PQ;
use trellis::ramp_table::{RampTable, RampTableBuilder};
use trellis::vec_option::VecOption;

// ------------------------------------------------------------------------------------------ R01

#[derive(Clone, Default, PartialEq, Debug)]
struct RtModel {
    keys: Vec<Vec<u32>>,
    tail: Vec<u32>,
}

impl RtModel {
    fn flat(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.keys.iter().flatten().copied().collect();
        v.extend(&self.tail);
        v
    }
    fn fp(&self) -> u64 {
        // The values are positions in the history; the abstract state is the shape.
        fp_i64(self.tail.len() as u64, self.keys.iter().map(|k| k.len() as i64))
    }
}

fn rt_compare(t: &mut RampTable<u32>, m: &RtModel, deep: bool) -> CheckResult {
    ensure_eq!(t.len(), m.keys.len(), "number of keys");
    ensure_eq!(t.is_empty(), m.keys.is_empty(), "is_empty");
    #[allow(deprecated)]
    let nk = t.num_keys();
    ensure_eq!(nk, m.keys.len(), "num_keys");
    let flat = m.flat();
    ensure_eq!(t.num_values(), flat.len(), "number of values");
    ensure_eq!(t.all_values(), &flat[..], "all values");
    let mut pos = 0;
    for (k, vs) in m.keys.iter().enumerate() {
        ensure_eq!(t.entry_values(k), &vs[..], "values of key {}", k);
        ensure_eq!(&t[k], &vs[..], "index by key {}", k);
        ensure_eq!(t.entry_values_range(k), pos..pos + vs.len(), "range of key {}", k);
        pos += vs.len();
    }
    ensure_eq!(t.iter().len(), m.keys.len(), "exact size of iter");
    ensure!(t.iter().eq(m.keys.iter().map(|k| &k[..])), "forward iteration differs");
    ensure!(t.iter().rev().eq(m.keys.iter().rev().map(|k| &k[..])), "backward iteration differs");
    {
        // From both ends at once.
        let mut it = t.iter();
        let (mut a, mut b) = (0, m.keys.len());
        let mut turn = true;
        while a < b {
            if turn {
                ensure_eq!(it.next(), Some(&m.keys[a][..]), "mixed iteration, front {}", a);
                a += 1;
            } else {
                b -= 1;
                ensure_eq!(it.next_back(), Some(&m.keys[b][..]), "mixed iteration, back {}", b);
            }
            turn = !turn;
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), "mixed iteration goes on");
    }
    {
        let mut it = t.iter_mut();
        for (k, vs) in m.keys.iter().enumerate() {
            let got = it.next();
            ensure!(got.as_deref() == Some(&vs[..]), "iter_mut at key {}: got {:?}, expected {:?}", k, got, vs);
        }
        ensure!(it.next().is_none(), "iter_mut goes on");
    }
    if deep {
        let c = t.clone();
        ensure!(c == *t, "a clone is not equal to its original");
        // An independently built equal table, with other capacities.
        let mut o = RampTable::with_capacity(7, 1);
        for k in &m.keys {
            for v in k {
                o.push_value(*v);
            }
            o.finish_key();
        }
        for v in &m.tail {
            o.push_value(*v);
        }
        ensure!(o == *t, "not equal to a table with the same contents");
        let dbg = format!("{:?}", t);
        let want = format!(
            "{{{}}}",
            m.keys.iter().enumerate().filter(|(_, k)| !k.is_empty()).map(|(i, k)| format!("{}: {:?}", i, k)).collect::<Vec<_>>().join(", ")
        );
        ensure_eq!(dbg, want, "debug rendering");
    }
    Ok(())
}

const R01_OPS: i64 = 18;

fn r01_op(op: i64, t: &mut RampTable<u32>, m: &mut RtModel, next: &mut u32) -> CheckResult {
    let mut fresh = |n: usize| -> Vec<u32> {
        let v: Vec<u32> = (0..n as u32).map(|i| *next + i).collect();
        *next += n as u32;
        v
    };
    let entry = |m: &mut RtModel, vs: &[u32]| {
        let mut k = std::mem::take(&mut m.tail);
        k.extend(vs);
        m.keys.push(k);
    };
    match op {
        0 => {
            let v = fresh(1);
            t.push_value(v[0]);
            m.tail.push(v[0]);
        }
        1 => {
            let k = t.finish_key();
            ensure_eq!(k, m.keys.len(), "number of the finished key");
            entry(m, &[]);
        }
        2 => {
            t.push_entry_copy(&[]);
            entry(m, &[]);
        }
        3 => {
            let v = fresh(2);
            t.push_entry_copy(&v);
            entry(m, &v);
        }
        4 => {
            let v = fresh(1);
            t.push_entry_clone(&v);
            entry(m, &v);
        }
        5 => {
            let v = fresh(3);
            t.push_entry_extend(v.iter().copied());
            entry(m, &v);
        }
        6 => {
            t.clear();
            *m = RtModel::default();
        }
        7 => {
            for (i, s) in t.iter_mut().enumerate() {
                for (j, x) in s.iter_mut().enumerate() {
                    *x += 1000 * (i as u32 + 1) + 100 * j as u32;
                }
            }
            for (i, s) in m.keys.iter_mut().enumerate() {
                for (j, x) in s.iter_mut().enumerate() {
                    *x += 1000 * (i as u32 + 1) + 100 * j as u32;
                }
            }
        }
        8 => {
            if let Some(k) = m.keys.len().checked_sub(1) {
                for x in t.entry_values_mut(k) {
                    *x += 1 << 20;
                }
                for x in &mut t[0] {
                    *x += 1 << 22;
                }
                for x in &mut m.keys[k] {
                    *x += 1 << 20;
                }
                for x in &mut m.keys[0] {
                    *x += 1 << 22;
                }
            }
        }
        9 => {
            t.all_values_mut().reverse();
            let mut f = m.flat();
            f.reverse();
            let mut it = f.into_iter();
            for k in m.keys.iter_mut().chain([&mut m.tail]) {
                for x in k.iter_mut() {
                    *x = it.next().unwrap();
                }
            }
        }
        10 => {
            let old = std::mem::take(t);
            *t = old.clone();
            drop(old);
        }
        11 => {
            // An iterator used once and dropped half way must leave no trace.
            let _ = t.iter_mut().next();
            let _ = t.iter().next_back();
            if let Some(s) = t.iter_mut().nth(1) {
                if let Some(x) = s.last_mut() {
                    *x += 1 << 24;
                    *m.keys[1].last_mut().unwrap() += 1 << 24;
                }
            }
        }
        12 => {
            t.push_entry_clone(&[]);
            entry(m, &[]);
        }
        13 => {
            t.push_entry_extend(std::iter::empty());
            entry(m, &[]);
        }
        14 | 15 => {
            // Iterators that know nothing of their length, or no lower bound.
            let v = fresh(3);
            if op == 14 {
                let mut i = 0;
                t.push_entry_extend(std::iter::from_fn(|| {
                    i += 1;
                    v.get(i - 1).copied()
                }));
            } else {
                t.push_entry_extend(v.iter().copied().chain([u32::MAX]).filter(|&x| x != u32::MAX));
            }
            entry(m, &v);
        }
        16 => {
            let mut b = trellis::ramp_table::RampTable::with_capacity(0, 1);
            b.clone_from(t);
            *t = b;
        }
        17 => {
            let v = fresh(9);
            t.push_entry_clone(&v[..5]);
            entry(m, &v[..5]);
            t.push_entry_copy(&v[5..]);
            entry(m, &v[5..]);
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn r01_start(c: i64) -> RampTable<u32> {
    match c {
        0 => RampTable::new(),
        1 => RampTable::default(),
        2 => RampTable::with_capacity(0, 0),
        _ => RampTable::with_capacity(3, 5),
    }
}

/// Every access to a key that does not exist panics, and changes nothing.
fn r01_outside(t: &mut RampTable<u32>, m: &RtModel) -> CheckResult {
    let n = m.keys.len();
    for i in [n, n + 1, n + 7, n + (1 << 32), usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        for how in 0..5 {
            let r = catch_unwind(AssertUnwindSafe(|| match how {
                0 => t.entry_values(i).len(),
                1 => t.entry_values_range(i).len(),
                2 => t[i].len(),
                3 => {
                    t.entry_values_mut(i).iter_mut().for_each(|x| *x += 5);
                    0
                }
                _ => {
                    t[i].iter_mut().for_each(|x| *x += 5);
                    0
                }
            }));
            ensure!(r.is_err(), "access {} to key {} of a table of {} keys did not panic", how, i, n);
            let _ = last_panic();
        }
    }
    rt_compare(t, m, true).map_err(|e| format!("after rejected accesses: {}", e))
}

#[derive(PartialEq, Debug)]
struct Fuse(u32, bool);
impl Clone for Fuse {
    fn clone(&self) -> Self {
        if self.1 {
            panic!("injected");
        }
        Fuse(self.0, false)
    }
}

/// A table of `keys` entries of two values and a tail; the source of the next entry, of `len` values,
/// panics when its value number `at` is asked for.
fn r01_interrupted(case: &[i64], o: &mut Obs) -> CheckResult {
    let (keys, tail, len, at, route) = (case[0] as u32, case[1] as u32, case[2] as u32, case[3] as u32, case[4]);
    let mut t: RampTable<Fuse> = RampTable::new();
    for k in 0..keys {
        t.push_value(Fuse(2 * k, false));
        t.push_value(Fuse(2 * k + 1, false));
        t.finish_key();
    }
    for k in 0..tail {
        t.push_value(Fuse(100 + k, false));
    }
    let source: Vec<Fuse> = (0..len).map(|i| Fuse(200 + i, i == at)).collect();
    let r = catch_unwind(AssertUnwindSafe(|| match route {
        0 => t.push_entry_clone(&source),
        1 => t.push_entry_extend(source.iter().cloned()),
        _ => {
            let mut it = source.iter();
            t.push_entry_extend(std::iter::from_fn(|| it.next().cloned()))
        }
    }));
    ensure!(r.is_err(), "the panic of the source was swallowed");
    let _ = last_panic();
    for after in 0..2 {
        o.step();
        ensure_eq!(t.len(), (keys + after) as usize, "number of keys after an interrupted entry");
        for k in 0..keys {
            ensure!(t.entry_values(k as usize) == [Fuse(2 * k, false), Fuse(2 * k + 1, false)], "key {} after an interrupted entry: {:?}", k, t.entry_values(k as usize));
        }
        let rest = &t.all_values()[2 * keys as usize..];
        ensure!(rest.len() as u32 >= tail && rest.len() as u32 <= tail + at, "{} values without a key after an interrupted entry", rest.len());
        for (i, x) in rest.iter().enumerate() {
            let i = i as u32;
            ensure!(x.0 == if i < tail { 100 + i } else { 200 + i - tail }, "values without a key after an interrupted entry: {:?}", rest);
        }
        if after == 0 {
            ensure_eq!(t.finish_key(), keys as usize, "number of the finished key");
        } else {
            ensure!(t.entry_values(keys as usize) == rest, "the entry finished after an interrupted one: {:?}", t.entry_values(keys as usize));
        }
    }
    o.nontrivial(at > 0 && keys > 0);
    o.note(|| format!("interrupted {:?}", case));
    Ok(())
}

/// Unowned values, and the lengths of the entries.
fn emit_tables(e: &mut Enum) {
    for tail in [0, 1, 3] {
        for n in 0..=e.pick(6, 8) {
            sequences(3, n as usize, &mut |s| {
                let mut c = vec![tail];
                c.extend_from_slice(s);
                e.emit("adapters", &c);
                !e.stopped()
            });
        }
        for n in [15, 16, 17, 31, 32, 33, 64, 65, 100, 256, 257, 300] {
            for m in [1, 2, 3, 5] {
                let mut c = vec![tail];
                c.extend((0..n).map(|i| i * i % m));
                e.emit("adapters", &c);
            }
        }
    }
}

/// A table with entries of the given lengths and so many unowned values.
fn r01_table(case: &[i64]) -> (RampTable<u32>, Vec<Vec<u32>>) {
    let mut t = RampTable::new();
    let mut next = 0;
    let mut keys = vec![];
    for &l in &case[1..] {
        let k: Vec<u32> = (next..next + l as u32).collect();
        next += l as u32;
        t.push_entry_copy(&k);
        keys.push(k);
    }
    for _ in 0..case[0] {
        t.push_value(next);
        next += 1;
    }
    (t, keys)
}

/// The iterators over entries, consumed in every way.
fn r01_adapters(case: &[i64], o: &mut Obs) -> CheckResult {
    let (mut t, keys) = r01_table(case);
    iter_laws!(t.iter(), &keys, |x: &[u32]| x.to_vec(), CheckResult::Ok(()), "iter")?;
    let back: Vec<Vec<u32>> = keys.iter().rev().cloned().collect();
    iter_laws!(t.iter().rev(), &back, |x: &[u32]| x.to_vec(), CheckResult::Ok(()), "backward iteration")?;
    iter_laws!(t.iter_mut(), &keys, |x: &mut [u32]| x.to_vec(), CheckResult::Ok(()), "iter_mut")?;
    // From both ends.
    for front in 0..=keys.len() {
        let mut it = t.iter();
        for k in 0..front {
            ensure!(it.len() == keys.len() - k, "len of the iterator is {}", it.len());
            ensure!(it.next() == Some(&keys[k][..]), "item {} differs", k);
        }
        let rest: Vec<Vec<u32>> = it.rev().map(|x| x.to_vec()).collect();
        ensure!(rest.iter().eq(keys[front..].iter().rev()), "{:?} from the back, behind {} of {:?}", rest, front, keys);
    }
    o.steps(3);
    o.state(fp_i64(40, case.iter().copied()));
    o.nontrivial(keys.len() > 2);
    Ok(())
}

fn r01_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    match fam {
        "interrupted" => r01_interrupted(case, o)?,
        "adapters" => r01_adapters(case, o)?,
        "ops" => {
            let mut t = r01_start(case[0]);
            let mut m = RtModel::default();
            let mut next = 0;
            rt_compare(&mut t, &m, true)?;
            for (i, &op) in case[1..].iter().enumerate() {
                r01_op(op, &mut t, &mut m, &mut next).map_err(|e| format!("after {:?}: {}", &case[1..=i + 1], e))?;
                o.step();
                let last = i + 2 == case.len();
                rt_compare(&mut t, &m, last).map_err(|e| format!("after {:?}: {}", &case[1..=i + 1], e))?;
            }
            if case.len() <= 4 {
                r01_outside(&mut t, &m).map_err(|e| format!("after {:?}: {}", &case[1..], e))?;
            }
            o.state(m.fp());
            o.nontrivial(m.keys.len() >= 2 && !m.flat().is_empty());
            o.note(|| format!("history of {} operations ending in {:?}", case.len() - 1, m));
        }
        "eq" => {
            // Two histories over {push 5, push 6, finish}; equal exactly if the lists are.
            let n = case[0] as usize;
            let build = |ops: &[i64]| {
                let mut t = RampTable::new();
                let mut m = RtModel::default();
                for &op in ops {
                    if op == 2 {
                        t.finish_key();
                        let k = std::mem::take(&mut m.tail);
                        m.keys.push(k);
                    } else {
                        t.push_value(5 + op as u32);
                        m.tail.push(5 + op as u32);
                    }
                }
                (t, m)
            };
            let (a, ma) = build(&case[1..1 + n]);
            let (b, mb) = build(&case[1 + n..]);
            o.steps(case.len() as u64 - 1);
            o.state(fp_i64(1, case.iter().copied()));
            ensure_eq!(a == b, ma == mb, "equality of {:?} and {:?}", ma, mb);
            ensure_eq!(a != b, ma != mb, "inequality of {:?} and {:?}", ma, mb);
            o.nontrivial(ma != mb && ma.flat() == mb.flat());
        }
        "long" => {
            // case: values before (owned if odd), route, length of the entry, values after
            let (first, route, len, after) = (case[0] as u32, case[1], case[2] as u32, case[3] as u32);
            let mut t = RampTable::new();
            let mut m = RtModel::default();
            let mut next = 0;
            for _ in 0..first {
                t.push_value(next);
                m.tail.push(next);
                next += 1;
            }
            if first % 2 == 1 {
                t.finish_key();
                m.keys.push(std::mem::take(&mut m.tail));
            }
            let vs: Vec<u32> = (next..next + len).collect();
            next += len;
            match route {
                0 => t.push_entry_copy(&vs),
                1 => t.push_entry_clone(&vs),
                2 => t.push_entry_extend(vs.iter().copied()),
                3 => {
                    let mut i = 0;
                    t.push_entry_extend(std::iter::from_fn(|| {
                        i += 1;
                        vs.get(i - 1).copied()
                    }))
                }
                _ => {
                    for v in &vs {
                        t.push_value(*v);
                    }
                    t.finish_key();
                }
            }
            m.tail.extend(&vs);
            m.keys.push(std::mem::take(&mut m.tail));
            t.push_entry_copy(&[next, next + 1]);
            m.keys.push(vec![next, next + 1]);
            next += 2;
            for _ in 0..after {
                t.push_value(next);
                m.tail.push(next);
                next += 1;
            }
            o.steps(4);
            rt_compare(&mut t, &m, len < 1000)?;
            r01_op(7, &mut t, &mut m, &mut next)?;
            r01_op(9, &mut t, &mut m, &mut next)?;
            rt_compare(&mut t, &m, false)?;
            o.nontrivial(len > 1);
            o.state(fp_i64(31, case.iter().copied()));
        }
        "twins" => {
            // case: number of keys, modulus of the entry lengths, the key that differs, how
            let (n, md, at, how) = (case[0], case[1], case[2] as usize, case[3]);
            let mut next = 0u32;
            let a: Vec<Vec<u32>> = (0..n)
                .map(|i| {
                    (0..i % md)
                        .map(|_| {
                            next += 1;
                            next % 1000
                        })
                        .collect()
                })
                .collect();
            let (mut b, mut tail) = (a.clone(), vec![]);
            match how {
                0 => {}
                // another value
                1 => {
                    if let Some(x) = b[at].last_mut() {
                        *x += 1
                    }
                }
                // a value goes over to the next key
                2 => {
                    if at + 1 < b.len() {
                        if let Some(x) = b[at].pop() {
                            b[at + 1].insert(0, x);
                        }
                    }
                }
                // an empty key more
                3 => b.insert(at, vec![]),
                // a key less
                4 => {
                    b.remove(at);
                }
                // a value behind the last key
                5 => tail.push(1),
                // the values of a key the other way round
                6 => b[at].reverse(),
                // two keys change places
                _ => b.swap(at, (n - 1) as usize),
            }
            let make = |keys: &[Vec<u32>], tail: &[u32], way: usize| {
                let mut t = RampTable::with_capacity(way * 100, way);
                for (i, k) in keys.iter().enumerate() {
                    match (i + way) % 3 {
                        0 => t.push_entry_copy(k),
                        1 => t.push_entry_extend(k.iter().copied()),
                        _ => {
                            k.iter().for_each(|x| t.push_value(*x));
                            t.finish_key();
                        }
                    }
                }
                tail.iter().for_each(|x| t.push_value(*x));
                t
            };
            let (ta, tb) = (make(&a, &[], 0), make(&b, &tail, 1));
            let same = a == b && tail.is_empty();
            o.steps(2 * n as u64);
            ensure_eq!(ta == tb, same, "equality of tables of {} keys (difference {} at {})", n, how, at);
            ensure_eq!(tb != ta, !same, "inequality of tables of {} keys (difference {} at {})", n, how, at);
            let mut c = tb.clone();
            ensure!(c == tb, "a clone of a table of {} keys differs", n);
            ensure_eq!(c == ta, same, "equality of a clone of {} keys (difference {} at {})", n, how, at);
            // A clone goes its own way.
            c.push_value(7);
            c.finish_key();
            ensure!(c != tb, "a table of {} keys equals a longer one", n);
            rt_compare(&mut tb.clone(), &RtModel { keys: b, tail }, false)?;
            o.nontrivial(!same);
            o.state(fp_i64(33, case.iter().copied()));
        }
        "keys" => {
            // case: number of empty keys, where a value goes before them, tail
            let (n, before, tail) = (case[0], case[1], case[2]);
            let mut t = RampTable::new();
            let mut m = RtModel::default();
            for i in 0..before {
                t.push_entry_copy(&[i as u32]);
                m.keys.push(vec![i as u32]);
            }
            for i in 0..n {
                let k = t.finish_key();
                ensure_eq!(k as i64, before + i, "number of the finished key");
                m.keys.push(vec![]);
            }
            t.push_entry_copy(&[7, 8]);
            m.keys.push(vec![7, 8]);
            for i in 0..tail {
                t.push_value(i as u32);
                m.tail.push(i as u32);
            }
            o.steps(n as u64 + 2);
            rt_compare(&mut t, &m, true)?;
            pairs_compare(&t, &m.keys)?;
            o.nontrivial(n > 1);
            o.state(fp_i64(32, case.iter().copied()));
        }
        "big" => {
            // case: number of keys, modulus of the entry lengths, multiplier, tail
            let (n, md, mul, tail) = (case[0], case[1], case[2], case[3]);
            let mut t = RampTable::with_capacity((n / 2) as usize, 0);
            let mut m = RtModel::default();
            let mut next = 0u32;
            for i in 0..n {
                let l = (i * mul + 1) % md;
                let vs: Vec<u32> = (0..l as u32).map(|j| next + j).collect();
                next += l as u32;
                match i % 4 {
                    0 => t.push_entry_copy(&vs),
                    1 => t.push_entry_clone(&vs),
                    2 => t.push_entry_extend(vs.iter().copied()),
                    _ => {
                        for v in &vs {
                            t.push_value(*v);
                        }
                        let k = t.finish_key();
                        ensure_eq!(k, m.keys.len(), "number of the finished key");
                    }
                }
                o.step();
                m.keys.push(vs);
            }
            for _ in 0..tail {
                t.push_value(next);
                m.tail.push(next);
                next += 1;
            }
            rt_compare(&mut t, &m, true)?;
            // then mutate through each route and compare again
            let mut x = next;
            for op in [7, 8, 9, 11, 10] {
                r01_op(op, &mut t, &mut m, &mut x)?;
                rt_compare(&mut t, &m, false)?;
                o.step();
            }
            r01_op(6, &mut t, &mut m, &mut x)?;
            r01_op(3, &mut t, &mut m, &mut x)?;
            rt_compare(&mut t, &m, true)?;
            o.nontrivial(n > 1);
            o.state(fp_i64(2, case.iter().copied()));
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn r01_enum(e: &mut Enum) {
    emit_tables(e);
    let depth = e.pick(6, 7);
    for start in 0..4 {
        let d = if start == 0 { depth } else { 4 };
        for len in 0..=d {
            // The deepest histories leave out the operations that only vary others.
            sequences(if len == depth { 12 } else { R01_OPS }, len, &mut |s| {
                if !e.mine() {
                    return true;
                }
                let mut c = vec![start];
                c.extend_from_slice(s);
                e.emit("ops", &c);
                !e.stopped()
            });
        }
    }
    for keys in 0..4 {
        for tail in [0, 1, 2, 5] {
            for len in (1..=e.pick(9, 40)).chain([63, 64, 65, 129, 300]) {
                for at in (0..len).filter(|a| *a < 20 || a + 3 > len) {
                    for route in 0..3 {
                        e.emit("interrupted", &[keys, tail, len, at, route]);
                    }
                }
            }
        }
    }
    let mut all: Vec<Vec<i64>> = vec![];
    for len in 0..=e.pick(6, 7) {
        sequences(3, len, &mut |s| {
            all.push(s.to_vec());
            true
        });
    }
    for a in &all {
        for b in &all {
            if !e.mine() {
                continue;
            }
            let mut c = vec![a.len() as i64];
            c.extend(a);
            c.extend(b);
            e.emit("eq", &c);
        }
    }
    let longs: Vec<i64> = (0..=e.pick(140, 600)).chain(ladder(141, e.pick(140_000, 1_100_000))).collect();
    for &len in &longs {
        for first in 0..if len <= 600 { 9 } else { 4 } {
            for route in 0..5 {
                for after in [0, 3] {
                    e.emit("long", &[first, route, len, after]);
                }
            }
        }
    }
    for &n in &longs {
        for before in [0, 1, 3] {
            for tail in [0, 2] {
                e.emit("keys", &[n, before, tail]);
            }
        }
    }
    for n in (1..=e.pick(70, 300)).chain(ladder(e.pick(71, 301), e.pick(20_000, 200_000))) {
        let mut at: Vec<i64> = (0..n.min(70)).chain([n / 3, n / 2, n - 2, n - 1, 127, 128, 255, 256, 257, 1000, 4095, 4096, 65_535, 65_536]).filter(|x| *x < n && *x >= 0).collect();
        at.sort();
        at.dedup();
        if n > 70 {
            at.retain(|x| *x < 3 || *x > 60);
        }
        for md in [1, 2, 3, 7] {
            for how in 0..8 {
                for &at in &at {
                    e.emit("twins", &[n, md, at, how]);
                    if how == 0 || how == 5 {
                        break;
                    }
                }
            }
        }
    }
    let nmax = e.pick(300, 1500);
    for n in (0..=nmax).chain(ladder(nmax + 1, e.pick(5000, 70_000))) {
        for md in [1, 2, 3, 5, 9, 40] {
            for mul in [1, 3] {
                for tail in [0, 2] {
                    e.emit("big", &[n, md, mul, tail]);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ R02

fn pairs_compare(t: &RampTable<u32>, keys: &[Vec<u32>]) -> CheckResult {
    let want: Vec<(usize, u32)> = keys.iter().enumerate().flat_map(|(k, vs)| vs.iter().map(move |v| (k, *v))).collect();
    let a: Vec<(usize, u32)> = t.iter_pairs().map(|(k, v)| (k, *v)).collect();
    ensure_eq!(a, want, "iter_pairs");
    let mut it = t.iter_pairs_manual();
    let mut b = vec![];
    while let Some((k, v)) = it.next() {
        b.push((k, *v));
        ensure!(b.len() <= want.len(), "iter_pairs_manual goes on: {:?}, expected {:?}", b, want);
    }
    ensure_eq!(b, want, "iter_pairs_manual");
    ensure!(it.next().is_none(), "iter_pairs_manual resumes after its end");
    Ok(())
}

fn builder_check(pairs: &[(u32, u32)], method: i64, o: &mut Obs) -> CheckResult {
    let mut b = match method {
        2 => RampTableBuilder::with_capacity(pairs.len() / 2),
        _ => RampTableBuilder::new(),
    };
    match method {
        0 => {
            for &(k, v) in pairs {
                b.push(k, v);
                o.step();
            }
        }
        1 => {
            b.extend(pairs.iter().copied());
            o.step();
        }
        _ => {
            let h = pairs.len() / 2;
            for &(k, v) in &pairs[..h] {
                b.push(k, v);
                o.step();
            }
            b.extend(pairs[h..].iter().copied());
            o.step();
        }
    }
    let mut t = b.finish();
    let n = pairs.iter().map(|p| p.0 as usize + 1).max().unwrap_or(0);
    let mut m = RtModel { keys: vec![vec![]; n], tail: vec![] };
    for &(k, v) in pairs {
        m.keys[k as usize].push(v);
    }
    rt_compare(&mut t, &m, false)?;
    pairs_compare(&t, &m.keys)?;
    o.state(fp_i64(3, m.keys.iter().flat_map(|k| k.iter().map(|x| *x as i64).chain([-1]))));
    Ok(())
}

fn r02_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    match fam {
        "adapters" => {
            let (t, keys) = r01_table(case);
            let want: Vec<(usize, u32)> = keys.iter().enumerate().flat_map(|(k, vs)| vs.iter().map(move |v| (k, *v))).collect();
            iter_laws!(t.iter_pairs(), &want, |(k, v): (usize, &u32)| (k, *v), CheckResult::Ok(()), "iter_pairs")?;
            iter_laws!(t.iter_pairs_manual(), &want, |(k, v): (usize, &u32)| (k, *v), CheckResult::Ok(()), "iter_pairs_manual")?;
            o.steps(2);
            o.state(fp_i64(41, case.iter().copied()));
            o.nontrivial(keys.len() > 2);
        }
        "build" => {
            // case: method, keys...
            let pairs: Vec<(u32, u32)> = case[1..].iter().enumerate().map(|(i, &k)| (k as u32, i as u32 * 7 % 5 + 10 * i as u32)).collect();
            o.nontrivial(pairs.windows(2).any(|w| w[0].0 > w[1].0));
            builder_check(&pairs, case[0], o)?;
        }
        "buildbig" => {
            // case: method, number of pairs, multiplier, modulus: keys (i * mul) mod m
            let (n, mul, m) = (case[1], case[2], case[3]);
            let pairs: Vec<(u32, u32)> = (0..n).map(|i| (((i * mul + i / 3) % m) as u32, (n - i) as u32)).collect();
            o.nontrivial(n > 20);
            builder_check(&pairs, case[0], o)?;
        }
        "buildfar" => {
            // case: method, keys... : keys far apart, looked at where they are
            let pairs: Vec<(u32, u32)> = case[1..].iter().enumerate().map(|(i, &k)| (k as u32, i as u32)).collect();
            let mut b = RampTableBuilder::new();
            if case[0] == 0 {
                for &(k, v) in &pairs {
                    b.push(k, v);
                }
            } else {
                b.extend(pairs.iter().copied());
            }
            let t = b.finish();
            o.steps(pairs.len() as u64);
            let mut keys: Vec<u32> = pairs.iter().map(|p| p.0).collect();
            keys.sort();
            keys.dedup();
            ensure_eq!(t.len(), keys.last().map_or(0, |&k| k as usize + 1), "number of keys of {:?}", pairs);
            let mut flat = vec![];
            for &k in &keys {
                let want: Vec<u32> = pairs.iter().filter(|p| p.0 == k).map(|p| p.1).collect();
                ensure_eq!(t.entry_values(k as usize), &want[..], "values of key {}", k);
                flat.extend(want.iter().map(|&v| (k as usize, v)));
            }
            ensure_eq!(t.num_values(), pairs.len(), "number of values");
            ensure_eq!(t.iter_pairs_manual().map(|(k, v)| (k, *v)).collect::<Vec<_>>(), flat, "iter_pairs_manual");
            ensure_eq!(t.iter_pairs().map(|(k, v)| (k, *v)).collect::<Vec<_>>(), flat, "iter_pairs");
            o.nontrivial(keys.len() > 1);
            o.state(fp_i64(33, case.iter().copied()));
        }
        "keys" => return r01_check(fam, case, o),
        "pairs" => {
            // case: tail length, entry lengths...
            let mut t = RampTable::new();
            let mut keys = vec![];
            let mut next = 100;
            for &l in &case[1..] {
                let vs: Vec<u32> = (0..l as u32).map(|j| next + j).collect();
                next += l as u32;
                t.push_entry_copy(&vs);
                keys.push(vs);
                o.step();
            }
            for i in 0..case[0] {
                t.push_value(i as u32);
                o.step();
            }
            pairs_compare(&t, &keys)?;
            o.nontrivial(keys.iter().any(|k| k.is_empty()) && keys.iter().any(|k| k.len() > 1));
            o.state(fp_i64(4, case.iter().copied()));
            o.note(|| format!("entries {:?}", keys));
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn r02_enum(e: &mut Enum) {
    emit_tables(e);
    for (alpha, maxlen) in [(&[0i64, 1, 2, 3][..], e.pick(10, 12)), (&[0, 2, 5, 9][..], e.pick(8, 10)), (&[3, 1][..], e.pick(16, 20)), (&[7, 0, 64, 300][..], 5)] {
        for len in 0..=maxlen {
            for method in 0..3 {
                if method > 0 && len > 6 {
                    continue;
                }
                sequences(alpha.len() as i64, len, &mut |s| {
                    if !e.mine() {
                        return true;
                    }
                    let mut c = vec![method];
                    c.extend(s.iter().map(|&i| alpha[i as usize]));
                    e.emit("build", &c);
                    !e.stopped()
                });
            }
        }
    }
    for alpha in [&[0i64, 1, 255, 256, 257, 65_535, 65_536, 131_073][..], &[2, 1 << 20, (1 << 20) + 2]] {
        for len in 0..=e.pick(4, 5) {
            sequences(alpha.len() as i64, len, &mut |s| {
                if !e.mine() {
                    return true;
                }
                let mut c = vec![len as i64 % 2];
                c.extend(s.iter().map(|&i| alpha[i as usize]));
                e.emit("buildfar", &c);
                !e.stopped()
            });
        }
    }
    for top in 21..=e.pick(24, 26) {
        for low in [0, 1, 1 << 16] {
            e.emit("buildfar", &[top % 2, (1 << top) + low, low, 1 << top, low]);
        }
    }
    for n in ladder(100, e.pick(140_000, 1_100_000)) {
        for before in [0, 2] {
            e.emit("keys", &[n, before, 1]);
        }
    }
    let nmax = e.pick(400, 1500);
    for n in (0..=nmax).chain(ladder(nmax + 1, e.pick(140_000, 300_000))) {
        for mul in [1, 2, 5, 7, 13] {
            for m in [1, 2, 3, 7, 16, 33, 200] {
                e.emit("buildbig", &[n % 3, n, mul, m]);
            }
        }
    }
    for len in 0..=e.pick(8, 10) {
        for tail in 0..3 {
            sequences(4, len, &mut |s| {
                if !e.mine() {
                    return true;
                }
                let mut c = vec![tail];
                c.extend_from_slice(s);
                e.emit("pairs", &c);
                !e.stopped()
            });
        }
    }
    // Longer tables: entry lengths 0/1 in every pattern, and long entries.
    for len in [9usize, 10, 11, 12] {
        sequences(2, len, &mut |s| {
            let mut c = vec![1];
            c.extend_from_slice(s);
            e.emit("pairs", &c);
            true
        });
    }
    for n in 0..=e.pick(200, 600) {
        for md in [2, 3, 17, 66] {
            let mut c = vec![n % 3];
            c.extend((0..n).map(|i| (i * i + n) % md));
            e.emit("pairs", &c);
        }
    }
}

// ------------------------------------------------------------------------------------------ V01

trait Item: Clone + PartialEq + std::fmt::Debug {
    fn make(i: u64) -> Self;
    fn bump(&mut self);
}
impl Item for u64 {
    fn make(i: u64) -> u64 {
        i
    }
    fn bump(&mut self) {
        *self += 1 << 32;
    }
}
impl Item for u8 {
    fn make(i: u64) -> u8 {
        i as u8
    }
    fn bump(&mut self) {
        *self ^= 0x80;
    }
}
impl Item for String {
    fn make(i: u64) -> String {
        format!("item-{}", i)
    }
    fn bump(&mut self) {
        self.push('!');
    }
}
impl Item for () {
    fn make(_: u64) {}
    fn bump(&mut self) {}
}
#[derive(Clone, PartialEq, Debug)]
#[repr(align(32))]
struct Wide([u16; 21]);
impl Item for Wide {
    fn make(i: u64) -> Wide {
        Wide([i as u16; 21])
    }
    fn bump(&mut self) {
        self.0[20] += 1000;
    }
}

type M<T> = Vec<Option<T>>;

fn vo_compare<T: Item>(v: &mut VecOption<T>, m: &M<T>) -> CheckResult {
    ensure_eq!(v.len(), m.len(), "length");
    ensure_eq!(v.is_empty(), m.is_empty(), "is_empty");
    {
        let mut it = v.iter();
        for (i, x) in m.iter().enumerate() {
            let got = it.next();
            ensure!(got == Some(x.as_ref()), "iter at {}: got {:?}, expected {:?}", i, got, x);
        }
        ensure!(it.next().is_none(), "iter goes on");
    }
    {
        let mut it = v.iter_mut();
        for (i, x) in m.iter().enumerate() {
            let got = it.next();
            match (got, x) {
                (Some(Some(a)), Some(b)) if *a == *b => {}
                (Some(None), None) => {}
                (g, x) => return Err(format!("iter_mut at {}: got {:?}, expected {:?}", i, g, x)),
            }
        }
        ensure!(it.next().is_none(), "iter_mut goes on");
    }
    for (i, x) in m.iter().enumerate() {
        ensure!(v.get_ref(i) == x.as_ref(), "get_ref({}): got {:?}, expected {:?}", i, v.get_ref(i), x);
        ensure!(v.get_mut(i).as_deref() == x.as_ref(), "get_mut({}): expected {:?}", i, x);
        ensure!(v.get_clone(i) == *x, "get_clone({}): expected {:?}", i, x);
    }
    Ok(())
}

/// Everything that can be asked of a vector without changing it, V04's views included.
fn vo_compare_all<T: Item>(v: &mut VecOption<T>, m: &M<T>) -> CheckResult {
    vo_compare(v, m)?;
    let mut runs: Vec<Vec<T>> = vec![];
    let mut some: Vec<(usize, T)> = vec![];
    let mut open = false;
    for (i, x) in m.iter().enumerate() {
        if let Some(x) = x {
            if !open {
                runs.push(vec![]);
            }
            runs.last_mut().unwrap().push(x.clone());
            some.push((i, x.clone()));
            open = true;
        } else {
            open = false;
        }
    }
    ensure!(v.iter_runs().map(|s| s.to_vec()).take(m.len() + 2).collect::<Vec<_>>() == runs, "iter_runs: got {:?}, expected {:?}", v.iter_runs().take(m.len() + 2).collect::<Vec<_>>(), runs);
    ensure!(v.iter_runs_mut().map(|s| s.to_vec()).take(m.len() + 2).collect::<Vec<_>>() == runs, "iter_runs_mut differs from {:?}", runs);
    ensure!(v.iter_some_index().map(|(i, x)| (i, x.clone())).collect::<Vec<_>>() == some, "iter_some_index differs from {:?}", some);
    ensure!(v.iter_some_index_mut().map(|(i, x)| (i, x.clone())).collect::<Vec<_>>() == some, "iter_some_index_mut differs from {:?}", some);
    Ok(())
}

fn shape_fp<T>(m: &M<T>) -> u64 {
    fp_i64(11, m.iter().map(|x| x.is_some() as i64).chain([m.len() as i64]))
}

const V01_OPS: i64 = 32;

/// Applies one operation to the vector and the model; the results must agree.
fn v01_op<T: Item>(op: i64, v: &mut VecOption<T>, m: &mut M<T>, next: &mut u64) -> CheckResult {
    let mut fresh = || {
        *next += 1;
        T::make(*next)
    };
    let n = m.len();
    let (first, mid, last) = (0, n / 2, n.wrapping_sub(1));
    match op {
        0 => {
            let x = fresh();
            v.push(Some(x.clone()));
            m.push(Some(x));
        }
        1 => {
            v.push(None);
            m.push(None);
        }
        2 => {
            let x = fresh();
            v.push_some(x.clone());
            m.push(Some(x));
        }
        3 => {
            v.push_none();
            m.push(None);
        }
        4 => ensure_eq!(v.pop(), m.pop(), "pop"),
        5 => {
            let mut w = None;
            while let Some(x) = m.pop() {
                if x.is_some() {
                    w = x;
                    break;
                }
            }
            ensure_eq!(v.pop_some(), w, "pop_some");
        }
        6 | 7 | 8 | 9 | 10 | 11 | 12 | 13 if n == 0 => {}
        6 => {
            let x = fresh();
            let w = m[first].replace(x.clone());
            ensure_eq!(v.replace(first, Some(x)), w, "replace with an item");
        }
        7 => {
            let w = m[last].take();
            ensure_eq!(v.replace(last, None), w, "replace with nothing");
        }
        8 => {
            let x = fresh();
            let w = m[mid].replace(x.clone());
            ensure_eq!(v.replace_some(mid, x), w, "replace_some");
        }
        9 => {
            let w = m[mid].take();
            ensure_eq!(v.replace_none(mid), w, "replace_none");
        }
        10 => {
            let x = fresh();
            v.set(last, Some(x.clone()));
            m[last] = Some(x);
        }
        11 => {
            let x = fresh();
            v.set_some(first, x.clone());
            m[first] = Some(x);
        }
        12 => {
            v.set_none(first);
            m[first] = None;
        }
        13 => {
            v.set(mid, None);
            m[mid] = None;
        }
        14 | 15 | 16 if n == 0 => {}
        14 => {
            v.swap(first, last);
            m.swap(first, last);
        }
        15 => {
            v.swap(mid, first);
            m.swap(mid, first);
        }
        16 => {
            v.swap(mid, mid);
        }
        17 => {
            let a: Vec<_> = v.drain(..).collect();
            let b: Vec<_> = m.drain(..).collect();
            ensure_eq!(a, b, "drain of everything");
        }
        18 => {
            let (s, t) = (n / 3, n - n / 3);
            let a: Vec<_> = v.drain(s..t).collect();
            let b: Vec<_> = m.drain(s..t).collect();
            ensure_eq!(a, b, "drain of the middle");
        }
        19 => {
            // Abandoned after one item.
            let (s, t) = (0, n - n / 2);
            let a = v.drain(s..t).next();
            let b = m.drain(s..t).next();
            ensure_eq!(a, b, "first drained item");
        }
        20 => {
            let (x, y) = (fresh(), fresh());
            let it = [Some(x), None, Some(y)];
            v.extend(it.iter().cloned());
            m.extend(it.iter().cloned());
        }
        21 => v.reserve(33),
        22 => {
            v.compact();
            m.retain(|x| x.is_some());
        }
        23 => {
            for x in v.iter_mut().flatten() {
                x.bump();
            }
            for x in m.iter_mut().flatten() {
                x.bump();
            }
        }
        24 => {
            if n > 0 {
                if let Some(x) = v.get_mut(last) {
                    x.bump();
                }
                if let Some(x) = m[last].as_mut() {
                    x.bump();
                }
            }
        }
        25 => {
            let old = std::mem::replace(v, VecOption::new());
            let items: Vec<Option<T>> = old.into_iter().collect();
            ensure_eq!(items, *m, "into_iter");
            *v = items.into_iter().collect();
        }
        26 => {
            let old = std::mem::replace(v, VecOption::with_capacity(2));
            let some = old.some_into_vec();
            let w: Vec<T> = m.iter().flatten().cloned().collect();
            ensure_eq!(some, w, "some_into_vec");
            *v = VecOption::from_vec(some);
            *m = w.into_iter().map(Some).collect();
        }
        27 => {
            let c = v.clone();
            *v = c;
        }
        28 => {
            let old = std::mem::replace(v, VecOption::new());
            let some: Vec<T> = old.into_some_iter().collect();
            let w: Vec<T> = m.iter().flatten().cloned().collect();
            ensure_eq!(some, w, "into_some_iter");
            *v = VecOption::new_repeat_none(some.len());
            m.clear();
            for (i, x) in some.into_iter().enumerate() {
                if i % 2 == 0 {
                    v.set_some(i, x.clone());
                    m.push(Some(x));
                } else {
                    m.push(None);
                }
            }
        }
        29 => {
            // Collect from an iterator that hides its length.
            let (x, y) = (fresh(), fresh());
            let items = [Some(x), None, None, Some(y)];
            let mut i = 0;
            let it = items.clone();
            *v = std::iter::from_fn(move || {
                i += 1;
                it.get(i - 1).cloned()
            })
            .collect();
            *m = items.to_vec();
        }
        30 => {
            // Extend from an iterator that hides its length.
            let items = [None, Some(fresh()), Some(fresh())];
            let mut i = 0;
            let it = items.clone();
            v.extend(std::iter::from_fn(move || {
                i += 1;
                it.get(i - 1).cloned()
            }));
            m.extend(items);
        }
        31 => {
            // Iterators whose hint is loose at both ends, or says too little.
            let items = [Some(fresh()), None, Some(fresh())];
            let (x, y) = (fresh(), fresh());
            v.extend(items.iter().cloned().filter(|x| x.is_some()));
            m.extend(items.iter().cloned().filter(|x| x.is_some()));
            let tail = [Some(x), None, Some(y)];
            v.extend(AtLeastOne(tail.iter().cloned()));
            m.extend(tail.iter().cloned());
        }
        _ => unreachable!(),
    }
    Ok(())
}

/// Promises one item and no more, but admits to no limit.
struct AtLeastOne<I>(I);
impl<I: Iterator> Iterator for AtLeastOne<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.size_hint().0.min(1), None)
    }
}

fn v_start<T: Item>(s: i64, next: &mut u64) -> (VecOption<T>, M<T>) {
    let mut mk = || {
        *next += 1;
        T::make(*next)
    };
    match s {
        0 => (VecOption::new(), vec![]),
        1 => {
            let m = vec![Some(mk()), None, Some(mk())];
            (m.iter().cloned().collect(), m)
        }
        2 => {
            let m: M<T> = vec![None, None, None, None];
            (VecOption::new_repeat_none(4), m)
        }
        3 => {
            let w: Vec<T> = (0..3).map(|_| mk()).collect();
            (VecOption::from_vec(w.clone()), w.into_iter().map(Some).collect())
        }
        4 => {
            let m = vec![None, Some(mk()), Some(mk()), None, Some(mk()), None];
            let mut v = VecOption::with_capacity(3);
            v.extend(m.iter().cloned());
            (v, m)
        }
        _ => {
            // Just below a block boundary of the bitmap.
            let m: M<T> = (0..31).map(|i| if i % 3 == 0 { None } else { Some(mk()) }).collect();
            (m.iter().cloned().collect(), m)
        }
    }
}

fn v01_run<T: Item>(case: &[i64], o: &mut Obs) -> CheckResult {
    let mut next = 0;
    let (mut v, mut m) = v_start::<T>(case[0], &mut next);
    vo_compare(&mut v, &m)?;
    for (i, &op) in case[1..].iter().enumerate() {
        let ctx = |e: String| format!("start {} ops {:?}: {}", case[0], &case[1..=i + 1], e);
        v01_op(op, &mut v, &mut m, &mut next).map_err(ctx)?;
        o.step();
        if case[0] != 5 || i + 2 == case.len() {
            vo_compare(&mut v, &m).map_err(ctx)?;
        }
    }
    vo_compare_all(&mut v, &m)?;
    o.state(shape_fp(&m));
    o.nontrivial(m.iter().any(|x| x.is_some()) && m.iter().any(|x| x.is_none()));
    o.note(|| format!("ends in {:?}", m));
    Ok(())
}

/// A vector with the given presence, built in one of several ways.
fn build<T: Item>(pat: &[bool], how: i64) -> (VecOption<T>, M<T>) {
    let m: M<T> = pat.iter().enumerate().map(|(i, &p)| if p { Some(T::make(i as u64 + 1)) } else { None }).collect();
    let v = match how {
        0 => {
            let mut v = VecOption::new();
            for x in &m {
                v.push(x.clone());
            }
            v
        }
        1 => {
            let mut v = VecOption::new_repeat_none(m.len());
            for (i, x) in m.iter().enumerate() {
                if let Some(x) = x {
                    v.set_some(i, x.clone());
                }
            }
            v
        }
        2 => {
            let mut v = VecOption::from_vec((0..m.len()).map(|i| T::make(i as u64 + 1)).collect());
            for (i, x) in m.iter().enumerate() {
                if x.is_none() {
                    v.set_none(i);
                }
            }
            v
        }
        3 => m.iter().cloned().collect(),
        _ => {
            // Longer once, and drained and popped down to size.
            let mut v = VecOption::with_capacity(1);
            v.extend([None, Some(T::make(77))].into_iter());
            v.extend(m.iter().cloned());
            v.push_some(T::make(78));
            v.push_none();
            v.drain(..2);
            v.pop_some();
            v
        }
    };
    (v, m)
}

fn bits(n: usize, x: i64) -> Vec<bool> {
    (0..n).map(|i| x >> i & 1 == 1).collect()
}

/// Patterns for long vectors.
fn pattern(n: usize, p: i64) -> Vec<bool> {
    (0..n)
        .map(|i| match p {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            3 => i % 3 != 0,
            4 => i < n / 2,
            5 => i >= n / 2,
            6 => i / 32 % 2 == 0,
            7 => i == n - 1 || i == 0,
            8 => i % 32 != 31,
            9 => i % 32 == 31 || i % 32 == 0,
            _ => mix(i as u64) & 1 == 1,
        })
        .collect()
}
const PATTERNS: i64 = 11;

/// A way of asking for a range: 0 a..b, 1 a..=b-1, 2 (a-1, b) exclusive start, 3 ..b, 4 a.., 5 ..
fn drain_case<T: Item>(pat: &[bool], how: i64, kind: i64, a: usize, b: usize, take: usize, o: &mut Obs) -> CheckResult {
    use std::ops::Bound::*;
    let (mut v, mut m) = build::<T>(pat, how);
    let r = match kind {
        0 => (Included(a), Excluded(b)),
        1 => (Included(a), Included(b - 1)),
        2 => (Excluded(a - 1), Excluded(b)),
        3 => (Unbounded, Excluded(b)),
        4 => (Included(a), Unbounded),
        _ => (Unbounded, Unbounded),
    };
    {
        let mut d = v.drain(r);
        let mut w = m.drain(r);
        for k in 0..take {
            let (x, y) = (d.next(), w.next());
            ensure_eq!(x, y, "drained item {}", k);
            o.step();
        }
        o.step();
    }
    vo_compare_all(&mut v, &m)?;
    // The vector must go on working.
    let mut next = 1000;
    for op in [0, 1, 4, 5, 2, 20] {
        v01_op(op, &mut v, &mut m, &mut next)?;
        o.step();
    }
    vo_compare_all(&mut v, &m)?;
    o.state(shape_fp(&m));
    o.nontrivial(take > 0 && take < b - a && b < pat.len());
    Ok(())
}

fn must_panic<T: Item>(v: &mut VecOption<T>, m: &M<T>, what: &str, f: impl FnOnce(&mut VecOption<T>)) -> CheckResult {
    let r = catch_unwind(AssertUnwindSafe(|| f(v)));
    ensure!(r.is_err(), "{} outside a vector of {} did not panic", what, m.len());
    let _ = last_panic();
    vo_compare(v, m).map_err(|e| format!("after a rejected {}: {}", what, e))
}

/// How many positions, which are present (a bit each, or a pattern), and how it is built.
fn adapters_pattern(case: &[i64]) -> Vec<bool> {
    if case[0] < 20 {
        bits(case[0] as usize, case[1])
    } else {
        pattern(case[0] as usize, case[1])
    }
}
fn emit_adapters(e: &mut Enum) {
    for n in 0..=e.pick(7, 10) {
        for p in 0..1i64 << n {
            e.emit("adapters", &[n, p, p % 5]);
        }
    }
    for n in (20..36).chain([63, 64, 65, 66, 96, 97, 128, 129, 256, 257, 300]) {
        for p in 0..PATTERNS {
            e.emit("adapters", &[n, p, (n + p) % 5]);
        }
    }
}
fn v01_adapters(case: &[i64], o: &mut Obs) -> CheckResult {
    let pat = adapters_pattern(case);
    let (mut v, m) = build::<String>(&pat, case[2]);
    let n = m.len();
    let fine = || CheckResult::Ok(());
    iter_laws!(v.iter(), &m, |x: Option<&String>| x.cloned(), fine(), "iter")?;
    iter_laws!(v.iter_mut(), &m, |x: Option<&mut String>| x.cloned(), fine(), "iter_mut")?;
    iter_laws!(v.clone().into_iter(), &m, |x: Option<String>| x, fine(), "into_iter")?;
    o.steps(3);
    for (a, b) in [(0, n), (0, n / 2), (n / 2, n), (n / 3, n - n / 3), (n.min(1), n)] {
        let mut w = v.clone();
        let left: M<String> = m[..a].iter().chain(&m[b..]).cloned().collect();
        iter_laws!(
            {
                w = v.clone();
                w.drain(a..b)
            },
            &m[a..b],
            |x: Option<String>| x,
            vo_compare(&mut w, &left).map_err(|e| format!("left by drain({}..{}): {}", a, b, e)),
            "drain"
        )?;
        o.step();
    }
    o.state(shape_fp(&m));
    o.nontrivial(n > 2);
    Ok(())
}
fn v04_adapters(case: &[i64], o: &mut Obs) -> CheckResult {
    let pat = adapters_pattern(case);
    let (mut v, m) = build::<String>(&pat, case[2]);
    let fine = || CheckResult::Ok(());
    let mut runs: Vec<Vec<String>> = vec![];
    for (i, x) in m.iter().enumerate() {
        if let Some(x) = x {
            if i == 0 || m[i - 1].is_none() {
                runs.push(vec![]);
            }
            runs.last_mut().unwrap().push(x.clone());
        }
    }
    let some: Vec<(usize, String)> = m.iter().enumerate().filter_map(|(i, x)| x.clone().map(|x| (i, x))).collect();
    let items: Vec<String> = some.iter().map(|x| x.1.clone()).collect();
    iter_laws!(v.iter_runs(), &runs, |x: &[String]| x.to_vec(), fine(), "iter_runs")?;
    iter_laws!(v.iter_runs_mut(), &runs, |x: &mut [String]| x.to_vec(), fine(), "iter_runs_mut")?;
    iter_laws!(v.iter_some_index(), &some, |(i, x): (usize, &String)| (i, x.clone()), fine(), "iter_some_index")?;
    iter_laws!(v.iter_some_index_mut(), &some, |(i, x): (usize, &mut String)| (i, x.clone()), fine(), "iter_some_index_mut")?;
    iter_laws!(v.clone().into_some_iter(), &items, |x: String| x, fine(), "into_some_iter")?;
    o.steps(5);
    o.state(shape_fp(&m));
    o.nontrivial(runs.len() > 1);
    Ok(())
}

fn v01_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    match fam {
        "adapters" => v01_adapters(case, o),
        "ops" => v01_run::<u64>(case, o),
        "ops-u8" => v01_run::<u8>(case, o),
        "ops-string" => v01_run::<String>(case, o),
        "ops-unit" => v01_run::<()>(case, o),
        "ops-wide" => v01_run::<Wide>(case, o),
        "drain" => {
            // n, pattern bits, how, kind, a, b, take
            let pat = bits(case[0] as usize, case[1]);
            drain_case::<u64>(&pat, case[2], case[3], case[4] as usize, case[5] as usize, case[6] as usize, o)?;
            if case[2] == 0 {
                drain_case::<String>(&pat, case[2], case[3], case[4] as usize, case[5] as usize, case[6] as usize, o)?;
            }
            Ok(())
        }
        "longdrain" => {
            let pat = pattern(case[0] as usize, case[1]);
            drain_case::<u64>(&pat, case[2], case[3], case[4] as usize, case[5] as usize, case[6] as usize, o)
        }
        "reserve" => {
            // length, pattern, how, room asked for
            let pat = pattern(case[0] as usize, case[1]);
            let (mut v, mut m) = build::<u64>(&pat, case[2]);
            v.reserve(case[3] as usize);
            o.step();
            vo_compare_all(&mut v, &m).map_err(|e| format!("after reserve({}): {}", case[3], e))?;
            for k in 0..70 {
                let x = if k % 5 == 2 { None } else { Some(k) };
                match k % 4 {
                    0 => v.push(x),
                    1 => v.extend([x, None].into_iter()),
                    2 => match x {
                        Some(x) => v.push_some(x),
                        None => v.push_none(),
                    },
                    _ => {
                        v.reserve(k as usize);
                        v.push(x);
                    }
                }
                m.push(x);
                if k % 4 == 1 {
                    m.push(None);
                }
                o.step();
            }
            vo_compare(&mut v, &m).map_err(|e| format!("after reserve({}) and pushes: {}", case[3], e))?;
            let w: VecOption<u64> = VecOption::with_capacity(case[3] as usize);
            ensure!(w.is_empty() && w.len() == 0, "with_capacity({}) is not empty", case[3]);
            o.state(fp_i64(14, case.iter().copied()));
            o.nontrivial(case[3] > 0);
            Ok(())
        }
        "long" => {
            // length, pattern, how, index, index
            let pat = pattern(case[0] as usize, case[1]);
            let (mut v, mut m) = build::<u64>(&pat, case[2]);
            vo_compare_all(&mut v, &m)?;
            for (k, x) in v.iter_mut().enumerate() {
                if let Some(x) = x {
                    *x += (k as u64) << 20;
                }
            }
            for (k, x) in m.iter_mut().enumerate() {
                if let Some(x) = x {
                    *x += (k as u64) << 20;
                }
            }
            vo_compare(&mut v, &m)?;
            {
                let mut it = v.clone().into_iter();
                for (k, x) in m.iter().enumerate() {
                    ensure_eq!(it.next(), Some(*x), "into_iter at {}", k);
                }
                ensure!(it.next().is_none() && it.next().is_none(), "into_iter goes on");
            }
            {
                let mut w: VecOption<u64> = v.clone();
                w.extend(m.iter().copied());
                ensure_eq!(w.len(), 2 * m.len(), "length after extend");
                w.drain(..m.len());
                vo_compare(&mut w, &m).map_err(|e| format!("extended and drained: {}", e))?;
            }
            let (i, j) = (case[3] as usize, case[4] as usize);
            ensure_eq!(v.replace(i, Some(9001)), m[i].replace(9001), "replace({})", i);
            v.swap(i, j);
            m.swap(i, j);
            vo_compare(&mut v, &m)?;
            ensure_eq!(v.replace_none(j), m[j].take(), "replace_none({})", j);
            v.set(i, None);
            m[i] = None;
            ensure_eq!(v.replace_some(j, 9002), m[j].replace(9002), "replace_some({})", j);
            v.set_some(i, 9003);
            m[i] = Some(9003);
            v.set_none(i);
            m[i] = None;
            vo_compare_all(&mut v, &m)?;
            ensure_eq!(v.get_copy(j), m[j], "get_copy({})", j);
            o.steps(8);
            while v.len() > i {
                let (x, y) = (v.pop(), m.pop());
                ensure_eq!(x, y, "pop");
                o.step();
            }
            vo_compare(&mut v, &m)?;
            for k in 0..40 {
                let x = if k % 3 == 1 { None } else { Some(k) };
                v.push(x);
                m.push(x);
                o.step();
            }
            vo_compare_all(&mut v, &m)?;
            loop {
                let mut y = None;
                while let Some(x) = m.pop() {
                    if x.is_some() {
                        y = x;
                        break;
                    }
                }
                ensure_eq!(v.pop_some(), y, "pop_some");
                ensure_eq!(v.len(), m.len(), "length after pop_some");
                o.step();
                if y.is_none() {
                    break;
                }
            }
            vo_compare(&mut v, &m)?;
            o.state(fp_i64(12, case.iter().copied()));
            o.nontrivial(case[1] > 1);
            Ok(())
        }
        "outside" => {
            // n, pattern bits, index beyond the end
            let n = case[0] as usize;
            let pat = bits(n, case[1]);
            let i = case[2] as usize;
            let (mut v, m) = build::<u64>(&pat, case[1] % 5);
            must_panic(&mut v, &m, "get_ref", |v| {
                v.get_ref(i);
            })?;
            must_panic(&mut v, &m, "get_mut", |v| {
                v.get_mut(i);
            })?;
            must_panic(&mut v, &m, "get_copy", |v| {
                v.get_copy(i);
            })?;
            must_panic(&mut v, &m, "get_clone", |v| {
                v.get_clone(i);
            })?;
            must_panic(&mut v, &m, "replace", |v| {
                v.replace(i, Some(1));
            })?;
            must_panic(&mut v, &m, "replace", |v| {
                v.replace(i, None);
            })?;
            must_panic(&mut v, &m, "replace_some", |v| {
                v.replace_some(i, 1);
            })?;
            must_panic(&mut v, &m, "replace_none", |v| {
                v.replace_none(i);
            })?;
            must_panic(&mut v, &m, "set", |v| {
                v.set(i, Some(1));
            })?;
            must_panic(&mut v, &m, "set_some", |v| {
                v.set_some(i, 1);
            })?;
            must_panic(&mut v, &m, "set_none", |v| {
                v.set_none(i);
            })?;
            must_panic(&mut v, &m, "swap", |v| v.swap(i, i))?;
            if n > 0 {
                must_panic(&mut v, &m, "swap", |v| v.swap(0, i))?;
                must_panic(&mut v, &m, "swap", |v| v.swap(i, n - 1))?;
                must_panic(&mut v, &m, "drain", |v| {
                    v.drain(1..0);
                })?;
            }
            must_panic(&mut v, &m, "drain", |v| {
                v.drain(n..i + 1);
            })?;
            must_panic(&mut v, &m, "drain", |v| {
                v.drain(..=i);
            })?;
            must_panic(&mut v, &m, "drain", |v| {
                v.drain(i + 1..);
            })?;
            o.steps(18);
            o.state(fp_i64(13, case.iter().copied()));
            o.nontrivial(n > 0);
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn emit_ops(e: &mut Enum, fam: &'static str, starts: &[i64], nops: i64, maxlen: usize) {
    for &s in starts {
        for len in 0..=maxlen {
            sequences(nops, len, &mut |q| {
                if !e.mine() {
                    return true;
                }
                let mut c = vec![s];
                c.extend_from_slice(q);
                e.emit(fam, &c);
                !e.stopped()
            });
        }
    }
}

fn v01_enum(e: &mut Enum) {
    emit_adapters(e);
    emit_ops(e, "ops", &[0, 1, 2, 3, 4], V01_OPS, e.pick(4, 5));
    emit_ops(e, "ops", &[0, 4], V01_OPS, e.pick(4, 6));
    emit_ops(e, "ops", &[5], V01_OPS, e.pick(3, 4));
    for f in ["ops-u8", "ops-string", "ops-unit", "ops-wide"] {
        emit_ops(e, f, &[0, 1, 4], V01_OPS, e.pick(3, 4));
    }
    let nmax = e.pick(7, 9);
    for n in 0..=nmax {
        for p in 0..1i64 << n {
            for a in 0..=n {
                for b in a..=n {
                    for take in 0..=b - a {
                        for kind in 0..6 {
                            let ok = match kind {
                                0 => true,
                                1 => b > a,
                                2 => a > 0,
                                3 => a == 0,
                                4 => b == n,
                                _ => a == 0 && b == n,
                            };
                            if ok {
                                let how = if kind == 0 { p % 5 } else { 0 };
                                e.emit("drain", &[n, p, how, kind, a, b, take]);
                            }
                        }
                    }
                }
            }
        }
    }
    let lens: Vec<i64> = if e.thorough() { (20..140).collect() } else { vec![30, 31, 32, 33, 34, 63, 64, 65, 66, 96, 97, 127, 128, 129] };
    for &n in &lens {
        let mut pts: Vec<i64> = [0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, n - 2, n - 1, n].iter().copied().filter(|&x| x <= n && x >= 0).collect();
        pts.sort();
        pts.dedup();
        for p in 0..PATTERNS {
            for &a in &pts {
                for &b in &pts {
                    if a < n && b < n && (a == 0 || b == 0 || (a + b) % 3 == 0 || e.thorough()) {
                        e.emit("long", &[n, p, (a + b + p) % 5, a, b]);
                    }
                    if a <= b {
                        for take in [0, (b - a) / 2, b - a] {
                            e.emit("longdrain", &[n, p, (a + b + p) % 5, 0, a, b, take]);
                        }
                    }
                }
            }
        }
    }
    for n in ladder(150, e.pick(132_000, 600_000)) {
        for p in 0..PATTERNS {
            e.emit("long", &[n, p, (n + p) % 5, n / 3, n - 1]);
            e.emit("long", &[n, p, (n + p + 2) % 5, 0, n / 2]);
            for (a, b) in [(0, 255), (1, 257), (7, 7 + 64), (n / 2, n - 3), (0, n), (0, n - 1), (1, n), (0, 1), (3, 4), (n / 2, n / 2 + 1), (n - 1, n), (n / 3, n / 3 + 32), (5, n / 2), (n / 4, n / 4 + 1000)] {
                if b <= n && a <= b {
                    for take in [0, (b - a) / 2, b - a] {
                        e.emit("longdrain", &[n, p, (n + p) % 5, 0, a, b, take]);
                    }
                }
            }
        }
    }
    for n in (0..=e.pick(130, 300)).chain(ladder(e.pick(131, 301), e.pick(70_000, 300_000))) {
        for p in 0..PATTERNS {
            for (k, r) in [0, 1, 31, 32, 33, 100, 999, 1000, 1001, 1025, 5000, 70_000].iter().enumerate() {
                if n < 70 || (k as i64 + n + p) % 3 == 0 {
                    e.emit("reserve", &[n, p, (n + p + k as i64) % 5, *r]);
                }
            }
        }
    }
    for n in 0..=e.pick(4, 6) {
        for p in 0..1i64 << n {
            for i in [n, n + 1, 31, 32, 33, 63, 64, 255, 256, 1000, 65_535, 65_536, 1 << 32, (1 << 32) + 1] {
                e.emit("outside", &[n, p, i]);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ V02

#[derive(Default)]
struct Track {
    alive: Vec<bool>,
    errors: Vec<String>,
    drops: u64,
    clones: u64,
    panic_drop: u64,  // panic on this drop (1-based), 0 never
    panic_clone: u64, // likewise
    fired: bool,
}

thread_local! {
    static TRACK: RefCell<Track> = RefCell::new(Track::default());
}

struct Injected;

const MAGIC: u64 = 0x5afe_c0de_1234_5678;

struct D {
    magic: u64,
    id: u64,
}

impl D {
    fn new() -> D {
        TRACK.with(|t| {
            let mut t = t.borrow_mut();
            t.alive.push(true);
            D { magic: MAGIC, id: t.alive.len() as u64 - 1 }
        })
    }
    /// The item is used.
    fn touch(&self) {
        TRACK.with(|t| {
            let mut t = t.borrow_mut();
            if self.magic != MAGIC {
                t.errors.push("something that was never an item was used as one".to_string());
            } else if !t.alive.get(self.id as usize).copied().unwrap_or(false) {
                let id = self.id;
                t.errors.push(format!("item {} was used after it was dropped", id));
            }
        });
    }
}

impl Drop for D {
    fn drop(&mut self) {
        let fire = TRACK.with(|t| {
            let mut t = t.borrow_mut();
            t.drops += 1;
            if self.magic != MAGIC {
                t.errors.push("something that was never an item was dropped".to_string());
                return false;
            }
            if !t.alive.get(self.id as usize).copied().unwrap_or(false) {
                let id = self.id;
                t.errors.push(format!("item {} was dropped twice", id));
                return false;
            }
            t.alive[self.id as usize] = false;
            // A panic while another one unwinds would end the process, whatever the code does.
            if t.drops == t.panic_drop && !std::thread::panicking() {
                t.fired = true;
                true
            } else {
                false
            }
        });
        if fire {
            std::panic::resume_unwind(Box::new(Injected));
        }
    }
}

impl Clone for D {
    fn clone(&self) -> D {
        self.touch();
        let fire = TRACK.with(|t| {
            let mut t = t.borrow_mut();
            t.clones += 1;
            if t.clones == t.panic_clone {
                t.fired = true;
                true
            } else {
                false
            }
        });
        if fire {
            std::panic::resume_unwind(Box::new(Injected));
        }
        D::new()
    }
}

impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.touch();
        o.touch();
        self.id == o.id
    }
}
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "D{}", self.id)
    }
}

const V02_OPS: i64 = 40;

/// Items handed back go to `kept`; some operations drop them at once instead.
/// Returns true if items were deliberately leaked.
fn v02_op(op: i64, v: &mut VecOption<D>, kept: &mut Vec<D>) -> bool {
    let n = v.len();
    let mid = n / 2;
    match op {
        0 => v.push(Some(D::new())),
        1 => v.push(None),
        2 => v.push_some(D::new()),
        3 => drop(v.pop()),
        4 => {
            if let Some(Some(d)) = v.pop() {
                kept.push(d)
            }
        }
        5 => drop(v.pop_some()),
        6 => {
            if n > 0 {
                v.set(mid, Some(D::new()))
            }
        }
        7 => {
            if n > 0 {
                v.set_none(0)
            }
        }
        8 => {
            if n > 0 {
                if let Some(d) = v.replace_some(n - 1, D::new()) {
                    kept.push(d)
                }
            }
        }
        9 => {
            if n > 0 {
                if let Some(d) = v.replace_none(mid) {
                    kept.push(d)
                }
            }
        }
        10 => {
            if n > 0 {
                v.swap(0, n - 1)
            }
        }
        11 => drop(v.drain(..)),
        12 => drop(v.drain(mid..).next()),
        13 => {
            let mut d = v.drain(..n - n / 3);
            if let Some(Some(x)) = d.next() {
                kept.push(x)
            }
            if let Some(Some(x)) = d.next() {
                kept.push(x)
            }
        }
        14 => {
            // A leaked drain.
            let mut d = v.drain(mid..);
            let x = d.next();
            std::mem::forget(d);
            drop(x);
            return true;
        }
        15 => v.extend([Some(D::new()), None, Some(D::new())].into_iter()),
        16 => {
            // The source panics part way.
            let mut k = 0;
            let it = std::iter::from_fn(|| {
                k += 1;
                match k {
                    1 => Some(Some(D::new())),
                    2 => Some(None),
                    3 => Some(Some(D::new())),
                    _ => std::panic::resume_unwind(Box::new(Injected)),
                }
            });
            v.extend(it);
        }
        17 => {
            let mut k = 0;
            let it = std::iter::from_fn(|| {
                k += 1;
                match k {
                    1 => Some(None),
                    2 => Some(Some(D::new())),
                    _ => std::panic::resume_unwind(Box::new(Injected)),
                }
            });
            let w: VecOption<D> = it.collect();
            *v = w;
        }
        18 => {
            v.compact();
        }
        19 => {
            let old = std::mem::replace(v, VecOption::new());
            kept.extend(old.some_into_vec());
        }
        20 => {
            let old = std::mem::replace(v, VecOption::new());
            *v = VecOption::from_vec(old.some_into_vec());
        }
        21 => drop(v.clone()),
        22 => *v = v.clone(),
        23 => drop(std::mem::replace(v, VecOption::new()).into_iter()),
        24 => {
            let mut it = std::mem::replace(v, VecOption::new()).into_iter();
            drop(it.next());
            if let Some(Some(x)) = it.next() {
                kept.push(x)
            }
        }
        25 => {
            let mut it = std::mem::replace(v, VecOption::new()).into_some_iter();
            if let Some(x) = it.next() {
                kept.push(x)
            }
            drop(it);
        }
        26 => {
            let it = std::mem::replace(v, VecOption::new()).into_some_iter();
            for x in it {
                v.push_some(x);
                v.push_none();
            }
        }
        27 => *v = VecOption::new_repeat_none(3),
        28 => {
            for x in v.iter_mut().flatten() {
                *x = D::new();
            }
        }
        29 => {
            for r in v.iter_runs_mut() {
                r.reverse();
            }
        }
        30 => {
            if n > 0 {
                kept.extend(v.get_clone(mid))
            }
        }
        31 => {
            // An iterator leaked with what is left in it.
            let mut it = std::mem::replace(v, VecOption::new()).into_iter();
            drop(it.next());
            std::mem::forget(it);
            return true;
        }
        32 => {
            v.reserve(40);
            kept.truncate(1);
        }
        33 => {
            let mut items: Vec<Option<D>> = std::mem::replace(v, VecOption::new()).into_iter().collect();
            items.reverse();
            *v = items.into_iter().collect();
        }
        34 => {
            if n > 0 {
                v.set_some(mid, D::new())
            }
        }
        35 => {
            if n > 0 {
                v.set(n - 1, None)
            }
        }
        36 => {
            for (i, x) in v.iter_some_index_mut() {
                if i % 2 == 0 {
                    let old = std::mem::replace(x, D::new());
                    kept.push(old);
                }
            }
        }
        37 => {
            if n > 0 {
                if let Some(x) = v.get_mut(mid) {
                    *x = D::new();
                }
                v.swap(mid, 0);
            }
        }
        38 => {
            // Everything is drained, and the drain used after its end.
            let mut d = v.drain(n / 3..);
            while let Some(x) = d.next() {
                kept.extend(x);
            }
            assert!(d.next().is_none());
        }
        39 => {
            // The same of the owning iterators.
            let mut it = std::mem::replace(v, VecOption::new()).into_iter();
            let mut other = VecOption::with_capacity(1);
            while let Some(x) = it.next() {
                other.push(x);
            }
            assert!(it.next().is_none());
            let mut it = other.into_some_iter();
            while let Some(x) = it.next() {
                v.push_some(x);
            }
            assert!(it.next().is_none());
        }
        _ => unreachable!(),
    }
    false
}

fn v02_start(s: i64) -> VecOption<D> {
    match s {
        0 => VecOption::new(),
        1 => [Some(D::new()), None, Some(D::new())].into_iter().collect(),
        2 => VecOption::from_vec(vec![D::new(), D::new(), D::new()]),
        3 => [None, Some(D::new()), Some(D::new()), None, Some(D::new()), None].into_iter().collect(),
        4 => (0..34).map(|i| if i % 5 == 2 { None } else { Some(D::new()) }).collect(),
        5 => (0..300).map(|i| if i % 7 == 2 || i == 64 { None } else { Some(D::new()) }).collect(),
        6 => VecOption::from_vec((0..130).map(|_| D::new()).collect()),
        _ => (0..70_000).map(|i| if i % 5 == 2 { None } else { Some(D::new()) }).collect(),
    }
}

struct V02Out {
    drops: u64,
    clones: u64,
    leaked: bool,
    panicked: bool,
    live: usize,
    created: usize,
    shape: u64,
}

fn v02_run(case: &[i64], panic_drop: u64, panic_clone: u64) -> Result<V02Out, String> {
    TRACK.with(|t| *t.borrow_mut() = Track { panic_drop, panic_clone, ..Default::default() });
    let mut leaked = false;
    let mut panicked = false;
    let mut shape = 0;
    let guard = |r: std::thread::Result<bool>, panicked: &mut bool| -> Result<bool, String> {
        match r {
            Ok(l) => Ok(l),
            Err(p) => {
                if p.is::<Injected>() {
                    *panicked = true;
                    Ok(false)
                } else {
                    Err(last_panic())
                }
            }
        }
    };
    let errs = || TRACK.with(|t| t.borrow().errors.first().cloned());
    {
        let mut v = std::mem::ManuallyDrop::new(v02_start(case[0]));
        let mut kept: std::mem::ManuallyDrop<Vec<D>> = std::mem::ManuallyDrop::new(vec![]);
        for &op in &case[1..] {
            let r = catch_unwind(AssertUnwindSafe(|| v02_op(op, &mut v, &mut kept)));
            leaked |= guard(r, &mut panicked)?;
            // Use everything that can be reached.
            for x in v.iter().flatten() {
                x.touch();
            }
            for r in v.iter_runs() {
                for x in r {
                    x.touch();
                }
            }
            for x in kept.iter() {
                x.touch();
            }
            // Nothing can be reached twice.
            let mut ids: Vec<u64> = v.iter().flatten().chain(kept.iter()).map(|x| x.id).collect();
            ids.sort();
            if ids.windows(2).any(|w| w[0] == w[1]) {
                // Do not drop anything: that would only add noise.
                return Err(format!("after {:?}: an item can be reached in two places", case));
            }
            if let Some(e) = errs() {
                return Err(e);
            }
            if v.iter().count() != v.len() {
                return Err(format!("length {} but {} positions", v.len(), v.iter().count()));
            }
        }
        shape = shape_fp(&v.iter().collect::<Vec<_>>()).wrapping_add(shape);
        let v = std::mem::ManuallyDrop::into_inner(v);
        let kept = std::mem::ManuallyDrop::into_inner(kept);
        let r = catch_unwind(AssertUnwindSafe(move || {
            drop(v);
            false
        }));
        guard(r, &mut panicked)?;
        let r = catch_unwind(AssertUnwindSafe(move || {
            for x in &kept {
                x.touch();
            }
            drop(kept);
            false
        }));
        guard(r, &mut panicked)?;
    }
    TRACK.with(|t| {
        let t = t.borrow();
        if let Some(e) = t.errors.first() {
            return Err(e.clone());
        }
        Ok(V02Out {
            drops: t.drops,
            clones: t.clones,
            leaked,
            panicked,
            live: t.alive.iter().filter(|x| **x).count(),
            created: t.alive.len(),
            shape,
        })
    })
}

fn ensure_eq_or_panic(a: usize, b: usize) {
    assert_eq!(a, b, "count");
}

/// A vector of `n` positions given up part way: the items left behind are dropped once each.
fn v02_part(case: &[i64], o: &mut Obs) -> CheckResult {
    // length, pattern, how, items taken, the drop that panics (counted from the giving up; 0 none)
    let (n, p, how, take, fault) = (case[0] as usize, case[1], case[2], case[3] as usize, case[4] as u64);
    TRACK.with(|t| *t.borrow_mut() = Track::default());
    let pat = pattern(n, p);
    let v: VecOption<D> = pat.iter().map(|x| if *x { Some(D::new()) } else { None }).collect();
    let created = pat.iter().filter(|x| **x).count();
    let kept = RefCell::new(vec![]);
    let arm = || TRACK.with(|t| {
        let mut t = t.borrow_mut();
        t.panic_drop = if fault == 0 { 0 } else { t.drops + fault };
    });
    let left = RefCell::new(None);
    let r = catch_unwind(AssertUnwindSafe(|| match how {
        0 | 1 => {
            let mut it = v.into_iter();
            for k in 0..take {
                if let Some(Some(x)) = it.next() {
                    if how == 1 || k % 2 == 0 {
                        kept.borrow_mut().push(x);
                    }
                }
            }
            arm();
            drop(it);
        }
        2 => {
            let mut it = v.into_some_iter();
            for _ in 0..take {
                kept.borrow_mut().extend(it.next());
            }
            arm();
            drop(it);
        }
        3 | 4 => {
            let mut v = v;
            let at = if how == 3 { 0 } else { n / 3 };
            {
                let mut it = v.drain(at..n - (n - at) / 4);
                for k in 0..take.min(n - (n - at) / 4 - at) {
                    if let Some(Some(x)) = it.next() {
                        if k % 3 > 0 {
                            kept.borrow_mut().push(x);
                        }
                    }
                }
                arm();
            }
            *left.borrow_mut() = Some(v);
        }
        5 => {
            let mut v = v;
            for _ in 0..take {
                if v.len() > 0 {
                    kept.borrow_mut().extend(v.pop().unwrap());
                }
            }
            arm();
            drop(v);
        }
        6 => {
            let mut v = v;
            for _ in 0..take {
                kept.borrow_mut().extend(v.pop_some());
            }
            v.compact();
            let mut w = v.some_into_vec();
            w.truncate(n / 5);
            arm();
            *left.borrow_mut() = Some(VecOption::from_vec(w));
        }
        8 => {
            let mut it = v.into_iter();
            kept.borrow_mut().extend(it.next().flatten());
            kept.borrow_mut().extend(it.nth(take).flatten());
            kept.borrow_mut().extend(it.nth(1).flatten());
            arm();
            drop(it);
        }
        9 => {
            let mut it = v.into_some_iter();
            kept.borrow_mut().extend(it.nth(take));
            kept.borrow_mut().extend(it.next());
            arm();
            drop(it);
        }
        10 => {
            let mut v = v;
            {
                let mut it = v.drain(n / 4..n - n / 5);
                kept.borrow_mut().extend(it.nth(take).flatten());
                kept.borrow_mut().extend(it.next().flatten());
                arm();
            }
            *left.borrow_mut() = Some(v);
        }
        11 => {
            // the last, and what a count leaves
            kept.borrow_mut().extend(v.clone().into_some_iter().last());
            kept.borrow_mut().extend(v.clone().into_iter().last().flatten());
            let mut w = v.clone();
            ensure_eq_or_panic(v.into_iter().count(), n);
            kept.borrow_mut().extend(w.drain(n / 2..).last().flatten());
            arm();
            *left.borrow_mut() = Some(w);
        }
        _ => {
            // cloned; the original goes first
            let w = v.clone();
            arm();
            drop(v);
            *left.borrow_mut() = Some(w);
        }
    }));
    if let Err(p) = &r {
        ensure!(p.is::<Injected>(), "{:?}: {}", case, last_panic());
    }
    TRACK.with(|t| t.borrow_mut().panic_drop = 0);
    let kept = kept.into_inner();
    let left = left.into_inner();
    for x in kept.iter().chain(left.iter().flat_map(|v| v.iter().flatten())) {
        x.touch();
    }
    let held = kept.len() + left.as_ref().map_or(0, |v| v.iter().flatten().count());
    let live = TRACK.with(|t| t.borrow().alive.iter().filter(|x| **x).count());
    if let Some(e) = TRACK.with(|t| t.borrow().errors.first().cloned()) {
        std::mem::forget((kept, left));
        return Err(format!("{:?}: {}", case, e));
    }
    if r.is_ok() {
        ensure!(live == held, "{:?}: {} items are alive, {} can be reached ({} were made)", case, live, held, created);
    }
    drop(kept);
    drop(left);
    o.steps(take as u64 + 2);
    if let Some(e) = TRACK.with(|t| t.borrow().errors.first().cloned()) {
        return Err(format!("{:?}: {}", case, e));
    }
    if r.is_ok() {
        let live = TRACK.with(|t| t.borrow().alive.iter().filter(|x| **x).count());
        ensure!(live == 0, "{:?}: {} of {} items were never dropped", case, live, created);
    }
    o.state(fp_i64(34, case.iter().copied()));
    o.nontrivial(created > take && take > 0);
    Ok(())
}

fn v02_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    if fam == "part" {
        return v02_part(case, o);
    }
    let plain = v02_run(case, 0, 0).map_err(|e| format!("ops {:?}: {}", case, e))?;
    o.steps(case.len() as u64);
    o.state(plain.shape);
    if !plain.leaked && !plain.panicked {
        ensure!(plain.live == 0, "ops {:?}: {} of {} items were never dropped", case, plain.live, plain.created);
    }
    if plain.panicked && !plain.leaked {
        // Only a source iterator panicked; nothing in the vector's own work did.
        ensure!(plain.live == 0, "ops {:?} with a panicking source: {} of {} items were never dropped", case, plain.live, plain.created);
    }
    if fam == "faults" {
        for k in 1..=plain.drops {
            let r = v02_run(case, k, 0).map_err(|e| format!("ops {:?} with drop {} panicking: {}", case, k, e))?;
            ensure!(r.panicked, "ops {:?}: the panic of drop {} was lost", case, k);
            o.steps(case.len() as u64);
        }
        for k in 1..=plain.clones {
            v02_run(case, 0, k).map_err(|e| format!("ops {:?} with clone {} panicking: {}", case, k, e))?;
            o.steps(case.len() as u64);
        }
        o.nontrivial(plain.drops + plain.clones > 1);
    } else {
        o.nontrivial(plain.created > 1);
    }
    o.note(|| format!("{} items, {} drops, {} clones", plain.created, plain.drops, plain.clones));
    Ok(())
}

fn v02_enum(e: &mut Enum) {
    emit_ops(e, "plain", &[0, 1, 2, 3], V02_OPS, e.pick(4, 5));
    emit_ops(e, "plain", &[3], V02_OPS, e.pick(4, 5));
    emit_ops(e, "plain", &[4], V02_OPS, 2);
    emit_ops(e, "faults", &[0, 1, 2, 3], V02_OPS, e.pick(3, 4));
    emit_ops(e, "faults", &[3], V02_OPS, e.pick(3, 4));
    emit_ops(e, "faults", &[4], V02_OPS, e.pick(2, 2));
    emit_ops(e, "plain", &[5, 6], V02_OPS, 2);
    emit_ops(e, "faults", &[5, 6], V02_OPS, e.pick(1, 2));
    emit_ops(e, "plain", &[7], V02_OPS, e.pick(1, 2));
    for n in (1..=e.pick(40, 100)).chain([63, 64, 65, 66, 95, 96, 97, 127, 128, 129]).chain(ladder(130, e.pick(20_000, 140_000))) {
        for p in if n < 200 { 0..PATTERNS } else { 0..4 } {
            for how in 0..12 {
                let mut takes = vec![0, 1, 2, 31, 32, 33, n / 3, n / 2, n - 2, n - 1, n, n + 1, 63, 64, 65, 255, 256, 257, 310, 1000, 5000];
                takes.retain(|x| *x >= 0 && *x <= n + 1);
                takes.sort();
                takes.dedup();
                for take in takes {
                    for fault in [0, 1, 2, n / 4] {
                        if fault == 0 || n < 300 && how != 6 {
                            e.emit("part", &[n, p, how, take, fault]);
                        }
                    }
                }
            }
        }
    }
    for start in [0, 3] {
        for op in [0, 1, 2, 14, 27] {
            for n in 5..=e.pick(70, 140) {
                let mut c = vec![start];
                c.extend(std::iter::repeat(op).take(n));
                e.emit("plain", &c);
                c.push(1);
                e.emit("faults", &c);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ V03

#[derive(Default)]
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 {
        fp_i64(5, self.0.iter().map(|x| *x as i64))
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn hash_of<T: std::hash::Hash>(v: &VecOption<T>) -> (u64, u64) {
    use std::hash::{Hash, Hasher};
    let mut r = Rec::default();
    v.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut d);
    (r.finish(), d.finish())
}

fn ref_cmp(a: &[Option<u64>], b: &[Option<u64>]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}

/// A vector with these items and one of several pasts.
fn with_past<T: Clone>(items: &[Option<T>], filler: T, past: i64) -> VecOption<T> {
    match past {
        0 => items.iter().cloned().collect(),
        1 => {
            let mut v = VecOption::with_capacity(50);
            for x in items {
                v.push(Some(filler.clone()));
                let i = v.len() - 1;
                v.replace(i, x.clone());
            }
            v
        }
        2 => {
            // Every slot held something once, and the vector was longer.
            let mut v = VecOption::from_vec(vec![filler; items.len() + 3]);
            v.drain(1..3);
            v.pop();
            for (i, x) in items.iter().enumerate() {
                v.set(i, x.clone());
            }
            v
        }
        _ => {
            let mut v = VecOption::new_repeat_none(items.len());
            for (i, x) in items.iter().enumerate() {
                if let Some(x) = x {
                    v.set_some(i, x.clone());
                }
            }
            v.clone()
        }
    }
}

fn cmp_pair(a: &[Option<u64>], b: &[Option<u64>], pa: i64, pb: i64, o: &mut Obs) -> CheckResult {
    let va = with_past(a, 999, pa);
    let vb = with_past(b, 888, pb);
    let want = ref_cmp(a, b);
    let ctx = || format!("{:?} and {:?}", a, b);
    ensure_eq!(va == vb, a == b, "equality of {}", ctx());
    ensure_eq!(va != vb, a != b, "inequality of {}", ctx());
    ensure_eq!(va.cmp(&vb), want, "cmp of {}", ctx());
    ensure_eq!(vb.cmp(&va), want.reverse(), "reverse cmp of {}", ctx());
    ensure_eq!(va.partial_cmp(&vb), Some(want), "partial_cmp of {}", ctx());
    ensure_eq!(va < vb, want == Ordering::Less, "less of {}", ctx());
    ensure_eq!(va <= vb, want != Ordering::Greater, "less or equal of {}", ctx());
    ensure_eq!(va > vb, want == Ordering::Greater, "greater of {}", ctx());
    ensure_eq!(va >= vb, want != Ordering::Less, "greater or equal of {}", ctx());
    if a == b {
        ensure_eq!(hash_of(&va), hash_of(&vb), "hash of {}", ctx());
    }
    o.steps(8);
    o.nontrivial(a.len() == b.len() && a != b);
    Ok(())
}

/// The laws for one item type: `v` against `w` with any two pasts.
fn laws<T: Clone + Ord + std::hash::Hash + std::fmt::Debug>(a: &[Option<T>], b: &[Option<T>], filler: T, pa: i64, pb: i64) -> CheckResult {
    let va = with_past(a, filler.clone(), pa);
    let vb = with_past(b, filler, pb);
    let want = a.len().cmp(&b.len()).then_with(|| a.cmp(b));
    let ctx = || if a.len() + b.len() < 40 { format!("{:?} and {:?}", a, b) } else { format!("lengths {} and {}", a.len(), b.len()) };
    for (v, w, eq, ord) in [(&va, &vb, a == b, want), (&vb, &va, a == b, want.reverse()), (&va, &va, true, Ordering::Equal), (&vb, &vb, true, Ordering::Equal)] {
        ensure_eq!(v == w, eq, "equality of {}", ctx());
        ensure_eq!(v != w, !eq, "inequality of {}", ctx());
        ensure_eq!(v.cmp(w), ord, "cmp of {}", ctx());
        ensure_eq!(v.partial_cmp(w), Some(ord), "partial_cmp of {}", ctx());
        ensure_eq!((v < w, v <= w, v > w, v >= w), (ord.is_lt(), ord.is_le(), ord.is_gt(), ord.is_ge()), "comparisons of {}", ctx());
        if eq {
            ensure_eq!(hash_of(v), hash_of(w), "hash of {}", ctx());
        }
    }
    let ca = va.clone();
    ensure!(ca == va && ca.len() == a.len() && ca.iter().eq(a.iter().map(|x| x.as_ref())), "clone of {:?}", ctx());
    ensure_eq!(hash_of(&ca), hash_of(&va), "hash of a clone of {}", ctx());
    let mut t = vb;
    t.clone_from(&va);
    ensure!(t == va && t.len() == a.len() && t.iter().eq(a.iter().map(|x| x.as_ref())), "clone_from of {:?}", ctx());
    Ok(())
}

fn decode_items(n: i64, x: i64, base: i64) -> Vec<Option<u64>> {
    let mut x = x;
    (0..n)
        .map(|_| {
            let d = x % base;
            x /= base;
            if d == 0 {
                None
            } else {
                Some(d as u64 - 1)
            }
        })
        .collect()
}

fn v03_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    match fam {
        "pair" => {
            let a = decode_items(case[0], case[1], case[6]);
            let b = decode_items(case[2], case[3], case[6]);
            cmp_pair(&a, &b, case[4], case[5], o)
        }
        "longpair" => {
            // length, pattern, position that differs (or -1), how it differs, extra length
            let pat = pattern(case[0] as usize, case[1]);
            let a: Vec<Option<u64>> = pat.iter().enumerate().map(|(i, &p)| if p { Some(i as u64) } else { None }).collect();
            let mut b = a.clone();
            if case[2] >= 0 {
                let p = case[2] as usize;
                b[p] = match (b[p], case[3]) {
                    (None, _) => Some(0),
                    (Some(_), 0) => None,
                    (Some(x), 1) => Some(x + 1),
                    (Some(x), _) => Some(x.wrapping_sub(1)),
                };
            }
            for _ in 0..case[4] {
                b.push(None);
            }
            let k = case[0] + case[1] + case[2] + 1;
            cmp_pair(&a, &b, k % 4, (k + 1) % 4, o)?;
            cmp_pair(&b, &a, (k + 2) % 4, k % 4, o)
        }
        "partial" => {
            let dec = |n: i64, x: i64| -> Vec<Option<f64>> {
                decode_items(n, x, 4).into_iter().map(|y| y.map(|d| [0.0, 1.0, f64::NAN][d as usize])).collect()
            };
            let a = dec(case[0], case[1]);
            let b = dec(case[2], case[3]);
            let va: VecOption<f64> = a.iter().cloned().collect();
            let vb: VecOption<f64> = b.iter().cloned().collect();
            let want = if a.len() != b.len() { Some(a.len().cmp(&b.len())) } else { a.partial_cmp(&b) };
            ensure_eq!(va.partial_cmp(&vb), want, "partial_cmp of {:?} and {:?}", a, b);
            ensure_eq!(va == vb, a == b, "equality of {:?} and {:?}", a, b);
            ensure_eq!((va < vb, va <= vb, va > vb, va >= vb), (want == Some(Ordering::Less), matches!(want, Some(Ordering::Less | Ordering::Equal)), want == Some(Ordering::Greater), matches!(want, Some(Ordering::Greater | Ordering::Equal))), "comparisons of {:?} and {:?}", a, b);
            ensure_eq!(va == va, a == a, "equality of {:?} with itself", a);
            ensure_eq!(va.partial_cmp(&va), a.partial_cmp(&a), "partial_cmp of {:?} with itself", a);
            o.steps(2);
            o.nontrivial(want.is_none());
            Ok(())
        }
        "types" => {
            // the same two sequences with other item types
            let a = decode_items(case[0], case[1], 3);
            let b = decode_items(case[2], case[3], 3);
            let (pa, pb) = (case[4], case[5]);
            let unit = |s: &[Option<u64>]| -> Vec<Option<()>> { s.iter().map(|x| x.map(|_| ())).collect() };
            let small = |s: &[Option<u64>]| -> Vec<Option<u8>> { s.iter().map(|x| x.map(|y| y as u8)).collect() };
            let text = |s: &[Option<u64>]| -> Vec<Option<String>> { s.iter().map(|x| x.map(|y| "x".repeat(y as usize))).collect() };
            let wide = |s: &[Option<u64>]| -> Vec<Option<(i128, bool)>> { s.iter().map(|x| x.map(|y| (-(y as i128), y == 1))).collect() };
            let signed = |s: &[Option<u64>]| -> Vec<Option<i64>> { s.iter().map(|x| x.map(|y| [i64::MIN, i64::MAX][y as usize])).collect() };
            let pairs = |s: &[Option<u64>]| -> Vec<Option<Option<bool>>> { s.iter().map(|x| x.map(|y| [None, Some(false)][y as usize])).collect() };
            laws(&unit(&a), &unit(&b), (), pa, pb)?;
            laws(&small(&a), &small(&b), 9, pa, pb)?;
            laws(&text(&a), &text(&b), "zz".into(), pa, pb)?;
            laws(&wide(&a), &wide(&b), (5, false), pa, pb)?;
            laws(&signed(&a), &signed(&b), 5, pa, pb)?;
            laws(&pairs(&a), &pairs(&b), Some(true), pa, pb)?;
            o.steps(6 * 8);
            o.nontrivial(a.len() == b.len() && a != b);
            o.state(fp_i64(41, case.iter().copied()));
            Ok(())
        }
        "lengths" => {
            // two lengths, pattern: prefixes of one sequence
            let n = case[0].max(case[1]) as usize;
            let pat = pattern(n, case[2]);
            let all: Vec<Option<u8>> = pat.iter().enumerate().map(|(i, &p)| if p { Some(i as u8) } else { None }).collect();
            let (a, b) = (&all[..case[0] as usize], &all[..case[1] as usize]);
            laws(a, b, 99, case[3], (case[3] + 1) % 4)?;
            o.steps(8);
            o.nontrivial(a.len() != b.len());
            o.state(fp_i64(42, case.iter().copied()));
            Ok(())
        }
        "clone" => {
            // start, operation on the clone, operation on the original, and again
            let mut next = 0;
            let (mut v, mut m) = v_start::<String>(case[0], &mut next);
            let mut first = next;
            v01_op(case[1], &mut v, &mut m, &mut first)?;
            let (mut c, mut mc) = (v.clone(), m.clone());
            vo_compare(&mut c, &mc).map_err(|e| format!("clone: {}", e))?;
            ensure!(c == v && v == c, "a clone differs from its original");
            ensure_eq!(hash_of(&c), hash_of(&v), "hash of a clone");
            for &op in &case[2..] {
                v01_op(op, &mut c, &mut mc, &mut next)?;
                vo_compare(&mut v, &m).map_err(|e| format!("original after a change to the clone: {}", e))?;
                vo_compare_all(&mut c, &mc).map_err(|e| format!("clone: {}", e))?;
                v01_op(29 - op % 30, &mut v, &mut m, &mut next)?;
                vo_compare(&mut c, &mc).map_err(|e| format!("clone after a change to the original: {}", e))?;
                vo_compare_all(&mut v, &m).map_err(|e| format!("original: {}", e))?;
                o.steps(2);
            }
            ensure_eq!(c == v, mc == m, "equality after changes");
            o.state(shape_fp(&m) ^ shape_fp(&mc).rotate_left(7));
            o.nontrivial(m != mc);
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn v03_enum(e: &mut Enum) {
    let top = e.pick(5, 6);
    for na in 0..=top {
        for a in 0..3i64.pow(na as u32) {
            for nb in 0..=top {
                for b in 0..3i64.pow(nb as u32) {
                    if na == nb && na <= 3 {
                        for p in 0..16 {
                            e.emit("pair", &[na, a, nb, b, p / 4, p % 4, 3]);
                        }
                    } else {
                        e.emit("pair", &[na, a, nb, b, a % 4, b % 4, 3]);
                    }
                }
            }
        }
    }
    let top = e.pick(4, 5);
    for na in 0..=top {
        for a in 0..3i64.pow(na as u32) {
            for nb in 0..=top {
                for b in 0..3i64.pow(nb as u32) {
                    if na == nb && na <= 2 {
                        for p in 0..16 {
                            e.emit("types", &[na, a, nb, b, p / 4, p % 4]);
                        }
                    } else {
                        e.emit("types", &[na, a, nb, b, (a + nb) % 4, (b / 3 + na) % 4]);
                    }
                }
            }
        }
    }
    let sizes: Vec<i64> = (0..4).chain(ladder(7, e.pick(70_000, 140_000))).collect();
    for &n in &sizes {
        for &m in &sizes {
            for p in [0, 1, 3, 10] {
                if (n - m).abs() < 40 || n < 40 || m < 40 || n + m < 1100 || (n - m) % 256 == 0 || e.thorough() {
                    e.emit("lengths", &[n, m, p, (n + m + p) % 4]);
                }
            }
        }
    }
    for n in ladder(150, e.pick(70_000, 140_000)) {
        for p in 0..PATTERNS {
            for d in [-1, 0, n / 2, n - 1] {
                for how in 0..3 {
                    e.emit("longpair", &[n, p, d, how, 0]);
                }
            }
        }
    }
    for n in [1i64, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 96, 128, 129] {
        for p in 0..PATTERNS {
            for d in -1..n {
                for how in 0..3 {
                    for extra in 0..2 {
                        e.emit("longpair", &[n, p, d, how, extra]);
                    }
                }
            }
        }
    }
    for na in 0..=3 {
        for a in 0..4i64.pow(na as u32) {
            for nb in 0..=3 {
                for b in 0..4i64.pow(nb as u32) {
                    e.emit("partial", &[na, a, nb, b]);
                }
            }
        }
    }
    for s in 0..6 {
        for len in 2..=e.pick(3, 4) {
            sequences(V01_OPS, len, &mut |q| {
                if !e.mine() {
                    return true;
                }
                let mut c = vec![s];
                c.extend_from_slice(q);
                e.emit("clone", &c);
                !e.stopped()
            });
        }
    }
}

// ------------------------------------------------------------------------------------------ V04

fn v04_one<T: Item>(pat: &[bool], how: i64, after: i64, o: &mut Obs) -> CheckResult {
    let (mut v, mut m) = build::<T>(pat, how);
    vo_compare_all(&mut v, &m)?;
    // Write through runs: each run's items change, and nothing else.
    for (k, r) in v.iter_runs_mut().enumerate() {
        if k % 2 == 0 {
            r.reverse();
        }
        for x in r.iter_mut() {
            x.bump();
        }
    }
    let mut k = 0;
    let mut i = 0;
    while i < m.len() {
        if m[i].is_some() {
            let mut j = i;
            while j < m.len() && m[j].is_some() {
                j += 1;
            }
            if k % 2 == 0 {
                m[i..j].reverse();
            }
            for x in m[i..j].iter_mut().flatten() {
                x.bump();
            }
            k += 1;
            i = j;
        } else {
            i += 1;
        }
    }
    vo_compare_all(&mut v, &m).map_err(|e| format!("after writing through runs: {}", e))?;
    for (i, x) in v.iter_some_index_mut() {
        *x = T::make(i as u64 + 50);
    }
    for (i, x) in m.iter_mut().enumerate() {
        if let Some(x) = x {
            *x = T::make(i as u64 + 50);
        }
    }
    vo_compare_all(&mut v, &m).map_err(|e| format!("after writing through positions: {}", e))?;
    let some: Vec<T> = m.iter().flatten().cloned().collect();
    o.steps(3);
    match after {
        0 => {
            let got = v.compact();
            ensure_eq!(got, &some[..], "compact");
            for x in got.iter_mut() {
                x.bump();
            }
            let mut m2: M<T> = some.iter().cloned().map(Some).collect();
            for x in m2.iter_mut().flatten() {
                x.bump();
            }
            vo_compare_all(&mut v, &m2).map_err(|e| format!("after compact: {}", e))?;
            let mut next = 500;
            for op in [1, 0, 22, 3, 2, 5, 4, 20] {
                v01_op(op, &mut v, &mut m2, &mut next)?;
                vo_compare(&mut v, &m2).map_err(|e| format!("compacted, then operation {}: {}", op, e))?;
            }
        }
        1 => ensure_eq!(v.some_into_vec(), some, "some_into_vec"),
        2 => ensure_eq!(v.into_some_iter().collect::<Vec<_>>(), some, "into_some_iter"),
        3 => ensure_eq!(v.into_iter().collect::<Vec<_>>(), m, "into_iter"),
        _ => {
            let mut it = v.into_some_iter();
            for (i, x) in some.iter().take(some.len() / 2).enumerate() {
                let got = it.next();
                ensure!(got.as_ref() == Some(x), "into_some_iter at {}: {:?}, expected {:?}", i, got, x);
            }
        }
    }
    o.step();
    Ok(())
}

fn v04_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    if fam == "adapters" {
        return v04_adapters(case, o);
    }
    let pat = if fam == "all" { bits(case[0] as usize, case[1]) } else if fam == "long" { pattern(case[0] as usize, case[1]) } else {
        // length, period, duty, phase
        (0..case[0]).map(|i| (i + case[3]) % case[1] < case[2]).collect()
    };
    let (how, after) = if fam == "runs" { (case[4], case[5]) } else { (case[2], case[3]) };
    o.nontrivial(pat.windows(2).filter(|w| w[0] != w[1]).count() > 1);
    o.state(fp_i64(17, pat.iter().map(|x| *x as i64)));
    v04_one::<u64>(&pat, how, after, o)?;
    if pat.len() <= 6 {
        v04_one::<String>(&pat, how, after, o)?;
        v04_one::<Wide>(&pat, how, after, o)?;
        v04_one::<()>(&pat, how, after, o)?;
    }
    o.note(|| format!("{:?}", pat));
    Ok(())
}

fn v04_enum(e: &mut Enum) {
    emit_adapters(e);
    for n in 0..=e.pick(15, 18) {
        for p in 0..1i64 << n {
            for after in 0..5 {
                if n <= 7 {
                    for how in 0..5 {
                        e.emit("all", &[n, p, how, after]);
                    }
                } else {
                    e.emit("all", &[n, p, p % 5, after]);
                }
            }
        }
    }
    for n in 0..=e.pick(270, 540) {
        for p in 0..PATTERNS {
            if p == 7 && n == 0 {
                continue;
            }
            for after in 0..5 {
                e.emit("long", &[n, p, (n + p) % 5, after]);
            }
        }
    }
    for n in ladder(271, e.pick(140_000, 600_000)) {
        for p in 0..PATTERNS {
            for after in 0..5 {
                e.emit("long", &[n, p, (n + p) % 5, after]);
            }
        }
        for period in [100, 255, 256, 257, 1000, 1025, 4096, 5000, 65_535, 65_536, 65_537, 70_000] {
            for duty in [1, 7, period / 2, period - 1] {
                if period < 2 * n {
                    for phase in [0, period - 2] {
                        let after = (n + duty + phase) % 5;
                        e.emit("runs", &[n, period, duty, phase, (n + phase) % 5, after]);
                    }
                }
            }
        }
    }
    for n in [31, 32, 33, 40, 63, 64, 65, 70, 128, 129] {
        for period in [2, 3, 5, 16, 31, 32, 33, 64] {
            for duty in [1, period / 2, period - 1] {
                for phase in [0, 1, period - 1] {
                    if duty > 0 {
                        e.emit("runs", &[n, period, duty, phase, (n + phase) % 5, (n + duty) % 5]);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ Q01

/// Ranked by `key` alone; `id` tells items apart.
#[derive(Clone, Debug)]
struct QI {
    key: i64,
    id: i64,
}
impl PartialEq for QI {
    fn eq(&self, o: &QI) -> bool {
        self.key == o.key
    }
}
impl Eq for QI {}
impl PartialOrd for QI {
    fn partial_cmp(&self, o: &QI) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for QI {
    fn cmp(&self, o: &QI) -> Ordering {
        self.key.cmp(&o.key)
    }
}

struct QModel {
    q: PQ<QI>,
    /// how many items of each rank are queued
    m: BTreeMap<i64, usize>,
    /// the rank of each item that was ever inserted, if it is queued
    items: Vec<Option<i64>>,
    len: usize,
}

impl QModel {
    fn insert(&mut self, key: i64) {
        self.q.insert(QI { key, id: self.items.len() as i64 });
        *self.m.entry(key).or_default() += 1;
        self.items.push(Some(key));
        self.len += 1;
    }
    fn clear(&mut self) {
        self.q.clear();
        self.m.clear();
        self.items.iter_mut().for_each(|x| *x = None);
        self.len = 0;
    }
    fn remove(&mut self) -> CheckResult {
        let got = self.q.remove();
        let max = self.m.keys().next_back().copied();
        match (got, max) {
            (None, None) => Ok(()),
            (Some(g), Some(k)) => {
                ensure!(g.key == k, "removed an item of rank {}, but one of rank {} is queued ({:?})", g.key, k, self.m);
                ensure!(self.items.get(g.id as usize) == Some(&Some(k)), "removed {:?}, which is not queued ({:?})", g, self.m);
                self.items[g.id as usize] = None;
                self.len -= 1;
                let c = self.m.get_mut(&k).unwrap();
                *c -= 1;
                if *c == 0 {
                    self.m.remove(&k);
                }
                Ok(())
            }
            (g, k) => Err(format!("remove gave {:?}, greatest queued rank {:?}", g, k)),
        }
    }
    fn drain(&mut self, o: &mut Obs) -> CheckResult {
        for _ in 0..self.len + 2 {
            self.remove()?;
            o.step();
        }
        ensure!(self.m.is_empty(), "items were lost: {:?}", self.m);
        Ok(())
    }
    fn fp(&self) -> u64 {
        fp_i64(21, self.m.iter().flat_map(|(k, c)| std::iter::repeat(*k).take(*c)))
    }
}

fn q01_check(fam: &str, case: &[i64], o: &mut Obs) -> CheckResult {
    let mut s = QModel { q: if case.len() % 2 == 0 { PQ::new() } else { PQ::with_capacity(3) }, m: BTreeMap::new(), items: vec![], len: 0 };
    match fam {
        "ops" => {
            // 0 remove, 1 clear, others insert
            for &op in case {
                match op {
                    0 => s.remove()?,
                    1 => {
                        s.clear();
                    }
                    k => s.insert(k),
                }
                o.step();
                o.state(s.fp());
            }
            o.nontrivial(s.len > 2);
            o.note(|| format!("queue holds {:?}", s.m));
            s.drain(o)
        }
        "insert" => {
            for &k in case {
                s.insert(k);
                o.step();
            }
            o.nontrivial(case.len() > 3);
            o.state(fp_i64(22, case.iter().copied()));
            s.drain(o)
        }
        "mixed" => {
            // a permutation, then a mask of where removals go: bit i after insertion i
            let n = case.len() - 1;
            for i in 0..n {
                s.insert(case[i]);
                o.step();
                if case[n] >> i & 1 == 1 {
                    s.remove()?;
                    o.step();
                }
                o.state(s.fp());
            }
            o.nontrivial(case[n] != 0);
            s.drain(o)
        }
        "big" => {
            // size, multiplier, modulus, removals between
            let (n, mul, md, rem) = (case[0], case[1], case[2], case[3]);
            for i in 0..n {
                s.insert(i * mul % md);
                if rem > 0 && i % rem == rem - 1 {
                    s.remove()?;
                }
                o.steps(1);
            }
            o.nontrivial(true);
            o.state(fp_i64(23, case.iter().copied()));
            s.drain(o)?;
            // and it can be used again
            for i in 0..5 {
                s.insert(i * 3 % 5);
            }
            s.drain(o)
        }
        "waves" => {
            // capacity, ranks, then by turns: items inserted, items removed (-1: clear)
            s.q = PQ::with_capacity(case[0] as usize);
            let mut i = 0i64;
            for (k, &c) in case[2..].iter().enumerate() {
                if c < 0 {
                    s.clear();
                    o.step();
                    continue;
                }
                for _ in 0..c {
                    if k % 2 == 1 {
                        s.remove()?;
                    } else {
                        s.insert(match case[1] {
                            0 => 1,
                            1 => i,
                            2 => -i,
                            3 => i % 2,
                            4 => i % 100,
                            5 => (i / 100) % 7,
                            _ => (mix(i as u64) % 100_000) as i64,
                        });
                        i += 1;
                    }
                    o.step();
                }
            }
            o.nontrivial(s.len > 2);
            o.state(fp_i64(24, case.iter().copied()));
            s.drain(o)
        }
        "extreme" => {
            let vals = [i64::MIN, -1, 0, 1, i64::MAX];
            for &k in case {
                s.insert(vals[k as usize]);
                o.step();
            }
            o.nontrivial(true);
            s.drain(o)
        }
        _ => unreachable!(),
    }
}

fn q01_enum(e: &mut Enum) {
    for len in 0..=e.pick(8, 9) {
        sequences(6, len, &mut |s| {
            e.emit("ops", s);
            !e.stopped()
        });
    }
    for n in 1..=e.pick(9, 11) {
        permutations(n, &mut |p| e.emit("insert", p));
    }
    for len in 0..=e.pick(12, 14) {
        sequences(3, len, &mut |s| {
            e.emit("insert", s);
            !e.stopped()
        });
    }
    for len in 0..=e.pick(7, 9) {
        sequences(5, len, &mut |s| {
            e.emit("insert", s);
            !e.stopped()
        });
    }
    for n in 2..=e.pick(7, 8) {
        permutations(n, &mut |p| {
            for mask in 1..1i64 << n {
                let mut c = p.to_vec();
                c.push(mask);
                e.emit("mixed", &c);
            }
        });
    }
    for len in 0..=5 {
        sequences(5, len, &mut |s| {
            e.emit("extreme", s);
            true
        });
    }
    for ranks in 0..7 {
        for cap in [0, 64, 9000] {
            for n in (1..=e.pick(40, 100)).chain([127, 128, 129, 255, 256, 257, 300, 511, 513, 700, 800, 1000, 1023, 1025, 1500, 2049]) {
                for (b, c, d) in [(n, n, 0), (n / 2, n, n), (n - 1, 3, 2), (n / 3, n / 2, n), (-1, n, n / 2), (1, 1, 1)] {
                    e.emit("waves", &[cap, ranks, n, b, c, d]);
                }
            }
            for n in [3000, 4095, 4096, 4097, 6000, 8193, 10_000, e.pick(12_000, 20_000)] {
                e.emit("waves", &[cap, ranks, n, n / 2, n / 4, n / 3, 100]);
            }
        }
    }
    for n in ladder(401, e.pick(4100, 17_000)) {
        for (mul, md) in [(1, 1 << 40), (-1, 1 << 40), (2_654_435_761, 1 << 32), (2_654_435_761, 101), (1, 3), (-1, 3), (37, 1009)] {
            for rem in [0, 2, 7] {
                e.emit("big", &[n, mul, md, rem]);
            }
        }
    }
    for n in 0..=e.pick(400, 1000) {
        for mul in [1, -1, 7, 37] {
            for md in [3, 17, 101, 1009] {
                for rem in [0, 2, 3, 7] {
                    e.emit("big", &[n, mul, md, rem]);
                }
            }
        }
    }
}

static PROPS: &[Prop] = &[
    Prop {
        id: "R01",
        enumerate: r01_enum,
        check: r01_check,
        rule: "Histories of 18 mutating operations, run on the real table and on a list of lists, every read compared after every step; pairs of histories for equality; tables of every size up to a bound. Non-trivial: at least two keys and a value; unequal tables with the same flat values.",
        bounds_quick: "all histories up to length 5 over 18 operations and of length 6 over 12 from the empty table, up to 4 from 3 other constructors; all pairs of build histories up to length 6; sizes 0..300 and around every power of two to 5,000 x 24 entry-length patterns; accesses to seven keys that do not exist after every history up to length 3; entries whose source panics at each of its values; single entries of 0..140 values and around every power of two to 140,000 by 5 routes at 9 offsets; 0..140 and up to 140,000 empty keys; pairs of tables of 1..70 keys and up to 20,000 that differ in one place, 8 differences; the iterators of all tables of up to 6 entries of lengths 0 to 2, and of 12 lengths up to 300, consumed in every way (nth, skip, take, step_by, count, last, fold, for_each, collect, from the back, size_hint at every step), fresh and after one or two items",
        bounds_thorough: "all histories up to length 6 over 18 operations and of length 7 over 12; all pairs of build histories up to length 7; sizes 0..1500 and to 70,000 x 24 patterns; entries and empty keys to 1,100,000; differing tables of 1..300 keys and up to 200,000",
        assumptions: &["offsets fit in 32 bits (the documented representation)"],
    },
    Prop {
        id: "R02",
        enumerate: r02_enum,
        check: r02_check,
        rule: "Every sequence of keys up to a length, pushed or extended, against a stable grouping; every sequence of entry lengths with an unowned tail, against both pair iterators. Non-trivial: keys out of order, more than 20 pairs, or empty entries beside longer ones.",
        bounds_quick: "all key sequences up to length 10 over {0,1,2,3}, 8 over {0,2,5,9}, 16 over {1,3}, 5 over {7,0,64,300}; up to 4 over {0,1,255,256,257,65535,65536,131073} and keys to 2^24+1; 0..400 and up to 140,000 pairs x 35 key patterns; all entry-length sequences up to 8 entries of 0..3 values; both pair iterators of all tables of up to 6 entries of lengths 0 to 2 consumed in every way",
        bounds_thorough: "key sequences up to length 12, 10 and 20; 0..1500 and up to 300,000 pairs x 35 patterns; keys to 2^26+1; entry-length sequences up to 10 entries",
        assumptions: &[],
    },
    Prop {
        id: "V01",
        enumerate: v01_enum,
        check: v01_check,
        rule: "Histories of 32 operations from 6 starting vectors, run on the real vector and on Vec<Option<T>> for five item types; every drain of every presence pattern, fully or partly consumed; long vectors around the bitmap's block boundaries; rejected accesses. Non-trivial: the final vector mixes present and absent, or a drain is abandoned inside.",
        bounds_quick: "all histories up to length 4 from 5 starts (u64), 3 for u8, String, () and an over-aligned type; all drains of all patterns up to length 7; lengths 30..129 at block boundaries and around every power of two to 132,000 x 11 patterns, with 14 drains each; reserving 12 amounts at lengths 0..130 and up to 70,000; iter, iter_mut, into_iter and drain of every vector of up to 7 positions and of patterned ones up to 300 consumed in every way (nth, skip, take, step_by, count, last, fold, for_each, size_hint)",
        bounds_thorough: "histories up to length 5 and (from 2 starts) 6; drains up to length 9; all lengths 20..139, and to 600,000; reserving at lengths 0..300 and up to 300,000",
        assumptions: &["memory allocation succeeds"],
    },
    Prop {
        id: "V02",
        enumerate: v02_enum,
        check: v02_check,
        rule: "Histories of 40 operations (partly consumed, abandoned and leaked iterators and drains, panicking sources included) over items that record every drop and use; in the fault families every drop and every clone of the history is made to panic, one at a time. Non-trivial: at least two items, or at least two fault points.",
        bounds_quick: "all histories up to length 4 from 4 starts, 2 from three long ones (to 300 items) and 1 from 70,000 items, without faults; all histories up to length 3 from 4 starts and 1 or 2 from the long ones, with a panic at every drop and at every clone; one operation repeated 5..70 times; iterators, drains and vectors of 1..40 items and around every power of two to 20,000 given up after up to 21 counts of items, taken one by one or by nth, last and count (up to 300 items also with a panicking drop)",
        bounds_thorough: "all histories up to length 5 without faults and up to length 4 with every fault point; given-up iterators to 140,000 items",
        assumptions: &["at most one item panics per history", "a panicking drop or a deliberately leaked iterator may leak other items, but must not drop or use any twice"],
    },
    Prop {
        id: "V03",
        enumerate: v03_enum,
        check: v03_check,
        rule: "Every pair of short item sequences, each built with several pasts, compared with reference equality, order and hash; long pairs that differ at each position; pairs with incomparable items; histories on a clone and its original in turn. Non-trivial: same length but different, incomparable, or diverged clones.",
        bounds_quick: "all pairs of sequences up to length 5 over {absent, 0, 1}; 16 lengths up to 129 x 11 patterns x every position; all pairs up to length 3 with NaN; all pairs up to length 4 with six more item types (without size, one byte, strings, pairs, extreme and nested ones); prefixes of lengths around every power of two to 70,000; all histories of 2 or 3 operations alternating between a clone and its original from 6 starts",
        bounds_thorough: "all pairs up to length 6; clone histories up to length 4",
        assumptions: &[],
    },
    Prop {
        id: "V04",
        enumerate: v04_enum,
        check: v04_check,
        rule: "Every presence pattern up to a length, built in several ways, with every view compared with the model, writes through runs and positions, and then compaction, conversion or owning iteration; long patterns. Non-trivial: at least two changes between present and absent.",
        bounds_quick: "all patterns up to length 15; lengths 0..270 and around every power of two to 140,000 x 11 patterns; periodic runs and gaps around block boundaries and up to 70,000; the five iterators over runs and present items of every vector of up to 7 positions consumed in every way",
        bounds_thorough: "all patterns up to length 18; lengths 0..540 and to 600,000 x 11 patterns",
        assumptions: &[],
    },
    Prop {
        id: "Q01",
        enumerate: q01_enum,
        check: q01_check,
        rule: "Every interleaving of insertions of four ranks, removals and clears up to a length; every insertion order of distinct and of repeated ranks, then removal of all; every permutation with every placement of removals. The model is a multiset of (rank, identity). Non-trivial: more than two items queued.",
        bounds_quick: "all 6-symbol histories up to length 8; all permutations up to 9; all 3-rank sequences up to length 12; permutations up to 7 x all removal placements; sizes 0..400 x 64 patterns and around every power of two to 4,100; waves of insertions and removals, up to 12,000 items, of 7 sequences of ranks in queues of 3 capacities",
        bounds_thorough: "histories up to length 9; permutations up to 11; 3-rank sequences up to 14; permutations up to 8 x removals; sizes 0..1000 and to 17,000",
        assumptions: &["the item type's ordering is a total preorder"],
    },
];

fn main() {
    mc_main(PROPS)
}
