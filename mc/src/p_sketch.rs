//! C16..C18: count-min sketch.

use crate::engine::*;
use crate::items::*;
use crate::iters::*;
use probabilistic_collections::count_min_sketch::*;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Arc;

/// A strategy of the user: mixes everything it is given, and reads the values twice.
pub struct Mixed;

pub fn mixed(items: i64, rows: usize, cols: usize, vals: &[i64]) -> i64 {
    let mut x = splitmix(items as u64) ^ splitmix(rows as u64 + 1000) ^ splitmix(cols as u64 + 99_000);
    for v in vals {
        x = splitmix(x ^ *v as u64);
    }
    x as i64
}

impl CountStrategy for Mixed {
    fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
        let mut it = iter.clone();
        let first = it.next();
        let rest: Vec<i64> = it.clone().collect();
        let all: Vec<i64> = iter.collect();
        let again: Vec<i64> = first.into_iter().chain(it).collect();
        if all != again || all[1..] != rest[..] {
            return i64::MIN;
        }
        mixed(items, rows, cols, &all)
    }
}

fn floor_div(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}

/// Mean, rounded half away from zero.
pub fn mean(vals: &[i64]) -> i64 {
    let s: i128 = vals.iter().map(|v| i128::from(*v)).sum();
    let n = vals.len() as i128;
    let m = floor_div(2 * s.abs() + n, 2 * n);
    (if s < 0 { -m } else { m }) as i64
}

pub fn median_bias(items: i64, cols: usize, vals: &[i64]) -> i64 {
    let min = *vals.iter().min().unwrap();
    let mut v: Vec<i64> = vals
        .iter()
        .map(|x| {
            if cols == 1 {
                return *x; // no other column, no noise (the total is the value)
            }
            let d = i128::from(items) - i128::from(*x);
            let noise = -floor_div(-d, cols as i128 - 1);
            *x - noise as i64
        })
        .collect();
    v.sort_unstable();
    min.min(v[(v.len() - 1) / 2])
}

#[derive(Clone)]
struct RefG {
    rows: usize,
    cols: usize,
    items: i64,
    grid: Vec<i64>,
}

impl RefG {
    fn new(rows: usize, cols: usize) -> RefG {
        RefG { rows, cols, items: 0, grid: vec![0; rows * cols] }
    }
    fn cell(&self, h: (u64, u64), row: usize) -> usize {
        row * self.cols + (derived(h.0, h.1, row as u64) % self.cols as u64) as usize
    }
    fn add(&mut self, h: (u64, u64), v: i64) {
        for r in 0..self.rows {
            let c = self.cell(h, r);
            self.grid[c] += v;
        }
        self.items += v;
    }
    fn vals(&self, h: (u64, u64)) -> Vec<i64> {
        (0..self.rows).map(|r| self.grid[self.cell(h, r)]).collect()
    }
    fn want(&self, h: (u64, u64)) -> [i64; 4] {
        let v = self.vals(h);
        [
            *v.iter().min().unwrap(),
            mean(&v),
            median_bias(self.items, self.cols, &v),
            mixed(self.items, self.rows, self.cols, &v),
        ]
    }
}

/// One sketch per strategy.
struct Four {
    a: CountMinSketch<CountMinStrategy, It, HB>,
    b: CountMinSketch<CountMeanStrategy, It, HB>,
    c: CountMinSketch<CountMedianBiasStrategy, It, HB>,
    d: CountMinSketch<Mixed, It, HB>,
}

const NAMES: [&str; 4] = ["minimum", "mean", "median-bias", "user-defined"];

impl Four {
    /// Both keyed constructors take turns.
    fn new(rows: usize, cols: usize) -> Four {
        let (ep, de) = (1f64.exp() / (cols as f64 - 0.5), (0.5 - rows as f64).exp());
        if (rows + cols) % 2 == 1 && rows * cols < 100_000 {
            return Four {
                a: CountMinSketch::from_error_with_hashers(ep, de, hb(MIX)),
                b: CountMinSketch::from_error_with_hashers(ep, de, hb(MIX)),
                c: CountMinSketch::from_error_with_hashers(ep, de, hb(MIX)),
                d: CountMinSketch::from_error_with_hashers(ep, de, hb(MIX)),
            };
        }
        Four {
            a: CountMinSketch::with_hashers(rows, cols, hb(MIX)),
            b: CountMinSketch::with_hashers(rows, cols, hb(MIX)),
            c: CountMinSketch::with_hashers(rows, cols, hb(MIX)),
            d: CountMinSketch::with_hashers(rows, cols, hb(MIX)),
        }
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Insert(i, v) => {
                self.a.insert(i, *v);
                self.b.insert(i, *v);
                self.c.insert(i, *v);
                self.d.insert(i, *v);
            }
            Op::Remove(i, v) => {
                self.a.remove(i, *v);
                self.b.remove(i, *v);
                self.c.remove(i, *v);
                self.d.remove(i, *v);
            }
            Op::Clear => {
                self.a.clear();
                self.b.clear();
                self.c.clear();
                self.d.clear();
            }
        }
    }
    fn got(&self, i: &It) -> [i64; 4] {
        [self.a.count(i), self.b.count(i), self.c.count(i), self.d.count(i)]
    }
}

#[derive(Clone, Debug)]
enum Op {
    Insert(It, i64),
    Remove(It, i64),
    Clear,
}

struct Conf {
    rows: usize,
    cols: usize,
    items: Vec<It>,
    probes: Vec<It>,
    ins: Vec<i64>,
    rem: Vec<i64>,
    /// C16: counts stay non-negative and only the guarantees are checked.
    bounds: bool,
}

/// Copies by replaying its history, so that nothing here depends on cloning.
struct SC {
    c: Arc<Conf>,
    s: Four,
    r: RefG,
    net: BTreeMap<It, i64>,
    hist: Vec<Op>,
}

impl SC {
    fn new(c: Arc<Conf>) -> SC {
        SC { s: Four::new(c.rows, c.cols), r: RefG::new(c.rows, c.cols), net: BTreeMap::new(), hist: vec![], c }
    }
    fn apply(&mut self, op: &Op) {
        self.s.apply(op);
        match op {
            Op::Insert(i, v) => {
                self.r.add((i.0, i.1), *v);
                *self.net.entry(*i).or_insert(0) += v;
            }
            Op::Remove(i, v) => {
                self.r.add((i.0, i.1), -*v);
                *self.net.entry(*i).or_insert(0) -= v;
            }
            Op::Clear => {
                self.r = RefG::new(self.c.rows, self.c.cols);
                self.net.clear();
            }
        }
        self.hist.push(op.clone());
    }
    fn check(&self) -> Result<(), String> {
        for i in self.c.items.iter().chain(&self.c.probes) {
            if self.c.bounds {
                let truth = *self.net.get(i).unwrap_or(&0);
                let mut most = i64::MAX;
                for row in 0..self.c.rows {
                    let cell = self.r.cell((i.0, i.1), row);
                    let sum: i64 = self.net.iter().filter(|(j, _)| self.r.cell((j.0, j.1), row) == cell).map(|(_, n)| *n).sum();
                    // (the sum contains the item's own count)
                    most = most.min(sum);
                }
                if !self.net.contains_key(i) && most < 0 {
                    most = 0;
                }
                let got = self.s.a.count(i);
                if got < truth || got > most {
                    return Err(format!("minimum strategy counts {:?} as {}: true count {}, bound {}", i, got, truth, most));
                }
                if self.net.values().all(|v| *v == 0) {
                    let g = self.s.got(i);
                    if g[0] != 0 || g[1] != 0 || g[2] != 0 {
                        return Err(format!("sketch of total amount 0 for every item counts {:?} as {:?}", i, &g[..3]));
                    }
                }
            } else {
                let (got, want) = (self.s.got(i), self.r.want((i.0, i.1)));
                for k in 0..4 {
                    if got[k] != want[k] {
                        return Err(format!(
                            "{} strategy counts {:?} as {}, expected {} (row values {:?}, total {})",
                            NAMES[k], i, got[k], want[k], self.r.vals((i.0, i.1)), self.r.items
                        ));
                    }
                }
            }
        }
        Ok(())
    }
}

impl Clone for SC {
    fn clone(&self) -> SC {
        let mut n = SC::new(self.c.clone());
        for op in &self.hist {
            n.apply(op);
        }
        n
    }
}

impl Sys for SC {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for i in &self.c.items {
            for x in &self.c.ins {
                v.push(Op::Insert(*i, *x));
            }
            for x in &self.c.rem {
                if !self.c.bounds || *self.net.get(i).unwrap_or(&0) >= *x {
                    v.push(Op::Remove(*i, *x));
                }
            }
        }
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        if let (true, Op::Remove(i, x)) = (self.c.bounds, op) {
            if *self.net.get(i).unwrap_or(&0) < *x {
                return Ok(()); // only in shortened histories
            }
        }
        self.apply(op);
        self.check()
    }
    fn key(&self, o: &mut Vec<u8>) {
        bytes_of(&self.s.a, o);
        for (i, n) in &self.net {
            if *n != 0 {
                o.extend_from_slice(&i.0.to_le_bytes());
                o.extend_from_slice(&i.1.to_le_bytes());
                o.extend_from_slice(&n.to_le_bytes());
            }
        }
    }
}

/// Items that collide in all rows, in some rows, in none.
fn alphabet(cols: usize, n: usize) -> Vec<It> {
    let c = cols as u64;
    let top = u64::MAX - u64::MAX % c;
    let mut v: Vec<It> = vec![];
    for i in [
        It(0, 0), It(c, c), It(0, 1), It(1, 0), It(1, c.wrapping_sub(1)), It(top, 1), It(u64::MAX, u64::MAX), It(1 << 32, (1 << 32) + 1),
        It(c - 1, 2), It(2, c / 2), It(splitmix(1), splitmix(2)), It(splitmix(3), splitmix(4)),
    ] {
        if !v.contains(&i) && v.len() < n {
            v.push(i);
        }
    }
    v
}

fn shapes() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for rows in 1..=6 {
        for cols in [1usize, 2, 3, 4, 5, 7, 64] {
            v.push((rows, cols));
        }
    }
    v.extend([(8, 10), (12, 2), (20, 3), (1, 1000), (3, 255), (3, 256), (3, 257), (7, 65_537), (40, 2)]);
    v
}

/// Many columns or rows; `bounds`: the minimum strategy only, against the true counts.
fn large(cc: &mut CC, rows: usize, cols: usize, bounds: bool) -> Result<(), String> {
    let c = cols as u64;
    let mut items = alphabet(cols, 12);
    let mut k = 1;
    while k < c {
        items.extend([It(k, 0), It(k - 1, k + 1), It(c - k, 1), It(k + 1, k)]);
        k *= 2;
    }
    items.extend((0..20u64).map(|i| It(splitmix(i), splitmix(i + 100))));
    items.sort_unstable();
    items.dedup();
    let n = items.len();
    let mut cells: std::collections::HashMap<(usize, u64), i64> = Default::default();
    let at = |i: &It, r: usize| (r, derived(i.0, i.1, r as u64) % c);
    let mut total = 0;
    let mut truth: BTreeMap<It, i64> = BTreeMap::new();
    let mut a = CountMinSketch::<CountMinStrategy, It, HB>::with_hashers(rows, cols, hb(MIX));
    let mut b = CountMinSketch::<CountMeanStrategy, It, HB>::with_hashers(rows, cols, hb(MIX));
    let mut d = CountMinSketch::<CountMedianBiasStrategy, It, HB>::with_hashers(rows, cols, hb(MIX));
    let step = if rows > 1000 { 9 } else { 1 };
    for (j, i) in items.iter().enumerate().chain(items.iter().enumerate().rev()).step_by(step) {
        let v = 1 + (j as i64 * 7) % 23;
        for r in 0..rows {
            *cells.entry(at(i, r)).or_insert(0) += v;
        }
        total += v;
        *truth.entry(*i).or_insert(0) += v;
        a.insert(i, v);
        if !bounds {
            b.insert(i, v);
            d.insert(i, v);
        }
        cc.transitions += 1;
        cc.beat();
        cc.state(&(total as u64).to_le_bytes());
        for q in [i, &items[(j * 5 + 1) % n], &items[n - 1 - j], &items[n / 2]] {
            let vals: Vec<i64> = (0..rows).map(|r| cells.get(&at(q, r)).cloned().unwrap_or(0)).collect();
            let least = *vals.iter().min().unwrap();
            if bounds {
                let (got, t) = (a.count(q), truth.get(q).cloned().unwrap_or(0));
                if got < t || got > least {
                    return Err(format!("{} rows, {} columns: minimum strategy counts {:?} as {}: true count {}, bound {}", rows, cols, q, got, t, least));
                }
            } else {
                let got = [a.count(q), b.count(q), d.count(q)];
                let want = [least, mean(&vals), median_bias(total, cols, &vals)];
                if got != want {
                    return Err(format!("{} rows, {} columns: {:?} counted as {:?} by minimum, mean and median-bias, expected {:?}", rows, cols, q, got, want));
                }
            }
        }
    }
    if cols < 1 << 21 {
        a.clear();
        for i in &items {
            if a.count(i) != 0 {
                return Err(format!("{} rows, {} columns: {:?} counted as {} after clear", rows, cols, i, a.count(i)));
            }
        }
    }
    cc.traces += 1;
    Ok(())
}

fn run(cs: &mut Cases, bounds: bool) {
    let tier = cs.tier;
    for (rows, cols) in [(3usize, (1usize << 20) + 3), (2, (1 << 24) + 1), (1, 1 << 27), (300, 5), (70_000, 2), (257, 300)] {
        cs.add(format!("{} x {} large", rows, cols), move |cc| large(cc, rows, cols, bounds));
    }
    for (rows, cols) in shapes() {
        cs.add(format!("{} x {}", rows, cols), move |cc| {
            let (ins, rem) = if bounds { (vec![1, 2, (1 << 58) | 1], vec![1, 2]) } else { (vec![1, -2, 5, (1 << 58) | 1], vec![3, -(1 << 33)]) };
            let small = rows * cols <= 450;
            for n in if bounds { [3usize, 5] } else { [2usize, 4] } {
                let depth = match (small, n) {
                    (true, 2 | 3) => t3(tier, 5, 7, 8),
                    (true, _) => t3(tier, 3, 5, 6),
                    _ => t(tier, 2, 3),
                };
                let items = alphabet(cols, n);
                let probes: Vec<It> = alphabet(cols, 12)[items.len()..].to_vec();
                let c = Arc::new(Conf { rows, cols, items, probes, ins: ins.clone(), rem: rem.clone(), bounds });
                explore(cc, &move || SC::new(c.clone()), &Opts::new(depth, t(tier, if small { 900 } else { 60 }, if small { if tier == Tier::Deep { 60_000 } else { 20_000 } } else { 500 })))
                    .map_err(|e| format!("{} rows, {} columns: {}", rows, cols, e))?;
            }
            Ok(())
        });
        // every pair of hash residues against every other
        if cols <= 7 && rows <= 6 {
            cs.add(format!("{} x {} residues", rows, cols), move |cc| {
                let c = cols as u64;
                let all: Vec<It> = (0..c * c).map(|x| It(x / c + c * (splitmix(x) >> 4), x % c)).collect();
                let conf = Arc::new(Conf { rows, cols, items: all.clone(), probes: vec![], ins: vec![], rem: vec![], bounds });
                for (n, x) in all.iter().enumerate() {
                    let mut base = SC::new(conf.clone());
                    base.step(&Op::Insert(*x, 3)).map_err(|e| format!("{} rows, {} columns: {} | after one insertion", rows, cols, e))?;
                    cc.transitions += 1;
                    for (m, y) in all.iter().enumerate() {
                        if tier == Tier::Quick && cols > 5 && (m + n) % 3 != 0 {
                            continue;
                        }
                        let mut s = base.clone();
                        let ops = [Op::Insert(*y, 2), Op::Remove(*x, 3), Op::Remove(*y, 1), Op::Insert(*x, 1)];
                        for (k, op) in ops.iter().enumerate() {
                            cc.transitions += 1;
                            if bounds || k % 2 == 0 {
                                s.step(op).map_err(|e| format!("{} rows, {} columns: {} | history: Insert({:?}, 3); {:?}", rows, cols, e, x, &ops[..=k]))?;
                            } else {
                                s.apply(op);
                            }
                        }
                        s.check().map_err(|e| format!("{} rows, {} columns: {} | {:?} and {:?}", rows, cols, e, x, y))?;
                        cc.traces += 1;
                        cc.beat();
                        cc.state(&[rows as u8, n as u8, m as u8]);
                    }
                }
                Ok(())
            });
        }
    }
    // default hashers, borrowed keys
    for (rows, cols) in [(1usize, 3usize), (4, 5), (5, 16), (7, 40)] {
        cs.add(format!("{} x {} default hashers", rows, cols), move |cc| {
            let keys: Vec<String> = (0..t(tier, 12, 60)).map(|i| format!("key {}", splitmix(i) % 100_000)).collect();
            for round in 0..t(tier, 6u64, 40) {
                // one of the three has been given fresh keys by one of the two constructors
                let (ep, de) = (1f64.exp() / (cols as f64 - 0.5), (0.5 - rows as f64).exp());
                let unkeyed = round % 6;
                let mut a = match unkeyed {
                    1 => CountMinSketch::<CountMinStrategy, String>::from_error(ep, de),
                    _ => CountMinSketch::<CountMinStrategy, String>::new(rows, cols),
                };
                let mut b = match unkeyed {
                    2 => CountMinSketch::<CountMeanStrategy, String>::new(rows, cols),
                    3 => CountMinSketch::<CountMeanStrategy, String>::from_error(ep, de),
                    _ => CountMinSketch::<CountMeanStrategy, String>::with_hashers(rows, cols, *a.hashers()),
                };
                let mut c = match unkeyed {
                    4 => CountMinSketch::<CountMedianBiasStrategy, String>::new(rows, cols),
                    5 => CountMinSketch::<CountMedianBiasStrategy, String>::from_error(ep, de),
                    _ => CountMinSketch::<CountMedianBiasStrategy, String>::with_hashers(rows, cols, *b.hashers()),
                };
                let hs = *match unkeyed {
                    0 | 1 => a.hashers(),
                    2 | 3 => b.hashers(),
                    _ => c.hashers(),
                };
                if unkeyed >= 2 {
                    a = CountMinSketch::<CountMinStrategy, String>::with_hashers(rows, cols, hs);
                }
                if unkeyed >= 4 {
                    b = CountMinSketch::<CountMeanStrategy, String>::with_hashers(rows, cols, hs);
                } else if unkeyed >= 2 {
                    c = CountMinSketch::<CountMedianBiasStrategy, String>::with_hashers(rows, cols, hs);
                }
                let h = |k: &String| -> (u64, u64) {
                    let f = |b: &probabilistic_collections::SipHasherBuilder| {
                        let mut x = b.build_hasher();
                        k.hash(&mut x);
                        x.finish()
                    };
                    (f(&hs[0]), f(&hs[1]))
                };
                let mut r = RefG::new(rows, cols);
                let mut net: BTreeMap<&String, i64> = BTreeMap::new();
                for step in 0..2 * keys.len() as u64 {
                    let k = &keys[(splitmix(step + 1000 * round) % keys.len() as u64) as usize];
                    let v = (splitmix(step) % 4) as i64 + 1;
                    let have = *net.get(k).unwrap_or(&0);
                    cc.transitions += 1;
                    if step % 3 == 2 && have >= v {
                        a.remove(k.as_str(), v);
                        b.remove(k, v);
                        c.remove(k.as_str(), v);
                        r.add(h(k), -v);
                        *net.entry(k).or_insert(0) -= v;
                    } else {
                        a.insert(k, v);
                        b.insert(k.as_str(), v);
                        c.insert(k, v);
                        r.add(h(k), v);
                        *net.entry(k).or_insert(0) += v;
                    }
                    for q in &keys {
                        let truth = *net.get(q).unwrap_or(&0);
                        let (x, y, z) = (a.count(q.as_str()), b.count(q), c.count(q.as_str()));
                        let w = r.want(h(q));
                        if bounds {
                            let most = (0..rows)
                                .map(|row| net.iter().filter(|(j, _)| r.cell(h(j), row) == r.cell(h(q), row)).map(|(_, n)| *n).sum::<i64>())
                                .min()
                                .unwrap();
                            if x < truth || x > most.max(0) {
                                return Err(format!("{} rows, {} columns, default hashers: {:?} counted as {}, true count {}, bound {}", rows, cols, q, x, truth, most));
                            }
                        } else if (x, y, z) != (w[0], w[1], w[2]) {
                            return Err(format!("{} rows, {} columns, default hashers: {:?} counted as {:?}, expected {:?}", rows, cols, q, (x, y, z), &w[..3]));
                        }
                    }
                    cc.state(&[rows as u8, cols as u8, round as u8, step as u8]);
                    cc.beat();
                }
                cc.traces += 1;
            }
            Ok(())
        });
    }
}

pub fn c16(cs: &mut Cases) {
    run(cs, true)
}

pub fn c17(cs: &mut Cases) {
    run(cs, false);
    // strategies on every small tuple of row values: one item per row value is steered there by
    // a second item that shares exactly that cell
    for rows in 1..=t(cs.tier, 4usize, 5) {
        for cols in [2usize, 3, 5, 9] {
            cs.add(format!("strategies on {} row values, {} columns", rows, cols), move |cc| {
                // a target item and helpers, found by search, that hit the target in one row only
                let target = It(0, 0);
                let r0 = RefG::new(rows, cols);
                let mut helpers: Vec<It> = vec![];
                for row in 0..rows {
                    let mut found = None;
                    'search: for a in 0..cols as u64 {
                        for b in 0..cols as u64 {
                            let x = It(a, b);
                            if (0..rows).all(|q| (r0.cell((a, b), q) == r0.cell((0, 0), q)) == (q == row)) {
                                found = Some(x);
                                break 'search;
                            }
                        }
                    }
                    // not every single row can be hit alone with few columns
                    helpers.push(match found {
                        Some(x) => x,
                        None => It(splitmix(row as u64), splitmix(row as u64 + 50)),
                    });
                }
                // small values; values that single and double precision cannot hold
                for (vals, base) in [[-3i64, 0, 1, 2, 7], [-(1 << 53) - 1, 1, (1 << 53) + 1, (1 << 60) + 7, 3 << 24 | 1]].into_iter().flat_map(|v| [0i64, 1, -4].map(|b| (v, b))) {
                    let n = vals.len().pow(rows as u32);
                    for x in 0..n {
                        let mut s = Four::new(rows, cols);
                        let mut r = RefG::new(rows, cols);
                        let mut go = |i: It, v: i64| {
                            s.apply(&Op::Insert(i, v));
                            r.add((i.0, i.1), v);
                        };
                        go(target, base);
                        let mut y = x;
                        for h in &helpers {
                            go(*h, vals[y % vals.len()]);
                            y /= vals.len();
                        }
                        cc.transitions += 1 + rows as u64;
                        cc.traces += 1;
                        for i in std::iter::once(&target).chain(&helpers) {
                            let (got, want) = (s.got(i), r.want((i.0, i.1)));
                            if let Some(k) = (0..4).find(|k| got[*k] != want[*k]) {
                                return Err(format!(
                                    "{} columns, row values {:?}, total {}: {} strategy says {}, expected {}",
                                    cols, r.vals((i.0, i.1)), r.items, NAMES[k], got[k], want[k]
                                ));
                            }
                        }
                        let mut kb = vec![base as u8];
                        kb.extend(r.vals((0, 0)).iter().map(|v| *v as u8));
                        cc.state(&kb);
                    }
                    cc.beat();
                }
                Ok(())
            });
        }
    }
}

pub fn c18(cs: &mut Cases) {
    let tier = cs.tier;
    let e = 1f64.exp();
    let mut eps: Vec<f64> = vec![5.0, 3.0, e, e / 2.0, e / 3.0, e / 7.0, e / 64.0, 1.0, 0.9, 0.5, 0.3, 0.1, 0.05, 0.02, 0.01, 0.005, 0.001, 1e-4];
    let mut del: Vec<f64> = vec![0.99, 0.9, 0.75, 0.5, 0.4, 1.0 / e, 0.36, 0.3, 0.2, 0.14, 0.1353, 0.135, 0.1, 0.05, 0.02, 0.01, 0.005, 0.001, 1e-4, 1e-6, 1e-9, 1e-15, 1e-100, 1e-300];
    for i in 1..t3(tier, 80, 800, 3000) {
        eps.push(e * 0.93f64.powi(i) / t(tier, 1.0, 3.0) * 1.5f64.min(1.0 + i as f64 / 100.0));
        del.push(0.9f64.powi(i) * 0.999);
    }
    // just above and just below whole numbers of columns, up to large ones
    for c in [2.0, 3.0, 10.0, 100.0, 1000.0, 4096.0, 65_536.0, 300_000.0, 1e6, 1e7] {
        for d in [1e-3, 0.01, 0.1, 0.5, 0.9, 0.99, 0.999] {
            eps.push(e / (c + d));
        }
    }
    for r in [1.0, 2.0, 3.0, 10.0, 37.0, 100.0, 300.0, 690.0] {
        for d in [1e-6f64, 1e-3, 0.01, 0.1, 0.5, 0.9, 0.99, 0.999, 1.0 - 1e-6] {
            del.push((-(r + d)).exp());
        }
    }
    eps.retain(|x| *x >= t(tier, 1e-7, 1e-7));
    del.retain(|x| *x > 1e-305 && *x < 1.0);
    for chunk in eps.chunks(8) {
        let (chunk, del) = (chunk.to_vec(), del.clone());
        cs.add(format!("epsilon {}..", chunk[0]), move |cc| {
            for &ep in &chunk {
                for &de in &del {
                    let (wr, wc) = ((1.0 / de).ln(), e / ep);
                    let ok = |got: usize, want: f64| {
                        let g = got as f64;
                        g >= want * (1.0 - 1e-9) && g - 1.0 < want * (1.0 + 1e-9)
                    };
                    if wr * wc > 6e7 || (wc > 1e5 && wr.fract() > 0.3) {
                        continue;
                    }
                    let (wrc, wcc) = (wr.ceil() as usize, wc.ceil() as usize);
                    let s = catch(|| CountMinSketch::<CountMinStrategy, It, HB>::from_error_with_hashers(ep, de, hb(MIX)))
                        .map_err(|p| format!("from_error_with_hashers({}, {}) panicked: {}", ep, de, p))?;
                    cc.transitions += 1;
                    cc.traces += 1;
                    cc.beat();
                    if !ok(s.rows(), wr) || !ok(s.cols(), wc) {
                        return Err(format!("from_error_with_hashers({}, {}): {} rows, {} columns; expected {}, {}", ep, de, s.rows(), s.cols(), wrc, wcc));
                    }
                    figures(&s, ep, de)?;
                    cc.state(&[s.rows() as u8, s.cols() as u8, (s.cols() >> 8) as u8, (s.cols() >> 16) as u8]);
                    if wr * wc < 3e4 {
                        let d = catch(|| CountMinSketch::<CountMeanStrategy, String>::from_error(ep, de))
                            .map_err(|p| format!("from_error({}, {}) panicked: {}", ep, de, p))?;
                        if (d.rows(), d.cols()) != (s.rows(), s.cols()) {
                            return Err(format!("from_error({}, {}): {} rows, {} columns; expected {}, {}", ep, de, d.rows(), d.cols(), wrc, wcc));
                        }
                        usable(s, &format!("from_error_with_hashers({}, {})", ep, de))?;
                    }
                }
            }
            Ok(())
        });
    }
    for rows in 1..=t3(tier, 12usize, 40, 80) {
        cs.add(format!("{} rows", rows), move |cc| {
            for cols in (1..=t3(tier, 70usize, 300, 700)).chain([255, 256, 257, 1000, 1024, 4096]) {
                cc.transitions += 2;
                cc.traces += 2;
                cc.beat();
                cc.state(&[rows as u8, cols as u8, (cols >> 8) as u8]);
                let a = CountMinSketch::<CountMinStrategy, It, HB>::with_hashers(rows, cols, hb(MIX));
                let b = CountMinSketch::<CountMedianBiasStrategy, String>::new(rows, cols);
                if (a.rows(), a.cols(), b.rows(), b.cols()) != (rows, cols, rows, cols) {
                    return Err(format!("dimensions ({}, {}) become ({}, {}) or ({}, {})", rows, cols, a.rows(), a.cols(), b.rows(), b.cols()));
                }
                let (c, d) = (1f64.exp() / cols as f64, (-(rows as f64)).exp());
                if !close(a.confidence(), c) || !close(b.confidence(), c) || !rel(a.error(), d) || !rel(b.error(), d) {
                    return Err(format!("dimensions ({}, {}): confidence {}, error {}; expected {}, {}", rows, cols, a.confidence(), a.error(), c, d));
                }
                usable(a, &format!("with_hashers({}, {})", rows, cols))?;
            }
            Ok(())
        });
    }
}

fn rel(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs()
}

fn figures(s: &CountMinSketch<CountMinStrategy, It, HB>, ep: f64, de: f64) -> Result<(), String> {
    let (c, d) = (1f64.exp() / s.cols() as f64, (-(s.rows() as f64)).exp());
    if !rel(s.confidence(), c) || !rel(s.error(), d) {
        return Err(format!("{} rows, {} columns: confidence {}, error {}; expected {}, {}", s.rows(), s.cols(), s.confidence(), s.error(), c, d));
    }
    if s.confidence() > ep * (1.0 + 1e-9) || s.error() > de * (1.0 + 1e-9) {
        return Err(format!("asked for {}, {}: confidence {}, error {}", ep, de, s.confidence(), s.error()));
    }
    Ok(())
}

/// The storage fits the dimensions.
fn usable(mut s: CountMinSketch<CountMinStrategy, It, HB>, what: &str) -> Result<(), String> {
    for i in [It(0, 0), It(u64::MAX, u64::MAX), It(s.cols() as u64 - 1, 0), It(3, s.cols() as u64 - 1)] {
        s.clear();
        s.insert(&i, 1);
        if s.count(&i) != 1 {
            return Err(format!("{}: {:?} counted as {}", what, i, s.count(&i)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C34: strategies defined by the user

thread_local! {
    /// (what to do with the iterator, what to answer)
    static PLAN: std::cell::Cell<(usize, i64)> = const { std::cell::Cell::new((0, 0)) };
    /// total, rows, columns, values as seen by the strategy; a complaint
    #[allow(clippy::type_complexity)]
    static SEEN: std::cell::RefCell<Vec<(i64, usize, usize, Vec<i64>, Option<String>)>> = const { std::cell::RefCell::new(vec![]) };
}

/// Takes the values in the way PLAN says and answers what PLAN says.
struct Spy;

const WAYS: usize = 11;

impl CountStrategy for Spy {
    fn get_estimate(items: i64, rows: usize, cols: usize, mut iter: ItemValueIter<'_>) -> i64 {
        let (way, answer) = PLAN.with(|p| p.get());
        let mut bad = None;
        let (lo, hi) = iter.size_hint();
        let vals: Vec<i64> = match way {
            // next() until it ends, and beyond
            0 => {
                let mut v = vec![];
                while let Some(x) = iter.next() {
                    v.push(x);
                }
                for _ in 0..3 {
                    if iter.next().is_some() {
                        bad = Some("a value after the end".into());
                    }
                }
                v
            }
            1 => iter.collect(),
            // a copy taken after every value
            2 => {
                let all: Vec<i64> = iter.clone().collect();
                for k in 0..all.len() {
                    let copy: Vec<i64> = iter.clone().collect();
                    if copy != all[k..] {
                        bad = Some(format!("a copy of the iterator after {} values yields {:?} of {:?}", k, copy, all));
                    }
                    if iter.next() != Some(all[k]) {
                        bad = Some(format!("value {} changes after a copy was read", k));
                    }
                }
                all
            }
            // every value through nth on a copy
            3 => {
                let mut v = vec![];
                while let Some(x) = iter.clone().nth(v.len()) {
                    v.push(x);
                }
                v
            }
            4 => iter.fold(vec![], |mut v, x| {
                v.push(x);
                v
            }),
            5 => {
                let mut v = vec![];
                iter.for_each(|x| v.push(x));
                v
            }
            // the first, then the rest by another adaptor
            6 => {
                let first = iter.by_ref().take(1).collect::<Vec<_>>();
                first.into_iter().chain(iter).collect()
            }
            7 => {
                let (n, last, sum) = (iter.clone().count(), iter.clone().last(), iter.clone().map(i128::from).sum::<i128>());
                let v: Vec<i64> = iter.collect();
                if (n, last, sum) != (v.len(), v.last().cloned(), v.iter().map(|x| i128::from(*x)).sum()) {
                    bad = Some(format!("count {}, last {:?}, sum {} of {:?}", n, last, sum, v));
                }
                v
            }
            8 => {
                let (least, most) = (iter.clone().min(), iter.clone().max());
                let v: Vec<i64> = iter.collect();
                if (least, most) != (v.iter().min().cloned(), v.iter().max().cloned()) {
                    bad = Some(format!("min {:?}, max {:?} of {:?}", least, most, v));
                }
                v
            }
            // every use of the iterator
            9 => {
                let v: Vec<i64> = iter.clone().collect();
                bad = check_iter(if rows <= 20 { 2 } else { 1 }, || iter.clone(), &v).err();
                v
            }
            // two interleaved copies
            _ => {
                let (mut a, mut b, mut v) = (iter.clone(), iter, vec![]);
                loop {
                    match (a.next(), b.next()) {
                        (Some(x), Some(y)) if x == y => v.push(x),
                        (None, None) => break,
                        xy => {
                            bad = Some(format!("two copies of the iterator yield {:?}", xy));
                            break;
                        }
                    }
                }
                v
            }
        };
        if lo > vals.len() || hi.map_or(false, |h| h < vals.len()) {
            bad = Some(format!("size hint {:?} for {} values", (lo, hi), vals.len()));
        }
        SEEN.with(|s| s.borrow_mut().push((items, rows, cols, vals, bad)));
        answer
    }
}

/// Reads nothing.
struct Deaf;
impl CountStrategy for Deaf {
    fn get_estimate(_: i64, _: usize, _: usize, _: ItemValueIter<'_>) -> i64 {
        -4711
    }
}

fn spy(s: &CountMinSketch<Spy, It, HB>, r: &RefG, x: &It, ways: &[usize], answers: &[i64]) -> Result<(), String> {
    let want = (r.items, r.rows, r.cols, r.vals((x.0, x.1)));
    for way in ways {
        for answer in &answers[..if *way == 9 { 1 } else { answers.len() }] {
            PLAN.with(|p| p.set((*way, *answer)));
            SEEN.with(|s| s.borrow_mut().clear());
            let got = s.count(x);
            let seen = SEEN.with(|s| s.borrow().clone());
            if got != *answer {
                return Err(format!("the strategy answers {}, the sketch {}", answer, got));
            }
            if seen.is_empty() {
                return Err("the strategy is not asked".into());
            }
            for (items, rows, cols, vals, bad) in seen {
                if let Some(b) = bad {
                    return Err(format!("values of {:?} (way {}): {}", x, way, b));
                }
                if (items, rows, cols, &vals) != (want.0, want.1, want.2, &want.3) {
                    return Err(format!(
                        "the strategy is given total {}, {} rows, {} columns, values {:?} for {:?}, expected {:?} (way {})",
                        items, rows, cols, vals, x, want, way
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn c34(cs: &mut Cases) {
    let tier = cs.tier;
    let mut shapes: Vec<(usize, usize)> = vec![];
    for r in 1..=7 {
        for c in [1, 2, 3, 4, 5, 7, 8, 64, 100] {
            shapes.push((r, c));
        }
    }
    shapes.extend([(16, 2), (17, 31), (64, 3), (65, 1), (255, 2), (256, 2), (257, 3), (300, 7), (1000, 1), (2, 65_537), (3, 1 << 20), (1, (1 << 22) + 1), (70_000, 3)]);
    let edge: Vec<i64> = vec![0, 1, -1, 2, 4711, i64::MAX, i64::MIN, 1 << 32, -(1 << 53) - 1];
    for (rows, cols) in shapes {
        let edge = edge.clone();
        cs.add(format!("{} rows, {} columns", rows, cols), move |cc| {
            let big = rows * cols > 2_000;
            let m = cols as u64;
            let items: Vec<It> = [It(0, 0), It(1, 0), It(m - 1, 1), It(u64::MAX, u64::MAX), It(m / 2, m - 1), It(1 << 63, (1 << 32) + 5)].into_iter().take(if big { 4 } else { t(cc.tier, 5, 6) }).collect();
            let mut probes = items.clone();
            probes.extend([It(m, 3), It(splitmix(1), splitmix(2))]);
            let amounts: &[i64] = if big { &[1, -3] } else { &[1, 2, -3, 1 << 40] };
            let mut ops: Vec<Op> = vec![];
            for x in &items {
                for a in amounts {
                    ops.push(Op::Insert(*x, *a));
                }
                ops.push(Op::Remove(*x, 1));
            }
            ops.push(Op::Clear);
            // every history to a depth, as an explicit stack (sketches are rebuilt, not copied)
            let depth = if big || rows > 20 { 1 } else { t(cc.tier, 2, 3) };
            let n = ops.len();
            let all_ways: Vec<usize> = (0..WAYS).filter(|w| rows <= 300 || (*w != 2 && *w != 3 && *w != 9)).collect();
            for d in 0..=depth as u32 {
                for code in 0..n.pow(d) {
                    let mut s = if (rows + cols + code) % 2 == 1 && !big {
                        CountMinSketch::<Spy, It, HB>::from_error_with_hashers(1f64.exp() / (cols as f64 - 0.5), (0.5 - rows as f64).exp().max(f64::MIN_POSITIVE), hb(MIX))
                    } else {
                        CountMinSketch::<Spy, It, HB>::with_hashers(rows, cols, hb(MIX))
                    };
                    if s.rows() != rows || s.cols() != cols {
                        s = CountMinSketch::<Spy, It, HB>::with_hashers(rows, cols, hb(MIX));
                    }
                    let mut r = RefG::new(rows, cols);
                    let mut c = code;
                    let mut path = vec![];
                    for _ in 0..d {
                        let op = &ops[c % n];
                        c /= n;
                        path.push(op);
                        match op {
                            Op::Insert(i, v) => {
                                s.insert(i, *v);
                                r.add((i.0, i.1), *v);
                            }
                            Op::Remove(i, v) => {
                                s.remove(i, *v);
                                r.add((i.0, i.1), -*v);
                            }
                            Op::Clear => {
                                s.clear();
                                r = RefG::new(rows, cols);
                            }
                        }
                    }
                    cc.transitions += u64::from(d);
                    cc.traces += 1;
                    cc.beat();
                    cc.state(format!("{} {} {:?}", rows, cols, path).as_bytes());
                    // all ways and answers on short histories, in turns on longer ones
                    for (i, x) in probes.iter().enumerate() {
                        let (ways, answers): (&[usize], &[i64]) = if d < 2 {
                            (&all_ways, &edge)
                        } else {
                            (&all_ways[(code + i) % all_ways.len()..][..1], &edge[(code + i) % edge.len()..][..1])
                        };
                        let answers = if rows * ways.len() > 2_000 { &answers[..2] } else { answers };
                        spy(&s, &r, x, ways, answers).map_err(|e| format!("{} | after {:?}", e, path))?;
                        cc.count("queries", (ways.len() * answers.len()) as u64);
                    }
                }
            }
            let mut s = CountMinSketch::<Deaf, It, HB>::with_hashers(rows, cols, hb(MIX));
            for x in &probes {
                s.insert(x, 1);
                if s.count(x) != -4711 {
                    return Err(format!("a strategy that reads no values: {}", s.count(x)));
                }
            }
            Ok(())
        });
    }
}
