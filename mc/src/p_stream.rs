//! C06, C07: biased-sampling stream filters.

use crate::engine::*;
use crate::items::*;
use probabilistic_collections::bloom::*;
use rand_xorshift as rx;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    BS,
    BSSD,
    RLBS,
}

pub const KINDS: [Kind; 3] = [Kind::BS, Kind::BSSD, Kind::RLBS];

#[derive(Clone)]
pub enum DF {
    BS(BSBloomFilter<It, HB>),
    SD(BSSDBloomFilter<It, HB>),
    RL(RLBSBloomFilter<It, HB>),
}

macro_rules! each {
    ($s:expr, $f:ident => $e:expr) => {
        match $s {
            DF::BS($f) => $e,
            DF::SD($f) => $e,
            DF::RL($f) => $e,
        }
    };
}

impl DF {
    pub fn new(kind: Kind, n: usize, p: f64) -> DF {
        match kind {
            Kind::BS => DF::BS(BSBloomFilter::with_hashers(n, p, hb(MIX))),
            Kind::BSSD => DF::SD(BSSDBloomFilter::with_hashers(n, p, hb(MIX))),
            Kind::RLBS => DF::RL(RLBSBloomFilter::with_hashers(n, p, hb(MIX))),
        }
    }
    pub fn insert(&mut self, x: &It) {
        each!(self, f => f.insert(x))
    }
    pub fn contains(&self, x: &It) -> bool {
        each!(self, f => f.contains(x))
    }
    pub fn clear(&mut self) {
        each!(self, f => f.clear())
    }
    pub fn len(&self) -> usize {
        each!(self, f => f.len())
    }
    pub fn ones(&self) -> usize {
        each!(self, f => f.count_ones())
    }
    pub fn zeros(&self) -> usize {
        each!(self, f => f.count_zeros())
    }
    pub fn is_empty(&self) -> bool {
        each!(self, f => f.is_empty())
    }
    pub fn k(&self) -> usize {
        each!(self, f => f.hasher_count())
    }
    pub fn n(&self) -> usize {
        each!(self, f => f.bit_count())
    }
    pub fn key(&self, o: &mut Vec<u8>) {
        each!(self, f => bytes_of(f, o))
    }
}

fn probes(x: &It, n: usize, k: usize) -> Vec<usize> {
    (0..k).map(|i| i * n + (derived(x.0, x.1, i as u64) % n as u64) as usize).collect()
}

/// Raw 64-bit draws that make a draw below `l` (and a uniform fraction in steps of 1/l) take every
/// value exactly once.
pub fn menu64(l: u64) -> Vec<u64> {
    (0..l)
        .map(|c| if c == 0 { 0 } else { ((u128::from(c) << 64).div_ceil(u128::from(l))) as u64 + 4096 })
        .collect()
}
pub fn menu32(l: u64) -> Vec<u32> {
    (0..l)
        .map(|c| if c == 0 { 0 } else { ((c << 32).div_ceil(l)) as u32 + 512 })
        .collect()
}

#[derive(Clone, Debug)]
enum Op {
    Insert(It),
    Clear,
}

#[derive(Clone)]
struct S6 {
    f: DF,
    items: Arc<Vec<It>>,
    ever: Vec<bool>,
    universe: Arc<Vec<It>>,
    obs: Vec<bool>,
}

impl S6 {
    fn new(kind: Kind, n: usize, p: f64, items: Arc<Vec<It>>, universe: Arc<Vec<It>>) -> S6 {
        let f = DF::new(kind, n, p);
        let ever = vec![false; f.n() * f.k()];
        let mut s = S6 { f, items, ever, universe, obs: vec![] };
        s.obs = s.observe();
        s
    }
    fn observe(&self) -> Vec<bool> {
        self.universe.iter().map(|x| self.f.contains(x)).collect()
    }
}

impl Sys for S6 {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = self.items.iter().map(|i| Op::Insert(*i)).collect();
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        let (n, k) = (self.f.n(), self.f.k());
        match op {
            Op::Insert(x) => {
                let had = self.f.contains(x);
                let (o0, z0) = (self.f.ones(), self.f.zeros());
                self.f.insert(x);
                for p in probes(x, n, k) {
                    self.ever[p] = true;
                }
                if !self.f.contains(x) {
                    return Err(format!("{:?} is not contained right after its insertion", x));
                }
                let obs = self.observe();
                if had && (obs != self.obs || (o0, z0) != (self.f.ones(), self.f.zeros())) {
                    return Err(format!("inserting {:?}, which was contained, changed the filter ({} -> {} ones)", x, o0, self.f.ones()));
                }
                self.obs = obs;
            }
            Op::Clear => {
                self.f.clear();
                self.ever.iter_mut().for_each(|b| *b = false);
                self.obs = self.observe();
                if self.f.ones() != 0 {
                    return Err(format!("{} ones after clear", self.f.ones()));
                }
            }
        }
        if self.f.is_empty() {
            return Err("is_empty although it has bits".into());
        }
        if self.f.len() != n * k || self.f.ones() + self.f.zeros() != self.f.len() {
            return Err(format!("{} ones + {} zeros, length {}", self.f.ones(), self.f.zeros(), self.f.len()));
        }
        let max = self.ever.iter().filter(|b| **b).count();
        if self.f.ones() > max {
            return Err(format!("{} ones, but only {} positions were ever set", self.f.ones(), max));
        }
        for (x, c) in self.universe.iter().zip(&self.obs) {
            if *c && !probes(x, n, k).iter().all(|p| self.ever[*p]) {
                return Err(format!("{:?} is contained, but one of its probe positions was never set", x));
            }
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        self.f.key(o);
        o.extend(self.ever.iter().map(|b| *b as u8));
        o.extend(self.obs.iter().map(|b| *b as u8));
        o.extend_from_slice(&self.f.ones().to_le_bytes());
    }
}

/// Target probabilities with 2, 3, 4, 5, 7, 12 partitions.
pub fn ps() -> Vec<f64> {
    vec![0.9, 0.3, 0.15, 0.05, 0.01, 5e-5]
}

pub fn c06(cs: &mut Cases) {
    let tier = cs.tier;
    cs.add("lengths that are powers of two", |cc| {
        for kind in KINDS {
            for m in (0..=26).map(|k| 1usize << k).chain([1 << 32, 3 << 16]) {
                for p in [0.9, 0.3] {
                    let mut f = DF::new(kind, m, p);
                    let x = It(m as u64 - 1, 1);
                    for _ in 0..2 {
                        if f.is_empty() || f.ones() != 0 || f.zeros() != f.len() || f.contains(&x) {
                            return Err(format!("{:?} {} {}: is_empty {}, {} ones and {} zeros of {} bits", kind, m, p, f.is_empty(), f.ones(), f.zeros(), f.len()));
                        }
                        f.insert(&x);
                        if f.is_empty() || f.ones() != f.k() || f.zeros() != f.len() - f.k() || !f.contains(&x) {
                            return Err(format!("{:?} {} {}: one item: is_empty {}, {} ones and {} zeros of {} bits", kind, m, p, f.is_empty(), f.ones(), f.zeros(), f.len()));
                        }
                        f.clear();
                        cc.transitions += 2;
                        cc.beat();
                    }
                    cc.states += 1;
                    cc.traces += 1;
                }
            }
        }
        Ok(())
    });
    for kind in KINDS {
        for (n, p) in [(65_537usize, 0.05), ((1 << 20) + 7, 0.3), ((1 << 24) + 3, 0.3), ((1 << 32) + 13, 0.9)] {
            cs.add(format!("{:?} {} bits per partition", kind, n), move |cc| large(cc, kind, n, p));
        }
    }
    for kind in KINDS {
        for (n, p) in [(70_001usize, 0.9), (70_001, 0.3), (20_011, 0.05), (6_007, 5e-5)] {
            cs.add(format!("{:?} every position of {} bits per partition, fpp {}", kind, n, p), move |cc| positions(cc, kind, n, p));
        }
    }
    for kind in KINDS {
        for p in [0.01, 1e-4, 1e-9, 1e-16, 1e-30, 1e-60, 1e-130, 1e-300] {
            cs.add(format!("{:?} covered, fpp {}", kind, p), move |cc| covered(cc, kind, if p < 1e-100 { 1009 } else { 211 }, p));
        }
    }
    for kind in KINDS {
        // closure over all items of a small filter
        for n in 1..=t(tier, 4usize, 5) {
            cs.add(format!("{:?} closure {} bits per partition", kind, n), move |cc| {
                let items: Arc<Vec<It>> = Arc::new((0..n * n).map(|i| It((i / n) as u64, (i % n) as u64)).collect());
                let u = items.clone();
                let init = move || S6::new(kind, n, 0.9, items.clone(), u.clone());
                let cfg = rx::Cfg { menu32: menu32(n as u64), menu64: menu64(n as u64), max_branch: 6, tails: 1 };
                let st = explore(cc, &init, &Opts::rng(t(cc.tier, 60, 400), t(cc.tier, 4_000, 20_000), cfg))?;
                cc.count("closed_searches", st.closed as u64);
                Ok(())
            });
        }
        for (pi, p) in ps().into_iter().enumerate() {
            let ns: Vec<usize> = t(
                tier,
                vec![1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 32, 33, 63, 64, 65, 100, 127, 129],
                (1..=36).chain([47, 48, 62, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 1000]).collect(),
            );
            for ns in ns.chunks(4) {
                let ns = ns.to_vec();
                cs.add(format!("{:?} p#{} n={:?}", kind, pi, ns), move |cc| {
                    for &n in &ns {
                        let m = n as u64;
                        let mut items: Vec<It> = vec![It(0, 0), It(m - 1, 1), It(m / 2, m - 1), It(u64::MAX, 1 << 63), It(1, u64::MAX - 1)];
                        items.sort_unstable();
                        items.dedup();
                        let mut u = items.clone();
                        for a in 0..m.min(6) {
                            for b in 0..m.min(6) {
                                u.push(It(a, b));
                                u.push(It(m - 1 - a, b));
                            }
                        }
                        let (items, u) = (Arc::new(items), Arc::new(u));
                        let init = move || S6::new(kind, n, p, items.clone(), u.clone());
                        let a = menu64(m);
                        let b = menu32(m);
                        let mut ix = vec![0, (m / 2) as usize, (m - 1) as usize];
                        ix.dedup();
                        let cfg = rx::Cfg {
                            menu64: ix.iter().map(|i| a[*i]).collect(),
                            menu32: ix.iter().map(|i| b[*i]).collect(),
                            max_branch: 3,
                            tails: 3,
                        };
                        explore(cc, &init, &Opts::rng(t(cc.tier, 3, 5), t(cc.tier, 250, 800), cfg))
                            .map_err(|e| format!("{:?} with {} bits per partition, fpp {}: {}", kind, n, p, e))?;
                    }
                    Ok(())
                });
            }
            // long histories
            cs.add(format!("{:?} p#{} long", kind, pi), move |cc| {
                for n in [1usize, 3, 8, 20, 64, 100] {
                    let mut ops = vec![];
                    for i in 0..t(cc.tier, 300u64, 2000) {
                        let x = It(splitmix(i * 2), splitmix(i * 2 + 1));
                        ops.push(Op::Insert(x));
                        ops.push(Op::Insert(x));
                        if i % 3 == 2 {
                            ops.push(Op::Insert(It(splitmix(i * 2 - 2), splitmix(i * 2 - 1))));
                        }
                        if i % 97 == 96 {
                            ops.push(Op::Clear);
                        }
                    }
                    let u: Vec<It> = (0..40u64).map(|i| It(splitmix(i * 2), splitmix(i * 2 + 1))).collect();
                    let u = Arc::new(u);
                    linear(cc, S6::new(kind, n, p, u.clone(), u), &ops, &None)
                        .map_err(|e| format!("{:?} with {} bits per partition, fpp {}: {}", kind, n, p, e))?;
                }
                Ok(())
            });
        }
    }
}

/// Many partitions: an item is covered by others in all partitions but one.
fn covered(cc: &mut CC, kind: Kind, n: usize, p: f64) -> Result<(), String> {
    let m = n as u64;
    let k = DF::new(kind, n, p).k();
    let x = It(m * 3 + 1, m + 5);
    let own: HashSet<usize> = probes(&x, n, k).into_iter().map(|p| p % n).collect();
    let free: Vec<u64> = (0..n).filter(|o| !own.contains(o)).map(|o| o as u64).collect();
    if k >= n || free.len() < 2 {
        return Err(format!("bad harness: {} partitions of {} bits", k, n));
    }
    let at = |c: u64| if c == 0 { 0 } else { ((u128::from(c) << 64).div_ceil(u128::from(m))) as u64 + 4096 };
    let low = |c: u64| if c == 0 { 0 } else { ((c << 32).div_ceil(m)) as u32 + 512 };
    let offs = [free[0], free[free.len() - 1]];
    let cfg = rx::Cfg { menu64: offs.iter().map(|o| at(*o)).collect(), menu32: offs.iter().map(|o| low(*o)).collect(), max_branch: 0, tails: 2 };
    for tail in 0..2u8 {
        for j in 0..k {
            rx::begin(&cfg, &[tail]);
            let r = (|| {
                let mut f = DF::new(kind, n, p);
                // agrees with x in partition i only
                let other = |i: usize| It(x.0.wrapping_sub(i as u64), x.1 + 1);
                let mut ever = vec![false; n * k];
                for i in (0..k).filter(|i| *i != j) {
                    f.insert(&other(i));
                    for p in probes(&other(i), n, k) {
                        ever[p] = true;
                    }
                    cc.transitions += 1;
                    if !f.contains(&other(i)) {
                        return Err(format!("{:?} is not contained right after its insertion", other(i)));
                    }
                    if f.contains(&x) && !probes(&x, n, k).iter().all(|p| ever[*p]) {
                        return Err(format!("{:?} is contained, but its position in partition {} was never set", x, j));
                    }
                }
                let o0 = f.ones();
                let had = f.contains(&x);
                f.insert(&x);
                if !f.contains(&x) || (had && o0 != f.ones()) {
                    return Err(format!("inserting {:?}: contained before {}, after {}; {} -> {} ones", x, had, f.contains(&x), o0, f.ones()));
                }
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(&[tail, j as u8, (j >> 8) as u8]);
                cc.beat();
                Ok(())
            })();
            rx::end();
            r.map_err(|e| format!("{:?} with {} partitions of {} bits, fpp {}: {}", kind, k, n, p, e))?;
        }
    }
    Ok(())
}

/// Every position: items all of whose probes but one were set at some point.
fn positions(cc: &mut CC, kind: Kind, n: usize, p: f64) -> Result<(), String> {
    let what = |e: String| format!("{:?} with {} bits per partition, fpp {}: {}", kind, n, p, e);
    let m = n as u64;
    let k = DF::new(kind, n, p).k();
    let r = (k as u64 + 1).next_power_of_two();
    let at = |c: u64| if c == 0 { 0 } else { ((u128::from(c) << 64).div_ceil(u128::from(m))) as u64 + 4096 };
    let low = |c: u64| if c == 0 { 0 } else { ((c << 32).div_ceil(m)) as u32 + 512 };
    let offs = [m / 3, m - 1];
    let cfg = rx::Cfg { menu64: offs.iter().map(|o| at(*o)).collect(), menu32: offs.iter().map(|o| low(*o)).collect(), max_branch: 0, tails: 2 };
    for tail in 0..2u8 {
        for skip in 0..r {
            rx::begin(&cfg, &[tail]);
            let res = (|| {
                let mut f = DF::new(kind, n, p);
                let mut now = 0;
                for o in (0..m).filter(|o| o % r != skip) {
                    let x = It(o, 0);
                    if f.contains(&x) {
                        return Err(format!("{:?} is contained before its insertion, and its positions were never set", x));
                    }
                    f.insert(&x);
                    if !f.contains(&x) {
                        return Err(format!("{:?} is not contained right after its insertion", x));
                    }
                    cc.transitions += 1;
                }
                for b in [1, 0] {
                    for a in 0..m {
                        let set = (0..k as u64).all(|i| (a + i * b) % m % r != skip);
                        cc.transitions += 1;
                        if f.contains(&It(a, b)) {
                            now += 1;
                            if !set {
                                return Err(format!(
                                    "every position was set once but those congruent to {} modulo {}, and {:?} is contained",
                                    skip, r, It(a, b)
                                ));
                            }
                        }
                    }
                    cc.beat();
                }
                // fifty evicted positions at most: the offsets drawn are the same throughout
                if now < m / 2 - 50 {
                    return Err(format!("only {} items contained: the positions are not filled", now));
                }
                let ones = f.ones() as u64;
                if ones > (m - (m - 1 - skip) / r - 1) * k as u64 || ones + f.zeros() as u64 != f.len() as u64 {
                    return Err(format!("{} ones, {} zeros", ones, f.zeros()));
                }
                cc.traces += 1;
                cc.state(&[tail, skip as u8]);
                Ok(())
            })();
            rx::end();
            res.map_err(what)?;
        }
    }
    Ok(())
}

/// Long partitions.
fn large(cc: &mut CC, kind: Kind, n: usize, p: f64) -> Result<(), String> {
    let what = |e: String| format!("{:?} with {} bits per partition, fpp {}: {}", kind, n, p, e);
    let m = n as u64;
    let mut items = vec![It(0, 0), It(m - 1, 0), It(m - 1, 1), It(1, m - 1), It(u64::MAX, 1), It(m / 2, m / 2 + 1)];
    for k in (1..63).step_by(if m >> 32 != 0 { 3 } else { 1 }) {
        if 1 << k < m {
            items.extend([It(1 << k, 0), It((1 << k) + 1, 1 << k), It((1 << k) - 1, 1), It(1, 1 << k)]);
        }
    }
    items.extend((0..20u64).map(|i| It(splitmix(i), splitmix(i + 100))));
    items.sort_unstable();
    items.dedup();
    let at = |c: u64| if c == 0 { 0 } else { ((u128::from(c) << 64).div_ceil(u128::from(m))) as u64 + 4096 };
    let low = |c: u64| if c == 0 || m >= 1 << 31 { 0 } else { ((c << 32).div_ceil(m)) as u32 + 1 };
    let cfg = rx::Cfg { menu64: vec![at(m / 3), at(m - 1), at(0)], menu32: vec![low(m / 3), low(m - 1), 0], max_branch: 0, tails: 3 };
    for tail in 0..3u8 {
        rx::begin(&cfg, &[tail]);
        let r = (|| {
            let mut f = DF::new(kind, n, p);
            let k = f.k();
            if f.n() != n || f.len() != n * k || f.is_empty() {
                return Err(format!("length {}", f.len()));
            }
            let mut ever = HashSet::new();
            for (i, x) in items.iter().enumerate() {
                let (had, o0) = (f.contains(x), f.ones());
                f.insert(x);
                ever.extend(probes(x, n, k));
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(&[tail, i as u8]);
                cc.beat();
                if !f.contains(x) {
                    return Err(format!("{:?} is not contained right after its insertion", x));
                }
                let ones = f.ones();
                if had && ones != o0 {
                    return Err(format!("inserting {:?}, which was contained, changed the filter ({} -> {} ones)", x, o0, ones));
                }
                if ones > ever.len() {
                    return Err(format!("{} ones, but only {} positions were ever set", ones, ever.len()));
                }
                for y in &items {
                    if f.contains(y) && !probes(y, n, k).iter().all(|p| ever.contains(p)) {
                        return Err(format!("{:?} is contained, but one of its probe positions was never set", y));
                    }
                }
            }
            if f.ones() + f.zeros() != f.len() {
                return Err(format!("{} ones + {} zeros, length {}", f.ones(), f.zeros(), f.len()));
            }
            f.clear();
            if f.ones() != 0 || items.iter().any(|x| f.contains(x)) {
                return Err(format!("{} ones after clear", f.ones()));
            }
            Ok(())
        })();
        rx::end();
        r.map_err(what)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C07

pub type Bits = Vec<bool>;

/// Reference transition distribution.
pub fn reference(kind: Kind, bits: &Bits, x: &It, n: usize, k: usize) -> Vec<(Bits, f64)> {
    let set = |mut b: Bits| {
        for p in probes(x, n, k) {
            b[p] = true;
        }
        b
    };
    let ones: Vec<usize> = (0..k).map(|i| bits[i * n..(i + 1) * n].iter().filter(|b| **b).count()).collect();
    let mut out: HashMap<Bits, f64> = HashMap::new();
    match kind {
        Kind::BSSD => {
            for p in 0..k * n {
                let mut b = bits.clone();
                b[p] = false;
                *out.entry(set(b)).or_insert(0.0) += 1.0 / (k * n) as f64;
            }
        }
        _ => {
            let mut cur: HashMap<Bits, f64> = HashMap::new();
            cur.insert(bits.clone(), 1.0);
            for i in 0..k {
                let q = if kind == Kind::BS { 1.0 } else { ones[i] as f64 / n as f64 };
                let mut nx: HashMap<Bits, f64> = HashMap::new();
                for (b, w) in cur {
                    if q < 1.0 {
                        *nx.entry(b.clone()).or_insert(0.0) += w * (1.0 - q);
                    }
                    if q > 0.0 {
                        for j in 0..n {
                            let mut c = b.clone();
                            c[i * n + j] = false;
                            *nx.entry(c).or_insert(0.0) += w * q / n as f64;
                        }
                    }
                }
                cur = nx;
            }
            for (b, w) in cur {
                *out.entry(set(b)).or_insert(0.0) += w;
            }
        }
    }
    out.into_iter().collect()
}

fn obs_ref(b: &Bits, u: &[Vec<usize>]) -> Vec<u8> {
    let mut o: Vec<u8> = u.iter().map(|p| p.iter().all(|i| b[*i]) as u8).collect();
    o.extend_from_slice(&(b.iter().filter(|x| **x).count() as u16).to_le_bytes());
    o
}

fn obs_real(f: &DF, u: &[It]) -> Vec<u8> {
    let mut o: Vec<u8> = u.iter().map(|x| f.contains(x) as u8).collect();
    o.extend_from_slice(&(f.ones() as u16).to_le_bytes());
    o
}

struct Dist {
    p: BTreeMap<Vec<u8>, f64>,
    unresolved: f64,
    max_draws: u64,
    runs: u64,
    next: BTreeMap<Vec<u8>, DF>,
}

/// Distribution of the observation after one insertion, over all random choices.
fn real_dist(cc: &mut CC, f: &DF, x: &It, u: &[It], cfg: &rx::Cfg) -> Dist {
    let mut d = Dist { p: BTreeMap::new(), unresolved: 0.0, max_draws: 0, runs: 0, next: BTreeMap::new() };
    for_all_choices(
        cfg,
        || {
            let mut g = f.clone();
            g.insert(x);
            g
        },
        |g, w, over, draws| {
            d.runs += 1;
            d.max_draws = d.max_draws.max(draws);
            cc.transitions += 1;
            if over {
                d.unresolved += w;
            } else {
                let o = obs_real(&g, u);
                *d.p.entry(o.clone()).or_insert(0.0) += w;
                d.next.entry(o).or_insert(g);
            }
        },
    );
    cc.beat();
    d
}

fn compare(d: &Dist, want: &BTreeMap<Vec<u8>, f64>) -> Option<String> {
    let eps = 1e-9;
    let mut keys: Vec<&Vec<u8>> = d.p.keys().chain(want.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let a = d.p.get(k).cloned().unwrap_or(0.0);
        let b = want.get(k).cloned().unwrap_or(0.0);
        if a > b + eps || a + d.unresolved < b - eps {
            let ones = u16::from_le_bytes([k[k.len() - 2], k[k.len() - 1]]);
            return Some(format!(
                "outcome with {} ones and membership {:?} has probability {:.6} (of which {:.6} not resolved), documented is {:.6}",
                ones, &k[..(k.len() - 2).min(40)], a, d.unresolved, b
            ));
        }
    }
    None
}

/// Menus of raw draws for code that uses the low bits, one draw for all partitions, or remainders.
fn other_menus(k: u64, n: u64, l: u64) -> Vec<(Vec<u64>, Vec<u32>)> {
    let low = l.next_power_of_two().min(4);
    let mut m = vec![];
    for a in menu64(l) {
        m.extend((0..low).map(|c| (a & !7) | c));
    }
    let mut m32 = vec![];
    for a in menu32(l) {
        m32.extend((0..low).map(|c| (a & !7) | c as u32));
    }
    vec![
        (m, m32),
        (menu64(k * n), menu32(k * n)),
        ((0..k * n).collect(), (0..(k * n) as u32).collect()),
        ((0..l).collect(), (0..l as u32).collect()),
    ]
}

fn c07_space(cc: &mut CC, kind: Kind, n: usize, p: f64, max_states: usize, max_branch: usize, stride: usize) -> Result<(), String> {
    let f0 = DF::new(kind, n, p);
    let k = f0.k();
    let l = if kind == Kind::BSSD && k != n { lcm(k as u64, n as u64) } else { n as u64 };
    let cfg = rx::Cfg { menu64: menu64(l), menu32: menu32(l), max_branch, tails: 1 };
    let u: Vec<It> = (0..n * n).map(|i| It((i / n) as u64, (i % n) as u64)).collect();
    let pr: Vec<Vec<usize>> = u.iter().map(|x| probes(x, n, k)).collect();
    let mut seen: HashSet<Bits> = HashSet::new();
    let b0: Bits = vec![false; n * k];
    seen.insert(b0.clone());
    let mut queue = std::collections::VecDeque::new();
    queue.push_back((b0, f0, Vec::<It>::new()));
    cc.states += 1;
    let mut cut = false;
    while let Some((bits, f, hist)) = queue.pop_front() {
        cc.at(|| format!("{:?} n={} k={} history {:?}", kind, n, k, hist));
        for x in u.iter().step_by(stride) {
            if probes(x, n, k).iter().all(|p| bits[*p]) {
                continue;
            }
            if f.contains(x) {
                return Err(format!("{:?} contained although a probe bit is unset, history {:?}", x, hist));
            }
            let rf = reference(kind, &bits, x, n, k);
            let mut want: BTreeMap<Vec<u8>, f64> = BTreeMap::new();
            let mut pre: HashMap<Vec<u8>, Vec<&Bits>> = HashMap::new();
            for (b, w) in &rf {
                let o = obs_ref(b, &pr);
                *want.entry(o.clone()).or_insert(0.0) += w;
                pre.entry(o).or_default().push(b);
            }
            let mut d = real_dist(cc, &f, x, &u, &cfg);
            if d.max_draws == 0 && n > 1 {
                // random choices are not drawn through the substituted generator: only the support
                // can be checked
                cc.count("insertions_without_visible_draws", 1);
                let mut outs: HashSet<Vec<u8>> = HashSet::new();
                for _ in 0..400 {
                    let mut g = f.clone();
                    g.insert(x);
                    let o = obs_real(&g, &u);
                    if !want.contains_key(&o) {
                        return Err(format!("{:?}: after {:?}, inserting {:?} has an outcome that is not documented", kind, hist, x));
                    }
                    outs.insert(o);
                }
                if want.len() > 1 && outs.len() == 1 {
                    return Err(format!("{:?}: after {:?}, inserting {:?} always evicts the same position", kind, hist, x));
                }
                continue;
            }
            if let Some(e) = compare(&d, &want) {
                // the code may turn raw draws into positions in another way: each menu stands for
                // equally large classes of raw draws, and agreement under any of them will do
                let mut agrees = false;
                for (menu64, menu32) in other_menus(k as u64, n as u64, l) {
                    if menu64.len() > 250 {
                        continue;
                    }
                    let br = if menu64.len() > 40 { 2 } else { max_branch.min(3) };
                    let d2 = real_dist(cc, &f, x, &u, &rx::Cfg { menu64, menu32, max_branch: max_branch.min(br), tails: 1 });
                    if d2.unresolved < 0.3 && compare(&d2, &want).is_none() {
                        d = d2;
                        agrees = true;
                        break;
                    }
                }
                if !agrees {
                    return Err(format!(
                        "{:?} with {} bits in each of {} partitions: after {:?} (a history with chosen evictions), inserting {:?}: {}",
                        kind, n, k, hist, x, e
                    ));
                }
            }
            cc.count("distributions_compared", 1);
            for (o, g) in std::mem::take(&mut d.next) {
                let c = &pre[&o];
                if c.len() != 1 {
                    cc.count("ambiguous_states_not_continued", 1);
                    continue;
                }
                let b = c[0].clone();
                if seen.contains(&b) {
                    continue;
                }
                if seen.len() >= max_states {
                    cut = true;
                    continue;
                }
                seen.insert(b.clone());
                cc.states += 1;
                let mut h = hist.clone();
                h.push(*x);
                queue.push_back((b, g, h));
            }
        }
    }
    if cut {
        cc.truncated += 1;
    } else {
        cc.count("closed_searches", 1);
    }
    cc.sample(|| format!("{:?} n={} k={}: {} filter states, every insertion compared", kind, n, k, seen.len()));
    cc.traces += seen.len() as u64;
    Ok(())
}

/// Evictions in long partitions: over a grid of raw draws spread over their whole range, every
/// eighth of every partition must be hit, about equally often.
fn c07_large(cc: &mut CC, kind: Kind, n: usize, runs: usize) -> Result<(), String> {
    let mut f = DF::new(kind, n, 0.9);
    let k = f.k();
    if k != 2 {
        return Err(format!("{:?}: {} partitions for fpp 0.9", kind, k));
    }
    // while filling, the draws are constant, so that only one position per partition is evicted
    rx::begin(&rx::Cfg { menu64: vec![5 << 40], menu32: vec![5 << 8], max_branch: 0, tails: 1 }, &[]);
    for i in (0..n).filter(|i| i % 10 != 0) {
        // probe i in partition 0, and n - 1 - i in partition 1
        let x = It(i as u64, ((2 * n - 1 - 2 * i) % n) as u64);
        f.insert(&x);
        if i % 1000 == 1 {
            cc.beat();
        }
    }
    rx::end();
    // a new item, whose own positions stay set
    let b = It(10 * (n as u64 / 20), (n / 2) as u64 | 1);
    let own = probes(&b, n, k);
    if f.contains(&b) {
        return Err(format!("{:?} with {} bits per partition: {:?} contained before its insertion", kind, n, b));
    }
    let at = |part: usize, j: usize| -> It {
        if part == 0 {
            It(j as u64, ((own[1] - n + n - j) % n) as u64)
        } else {
            It(own[0] as u64, ((n + j - own[0]) % n) as u64)
        }
    };
    // which bits are set before
    let mut g = f.clone();
    rx::begin(&rx::Cfg { menu64: vec![5 << 40], menu32: vec![5 << 8], max_branch: 0, tails: 1 }, &[]);
    g.insert(&b);
    rx::end();
    let set: Vec<Vec<usize>> = (0..k).map(|p| (0..n).filter(|j| g.contains(&at(p, *j))).collect()).collect();
    for p in 0..k {
        for j in [0, 1, n / 2, n - 1] {
            let q = probes(&at(p, j), n, k);
            assert!(q[p] == p * n + j && q[1 - p] == own[1 - p], "{:?} {:?} {}", q, own, j);
        }
        if set[p].len() < n * 85 / 100 {
            return Err(format!("{:?} with {} bits per partition: only {} bits of partition {} set after {} insertions", kind, n, set[p].len(), p, n / 10 * 9));
        }
    }
    // the first two raw draws of the runs form a grid; redraws continue with a fixed mixing sequence
    const M: usize = 240;
    let raw: Vec<u64> = (0..M as u64).map(|c| (((u128::from(c) << 64) / M as u128) as u64) | (splitmix(c) >> 9)).collect();
    const SEG: usize = 8;
    let mut hits = vec![vec![0usize; SEG]; k];
    let mut draws = 0;
    for r in 0..runs {
        let a = r % M;
        let mut menu64: Vec<u64> = (0..64).map(|i| splitmix((r as u64) << 8 | i)).collect();
        // (the tail policy starts with entry 1)
        menu64[1] = raw[a];
        menu64[2] = raw[(a * 7 + r / M * 37) % M];
        let menu32: Vec<u32> = menu64.iter().map(|x| (*x >> 32) as u32).collect();
        let mut g = f.clone();
        rx::begin(&rx::Cfg { menu64, menu32, max_branch: 0, tails: 3 }, &[2]);
        g.insert(&b);
        draws += rx::end().draws;
        cc.transitions += 1;
        cc.states += 1;
        cc.beat();
        let mut lost = 0;
        for p in 0..k {
            for j in &set[p] {
                if !g.contains(&at(p, *j)) {
                    hits[p][j * SEG / n] += 1;
                    lost += 1;
                }
            }
        }
        let most = if kind == Kind::BSSD { 1 } else { k };
        if lost > most {
            return Err(format!("{:?} with {} bits per partition: one insertion evicted {} bits", kind, n, lost));
        }
    }
    if draws == 0 {
        cc.count("insertions_without_visible_draws", runs as u64);
        return Ok(());
    }
    let total: usize = hits.iter().flatten().sum();
    let want = runs as f64 * 0.9 * if kind == Kind::BSSD { 1.0 } else if kind == Kind::BS { 2.0 } else { 1.8 } / (k * SEG) as f64;
    cc.traces += runs as u64;
    cc.count("large_partition_evictions", total as u64);
    let all = want * (k * SEG) as f64;
    if (total as f64 - all).abs() > all * 0.2 {
        return Err(format!(
            "{:?} with {} bits per partition, nine tenths of them set: {} insertions with draws spread over their whole range evicted {} bits, expected about {:.0}",
            kind, n, runs, total, all
        ));
    }
    for p in 0..k {
        for s in 0..SEG {
            let h = hits[p][s] as f64;
            if h < want / 3.0 || h > want * 3.0 {
                return Err(format!(
                    "{:?} with {} bits per partition: over {} insertions with draws spread over their whole range, part {} of {} of partition {} lost {} bits, expected about {:.0} (all: {:?})",
                    kind, n, runs, s + 1, SEG, p, h, want, hits
                ));
            }
        }
    }
    cc.sample(|| format!("{:?} n={}: evictions per eighth of each partition {:?}", kind, n, hits));
    Ok(())
}

/// Evictions among many partitions: over a grid of raw draws spread over their whole range, every
/// partition loses bits, about equally often, in both halves.
fn c07_many(cc: &mut CC, kind: Kind, n: usize, p: f64) -> Result<(), String> {
    let what = |e: String| format!("{:?} with {} bits per partition, fpp {}: {}", kind, n, p, e);
    let mut f = DF::new(kind, n, p);
    let k = f.k();
    let m = n as u64;
    if k * 2 >= n {
        return Err(format!("bad harness: {} partitions of {} bits", k, n));
    }
    // constant draws while filling: one position per partition is evicted
    for _ in 0..3 {
        for a in (0..m).filter(|a| *a != 17) {
            rx::begin(&rx::Cfg { menu64: vec![5 << 40], menu32: vec![5 << 8], max_branch: 0, tails: 1 }, &[]);
            f.insert(&It(a, 0));
            rx::end();
        }
    }
    let c3 = |j: usize| derived(0, 0, j as u64) % m;
    // the item with probe `o` in partition `j`
    let through = |j: usize, o: u64, b: u64| It((o + m * 4096 - (c3(j) + j as u64 * b) % m) % m, b);
    // a position is clear when no item through it is contained: clear positions are fewer than the
    // items through one, and two positions share one item at most
    let clear = |f: &DF| -> Vec<Vec<u64>> {
        (0..k).map(|j| (0..m).filter(|o| (0..m).all(|b| !f.contains(&through(j, *o, b)))).collect()).collect()
    };
    let before = clear(&f);
    let holes: usize = before.iter().map(|v| v.len()).sum();
    if holes * 2 > n || holes == 0 {
        return Err(what(format!("{} clear positions after filling {:?}", holes, before)));
    }
    let (hj, ho) = (0..k).find_map(|j| before[j].first().map(|o| (j, *o))).unwrap();
    let x = through(hj, ho, 7);
    let own: Vec<u64> = probes(&x, n, k).iter().map(|p| (p % n) as u64).collect();
    const M: usize = 240;
    let raw: Vec<u64> = (0..M as u64).map(|c| (((u128::from(c) << 64) / M as u128) as u64) | (splitmix(c) >> 9)).collect();
    let runs = t(cc.tier, 960usize, 4800);
    let mut hits = vec![[0usize; 2]; k];
    let mut draws = 0;
    for r in 0..runs {
        let a = r % M;
        let mut menu64: Vec<u64> = (0..64).map(|i| splitmix((r as u64) << 8 | i)).collect();
        menu64[1] = raw[a];
        menu64[2] = raw[(a * 7 + r / M * 37) % M];
        let menu32: Vec<u32> = menu64.iter().map(|x| (*x >> 32) as u32).collect();
        let mut g = f.clone();
        rx::begin(&rx::Cfg { menu64, menu32, max_branch: 0, tails: 3 }, &[2]);
        g.insert(&x);
        draws += rx::end().draws;
        cc.transitions += 1;
        cc.states += 1;
        cc.beat();
        if !g.contains(&x) {
            return Err(what(format!("{:?} is not contained right after its insertion", x)));
        }
        let after = clear(&g);
        let mut lost = 0;
        for j in 0..k {
            let new: Vec<u64> = after[j].iter().filter(|o| !before[j].contains(o)).cloned().collect();
            if new.len() > 1 {
                return Err(what(format!("one insertion evicted {} bits of partition {}", new.len(), j)));
            }
            if after[j].contains(&own[j]) {
                return Err(what(format!("the position of {:?} in partition {} is clear after its insertion", x, j)));
            }
            if let Some(o) = new.first() {
                hits[j][(o * 2 / m) as usize] += 1;
                lost += 1;
            }
        }
        if lost > 1 && kind == Kind::BSSD {
            return Err(what(format!("one insertion evicted {} bits", lost)));
        }
    }
    if draws == 0 {
        cc.count("insertions_without_visible_draws", runs as u64);
        return Ok(());
    }
    cc.traces += runs as u64;
    let want = runs as f64 * if kind == Kind::BSSD { 1.0 / k as f64 } else { 1.0 };
    for (j, h) in hits.iter().enumerate() {
        let sum = (h[0] + h[1]) as f64;
        let few = if kind == Kind::BSSD && want < 40.0 { 0.15 } else { 0.5 };
        if sum < want * few || sum > want * 2.5 || (want >= 40.0 && (h[0] as f64) < want * 0.15 || want >= 40.0 && (h[1] as f64) < want * 0.15) {
            return Err(what(format!(
                "over {} insertions with draws spread over their whole range, the halves of partition {} of {} lost {:?} bits, expected about {:.0} in all (all: {:?})",
                runs, j, k, h, want, hits
            )));
        }
    }
    cc.sample(|| format!("{:?} n={} k={}: evictions per partition {:?}", kind, n, k, hits));
    Ok(())
}

fn lcm(a: u64, b: u64) -> u64 {
    let (mut x, mut y) = (a, b);
    while y != 0 {
        let r = x % y;
        x = y;
        y = r;
    }
    a / x * b
}

pub fn c07(cs: &mut Cases) {
    let tier = cs.tier;
    for kind in KINDS {
        for n in 1..=t(tier, 4usize, 5) {
            // two partitions: complete
            cs.add(format!("{:?} {} bits, 2 partitions", kind, n), move |cc| {
                let br = match (kind, n) {
                    (Kind::BSSD, 3) => t(cc.tier, 5, 6),
                    (Kind::BSSD, 5) => 5,
                    (Kind::BSSD, _) => 9,
                    _ => 8,
                };
                c07_space(cc, kind, n, 0.9, 100_000, br, 1)
            });
        }
        // wider partitions: selected states and items
        for n in [8usize, 9, 16, 17, 33, 65] {
            let cost = (n as f64).powi(match kind { Kind::BS => 4, Kind::BSSD => 4, Kind::RLBS => 6 });
            if cost > t(tier, 2e7, 3e8) {
                continue;
            }
            cs.add(format!("{:?} {} bits, 2 partitions, selected", kind, n), move |cc| {
                let (states, stride) = (t(cc.tier, 6, 12), (n * n / 5).max(1) | 1);
                if kind == Kind::BSSD {
                    // the partition draw and the position draw share one menu
                    return if n % 2 == 0 { c07_space(cc, kind, n, 0.9, states, if n > 10 { 3 } else { 4 }, stride) } else { Ok(()) };
                }
                c07_space(cc, kind, n, 0.9, states, 4, stride)
            });
        }
        let large: &[(usize, usize)] = t(tier, &[(300, 960), (1000, 960), (70_001, 480), (140_003, 480)], &[(257, 4800), (300, 4800), (1000, 4800), (4099, 4800), (70_001, 2400), (140_003, 2400), ((1 << 20) + 7, 480)]);
        for (n, p) in [(61usize, 5e-5), (157, 1e-14), (263, 1e-25)] {
            cs.add(format!("{:?} {} bits, fpp {}, which partitions are evicted from", kind, n, p), move |cc| c07_many(cc, kind, n, p));
        }
        for &(n, runs) in large {
            cs.add(format!("{:?} {} bits, 2 partitions, where evictions fall", kind, n), move |cc| c07_large(cc, kind, n, runs));
        }
        for (p, ns) in [(0.3, vec![2usize, 3, 4]), (0.15, vec![2, 3, 4]), (0.05, vec![2, 3, 5])] {
            for n in ns {
                cs.add(format!("{:?} {} bits, fpp {}", kind, n, p), move |cc| {
                    let k = DF::new(kind, n, p).k();
                    let cost = match kind {
                        Kind::BS => (n as f64).powi(k as i32),
                        Kind::RLBS => (n as f64).powi(2 * k as i32),
                        Kind::BSSD => if k == n { (n * n) as f64 } else { (lcm(k as u64, n as u64) as f64).powi(4) },
                    };
                    if cost > t(cc.tier, 5_000.0, 3e5) {
                        cc.count("skipped_in_this_tier", 1);
                        return Ok(());
                    }
                    let states = ((t(cc.tier, 2e6, 1e8) / cost / (n * n) as f64) as usize).max(10).min(2000);
                    let br = match kind {
                        Kind::BSSD => if k == n { 2 } else { 4 },
                        Kind::BS => k,
                        Kind::RLBS => 2 * k,
                    };
                    c07_space(cc, kind, n, p, states, br, 1)
                });
            }
        }
        cs.add(format!("{:?} different instances draw differently", kind), move |cc| {
            rx::record_seeds();
            let mut fs: Vec<DF> = (0..16).map(|_| DF::new(kind, 64, 0.1)).collect();
            let seeds = rx::recorded_seeds();
            cc.transitions += 16;
            if !seeds.is_empty() {
                let s: HashSet<[u8; 16]> = seeds.iter().cloned().collect();
                cc.states += s.len() as u64;
                if s.len() == 1 && seeds.len() > 1 {
                    return Err(format!("{:?}: {} instances share one generator seed", kind, seeds.len()));
                }
            }
            // the same history on different instances does not always end the same way
            let mut outs: HashSet<Vec<u8>> = HashSet::new();
            for f in &mut fs {
                for i in 0..400u64 {
                    f.insert(&It(splitmix(i), splitmix(i + 1000)));
                    cc.transitions += 1;
                }
                cc.traces += 1;
                let u: Vec<It> = (0..400u64).map(|i| It(splitmix(i), splitmix(i + 1000))).collect();
                outs.insert(obs_real(f, &u));
            }
            cc.states += outs.len() as u64;
            if outs.len() == 1 {
                return Err(format!("{:?}: 16 instances evict identically", kind));
            }
            Ok(())
        });
    }
}
