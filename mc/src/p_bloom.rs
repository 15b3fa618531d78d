//! C01..C05: Bloom, partitioned Bloom, scalable Bloom filters.

use crate::engine::*;
use crate::items::*;
use probabilistic_collections::bloom::*;
use std::sync::Arc;

#[derive(Clone)]
pub enum BP {
    B(BloomFilter<It, HB>),
    P(PartitionedBloomFilter<It, HB>),
}

impl BP {
    pub fn insert(&mut self, x: &It) {
        match self {
            BP::B(f) => f.insert(x),
            BP::P(f) => f.insert(x),
        }
    }
    pub fn contains(&self, x: &It) -> bool {
        match self {
            BP::B(f) => f.contains(x),
            BP::P(f) => f.contains(x),
        }
    }
    pub fn clear(&mut self) {
        match self {
            BP::B(f) => f.clear(),
            BP::P(f) => f.clear(),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            BP::B(f) => f.len(),
            BP::P(f) => f.len(),
        }
    }
    pub fn ones(&self) -> usize {
        match self {
            BP::B(f) => f.count_ones(),
            BP::P(f) => f.count_ones(),
        }
    }
    pub fn zeros(&self) -> usize {
        match self {
            BP::B(f) => f.count_zeros(),
            BP::P(f) => f.count_zeros(),
        }
    }
    pub fn k(&self) -> usize {
        match self {
            BP::B(f) => f.hasher_count(),
            BP::P(f) => f.hasher_count(),
        }
    }
    pub fn fpp(&self) -> f64 {
        match self {
            BP::B(f) => f.estimated_fpp(),
            BP::P(f) => f.estimated_fpp(),
        }
    }
    pub fn is_empty(&self) -> bool {
        match self {
            BP::B(f) => f.is_empty(),
            BP::P(f) => f.is_empty(),
        }
    }
    pub fn key(&self, o: &mut Vec<u8>) {
        match self {
            BP::B(f) => bytes_of(f, o),
            BP::P(f) => bytes_of(f, o),
        }
    }
    /// Probe positions of an item, according to the specification.
    pub fn probes(&self, x: &It) -> Vec<usize> {
        match self {
            BP::B(f) => (0..f.hasher_count() as u64).map(|i| (derived(x.0, x.1, i) % f.len() as u64) as usize).collect(),
            BP::P(f) => (0..f.hasher_count() as u64)
                .map(|i| i as usize * f.bit_count() + (derived(x.0, x.1, i) % f.bit_count() as u64) as usize)
                .collect(),
        }
    }
    /// Modulus of the addresses.
    pub fn modulus(&self) -> u64 {
        match self {
            BP::B(f) => f.len() as u64,
            BP::P(f) => f.bit_count() as u64,
        }
    }
}

/// How a filter is built.
#[derive(Clone, Copy, Debug)]
pub enum Ctor {
    BNew(usize, f64),
    BItems(usize, usize),
    BFpp(usize, f64),
    PItems(usize, f64),
    PBits(usize, f64),
}

impl Ctor {
    pub fn build(self) -> BP {
        let h = hb(MIX);
        match self {
            Ctor::BNew(n, p) => BP::B(BloomFilter::with_hashers(n, p, h)),
            Ctor::BItems(m, n) => BP::B(BloomFilter::from_item_count_with_hashers(m, n, h)),
            Ctor::BFpp(m, p) => BP::B(BloomFilter::from_fpp_with_hashers(m, p, h)),
            Ctor::PItems(n, p) => BP::P(PartitionedBloomFilter::from_item_count_with_hashers(n, p, h)),
            Ctor::PBits(m, p) => BP::P(PartitionedBloomFilter::from_bit_count_with_hashers(m, p, h)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Insert(It),
    Clear,
}

/// Items that put the first and later probes at every interesting place.
pub fn alphabet(m: u64, small: bool) -> Vec<It> {
    let e = edges(m);
    let mut v = Vec::new();
    for (i, &a) in e.iter().enumerate() {
        v.push(It(a, e[(i * 5 + 3) % e.len()]));
        if !small {
            v.push(It(a, e[(i * 7 + 6) % e.len()]));
            v.push(It(a, 0));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

#[derive(Clone)]
struct Sys1 {
    f: BP,
    items: Arc<Vec<It>>,
    inserted: u64,
    exact: bool,
    bits: Vec<bool>,
    queries: Arc<Vec<It>>,
}

impl Sys1 {
    fn new(c: Ctor, items: Arc<Vec<It>>, queries: Arc<Vec<It>>, exact: bool) -> Self {
        let f = c.build();
        let bits = if exact { vec![false; f.len()] } else { vec![] };
        Sys1 { f, items, inserted: 0, exact, bits, queries }
    }
}

impl Sys for Sys1 {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = self.items.iter().map(|i| Op::Insert(*i)).collect();
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Insert(x) => {
                self.f.insert(x);
                let i = self.items.iter().position(|y| y == x).unwrap();
                self.inserted |= 1 << i;
                if self.exact {
                    for p in self.f.probes(x) {
                        self.bits[p] = true;
                    }
                }
            }
            Op::Clear => {
                self.f.clear();
                self.inserted = 0;
                self.bits.iter_mut().for_each(|b| *b = false);
            }
        }
        for (i, x) in self.items.iter().enumerate() {
            if self.inserted >> i & 1 == 1 && !self.f.contains(x) {
                return Err(format!("false negative for {:?} (length {}, {} hash functions)", x, self.f.len(), self.f.k()));
            }
        }
        if self.exact {
            if self.f.is_empty() {
                return Err("is_empty although it has bits".into());
            }
            let ones = self.bits.iter().filter(|b| **b).count();
            if self.f.ones() != ones || self.f.zeros() != self.bits.len() - ones {
                return Err(format!(
                    "counts {} ones/{} zeros, {} distinct probe positions of {} were set",
                    self.f.ones(), self.f.zeros(), ones, self.bits.len()
                ));
            }
            let e = (ones as f64 / self.bits.len() as f64).powf(self.f.k() as f64);
            if !close_rel(self.f.fpp(), e) {
                return Err(format!("estimated fpp {} but ones ratio^k is {}", self.f.fpp(), e));
            }
            for x in self.items.iter().chain(self.queries.iter()) {
                let want = self.f.probes(x).iter().all(|p| self.bits[*p]);
                if self.f.contains(x) != want {
                    return Err(format!("contains({:?}) = {}, its probe positions say {}", x, !want, want));
                }
            }
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        self.f.key(o);
        if self.exact {
            o.extend(self.bits.iter().map(|b| *b as u8));
        }
        o.extend_from_slice(&self.inserted.to_le_bytes());
    }
}

fn bit_counts(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=t3(tier, 72, 300, 700)).collect();
    v.extend([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 4099, 65535, 65536, 65537, 70001]);
    v.retain(|m| *m <= 1025 || tier != Tier::Quick || [65535, 65537, 70001].contains(m));
    v.sort_unstable();
    v.dedup();
    v
}

fn ctors(tier: Tier) -> Vec<Ctor> {
    let mut v = Vec::new();
    for m in bit_counts(tier) {
        // item counts that give 1, 2, 3, 4, 7, 13 and many hash functions
        let mut ks = Vec::new();
        for k in [1usize, 2, 3, 4, 7, 13, 40] {
            let n = ((m as f64) * 2f64.ln() / (k as f64)).ceil().max(1.0) as usize;
            if !ks.contains(&n) {
                ks.push(n);
                if m < 2000 || k == 3 {
                    v.push(Ctor::BItems(m, n));
                }
            }
        }
        for p in [0.9, 0.5, 0.2, 0.03, 0.001, 1e-9] {
            if m < 600 || p == 0.2 {
                v.push(Ctor::BFpp(m, p));
                v.push(Ctor::PBits(m, p));
            }
        }
    }
    for n in [1usize, 2, 3, 5, 8, 13, 31, 64, 100] {
        for p in [0.9, 0.5, 0.2, 0.03, 0.001, 1e-9] {
            v.push(Ctor::BNew(n, p));
            v.push(Ctor::PItems(n, p));
        }
    }
    v
}

pub fn c01(cs: &mut Cases) {
    let tier = cs.tier;
    for chunk in ctors(tier).chunks(8) {
        let chunk = chunk.to_vec();
        let name = format!("{:?}..", chunk[0]);
        cs.add(name, move |cc| {
            for c in &chunk {
                let f = catch(|| c.build()).map_err(|p| format!("{:?}: construction panicked: {}", c, p))?;
                if f.modulus() == 0 || f.k() == 0 {
                    return Err(format!("{:?}: no bits or no hash functions", c));
                }
                let items = Arc::new(alphabet(f.modulus(), true));
                let big = f.len() > 2000;
                let depth = if big { 2 } else { t3(cc.tier, 3, 4, 5) };
                let no = Arc::new(vec![]);
                let (c, i, q) = (*c, items, no);
                let init = move || Sys1::new(c, i.clone(), q.clone(), false);
                explore(cc, &init, &Opts::new(depth, t3(cc.tier, 400, 20_000, 60_000))).map_err(|e| format!("{:?}: {}", c, e))?;
            }
            Ok(())
        });
    }
    // every residue pair of small moduli, inserted one on top of the other
    for kind in 0..2 {
        for k in 0..4usize {
            cs.add(format!("all residue pairs kind {} fpp #{}", kind, k), move |cc| {
                for m in 1..=t3(cc.tier, 20usize, 40, 64) {
                    let p = [0.5, 0.2, 0.03, 1e-6][k];
                    let c = if kind == 0 { Ctor::BItems(m, (m / (k + 1)).max(1)) } else { Ctor::PBits(m, p) };
                    let mut all = c.build();
                    let mut ins = Vec::new();
                    for a in 0..m as u64 {
                        for b in 0..m as u64 {
                            let x = It(a, b);
                            let mut one = c.build();
                            one.insert(&x);
                            all.insert(&x);
                            ins.push(x);
                            cc.transitions += 2;
                            cc.traces += 1;
                            cc.state(&[kind as u8, k as u8, m as u8, a as u8, b as u8]);
                            if !one.contains(&x) || !all.contains(&x) {
                                return Err(format!("{:?}: false negative for {:?} right after insertion", c, x));
                            }
                        }
                        cc.beat();
                    }
                    for x in &ins {
                        if !all.contains(x) {
                            return Err(format!("{:?}: false negative for {:?} after inserting all residue pairs", c, x));
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // more than 2^32 bits (pages are allocated lazily)
    for kind in 0..2 {
        cs.add(format!("more than 2^32 bits, kind {}", kind), move |cc| {
            let m = (1usize << 32) + 13;
            let c = if kind == 0 { Ctor::BItems(m, m / 2) } else { Ctor::PBits((m + 1) / 2, 0.4) };
            let mut f = c.build();
            let items: Vec<It> = alphabet(f.modulus(), false)
                .into_iter()
                .chain([It((1 << 32) + 5, 3), It((1 << 32) + 12, 1 << 32), It(5, 1)])
                .collect();
            for (i, x) in items.iter().enumerate() {
                f.insert(x);
                cc.transitions += 1;
                cc.traces += 1;
                cc.beat();
                cc.state(&[kind as u8, i as u8]);
                for y in &items[..=i] {
                    if !f.contains(y) {
                        return Err(format!("false negative for {:?} in a filter of {} bits", y, f.len()));
                    }
                }
            }
            Ok(())
        });
    }
}

pub fn c02(cs: &mut Cases) {
    let tier = cs.tier;
    // lengths at which a narrower count of the bits would wrap
    cs.add("lengths that are multiples of powers of two", |cc| {
        for m in (4..=26).map(|k| 1usize << k).chain([1 << 32, 3 << 16]) {
            for c in [Ctor::BFpp(m, 0.3), Ctor::BFpp(m, 0.01), Ctor::PBits(m, 0.6), Ctor::PBits(m, 0.1)] {
                if m > 1 << 26 && !matches!(c, Ctor::BFpp(_, 0.3) | Ctor::PBits(_, 0.6)) {
                    continue;
                }
                let mut f = c.build();
                let x = It(m as u64 - 1, 1);
                for _ in 0..1 + (m <= 1 << 20) as u8 {
                    if f.is_empty() || f.ones() != 0 || f.zeros() != f.len() || f.contains(&x) || f.fpp() != 0.0 {
                        return Err(format!("{:?}: new: is_empty {}, {} ones and {} zeros of {} bits", c, f.is_empty(), f.ones(), f.zeros(), f.len()));
                    }
                    f.insert(&x);
                    cc.beat();
                    let mut p = f.probes(&x);
                    p.sort_unstable();
                    p.dedup();
                    if f.is_empty() || f.ones() != p.len() || f.zeros() != f.len() - p.len() || !f.contains(&x) {
                        return Err(format!("{:?}: one item: is_empty {}, {} ones and {} zeros of {} bits, {} probed", c, f.is_empty(), f.ones(), f.zeros(), f.len(), p.len()));
                    }
                    f.clear();
                    cc.transitions += 3;
                    cc.beat();
                }
                cc.states += 1;
                cc.traces += 1;
            }
        }
        Ok(())
    });
    for chunk in ctors(tier).chunks(8) {
        let chunk = chunk.to_vec();
        let name = format!("{:?}..", chunk[0]);
        cs.add(name, move |cc| {
            for c in &chunk {
                let f = c.build();
                let m = f.modulus();
                let items = Arc::new(alphabet(m, true));
                let mut q = alphabet(m, false);
                for d in 0..8u64.min(m) {
                    q.push(It(d, d));
                    q.push(It(m - 1 - d, 1));
                }
                let big = f.len() > 2000;
                let depth = if big { 1 } else { t(cc.tier, 3, 4) };
                let (c, q) = (*c, Arc::new(q));
                let init = move || Sys1::new(c, items.clone(), q.clone(), true);
                explore(cc, &init, &Opts::new(depth, t3(cc.tier, 1_000, 5_000, 12_000))).map_err(|e| format!("{:?}: {}", c, e))?;
            }
            Ok(())
        });
    }
    // complete: every residue pair inserted, every residue pair queried
    for kind in 0..2 {
        for k in 0..4usize {
            cs.add(format!("all residue pairs kind {} #{}", kind, k), move |cc| {
                for m in 1..=t3(cc.tier, 12usize, 20, 28) {
                    let p = [0.5, 0.2, 0.03, 1e-6][k];
                    let c = if kind == 0 { Ctor::BItems(m, (m / (k + 1)).max(1)) } else { Ctor::PBits(m, p) };
                    for a in 0..m as u64 {
                        for b in 0..m as u64 {
                            let x = It(a, b);
                            let mut f = c.build();
                            f.insert(&x);
                            cc.beat();
                            cc.transitions += 1;
                            cc.traces += 1;
                            let mut bits = vec![false; f.len()];
                            for p in f.probes(&x) {
                                bits[p] = true;
                            }
                            let mut kb = vec![kind as u8, k as u8, m as u8];
                            kb.extend(bits.iter().map(|b| *b as u8));
                            cc.state(&kb);
                            let ones = bits.iter().filter(|b| **b).count();
                            if f.ones() != ones || f.zeros() + ones != f.len() {
                                return Err(format!("{:?}: {} ones after inserting {:?}, expected {}", c, f.ones(), x, ones));
                            }
                            for qa in 0..m as u64 {
                                for qb in 0..m as u64 {
                                    let q = It(qa, qb);
                                    cc.transitions += 1;
                                    let want = f.probes(&q).iter().all(|p| bits[*p]);
                                    if f.contains(&q) != want {
                                        return Err(format!("{:?}: after inserting {:?}, contains({:?}) = {}", c, x, q, !want));
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // every position: an item all of whose probes but one are set
    for kind in 0..2 {
        for (m, d) in t3(
            tier,
            vec![(70_001usize, 1usize), (70_001, 3), (200_003, 2), (140_009, 6)],
            vec![(70_001, 1), (70_001, 3), (200_003, 2), (140_009, 6), (1_100_009, 3)],
            vec![(70_001, 1), (70_001, 3), (200_003, 2), (140_009, 6), (1_100_009, 3), (17_000_023, 2)],
        ) {
            // the fourth derived hash and later ones are shifted, so the probes of (o, 0) fall together only below
            let d = if kind == 0 { d.min(3) } else { d };
            cs.add(format!("every position of {} bits, kind {} #{}", m, kind, d), move |cc| {
                let p = [0.5, 0.4, 0.2, 0.1, 0.06, 0.03, 0.015][d];
                let c = if kind == 0 { Ctor::BItems(m, (m * 7 / 10 / d).max(1)) } else { Ctor::PBits(m / d, p) };
                let f0 = c.build();
                let (k, n) = (f0.k(), f0.modulus());
                let r = (k as u64 + 1).next_power_of_two();
                let parts = f0.len() as u64 / n;
                for skip in 0..r {
                    let mut f = c.build();
                    for o in (0..n).filter(|o| o % r != skip) {
                        f.insert(&It(o, 0));
                        cc.transitions += 1;
                    }
                    cc.beat();
                    let ones = (n - (n - 1 - skip) / r - 1) * parts;
                    if f.ones() as u64 != ones {
                        return Err(format!("{:?}: {} ones, expected {}", c, f.ones(), ones));
                    }
                    for b in [1, 0] {
                        for a in 0..n {
                            let want = (0..k as u64).all(|i| (a + i * b) % n % r != skip);
                            cc.transitions += 1;
                            if f.contains(&It(a, b)) != want {
                                return Err(format!(
                                    "{:?}: every position is set but those congruent to {} modulo {}: contains({:?}) = {}",
                                    c, skip, r, It(a, b), !want
                                ));
                            }
                        }
                        cc.beat();
                    }
                    cc.traces += 1;
                    cc.state(&[kind as u8, d as u8, skip as u8, (m % 251) as u8]);
                }
                Ok(())
            });
        }
    }
    for c in t(
        tier,
        vec![Ctor::BItems(740, 2), Ctor::BItems(1000, 2), Ctor::BItems(1003, 3), Ctor::BItems(1000, 1), Ctor::BItems(70_001, 1), Ctor::PBits(11, 1e-300), Ctor::PBits(40, 1e-200), Ctor::PBits(300, 1e-90), Ctor::PItems(9, 1e-250), Ctor::BFpp(3000, 1e-120), Ctor::BNew(3, 1e-150)],
        vec![Ctor::BItems(740, 2), Ctor::BItems(1000, 2), Ctor::BItems(1003, 3), Ctor::BItems(1000, 1), Ctor::BItems(70_001, 1), Ctor::PBits(11, 1e-300), Ctor::PBits(40, 1e-200), Ctor::PBits(300, 1e-90), Ctor::PItems(9, 1e-250), Ctor::BFpp(3000, 1e-120), Ctor::BNew(3, 1e-150), Ctor::BItems(200_003, 1), Ctor::BItems(9001, 4), Ctor::PBits(2000, 1e-300)],
    ) {
        cs.add(format!("many hash functions {:?}", c), move |cc| {
            let m = c.build().modulus();
            let mut items: Vec<It> = [(0, 0), (1, 0), (m - 1, 0), (0, 1), (m / 2, m - 1), (3, u64::MAX), (7, 1 << 32)].iter().map(|x| It(x.0, x.1)).collect();
            items.extend((0..40).map(|i| It(splitmix(i), splitmix(i + 77))));
            let items = Arc::new(items);
            let q = Arc::new((100..400).map(|i| It(splitmix(i), splitmix(i + 77))).collect::<Vec<_>>());
            let s = Sys1::new(c, items.clone(), q, true);
            let mut ops: Vec<Op> = items.iter().map(|x| Op::Insert(*x)).collect();
            ops.push(Op::Clear);
            ops.extend(items.iter().rev().map(|x| Op::Insert(*x)));
            linear(cc, s, &ops, &None).map_err(|e| format!("{:?}: {}", c, e))?;
            Ok(())
        });
    }
    for kind in 0..2 {
        cs.add(format!("more than 2^32 bits, kind {}", kind), move |cc| {
            let m = (1usize << 32) + 13;
            let c = if kind == 0 { Ctor::BItems(m, m / 2) } else { Ctor::PBits((m + 1) / 2, 0.4) };
            let mut f = c.build();
            let items: Vec<It> = alphabet(f.modulus(), false)
                .into_iter()
                .chain([It((1 << 32) + 5, 3), It((1 << 32) + 12, 1 << 32), It(5, 1), It(12, 0), It(5, 3)])
                .collect();
            let mut set = std::collections::HashSet::new();
            for (i, x) in items.iter().enumerate() {
                f.insert(x);
                set.extend(f.probes(x));
                cc.transitions += 1;
                cc.traces += 1;
                cc.beat();
                cc.state(&[kind as u8, i as u8]);
                if f.ones() != set.len() || f.zeros() != f.len() - set.len() {
                    return Err(format!("{} ones, expected {}", f.ones(), set.len()));
                }
                for y in &items {
                    let want = f.probes(y).iter().all(|p| set.contains(p));
                    if f.contains(y) != want {
                        return Err(format!("contains({:?}) = {} in a filter of {} bits", y, !want, f.len()));
                    }
                }
            }
            Ok(())
        });
    }
}

/// `got` is the least integer not below `opt`, up to floating point error in computing `opt`.
pub fn is_ceil(got: usize, opt: f64) -> bool {
    let g = got as f64;
    let e = 1e-9 * opt.abs().max(1.0);
    g >= opt - e && g < opt + 1.0 + e
}

pub fn probs(tier: Tier) -> Vec<f64> {
    let mut v = vec![
        0.99, 0.9, 0.75, 0.6, 0.5, 0.4, 0.3, 0.25, 0.2, 0.125, 0.1, 0.07, 0.05, 0.03125, 0.02, 0.01, 0.005, 0.001,
        1.0 / 1024.0, 1e-4, 1e-5, 1e-6, 1e-9, 1e-12,
    ];
    if tier != Tier::Quick {
        for i in 1..200 {
            v.push(i as f64 / 200.0 + 0.0001);
            v.push(0.5f64.powf(i as f64 / 8.0));
        }
    }
    v.retain(|p| *p > 0.0 && *p < 1.0);
    v
}

fn counts(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=t3(tier, 130, 600, 1500)).collect();
    v.extend([255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10_000, 65_537, 100_000]);
    v.extend([250_000, 700_001, 1_000_003, 9_999_991, 16_777_217, 33_554_433]);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn c03(cs: &mut Cases) {
    let tier = cs.tier;
    // probabilities around those at which the number of partitions or hash functions steps
    let mut edges = vec![];
    for k in 1..=t(tier, 24, 60) {
        for at in [(1.0 - (-1f64).exp()).powi(2 * k - 2), 0.5f64.powi(k)] {
            for d in [-1e-4, -1e-6, -1e-7, 1e-7, 1e-6, 1e-4] {
                edges.push(at * (1.0 + d));
            }
        }
    }
    edges.retain(|p| *p < 1.0);
    let n_probs = probs(tier).len();
    for (pi, p) in probs(tier).into_iter().chain(edges).enumerate() {
        let few = pi >= n_probs;
        cs.add(format!("fpp #{} = {}", pi, p), move |cc| {
            let ln2 = 2f64.ln();
            let bits_opt = |n: usize| -(n as f64) * p.ln() / (ln2 * ln2);
            let kp = (-p.ln() / ln2).max(f64::MIN_POSITIVE);
            let bsk = (2.0 + p.ln() / (1.0 - (-1f64).exp()).ln()) / 2.0;
            for n in counts(cc.tier) {
                if few && ![1, 2, 7, 64, 1000].contains(&n) {
                    continue;
                }
                // (partitions are copies of each other, so that large ones cost time)
                if (n as f64) * kp > 3e6 && (n as f64 * kp > t(cc.tier, 4e8, 4e9) || pi % t(cc.tier, 4, 1) != 0) {
                    continue;
                }
                cc.beat();
                for explicit in [true, false] {
                    // from item count and probability
                    let (len, k) = if explicit {
                        let f = BloomFilter::<It, HB>::with_hashers(n, p, hb(MIX));
                        (f.len(), f.hasher_count())
                    } else {
                        let f = BloomFilter::<u32>::new(n, p);
                        (f.len(), f.hasher_count())
                    };
                    cc.transitions += 1;
                    if !is_ceil(len, bits_opt(n)) {
                        return Err(format!("new({}, {}): {} bits, optimum is {}", n, p, len, bits_opt(n)));
                    }
                    if k == 0 || !is_ceil(k, len as f64 / n as f64 * ln2) {
                        return Err(format!("new({}, {}): {} hash functions for {} bits", n, p, k, len));
                    }
                    let (plen, pm, pk) = if explicit {
                        let f = PartitionedBloomFilter::<It, HB>::from_item_count_with_hashers(n, p, hb(MIX));
                        (f.len(), f.bit_count(), f.hasher_count())
                    } else {
                        let f = PartitionedBloomFilter::<u32>::from_item_count(n, p);
                        (f.len(), f.bit_count(), f.hasher_count())
                    };
                    cc.transitions += 1;
                    if pk == 0 || !is_ceil(pk, kp) {
                        return Err(format!("partitioned({}, {}): {} partitions, optimum {}", n, p, pk, kp));
                    }
                    if plen != pm * pk || !is_ceil(pm, bits_opt(n) / pk as f64) {
                        return Err(format!("partitioned({}, {}): {} x {} bits, optimum {} in total", n, p, pk, pm, bits_opt(n)));
                    }
                    cc.state(format!("{} {} {} {}", len, k, pm, pk).as_bytes());

                    // n is now a number of bits
                    let m = n;
                    let (len, k) = if explicit {
                        let f = BloomFilter::<It, HB>::from_fpp_with_hashers(m, p, hb(MIX));
                        (f.len(), f.hasher_count())
                    } else {
                        let f = BloomFilter::<u32>::from_fpp(m, p);
                        (f.len(), f.hasher_count())
                    };
                    cc.transitions += 1;
                    let items_opt = m as f64 * ln2 / kp;
                    let hi = (items_opt - 1e-9 * items_opt).ceil().max(1.0);
                    let lo = (items_opt + 1e-9 * items_opt).ceil().max(1.0);
                    if len != m || k == 0 || !(is_ceil(k, m as f64 / hi * ln2) || is_ceil(k, m as f64 / lo * ln2)) {
                        return Err(format!("from_fpp({}, {}): {} bits, {} hash functions", m, p, len, k));
                    }
                    let (plen, pm, pk) = if explicit {
                        let f = PartitionedBloomFilter::<It, HB>::from_bit_count_with_hashers(m, p, hb(MIX));
                        (f.len(), f.bit_count(), f.hasher_count())
                    } else {
                        let f = PartitionedBloomFilter::<u32>::from_bit_count(m, p);
                        (f.len(), f.bit_count(), f.hasher_count())
                    };
                    cc.transitions += 1;
                    if pm != m || plen != m * pk || pk == 0 || !is_ceil(pk, kp) {
                        return Err(format!("partitioned bits({}, {}): {} x {} = {}", m, p, pk, pm, plen));
                    }
                    // stream filters
                    for which in 0..3 {
                        let (l, b, k) = match (which, explicit) {
                            (0, true) => { let f = BSBloomFilter::<It, HB>::with_hashers(m, p, hb(MIX)); (f.len(), f.bit_count(), f.hasher_count()) }
                            (0, false) => { let f = BSBloomFilter::<u32>::new(m, p); (f.len(), f.bit_count(), f.hasher_count()) }
                            (1, true) => { let f = BSSDBloomFilter::<It, HB>::with_hashers(m, p, hb(MIX)); (f.len(), f.bit_count(), f.hasher_count()) }
                            (1, false) => { let f = BSSDBloomFilter::<u32>::new(m, p); (f.len(), f.bit_count(), f.hasher_count()) }
                            (_, true) => { let f = RLBSBloomFilter::<It, HB>::with_hashers(m, p, hb(MIX)); (f.len(), f.bit_count(), f.hasher_count()) }
                            (_, false) => { let f = RLBSBloomFilter::<u32>::new(m, p); (f.len(), f.bit_count(), f.hasher_count()) }
                        };
                        cc.transitions += 1;
                        if b != m || l != m * k || k == 0 || !is_ceil(k, bsk) {
                            return Err(format!("stream filter kind {} ({}, {}): {} partitions of {} = {}, optimum {}", which, m, p, k, b, l, bsk));
                        }
                    }
                    cc.traces += 7;
                    cc.state(format!("f {} {} {} {}", len, k, pm, pk).as_bytes());
                }
            }
            cc.sample(|| format!("fpp {}: bits per item {:.4}, partitions {:.4}", p, bits_opt(1), kp));
            Ok(())
        });
    }
    // fixed number of bits and items
    for m0 in 0..8usize {
        cs.add(format!("bits and items, slice {}", m0), move |cc| {
            for m in counts(cc.tier).into_iter().filter(|m| m % 8 == m0) {
                for n in counts(cc.tier).into_iter().filter(|n| *n <= 300 || *n % 1000 == 0) {
                    cc.beat();
                    for explicit in [true, false] {
                        let (len, k) = if explicit {
                            let f = BloomFilter::<It, HB>::from_item_count_with_hashers(m, n, hb(MIX));
                            (f.len(), f.hasher_count())
                        } else {
                            let f = BloomFilter::<u32>::from_item_count(m, n);
                            (f.len(), f.hasher_count())
                        };
                        cc.transitions += 1;
                        cc.traces += 1;
                        cc.state(format!("{} {}", len, k).as_bytes());
                        if len != m || k == 0 || !is_ceil(k, m as f64 / n as f64 * 2f64.ln()) {
                            return Err(format!("from_item_count({}, {}): {} bits, {} hash functions", m, n, len, k));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// scalable

#[derive(Clone)]
pub struct RefBloom {
    pub m: usize,
    pub k: usize,
    pub bits: Vec<bool>,
}

impl RefBloom {
    pub fn from_fpp(m: usize, p: f64) -> Self {
        let n = (m as f64 * 2f64.ln() / -p.log2()).ceil();
        let k = (m as f64 / n * 2f64.ln()).ceil() as usize;
        RefBloom { m, k, bits: vec![false; m] }
    }
    pub fn probes<'a>(&'a self, x: &It) -> impl Iterator<Item = usize> + 'a {
        let (a, b, m) = (x.0, x.1, self.m as u64);
        (0..self.k as u64).map(move |i| (derived(a, b, i) % m) as usize)
    }
    pub fn contains(&self, x: &It) -> bool {
        self.probes(x).all(|p| self.bits[p])
    }
    pub fn insert(&mut self, x: &It) {
        for p in self.probes(x).collect::<Vec<_>>() {
            self.bits[p] = true;
        }
    }
    pub fn ones(&self) -> usize {
        self.bits.iter().filter(|b| **b).count()
    }
    pub fn fpp(&self) -> f64 {
        (self.ones() as f64 / self.m as f64).powf(self.k as f64)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct SParams {
    pub m: usize,
    pub p: f64,
    pub g: f64,
    pub t: f64,
}

#[derive(Clone)]
struct SSys {
    f: ScalableBloomFilter<It, HB>,
    prm: SParams,
    refs: Vec<RefBloom>,
    exact: bool,
    items: Arc<Vec<It>>,
    inserted: Vec<It>,
}

impl SSys {
    fn new(prm: SParams, items: Arc<Vec<It>>, exact: bool) -> Self {
        SSys {
            f: ScalableBloomFilter::with_hashers(prm.m, prm.p, prm.g, prm.t, hb(MIX)),
            prm,
            refs: if exact { vec![RefBloom::from_fpp(prm.m, prm.p)] } else { vec![] },
            exact,
            items,
            inserted: vec![],
        }
    }
}

impl Sys for SSys {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = self.items.iter().map(|i| Op::Insert(*i)).collect();
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        let before = self.f.filter_count();
        match op {
            Op::Insert(x) => {
                self.f.insert(x);
                if let Err(i) = self.inserted.binary_search(x) {
                    self.inserted.insert(i, *x);
                }
                if self.exact {
                    if !self.refs.iter().any(|r| r.contains(x)) {
                        self.refs.last_mut().unwrap().insert(x);
                    }
                    let l = self.refs.last().unwrap();
                    if l.ones() * 2 >= l.m {
                        let m = (l.m as f64 * self.prm.g).ceil() as usize;
                        let p = self.prm.p * self.prm.t.powi(self.refs.len() as i32);
                        let r = RefBloom::from_fpp(m, p);
                        self.refs.push(r);
                    }
                }
            }
            Op::Clear => {
                self.f.clear();
                self.inserted.clear();
                if self.exact {
                    self.refs = vec![RefBloom::from_fpp(self.prm.m, self.prm.p)];
                }
            }
        }
        for x in &self.inserted {
            if !self.f.contains(x) {
                return Err(format!("false negative for {:?} with {} components (before the operation: {})", x, self.f.filter_count(), before));
            }
        }
        if self.exact {
            if self.f.filter_count() != self.refs.len() {
                return Err(format!(
                    "{} components, expected {} (newest has {} of {} bits set)",
                    self.f.filter_count(), self.refs.len(), self.refs.last().unwrap().ones(), self.refs.last().unwrap().m
                ));
            }
            let len: usize = self.refs.iter().map(|r| r.m).sum();
            let ones: usize = self.refs.iter().map(|r| r.ones()).sum();
            if self.f.len() != len {
                return Err(format!("length {}, expected {}", self.f.len(), len));
            }
            if self.f.count_ones() != ones || self.f.count_zeros() != len - ones {
                return Err(format!("{} ones and {} zeros, expected {} and {}", self.f.count_ones(), self.f.count_zeros(), ones, len - ones));
            }
            let e = 1.0 - self.refs.iter().map(|r| 1.0 - r.fpp()).product::<f64>();
            if !close(self.f.estimated_fpp(), e) {
                return Err(format!("estimated fpp {}, expected {}", self.f.estimated_fpp(), e));
            }
            if self.f.is_empty() {
                return Err("is_empty although it has bits".into());
            }
            for x in self.items.iter() {
                let want = self.refs.iter().any(|r| r.contains(x));
                if self.f.contains(x) != want {
                    return Err(format!("contains({:?}) = {}, components say {}", x, !want, want));
                }
            }
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        bytes_of(&self.f, o);
        for r in &self.refs {
            o.extend(r.bits.iter().map(|b| *b as u8));
            o.push(9);
        }
        for x in &self.inserted {
            o.extend_from_slice(&x.0.to_le_bytes());
            o.extend_from_slice(&x.1.to_le_bytes());
        }
    }
}

fn sparams(tier: Tier) -> Vec<SParams> {
    let mut v = Vec::new();
    let ms: Vec<usize> = t(
        tier,
        vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 33, 64],
        (1..=40).chain([48, 63, 64, 65, 100, 128]).collect(),
    );
    for m in ms {
        for p in [0.5, 0.1, 0.01] {
            for g in [1.0, 1.5, 2.0, 3.0] {
                for tt in [0.5, 0.9] {
                    v.push(SParams { m, p, g, t: tt });
                }
            }
        }
        v.push(SParams { m, p: 0.2, g: 0.5, t: 1.0 });
        v.push(SParams { m, p: 0.9, g: 1.1, t: 0.7 });
    }
    v
}

fn scalable(cs: &mut Cases, exact: bool) {
    let tier = cs.tier;
    for chunk in sparams(tier).chunks(6) {
        let chunk = chunk.to_vec();
        cs.add(format!("{:?}..", chunk[0]), move |cc| {
            for prm in &chunk {
                let prm = *prm;
                let m = prm.m as u64;
                // items that fill the filter at different speeds
                let mut items: Vec<It> = vec![
                    It(0, 1), It(m / 2, 1), It(m - 1, 0), It(1, m + 1), It(3, u64::MAX), It(u64::MAX, 1 << 32), It(5, 2),
                ];
                items.sort_unstable();
                items.dedup();
                let items = Arc::new(items);
                let i2 = items.clone();
                let init = move || SSys::new(prm, i2.clone(), exact);
                explore(cc, &init, &Opts::new(t3(cc.tier, 5, 7, 8), t3(cc.tier, 4000, 40_000, 250_000))).map_err(|e| format!("{:?}: {}", prm, e))?;
            }
            Ok(())
        });
    }
    // long histories through many growth steps
    let mut v = Vec::new();
    for m in [1usize, 4, 7, 16, 50, 100, 1000] {
        for (p, g, tt) in [(0.5, 1.0, 0.9), (0.1, 2.0, 0.5), (0.01, 2.0, 0.9), (0.01, 1.3, 0.8), (0.05, 4.0, 0.5), (0.01, 1.0, 1e-4), (0.3, 0.3, 0.95), (0.3, 16.0, 0.02), (0.2, 33.0, 0.5), (0.05, 1.0, 0.995)] {
            v.push(SParams { m, p, g, t: tt });
        }
    }
    for prm in v {
        cs.add(format!("long {:?}", prm), move |cc| {
            if exact && prm.t < 0.001 {
                return Ok(()); // the tightened probability underflows: nothing is documented about the sizing
            }
            let n = t3(cc.tier, 160, 600, 1500);
            // each item twice, old items again later, then clear and again
            let mut ops = Vec::new();
            for round in 0..2u64 {
                for i in 0..n as u64 {
                    let x = It(splitmix(i * 2 + round), splitmix(i * 2 + 1 + round));
                    ops.push(Op::Insert(x));
                    ops.push(Op::Insert(x));
                    if i % 5 == 4 {
                        ops.push(Op::Insert(It(splitmix((i - 3) * 2 + round), splitmix((i - 3) * 2 + 1 + round))));
                    }
                }
                ops.push(Op::Clear);
            }
            let s = SSys::new(prm, Arc::new(vec![It(1, 2), It(splitmix(4), splitmix(5)), It(7, 9)]), exact);
            linear(cc, s, &ops, &None).map_err(|e| format!("{:?}: {}", prm, e))?;
            Ok(())
        });
    }
}

pub fn c04(cs: &mut Cases) {
    scalable(cs, false)
}

pub fn c05(cs: &mut Cases) {
    scalable(cs, true);
    let tier = cs.tier;
    // lengths of the components, growth ratios that miss a whole number by little
    for (k, g) in [1.0 + 1e-9, 1.01, 1.1, 1.2, 1.3, 1.4, 1.6, 1.7, 1.9, 1.1 + 1e-8, 2.0 - 1e-9, 2.0 + 1e-9, 2.3, 2.7, 3.3, 0.9, 0.7, 0.45, 0.1, 8.5, 16.1, 33.3, 100.7].into_iter().enumerate() {
        if k == 0 {
            cs.add("initial lengths that are powers of two", |cc| {
                for m in (0..=26).map(|k| 1usize << k).chain([1 << 32]) {
                    for p in [0.3, 0.01] {
                        let mut f = ScalableBloomFilter::<It, HB>::with_hashers(m, p, 2.0, 0.5, hb(MIX));
                        for _ in 0..2 {
                            if f.is_empty() || f.len() != m || f.count_ones() != 0 || f.count_zeros() != m || f.filter_count() != 1 {
                                return Err(format!("{} bits, probability {}: is_empty {}, {} ones and {} zeros of {}", m, p, f.is_empty(), f.count_ones(), f.count_zeros(), f.len()));
                            }
                            f.insert(&It(1, 1));
                            f.clear();
                            cc.transitions += 2;
                            cc.beat();
                        }
                        cc.states += 1;
                        cc.traces += 1;
                    }
                }
                Ok(())
            });
        }
        cs.add(format!("lengths under growth {}", g), move |cc| {
            let ms = (1..=t3(tier, 60usize, 240, 700)).chain(t3(tier, vec![1000, 1003, 20_003, 70_001], vec![1000, 1003, 20_003, 70_001, 300_007], vec![1000, 1003, 4099, 20_003, 70_001, 300_007, 1_000_003, 17_000_023]));
            for m in ms {
                let upto = if g > 5.0 { 2 } else { 4 };
                if g > 5.0 && m > 60 {
                    break;
                }
                let mut f = ScalableBloomFilter::<It, HB>::with_hashers(m, 0.5, g, 0.9, hb(MIX));
                let mut comps = vec![m];
                let mut n = 0u64;
                while comps.len() < upto {
                    f.insert(&It(splitmix(n), splitmix(n + (1 << 40))));
                    n += 1;
                    cc.transitions += 1;
                    let total: usize = comps.iter().sum();
                    if f.filter_count() > comps.len() {
                        let want = (*comps.last().unwrap() as f64 * g).ceil() as usize;
                        if f.filter_count() != comps.len() + 1 || f.len() != total + want {
                            return Err(format!("{} bits, growth {}: component {} adds {} bits, expected {}", m, g, comps.len() + 1, f.len() as i64 - total as i64, want));
                        }
                        comps.push(want);
                    } else if f.len() != total || f.count_ones() + f.count_zeros() != total {
                        return Err(format!("{} bits, growth {}: {} bits in {} components, expected {}", m, g, f.len(), comps.len(), total));
                    }
                    if n > 8 * comps.iter().sum::<usize>() as u64 + 1000 {
                        break; // everything is contained: the newest component no longer fills
                    }
                    if n % 1024 == 0 {
                        cc.beat();
                    }
                }
                cc.traces += 1;
                cc.state(&[k as u8, m as u8, (m >> 8) as u8, (m >> 16) as u8]);
            }
            Ok(())
        });
    }
    cs.add("default constructor", |cc| {
        for m in 1..200usize {
            for p in [0.5, 0.1, 0.01] {
                let f = ScalableBloomFilter::<u32>::new(m, p, 2.0, 0.5);
                let mut g = f.clone();
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(format!("{} {}", m, f.len()).as_bytes());
                if f.len() != m || f.filter_count() != 1 || f.count_ones() != 0 || f.count_zeros() != m || f.estimated_fpp() != 0.0 {
                    return Err(format!("new({}, {}): length {}, {} components", m, p, f.len(), f.filter_count()));
                }
                // as with the same hashers given explicitly
                let h = *f.hashers();
                let mut e = ScalableBloomFilter::<u32, _>::with_hashers(m, p, 2.0, 0.5, h);
                for i in 0..m as u32 {
                    g.insert(&i);
                    e.insert(&i);
                    cc.transitions += 1;
                    if g.filter_count() != e.filter_count() || g.len() != e.len() || g.count_ones() != e.count_ones() {
                        return Err(format!("new({}, {}) and with_hashers differ after {} insertions", m, p, i + 1));
                    }
                }
                cc.beat();
            }
        }
        Ok(())
    });
}
