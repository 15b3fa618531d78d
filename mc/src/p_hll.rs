//! C19..C21: HyperLogLog.

use crate::engine::*;
use crate::items::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::SipHasherBuilder;
use std::collections::BTreeSet;
use std::sync::Arc;

type F = HyperLogLog<It, HB>;

fn it(h: u64) -> It {
    It(h, h)
}

/// An error probability that asks for 2^p registers.
fn ep_for(p: u32) -> f64 {
    1.04 / 2f64.powf((f64::from(p) - 0.5) / 2.0)
}

/// Hash that lands in register `j` of 2^p with the given rank (1..=64-p+1).
fn hash_for(p: u32, j: u64, rank: u32) -> u64 {
    let top = 64 - p; // bits above the register index
    let w = rank - 1;
    let rest = if w >= top { u64::MAX >> p } else { (1u64 << w) - 1 | (if w + 1 < top { 0x5A5A_0000_0000_0000 << (w + 1) & (u64::MAX >> p) & !((1u64 << (w + 1)) - 1) } else { 0 }) };
    (rest << p) | j
}

/// Everything that can be seen of a counter: its estimate now, and after filling all registers
/// but one with high ranks (which makes the remaining one decide the estimate).
fn obs(f: &F, p: u32) -> Vec<f64> {
    let mut v = vec![f.len()];
    if p > 4 {
        return v;
    }
    let m = 1u64 << p;
    for rank in [12, 40, 64 - p] {
        for j in 0..m {
            let mut g = f.clone();
            for k in 0..m {
                if k != j {
                    g.insert(&it(hash_for(p, k, rank)));
                }
            }
            v.push(g.len());
            g.insert(&it(hash_for(p, j, 1)));
            v.push(g.len());
        }
    }
    v
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || close(*x, *y))
}

fn fresh(p: u32, set: &BTreeSet<u64>) -> F {
    let mut f = F::with_hasher(ep_for(p), h0());
    for h in set {
        f.insert(&it(*h));
    }
    f
}

fn alphabet(p: u32, n: usize) -> Vec<u64> {
    let m = 1u64 << p;
    let mut v: Vec<u64> = vec![];
    for h in [
        hash_for(p, 0, 1), hash_for(p, 0, 9), hash_for(p, m - 1, 2), u64::MAX, hash_for(p, 0, 64 - p), 0, hash_for(p, 1 % m, 33),
        hash_for(p, m - 1, 64 - p), u64::MAX << p, hash_for(p, m / 2, 3), u64::MAX >> 1, 1 << 63, hash_for(p, m / 2, 17),
    ] {
        if !v.contains(&h) && v.len() < n {
            v.push(h);
        }
    }
    v
}

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, u64),
    Merge(usize, usize),
    Clear(usize),
}

#[derive(Clone)]
struct SH {
    p: u32,
    fs: Vec<F>,
    sets: Vec<BTreeSet<u64>>,
    hashes: Arc<Vec<u64>>,
    clear: bool,
}

impl Sys for SH {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for k in 0..self.fs.len() {
            for h in self.hashes.iter() {
                v.push(Op::Insert(k, *h));
            }
            if self.clear {
                v.push(Op::Clear(k));
            }
            if self.fs.len() > 1 {
                v.extend((0..self.fs.len()).map(|j| Op::Merge(k, j)));
            }
        }
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        match *op {
            Op::Insert(k, h) => {
                let before = obs(&self.fs[k], self.p);
                self.fs[k].insert(&it(h));
                self.sets[k].insert(h);
                let after = obs(&self.fs[k], self.p);
                // a register that is lowered lowers the estimate that it decides
                for n in 1..before.len() {
                    if after[n] < before[n] * (1.0 - 1e-12) {
                        return Err(format!("an insertion lowers a register: the estimate with the other registers full falls from {} to {}", before[n], after[n]));
                    }
                }
            }
            Op::Merge(k, j) => {
                let o = self.fs[j].clone();
                if k == j {
                    self.fs[k].merge(&o);
                } else {
                    let (a, b) = if k < j {
                        let (x, y) = self.fs.split_at_mut(j);
                        (&mut x[k], &y[0])
                    } else {
                        let (x, y) = self.fs.split_at_mut(k);
                        (&mut y[0], &x[j])
                    };
                    a.merge(b);
                }
                let s = self.sets[j].clone();
                self.sets[k].extend(s);
            }
            Op::Clear(k) => {
                self.fs[k].clear();
                self.sets[k].clear();
            }
        }
        for (k, f) in self.fs.iter().enumerate() {
            let want = obs(&fresh(self.p, &self.sets[k]), self.p);
            let got = obs(f, self.p);
            if !same(&got, &want) {
                let n = got.iter().zip(&want).position(|(a, b)| !close(*a, *b)).unwrap_or(0);
                return Err(format!(
                    "counter {} with the distinct hashes {:x?} behaves unlike a fresh one with the same (estimate {} instead of {}{})",
                    k, self.sets[k], got[n], want[n], if n > 0 { ", after filling other registers" } else { "" }
                ));
            }
            if f.is_empty() != self.sets[k].is_empty() {
                return Err(format!("counter {}: is_empty {} with the distinct hashes {:x?}", k, f.is_empty(), self.sets[k]));
            }
            if !got.iter().all(|x| x.is_finite() && *x >= 0.0) || (got[0] == 0.0) != self.sets[k].is_empty() {
                return Err(format!("counter {}: estimate {} with the distinct hashes {:x?}", k, got[0], self.sets[k]));
            }
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        for (f, s) in self.fs.iter().zip(&self.sets) {
            bytes_of(f, o);
            for x in s {
                o.extend_from_slice(&x.to_le_bytes());
            }
            o.push(0xEE);
        }
    }
}

pub fn c19(cs: &mut Cases) {
    let tier = cs.tier;
    for p in 1..=4u32 {
        cs.add(format!("2^{} registers", p), move |cc| {
            let n = t3(tier, [9usize, 9, 8, 7], [12, 12, 11, 10], [14, 14, 13, 12])[p as usize - 1];
            let hs = Arc::new(alphabet(p, n));
            let init = move || SH { p, fs: vec![F::with_hasher(ep_for(p), h0())], sets: vec![BTreeSet::new()], hashes: hs.clone(), clear: true };
            let st = explore(cc, &init, &Opts::new(30, t3(tier, 600, 6000, 40_000))).map_err(|e| format!("{} registers: {}", 1 << p, e))?;
            cc.count("closed_searches", st.closed as u64);
            Ok(())
        });
    }
    // every single hash value class works and counts
    for p in 1..=t3(tier, 14u32, 18, 20) {
        cs.add(format!("2^{} registers, every rank", p), move |cc| {
            let m = 1u64 << p;
            let mut f = F::with_hasher(ep_for(p), h0());
            for rank in 1..=64 - p + 1 {
                for j in [0, 1, m / 2, m - 2 % m, m - 1].into_iter().filter(|j| *j < m).collect::<BTreeSet<_>>() {
                    for h in [hash_for(p, j, rank), hash_for(p, j, rank) | 1 << 63, hash_for(p, j, rank) & !(1 << 63)] {
                        f.clear();
                        if !f.is_empty() || f.len() != 0.0 {
                            return Err(format!("{} registers: not empty after clear", m));
                        }
                        f.insert(&it(h));
                        let one = f.len();
                        if f.is_empty() || !(one > 0.5) || !one.is_finite() {
                            return Err(format!("{} registers: estimate {} and is_empty {} after inserting hash {:#x}", m, one, f.is_empty(), h));
                        }
                        f.insert(&it(h));
                        if f.len().to_bits() != one.to_bits() {
                            return Err(format!("{} registers: a duplicate of {:#x} changes the estimate from {} to {}", m, h, one, f.len()));
                        }
                        cc.transitions += 2;
                        cc.state(&[p as u8, rank as u8, j as u8]);
                    }
                }
                cc.beat();
            }
            cc.traces += 1;
            Ok(())
        });
    }
    // large counters: clear, order and repetition
    for p in [15u32, 16, 17, 18, 20, 22, 24] {
        cs.add(format!("2^{} registers, clear and order", p), move |cc| {
            let m = 1u64 << p;
            let hs: Vec<u64> = (0..p)
                .flat_map(|k| [1 << k, m - (1 << k), (1 << k) - 1, m / 3 + (1 << k)])
                .chain((0..m).step_by(if p < 20 { 37 } else { 1009 }))
                .map(|j| hash_for(p, j % m, 1 + (j % 40) as u32))
                .collect();
            let (mut f, mut g) = (F::with_hasher(ep_for(p), h0()), F::with_hasher(ep_for(p), h0()));
            for h in &hs {
                f.insert(&it(*h));
            }
            for h in hs.iter().rev() {
                g.insert(&it(*h));
                g.insert(&it(*h));
            }
            let n = f.len();
            cc.transitions += 3 * hs.len() as u64;
            cc.beat();
            if !close(n, g.len()) || f.is_empty() {
                return Err(format!("{} registers: {} items are estimated as {} in one order and {} in another", m, hs.len(), n, g.len()));
            }
            for h in hs.iter().step_by(3) {
                f.insert(&it(*h));
            }
            if !close(n, f.len()) {
                return Err(format!("{} registers: duplicates change the estimate from {} to {}", m, n, f.len()));
            }
            f.clear();
            if !f.is_empty() || f.len() != 0.0 {
                return Err(format!("{} registers: {} after clear", m, f.len()));
            }
            for h in &hs {
                f.insert(&it(*h));
            }
            cc.transitions += hs.len() as u64;
            cc.traces += 3;
            cc.state(&[p as u8]);
            cc.beat();
            if !close(n, f.len()) {
                return Err(format!("{} registers: {} items are estimated as {}, and as {} after clear", m, hs.len(), n, f.len()));
            }
            Ok(())
        });
    }
    // long histories: order and repetition
    for p in [1u32, 2, 3, 4, 5, 6, 7, 8, 10] {
        cs.add(format!("2^{} registers, long", p), move |cc| {
            let n = t3(tier, 1500usize, 15_000, 60_000);
            let a: Vec<u64> = (0..n as u64).map(|i| splitmix(i * 3 + u64::from(p))).collect();
            let mut x = F::with_hasher(ep_for(p), h0());
            let mut y = F::with_hasher(ep_for(p), h0());
            let mut z = F::with_hasher(ep_for(p), h0());
            let mut last = 0.0;
            let mut set = BTreeSet::new();
            for (i, h) in a.iter().enumerate() {
                x.insert(&it(*h));
                x.insert(&it(a[i / 2]));
                set.insert(*h);
                cc.transitions += 2;
                cc.beat();
                if p <= 4 && i % 64 == 0 {
                    let (g, w) = (obs(&x, p), obs(&fresh(p, &set), p));
                    if !same(&g, &w) {
                        return Err(format!("{} registers: estimates after {} insertions depend on the history: {:?}, {:?}", 1 << p, i, &g[..3], &w[..3]));
                    }
                }
                // (the estimate itself may drop where linear counting ends)
                last = x.len();
                if !last.is_finite() || x.is_empty() {
                    return Err(format!("{} registers: estimate {} after {} insertions", 1 << p, last, i + 1));
                }
            }
            for i in 0..n {
                y.insert(&it(a[n - 1 - i]));
                z.insert(&it(a[(i * 7) % n]));
                z.insert(&it(a[n - 1 - i]));
            }
            cc.transitions += 3 * n as u64;
            cc.traces += 3;
            cc.state(&[p as u8]);
            if !close(y.len(), last) || !close(z.len(), last) {
                return Err(format!("{} registers: the same {} items in another order give {}, {} instead of {}", 1 << p, n, y.len(), z.len(), last));
            }
            Ok(())
        });
    }
}

pub fn c20(cs: &mut Cases) {
    let tier = cs.tier;
    for p in 1..=4u32 {
        for (fs, n) in [(2usize, 5usize), (3, 3)] {
            cs.add(format!("{} counters of 2^{} registers", fs, p), move |cc| {
                let n = n + t(tier, 0, 1);
                // shifted alphabets: different mixes of registers and ranks
                for shift in 0..t(tier, 2usize, 4) {
                    let all = alphabet(p, 13);
                    let hs = Arc::new((0..n).map(|i| all[(i + shift * 3) % all.len()]).collect::<Vec<u64>>());
                    let init = move || SH {
                        p,
                        fs: vec![F::with_hasher(ep_for(p), h0()); fs],
                        sets: vec![BTreeSet::new(); fs],
                        hashes: hs.clone(),
                        clear: true,
                    };
                    let st = explore(cc, &init, &Opts::new(30, t(tier, if p < 3 { 4000 } else if p == 3 { 1500 } else { 600 }, if p < 3 { 40_000 } else { 4000 })))
                        .map_err(|e| format!("{} registers: {}", 1 << p, e))?;
                    cc.count("closed_searches", st.closed as u64);
                }
                Ok(())
            });
        }
    }
    // larger counters: merges of overlapping and nested sets in every direction
    for p in [5u32, 6, 8, 10, 12] {
        cs.add(format!("2^{} registers, merges", p), move |cc| {
            let gen = |tag: u64, n: u64| -> BTreeSet<u64> { (0..n).map(|i| splitmix(i * 5 + tag)).collect() };
            let sets = [gen(1, 0), gen(1, 1), gen(1, 40), gen(2, 400), gen(1, 400), gen(3, 5000), [u64::MAX, 0, 1].into_iter().collect(), (0..1u64 << p).map(|j| hash_for(p, j, 30)).collect()];
            let cs: Vec<F> = sets.iter().map(|s| fresh(p, s)).collect();
            for a in 0..sets.len() {
                for b in 0..sets.len() {
                    let mut x = cs[a].clone();
                    x.merge(&cs[b]);
                    let u: BTreeSet<u64> = sets[a].union(&sets[b]).cloned().collect();
                    let w = fresh(p, &u);
                    cc.transitions += 1;
                    cc.traces += 1;
                    cc.state(&[a as u8, b as u8]);
                    if !close(x.len(), w.len()) || x.is_empty() != u.is_empty() {
                        return Err(format!("{} registers: merging sets of {} and {} items gives {}, counting the union {}", 1u64 << p, sets[a].len(), sets[b].len(), x.len(), w.len()));
                    }
                    if !close(cs[b].len(), fresh(p, &sets[b]).len()) {
                        return Err("the merged counter changed".into());
                    }
                    // saturating the union afterwards exposes all registers
                    for h in gen(9, 300) {
                        x.insert(&it(h));
                    }
                    let mut y = w;
                    for h in gen(9, 300) {
                        y.insert(&it(h));
                    }
                    if !close(x.len(), y.len()) {
                        return Err(format!("{} registers: a merged counter continues with {} instead of {}", 1u64 << p, x.len(), y.len()));
                    }
                    cc.beat();
                }
            }
            Ok(())
        });
    }
    // all registers alike but one, into counters that are untouched, filled lower, or filled but for one register
    for p in 2..=t3(tier, 8u32, 10, 12) {
        cs.add(format!("2^{} registers, merges of even contents", p), move |cc| {
            let m = 1u64 << p;
            let content = |v: u32, i: u64, w: u32| {
                let mut f = F::with_hasher(ep_for(p), h0());
                for j in 0..m {
                    let k = if j == i { w } else { v };
                    if k > 0 {
                        f.insert(&it(hash_for(p, j, k)));
                    }
                }
                f
            };
            let top = 64 - p + 1;
            for v in 1..=top {
                for w in (0..=top).filter(|w| p <= 4 || *w < 2 || *w + 1 >= top || w.abs_diff(v) < 2) {
                    for i in [0, m / 2, m - 1] {
                        let b = content(v, i, w);
                        for (va, ia, wa) in [(0, 0, 0), (0, i, 5), (v - 1, 0, 0), (v, i, 0), (1, m - 1, top)] {
                            let mut a = content(va, ia, wa);
                            let mut want = a.clone();
                            for j in 0..m {
                                let k = if j == i { w } else { v };
                                if k > 0 {
                                    want.insert(&it(hash_for(p, j, k)));
                                }
                            }
                            a.merge(&b);
                            cc.transitions += 1;
                            if !close(a.len(), want.len()) || a.is_empty() != want.is_empty() {
                                return Err(format!(
                                    "{} registers, all {} but register {}: {}; merged into all {} but register {}: {}: gives {}, counting the union {}",
                                    m, v, i, w, va, ia, wa, a.len(), want.len()
                                ));
                            }
                        }
                        cc.traces += 1;
                        cc.state(&[p as u8, v as u8, w as u8, i as u8]);
                    }
                }
                cc.beat();
            }
            Ok(())
        });
    }
    for p in [14u32, 16, 17, 18, 20, 22, 24] {
        cs.add(format!("2^{} registers, merges of few items", p), move |cc| {
            let m = 1u64 << p;
            // low registers, high registers, both, one per power of two, every 1000th
            let sets: Vec<BTreeSet<u64>> = [
                (0..9u64).collect::<Vec<u64>>(),
                (m - 9..m).collect(),
                (0..5).chain(m - 5..m).collect(),
                (0..p).map(|k| 1 << k).collect(),
                (0..p).map(|k| m - (1 << k)).collect(),
                (0..m).step_by(1000).collect(),
            ]
            .into_iter()
            .enumerate()
            .map(|(i, js)| js.into_iter().map(|j| hash_for(p, j, 1 + ((j + i as u64) % 20) as u32)).collect())
            .collect();
            let cs: Vec<F> = sets.iter().map(|s| fresh(p, s)).collect();
            let whole = p < 18 || cc.tier != Tier::Quick;
            for a in 0..sets.len() {
                for b in 0..sets.len() {
                    if !whole && (a + b) % 3 != 0 {
                        continue;
                    }
                    let mut x = cs[a].clone();
                    x.merge(&cs[b]);
                    let w = fresh(p, &sets[a].union(&sets[b]).cloned().collect());
                    cc.transitions += 1;
                    cc.traces += 1;
                    cc.state(&[a as u8, b as u8]);
                    cc.beat();
                    if !close(x.len(), w.len()) || x.is_empty() {
                        return Err(format!("{} registers: merging sets {} and {} gives {}, counting the union {}", m, a, b, x.len(), w.len()));
                    }
                }
            }
            // both halves are merged once everything is filled
            let (mut lo, mut hi) = (F::with_hasher(ep_for(p), h0()), F::with_hasher(ep_for(p), h0()));
            let mut all = F::with_hasher(ep_for(p), h0());
            for j in 0..m {
                let h = it(hash_for(p, j, 1 + (j % 7) as u32));
                if j < m / 2 {
                    lo.insert(&h);
                } else {
                    hi.insert(&h);
                }
                all.insert(&h);
            }
            cc.transitions += 2 * m;
            cc.beat();
            lo.merge(&hi);
            if !close(lo.len(), all.len()) {
                return Err(format!("{} registers: merging the two halves gives {}, counting all {}", m, lo.len(), all.len()));
            }
            hi.merge(&lo);
            if !close(hi.len(), all.len()) {
                return Err(format!("{} registers: merging the two halves again gives {}, counting all {}", m, hi.len(), all.len()));
            }
            Ok(())
        });
    }
    cs.add("refused merges", |cc| {
        for pa in 1..=12u32 {
            for pb in 1..=12u32 {
                for (n, hb2) in [h0(), HB { id: 1, mode: MIX }, HB { id: 0, mode: ROT }].into_iter().enumerate() {
                    for fill in 0..3u64 {
                        let mut a = F::with_hasher(ep_for(pa), h0());
                        let mut b = F::with_hasher(ep_for(pb), hb2);
                        for i in 0..fill * 40 {
                            a.insert(&it(splitmix(i)));
                            b.insert(&it(splitmix(i + 500)));
                        }
                        let ok = pa == pb && n == 0;
                        let (a0, b0) = (obs(&a, pa), b.len());
                        let mut bytes = vec![];
                        bytes_of(&a, &mut bytes);
                        let r = catch(|| a.merge(&b));
                        cc.transitions += 1;
                        cc.traces += 1;
                        cc.state(&[pa as u8, pb as u8, n as u8]);
                        if r.is_ok() != ok {
                            return Err(format!("merging 2^{} and 2^{} registers, hashers {:?} and {:?}: {}", pa, pb, h0(), hb2, if ok { "refused" } else { "accepted" }));
                        }
                        if !ok {
                            let mut after = vec![];
                            bytes_of(&a, &mut after);
                            if !same(&a0, &obs(&a, pa)) || bytes != after || !close(b0, b.len()) {
                                return Err(format!("a refused merge (2^{} and 2^{} registers, hashers {:?} and {:?}) changes the receiver", pa, pb, h0(), hb2));
                            }
                        }
                    }
                }
            }
            cc.beat();
        }
        let keys = [(0u64, 0u64), (0, 1), (1, 0), (1, 1), (u64::MAX, 0), (0, 1 << 32), (1 << 63, 1)];
        for x in keys {
            for y in keys {
                let mut a = HyperLogLog::<String>::with_hasher(0.1, SipHasherBuilder::from_seed(x.0, x.1));
                let mut b = HyperLogLog::<String>::with_hasher(0.1, SipHasherBuilder::from_seed(y.0, y.1));
                a.insert("a");
                b.insert("b");
                let before = a.len();
                cc.transitions += 1;
                cc.state(&[x.0 as u8, x.1 as u8, y.0 as u8, y.1 as u8, (y.1 >> 32) as u8, (x.0 >> 63) as u8]);
                if catch(|| a.merge(&b)).is_ok() != (x == y) {
                    return Err(format!("merging counters with the keys {:?} and {:?}", x, y));
                }
                if x != y && a.len().to_bits() != before.to_bits() {
                    return Err("a refused merge changes the receiver".into());
                }
            }
        }
        // independent default keys never match
        for _ in 0..20 {
            let mut a = HyperLogLog::<u32>::new(0.1);
            let b = HyperLogLog::<u32>::new(0.1);
            cc.transitions += 1;
            if catch(|| a.merge(&b)).is_ok() {
                return Err("counters with fresh default keys merge".into());
            }
        }
        Ok(())
    });
}

fn alpha(m: u64) -> f64 {
    match m {
        16 => 0.673,
        32 => 0.697,
        64 => 0.709,
        m => 0.7213 / (1.0 + 1.079 / m as f64),
    }
}

/// Reference estimate(s) of register contents: two at the switch point.
fn estimates(regs: &[u32]) -> Vec<f64> {
    let m = regs.len() as f64;
    let mut counts = [0u64; 70];
    for r in regs {
        counts[*r as usize] += 1;
    }
    let sum: f64 = (0..70).map(|r| counts[r] as f64 * 2f64.powi(-(r as i32))).sum();
    let raw = alpha(regs.len() as u64) * m * m / sum;
    let zeros = counts[0];
    let mut v = vec![];
    if raw <= 2.5 * m * (1.0 + 1e-9) && zeros > 0 {
        v.push(m * (m / zeros as f64).ln());
    }
    if raw >= 2.5 * m * (1.0 - 1e-9) || zeros == 0 {
        v.push(raw);
    }
    v
}

fn rank(p: u32, h: u64) -> u32 {
    let mut r = 1;
    let mut x = h >> p;
    let mut left = 64 - p;
    while left > 0 && x & 1 == 1 {
        r += 1;
        x >>= 1;
        left -= 1;
    }
    r
}

fn check_est(f: &F, regs: &[u32], what: &str) -> Result<(), String> {
    let got = f.len();
    let p = regs.len().trailing_zeros();
    let mut want = estimates(regs);
    if regs.iter().any(|r| *r == 64 - p + 1) {
        // the rank of a hash of ones only: all remaining bits, or one more than the word
        let alt: Vec<u32> = regs.iter().map(|r| if *r == 64 - p + 1 { 65 } else { *r }).collect();
        want.extend(estimates(&alt));
    }
    if !got.is_finite() || got < 0.0 || !want.iter().any(|w| (got - w).abs() <= 1e-8 * w.max(1e-3)) {
        return Err(format!("{}: estimate {}, expected {:?}", what, got, want));
    }
    Ok(())
}

fn build(p: u32, regs: &[u32]) -> F {
    let mut f = F::with_hasher(ep_for(p), h0());
    for (j, r) in regs.iter().enumerate() {
        if *r > 0 {
            f.insert(&it(hash_for(p, j as u64, *r)));
        }
    }
    f
}

pub fn c21(cs: &mut Cases) {
    let tier = cs.tier;
    for p in 1..=4u32 {
        let m = 1usize << p;
        let top = 64 - p + 1;
        let ranks: Vec<u32> = match (p, tier) {
            (1, _) => (0..=top).collect(),
            (2, Tier::Quick) => vec![0, 1, 2, 3, 5, 16, 31, 33, top - 1, top],
            (2, _) => (0..=20).chain([25, 31, 32, 33, 34, 40, 50, top - 1, top]).collect(),
            (3, Tier::Quick) => vec![0, 1, 4, 20, top],
            (3, _) => vec![0, 1, 2, 4, 20, 34, top],
            (_, Tier::Quick) => vec![0, 6],
            (_, _) => vec![0, 1, 30],
        };
        let chunks = ranks.len();
        for c in 0..chunks {
            let ranks = ranks.clone();
            cs.add(format!("2^{} registers, all contents over ranks {:?}, part {}", p, ranks, c), move |cc| {
                let k = ranks.len();
                let total = (k as u64).pow(m as u32 - 1);
                // permuting registers does not change the estimate: beyond 4 registers only
                // every content up to the order of the last ones
                let mut x = 0u64;
                while x < total {
                    let mut regs = vec![ranks[c]];
                    let mut y = x;
                    for _ in 1..m {
                        regs.push(ranks[(y % k as u64) as usize]);
                        y /= k as u64;
                    }
                    x += 1;
                    if m >= 8 && regs[1..].windows(2).any(|w| w[0] > w[1]) && x % 97 != 0 {
                        continue;
                    }
                    let f = build(p, &regs);
                    cc.transitions += regs.iter().filter(|r| **r > 0).count() as u64;
                    cc.traces += 1;
                    cc.states += 1;
                    check_est(&f, &regs, &format!("registers {:?}", regs))?;
                    if cc.traces % 256 == 0 {
                        cc.beat();
                    }
                }
                Ok(())
            });
        }
    }
    // larger counters: every number of touched registers, three rank mixes, several passes
    for p in 5..=t3(tier, 13u32, 16, 18) {
        cs.add(format!("2^{} registers, filling", p), move |cc| {
            let m = 1usize << p;
            for mix in 0..4u32 {
                let mut f = F::with_hasher(ep_for(p), h0());
                let mut regs = vec![0u32; m];
                let steps = 3 * m;
                let every = (steps / t(cc.tier, 300, 2000)).max(1);
                for i in 0..steps {
                    let j = (i * 5 + i / m) % m;
                    let r = match mix {
                        0 => 1 + (i / m) as u32,
                        1 => 1 + (splitmix(i as u64).trailing_ones()) % (64 - p),
                        2 => 20 + (i / m) as u32 * 10,
                        _ => 1 + (i as u32 / 3) % (64 - p + 1),
                    };
                    let h = hash_for(p, j as u64, r);
                    assert_eq!(rank(p, h), r);
                    f.insert(&it(h));
                    regs[j] = regs[j].max(r);
                    cc.transitions += 1;
                    let z = i + 1;
                    if i % every == 0 || z % m <= 1 || z % m == m - 1 {
                        cc.beat();
                        cc.state(&[mix as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8]);
                        check_est(&f, &regs, &format!("{} registers, mix {}, after {} insertions", m, mix, z))?;
                    }
                }
                cc.traces += 1;
            }
            Ok(())
        });
        // ordinary hashes; also beyond 2^32
        cs.add(format!("2^{} registers, mixed hashes", p), move |cc| {
            let m = 1usize << p;
            let mut f = F::with_hasher(ep_for(p), h0());
            let mut regs = vec![0u32; m];
            let n = t3(cc.tier, 12_000u64, 200_000, 2_000_000);
            for i in 0..n {
                let h = splitmix(i);
                f.insert(&it(h));
                let j = (h & (m as u64 - 1)) as usize;
                regs[j] = regs[j].max(rank(p, h));
                cc.transitions += 1;
                if i < 50 || i % 101 == 0 {
                    cc.beat();
                    cc.state(&i.to_le_bytes());
                    check_est(&f, &regs, &format!("{} registers after {} mixed hashes", m, i + 1))?;
                }
            }
            for level in 15..=64 - p {
                for j in 0..m {
                    f.insert(&it(hash_for(p, j as u64, level)));
                    regs[j] = regs[j].max(level);
                    if j % (m / 4) == 0 {
                        check_est(&f, &regs, &format!("{} registers, rank {} up to register {}", m, level, j))?;
                    }
                }
                cc.transitions += m as u64;
                cc.beat();
                check_est(&f, &regs, &format!("{} registers, all of rank {}", m, level))?;
            }
            cc.traces += 1;
            Ok(())
        });
    }
    // large counters: single registers at every power of two, blocks, everything
    for p in 14..=24u32 {
        cs.add(format!("2^{} registers, spread", p), move |cc| {
            let m = 1usize << p;
            let mut f = F::with_hasher(ep_for(p), h0());
            let mut regs = vec![0u32; m];
            let mut put = |f: &mut F, regs: &mut Vec<u32>, j: usize, r: u32| {
                f.insert(&it(hash_for(p, j as u64, r)));
                regs[j] = regs[j].max(r);
            };
            let mut n = 0u64;
            for k in 0..p as usize {
                for j in [1 << k, (1 << k) - 1, m - (1 << k), m - 1 - (1 << k), (1 << k) + m / 3] {
                    put(&mut f, &mut regs, j % m, 1 + (k as u32 * 3 + j as u32) % 40);
                    n += 1;
                }
                cc.beat();
                cc.state(&[k as u8]);
                if p < 18 || k % 6 == 5 {
                    check_est(&f, &regs, &format!("{} registers, {} hashes around powers of two", m, n))?;
                }
            }
            check_est(&f, &regs, &format!("{} registers, {} hashes around powers of two", m, n))?;
            let blocks = [(0, m / 8), (m / 2, m / 2 + m / 8), (m - m / 8, m), (0, m)];
            for (b, (lo, hi)) in blocks.into_iter().enumerate() {
                for j in lo..hi {
                    put(&mut f, &mut regs, j, 2 + b as u32 * 3 + (j % 3) as u32);
                }
                n += (hi - lo) as u64;
                cc.beat();
                check_est(&f, &regs, &format!("{} registers, blocks up to {}..{}", m, lo, hi))?;
            }
            for j in (0..m).step_by(7) {
                put(&mut f, &mut regs, j, 30);
            }
            check_est(&f, &regs, &format!("{} registers, every seventh of rank 30", m))?;
            cc.transitions += n + m as u64 / 7;
            cc.traces += 1;
            Ok(())
        });
    }
    // precision
    let mut eps: Vec<f64> = vec![0.999, 0.9, 0.75, 0.7, 0.6, 0.52, 0.5, 0.4, 0.3, 0.26, 0.25, 0.2, 0.1, 0.05, 0.03, 0.02, 0.01, 0.008, 0.005, 0.004, 0.003, 0.002, 1.5e-3];
    for i in 0..t(tier, 120, 1200) {
        eps.push(0.99f64 * t(tier, 0.95f64, 0.995).powi(i));
    }
    for p in 2..=t3(tier, 19u32, 23, 24) {
        let e = 1.04 / 2f64.powf(f64::from(p) / 2.0);
        eps.extend([e * 1.0001, e * 0.9999, e]);
    }
    eps.push(1.04 / 2f64.powf(11.6));
    // close to every step on both sides
    for k in 1..=23 {
        for d in [1e-7, 1e-9, 1e-11] {
            let e = 1.04 / 2f64.powf(f64::from(k) / 2.0);
            eps.extend([e * (1.0 - d), e * (1.0 + d)]);
        }
    }
    eps.retain(|e| *e < 1.0 && *e > 3.3e-4);
    for chunk in eps.chunks(12) {
        let chunk = chunk.to_vec();
        cs.add(format!("error probability {}..", chunk[0]), move |cc| {
            for &e in &chunk {
                let lens: [f64; 2] = [
                    catch(|| {
                        let mut f = F::with_hasher(e, h0());
                        f.insert(&it(12345));
                        f.len()
                    })
                    .map_err(|p| format!("with_hasher({}) panicked: {}", e, p))?,
                    catch(|| {
                        let mut f = HyperLogLog::<u32>::new(e);
                        f.insert(&12345);
                        f.len()
                    })
                    .map_err(|p| format!("new({}) panicked: {}", e, p))?,
                ];
                cc.transitions += 2;
                cc.traces += 2;
                cc.beat();
                for l in lens {
                    // m ln(m / (m - 1)) = 1 + 1 / (2 m) + ...
                    if !(l > 1.0 + 1e-9) {
                        return Err(format!("error probability {}: one item is estimated as {}", e, l));
                    }
                    let m = (1..=25u32)
                        .map(|k| 2f64.powi(k as i32))
                        .min_by(|a, b| {
                            let d = |m: f64| ((m * (m / (m - 1.0)).ln() - 1.0).ln() - (l - 1.0).ln()).abs();
                            d(*a).partial_cmp(&d(*b)).unwrap()
                        })
                        .unwrap();
                    cc.state(&m.to_le_bytes());
                    if 1.04 / m.sqrt() > e * (1.0 + 1e-12) || 1.04 / (m / 2.0).sqrt() <= e * (1.0 - 1e-12) {
                        return Err(format!("error probability {}: {} registers (one item is estimated as {}), standard error {}", e, m, l, 1.04 / m.sqrt()));
                    }
                }
            }
            Ok(())
        });
    }
    // (the estimate of one item no longer tells the number of registers here: which filters merge
    // does)
    cs.add("more than 2^24 registers", |cc| {
        for (e, p) in [(2.4e-4, 25), (1.3e-4, 26), (1e-4, 27)] {
            let edge = 1.04 / 2f64.powf(f64::from(p) / 2.0);
            let mut f = catch(|| F::with_hasher(e, h0())).map_err(|p| format!("with_hasher({}) panicked: {}", e, p))?;
            cc.beat();
            for x in [1u64, 2, 3] {
                f.insert(&it(x));
            }
            let one = f.len();
            cc.beat();
            if !((one - 3.0).abs() < 1e-5) {
                return Err(format!("error probability {}: three items are estimated as {}", e, one));
            }
            for (other, same) in [(edge * (1.0 + 1e-9), true), (edge * 2f64.sqrt() * (1.0 + 1e-9), false)] {
                let g = catch(|| F::with_hasher(other, h0())).map_err(|p| format!("with_hasher({}) panicked: {}", other, p))?;
                cc.beat();
                if catch(|| f.merge(&g)).is_ok() != same {
                    return Err(format!("error probabilities {} and {}: merging is {}", e, other, if same { "refused" } else { "accepted" }));
                }
                cc.transitions += 1;
                cc.traces += 1;
                cc.beat();
            }
            cc.states += 1;
        }
        Ok(())
    });
    cs.add("refused probabilities", |cc| {
        for e in [0.0, -0.0, 1.0, 1.0 + f64::EPSILON, 2.0, -0.1, -1.0, -1e-300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300] {
            cc.transitions += 2;
            cc.traces += 2;
            cc.states += 1;
            if catch(|| F::with_hasher(e, h0())).is_ok() || catch(|| HyperLogLog::<u32>::new(e)).is_ok() {
                return Err(format!("error probability {} is accepted", e));
            }
        }
        Ok(())
    });
}
