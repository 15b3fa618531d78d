//! C13..C15: quotient filter.

use crate::engine::*;
use crate::items::*;
use probabilistic_collections::quotient::QuotientFilter;
use std::collections::BTreeSet;
use std::sync::Arc;

type F = QuotientFilter<It, HB>;

fn it(h: u64) -> It {
    It(h, !h)
}

#[derive(Clone, Debug)]
enum Op {
    Insert(u64),
    Remove(u64),
    /// Insertion of a new fingerprint into a full filter.
    Refused(u64),
    Clear,
}

#[derive(Clone)]
struct SQ {
    f: F,
    q: u8,
    r: u8,
    hashes: Arc<Vec<u64>>,
    set: BTreeSet<u64>,
    /// C14: accounting and refusal; C13: membership only.
    account: bool,
}

impl SQ {
    fn new(q: u8, r: u8, hashes: Arc<Vec<u64>>, account: bool) -> SQ {
        SQ { f: F::with_hasher(q, r, h0()), q, r, hashes, set: BTreeSet::new(), account }
    }
    fn fp(&self, h: u64) -> u64 {
        let w = u32::from(self.q) + u32::from(self.r);
        if w >= 64 { h } else { h & ((1 << w) - 1) }
    }
    fn cap(&self) -> usize {
        1 << self.q
    }
    fn check(&self) -> Result<(), String> {
        for h in self.hashes.iter() {
            let want = self.set.contains(&self.fp(*h));
            if self.f.contains(&it(*h)) != want {
                return Err(format!("contains({:#x}) = {} with fingerprints {:x?}", h, !want, self.set));
            }
        }
        if self.account {
            if self.f.len() != self.set.len() || self.f.is_empty() != self.set.is_empty() {
                return Err(format!("length {} (is_empty {}) with {} fingerprints", self.f.len(), self.f.is_empty(), self.set.len()));
            }
            if self.f.capacity() != self.cap() || self.f.quotient_bits() != self.q || self.f.remainder_bits() != self.r {
                return Err(format!("capacity {} for {} quotient bits", self.f.capacity(), self.q));
            }
        }
        Ok(())
    }
}

impl Sys for SQ {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let full = self.set.len() == self.cap();
        let mut v = vec![];
        for h in self.hashes.iter() {
            if !full || self.set.contains(&self.fp(*h)) {
                v.push(Op::Insert(*h));
            } else if self.account {
                v.push(Op::Refused(*h));
            }
        }
        v.extend(self.hashes.iter().map(|h| Op::Remove(*h)));
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Insert(h) => {
                let fp = self.fp(*h);
                if self.set.len() == self.cap() && !self.set.contains(&fp) {
                    return Ok(()); // only in shortened histories
                }
                self.f.insert(&it(*h));
                self.set.insert(fp);
            }
            Op::Refused(h) => {
                if self.set.len() < self.cap() || self.set.contains(&self.fp(*h)) {
                    return Ok(()); // only in shortened histories
                }
                let f = &mut self.f;
                if catch(|| f.insert(&it(*h))).is_ok() {
                    return Err(format!("inserting {:#x} into a full filter is accepted", h));
                }
            }
            Op::Remove(h) => {
                self.f.remove(&it(*h));
                let fp = self.fp(*h);
                self.set.remove(&fp);
            }
            Op::Clear => {
                self.f.clear();
                self.set.clear();
            }
        }
        self.check()
    }
    fn key(&self, o: &mut Vec<u8>) {
        bytes_of(&self.f, o);
        for x in &self.set {
            o.extend_from_slice(&x.to_le_bytes());
        }
    }
}

/// All fingerprints, plus some with other high bits.
fn all_hashes(q: u8, r: u8) -> Vec<u64> {
    let w = q + r;
    let mut v: Vec<u64> = (0..1u64 << w).collect();
    v.push((u64::MAX << w) | 1);
    v.push(1 << w);
    v
}

/// Fingerprints that make long clusters and wrap around, with extreme remainders.
fn sparse_hashes(q: u8, r: u8, n: usize) -> Vec<u64> {
    let top = (1u64 << r) - 1;
    let last = (1u64 << q) - 1;
    let mut v: Vec<u64> = vec![];
    for (quo, rem) in [
        (last, top), (last, 0), (0, 1), (0, top), (last, top / 2), (last / 2, 1 << (r - 1)), (1, 0), (1, top), (last.saturating_sub(1), top - 1),
        (0, 0), (last / 2, 0), (1, 1), (last / 2 + 1, top), (2 & last, 1),
    ] {
        let h = if r == 64 { rem } else { (quo & last) << r | rem };
        if !v.contains(&h) && v.len() < n {
            v.push(h);
        }
    }
    v
}

fn configs(tier: Tier, account: bool) -> Vec<(u8, u8, Vec<u64>, usize, usize, &'static str)> {
    let mut v: Vec<(u8, u8, Vec<u64>, usize, usize, &'static str)> = vec![];
    let big = 100_000;
    for r in 1..=t(tier, 4u8, 6) {
        v.push((1, r, all_hashes(1, r), 99, big, "complete"));
    }
    for r in 1..=t(tier, 2u8, 3) {
        v.push((2, r, all_hashes(2, r), 99, big, "complete"));
    }
    v.push((3, 1, all_hashes(3, 1), 99, big, "complete"));
    // quotients spread over one more bit: all fingerprints, limited states
    v.push((3, 2, all_hashes(3, 2), t(tier, 5, 7), t(tier, 20_000, 400_000), "all fingerprints"));
    if tier != Tier::Quick {
        v.push((4, 1, all_hashes(4, 1), 7, 400_000, "all fingerprints"));
    }
    for r in 1..=61u8 {
        for q in 1..=t(tier, 4u8, 6) {
            if q + r > 64 {
                continue;
            }
            let n = if q <= 2 { 8 } else { 10 };
            v.push((q, r, sparse_hashes(q, r, t(tier, n, n + 2)), t(tier, 30, 60), t3(tier, 1_200, 4000, 12_000), "boundary remainders"));
        }
    }
    let _ = account;
    v
}

fn run(cs: &mut Cases, account: bool) {
    let tier = cs.tier;
    for (q, r, hs, depth, limit, what) in configs(tier, account) {
        cs.add(format!("({}, {}) {}", q, r, what), move |cc| {
            let hs = Arc::new(hs.clone());
            let init = move || SQ::new(q, r, hs.clone(), account);
            let st = explore(cc, &init, &Opts::new(depth, limit)).map_err(|e| format!("quotient bits {}, remainder bits {}: {}", q, r, e))?;
            cc.count("closed_searches", st.closed as u64);
            Ok(())
        });
    }
    // large tables
    for (q, r) in [(8u8, 1u8), (9, 55), (15, 3), (16, 1), (16, 48), (17, 9), (18, 46), (20, 5), (22, 1)] {
        cs.add(format!("({}, {}) large", q, r), move |cc| {
            let top = (1u64 << r) - 1;
            let mut hs: Vec<u64> = sparse_hashes(q, r, 14);
            for k in 0..q {
                for d in [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << q) - (1 << k)] {
                    hs.push((d & ((1 << q) - 1)) << r | (d & top));
                    hs.push((d & ((1 << q) - 1)) << r | top);
                }
            }
            hs.extend((0..30).map(splitmix));
            // clusters around the middle and the power of two below it
            for i in 0..40u64 {
                hs.push(((1 << (q - 1)) - 20 + i / 2) << r | (i * 3 & top));
            }
            hs.sort_unstable();
            hs.dedup();
            let mut s = SQ::new(q, r, Arc::new(vec![]), account);
            s.hashes = Arc::new(hs.clone());
            let n = hs.len();
            let at = |i: usize, a: usize| hs[(i * a + 5) % n];
            let gcd = |mut a: usize, mut b: usize| { while b != 0 { let r = a % b; a = b; b = r; } a };
            let a = [7usize, 11, 13, 17, 19].into_iter().find(|a| gcd(*a, n) == 1).unwrap();
            let mut ops: Vec<Op> = (0..n).map(|i| Op::Insert(at(i, a))).collect();
            ops.extend((0..n).step_by(2).map(|i| Op::Remove(hs[i])));
            ops.extend((0..n).rev().map(|i| Op::Insert(hs[i])));
            ops.extend((0..n).map(|i| Op::Remove(at(i, a))));
            ops.push(Op::Insert(hs[n / 2]));
            ops.push(Op::Clear);
            ops.push(Op::Insert(hs[n / 2]));
            for (j, op) in ops.iter().enumerate() {
                cc.beat();
                cc.transitions += 1;
                cc.state(&[q, r, j as u8, (j >> 8) as u8]);
                catch(|| s.step(op)).unwrap_or_else(|p| Err(format!("panicked: {}", p))).map_err(|e| {
                    let e: String = e.chars().take(400).collect();
                    format!("quotient bits {}, remainder bits {}: {} | at operation {} ({:?})", q, r, e, j, op)
                })?;
            }
            cc.traces += 1;
            Ok(())
        });
    }
    // long histories that fill the table completely several times
    for q in 2..=t(tier, 7u8, 10) {
        for r in [1u8, 2, 3, 5, 8, 13, 29, 32, 53, 54] {
            cs.add(format!("({}, {}) long", q, r), move |cc| {
                for pattern in 0..4u64 {
                    let cap = 1u64 << q;
                    let w = (q + r).min(40);
                    // distinct fingerprints: spread, clustered at the end, one quotient only, random
                    let mut fps: Vec<u64> = vec![];
                    let mut seen = BTreeSet::new();
                    let mut i = 0u64;
                    while (fps.len() as u64) < cap + 2 && i < 20 * cap {
                        let h = match pattern {
                            0 => i.wrapping_mul(0x9E37_79B9) & ((1 << w) - 1),
                            1 => ((cap - 1 - i % 3) << r) | (i / 3) & ((1 << r) - 1),
                            2 => ((i % 2) * (cap / 2) << r) | splitmix(i) & ((1 << r) - 1),
                            _ => splitmix(i),
                        };
                        let fp = h & (u64::MAX >> (64 - q - r));
                        if seen.insert(fp) {
                            fps.push(h);
                        }
                        i += 1;
                    }
                    let n = fps.len();
                    let mut s = SQ::new(q, r, Arc::new(vec![]), account);
                    let probes: Vec<u64> = fps.iter().cloned().chain((0..20).map(|i| splitmix(i + 4242))).collect();
                    let mut ops = vec![];
                    for round in 0..t(cc.tier, 3usize, 6) {
                        for k in 0..n {
                            let h = fps[(k * 7 + round) % n];
                            ops.push(h);
                        }
                        for k in 0..n {
                            ops.push(!fps[(k * [3, 5, 11][round % 3] + round) % n] ^ 0);
                        }
                    }
                    // an operation is an insertion in the first half of a round, a removal in the second
                    for (j, o) in ops.iter().enumerate() {
                        let insert = (j / n) % 2 == 0;
                        let h = if insert { *o } else { !*o };
                        let op = if !insert {
                            Op::Remove(h)
                        } else if s.set.len() == s.cap() && !s.set.contains(&s.fp(h)) {
                            if !account {
                                continue;
                            }
                            Op::Refused(h)
                        } else {
                            Op::Insert(h)
                        };
                        cc.beat();
                        cc.transitions += 1;
                        // full membership check now and then, and always for the item itself
                        s.hashes = Arc::new(if j % 8 == 0 || q < 5 { probes.clone() } else { vec![h] });
                        catch(|| s.step(&op)).unwrap_or_else(|p| Err(format!("panicked: {}", p))).map_err(|e| {
                            format!("quotient bits {}, remainder bits {}, pattern {}: {} | after operation {} ({:?})", q, r, pattern, e, j, op)
                        })?;
                        if j % 4 == 0 {
                            let mut kb = vec![q, r];
                            for x in &s.set {
                                kb.extend_from_slice(&x.to_le_bytes());
                            }
                            cc.state(&kb);
                        }
                    }
                    cc.traces += 1;
                }
                Ok(())
            });
        }
    }
}

pub fn c13(cs: &mut Cases) {
    run(cs, false)
}

pub fn c14(cs: &mut Cases) {
    run(cs, true);
    // every width pair
    for q in 1..=63u8 {
        for r in 1..=64u8 {
            let sum = u32::from(q) + u32::from(r);
            if sum <= 64 && (q > 12 || (q > 4 && r % 7 != 3 && sum != 64)) {
                continue; // too large a table, or covered by the pairs kept
            }
            if sum <= 64 {
                let name = format!("width pair ({}, {})", q, r);
                cs.add(name, move |cc| {
                    cc.traces += 1;
                    cc.state(&[q, r]);
                    let hs = if r < 64 { sparse_hashes(q, r, 12) } else { vec![] };
                    let mut s = catch(|| SQ::new(q, r, Arc::new(hs.clone()), true)).map_err(|p| format!("construction panicked: {}", p))?;
                    let mut go = |op: Op| -> Result<(), String> {
                        cc.transitions += 1;
                        cc.beat();
                        catch(|| s.step(&op)).unwrap_or_else(|p| Err(format!("panicked: {}", p))).map_err(|e| format!("{:?}: {}", op, e))
                    };
                    for h in hs.iter() {
                        go(Op::Insert(*h))?;
                    }
                    for h in hs.iter().rev() {
                        go(Op::Remove(*h))?;
                    }
                    for h in hs.iter().rev() {
                        go(Op::Insert(*h))?;
                    }
                    go(Op::Clear)?;
                    for h in hs.iter() {
                        go(Op::Insert(*h))?;
                    }
                    Ok(())
                });
            }
        }
    }
    cs.add("refused width pairs", |cc| {
        for q in 0..=255u8 {
            for r in 0..=255u8 {
                let sum = u32::from(q) + u32::from(r);
                if q > 0 && r > 0 && sum <= 64 {
                    continue;
                }
                cc.transitions += 1;
                cc.state(&[q, r]);
                if catch(|| F::with_hasher(q, r, h0())).is_ok() || (r % 16 == 0 && catch(|| QuotientFilter::<u32>::new(q, r)).is_ok()) {
                    return Err(format!("({}, {}) is accepted", q, r));
                }
                cc.traces += 1;
            }
            cc.beat();
        }
        Ok(())
    });
    cs.add("default hasher", |cc| {
        for q in 1..=6u8 {
            for r in 1..=20u8 {
                let f = QuotientFilter::<u32>::new(q, r);
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(&[q, r]);
                if (f.quotient_bits(), f.remainder_bits(), f.capacity(), f.len(), f.is_empty()) != (q, r, 1 << q, 0, true) {
                    return Err(format!("new({}, {})", q, r));
                }
            }
        }
        Ok(())
    });
}

pub fn c15(cs: &mut Cases) {
    let tier = cs.tier;
    let mut ps = vec![0.999, 0.99, 0.95, 0.9, 0.75, 0.6, 0.5, 0.45, 0.4, 0.39, 0.35, 0.3, 0.25, 0.2, 0.1, 0.05, 0.02, 0.01, 0.003, 1e-3, 1e-4, 1e-5, 1e-6, 1e-9, 1e-12, 1e-15, 1e-16];
    for i in 1..t3(tier, 60, 600, 3000) {
        ps.push(i as f64 / t3(tier, 60.0, 600.0, 3000.0));
        ps.push(0.97f64.powi((i * t(tier, 10, 1)).min(1200)));
    }
    ps.sort_by(|a, b| b.partial_cmp(a).unwrap());
    ps.dedup();
    let ns: Vec<usize> = (1..=t3(tier, 130usize, 500, 3000)).chain([191, 192, 193, 255, 256, 257, 511, 512, 513, 769, 770, 1000, 1024, 4096, 49_275, 49_276, 65_536, 100_000]).collect();
    for chunk in ps.chunks(8) {
        let chunk = chunk.to_vec();
        let ns = ns.clone();
        cs.add(format!("fpp {}..", chunk[0]), move |cc| {
            for &p in &chunk {
                for &n in &ns {
                    for explicit in [true, false] {
                        if n > 3000 && (!explicit || p < 1e-3) {
                            continue;
                        }
                        // more bits than a 64-bit fingerprint has: may be refused
                        if (n as f64).log2().ceil() + (1.0 / p).log2().ceil() + 2.0 > 64.0 {
                            continue;
                        }
                        let what = format!("from_fpp({}, {})", n, p);
                        let r = if explicit {
                            catch(|| {
                                let f = F::from_fpp_with_hasher(n, p, h0());
                                (f.quotient_bits(), f.remainder_bits(), f.capacity(), f.len())
                            })
                        } else {
                            catch(|| {
                                let f = QuotientFilter::<u32>::from_fpp(n, p);
                                (f.quotient_bits(), f.remainder_bits(), f.capacity(), f.len())
                            })
                        };
                        cc.transitions += 1;
                        cc.traces += 1;
                        let (q, r, cap, len) = r.map_err(|e| format!("{} panicked: {}", what, e))?;
                        cc.state(&[q, r]);
                        if len != 0 || cap != 1usize << q || (cap as f64) < n as f64 * 1.33 * (1.0 - 1e-12) {
                            return Err(format!("{}: {} slots", what, cap));
                        }
                        // no wider than the load limit calls for
                        if cap as f64 / 2.0 >= n as f64 * 1.33 * (1.0 + 1e-12) {
                            return Err(format!("{}: {} slots are twice what is needed", what, cap));
                        }
                        if r > 1 && -(-(1.0 / 1.33) / 2f64.powi(i32::from(r) - 1)).exp_m1() < p * (1.0 - 1e-9) {
                            return Err(format!("{}: {} remainder bits are more than needed", what, r));
                        }
                        let est = -(-(n as f64 / cap as f64) / 2f64.powi(i32::from(r))).exp_m1();
                        if est > p * (1.0 + 1e-9) {
                            return Err(format!("{}: {} slots, {} remainder bits: estimate {} with {} items", what, cap, r, est, n));
                        }
                    }
                }
                cc.beat();
            }
            Ok(())
        });
    }
    // capacities on both sides of the load limit of every table size
    for bits in 1..=t3(tier, 26u32, 28, 30) {
        cs.add(format!("load limit of 2^{} slots", bits), move |cc| {
            let edge = ((1u64 << bits) as f64 / 1.33).floor() as usize;
            for n in edge.saturating_sub(2).max(1)..=edge + 2 {
                for p in [0.9, 0.3, 0.1, 0.01] {
                    let f = F::from_fpp_with_hasher(n, p, h0());
                    let want = (n as f64 * 1.33).log2().ceil() as u8;
                    cc.transitions += 1;
                    cc.traces += 1;
                    cc.state(&[bits as u8, f.quotient_bits(), f.remainder_bits()]);
                    // exact, as 133 * n / 100
                    let slots = |q: u8| 100u128 << q;
                    let need = 133 * n as u128;
                    if f.capacity() != 1 << f.quotient_bits() || slots(f.quotient_bits()) < need || (slots(f.quotient_bits()) / 2 >= need && f.quotient_bits() != want) {
                        return Err(format!("from_fpp({}, {}): {} slots", n, p, f.capacity()));
                    }
                    let est = -(-(n as f64 / f.capacity() as f64) / 2f64.powi(i32::from(f.remainder_bits()))).exp_m1();
                    if est > p * (1.0 + 1e-9) {
                        return Err(format!("from_fpp({}, {}): {} slots, {} remainder bits: estimate {}", n, p, f.capacity(), f.remainder_bits(), est));
                    }
                }
            }
            Ok(())
        });
    }
    // the estimate at every fill level, rising and falling
    for q in (1..=t3(tier, 6u8, 9, 12)).chain([17]) {
        for r in [1u8, 2, 3, 4, 7, 8, 16, 20, 31, 32, 33, 40, 52, 53, 57] {
            if q + r > 64 || q == 17 && r % 4 != 0 {
                continue;
            }
            cs.add(format!("estimate ({}, {})", q, r), move |cc| {
                let mut f = F::with_hasher(q, r, h0());
                let cap = 1u64 << q;
                let mut est = |f: &F, n: u64| {
                    cc.transitions += 1;
                    cc.beat();
                    cc.state(&[q, r, n as u8, (n >> 8) as u8]);
                    let want = -(-(n as f64 / cap as f64) / 2f64.powi(i32::from(r))).exp_m1();
                    let got = f.estimated_fpp();
                    if (got - want).abs() > 2e-15 + 1e-9 * want {
                        Err(format!("({}, {}) with {} of {} slots: estimated fpp {}, expected {}", q, r, n, cap, got, want))
                    } else {
                        Ok(())
                    }
                };
                est(&f, 0)?;
                for i in 0..cap {
                    f.insert(&it(i << r));
                    est(&f, i + 1)?;
                    f.insert(&it(i << r));
                    est(&f, i + 1)?;
                }
                for i in 0..cap {
                    f.remove(&it(i << r));
                    est(&f, cap - 1 - i)?;
                }
                f.insert(&it(0));
                f.clear();
                est(&f, 0)?;
                cc.traces += 1;
                Ok(())
            });
        }
    }
}
