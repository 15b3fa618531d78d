//! Long histories: tens to hundreds of thousands of different items in one structure, far beyond
//! what the exhaustive searches reach, against the same oracles. Each history is fixed; every
//! operation is checked on its own item and older ones, the whole contents at checkpoints.

use crate::engine::*;
use crate::items::*;
use crate::p_bloom::{Ctor, RefBloom};
use crate::p_cuckoo::{class, full_fpp, Class, Geo, SP};
use crate::p_sketch::{mean, median_bias};
use crate::p_stream::{reference, Bits, DF, KINDS};
use probabilistic_collections::bloom::ScalableBloomFilter;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::{CuckooFilter, ScalableCuckooFilter};
use probabilistic_collections::quotient::QuotientFilter;
use std::collections::HashSet;

fn item(i: u64) -> It {
    It(splitmix(i), splitmix(i ^ 0x1357_0000_0000_0000))
}

/// Operations of one long history.
fn count(tier: Tier) -> u64 {
    t3(tier, 70_000, 150_000, 600_000)
}

/// Whether to check everything now.
fn checkpoint(i: u64) -> bool {
    let n = i + 1;
    n % 9973 == 0 || n.is_power_of_two() || (n - 1).is_power_of_two() && n > 1 || (n + 1).is_power_of_two() || n % 65_536 == 0
}

/// Earlier items to look at after inserting item `i`.
fn older(i: u64) -> [u64; 5] {
    [i, i / 2, i.saturating_sub(65_536), i.saturating_sub(256), i.wrapping_mul(7919) % (i + 1)]
}

fn tick(cc: &mut CC, i: u64) {
    cc.transitions += 1;
    if i % 64 == 0 {
        cc.beat();
    }
    if checkpoint(i) {
        cc.state(&i.to_le_bytes());
    }
}

pub fn bloom(cs: &mut Cases, exact: bool) {
    let n = count(cs.tier) as usize;
    let ctors = [
        Ctor::BNew(n, 0.01), Ctor::BItems(10 * n, 2 * n), Ctor::BItems(500, 300), Ctor::BFpp(4 * n + 1, 0.1),
        Ctor::PItems(n, 0.01), Ctor::PBits(2 * n + 3, 0.1), Ctor::PBits(301, 0.2),
    ];
    for c in ctors {
        cs.add(format!("endurance {:?}", c), move |cc| {
            let mut f = c.build();
            let mut bits = vec![false; f.len()];
            let mut ones = 0;
            for round in 0..2 {
                for i in 0..n as u64 {
                    let x = item(i);
                    f.insert(&x);
                    if exact {
                        for p in f.probes(&x) {
                            ones += !bits[p] as usize;
                            bits[p] = true;
                        }
                    }
                    tick(cc, i);
                    for j in older(i) {
                        if !f.contains(&item(j)) {
                            return Err(format!("{:?}: false negative for item {} after {} insertions", c, j, i + 1));
                        }
                    }
                    if exact {
                        let q = item(i + (1 << 40));
                        let want = f.probes(&q).iter().all(|p| bits[*p]);
                        if f.contains(&q) != want {
                            return Err(format!("{:?}: contains({:?}) = {} after {} insertions, its bits say {}", c, q, !want, i + 1, want));
                        }
                        if checkpoint(i) || f.len() < 1000 && i % 8 == 0 {
                            if f.ones() != ones || f.zeros() != f.len() - ones || f.is_empty() {
                                return Err(format!("{:?}: {} ones and {} zeros after {} insertions, expected {} ones", c, f.ones(), f.zeros(), i + 1, ones));
                            }
                            let e = (ones as f64 / f.len() as f64).powf(f.k() as f64);
                            if !close_rel(f.fpp(), e) {
                                return Err(format!("{:?}: estimated fpp {} after {} insertions, expected {}", c, f.fpp(), i + 1, e));
                            }
                        }
                    }
                }
                for i in 0..n as u64 {
                    if !f.contains(&item(i)) {
                        return Err(format!("{:?}: false negative for item {} at the end", c, i));
                    }
                }
                if round == 0 {
                    f.clear();
                    bits.iter_mut().for_each(|b| *b = false);
                    ones = 0;
                    if f.ones() != 0 || exact && (0..n as u64).any(|i| f.contains(&item(i))) {
                        return Err(format!("{:?}: clear leaves bits after {} insertions", c, n));
                    }
                }
            }
            cc.traces += 1;
            Ok(())
        });
    }
}

pub fn scalable_bloom(cs: &mut Cases, exact: bool) {
    let n = count(cs.tier);
    for (m, p, g, tt) in [(1000usize, 0.01, 2.0, 0.5), (2000, 0.05, 1.0, 0.999), (70_000, 0.01, 2.0, 0.9), (17, 0.3, 1.3, 0.9), (64, 0.01, 1.0, 0.97), (90, 1e-4, 1.0, 1.0)] {
        cs.add(format!("endurance {} {} {} {}", m, p, g, tt), move |cc| {
            // (many components: every operation looks at all of them)
            let n = if m < 100 && g == 1.0 { n.min(t3(cc.tier, 2_000, 3_000, 8_000)) } else { n };
            let mut f = ScalableBloomFilter::<It, HB>::with_hashers(m, p, g, tt, hb(MIX));
            let mut refs: Vec<(RefBloom, usize)> = vec![(RefBloom::from_fpp(m, p), 0)];
            for i in 0..n {
                let x = item(i);
                f.insert(&x);
                tick(cc, i);
                for j in older(i) {
                    if !f.contains(&item(j)) {
                        return Err(format!("false negative for item {} after {} insertions ({} components)", j, i + 1, f.filter_count()));
                    }
                }
                if !exact {
                    continue;
                }
                if !refs.iter().any(|r| r.0.contains(&x)) {
                    let l = refs.last_mut().unwrap();
                    for q in l.0.probes(&x).collect::<Vec<_>>() {
                        l.1 += !l.0.bits[q] as usize;
                        l.0.bits[q] = true;
                    }
                }
                let l = refs.last().unwrap();
                if l.1 * 2 >= l.0.m {
                    let m = (l.0.m as f64 * g).ceil() as usize;
                    let k = refs.len() as i32;
                    refs.push((RefBloom::from_fpp(m, p * tt.powi(k)), 0));
                }
                if f.filter_count() != refs.len() {
                    return Err(format!("{} components after {} insertions, expected {}", f.filter_count(), i + 1, refs.len()));
                }
                let q = item(i + (1 << 40));
                let want = refs.iter().any(|r| r.0.contains(&q));
                if f.contains(&q) != want {
                    return Err(format!("contains({:?}) = {} after {} insertions, the components say {}", q, !want, i + 1, want));
                }
                if checkpoint(i) {
                    let len: usize = refs.iter().map(|r| r.0.m).sum();
                    let ones: usize = refs.iter().map(|r| r.1).sum();
                    if f.len() != len || f.count_ones() != ones || f.count_zeros() != len - ones || f.is_empty() {
                        return Err(format!(
                            "length {}, {} ones, {} zeros after {} insertions; expected {}, {}, {}",
                            f.len(), f.count_ones(), f.count_zeros(), i + 1, len, ones, len - ones
                        ));
                    }
                    let e = 1.0 - refs.iter().map(|r| 1.0 - (r.1 as f64 / r.0.m as f64).powf(r.0.k as f64)).product::<f64>();
                    if (f.estimated_fpp() - e).abs() > 1e-9 {
                        return Err(format!("estimated fpp {} after {} insertions, expected {}", f.estimated_fpp(), i + 1, e));
                    }
                }
            }
            for i in 0..n {
                if !f.contains(&item(i)) {
                    return Err(format!("false negative for item {} at the end ({} components)", i, f.filter_count()));
                }
            }
            cc.traces += 1;
            Ok(())
        });
    }
}

/// C06: an item is contained right after its insertion, however long the stream; counts add up.
pub fn stream(cs: &mut Cases) {
    let n = count(cs.tier);
    for kind in KINDS {
        for (m, p) in [(1000usize, 0.1), (9, 0.3), (70_001, 0.1), (64, 0.9)] {
            cs.add(format!("endurance {:?} {} {}", kind, m, p), move |cc| {
                let mut f = DF::new(kind, m, p);
                for i in 0..n {
                    let x = item(if i % 3 == 2 { i / 2 } else { i });
                    f.insert(&x);
                    tick(cc, i);
                    if !f.contains(&x) {
                        return Err(format!("item not contained right after insertion number {}", i + 1));
                    }
                    if checkpoint(i) || m < 100 && i % 16 == 0 {
                        if f.ones() + f.zeros() != f.len() || f.len() != m * f.k() || f.ones() < f.k() || f.is_empty() {
                            return Err(format!("{} ones and {} zeros of {} bits after {} insertions", f.ones(), f.zeros(), f.len(), i + 1));
                        }
                    }
                }
                f.clear();
                if f.ones() != 0 || (0..1000).any(|i| f.contains(&item(i))) {
                    return Err(format!("clear leaves bits after {} insertions", n));
                }
                cc.traces += 1;
                Ok(())
            });
        }
    }
}

/// C07: along a long stream every step is one of the steps the documented rule allows, and within
/// each stretch of the stream every such step that is likely enough is taken (one partition, so
/// that every bit is visible).
pub fn stream_rule(cs: &mut Cases) {
    let n = count(cs.tier);
    for kind in KINDS {
        for m in [3usize, 8, 16] {
            cs.add(format!("endurance {:?} {} bits, 1 partition", kind, m), move |cc| {
                let mut f = DF::new(kind, m, 0.9);
                if f.k() != 1 {
                    return Ok(());
                }
                let u: Vec<It> = (0..m as u64).map(|b| It(b, 0)).collect();
                let see = |f: &DF| -> Bits { u.iter().map(|x| f.contains(x)).collect() };
                let mut bits = see(&f);
                // (bit lost, insertions that could have lost it) within the stretch
                let (mut lost, mut could) = (vec![0u64; m], vec![0.0f64; m]);
                for i in 0..n {
                    // the first item the filter does not report, in an order that changes
                    let s = splitmix(i) % m as u64;
                    let x = (0..m as u64).map(|d| It((s + d * (1 + i % 2)) % m as u64, 0)).find(|x| i % 5 == 4 || !f.contains(x)).unwrap_or(u[0]);
                    let had = f.contains(&x);
                    f.insert(&x);
                    tick(cc, i);
                    let now = see(&f);
                    if had {
                        if now != bits {
                            return Err(format!("insertion number {} repeats a contained item but changes {:?} to {:?}", i + 1, bits, now));
                        }
                        continue;
                    }
                    let out = reference(kind, &bits, &x, m, 1);
                    if !out.iter().any(|(b, _)| *b == now) {
                        return Err(format!("insertion number {} of {:?} takes {:?} to {:?}, which no draw allows", i + 1, x, bits, now));
                    }
                    for b in 0..m {
                        could[b] += out.iter().filter(|(o, _)| bits[b] && !o[b]).map(|(_, w)| w).sum::<f64>();
                        lost[b] += (bits[b] && !now[b]) as u64;
                    }
                    bits = now;
                    // 400 expected losses of a bit and not one: beyond chance
                    for b in 0..m {
                        if could[b] > 400.0 {
                            if lost[b] == 0 {
                                return Err(format!("bit {} was never evicted in a stretch up to insertion number {}", b, i + 1));
                            }
                            if i % 4 == 0 {
                                lost[b] = 0;
                                could[b] = 0.0;
                            }
                        }
                    }
                }
                cc.traces += 1;
                Ok(())
            });
        }
    }
}

/// C08 / C09: a large table filled, half emptied and filled again; a small one used for long.
pub fn cuckoo(cs: &mut Cases, exact: bool) {
    let n = count(cs.tier);
    let cap = (n as usize * 10 / 9 / 4).next_power_of_two();
    for g in [
        Geo { nb: cap, b: 4, f: 24, mode: MIX },
        Geo { nb: cap * 2, b: 2, f: 40, mode: MIX },
        Geo { nb: cap / 2, b: 8, f: 13, mode: MIX },
        Geo { nb: 1 << 10, b: 4, f: 31, mode: MIX },
    ] {
        cs.add(format!("endurance {:?}", g), move |cc| {
            let mut f: CuckooFilter<It, HB> = g.build();
            let mut set: HashSet<Class> = HashSet::new();
            let n = n.min((g.nb * g.b) as u64 * 9 / 10);
            let mut owned: HashSet<u64> = HashSet::new();
            let mut step = 0u64;
            let rounds = if g.nb <= 1 << 10 { t(cc.tier, 12u64, 60) } else { 2 };
            for round in 0..rounds {
                for i in 0..n {
                    let i = i + round * n / 2;
                    let x = item(i);
                    let had = f.contains(&x);
                    let want = set.contains(&class(&x, &g));
                    if exact && had != want {
                        return Err(format!("contains(item {}) = {} before step {}, stored is {}", i, had, step, want));
                    }
                    f.insert(&x);
                    if !had {
                        owned.insert(i);
                    }
                    set.insert(class(&x, &g));
                    tick(cc, step);
                    step += 1;
                    if !f.contains(&x) {
                        return Err(format!("item {} not contained right after its insertion, step {}", i, step));
                    }
                    let l = f.len() + f.extra_items_len();
                    if exact && (l != set.len() || f.is_empty()) {
                        return Err(format!("{} entries at step {}, {} distinguishable items are stored", l, step, set.len()));
                    }
                }
                for i in &owned {
                    if !f.contains(&item(*i)) {
                        return Err(format!("item {} lost by step {} ({} entries, {} extra)", i, step, f.len(), f.extra_items_len()));
                    }
                }
                if exact && f.extra_items_len() > 0 && set.len() * 10 <= g.nb * g.b * 9 && g.b >= 4 {
                    return Err(format!("{} overflow entries at a load of {} of {}", f.extra_items_len(), set.len(), g.nb * g.b));
                }
                let half: Vec<u64> = { let mut v: Vec<u64> = owned.iter().cloned().filter(|i| *i < (round + 1) * n / 2).collect(); v.sort_unstable(); v };
                for i in half {
                    let x = item(i);
                    f.remove(&x);
                    owned.remove(&i);
                    set.remove(&class(&x, &g));
                    tick(cc, step);
                    step += 1;
                    let l = f.len() + f.extra_items_len();
                    if exact && (l != set.len() || f.is_empty() != (l == 0) || f.contains(&x)) {
                        return Err(format!("{} entries after removing item {} at step {}, {} are stored", l, i, step, set.len()));
                    }
                }
            }
            for i in &owned {
                if !f.contains(&item(*i)) {
                    return Err(format!("item {} lost at the end", i));
                }
            }
            f.clear();
            if f.len() != 0 || f.extra_items_len() != 0 || owned.iter().any(|i| f.contains(&item(*i))) {
                return Err("clear leaves entries".into());
            }
            cc.traces += 1;
            Ok(())
        });
    }
}

/// C08 / C09: thousands of fingerprints in the overflow list of a small table.
pub fn cuckoo_overflow(cs: &mut Cases, exact: bool) {
    for g in [Geo { nb: 1, b: 1, f: 40, mode: MIX }, Geo { nb: 4, b: 2, f: 24, mode: MIX }, Geo { nb: 64, b: 4, f: 33, mode: MIX }] {
        cs.add(format!("long overflow {:?}", g), move |cc| {
            let n = t(cc.tier, 1_500u64, 70_000 / (g.nb * g.b).min(8) as u64);
            let mut f: CuckooFilter<It, HB> = g.build();
            let mut set: HashSet<Class> = HashSet::new();
            let mut owned: Vec<u64> = vec![];
            let see = |f: &CuckooFilter<It, HB>, owned: &[u64], set: &HashSet<Class>| -> Result<(), String> {
                if let Some(i) = owned.iter().find(|i| !f.contains(&item(**i))) {
                    return Err(format!("item {} lost ({} entries, {} extra)", i, f.len(), f.extra_items_len()));
                }
                let l = f.len() + f.extra_items_len();
                if exact && (l != set.len() || f.is_empty()) {
                    return Err(format!("{} entries and {} extra, {} distinguishable items are stored", f.len(), f.extra_items_len(), set.len()));
                }
                Ok(())
            };
            for i in 0..n {
                let x = item(i);
                if !f.contains(&x) {
                    owned.push(i);
                }
                f.insert(&x);
                set.insert(class(&x, &g));
                tick(cc, i);
                for j in older(i) {
                    if !f.contains(&item(j)) {
                        return Err(format!("item {} is not contained after {} insertions", j, i + 1));
                    }
                }
                if checkpoint(i) {
                    see(&f, &owned, &set)?;
                }
            }
            see(&f, &owned, &set)?;
            // from the front, the back and the middle of the list
            for step in 0..n / 2 {
                let at = match step % 3 {
                    0 => 0,
                    1 => owned.len() - 1,
                    _ => owned.len() / 2,
                };
                let x = item(owned.remove(at));
                let l = f.len() + f.extra_items_len();
                f.remove(&x);
                set.remove(&class(&x, &g));
                tick(cc, step);
                if exact && (f.contains(&x) || f.len() + f.extra_items_len() + 1 != l) {
                    return Err(format!("{} entries and {} extra after removing one of {}", f.len(), f.extra_items_len(), l));
                }
                if checkpoint(step) {
                    see(&f, &owned, &set)?;
                }
            }
            see(&f, &owned, &set)?;
            f.clear();
            if f.len() != 0 || f.extra_items_len() != 0 || owned.iter().any(|i| f.contains(&item(*i))) {
                return Err("clear leaves entries".into());
            }
            cc.traces += 1;
            Ok(())
        });
    }
}

/// C11 / C12: many components, large components.
pub fn scalable_cuckoo(cs: &mut Cases, exact: bool) {
    let n = count(cs.tier);
    for sp in [
        SP { n: 1000, p: 0.001, b: 4, g: 2.0, t: 0.5, mode: MIX },
        SP { n: 250, p: 0.001, b: 4, g: 1.0, t: 0.9999, mode: MIX },
        SP { n: 100_000, p: 0.0001, b: 4, g: 2.0, t: 0.9, mode: MIX },
    ] {
        cs.add(format!("endurance {:?}", sp), move |cc| {
            let mut f: ScalableCuckooFilter<It, HB> = sp.build();
            // per component: geometry, classes, and where its items begin
            let mut comps: Vec<(Geo, HashSet<Class>)> = vec![(sp.geo(sp.n, 0), HashSet::new())];
            let mut owned: Vec<u64> = vec![];
            for i in 0..n {
                let x = item(i);
                let had = f.contains(&x);
                let want = comps.iter().any(|c| c.1.contains(&class(&x, &c.0)));
                if exact && had != want {
                    return Err(format!("contains(item {}) = {}, the components say {}", i, had, want));
                }
                f.insert(&x);
                if !had {
                    owned.push(i);
                }
                tick(cc, i);
                for j in [owned.len() - 1, owned.len() / 2, owned.len().saturating_sub(65_536)] {
                    if !f.contains(&item(owned[j])) {
                        return Err(format!("item {} is not contained after {} insertions ({} components)", owned[j], i + 1, f.filter_count()));
                    }
                }
                if !exact {
                    continue;
                }
                let l = comps.last_mut().unwrap();
                if !want {
                    let c = class(&x, &l.0);
                    l.1.insert(c);
                }
                let (stored, cap) = (l.1.len(), l.0.nb * l.0.b);
                let grown = f.filter_count() as i64 - comps.len() as i64;
                // with four entries per bucket relocation fails only in a nearly full table
                if grown < 0 || grown > 1 || (grown == 1 && stored * 10 < cap * 6) || (grown == 0 && stored >= cap) {
                    return Err(format!("{} components after {} insertions, before: {}; the newest has {} of {}", f.filter_count(), i + 1, comps.len(), stored, cap));
                }
                if grown == 1 {
                    let g = sp.geo((cap as f64 * sp.g).ceil() as usize, comps.len());
                    comps.push((g, HashSet::new()));
                }
                if f.len() != comps.iter().map(|c| c.1.len()).sum::<usize>() || f.is_empty() {
                    return Err(format!("length {} after {} insertions, components have {}", f.len(), i + 1, comps.iter().map(|c| c.1.len()).sum::<usize>()));
                }
                if checkpoint(i) || grown == 1 {
                    let cap: usize = comps.iter().map(|c| c.0.nb * c.0.b).sum();
                    if f.capacity() != cap {
                        return Err(format!("capacity {} after {} insertions, components have {}", f.capacity(), i + 1, cap));
                    }
                    // overflow lists hold at most one entry each
                    let est = |e: usize| {
                        1.0 - comps.iter().enumerate().map(|(k, c)| {
                            let s = c.1.len() - if k + 1 < comps.len() { e.min(c.1.len()) } else { 0 };
                            1.0 - full_fpp(c.0.f, c.0.b as f64 * s as f64 / (c.0.nb * c.0.b) as f64)
                        }).product::<f64>()
                    };
                    let got = f.estimated_fpp();
                    if got < est(1) - 1e-10 || got > est(0) + 1e-10 {
                        return Err(format!("estimated fpp {} after {} insertions, expected {} to {}", got, i + 1, est(1), est(0)));
                    }
                }
            }
            for i in &owned {
                if !f.contains(&item(*i)) {
                    return Err(format!("item {} lost at the end ({} components)", i, f.filter_count()));
                }
            }
            // removing what was inserted first
            for (j, i) in owned.iter().enumerate().take(owned.len() / 2) {
                let x = item(*i);
                // (only an item that one component alone reports)
                if comps.iter().filter(|c| c.1.contains(&class(&x, &c.0))).count() != 1 {
                    continue;
                }
                let l = f.len();
                f.remove(&x);
                cc.transitions += 1;
                if j % 64 == 0 {
                    cc.beat();
                }
                if exact && (f.len() + 1 != l || f.contains(&x)) {
                    return Err(format!("length {} after {}, removing item {}", f.len(), l, i));
                }
            }
            for i in &owned[owned.len() / 2..] {
                if !f.contains(&item(*i)) {
                    return Err(format!("item {} lost while others were removed ({} components)", i, f.filter_count()));
                }
            }
            cc.traces += 1;
            Ok(())
        });
    }
}

/// C13 / C14: one cluster of tens of thousands of slots, of short runs or of one long run, that may
/// go round the end of the table.
pub fn quotient_cluster(cs: &mut Cases, account: bool) {
    for (start, step) in [(0u64, 1u64), (1 << 16, 1), (100_000, 1), (5, 2)] {
        cs.add(format!("cluster from slot {} every {}", start, step), move |cc| {
            let (q, r) = (17u8, 20u8);
            let cap = 1u64 << q;
            let n = 67_000u64 / step;
            let fp = |k: u64, rem: u64| ((start + k * step) % cap) << r | rem;
            let it = |h: u64| It(h, !h);
            let mut f = QuotientFilter::<It, HB>::with_hasher(q, r, h0());
            let mut set: HashSet<u64> = HashSet::new();
            let add = |f: &mut QuotientFilter<It, HB>, set: &mut HashSet<u64>, h: u64| {
                f.insert(&it(h));
                set.insert(h);
            };
            // from the back, so that each takes its own slot; then one more at the front moves all of them on
            for k in (0..n).rev() {
                for j in (0..step).rev() {
                    add(&mut f, &mut set, fp(k, 8 + j * 8));
                }
                tick(cc, k);
            }
            add(&mut f, &mut set, fp(0, 9));
            add(&mut f, &mut set, fp(0, 7));
            add(&mut f, &mut set, fp(n / 2, 3));
            let ks: Vec<u64> = (0..40u64).map(|i| i * n / 40).chain([1, 2, 255, 256, 257, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, n - 2, n - 1]).filter(|k| *k < n).collect();
            let see = |cc: &mut CC, f: &QuotientFilter<It, HB>, set: &HashSet<u64>, when: &str| -> Result<(), String> {
                for k in &ks {
                    for rem in [8, 7, 9, 16, 3] {
                        let h = fp(*k, rem);
                        cc.transitions += 1;
                        if f.contains(&it(h)) != set.contains(&h) {
                            return Err(format!("{}: contains(quotient number {}, remainder {}) = {} in a cluster of {} slots", when, k, rem, !set.contains(&h), set.len()));
                        }
                    }
                    cc.beat();
                }
                let h = fp(n, 8);
                if f.contains(&it(h)) != set.contains(&h) {
                    return Err(format!("{}: a quotient behind the cluster is contained", when));
                }
                if account && (f.len() != set.len() || f.is_empty() != set.is_empty()) {
                    return Err(format!("{}: length {}, {} fingerprints", when, f.len(), set.len()));
                }
                Ok(())
            };
            see(cc, &f, &set, "filled")?;
            for (i, k) in ks.iter().enumerate() {
                if i % 2 == 0 {
                    f.remove(&it(fp(*k, 8)));
                    set.remove(&fp(*k, 8));
                } else {
                    add(&mut f, &mut set, fp(*k, 9));
                    add(&mut f, &mut set, fp(*k, 7));
                }
                tick(cc, i as u64);
                cc.beat();
            }
            see(cc, &f, &set, "after removals and insertions")?;
            let mut all: Vec<u64> = set.iter().cloned().collect();
            all.sort_unstable();
            // every fourth key: all the rest in their places
            for h in [fp(0, 9), fp(0, 7), fp(0, 8)] {
                f.remove(&it(h));
                set.remove(&h);
            }
            see(cc, &f, &set, "after removing the first run")?;
            cc.traces += 1;
            cc.state(&[step as u8, (start >> 16) as u8]);
            Ok(())
        });
    }
    for (start, n) in [(3u64, 6_000u64), ((1 << 17) - 100, 6_000)] {
        cs.add(format!("one run of {} from slot {}", n, start), move |cc| {
            run_of(cc, account, start, n)
        });
    }
    if cs.tier != Tier::Quick {
        cs.add("one run of 66000 from slot 5", move |cc| run_of(cc, account, 5, 66_000));
    }
}

fn run_of(cc: &mut CC, account: bool, start: u64, n: u64) -> Result<(), String> {
    let (q, r) = (17u8, 30u8);
    let it = |h: u64| It(h, !h);
    let fp = |rem: u64| start << r | rem;
    let mut f = QuotientFilter::<It, HB>::with_hasher(q, r, h0());
    for i in 0..n {
        // ascending; an insertion scans the run up to its place
        f.insert(&it(fp(2 * i + 1)));
        cc.transitions += 1;
        if i % 64 == 0 {
            cc.beat();
        }
    }
    let at: Vec<u64> = (0..60u64).map(|i| i * n / 60).chain([255, 256, 65_534, 65_535, 65_536, n - 1]).filter(|i| *i < n).collect();
    let see = |f: &QuotientFilter<It, HB>, gone: &[u64], len: u64| -> Result<(), String> {
        for i in &at {
            if f.contains(&it(fp(2 * i + 1))) == gone.contains(i) || f.contains(&it(fp(2 * i))) {
                return Err(format!("number {} of a run of {}: contained {}", i, n, gone.contains(i)));
            }
        }
        if account && (f.len() as u64 != len || f.is_empty() != (len == 0)) {
            return Err(format!("length {}, {} fingerprints", f.len(), len));
        }
        Ok(())
    };
    see(&f, &[], n)?;
    let mut gone = vec![];
    for i in at.iter().step_by(3) {
        if gone.contains(i) {
            continue;
        }
        f.remove(&it(fp(2 * i + 1)));
        gone.push(*i);
        cc.beat();
    }
    see(&f, &gone, n - gone.len() as u64)?;
    for i in gone.iter().rev() {
        f.insert(&it(fp(2 * i + 1)));
    }
    see(&f, &[], n)?;
    cc.traces += 1;
    cc.state(&n.to_le_bytes());
    Ok(())
}

/// C13 / C14: tables of more than 2^16 slots, filled to the last one.
pub fn quotient(cs: &mut Cases, account: bool) {
    for (q, r, pattern) in [(17u8, 10u8, 0u8), (17, 40, 1), (17, 1, 2), (16, 48, 0), (18, 3, 2), (17, 7, 3)] {
        if cs.tier == Tier::Quick && q > 17 {
            continue;
        }
        cs.add(format!("endurance ({}, {}) pattern {}", q, r, pattern), move |cc| {
            let w = u32::from(q) + u32::from(r);
            let mask = if w == 64 { u64::MAX } else { (1 << w) - 1 };
            let cap = 1u64 << q;
            let rm = (1u64 << r) - 1;
            let fp = |i: u64| -> u64 {
                // (an odd multiplier: different numbers, different fingerprints)
                let m = i.wrapping_mul(0x9E37_79B9_7F4A_7C15 | 1);
                match pattern {
                    0 => m & mask,
                    // every slot in its own place, remainders extreme
                    1 => i % cap << r | if i % 2 == 0 { rm } else { i % 3 },
                    // two remainders for every other quotient, the last one first
                    2 => (cap - 1 - i / 2 * 2 % cap) << r | (i % 2),
                    // a hundred per quotient, quotients far apart
                    _ => ((i / 100) * 100 % cap) << r | (i % 100 & rm),
                }
            };
            let it = |h: u64| It(h, !h);
            let mut f = QuotientFilter::<It, HB>::with_hasher(q, r, h0());
            let mut set: HashSet<u64> = HashSet::new();
            let top = match pattern {
                // up to the last slot, where clusters stay short; else what is fast enough
                1 | 2 => cap,
                _ => cap * 19 / 20,
            };
            let mut i = 0;
            while (set.len() as u64) < top {
                let h = fp(i);
                f.insert(&it(h));
                set.insert(h);
                tick(cc, i);
                for j in older(i) {
                    if !f.contains(&it(fp(j))) {
                        return Err(format!("fingerprint {:#x} missing after {} insertions", fp(j), i + 1));
                    }
                }
                let no = h ^ (splitmix(i) & mask);
                if f.contains(&it(no)) != set.contains(&no) {
                    return Err(format!("contains({:#x}) = {} after {} insertions", no, !set.contains(&no), i + 1));
                }
                if account && (f.len() != set.len() || f.is_empty() != set.is_empty()) {
                    return Err(format!("length {} with {} fingerprints", f.len(), set.len()));
                }
                i += 1;
            }
            let n = i;
            for j in 0..n {
                if !f.contains(&it(fp(j))) {
                    return Err(format!("fingerprint {:#x} missing in the filled table", fp(j)));
                }
            }
            cc.beat();
            if account && top == cap {
                let new = (0..).map(|k| splitmix(k) & mask).find(|h| !set.contains(h));
                // (with one remainder bit every fingerprint may be there)
                if let (Some(h), true) = (new, (set.len() as u64) < mask / 2) {
                    let g = &mut f;
                    if catch(|| g.insert(&it(h))).is_ok() {
                        return Err(format!("a new fingerprint is accepted into a filter of {} of {}", set.len(), cap));
                    }
                }
            }
            for j in (0..n).step_by(2) {
                let h = fp(j);
                f.remove(&it(h));
                set.remove(&h);
                tick(cc, j);
                if f.contains(&it(h)) || account && (f.len() != set.len() || f.is_empty() != set.is_empty()) {
                    return Err(format!("length {} after removing {:#x}, {} fingerprints", f.len(), h, set.len()));
                }
            }
            for j in 0..n {
                let h = fp(j);
                if f.contains(&it(h)) != set.contains(&h) {
                    return Err(format!("contains({:#x}) = {} in the half emptied table", h, !set.contains(&h)));
                }
            }
            f.clear();
            if f.len() != 0 || (0..n).any(|j| f.contains(&it(fp(j)))) {
                return Err("clear leaves fingerprints".into());
            }
            cc.traces += 1;
            Ok(())
        });
    }
}

/// C16 / C17: many items, large amounts, removals.
pub fn sketch(cs: &mut Cases, bounds: bool) {
    let n = count(cs.tier);
    for (rows, cols, amount) in [(4usize, 1000usize, 1i64), (3, 70_001, 1), (5, 7, 1 << 33), (1, 300, 3)] {
        cs.add(format!("endurance {} x {} amounts {}", rows, cols, amount), move |cc| {
            let mut a = CountMinSketch::<CountMinStrategy, It, HB>::with_hashers(rows, cols, hb(MIX));
            let mut b = CountMinSketch::<CountMeanStrategy, It, HB>::with_hashers(rows, cols, hb(MIX));
            let mut d = CountMinSketch::<CountMedianBiasStrategy, It, HB>::with_hashers(rows, cols, hb(MIX));
            let mut grid = vec![0i64; rows * cols];
            let mut total = 0i64;
            let cells = |x: &It| -> Vec<usize> { (0..rows).map(|r| r * cols + (derived(x.0, x.1, r as u64) % cols as u64) as usize).collect() };
            let pool = 100_000u64;
            let mut truth = vec![0i64; pool as usize];
            for i in 0..n {
                let (id, v, ins) = match i % 4 {
                    0 | 1 => (i * 31 % pool, amount + (i % 7) as i64, true),
                    2 => ((i - 1) * 31 % pool, amount, true),
                    // what was just inserted, partly removed
                    _ => ((i - 2) * 31 % pool, amount, false),
                };
                let x = item(id);
                let sv = if ins { v } else { -v };
                for c in cells(&x) {
                    grid[c] += sv;
                }
                total += sv;
                truth[id as usize] += sv;
                if ins {
                    a.insert(&x, v);
                    if !bounds {
                        b.insert(&x, v);
                        d.insert(&x, v);
                    }
                } else {
                    a.remove(&x, v);
                    if !bounds {
                        b.remove(&x, v);
                        d.remove(&x, v);
                    }
                }
                tick(cc, i);
                for q in [id, id / 2, i * 7919 % pool] {
                    let x = item(q);
                    let vals: Vec<i64> = cells(&x).iter().map(|c| grid[*c]).collect();
                    let least = *vals.iter().min().unwrap();
                    if bounds {
                        let (got, t) = (a.count(&x), truth[q as usize]);
                        if got < t || got > least {
                            return Err(format!("minimum strategy counts item {} as {} after {} operations: true count {}, bound {}", q, got, i + 1, t, least));
                        }
                    } else {
                        let got = [a.count(&x), b.count(&x), d.count(&x)];
                        let want = [least, mean(&vals), median_bias(total, cols, &vals)];
                        if got != want {
                            return Err(format!("item {} counted as {:?} by minimum, mean and median-bias after {} operations, expected {:?}", q, got, i + 1, want));
                        }
                    }
                }
            }
            cc.traces += 1;
            Ok(())
        });
    }
}
