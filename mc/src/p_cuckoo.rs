//! C08..C12: cuckoo filters.

use crate::engine::*;
use crate::items::*;
use crate::p_stream::menu64;
use probabilistic_collections::cuckoo::*;
use rand_xorshift as rx;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Geo {
    pub nb: usize,
    pub b: usize,
    pub f: usize,
    pub mode: u8,
}

impl Geo {
    pub fn build(self) -> CuckooFilter<It, HB> {
        CuckooFilter::from_parameters_with_hashers(self.nb * self.b, self.f, self.b, hb(self.mode))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Class {
    fp: u64,
    i1: usize,
    i2: usize,
}

/// The fingerprint and (ordered) bucket pair of an item.
pub fn class(x: &It, g: &Geo) -> Class {
    let mask = if g.f == 64 { u64::MAX } else { (1 << g.f) - 1 };
    let h = hb(g.mode);
    let mut a = x.0;
    while a & mask == 0 {
        a = raw_hash(h[0], a.wrapping_add(1));
    }
    let fp = a & mask;
    let i1 = (x.1 % g.nb as u64) as usize;
    let i2 = ((i1 as u64 ^ raw_hash(h[1], fp)) % g.nb as u64) as usize;
    Class { fp, i1: i1.min(i2), i2: i1.max(i2) }
}

pub fn alphabet(g: &Geo, n: usize) -> Vec<It> {
    let top = if g.f == 64 { u64::MAX } else { (1u64 << g.f) - 1 };
    let half = 1u64 << (g.f - 1);
    let high = if g.f < 64 { 1u64 << g.f } else { 0 };
    let nb = g.nb as u64;
    let mut v = vec![
        It(1, 0),
        It(2, 1),
        It(3, 2),
        It(top, 3),
        It(1, 1 + nb),
        It(half, 0),
        It(high, 1),
        It(1 | high | 1 << 63, 0),
        It(2, 0),
        It(top - 1, u64::MAX),
        It(3, 1),
        It(0, 2),
        It(1, 2),
        It(2, 3),
        It(3, 3),
        It(1, 3),
    ];
    let mut out: Vec<It> = Vec::new();
    for x in v.drain(..) {
        if !out.contains(&x) && out.len() < n {
            out.push(x);
        }
    }
    out
}

/// Whether every class can be placed in a table of `nb` buckets of `b` entries.
fn placeable(cl: &[Class], nb: usize, b: usize) -> bool {
    // augmenting paths
    let mut at: Vec<Vec<usize>> = vec![vec![]; nb];
    fn go(c: usize, cl: &[Class], at: &mut Vec<Vec<usize>>, b: usize, seen: &mut Vec<bool>) -> bool {
        for i in [cl[c].i1, cl[c].i2] {
            if seen[i] {
                continue;
            }
            seen[i] = true;
            if at[i].len() < b {
                at[i].push(c);
                return true;
            }
            for s in 0..at[i].len() {
                let d = at[i][s];
                if go(d, cl, at, b, seen) {
                    at[i][s] = c;
                    return true;
                }
            }
        }
        false
    }
    (0..cl.len()).all(|c| {
        let mut seen = vec![false; nb];
        go(c, cl, &mut at, b, &mut seen)
    })
}

/// Whether both buckets of `x` can have been full, given what is stored.
fn can_block(cl: &[Class], x: &Class, b: usize) -> bool {
    let only1 = cl.iter().filter(|c| (c.i1 == x.i1 || c.i2 == x.i1) && !(c.i1 == x.i2 || c.i2 == x.i2)).count();
    let only2 = cl.iter().filter(|c| (c.i1 == x.i2 || c.i2 == x.i2) && !(c.i1 == x.i1 || c.i2 == x.i1)).count();
    let both = cl.iter().filter(|c| (c.i1 == x.i2 || c.i2 == x.i2) && (c.i1 == x.i1 || c.i2 == x.i1)).count();
    if x.i1 == x.i2 {
        return both >= b;
    }
    b.saturating_sub(only1) + b.saturating_sub(only2) <= both
}

#[derive(Clone, Debug)]
pub enum Op {
    Insert(It),
    Remove(It),
    Clear,
}

#[derive(Clone)]
struct S8 {
    f: CuckooFilter<It, HB>,
    items: Arc<Vec<It>>,
    owned: u64,
}

impl Sys for S8 {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = self.items.iter().map(|i| Op::Insert(*i)).collect();
        for (i, x) in self.items.iter().enumerate() {
            if self.owned >> i & 1 == 1 {
                v.push(Op::Remove(*x));
            }
        }
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Insert(x) => {
                let i = self.items.iter().position(|y| y == x).unwrap();
                if !self.f.contains(x) {
                    self.owned |= 1 << i;
                }
                self.f.insert(x);
            }
            Op::Remove(x) => {
                let i = self.items.iter().position(|y| y == x).unwrap();
                // (histories shortened after a failure may remove what is not owned)
                if self.owned >> i & 1 == 0 {
                    return Ok(());
                }
                self.f.remove(x);
                self.owned &= !(1 << i);
            }
            Op::Clear => {
                self.f.clear();
                self.owned = 0;
            }
        }
        for (i, x) in self.items.iter().enumerate() {
            if self.owned >> i & 1 == 1 && !self.f.contains(x) {
                return Err(format!(
                    "{:?} was new when inserted and has not been removed, but is no longer contained ({} of {} entries, {} extra)",
                    x, self.f.len(), self.f.capacity(), self.f.extra_items_len()
                ));
            }
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        bytes_of(&self.f, o);
        o.extend_from_slice(&self.owned.to_le_bytes());
    }
}

#[derive(Clone)]
struct S9 {
    f: CuckooFilter<It, HB>,
    g: Geo,
    items: Arc<Vec<It>>,
    stored: Vec<Class>,
    /// Without scripted draws the random walk of relocation is as good as certain to find a place.
    free_rng: bool,
}

impl S9 {
    fn new(g: Geo, items: Arc<Vec<It>>, free_rng: bool) -> S9 {
        S9 { f: g.build(), g, items, stored: vec![], free_rng }
    }
}

impl Sys for S9 {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = self.items.iter().map(|i| Op::Insert(*i)).collect();
        v.extend(self.items.iter().map(|i| Op::Remove(*i)));
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        let (l0, e0) = (self.f.len(), self.f.extra_items_len());
        let mut noop = false;
        match op {
            Op::Insert(x) => {
                let c = class(x, &self.g);
                let pos = self.stored.binary_search(&c);
                let before = self.stored.clone();
                self.f.insert(x);
                match pos {
                    Ok(_) => noop = true,
                    Err(i) => {
                        self.stored.insert(i, c);
                        let e1 = self.f.extra_items_len();
                        if e1 > e0 + 1 || e1 < e0 {
                            return Err(format!("{} overflow entries before, {} after one insertion", e0, e1));
                        }
                        if e1 == e0 + 1 {
                            // both buckets were full: of what is stored, e0 are in the overflow list
                            let full = if c.i1 == c.i2 { self.g.b } else { 2 * self.g.b };
                            if l0 < full || !can_block(&before, &c, self.g.b) {
                                return Err(format!("{:?} went to the overflow list although a bucket of its had room", x));
                            }
                            if e0 == 0 && (self.g.b == 1 || self.free_rng) && placeable(&self.stored, self.g.nb, self.g.b) {
                                return Err(format!("inserting {:?} used the overflow list although relocation can place every entry", x));
                            }
                        }
                    }
                }
            }
            Op::Remove(x) => {
                let c = class(x, &self.g);
                self.f.remove(x);
                match self.stored.binary_search(&c) {
                    Ok(i) => {
                        self.stored.remove(i);
                    }
                    Err(_) => noop = true,
                }
            }
            Op::Clear => {
                self.f.clear();
                self.stored.clear();
            }
        }
        let (l, e) = (self.f.len(), self.f.extra_items_len());
        if noop && (l, e) != (l0, e0) {
            return Err(format!("{:?} must not change anything, but occupied/overflow went from {}/{} to {}/{}", op, l0, e0, l, e));
        }
        if l + e != self.stored.len() {
            return Err(format!("{} occupied and {} overflow entries for {} distinguishable items", l, e, self.stored.len()));
        }
        if l > self.g.nb * self.g.b {
            return Err(format!("{} occupied entries in a table of {}", l, self.g.nb * self.g.b));
        }
        if self.f.is_nearly_full() != (e > 0) {
            return Err(format!("is_nearly_full is {} with {} overflow entries", e == 0, e));
        }
        if self.f.is_empty() != self.stored.is_empty() {
            return Err(format!("is_empty is {} with {} stored items ({} occupied, {} overflow)", self.f.is_empty(), self.stored.len(), l, e));
        }
        for x in self.items.iter() {
            let want = self.stored.binary_search(&class(x, &self.g)).is_ok();
            if self.f.contains(x) != want {
                return Err(format!("contains({:?}) = {}, stored is {}", x, !want, want));
            }
        }
        // table geometry never changes
        if self.f.bucket_len() != self.g.nb || self.f.entries_per_index() != self.g.b || self.f.fingerprint_bit_count() != self.g.f {
            return Err("table geometry changed".into());
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        bytes_of(&self.f, o);
        for c in &self.stored {
            o.extend_from_slice(&c.fp.to_le_bytes());
            o.push(c.i1 as u8);
        }
        o.push(self.f.len() as u8);
        o.push(self.f.extra_items_len() as u8);
    }
}

const EDGE_WIDTHS: [usize; 8] = [2, 3, 5, 8, 16, 33, 63, 64];

pub fn geos(tier: Tier) -> Vec<Geo> {
    let mut v = vec![];
    let fs = t(tier, EDGE_WIDTHS.to_vec(), (2..=64).collect());
    for nb in [1usize, 2, 4, 8] {
        for b in 1..=4usize {
            for f in fs.iter().cloned() {
                for mode in [IDENT, ZERO, MIX] {
                    if tier == Tier::Quick && (nb == 8 && b > 2 || (f > 8 && mode == ZERO)) {
                        continue;
                    }
                    if tier != Tier::Quick && !EDGE_WIDTHS.contains(&f) && (mode != IDENT || b == 3 || nb == 8) {
                        continue;
                    }
                    v.push(Geo { nb, b, f, mode });
                }
            }
        }
    }
    v
}

pub fn rng_cfg(b: usize, branch: usize) -> rx::Cfg {
    rx::Cfg { menu32: vec![0, 0x8000_0000], menu64: menu64(b as u64), max_branch: branch, tails: 3 }
}

pub fn c08(cs: &mut Cases) {
    let tier = cs.tier;
    wide_chains(cs);
    for ch in geos(tier).chunks(t(tier, 3, 1)) {
        let ch = ch.to_vec();
        cs.add(format!("{:?}..", ch[0]), move |cc| {
            for g in ch.clone() {
                let items = Arc::new(alphabet(&g, t(cc.tier, 8, 10).max(if g.nb * g.b >= 8 { 9 } else { 8 })));
                let init = move || S8 { f: g.build(), items: items.clone(), owned: 0 };
                let o = Opts::rng(t(cc.tier, 40, 100), t(cc.tier, 1_200, if EDGE_WIDTHS.contains(&g.f) { 8_000 } else { 1_000 }), rng_cfg(g.b, 3));
                let st = explore(cc, &init, &o).map_err(|e| format!("{:?}: {}", g, e))?;
                cc.count("closed_searches", st.closed as u64);
            }
            Ok(())
        });
    }
    for g in large_geos() {
        cs.add(format!("large {:?}", g), move |cc| {
            for part in spread(&g).chunks(60) {
                let items = Arc::new(part.to_vec());
                large(cc, g, part, S8 { f: g.build(), items, owned: 0 })?;
            }
            Ok(())
        });
    }
    for g in long_geos() {
        cs.add(format!("long {:?}", g), move |cc| {
            let items = Arc::new((0..60u64).map(|i| It(splitmix(i), splitmix(i + 500))).collect::<Vec<_>>());
            let ops = long_ops(&items, t(cc.tier, 3, 20));
            linear(cc, S8 { f: g.build(), items, owned: 0 }, &ops, &None).map_err(|e| format!("{:?}: {}", g, e))?;
            Ok(())
        });
    }
}

/// Items in buckets at and around the powers of two.
fn spread(g: &Geo) -> Vec<It> {
    let top = if g.f == 64 { u64::MAX } else { (1u64 << g.f) - 1 };
    let nb = g.nb as u64;
    let mut v = vec![];
    let mut k = 1;
    while k < nb {
        v.extend([It(1, k), It(top, k - 1), It(top / 2 + 1, k + 1), It(k & top, 2 * k + 1), It(2, nb - k)]);
        k *= 2;
    }
    v.extend([It(1, 0), It(1, nb - 1), It(2, u64::MAX), It(3, nb)]);
    v.extend((0..20u64).map(|i| It(splitmix(i), splitmix(i + 100))));
    v.sort_unstable();
    v.dedup();
    v
}

fn large<S: Sys<Op = Op>>(cc: &mut CC, g: Geo, items: &[It], mut s: S) -> Result<(), String> {
    let mut ops: Vec<Op> = items.iter().map(|x| Op::Insert(*x)).collect();
    ops.extend(items.iter().step_by(3).map(|x| Op::Remove(*x)));
    ops.extend(items.iter().rev().map(|x| Op::Insert(*x)));
    ops.extend(items.iter().map(|x| Op::Remove(*x)));
    ops.push(Op::Clear);
    ops.push(Op::Insert(items[items.len() / 2]));
    for (i, op) in ops.iter().enumerate() {
        cc.transitions += 1;
        cc.beat();
        cc.state(&(i as u32).to_le_bytes());
        catch(|| s.step(op)).unwrap_or_else(|p| Err(format!("panicked: {}", p))).map_err(|e| format!("{:?}: {} | at operation {} ({:?})", g, e, i, op))?;
    }
    cc.traces += 1;
    Ok(())
}

fn large_geos() -> Vec<Geo> {
    let mut v = vec![];
    for nb in [256usize, 512, 65_536, 131_072, 1 << 20] {
        for (b, f) in [(1, 9), (4, 13), (2, 64), (3, 31)] {
            for mode in [IDENT, MIX] {
                v.push(Geo { nb, b, f, mode });
            }
        }
    }
    v
}

fn long_geos() -> Vec<Geo> {
    let mut v = vec![];
    for (nb, b) in [(1, 1), (1, 4), (2, 2), (4, 2), (8, 1), (8, 4), (16, 2), (16, 3), (32, 1), (64, 1)] {
        for f in [2, 4, 7, 8, 13, 31, 32, 33, 57, 64] {
            v.push(Geo { nb, b, f, mode: MIX });
        }
    }
    v
}

/// Fill past the capacity, re-insert, remove in several orders, refill.
fn long_ops(items: &[It], rounds: u64) -> Vec<Op> {
    let mut v = vec![];
    let n = items.len();
    for r in 0..rounds {
        for i in 0..n {
            let x = items[(i * 7 + r as usize * 3) % n];
            v.push(Op::Insert(x));
            if i % 5 == 0 {
                v.push(Op::Insert(items[(i * 11) % n]));
            }
            if i % 7 == 6 {
                v.push(Op::Remove(items[(i * 13 + r as usize) % n]));
            }
        }
        for i in 0..n {
            if r % 3 != 2 || i % 2 == 0 {
                v.push(Op::Remove(items[(i * 17 + 5) % n]));
            }
        }
        if r % 4 == 3 {
            v.push(Op::Clear);
        }
    }
    v
}

/// A table of one entry per bucket and an item that needs exactly `l` displacements to be placed:
/// item `i` fits bucket `i` or bucket `i + 1`, bucket `l` is free, and the last item fits bucket
/// 0 alone.
pub fn chain(l: u64) -> (CuckooFilter<It, HB>, Vec<It>, It) {
    let nb = (l + 2).next_power_of_two().max(1024);
    chain_at(nb, &(0..=l).collect::<Vec<_>>())
}

/// A chain through the given (distinct) buckets.
fn chain_at(nb: u64, at: &[u64]) -> (CuckooFilter<It, HB>, Vec<It>, It) {
    let l = at.len() as u64 - 1;
    let high = |k: u64| (k + 1) << 24;
    let mut f = Geo { nb: nb as usize, b: 1, f: 44, mode: IDENT }.build();
    let block = It(high(l + 1), at[l as usize]);
    f.insert(&block);
    let items: Vec<It> = (0..l).map(|i| It((at[i as usize] ^ at[i as usize + 1]) | high(i), at[i as usize])).collect();
    for x in items.iter().rev() {
        f.insert(x);
    }
    f.remove(&block);
    (f, items, It(high(l + 2), at[0]))
}

/// Displacements between far-apart buckets of large tables: every entry keeps its identity.
pub fn wide_chains(cs: &mut Cases) {
    let tier = cs.tier;
    for bits in t(tier, vec![10u32, 15, 16, 17, 18, 20, 22, 24], (8..=24).collect()) {
        cs.add(format!("displacements among 2^{} buckets", bits), move |cc| {
            let nb = 1u64 << bits;
            for l in [1u64, 2, 3, 7, 40] {
                for seed in 0..t(cc.tier, 2u64, 6) {
                    // the ends of the table and buckets that differ in their highest bits first
                    let mut at: Vec<u64> = vec![0, nb - 1, nb / 2, nb / 2 - 1, nb / 4 * 3, 1];
                    at.rotate_left(seed as usize % 6);
                    at.extend((0..50).map(|i| splitmix(i * 31 + seed * 977) % nb));
                    let mut seen = std::collections::HashSet::new();
                    at.retain(|x| seen.insert(*x));
                    at.truncate(l as usize + 1);
                    let (mut f, items, last) = chain_at(nb, &at);
                    cc.beat();
                    f.insert(&last);
                    cc.transitions += l + 1;
                    cc.traces += 1;
                    cc.state(&[bits as u8, l as u8, seed as u8]);
                    if f.len() as u64 != l + 1 || f.extra_items_len() != 0 {
                        return Err(format!("2^{} buckets, chain {:?}: {} entries and {} overflow entries of {}", bits, at, f.len(), f.extra_items_len(), l + 1));
                    }
                    let mut all = items;
                    all.push(last);
                    // remove one after the other
                    while let Some(x) = all.pop() {
                        if let Some(y) = all.iter().chain([&x]).find(|x| !f.contains(x)) {
                            return Err(format!("2^{} buckets, chain {:?}: {:?} is lost", bits, at, y));
                        }
                        for k in 0..bits {
                            // the same fingerprint in another pair of buckets
                            let y = It(x.0, x.1 ^ 1 << k);
                            let pair = (x.1, (x.1 ^ x.0) % nb);
                            if y.1 != pair.1 && f.contains(&y) {
                                return Err(format!("2^{} buckets, chain {:?}: {:?} is contained, only {:?} was inserted", bits, at, y, x));
                            }
                        }
                        f.remove(&x);
                        cc.transitions += 1;
                        if f.contains(&x) || f.len() != all.len() {
                            return Err(format!("2^{} buckets, chain {:?}: {:?} is not removed", bits, at, x));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// Insertions that need up to 512 displacements succeed, others give up and lose nothing.
fn chains(cs: &mut Cases) {
    for part in 0..8u64 {
        cs.add(format!("displacement chains, part {}", part), move |cc| {
            for l in (1..=520u64).chain([600, 1000, 1022]).filter(|l| l % 8 == part) {
                let (mut f, items, last) = chain(l);
                cc.beat();
                if f.len() as u64 != l || f.extra_items_len() != 0 {
                    return Err(format!("chain of {}: {} entries and {} overflow entries before the last insertion", l, f.len(), f.extra_items_len()));
                }
                f.insert(&last);
                cc.transitions += l + 1;
                cc.traces += 1;
                cc.state(&l.to_le_bytes());
                let e = (l > 512) as u64;
                if f.len() as u64 != l + 1 - e || f.extra_items_len() as u64 != e {
                    return Err(format!(
                        "an insertion that needs {} displacements (512 are allowed) leaves {} entries and {} overflow entries of {}",
                        l, f.len(), f.extra_items_len(), l + 1
                    ));
                }
                let lost = items.iter().chain([&last]).find(|x| !f.contains(x)).cloned();
                if let Some(x) = lost {
                    return Err(format!("{:?} is lost by an insertion that needs {} displacements", x, l));
                }
            }
            Ok(())
        });
    }
}

pub fn c09(cs: &mut Cases) {
    let tier = cs.tier;
    chains(cs);
    wide_chains(cs);
    for ch in geos(tier).chunks(t(tier, 3, 1)) {
        let ch = ch.to_vec();
        cs.add(format!("{:?}..", ch[0]), move |cc| {
            for g in ch.clone() {
                let items = Arc::new(alphabet(&g, t(cc.tier, 8, 10).max(if g.nb * g.b >= 8 { 9 } else { 8 })));
                let init = move || S9::new(g, items.clone(), false);
                let o = Opts::rng(t(cc.tier, 40, 100), t(cc.tier, 1_000, if EDGE_WIDTHS.contains(&g.f) { 8_000 } else { 1_000 }), rng_cfg(g.b, 3));
                let st = explore(cc, &init, &o).map_err(|e| format!("{:?}: {}", g, e))?;
                cc.count("closed_searches", st.closed as u64);
            }
            Ok(())
        });
    }
    for g in long_geos() {
        cs.add(format!("long {:?}", g), move |cc| {
            let items = Arc::new((0..60u64).map(|i| It(splitmix(i), splitmix(i + 500))).collect::<Vec<_>>());
            let ops = long_ops(&items, t(cc.tier, 3, 20));
            // (bounded walks may legitimately miss the only place left in larger tables)
            let s = S9::new(g, items, g.nb <= 2);
            linear(cc, s, &ops, &None).map_err(|e| format!("{:?}: {}", g, e))?;
            Ok(())
        });
    }
    for g in large_geos() {
        cs.add(format!("large {:?}", g), move |cc| {
            let items = spread(&g);
            large(cc, g, &items, S9::new(g, Arc::new(items.clone()), false))
        });
    }
    // empty: every query
    for f in 2..=64usize {
        cs.add(format!("fresh filters of {} fingerprint bits", f), move |cc| {
            for (nb, b) in [(1, 1), (1, 4), (4, 1), (2, 4)] {
                for mode in [IDENT, MIX, ZERO, ROT] {
                    let g = Geo { nb, b, f, mode };
                    let it = alphabet(&g, 16);
                    for x in &it {
                        let mut s = S9::new(g, Arc::new(it.clone()), false);
                        for op in [Op::Remove(*x), Op::Insert(*x), Op::Insert(*x), Op::Remove(*x), Op::Insert(*x), Op::Clear, Op::Insert(*x)] {
                            s.step(&op).map_err(|e| format!("{:?}: {} | at {:?} of a single-item history", g, e, op))?;
                            cc.transitions += 1;
                            let mut k = vec![f as u8, nb as u8, b as u8, mode];
                            s.key(&mut k);
                            cc.state(&k);
                        }
                        cc.traces += 1;
                    }
                }
                cc.beat();
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------------
// C10

pub fn full_fpp(f: usize, b: f64) -> f64 {
    let c = 2f64.powi(f as i32);
    -(2.0 * b * (-(1.0 / (c - 1.0))).ln_1p()).exp_m1()
}

fn item_counts(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=t3(tier, 140, 600, 2000)).collect();
    v.extend([255, 256, 257, 511, 513, 1000, 1023, 1024, 1025, 4095, 4097, 65535, 65536, 65537, 100_000]);
    v.sort_unstable();
    v.dedup();
    v
}

fn geometry(f: &CuckooFilter<It, HB>, n: usize, what: &str) -> Result<(), String> {
    let (nb, b) = (f.bucket_len(), f.entries_per_index());
    if !nb.is_power_of_two() || nb * b < n || (nb > 1 && nb / 2 * b >= n) {
        return Err(format!("{}: {} buckets of {} entries for {} items", what, nb, b, n));
    }
    if f.capacity() != nb * b {
        return Err(format!("{}: capacity {}, but {} buckets of {} entries", what, f.capacity(), nb, b));
    }
    if f.len() != 0 || !f.is_empty() || f.is_nearly_full() || f.extra_items_len() != 0 || f.estimated_fpp() != 0.0 {
        return Err(format!("{}: not empty at construction", what));
    }
    Ok(())
}

fn fpps(tier: Tier) -> Vec<f64> {
    let mut v = vec![0.99, 0.9, 0.75, 0.5, 0.3, 0.25, 0.2, 0.1, 0.05, 0.03, 0.02, 0.01, 0.005, 0.001, 1e-4, 1e-5, 1e-6, 1e-9, 1e-12, 1e-14, 1.6e-16, 1e-16, 1e-17, 7e-18];
    if tier != Tier::Quick {
        for i in 1..200 {
            v.push(i as f64 / 200.0);
        }
        for i in 1..60 {
            v.push(0.93 * 0.61f64.powi(i));
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

pub fn c10(cs: &mut Cases) {
    let tier = cs.tier;
    let rel = 1e-9;
    for b in [1usize, 2, 3, 4, 5, 7, 8, 16, 64] {
        cs.add(format!("from_entries_per_index, {} entries", b), move |cc| {
            for p in fpps(cc.tier) {
                for n in item_counts(cc.tier) {
                    for explicit in [true, false] {
                        if !explicit && n > 40 {
                            continue;
                        }
                        let what = format!("from_entries_per_index({}, {}, {})", n, p, b);
                        let (f, fbits) = if explicit {
                            let f = CuckooFilter::<It, HB>::from_entries_per_index_with_hashers(n, p, b, hb(MIX));
                            geometry(&f, n, &what)?;
                            (f.entries_per_index(), f.fingerprint_bit_count())
                        } else {
                            let f = CuckooFilter::<u32>::from_entries_per_index(n, p, b);
                            if f.capacity() != f.bucket_len() * f.entries_per_index() || f.capacity() < n || !f.bucket_len().is_power_of_two() {
                                return Err(format!("{}: capacity {}", what, f.capacity()));
                            }
                            (f.entries_per_index(), f.fingerprint_bit_count())
                        };
                        cc.transitions += 1;
                        cc.traces += 1;
                        if f != b {
                            return Err(format!("{}: {} entries per bucket", what, f));
                        }
                        if full_fpp(fbits, b as f64) > p * (1.0 + rel) {
                            return Err(format!("{}: {} bits give {} when full", what, fbits, full_fpp(fbits, b as f64)));
                        }
                        if fbits > 2 && full_fpp(fbits - 2, b as f64) <= p * (1.0 - rel) {
                            return Err(format!("{}: {} fingerprint bits, {} suffice", what, fbits, fbits - 2));
                        }
                        cc.state(format!("{} {} {}", n, b, fbits).as_bytes());
                    }
                }
                cc.beat();
            }
            Ok(())
        });
    }
    cs.add("from_entries_per_index, probabilities below what 64 bits reach", |cc| {
        for p in [1e-19, 1e-25, 1e-100, 1e-300, f64::MIN_POSITIVE] {
            for b in [1usize, 2, 4] {
                for n in [1usize, 5, 100] {
                    let f = CuckooFilter::<It, HB>::from_entries_per_index_with_hashers(n, p, b, hb(MIX));
                    cc.transitions += 1;
                    cc.traces += 1;
                    cc.state(&[n as u8, b as u8]);
                    geometry(&f, n, &format!("from_entries_per_index({}, {}, {})", n, p, b))?;
                    if f.fingerprint_bit_count() < 63 {
                        return Err(format!("from_entries_per_index({}, {}, {}): {} fingerprint bits", n, p, b, f.fingerprint_bit_count()));
                    }
                }
            }
        }
        Ok(())
    });
    for fb in 2..=t3(tier, 16usize, 20, 22) {
        cs.add(format!("from_fingerprint_bit_count, {} bits", fb), move |cc| {
            for p in fpps(cc.tier) {
                let lim = (1.0 - p).ln() / (-(1.0 / (2f64.powi(fb as i32) - 1.0))).ln_1p() / 2.0;
                for n in item_counts(cc.tier) {
                    let what = format!("from_fingerprint_bit_count({}, {}, {})", n, p, fb);
                    if lim < 1.0 + 1e-9 {
                        if lim < 1.0 - 1e-9 && catch(|| CuckooFilter::<It, HB>::from_fingerprint_bit_count_with_hashers(n, p, fb, hb(MIX))).is_ok() {
                            return Err(format!("{}: accepted although not even one entry per bucket meets the probability", what));
                        }
                        continue;
                    }
                    if lim > 50_000.0 {
                        continue;
                    }
                    for explicit in [true, false] {
                        if !explicit && n > 20 {
                            continue;
                        }
                        let (b, bits) = if explicit {
                            let f = CuckooFilter::<It, HB>::from_fingerprint_bit_count_with_hashers(n, p, fb, hb(MIX));
                            geometry(&f, n, &what)?;
                            (f.entries_per_index(), f.fingerprint_bit_count())
                        } else {
                            let f = CuckooFilter::<u32>::from_fingerprint_bit_count(n, p, fb);
                            (f.entries_per_index(), f.fingerprint_bit_count())
                        };
                        cc.transitions += 1;
                        cc.traces += 1;
                        if bits != fb {
                            return Err(format!("{}: {} bits", what, bits));
                        }
                        let e = 1e-9 * lim;
                        if (b as f64) > lim + e || (b as f64) < (lim - e).floor() {
                            return Err(format!("{}: {} entries per bucket, the probability allows {}", what, b, lim));
                        }
                        cc.state(format!("{} {} {}", n, b, fb).as_bytes());
                    }
                }
                cc.beat();
            }
            Ok(())
        });
    }
    // wide fingerprints: probabilities around those that allow a given number of entries
    for fb in 2..=64usize {
        cs.add(format!("from_fingerprint_bit_count, {} bits, exact probabilities", fb), move |cc| {
            for m in [1usize, 2, 3, 4, 5, 8, 17, 64, 577, 4000] {
                for d in [-0.3, -1e-3, 1e-3, 0.3] {
                    let p = full_fpp(fb, m as f64 + d);
                    if !(p > 0.0 && p < 1.0 - 1e-6) {
                        continue;
                    }
                    let want = if d < 0.0 { m - 1 } else { m };
                    for n in [1usize, 2, 7, 100, 1000] {
                        let what = format!("from_fingerprint_bit_count({}, {:e}, {})", n, p, fb);
                        cc.transitions += 1;
                        cc.traces += 1;
                        cc.state(&[fb as u8, (m % 251) as u8, (d * 10.0 + 100.0) as u8, (n % 251) as u8]);
                        if want == 0 {
                            if catch(|| CuckooFilter::<It, HB>::from_fingerprint_bit_count_with_hashers(n, p, fb, hb(MIX))).is_ok() {
                                return Err(format!("{}: accepted although not even one entry per bucket meets the probability", what));
                            }
                            continue;
                        }
                        let f = catch(|| CuckooFilter::<It, HB>::from_fingerprint_bit_count_with_hashers(n, p, fb, hb(MIX)))
                            .map_err(|e| format!("{}: refused although {} entries per bucket meet the probability: {}", what, want, e))?;
                        geometry(&f, n, &what)?;
                        if f.fingerprint_bit_count() != fb || f.entries_per_index() != want {
                            return Err(format!("{}: {} bits, {} entries per bucket; the probability allows {}", what, f.fingerprint_bit_count(), f.entries_per_index(), want));
                        }
                    }
                }
                cc.beat();
            }
            Ok(())
        });
    }
    for fb in 2..=64usize {
        cs.add(format!("from_parameters, {} bits", fb), move |cc| {
            for b in [1usize, 2, 3, 4, 5, 8, 13] {
                for n in item_counts(cc.tier) {
                    let what = format!("from_parameters({}, {}, {})", n, fb, b);
                    let f = CuckooFilter::<It, HB>::from_parameters_with_hashers(n, fb, b, hb(MIX));
                    geometry(&f, n, &what)?;
                    let d = if n < 20 {
                        let d = CuckooFilter::<u32>::from_parameters(n, fb, b);
                        (d.entries_per_index(), d.fingerprint_bit_count(), d.bucket_len(), d.capacity())
                    } else {
                        (b, fb, f.bucket_len(), f.capacity())
                    };
                    cc.transitions += 1;
                    cc.traces += 1;
                    if f.entries_per_index() != b || f.fingerprint_bit_count() != fb || d != (b, fb, f.bucket_len(), f.capacity()) {
                        return Err(format!("{}: {} entries, {} bits; without hashers {:?}", what, f.entries_per_index(), f.fingerprint_bit_count(), d));
                    }
                    cc.state(format!("{} {} {}", f.bucket_len(), b, fb).as_bytes());
                }
                cc.beat();
            }
            // the estimate at every fill level
            for (nb, b) in [(1usize, 1usize), (1, 4), (4, 2), (8, 3), (16, 4)] {
                let g = Geo { nb, b, f: fb, mode: MIX };
                let mut f = g.build();
                for i in 0..(nb * b * 3) as u64 {
                    f.insert(&It(splitmix(i), splitmix(i + 99)));
                    cc.transitions += 1;
                    let x = f.len() as f64 / (nb * b) as f64;
                    let want = full_fpp(fb, b as f64 * x);
                    if (f.estimated_fpp() - want).abs() > 3e-16 * (2.0 * b as f64 + 2.0) + 1e-9 * want {
                        return Err(format!("{:?} with {} entries: estimated fpp {}, expected {}", g, f.len(), f.estimated_fpp(), want));
                    }
                }
                for i in 0..(nb * b * 3) as u64 {
                    f.remove(&It(splitmix(i), splitmix(i + 99)));
                    cc.transitions += 1;
                    let x = f.len() as f64 / (nb * b) as f64;
                    let want = full_fpp(fb, b as f64 * x);
                    if (f.estimated_fpp() - want).abs() > 3e-16 * (2.0 * b as f64 + 2.0) + 1e-9 * want {
                        return Err(format!("{:?} with {} entries: estimated fpp {}, expected {}", g, f.len(), f.estimated_fpp(), want));
                    }
                }
                cc.traces += 1;
            }
            Ok(())
        });
    }
    for fb in [13usize, 24, 40] {
        cs.add(format!("estimate of a large table, {} bits", fb), move |cc| {
            let g = Geo { nb: 1 << 15, b: 4, f: fb, mode: MIX };
            let mut f = g.build();
            for i in 0..115_000u64 {
                let x = It(splitmix(i), splitmix(i + (1 << 40)));
                f.insert(&x);
                if i % 5 == 4 {
                    f.remove(&It(splitmix(i / 2), splitmix(i / 2 + (1 << 40))));
                }
                cc.transitions += 1;
                if i % 64 == 0 {
                    cc.beat();
                }
                let want = full_fpp(fb, 4.0 * f.len() as f64 / (4 << 15) as f64);
                if (f.estimated_fpp() - want).abs() > 3e-16 * (2.0 * 4.0 + 2.0) + 1e-9 * want {
                    return Err(format!("{:?} with {} entries: estimated fpp {}, expected {}", g, f.len(), f.estimated_fpp(), want));
                }
            }
            if f.len() < 80_000 {
                return Err(format!("{:?}: only {} entries", g, f.len()));
            }
            cc.traces += 1;
            cc.state(&[fb as u8]);
            Ok(())
        });
    }
    cs.add("default geometry", move |cc| {
        for n in item_counts(cc.tier) {
            let f = CuckooFilter::<It, HB>::with_hashers(n, hb(MIX));
            geometry(&f, n, &format!("with_hashers({})", n))?;
            let d = CuckooFilter::<u32>::new(n);
            cc.transitions += 2;
            cc.traces += 2;
            cc.state(&f.bucket_len().to_le_bytes());
            if (f.entries_per_index(), f.fingerprint_bit_count()) != (4, 8) {
                return Err(format!("with_hashers({}): {} entries of {} bits instead of the documented 4 of 8", n, f.entries_per_index(), f.fingerprint_bit_count()));
            }
            if (d.entries_per_index(), d.fingerprint_bit_count(), d.bucket_len(), d.capacity()) != (4, 8, f.bucket_len(), f.capacity()) {
                return Err(format!("new({}) differs from with_hashers", n));
            }
        }
        Ok(())
    });
    cs.add("refused parameters", move |cc| {
        for (n, f, b) in [(0usize, 8usize, 4usize), (1, 0, 4), (1, 1, 4), (1, 65, 4), (1, 8, 0), (10, 128, 2)] {
            cc.transitions += 1;
            cc.traces += 1;
            cc.state(&[n as u8, f as u8, b as u8]);
            if catch(|| CuckooFilter::<It, HB>::from_parameters_with_hashers(n, f, b, hb(MIX))).is_ok() {
                return Err(format!("from_parameters({}, {}, {}) is accepted", n, f, b));
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C11, C12

#[derive(Clone, Copy, Debug)]
pub struct SP {
    pub n: usize,
    pub p: f64,
    pub b: usize,
    pub g: f64,
    pub t: f64,
    pub mode: u8,
}

impl SP {
    pub fn build(self) -> ScalableCuckooFilter<It, HB> {
        if self.b == 4 && self.n % 2 == 0 {
            // the default bucket size
            return ScalableCuckooFilter::with_hashers(self.n, self.p, self.g, self.t, hb(self.mode));
        }
        ScalableCuckooFilter::from_entries_per_index_with_hashers(self.n, self.p, self.b, self.g, self.t, hb(self.mode))
    }
    /// Geometry of a component, by the documented constructor (bound by C10).
    pub fn geo(&self, items: usize, k: usize) -> Geo {
        let c = CuckooFilter::<It, HB>::from_entries_per_index_with_hashers(items, self.p * self.t.powi(k as i32), self.b, hb(self.mode));
        Geo { nb: c.bucket_len(), b: self.b, f: c.fingerprint_bit_count(), mode: self.mode }
    }
}

#[derive(Clone)]
struct S11 {
    f: ScalableCuckooFilter<It, HB>,
    items: Arc<Vec<It>>,
    owned: u64,
    max: usize,
}

impl Sys for S11 {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = vec![];
        if self.f.filter_count() < self.max {
            v.extend(self.items.iter().map(|i| Op::Insert(*i)));
        }
        v.extend(self.items.iter().map(|i| Op::Remove(*i)));
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Insert(x) => {
                let i = self.items.iter().position(|y| y == x).unwrap();
                if !self.f.contains(x) {
                    self.owned |= 1 << i;
                }
                self.f.insert(x);
            }
            Op::Remove(x) => {
                let i = self.items.iter().position(|y| y == x).unwrap();
                let had = self.f.contains(x);
                if self.owned >> i & 1 == 0 && had {
                    // not covered: a false positive must not be removed
                    return Ok(());
                }
                let l = self.f.len();
                let obs: Vec<bool> = self.items.iter().map(|y| self.f.contains(y)).collect();
                self.f.remove(x);
                if !had {
                    let obs2: Vec<bool> = self.items.iter().map(|y| self.f.contains(y)).collect();
                    if l != self.f.len() || obs != obs2 {
                        return Err(format!("removing {:?}, which was not contained, changed the filter", x));
                    }
                }
                self.owned &= !(1 << i);
            }
            Op::Clear => {
                self.f.clear();
                self.owned = 0;
            }
        }
        for i in 0..self.items.len() {
            if self.owned >> i & 1 == 1 && !self.f.contains(&self.items[i]) {
                return Err(format!(
                    "{:?} was new when inserted and has not been removed, but is no longer contained ({} components, {} items)",
                    self.items[i], self.f.filter_count(), self.f.len()
                ));
            }
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        bytes_of(&self.f, o);
        o.extend_from_slice(&self.owned.to_le_bytes());
    }
}

#[derive(Clone)]
struct Comp {
    g: Geo,
    stored: Vec<Class>,
    /// Possible numbers of overflow entries.
    extra: Vec<usize>,
}

#[derive(Clone)]
struct S12 {
    f: ScalableCuckooFilter<It, HB>,
    sp: SP,
    items: Arc<Vec<It>>,
    comps: Vec<Comp>,
    max: usize,
}

impl S12 {
    fn new(sp: SP, items: Arc<Vec<It>>, max: usize) -> S12 {
        S12 { f: sp.build(), sp, items, comps: vec![Comp { g: sp.geo(sp.n, 0), stored: vec![], extra: vec![0] }], max }
    }
    fn has(&self, x: &It) -> bool {
        self.comps.iter().any(|c| c.stored.binary_search(&class(x, &c.g)).is_ok())
    }
}

impl Sys for S12 {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        let mut v: Vec<Op> = vec![];
        if self.comps.len() < self.max {
            v.extend(self.items.iter().map(|i| Op::Insert(*i)));
        }
        v.extend(self.items.iter().map(|i| Op::Remove(*i)));
        v.push(Op::Clear);
        v
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Insert(x) => {
                let had = self.has(x);
                self.f.insert(x);
                let count = self.comps.len();
                let grown = self.f.filter_count() as i64 - count as i64;
                let last = self.comps.last_mut().unwrap();
                let before = last.stored.clone();
                let c = class(x, &last.g);
                if !had {
                    let i = last.stored.binary_search(&c).unwrap_err();
                    last.stored.insert(i, c);
                }
                let cap = last.g.nb * last.g.b;
                let must = last.stored.len() >= cap || (!had && !placeable(&last.stored, last.g.nb, last.g.b));
                let may = must || (!had && before.len() >= (if c.i1 == c.i2 { last.g.b } else { 2 * last.g.b })
                    && can_block(&before, &c, last.g.b)
                    && (last.g.b > 1 || !placeable(&last.stored, last.g.nb, 1)));
                if grown < 0 || grown > 1 || (grown == 1 && !may) || (grown == 0 && must) {
                    return Err(format!(
                        "{} components after inserting {:?}, before: {}; the newest has {} of {} entries, overflow was {}",
                        self.f.filter_count(), x, count, last.stored.len(), cap,
                        if must && last.stored.len() < cap { "necessary" } else if may { "possible" } else { "impossible" }
                    ));
                }
                if grown == 1 {
                    last.extra = if last.stored.len() < cap || last.stored.len() > cap || !placeable(&last.stored, last.g.nb, last.g.b) {
                        vec![1]
                    } else if last.g.b == 1 {
                        vec![0]
                    } else {
                        vec![0, 1]
                    };
                    let k = self.comps.len();
                    let n = (cap as f64 * self.sp.g).ceil() as usize;
                    let g = self.sp.geo(n, k);
                    self.comps.push(Comp { g, stored: vec![], extra: vec![0] });
                }
            }
            Op::Remove(x) => {
                let had = self.has(x);
                if had {
                    // covered only for an item that one component alone reports: which of several
                    // would lose it is not documented
                    let n = self.comps.iter().filter(|c| c.stored.binary_search(&class(x, &c.g)).is_ok()).count();
                    if n != 1 {
                        return Ok(());
                    }
                }
                self.f.remove(x);
                for c in self.comps.iter_mut() {
                    if let Ok(i) = c.stored.binary_search(&class(x, &c.g)) {
                        c.stored.remove(i);
                        let mut e: Vec<usize> = vec![];
                        for &v in &c.extra {
                            if v <= c.stored.len() {
                                e.push(v);
                            }
                            if v > 0 {
                                e.push(v - 1);
                            }
                        }
                        e.sort_unstable();
                        e.dedup();
                        c.extra = e;
                    }
                }
            }
            Op::Clear => {
                self.f.clear();
                self.comps = vec![Comp { g: self.sp.geo(self.sp.n, 0), stored: vec![], extra: vec![0] }];
            }
        }
        let n: usize = self.comps.iter().map(|c| c.stored.len()).sum();
        let cap: usize = self.comps.iter().map(|c| c.g.nb * c.g.b).sum();
        if self.f.filter_count() != self.comps.len() {
            return Err(format!("{} components, expected {}", self.f.filter_count(), self.comps.len()));
        }
        if self.f.len() != n || self.f.is_empty() != (n == 0) {
            return Err(format!("length {} (is_empty {}), {} items are stored", self.f.len(), self.f.is_empty(), n));
        }
        if self.f.capacity() != cap {
            return Err(format!("capacity {}, the components have {}", self.f.capacity(), cap));
        }
        if self.f.entries_per_index() != self.sp.b {
            return Err(format!("{} entries per index", self.f.entries_per_index()));
        }
        // estimate: one minus the product of the complements, for some possible overflow
        let mut opts: Vec<f64> = vec![1.0];
        for c in &self.comps {
            let mut nx = vec![];
            for o in &opts {
                for e in &c.extra {
                    let x = (c.stored.len() - e) as f64 / (c.g.nb * c.g.b) as f64;
                    nx.push(o * (1.0 - full_fpp(c.g.f, c.g.b as f64 * x)));
                }
            }
            nx.sort_by(|a, b| a.partial_cmp(b).unwrap());
            nx.dedup();
            opts = nx;
        }
        let est = self.f.estimated_fpp();
        if !opts.iter().any(|o| (1.0 - o - est).abs() < 1e-11) {
            return Err(format!("estimated fpp {}, expected one of {:?}", est, opts.iter().map(|o| 1.0 - o).collect::<Vec<_>>()));
        }
        for x in self.items.iter() {
            let want = self.has(x);
            if self.f.contains(x) != want {
                return Err(format!("contains({:?}) = {}, the components say {}", x, !want, want));
            }
        }
        Ok(())
    }
    fn key(&self, o: &mut Vec<u8>) {
        bytes_of(&self.f, o);
        for c in &self.comps {
            for s in &c.stored {
                o.extend_from_slice(&s.fp.to_le_bytes());
                o.push(s.i1 as u8);
            }
            o.push(0xEE);
            o.extend(c.extra.iter().map(|e| *e as u8));
        }
    }
}

/// Items that collide in one component's fingerprint width but not in another's.
pub fn scalable_alphabet(sp: &SP, n: usize) -> Vec<It> {
    let g0 = sp.geo(sp.n, 0);
    let f = g0.f.min(40);
    let mut v = vec![
        It(1, 0),
        It(1 | 1 << f, 0),
        It(1 << f, 1),
        It(1 << f | 1 << (f + 7), 1),
        It(2, 1),
        It(3 | 3 << f, 2),
        It(1 | 1 << (f + 1), 0),
        It(2 | 1 << f, 3),
        It(0, 0),
        It(1, 1),
        It(3, 3),
        It(2 | 1 << (f + 1), 5),
    ];
    v.truncate(n);
    v
}

pub fn sps(tier: Tier) -> Vec<SP> {
    let mut v = vec![];
    for (n, b) in [(1usize, 1usize), (2, 1), (4, 1), (1, 2), (4, 2), (3, 3), (4, 4), (5, 4), (8, 4)] {
        for p in [0.5, 0.1, 0.01] {
            for (g, tt) in [(2.0, 0.5), (1.0, 0.5), (1.0, 1.0), (0.5, 0.9), (1.5, 0.7), (4.0, 0.25)] {
                for mode in [MIX, IDENT, ZERO] {
                    if tier == Tier::Quick && mode == ZERO && p != 0.1 {
                        continue;
                    }
                    v.push(SP { n, p, b, g, t: tt, mode });
                }
            }
        }
    }
    v
}

pub fn c11(cs: &mut Cases) {
    let tier = cs.tier;
    for ch in sps(tier).chunks(t(tier, 4, 2)) {
        let ch = ch.to_vec();
        cs.add(format!("{:?}..", ch[0]), move |cc| {
            for sp in ch.clone() {
                let items = Arc::new(scalable_alphabet(&sp, t(cc.tier, 8, 10)));
                let init = move || S11 { f: sp.build(), items: items.clone(), owned: 0, max: 5 };
                let o = Opts::rng(t(cc.tier, 7, 14), t(cc.tier, 4_000, 40_000), rng_cfg(sp.b, t(cc.tier, 2, 4)));
                let st = explore(cc, &init, &o).map_err(|e| format!("{:?}: {}", sp, e))?;
                cc.count("closed_searches", st.closed as u64);
            }
            Ok(())
        });
    }
    for sp in long_sps() {
        cs.add(format!("long {:?}", sp), move |cc| {
            let items = Arc::new((0..60u64).map(|i| It(splitmix(i), splitmix(i + 500))).collect::<Vec<_>>());
            let ops = long_ops(&items, t(cc.tier, 3, 12));
            linear(cc, S11 { f: sp.build(), items, owned: 0, max: 99 }, &ops, &None).map_err(|e| format!("{:?}: {}", sp, e))?;
            Ok(())
        });
    }
}

fn long_sps() -> Vec<SP> {
    let mut v = vec![];
    for (n, b) in [(1usize, 1usize), (4, 1), (4, 4), (10, 2), (20, 4)] {
        for p in [0.3, 0.05, 0.001] {
            for (g, tt) in [(2.0, 0.5), (1.0, 0.8), (1.3, 0.9), (1.0, 0.01), (0.2, 0.9), (16.0, 0.02), (33.0, 0.5), (1.0, 0.995)] {
                v.push(SP { n, p, b, g, t: tt, mode: MIX });
            }
        }
    }
    v
}

pub fn c12(cs: &mut Cases) {
    let tier = cs.tier;
    for ch in sps(tier).chunks(t(tier, 4, 2)) {
        let ch = ch.to_vec();
        cs.add(format!("{:?}..", ch[0]), move |cc| {
            for sp in ch.clone() {
                let items = Arc::new(scalable_alphabet(&sp, t(cc.tier, 8, 10)));
                let init = move || S12::new(sp, items.clone(), 5);
                let o = Opts::rng(t(cc.tier, 7, 14), t(cc.tier, 3_000, 25_000), rng_cfg(sp.b, t(cc.tier, 2, 4)));
                let st = explore(cc, &init, &o).map_err(|e| format!("{:?}: {}", sp, e))?;
                cc.count("closed_searches", st.closed as u64);
            }
            Ok(())
        });
    }
    for sp in long_sps() {
        cs.add(format!("long {:?}", sp), move |cc| {
            let items = Arc::new((0..60u64).map(|i| It(splitmix(i), splitmix(i + 500))).collect::<Vec<_>>());
            let ops = long_ops(&items, t(cc.tier, 3, 12));
            linear(cc, S12::new(sp, items, 99), &ops, &None).map_err(|e| format!("{:?}: {}", sp, e))?;
            Ok(())
        });
    }
    cs.add("constructors", |cc| {
        for n in 1..=40usize {
            for p in [0.5, 0.1, 0.01] {
                for b in [0usize, 1, 2, 3, 4, 8] {
                    let e = if b == 0 { 4 } else { b };
                    let r = SP { n, p, b: e, g: 2.0, t: 0.5, mode: MIX }.geo(n, 0);
                    let (a, c) = if b == 0 {
                        let f = ScalableCuckooFilter::<It, HB>::with_hashers(n, p, 2.0, 0.5, hb(MIX));
                        let d = ScalableCuckooFilter::<u32>::new(n, p, 2.0, 0.5);
                        ((f.entries_per_index(), f.capacity(), f.filter_count(), f.len()), (d.entries_per_index(), d.capacity(), d.filter_count(), d.len()))
                    } else {
                        let f = ScalableCuckooFilter::<It, HB>::from_entries_per_index_with_hashers(n, p, b, 2.0, 0.5, hb(MIX));
                        let d = ScalableCuckooFilter::<u32>::from_entries_per_index(n, p, b, 2.0, 0.5);
                        ((f.entries_per_index(), f.capacity(), f.filter_count(), f.len()), (d.entries_per_index(), d.capacity(), d.filter_count(), d.len()))
                    };
                    cc.transitions += 2;
                    cc.traces += 2;
                    cc.state(format!("{:?}", a).as_bytes());
                    let want = (e, r.nb * e, 1, 0);
                    if a != want || c != want {
                        return Err(format!("{} items, fpp {}, {} entries: (entries, capacity, components, length) {:?} and {:?}, expected {:?}", n, p, e, a, c, want));
                    }
                    // growth of the default constructors follows the given ratios
                    if b == 0 && n <= 8 {
                        for (g, tt) in [(2.0, 0.5), (1.0, 0.9), (3.0, 0.5)] {
                            let mut f = ScalableCuckooFilter::<u32>::new(n, p, g, tt);
                            let mut last = f.capacity();
                            let mut k = 1;
                            for i in 0..200u32 {
                                let c0 = f.capacity();
                                f.insert(&i);
                                cc.transitions += 1;
                                if f.filter_count() > k {
                                    k = f.filter_count();
                                    let add = f.capacity() - c0;
                                    let w = (last as f64 * g).ceil() as usize;
                                    let w = w.div_ceil(4).next_power_of_two() * 4;
                                    if add != w {
                                        return Err(format!("new({}, {}, {}, {}): component {} has capacity {}, expected {}", n, p, g, tt, k, add, w));
                                    }
                                    last = add;
                                }
                            }
                            cc.beat();
                        }
                    }
                }
            }
        }
        Ok(())
    });
}
