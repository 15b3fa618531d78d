//! C33: equality of cuckoo filters, Bloom filters and hash builders.

use crate::engine::*;
use crate::items::*;
use probabilistic_collections::bloom::BloomFilter;
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::SipHasherBuilder;
use rand_xorshift as rx;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hasher};

type F = CuckooFilter<u64>;

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(u64, u8),
    Remove(u64),
    Clear,
}

fn apply(f: &mut F, op: Op) {
    let (tail, go): (u8, Box<dyn Fn(&mut F)>) = match op {
        Op::Insert(x, t) => (t, Box::new(move |f| f.insert(&x))),
        Op::Remove(x) => (0, Box::new(move |f| f.remove(&x))),
        Op::Clear => (0, Box::new(|f| f.clear())),
    };
    let cfg = rx::Cfg { menu64: vec![0, u64::MAX / 2 + 4097, u64::MAX], menu32: vec![0, u32::MAX / 2 + 513, u32::MAX], max_branch: 0, tails: 3 };
    rx::begin(&cfg, &[tail]);
    go(f);
    rx::end();
}

/// What a filter answers.
fn answers(f: &F) -> Vec<u8> {
    let mut o: Vec<u8> = (0..96u64).map(|x| f.contains(&x) as u8).collect();
    for n in [f.len(), f.extra_items_len(), f.capacity(), f.entries_per_index(), f.fingerprint_bit_count(), f.bucket_len()] {
        o.extend_from_slice(&(n as u64).to_le_bytes());
    }
    o.push(f.is_empty() as u8);
    o.push(f.is_nearly_full() as u8);
    o.extend_from_slice(&f.estimated_fpp().to_bits().to_le_bytes());
    o.extend_from_slice(format!("{:?}", f.hashers()).as_bytes());
    o
}

/// Answers now and after each further operation.
fn behaviour(f: &F, ops: &[Op]) -> u128 {
    let mut o = answers(f);
    for op in ops {
        let mut g = f.clone();
        apply(&mut g, *op);
        o.extend(answers(&g));
    }
    hash128(&o)
}

struct State {
    what: String,
    f: F,
    bytes: Vec<u8>,
    seen: u128,
}

fn sip(a: u64, b: u64) -> SipHasherBuilder {
    SipHasherBuilder::from_seed(a, b)
}

fn collect(cc: &mut CC, name: &str, first: F, ops: &[Op], depth: usize, limit: usize, out: &mut Vec<State>) {
    let mut index: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut level: Vec<(F, Vec<Op>)> = vec![(first, vec![])];
    for d in 0..=depth {
        let mut next = vec![];
        for (f, path) in level {
            let mut bytes = vec![];
            bytes_of(&f, &mut bytes);
            if index.len() >= limit || index.insert(bytes.clone(), ()).is_some() {
                continue;
            }
            if d < depth {
                for op in ops {
                    let mut g = f.clone();
                    apply(&mut g, *op);
                    cc.transitions += 1;
                    let mut p = path.clone();
                    p.push(*op);
                    next.push((g, p));
                }
            }
            cc.traces += 1;
            cc.state(&bytes);
            cc.beat();
            let seen = behaviour(&f, ops);
            out.push(State { what: format!("{} after {:?}", name, path), f, bytes, seen });
        }
        level = next;
    }
}

pub fn c33(cs: &mut Cases) {
    let tier = cs.tier;
    // filters that share their number of slots and fingerprint width are compared with each other
    let groups: Vec<(usize, Vec<(usize, usize)>)> = vec![
        // width, (entries per bucket, item count)
        (2, vec![(1, 1), (1, 2), (2, 2), (2, 1)]),
        (2, vec![(1, 4), (2, 4), (4, 4), (2, 3)]),
        (3, vec![(1, 8), (2, 8), (4, 8), (8, 8)]),
        (8, vec![(1, 4), (2, 4), (4, 4)]),
        (13, vec![(1, 2), (2, 2)]),
        (32, vec![(1, 4), (2, 4)]),
        (64, vec![(1, 2), (2, 2), (1, 4)]),
    ];
    for (width, shapes) in groups {
        for seed in 0..t(tier, 3u64, 12) {
            let shapes = shapes.clone();
            cs.add(format!("filters with {} bits, shapes {:?}, seed {}", width, shapes, seed), move |cc| {
                let mut all: Vec<State> = vec![];
                let mut ops: Vec<Op> = vec![];
                for x in 0..5u64 {
                    ops.push(Op::Insert(x * 7 + seed, 0));
                    ops.push(Op::Insert(x * 7 + seed, 1));
                    ops.push(Op::Remove(x * 7 + seed));
                }
                ops.push(Op::Clear);
                let limit = t(cc.tier, 160, 700);
                for (e, n) in &shapes {
                    for (h, hs) in [[sip(seed, 1), sip(2, 3)], [sip(seed, 1), sip(2, 4)], [sip(seed, 0), sip(2, 3)], [sip(2, 3), sip(seed, 1)]].into_iter().enumerate() {
                        if h > 0 && *e > 1 {
                            continue;
                        }
                        let first = F::from_parameters_with_hashers(*n, width, *e, hs);
                        let limit = if h == 0 { limit } else { 12 };
                        collect(cc, &format!("{} items, {} entries, hashers {}", n, e, h), first, &ops, t(cc.tier, 5, 6), limit, &mut all);
                    }
                }
                let mut class: Vec<usize> = vec![];
                for i in 0..all.len() {
                    let a = &all[i];
                    let mut mine = None;
                    for j in 0..i {
                        let b = &all[j];
                        let eq = a.f == b.f;
                        if eq != (b.f == a.f) || eq == (a.f != b.f) {
                            return Err(format!("equality is not symmetric between {} and {}", a.what, b.what));
                        }
                        if eq && a.seen != b.seen {
                            return Err(format!("{} equals {}, which answers differently", a.what, b.what));
                        }
                        if a.bytes == b.bytes && !eq {
                            return Err(format!("{} does not equal {} although nothing tells them apart", a.what, b.what));
                        }
                        if eq && mine.is_none() {
                            mine = Some(class[j]);
                        }
                        if eq != (mine == Some(class[j])) && (eq || mine.is_some()) {
                            return Err(format!("equality is not transitive at {} and {}", a.what, b.what));
                        }
                        cc.count("pairs", 1);
                    }
                    class.push(mine.unwrap_or(i));
                    cc.beat();
                    let restored: F = bincode::deserialize(&a.bytes).map_err(|e| format!("{}: {}", a.what, e))?;
                    let mut over = F::from_parameters_with_hashers(9, 5, 3, [sip(9, 9), sip(8, 8)]);
                    over.insert(&3);
                    over.clone_from(&a.f);
                    for (copy, how) in [(a.f.clone(), "cloned"), (restored, "restored"), (over, "cloned over another")] {
                        if copy != a.f || a.f != copy || behaviour(&copy, &ops) != a.seen {
                            return Err(format!("{}: a {} filter is not equal to the original", a.what, how));
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // (bit count, item count) of groups whose members differ in one aspect at a time
    for (g, shapes) in [
        vec![(8usize, 4usize), (8, 8), (9, 4), (16, 8)],
        vec![(1, 1), (2, 2), (1, 2)],
        vec![(64, 64), (64, 40), (65, 64), (63, 64)],
        vec![(13, 3), (13, 2), (12, 3)],
    ]
    .into_iter()
    .enumerate()
    {
        cs.add(format!("Bloom filters of (bits, items) {:?}", shapes), move |cc| {
            type B = BloomFilter<It, HB>;
            let h = |id, mode| HB { id, mode };
            let builders = [[h(0, MIX), h(1, MIX)], [h(0, MIX), h(1, IDENT)], [h(0, IDENT), h(1, MIX)], [h(1, MIX), h(0, MIX)], [h(0, MIX), h(0, MIX)]];
            let items: Vec<It> = (0..t(cc.tier, 4u64, 5)).map(|i| It(splitmix(i) % 97, splitmix(i + 50) % 89)).collect();
            // (what, filter, parameters, builders, positions)
            #[allow(clippy::type_complexity)]
            let mut all: Vec<(String, B, (usize, usize), [HB; 2], Vec<usize>)> = vec![];
            for (len, n) in &shapes {
                for hs in &builders {
                    let fresh = B::from_item_count_with_hashers(*len, *n, *hs);
                    let k = fresh.hasher_count();
                    let base = items.len() + 1;
                    let depth = t(cc.tier, 3, 4);
                    // every history of insertions and clears
                    for code in 0..base.pow(depth) {
                        let (mut f, mut set, mut c, mut path) = (fresh.clone(), vec![], code, vec![]);
                        for _ in 0..depth {
                            let op = c % base;
                            c /= base;
                            path.push(op);
                            if op == items.len() {
                                f.clear();
                                set.clear();
                                continue;
                            }
                            f.insert(&items[op]);
                            let x = |b: HB| if b.id == 0 { items[op].0 } else { items[op].1 };
                            for i in 0..k as u64 {
                                set.push((derived(x(hs[0]), x(hs[1]), i) % *len as u64) as usize);
                            }
                        }
                        set.sort_unstable();
                        set.dedup();
                        cc.transitions += u64::from(depth);
                        cc.traces += 1;
                        cc.state(&[g as u8, *len as u8, k as u8, hs[0].id, hs[0].mode, hs[1].id, hs[1].mode, code as u8, (code >> 8) as u8]);
                        // all histories are compared for one builder pair, few for the others
                        if (hs != &builders[0] && code % 11 != 0) || (len, n) != (&shapes[0].0, &shapes[0].1) && code % 3 != 0 {
                            continue;
                        }
                        all.push((format!("{} bits, {} functions, {:?}, history {:?}", len, k, hs, path), f, (*len, k), *hs, set));
                    }
                    cc.beat();
                }
            }
            for i in 0..all.len() {
                let a = &all[i];
                for b in &all[..=i] {
                    let want = a.2 == b.2 && a.3 == b.3 && a.4 == b.4;
                    if (a.1 == b.1) != want || (b.1 == a.1) != want || (a.1 != b.1) == want {
                        return Err(format!("equality of a filter with {} and one with {} is {}", a.0, b.0, a.1 == b.1));
                    }
                    cc.count("pairs", 1);
                }
                let mut bytes = vec![];
                bytes_of(&a.1, &mut bytes);
                let restored: B = bincode::deserialize(&bytes).map_err(|e| format!("{}: {}", a.0, e))?;
                let mut over = B::from_item_count_with_hashers(70, 7, builders[1]);
                over.insert(&items[0]);
                over.clone_from(&a.1);
                if restored != a.1 || over != a.1 || a.1.clone() != a.1 {
                    return Err(format!("a copy of a filter with {} is not equal to it", a.0));
                }
                cc.beat();
            }
            Ok(())
        });
    }
    // large tables and long overflow lists that differ in one item
    for (n, width, e, items) in t(
        tier,
        vec![(1 << 15, 16usize, 4usize, 30_000u64), (1 << 12, 5, 4, 3_500), (1 << 17, 33, 2, 90_000), (1, 40, 1, 400), (2, 64, 3, 1_200)],
        vec![(1 << 15, 16, 4, 30_000), (1 << 12, 5, 4, 3_500), (1 << 17, 33, 2, 90_000), (1, 40, 1, 400), (2, 64, 3, 1_200), (1 << 18, 7, 4, 200_000), (1, 20, 1, 5_000)],
    ) {
        cs.add(format!("large filters: {} items wanted, {} bits, {} entries", n, width, e), move |cc| {
            let mut f = F::from_parameters_with_hashers(n, width, e, [sip(1, 2), sip(3, 4)]);
            for x in 0..items {
                apply(&mut f, Op::Insert(x, (x % 3) as u8));
                cc.transitions += 1;
            }
            let overflow = f.extra_items_len();
            let mut last: Option<(u64, F)> = None;
            for x in (0..items).step_by((items as usize / t(cc.tier, 4_000, 20_000)).max(1)) {
                let mut g = f.clone();
                if g != f || f != g {
                    return Err(format!("a clone with {} entries and {} more is not equal to the original", f.len(), overflow));
                }
                if !f.contains(&x) {
                    continue;
                }
                g.remove(&x);
                cc.transitions += 1;
                cc.traces += 1;
                if g.contains(&x) {
                    continue;
                }
                if g == f || f == g || !(g != f) {
                    return Err(format!("a filter with {} entries and {} more equals the same filter without item {}", f.len(), overflow, x));
                }
                // the same number of entries, one of them different
                if let Some((y, h)) = last.replace((x, g.clone())) {
                    let (mut a, mut b) = (g, h);
                    for step in 0..2 {
                        if a.contains(&x) != b.contains(&x) && (a == b || b == a || !(a != b)) {
                            return Err(format!("a filter of {} entries and {} more without item {} equals the one without item {} ({} insertions later)", f.len(), overflow, x, y, step * 100));
                        }
                        if step == 1 || x / 7 % 16 != 0 {
                            break;
                        }
                        for z in items..items + 100 {
                            apply(&mut a, Op::Insert(z, (z % 3) as u8));
                            apply(&mut b, Op::Insert(z, (z % 3) as u8));
                            cc.transitions += 2;
                        }
                    }
                }
                cc.state(&x.to_le_bytes());
                if x % 64 == 0 {
                    cc.beat();
                }
            }
            Ok(())
        });
    }
    for m in t(tier, vec![70_001usize, 200_003], vec![70_001, 200_003, 1_100_009]) {
        cs.add(format!("large Bloom filters of {} bits", m), move |cc| {
            let mut f = BloomFilter::<It, HB>::from_item_count_with_hashers(m, m, hb(MIX));
            for o in (0..m as u64).step_by(3) {
                f.insert(&It(o, 0));
            }
            let r = t(cc.tier, 1, 7);
            let mut last: Option<BloomFilter<It, HB>> = None;
            for o in (0..m as u64).step_by((m / 70_000 * r).max(1)).chain([m as u64 - 1, m as u64 - 2]) {
                let had = f.contains(&It(o, 0));
                if had != (o % 3 == 0) {
                    return Err(format!("position {}: contained is {}", o, had));
                }
                let mut g = f.clone();
                g.insert(&It(o, 0));
                cc.transitions += 1;
                if (f == g) != had || (g == f) != had || (f != g) == had {
                    return Err(format!("equality of two filters of {} bits that {} is {}", m, if had { "have the same bits" } else { "differ in one bit" }, f == g));
                }
                if !had {
                    // the same number of bits, in other places
                    if let Some(h) = last.replace(g.clone()).filter(|h| !h.contains(&It(o, 0))) {
                        cc.transitions += 1;
                        if g == h || h == g || !(g != h) {
                            return Err(format!("two filters of {} bits with equally many bits set, one of them position {}, are equal", m, o));
                        }
                    }
                }
                if o % 64 == 0 {
                    cc.beat();
                }
                cc.state(&o.to_le_bytes());
            }
            cc.traces += 1;
            Ok(())
        });
    }
    cs.add("hash builders", move |cc| {
        let mut words: Vec<u64> = vec![0, 1, 2, 255, 256, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 63, u64::MAX, u64::MAX - 1];
        words.extend((0..t(cc.tier, 5, 12)).map(splitmix));
        words.extend((0..64).step_by(9).map(|k| 1u64 << k));
        words.sort_unstable();
        words.dedup();
        let keys: Vec<(u64, u64)> = words.iter().flat_map(|a| words.iter().map(move |b| (*a, *b))).collect();
        let hashes = |s: &SipHasherBuilder| -> Vec<u64> {
            [&b""[..], b"a", b"probabilistic", &[0; 40]]
                .iter()
                .map(|m| {
                    let mut h = s.build_hasher();
                    h.write(m);
                    h.finish()
                })
                .collect()
        };
        let all: Vec<(SipHasherBuilder, Vec<u64>)> = keys.iter().map(|(a, b)| (sip(*a, *b), hashes(&sip(*a, *b)))).collect();
        for i in 0..all.len() {
            cc.traces += 1;
            cc.state(&(i as u64).to_le_bytes());
            cc.beat();
            for j in 0..all.len() {
                cc.transitions += 1;
                let eq = all[i].0 == all[j].0;
                if eq != (i == j) || eq == (all[i].0 != all[j].0) || eq != (all[i].1 == all[j].1) {
                    return Err(format!(
                        "hash builders with keys {:x?} and {:x?}: equal {}, the same hashes {}",
                        keys[i], keys[j], eq, all[i].1 == all[j].1
                    ));
                }
            }
            let mut bytes = vec![];
            bytes_of(&all[i].0, &mut bytes);
            let back: SipHasherBuilder = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
            #[allow(clippy::clone_on_copy)]
            for c in [back, all[i].0.clone(), all[i].0] {
                if c != all[i].0 || hashes(&c) != all[i].1 {
                    return Err(format!("a copy of the hash builder with keys {:x?} is not equal to it", keys[i]));
                }
            }
        }
        for _ in 0..200 {
            let (a, b) = (SipHasherBuilder::from_entropy(), SipHasherBuilder::from_entropy());
            cc.transitions += 2;
            if a != a.clone() || (a == b) != (hashes(&a) == hashes(&b)) {
                return Err(format!("hash builders {:?} and {:?}: equality does not follow their hashes", a, b));
            }
        }
        Ok(())
    });
}
