//! C22..C25: MinHash, SimHash, shingles and Jaccard similarity.

use crate::engine::*;
use crate::items::*;
use crate::iters::*;
use probabilistic_collections::similarity::*;
use std::collections::BTreeSet;
use std::hash::{BuildHasher, Hash, Hasher};
use std::vec::IntoIter;

type MH = MinHash<IntoIter<It>, It, HB>;
type SH = SimHash<IntoIter<It>, It, HB>;

fn ref_sig(l: &[It], k: usize) -> Vec<u64> {
    (0..k as u64).map(|i| l.iter().map(|x| derived(x.0, x.1, i)).min().unwrap()).collect()
}

/// All lists up to the length over the alphabet.
fn lists<T: Clone>(alpha: &[T], len: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut from = 0;
    for _ in 0..len {
        let to = all.len();
        for i in from..to {
            for a in alpha {
                let mut l: Vec<T> = all[i].clone();
                l.push(a.clone());
                all.push(l);
            }
        }
        from = to;
    }
    all
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for i in 0..n {
        let mut w = vec![];
        for p in &v {
            for k in 0..=i {
                let mut q: Vec<usize> = p.clone();
                q.insert(k, i);
                w.push(q);
            }
        }
        v = w;
    }
    v
}

fn min_items() -> Vec<It> {
    vec![
        It(0, 0), It(u64::MAX, 1), It(5, u64::MAX), It(1 << 63, 1 << 62), It(7, 1), It(6, 3), It(u64::MAX - 3, 2), It(splitmix(1), splitmix(2)),
        It(splitmix(3), splitmix(4)),
    ]
}

pub fn c22(cs: &mut Cases) {
    let tier = cs.tier;
    // signatures of all lists
    for part in 0..4usize {
        cs.add(format!("signatures, part {}", part), move |cc| {
            let items = min_items();
            let alpha: Vec<It> = (0..t3(tier, 5, 6, 7)).map(|i| items[(i + 2 * part) % items.len()]).collect();
            for l in lists(&alpha, t(tier, 5, 6)) {
                if l.is_empty() {
                    continue;
                }
                let mut prev: Vec<u64> = vec![];
                for k in [1usize, 2, 3, 4, 7, 12] {
                    let m = MH::with_hashers(k, hb(MIX));
                    let got = m.get_min_hashes(l.clone().into_iter());
                    let want = ref_sig(&l, k);
                    cc.transitions += 1;
                    if got != want || m.hasher_count() != k {
                        return Err(format!("{} min-hashes of {:?}: {:x?}, expected {:x?}", k, l, got, want));
                    }
                    if got[..prev.len()] != prev[..] {
                        return Err(format!("{} min-hashes of {:?} are not an extension of {}", k, l, prev.len()));
                    }
                    prev = got;
                }
                cc.traces += 1;
                cc.state(&prev.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
                if cc.traces % 64 == 0 {
                    cc.beat();
                }
            }
            Ok(())
        });
    }
    // items that share one of their two hashes, or both
    cs.add("signatures of items with equal hashes", move |cc| {
        for vals in [[0u64, 1, 2], [5, u64::MAX, 1 << 63], [splitmix(1), splitmix(2), splitmix(3)]] {
            let alpha: Vec<It> = (0..9).map(|i| It(vals[i / 3], vals[i % 3])).collect();
            for l in lists(&alpha, t3(tier, 3, 4, 5)) {
                if l.is_empty() {
                    continue;
                }
                let k = 5;
                let m = MH::with_hashers(k, hb(MIX));
                let (got, want) = (m.get_min_hashes(l.clone().into_iter()), ref_sig(&l, k));
                cc.transitions += 1;
                if got != want {
                    return Err(format!("{} min-hashes of {:?}: {:x?}, expected {:x?}", k, l, got, want));
                }
                cc.traces += 1;
                cc.state(format!("{:?}", l).as_bytes());
                if cc.traces % 64 == 0 {
                    cc.beat();
                }
            }
        }
        Ok(())
    });
    cs.add("every size hint", move |cc| {
        let items = min_items();
        let m = MinHash::<Feed<It>, It, HB>::with_hashers(4, hb(MIX));
        let long: Vec<It> = (0..300).map(|i| It(splitmix(i), splitmix(i + 999))).collect();
        let mut all = lists(&items[..t3(tier, 4, 5, 6)], t3(tier, 3, 4, 4));
        all.extend([long.clone(), long[..33].to_vec(), long[..17].to_vec()]);
        for l in all.iter().filter(|l| !l.is_empty()) {
            let want = ref_sig(l, 4);
            for h in 0..HINTS {
                cc.transitions += 2;
                let got = m.get_min_hashes(feed(l.clone(), h));
                if got != want {
                    return Err(format!("min-hashes of {:?} under size hint {:?}: {:x?}, expected {:x?}", l, feed(l.clone(), h).size_hint(), got, want));
                }
                let other = ref_sig(&items[2..5], 4);
                let s = want.iter().zip(&other).filter(|(x, y)| x == y).count() as f64 / 4.0;
                let got = [m.get_similarity(feed(l.clone(), h), feed(items[2..5].to_vec(), (h + 3) % HINTS)), m.get_similarity(feed(items[2..5].to_vec(), (h + 5) % HINTS), feed(l.clone(), h))];
                if got != [s, s] {
                    return Err(format!("similarity of {:?} under size hint {:?}: {:?}, expected {}", l, feed(l.clone(), h).size_hint(), got, s));
                }
            }
            cc.traces += 1;
            cc.state(format!("{:?}", l).as_bytes());
            cc.beat();
        }
        Ok(())
    });
    cs.add("long signatures", |cc| {
        let items = min_items();
        for k in [1usize, 63, 64, 65, 255, 256, 257, 1000, 5000] {
            let m = MH::with_hashers(k, hb(MIX));
            for n in 1..=items.len() {
                let got = m.get_min_hashes(items[..n].to_vec().into_iter());
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(&[n as u8, k as u8, (k >> 8) as u8]);
                if got != ref_sig(&items[..n], k) {
                    return Err(format!("{} min-hashes of {} items", k, n));
                }
            }
            cc.beat();
        }
        // many items
        let many: Vec<It> = (0..1_100_000).map(|i| It(splitmix(i), splitmix(i + 7_777_777))).collect();
        for n in [1, 10, 100, 255, 256, 257, 1000, 3000, 4097, 32_769, 65_535, 65_536, 65_537, 70_001, 131_073, 1_100_000] {
            let k = if n > 5000 { 3 } else { 20 };
            let m = MH::with_hashers(k, hb(MIX));
            let mut l = many[..n].to_vec();
            let a = m.get_min_hashes(l.clone().into_iter());
            l.reverse();
            l.extend(many[..n / 2].iter().cloned());
            cc.transitions += 2;
            if a != ref_sig(&l, k) || m.get_min_hashes(l.into_iter()) != a {
                return Err(format!("min-hashes of {} items", n));
            }
            cc.beat();
        }
        // long signatures of many items
        for (k, n) in t(cc.tier, vec![(300usize, 70_001usize), (5_000, 5_000), (70_001, 600), (66_000, 4_200), (140_000, 40)], vec![(300, 70_001), (5_000, 70_001), (70_001, 6_000), (300_000, 5_000), (1_100_000, 40)]) {
            let m = MH::with_hashers(k, hb(MIX));
            let mut l = many[..n].to_vec();
            let a = m.get_min_hashes(l.clone().into_iter());
            cc.beat();
            l.reverse();
            l.extend(many[..n / 3].iter().cloned());
            cc.transitions += 2;
            cc.traces += 1;
            if m.get_min_hashes(l.clone().into_iter()) != a {
                return Err(format!("{} min-hashes of {} items depend on their order", k, n));
            }
            cc.beat();
            if let Some(i) = ref_sig(&l, k).iter().zip(&a).position(|(x, y)| x != y) {
                return Err(format!("{} min-hashes of {} items: wrong at position {}", k, n, i));
            }
            if a.len() != k {
                return Err(format!("{} min-hashes instead of {}", a.len(), k));
            }
            cc.beat();
        }
        // the item that decides the signature comes last
        for n in [2usize, 17, 257, 4097, 65_537, 300_001] {
            let m = MH::with_hashers(2, hb(MIX));
            let mut l = vec![It(u64::MAX - 5, 3); n - 1];
            l.push(It(1, 1));
            cc.transitions += 2;
            let a = m.get_min_hashes(l.clone().into_iter());
            if a != ref_sig(&l, 2) {
                return Err(format!("min-hashes of {} items, the last of which decides", n));
            }
            l.pop();
            if m.get_similarity(l.clone().into_iter(), vec![It(u64::MAX - 5, 3)].into_iter()) != 1.0 {
                return Err(format!("{} copies of an item against one", n - 1));
            }
            cc.beat();
        }
        Ok(())
    });
    cs.add("similarities of long signatures", |cc| {
        for k in [100usize, 127, 128, 129, 255, 256, 257, 300, 1000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_003] {
            let m = MH::with_hashers(k, hb(MIX));
            let items: Vec<It> = (0..6).map(|i| It(splitmix(i), splitmix(i + 99))).collect();
            for (a, b) in [(0..6, 0..6), (0..3, 0..6), (0..4, 2..6), (0..3, 3..6), (0..1, 0..6)] {
                let (sa, sb) = (items[a].to_vec(), items[b].to_vec());
                let (ha, hb2) = (m.get_min_hashes(sa.clone().into_iter()), m.get_min_hashes(sb.clone().into_iter()));
                let want = ha.iter().zip(&hb2).filter(|(x, y)| x == y).count() as f64 / k as f64;
                cc.transitions += 3;
                cc.traces += 1;
                cc.state(format!("{} {:?} {:?}", k, sa, sb).as_bytes());
                let got = [m.get_similarity(sa.clone().into_iter(), sb.clone().into_iter()), m.get_similarity_from_hashes(&ha, &hb2)];
                if got.iter().any(|g| (g - want).abs() > 1e-12) {
                    return Err(format!("similarity of {:?} and {:?} under {} hashers: {:?}, fraction of equal hashes {}", sa, sb, k, got, want));
                }
                cc.beat();
            }
            // every number of equal positions near the ends and the word boundaries
            let ha: Vec<u64> = (0..k as u64).map(splitmix).collect();
            for e in [0usize, 1, 2, 127, 128, 255, 256, 257, 511, 512, 65_535, 65_536, k / 2, k - 1, k] {
                if e > k {
                    continue;
                }
                for front in [false, true] {
                    let hb2: Vec<u64> = (0..k).map(|i| if (front && i < e) || (!front && i >= k - e) { ha[i] } else { !ha[i] }).collect();
                    cc.transitions += 1;
                    let got = m.get_similarity_from_hashes(&ha, &hb2);
                    if (got - e as f64 / k as f64).abs() > 1e-12 {
                        return Err(format!("similarity {} of signatures with {} of {} hashes equal", got, e, k));
                    }
                }
            }
            cc.beat();
        }
        Ok(())
    });
    // similarity of all pairs of sets
    for part in 0..3usize {
        cs.add(format!("similarities, part {}", part), move |cc| {
            let items = min_items();
            let n = t3(tier, 5usize, 6, 7);
            let alpha: Vec<It> = (0..n).map(|i| items[(i + 3 * part) % items.len()]).collect();
            let set = |m: usize| -> Vec<It> { (0..n).filter(|i| m >> i & 1 == 1).map(|i| alpha[i]).collect() };
            for k in [1usize, 2, 3, 5, 10] {
                let m = MH::with_hashers(k, hb(MIX));
                for a in 1..1usize << n {
                    for b in 1..1usize << n {
                        let (sa, sb) = (set(a), set(b));
                        let (ha, hb2) = (m.get_min_hashes(sa.clone().into_iter()), m.get_min_hashes(sb.clone().into_iter()));
                        let hu = m.get_min_hashes(set(a | b).into_iter());
                        let min: Vec<u64> = ha.iter().zip(&hb2).map(|(x, y)| *x.min(y)).collect();
                        cc.transitions += 2;
                        cc.traces += 1;
                        cc.state(&[k as u8, a as u8, b as u8]);
                        if hu != min {
                            return Err(format!("signature of the union of {:?} and {:?}: {:x?}, element-wise minimum {:x?}", sa, sb, hu, min));
                        }
                        let want = ha.iter().zip(&hb2).filter(|(x, y)| x == y).count() as f64 / k as f64;
                        let mut rev = sb.clone();
                        rev.reverse();
                        rev.push(sb[0]);
                        let got = [
                            m.get_similarity(sa.clone().into_iter(), sb.clone().into_iter()),
                            m.get_similarity(sb.clone().into_iter(), sa.clone().into_iter()),
                            m.get_similarity(sa.clone().into_iter(), rev.into_iter()),
                            m.get_similarity_from_hashes(&ha, &hb2),
                            m.get_similarity_from_hashes(&hb2, &ha),
                        ];
                        if got.iter().any(|g| (g - want).abs() > 1e-12 || !(0.0..=1.0).contains(g)) || (a == b && got[0] != 1.0) {
                            return Err(format!("similarity of {:?} and {:?} with {} hashes: {:?}, expected {}", sa, sb, k, got, want));
                        }
                    }
                    cc.beat();
                }
            }
            Ok(())
        });
    }
    // exact expectation over all rankings, at each signature position
    for pos in 0..t3(tier, 6u64, 10, 20) {
        for n in 1..=t3(tier, 5usize, 6, 7) {
            cs.add(format!("rankings of {} items at position {}", n, pos), move |cc| {
                let m = MH::with_hashers(pos as usize + 1, hb(MIX));
                let perms = permutations(n);
                // each item belongs to the first set, the second or both
                let parts = 3usize.pow(n as u32);
                let mut hits = vec![0u64; parts];
                for p in &perms {
                    let items: Vec<It> = (0..n)
                        .map(|x| {
                            let b = splitmix(x as u64 + 31 * pos);
                            let target = (p[x] as u64 + 1) << 60 | 0x123;
                            It(target.wrapping_sub(derived(0, b, pos)), b)
                        })
                        .collect();
                    for (q, hit) in hits.iter_mut().enumerate() {
                        let (mut a, mut b) = (vec![], vec![]);
                        let mut y = q;
                        for i in &items {
                            if y % 3 != 1 {
                                a.push(*i);
                            }
                            if y % 3 != 0 {
                                b.push(*i);
                            }
                            y /= 3;
                        }
                        if a.is_empty() || b.is_empty() {
                            continue;
                        }
                        let (x, y) = (m.get_min_hashes(a.into_iter()), m.get_min_hashes(b.into_iter()));
                        *hit += u64::from(x[pos as usize] == y[pos as usize]);
                        cc.transitions += 1;
                    }
                    cc.beat();
                }
                for (q, h) in hits.iter().enumerate() {
                    let mut both = 0;
                    let (mut a, mut b) = (0, 0);
                    let mut y = q;
                    for _ in 0..n {
                        both += u64::from(y % 3 == 2);
                        a += u64::from(y % 3 != 1);
                        b += u64::from(y % 3 != 0);
                        y /= 3;
                    }
                    if a == 0 || b == 0 {
                        continue;
                    }
                    cc.state(&(q as u64).to_le_bytes());
                    cc.traces += 1;
                    if h * n as u64 != both * perms.len() as u64 {
                        return Err(format!("two sets of {} and {} items, {} of them common, agree at position {} in {} of {} rankings", a, b, both, pos, h, perms.len()));
                    }
                }
                Ok(())
            });
        }
    }
    cs.add("default hashers", |cc| {
        let words: Vec<String> = (0..40).map(|i| format!("word{}", i)).collect();
        for round in 0..30u64 {
            let k = 1 + (round as usize * 7) % 40;
            let m = MinHash::<IntoIter<&str>, &str>::new(k);
            let m2 = MinHash::<IntoIter<&str>, &str>::with_hashers(k, *m.hashers());
            let f = |b: &probabilistic_collections::SipHasherBuilder, w: &&str| {
                let mut x = b.build_hasher();
                w.hash(&mut x);
                x.finish()
            };
            let l: Vec<&str> = words.iter().enumerate().filter(|(i, _)| splitmix(*i as u64 * 100 + round) % 3 > 0).map(|(_, w)| w.as_str()).collect();
            let its: Vec<It> = l.iter().map(|w| It(f(&m.hashers()[0], w), f(&m.hashers()[1], w))).collect();
            let got = m.get_min_hashes(l.clone().into_iter());
            cc.transitions += 1;
            cc.traces += 1;
            cc.state(&[round as u8]);
            if got != ref_sig(&its, k) || got != m2.get_min_hashes(l.clone().into_iter()) || m.hasher_count() != k {
                return Err(format!("min-hashes of {:?} with default hashers", l));
            }
            if m.get_similarity(l.clone().into_iter(), l.into_iter()) != 1.0 {
                return Err("equal sets differ".into());
            }
        }
        Ok(())
    });
}

fn sim(s: &SH, hs: &[u64]) -> u64 {
    s.get_sim_hash(hs.iter().map(|h| It(*h, 0)).collect::<Vec<_>>().into_iter())
}

/// Which sim-hash bit each hash bit decides, and the outcome for hash bit 0, 1 and a tie.
struct Map {
    bit: [u32; 64],
    zero: u64,
    one: u64,
    tie: u64,
}

fn mapping(s: &SH) -> Result<Map, String> {
    let base = sim(s, &[0]);
    let ones = sim(s, &[u64::MAX]);
    if base ^ ones != u64::MAX {
        return Err(format!("sim-hash of a hash of zeros is {:#x}, of ones {:#x}", base, ones));
    }
    let mut m = Map { bit: [0; 64], zero: base, one: ones, tie: sim(s, &[]) };
    let mut seen = 0u64;
    for i in 0..64 {
        let d = sim(s, &[1 << i]) ^ base;
        if d.count_ones() != 1 || seen & d != 0 {
            return Err(format!("hash bit {} decides the sim-hash bits {:#x} (others are taken: {:#x})", i, d, seen));
        }
        seen |= d;
        m.bit[i] = d.trailing_zeros();
    }
    if m.tie != 0 && m.tie != u64::MAX {
        return Err(format!("ties are decided as {:#x}", m.tie));
    }
    Ok(m)
}

impl Map {
    fn expect(&self, hs: &[u64]) -> u64 {
        let mut r = 0u64;
        for i in 0..64 {
            let ones = hs.iter().filter(|h| *h >> i & 1 == 1).count();
            let zeros = hs.len() - ones;
            let b = 1u64 << self.bit[i];
            r |= b & match ones.cmp(&zeros) {
                std::cmp::Ordering::Less => self.zero,
                std::cmp::Ordering::Greater => self.one,
                std::cmp::Ordering::Equal => self.tie,
            };
        }
        r
    }
}

type Rep = std::iter::Take<std::iter::Repeat<It>>;

pub fn c23(cs: &mut Cases) {
    let tier = cs.tier;
    // the truth table of each bit for every list of up to n items, at each of the 64 positions
    for n in 1..=t3(tier, 8usize, 11, 14) {
        cs.add(format!("{} items, every bit pattern", n), move |cc| {
            let s = SH::with_hasher(h0());
            let m = mapping(&s)?;
            for shift in 0..(1u64 << n) {
                // bit i of item k is bit k of the pattern (i + shift)
                let hs: Vec<u64> = (0..n).map(|k| (0..64u64).fold(0, |a, i| a | ((i + shift) >> k & 1) << i)).collect();
                let got = sim(&s, &hs);
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(&[n as u8, shift as u8, (shift >> 8) as u8]);
                if got != m.expect(&hs) {
                    return Err(format!("sim-hash of {:x?}: {:#x}, majority {:#x}", hs, got, m.expect(&hs)));
                }
                let twice: Vec<u64> = hs.iter().chain(&hs).cloned().collect();
                let mut back = hs.clone();
                back.reverse();
                back.rotate_left(n / 3);
                if sim(&s, &twice) != got || sim(&s, &back) != got {
                    return Err(format!("sim-hash of {:x?} changes when repeated as a whole or reordered", hs));
                }
                cc.beat();
            }
            Ok(())
        });
    }
    cs.add("every size hint", move |cc| {
        let m = mapping(&SH::with_hasher(h0()))?;
        let s = SimHash::<Feed<It>, It, HB>::with_hasher(h0());
        let mut all = lists(&[1u64, !1, 0x0F0F_F0F0_1234_5678], t3(tier, 6, 8, 10));
        all.push((0..1000).map(splitmix).collect());
        for l in &all {
            for h in 0..HINTS {
                let f = feed(l.iter().map(|h| It(*h, 0)).collect(), h);
                let (hint, got) = (f.size_hint(), s.get_sim_hash(f));
                cc.transitions += 1;
                if got != m.expect(l) {
                    return Err(format!("sim-hash of {:x?} under size hint {:?}: {:#x}, majority {:#x}", l, hint, got, m.expect(l)));
                }
            }
            cc.traces += 1;
            cc.state(format!("{:?}", l).as_bytes());
            cc.beat();
        }
        Ok(())
    });
    cs.add("every order of 5 items", move |cc| {
        let s = SH::with_hasher(h0());
        let m = mapping(&s)?;
        for base in [[0u64, u64::MAX, 0x0F0F_0F0F_0F0F_0F0F, 1 << 63, 3], [1, 1, 2, 2, 4], [splitmix(1), splitmix(2), splitmix(3), splitmix(4), splitmix(5)]] {
            for p in permutations(t(tier, 5, 5)) {
                let hs: Vec<u64> = p.iter().map(|i| base[*i]).collect();
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(&hs.iter().map(|h| *h as u8).collect::<Vec<u8>>());
                if sim(&s, &hs) != m.expect(&base) {
                    return Err(format!("sim-hash of {:x?}", hs));
                }
            }
            cc.beat();
        }
        Ok(())
    });
    cs.add("votes beyond 2^24", move |cc| {
        let m = mapping(&SH::with_hasher(h0()))?;
        let s = SimHash::<std::iter::Chain<Rep, Rep>, It, HB>::with_hasher(h0());
        let top = (1usize << 24) + 7;
        for (first, second, n1, n2) in t(
            cc.tier,
            vec![(0x0F0F_F0F0_1234_5678u64, !0x0F0F_F0F0_1234_5678u64, top, top - 2), (u64::MAX, 0, 0, 0)],
            vec![(0x0F0F_F0F0_1234_5678, !0x0F0F_F0F0_1234_5678, top, top - 2), (0, u64::MAX, top, top + 2), (u64::MAX, 0, top, top + 2)],
        ) {
            if n1 == 0 {
                continue;
            }
            let rep = |h: u64, n: usize| -> Rep { std::iter::repeat(It(h, 0)).take(n) };
            let got = std::thread::scope(|sc| {
                let h = sc.spawn(|| s.get_sim_hash(rep(first, n1).chain(rep(second, n2))));
                while !h.is_finished() {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    cc.beat();
                }
                h.join().map_err(|_| "panicked".to_string())
            })?;
            let want = m.expect(&[if n1 > n2 { first } else { second }]);
            cc.transitions += (n1 + n2) as u64;
            cc.traces += 1;
            cc.state(&first.to_le_bytes());
            if got != want {
                return Err(format!("sim-hash of {} times {:#x} and {} times {:#x}: {:#x}, majority {:#x}", n1, first, n2, second, got, want));
            }
        }
        Ok(())
    });
    // large votes with margins of -1, 0, 1
    cs.add("large votes", move |cc| {
        let s = SH::with_hasher(h0());
        let m = mapping(&s)?;
        for n in [1usize, 2, 62, 63, 64, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 511, 512, 1000, 32_766, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537] {
            for pat in [u64::MAX, 1, 0xAAAA_AAAA_AAAA_AAAA, splitmix(n as u64)] {
                if pat != u64::MAX && n > t(tier, 1000, 100_000) {
                    continue;
                }
                for (ones, zeros) in [(n, 0), (0, n), (n, n), (n, n + 1), (n + 1, n)] {
                    let mut hs = vec![pat; ones];
                    hs.extend(vec![!pat; zeros]);
                    let want = m.expect(if ones == zeros { &[1, !1] } else if ones > zeros { std::slice::from_ref(&pat) } else { &[0] });
                    let want = if zeros > ones { m.expect(&[!pat]) } else { want };
                    cc.transitions += 1;
                    cc.traces += 1;
                    cc.state(&[n as u8, (n >> 8) as u8, (n >> 16) as u8, pat as u8, ones.cmp(&zeros) as u8, zeros.min(1) as u8]);
                    if sim(&s, &hs) != want {
                        return Err(format!("{} items of hash {:#x} and {} of {:#x}: {:#x}, majority {:#x}", ones, pat, zeros, !pat, sim(&s, &hs), want));
                    }
                    hs.reverse();
                    if sim(&s, &hs) != want {
                        return Err(format!("{} items of hash {:#x} and {} of {:#x}, reversed: {:#x}, majority {:#x}", ones, pat, zeros, !pat, sim(&s, &hs), want));
                    }
                    cc.beat();
                }
            }
        }
        Ok(())
    });
    // all lists over a few hashes
    cs.add("all lists", move |cc| {
        let s = SH::with_hasher(h0());
        let m = mapping(&s)?;
        for l in lists(&[0u64, u64::MAX, 0x00FF_00FF_00FF_00FF, 0x8000_0000_0000_0001, splitmix(77)], t3(tier, 6, 8, 9)) {
            cc.transitions += 1;
            cc.traces += 1;
            if sim(&s, &l) != m.expect(&l) {
                return Err(format!("sim-hash of {:x?}: {:#x}, majority {:#x}", l, sim(&s, &l), m.expect(&l)));
            }
            let mut k = l.clone();
            k.sort_unstable();
            cc.state(&k.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
            if cc.traces % 64 == 0 {
                cc.beat();
            }
        }
        Ok(())
    });
    cs.add("default hashers", |cc| {
        let words: Vec<String> = (0..30).map(|i| format!("word{}", i)).collect();
        for round in 0..30u64 {
            let d = if round % 2 == 0 { SimHash::<IntoIter<&str>, &str>::new() } else { SimHash::default() };
            let e = SimHash::<IntoIter<&str>, &str>::with_hasher(*d.hasher());
            // the vote is the same as with chosen hashes
            let m = mapping(&SH::with_hasher(h0()))?;
            let l: Vec<&str> = words.iter().enumerate().filter(|(i, _)| splitmix(*i as u64 * 77 + round) % 3 > 0).map(|(_, w)| w.as_str()).collect();
            let hs: Vec<u64> = l
                .iter()
                .map(|w| {
                    let mut x = d.hasher().build_hasher();
                    w.hash(&mut x);
                    x.finish()
                })
                .collect();
            cc.transitions += 2;
            cc.traces += 2;
            cc.state(&[round as u8]);
            let got = d.get_sim_hash(l.clone().into_iter());
            if got != m.expect(&hs) || e.get_sim_hash(l.clone().into_iter()) != got {
                return Err(format!("sim-hash of {:?} with default hashers: {:#x}", l, got));
            }
        }
        Ok(())
    });
}

/// Reference report over the sim-hashes.
fn report(window: usize, sims: &[u64]) -> BTreeSet<(usize, usize)> {
    let mut out = BTreeSet::new();
    let n = sims.len();
    if n > 300 && n < 5000 {
        let mut near = vec![false; n * n];
        for rot in 0..64 {
            let mut v: Vec<(u64, usize)> = sims.iter().enumerate().map(|(i, s)| (s.rotate_left(rot), i)).collect();
            v.sort_unstable();
            for i in 0..n {
                for j in i + 1..n.min(i.saturating_add(window)) {
                    near[v[i].1.min(v[j].1) * n + v[i].1.max(v[j].1)] = true;
                }
            }
        }
        return near.iter().enumerate().filter(|x| *x.1).map(|x| (x.0 / n, x.0 % n)).collect();
    }
    for rot in 0..64 {
        let mut v: Vec<(u64, usize)> = sims.iter().enumerate().map(|(i, s)| (s.rotate_left(rot), i)).collect();
        v.sort_unstable();
        for i in 0..v.len() {
            for j in i + 1..v.len().min(i.saturating_add(window)) {
                out.insert((v[i].1.min(v[j].1), v[i].1.max(v[j].1)));
            }
        }
    }
    out
}

fn check_report(s: &SH, window: usize, l: &[Vec<It>]) -> Result<Vec<(usize, usize)>, String> {
    let sims: Vec<u64> = l.iter().map(|x| s.get_sim_hash(x.clone().into_iter())).collect();
    let got = catch(|| s.report_similarities(window, l.iter().map(|x| x.clone().into_iter()).collect()))
        .map_err(|p| format!("report with window {} over the sim-hashes {:x?} panicked: {}", window, sims, p))?;
    let set: BTreeSet<(usize, usize)> = got.iter().cloned().collect();
    if set.len() != got.len() {
        return Err(format!("report with window {} over the sim-hashes {:x?} lists a pair twice: {:?}", window, sims, got));
    }
    let want = report(window, &sims);
    if set != want && l.len() > 300 {
        let (few, many): (Vec<_>, Vec<_>) = (want.difference(&set).take(5).collect(), set.difference(&want).take(5).collect());
        return Err(format!("report with window {} over {} sim-hashes: {} pairs, expected {}; missing {:?}.., too many {:?}..", window, l.len(), set.len(), want.len(), few, many));
    }
    if set != want {
        return Err(format!("report with window {} over the sim-hashes {:x?}: {:?}, expected {:?}", window, sims, set, want));
    }
    Ok(got)
}

pub fn c24(cs: &mut Cases) {
    let tier = cs.tier;
    let alphas: Vec<Vec<u64>> = vec![
        vec![0, u64::MAX, 1, 0x8000_0000_0000_0000, 0x0F0F_F0F0_1234_5678],
        vec![1, 2, 4, 3, 0x8000_0000_0000_0001],
        vec![splitmix(1), splitmix(1) ^ 1, splitmix(1) ^ (1 << 63), !splitmix(1), splitmix(2)],
        vec![0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA, 0x5555_5555_5555_5554, 0xFFFF_FFFF, 0xFFFF_FFFF_0000_0000],
    ];
    for (n, alpha) in alphas.into_iter().enumerate() {
        for first in 0..alpha.len() {
            let alpha = alpha.clone();
            cs.add(format!("all lists, alphabet {}, first {}", n, first), move |cc| {
                let s = SH::with_hasher(h0());
                for l in lists(&alpha, t3(tier, 4, 5, 6)) {
                    let mut l2 = vec![alpha[first]];
                    l2.extend(l);
                    let l: Vec<Vec<It>> = l2.iter().map(|h| vec![It(*h, 0)]).collect();
                    for w in 2..=t(tier, 6usize, 8) {
                        if tier == Tier::Quick && l.len() == 5 && w % 2 == 0 {
                            continue;
                        }
                        cc.transitions += 1;
                        check_report(&s, w, &l)?;
                    }
                    cc.traces += 1;
                    cc.state(&l2.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
                    cc.beat();
                }
                Ok(())
            });
        }
    }
    cs.add("every size hint", move |cc| {
        let s = SH::with_hasher(h0());
        let f = SimHash::<Feed<It>, It, HB>::with_hasher(h0());
        for n in 0..t3(tier, 9usize, 16, 30) {
            // several items per element, so that the sim-hash of each depends on all of them
            let l: Vec<Vec<It>> = (0..n).map(|i| (0..i % 4 * 2 + 1).map(|k| It(splitmix((i * 10 + k) as u64), 0)).collect()).collect();
            for w in [2usize, 3, 5] {
                let want: BTreeSet<(usize, usize)> = check_report(&s, w, &l)?.into_iter().collect();
                for h in 0..HINTS {
                    let got = f.report_similarities(w, l.iter().enumerate().map(|(i, x)| feed(x.clone(), (h + i * (n % 2)) % HINTS)).collect());
                    cc.transitions += 1;
                    if got.len() != want.len() || got.iter().cloned().collect::<BTreeSet<_>>() != want {
                        return Err(format!("{} items, window {}, size hints of kind {}: reports {:?}, expected {:?}", n, w, h, got, want));
                    }
                }
                cc.traces += 1;
                cc.state(&[n as u8, w as u8]);
            }
            cc.beat();
        }
        Ok(())
    });
    cs.add("short lists and refused windows", |cc| {
        let s = SH::with_hasher(h0());
        for n in 0..8usize {
            let l: Vec<Vec<It>> = (0..n).map(|i| vec![It(splitmix(i as u64), 0)]).collect();
            for w in [2usize, 3, 4, 5, 6, 7, 8, 9, 10, 64, 65, 1000, 1 << 20] {
                cc.transitions += 1;
                cc.state(&[n as u8, w as u8, (w >> 8) as u8, (w >> 16) as u8]);
                let r = check_report(&s, w, &l)?;
                if w >= n && r.len() != n * n.saturating_sub(1) / 2 {
                    return Err(format!("window {} over {} items reports {} pairs", w, n, r.len()));
                }
            }
            for w in [0usize, 1] {
                cc.transitions += 1;
                if catch(|| s.report_similarities(w, l.iter().map(|x| x.clone().into_iter()).collect())).is_ok() {
                    return Err(format!("window {} is accepted", w));
                }
            }
            cc.traces += 1;
        }
        Ok(())
    });
    // lists of real sets, some of them empty
    for part in 0..t3(tier, 12u64, 60, 400) {
        cs.add(format!("longer lists, part {}", part), move |cc| {
            let s = SH::with_hasher(h0());
            for n in [6usize, 9, 16, 33, 70] {
                let l: Vec<Vec<It>> = (0..n as u64)
                    .map(|i| {
                        let x = splitmix(i + 1000 * part);
                        match x % 5 {
                            0 if i > 0 => vec![It(splitmix(part), 0); (x / 8 % 3) as usize],
                            1 => vec![It(splitmix(part) ^ (1 << (x / 8 % 64)), 0)],
                            _ => (0..x / 8 % 4 + 1).map(|k| It(splitmix(x / 64 % 7 + k), 0)).collect(),
                        }
                    })
                    .collect();
                for w in [2usize, 3, 4, 7, n - 1, n, n + 1] {
                    cc.transitions += 1;
                    cc.beat();
                    check_report(&s, w, &l)?;
                }
                cc.traces += 1;
                cc.state(&[part as u8, n as u8]);
            }
            Ok(())
        });
    }
    // hundreds and thousands of items
    for (k, (n, w)) in [(255usize, 2usize), (256, 3), (257, 5), (300, 257), (258, 256), (257, 257), (300, 1000), (520, 520), (530, 519), (1100, 1100), (1000, 3), (1000, 20), (3000, 2), (4097, 4), (70_000, 2)].into_iter().enumerate() {
        for kind in 0..5u64 {
            if n > 10_000 && kind == 1 || n * w > 30_000 && kind == 2 && tier == Tier::Quick {
                continue;
            }
            cs.add(format!("{} items, window {}, kind {}", n, w, kind), move |cc| {
                let s = SH::with_hasher(h0());
                let l: Vec<Vec<It>> = (0..n as u64)
                    .map(|i| match kind {
                        // different, few different, neighbours that share most bits
                        0 => vec![It(splitmix(i + k as u64), 0)],
                        1 => vec![It(splitmix(i % 7 + k as u64), 0)],
                        // all alike, or of two kinds that no rotation changes: each pair is as far
                        // apart in every rotation
                        3 => vec![It(splitmix(k as u64), 0)],
                        4 => vec![It(((i * 2 >= n as u64) as u64).wrapping_neg(), 0)],
                        _ => vec![It(splitmix(k as u64) ^ (i << 40) ^ (i >> 3), 0)],
                    })
                    .collect();
                cc.beat();
                check_report(&s, w, &l)?;
                cc.transitions += n as u64;
                cc.traces += 1;
                cc.state(&[k as u8, kind as u8]);
                Ok(())
            });
        }
    }
}

fn check_shingles<T: ?Sized + PartialEq + std::fmt::Debug>(k: usize, tokens: Vec<&T>) -> Result<u64, String> {
    let n = tokens.len();
    let r = catch(|| {
        let mut it = ShingleIterator::new(k, tokens.clone());
        let mut v = vec![];
        for _ in 0..n + 4 {
            v.push(it.next());
        }
        v
    })
    .map_err(|p| format!("shingles of {} of {} tokens: panicked: {}", k, n, p))?;
    let count = if n < k { 0 } else { n - k + 1 };
    for (i, x) in r.iter().enumerate() {
        let want = if i < count { Some(&tokens[i..i + k]) } else { None };
        if x.as_deref() != want {
            return Err(format!("shingle {} of length {} of {:?}: {:?}, expected {:?}", i, k, tokens, x, want));
        }
    }
    let all: Vec<Vec<&T>> = ShingleIterator::new(k, tokens.clone()).collect();
    if all.len() != count {
        return Err(format!("{} shingles of length {} of {} tokens", all.len(), k, n));
    }
    Ok(n as u64 + 5)
}

/// Hashes to one of `.1` values.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Clash(u8, u8);
impl std::hash::Hash for Clash {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        s.write_u8(self.0 % self.1);
    }
}

pub fn c25(cs: &mut Cases) {
    let tier = cs.tier;
    cs.add("shingles", move |cc| {
        let words: Vec<String> = (0..90).map(|i| format!("w{}", i % 11)).collect();
        let blobs: Vec<Vec<u8>> = (0..90u8).map(|i| vec![i; i as usize % 4]).collect();
        let nums: Vec<u32> = (0..90).collect();
        for n in 0..=t3(tier, 24usize, 40, 90) {
            for k in (1..=n + 4).chain([64, 1000, usize::MAX / 2, usize::MAX - 1, usize::MAX]) {
                cc.transitions += check_shingles::<str>(k, words[..n].iter().map(|s| s.as_str()).collect())?;
                cc.transitions += check_shingles::<[u8]>(k, blobs[..n].iter().map(|s| s.as_slice()).collect())?;
                cc.transitions += check_shingles::<u32>(k, nums[..n].iter().collect())?;
                cc.traces += 3;
                cc.state(&[n as u8, k as u8]);
            }
            cc.beat();
        }
        Ok(())
    });
    cs.add("long shingles", move |cc| {
        let nums: Vec<u32> = (0..t(tier, 140_003, 1_100_003)).map(|i| splitmix(i) as u32).collect();
        let mut v = vec![];
        for b in [256usize, 512, 1 << 15, 1 << 16, 1 << 17] {
            for k in [b - 1, b, b + 1] {
                v.extend([(k + 3, k), (k, k), (k - 1, k)]);
            }
        }
        v.extend([(3000, 257), (3000, 2900), (70_001, 1), (70_001, 5), (140_003, 2), (140_003, 139_990)]);
        if tier == Tier::Thorough {
            v.extend([(1_100_003, 3), (1_100_003, 1_100_000), (70_001, 300)]);
        }
        for (n, k) in v {
            cc.transitions += check_shingles::<u32>(k, nums[..n].iter().collect()).map_err(|e| e.chars().take(200).collect::<String>())?;
            cc.traces += 1;
            cc.state(&[n as u8, (n >> 8) as u8, k as u8, (k >> 8) as u8]);
            cc.beat();
        }
        Ok(())
    });
    cs.add("shingles, every use of the iterator", move |cc| {
        let nums: Vec<u32> = (0..40).collect();
        for n in 0..=t3(tier, 8usize, 12, 16) {
            for k in 1..=n + 2 {
                let tokens: Vec<&u32> = nums[..n].iter().collect();
                let want: Vec<Vec<&u32>> = tokens.windows(k).map(|w| w.to_vec()).collect();
                let r = catch(|| check_iter(t3(tier, 3, 4, 4), || ShingleIterator::new(k, tokens.clone()), &want)).unwrap_or_else(|p| Err(format!("panicked: {}", p)));
                cc.transitions += r.map_err(|e| format!("shingles of length {} of {} tokens: {}", k, n, e))?;
                cc.traces += 1;
                cc.state(&[n as u8, k as u8]);
                cc.beat();
            }
        }
        Ok(())
    });
    // every token list over two tokens
    cs.add("all token lists", move |cc| {
        for l in lists(&["a", "b"], t3(tier, 8, 11, 14)) {
            for k in 1..=l.len() + 2 {
                cc.transitions += check_shingles::<str>(k, l.clone())?;
                cc.traces += 1;
            }
            cc.state(l.concat().as_bytes());
            if l.len() > 5 {
                cc.beat();
            }
        }
        Ok(())
    });
    cs.add("Jaccard similarity", move |cc| {
        let all = lists(&[0u8, 1, 2, 3], t3(tier, 4, 5, 6));
        let set = |l: &[u8]| l.iter().fold(0u32, |a, x| a | 1 << x);
        for a in &all {
            for b in &all {
                let (x, y) = (set(a), set(b));
                if x | y == 0 {
                    continue;
                }
                let want = f64::from((x & y).count_ones()) / f64::from((x | y).count_ones());
                let got = get_jaccard_similarity(a.iter(), b.iter());
                cc.transitions += 1;
                if (got - want).abs() > 1e-12 {
                    return Err(format!("Jaccard similarity of {:?} and {:?}: {}, expected {}", a, b, got, want));
                }
            }
            cc.traces += 1;
            cc.state(a);
            cc.beat();
        }
        Ok(())
    });
    cs.add("Jaccard similarity, every size hint", move |cc| {
        let all = lists(&[0u8, 1, 2], t3(tier, 4, 5, 6));
        let set = |l: &[u8]| l.iter().fold(0u32, |a, x| a | 1 << x);
        for a in &all {
            for b in &all {
                let (x, y) = (set(a), set(b));
                if x | y == 0 {
                    continue;
                }
                let want = f64::from((x & y).count_ones()) / f64::from((x | y).count_ones());
                for h in 0..HINTS * HINTS {
                    let got = get_jaccard_similarity(feed(a.clone(), h % HINTS), feed(b.clone(), h / HINTS));
                    cc.transitions += 1;
                    if (got - want).abs() > 1e-12 {
                        return Err(format!("Jaccard similarity of {:?} and {:?}: {}, expected {}, for iterators with size hints of kind {}, {}", a, b, got, want, h % HINTS, h / HINTS));
                    }
                }
            }
            cc.traces += 1;
            cc.state(a);
            cc.beat();
        }
        Ok(())
    });
    // items are told apart by `Eq`, however they hash
    cs.add("Jaccard similarity of items with equal hashes", move |cc| {
        let all = lists(&[0u8, 1, 2, 3], t3(tier, 3, 4, 5));
        let set = |l: &[u8]| l.iter().fold(0u32, |a, x| a | 1 << x);
        for buckets in 1..4u8 {
            for a in &all {
                for b in &all {
                    let (x, y) = (set(a), set(b));
                    if x | y == 0 {
                        continue;
                    }
                    let want = f64::from((x & y).count_ones()) / f64::from((x | y).count_ones());
                    let it = |l: &[u8]| l.iter().map(|x| Clash(*x, buckets)).collect::<Vec<_>>().into_iter();
                    let got = get_jaccard_similarity(it(a), it(b));
                    cc.transitions += 1;
                    if (got - want).abs() > 1e-12 {
                        return Err(format!("Jaccard similarity of {:?} and {:?}, items that hash to {} values: {}, expected {}", a, b, buckets, got, want));
                    }
                }
                cc.traces += 1;
                cc.state(a);
                cc.beat();
            }
        }
        Ok(())
    });
    cs.add("Jaccard similarity of shingles and long sequences", move |cc| {
        for k in 1..4usize {
            for l in lists(&["a", "b", "c"], 4) {
                for m in lists(&["a", "b"], 4) {
                    let sh = |l: &[&str]| -> BTreeSet<Vec<String>> {
                        if l.len() < k { BTreeSet::new() } else { l.windows(k).map(|w| w.iter().map(|s| s.to_string()).collect()).collect() }
                    };
                    let (x, y) = (sh(&l), sh(&m));
                    let u = x.union(&y).count();
                    if u == 0 {
                        continue;
                    }
                    let want = x.intersection(&y).count() as f64 / u as f64;
                    let got = catch(|| get_jaccard_similarity(ShingleIterator::new(k, l.clone()), ShingleIterator::new(k, m.clone())))
                        .map_err(|p| format!("{:?}, {:?}: {}", l, m, p))?;
                    cc.transitions += 1;
                    if (got - want).abs() > 1e-12 {
                        return Err(format!("similarity of the {}-shingles of {:?} and {:?}: {}, expected {}", k, l, m, got, want));
                    }
                }
                cc.beat();
            }
        }
        for (a, b, c) in [(0u64, 1000u64, 500u64), (0, 300, 300), (5, 256, 1), (0, 1, 70_000), (100, 70_000, 0)] {
            // first: 0..a+b, second: a..a+b+c
            let want = b as f64 / (a + b + c) as f64;
            let got = get_jaccard_similarity((0..a + b).chain(0..a), (a..a + b + c).chain(a..a));
            cc.transitions += 1;
            cc.traces += 1;
            cc.state(&[a as u8, b as u8, c as u8]);
            if (got - want).abs() > 1e-12 {
                return Err(format!("similarity of 0..{} and {}..{}: {}", a + b, a, a + b + c, got));
            }
        }
        Ok(())
    });
}
