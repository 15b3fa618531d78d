//! C32: documented argument errors.

use crate::engine::*;
use crate::items::*;
use probabilistic_collections::cuckoo::CuckooFilter;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::MinHash;
use probabilistic_collections::SipHasherBuilder;

/// `Some(true)`: must be refused; `Some(false)`: must be accepted; `None`: left open.
fn judge<T>(cc: &mut CC, what: impl Fn() -> String, refuse: Option<bool>, f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    cc.transitions += 1;
    cc.traces += 1;
    cc.beat();
    let w = what();
    cc.state(w.as_bytes());
    match (catch(f), refuse) {
        (Ok(_), Some(true)) => Err(format!("{} returned although its documentation says that it panics", w)),
        (Err(e), Some(false)) => Err(format!("{} panicked although its arguments are not among those that its documentation refuses: {}", w, e)),
        (Ok(x), _) => {
            cc.count("accepted", 1);
            Ok(Some(x))
        }
        (Err(_), _) => {
            cc.count("refused", 1);
            Ok(None)
        }
    }
}

const ODD: [f64; 16] = [
    0.0, -0.0, 1.0, -1.0, -0.5, -1e-9, -5e-324, 1.0 + f64::EPSILON, 1.5, 2.0, 10.0, 1e300,
    f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -1e300,
];

fn sip() -> SipHasherBuilder {
    SipHasherBuilder::from_seed(3, 4)
}

pub fn c32(cs: &mut Cases) {
    let tier = cs.tier;
    cs.add("quotient filter: bits", move |cc| {
        for q in 0..=255u8 {
            for r in 0..=255u8 {
                let bad = q == 0 || r == 0 || u16::from(q) + u16::from(r) > 64;
                if !bad && q > t3(tier, 8, 12, 16) {
                    continue; // (the table would be large)
                }
                if let Some(f) = judge(cc, || format!("QuotientFilter::with_hasher({}, {})", q, r), Some(bad), || QuotientFilter::<It, HB>::with_hasher(q, r, hb(MIX)[0].clone()))? {
                    if (f.quotient_bits(), f.remainder_bits()) != (q, r) || !f.is_empty() {
                        return Err(format!("QuotientFilter::with_hasher({}, {}) has {} and {} bits", q, r, f.quotient_bits(), f.remainder_bits()));
                    }
                }
                judge(cc, || format!("QuotientFilter::new({}, {})", q, r), Some(bad), || QuotientFilter::<u32>::new(q, r))?;
            }
        }
        Ok(())
    });
    cs.add("quotient filter: capacity and probability", move |cc| {
        let good = [0.999_999, 0.99, 0.9, 0.5, 0.1, 0.01, 1e-3, 1e-6, 1e-9, 1e-12];
        for n in [0usize, 1, 2, 3, 5, 100, 1000, 100_000] {
            for (p, ok) in good.iter().map(|p| (*p, true)).chain(ODD.iter().map(|p| (*p, false))) {
                let bad = n == 0 || !ok;
                judge(cc, || format!("QuotientFilter::from_fpp_with_hasher({}, {:e})", n, p), Some(bad), || QuotientFilter::<It, HB>::from_fpp_with_hasher(n, p, hb(MIX)[0].clone()))?;
                judge(cc, || format!("QuotientFilter::from_fpp({}, {:e})", n, p), Some(bad), || QuotientFilter::<u32>::from_fpp(n, p))?;
            }
        }
        Ok(())
    });
    cs.add("HyperLogLog: probability", move |cc| {
        // (0.001 needs 2^21 registers)
        let good: Vec<f64> = (1..1000).map(|i| i as f64 / 1000.0).chain([1.0 - f64::EPSILON / 2.0, 0.999_999]).collect();
        for (p, ok) in good.iter().map(|p| (*p, true)).chain(ODD.iter().map(|p| (*p, false))) {
            judge(cc, || format!("HyperLogLog::with_hasher({:e})", p), Some(!ok), || HyperLogLog::<It, HB>::with_hasher(p, hb(MIX)[0].clone()))?;
            judge(cc, || format!("HyperLogLog::new({:e})", p), Some(!ok), || HyperLogLog::<u32>::new(p))?;
        }
        // (from 2^24 registers up)
        for p in [3e-4, 2e-4, 1e-4] {
            judge(cc, || format!("HyperLogLog::with_hasher({:e})", p), Some(false), || HyperLogLog::<It, HB>::with_hasher(p, hb(MIX)[0].clone()))?;
            judge(cc, || format!("HyperLogLog::new({:e})", p), Some(false), || HyperLogLog::<u32>::new(p))?;
        }
        Ok(())
    });
    cs.add("MinHash: signatures of different lengths", move |cc| {
        let most = t3(tier, 24usize, 40, 70);
        for k in [1usize, 2, 3, 8, 64] {
            let m = MinHash::<std::ops::Range<u32>, u32>::with_hashers(k, [sip(), sip()]);
            let sig: Vec<u64> = m.get_min_hashes(0..3);
            for a in 0..=most {
                for b in 0..=most {
                    // equal prefixes, so that only the lengths differ
                    let (x, y): (Vec<u64>, Vec<u64>) = ((0..a).map(|i| sig[i % k]).collect(), (0..b).map(|i| sig[i % k]).collect());
                    // (signatures of another length than the number of hash functions are left open)
                    let refuse = if a != b { Some(true) } else if a == k { Some(false) } else { None };
                    judge(cc, || format!("MinHash({}).get_similarity_from_hashes() of lengths {} and {}", k, a, b), refuse, || m.get_similarity_from_hashes(&x, &y))?;
                }
            }
        }
        Ok(())
    });
    cs.add("cuckoo filter: items", move |cc| {
        for n in 0..=t3(tier, 300usize, 600, 2000) {
            let bad = Some(n == 0);
            judge(cc, || format!("CuckooFilter::with_hashers({})", n), bad, || CuckooFilter::<It, HB>::with_hashers(n, hb(MIX)))?;
            judge(cc, || format!("CuckooFilter::new({})", n), bad, || CuckooFilter::<u32>::new(n))?;
        }
        Ok(())
    });
    cs.add("cuckoo filter: parameters", move |cc| {
        let extreme = [255usize, 256, 257, 320, 1 << 16, (1 << 16) + 8, 1 << 32, (1 << 32) + 8, usize::MAX];
        for n in [0usize, 1, 2, 5, 64, 100] {
            for fb in (0..=130usize).chain(extreme) {
                for b in (0..=9usize).chain([16, 255, 256, 1000]) {
                    let bad = n == 0 || fb < 1 || fb > 64 || b == 0;
                    // (a width of 1 is documented as accepted, but has been refused since the first release)
                    let refuse = if !bad && fb == 1 { None } else { Some(bad) };
                    if let Some(f) = judge(cc, || format!("CuckooFilter::from_parameters_with_hashers({}, {}, {})", n, fb, b), refuse, || CuckooFilter::<It, HB>::from_parameters_with_hashers(n, fb, b, hb(MIX)))? {
                        if (f.fingerprint_bit_count(), f.entries_per_index()) != (fb, b) {
                            return Err(format!("CuckooFilter::from_parameters_with_hashers({}, {}, {}) has {} bits, {} entries", n, fb, b, f.fingerprint_bit_count(), f.entries_per_index()));
                        }
                    }
                    judge(cc, || format!("CuckooFilter::from_parameters({}, {}, {})", n, fb, b), refuse, || CuckooFilter::<u32>::from_parameters(n, fb, b))?;
                }
            }
        }
        Ok(())
    });
    cs.add("cuckoo filter: entries and probability", move |cc| {
        for n in [0usize, 1, 2, 5, 64, 100, 1000] {
            for b in (0..=20usize).chain([64, 255, 256, 1000]) {
                for p in [0.99, 0.5, 0.1, 0.01, 1e-3, 1e-6, 1e-12] {
                    let bad = Some(n == 0 || b == 0);
                    judge(cc, || format!("CuckooFilter::from_entries_per_index_with_hashers({}, {:e}, {})", n, p, b), bad, || CuckooFilter::<It, HB>::from_entries_per_index_with_hashers(n, p, b, hb(MIX)))?;
                    judge(cc, || format!("CuckooFilter::from_entries_per_index({}, {:e}, {})", n, p, b), bad, || CuckooFilter::<u32>::from_entries_per_index(n, p, b))?;
                }
            }
        }
        Ok(())
    });
    cs.add("cuckoo filter: width and probability", move |cc| {
        let extreme = [255usize, 256, 264, 1 << 16, (1 << 32) + 8, usize::MAX];
        for n in [0usize, 1, 2, 5, 64, 100, 1000] {
            for fb in (0..=130usize).chain(extreme) {
                for p in [0.99, 0.9, 0.5, 0.1, 0.01, 1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e-18] {
                    let mut refuse = Some(n == 0 || fb < 1 || fb > 64);
                    if refuse == Some(false) {
                        let lim = if fb == 1 { 0.0 } else { (-p as f64).ln_1p() / (-(1.0 / (2f64.powi(fb as i32) - 1.0))).ln_1p() / 2.0 };
                        if lim > 30_000.0 {
                            continue; // (the table would be large)
                        }
                        refuse = if (lim - 1.0).abs() < 1e-9 { None } else { Some(lim < 1.0) };
                    }
                    judge(cc, || format!("CuckooFilter::from_fingerprint_bit_count_with_hashers({}, {:e}, {})", n, p, fb), refuse, || CuckooFilter::<It, HB>::from_fingerprint_bit_count_with_hashers(n, p, fb, hb(MIX)))?;
                    judge(cc, || format!("CuckooFilter::from_fingerprint_bit_count({}, {:e}, {})", n, p, fb), refuse, || CuckooFilter::<u32>::from_fingerprint_bit_count(n, p, fb))?;
                }
            }
        }
        Ok(())
    });
}
