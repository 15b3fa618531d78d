//! C26..C29: properties that every collection shares, checked over one generic wrapper.
//!
//! The systems explored here hold a configuration and a history only; every step rebuilds the
//! instance from its constructor, so that nothing rests on `Clone` before it has been checked.

use crate::engine::*;
use crate::items::*;
use crate::p_stream::{menu32, menu64};
use crate::live_bytes;
use probabilistic_collections::bloom::*;
use probabilistic_collections::count_min_sketch::*;
use probabilistic_collections::cuckoo::*;
use probabilistic_collections::hyperloglog::HyperLogLog;
use probabilistic_collections::quotient::QuotientFilter;
use probabilistic_collections::similarity::{MinHash, ShingleIterator, SimHash};
use probabilistic_collections::SipHasherBuilder;
use rand_xorshift as rx;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Arc;

// The strategies of the crate are not `Clone`; these delegate to them.
macro_rules! strategy {
    ($n:ident, $of:ty) => {
        #[derive(Clone)]
        pub struct $n;
        impl CountStrategy for $n {
            fn get_estimate(items: i64, rows: usize, cols: usize, iter: ItemValueIter<'_>) -> i64 {
                <$of>::get_estimate(items, rows, cols, iter)
            }
        }
    };
}
strategy!(SMin, CountMinStrategy);
strategy!(SMean, CountMeanStrategy);
strategy!(SBias, CountMedianBiasStrategy);

type Toks = std::vec::IntoIter<It>;

/// A hash builder usable here.
pub trait Bld: BuildHasher + Copy + PartialEq + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    fn pair(seed: u8) -> [Self; 2];
    fn cuckoo_eq(a: &CuckooFilter<It, Self>, b: &CuckooFilter<It, Self>) -> Option<bool>;
}
impl Bld for HB {
    fn pair(seed: u8) -> [HB; 2] {
        hb(seed)
    }
    fn cuckoo_eq(_: &CuckooFilter<It, HB>, _: &CuckooFilter<It, HB>) -> Option<bool> {
        None
    }
}
impl Bld for SipHasherBuilder {
    fn pair(seed: u8) -> [SipHasherBuilder; 2] {
        [SipHasherBuilder::from_seed(u64::from(seed), 1), SipHasherBuilder::from_seed(u64::from(seed) + 2, 3)]
    }
    fn cuckoo_eq(a: &CuckooFilter<It>, b: &CuckooFilter<It>) -> Option<bool> {
        Some(a == b)
    }
}

#[derive(Clone, Serialize, Deserialize)]
#[serde(bound = "B: Serialize + DeserializeOwned")]
pub enum Col<B> {
    Bloom(BloomFilter<It, B>),
    Part(PartitionedBloomFilter<It, B>),
    Scal(ScalableBloomFilter<It, B>),
    Bs(BSBloomFilter<It, B>),
    Bssd(BSSDBloomFilter<It, B>),
    Rlbs(RLBSBloomFilter<It, B>),
    Cuckoo(CuckooFilter<It, B>),
    ScalC(ScalableCuckooFilter<It, B>),
    Quot(QuotientFilter<It, B>),
    Hll(HyperLogLog<It, B>),
    CMin(CountMinSketch<SMin, It, B>),
    CMean(CountMinSketch<SMean, It, B>),
    CBias(CountMinSketch<SBias, It, B>),
    Mh(MinHash<Toks, It, B>),
    Sh(SimHash<Toks, It, B>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Conf {
    Bloom(usize, usize),
    BloomN(usize, f64),
    BloomF(usize, f64),
    PartB(usize, f64),
    PartN(usize, f64),
    Scal(usize, f64, f64, f64),
    Bs(usize, f64),
    Bssd(usize, f64),
    Rlbs(usize, f64),
    Cuckoo(usize, usize, usize),
    CuckooD(usize),
    CuckooE(usize, f64, usize),
    CuckooF(usize, f64, usize),
    ScalC(usize, f64, f64, f64),
    ScalCE(usize, f64, usize, f64, f64),
    Quot(u8, u8),
    QuotF(usize, f64),
    Hll(f64),
    CMin(usize, usize),
    CMean(usize, usize),
    CBias(usize, usize),
    CErr(f64, f64),
    Mh(usize),
    Sh,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// item, policy for random draws
    Ins(u8, u8),
    Rem(u8),
    Add(u8, i64),
    Sub(u8, i64),
    /// merge with a fresh counter holding these items
    Merge(u8),
    Clear,
}

pub fn build<B: Bld>(c: &Conf, seed: u8) -> Col<B> {
    build_on(c, B::pair(seed))
}

/// The same, with the constructor that draws its own hashers.
fn build_plain(c: &Conf) -> Col<SipHasherBuilder> {
    match *c {
        Conf::Bloom(m, n) => Col::Bloom(BloomFilter::from_item_count(m, n)),
        Conf::BloomN(n, p) => Col::Bloom(BloomFilter::new(n, p)),
        Conf::BloomF(m, p) => Col::Bloom(BloomFilter::from_fpp(m, p)),
        Conf::PartB(m, p) => Col::Part(PartitionedBloomFilter::from_bit_count(m, p)),
        Conf::PartN(n, p) => Col::Part(PartitionedBloomFilter::from_item_count(n, p)),
        Conf::Scal(m, p, g, t) => Col::Scal(ScalableBloomFilter::new(m, p, g, t)),
        Conf::Bs(m, p) => Col::Bs(BSBloomFilter::new(m, p)),
        Conf::Bssd(m, p) => Col::Bssd(BSSDBloomFilter::new(m, p)),
        Conf::Rlbs(m, p) => Col::Rlbs(RLBSBloomFilter::new(m, p)),
        Conf::Cuckoo(n, f, b) => Col::Cuckoo(CuckooFilter::from_parameters(n, f, b)),
        Conf::CuckooD(n) => Col::Cuckoo(CuckooFilter::new(n)),
        Conf::CuckooE(n, p, b) => Col::Cuckoo(CuckooFilter::from_entries_per_index(n, p, b)),
        Conf::CuckooF(n, p, f) => Col::Cuckoo(CuckooFilter::from_fingerprint_bit_count(n, p, f)),
        Conf::ScalC(n, p, g, t) => Col::ScalC(ScalableCuckooFilter::new(n, p, g, t)),
        Conf::ScalCE(n, p, b, g, t) => Col::ScalC(ScalableCuckooFilter::from_entries_per_index(n, p, b, g, t)),
        Conf::Quot(q, r) => Col::Quot(QuotientFilter::new(q, r)),
        Conf::QuotF(n, p) => Col::Quot(QuotientFilter::from_fpp(n, p)),
        Conf::Hll(e) => Col::Hll(HyperLogLog::new(e)),
        Conf::CMin(r, c) => Col::CMin(CountMinSketch::new(r, c)),
        Conf::CMean(r, c) => Col::CMean(CountMinSketch::new(r, c)),
        Conf::CBias(r, c) => Col::CBias(CountMinSketch::new(r, c)),
        Conf::CErr(e, d) => Col::CMin(CountMinSketch::from_error(e, d)),
        Conf::Mh(k) => Col::Mh(MinHash::new(k)),
        Conf::Sh => Col::Sh(SimHash::new()),
    }
}

fn build_on<B: Bld>(c: &Conf, h: [B; 2]) -> Col<B> {
    match *c {
        Conf::Bloom(m, n) => Col::Bloom(BloomFilter::from_item_count_with_hashers(m, n, h)),
        Conf::BloomN(n, p) => Col::Bloom(BloomFilter::with_hashers(n, p, h)),
        Conf::BloomF(m, p) => Col::Bloom(BloomFilter::from_fpp_with_hashers(m, p, h)),
        Conf::PartB(m, p) => Col::Part(PartitionedBloomFilter::from_bit_count_with_hashers(m, p, h)),
        Conf::PartN(n, p) => Col::Part(PartitionedBloomFilter::from_item_count_with_hashers(n, p, h)),
        Conf::Scal(m, p, g, t) => Col::Scal(ScalableBloomFilter::with_hashers(m, p, g, t, h)),
        Conf::Bs(m, p) => Col::Bs(BSBloomFilter::with_hashers(m, p, h)),
        Conf::Bssd(m, p) => Col::Bssd(BSSDBloomFilter::with_hashers(m, p, h)),
        Conf::Rlbs(m, p) => Col::Rlbs(RLBSBloomFilter::with_hashers(m, p, h)),
        Conf::Cuckoo(n, f, b) => Col::Cuckoo(CuckooFilter::from_parameters_with_hashers(n, f, b, h)),
        Conf::CuckooD(n) => Col::Cuckoo(CuckooFilter::with_hashers(n, h)),
        Conf::CuckooE(n, p, b) => Col::Cuckoo(CuckooFilter::from_entries_per_index_with_hashers(n, p, b, h)),
        Conf::CuckooF(n, p, f) => Col::Cuckoo(CuckooFilter::from_fingerprint_bit_count_with_hashers(n, p, f, h)),
        Conf::ScalC(n, p, g, t) => Col::ScalC(ScalableCuckooFilter::with_hashers(n, p, g, t, h)),
        Conf::ScalCE(n, p, b, g, t) => Col::ScalC(ScalableCuckooFilter::from_entries_per_index_with_hashers(n, p, b, g, t, h)),
        Conf::Quot(q, r) => Col::Quot(QuotientFilter::with_hasher(q, r, h[0])),
        Conf::QuotF(n, p) => Col::Quot(QuotientFilter::from_fpp_with_hasher(n, p, h[0])),
        Conf::Hll(e) => Col::Hll(HyperLogLog::with_hasher(e, h[0])),
        Conf::CMin(r, c) => Col::CMin(CountMinSketch::with_hashers(r, c, h)),
        Conf::CMean(r, c) => Col::CMean(CountMinSketch::with_hashers(r, c, h)),
        Conf::CBias(r, c) => Col::CBias(CountMinSketch::with_hashers(r, c, h)),
        Conf::CErr(e, d) => Col::CMin(CountMinSketch::from_error_with_hashers(e, d, h)),
        Conf::Mh(k) => Col::Mh(MinHash::with_hashers(k, h)),
        Conf::Sh => Col::Sh(SimHash::with_hasher(h[0])),
    }
}

/// Items 0..6 are inserted, the others only asked for.
pub fn universe() -> Vec<It> {
    let mut v = vec![
        It(0, 0),
        It(1, 1),
        It(7, 3),
        It(u64::MAX, 5),
        It(0x0123_4567_89AB_CDEF, 0xFEDC_BA98_7654_3210),
        It(1 << 63 | 2, 1 << 32),
        It(3, 0),
        It(2, 2),
        It(1, 0),
        It(u64::MAX - 1, u64::MAX),
    ];
    for i in 0..190u64 {
        v.push(It(splitmix(2 * i + 1000), splitmix(2 * i + 1001)));
    }
    v
}
/// Number of items that the exhaustive part inserts.
const N_INS: u8 = 6;
/// Number of items that are asked for.
const N_ASK: usize = 14;

impl<B: Bld> Col<B> {
    fn op(&mut self, o: &Op, u: &[It]) {
        macro_rules! plain {
            ($f:expr) => {
                match *o {
                    Op::Ins(i, _) => $f.insert(&u[i as usize]),
                    Op::Clear => $f.clear(),
                    _ => panic!("no such operation"),
                }
            };
        }
        macro_rules! rem {
            ($f:expr) => {
                match *o {
                    Op::Ins(i, _) => $f.insert(&u[i as usize]),
                    Op::Rem(i) => $f.remove(&u[i as usize]),
                    Op::Clear => $f.clear(),
                    _ => panic!("no such operation"),
                }
            };
        }
        macro_rules! cms {
            ($f:expr) => {
                match *o {
                    Op::Add(i, n) => $f.insert(&u[i as usize], n),
                    Op::Sub(i, n) => $f.remove(&u[i as usize], n),
                    Op::Clear => $f.clear(),
                    _ => panic!("no such operation"),
                }
            };
        }
        match self {
            Col::Bloom(f) => plain!(f),
            Col::Part(f) => plain!(f),
            Col::Scal(f) => plain!(f),
            Col::Bs(f) => plain!(f),
            Col::Bssd(f) => plain!(f),
            Col::Rlbs(f) => plain!(f),
            Col::Cuckoo(f) => rem!(f),
            Col::ScalC(f) => rem!(f),
            Col::Quot(f) => rem!(f),
            Col::Hll(f) => match *o {
                Op::Merge(m) => {
                    let mut g = f.clone();
                    g.clear();
                    for i in 0..8 {
                        if m >> i & 1 == 1 {
                            g.insert(&u[i]);
                        }
                    }
                    f.merge(&g);
                }
                _ => plain!(f),
            },
            Col::CMin(f) => cms!(f),
            Col::CMean(f) => cms!(f),
            Col::CBias(f) => cms!(f),
            Col::Mh(_) | Col::Sh(_) => panic!("no such operation"),
        }
    }

    /// Every public observer, for the first `N_ASK` items.
    pub fn answers(&mut self, u: &[It]) -> Vec<u64> {
        let mut v: Vec<u64> = Vec::with_capacity(32);
        let ask = &u[..N_ASK];
        macro_rules! p {
            ($($e:expr),*) => {{ $( v.push($e as u64); )* }};
        }
        match self {
            Col::Bloom(f) => {
                p!(f.len(), f.is_empty(), f.hasher_count(), f.count_ones(), f.count_zeros(), f.estimated_fpp().to_bits());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Part(f) => {
                p!(f.len(), f.is_empty(), f.bit_count(), f.hasher_count(), f.count_ones(), f.count_zeros(), f.estimated_fpp().to_bits());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Scal(f) => {
                p!(f.len(), f.is_empty(), f.filter_count(), f.count_ones(), f.count_zeros(), f.estimated_fpp().to_bits());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Bs(f) => {
                p!(f.len(), f.is_empty(), f.bit_count(), f.hasher_count(), f.count_ones(), f.count_zeros());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Bssd(f) => {
                p!(f.len(), f.is_empty(), f.bit_count(), f.hasher_count(), f.count_ones(), f.count_zeros());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Rlbs(f) => {
                p!(f.len(), f.is_empty(), f.bit_count(), f.hasher_count(), f.count_ones(), f.count_zeros());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Cuckoo(f) => {
                p!(f.len(), f.is_empty(), f.capacity(), f.bucket_len(), f.entries_per_index(), f.extra_items_len(),
                   f.is_nearly_full(), f.fingerprint_bit_count(), f.estimated_fpp().to_bits());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::ScalC(f) => {
                p!(f.len(), f.is_empty(), f.capacity(), f.entries_per_index(), f.filter_count(), f.estimated_fpp().to_bits());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Quot(f) => {
                p!(f.len(), f.is_empty(), f.capacity(), f.quotient_bits(), f.remainder_bits(), f.estimated_fpp().to_bits());
                ask.iter().for_each(|x| p!(f.contains(x)));
            }
            Col::Hll(f) => {
                p!(f.len().to_bits(), f.is_empty());
            }
            Col::CMin(f) => {
                p!(f.rows(), f.cols(), f.confidence().to_bits(), f.error().to_bits());
                ask.iter().for_each(|x| p!(f.count(x)));
            }
            Col::CMean(f) => {
                p!(f.rows(), f.cols(), f.confidence().to_bits(), f.error().to_bits());
                ask.iter().for_each(|x| p!(f.count(x)));
            }
            Col::CBias(f) => {
                p!(f.rows(), f.cols(), f.confidence().to_bits(), f.error().to_bits());
                ask.iter().for_each(|x| p!(f.count(x)));
            }
            Col::Mh(f) => {
                p!(f.hasher_count());
                let mut last = Vec::new();
                for m in 1..32usize {
                    let s: Vec<It> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| ask[i]).collect();
                    let g = f.get_min_hashes(s.into_iter());
                    if !last.is_empty() {
                        p!(f.get_similarity_from_hashes(&g, &last).to_bits());
                    }
                    v.extend_from_slice(&g);
                    last = g;
                }
                p!(f.get_similarity(ask[..4].to_vec().into_iter(), ask[2..6].to_vec().into_iter()).to_bits());
            }
            Col::Sh(f) => {
                for m in 0..32usize {
                    let s: Vec<It> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| ask[i]).collect();
                    p!(f.get_sim_hash(s.into_iter()));
                }
                let mut r = f.report_similarities(2, ask.iter().map(|x| vec![*x].into_iter()).collect());
                r.sort_unstable();
                r.iter().for_each(|(a, b)| p!(a * 1000 + b));
            }
        }
        v
    }

    fn hashers(&self) -> Vec<B> {
        match self {
            Col::Bloom(f) => f.hashers().to_vec(),
            Col::Part(f) => f.hashers().to_vec(),
            Col::Scal(f) => f.hashers().to_vec(),
            Col::Bs(f) => f.hashers().to_vec(),
            Col::Bssd(f) => f.hashers().to_vec(),
            Col::Rlbs(f) => f.hashers().to_vec(),
            Col::Cuckoo(f) => f.hashers().to_vec(),
            Col::ScalC(f) => f.hashers().to_vec(),
            Col::Quot(f) => vec![*f.hasher()],
            Col::Hll(f) => vec![*f.hasher()],
            Col::CMin(f) => f.hashers().to_vec(),
            Col::CMean(f) => f.hashers().to_vec(),
            Col::CBias(f) => f.hashers().to_vec(),
            Col::Mh(f) => f.hashers().to_vec(),
            Col::Sh(f) => vec![*f.hasher()],
        }
    }

    /// Equality, where the crate defines one.
    fn same(&self, o: &Col<B>) -> Option<bool> {
        match (self, o) {
            (Col::Bloom(a), Col::Bloom(b)) => Some(a == b),
            (Col::Cuckoo(a), Col::Cuckoo(b)) => B::cuckoo_eq(a, b),
            _ => None,
        }
    }

    fn take_from(&mut self, o: &Col<B>) {
        match (self, o) {
            (Col::Bloom(a), Col::Bloom(b)) => a.clone_from(b),
            (Col::Part(a), Col::Part(b)) => a.clone_from(b),
            (Col::Scal(a), Col::Scal(b)) => a.clone_from(b),
            (Col::Bs(a), Col::Bs(b)) => a.clone_from(b),
            (Col::Bssd(a), Col::Bssd(b)) => a.clone_from(b),
            (Col::Rlbs(a), Col::Rlbs(b)) => a.clone_from(b),
            (Col::Cuckoo(a), Col::Cuckoo(b)) => a.clone_from(b),
            (Col::ScalC(a), Col::ScalC(b)) => a.clone_from(b),
            (Col::Quot(a), Col::Quot(b)) => a.clone_from(b),
            (Col::Hll(a), Col::Hll(b)) => a.clone_from(b),
            (Col::CMin(a), Col::CMin(b)) => a.clone_from(b),
            (Col::CMean(a), Col::CMean(b)) => a.clone_from(b),
            (Col::CBias(a), Col::CBias(b)) => a.clone_from(b),
            (Col::Mh(a), Col::Mh(b)) => a.clone_from(b),
            (Col::Sh(a), Col::Sh(b)) => a.clone_from(b),
            _ => unreachable!(),
        }
    }
}

impl Conf {
    fn menu(&self) -> rx::Cfg {
        let l = match *self {
            Conf::Bs(m, _) | Conf::Bssd(m, _) | Conf::Rlbs(m, _) => m,
            Conf::Cuckoo(_, _, b) => b,
            _ => 4,
        }
        .clamp(2, 16) as u64;
        rx::Cfg { menu32: menu32(l), menu64: menu64(l), max_branch: 0, tails: 3 }
    }
    fn random(&self) -> bool {
        matches!(self, Conf::Bs(..) | Conf::Bssd(..) | Conf::Rlbs(..))
    }
    fn moves(&self) -> bool {
        matches!(self, Conf::Cuckoo(..) | Conf::ScalC(..) | Conf::ScalCE(..) | Conf::CuckooD(..) | Conf::CuckooE(..) | Conf::CuckooF(..))
    }
    fn sketch(&self) -> bool {
        matches!(self, Conf::CMin(..) | Conf::CMean(..) | Conf::CBias(..) | Conf::CErr(..))
    }
    fn stateless(&self) -> bool {
        matches!(self, Conf::Mh(_) | Conf::Sh)
    }
    fn removes(&self) -> bool {
        self.moves() || matches!(self, Conf::Quot(..) | Conf::QuotF(..))
    }

    /// Operations of the exhaustive part.
    fn ops(&self, items: u8) -> Vec<Op> {
        let mut v = Vec::new();
        if self.stateless() {
            return v;
        }
        for i in 0..items {
            if self.sketch() {
                v.push(Op::Add(i, [1, 5, -3, 1 << 40, 2, 7][i as usize % 6]));
                if i < 2 {
                    v.push(Op::Sub(i, 1));
                }
            } else {
                v.push(Op::Ins(i, 0));
                if self.random() {
                    v.push(Op::Ins(i, 1));
                    v.push(Op::Ins(i, 2));
                } else if self.moves() && i == 0 {
                    v.push(Op::Ins(i, 1));
                }
                if self.removes() && (i < 3 || items < 4) {
                    v.push(Op::Rem(i));
                }
            }
        }
        if matches!(self, Conf::Hll(_)) {
            v.push(Op::Merge(0b0110_0100));
            v.push(Op::Merge(0b1000_0001));
        }
        v.push(Op::Clear);
        v
    }

    /// Long histories.
    fn long(&self, n: usize) -> Vec<Vec<Op>> {
        if self.stateless() {
            return vec![];
        }
        let n = n.min(198);
        let cap = match *self {
            Conf::Quot(q, _) => (1usize << q).saturating_sub(1),
            Conf::QuotF(c, _) => c,
            _ => usize::MAX,
        };
        // tables that are full already only spin
        let full = match *self {
            Conf::Cuckoo(c, ..) | Conf::CuckooE(c, ..) | Conf::CuckooF(c, ..) | Conf::CuckooD(c) => 3 * c.max(2) + 8,
            _ => usize::MAX,
        };
        let n = n.min(cap).min(full);
        let mut a = Vec::new();
        let mut b = Vec::new();
        for i in 0..n {
            let i8 = i as u8;
            if self.sketch() {
                a.push(Op::Add(i8, 1 + i as i64 % 9));
                b.push(Op::Add((i % 7) as u8, -(i as i64)));
                b.push(Op::Sub((i % 5) as u8, 3));
            } else {
                a.push(Op::Ins(i8, (i % 3) as u8));
                b.push(Op::Ins(n as u8 - 1 - i8, 2 - (i % 3) as u8));
                if self.removes() {
                    if i % 3 == 2 {
                        b.push(Op::Rem(n as u8 - i8));
                    }
                    // equal fingerprints that overflow
                    if matches!(self, Conf::Quot(..) | Conf::QuotF(..)) || i > 12 {
                        continue;
                    }
                    b.push(Op::Ins(3, 0));
                }
            }
        }
        let mut c = a.clone();
        c.push(Op::Clear);
        c.extend(b.iter().take(n / 2).cloned());
        vec![a, b, c]
    }
}

fn one<B: Bld>(c: &mut Col<B>, op: &Op, cfg: &rx::Cfg, u: &[It]) -> Result<(), String> {
    let p = if let Op::Ins(_, p) = op { *p } else { 0 };
    rx::begin(cfg, &[p]);
    let r = catch(|| c.op(op, u));
    rx::end();
    r
}

fn brief(h: &[Op]) -> String {
    if h.len() > 14 {
        format!("{} operations, the last: {:?}", h.len(), &h[h.len() - 12..])
    } else {
        format!("{:?}", h)
    }
}

fn diff(a: &[u64], b: &[u64]) -> String {
    if a.len() != b.len() {
        return format!("{} and {} answers", a.len(), b.len());
    }
    let i = (0..a.len()).find(|i| a[*i] != b[*i]).unwrap_or(0);
    format!("answer {} is {:#x} and {:#x}", i, a[i], b[i])
}

/// Runs both through `h`, comparing every answer before, in between and after. A panic of both is
/// left to the property of that collection.
fn lock<B: Bld>(cc: &mut CC, a: &mut Col<B>, b: &mut Col<B>, h: &[Op], cfg: &rx::Cfg, u: &[It], every: usize, what: &str) -> Result<(), String> {
    cc.traces += 1;
    let (x, y) = (a.answers(u), b.answers(u));
    if x != y {
        return Err(format!("{}: answers differ at once: {}", what, diff(&x, &y)));
    }
    for (n, o) in h.iter().enumerate() {
        cc.beat();
        let (r, s) = (one(a, o, cfg, u), one(b, o, cfg, u));
        cc.transitions += 2;
        match (r, s) {
            (Ok(()), Ok(())) => {}
            (Err(_), Err(_)) => return Ok(()),
            (r, s) => return Err(format!("{}: after {} one panics and the other does not: {:?} / {:?}", what, brief(&h[..=n]), r, s)),
        }
        if n + 1 == h.len() || (n + 1) % every == 0 {
            let (x, y) = (a.answers(u), b.answers(u));
            if x != y {
                return Err(format!("{}: answers differ after {}: {}", what, brief(&h[..=n]), diff(&x, &y)));
            }
        }
    }
    Ok(())
}

fn replayed<B: Bld>(conf: &Conf, seed: u8, h: &[Op], cfg: &rx::Cfg, u: &[It]) -> Result<Col<B>, String> {
    let mut c: Col<B> = build(conf, seed);
    for o in h {
        one(&mut c, o, cfg, u)?;
    }
    Ok(c)
}

pub fn confs() -> Vec<Conf> {
    vec![
        Conf::Bloom(1, 1), Conf::Bloom(7, 2), Conf::Bloom(8, 2), Conf::Bloom(64, 5), Conf::BloomN(3, 0.1), Conf::BloomN(40, 0.01),
        Conf::BloomF(13, 0.3), Conf::PartB(3, 0.3), Conf::PartB(8, 0.1), Conf::PartN(5, 0.1), Conf::PartN(30, 0.02),
        Conf::Scal(8, 0.3, 2.0, 0.5), Conf::Scal(3, 0.5, 1.5, 0.9), Conf::Scal(20, 0.1, 3.0, 0.5), Conf::Scal(1, 0.25, 2.0, 0.5),
        Conf::Bs(3, 0.3), Conf::Bs(8, 0.1), Conf::Bs(16, 0.02), Conf::Bssd(3, 0.3), Conf::Bssd(8, 0.1), Conf::Bssd(16, 0.02),
        Conf::Rlbs(3, 0.3), Conf::Rlbs(8, 0.1), Conf::Rlbs(16, 0.02),
        Conf::Cuckoo(1, 2, 1), Conf::Cuckoo(2, 3, 1), Conf::Cuckoo(4, 8, 2), Conf::Cuckoo(4, 5, 4), Conf::Cuckoo(8, 33, 2), Conf::Cuckoo(2, 64, 2),
        Conf::Cuckoo(16, 13, 4), Conf::CuckooD(8), Conf::CuckooE(6, 0.05, 3), Conf::CuckooF(5, 0.05, 8),
        Conf::ScalC(2, 0.1, 2.0, 0.5), Conf::ScalC(4, 0.3, 1.5, 0.9), Conf::ScalCE(1, 0.1, 1, 2.0, 0.5), Conf::ScalCE(8, 0.02, 2, 2.0, 0.8),
        Conf::Quot(3, 1), Conf::Quot(3, 3), Conf::Quot(4, 2), Conf::Quot(5, 61 - 5), Conf::Quot(7, 7), Conf::QuotF(20, 0.05),
        Conf::Hll(0.5), Conf::Hll(0.26), Conf::Hll(0.1), Conf::Hll(0.9),
        Conf::CMin(1, 1), Conf::CMin(3, 4), Conf::CMin(2, 9), Conf::CMean(1, 2), Conf::CMean(3, 4), Conf::CBias(1, 2), Conf::CBias(3, 4),
        Conf::CErr(0.3, 0.2),
        Conf::Mh(1), Conf::Mh(7), Conf::Mh(20), Conf::Sh,
    ]
}

/// Ops for continuations after a copy: a short, fixed selection, plus long ones.
fn conts(conf: &Conf, long: usize) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = conf.ops(N_INS).into_iter().map(|o| vec![o]).collect();
    v.extend(conf.long(long));
    v
}

// ---------------------------------------------------------------- C26

#[derive(Clone)]
struct S26<B: Bld> {
    conf: Conf,
    seed: u8,
    hist: Vec<Op>,
    u: Arc<Vec<It>>,
    key: Vec<u8>,
    fork: usize,
    dead: bool,
    _b: std::marker::PhantomData<B>,
}

fn round_trip<B: Bld>(c: &Col<B>) -> Result<Col<B>, String> {
    let b = catch(|| bincode::serialize(c)).map_err(|e| format!("serialisation panicked: {}", e))?.map_err(|e| format!("serialisation failed: {}", e))?;
    catch(|| bincode::deserialize(&b)).map_err(|e| format!("deserialisation panicked: {}", e))?.map_err(|e| format!("deserialisation failed: {}", e))
}

/// A differently filled instance that `clone_from` overwrites.
fn other<B: Bld>(conf: &Conf, k: usize, u: &[It]) -> Col<B> {
    let conf2 = match (*conf, k % 2) {
        (c, 0) => c,
        (Conf::Bloom(m, n), _) => Conf::Bloom(m + 9, n),
        (Conf::PartB(m, p), _) => Conf::PartB(m + 5, p / 3.0),
        (Conf::Bs(m, p), _) => Conf::Bs(m + 9, p / 3.0),
        (Conf::Bssd(m, p), _) => Conf::Bssd(m + 9, p / 3.0),
        (Conf::Rlbs(m, p), _) => Conf::Rlbs(m + 9, p / 3.0),
        (Conf::Scal(m, p, g, t), _) => Conf::Scal(m + 9, p, g, t),
        (Conf::Cuckoo(n, f, b), _) => Conf::Cuckoo(n * 3, if f > 40 { f - 3 } else { f + 3 }, b),
        (Conf::Quot(q, _), _) => Conf::Quot(q + 1, 4),
        (Conf::CMin(r, c), _) => Conf::CMin(r + 1, c + 2),
        (Conf::Hll(_), _) => Conf::Hll(0.18),
        (Conf::Mh(k), _) => Conf::Mh(k + 1),
        (c, _) => c,
    };
    let mut o: Col<B> = build(&conf2, 3);
    let cfg = &conf2.menu();
    if let Some(h) = conf2.long(11).get(k % 2) {
        for x in h {
            if one(&mut o, x, cfg, u).is_err() {
                return build(&conf2, 3);
            }
        }
    }
    o
}

impl<B: Bld> S26<B> {
    fn copies(&self, a: &mut Col<B>, cfg: &rx::Cfg) -> Result<Vec<(&'static str, Col<B>)>, String> {
        let u = &self.u;
        let before = a.answers(u);
        let mut v = vec![("restored", round_trip(a)?)];
        v.push(("clone", catch(|| a.clone()).map_err(|e| format!("clone panicked: {}", e))?));
        for k in 0..2 {
            let mut c = other::<B>(&self.conf, k + 2 * self.fork, u);
            catch(|| c.take_from(a)).map_err(|e| format!("clone_from panicked: {}", e))?;
            v.push(("clone_from", c));
        }
        if a.answers(u) != before {
            return Err("copying changed the original".into());
        }
        for (n, c) in v.iter_mut() {
            let x = c.answers(u);
            if x != before {
                return Err(format!("{}: answers differ at once: {}", n, diff(&before, &x)));
            }
            if c.hashers() != a.hashers() {
                return Err(format!("{}: the hashers differ", n));
            }
            if let Some(e) = a.same(c) {
                if !e || c.same(a) != Some(true) {
                    return Err(format!("{}: a copy does not equal its original", n));
                }
            }
        }
        // a copy of a copy
        let (_, mut c2) = v.pop().unwrap();
        let mut c3 = catch(|| round_trip(&c2)).map_err(|e| format!("panicked: {}", e))??;
        if c3.answers(u) != before || c2.answers(u) != before {
            return Err("the copy of a copy answers differently".into());
        }
        v.push(("clone_from", c2));
        Ok(v)
    }

    /// All checks in this state.
    fn check(&self, cc: &mut CC, long: usize) -> Result<(), String> {
        let u = &self.u[..];
        let cfg = self.conf.menu();
        let mut a: Col<B> = match replayed(&self.conf, self.seed, &self.hist, &cfg, u) {
            Ok(a) => a,
            Err(_) => return Ok(()),
        };
        let copies = self.copies(&mut a, &cfg)?;
        let before = a.answers(u);
        // continuing a copy and the (rebuilt) original alike
        let cs = conts(&self.conf, long);
        for (n, c) in &copies {
            for (i, h) in cs.iter().enumerate() {
                // the copy that continues is restored anew from the copy under test by rebuilding it
                let mut orig: Col<B> = replayed(&self.conf, self.seed, &self.hist, &cfg, u)?;
                let mut cont = match *n {
                    "restored" => round_trip(&orig)?,
                    "clone" => orig.clone(),
                    _ => {
                        let mut x = other::<B>(&self.conf, i + self.fork, u);
                        x.take_from(&orig);
                        x
                    }
                };
                lock(cc, &mut orig, &mut cont, h, &cfg, u, 7, n)?;
                if let Some(e) = orig.same(&cont) {
                    if !e {
                        return Err(format!("{}: after {} the copy does not equal its original", n, brief(h)));
                    }
                }
            }
            let _ = c;
        }
        // independence: change the original, the copies stay; change a copy, the others stay
        for h in &cs {
            let mut o: Col<B> = replayed(&self.conf, self.seed, &self.hist, &cfg, u)?;
            let mut r = round_trip(&o)?;
            let mut c = o.clone();
            let mut ok = true;
            for x in h.iter().take(8) {
                ok &= one(&mut o, x, &cfg, u).is_ok();
            }
            if r.answers(u) != before || c.answers(u) != before {
                return Err(format!("changing the original by {} changed a copy", brief(h)));
            }
            if ok {
                let after = o.answers(u);
                if after != before && o.same(&c) == Some(true) {
                    return Err(format!("after {} the original answers differently, yet equals the copy taken before", brief(h)));
                }
                let e = c.clone();
                for x in h.iter().take(8) {
                    ok &= one(&mut c, x, &cfg, u).is_ok();
                }
                if ok && (r.answers(u) != before || o.answers(u) != after) {
                    return Err(format!("changing a clone by {} changed another copy", brief(h)));
                }
                let mut e = e;
                if e.answers(u) != before {
                    return Err(format!("changing a clone by {} changed its own clone", brief(h)));
                }
            }
            cc.traces += 1;
        }
        Ok(())
    }
}

impl<B: Bld> Sys for S26<B> {
    type Op = Op;
    fn ops(&self) -> Vec<Op> {
        if self.dead {
            return vec![];
        }
        self.conf.ops(4)
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        self.hist.push(*op);
        self.fork = self.hist.len();
        let cfg = self.conf.menu();
        match replayed::<B>(&self.conf, self.seed, &self.hist, &cfg, &self.u) {
            Err(_) => self.dead = true,
            Ok(mut c) => {
                self.key.clear();
                if self.hist.len() <= 2 {
                    self.key.extend(format!("{:?}", self.hist).into_bytes());
                }
                bytes_of(&c, &mut self.key);
                for x in c.answers(&self.u) {
                    self.key.extend_from_slice(&x.to_le_bytes());
                }
            }
        }
        Ok(())
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.key);
        out.push(self.dead as u8);
    }
}

/// The states reached by every history up to `depth` (states merged by serialised form and
/// answers, from length 3 on), then `f` on each of them.
fn each_state<B: Bld>(
    cc: &mut CC,
    conf: Conf,
    seed: u8,
    depth: usize,
    max: usize,
    f: &mut dyn FnMut(&mut CC, &S26<B>) -> Result<(), String>,
) -> Result<(), String> {
    let u = Arc::new(universe());
    let root = S26::<B> {
        conf, seed, hist: vec![], u, key: vec![], fork: 0, dead: false, _b: Default::default(),
    };
    let mut seen = std::collections::HashSet::new();
    let mut level = vec![root];
    let mut n = 0usize;
    for d in 0..=depth {
        let mut next = Vec::new();
        for s in &level {
            cc.at(|| format!("{:?} after {}", conf, brief(&s.hist)));
            cc.states += 1;
            n += 1;
            f(cc, s).map_err(|e| format!("{:?}: {} | history: {}", conf, e, brief(&s.hist)))?;
            if d == depth {
                continue;
            }
            for op in s.ops() {
                let mut c = s.clone();
                c.step(&op)?;
                cc.transitions += 1;
                let mut k = Vec::new();
                c.key(&mut k);
                if c.dead || !seen.insert(hash128(&k)) {
                    continue;
                }
                next.push(c);
            }
        }
        if n + next.len() > max {
            next.truncate(max.saturating_sub(n));
            cc.truncated += 1;
            cc.count(CUT[d.min(12)], 1);
        }
        level = next;
        if level.is_empty() {
            break;
        }
    }
    Ok(())
}

fn at_history<B: Bld>(conf: Conf, seed: u8, hist: Vec<Op>) -> S26<B> {
    let n = hist.len();
    S26 { conf, seed, hist, u: Arc::new(universe()), key: vec![], fork: n, dead: false, _b: Default::default() }
}

fn run26<B: Bld>(cc: &mut CC, conf: Conf, seed: u8) -> Result<(), String> {
    let (d, m) = if conf.random() { t(cc.tier, (2, 120), (4, 3000)) } else { t(cc.tier, (3, 220), (5, 4000)) };
    let long = t(cc.tier, 20, 40);
    each_state::<B>(cc, conf, seed, d, m, &mut |cc, s| s.check(cc, long))?;
    // copies in the middle of long histories
    for h in conf.long(t(cc.tier, 60, 190)) {
        let step = (h.len() / t(cc.tier, 6, 40)).max(1);
        for n in (0..=h.len()).step_by(step) {
            let s = at_history::<B>(conf, seed, h[..n].to_vec());
            cc.at(|| format!("{:?} after {}", conf, brief(&s.hist)));
            s.check(cc, t(cc.tier, 30, 60)).map_err(|e| format!("{:?}: {} | history: {}", conf, e, brief(&s.hist)))?;
            // and the rest of the history itself
            let cfg = conf.menu();
            for k in 0..3 {
                let mut o: Col<B> = match replayed(&conf, seed, &h[..n], &cfg, &s.u) {
                    Ok(o) => o,
                    Err(_) => break,
                };
                let mut c = match k {
                    0 => round_trip(&o)?,
                    1 => o.clone(),
                    _ => {
                        let mut x = other::<B>(&conf, n, &s.u);
                        x.take_from(&o);
                        x
                    }
                };
                lock(cc, &mut o, &mut c, &h[n..], &cfg, &s.u, 3, ["restored", "clone", "clone_from"][k])
                    .map_err(|e| format!("{:?}: {} | history: {}", conf, e, brief(&s.hist)))?;
            }
            cc.states += 1;
        }
    }
    Ok(())
}

pub fn c26(cs: &mut Cases) {
    cs.add("displacement chains", |cc| {
        for l in [1u64, 2, 255, 256, 500, 511, 512, 513, 514, 700] {
            let (f, items, last) = crate::p_cuckoo::chain(l);
            let mut copies = vec![f.clone(), bincode::deserialize(&bincode::serialize(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?];
            let mut c = crate::p_cuckoo::chain(3).0;
            c.clone_from(&f);
            copies.push(c);
            let mut f = f;
            f.insert(&last);
            for (k, mut c) in copies.into_iter().enumerate() {
                c.insert(&last);
                cc.transitions += 1;
                cc.traces += 1;
                cc.state(&[k as u8, l as u8, (l >> 8) as u8]);
                if (c.len(), c.extra_items_len()) != (f.len(), f.extra_items_len()) || items.iter().chain([&last]).any(|x| !c.contains(x)) {
                    return Err(format!(
                        "an insertion that needs {} displacements: {} entries and {} overflow entries in {}, {} and {} in the original",
                        l, c.len(), c.extra_items_len(), ["a clone", "a restored copy", "a copy by clone_from"][k], f.len(), f.extra_items_len()
                    ));
                }
            }
        }
        Ok(())
    });
    for conf in confs() {
        cs.add(format!("{:?}", conf), move |cc| {
            run26::<HB>(cc, conf, MIX)?;
            run26::<SipHasherBuilder>(cc, conf, 7)
        });
    }
    cs.add("hash builder", |cc| {
        let ks = [0u64, 1, 2, 1 << 32, 1 << 63, u64::MAX, 0x0123_4567_89AB_CDEF];
        for a in ks {
            for b in ks {
                let x = SipHasherBuilder::from_seed(a, b);
                let s = bincode::serialize(&x).map_err(|e| e.to_string())?;
                let y: SipHasherBuilder = bincode::deserialize(&s).map_err(|e| e.to_string())?;
                let z = x.clone();
                cc.states += 1;
                cc.traces += 1;
                for n in 0..40usize {
                    let m = vec![n as u8; n];
                    let h = |b: &SipHasherBuilder| {
                        let mut h = b.build_hasher();
                        h.write(&m);
                        h.finish()
                    };
                    cc.transitions += 1;
                    if h(&x) != h(&y) || h(&x) != h(&z) {
                        return Err(format!("builder ({:#x}, {:#x}): a copy hashes {} bytes differently", a, b, n));
                    }
                }
                if x != y || x != z {
                    return Err(format!("builder ({:#x}, {:#x}) does not equal its copy", a, b));
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C29

fn check29<B: Bld>(cc: &mut CC, s: &S26<B>, long: usize, pairs: bool) -> Result<(), String> {
    let u = &s.u[..];
    let cfg = s.conf.menu();
    let mut h = s.hist.clone();
    h.push(Op::Clear);
    if replayed::<B>(&s.conf, s.seed, &s.hist, &cfg, u).is_err() {
        return Ok(());
    }
    let cleared = || replayed::<B>(&s.conf, s.seed, &h, &cfg, u).map_err(|e| format!("clear panicked: {}", e));
    let mut c = cleared()?;
    let mut f: Col<B> = build(&s.conf, s.seed);
    if c.hashers() != f.hashers() {
        return Err("a cleared collection reports other hashers than a fresh one".into());
    }
    if f.same(&c) == Some(false) {
        return Err("a cleared collection does not equal a fresh one".into());
    }
    lock(cc, &mut c, &mut f, &[], &cfg, u, 1, "cleared / fresh")?;
    let ops = s.conf.ops(if pairs { 4 } else { N_INS });
    let mut cont: Vec<Vec<Op>> = Vec::new();
    for a in &ops {
        if pairs {
            for b in &ops {
                cont.push(vec![*a, *b]);
            }
        } else {
            cont.push(vec![*a]);
        }
    }
    cont.extend(s.conf.long(long));
    for h2 in &cont {
        let mut c = cleared()?;
        let mut f: Col<B> = build(&s.conf, s.seed);
        lock(cc, &mut c, &mut f, h2, &cfg, u, 5, "cleared / fresh")?;
    }
    Ok(())
}

fn run29<B: Bld>(cc: &mut CC, conf: Conf, seed: u8) -> Result<(), String> {
    let (d, m) = if conf.random() { t(cc.tier, (2, 150), (4, 4000)) } else { t(cc.tier, (3, 300), (5, 5000)) };
    let long = t(cc.tier, 40, 120);
    each_state::<B>(cc, conf, seed, d, m, &mut |cc, s| check29(cc, s, long, s.hist.len() <= 2))?;
    for h in conf.long(t(cc.tier, 120, 198)) {
        let step = (h.len() / t(cc.tier, 8, 60)).max(1);
        for n in (0..=h.len()).step_by(step) {
            let s = at_history::<B>(conf, seed, h[..n].to_vec());
            cc.at(|| format!("{:?} after {}", conf, brief(&s.hist)));
            check29(cc, &s, t(cc.tier, 120, 198), true).map_err(|e| format!("{:?}: {} | history: {}", conf, e, brief(&s.hist)))?;
            cc.states += 1;
        }
    }
    Ok(())
}

pub fn c29(cs: &mut Cases) {
    for conf in confs() {
        if conf.stateless() {
            continue;
        }
        cs.add(format!("{:?}", conf), move |cc| {
            run29::<HB>(cc, conf, MIX)?;
            if conf.moves() {
                run29::<HB>(cc, conf, IDENT)?;
            }
            run29::<SipHasherBuilder>(cc, conf, 9)
        });
    }
}

// ---------------------------------------------------------------- constructors that draw their hashers

/// Ratios that the menu of the other properties does not hold.
fn more_ratios() -> Vec<Conf> {
    let mut v = Vec::new();
    for g in [0.3, 0.6, 1.0, 1.01, 2.0, 7.5] {
        for t in [0.01, 0.5, 0.97, 1.0] {
            v.push(Conf::Scal(9, 0.3, g, t));
            v.push(Conf::Scal(1000, 0.02, g, t));
            v.push(Conf::ScalC(6, 0.1, g, t));
            v.push(Conf::ScalC(5, 0.3, g, t));
            v.push(Conf::ScalCE(5, 0.05, 2, g, t));
            v.push(Conf::ScalCE(3, 0.2, 1, g, t));
        }
    }
    for n in [1usize, 3, 8, 9, 17, 33, 64] {
        v.push(Conf::ScalC(n, 0.02, 2.0, 0.5));
        v.push(Conf::ScalCE(n, 0.02, 4, 2.0, 0.5));
    }
    v
}

pub fn is_bloom(c: &Conf) -> bool {
    matches!(c, Conf::Bloom(..) | Conf::BloomN(..) | Conf::BloomF(..) | Conf::PartB(..) | Conf::PartN(..))
}
pub fn is_scal(c: &Conf) -> bool {
    matches!(c, Conf::Scal(..))
}
pub fn is_stream(c: &Conf) -> bool {
    c.random()
}
pub fn is_cuckoo(c: &Conf) -> bool {
    c.moves() && !is_scalc(c)
}
pub fn is_scalc(c: &Conf) -> bool {
    matches!(c, Conf::ScalC(..) | Conf::ScalCE(..))
}
pub fn is_quot(c: &Conf) -> bool {
    matches!(c, Conf::Quot(..) | Conf::QuotF(..))
}
pub fn is_sketch(c: &Conf) -> bool {
    c.sketch()
}
pub fn is_hll(c: &Conf) -> bool {
    matches!(c, Conf::Hll(_))
}
pub fn is_mh(c: &Conf) -> bool {
    matches!(c, Conf::Mh(_))
}
pub fn is_sh(c: &Conf) -> bool {
    matches!(c, Conf::Sh)
}
pub fn keeps_state(c: &Conf) -> bool {
    !c.stateless()
}

/// A collection whose constructor drew its own hashers answers like one given these hashers,
/// after every history.
pub fn plain_twins(cs: &mut Cases, keep: fn(&Conf) -> bool) {
    let mut v = confs();
    v.extend(more_ratios());
    v.retain(keep);
    for conf in v {
        cs.add(format!("own hashers {:?}", conf), move |cc| {
            let u = universe();
            let cfg = conf.menu();
            // refused by both, or by neither
            let drawn = catch(|| build_plain(&conf));
            let given = catch(|| build::<SipHasherBuilder>(&conf, 5));
            let drawn = match (drawn, given) {
                (Ok(d), Ok(_)) => d,
                (Err(_), Err(_)) => return Ok(()),
                (d, g) => {
                    return Err(format!("{:?}: drawing its hashers: {}, given them: {}", conf, d.is_ok(), g.is_ok()));
                }
            };
            let twin = |a: &Col<SipHasherBuilder>| {
                let h = a.hashers();
                build_on::<SipHasherBuilder>(&conf, [h[0], *h.last().unwrap()])
            };
            let ops = conf.ops(3);
            let mut hs: Vec<Vec<Op>> = vec![vec![]];
            let mut last = hs.clone();
            for _ in 0..t3(cc.tier, 2, 3, 4) {
                last = last.iter().flat_map(|h| ops.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
                hs.extend(last.iter().cloned());
                if hs.len() > t(cc.tier, 2000, 20_000) {
                    break;
                }
            }
            for h in conf.long(198) {
                // growing, and growing again after a clear
                let mut g = h.clone();
                g.push(Op::Clear);
                g.extend(h.iter().rev());
                g.push(Op::Clear);
                hs.push(h);
                hs.push(g);
            }
            for (i, h) in hs.iter().enumerate() {
                let mut a = if i % 2 == 0 { build_plain(&conf) } else { drawn.clone() };
                let mut b = twin(&a);
                if a.hashers() != b.hashers() {
                    return Err(format!("{:?}: other hashers than those reported", conf));
                }
                let every = if h.len() > 20 { 5 } else { 1 };
                lock(cc, &mut a, &mut b, h, &cfg, &u, every, "hashers drawn / given").map_err(|e| format!("{:?}: {}", conf, e))?;
                cc.states += 1;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C28

/// Bits that the reported parameters call for, plus the slack allowed.
struct Implied {
    bytes: f64,
    slack: f64,
}

/// Width of the fingerprints of a cuckoo filter for a probability (upper bound).
fn width(fpp: f64, b: usize) -> f64 {
    // smallest f with 1 - (1 - 1/(2^f - 1))^(2b) <= fpp, by search
    for f in 2..=64u32 {
        let single = 1.0 / (2f64.powi(f as i32) - 1.0);
        let p = -((2.0 * b as f64) * (-single).ln_1p()).exp_m1();
        if p <= fpp {
            return f64::from(f) + 1.0;
        }
    }
    64.0
}

struct Mem {
    comps: Vec<f64>,
    last: (usize, f64),
    max_extra: usize,
    max_filters: usize,
}

impl Mem {
    /// Call after every operation; `c` is the collection.
    fn implied<B: Bld>(&mut self, conf: &Conf, c: &Col<B>) -> Implied {
        let mut slack = 128.0;
        let bytes = match c {
            Col::Bloom(f) => f.len() as f64 / 8.0,
            Col::Part(f) => (f.bit_count() * f.hasher_count()) as f64 / 8.0,
            Col::Bs(f) => (f.bit_count() * f.hasher_count()) as f64 / 8.0,
            Col::Bssd(f) => (f.bit_count() * f.hasher_count()) as f64 / 8.0,
            Col::Rlbs(f) => {
                slack += 64.0 * f.hasher_count() as f64;
                (f.bit_count() * f.hasher_count()) as f64 / 8.0
            }
            Col::Scal(f) => {
                self.max_filters = self.max_filters.max(f.filter_count());
                slack = 1024.0 + 384.0 * self.max_filters as f64;
                f.len() as f64 / 8.0
            }
            Col::Cuckoo(f) => {
                self.max_extra = self.max_extra.max(f.extra_items_len());
                slack += 64.0 * self.max_extra as f64;
                (f.capacity() * f.fingerprint_bit_count()) as f64 / 8.0
            }
            Col::ScalC(f) => {
                // every component is full of its own; the overflow of one is bounded by its growth
                let (p0, b, tr) = match *conf {
                    Conf::ScalC(_, p, _, t) => (p, f.entries_per_index(), t),
                    Conf::ScalCE(_, p, b, _, t) => (p, b, t),
                    _ => unreachable!(),
                };
                let cap = f.capacity() as f64;
                if f.filter_count() < self.comps.len() {
                    self.comps.clear();
                    self.last = (0, 0.0);
                }
                while self.comps.len() < f.filter_count() {
                    let i = self.comps.len();
                    let w = width(p0 * tr.powi(i as i32), b);
                    self.comps.push((cap - self.last.1) * w / 8.0);
                    self.last = (i + 1, cap);
                }
                self.max_filters = self.max_filters.max(f.filter_count());
                slack = 1024.0 + 512.0 * self.max_filters as f64;
                self.comps.iter().sum()
            }
            Col::Quot(f) => f.capacity() as f64 * (f64::from(f.remainder_bits()) + 3.0) / 8.0,
            Col::Hll(_) => match *conf {
                Conf::Hll(e) => 2f64.powf((1.04 / e).powi(2).log2().ceil().max(0.0)),
                _ => unreachable!(),
            },
            Col::CMin(f) => (8 * f.rows() * f.cols()) as f64,
            Col::CMean(f) => (8 * f.rows() * f.cols()) as f64,
            Col::CBias(f) => (8 * f.rows() * f.cols()) as f64,
            Col::Mh(_) | Col::Sh(_) => 0.0,
        };
        Implied { bytes: bytes * (1.0 + 1e-9), slack }
    }
}

fn held<B: Bld>(conf: &Conf, h: &[Op], cc: &mut CC, u: &[It]) -> Result<(), String> {
    held_by::<B>(conf, &|| build(conf, 0), h, cc, u)
}

fn held_by<B: Bld>(conf: &Conf, make: &dyn Fn() -> Col<B>, h: &[Op], cc: &mut CC, u: &[It]) -> Result<(), String> {
    let cfg = conf.menu();
    cc.traces += 1;
    let mut m = Mem { comps: vec![], last: (0, 0.0), max_extra: 0, max_filters: 0 };
    // what the stand-in generator keeps is not the collection's
    rx::begin(&cfg, &[0]);
    rx::end();
    let base = live_bytes();
    let mut c: Col<B> = make();
    let mut n = 0;
    loop {
        let bytes = (live_bytes() - base) as f64;
        let i = m.implied(conf, &c);
        if bytes > i.bytes + i.slack {
            return Err(format!(
                "{:?} holds {} bytes of heap memory where its parameters call for {:.0} (+ {:.0}) | history: {}",
                conf, bytes, i.bytes, i.slack, brief(&h[..n])
            ));
        }
        if n == h.len() {
            break;
        }
        if one(&mut c, &h[n], &cfg, u).is_err() {
            break;
        }
        cc.transitions += 1;
        cc.beat();
        n += 1;
    }
    // a clone needs no more either
    let base = live_bytes();
    let d = c.clone();
    let bytes = (live_bytes() - base) as f64;
    let i = m.implied(conf, &d);
    if bytes > i.bytes + i.slack {
        return Err(format!("the clone of {:?} holds {} bytes, its parameters call for {:.0} (+ {:.0}) | history: {}", conf, bytes, i.bytes, i.slack, brief(&h[..n])));
    }
    let base = live_bytes();
    let e = round_trip(&c)?;
    let bytes = (live_bytes() - base) as f64;
    if bytes > 2.0 * i.bytes + i.slack {
        return Err(format!("{:?} restored holds {} bytes, its parameters call for {:.0} (+ {:.0}) | history: {}", conf, bytes, i.bytes, i.slack, brief(&h[..n])));
    }
    drop(e);
    Ok(())
}

pub fn c28(cs: &mut Cases) {
    let tier = cs.tier;
    let mut v: Vec<Conf> = confs();
    for m in [100usize, 1000, 4096, 65_537, 1 << 20] {
        v.extend([
            Conf::Bloom(m, m / 10), Conf::BloomF(m, 0.01), Conf::BloomN(m / 10, 0.02), Conf::BloomN(m / 40, 1e-6), Conf::PartB(m / 8, 0.01),
            Conf::PartB(m, 0.4), Conf::PartN(m / 10, 0.01), Conf::Scal(m, 0.1, 2.0, 0.5), Conf::Bs(m, 0.05), Conf::Bs(m / 8, 0.004),
            Conf::Bssd(m, 0.05), Conf::Bssd(m / 8, 0.004), Conf::Rlbs(m, 0.05), Conf::Rlbs(m / 8, 0.004),
            Conf::CuckooD(m), Conf::Cuckoo(m, 7, 4), Conf::Cuckoo(m / 2, 8, 1), Conf::Cuckoo(m / 4, 33, 2), Conf::Cuckoo(m / 8, 64, 4),
            Conf::Cuckoo(m / 3, 2, 3), Conf::CuckooE(m, 0.01, 4), Conf::CuckooE(m / 2, 1e-9, 2), Conf::CuckooF(m, 0.01, 12),
            Conf::ScalC(m, 0.01, 2.0, 0.5), Conf::ScalCE(m, 0.1, 2, 1.5, 0.9), Conf::QuotF(m, 0.01), Conf::QuotF(m / 3, 1e-9),
            Conf::CMin(3, m / 16), Conf::CMean(m / 64 + 1, 9), Conf::CBias(1, m / 8), Conf::CErr(100.0 / m as f64, 0.05), Conf::CErr(0.3, 1e-9),
        ]);
    }
    for q in 1..=t3(tier, 16u8, 20, 22) {
        for r in [1u8, 2, 5, 7, 8, 13, 29, 30, 31, 40] {
            if u32::from(r) << q < 1 << 26 {
                v.push(Conf::Quot(q, r));
            }
        }
    }
    for f in 2..=64 {
        v.push(Conf::Cuckoo(300, f, 2));
        v.push(Conf::Cuckoo(1000, f, 4));
    }
    for e in [0.7, 0.3, 0.2, 0.05, 0.03, 0.01, 0.005, 0.003] {
        v.push(Conf::Hll(e));
    }
    let mut names = std::collections::HashSet::new();
    v.retain(|c| names.insert(format!("{:?}", c)));
    for conf in v {
        cs.add(format!("{:?}", conf), move |cc| {
            let u = universe();
            // warm up whatever is allocated once per thread
            let _ = held::<HB>(&conf, &[], cc, &u);
            drop(build_plain(&conf));
            held::<HB>(&conf, &[], cc, &u)?;
            held::<SipHasherBuilder>(&conf, &[], cc, &u)?;
            held_by(&conf, &|| build_plain(&conf), &[], cc, &u)?;
            if conf.stateless() {
                cc.states += 1;
                return Ok(());
            }
            let small = confs().contains(&conf);
            for h in conf.long(198) {
                let mut h2 = h.clone();
                for _ in 0..t(cc.tier, if small { 4 } else { 1 }, 20) {
                    h2.push(Op::Clear);
                    h2.extend(h.iter());
                }
                // rebuilding over and over
                held::<HB>(&conf, &h2, cc, &u)?;
                h2.push(Op::Clear);
                held::<SipHasherBuilder>(&conf, &h2, cc, &u)?;
                held_by(&conf, &|| build_plain(&conf), &h2, cc, &u)?;
                cc.states += 1;
            }
            // remove and insert over and over, and clear over and over
            if conf.removes() {
                let mut h = Vec::new();
                for i in 0..t(cc.tier, 1500u32, 20_000) {
                    h.push(Op::Ins((i % 5) as u8, 0));
                    if i % 2 == 0 {
                        h.push(Op::Rem((i % 5) as u8));
                    }
                    if i >= 5 {
                        h.push(Op::Rem(((i + 3) % 5) as u8));
                    }
                }
                if !matches!(conf, Conf::Quot(1..=3, _)) && small {
                    held::<HB>(&conf, &h, cc, &u)?;
                }
            }
            if small {
                let d = if conf.random() { 2 } else { 3 };
                let m = t(cc.tier, 300, 5000);
                each_state::<HB>(cc, conf, MIX, d, m, &mut |cc, s| {
                    held::<HB>(&s.conf, &s.hist, cc, &s.u)?;
                    let mut h = s.hist.clone();
                    h.push(Op::Clear);
                    held::<HB>(&s.conf, &h, cc, &s.u)
                })?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C27

fn std_sip<T: Hash + ?Sized>(k: (u64, u64), x: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(k.0, k.1);
    x.hash(&mut h);
    h.finish()
}

fn via_min_hash<T: Hash + Clone>(b: [SipHasherBuilder; 2], k: usize, x: &T) -> Vec<u64> {
    MinHash::<std::vec::IntoIter<T>, T>::with_hashers(k, b).get_min_hashes(vec![x.clone()].into_iter())
}

fn via_sim_hash<T: Hash + Clone>(b: SipHasherBuilder, x: &T) -> u64 {
    SimHash::<std::vec::IntoIter<T>, T>::with_hasher(b).get_sim_hash(vec![x.clone()].into_iter())
}

/// Owned and borrowed forms agree in every collection.
fn forms<O, R>(cc: &mut CC, items: &[O], rf: fn(&O) -> &R, what: &str) -> Result<(), String>
where
    O: Hash + Clone + Debug + std::borrow::Borrow<R>,
    R: Hash + ?Sized,
{
    let h = <SipHasherBuilder as Bld>::pair(5);
    macro_rules! member {
        ($name:expr, $mk:expr) => {
            for i in 0..items.len() {
                // a: owned, b: borrowed
                let mut a = $mk;
                let mut b = $mk;
                for x in &items[..=i] {
                    let cfg = rx::Cfg { menu32: menu32(4), menu64: menu64(4), max_branch: 0, tails: 3 };
                    rx::begin(&cfg, &[i as u8 % 3]);
                    a.insert::<O>(x);
                    rx::end();
                    rx::begin(&cfg, &[i as u8 % 3]);
                    b.insert::<R>(rf(x));
                    rx::end();
                    cc.transitions += 2;
                }
                cc.states += 1;
                cc.traces += 1;
                for x in items {
                    let v = [a.contains::<O>(x), a.contains::<R>(rf(x)), b.contains::<O>(x), b.contains::<R>(rf(x))];
                    if v.iter().any(|y| *y != v[0]) {
                        return Err(format!("{} of {}: {:?} inserted / asked for as owned or borrowed: {:?}", $name, what, x, v));
                    }
                }
            }
        };
    }
    member!("BloomFilter", BloomFilter::<O>::with_hashers(20, 0.01, h));
    member!("PartitionedBloomFilter", PartitionedBloomFilter::<O>::from_item_count_with_hashers(20, 0.01, h));
    member!("ScalableBloomFilter", ScalableBloomFilter::<O>::with_hashers(16, 0.1, 2.0, 0.5, h));
    member!("BSBloomFilter", BSBloomFilter::<O>::with_hashers(1024, 0.01, h));
    member!("BSSDBloomFilter", BSSDBloomFilter::<O>::with_hashers(1024, 0.01, h));
    member!("RLBSBloomFilter", RLBSBloomFilter::<O>::with_hashers(1024, 0.01, h));
    member!("CuckooFilter", CuckooFilter::<O>::from_parameters_with_hashers(64, 16, 4, h));
    member!("ScalableCuckooFilter", ScalableCuckooFilter::<O>::with_hashers(4, 0.01, 2.0, 0.5, h));
    member!("QuotientFilter", QuotientFilter::<O>::with_hasher(6, 10, h[0]));
    // removal in the other form
    for x in items {
        let mut c = CuckooFilter::<O>::from_parameters_with_hashers(64, 16, 4, h);
        c.insert::<O>(x);
        c.remove::<R>(rf(x));
        if c.len() != 0 {
            return Err(format!("CuckooFilter of {}: {:?} inserted owned cannot be removed borrowed", what, x));
        }
        let mut c = ScalableCuckooFilter::<O>::with_hashers(16, 0.01, 2.0, 0.5, h);
        c.insert::<R>(rf(x));
        c.remove::<O>(x);
        if c.len() != 0 {
            return Err(format!("ScalableCuckooFilter of {}: {:?} inserted borrowed cannot be removed owned", what, x));
        }
        let mut c = QuotientFilter::<O>::with_hasher(6, 10, h[0]);
        c.insert::<R>(rf(x));
        c.remove::<O>(x);
        if c.len() != 0 {
            return Err(format!("QuotientFilter of {}: {:?} inserted borrowed cannot be removed owned", what, x));
        }
    }
    let mut a = HyperLogLog::<O>::with_hasher(0.1, h[0]);
    let mut b = HyperLogLog::<O>::with_hasher(0.1, h[0]);
    let mut c = CountMinSketch::<CountMinStrategy, O>::with_hashers(4, 64, h);
    let mut d = CountMinSketch::<CountMinStrategy, O>::with_hashers(4, 64, h);
    for (i, x) in items.iter().enumerate() {
        a.insert::<O>(x);
        b.insert::<R>(rf(x));
        if a.len().to_bits() != b.len().to_bits() {
            return Err(format!("HyperLogLog of {}: {:?} counts differently as owned and borrowed", what, x));
        }
        let mut m = a.clone_it();
        m.merge(&b);
        if m.len().to_bits() != a.len().to_bits() {
            return Err(format!("HyperLogLog of {}: {:?} touches another register as borrowed", what, x));
        }
        c.insert::<O>(x, i as i64 + 1);
        d.insert::<R>(rf(x), i as i64 + 1);
        for y in items {
            let v = [c.count::<O>(y), c.count::<R>(rf(y)), d.count::<O>(y), d.count::<R>(rf(y))];
            if v.iter().any(|w| *w != v[0]) {
                return Err(format!("CountMinSketch of {}: {:?} as owned or borrowed: {:?}", what, y, v));
            }
        }
        cc.transitions += 4;
    }
    // a signature does not depend on the form either
    for x in items {
        let o = MinHash::<std::vec::IntoIter<O>, O>::with_hashers(5, h).get_min_hashes(vec![x.clone()].into_iter());
        let r = MinHash::<std::vec::IntoIter<&R>, &R>::with_hashers(5, h).get_min_hashes(vec![rf(x)].into_iter());
        if o != r {
            return Err(format!("MinHash of {}: {:?} has another signature as borrowed", what, x));
        }
        let o = SimHash::<std::vec::IntoIter<O>, O>::with_hasher(h[1]).get_sim_hash(vec![x.clone()].into_iter());
        let r = SimHash::<std::vec::IntoIter<&R>, &R>::with_hasher(h[1]).get_sim_hash(vec![rf(x)].into_iter());
        if o != r {
            return Err(format!("SimHash of {}: {:?} has another signature as borrowed", what, x));
        }
        cc.transitions += 4;
    }
    Ok(())
}

/// `HyperLogLog<T>` is `Clone` only where `T` is; merging into a fresh one copies it.
trait CloneIt {
    fn clone_it(&self) -> Self;
}
impl<O: Hash> CloneIt for HyperLogLog<O> {
    fn clone_it(&self) -> Self {
        let mut n = HyperLogLog::<O>::with_hasher(0.1, *self.hasher());
        n.merge(self);
        n
    }
}

pub fn c27(cs: &mut Cases) {
    // SipHash-2-4 under the given keys, against the implementation in the standard library
    let ks = vec![
        0u64, 1, 2, 3, 0xFF, 1 << 31, u64::from(u32::MAX), 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX,
        0x0706_0504_0302_0100, 0x0F0E_0D0C_0B0A_0908, 0x0123_4567_89AB_CDEF,
    ];
    for (i, k0) in ks.clone().into_iter().enumerate() {
        let ks = ks.clone();
        cs.add(format!("sip keys {}", i), move |cc| {
            for k1 in ks.clone() {
                let b = SipHasherBuilder::from_seed(k0, k1);
                cc.states += 1;
                for n in 0..=t3(cc.tier, 48usize, 200, 1000) {
                    let m: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(29).wrapping_add(k1 as u8)).collect();
                    #[allow(deprecated)]
                    let want = {
                        let mut h = std::hash::SipHasher::new_with_keys(k0, k1);
                        h.write(&m);
                        h.finish()
                    };
                    for cut in 0..=n {
                        let mut h = b.build_hasher();
                        h.write(&m[..cut]);
                        h.write(&m[cut..]);
                        cc.transitions += 1;
                        if h.finish() != want {
                            return Err(format!("builder ({:#x}, {:#x}): {} bytes written as {} and {}: not the SipHash-2-4 value", k0, k1, n, cut, n - cut));
                        }
                    }
                    let s: String = m.iter().map(|b| (b'a' + b % 26) as char).collect();
                    cc.traces += 1;
                    macro_rules! same {
                        ($x:expr) => {{
                            let b2 = SipHasherBuilder::from_seed(k1, k0 ^ 1);
                            let want = std_sip((k0, k1), $x);
                            let w2 = std_sip((k1, k0 ^ 1), $x);
                            let got = via_min_hash([b, b2], 6, $x);
                            for (i, g) in got.iter().enumerate() {
                                if *g != derived(want, w2, i as u64) {
                                    return Err(format!("keys ({:#x}, {:#x}), item {:?}: derived hash {} is {:#x}, expected {:#x}", k0, k1, $x, i, g, derived(want, w2, i as u64)));
                                }
                            }
                            let ideal = SimHash::<Toks, It, HB>::with_hasher(h0()).get_sim_hash(vec![It(want, 0)].into_iter());
                            if via_sim_hash(b, $x) != ideal {
                                return Err(format!("keys ({:#x}, {:#x}), item {:?}: sim-hash of one item does not come from its hash", k0, k1, $x));
                            }
                        }};
                    }
                    same!(&m);
                    same!(&s);
                    same!(&(n as u64));
                    same!(&(n as u8, s.clone(), -(n as i32)));
                    same!(&Some(n as u16));
                }
            }
            Ok(())
        });
    }
    cs.add("equality of builders", move |cc| {
        for a in &ks {
            for b in &ks {
                for c in &ks {
                    for d in &ks {
                        let e = SipHasherBuilder::from_seed(*a, *b) == SipHasherBuilder::from_seed(*c, *d);
                        cc.transitions += 1;
                        if e != (a == c && b == d) {
                            return Err(format!("builders ({:#x}, {:#x}) and ({:#x}, {:#x}) compare as equal: {}", a, b, c, d, e));
                        }
                    }
                }
            }
        }
        cc.states += 1;
        cc.traces += 1;
        Ok(())
    });
    // the derived hashes, for chosen h1 and h2
    cs.add("derived hashes", |cc| {
        let mut es = edges(1000);
        es.extend((0..10).map(|i| splitmix(i + 50)));
        for a in &es {
            for b in &es {
                let k = t3(cc.tier, 70, 400, 2000);
                let g = MinHash::<Toks, It, HB>::with_hashers(k, hb(MIX)).get_min_hashes(vec![It(*a, *b)].into_iter());
                cc.states += 1;
                cc.traces += 1;
                for (i, x) in g.iter().enumerate() {
                    cc.transitions += 1;
                    // h1 + i h2 + i (i-1) (i-2) / 6, computed in 128 bits
                    let i = i as i128;
                    let w = (*a as i128 + i * (*b as i128) + i * (i - 1) * (i - 2) / 6) as u64;
                    if *x != w {
                        return Err(format!("derived hash {} of ({:#x}, {:#x}) is {:#x}, expected {:#x}", i, a, b, x, w));
                    }
                }
            }
        }
        // far along the sequence
        for a in [0u64, 1, u64::MAX, 0x0123_4567_89AB_CDEF] {
            for b in [0u64, 1, 1 << 63, u64::MAX, 0xFEDC_BA98_7654_3210] {
                let k = t(cc.tier, 70_000, 3_000_000);
                let g = MinHash::<Toks, It, HB>::with_hashers(k, hb(MIX)).get_min_hashes(vec![It(a, b)].into_iter());
                cc.states += 1;
                cc.traces += 1;
                cc.beat();
                for (i, x) in g.iter().enumerate() {
                    cc.transitions += 1;
                    let i = i as i128;
                    let w = (a as i128 + i * (b as i128) + i * (i - 1) * (i - 2) / 6) as u64;
                    if *x != w {
                        return Err(format!("derived hash {} of ({:#x}, {:#x}) is {:#x}, expected {:#x}", i, a, b, x, w));
                    }
                }
            }
        }
        Ok(())
    });
    cs.add("owned and borrowed strings", |cc| {
        let v: Vec<String> = ["", "a", "b", "ab", "\u{65e5}\u{672c}", "abcdefg", "abcdefgh", "abcdefghi", &"x".repeat(100)].iter().map(|s| s.to_string()).collect();
        forms::<String, str>(cc, &v, |x| x.as_str(), "strings")
    });
    cs.add("owned and borrowed byte vectors", |cc| {
        let v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![1, 2, 3], vec![255; 7], vec![255; 8], vec![7; 64], (0..33).collect()];
        forms::<Vec<u8>, [u8]>(cc, &v, |x| &x[..], "byte vectors")
    });
    cs.add("owned and boxed numbers", |cc| {
        let v: Vec<Box<u64>> = vec![0, 1, 2, u64::MAX, 1 << 63, 12345].into_iter().map(Box::new).collect();
        forms::<Box<u64>, u64>(cc, &v, |x| x, "boxed numbers")
    });
    // reported builders, for every constructor that takes some
    cs.add("reported builders", |cc| {
        for conf in confs() {
            for seed in 0..4u8 {
                let c: Col<SipHasherBuilder> = build(&conf, seed);
                let want = <SipHasherBuilder as Bld>::pair(seed);
                let got = c.hashers();
                cc.states += 1;
                cc.traces += 1;
                if got[..] != want[..got.len()] {
                    return Err(format!("{:?} reports the builders {:?}, it was given {:?}", conf, got, want));
                }
            }
            let c: Col<HB> = build(&conf, ROT);
            let got = c.hashers();
            if got[..] != hb(ROT)[..got.len()] {
                return Err(format!("{:?} reports other builders than it was given", conf));
            }
            // and still after a history
            let cfg = conf.menu();
            let u = universe();
            for h in conf.long(60) {
                let c = replayed::<SipHasherBuilder>(&conf, 3, &h, &cfg, &u);
                if let Ok(c) = c {
                    let want = <SipHasherBuilder as Bld>::pair(3);
                    let got = c.hashers();
                    cc.transitions += h.len() as u64;
                    if got[..] != want[..got.len()] {
                        return Err(format!("{:?} reports the builders {:?} after a history, it was given {:?}", conf, got, want));
                    }
                }
            }
        }
        Ok(())
    });
    // fresh keys
    cs.add("fresh keys", |cc| {
        let mut all: Vec<(String, SipHasherBuilder)> = Vec::new();
        for round in 0..3 {
            macro_rules! two {
                ($n:expr, $e:expr) => {{
                    let f = $e;
                    all.push((format!("{} #{} (first)", $n, round), f.hashers()[0]));
                    all.push((format!("{} #{} (second)", $n, round), f.hashers()[1]));
                }};
            }
            macro_rules! single {
                ($n:expr, $e:expr) => {{
                    let f = $e;
                    all.push((format!("{} #{}", $n, round), *f.hasher()));
                }};
            }
            two!("BloomFilter::new", BloomFilter::<It>::new(10, 0.1));
            two!("BloomFilter::from_item_count", BloomFilter::<It>::from_item_count(10, 3));
            two!("BloomFilter::from_fpp", BloomFilter::<It>::from_fpp(10, 0.1));
            two!("PartitionedBloomFilter::from_item_count", PartitionedBloomFilter::<It>::from_item_count(10, 0.1));
            two!("PartitionedBloomFilter::from_bit_count", PartitionedBloomFilter::<It>::from_bit_count(10, 0.1));
            two!("ScalableBloomFilter::new", ScalableBloomFilter::<It>::new(10, 0.1, 2.0, 0.5));
            two!("BSBloomFilter::new", BSBloomFilter::<It>::new(10, 0.1));
            two!("BSSDBloomFilter::new", BSSDBloomFilter::<It>::new(10, 0.1));
            two!("RLBSBloomFilter::new", RLBSBloomFilter::<It>::new(10, 0.1));
            two!("CuckooFilter::new", CuckooFilter::<It>::new(10));
            two!("CuckooFilter::from_parameters", CuckooFilter::<It>::from_parameters(10, 8, 4));
            two!("CuckooFilter::from_entries_per_index", CuckooFilter::<It>::from_entries_per_index(10, 0.01, 4));
            two!("CuckooFilter::from_fingerprint_bit_count", CuckooFilter::<It>::from_fingerprint_bit_count(10, 0.01, 10));
            two!("ScalableCuckooFilter::new", ScalableCuckooFilter::<It>::new(10, 0.01, 2.0, 0.5));
            two!("ScalableCuckooFilter::from_entries_per_index", ScalableCuckooFilter::<It>::from_entries_per_index(10, 0.01, 4, 2.0, 0.5));
            two!("CountMinSketch::new", CountMinSketch::<CountMinStrategy, It>::new(3, 3));
            two!("CountMinSketch::from_error", CountMinSketch::<CountMinStrategy, It>::from_error(0.1, 0.1));
            two!("MinHash::new", MinHash::<Toks, It>::new(3));
            single!("QuotientFilter::new", QuotientFilter::<It>::new(3, 3));
            single!("QuotientFilter::from_fpp", QuotientFilter::<It>::from_fpp(10, 0.1));
            single!("HyperLogLog::new", HyperLogLog::<It>::new(0.1));
            single!("SimHash::new", SimHash::<Toks, It>::new());
            single!("SimHash::default", SimHash::<Toks, It>::default());
            all.push((format!("SipHasherBuilder::from_entropy #{}", round), SipHasherBuilder::from_entropy()));
        }
        // two builders that agree on many messages have the same keys
        let sig = |b: &SipHasherBuilder| -> Vec<u64> {
            (0..4u64)
                .map(|x| {
                    let mut h = b.build_hasher();
                    h.write(&x.to_le_bytes());
                    h.finish()
                })
                .collect()
        };
        for i in 0..all.len() {
            cc.states += 1;
            for j in 0..i {
                cc.transitions += 1;
                if all[i].1 == all[j].1 || sig(&all[i].1) == sig(&all[j].1) {
                    return Err(format!("{} and {} got the same random keys", all[j].0, all[i].0));
                }
            }
        }
        cc.traces += 1;
        Ok(())
    });
    // every bit of the keys is drawn, and drawn independently of every other one
    cs.add("bits of fresh keys", |cc| {
        // where the two key words are in the serialised form, told by builders with known keys
        let ser = |b: &SipHasherBuilder| bincode::serialize(b).unwrap_or_default();
        let word = |v: &[u8], o: usize| v.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
        let seeds = [(0x0123_4567_89ab_cdefu64, 0xfedc_ba98_7654_3210u64), (1, 2), (u64::MAX, 0), (0, 0x8000_0000_0000_0001), (0x1111, 0x1111_0000_0000)];
        let known: Vec<Vec<u8>> = seeds.iter().map(|(a, b)| ser(&SipHasherBuilder::from_seed(*a, *b))).collect();
        let find = |second: bool| {
            (0..known[0].len()).find(|o| known.iter().zip(&seeds).all(|(v, (a, b))| word(v, *o) == Some(if second { *b } else { *a })))
        };
        let (o0, o1) = match (find(false), find(true)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()), // stored in another way: the keys cannot be read
        };
        let words = |b: &SipHasherBuilder| -> Option<[u64; 2]> {
            let v = ser(b);
            Some([word(&v, o0)?, word(&v, o1)?])
        };
        let mut samples: Vec<Vec<u64>> = Vec::new();
        for _ in 0..400 {
            let f = BloomFilter::<It>::new(1, 0.5);
            let e = SipHasherBuilder::from_entropy();
            let mut v = Vec::new();
            for b in [&f.hashers()[0], &f.hashers()[1], &e] {
                match words(b) {
                    Some(w) => v.extend_from_slice(&w),
                    None => return Ok(()), // stored in another way: the keys cannot be read
                }
            }
            cc.transitions += 3;
            samples.push(v);
        }
        let n = samples[0].len() * 64;
        let bit = |s: &Vec<u64>, i: usize| s[i / 64] >> (i % 64) & 1;
        // bit i over all samples
        let cols: Vec<Vec<u64>> = (0..n)
            .map(|i| samples.chunks(64).map(|c| c.iter().enumerate().fold(0u64, |a, (j, s)| a | bit(s, i) << j)).collect())
            .collect();
        let full: Vec<u64> = samples.chunks(64).map(|c| c.iter().enumerate().fold(0u64, |a, (j, _)| a | 1 << j)).collect();
        let part = ["first key word of hasher 0", "second key word of hasher 0", "first key word of hasher 1", "second key word of hasher 1", "first key word of another builder", "second key word of another builder"];
        for i in 0..n {
            cc.states += 1;
            if cols[i].iter().all(|x| *x == 0) || cols[i] == full {
                return Err(format!("bit {} of the {} is the same in 400 fresh builders", i % 64, part[i / 64]));
            }
            for j in 0..i {
                let x: Vec<u64> = cols[i].iter().zip(&cols[j]).map(|(a, b)| a ^ b).collect();
                if x.iter().all(|x| *x == 0) || x == full {
                    return Err(format!("bit {} of the {} decides bit {} of the {} in 400 fresh builders", i % 64, part[i / 64], j % 64, part[j / 64]));
                }
            }
        }
        cc.traces += 1;
        Ok(())
    });
    // queries have no influence, and histories determine answers
    for conf in confs() {
        cs.add(format!("queries {:?}", conf), move |cc| {
            run27::<HB>(cc, conf, MIX)?;
            run27::<SipHasherBuilder>(cc, conf, 11)
        });
    }
}

fn quiet_lock<B: Bld>(cc: &mut CC, conf: &Conf, seed: u8, h: &[Op], u: &[It]) -> Result<(), String> {
    let cfg = conf.menu();
    // a: asked nothing before the end; b: asked everything after every operation, twice
    let mut a: Col<B> = build(conf, seed);
    let mut b: Col<B> = build(conf, seed);
    cc.traces += 1;
    for (n, o) in h.iter().enumerate() {
        let x = b.answers(u);
        let y = b.answers(u);
        if x != y {
            return Err(format!("the same questions are answered differently the second time: {} | history: {}", diff(&x, &y), brief(&h[..n])));
        }
        match (one(&mut a, o, &cfg, u), one(&mut b, o, &cfg, u)) {
            (Ok(()), Ok(())) => {}
            (Err(_), Err(_)) => return Ok(()),
            (r, s) => return Err(format!("with and without queries in between: {:?} / {:?} | history: {}", r, s, brief(&h[..=n]))),
        }
        cc.transitions += 2;
        cc.beat();
    }
    let (x, y) = (a.answers(u), b.answers(u));
    if x != y {
        return Err(format!("queries in between change the answers: {} | history: {}", diff(&x, &y), brief(h)));
    }
    // reversed order of questions
    let mut r = u[..N_ASK].to_vec();
    r.reverse();
    let mut c = replayed::<B>(conf, seed, h, &cfg, u)?;
    let mut w = r.clone();
    w.extend_from_slice(&u[N_ASK..]);
    let _ = c.answers(&w);
    if c.answers(u) != x {
        return Err(format!("the order of the questions changes the answers | history: {}", brief(h)));
    }
    Ok(())
}

fn run27<B: Bld>(cc: &mut CC, conf: Conf, seed: u8) -> Result<(), String> {
    let (d, m) = if conf.random() { t(cc.tier, (3, 800), (4, 20_000)) } else { t(cc.tier, (4, 1500), (6, 30_000)) };
    each_state::<B>(cc, conf, seed, d, m, &mut |cc, s| quiet_lock::<B>(cc, &s.conf, s.seed, &s.hist, &s.u))?;
    let u = universe();
    for h in conf.long(198) {
        let step = (h.len() / 12).max(1);
        for n in (0..=h.len()).step_by(step) {
            quiet_lock::<B>(cc, &conf, seed, &h[..n], &u).map_err(|e| format!("{:?}: {}", conf, e))?;
        }
    }
    // lists of sets, twice and through another instance
    if conf.stateless() {
        let mut a: Col<B> = build(&conf, seed);
        let mut b: Col<B> = build(&conf, seed);
        for s in 0..u.len() - 20 {
            let (x, y) = (a.answers(&u[s..]), b.answers(&u[s..]));
            cc.transitions += 2;
            if x != y || a.answers(&u[s..]) != x {
                return Err(format!("{:?}: equal instances answer differently: {}", conf, diff(&x, &y)));
            }
        }
        // shingles borrowed from tokens hash like the owned lists
        let toks = ["the", "cat", "sat", "on", "a", "mat"];
        for k in 1..=6 {
            let h = <SipHasherBuilder as Bld>::pair(seed);
            let m1 = MinHash::<ShingleIterator<str>, Vec<&str>>::with_hashers(9, h).get_min_hashes(ShingleIterator::new(k, toks.to_vec()));
            let own: Vec<Vec<String>> = toks.windows(k).map(|w| w.iter().map(|s| s.to_string()).collect()).collect();
            let m2 = MinHash::<std::vec::IntoIter<Vec<String>>, Vec<String>>::with_hashers(9, h).get_min_hashes(own.into_iter());
            cc.states += 1;
            if m1 != m2 {
                return Err(format!("shingles of {} tokens: borrowed and owned tokens have different signatures", k));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- large contents (C26, C29)

fn large_confs() -> Vec<(Conf, bool)> {
    // (configuration, whether going on is deterministic)
    vec![
        (Conf::BloomN(70_000, 0.01), true), (Conf::BloomF(300_001, 0.2), true), (Conf::PartN(70_000, 0.03), true),
        (Conf::Scal(5000, 0.01, 2.0, 0.5), true), (Conf::Scal(300, 0.1, 1.0, 0.999), true),
        (Conf::Bs(70_001, 0.1), false), (Conf::Bssd(70_001, 0.1), false), (Conf::Rlbs(70_001, 0.1), false),
        (Conf::Cuckoo(1 << 18, 30, 4), true), (Conf::CuckooE(140_000, 0.001, 4), true),
        (Conf::ScalC(200_000, 0.001, 2.0, 0.5), true), (Conf::ScalCE(1000, 0.001, 4, 1.0, 0.999), false),
        (Conf::Quot(18, 20), true), (Conf::Hll(0.005), true), (Conf::CMin(4, 70_001), true), (Conf::CBias(3, 300), true),
    ]
}

fn filled<B: Bld>(conf: &Conf, n: u64) -> Col<B> {
    let mut c: Col<B> = build(conf, MIX);
    go_on(conf, &mut c, 0, n);
    c
}

fn big_item(i: u64) -> It {
    It(splitmix(i ^ 0x77 << 50), splitmix(i ^ 0x99 << 50))
}

fn go_on<B: Bld>(conf: &Conf, c: &mut Col<B>, from: u64, to: u64) {
    for i in from..to {
        let op = if conf.sketch() { Op::Add(0, 1 + (i % 5) as i64) } else { Op::Ins(0, 0) };
        c.op(&op, &[big_item(i)]);
    }
}

fn take_away<B: Bld>(conf: &Conf, c: &mut Col<B>, from: u64, to: u64) {
    for i in from..to {
        let op = if conf.sketch() { Op::Sub(0, 1) } else { Op::Rem(0) };
        c.op(&op, &[big_item(i)]);
    }
}

/// Compares all answers, for items from the beginning, the middle, the end and beyond.
fn alike<B: Bld>(cc: &mut CC, a: &mut Col<B>, b: &mut Col<B>, n: u64, what: &str) -> Result<(), String> {
    for start in (0..2 * n + 1400).step_by((n / 500) as usize) {
        let u: Vec<It> = (start..start + N_ASK as u64).map(big_item).collect();
        let (x, y) = (a.answers(&u), b.answers(&u));
        cc.transitions += 1;
        cc.beat();
        if x != y {
            return Err(format!("{}: answers differ: {}", what, diff(&x, &y)));
        }
        if start == 0 {
            let mut k = what.as_bytes().to_vec();
            x.iter().for_each(|w| k.extend_from_slice(&w.to_le_bytes()));
            cc.state(&k);
        }
    }
    Ok(())
}

pub fn large26(cs: &mut Cases) {
    for (conf, fixed) in large_confs() {
        cs.add(format!("large {:?}", conf), move |cc| {
            let n = t(cc.tier, 70_000u64, 100_000);
            let mut a: Col<HB> = filled(&conf, n);
            let u: Vec<It> = (0..20).map(big_item).collect();
            for kind in 0..3 {
                cc.beat();
                let mut b = match kind {
                    0 => round_trip(&a)?,
                    1 => a.clone(),
                    _ => {
                        let mut x: Col<HB> = build(&conf, MIX);
                        go_on(&conf, &mut x, 500, 900);
                        x.take_from(&a);
                        x
                    }
                };
                let what = ["restored", "clone", "clone_from"][kind];
                alike(cc, &mut a, &mut b, n, what).map_err(|e| format!("{:?}: {}", conf, e))?;
                if a.same(&b) == Some(false) {
                    return Err(format!("{:?}: {} does not equal its original", conf, what));
                }
                let before = a.answers(&u);
                if fixed {
                    let mut o: Col<HB> = filled(&conf, n);
                    // deterministic, or far from overflow: both go on alike
                    let m = 10_000;
                    go_on(&conf, &mut o, n, n + m);
                    go_on(&conf, &mut b, n, n + m);
                    alike(cc, &mut o, &mut b, n, what).map_err(|e| format!("{:?}: {} more insertions: {}", conf, m, e))?;
                    if conf.removes() || conf.sketch() {
                        take_away(&conf, &mut o, n / 2, n);
                        take_away(&conf, &mut b, n / 2, n);
                        alike(cc, &mut o, &mut b, n, what).map_err(|e| format!("{:?}: removals: {}", conf, e))?;
                    }
                    cc.transitions += 4 * m;
                }
                if a.answers(&u) != before {
                    return Err(format!("{:?}: changing a {} changed the original", conf, what));
                }
                cc.traces += 1;
            }
            Ok(())
        });
    }
}

pub fn large29(cs: &mut Cases) {
    for (conf, fixed) in large_confs() {
        cs.add(format!("large {:?}", conf), move |cc| {
            let n = t(cc.tier, 70_000u64, 100_000);
            let mut a: Col<HB> = filled(&conf, n);
            for round in 0..2 {
                a.op(&Op::Clear, &[]);
                let mut f: Col<HB> = build(&conf, MIX);
                alike(cc, &mut a, &mut f, n, "cleared / fresh").map_err(|e| format!("{:?}: {}", conf, e))?;
                if f.same(&a) == Some(false) {
                    return Err(format!("{:?}: a cleared collection does not equal a fresh one", conf));
                }
                if !fixed {
                    go_on(&conf, &mut a, n, n + 1000);
                    continue;
                }
                // other items, in another number
                go_on(&conf, &mut a, n + 5 + round, 2 * n - 1000);
                go_on(&conf, &mut f, n + 5 + round, 2 * n - 1000);
                alike(cc, &mut a, &mut f, n, "cleared / fresh").map_err(|e| format!("{:?}, filled again: {}", conf, e))?;
                if conf.removes() || conf.sketch() {
                    take_away(&conf, &mut a, n + 1000, n + 9000);
                    take_away(&conf, &mut f, n + 1000, n + 9000);
                    alike(cc, &mut a, &mut f, n, "cleared / fresh").map_err(|e| format!("{:?}, removals: {}", conf, e))?;
                }
                cc.transitions += n;
            }
            cc.traces += 1;
            Ok(())
        });
    }
}
