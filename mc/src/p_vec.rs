//! C30, C31: the private storage types (built with `--cfg vmc` only).

use crate::engine::*;
use crate::items::*;
use crate::iters::*;
use probabilistic_collections::vmc_internals::{BitVec, BitstringVec};

fn mask(w: usize) -> u64 {
    if w == 64 { u64::MAX } else { (1 << w) - 1 }
}

#[derive(Clone, Debug)]
enum VOp {
    Push(u64),
    Pop,
    Set(usize, u64),
    Truncate(usize),
    Clear,
    Reserve(usize),
    ReserveExact(usize),
}

#[derive(Clone)]
struct SV {
    v: BitstringVec,
    w: usize,
    r: Vec<u64>,
    vals: Vec<u64>,
    max: usize,
    all_idx: bool,
}

impl SV {
    fn new(w: usize, v: BitstringVec, r: Vec<u64>, vals: Vec<u64>, max: usize, all_idx: bool) -> SV {
        SV { v, w, r, vals, max, all_idx }
    }
    fn check(&self) -> Result<(), String> {
        let occ = self.r.iter().filter(|x| **x != 0).count();
        if self.v.len() != self.r.len() || self.v.is_empty() != self.r.is_empty() || self.v.bit_count() != self.w {
            return Err(format!("length {}, expected {}", self.v.len(), self.r.len()));
        }
        if self.v.occupied_len() != occ {
            return Err(format!("{} non-zero elements reported in {:x?}", self.v.occupied_len(), self.r));
        }
        for (i, x) in self.r.iter().enumerate() {
            if self.v.get(i) != *x {
                return Err(format!("element {} is {:#x}, expected {:#x}", i, self.v.get(i), x));
            }
        }
        if !self.v.iter().eq(self.r.iter().cloned()) || !(&self.v).into_iter().eq(self.r.iter().cloned()) {
            return Err(format!("iteration gives {:x?}, expected {:x?}", self.v.iter().collect::<Vec<_>>(), self.r));
        }
        if self.v.capacity() < self.r.len() {
            return Err(format!("capacity {} with {} elements", self.v.capacity(), self.r.len()));
        }
        Ok(())
    }
    fn rare(&self) -> Result<(), String> {
        if !self.v.clone().into_iter().eq(self.r.iter().cloned()) {
            return Err("consuming iteration differs".into());
        }
        let n = self.r.len();
        for i in [n, n + 1, n + 64] {
            if catch(|| self.v.get(i)).is_ok() {
                return Err(format!("element {} of {} can be read", i, n));
            }
            let mut c = self.v.clone();
            if catch(|| c.set(i, 1)).is_ok() {
                return Err(format!("element {} of {} can be written", i, n));
            }
        }
        let mut c = self.v.clone();
        if n == 0 && catch(|| c.pop()).is_ok() {
            return Err("an element is popped from an empty vector".into());
        }
        let mut f = BitstringVec::new(self.w, 0);
        for x in &self.r {
            f.push(*x);
        }
        if f != self.v {
            return Err(format!("a fresh vector with the same elements {:x?} is not equal", self.r));
        }
        if n > 0 {
            f.set(n / 2, self.r[n / 2] ^ 1);
            if f == self.v {
                return Err("vectors that differ in one element are equal".into());
            }
        }
        Ok(())
    }
}

impl Sys for SV {
    type Op = VOp;
    fn ops(&self) -> Vec<VOp> {
        let n = self.r.len();
        let mut o = vec![VOp::Clear];
        if n < self.max {
            o.extend(self.vals.iter().map(|v| VOp::Push(*v)));
        }
        let mut idx: Vec<usize> = if self.all_idx { (0..n).collect() } else { vec![0, 1, n / 2, 63 / self.w, 64 / self.w, 127 / self.w, 128 / self.w, n.saturating_sub(2), n.saturating_sub(1)] };
        idx.retain(|i| *i < n);
        idx.sort_unstable();
        idx.dedup();
        for i in &idx {
            o.extend(self.vals.iter().map(|v| VOp::Set(*i, *v)));
        }
        if n > 0 {
            o.push(VOp::Pop);
        }
        idx.push(n);
        idx.push(n + 3);
        o.extend(idx.iter().map(|i| VOp::Truncate(*i)));
        o.push(VOp::Reserve(3));
        o.push(VOp::ReserveExact(70 / self.w + 1));
        o
    }
    fn step(&mut self, op: &VOp) -> Result<(), String> {
        match *op {
            VOp::Push(x) => {
                self.v.push(x);
                self.r.push(x);
            }
            VOp::Pop => {
                if self.r.is_empty() {
                    return Ok(()); // only in shortened histories
                }
                let (g, w) = (self.v.pop(), self.r.pop().unwrap());
                if g != w {
                    return Err(format!("popped {:#x}, expected {:#x}", g, w));
                }
            }
            VOp::Set(i, x) => {
                if i >= self.r.len() {
                    return Ok(());
                }
                self.v.set(i, x);
                self.r[i] = x;
            }
            VOp::Truncate(n) => {
                self.v.truncate(n);
                self.r.truncate(n);
            }
            VOp::Clear => {
                self.v.clear();
                self.r.iter_mut().for_each(|x| *x = 0);
            }
            VOp::Reserve(n) | VOp::ReserveExact(n) => {
                if let VOp::Reserve(_) = op {
                    self.v.reserve(n);
                } else {
                    self.v.reserve_exact(n);
                }
                if self.v.capacity() < self.r.len() + n {
                    return Err(format!("capacity {} after reserving {} more than {}", self.v.capacity(), n, self.r.len()));
                }
            }
        }
        self.check()?;
        self.rare()
    }
    fn key(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(format!("{:?}", self.v).as_bytes());
        for x in &self.r {
            o.extend_from_slice(&x.to_le_bytes());
        }
    }
}

fn patterns(w: usize) -> Vec<u64> {
    let m = mask(w);
    let mut v = vec![m, 1, 0x5555_5555_5555_5555 & m, 1 << (w - 1), 0xDEAD_BEEF_0BAD_F00D & m, 0];
    let mut seen = vec![];
    v.retain(|x| {
        let n = !seen.contains(x);
        seen.push(*x);
        n
    });
    v
}

/// Positions at and around powers of two, of elements and of bits.
fn places(n: usize, w: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..40 {
        for c in [1usize << k, (1 << k) / w] {
            v.extend([c.wrapping_sub(1), c, c + 1, n.wrapping_sub(c), n.wrapping_sub(c + 1)]);
        }
    }
    v.retain(|i| *i < n);
    v.sort_unstable();
    v.dedup();
    v
}

fn large_bitstrings(cc: &mut CC, w: usize, n: usize) -> Result<(), String> {
    let what = |e: String| format!("width {}, {} elements: {}", w, n, e);
    let mut v = BitstringVec::new(w, n);
    let p = places(n, w);
    let mut r: std::collections::BTreeMap<usize, u64> = Default::default();
    let all = |v: &BitstringVec, r: &std::collections::BTreeMap<usize, u64>| -> Result<(), String> {
        for i in &p {
            let want = r.get(i).cloned().unwrap_or(0);
            if v.get(*i) != want {
                return Err(format!("element {} is {:#x}, expected {:#x}", i, v.get(*i), want));
            }
        }
        if v.len() != n || v.occupied_len() != r.values().filter(|x| **x != 0).count() {
            return Err(format!("length {}, {} non-zero elements", v.len(), v.occupied_len()));
        }
        Ok(())
    };
    for round in 0..3u64 {
        for (k, i) in p.iter().enumerate().step_by(1 + round as usize) {
            let x = splitmix(k as u64 * 3 + round) & mask(w);
            v.set(*i, x);
            r.insert(*i, x);
            cc.transitions += 1;
            cc.state(&[w as u8, round as u8, k as u8]);
            if v.get(*i) != x {
                return Err(what(format!("element {} is {:#x} right after writing {:#x}", i, v.get(*i), x)));
            }
        }
        cc.beat();
        all(&v, &r).map_err(what)?;
    }
    // written the other way round
    for (k, i) in p.iter().enumerate().rev() {
        let x = !splitmix(k as u64) & mask(w);
        v.set(*i, x);
        r.insert(*i, x);
        cc.transitions += 1;
    }
    all(&v, &r).map_err(what)?;
    if n < 1 << 20 {
        let it: Vec<u64> = v.iter().collect();
        if it.len() != n || it.iter().enumerate().any(|(i, x)| *x != r.get(&i).cloned().unwrap_or(0)) {
            return Err(what("iteration differs".into()));
        }
    }
    // the end
    let last = v.pop();
    if last != r.remove(&(n - 1)).unwrap() || v.len() != n - 1 {
        return Err(what(format!("popped {:#x}", last)));
    }
    v.push(1);
    r.insert(n - 1, 1);
    all(&v, &r).map_err(what)?;
    cc.traces += 1;
    Ok(())
}

pub fn c30(cs: &mut Cases) {
    let tier = cs.tier;
    for w in [1usize, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32, 33, 40, 47, 57, 63, 64] {
        cs.add(format!("width {} large", w), move |cc| {
            for n in [1usize << 16, (1 << 20) + 3, (1 << 25) / w + 9, (1 << 26) + 1] {
                if n * w < 1 << 32 {
                    large_bitstrings(cc, w, n)?;
                }
            }
            Ok(())
        });
    }
    // more than 2^32 bits (pages are allocated lazily)
    for w in [1usize, 7, 64] {
        cs.add(format!("width {} more than 2^32 bits", w), move |cc| large_bitstrings(cc, w, (1usize << 32) / w + 70));
    }
    for w in 1..=64usize {
        // every position and pattern against every background
        cs.add(format!("width {} positions", w), move |cc| {
            let n = 130 / w + 66;
            for bg in patterns(w) {
                let mut s = SV::new(w, BitstringVec::from_elem(w, n, bg), vec![bg; n], vec![], n, false);
                s.check().map_err(|e| format!("from_elem({}, {}, {:#x}): {}", w, n, bg, e))?;
                for i in 0..n {
                    for x in patterns(w).into_iter().chain([splitmix(i as u64) & mask(w)]) {
                        s.v.set(i, x);
                        s.r[i] = x;
                        cc.transitions += 1;
                        // the whole vector now and then, the neighbourhood always
                        let near = i.saturating_sub(2)..(i + 3).min(n);
                        for k in near {
                            if s.v.get(k) != s.r[k] {
                                return Err(format!("width {}: after writing {:#x} at {}, element {} is {:#x}, expected {:#x}", w, x, i, k, s.v.get(k), s.r[k]));
                            }
                        }
                        if i % t(tier, 8, 1) == 0 {
                            s.check().map_err(|e| format!("width {}: after writing {:#x} at {}: {}", w, x, i, e))?;
                        }
                    }
                    cc.state(&[w as u8, bg as u8, i as u8]);
                }
                s.check().map_err(|e| format!("width {}: after rewriting all: {}", w, e))?;
                s.rare().map_err(|e| format!("width {}: {}", w, e))?;
                cc.traces += 1;
                cc.beat();
            }
            Ok(())
        });
        // operation sequences from several lengths
        cs.add(format!("width {} every use of the iterators", w), move |cc| {
            for n in t3(tier, vec![0usize, 1, 2, 5, 9], vec![0, 1, 2, 3, 5, 9, 13], (0..17).collect::<Vec<_>>()) {
                let r: Vec<u64> = (0..n as u64).map(|i| splitmix(i * 64 + w as u64) & mask(w)).collect();
                let mut v = BitstringVec::with_capacity(w, n);
                for x in &r {
                    v.push(*x);
                }
                let d = t3(tier, 2, 3, 4);
                for res in [check_iter(d, || v.iter(), &r), check_iter(d, || (&v).into_iter(), &r), check_iter(d, || v.clone().into_iter(), &r)] {
                    cc.transitions += res.map_err(|e| format!("{:x?}: {}", r, e))?;
                }
                cc.traces += 1;
                cc.state(&[w as u8, n as u8]);
                cc.beat();
            }
            Ok(())
        });
        cs.add(format!("width {} histories", w), move |cc| {
            let per = 64 / w;
            let mut starts = vec![0usize, 1, per.saturating_sub(1), per, per + 1, 2 * per + 1, 128 / w, 192 / w];
            starts.sort_unstable();
            starts.dedup();
            let p = patterns(w);
            let vals: Vec<u64> = if w == 1 { vec![0, 1] } else { vec![0, p[0], p[p.len() / 2]] };
            for (k, n) in starts.iter().cloned().enumerate() {
                for kind in 0..3 {
                    let vals = vals.clone();
                    let init = move || match kind {
                        0 => SV::new(w, BitstringVec::new(w, n), vec![0; n], vals.clone(), n + 4, false),
                        1 => SV::new(w, BitstringVec::from_elem(w, n, vals[1]), vec![vals[1]; n], vals.clone(), n + 4, false),
                        _ => {
                            let mut v = BitstringVec::with_capacity(w, 2 * n);
                            let r: Vec<u64> = (0..n).map(|i| splitmix(i as u64) & mask(w)).collect();
                            for x in &r {
                                v.push(*x);
                            }
                            SV::new(w, v, r, vals.clone(), n + 4, false)
                        }
                    };
                    init().check().map_err(|e| format!("width {}, start {}: {}", w, n, e))?;
                    init().rare().map_err(|e| format!("width {}, start {}: {}", w, n, e))?;
                    let depth = if n < 3 { t(tier, 4, 6) } else { t(tier, 3, 4) };
                    explore(cc, &init, &Opts::new(depth, t(tier, if k == 0 { 400 } else { 60 }, if k == 0 { 6000 } else { 1500 })))
                        .map_err(|e| format!("width {}, {} elements: {}", w, n, e))?;
                }
            }
            Ok(())
        });
        // growing and shrinking over many blocks
        cs.add(format!("width {} long", w), move |cc| {
            let n = t(tier, 300usize, 3000);
            let mut s = SV::new(w, BitstringVec::new(w, 0), vec![], vec![], n, false);
            let what = |i: usize| format!("width {}, after {} operations", w, i);
            for i in 0..n {
                let x = if i % 3 == 0 { 0 } else if i % 7 == 0 { mask(w) } else { splitmix(i as u64) & mask(w) };
                s.v.push(x);
                s.r.push(x);
                if i % 5 == 4 {
                    let y = s.v.pop();
                    if s.r.pop() != Some(y) {
                        return Err(format!("{}: popped {:#x}", what(i), y));
                    }
                }
                if i % 11 == 10 {
                    let j = splitmix(i as u64 + 5) as usize % s.r.len();
                    s.v.set(j, mask(w) & !x);
                    s.r[j] = mask(w) & !x;
                }
                cc.transitions += 1;
                if i % 16 == 0 {
                    s.check().map_err(|e| format!("{}: {}", what(i), e))?;
                    cc.state(&[w as u8, i as u8, (i >> 8) as u8]);
                    cc.beat();
                }
            }
            s.rare().map_err(|e| format!("{}: {}", what(n), e))?;
            for k in (0..s.r.len()).rev().step_by(7) {
                s.v.truncate(k);
                s.r.truncate(k);
                cc.transitions += 1;
                s.check().map_err(|e| format!("{}, truncated to {}: {}", what(n), k, e))?;
                s.rare().map_err(|e| format!("{}, truncated to {}: {}", what(n), k, e))?;
                cc.beat();
            }
            cc.traces += 1;
            Ok(())
        });
    }
    // short vectors: complete
    for w in 1..=t(tier, 2usize, 3) {
        let max = match w {
            1 => t(tier, 8, 11),
            2 => t(tier, 4, 6),
            _ => 4,
        };
        cs.add(format!("width {} complete up to {} elements", w, max), move |cc| {
            let vals: Vec<u64> = (0..=mask(w)).collect();
            let init = move || SV::new(w, BitstringVec::new(w, 0), vec![], vals.clone(), max, true);
            let st = explore(cc, &init, &Opts::new(100, t(tier, 4000, 40_000))).map_err(|e| format!("width {}: {}", w, e))?;
            cc.count("closed_searches", st.closed as u64);
            Ok(())
        });
    }
}

#[derive(Clone, Debug)]
enum BOp {
    Set(usize, bool),
    Flip(usize),
    SetAll(bool),
    FlipAll,
    Push(bool),
    Pop,
    Truncate(usize),
    Reserve(usize),
    ReserveExact(usize),
    /// 0 union, 1 intersection, 2 difference, 3 symmetric difference; with the bits of the pattern.
    Algebra(u8, u64),
    /// `clone_from` a vector of this length and pattern.
    CloneFrom(usize, u64),
    Clone,
    Bytes,
}

struct SB {
    b: BitVec,
    r: Vec<bool>,
    max: usize,
    small: bool,
}

impl Clone for SB {
    fn clone(&self) -> SB {
        SB { b: self.b.clone(), r: self.r.clone(), max: self.max, small: self.small }
    }
}

fn bits(n: usize, pat: u64) -> Vec<bool> {
    (0..n).map(|i| pat.rotate_right(i as u32 % 64) & 1 == 1).collect()
}

fn pushed(r: &[bool]) -> BitVec {
    let mut b = BitVec::new(0);
    for x in r {
        b.push(*x);
    }
    b
}

/// Built by writing into a vector of zeros.
fn written(r: &[bool]) -> BitVec {
    let mut b = BitVec::new(r.len());
    for (i, x) in r.iter().enumerate() {
        b.set(i, *x);
    }
    b
}

fn packed(r: &[bool]) -> Vec<u8> {
    r.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | u8::from(*x) << (7 - i))).collect()
}

fn check_bits(b: &BitVec, r: &[bool]) -> Result<(), String> {
    let ones = r.iter().filter(|x| **x).count();
    if b.len() != r.len() || b.is_empty() != r.is_empty() {
        return Err(format!("length {}, expected {}", b.len(), r.len()));
    }
    if b.count_ones() != ones || b.count_zeros() != r.len() - ones {
        return Err(format!("{} ones and {} zeros reported in {} bits with {} ones", b.count_ones(), b.count_zeros(), r.len(), ones));
    }
    if !b.iter().eq(r.iter().cloned()) || !b.into_iter().eq(r.iter().cloned()) {
        return Err(format!("iteration gives {:?}, expected {:?}", b.iter().collect::<Vec<_>>(), r));
    }
    for (i, x) in r.iter().enumerate() {
        if b.get(i) != Some(*x) || b[i] != *x {
            return Err(format!("bit {} is {:?}, expected {}", i, b.get(i), x));
        }
    }
    for i in [r.len(), r.len() + 1, r.len() + 8] {
        if b.get(i).is_some() {
            return Err(format!("bit {} of {} can be read", i, r.len()));
        }
    }
    if b.capacity() < r.len() {
        return Err(format!("capacity {} with {} bits", b.capacity(), r.len()));
    }
    if b.to_bytes() != packed(r) {
        return Err(format!("as bytes {:x?}, expected {:x?}", b.to_bytes(), packed(r)));
    }
    if *b != pushed(r) || *b != written(r) {
        return Err(format!("not equal to another vector of the same {} bits", r.len()));
    }
    Ok(())
}

impl SB {
    fn check(&self) -> Result<(), String> {
        check_bits(&self.b, &self.r)
    }
    fn rare(&self) -> Result<(), String> {
        let n = self.r.len();
        if !self.b.clone().into_iter().eq(self.r.iter().cloned()) {
            return Err("consuming iteration differs".into());
        }
        for i in 0..n {
            let mut o = self.r.clone();
            o[i] = !o[i];
            if self.b == written(&o) {
                return Err(format!("equal to a vector that differs at {}", i));
            }
            if n > 12 && i > 1 {
                break;
            }
        }
        for i in [n, n + 7] {
            let mut c = self.b.clone();
            if catch(|| c.set(i, true)).is_ok() || catch(|| c.flip(i)).is_ok() || catch(|| self.b[i]).is_ok() {
                return Err(format!("bit {} of {} can be accessed", i, n));
            }
        }
        let mut longer = self.r.clone();
        longer.push(false);
        if self.b == pushed(&longer) {
            return Err("equal to a longer vector".into());
        }
        let mut c = self.b.clone();
        let o = pushed(&longer);
        for k in 0..4 {
            if catch(|| algebra(&mut c, k, &o)).is_ok() {
                return Err(format!("set operation {} with another length is accepted", k));
            }
        }
        check_bits(&c, &self.r).map_err(|e| format!("after a refused set operation: {}", e))
    }
}

fn algebra(b: &mut BitVec, k: u8, o: &BitVec) {
    match k {
        0 => b.union(o),
        1 => b.intersection(o),
        2 => b.difference(o),
        _ => b.symmetric_difference(o),
    }
}

impl Sys for SB {
    type Op = BOp;
    fn ops(&self) -> Vec<BOp> {
        let n = self.r.len();
        let mut o = vec![BOp::SetAll(true), BOp::SetAll(false), BOp::FlipAll, BOp::Clone, BOp::Bytes, BOp::Reserve(5), BOp::ReserveExact(17)];
        if n < self.max {
            o.push(BOp::Push(true));
            o.push(BOp::Push(false));
        }
        o.push(BOp::Pop);
        let mut idx: Vec<usize> = if self.small { (0..n).collect() } else { vec![0, 7, 8, n / 2, n.saturating_sub(9), n.saturating_sub(2), n.saturating_sub(1)] };
        idx.retain(|i| *i < n);
        idx.sort_unstable();
        idx.dedup();
        for i in &idx {
            o.push(BOp::Set(*i, true));
            o.push(BOp::Set(*i, false));
            o.push(BOp::Flip(*i));
            o.push(BOp::Truncate(*i));
        }
        o.push(BOp::Truncate(n));
        o.push(BOp::Truncate(n + 2));
        let pats: Vec<u64> = if self.small && n <= 3 { (0..1 << n).collect() } else { vec![0, u64::MAX, 0x5555_5555_5555_5555, 0x8F03_0000_0000_0001u64.rotate_left(n as u32 / 2)] };
        for k in 0..4 {
            o.extend(pats.iter().map(|p| BOp::Algebra(k, *p)));
        }
        for m in [0, 1, 3, 7, 8, 9, n] {
            if m <= self.max {
                o.push(BOp::CloneFrom(m, 0xB7));
                o.push(BOp::CloneFrom(m, 0));
            }
        }
        o
    }
    fn step(&mut self, op: &BOp) -> Result<(), String> {
        match *op {
            BOp::Set(i, _) | BOp::Flip(i) if i >= self.r.len() => return Ok(()), // only in shortened histories
            BOp::Set(i, x) => {
                self.b.set(i, x);
                self.r[i] = x;
            }
            BOp::Flip(i) => {
                self.b.flip(i);
                self.r[i] = !self.r[i];
            }
            BOp::SetAll(x) => {
                self.b.set_all(x);
                self.r.iter_mut().for_each(|y| *y = x);
            }
            BOp::FlipAll => {
                self.b.flip_all();
                self.r.iter_mut().for_each(|y| *y = !*y);
            }
            BOp::Push(x) => {
                self.b.push(x);
                self.r.push(x);
            }
            BOp::Pop => {
                let (g, w) = (self.b.pop(), self.r.pop());
                if g != w {
                    return Err(format!("popped {:?}, expected {:?}", g, w));
                }
            }
            BOp::Truncate(n) => {
                self.b.truncate(n);
                self.r.truncate(n);
            }
            BOp::Reserve(n) | BOp::ReserveExact(n) => {
                if let BOp::Reserve(_) = op {
                    self.b.reserve(n);
                } else {
                    self.b.reserve_exact(n);
                }
                if self.b.capacity() < self.r.len() + n {
                    return Err(format!("capacity {} after reserving {} more than {}", self.b.capacity(), n, self.r.len()));
                }
            }
            BOp::Algebra(k, p) => {
                let o = bits(self.r.len(), p);
                let ob = if p % 2 == 0 { pushed(&o) } else { written(&o) };
                algebra(&mut self.b, k, &ob);
                for (x, y) in self.r.iter_mut().zip(&o) {
                    *x = match k {
                        0 => *x || *y,
                        1 => *x && *y,
                        2 => *x && !*y,
                        _ => *x != *y,
                    };
                }
                check_bits(&ob, &o).map_err(|e| format!("operand of a set operation: {}", e))?;
            }
            BOp::CloneFrom(n, p) => {
                let o = bits(n, p);
                let ob = pushed(&o);
                self.b.clone_from(&ob);
                self.r = o;
            }
            BOp::Clone => {
                let c = self.b.clone();
                let old = std::mem::replace(&mut self.b, c);
                if old != self.b {
                    return Err("a clone is not equal".into());
                }
                check_bits(&old, &self.r)?;
            }
            BOp::Bytes => {
                let c = BitVec::from_bytes(&self.b.to_bytes());
                let mut want = self.r.clone();
                want.resize((want.len() + 7) / 8 * 8, false);
                check_bits(&c, &want).map_err(|e| format!("from bytes: {}", e))?;
                if want.len() == self.r.len() {
                    self.b = c;
                }
            }
        }
        self.check()?;
        self.rare()
    }
    fn key(&self, o: &mut Vec<u8>) {
        // length, contents and everything hidden
        o.extend_from_slice(format!("{:?}", self.b).as_bytes());
        o.extend(self.r.iter().map(|x| u8::from(*x)));
    }
}

fn large_bits(cc: &mut CC, n: usize) -> Result<(), String> {
    let what = |e: String| format!("{} bits: {}", n, e);
    let mut b = BitVec::new(n);
    let p = places(n, 8);
    let mut set: std::collections::BTreeSet<usize> = Default::default();
    let all = |b: &BitVec, set: &std::collections::BTreeSet<usize>, count: bool| -> Result<(), String> {
        for i in &p {
            if b.get(*i) != Some(set.contains(i)) || b[*i] != set.contains(i) {
                return Err(format!("bit {} is {:?}, expected {}", i, b.get(*i), set.contains(i)));
            }
        }
        if b.len() != n || b.get(n).is_some() {
            return Err(format!("length {}", b.len()));
        }
        if count && (b.count_ones() != set.len() || b.count_zeros() != n - set.len()) {
            return Err(format!("{} ones and {} zeros reported, {} bits are set", b.count_ones(), b.count_zeros(), set.len()));
        }
        Ok(())
    };
    for (k, i) in p.iter().enumerate() {
        if splitmix(k as u64) & 3 != 0 {
            b.set(*i, true);
            set.insert(*i);
        }
        cc.transitions += 1;
        cc.state(&[k as u8, (k >> 8) as u8]);
    }
    all(&b, &set, true).map_err(what)?;
    for (k, i) in p.iter().enumerate().rev() {
        let x = splitmix(k as u64 + 77) & 1 == 1;
        match k % 3 {
            0 => {
                b.flip(*i);
                if !set.remove(i) {
                    set.insert(*i);
                }
            }
            1 => {
                b.set(*i, x);
                if x { set.insert(*i); } else { set.remove(i); }
            }
            _ => {}
        }
        cc.transitions += 1;
        cc.beat();
    }
    all(&b, &set, true).map_err(what)?;
    let last = b.pop();
    if last != Some(set.contains(&(n - 1))) || b.len() != n - 1 {
        return Err(what(format!("popped {:?}", last)));
    }
    b.push(true);
    set.insert(n - 1);
    all(&b, &set, false).map_err(what)?;
    if n < 1 << 28 {
        let mut c = BitVec::new(n);
        for i in p.iter().step_by(2) {
            c.set(*i, true);
        }
        b.union(&c);
        set.extend(p.iter().step_by(2));
        all(&b, &set, true).map_err(what)?;
        b.flip_all();
        if b.count_ones() != n - set.len() || p.iter().any(|i| b[*i] == set.contains(i)) {
            return Err(what("flipping all bits".into()));
        }
        let whole = |b: &BitVec, v: bool, op: &str| -> Result<(), String> {
            if b.count_ones() != if v { n } else { 0 } || b.count_zeros() != if v { 0 } else { n } || b.len() != n {
                return Err(format!("{}: {} ones and {} zeros", op, b.count_ones(), b.count_zeros()));
            }
            if let Some(i) = b.iter().position(|x| x != v) {
                return Err(format!("{}: bit {} is {}", op, i, !v));
            }
            Ok(())
        };
        // c is clear but at every other place
        let mut d = c.clone();
        d.flip_all();
        let mut x = c.clone();
        x.union(&d);
        whole(&x, true, "union with the complement").map_err(what)?;
        x.symmetric_difference(&d);
        if x != c {
            return Err(what("symmetric difference of all with the complement".into()));
        }
        cc.beat();
        x.intersection(&d);
        whole(&x, false, "intersection with the complement").map_err(what)?;
        x.set_all(true);
        whole(&x, true, "setting all bits").map_err(what)?;
        x.difference(&c);
        if x != d {
            return Err(what("all without a set against its complement".into()));
        }
        cc.beat();
        x.difference(&d);
        whole(&x, false, "difference with itself").map_err(what)?;
        x.flip_all();
        whole(&x, true, "flipping all bits").map_err(what)?;
        x.set_all(false);
        whole(&x, false, "clearing all bits").map_err(what)?;
        cc.beat();
        whole(&BitVec::from_elem(n, true), true, "from_elem").map_err(what)?;
        let bytes = d.to_bytes();
        let e = BitVec::from_bytes(&bytes);
        if e.len() != (n + 7) / 8 * 8 || (0..n).any(|i| e[i] != d[i]) || e.count_ones() != d.count_ones() {
            return Err(what("bytes and back".into()));
        }
        cc.beat();
        d.truncate(n / 2 + 3);
        if d.len() != n / 2 + 3 || d.count_ones() != d.iter().filter(|x| *x).count() || (0..n / 2 + 3).any(|i| d[i] != e[i]) {
            return Err(what("truncating".into()));
        }
        while d.len() < n {
            let i = d.len();
            d.push(e[i]);
        }
        if d.count_ones() != e.count_ones() || d.to_bytes() != bytes || d.iter().ne(e.iter().take(n)) {
            return Err(what("pushing".into()));
        }
        let v: BitVec = if n < 1 << 25 { d.clone() } else { BitVec::new(1) };
        if v.into_iter().zip(e.iter()).any(|(x, y)| x != y && n < 1 << 25) {
            return Err(what("consuming".into()));
        }
        cc.transitions += 12 + n as u64 / 2;
    }
    cc.traces += 1;
    Ok(())
}

pub fn c31(cs: &mut Cases) {
    let tier = cs.tier;
    for n in [(1usize << 16) + 3, 1 << 20, (1 << 24) + 5, (1 << 27) + 1, (1 << 32) + 77] {
        cs.add(format!("{} bits, large", n), move |cc| large_bits(cc, n));
    }
    for max in [7usize, 8, t(tier, 9, 11)] {
        cs.add(format!("complete up to {} bits", max), move |cc| {
            let init = move || SB { b: BitVec::new(0), r: vec![], max, small: true };
            let st = explore(cc, &init, &Opts::new(100, t(tier, 3000, 20_000))).map_err(|e| format!("up to {} bits: {}", max, e))?;
            cc.count("closed_searches", st.closed as u64);
            Ok(())
        });
    }
    for n in [8usize, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 128, 129] {
        for kind in 0..6 {
            cs.add(format!("{} bits, start {}", n, kind), move |cc| {
                let init = move || {
                    let (b, r) = match kind {
                        0 => (BitVec::new(n), vec![false; n]),
                        1 => (BitVec::from_elem(n, true), vec![true; n]),
                        2 => (BitVec::from_elem(n, false), vec![false; n]),
                        3 => {
                            let bytes: Vec<u8> = (0..n / 8).map(|i| splitmix(i as u64) as u8).collect();
                            let r = bytes.iter().flat_map(|x| (0..8).map(move |k| x >> (7 - k) & 1 == 1)).collect();
                            (BitVec::from_bytes(&bytes), r)
                        }
                        4 => {
                            let r = bits(n, 0x9C3A);
                            let mut b = BitVec::with_capacity(n);
                            for x in &r {
                                b.push(*x);
                            }
                            (b, r)
                        }
                        _ => (BitVec::with_capacity(n), vec![]),
                    };
                    SB { b, r, max: n + 9, small: false }
                };
                init().check().map_err(|e| format!("{} bits, construction {}: {}", n, kind, e))?;
                explore(cc, &init, &Opts::new(t(tier, 3, 5), t(tier, 250, 4000))).map_err(|e| format!("{} bits: {}", n, e))?;
                Ok(())
            });
        }
    }
    cs.add("every use of the iterators", move |cc| {
        for n in t3(tier, 0..14usize, 0..18, 0..34) {
            for pat in [0x5555_5555_5555_5555u64, 0x0123_4567_89AB_CDEF, 1 << n.saturating_sub(1), !0] {
                let r: Vec<bool> = (0..n).map(|i| pat >> i & 1 == 1).collect();
                let mut b = BitVec::new(0);
                for x in &r {
                    b.push(*x);
                }
                let d = t3(tier, 3, 3, 4);
                for res in [check_iter(d, || b.iter(), &r), check_iter(d, || (&b).into_iter(), &r), check_iter(d, || b.clone().into_iter(), &r)] {
                    cc.transitions += res.map_err(|e| format!("{:?}: {}", r, e))?;
                }
                cc.traces += 1;
                cc.state(&r.iter().map(|x| *x as u8).collect::<Vec<_>>());
            }
            cc.beat();
        }
        Ok(())
    });
    cs.add("long vectors", move |cc| {
        for n in [200usize, 1000, 1023, 1024, 1025, 4099] {
            let mut s = SB { b: BitVec::new(0), r: vec![], max: n, small: false };
            let mut ops: Vec<BOp> = vec![];
            for i in 0..n {
                ops.push(BOp::Push(splitmix(i as u64) & 1 == 1));
                s.b.push(splitmix(i as u64) & 1 == 1);
                s.r.push(splitmix(i as u64) & 1 == 1);
            }
            s.check().map_err(|e| format!("{} bits: {}", n, e))?;
            for (i, op) in [BOp::FlipAll, BOp::Pop, BOp::Push(true), BOp::Algebra(0, 0x0F0F), BOp::Truncate(n - 9), BOp::FlipAll, BOp::Algebra(3, 0x3), BOp::Set(n / 2, true), BOp::Algebra(1, !0x10), BOp::Algebra(2, 0x40), BOp::SetAll(true), BOp::Truncate(n / 2 + 1), BOp::FlipAll, BOp::Push(true), BOp::CloneFrom(n, 5), BOp::Flip(n - 1)].iter().enumerate() {
                cc.transitions += 1;
                cc.state(&[i as u8, n as u8, (n >> 8) as u8]);
                s.step(op).map_err(|e| format!("{} bits: {} after {:?}", n, e, op))?;
                cc.beat();
            }
            cc.traces += 1;
        }
        Ok(())
    });
}
