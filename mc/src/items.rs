//! Items and hash builders whose 64-bit hashes are chosen by the checker.

use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, Hash, Hasher};

/// An item with two chosen hashes: `.0` under builder 0, `.1` under builder 1.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct It(pub u64, pub u64);

impl std::fmt::Debug for It {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "item<{:#x},{:#x}>", self.0, self.1)
    }
}

const TAG: [u8; 8] = [0xA5, 0x17, 0xC3, 0x5E, 0x99, 0x01, 0xF0, 0x3C];

impl Hash for It {
    fn hash<H: Hasher>(&self, s: &mut H) {
        let mut b = [0u8; 24];
        b[..8].copy_from_slice(&TAG);
        b[8..16].copy_from_slice(&self.0.to_le_bytes());
        b[16..].copy_from_slice(&self.1.to_le_bytes());
        s.write(&b);
    }
}

/// How raw integers (cuckoo fingerprints, rehashes) hash.
pub const MIX: u8 = 0;
pub const IDENT: u8 = 1;
pub const ZERO: u8 = 2;
pub const ROT: u8 = 3;

/// Hash builder: `id` selects which of the item's hashes it yields.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct HB {
    pub id: u8,
    pub mode: u8,
}

pub fn hb(mode: u8) -> [HB; 2] {
    [HB { id: 0, mode: if mode == ZERO { MIX } else { mode } }, HB { id: 1, mode }]
}

pub fn h0() -> HB {
    HB { id: 0, mode: MIX }
}

pub struct HH {
    b: HB,
    item: Option<u64>,
    acc: u64,
    first: Option<u64>,
    n: usize,
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl BuildHasher for HB {
    type Hasher = HH;
    fn build_hasher(&self) -> HH {
        HH { b: *self, item: None, acc: u64::from(self.id) + 77, first: None, n: 0 }
    }
}

/// Hash of a raw 64-bit integer under a builder.
pub fn raw_hash(b: HB, v: u64) -> u64 {
    match b.mode {
        IDENT => v,
        ZERO => 0,
        ROT => v.rotate_left(31) ^ 0x5555_0000_0000_0001,
        _ => splitmix((u64::from(b.id) + 77) ^ splitmix(v)),
    }
}

impl Hasher for HH {
    fn write(&mut self, bytes: &[u8]) {
        if self.n == 0 && bytes.len() == 24 && bytes[..8] == TAG {
            let o = 8 + 8 * self.b.id as usize;
            let mut w = [0u8; 8];
            w.copy_from_slice(&bytes[o..o + 8]);
            self.item = Some(u64::from_le_bytes(w));
            self.n = 1;
            return;
        }
        for c in bytes.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            let v = u64::from_le_bytes(w);
            if self.n == 0 {
                self.first = Some(v);
            }
            self.n += 1;
            self.acc = splitmix(self.acc ^ splitmix(v));
        }
    }

    fn finish(&self) -> u64 {
        match (self.item, self.first, self.n) {
            (Some(h), _, 1) => h,
            (None, Some(v), 1) => raw_hash(self.b, v),
            (Some(h), _, _) => splitmix(h ^ self.acc),
            _ => self.acc,
        }
    }
}

/// The i-th derived hash of an item.
pub fn derived(a: u64, b: u64, i: u64) -> u64 {
    let c3 = (u128::from(i) * u128::from(i.wrapping_sub(1)) * u128::from(i.wrapping_sub(2)) / 6) as u64;
    let c3 = if i < 3 { 0 } else { c3 };
    a.wrapping_add(b.wrapping_mul(i)).wrapping_add(c3)
}

/// Interesting 64-bit hash values for a structure whose addresses are taken modulo `m`.
pub fn edges(m: u64) -> Vec<u64> {
    let m = m.max(1);
    let mut v = vec![
        0, 1, m - 1, m, m / 2, m.wrapping_mul(3).wrapping_add(1),
        u64::from(u32::MAX), 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX, u64::MAX - 1,
        0x0123_4567_89AB_CDEF,
    ];
    v.sort_unstable();
    v.dedup();
    v
}

/// Serialised form (used to tell states apart while exploring; not an oracle).
pub fn bytes_of<T: Serialize>(x: &T, out: &mut Vec<u8>) {
    if let Ok(Ok(b)) = crate::engine::catch(|| bincode::serialize(x)) {
        out.extend_from_slice(&b);
    }
}

/// Equal up to rounding, however small.
pub fn close_rel(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) || (a.abs() < 1e-280 && b.abs() < 1e-280)
}

pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) || (a - b).abs() < 1e-13
}
