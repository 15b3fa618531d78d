//! Stand-in for `rand_xorshift` 0.2.0.
//!
//! The crate under test draws every random decision from `XorShiftRng`. In the model checker this
//! crate replaces it (via `[patch.crates-io]`), so that each raw draw becomes a *choice point*: the
//! explorer replays a script of choices, and systematically enumerates all of them.
//!
//! Outside an enumeration (`begin`/`end`) the generator is an ordinary, deterministic per-instance
//! pseudo random generator.

use rand_core::{impls, Error, RngCore, SeedableRng};
use std::cell::RefCell;
use std::fmt;

/// How raw draws are turned into choice points.
#[derive(Clone, Debug)]
pub struct Cfg {
    /// Values a 32-bit draw may take.
    pub menu32: Vec<u32>,
    /// Values a 64-bit draw may take.
    pub menu64: Vec<u64>,
    /// Number of draws of one step that branch; later draws follow the tail policy.
    pub max_branch: usize,
    /// Number of tail policies (1: always the first menu entry; 2: or always the last; 3: or
    /// cycling through the menu). The choice of the policy is a choice point of its own.
    pub tails: u8,
}

struct St {
    active: bool,
    cfg: Option<Cfg>,
    script: Vec<u8>,
    log: Vec<(u8, u8)>,
    branched: usize,
    draws: u64,
    tail: Option<u8>,
    tail_count: u64,
    overflow: bool,
    seeds: Option<Vec<[u8; 16]>>,
}

thread_local! {
    static ST: RefCell<St> = RefCell::new(St {
        active: false, cfg: None, script: Vec::new(), log: Vec::new(), branched: 0, draws: 0,
        tail: None, tail_count: 0, overflow: false, seeds: None,
    });
}

/// Starts a scripted step.
pub fn begin(cfg: &Cfg, script: &[u8]) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.active = true;
        s.cfg = Some(cfg.clone());
        s.script = script.to_vec();
        s.log = Vec::new();
        s.branched = 0;
        s.draws = 0;
        s.tail = None;
        s.tail_count = 0;
        s.overflow = false;
    })
}

/// What happened in a scripted step.
pub struct Outcome {
    /// (choice, number of alternatives) per choice point.
    pub log: Vec<(u8, u8)>,
    /// Number of raw draws.
    pub draws: u64,
    /// Whether the tail policy had to be used.
    pub overflow: bool,
}

/// Ends a scripted step.
pub fn end() -> Outcome {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.active = false;
        Outcome { log: std::mem::replace(&mut s.log, Vec::new()), draws: s.draws, overflow: s.overflow }
    })
}

/// Starts recording the seeds from which generators are made on this thread.
pub fn record_seeds() {
    ST.with(|s| s.borrow_mut().seeds = Some(Vec::new()))
}

/// Stops recording seeds and returns them.
pub fn recorded_seeds() -> Vec<[u8; 16]> {
    ST.with(|s| s.borrow_mut().seeds.take().unwrap_or_default())
}

impl St {
    fn choose(&mut self, arity: usize) -> usize {
        let pos = self.log.len();
        let c = self.script.get(pos).cloned().unwrap_or(0);
        let c = if (c as usize) < arity { c } else { 0 };
        self.log.push((c, arity as u8));
        c as usize
    }

    /// An index into the menu, or a raw value.
    fn pick(&mut self, arity: usize) -> Result<usize, u64> {
        self.draws += 1;
        let (max_branch, tails) = {
            let c = self.cfg.as_ref().unwrap();
            (c.max_branch, c.tails)
        };
        if self.branched < max_branch {
            self.branched += 1;
            return Ok(if arity <= 1 { 0 } else { self.choose(arity) });
        }
        self.overflow = true;
        if self.tail.is_none() {
            let t = if tails > 1 { self.choose(tails as usize) } else { 0 };
            self.tail = Some(t as u8);
        }
        self.tail_count += 1;
        // a rejection loop must not spin on rejected menu entries
        if self.tail_count % 33 == 0 {
            // (the same for every instance)
            return Err(mix(self.tail_count.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        }
        Ok(match self.tail.unwrap() {
            0 => 0,
            1 => arity - 1,
            _ => (self.tail_count as usize) % arity,
        })
    }
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// The stand-in generator.
#[derive(Clone)]
pub struct XorShiftRng {
    seed: [u8; 16],
    state: u64,
}

impl fmt::Debug for XorShiftRng {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "XorShiftRng {{}}")
    }
}

impl XorShiftRng {
    fn free(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.state)
    }
}

impl RngCore for XorShiftRng {
    fn next_u32(&mut self) -> u32 {
        let r = ST.with(|s| {
            let mut s = s.borrow_mut();
            if !s.active {
                return None;
            }
            let n = s.cfg.as_ref().unwrap().menu32.len();
            Some(s.pick(n).map_or_else(|x| (x >> 32) as u32, |i| s.cfg.as_ref().unwrap().menu32[i]))
        });
        r.unwrap_or_else(|| (self.free() >> 32) as u32)
    }

    fn next_u64(&mut self) -> u64 {
        let r = ST.with(|s| {
            let mut s = s.borrow_mut();
            if !s.active {
                return None;
            }
            let n = s.cfg.as_ref().unwrap().menu64.len();
            Some(s.pick(n).map_or_else(|x| x, |i| s.cfg.as_ref().unwrap().menu64[i]))
        });
        r.unwrap_or_else(|| self.free())
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        impls::fill_bytes_via_next(self, dest)
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl SeedableRng for XorShiftRng {
    type Seed = [u8; 16];

    fn from_seed(seed: Self::Seed) -> Self {
        ST.with(|s| {
            if let Some(v) = s.borrow_mut().seeds.as_mut() {
                v.push(seed);
            }
        });
        let mut a = 0u64;
        let mut b = 0u64;
        for i in 0..8 {
            a = (a << 8) | u64::from(seed[i]);
            b = (b << 8) | u64::from(seed[8 + i]);
        }
        XorShiftRng { seed, state: a ^ b.rotate_left(17) }
    }
}

impl PartialEq for XorShiftRng {
    fn eq(&self, other: &Self) -> bool {
        self.seed == other.seed && self.state == other.state
    }
}
