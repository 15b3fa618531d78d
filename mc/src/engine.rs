//! Exhaustive explorer, case scheduler, watchdog and evidence writer.

use rand_xorshift as rx;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// deeper still
    Deep,
}

/// Picks by tier.
pub fn t<T>(tier: Tier, quick: T, thorough: T) -> T {
    match tier {
        Tier::Quick => quick,
        Tier::Thorough | Tier::Deep => thorough,
    }
}

pub fn t3<T>(tier: Tier, quick: T, thorough: T, deep: T) -> T {
    match tier {
        Tier::Quick => quick,
        Tier::Thorough => thorough,
        Tier::Deep => deep,
    }
}

pub struct Slot {
    beat: AtomicU64,
    busy: AtomicBool,
    current: Mutex<(String, String)>,
}

/// Per-case context.
pub struct CC {
    pub tier: Tier,
    pub seed: u64,
    slot: Arc<Slot>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub truncated: u64,
    pub diverged: u64,
    pub samples: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
    seen: HashSet<u128>,
}

impl CC {
    pub fn beat(&mut self) {
        self.slot.beat.fetch_add(1, Ordering::Relaxed);
    }
    pub fn at(&mut self, what: impl FnOnce() -> String) {
        self.beat();
        self.slot.current.lock().unwrap().1 = what();
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = s();
            self.samples.push(s);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// Counts a state (observable configuration) once.
    pub fn state(&mut self, key: &[u8]) -> bool {
        let h = hash128(key);
        if self.seen.insert(h) {
            self.states += 1;
            true
        } else {
            false
        }
    }
}

pub type CaseFn = Box<dyn Fn(&mut CC) -> Result<(), String> + Send + Sync>;

pub struct Case {
    pub name: String,
    pub run: CaseFn,
}

pub struct Cases {
    pub tier: Tier,
    pub v: Vec<Case>,
}

impl Cases {
    pub fn add(&mut self, name: impl Into<String>, run: impl Fn(&mut CC) -> Result<(), String> + Send + Sync + 'static) {
        self.v.push(Case { name: name.into(), run: Box::new(run) });
    }
}

pub fn hash128(b: &[u8]) -> u128 {
    fn go(b: &[u8], mut a: u64, m: u64) -> u64 {
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            let w = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
            a = (a ^ w).wrapping_mul(m);
            a ^= a >> 32;
        }
        let mut w = b.len() as u64;
        for &x in it.remainder() {
            w = (w << 8) | u64::from(x);
        }
        a = (a ^ w).wrapping_mul(m);
        a ^= a >> 29;
        a = a.wrapping_mul(0x94D0_49BB_1331_11EB);
        a ^ (a >> 31)
    }
    (u128::from(go(b, 0x243F_6A88_85A3_08D3, 0xFF51_AFD7_ED55_8CCD)) << 64)
        | u128::from(go(b, 0x1319_8A2E_0370_7344, 0xC4CE_B9FE_1A85_EC53))
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Runs `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// A system under exploration: the real implementation together with its reference model.
pub trait Sys: Clone {
    type Op: Clone + Debug;
    /// Operations to try in this state.
    fn ops(&self) -> Vec<Self::Op>;
    /// Applies the operation to implementation and reference and checks everything that has to
    /// hold afterwards. `Err` is a violation.
    fn step(&mut self, op: &Self::Op) -> Result<(), String>;
    /// Canonical state.
    fn key(&self, out: &mut Vec<u8>);
}

pub struct Opts {
    pub depth: usize,
    pub max_states: usize,
    pub rng: Option<rx::Cfg>,
}

impl Opts {
    pub fn new(depth: usize, max_states: usize) -> Self {
        Opts { depth, max_states, rng: None }
    }
    pub fn rng(depth: usize, max_states: usize, cfg: rx::Cfg) -> Self {
        Opts { depth, max_states, rng: Some(cfg) }
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub closed: bool,
}

/// A search that hit its limit: up to how many operations it is complete.
pub const CUT: [&str; 13] = [
    "cut_searches_complete_to_0_operations",
    "cut_searches_complete_to_1_operations",
    "cut_searches_complete_to_2_operations",
    "cut_searches_complete_to_3_operations",
    "cut_searches_complete_to_4_operations",
    "cut_searches_complete_to_5_operations",
    "cut_searches_complete_to_6_operations",
    "cut_searches_complete_to_7_operations",
    "cut_searches_complete_to_8_operations",
    "cut_searches_complete_to_9_operations",
    "cut_searches_complete_to_10_operations",
    "cut_searches_complete_to_11_operations",
    "cut_searches_complete_to_12_or_more_operations",
];

struct Node<O> {
    parent: u32,
    op: Option<O>,
    script: Vec<u8>,
    key: u128,
    leaf: bool,
}

fn next_script(log: &[(u8, u8)]) -> Option<Vec<u8>> {
    let mut i = log.len();
    while i > 0 {
        i -= 1;
        if log[i].0 + 1 < log[i].1 {
            let mut s: Vec<u8> = log[..i].iter().map(|x| x.0).collect();
            s.push(log[i].0 + 1);
            return Some(s);
        }
    }
    None
}

/// Runs `f` once for every combination of random choices; `f` gets to see each outcome with its
/// probability and whether the tail policy cut the tree.
pub fn for_all_choices<T>(
    cfg: &rx::Cfg,
    mut f: impl FnMut() -> T,
    mut sink: impl FnMut(T, f64, bool, u64),
) {
    let mut script = Vec::new();
    loop {
        rx::begin(cfg, &script);
        let r = catch_unwind(AssertUnwindSafe(&mut f));
        let out = rx::end();
        let w = out.log.iter().map(|x| 1.0 / f64::from(x.1)).product();
        match r {
            Ok(v) => sink(v, w, out.overflow, out.draws),
            Err(p) => std::panic::resume_unwind(p),
        }
        match next_script(&out.log) {
            Some(s) => script = s,
            None => break,
        }
    }
}

fn run_step<S: Sys>(s: &mut S, op: &S::Op, rng: &Option<rx::Cfg>, script: &[u8]) -> (Result<(), String>, Vec<(u8, u8)>) {
    if let Some(c) = rng {
        rx::begin(c, script);
    }
    let r = match catch(|| s.step(op)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    };
    let log = if rng.is_some() { rx::end().log } else { Vec::new() };
    (r, log)
}

fn path<O: Clone>(nodes: &[Node<O>], mut i: u32) -> Vec<(O, Vec<u8>)> {
    let mut p = Vec::new();
    while let Some(op) = &nodes[i as usize].op {
        p.push((op.clone(), nodes[i as usize].script.clone()));
        i = nodes[i as usize].parent;
    }
    p.reverse();
    p
}

fn show<O: Debug>(p: &[(O, Vec<u8>)]) -> String {
    let mut s = String::new();
    for (o, c) in p {
        if !s.is_empty() {
            s.push_str("; ");
        }
        s.push_str(&format!("{:?}", o));
        if !c.is_empty() {
            s.push_str(&format!(" rng{:?}", c));
        }
    }
    s
}

/// Breadth-first exploration of every operation sequence (and every random choice) up to the
/// depth, merging equal states. Every leaf's history is replayed on a fresh instance, and a
/// violation is reported only if its history reproduces it on a fresh instance.
pub fn explore<S: Sys>(cc: &mut CC, init: &dyn Fn() -> S, o: &Opts) -> Result<Stats, String> {
    let root = match catch(init) {
        Ok(r) => r,
        Err(p) => return Err(format!("construction panicked: {}", p)),
    };
    let mut kb = Vec::new();
    root.key(&mut kb);
    let mut seen: HashSet<u128> = HashSet::new();
    let k0 = hash128(&kb);
    seen.insert(k0);
    let mut nodes: Vec<Node<S::Op>> =
        vec![Node { parent: 0, op: None, script: vec![], key: k0, leaf: true }];
    let mut frontier: Vec<(u32, S)> = vec![(0, root)];
    let mut st = Stats { states: 1, transitions: 0, closed: true };
    let mut full = false;
    let mut complete = 0;
    for level in 0..=o.depth {
        if level == o.depth {
            if !frontier.is_empty() {
                st.closed = false;
            }
            break;
        }
        let mut next: Vec<(u32, S)> = Vec::new();
        for (id, s) in frontier.drain(..) {
            let mut first = true;
            for op in s.ops() {
                let mut script: Vec<u8> = Vec::new();
                loop {
                    if first {
                        first = false;
                        let p = path(&nodes, id);
                        cc.at(|| show(&p));
                    } else {
                        cc.beat();
                    }
                    let mut c = s.clone();
                    let (r, log) = run_step(&mut c, &op, &o.rng, &script);
                    st.transitions += 1;
                    if let Err(e) = r {
                        let mut p = path(&nodes, id);
                        p.push((op.clone(), log.iter().map(|x| x.0).collect()));
                        match replay(cc, init, &p, &o.rng) {
                            Err((n, e2)) => {
                                p.truncate(n + 1);
                                let p = minimise(cc, init, p, &o.rng);
                                let e3 = match replay(cc, init, &p, &o.rng) {
                                    Err((_, e3)) => e3,
                                    Ok(_) => e2,
                                };
                                cc.states += st.states;
                                cc.transitions += st.transitions;
                                return Err(format!("{} | history: {}", e3, show(&p)));
                            }
                            Ok(_) => {
                                // does not happen on a fresh instance: not a behaviour of the code
                                // under this property (a copy diverges, see C26)
                                cc.diverged += 1;
                                cc.sample(|| format!("unreproduced: {} | {}", e, show(&p)));
                            }
                        }
                    } else {
                        kb.clear();
                        c.key(&mut kb);
                        let k = hash128(&kb);
                        if !seen.contains(&k) {
                            if nodes.len() >= o.max_states {
                                if !full {
                                    // every operation of every state of this level is executed
                                    complete = level + 1;
                                }
                                full = true;
                            } else {
                                seen.insert(k);
                                nodes[id as usize].leaf = false;
                                let nid = nodes.len() as u32;
                                nodes.push(Node {
                                    parent: id,
                                    op: Some(op.clone()),
                                    script: log.iter().map(|x| x.0).collect(),
                                    key: k,
                                    leaf: true,
                                });
                                st.states += 1;
                                next.push((nid, c));
                            }
                        }
                    }
                    match next_script(&log) {
                        Some(x) => script = x,
                        None => break,
                    }
                }
            }
        }
        frontier = next;
        if frontier.is_empty() {
            break;
        }
    }
    if full {
        st.closed = false;
    }
    drop(frontier);
    // validation of the histories on fresh instances
    let leaves: Vec<u32> = (0..nodes.len() as u32).filter(|&i| nodes[i as usize].leaf).collect();
    for i in leaves {
        let p = path(&nodes, i);
        cc.beat();
        match replay(cc, init, &p, &o.rng) {
            Err((n, e)) => {
                let mut p = p;
                p.truncate(n + 1);
                cc.states += st.states;
                cc.transitions += st.transitions;
                return Err(format!("{} | history: {}", e, show(&p)));
            }
            Ok(k) => {
                if k != nodes[i as usize].key {
                    cc.diverged += 1;
                }
            }
        }
    }
    if let Some(n) = nodes.last() {
        if n.op.is_some() {
            let p = path(&nodes, nodes.len() as u32 - 1);
            cc.sample(|| format!("history: {}", show(&p)));
        }
    }
    cc.states += st.states;
    cc.transitions += st.transitions;
    if full {
        cc.truncated += 1;
        cc.count(CUT[complete.min(12)], 1);
    }
    Ok(st)
}

fn replay<S: Sys>(
    cc: &mut CC,
    init: &dyn Fn() -> S,
    p: &[(S::Op, Vec<u8>)],
    rng: &Option<rx::Cfg>,
) -> Result<u128, (usize, String)> {
    cc.traces += 1;
    let mut s = match catch(init) {
        Ok(s) => s,
        Err(e) => return Err((0, format!("construction panicked: {}", e))),
    };
    for (n, (op, script)) in p.iter().enumerate() {
        let (r, _) = run_step(&mut s, op, rng, script);
        if let Err(e) = r {
            return Err((n, e));
        }
    }
    let mut kb = Vec::new();
    s.key(&mut kb);
    Ok(hash128(&kb))
}

/// Drops operations from a failing history while it still fails.
fn minimise<S: Sys>(cc: &mut CC, init: &dyn Fn() -> S, mut p: Vec<(S::Op, Vec<u8>)>, rng: &Option<rx::Cfg>) -> Vec<(S::Op, Vec<u8>)> {
    let mut i = 0;
    while i < p.len() {
        let mut q = p.clone();
        q.remove(i);
        match replay(cc, init, &q, rng) {
            Err((n, _)) => {
                q.truncate(n + 1);
                p = q;
                i = 0;
            }
            Ok(_) => i += 1,
        }
    }
    p
}

/// One linear history on a fresh instance (used for long histories beyond the exhaustive depth).
pub fn linear<S: Sys>(cc: &mut CC, mut s: S, ops: &[S::Op], rng: &Option<rx::Cfg>) -> Result<S, String> {
    cc.traces += 1;
    let mut kb = Vec::new();
    for (n, op) in ops.iter().enumerate() {
        cc.beat();
        let (r, _) = run_step(&mut s, op, rng, &[]);
        cc.transitions += 1;
        if let Err(e) = r {
            let from = n.saturating_sub(12);
            return Err(format!("{} | after {} operations, the last: {:?}", e, n + 1, &ops[from..=n]));
        }
        kb.clear();
        s.key(&mut kb);
        cc.state(&kb);
    }
    Ok(s)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct RunCfg {
    pub prop: String,
    /// as asked for on the command line
    pub tier: Tier,
    /// the bounds this property gets for it
    pub depth: Tier,
    pub seed: u64,
    pub only: Option<String>,
    pub verif: String,
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub hang_s: u64,
}

struct Acc {
    states: u64,
    transitions: u64,
    traces: u64,
    truncated: u64,
    diverged: u64,
    samples: Vec<String>,
    counters: BTreeMap<&'static str, u64>,
    violations: Vec<(String, String)>,
    done: u64,
}

fn known(verif: &str, prop: &str) -> Vec<(String, String, String)> {
    // lines: "KNOWN property=C14 case=<case name> message=<part of the message> :: <what fails>"
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("KNOWN property={} case=", prop)) {
                if let Some((c, w)) = r.split_once(" :: ") {
                    let (c, m) = c.split_once(" message=").unwrap_or((c, ""));
                    v.push((c.to_string(), m.to_string(), w.to_string()));
                }
            }
        }
    }
    v
}

fn report(rc: &RunCfg, acc: &Acc, start: Instant, total: usize) -> i32 {
    let mut code = 0;
    let known = known(&rc.verif, &rc.prop);
    let mut fresh = Vec::new();
    for (c, m) in &acc.violations {
        if let Some((_, _, w)) = known.iter().find(|k| k.0 == *c && m.contains(&k.1)) {
            println!("KNOWN-FINDING: property={} {} [case {}]", rc.prop, w, c);
        } else {
            fresh.push((c.clone(), m.clone()));
        }
    }
    fresh.sort();
    let dir = format!("{}/replays", rc.verif);
    let _ = std::fs::create_dir_all(&dir);
    for (i, (c, m)) in fresh.iter().enumerate() {
        code = 1;
        if i >= 5 {
            println!("({} further violations of {} not listed)", fresh.len() - i, rc.prop);
            break;
        }
        let f = format!("{}/{}-{}.txt", dir, rc.prop, i + 1);
        let _ = std::fs::write(
            &f,
            format!(
                "property: {}\ntier: {}\ncase: {}\nwhat: {}\n\nTo run this case again: /verif/check.sh {} --replay {}\n",
                rc.prop,
                if rc.tier == Tier::Quick { "quick" } else { "thorough" },
                c, m, rc.prop, f
            ),
        );
        println!("VIOLATION property={} replay={}", rc.prop, f);
        println!("  case {}: {}", c, m);
    }
    let wall = start.elapsed().as_secs_f64();
    let mut cov = String::new();
    cov.push_str(&format!(
        "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"configurations\": {}, \"configurations_finished\": {}",
        acc.states, acc.transitions, acc.traces, total, acc.done
    ));
    cov.push_str(&format!(
        ", \"exhaustive\": {}, \"searches_cut_by_state_limit\": {}, \"replays_that_diverged\": {}",
        acc.truncated == 0 && acc.done as usize == total,
        acc.truncated,
        acc.diverged
    ));
    for (k, v) in &acc.counters {
        cov.push_str(&format!(", {}: {}", esc(k), v));
    }
    cov.push_str(&format!(", \"bounds\": {}", esc(&rc.bounds)));
    let mut sm: Vec<String> = acc.samples.clone();
    sm.sort();
    sm.dedup();
    let step = (sm.len() / 8).max(1);
    let sm: Vec<String> = sm.iter().step_by(step).take(10).map(|s| esc(s)).collect();
    cov.push_str(&format!(", \"samples\": [{}]", sm.join(", ")));
    let asm: Vec<String> = rc.assumptions.iter().map(|s| esc(s)).collect();
    let json = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        esc(&rc.prop),
        if rc.tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        rc.seed, cov, asm.join(", "), wall, fresh.len()
    );
    let dir = format!("{}/evidence", rc.verif);
    let _ = std::fs::create_dir_all(&dir);
    if rc.only.is_none() {
        let _ = std::fs::write(format!("{}/{}.json", dir, rc.prop), json);
    }
    println!(
        "{} {:?}: {} configurations, {} states, {} transitions, {} histories replayed, {} cut, {} diverged, {:.1}s -> {}",
        rc.prop, rc.tier, acc.done, acc.states, acc.transitions, acc.traces, acc.truncated, acc.diverged,
        wall, if code == 0 { "holds" } else { "VIOLATED" }
    );
    let _ = std::io::stdout().flush();
    code
}

/// Runs all cases on all cores and returns the exit code.
pub fn run(rc: RunCfg, cases: Cases) -> i32 {
    install_hook();
    let start = Instant::now();
    let cases: Vec<Case> = cases
        .v
        .into_iter()
        .filter(|c| rc.only.as_ref().map(|o| &c.name == o).unwrap_or(true))
        .collect();
    {
        let mut names = HashSet::new();
        for c in &cases {
            assert!(names.insert(c.name.clone()), "duplicate case name {}", c.name);
        }
    }
    let total = cases.len();
    let cases = Arc::new(cases);
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let next = Arc::new(AtomicUsize::new(0));
    let finished = Arc::new(AtomicUsize::new(0));
    let acc = Arc::new(Mutex::new(Acc {
        states: 0, transitions: 0, traces: 0, truncated: 0, diverged: 0,
        samples: vec![], counters: BTreeMap::new(), violations: vec![], done: 0,
    }));
    let slots: Vec<Arc<Slot>> = (0..nthreads)
        .map(|_| Arc::new(Slot { beat: AtomicU64::new(0), busy: AtomicBool::new(false), current: Mutex::new((String::new(), String::new())) }))
        .collect();
    let journal = std::env::var("MC_JOURNAL").ok();
    for i in 0..nthreads {
        let (cases, next, finished, acc, slot) =
            (cases.clone(), next.clone(), finished.clone(), acc.clone(), slots[i].clone());
        let (tier, seed) = (rc.depth, rc.seed);
        let journal = journal.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let note = |s: String| {
                    if let Some(j) = &journal {
                        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(j) {
                            let _ = f.write_all(s.as_bytes());
                        }
                    }
                };
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= cases.len() {
                        break;
                    }
                    let c = &cases[k];
                    slot.current.lock().map(|mut g| *g = (c.name.clone(), String::new())).unwrap();
                    slot.beat.fetch_add(1, Ordering::Relaxed);
                    slot.busy.store(true, Ordering::SeqCst);
                    note(format!("START {}\n", c.name));
                    let mut cc = CC {
                        tier, seed, slot: slot.clone(), states: 0, transitions: 0, traces: 0, truncated: 0,
                        diverged: 0, samples: vec![], counters: BTreeMap::new(), seen: HashSet::new(),
                    };
                    let began = Instant::now();
                    let r = match catch(|| (c.run)(&mut cc)) {
                        Ok(r) => r,
                        Err(p) => Err(format!("panicked: {} | at {}", p, slot.current.lock().unwrap().1)),
                    };
                    let _ = rx::end();
                    if std::env::var("MC_SLOW").is_ok() && began.elapsed().as_secs_f64() > 1.0 {
                        eprintln!("{:.1} s: {}", began.elapsed().as_secs_f64(), c.name);
                    }
                    slot.busy.store(false, Ordering::SeqCst);
                    note(format!("END {}\n", c.name));
                    let mut a = acc.lock().unwrap();
                    a.states += cc.states;
                    a.transitions += cc.transitions;
                    a.traces += cc.traces;
                    a.truncated += cc.truncated;
                    a.diverged += cc.diverged;
                    a.done += 1;
                    for s in cc.samples {
                        a.samples.push(format!("[{}] {}", c.name, s));
                    }
                    for (k, v) in cc.counters {
                        *a.counters.entry(k).or_insert(0) += v;
                    }
                    if let Err(e) = r {
                        a.violations.push((c.name.clone(), e));
                    }
                    drop(a);
                }
                finished.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    // watchdog
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); nthreads];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        if finished.load(Ordering::SeqCst) == nthreads {
            break;
        }
        for i in 0..nthreads {
            let b = slots[i].beat.load(Ordering::Relaxed);
            if b != last[i].0 || !slots[i].busy.load(Ordering::SeqCst) {
                last[i] = (b, Instant::now());
            } else if last[i].1.elapsed().as_secs() >= rc.hang_s {
                let cur = slots[i].current.lock().unwrap().clone();
                let mut a = acc.lock().unwrap();
                a.violations.push((cur.0, format!("an operation did not return within {} s | after {}", rc.hang_s, cur.1)));
                let code = report(&rc, &a, start, total);
                std::process::exit(code);
            }
        }
    }
    let a = acc.lock().unwrap();
    report(&rc, &a, start, total)
}
