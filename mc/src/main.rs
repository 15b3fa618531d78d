mod engine;
mod items;
mod iters;
mod p_bloom;
mod p_generic;
#[cfg(feature = "internals")]
mod p_vec;
mod p_sim;
mod p_hll;
mod p_long;
mod p_sketch;
mod p_quotient;
mod p_cuckoo;
mod p_stream;
mod p_args;
mod p_eq;

/// Counts the bytes that each thread holds.
struct Counting;

thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}

fn note_bytes(d: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note_bytes(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note_bytes(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        note_bytes(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note_bytes(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

use engine::{Cases, RunCfg, Tier};
use std::process::exit;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_else(|| {
        eprintln!("usage: mc <property> [--tier quick|thorough] [--replay file] [--only case]");
        exit(2)
    });
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = if args.get(i + 1).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
                i += 1;
            }
            "--only" => {
                only = args.get(i + 1).cloned();
                i += 1;
            }
            "--replay" => {
                let s = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                for l in s.lines() {
                    if let Some(c) = l.strip_prefix("case: ") {
                        only = Some(c.to_string());
                    }
                    if l == "tier: thorough" {
                        tier = Tier::Thorough;
                    }
                }
                i += 1;
            }
            a => {
                eprintln!("unknown argument {}", a);
                exit(2)
            }
        }
        i += 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());

    if std::env::var("MC_CHILD").is_err() {
        exit(parent(&args, &prop, tier, &verif, only.is_some()));
    }

    let depth = match tier {
        Tier::Quick if FAST.contains(&prop.as_str()) => Tier::Thorough,
        Tier::Quick => Tier::Quick,
        _ => Tier::Deep,
    };
    let mut cs = Cases { tier: depth, v: vec![] };
    let (bounds, assumptions): (&str, Vec<&str>) = match prop.as_str() {
        "C01" => { p_bloom::c01(&mut cs); p_long::bloom(&mut cs, false); (B_BLOOM, A_HASH.to_vec()) }
        "C02" => { p_bloom::c02(&mut cs); p_long::bloom(&mut cs, true); p_generic::plain_twins(&mut cs, p_generic::is_bloom); (B_BLOOM, A_HASH.to_vec()) }
        "C03" => { p_bloom::c03(&mut cs); (B_GRID, vec!["values within 1e-9 of an integer boundary may round either way"]) }
        "C04" => { p_bloom::c04(&mut cs); p_long::scalable_bloom(&mut cs, false); (B_SBLOOM, A_HASH.to_vec()) }
        "C05" => { p_bloom::c05(&mut cs); p_long::scalable_bloom(&mut cs, true); p_generic::plain_twins(&mut cs, p_generic::is_scal); (B_SBLOOM, A_HASH.to_vec()) }
        "C06" => { p_stream::c06(&mut cs); p_long::stream(&mut cs); p_generic::plain_twins(&mut cs, p_generic::is_stream); (B_STREAM, A_HASH.to_vec()) }
        "C07" => { p_stream::c07(&mut cs); p_long::stream_rule(&mut cs); (B_DIST, vec!["random draws go through the generator type rand_xorshift::XorShiftRng, which the checker substitutes"]) }
        "C08" => { p_cuckoo::c08(&mut cs); p_long::cuckoo(&mut cs, false); p_long::cuckoo_overflow(&mut cs, false); (B_CUCKOO, A_HASH.to_vec()) }
        "C09" => { p_cuckoo::c09(&mut cs); p_long::cuckoo(&mut cs, true); p_long::cuckoo_overflow(&mut cs, true); p_generic::plain_twins(&mut cs, p_generic::is_cuckoo); (B_CUCKOO, A_HASH.to_vec()) }
        "C10" => { p_cuckoo::c10(&mut cs); (B_FILL, vec![]) }
        "C11" => { p_cuckoo::c11(&mut cs); p_long::scalable_cuckoo(&mut cs, false); (B_SCUCKOO, A_HASH.to_vec()) }
        "C12" => { p_cuckoo::c12(&mut cs); p_long::scalable_cuckoo(&mut cs, true); p_generic::plain_twins(&mut cs, p_generic::is_scalc); (B_SCUCKOO, A_HASH.to_vec()) }
        "C13" => { p_quotient::c13(&mut cs); p_long::quotient(&mut cs, false); p_long::quotient_cluster(&mut cs, false); (B_QUOT, A_HASH.to_vec()) }
        "C14" => { p_quotient::c14(&mut cs); p_long::quotient(&mut cs, true); p_long::quotient_cluster(&mut cs, true); p_generic::plain_twins(&mut cs, p_generic::is_quot); (B_QUOT, A_HASH.to_vec()) }
        "C15" => { p_quotient::c15(&mut cs); (B_FILL, vec![]) }
        "C16" => { p_sketch::c16(&mut cs); p_long::sketch(&mut cs, true); (B_CMS, A_HASH.to_vec()) }
        "C17" => { p_sketch::c17(&mut cs); p_long::sketch(&mut cs, false); p_generic::plain_twins(&mut cs, p_generic::is_sketch); (B_CMS, A_HASH.to_vec()) }
        "C18" => { p_sketch::c18(&mut cs); (B_GRID, vec!["values within 1e-9 of an integer boundary may round either way"]) }
        "C19" => { p_hll::c19(&mut cs); p_generic::plain_twins(&mut cs, p_generic::is_hll); (B_HLL, A_HASH.to_vec()) }
        "C20" => { p_hll::c20(&mut cs); (B_HLL, A_HASH.to_vec()) }
        "C21" => { p_hll::c21(&mut cs); (B_HLLE, A_HASH.to_vec()) }
        "C22" => { p_sim::c22(&mut cs); p_generic::plain_twins(&mut cs, p_generic::is_mh); (B_MIN, A_HASH.to_vec()) }
        "C23" => { p_sim::c23(&mut cs); p_generic::plain_twins(&mut cs, p_generic::is_sh); (B_SIM, A_HASH.to_vec()) }
        "C24" => { p_sim::c24(&mut cs); (B_REP, A_HASH.to_vec()) }
        "C25" => { p_sim::c25(&mut cs); (B_JAC, vec!["the similarity of two empty sequences is left open"]) }
        #[cfg(feature = "internals")]
        "C30" => { p_vec::c30(&mut cs); (B_BSV, vec![]) }
        #[cfg(feature = "internals")]
        "C31" => { p_vec::c31(&mut cs); (B_BV, vec![]) }
        "C26" => { p_generic::c26(&mut cs); p_generic::large26(&mut cs); (B_COPY, A_HASH.to_vec()) }
        "C27" => { p_generic::c27(&mut cs); (B_HASHING, vec![]) }
        "C28" => { p_generic::c28(&mut cs); (B_MEM, vec![]) }
        "C29" => { p_generic::c29(&mut cs); p_generic::large29(&mut cs); p_generic::plain_twins(&mut cs, p_generic::keeps_state); (B_CLEAR, A_HASH.to_vec()) }
        "C32" => { p_args::c32(&mut cs); (B_ARGS, vec!["a fingerprint width of 1 is left open"]) }
        "C33" => { p_eq::c33(&mut cs); (B_EQ, vec!["two different 128-bit keys give a different hash on one of four messages"]) }
        "C34" => { p_sketch::c34(&mut cs); (B_STRAT, A_HASH.to_vec()) }
        _ => {
            eprintln!("unknown property {}", prop);
            exit(2)
        }
    };
    let rc = RunCfg {
        prop, tier, depth, seed, only, verif,
        bounds: bounds.into(),
        assumptions: assumptions.into_iter().map(|s| s.to_string()).collect(),
        hang_s: 60,
    };
    exit(engine::run(rc, cs));
}

/// Properties cheap enough for the wider bounds on every change.
const FAST: [&str; 22] = [
    "C01", "C03", "C04", "C05", "C10", "C15", "C18", "C19", "C21", "C22", "C23", "C24", "C25", "C27", "C28", "C32", "C33", "C34", "C02", "C13", "C14", "C16",
];
const A_HASH: [&str; 1] = ["items are told apart only by their 64-bit hashes, which the checker chooses"];
const B_BLOOM: &str = "744 configurations of sizes 1..300 (thorough: 1..700) and the keyed constructors: every sequence of up to 4 (thorough: 5) insertions and clears over an alphabet of boundary hash values; for up to 40 (thorough 64; C02 12 to 28) bits every residue pair of the two hashes; C02: every position of filters of 70 001 to 200 003 (thorough 17 000 023) bits, queried by an item that lacks that position only; a few filters of up to 2^33 bits; plus long histories of 70 000 to 600 000 different items, each operation against the reference; filters of up to 48 000 hash functions; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_GRID: &str = "every point of a grid: hundreds of sizes from 1 up with values around powers of two and up to 2^25, tens to thousands of probabilities, including values just on either side of each rounding boundary, under every constructor";
const B_FILL: &str = "every point of a grid: hundreds of sizes from 1 up with values around powers of two and up to 2^25, tens to thousands of probabilities, including values just on either side of each rounding boundary, under every constructor; the estimate at every fill of tables of up to 2^17 slots";
const B_SBLOOM: &str = "per configuration: every sequence of up to 7 (thorough 8) operations over 7 items (or the state limit), plus linear histories of 600 (1500) insertions; plus long histories of 70 000 to 600 000 different items, each operation against the reference; chains of more than 128 components; component lengths of 4 components under 23 growth ratios from 0.1 to 100, most of them near whole products and hundreds of sizes up to 300 007 (17 000 023); collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";

/// Runs the checker in a child process, so that an abort of the code under test (failed
/// allocation, stack overflow, illegal memory access) is an answer, too.
fn parent(args: &[String], prop: &str, tier: Tier, verif: &str, partial: bool) -> i32 {
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let journal = format!("{}/{}.journal", dir, prop);
    let _ = std::fs::remove_file(&journal);
    let st = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(&args[1..])
        .env("MC_CHILD", "1")
        .env("MC_JOURNAL", &journal)
        .status()
        .expect("child");
    let code = match st.code() {
        Some(c) if c == 0 || c == 1 || c == 2 => c,
        _ => {
            let j = std::fs::read_to_string(&journal).unwrap_or_default();
            let mut open: Vec<String> = Vec::new();
            for l in j.lines() {
                if let Some(c) = l.strip_prefix("START ") {
                    open.push(c.to_string());
                } else if let Some(c) = l.strip_prefix("END ") {
                    open.retain(|o| o != c);
                }
            }
            use std::os::unix::process::ExitStatusExt;
            if open.is_empty() || st.signal() == Some(9) {
                eprintln!("checker ended abnormally: {:?}", st);
                2
            } else {
                let f = format!("{}/{}-abort.txt", dir, prop);
                let _ = std::fs::write(&f, format!(
                    "property: {}\ntier: {:?}\nwhat: the process was aborted ({:?}) while these cases ran\n{}",
                    prop, tier, st, open.iter().map(|c| format!("case: {}\n", c)).collect::<String>()
                ));
                println!("VIOLATION property={} replay={}", prop, f);
                println!("  the code under test aborted the process ({:?}) in one of: {}", st, open.join(" | "));
                if !partial {
                    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
                    let _ = std::fs::write(
                        format!("{}/evidence/{}.json", verif, prop),
                        format!("{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": 1, \"level\": \"model_checking\", \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [\"aborted\"]}}, \"wall_s\": 0, \"violations\": 1}}\n",
                            prop, if tier == Tier::Quick { "quick" } else { "thorough" }),
                    );
                }
                1
            }
        }
    };
    let _ = std::fs::remove_file(&journal);
    code
}
const B_STREAM: &str = "filters of 1..4 bits per partition (2 partitions): complete state space over all items and all eviction choices; larger filters: all sequences of 3 (quick) / 5 (thorough) operations over 5 boundary items with branching eviction draws; an item covered in all partitions but one, for up to 500 partitions; every position of filters of up to 140 002 bits, queried by an item that lacks that position only; plus long histories of 70 000 to 600 000 different items, each operation against the reference; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_DIST: &str = "two partitions of 1..4 (thorough: 5) bits: every reachable filter state and every new item, exact outcome distribution over all draws; 3..5 partitions: states up to a limit; plus long histories of 70 000 to 600 000 different items, each operation against the reference; 2 to 24 partitions of 64 to 1000 bits and filters of 140 003 bits per partition: where evictions fall and how many there are";
const B_CUCKOO: &str = "tables of 1, 2, 4, 8 buckets of 1..4 entries, fingerprint widths 2..64 (quick: 8 widths), three fingerprint hash modes; 8..10 items; operation sequences to closure of the state space or the state limit; the first 3 (quick) / 5 (thorough) relocation draws branch over all values, later draws follow 3 policies; plus displacement chains of every length up to 520 and through 2^8..2^24 buckets; plus long linear histories; plus long histories of 70 000 to 600 000 different items, each operation against the reference; overflow lists of 1 500 entries; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_SCUCKOO: &str = "9 initial sizes, 3 probabilities, 6 growth/tightening pairs, 3 hash modes; 8..10 items built to collide in one component but not in another; sequences of up to 7 (quick) / 14 (thorough) operations or the state limit; relocation draws branch; plus long linear histories; plus long histories of 70 000 to 600 000 different items, each operation against the reference; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_QUOT: &str = "(quotient, remainder) bits (1,1..4), (2,1..2), (3,1) (thorough: (1,1..6), (2,1..3), (3,1)): every history over every fingerprint, complete state space; (3,2): depth or state limit; all remainder widths 1..61 with 1..4 (6) quotient bits over boundary remainders up to the state limit; linear histories that fill tables of up to 2^7 (2^10) slots several times; plus long histories of 70 000 to 600 000 different items, each operation against the reference; clusters of 67 000 slots, runs of 6 000 and 66 000; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_CMS: &str = "51 shapes (1..6 rows x 1,2,3,4,5,7,64 columns and 9 larger); histories of up to 5 (quick) / 7 (thorough) insertions, removals and clears over 2..5 items that collide in all, some or no rows and 4..6 amounts including negative and 2^58 + 1; every pair of hash residues for up to 7 columns; every tuple of row values in -3..7 and of 5 values beyond 2^53 reachable through one helper per row; plus long histories of 70 000 to 600 000 different items, each operation against the reference; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_HLL: &str = "2, 4, 8, 16 registers: every history of insertions (7..9, C19: 10..12, C19 thorough: 12..14 hashes of extreme register and rank), clears and merges among 1, 2 or 3 counters, complete state space or state limit; observation: the estimate as it is and with all registers but one filled; larger counters: every rank, merges of 8 sets pairwise, long histories; counters of 2^14 to 2^24 registers: clear, order, merges of few items and of halves; C20: 2^2..2^8 (2^12) registers, merges of counters whose registers are alike but one; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_HLLE: &str = "2, 4, 8, 16 registers: every register content over the listed ranks (8 and 16: up to permutation); 2^5..2^16 (thorough 2^18) registers: every number of touched registers under 4 rank mixes, ranks to the top; items spread over up to 2^24 registers; about 1450 error probabilities, six of them within 1e-7 to 1e-11 of each boundary up to 2^23 (2^24) registers; three down to 1e-4 (2^25..2^27 registers)";
const B_MIN: &str = "all lists of up to 6 items over four alphabets of 6 (thorough 7) extreme hash pairs with 1..12 hash functions; all pairs of subsets of 6 (7) items; all rankings of up to 6 (7) items at each of the first 10 (20) signature positions and every split into two sets; lists of up to 1 100 000 items, up to 5000 hash functions; signatures of up to 100 003 values with every number of equal positions; items that share one of their hashes; iterators with 8 lawful size hints; signatures of up to 300 000 (1 100 000) values of many items; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_SIM: &str = "every truth table of up to 11 (thorough 14) votes at each of the 64 positions; all lists of up to 8 (9) items over 5 hashes; votes of up to 65537 items with margins -1, 0, 1; iterators with 8 lawful size hints; votes of 2^24 and more items on each side; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
const B_REP: &str = "all lists of 1..6 (thorough 7) items over four alphabets of 5 sim-hashes with windows 2..8; lists shorter than the window; lists of 255..70 000 items with repeated and empty sets, windows up to 257; iterators with 8 lawful size hints; windows up to 1100, also over items whose order no rotation changes";
const B_JAC: &str = "token counts 0..40 (thorough 90), shingle lengths 1..n+4 and extreme ones; all token lists of up to 11 (14) over two tokens; all pairs of sequences of up to 4 (5) items over 4 items; sequences of up to 70 001 items; items with equal hashes; every sequence of up to 3 uses of the shingle iterator and every way to consume the rest; iterators with 8 lawful size hints; shingles of up to 131 073 (1 100 000) tokens";
#[cfg(feature = "internals")]
const B_BSV: &str = "every width 1..64: every position of vectors over 3 blocks and more against 6 backgrounds and 7 values; all sequences of up to 4 (6) operations (or the state limit) from up to 8 lengths around block boundaries and 3 constructions; width 1 up to 8 (11) and width 2 up to 4 (6) elements: complete; every sequence of up to 3 uses of the iterators and every way to consume the rest";
#[cfg(feature = "internals")]
const B_BV: &str = "complete state space of vectors of up to 9 (11) bits under all operations; 15 lengths around byte and word boundaries and 6 constructions: sequences of 3 (5) operations or the state limit; every sequence of up to 3 uses of the iterators and every way to consume the rest; bulk operations on vectors of up to 2^27 bits, every bit";
const B_COPY: &str = "60 configurations of all 13 collections, two kinds of hash builders: every history of up to 3 (stream filters 2; thorough 5 / 4) operations (or the state limit), copies by serialisation, clone and clone_from in each state, each continued by every single operation and 3 long histories; copies at points of long histories";
const B_HASHING: &str = "225 key pairs x messages of 0..200 (thorough 1000) bytes x every split; 529 pairs of h1, h2 x 400 (2000) derived hashes, some to 3 000 000; 60 configurations x every history of up to 4 (6) operations with and without queries in between; 3 kinds of owned and borrowed items in 13 collections";
const B_MEM: &str = "about 440 configurations: construction, histories of up to 20 000 operations with clears, and for 60 of them every history of up to 3 operations";
const B_STRAT: &str = "76 shapes of 1..70 000 rows and 1..2^22 columns: every history of up to 3 insertions, removals and clears over 4..6 items with colliding and extreme hashes (1 for the large shapes), 6..8 queried items, 11 ways to read the values, 9 answers of the strategy";
const B_EQ: &str = "7 groups of filters of equal size (1..8 entries per bucket, up to 8 slots) under 12 key pairs: all pairs of the filters reached by up to 5 (6) operations over 5 items (or the state limit), copies by clone, clone_from and serialisation; 4 groups of Bloom filters under 5 builder pairs: all pairs of the filters reached by 3 (4) insertions or clears, against the probe positions; all pairs of several hundred hash builder keys; tables of up to 2^17 (2^18) buckets, overflow lists of up to 1 200 (5 000) entries and Bloom filters of up to 200 003 (1 100 009) bits against copies that differ in one item, and those pairwise";
const B_ARGS: &str = "every pair of 8-bit quotient and remainder widths; grids of item counts, widths 0..130 and beyond 2^32, entries, 16 probabilities outside (0, 1) and 10 to 1000 inside; all pairs of signature lengths up to 24 (thorough 70)";
const B_CLEAR: &str = "57 configurations of all 11 collections with clear, two or three kinds of hash builders: clear after every history of up to 3 (stream filters 2; thorough 5 / 4) operations (or the state limit) and at points of long histories; then every continuation of 2 operations and long ones, in lockstep with a fresh collection; collections whose constructors draw their hashers in lockstep with ones given the same hashers: every history of up to 2..3 operations, long ones that grow, are cleared and grow again";
