//! Which scenarios and which oracles decide which property.

use crate::rng::{mix, Rng};
use crate::scen::{self, Outcome};
use crate::sim::*;

pub struct Prop {
    pub id: &'static str,
    pub mask: u64,
    /// Number of episodes per worker batch: (quick, thorough).
    pub episodes: (u64, u64),
    pub rule: &'static str,
    tune: fn(&mut Profile, &mut Rng),
    nontrivial: fn(&Stats) -> bool,
    special: fn(u64, bool) -> Special,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Special {
    Sim,
    Marathon(usize),
    Scale,
    Names,
    Mixed,
    Corrupt(usize),
    Malformed(usize),
    Forged(usize),
    Big(usize, usize),
    Rle,
    Cost,
}

fn sim_only(_: u64, _: bool) -> Special {
    Special::Sim
}

/// One long session now and then.
fn with_marathon(i: u64, thorough: bool) -> Special {
    match i {
        3 | 27 | 52 | 78 => Special::Marathon(70_000),
        11 | 36 if thorough => Special::Marathon(150_000),
        19 | 45 if thorough => Special::Marathon(300_000),
        i if i % 200 == 5 => Special::Marathon(5000),
        _ => Special::Sim,
    }
}

fn concurrent(p: &mut Profile, r: &mut Rng) {
    if p.peers < 2 {
        p.peers = r.range(2, 4);
        p.max_peers = p.max_peers.max(p.peers);
    }
}

macro_rules! both {
    ($s:expr) => {
        concat!("An episode is a session of randomly tuned peers making and exchanging edits over a reordering, duplicating, delaying network, each output applied to a buffer of uniquely tagged characters that the oracles compare with the recorded history; ", $s, " Distinct episodes are told apart by a hash of every call and every returned offset.")
    };
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        mask: O_CONV,
        episodes: (8000, 320000),
        rule: both!("non-trivial if at least one pair of peers with the same edits was compared after at least one edit was integrated remotely."),
        tune: concurrent,
        nontrivial: |s| s.convergence_comparisons > 0 && s.remote_insertions + s.yielded_insertions > 0,
        special: with_marathon,
    },
    Prop {
        id: "C02",
        mask: O_RANK | O_NEIGH | O_SUBSEQ,
        episodes: (4000, 160000),
        rule: both!("non-trivial if several authors inserted in the same gap concurrently."),
        tune: |p, r| {
            concurrent(p, r);
            if r.chance(0.6) {
                p.pos_w[1] += 20;
            }
        },
        nontrivial: |s| s.concurrent_same_gap > 0 && s.subsequence_checks > 0,
        special: with_marathon,
    },
    Prop {
        id: "C03",
        mask: O_CONS | O_LEN,
        episodes: (8000, 320000),
        rule: both!("non-trivial if characters were both inserted and deleted and edits were integrated remotely."),
        tune: |p, r| {
            concurrent(p, r);
            p.act_w[1] += 5;
        },
        nontrivial: |s| s.chars_inserted > 0 && s.chars_deleted > 0 && s.remote_insertions + s.yielded_insertions > 0,
        special: with_marathon,
    },
    Prop {
        id: "C04",
        mask: O_DELEXACT | O_DELFMT,
        episodes: (4000, 160000),
        rule: both!("non-trivial if a deletion was integrated remotely over text its author hadn't seen, i.e. gave several ranges."),
        tune: |p, r| {
            concurrent(p, r);
            p.act_w[1] = p.act_w[1].max(10);
            if r.chance(0.5) {
                p.del_w = [4, 1, 1, 1, 1, 4, 10];
            }
        },
        nontrivial: |s| s.multi_range_deletions > 0,
        special: with_marathon,
    },
    Prop {
        id: "C05",
        mask: O_INTERLEAVE,
        episodes: (4000, 160000),
        rule: both!("non-trivial if runs were typed while others were inserting in the same gap."),
        tune: |p, r| {
            concurrent(p, r);
            p.len_mode = *r.pick(&[0, 0, 1]);
            p.burst = *r.pick(&[3, 10, 30]);
            p.pos_w = *r.pick(&[[1, 5, 20, 2, 0, 0], [1, 2, 20, 5, 5, 0], [4, 10, 10, 1, 1, 1], [0, 1, 10, 0, 1, 3]]);
        },
        nontrivial: |s| s.contiguity_pairs > 0 && s.concurrent_neighbours > 0,
        special: sim_only,
    },
    Prop {
        id: "C06",
        mask: O_DUP | O_CONS,
        episodes: (8000, 320000),
        rule: both!("non-trivial if edits were redelivered, some of them while still being held."),
        tune: |p, r| {
            concurrent(p, r);
            p.act_w[3] = *r.pick(&[10, 30, 60]);
            if r.chance(0.5) {
                p.net_w[3] += 5;
                p.drain_mode = *r.pick(&[0, 2]);
            }
        },
        nontrivial: |s| s.redelivered > 0 && s.redelivered_while_held > 0,
        special: with_marathon,
    },
    Prop {
        id: "C07",
        mask: O_EARLY | O_LATE | O_DRAIN,
        episodes: (6000, 240000),
        rule: both!("non-trivial if edits arrived before their dependencies and came out of the backlog later. Some episodes instead hold one backlog of up to hundreds of thousands of edits."),
        tune: |p, r| {
            concurrent(p, r);
            p.net_w[2] += 4;
            p.net_w[3] += r.below(5) as u32;
            p.net_w[4] += r.below(3) as u32;
            p.net_w[5] += r.below(3) as u32;
            if r.chance(0.3) {
                p.partial_drain = 0.6;
            }
        },
        nontrivial: |s| s.held > 0 && s.yielded_insertions + s.yielded_deletions > 0,
        special: |i, thorough| {
            // One size on every 200 episodes, all the kinds in turn.
            if i % 200 == 7 {
                let k = i as usize / 200;
                let n = if thorough && k % 8 >= 4 { 600_000 } else { 120_000 };
                Special::Big(k, n)
            } else {
                with_marathon(i, thorough)
            }
        },
    },
    Prop {
        id: "C08",
        mask: O_ANCHOR,
        episodes: (12000, 480000),
        rule: both!("non-trivial if anchors were resolved at several moments, some of them after their character was deleted."),
        tune: |p, r| {
            p.act_w[5] = *r.pick(&[10, 30, 60]);
            if r.chance(0.5) {
                p.act_w[1] += 10;
            }
        },
        nontrivial: |s| s.anchors_created > 0 && s.anchors_to_deleted > 0,
        special: with_marathon,
    },
    Prop {
        id: "C09",
        mask: O_FORK,
        episodes: (14000, 560000),
        rule: both!("non-trivial if forks and clones were driven in lockstep with their original, or in sessions of their own."),
        tune: |p, r| {
            p.decode_joins = false;
            p.act_w[6] += 1;
            p.act_w[7] += 1;
            p.act_w[8] = 2 + r.below(3) as u32;
            if p.name != "crowd" {
                p.steps = p.steps.min(400);
            }
            p.twin_steps = *r.pick(&[8, 25, 60]);
        },
        nontrivial: |s| s.fork_sessions > 0 && s.twin_ops > 0,
        special: with_marathon,
    },
    Prop {
        id: "C10",
        mask: O_DECODE,
        episodes: (14000, 560000),
        rule: both!("non-trivial if decoded replicas were driven in lockstep with forks of the encoded ones."),
        tune: |p, r| {
            p.fork_joins = false;
            p.act_w[6] += 1;
            p.act_w[8] = 2 + r.below(3) as u32;
            if p.name != "crowd" {
                p.steps = p.steps.min(400);
            }
            p.twin_steps = *r.pick(&[8, 25, 60]);
            if r.chance(0.5) {
                // So that there's a backlog to encode.
                p.drain_mode = *r.pick(&[0, 2]);
                p.net_w[2] += 6;
            }
        },
        nontrivial: |s| s.decode_sessions > 0 && s.twin_ops > 0,
        special: with_marathon,
    },
    Prop {
        id: "C11",
        mask: O_SERDE,
        episodes: (4000, 160000),
        rule: both!("non-trivial if edits went through JSON and bincode on their way."),
        tune: |p, r| {
            concurrent(p, r);
            p.serde_p = 1.0;
            p.act_w[5] += 2;
            p.act_w[6] += 1;
        },
        nontrivial: |s| s.serde_roundtrips > 0,
        special: with_marathon,
    },
    Prop {
        id: "C12",
        mask: O_CORRUPT,
        episodes: (5000, 200000),
        rule: "An episode encodes a replica taken out of a random session and decodes thousands of damaged versions of it (bit flips, truncations, byte edits, other protocol versions, garbage, bodies with a recomputed checksum); non-trivial if the encoding holds an actual document. Distinct episodes are told apart by a hash of the session and of all the damaged bytes.",
        tune: |_, _| {},
        nontrivial: |_| true,
        special: |i, thorough| Special::Corrupt(if thorough && i % 10 == 0 { 20_000 } else { 1500 }),
    },
    Prop {
        id: "C13",
        mask: O_MALFORMED,
        episodes: (20000, 800000),
        rule: "An episode serializes edits and anchors taken out of a random session and deserializes thousands of damaged versions of them as bytes, sequences, JSON and bincode; non-trivial if there was any edit. Distinct episodes are told apart by a hash of the serialized edits.",
        tune: |_, _| {},
        nontrivial: |_| true,
        special: |_, _| Special::Malformed(12),
    },
    Prop {
        id: "C14",
        mask: O_ABUSE | O_NOOP,
        episodes: (16000, 640000),
        rule: both!("non-trivial if calls with invalid arguments or no effect were made in between."),
        tune: |p, r| {
            p.act_w[9] = *r.pick(&[5, 20]);
            p.act_w[12] = *r.pick(&[5, 20]);
            p.steps = p.steps.min(800);
        },
        nontrivial: |s| s.misuses > 0 && s.noop_edits > 0,
        special: sim_only,
    },
    Prop {
        id: "C15",
        mask: O_TEXT,
        episodes: (5000, 200000),
        rule: both!("non-trivial if several authors' texts were identified both on creation and when coming out of a backlog."),
        tune: |p, r| {
            concurrent(p, r);
            p.act_w[6] += 1;
            p.act_w[7] += 1;
            p.serde_p = 0.3;
        },
        nontrivial: |s| s.local_insertions > 0 && s.yielded_insertions > 0,
        special: with_marathon,
    },
    Prop {
        id: "C16",
        mask: O_STRUCT | O_LEN,
        episodes: (4000, 160000),
        rule: both!("non-trivial if the self-check ran at least ten times in the middle of the session."),
        tune: |p, r| {
            p.struct_p = *r.pick(&[0.02, 0.2, 1.0]);
            if p.struct_p > 0.5 {
                p.steps = p.steps.min(300);
            }
        },
        nontrivial: |s| s.struct_checks >= 10,
        special: with_marathon,
    },
    Prop {
        id: "C17",
        mask: 0,
        episodes: (24, 1200),
        rule: "An episode is a short session (edits, deliveries, backlog drains, forks, encodings, serialization, damaged bytes) interpreted by Miri, which checks every memory access; non-trivial if edits were integrated remotely or damaged bytes were decoded. Distinct episodes are told apart by a hash of every call and every returned offset.",
        tune: |p, r| {
            concurrent(p, r);
            p.peers = p.peers.min(3);
            p.max_peers = p.peers + 1;
            p.init = p.init.min(60);
            p.cap = 60;
            p.steps = r.range(30, 70);
            p.serde_p = 0.3;
            p.len_mode = p.len_mode.min(2);
            p.act_w[1] = p.act_w[1].max(10);
            p.act_w[5] = 2;
            p.act_w[7] = 1;
            p.twin_steps = 5;
            p.burst = p.burst.min(6);
        },
        nontrivial: |s| s.remote_insertions + s.remote_deletions > 0,
        special: |i, _| match i % 8 {
            5 => Special::Malformed(2),
            6 => Special::Corrupt(12),
            7 => Special::Forged(10),
            _ => Special::Sim,
        },
    },
    // The second half of C17: run under AddressSanitizer.
    Prop {
        id: "C17A",
        mask: 0,
        episodes: (1000, 40_000),
        rule: "Other episodes are longer sessions, backlogs and damaged bytes run natively under AddressSanitizer.",
        tune: |p, r| {
            concurrent(p, r);
            p.serde_p = 0.3;
            p.act_w[7] += 1;
        },
        nontrivial: |s| s.remote_insertions + s.remote_deletions > 0,
        special: |i, _| match i % 16 {
            3 => Special::Malformed(6),
            1 | 7 => Special::Forged(40),
            5 | 10 => Special::Corrupt(600),
            9 if i < 400 => Special::Big(i as usize / 16, 5000),
            11 if i < 400 => Special::Marathon(4000),
            13 => Special::Scale,
            15 => Special::Rle,
            _ => Special::Sim,
        },
    },
    Prop {
        id: "C18",
        mask: O_SCALE,
        episodes: (200000, 3200000),
        rule: "An episode is a random session among 2 to 4 peers run twice in lockstep, the second time with all lengths multiplied by a factor of up to 2^52, or up to isize::MAX over all that may be inserted, comparing every output; non-trivial if at least ten edits were made. Distinct episodes are told apart by a hash of the factor and of the edits.",
        tune: |_, _| {},
        nontrivial: |_| true,
        special: |_, _| Special::Scale,
    },
    Prop {
        id: "C19",
        mask: O_RUNS,
        episodes: (10000, 400000),
        rule: both!("non-trivial if the number of runs was compared with the number of edits. Half the episodes instead type and paste text in one go, and look at what it costs at the author and at a receiver."),
        tune: |p, r| {
            concurrent(p, r);
        },
        nontrivial: |s| s.runs_checked > 0,
        special: |i, _| if i % 2 == 1 { Special::Rle } else { Special::Sim },
    },
    Prop {
        id: "C20",
        mask: O_COST,
        episodes: (3000, 60000),
        rule: "An episode lets a history double from 512 edits to tens of thousands, counting for every call the edges of the control flow graph it executes and the bytes it moves and allocates, and compares the averages of each doubling with those of the first two; non-trivial if anything was counted. Distinct episodes are told apart by a hash of the edits.",
        tune: |_, _| {},
        nontrivial: |_| true,
        special: |_, _| Special::Cost,
    },
    Prop {
        id: "C21",
        mask: O_NAMES,
        episodes: (120000, 3200000),
        rule: "An episode is a random session among 2 to 8 peers run twice in lockstep, first with ids 1, 2, .. and then with other ids in the same order (sharing their upper or lower bits, near powers of two, near the maximum, random), comparing every output; non-trivial if at least ten edits were made. Distinct episodes are told apart by a hash of the ids and of the edits.",
        tune: |_, _| {},
        nontrivial: |_| true,
        special: |_, _| Special::Names,
    },
    Prop {
        id: "C22",
        mask: O_COMPAT,
        episodes: (40000, 1600000),
        rule: "An episode is a random session among 1 to 8 peers, each running either this build or the reference copy of the release with the same protocol number, with a follower on the other one; all get edits, anchors and encoded replicas serialized by either of the two, and all outputs of peer and follower are compared; non-trivial if at least ten edits were made. Distinct episodes are told apart by a hash of the edits.",
        tune: |_, _| {},
        nontrivial: |_| true,
        special: |_, _| Special::Mixed,
    },
];

pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

pub fn episode_seed(id: &str, seed: u64, idx: u64) -> u64 {
    let h = id.bytes().fold(0x5eed, |a, b| mix(a ^ b as u64));
    mix(h ^ mix(seed) ^ mix(idx.wrapping_mul(0x9E37_79B9)))
}

pub struct Episode {
    pub res: R<()>,
    pub out: Outcome,
    pub trace: Vec<String>,
}

impl Prop {
    /// Runs one episode.  Panics if the library does.
    pub fn episode(&self, seed: u64, idx: u64, thorough: bool, verbose: bool) -> Episode {
        let s = episode_seed(self.id, seed, idx);
        let mut r = Rng::new(s);
        let res = match (self.special)(idx, thorough) {
            Special::Sim => return self.sim(&mut r, s, idx, thorough, verbose),
            Special::Marathon(n) => scen::marathon(&mut r, n),
            Special::Scale => {
                let n = r.range(30, 500);
                scen::scale(&mut r, n, false)
            },
            Special::Names => {
                let n = r.range(30, 500);
                scen::scale(&mut r, n, true)
            },
            Special::Mixed => {
                let n = if r.chance(0.01) { 8000 } else { r.range(30, 600) };
                crate::mixed::mixed(&mut r, n)
            },
            Special::Corrupt(n) => scen::corrupt(&mut r, s, n),
            Special::Malformed(n) => scen::malformed(&mut r, s, n),
            Special::Forged(n) => scen::forged(&mut r, s, n),
            Special::Big(k, n) => scen::big_backlog(k, n),
            Special::Rle => scen::rle(&mut r),
            Special::Cost => crate::cost::cost(&mut r, thorough),
        };
        match res {
            Ok(out) => Episode { res: Ok(()), out, trace: vec![] },
            Err(v) => Episode { res: if v.oracle & (self.mask | ALWAYS) != 0 { Err(v) } else { Ok(()) }, out: Outcome::default(), trace: vec![] },
        }
    }

    fn sim(&self, r: &mut Rng, s: u64, idx: u64, thorough: bool, verbose: bool) -> Episode {
        let aged = idx % (self.episodes.0 / 16).max(1) == 14 && !cfg!(miri) && self.id != "C17";
        let mut p = if aged { Profile::aged(r) } else { match r.below(if thorough { 42 } else { 60 }) {
            0..3 => Profile::deep(r, 100),
            3..6 => Profile::shred(r, 100),
            6 => Profile::crowd(r, 100),
            _ => Profile::swarm(r, 100),
        } };
        if thorough && r.chance(0.03) {
            p.steps *= 3;
        }
        if r.chance(0.12) {
            // Units of all sizes up to where the longest sessions still fit.
            p.unit = *r.pick(&[2, 3, 100, 255, 256, 257, 4096, 65535, 65536, 65537, 1 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40]);
        }
        (self.tune)(&mut p, r);
        let name = format!("{p:?}");
        let mut w = World::new(p, s, self.mask);
        w.verbose = verbose;
        let res = w.run();
        let mut out = Outcome::default();
        for (k, v) in w.st.fields() {
            if v > 0 {
                out.counters.insert(k.to_string(), v);
            }
        }
        out.hash = w.hash;
        out.nontrivial = (self.nontrivial)(&w.st);
        if verbose {
            out.sample = name;
        }
        Episode { res, out, trace: std::mem::take(&mut w.trace) }
    }
}
