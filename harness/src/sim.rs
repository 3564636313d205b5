//! A simulated network of real `cola::Replica`s, plus the oracles that watch
//! every call made on them.
//!
//! Each peer owns a real `Replica` and a plain buffer of unique character ids
//! (`Gid`s).  Everything a peer does to its buffer is dictated by the value the
//! library returned, so whatever the library gets wrong becomes visible in the
//! buffers, where it's compared with an independent record of who inserted and
//! who deleted which character, and what they knew when they did.
//!
//! One extra replica (the "shadow") integrates every insertion in creation
//! order and no deletion at all: its content is therefore the list of *all*
//! characters ever inserted, in one total order.  The oracles never pin which
//! total order the library picks, only that all observations are consistent
//! with a single one.

use crate::rng::{mix, Rng};
use crate::rep::{text_range, Replica};
use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion};
use std::collections::HashMap;
use std::ops::Range;

pub type Gid = u32;
pub const NO_EDIT: u32 = u32::MAX;

// ---------------------------------------------------------------- oracles

macro_rules! oracles {
    ($($name:ident = $bit:expr),* $(,)?) => {
        $(pub const $name: u64 = 1 << $bit;)*
        pub fn oracle_name(o: u64) -> &'static str {
            match o { $($name => stringify!($name),)* _ => "?" }
        }
    };
}

oracles! {
    O_CONV = 0,       // same edits => same text
    O_RANK = 1,       // remote insertion lands where the total order says
    O_NEIGH = 2,      // author's neighbours keep surrounding the insertion
    O_SUBSEQ = 3,     // every observed text is a subsequence of the total order
    O_DELEXACT = 4,   // a deletion removes exactly what its author deleted
    O_DELFMT = 5,     // ranges sorted, disjoint, non adjacent, non empty
    O_CONS = 6,       // final text = inserted - deleted
    O_INTERLEAVE = 7, // concurrent insertions never interleave
    O_DUP = 8,        // redelivery is a no-op
    O_EARLY = 9,      // nothing is integrated before its dependencies
    O_LATE = 10,      // an edit whose dependencies are met integrates at once
    O_DRAIN = 11,     // draining the backlog yields everything that is ready
    O_TEXT = 12,      // identity of texts: author + temporal range
    O_ANCHOR = 13,    // anchors stick to their character
    O_FORK = 14,      // forks / clones are equivalent and isolated
    O_DECODE = 15,    // encode + decode == fork
    O_SERDE = 16,     // serialized edits are equal to the originals
    O_STRUCT = 17,    // self check passes, len agrees
    O_RUNS = 18,      // internal state is bounded by the number of edits
    O_NOOP = 19,      // empty edits are inert
    O_BOUNDS = 20,    // outputs can be applied to the buffer at all
    O_ABUSE = 22,     // documented panics happen and leave no trace
    O_SCALE = 23,     // outputs scale with the lengths of the edits
    O_CORRUPT = 24,   // damaged encodings are rejected
    O_MALFORMED = 25, // malformed edits deserialize to a value or an error
    O_COST = 26,      // what calls cost doesn't grow with the history
    O_NAMES = 27,     // only the order of the ids matters
    O_COMPAT = 28,    // other builds with the same protocol number understand it
    O_LEN = 21,       // tracked length == buffer length after each call
}

/// Raised whatever property is being monitored: the output can't even be
/// applied to the caller's buffer.
pub const ALWAYS: u64 = O_BOUNDS | O_LEN;

#[derive(Debug, Clone)]
pub struct Violation {
    pub oracle: u64,
    pub msg: String,
}

pub type R<T> = Result<T, Violation>;

pub fn bad<T>(oracle: u64, msg: String) -> R<T> {
    Err(Violation { oracle, msg })
}

// ----------------------------------------------------------------- bitset

#[derive(Clone, Default, PartialEq)]
pub struct Bits(Vec<u64>);

impl Bits {
    pub fn set(&mut self, i: usize) {
        let w = i / 64;
        if self.0.len() <= w {
            self.0.resize(w + 1, 0);
        }
        self.0[w] |= 1 << (i % 64);
    }
    pub fn get(&self, i: usize) -> bool {
        self.0.get(i / 64).is_some_and(|w| w >> (i % 64) & 1 == 1)
    }
    pub fn or(&mut self, o: &Bits) {
        if self.0.len() < o.0.len() {
            self.0.resize(o.0.len(), 0);
        }
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a |= *b;
        }
    }
    /// self ⊆ o
    pub fn subset(&self, o: &Bits) -> bool {
        // What's missing is most likely recent.
        let n = self.0.len().min(o.0.len());
        self.0[n..].iter().all(|a| *a == 0)
            && self.0[..n].iter().zip(&o.0[..n]).rev().all(|(a, b)| a & !b == 0)
    }
    pub fn same(&self, o: &Bits) -> bool {
        self.subset(o) && o.subset(self)
    }
}

// ------------------------------------------------------------------ edits

#[derive(Clone)]
pub enum Body {
    Ins { ins: Insertion, gid0: Gid, len: usize, start: usize, left: Option<Gid> },
    Del { del: Deletion, ids: Vec<Gid>, tombs: Vec<Gid> },
}

#[derive(Clone)]
pub struct Edit {
    pub author: usize,
    pub body: Body,
    /// Every edit the author had received when creating this one, transitively
    /// closed.  Doesn't include the edit itself.
    pub hist: Bits,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unseen,
    Pending,
    Settled,
}

#[derive(Clone)]
pub struct Peer {
    pub rep: Replica,
    pub slot: usize,
    pub id: u64,
    pub buf: Vec<Gid>,
    /// 0 = not here yet, 1 = visible, 2 = deleted
    pub cstate: Vec<u8>,
    /// Number of characters integrated from each author.
    pub chars: Vec<usize>,
    pub st: Vec<St>,
    pub delivered: Bits,
    pub settled: Bits,
    pub hist: Bits,
    pub pending: Vec<u32>,
    pub inbox: Vec<u32>,
    pub retired: bool,
    pub cut: bool,
    pub last: Option<Gid>,
}

impl Peer {
    fn c(&self, g: Gid) -> u8 {
        self.cstate.get(g as usize).copied().unwrap_or(0)
    }
    fn set_c(&mut self, g: Gid, v: u8) {
        let g = g as usize;
        if self.cstate.len() <= g {
            self.cstate.resize(g + 1, 0);
        }
        self.cstate[g] = v;
    }
    fn nchars(&self, slot: usize) -> usize {
        self.chars.get(slot).copied().unwrap_or(0)
    }
    fn add_chars(&mut self, slot: usize, n: usize) {
        if self.chars.len() <= slot {
            self.chars.resize(slot + 1, 0);
        }
        self.chars[slot] += n;
    }
    fn st(&self, e: u32) -> St {
        self.st.get(e as usize).copied().unwrap_or(St::Unseen)
    }
    fn set_st(&mut self, e: u32, s: St) {
        let i = e as usize;
        if self.st.len() <= i {
            self.st.resize(i + 1, St::Unseen);
        }
        self.st[i] = s;
        if s == St::Settled {
            self.settled.set(i);
        }
        if s != St::Unseen {
            self.delivered.set(i);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stick {
    Start,
    End,
    /// Right after this character.
    After(Gid),
    /// Right before this character.
    Before(Gid),
}

struct Anc {
    a: Anchor,
    stick: Stick,
    by: usize,
}

#[derive(Debug, PartialEq)]
enum Out {
    Ins(Insertion),
    Del(Deletion),
    Off(Option<usize>),
    Ranges(Vec<Range<usize>>),
    Drained(Vec<(u64, Range<usize>)>, usize),
    Anc(Anchor, Option<usize>),
}

// ---------------------------------------------------------------- profile

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: String,
    pub peers: usize,
    pub max_peers: usize,
    /// How many identities there can have been.
    pub max_ids: usize,
    pub init: usize,
    /// What a character is worth to the replicas.
    pub unit: usize,
    /// How many edits the first author made before the session.
    pub age: usize,
    pub steps: usize,
    pub id_mode: usize,
    /// 0 single chars, 1 up to 4, 2 up to 30, 3 mixed with occasional 600
    pub len_mode: usize,
    /// uniform, hotspot, typing, start, end, before-own-last
    pub pos_w: [u32; 6],
    /// insert, delete, deliver, redeliver, drain, anchor, join, swap, twin, noop, syncall, cut, abuse
    pub act_w: [u32; 13],
    /// causal, fifo per sender, random, lifo, insertions first, deletions first, oldest
    pub net_w: [u32; 7],
    /// 0 never until sync, 1 after every delivery, 2 only on drain actions
    pub drain_mode: usize,
    pub partial_drain: f64,
    pub serde_p: f64,
    /// small range, backspace at last, prefix, suffix, everything, hotspot, large
    pub del_w: [u32; 7],
    pub cap: usize,
    pub struct_p: f64,
    pub single_pass: bool,
    pub burst: usize,
    /// Whether peers can join by decoding somebody's encoded state.
    pub decode_joins: bool,
    pub fork_joins: bool,
    /// Length of the sessions in which copies are compared.
    pub twin_steps: usize,
}

impl Profile {
    /// "Swarm" testing: every episode draws its own mix of knobs.
    pub fn swarm(r: &mut Rng, scale: usize) -> Self {
        let max_peers;
        let peers = match r.below(10) {
            0 => 1,
            1..=3 => 2,
            4..=6 => 3,
            7..=8 => r.range(4, 6),
            _ => r.range(7, 12),
        };
        max_peers = peers + [0, 1, 3, 8][r.below(4)];
        let init = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => r.range(2, 8),
            3 | 4 => r.range(10, 60),
            _ => r.range(100, 400),
        };
        let steps = match r.below(8) {
            0..=3 => r.range(20, 120),
            4..=6 => r.range(120, 600),
            _ => r.range(600, 2400),
        } * scale
            / 100;
        let mut pos_w = [0; 6];
        for w in pos_w.iter_mut() {
            *w = [0, 1, 1, 3, 10][r.below(5)];
        }
        pos_w[r.below(6)] += 4;
        let mut act_w = [
            *r.pick(&[10, 20, 40]),
            *r.pick(&[0, 5, 10, 30]),
            *r.pick(&[5, 20, 40, 80]),
            *r.pick(&[0, 0, 2, 8]),
            *r.pick(&[1, 3, 10]),
            *r.pick(&[0, 2, 5]),
            *r.pick(&[0, 0, 1]),
            *r.pick(&[0, 0, 1]),
            0,
            *r.pick(&[0, 1]),
            *r.pick(&[0, 0, 1]),
            *r.pick(&[0, 0, 1]),
            0,
        ];
        if max_peers == 1 {
            act_w[2] = 1;
        }
        let mut net_w = [0; 7];
        for w in net_w.iter_mut() {
            *w = [0, 0, 1, 5][r.below(4)];
        }
        net_w[r.below(7)] += 3;
        let mut del_w = [0; 7];
        for w in del_w.iter_mut() {
            *w = [0, 1, 4, 8][r.below(4)];
        }
        del_w[4] = del_w[4].min(1);
        del_w[0] += 2;
        Profile {
            name: "swarm".into(),
            peers,
            max_peers,
            max_ids: 40,
            init,
            unit: 1,
            age: 0,
            steps: steps.max(10),
            id_mode: r.below(6),
            len_mode: r.below(4),
            pos_w,
            act_w,
            net_w,
            drain_mode: r.below(3),
            partial_drain: *r.pick(&[0.0, 0.0, 0.3, 0.8]),
            serde_p: *r.pick(&[0.0, 0.0, 0.3]),
            del_w,
            cap: *r.pick(&[30, 200, 2000]),
            struct_p: 0.0,
            single_pass: true,
            burst: *r.pick(&[1, 1, 2, 6, 20]),
            decode_joins: true,
            fork_joins: true,
            twin_steps: 25,
        }
    }

    /// A session long enough for the internal trees to be several levels deep.
    pub fn deep(r: &mut Rng, scale: usize) -> Self {
        let mut p = Self::swarm(r, 100);
        p.name = "deep".into();
        p.peers = r.range(2, 4);
        p.max_peers = p.peers + 1;
        p.steps = r.range(3000, 6000) * scale / 100;
        p.len_mode = *r.pick(&[0, 1, 2]);
        p.cap = *r.pick(&[3000, 20000]);
        p.init = *r.pick(&[0, 50, 2000]);
        p.pos_w = *r.pick(&[
            [20, 3, 2, 1, 1, 1],
            [20, 0, 0, 0, 0, 0],
            [2, 20, 2, 1, 1, 1],
            [5, 5, 20, 2, 2, 5],
            [1, 0, 3, 20, 0, 0],
        ]);
        p.act_w[0] = 40;
        p.act_w[1] = *r.pick(&[5, 15, 25]);
        p.act_w[2] = *r.pick(&[40, 60]);
        p.act_w[10] = 0;
        p.act_w[11] = 0;
        p
    }

    /// A short session whose first author has made tens of thousands of edits
    /// before, so that its counters outgrow 16 bits before or in the middle.
    pub fn aged(r: &mut Rng) -> Self {
        let mut p = Self::swarm(r, 100);
        p.name = "aged".into();
        p.age = (1 << 16) + r.below(30) - *r.pick(&[20, 60, 200]);
        p.peers = r.range(2, 3);
        p.max_peers = p.peers + 1;
        p.steps = r.range(60, 250);
        p.struct_p = 0.0;
        p.cap = 200;
        p.act_w[0] = 30;
        p.act_w[1] = p.act_w[1].max(10);
        p.act_w[3] = p.act_w[3].max(5);
        p
    }

    /// Few peers at a time, but people come and go.
    pub fn crowd(r: &mut Rng, scale: usize) -> Self {
        let mut p = Self::swarm(r, 100);
        p.name = "crowd".into();
        p.peers = r.range(2, 5);
        p.max_peers = p.peers + r.below(4);
        p.max_ids = r.range(150, 400);
        p.steps = r.range(1200, 2400) * scale / 100;
        p.act_w[0] = 40;
        p.act_w[1] = *r.pick(&[10, 20]);
        p.act_w[2] = *r.pick(&[60, 120]);
        p.act_w[6] = *r.pick(&[20, 40]);
        p.act_w[10] = 0;
        p.act_w[11] = 0;
        p.burst = *r.pick(&[1, 1, 2]);
        p
    }

    /// A document built by one author in one go and then chopped to pieces.
    pub fn shred(r: &mut Rng, scale: usize) -> Self {
        let mut p = Self::swarm(r, 100);
        p.name = "shred".into();
        p.peers = r.range(2, 3);
        p.max_peers = p.peers + 1;
        p.init = r.range(500, 3000);
        p.steps = r.range(400, 1800) * scale / 100;
        p.len_mode = *r.pick(&[0, 1]);
        p.pos_w = [20, 2, 1, 0, 0, 0];
        p.del_w = [20, 1, 0, 0, 0, 2, 1];
        p.act_w[0] = *r.pick(&[0, 5, 20]);
        p.act_w[1] = 40;
        p.act_w[2] = *r.pick(&[20, 60]);
        p.cap = 100_000;
        p
    }
}

// ------------------------------------------------------------------ stats

macro_rules! stats {
    ($($f:ident),* $(,)?) => {
        #[derive(Default, Clone, Debug)]
        pub struct Stats { $(pub $f: u64),* }
        impl Stats {
            pub fn fields(&self) -> Vec<(&'static str, u64)> {
                vec![$((stringify!($f), self.$f)),*]
            }
        }
    };
}

stats! {
    calls, local_insertions, local_deletions, remote_insertions,
    remote_deletions, held, yielded_insertions, yielded_deletions,
    redelivered, redelivered_while_held, multi_range_deletions,
    empty_remote_deletions, concurrent_same_gap, anchors_created,
    anchors_resolved, anchors_to_deleted, anchors_unknown, joins_fork,
    joins_decode, joins_with_backlog, clones, serde_roundtrips,
    convergence_comparisons, subsequence_checks, twin_ops, partial_drains,
    noop_edits, struct_checks, printed, contiguity_pairs, contiguity_foreign,
    must_merge_obligations, max_runs_sum, chars_inserted, chars_deleted,
    splits_of_foreign_runs, syncs, misuses, fork_sessions, decode_sessions,
    runs_checked, encoded_bytes, concurrent_neighbours, runs_allowed_sum,
    heap_bytes, largest_heap_permille, largest_encoded_permille,
    tombs_removed, largest_deletion_ranges, largest_backlog, largest_num_runs, largest_num_authors,
    largest_num_edits, largest_text,
}

// ------------------------------------------------------------------ world

pub struct World {
    pub prof: Profile,
    pub rng: Rng,
    pub mask: u64,
    pub edits: Vec<Edit>,
    pub ids: Vec<u64>,
    pub slot_of: HashMap<u64, usize>,
    pub author_gids: Vec<Vec<Gid>>,
    pub char_edit: Vec<u32>,
    pub peers: Vec<Peer>,
    pub shadow: Replica,
    pub total: Vec<Gid>,
    pos: Vec<u32>,
    pos_dirty: bool,
    anchors: Vec<Anc>,
    noops: Vec<(Insertion, Deletion)>,
    deleted: Vec<bool>,
    pub st: Stats,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub hash: u64,
    hot: f64,
    shadow_id: u64,
    early: Option<Violation>,
    /// Some of the edits made before the session.
    old: Vec<(Option<Insertion>, Option<Deletion>)>,
    /// Runs there were at the start.
    age_runs: u64,
}

fn gen_id(r: &mut Rng, mode: usize, n: usize) -> u64 {
    match mode {
        0 => n as u64 + 1,
        1 => r.next() | 1,
        2 => u64::MAX - n as u64,
        3 => ((n as u64 + 1) << 32) | 7,
        4 => 1 << (n % 64),
        _ => r.below(1000) as u64 + 1,
    }
}

impl World {
    pub fn new(prof: Profile, seed: u64, mask: u64) -> Self {
        let mut rng = Rng::new(mix(seed ^ 0x5eed));
        let mut ids = vec![];
        let id0 = loop {
            let i = gen_id(&mut rng, prof.id_mode, 0);
            if i != 0 {
                break i;
            }
        };
        ids.push(id0);
        let (rep, old) = if prof.age > 0 {
            Replica::aged(id0, prof.init, prof.unit, prof.age, rng.below(3))
        } else {
            (Replica::new(id0, prof.init, prof.unit), vec![])
        };
        let age_runs = rep.num_runs() as u64;
        let gids: Vec<Gid> = (0..prof.init as u32).collect();
        let peer0 = Peer {
            rep,
            slot: 0,
            id: id0,
            buf: gids.clone(),
            cstate: vec![1; prof.init],
            chars: vec![prof.init],
            st: vec![],
            delivered: Bits::default(),
            settled: Bits::default(),
            hist: Bits::default(),
            pending: vec![],
            inbox: vec![],
            retired: false,
            cut: false,
            last: None,
        };
        // An id no peer will ever use.
        let shadow_id = 0xC0FF_EE00_DEAD_BEEF;
        let shadow = peer0.rep.fork(shadow_id);
        let hot = rng.below(1000) as f64 / 1000.0;
        let mut w = World {
            rng,
            mask: mask | ALWAYS,
            edits: vec![],
            slot_of: HashMap::from([(id0, 0)]),
            ids,
            author_gids: vec![gids.clone()],
            char_edit: vec![NO_EDIT; prof.init],
            peers: vec![peer0],
            shadow,
            total: gids,
            pos: vec![],
            pos_dirty: true,
            anchors: vec![],
            noops: vec![],
            deleted: vec![false; prof.init],
            st: Stats::default(),
            trace: vec![],
            verbose: false,
            hash: seed_free_hash(),
            hot,
            shadow_id,
            early: None,
            old,
            age_runs,
            prof,
        };
        let n = w.prof.peers;
        for _ in 1..n {
            // All the initial peers join at the start, half of them by fork
            // and half by decoding.
            let decode = w.rng.chance(0.3) && w.prof.decode_joins;
            if let Err(v) = w.join(0, decode, false) {
                w.early = Some(v);
            }
        }
        w
    }

    /// The range of a text, counting its author's characters in the session.
    fn chars_of(&self, t: &cola::Text) -> Range<usize> {
        self.chars_fn()(t)
    }

    fn chars_fn(&self) -> impl Fn(&cola::Text) -> Range<usize> + 'static {
        let (unit, age, id0) = (self.prof.unit, self.prof.age, self.ids[0]);
        move |t| {
            let r = text_range(t, unit);
            let base = if t.inserted_by() == id0 { age } else { 0 };
            r.start.wrapping_sub(base)..r.end.wrapping_sub(base)
        }
    }

    fn on(&self, o: u64) -> bool {
        self.mask & o != 0
    }

    fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.trace.push(s);
        }
    }

    fn note(&mut self, a: u64, b: u64, c: u64) {
        self.hash = mix(self.hash ^ mix(a ^ mix(b ^ mix(c))));
    }

    fn fresh_id(&mut self) -> u64 {
        loop {
            let n = self.ids.len();
            let i = gen_id(&mut self.rng, self.prof.id_mode, n);
            let i = if i == 0 || self.slot_of.contains_key(&i) {
                self.rng.next() | 2
            } else {
                i
            };
            if i != 0 && i != self.shadow_id && !self.slot_of.contains_key(&i) {
                return i;
            }
        }
    }

    fn pos(&mut self) -> &[u32] {
        if self.pos_dirty {
            self.pos.clear();
            self.pos.resize(self.char_edit.len(), u32::MAX);
            for (i, &g) in self.total.iter().enumerate() {
                self.pos[g as usize] = i as u32;
            }
            self.pos_dirty = false;
        }
        &self.pos
    }

    /// Number of visible characters of `p` that precede `g` in the total order.
    fn rank(&mut self, p: usize, g: Gid) -> usize {
        self.pos();
        let pg = self.pos[g as usize];
        let pos = &self.pos;
        self.peers[p].buf.partition_point(|&x| pos[x as usize] < pg)
    }

    fn check_len(&self, p: usize, what: &str) -> R<()> {
        if self.on(O_LEN) {
            let l = self.peers[p].rep.len();
            let b = self.peers[p].buf.len();
            if l != b {
                return bad(
                    O_LEN,
                    format!("peer {p}: after {what} the replica believes its document is {l} long but the buffer built from its outputs is {b} long"),
                );
            }
        }
        Ok(())
    }

    fn check_struct(&mut self, p: usize) -> R<()> {
        if self.on(O_STRUCT) && self.rng.chance(self.prof.struct_p) {
            self.st.struct_checks += 1;
            self.peers[p].rep.assert_invariants();
            // Printing it mustn't panic, nor loop.
            if self.rng.chance(0.02) && self.peers[p].rep.r.num_runs() < 300 {
                self.print(p);
            }
        }
        Ok(())
    }

    fn print(&mut self, p: usize) {
        let r = &self.peers[p].rep.r;
        let n = format!("{r:?}").len() + format!("{:?}", r.debug()).len() + format!("{:#?}", r.debug_as_btree()).len();
        self.st.printed += n as u64;
    }

    // ------------------------------------------------------- local edits

    pub fn local_insert(&mut self, p: usize, off: usize, len: usize) -> R<()> {
        self.st.calls += 1;
        self.st.local_insertions += 1;
        self.st.chars_inserted += len as u64;
        let e = self.edits.len() as u32;
        self.log(|| format!("e{e}: peer{p}.inserted({off}, {len})"));
        let slot = self.peers[p].slot;
        let start = self.author_gids[slot].len();
        let ins = self.peers[p].rep.inserted(off, len);
        if self.on(O_TEXT) {
            let t = ins.text();
            if t.inserted_by() != self.peers[p].id
                || ins.inserted_by() != self.peers[p].id
                || self.chars_of(t) != (start..start + len)
            {
                return bad(
                    O_TEXT,
                    format!("peer {p} (id {}) inserted {len} chars after {start} earlier ones, but the insertion claims to be {:?} by {}", self.peers[p].id, t, ins.inserted_by()),
                );
            }
        }
        let gid0 = self.char_edit.len() as Gid;
        let gids: Vec<Gid> = (gid0..gid0 + len as u32).collect();
        self.char_edit.resize(self.char_edit.len() + len, e);
        self.deleted.resize(self.char_edit.len(), false);
        self.author_gids[slot].extend_from_slice(&gids);
        let peer = &mut self.peers[p];
        let left = (off > 0).then(|| peer.buf[off - 1]);
        let right = peer.buf.get(off).copied();
        peer.buf.splice(off..off, gids.iter().copied());
        for &g in &gids {
            peer.set_c(g, 1);
        }
        peer.add_chars(slot, len);
        peer.last = gids.last().copied();
        let hist = peer.hist.clone();
        self.edits.push(Edit {
            author: slot,
            body: Body::Ins { ins: ins.clone(), gid0, len, start, left },
            hist,
        });
        let peer = &mut self.peers[p];
        peer.set_st(e, St::Settled);
        peer.hist.set(e as usize);
        self.note(1, p as u64, (off as u64) << 32 | len as u64);
        self.broadcast(p, e);
        self.check_len(p, "inserted")?;

        // The shadow has every insertion created so far.
        match self.shadow.integrate_insertion(&ins) {
            Some(o) if o <= self.total.len() => {
                self.total.splice(o..o, gids.iter().copied());
                self.pos_dirty = true;
                if self.on(O_NEIGH) {
                    self.pos();
                    if let Some(l) = left {
                        if self.pos[l as usize] >= self.pos[gid0 as usize] {
                            return bad(O_NEIGH, format!("peer {p} inserted e{e} after character {l}, but a replica with all the insertions puts it before"));
                        }
                    }
                    if let Some(r) = right {
                        if self.pos[r as usize] < self.pos[gid0 as usize] {
                            return bad(O_NEIGH, format!("peer {p} inserted e{e} before character {r}, but a replica with all the insertions puts it after"));
                        }
                    }
                    let between = match (left, right) {
                        (l, r) => {
                            let a = l.map_or(0, |l| self.pos[l as usize] as usize + 1);
                            let b = r.map_or(self.total.len(), |r| self.pos[r as usize] as usize);
                            b - a
                        },
                    };
                    if between > len {
                        self.st.concurrent_same_gap += 1;
                    }
                }
            },
            Some(o) => {
                return bad(O_BOUNDS, format!("shadow: insertion e{e} integrated at offset {o} but the document is only {} long", self.total.len()));
            },
            None => {
                return bad(O_LATE | O_BOUNDS, format!("a replica that has every earlier insertion didn't integrate e{e}"));
            },
        }
        self.check_struct(p)
    }

    pub fn local_delete(&mut self, p: usize, a: usize, b: usize) -> R<()> {
        assert!(a < b);
        self.st.calls += 1;
        self.st.local_deletions += 1;
        self.st.chars_deleted += (b - a) as u64;
        let e = self.edits.len() as u32;
        self.log(|| format!("e{e}: peer{p}.deleted({a}..{b})"));
        let n = self.peers[p].buf.len();
        let form = self.rng.below(6);
        let rep = &mut self.peers[p].rep;
        use std::ops::Bound::*;
        let del = match form {
            0 if a == 0 => rep.deleted(..b),
            1 if b == n => rep.deleted(a..),
            2 => rep.deleted(a..=b - 1),
            3 if a == 0 && b == n => rep.deleted(..),
            4 if a > 0 => rep.deleted((Excluded(a - 1), Excluded(b))),
            _ => rep.deleted(a..b),
        };
        if self.on(O_TEXT) && del.deleted_by() != self.peers[p].id {
            return bad(O_TEXT, format!("peer {p} (id {}) produced a deletion by {}", self.peers[p].id, del.deleted_by()));
        }
        let ids: Vec<Gid> = self.peers[p].buf[a..b].to_vec();
        // Characters the author knew to be deleted already and that sit among
        // the ones it deletes now. A deletion carries how much of each of the
        // deleted characters' authors its own author had seen, so those of
        // them that are by the same authors are covered by it too.
        self.pos();
        let (x, y) = {
            let f = self.pos[ids[0] as usize] as usize;
            let l = self.pos[*ids.last().unwrap() as usize] as usize;
            (f.min(l), f.max(l))
        };
        let peer = &self.peers[p];
        let mut tombs: Vec<Gid> =
            self.total[x..=y].iter().copied().filter(|&g| peer.c(g) == 2).collect();
        if !tombs.is_empty() {
            let mut authors: Vec<usize> = ids.iter().map(|&g| self.author_of(g)).chain([peer.slot]).collect();
            authors.sort_unstable();
            authors.dedup();
            tombs.retain(|&g| authors.binary_search(&self.author_of(g)).is_ok());
        }
        tombs.sort_unstable();
        for &g in &ids {
            self.deleted[g as usize] = true;
        }
        let slot = peer.slot;
        let hist = peer.hist.clone();
        self.edits.push(Edit { author: slot, body: Body::Del { del, ids: ids.clone(), tombs }, hist });
        let peer = &mut self.peers[p];
        peer.buf.drain(a..b);
        for &g in &ids {
            peer.set_c(g, 2);
        }
        peer.set_st(e, St::Settled);
        peer.hist.set(e as usize);
        self.note(2, p as u64, (a as u64) << 32 | b as u64);
        self.broadcast(p, e);
        self.check_len(p, "deleted")?;
        self.check_struct(p)
    }

    fn broadcast(&mut self, from: usize, e: u32) {
        for (i, q) in self.peers.iter_mut().enumerate() {
            if i != from && !q.retired {
                q.inbox.push(e);
            }
        }
    }

    // ---------------------------------------------------------- delivery

    fn through_serde_ins(&mut self, ins: &Insertion) -> R<Insertion> {
        self.st.serde_roundtrips += 1;
        let out: Insertion = if self.rng.chance(0.5) {
            match serde_json::to_vec(ins).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
                Ok(x) => x,
                Err(e) => return bad(O_SERDE | O_BOUNDS, format!("insertion {ins:?} doesn't survive JSON: {e}")),
            }
        } else {
            match bin_roundtrip(ins) {
                Ok(x) => x,
                Err(e) => return bad(O_SERDE | O_BOUNDS, format!("insertion {ins:?} doesn't survive bincode: {e}")),
            }
        };
        if self.on(O_SERDE) && out != *ins {
            return bad(O_SERDE, format!("insertion {ins:?} became {out:?} after a serialization roundtrip"));
        }
        Ok(out)
    }

    fn through_serde_del(&mut self, del: &Deletion) -> R<Deletion> {
        self.st.serde_roundtrips += 1;
        let out: Deletion = if self.rng.chance(0.5) {
            match serde_json::to_vec(del).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
                Ok(x) => x,
                Err(e) => return bad(O_SERDE | O_BOUNDS, format!("deletion {del:?} doesn't survive JSON: {e}")),
            }
        } else {
            match bin_roundtrip(del) {
                Ok(x) => x,
                Err(e) => return bad(O_SERDE | O_BOUNDS, format!("deletion {del:?} doesn't survive bincode: {e}")),
            }
        };
        if self.on(O_SERDE) && out != *del {
            return bad(O_SERDE, format!("deletion {del:?} became {out:?} after a serialization roundtrip"));
        }
        Ok(out)
    }

    pub fn deliver(&mut self, p: usize, e: u32) -> R<()> {
        let again = self.peers[p].st(e);
        self.st.calls += 1;
        let edit = self.edits[e as usize].clone();
        let must = edit.hist.subset(&self.peers[p].settled);
        if must {
            self.st.must_merge_obligations += 1;
        }
        if again != St::Settled {
            let peer = &mut self.peers[p];
            peer.hist.or(&edit.hist);
            peer.hist.set(e as usize);
            peer.delivered.set(e as usize);
        }
        match edit.body {
            Body::Ins { ins, .. } => {
                let ins = if self.rng.chance(self.prof.serde_p) { self.through_serde_ins(&ins)? } else { ins };
                let got = self.peers[p].rep.integrate_insertion(&ins);
                self.log(|| format!("peer{p}.integrate_insertion(e{e}) = {got:?} [was {again:?}]"));
                self.note(3, p as u64, got.map_or(u64::MAX, |x| x as u64));
                match (got, again) {
                    (None, St::Settled) => {},
                    (Some(o), St::Settled) => {
                        return bad(O_DUP | O_BOUNDS, format!("peer {p}: insertion e{e} was already integrated, yet redelivering it returned Some({o})"));
                    },
                    (Some(o), _) => {
                        self.peers[p].pending.retain(|&x| x != e);
                        self.apply_insertion(p, e, o)?;
                        self.st.remote_insertions += 1;
                    },
                    (None, s) => {
                        if must && self.on(O_LATE) {
                            return bad(O_LATE, format!("peer {p} has integrated everything insertion e{e} depends on, yet integrate_insertion returned None"));
                        }
                        if s == St::Unseen {
                            self.peers[p].pending.push(e);
                            self.peers[p].set_st(e, St::Pending);
                        }
                        self.st.held += 1;
                    },
                }
            },
            Body::Del { del, .. } => {
                let del = if self.rng.chance(self.prof.serde_p) { self.through_serde_del(&del)? } else { del };
                let got = self.peers[p].rep.integrate_deletion(&del);
                self.log(|| format!("peer{p}.integrate_deletion(e{e}) = {got:?} [was {again:?}]"));
                self.note(4, p as u64, got.first().map_or(0, |x| x.start as u64 + 1));
                if again == St::Settled {
                    if !got.is_empty() {
                        return bad(O_DUP | O_BOUNDS, format!("peer {p}: deletion e{e} was already integrated, yet redelivering it returned {got:?}"));
                    }
                } else if got.is_empty() {
                    if must {
                        // Everything's there: either it has been integrated or
                        // it should have been.
                        if self.on(O_LATE | O_DELEXACT) {
                            if let Some(g) = self.visible_of(p, e) {
                                return bad(O_LATE | O_DELEXACT, format!("peer {p} has integrated everything deletion e{e} depends on, yet integrate_deletion returned nothing and character {g} is still there"));
                            }
                        }
                        self.peers[p].pending.retain(|&x| x != e);
                        self.peers[p].set_st(e, St::Settled);
                        self.st.empty_remote_deletions += 1;
                    } else {
                        if again == St::Unseen {
                            self.peers[p].pending.push(e);
                            self.peers[p].set_st(e, St::Pending);
                            let held = self.peers[p].pending.len() as u64;
                            self.st.largest_backlog = self.st.largest_backlog.max(held);
                        }
                        self.st.held += 1;
                    }
                } else {
                    self.peers[p].pending.retain(|&x| x != e);
                    self.apply_deletion(p, Some(e), &got)?;
                    self.peers[p].set_st(e, St::Settled);
                    self.st.remote_deletions += 1;
                }
            },
        }
        self.check_len(p, "integrating a remote edit")?;
        self.check_struct(p)
    }

    fn visible_of(&self, p: usize, e: u32) -> Option<Gid> {
        let Body::Del { ids, .. } = &self.edits[e as usize].body else { unreachable!() };
        ids.iter().copied().find(|&g| self.peers[p].c(g) == 1)
    }

    fn apply_insertion(&mut self, p: usize, e: u32, off: usize) -> R<()> {
        let Body::Ins { gid0, len, start, left, .. } = self.edits[e as usize].body else { unreachable!() };
        let author = self.edits[e as usize].author;
        let n = self.peers[p].buf.len();
        if off > n {
            return bad(O_BOUNDS, format!("peer {p}: insertion e{e} integrated at offset {off} but the buffer is {n} long"));
        }
        if self.on(O_EARLY) {
            if self.peers[p].nchars(author) != start {
                return bad(O_EARLY, format!("peer {p} integrated insertion e{e} (chars {start}.. of author {author}) but only has the first {} characters of that author", self.peers[p].nchars(author)));
            }
            if let Some(l) = left {
                if self.peers[p].c(l) == 0 {
                    return bad(O_EARLY, format!("peer {p} integrated insertion e{e} but not the character {l} it was typed after"));
                }
            }
        }
        if self.on(O_RANK) {
            let want = self.rank(p, gid0);
            if want != off {
                return bad(O_RANK, format!("peer {p}: insertion e{e} integrated at offset {off}; the order of characters seen by the other replicas puts it at {want} (buffer length {n})"));
            }
        }
        let peer = &mut self.peers[p];
        if off > 0 && off < n {
            let (l, r) = (peer.buf[off - 1], peer.buf[off]);
            if r == l + 1 && self.char_edit[l as usize] == self.char_edit[r as usize] {
                self.st.splits_of_foreign_runs += 1;
            }
        }
        peer.buf.splice(off..off, gid0..gid0 + len as u32);
        for g in gid0..gid0 + len as u32 {
            peer.set_c(g, 1);
        }
        peer.add_chars(author, len);
        peer.set_st(e, St::Settled);
        Ok(())
    }

    /// Applies the ranges produced by integrating deletion `e`, or one of the
    /// held ones if `e` is `None`.
    fn apply_deletion(&mut self, p: usize, e: Option<u32>, ranges: &[Range<usize>]) -> R<()> {
        let n = self.peers[p].buf.len();
        self.st.largest_deletion_ranges = self.st.largest_deletion_ranges.max(ranges.len() as u64);
        if self.on(O_DELFMT) {
            let ok = ranges.iter().all(|r| r.start < r.end)
                && ranges.windows(2).all(|w| w[0].end < w[1].start);
            if !ok || ranges.is_empty() {
                return bad(O_DELFMT, format!("peer {p}: deletion {e:?} produced {ranges:?}, which aren't non-empty, sorted, disjoint and non-adjacent"));
            }
        }
        let mut prev = 0;
        for r in ranges {
            if r.start < prev || r.start > r.end || r.end > n {
                return bad(O_BOUNDS, format!("peer {p}: deletion {e:?} produced {ranges:?}, which can't be applied to a buffer of length {n}"));
            }
            prev = r.end;
        }
        let mut removed = vec![];
        for r in ranges {
            removed.extend_from_slice(&self.peers[p].buf[r.clone()]);
        }
        if ranges.len() > 1 {
            self.st.multi_range_deletions += 1;
        }
        if self.on(O_DELEXACT | O_EARLY) {
            match e {
                Some(e) => {
                    if let Err(why) = self.del_matches(p, e, &removed) {
                        return bad(why.0, format!("peer {p}: deletion e{e} produced {ranges:?}: {}", why.1));
                    }
                    let Body::Del { ids, .. } = &self.edits[e as usize].body else { unreachable!() };
                    self.st.tombs_removed += removed.iter().filter(|g| !ids.contains(g)).count() as u64;
                },
                None => {
                    let pend: Vec<u32> = self.peers[p].pending.iter().copied().filter(|&x| matches!(self.edits[x as usize].body, Body::Del { .. })).collect();
                    let mut whys = vec![];
                    let mut found = false;
                    for x in pend {
                        // A cheap way to rule most of them out.
                        if let (Body::Del { ids, tombs, .. }, Some(g), true) = (&self.edits[x as usize].body, removed.first(), self.mask & O_DELEXACT != 0) {
                            if !ids.contains(g) && tombs.binary_search(g).is_err() {
                                continue;
                            }
                        }
                        match self.del_matches(p, x, &removed) {
                            Ok(()) => {
                                found = true;
                                break;
                            },
                            Err(w) if whys.len() < 5 => whys.push((x, w)),
                            Err(_) => {},
                        }
                    }
                    if !found {
                        return bad(O_DELEXACT | O_DRAIN, format!("peer {p}: the backlog yielded {ranges:?}, which is the effect of none of the held deletions: {whys:?}"));
                    }
                },
            }
        }
        for r in ranges.iter().rev() {
            self.peers[p].buf.drain(r.clone());
        }
        for g in removed {
            self.peers[p].set_c(g, 2);
        }
        Ok(())
    }

    fn author_of(&self, g: Gid) -> usize {
        self.edits.get(self.char_edit[g as usize] as usize).map_or(0, |e| e.author)
    }

    fn del_matches(&self, p: usize, e: u32, removed: &[Gid]) -> Result<(), (u64, String)> {
        let Body::Del { ids, tombs, .. } = &self.edits[e as usize].body else { unreachable!() };
        let peer = &self.peers[p];
        let mut sorted: Vec<Gid> = removed.to_vec();
        sorted.sort_unstable();
        let mut want: Vec<Gid> = ids.clone();
        want.sort_unstable();
        for &g in ids {
            match peer.c(g) {
                0 if self.mask & O_EARLY != 0 => {
                    return Err((O_EARLY, format!("it was integrated although character {g}, which it deletes, isn't here yet")));
                },
                1 if sorted.binary_search(&g).is_err() => {
                    return Err((O_DELEXACT, format!("it spared visible character {g}, which its author deleted")));
                },
                _ => {},
            }
        }
        if self.mask & O_DELEXACT != 0 {
            for &g in &sorted {
                if want.binary_search(&g).is_err() && tombs.binary_search(&g).is_err() {
                    return Err((O_DELEXACT, format!("it removed character {g}, which its author didn't delete")));
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------- drain

    fn drain_insertions(&mut self, p: usize, limit: usize) -> R<usize> {
        self.st.calls += 1;
        let mut iter = self.peers[p].rep.backlogged_insertions();
        let got: Vec<(cola::Text, usize)> = iter.by_ref().take(limit).collect();
        if got.len() < limit {
            if let Some(x) = iter.next() {
                return bad(O_DRAIN, format!("peer {p}: the backlogged insertions went on with {x:?} after having ended"));
            }
        }
        drop(iter);
        let n = got.len();
        if n > 0 {
            self.log(|| format!("peer{p}.backlogged_insertions() = {got:?}"));
        }
        for (text, off) in got {
            self.note(5, p as u64, off as u64);
            let r = self.chars_of(&text);
            let found = self.slot_of.get(&text.inserted_by()).and_then(|&slot| {
                self.peers[p].pending.iter().copied().find(|&e| {
                    let ed = &self.edits[e as usize];
                    ed.author == slot
                        && matches!(ed.body, Body::Ins { start, len, .. } if (start..start + len) == r)
                })
            });
            let Some(e) = found else {
                return bad(O_DRAIN | O_DUP | O_BOUNDS, format!("peer {p}: the backlog yielded {text:?} at {off}, which isn't one of the insertions being held"));
            };
            self.peers[p].pending.retain(|&x| x != e);
            self.apply_insertion(p, e, off)?;
            self.st.yielded_insertions += 1;
        }
        self.check_len(p, "draining insertions")?;
        Ok(n)
    }

    fn drain_deletions(&mut self, p: usize, limit: usize) -> R<usize> {
        self.st.calls += 1;
        let mut iter = self.peers[p].rep.backlogged_deletions();
        let got: Vec<Vec<Range<usize>>> = iter.by_ref().take(limit).collect();
        if got.len() < limit {
            if let Some(x) = iter.next() {
                return bad(O_DRAIN, format!("peer {p}: the backlogged deletions went on with {x:?} after having ended"));
            }
        }
        drop(iter);
        let n = got.len();
        if n > 0 {
            self.log(|| format!("peer{p}.backlogged_deletions() = {got:?}"));
        }
        for ranges in got {
            self.note(6, p as u64, ranges.first().map_or(0, |r| r.start as u64 + 1));
            self.apply_deletion(p, None, &ranges)?;
            self.st.yielded_deletions += 1;
        }
        self.check_len(p, "draining deletions")?;
        Ok(n)
    }

    pub fn drain(&mut self, p: usize) -> R<()> {
        if self.rng.chance(self.prof.partial_drain) {
            self.st.partial_drains += 1;
            let k = self.rng.below(3);
            if self.rng.chance(0.7) {
                self.drain_insertions(p, k)?;
            } else {
                self.drain_deletions(p, k)?;
            }
            return self.check_struct(p);
        }
        if self.prof.single_pass {
            self.drain_insertions(p, usize::MAX)?;
            self.drain_deletions(p, usize::MAX)?;
        } else {
            loop {
                let a = self.drain_insertions(p, usize::MAX)?;
                let b = self.drain_deletions(p, usize::MAX)?;
                if a + b == 0 {
                    break;
                }
            }
        }
        // Everything whose whole history has been delivered must have been
        // integrated by now.
        let pend = self.peers[p].pending.clone();
        let mut settle = vec![];
        for e in pend {
            if self.edits[e as usize].hist.subset(&self.peers[p].delivered) {
                self.st.must_merge_obligations += 1;
                match &self.edits[e as usize].body {
                    Body::Ins { .. } => {
                        if self.on(O_DRAIN) {
                            return bad(O_DRAIN, format!("peer {p} received insertion e{e} and everything it depends on, and drained its backlog, yet never got it back"));
                        }
                    },
                    Body::Del { .. } => {
                        if let Some(g) = self.visible_of(p, e) {
                            if self.on(O_DRAIN) {
                                return bad(O_DRAIN, format!("peer {p} received deletion e{e} and everything it depends on, and drained its backlog, yet character {g} is still there"));
                            }
                        } else {
                            settle.push(e);
                        }
                    },
                }
            }
        }
        for e in settle {
            self.peers[p].pending.retain(|&x| x != e);
            self.peers[p].set_st(e, St::Settled);
        }
        self.check_struct(p)
    }

    /// Picks something from the inbox of `p` according to the network mode.
    fn pick_inbox(&mut self, p: usize) -> Option<u32> {
        let n = self.peers[p].inbox.len();
        if n == 0 {
            return None;
        }
        let mode = self.rng.weighted(&self.prof.net_w.clone());
        let i = match mode {
            0 => {
                // Causal: something whose history has been delivered.
                let start = self.rng.below(n);
                let peer = &self.peers[p];
                (start..n.min(start + 40))
                    .find(|&i| self.edits[peer.inbox[i] as usize].hist.subset(&peer.delivered))
                    .unwrap_or(0)
            },
            1 => {
                let k = self.rng.below(n);
                let a = self.edits[self.peers[p].inbox[k] as usize].author;
                let edits = &self.edits;
                self.peers[p].inbox.iter().position(|&e| edits[e as usize].author == a).unwrap()
            },
            2 => self.rng.below(n),
            3 => n - 1,
            4 | 5 => {
                let want_ins = mode == 4;
                let edits = &self.edits;
                self.peers[p]
                    .inbox
                    .iter()
                    .position(|&e| matches!(edits[e as usize].body, Body::Ins { .. }) == want_ins)
                    .unwrap_or(0)
            },
            _ => 0,
        };
        Some(self.peers[p].inbox.remove(i))
    }

    fn deliver_one(&mut self, p: usize) -> R<bool> {
        let Some(e) = self.pick_inbox(p) else { return Ok(false) };
        self.deliver(p, e)?;
        if self.prof.drain_mode == 1 {
            self.drain(p)?;
        }
        Ok(true)
    }

    fn redeliver(&mut self, p: usize) -> R<()> {
        if !self.old.is_empty() && self.rng.chance(0.6) {
            return self.redeliver_old(p);
        }
        if self.edits.is_empty() {
            return Ok(());
        }
        let e = if !self.peers[p].pending.is_empty() && self.rng.chance(0.5) {
            *self.rng.pick(&self.peers[p].pending.clone())
        } else {
            self.rng.below(self.edits.len()) as u32
        };
        let s = self.peers[p].st(e);
        if s == St::Unseen {
            return Ok(());
        }
        self.st.redelivered += 1;
        if s == St::Pending {
            self.st.redelivered_while_held += 1;
        }
        let deep = self.on(O_DUP) && self.rng.chance(0.2);
        let before = deep.then(|| self.peers[p].rep.encode());
        self.deliver(p, e)?;
        if let (Some(b), St::Settled) = (before, s) {
            if self.peers[p].rep.encode() != b {
                return bad(O_DUP, format!("peer {p}: redelivering the already integrated edit e{e} changed the replica's state"));
            }
        }
        Ok(())
    }

    /// Delivers an edit made before the session, which everyone has.
    fn redeliver_old(&mut self, p: usize) -> R<()> {
        self.st.redelivered += 1;
        let k = self.rng.below(self.old.len());
        let before = self.rng.chance(0.3).then(|| self.peers[p].rep.encode());
        let (ins, del) = self.old[k].clone();
        let rep = &mut self.peers[p].rep;
        let a = ins.as_ref().and_then(|i| rep.integrate_insertion(i));
        let b = del.as_ref().map_or(vec![], |d| rep.integrate_deletion(d));
        self.log(|| format!("peer{p} gets an old edit again: {a:?}, {b:?}"));
        if a.is_some() || !b.is_empty() {
            return bad(O_DUP | O_BOUNDS, format!("peer {p}: redelivering an edit integrated long ago gave {a:?}, {b:?}"));
        }
        if self.on(O_DUP) && before.is_some_and(|b| self.peers[p].rep.encode() != b) {
            return bad(O_DUP, format!("peer {p}: redelivering an edit integrated long ago changed the replica's state"));
        }
        self.check_len(p, "redelivering an old edit")
    }

    // -------------------------------------------------------------- join

    /// A new peer joins from the state of peer `p`.
    pub fn join(&mut self, p: usize, decode: bool, replace: bool) -> R<()> {
        let decode = if decode { self.prof.decode_joins } else { !self.prof.fork_joins };
        let id = self.fresh_id();
        let slot = self.ids.len();
        let rep = if decode {
            self.st.joins_decode += 1;
            let enc = self.peers[p].rep.encode();
            let enc = self.through_wire(&enc)?;
            match Replica::decode(id, &enc, self.prof.unit) {
                Ok(r) => r,
                Err(e) => return bad(O_DECODE | O_BOUNDS, format!("peer {p}'s replica doesn't decode: {e}")),
            }
        } else {
            self.st.joins_fork += 1;
            self.peers[p].rep.fork(id)
        };
        if !self.peers[p].pending.is_empty() {
            self.st.joins_with_backlog += 1;
        }
        self.log(|| format!("peer{slot} (id {id}) joins from peer{p}, decode: {decode}"));
        if rep.id() != id {
            return bad(O_TEXT | O_FORK | O_DECODE, format!("asked for id {id}, got {}", rep.id()));
        }
        self.ids.push(id);
        self.slot_of.insert(id, slot);
        self.author_gids.push(vec![]);
        let mut q = self.peers[p].clone();
        q.rep = rep;
        q.id = id;
        q.slot = slot;
        q.retired = false;
        q.cut = false;
        q.last = None;
        if replace {
            self.peers[p].retired = true;
            self.peers[p].inbox.clear();
        }
        self.peers.push(q);
        self.note(7, p as u64, decode as u64);
        self.check_len(slot, "joining")?;
        self.check_struct(slot)
    }

    fn through_wire(&mut self, enc: &EncodedReplica<'static>) -> R<EncodedReplica<'static>> {
        let out = match self.rng.below(4) {
            0 => match serde_json::to_vec(enc).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice::<EncodedReplica<'static>>(&b).map_err(|e| e.to_string())) {
                Ok(x) => x,
                Err(e) => return bad(O_SERDE | O_DECODE | O_BOUNDS, format!("encoded replica doesn't survive JSON: {e}")),
            },
            1 => match bin_roundtrip(enc) {
                Ok(x) => x,
                Err(e) => return bad(O_SERDE | O_DECODE | O_BOUNDS, format!("encoded replica doesn't survive bincode: {e}")),
            },
            2 => EncodedReplica::from(enc.as_bytes().to_vec().into_boxed_slice()),
            _ => EncodedReplica::from_bytes(enc.as_ref()).to_static(),
        };
        if out != *enc || out.as_bytes() != enc.as_bytes() {
            return bad(O_SERDE | O_DECODE, "encoded replica's bytes changed in transit".into());
        }
        Ok(out)
    }

    // ------------------------------------------------------------ anchors

    fn make_anchor(&mut self, p: usize) -> R<()> {
        let n = self.peers[p].buf.len();
        let off = match self.rng.below(5) {
            0 => 0,
            1 => n,
            _ => self.rng.below(n + 1),
        };
        let bias = if self.rng.chance(0.5) { AnchorBias::Left } else { AnchorBias::Right };
        self.st.calls += 1;
        self.st.anchors_created += 1;
        let a = self.peers[p].rep.create_anchor(off, bias);
        let stick = match bias {
            AnchorBias::Left if off == 0 => Stick::Start,
            AnchorBias::Right if off == n => Stick::End,
            AnchorBias::Left => Stick::After(self.peers[p].buf[off - 1]),
            AnchorBias::Right => Stick::Before(self.peers[p].buf[off]),
        };
        self.log(|| format!("peer{p}.create_anchor({off}, {bias:?}) = {a:?}, i.e. {stick:?}"));
        let a = if self.rng.chance(0.3) {
            let b: Anchor = if self.rng.chance(0.5) {
                match serde_json::to_vec(&a).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
                    Ok(x) => x,
                    Err(e) => return bad(O_SERDE | O_ANCHOR, format!("anchor {a:?} doesn't survive JSON: {e}")),
                }
            } else {
                match bin_roundtrip(&a) {
                    Ok(x) => x,
                    Err(e) => return bad(O_SERDE | O_ANCHOR, format!("anchor {a:?} doesn't survive bincode: {e}")),
                }
            };
            if b != a && self.on(O_SERDE) {
                return bad(O_SERDE, format!("anchor {a:?} became {b:?} after a serialization roundtrip"));
            }
            b
        } else {
            a
        };
        let anc = Anc { a, stick, by: p };
        self.check_anchor_at(p, &anc)?;
        if self.anchors.len() < 48 {
            self.anchors.push(anc);
        } else {
            let i = self.rng.below(48);
            self.anchors[i] = anc;
        }
        Ok(())
    }

    fn check_anchor_at(&mut self, p: usize, anc: &Anc) -> R<()> {
        if !self.on(O_ANCHOR) {
            return Ok(());
        }
        self.st.calls += 1;
        self.st.anchors_resolved += 1;
        let got = self.peers[p].rep.resolve_anchor(anc.a);
        let want = match anc.stick {
            Stick::Start => Some(0),
            Stick::End => Some(self.peers[p].buf.len()),
            Stick::After(g) | Stick::Before(g) => match self.peers[p].c(g) {
                0 => {
                    self.st.anchors_unknown += 1;
                    None
                },
                s => {
                    let k = self.rank(p, g);
                    if s == 2 {
                        self.st.anchors_to_deleted += 1;
                    }
                    Some(k + (s == 1 && matches!(anc.stick, Stick::After(_))) as usize)
                },
            },
        };
        if got != want {
            return bad(O_ANCHOR, format!("an anchor created at peer {} sticking to {:?} resolves to {got:?} at peer {p} instead of {want:?} (buffer length {})", anc.by, anc.stick, self.peers[p].buf.len()));
        }
        Ok(())
    }

    fn check_anchors(&mut self, p: usize, k: usize) -> R<()> {
        if !self.on(O_ANCHOR) || self.anchors.is_empty() {
            return Ok(());
        }
        for _ in 0..k {
            let i = self.rng.below(self.anchors.len());
            let anc = Anc { a: self.anchors[i].a, stick: self.anchors[i].stick, by: self.anchors[i].by };
            self.check_anchor_at(p, &anc)?;
        }
        Ok(())
    }

    // -------------------------------------------------------------- twins

    /// Makes copies of `p` by fork, clone and encode/decode, and drives them
    /// with the same inputs, expecting the same outputs.
    pub fn twins(&mut self, p: usize, steps: usize) -> R<()> {
        let before = self.peers[p].rep.encode();
        let id = self.fresh_id();
        let orig = self.peers[p].rep.clone();
        let mut clone = orig.clone();
        let mut fork = orig.fork(id);
        // The original might have been touched by forking / cloning.
        if orig.encode() != before || clone.encode() != before {
            return bad(O_FORK, format!("peer {p}: a clone doesn't encode to the same bytes as the original"));
        }
        let enc = self.through_wire(&before)?;
        let mut dec = match Replica::decode(id, &enc, self.prof.unit) {
            Ok(r) => r,
            Err(e) => return bad(O_DECODE | O_BOUNDS, format!("peer {p}'s replica doesn't decode: {e}")),
        };
        if fork.id() != id || dec.id() != id || clone.id() != self.peers[p].id {
            return bad(O_FORK | O_DECODE, "wrong id".into());
        }
        if fork.len() != orig.len() || clone.len() != orig.len() {
            return bad(O_FORK, format!("fork/clone of a document of length {} has length {}/{}", orig.len(), fork.len(), clone.len()));
        }
        if dec.len() != orig.len() {
            return bad(O_DECODE, format!("decoding a document of length {} gives one of length {}", orig.len(), dec.len()));
        }
        if self.on(O_DECODE) && !dec.eq_decoded(&orig) {
            return bad(O_DECODE, format!("peer {p}: the decoded replica isn't equal to the encoded one"));
        }
        let mut inbox: Vec<u32> = self.peers[p].inbox.clone();
        let mut seen: Vec<u32> = (0..self.edits.len() as u32).filter(|&e| self.peers[p].st(e) != St::Unseen).collect();
        let anchors: Vec<Anchor> = self.anchors.iter().map(|a| a.a).collect();
        for _ in 0..steps {
            self.st.twin_ops += 1;
            let n = fork.len();
            let what = self.rng.weighted(&[6, 4, 10, 1, 3, 4, 1]);
            let (a, b): (Out, Out);
            match what {
                0 => {
                    let off = match self.rng.below(4) { 0 => 0, 1 => n, _ => self.rng.below(n + 1) };
                    let len = self.rng.range(1, 4);
                    a = Out::Ins(fork.inserted(off, len));
                    b = Out::Ins(dec.inserted(off, len));
                    // The clone does something else: its edits must not leak.
                    if clone.len() > 0 && self.rng.chance(0.5) {
                        let o = self.rng.below(clone.len());
                        let _ = clone.inserted(o, 1);
                        let _ = clone.deleted(o..clone.len());
                    }
                },
                1 => {
                    if n == 0 {
                        continue;
                    }
                    let s = self.rng.below(n);
                    let e = (s + self.rng.range(1, 6)).min(n);
                    a = Out::Del(fork.deleted(s..e));
                    b = Out::Del(dec.deleted(s..e));
                },
                2 | 3 => {
                    let e = if what == 3 && !seen.is_empty() {
                        *self.rng.pick(&seen)
                    } else if !inbox.is_empty() {
                        let i = if self.rng.chance(0.6) { 0 } else { self.rng.below(inbox.len()) };
                        let e = inbox.remove(i);
                        seen.push(e);
                        e
                    } else {
                        continue;
                    };
                    match &self.edits[e as usize].body {
                        Body::Ins { ins, .. } => {
                            a = Out::Off(fork.integrate_insertion(ins));
                            b = Out::Off(dec.integrate_insertion(ins));
                        },
                        Body::Del { del, .. } => {
                            a = Out::Ranges(fork.integrate_deletion(del));
                            b = Out::Ranges(dec.integrate_deletion(del));
                        },
                    }
                },
                4 => {
                    // The order in which independent held edits come out isn't
                    // specified, so only what came out in total is compared.
                    let f = |r: &mut Replica| {
                        let r_unit = r.k;
                        let mut texts = vec![];
                        let mut chars = 0;
                        loop {
                            let mut any = false;
                            for (t, _) in r.backlogged_insertions() {
                                texts.push((t.inserted_by(), text_range(&t, r_unit)));
                                any = true;
                            }
                            for v in r.backlogged_deletions() {
                                chars += v.iter().map(|x| x.end - x.start).sum::<usize>();
                                any = true;
                            }
                            if !any {
                                break;
                            }
                        }
                        texts.sort_by_key(|(i, r)| (*i, r.start));
                        Out::Drained(texts, chars)
                    };
                    a = f(&mut fork);
                    b = f(&mut dec);
                },
                5 => {
                    let off = self.rng.below(n + 1);
                    let bias = if self.rng.chance(0.5) { AnchorBias::Left } else { AnchorBias::Right };
                    let (x, y) = (fork.create_anchor(off, bias), dec.create_anchor(off, bias));
                    a = Out::Anc(x, fork.resolve_anchor(x));
                    b = Out::Anc(y, dec.resolve_anchor(y));
                },
                _ => {
                    if anchors.is_empty() {
                        continue;
                    }
                    let x = *self.rng.pick(&anchors);
                    a = Out::Off(fork.resolve_anchor(x));
                    b = Out::Off(dec.resolve_anchor(x));
                },
            }
            if a != b && self.on(O_DECODE) {
                return bad(O_DECODE, format!("peer {p}: given the same input (kind {what}) a fork answers {a:?} and a decoded copy {b:?}"));
            }
            if fork.len() != dec.len() && self.on(O_DECODE) {
                return bad(O_DECODE, format!("peer {p}: fork and decoded copy given the same inputs have lengths {} and {}", fork.len(), dec.len()));
            }
        }
        if self.on(O_FORK) && (orig.encode() != before || self.peers[p].rep.encode() != before) {
            return bad(O_FORK, format!("peer {p}: editing its forks and clones changed its own state"));
        }
        if self.on(O_FORK) {
            let ids = [self.fresh_id(), self.rng.next() | 3];
            let mut members = vec![orig.clone(), orig.fork(ids[0])];
            if ids[1] != ids[0] && !self.slot_of.contains_key(&ids[1]) && ids[1] != self.shadow_id {
                // A fork of a fork.
                let f = members[1].fork(ids[1]);
                members.push(f);
            }
            self.family(p, members, O_FORK, steps)?;
        }
        if self.on(O_DECODE) {
            let ids = [self.fresh_id(), self.rng.next() | 3];
            let unit = self.prof.unit;
            let dec = |id: u64, e: &EncodedReplica<'static>| match Replica::decode(id, e, unit) {
                Ok(r) => Ok(r),
                Err(e) => bad(O_DECODE | O_BOUNDS, format!("an encoded replica doesn't decode: {e}")),
            };
            let enc = orig.encode();
            let mut members = vec![orig.clone(), dec(ids[0], &enc)?];
            if ids[1] != ids[0] && !self.slot_of.contains_key(&ids[1]) && ids[1] != self.shadow_id {
                // Encoded, decoded, encoded and decoded again.
                let again = members[1].encode();
                members.push(dec(ids[1], &again)?);
            }
            self.family(p, members, O_DECODE, steps)?;
        }
        // The other direction: a second clone, driven like a fork, must answer
        // like one (their ids aside).
        self.clone_lockstep(p, orig, steps)
    }

    /// A session among copies of the same replica, each with an id of its own:
    /// whatever they do, and whatever they already held or still receive from
    /// the outside, they must understand each other and end up with the same
    /// text.
    fn family(&mut self, p: usize, mut m: Vec<Replica>, o: u64, steps: usize) -> R<()> {
        if o == O_FORK {
            self.st.fork_sessions += 1;
        } else {
            self.st.decode_sessions += 1;
        }
        type Tok = (u64, usize);
        let mut tok: HashMap<Gid, Tok> = HashMap::new();
        for (slot, gids) in self.author_gids.iter().enumerate() {
            for (i, &g) in gids.iter().enumerate() {
                tok.insert(g, (self.ids[slot], i));
            }
        }
        let start: Vec<Tok> = self.peers[p].buf.iter().map(|g| tok[g]).collect();
        let mut bufs: Vec<Vec<Tok>> = vec![start; m.len()];
        enum E {
            I(Insertion),
            D(Deletion),
        }
        let mut log: Vec<(usize, E)> = vec![];
        // Everybody also gets what the original was still to receive.
        for &e in &self.peers[p].inbox {
            match &self.edits[e as usize].body {
                Body::Ins { ins, .. } => log.push((usize::MAX, E::I(ins.clone()))),
                Body::Del { del, .. } => log.push((usize::MAX, E::D(del.clone()))),
            }
        }
        let chars_of = self.chars_fn();
        let splice = |b: &mut Vec<Tok>, text: &cola::Text, off: usize| -> R<()> {
            if off > b.len() {
                return bad(o | O_BOUNDS, format!("a copy integrated {text:?} at {off} in a text of length {}", b.len()));
            }
            b.splice(off..off, chars_of(text).map(|i| (text.inserted_by(), i)));
            Ok(())
        };
        let cut = |b: &mut Vec<Tok>, rs: &[Range<usize>]| -> R<()> {
            for r in rs.iter().rev() {
                if r.start > r.end || r.end > b.len() {
                    return bad(o | O_BOUNDS, format!("a copy produced {rs:?} for a text of length {}", b.len()));
                }
                b.drain(r.clone());
            }
            Ok(())
        };
        let who = self.rng.range(1, m.len());
        for _ in 0..steps {
            self.st.twin_ops += 1;
            let k = (who + self.rng.below(m.len())) % m.len();
            let n = m[k].len();
            if n != bufs[k].len() {
                return bad(o | O_LEN, format!("copy {k} of peer {p} says its text is {n} long instead of {}", bufs[k].len()));
            }
            if self.rng.chance(0.7) || n == 0 {
                let off = match self.rng.below(4) { 0 => 0, 1 => n, _ => self.rng.below(n + 1) };
                let ins = m[k].inserted(off, self.rng.range(1, 3));
                splice(&mut bufs[k], ins.text(), off)?;
                log.push((k, E::I(ins)));
            } else {
                let s = self.rng.below(n);
                let e = (s + self.rng.range(1, 6)).min(n);
                let del = m[k].deleted(s..e);
                cut(&mut bufs[k], &[s..e])?;
                log.push((k, E::D(del)));
            }
        }
        for k in 0..m.len() {
            let mut idx: Vec<usize> = (0..log.len()).filter(|&i| log[i].0 != k).collect();
            if self.rng.chance(0.5) {
                for i in (1..idx.len()).rev() {
                    let j = self.rng.below(i + 1);
                    idx.swap(i, j);
                }
            }
            for i in idx {
                match &log[i].1 {
                    E::I(ins) => {
                        if let Some(off) = m[k].integrate_insertion(ins) {
                            splice(&mut bufs[k], ins.text(), off)?;
                        }
                    },
                    E::D(del) => {
                        let rs = m[k].integrate_deletion(del);
                        cut(&mut bufs[k], &rs)?;
                    },
                }
            }
            loop {
                let ins: Vec<_> = m[k].backlogged_insertions().collect();
                for (text, off) in &ins {
                    splice(&mut bufs[k], text, *off)?;
                }
                let del: Vec<_> = m[k].backlogged_deletions().collect();
                for rs in &del {
                    cut(&mut bufs[k], rs)?;
                }
                if ins.is_empty() && del.is_empty() {
                    break;
                }
            }
        }
        for k in 0..m.len() {
            if m[k].len() != bufs[k].len() {
                return bad(o | O_LEN, format!("copy {k} of peer {p} says its text is {} long instead of {}", m[k].len(), bufs[k].len()));
            }
            if bufs[k] != bufs[0] {
                let i = bufs[k].iter().zip(&bufs[0]).position(|(a, b)| a != b).unwrap_or(bufs[k].len().min(bufs[0].len()));
                return bad(o, format!("copies 0 and {k} of peer {p} exchanged all their edits but their texts differ from offset {i} on (lengths {} and {})", bufs[0].len(), bufs[k].len()));
            }
        }
        Ok(())
    }

    /// A clone and its original, and a fork, driven in lockstep by remote edits
    /// only.
    fn clone_lockstep(&mut self, p: usize, mut orig: Replica, steps: usize) -> R<()> {
        if !self.on(O_FORK) {
            return Ok(());
        }
        let id = self.fresh_id();
        let mut clone = orig.clone();
        let mut fork = orig.fork(id);
        let mut inbox: Vec<u32> = self.peers[p].inbox.clone();
        for _ in 0..steps.min(inbox.len() * 2) {
            if inbox.is_empty() {
                break;
            }
            let i = if self.rng.chance(0.6) { 0 } else { self.rng.below(inbox.len()) };
            let e = inbox.remove(i);
            self.st.twin_ops += 1;
            let (a, b, c) = match &self.edits[e as usize].body {
                Body::Ins { ins, .. } => (
                    format!("{:?}", orig.integrate_insertion(ins)),
                    format!("{:?}", clone.integrate_insertion(ins)),
                    format!("{:?}", fork.integrate_insertion(ins)),
                ),
                Body::Del { del, .. } => (
                    format!("{:?}", orig.integrate_deletion(del)),
                    format!("{:?}", clone.integrate_deletion(del)),
                    format!("{:?}", fork.integrate_deletion(del)),
                ),
            };
            if a != b || a != c {
                return bad(O_FORK, format!("peer {p}: integrating e{e} gives {a} at the original, {b} at a clone and {c} at a fork of it"));
            }
            if self.rng.chance(0.2) {
                for r in [&mut orig, &mut clone, &mut fork] {
                    while r.backlogged_insertions().count() + r.backlogged_deletions().count() > 0 {}
                }
            }
            if orig.len() != clone.len() || orig.len() != fork.len() {
                return bad(O_FORK, format!("peer {p}: after integrating the same edits the original, a clone and a fork have lengths {}, {}, {}", orig.len(), clone.len(), fork.len()));
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- noops

    /// Edits with no effect, made by `p` and received by someone, at once or
    /// much later.
    fn noop(&mut self, p: usize) -> R<()> {
        self.st.noop_edits += 1;
        let n = self.peers[p].buf.len();
        let off = self.rng.below(n + 1);
        let before = self.peers[p].rep.encode();
        let ins = self.peers[p].rep.inserted(off, 0);
        let del = if off == n && self.rng.chance(0.5) {
            self.peers[p].rep.deleted(off..)
        } else if off == 0 && self.rng.chance(0.5) {
            self.peers[p].rep.deleted(..off)
        } else if off > 0 && self.rng.chance(0.3) {
            self.peers[p].rep.deleted(off..=off - 1)
        } else {
            self.peers[p].rep.deleted(off..off)
        };
        if self.on(O_NOOP) && self.peers[p].rep.encode() != before {
            return bad(O_NOOP, format!("peer {p}: an empty edit at {off} changed its author's state"));
        }
        self.check_len(p, "an empty edit")?;
        let (ins, del) = (self.through_serde_ins(&ins)?, self.through_serde_del(&del)?);
        let k = self.rng.below(20);
        if self.noops.len() < 20 {
            self.noops.push((ins.clone(), del.clone()));
        } else {
            self.noops[k] = (ins.clone(), del.clone());
        }
        let q = self.live();
        self.integrate_noop(q, &ins, &del)?;
        let q = self.live();
        let k = self.rng.below(self.noops.len());
        let (ins, del) = self.noops[k].clone();
        self.integrate_noop(q, &ins, &del)
    }

    fn integrate_noop(&mut self, q: usize, ins: &Insertion, del: &Deletion) -> R<()> {
        let before = self.peers[q].rep.encode();
        let a = self.peers[q].rep.integrate_insertion(ins);
        let b = self.peers[q].rep.integrate_deletion(del);
        if self.on(O_NOOP) {
            if a.is_some() || !b.is_empty() {
                return bad(O_NOOP, format!("peer {q}: integrating empty edits returned {a:?} and {b:?}"));
            }
            if self.peers[q].rep.encode() != before {
                return bad(O_NOOP, format!("peer {q}: integrating empty edits changed the replica's state"));
            }
        }
        self.check_len(q, "integrating an empty edit")
    }

    // ------------------------------------------------------------- misuse

    /// Calls that are documented to panic must panic, and must leave the
    /// replica exactly as it was for callers that catch the panic.
    fn abuse(&mut self, p: usize) -> R<()> {
        use std::ops::Bound::*;
        use std::panic::{catch_unwind, AssertUnwindSafe};
        self.st.misuses += 1;
        let n = self.peers[p].buf.len();
        let before = self.peers[p].rep.encode();
        let far = *self.rng.pick(&[1, 1, 1, 2, 7, 1000, 1 << 33, usize::MAX - n]);
        let off = n + far;
        let k = self.rng.below(4);
        let (a, b) = {
            let b = self.rng.below(n + 1);
            let a = b + 1 + self.rng.below(n - b + 1);
            (a, b)
        };
        let kind = self.rng.below(11);
        let own = self.peers[p].id;
        let bias = if self.rng.chance(0.5) { AnchorBias::Left } else { AnchorBias::Right };
        let rep = &mut self.peers[p].rep;
        let (what, res) = match kind {
            0 => (format!("inserted({off}, {k})"), catch_unwind(AssertUnwindSafe(|| drop(rep.inserted(off, k))))),
            1 => (format!("deleted({a}..{b})"), catch_unwind(AssertUnwindSafe(|| drop(rep.deleted((Included(a), Excluded(b))))))),
            2 => (format!("deleted({b}..{off})"), catch_unwind(AssertUnwindSafe(|| drop(rep.deleted(b..off))))),
            3 => (format!("deleted({off}..)"), catch_unwind(AssertUnwindSafe(|| drop(rep.deleted(off..))))),
            4 => (format!("deleted(..={off})"), catch_unwind(AssertUnwindSafe(|| drop(rep.deleted(..=off))))),
            5 => (format!("deleted({off}..{off})"), catch_unwind(AssertUnwindSafe(|| drop(rep.deleted(off..off))))),
            6 => (format!("create_anchor({off})"), catch_unwind(AssertUnwindSafe(|| { let _ = rep.create_anchor(off, bias); }))),
            7 => ("fork(0)".into(), catch_unwind(AssertUnwindSafe(|| drop(rep.fork(0))))),
            8 => (format!("fork({own})"), catch_unwind(AssertUnwindSafe(|| drop(rep.fork(own))))),
            9 => (format!("Replica::new(0, {n})"), catch_unwind(AssertUnwindSafe(|| drop(Replica::new(0, n, 1))))),
            _ => ("Replica::decode(0, _)".into(), catch_unwind(AssertUnwindSafe(|| drop(Replica::decode(0, &before, 1))))),
        };
        self.note(8, p as u64, kind as u64);
        self.log(|| format!("peer{p}.{what} panicked: {}", res.is_err()));
        if self.on(O_ABUSE) {
            if res.is_ok() {
                return bad(O_ABUSE, format!("peer {p} (id {own}, length {n}): {what} is documented to panic but returned"));
            }
            if self.peers[p].rep.encode() != before {
                return bad(O_ABUSE, format!("peer {p} (length {n}): after the panic of {what} the replica's state has changed"));
            }
        }
        self.check_len(p, "a call that panicked")
    }

    // ------------------------------------------------------------- driver

    fn live(&mut self) -> usize {
        loop {
            let p = self.rng.below(self.peers.len());
            if !self.peers[p].retired {
                return p;
            }
        }
    }

    fn n_live(&self) -> usize {
        self.peers.iter().filter(|p| !p.retired).count()
    }

    fn ins_len(&mut self) -> usize {
        match self.prof.len_mode {
            0 => 1,
            1 => self.rng.range(1, 4),
            2 => self.rng.range(1, 30),
            _ => {
                if self.rng.chance(0.02) {
                    self.rng.range(100, 600)
                } else {
                    self.rng.range(1, 3)
                }
            },
        }
    }

    fn last_off(&mut self, p: usize) -> Option<usize> {
        let g = self.peers[p].last?;
        if self.peers[p].c(g) != 1 {
            return None;
        }
        let r = self.rank(p, g);
        // Without the total order oracle the buffer may be out of order.
        (self.peers[p].buf.get(r) == Some(&g)).then_some(r + 1)
    }

    fn ins_off(&mut self, p: usize) -> usize {
        let n = self.peers[p].buf.len();
        match self.rng.weighted(&self.prof.pos_w.clone()) {
            0 => self.rng.below(n + 1),
            1 => {
                let c = (self.hot * n as f64) as usize;
                (c + self.rng.below(3)).min(n)
            },
            2 => match self.last_off(p) {
                Some(o) => o,
                None => self.rng.below(n + 1),
            },
            3 => 0,
            4 => n,
            _ => match self.last_off(p) {
                Some(o) => o - 1,
                None => self.rng.below(n + 1),
            },
        }
    }

    fn act_insert(&mut self, p: usize) -> R<()> {
        if self.peers[p].buf.len() > self.prof.cap {
            return self.act_delete(p);
        }
        let off = self.ins_off(p);
        let len = self.ins_len();
        self.local_insert(p, off, len)
    }

    fn act_delete(&mut self, p: usize) -> R<()> {
        let n = self.peers[p].buf.len();
        if n == 0 {
            return Ok(());
        }
        let (a, b) = match self.rng.weighted(&self.prof.del_w.clone()) {
            0 => {
                let a = self.rng.below(n);
                (a, (a + self.rng.range(1, 6)).min(n))
            },
            1 => match self.last_off(p) {
                Some(o) => (o.saturating_sub(self.rng.range(1, 3)), o),
                None => (n - 1, n),
            },
            2 => (0, self.rng.range(1, n.min(8))),
            3 => (n - self.rng.range(1, n.min(8)), n),
            4 => (0, n),
            5 => {
                let c = ((self.hot * n as f64) as usize).min(n - 1);
                let a = c.saturating_sub(self.rng.below(4));
                (a, (c + 1 + self.rng.below(4)).min(n))
            },
            _ => {
                let a = self.rng.below(n);
                let b = self.rng.range(a + 1, n);
                (a, b)
            },
        };
        self.local_delete(p, a, b)
    }

    pub fn step(&mut self) -> R<()> {
        let p = self.live();
        match self.rng.weighted(&self.prof.act_w.clone()) {
            0 => {
                let k = self.rng.range(1, self.prof.burst);
                for _ in 0..k {
                    self.act_insert(p)?;
                }
                Ok(())
            },
            1 => self.act_delete(p),
            2 => {
                if self.peers[p].cut {
                    return Ok(());
                }
                let k = self.rng.range(1, self.prof.burst * 2);
                for _ in 0..k {
                    if !self.deliver_one(p)? {
                        break;
                    }
                }
                Ok(())
            },
            3 => self.redeliver(p),
            4 => self.drain(p),
            5 => {
                if self.rng.chance(0.4) {
                    self.make_anchor(p)
                } else {
                    self.check_anchors(p, 4)
                }
            },
            6 => {
                if self.n_live() < self.prof.max_peers {
                    let d = self.rng.chance(0.5);
                    self.join(p, d, false)
                } else if self.prof.max_peers > 1 && self.ids.len() < self.prof.max_ids {
                    let d = self.rng.chance(0.7);
                    self.join(p, d, true)
                } else {
                    Ok(())
                }
            },
            7 => {
                self.st.clones += 1;
                let c = self.peers[p].rep.clone();
                let old = std::mem::replace(&mut self.peers[p].rep, c);
                // Mangle the one that's thrown away.
                let mut old = old;
                if old.len() > 0 {
                    let _ = old.deleted(..);
                }
                let _ = old.inserted(0, 3);
                drop(old);
                Ok(())
            },
            8 => {
                let k = self.prof.twin_steps;
                self.twins(p, k)
            },
            9 => self.noop(p),
            10 => self.sync(),
            12 => self.abuse(p),
            _ => {
                let c = &mut self.peers[p].cut;
                *c = !*c;
                Ok(())
            },
        }
    }

    /// Everything is delivered to everyone.
    pub fn sync(&mut self) -> R<()> {
        self.st.syncs += 1;
        for p in 0..self.peers.len() {
            if self.peers[p].retired {
                continue;
            }
            while self.deliver_one(p)? {
                if self.prof.drain_mode == 2 && self.rng.chance(0.1) {
                    self.drain(p)?;
                }
            }
        }
        let partial = std::mem::replace(&mut self.prof.partial_drain, 0.0);
        for p in 0..self.peers.len() {
            if self.peers[p].retired {
                continue;
            }
            self.drain(p)?;
            if self.on(O_DRAIN | O_CONV | O_CONS) && !self.peers[p].pending.is_empty() {
                return bad(O_DRAIN | O_CONV | O_CONS, format!("peer {p} received every edit and drained its backlog, but edits {:?} never came out", self.peers[p].pending));
            }
        }
        self.prof.partial_drain = partial;
        self.compare()
    }

    /// Peers that have integrated the same edits must have the same text.
    pub fn compare(&mut self) -> R<()> {
        if self.on(O_CONV) {
            for a in 0..self.peers.len() {
                for b in a + 1..self.peers.len() {
                    let (x, y) = (&self.peers[a], &self.peers[b]);
                    if !(x.retired && y.retired)
                        && x.pending.is_empty()
                        && y.pending.is_empty()
                        && x.settled.same(&y.settled)
                    {
                        self.st.convergence_comparisons += 1;
                        if x.buf != y.buf {
                            let i = x.buf.iter().zip(&y.buf).position(|(p, q)| p != q).unwrap_or(x.buf.len().min(y.buf.len()));
                            return bad(O_CONV, format!("peers {a} and {b} have integrated the same edits but their texts differ from offset {i} on (lengths {} and {})", x.buf.len(), y.buf.len()));
                        }
                    }
                }
            }
        }
        if self.on(O_SUBSEQ) {
            for p in 0..self.peers.len() {
                if !self.peers[p].retired {
                    self.subsequence(p)?;
                }
            }
        }
        Ok(())
    }

    fn subsequence(&mut self, p: usize) -> R<()> {
        self.st.subsequence_checks += 1;
        self.pos();
        let b = &self.peers[p].buf;
        if let Some(w) = b.windows(2).find(|w| self.pos[w[0] as usize] >= self.pos[w[1] as usize]) {
            return bad(O_SUBSEQ, format!("peer {p} shows character {} before {}, a replica holding all insertions shows them the other way around", w[0], w[1]));
        }
        Ok(())
    }

    pub fn finish(&mut self) -> R<()> {
        self.st.largest_num_authors = self.ids.len() as u64;
        self.st.largest_num_edits = self.edits.len() as u64;
        self.st.largest_num_runs = self.peers.iter().map(|p| p.rep.num_runs()).max().unwrap_or(0) as u64;
        self.st.largest_text = self.peers.iter().map(|p| p.rep.len()).max().unwrap_or(0) as u64;
        for p in &mut self.peers {
            p.cut = false;
        }
        self.sync()?;
        for p in 0..self.peers.len() {
            if self.peers[p].retired {
                continue;
            }
            if self.on(O_CONS) {
                // No character lost, none resurrected.
                let peer = &self.peers[p];
                let want = self.deleted.iter().filter(|d| !**d).count();
                let mut seen = vec![false; self.deleted.len()];
                for &g in &peer.buf {
                    if std::mem::replace(&mut seen[g as usize], true) {
                        return bad(O_CONS, format!("peer {p}: character {g} appears twice in the final text"));
                    }
                    if self.deleted[g as usize] {
                        return bad(O_CONS, format!("peer {p}: character {g} was deleted but is still in the final text"));
                    }
                }
                if peer.buf.len() != want {
                    let lost = (0..seen.len()).find(|&g| !seen[g] && !self.deleted[g]);
                    return bad(O_CONS, format!("peer {p}: the final text has {} characters instead of {want}; {lost:?} was lost", peer.buf.len()));
                }
                if peer.rep.len() != want {
                    return bad(O_CONS, format!("peer {p}: the replica's length is {} instead of {want}", peer.rep.len()));
                }
            }
            if self.on(O_STRUCT) {
                self.st.struct_checks += 1;
                self.peers[p].rep.assert_invariants();
            }
            if self.on(O_RUNS) {
                let runs = self.peers[p].rep.num_runs();
                let ins = self.edits.iter().filter(|e| matches!(e.body, Body::Ins { .. })).count();
                let del = self.edits.len() - ins;
                // An insertion adds a run and can split another; a deletion
                // splits at its ends, and where what each author's latest
                // insertion had reached by then has become longer since.
                let most = self.age_runs as usize + 2 * ins + (2 + self.peers.len()) * del;
                self.st.runs_checked += 1;
                self.st.max_runs_sum += runs as u64;
                self.st.runs_allowed_sum += most as u64;
                let bytes = crate::heap::size(&self.peers[p].rep);
                let words = runs + self.ids.len() + 8;
                self.st.heap_bytes += bytes as u64;
                if bytes > 1000 * words {
                    return bad(O_RUNS, format!("peer {p} keeps {bytes} bytes in memory for {runs} runs by {} peers, with nothing held back", self.ids.len()));
                }
                let encoded = self.peers[p].rep.encode().len();
                self.st.largest_encoded_permille = self.st.largest_encoded_permille.max((1000 * encoded / words) as u64);
                if encoded > 80 * words {
                    return bad(O_RUNS, format!("peer {p} encodes to {encoded} bytes with {runs} runs by {} peers and nothing held back", self.ids.len()));
                }
                self.st.largest_heap_permille = self.st.largest_heap_permille.max((1000 * bytes / words) as u64);
                if runs > most {
                    return bad(O_RUNS, format!("peer {p} keeps {runs} runs after {ins} insertions and {del} deletions by {} peers", self.peers.len()));
                }
            }
            let k = self.anchors.len();
            for i in 0..k {
                let anc = Anc { a: self.anchors[i].a, stick: self.anchors[i].stick, by: self.anchors[i].by };
                self.check_anchor_at(p, &anc)?;
            }
        }
        if self.on(O_INTERLEAVE) {
            self.interleaving()?;
        }
        Ok(())
    }

    /// No one who didn't have a run of text can end up in the middle of it.
    fn interleaving(&mut self) -> R<()> {
        self.pos();
        for e in 0..self.edits.len() {
            let Body::Ins { gid0, len, left, .. } = self.edits[e].body else { continue };
            let author = self.edits[e].author;
            // A run starts either at the insertion or, when it was typed right
            // after the author's previous insertion, at the end of that.
            let mut from = gid0;
            if let Some(l) = left {
                let le = self.char_edit[l as usize];
                if le != NO_EDIT && self.edits[le as usize].author == author {
                    from = l;
                }
            }
            let mut chars: Vec<Gid> = vec![];
            if from != gid0 {
                chars.push(from);
            }
            chars.extend(gid0..gid0 + len as u32);
            let ends = (chars[0], chars[chars.len() - 1]);
            let before = (self.pos[ends.0 as usize] as usize).checked_sub(1);
            let after = self.pos[ends.1 as usize] as usize + 1;
            for z in [before.and_then(|i| self.total.get(i)), self.total.get(after)].into_iter().flatten() {
                let ze = self.char_edit[*z as usize];
                if ze != NO_EDIT
                    && ze as usize != e
                    && !self.edits[ze as usize].hist.get(e)
                    && !self.edits[e].hist.get(ze as usize)
                {
                    self.st.concurrent_neighbours += 1;
                }
            }
            for w in chars.windows(2) {
                let (a, b) = (self.pos[w[0] as usize] as usize, self.pos[w[1] as usize] as usize);
                self.st.contiguity_pairs += 1;
                if a >= b {
                    return bad(O_INTERLEAVE, format!("characters {} and {} of one run ended up in the wrong order", w[0], w[1]));
                }
                let ce = self.char_edit[w[0] as usize];
                for i in a + 1..b {
                    let z = self.total[i];
                    let ze = self.char_edit[z as usize];
                    self.st.contiguity_foreign += 1;
                    let knew = ze != NO_EDIT
                        && (self.edits[ze as usize].hist.get(ce as usize) || ze == ce);
                    if !knew {
                        return bad(O_INTERLEAVE, format!("character {z} (edit e{ze}) sits inside the run typed by e{e} between {} and {}, although its author didn't have e{ce} when inserting it", w[0], w[1]));
                    }
                }
            }
        }
        Ok(())
    }

    pub fn run(&mut self) -> R<()> {
        if let Some(v) = self.early.take() {
            return Err(v);
        }
        for i in 0..self.prof.steps {
            self.step()?;
            if i % 64 == 63 {
                self.compare()?;
            }
        }
        self.finish()
    }
}

fn seed_free_hash() -> u64 {
    0x1234_5678
}

pub fn bin_roundtrip<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> Result<T, String> {
    let cfg = bincode::config::standard();
    let v = bincode::serde::encode_to_vec(x, cfg).map_err(|e| e.to_string())?;
    bincode::serde::decode_from_slice::<T, _>(&v, cfg).map(|(x, _)| x).map_err(|e| e.to_string())
}
