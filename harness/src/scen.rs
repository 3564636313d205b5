//! Scenarios other than the simulated network: large sessions, huge lengths,
//! damaged bytes, huge backlogs, run-length-encoded typing.

use crate::heap;
use crate::rng::{mix, Rng};
use crate::sim::*;
use cola::{Anchor, AnchorBias, DecodeError, Deletion, EncodedReplica, Insertion, Replica, Text};
use serde::de::value::{BytesDeserializer, Error as ValueError, SeqDeserializer};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Outcome {
    pub hash: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub sample: String,
}

impl Outcome {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    /// The names of these start with `largest`.
    pub fn max(&mut self, k: &str, n: u64) {
        let x = self.counters.entry(k.to_string()).or_default();
        *x = n.max(*x);
    }
    pub fn note(&mut self, x: u64) {
        self.hash = mix(self.hash ^ mix(x));
    }
}

fn bias(r: &mut Rng) -> AnchorBias {
    if r.chance(0.5) {
        AnchorBias::Left
    } else {
        AnchorBias::Right
    }
}

// ---------------------------------------------------------------- marathon

/// One author makes tens of thousands of scattered edits, so that every
/// counter, index and tree grows past the sizes short sessions reach; another
/// replica integrates all of them, a third one decodes the result.
pub fn marathon(r: &mut Rng, edits: usize) -> R<Outcome> {
    let mut out = Outcome::default();
    let all = O_CONV | O_CONS | O_SERDE | O_DECODE | O_ANCHOR | O_STRUCT | O_TEXT | O_RANK | O_DELEXACT | O_FORK | O_RUNS | O_DUP | O_LATE;
    // Sometimes all of it happens within one text, which gets shredded.
    let init = *r.pick(&[0, 0, 4 * edits]);
    let mut a = Replica::new(1 + r.below(1 << 20) as u64, init);
    let mut b = a.fork(a.id() + (1 << 40));
    let (mut ba, mut bb): (Vec<u32>, Vec<u32>) = ((0..init as u32).collect(), (0..init as u32).collect());
    let mut next = init as u32;
    let mut old_ins: Vec<Insertion> = vec![];
    let mut old_del: Vec<Deletion> = vec![];
    let mut anchors: Vec<(Anchor, u32)> = vec![];
    let style = r.below(3);
    for i in 0..edits {
        let n = ba.len();
        if !old_ins.is_empty() && r.chance(0.02) {
            let who = if r.chance(0.3) { &mut a } else { &mut b };
            let x = &old_ins[r.below(old_ins.len())];
            if let Some(o) = who.integrate_insertion(x) {
                return bad(O_DUP | O_CONS, format!("after {i} edits: an old insertion ({:?}) received again is integrated at {o}", x.text()));
            }
            out.add("marathon_redelivered", 1);
        }
        if !old_del.is_empty() && r.chance(0.02) {
            let who = if r.chance(0.3) { &mut a } else { &mut b };
            let rs = who.integrate_deletion(&old_del[r.below(old_del.len())]);
            if !rs.is_empty() {
                return bad(O_DUP | O_CONS | O_DELEXACT, format!("after {i} edits: an old deletion received again deletes {rs:?}"));
            }
            out.add("marathon_redelivered", 1);
        }
        if n > 50 && r.chance(0.01) {
            // The other one gets some of the edits in reverse.
            let mut burst = vec![];
            for _ in 0..r.range(2, 6) {
                let off = r.below(ba.len() + 1);
                let ins = a.inserted(off, 1);
                ba.insert(off, next);
                burst.push((off, next, ins));
                next += 1;
            }
            // Followed by a deletion of some of it, which comes first.
            let gone = r.chance(0.5).then(|| {
                let s = burst[burst.len() - 1].0.saturating_sub(r.below(3));
                let e = (burst[burst.len() - 1].0 + r.range(1, 3)).min(ba.len());
                ba.drain(s..e);
                (s..e, a.deleted(s..e))
            });
            if let Some((range, del)) = &gone {
                let rs = b.integrate_deletion(&rt(del, r, &mut out)?);
                if !rs.is_empty() {
                    return bad(O_EARLY | O_BOUNDS, format!("after {i} edits: a deletion of {range:?} arriving before the text gives {rs:?}"));
                }
            }
            for (k, (off, tag, ins)) in burst.iter().enumerate().rev() {
                match b.integrate_insertion(&rt(ins, r, &mut out)?) {
                    Some(o) if k == 0 && o == *off => bb.insert(o, *tag),
                    None if k > 0 => {},
                    o => return bad(O_EARLY | O_LATE | O_RANK | O_BOUNDS, format!("after {i} edits: the {k}. of several insertions received in reverse, at {off}, gave {o:?}")),
                }
                if k > 0 && r.chance(0.3) {
                    let again = &burst[r.range(k, burst.len() - 1)].2;
                    if let Some(o) = b.integrate_insertion(again) {
                        return bad(O_DUP | O_EARLY | O_CONS, format!("after {i} edits: a held insertion received again is integrated at {o}"));
                    }
                }
            }
            let got: Vec<_> = b.backlogged_insertions().map(|(t, o)| (t.temporal_range().start, o)).collect();
            let want: Vec<_> = burst[1..].iter().map(|(o, t, _)| (*t as usize, *o)).collect();
            if got != want {
                return bad(O_LATE | O_DRAIN | O_RANK | O_CONS | O_TEXT, format!("after {i} edits: the backlog yields {got:?} instead of {want:?}"));
            }
            for (t, o) in got {
                bb.insert(o, t as u32);
            }
            let got: Vec<_> = b.backlogged_deletions().collect();
            match gone {
                Some((range, _)) if got == [[range.clone()]] => drop(bb.drain(range)),
                None if got.is_empty() => {},
                gone => return bad(O_LATE | O_DRAIN | O_DELEXACT | O_CONS | O_DUP, format!("after {i} edits: the backlog yields {got:?} for {:?}", gone.map(|g| g.0))),
            }
            out.add("marathon_bursts", 1);
            continue;
        }
        if n > 50 && r.chance(0.12) {
            let s = r.below(n - 10);
            let e = s + r.range(1, 8);
            let del = a.deleted(s..e);
            ba.drain(s..e);
            if r.chance(0.1) {
                old_del.push(del.clone());
            }
            let rs = b.integrate_deletion(&rt(&del, r, &mut out)?);
            if rs != [s..e] {
                return bad(O_DELEXACT | O_CONV | O_BOUNDS, format!("after {i} edits: deleting {s}..{e} in a fully synced replica gave {rs:?}"));
            }
            bb.drain(s..e);
            continue;
        }
        let off = match style {
            0 => r.below(n + 1),
            1 => n - r.below(n.min(500) + 1),
            _ => if r.chance(0.5) { r.below(n + 1) } else { n - r.below(n.min(100) + 1) },
        };
        let len = if r.chance(0.01) { r.range(2, 5) } else { 1 };
        let ins = a.inserted(off, len);
        if r.chance(0.1) {
            old_ins.push(ins.clone());
        }
        if ins.text().temporal_range() != (next as usize..next as usize + len) {
            return bad(O_TEXT, format!("after {i} edits: {:?} instead of {next}..+{len}", ins.text()));
        }
        ba.splice(off..off, next..next + len as u32);
        match b.integrate_insertion(&rt(&ins, r, &mut out)?) {
            Some(o) if o == off => {
                bb.splice(o..o, next..next + len as u32);
            },
            o => return bad(O_RANK | O_CONV | O_BOUNDS, format!("after {i} edits: inserting at {off} in a fully synced replica gave {o:?}")),
        }
        next += len as u32;
        if i % 997 == 0 && off < ba.len() {
            anchors.push((a.create_anchor(off, AnchorBias::Right), ba[off]));
        }
    }
    out.add("marathon_edits", edits as u64);
    if ba != bb || a.len() != ba.len() || b.len() != bb.len() {
        return bad(O_CONV | O_CONS | O_BOUNDS, "texts differ at the end of a long session".into());
    }
    a.assert_invariants();
    b.assert_invariants();
    let enc = a.encode();
    out.add("marathon_encoded_bytes", enc.len() as u64);
    let mut c = match Replica::decode(7, &enc) {
        Ok(c) => c,
        Err(e) => return bad(O_DECODE | O_BOUNDS, format!("a long session doesn't decode: {e}")),
    };
    c.assert_invariants();
    if !c.eq_decoded(&a) || c.len() != a.len() {
        return bad(O_DECODE, "a long session decodes to a different state".into());
    }
    let mut pos = vec![usize::MAX; next as usize];
    for (i, &g) in ba.iter().enumerate() {
        pos[g as usize] = i;
    }
    for (anc, g) in anchors {
        let got = [a.resolve_anchor(anc), b.resolve_anchor(anc), c.resolve_anchor(anc)];
        if got[0] != got[1] || got[0] != got[2] {
            return bad(O_ANCHOR, format!("an anchor resolves to {got:?} at three converged replicas"));
        }
        if pos[g as usize] != usize::MAX && got[0] != Some(pos[g as usize]) {
            return bad(O_ANCHOR, format!("an anchor to the character at {} resolves to {:?}", pos[g as usize], got[0]));
        }
        out.add("marathon_anchors", 1);
    }
    // The four of them keep understanding each other.
    let mut f = b.fork(8);
    for _ in 0..2000 {
        let n = a.len();
        let off = r.below(n + 1);
        let ins = [a.inserted(off, 1), c.inserted(off, 1)];
        let i0 = rt(&ins[0], r, &mut out)?;
        let i1 = rt(&ins[1], r, &mut out)?;
        let (x, y, z) = (a.integrate_insertion(&i1), c.integrate_insertion(&i0), (b.integrate_insertion(&i0), b.integrate_insertion(&i1)));
        let w = (f.integrate_insertion(&i0), f.integrate_insertion(&i1));
        if w != z {
            return bad(all, format!("concurrent insertions at {off} were integrated at {z:?} by a replica, but at {w:?} by its fork"));
        }
        let b_first = z.1 == Some(off);
        let ok = if b_first {
            // The second one ended up before the first one.
            z.0 == Some(off) && x == Some(off) && y == Some(off + 1)
        } else {
            z == (Some(off), Some(off + 1)) && x == Some(off + 1) && y == Some(off)
        };
        if !ok {
            return bad(all, format!("concurrent insertions at {off} were integrated at {x:?}, {y:?} and {z:?}"));
        }
        if n < 20 {
            continue;
        }
        let s = r.below(n - 5);
        let e = s + r.range(1, 5);
        let del = rt(&c.deleted(s..e), r, &mut out)?;
        let (x, y, w) = (a.integrate_deletion(&del), b.integrate_deletion(&del), f.integrate_deletion(&del));
        if x != [s..e] || y != [s..e] || w != [s..e] {
            return bad(all, format!("deleting {s}..{e} gave {x:?}, {y:?} and {w:?}"));
        }
        out.add("marathon_concurrent_pairs", 1);
    }
    out.note(next as u64);
    out.note(a.len() as u64);
    out.nontrivial = true;
    out.sample = format!("marathon: {edits} edits (style {style}), {} runs, {} encoded bytes", a.num_runs(), enc.len());
    Ok(out)
}

/// Every now and then sends an edit through serde.
fn rt<T: Serialize + DeserializeOwned + PartialEq + Clone + std::fmt::Debug>(x: &T, r: &mut Rng, out: &mut Outcome) -> R<T> {
    if !r.chance(0.1) {
        return Ok(x.clone());
    }
    out.add("serde_roundtrips", 1);
    let y = bin_roundtrip(x);
    match y {
        Ok(y) if y == *x => Ok(y),
        y => bad(O_SERDE | O_BOUNDS, format!("{x:?} became {y:?} after a serialization roundtrip")),
    }
}

// ------------------------------------------------------------------- scale

/// Ids in ascending order, of which parts may be the same.
pub fn odd_ids(r: &mut Rng) -> Vec<u64> {
    let (x, y) = (r.next(), r.next());
    let kind = r.below(9);
    let mut v: Vec<u64> = (0..64u64)
        .map(|i| match kind {
            0 => u64::MAX - i,
            1 => ((i + 1) << 32) | (x >> 32),
            2 => ((i + 1) << 48) | (x >> 16),
            3 => (i + 1) << 57 | (x >> 7),
            4 => (x << 8) | (i + 1),
            5 => r.next() << 32 | (x >> 32),
            6 => (1 << i) + y % 2,
            7 => (1u64 << i).wrapping_sub(1 + y % 2),
            _ => r.next() >> r.below(64),
        })
        .filter(|i| *i > 0)
        .collect();
    v.sort();
    v.dedup();
    v
}

/// Two sessions in lockstep: the second one with longer texts, or among peers
/// of other names.
/// Two copies of the same session, one with all its lengths multiplied by `k`:
/// all the outputs must be multiplied by `k` too.
/// Or one with other ids.
pub fn scale(r: &mut Rng, steps: usize, names: bool) -> R<Outcome> {
    let mut out = Outcome::default();
    // In units.
    let small = r.chance(0.2);
    let budget = if small { 60usize } else { 1800 };
    let k = if names { 1 } else if r.chance(0.1) { isize::MAX as usize / budget } else { *r.pick(&[
        2,
        3,
        255,
        257,
        65_537,
        (1 << 31) - 1,
        1 << 31,
        (1 << 32) - 1,
        1 << 32,
        (1 << 32) + 1,
        (1 << 40) + 12345,
        1 << 48,
        1 << 52,
    ]) };
    let init = *r.pick(&[0, 1, 10, if small { 60 } else { 100 }]);
    let what = if names { "with other replica ids of the same order".to_string() } else { format!("with lengths multiplied by {k}") };
    let oracle = if names { O_NAMES } else { O_SCALE };
    // The ids in the first session are 1, 2, ..
    let pool = odd_ids(r);
    let mut free: Vec<u64> = (1..=pool.len() as u64).collect();
    let name = |i: u64| if names { pool[i as usize - 1] } else { i };
    let mut id = |r: &mut Rng| {
        if !names {
            return r.next() | 1;
        }
        free.swap_remove(r.below(free.len()))
    };
    if names && pool.len() < 20 {
        return bad(O_BOUNDS, "too few ids".into());
    }
    let mut left = pool.len();
    struct P {
        u: Replica,
        s: Replica,
    }
    #[derive(Clone)]
    enum E {
        I(Insertion, Insertion),
        D(Deletion, Deletion),
    }
    let id0 = id(r);
    let mut ps = vec![P { u: Replica::new(id0, init), s: Replica::new(name(id0), init * k) }];
    let n_peers = r.range(2, if names { 8 } else { 4 });
    left -= n_peers;
    for _ in 1..n_peers {
        let i = id(r);
        let p = P { u: ps[0].u.fork(i), s: ps[0].s.fork(name(i)) };
        ps.push(p);
    }
    let mut log: Vec<(usize, E)> = vec![];
    let mut inbox: Vec<Vec<usize>> = vec![vec![]; n_peers];
    let mut anchors: Vec<(Anchor, Anchor)> = vec![];
    let mut total = init;
    let scale_ranges = |v: Vec<std::ops::Range<usize>>| v.into_iter().map(|x| x.start * k..x.end * k).collect::<Vec<_>>();
    macro_rules! same {
        ($a:expr, $b:expr, $($t:tt)*) => {{
            let (a, b) = ($a, $b);
            out.add("outputs_compared", 1);
            if a != b {
                return bad(oracle, format!("{what} {} answers {b:?} instead of {a:?}", format!($($t)*)));
            }
        }};
    }
    for _ in 0..steps {
        let p = r.below(n_peers);
        let n = ps[p].u.len();
        match r.weighted(&[8, 5, 12, 3, 3, 1, 2, 1]) {
            0 if total < budget => {
                let off = r.below(n + 1);
                let len = r.range(1, 5).min(budget - total);
                total += len;
                let (a, b) = (ps[p].u.inserted(off, len), ps[p].s.inserted(off * k, len * k));
                let (x, y) = (a.text().temporal_range(), b.text().temporal_range());
                same!(x.start * k..x.end * k, y, "inserted({off}, {len})");
                out.note(off as u64 + 1);
                let (a, b) = (rt(&a, r, &mut out)?, rt(&b, r, &mut out)?);
                log.push((p, E::I(a, b)));
                for q in 0..n_peers {
                    if q != p {
                        inbox[q].push(log.len() - 1);
                    }
                }
            },
            1 if n > 0 => {
                let s = r.below(n);
                let e = (s + r.range(1, 9)).min(n);
                let (a, b) = (ps[p].u.deleted(s..e), ps[p].s.deleted(s * k..e * k));
                out.note(s as u64 + 7777);
                let (a, b) = (rt(&a, r, &mut out)?, rt(&b, r, &mut out)?);
                log.push((p, E::D(a, b)));
                for q in 0..n_peers {
                    if q != p {
                        inbox[q].push(log.len() - 1);
                    }
                }
            },
            2 => {
                for _ in 0..r.range(1, 6) {
                    if inbox[p].is_empty() {
                        break;
                    }
                    let i = if r.chance(0.7) { 0 } else { r.below(inbox[p].len()) };
                    let e = inbox[p].remove(i);
                    match &log[e].1 {
                        E::I(a, b) => {
                            let (x, y) = (ps[p].u.integrate_insertion(a), ps[p].s.integrate_insertion(b));
                            same!(x.map(|x| x * k), y, "integrate_insertion");
                        },
                        E::D(a, b) => {
                            let (x, y) = (ps[p].u.integrate_deletion(a), ps[p].s.integrate_deletion(b));
                            same!(scale_ranges(x), y, "integrate_deletion");
                        },
                    }
                }
            },
            3 => {
                let f = |rep: &mut Replica, k: usize, renamed: bool| {
                    let mut t: Vec<_> = rep.backlogged_insertions().map(|(t, _)| (t.inserted_by(), t.temporal_range())).map(|(i, x)| (if renamed { name(i) } else { i }, x.start / k, x.end / k, x.start % k, x.end % k)).collect();
                    t.sort();
                    let d: usize = rep.backlogged_deletions().flatten().map(|x| x.end - x.start).sum();
                    (t, d / k, d % k)
                };
                let (x, y) = (f(&mut ps[p].u, 1, true), f(&mut ps[p].s, k, false));
                same!(x, y, "draining the backlog");
            },
            4 => {
                let off = r.below(n + 1);
                let bi = bias(r);
                let (a, b) = (ps[p].u.create_anchor(off, bi), ps[p].s.create_anchor(off * k, bi));
                anchors.push((a, rt(&b, r, &mut out)?));
                let q = r.below(n_peers);
                for _ in 0..3 {
                    let (a, b) = anchors[r.below(anchors.len())];
                    let (x, y) = (ps[q].u.resolve_anchor(a), ps[q].s.resolve_anchor(b));
                    same!(x.map(|x| x * k), y, "resolve_anchor");
                }
            },
            5 if left > 0 => {
                left -= 1;
                let enc = ps[p].s.encode();
                let i = id(r);
                match Replica::decode(name(i), &enc) {
                    Ok(d) => {
                        if !d.eq_decoded(&ps[p].s) || d.len() != ps[p].s.len() {
                            return bad(oracle | O_DECODE, format!("{what} decoding gives a different replica"));
                        }
                        let inb = inbox[p].clone();
                        let u = ps[p].u.fork(i);
                        if r.chance(0.3) {
                            // The decoded copy takes over.
                            ps[p] = P { u, s: d };
                            inbox[p] = inb;
                        }
                    },
                    Err(e) => return bad(oracle | O_DECODE | O_BOUNDS, format!("{what} decoding fails: {e}")),
                }
            },
            6 if !log.is_empty() => {
                // Old or new, it may be its own or come again later.
                match &log[r.below(log.len())].1 {
                    E::I(a, b) => {
                        let (x, y) = (ps[p].u.integrate_insertion(a), ps[p].s.integrate_insertion(b));
                        same!(x.map(|x| x * k), y, "integrate_insertion out of turn");
                    },
                    E::D(a, b) => {
                        let (x, y) = (ps[p].u.integrate_deletion(a), ps[p].s.integrate_deletion(b));
                        same!(scale_ranges(x), y, "integrate_deletion out of turn");
                    },
                }
            },
            _ => {
                ps[p].s.assert_invariants();
            },
        }
        same!(ps[p].u.len() * k, ps[p].s.len(), "len");
    }
    for p in 0..n_peers {
        for e in std::mem::take(&mut inbox[p]) {
            match &log[e].1 {
                E::I(a, b) => {
                    let (x, y) = (ps[p].u.integrate_insertion(a), ps[p].s.integrate_insertion(b));
                    same!(x.map(|x| x * k), y, "integrate_insertion");
                },
                E::D(a, b) => {
                    let (x, y) = (ps[p].u.integrate_deletion(a), ps[p].s.integrate_deletion(b));
                    same!(scale_ranges(x), y, "integrate_deletion");
                },
            }
        }
        let P { u, s } = &mut ps[p];
        for rep in [u, s] {
            while rep.backlogged_insertions().count() + rep.backlogged_deletions().count() > 0 {}
        }
        same!(ps[p].u.len() * k, ps[p].s.len(), "len");
        for (a, b) in &anchors {
            let (x, y) = (ps[p].u.resolve_anchor(*a), ps[p].s.resolve_anchor(*b));
            same!(x.map(|x| x * k), y, "resolve_anchor");
        }
    }
    for p in 1..n_peers {
        same!(ps[0].s.len(), ps[p].s.len(), "len at convergence");
    }
    if names {
        out.add("renamed_peers", (pool.len() - left) as u64);
        out.note(pool[0] ^ pool[pool.len() - 1]);
    } else {
        out.add("scaled_units", total as u64);
        out.add(&format!("factor_bits_{:02}", 64 - (k as u64).leading_zeros()), 1);
    }
    out.note(k as u64);
    out.nontrivial = log.len() >= 10;
    out.sample = format!("{what}: {n_peers} peers, {} edits, {total} units in total", log.len());
    Ok(out)
}

// -------------------------------------------------------------- corruption

fn small_world(r: &mut Rng, seed: u64, steps: usize) -> R<World> {
    let mut p = Profile::swarm(r, 100);
    p.steps = steps;
    p.peers = r.range(1, 4);
    p.max_peers = p.peers + 1;
    p.act_w[8] = 0;
    p.act_w[5] = 1;
    if r.chance(0.5) {
        // So that there's a backlog.
        p.drain_mode = 0;
        p.net_w[2] += 10;
    }
    if r.chance(0.2) {
        p.unit = *r.pick(&[3, 127, 128, 300, 65536, 1 << 32, (1 << 40) + 1]);
    }
    let mut w = World::new(p, seed, 0);
    for _ in 0..steps {
        w.step()?;
    }
    Ok(w)
}

fn sha256(b: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(b).into()
}

/// Encoded replicas damaged in all sorts of ways.
pub fn corrupt(r: &mut Rng, seed: u64, budget: usize) -> R<Outcome> {
    let mut out = Outcome::default();
    let steps = *r.pick(&[0, 5, 20, 60, 200]);
    let w = small_world(r, seed, if cfg!(miri) { steps.min(12) } else { steps })?;
    let p = r.below(w.peers.len());
    let rep = &w.peers[p].rep;
    let enc = rep.encode();
    let bytes = enc.as_bytes().to_vec();
    out.hash = mix(w.hash);
    let same = |m: &[u8]| m == &bytes[..];
    let id = 0x0123_4567_89ab_cdef;
    let good = match Replica::decode(id, &EncodedReplica::from_bytes(&bytes)) {
        Ok(g) => g,
        Err(e) => return bad(O_DECODE | O_CORRUPT, format!("an intact encoding doesn't decode: {e}")),
    };
    let try_it = |m: &[u8], how: &str, out: &mut Outcome, strict: bool| -> R<Option<DecodeError>> {
        out.add("damaged_encodings", 1);
        out.note(m.len() as u64 ^ mix(m.iter().fold(0, |a, b| mix(a ^ *b as u64))));
        let owned;
        let e = if m.len() % 2 == 0 {
            EncodedReplica::from_bytes(m)
        } else {
            owned = m.to_vec().into_boxed_slice();
            EncodedReplica::from(owned)
        };
        let (res, peak) = heap::peak(|| catch_unwind(AssertUnwindSafe(|| Replica::decode(id, &e))));
        let most = (4 << 20) + 4096 * m.len();
        if !cfg!(miri) && peak > most {
            return bad(O_CORRUPT, format!("decoding {} bytes (an encoded replica of {} bytes after {how}) allocated {peak} bytes", m.len(), bytes.len()));
        }
        out.max("largest_allocation_decoding", peak as u64);
        out.max("largest_allocation_per_byte", (peak / m.len().max(100)) as u64);
        match res {
            Err(_) => bad(O_CORRUPT, format!("decoding an encoded replica of {} bytes after {how} panicked", bytes.len())),
            Ok(Err(e)) => {
                out.add(
                    match e {
                        DecodeError::ChecksumFailed => "rejected_checksum",
                        DecodeError::DifferentProtocol { .. } => "rejected_protocol",
                        DecodeError::InvalidData => "rejected_invalid",
                    },
                    1,
                );
                let _ = format!("{e}");
                Ok(Some(e))
            },
            Ok(Ok(d)) => {
                if strict && !d.eq_decoded(&good) {
                    return bad(O_CORRUPT, format!("an encoded replica of {} bytes was accepted after {how}, and decoded to something else", bytes.len()));
                }
                out.add("accepted", 1);
                Ok(None)
            },
        }
    };
    let n = bytes.len();
    // Bit flips: all of them if there aren't too many.
    let flips: Vec<usize> = if n * 8 <= budget { (0..n * 8).collect() } else { (0..budget).map(|_| r.below(n * 8)).collect() };
    for f in flips {
        let mut m = bytes.clone();
        m[f / 8] ^= 1 << (f % 8);
        let e = try_it(&m, &format!("flipping bit {f}"), &mut out, true)?;
        out.add("bit_flips", 1);
        if e.is_none() {
            return bad(O_CORRUPT, format!("an encoded replica of {n} bytes was accepted although bit {f} had been flipped"));
        }
        if f / 8 > n / 2 && n > 80 && e != Some(DecodeError::ChecksumFailed) {
            return bad(O_CORRUPT, format!("an encoded replica of {n} bytes with bit {f} flipped was rejected with {e:?} instead of ChecksumFailed"));
        }
    }
    // Truncations.
    let cuts: Vec<usize> = if n <= budget { (0..n).collect() } else { (0..budget).map(|_| r.below(n)).collect() };
    for c in cuts {
        out.add("truncations", 1);
        if try_it(&bytes[..c], &format!("truncating it to {c} bytes"), &mut out, true)?.is_none() {
            return bad(O_CORRUPT, format!("an encoded replica of {n} bytes was accepted although truncated to {c}"));
        }
    }
    // Bytes added, removed, swapped, duplicated, zeroed.
    for _ in 0..budget / 2 {
        let mut m = bytes.clone();
        let how = match r.below(7) {
            0 => {
                let k = r.range(1, 40);
                for _ in 0..k {
                    m.push(if r.chance(0.3) { 0 } else { r.next() as u8 });
                }
                format!("appending {k} bytes")
            },
            1 => {
                let i = r.below(n);
                m.remove(i);
                format!("removing byte {i}")
            },
            2 => {
                let i = r.below(n + 1);
                m.insert(i, r.next() as u8);
                format!("inserting a byte at {i}")
            },
            3 => {
                let (i, j) = (r.below(n), r.below(n));
                m.swap(i, j);
                format!("swapping bytes {i} and {j}")
            },
            4 => {
                let i = r.below(n);
                let j = r.range(i, n);
                let dup = m[i..j].to_vec();
                m.splice(i..i, dup);
                format!("duplicating bytes {i}..{j}")
            },
            5 => {
                let i = r.below(n);
                let j = r.range(i, n);
                m[i..j].fill(*r.pick(&[0, 0xff, 0x80]));
                format!("overwriting bytes {i}..{j}")
            },
            _ => {
                // A piece of it replaced with a piece of somebody else's.
                let q = r.below(w.peers.len());
                let o = w.peers[q].rep.encode();
                let i = r.below(n);
                if i < o.len() {
                    m.truncate(i);
                    m.extend_from_slice(&o[i..]);
                }
                if m == o.as_bytes() {
                    continue;
                }
                format!("splicing another one from {i} on")
            },
        };
        if same(&m) {
            continue;
        }
        out.add("byte_edits", 1);
        try_it(&m, &how, &mut out, true)?;
    }
    // Another protocol version.
    let current = bytes[0];
    if current < 0x80 {
        for v in 0..0x80u8 {
            if v == current {
                continue;
            }
            let mut m = bytes.clone();
            m[0] = v;
            let e = try_it(&m, &format!("changing the protocol version to {v}"), &mut out, true)?;
            out.add("other_protocols", 1);
            match e {
                Some(DecodeError::DifferentProtocol { encoded_on, decoding_on })
                    if encoded_on as u64 == v as u64 && decoding_on as u64 == current as u64 => {},
                e => return bad(O_CORRUPT, format!("an encoding with protocol version {v} instead of {current} was rejected with {e:?}")),
            }
        }
    }
    // Garbage.
    for _ in 0..20 {
        let k = *r.pick(&[0, 1, 2, 10, 32, 33, 34, 35, 64, 200]);
        let m: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
        out.add("garbage", 1);
        try_it(&m, &format!("replacing it with {k} random bytes"), &mut out, true)?;
        let mut m = vec![current];
        m.extend((0..k).map(|_| r.next() as u8));
        try_it(&m, &format!("replacing all but its first byte with {k} random bytes"), &mut out, true)?;
    }
    // Damage that the checksum can't see.
    if n > 40 {
        for _ in 0..budget {
            let mut m = bytes.clone();
            for _ in 0..r.range(1, 3) {
                let i = r.range(33, m.len() - 1);
                match r.below(7) {
                    0 => m[i] ^= 1 << r.below(8),
                    1 => m[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 31, 32, 33, 64]),
                    2 => {
                        m.remove(i);
                    },
                    3 => m.insert(i, r.next() as u8),
                    4 => m.truncate(i),
                    5 => {
                        m.splice(i..i + 1, [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]);
                    },
                    _ => {
                        m.splice(i..i, [0xff, 0xff, 0xff, 0xff, 0x0f]);
                    },
                }
                if m.len() <= 34 {
                    break;
                }
            }
            let s = sha256(&m[33..]);
            m[1..33].copy_from_slice(&s);
            out.add("damage_with_valid_checksum", 1);
            try_it(&m, "changing its body and fixing its checksum", &mut out, false)?;
        }
    }
    out.nontrivial = n > 60;
    out.sample = format!("corrupt: {} bytes encoding a document of length {} after {steps} steps; {:?}", n, rep.len(), out.counters);
    Ok(out)
}

// --------------------------------------------------------------- malformed

/// The bytes an edit is serialized to.
fn raw<T: Serialize>(x: &T) -> Result<Vec<u8>, String> {
    // JSON shows byte strings as arrays of numbers.
    let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
    let a = v.as_array().ok_or("not a byte string")?;
    a.iter().map(|b| b.as_u64().and_then(|b| u8::try_from(b).ok()).ok_or_else(|| "not a byte".to_string())).collect()
}

/// A format whose sequences aren't as long as they say, or break off.
struct Lying<'a> {
    left: std::slice::Iter<'a, u8>,
    hint: usize,
    fail: bool,
}

impl<'de> serde::de::SeqAccess<'de> for Lying<'_> {
    type Error = ValueError;

    fn next_element_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, ValueError> {
        match self.left.next() {
            Some(b) => seed.deserialize(serde::de::value::U8Deserializer::<ValueError>::new(*b)).map(Some),
            None if self.fail => Err(serde::de::Error::custom("the end of the input")),
            None => Ok(None),
        }
    }

    fn size_hint(&self) -> Option<usize> {
        Some(self.hint)
    }
}

impl<'de> serde::Deserializer<'de> for Lying<'_> {
    type Error = ValueError;

    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, ValueError> {
        v.visit_seq(self)
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

/// Documents which aren't even lists of bytes.
fn odd_document(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::{json, Value};
    match r.below(if depth > 2 { 8 } else { 11 }) {
        0 => Value::Null,
        1 => json!(r.chance(0.5)),
        2 => json!(r.next()),
        3 => json!(-(r.below(1000) as i64)),
        4 => json!(0.5),
        5 => json!(""),
        6 => json!("\u{0}\u{1}some text\u{ffff}"),
        7 => json!([]),
        8 => {
            let mut m = serde_json::Map::new();
            for k in ["anchor", "text", "start", "end", "inserted_by", "temporal_range", "bytes", "0"] {
                if r.chance(0.4) {
                    m.insert(k.into(), odd_document(r, depth + 1));
                }
            }
            Value::Object(m)
        },
        _ => Value::Array((0..r.below(20)).map(|_| odd_document(r, depth + 1)).collect()),
    }
}

fn try_odd<T: DeserializeOwned + std::fmt::Debug>(name: &str, r: &mut Rng, out: &mut Outcome) -> R<()> {
    let v = odd_document(r, 0);
    out.add("odd_documents", 1);
    let text = v.to_string();
    match catch_unwind(AssertUnwindSafe(|| (serde_json::from_value::<T>(v).is_ok(), serde_json::from_str::<T>(&text).is_ok()))) {
        // A string can be a list of bytes, too.
        Ok((a, b)) => {
            out.add("odd_documents_accepted", a as u64 + b as u64);
            Ok(())
        },
        Err(_) => bad(O_MALFORMED, format!("deserializing {name} from {text} panicked")),
    }
}

fn try_bytes<T: DeserializeOwned + std::fmt::Debug + PartialEq>(name: &str, m: &[u8], via: usize, out: &mut Outcome) -> R<Option<T>> {
    out.add("malformed_inputs", 1);
    let how = ["bytes", "a sequence", "JSON", "bincode", "a sequence claiming to be longer", "a sequence claiming to be shorter", "a sequence which fails"][via];
    let (res, peak) = heap::peak(|| catch_unwind(AssertUnwindSafe(|| {
        let x: Result<T, String> = match via {
            0 => T::deserialize(BytesDeserializer::<ValueError>::new(m)).map_err(|e| e.to_string()),
            1 => T::deserialize(SeqDeserializer::<_, ValueError>::new(m.iter().copied())).map_err(|e| e.to_string()),
            4 => T::deserialize(Lying { left: m.iter(), hint: [usize::MAX, 1 << 62, 1 << 50, m.len() + 1][m.len() % 4], fail: false }).map_err(|e| e.to_string()),
            5 => T::deserialize(Lying { left: m.iter(), hint: m.len() / 2, fail: false }).map_err(|e| e.to_string()),
            6 => T::deserialize(Lying { left: m.iter(), hint: m.len(), fail: true }).map_err(|e| e.to_string()),
            2 => serde_json::from_value(serde_json::Value::from(m.to_vec())).map_err(|e| e.to_string()),
            _ => bincode::serde::decode_from_slice(m, bincode::config::standard().with_limit::<1_000_000>()).map(|x| x.0).map_err(|e| e.to_string()),
        };
        // Whatever comes out can at least be looked at.
        if let Ok(x) = &x {
            let _ = format!("{x:?}");
            assert!(x == x);
        }
        x.ok()
    })));
    out.max("largest_allocation_deserializing", peak as u64);
    if !cfg!(miri) && peak > (1 << 20) + 256 * m.len() {
        return bad(O_MALFORMED, format!("deserializing {name} from {how} of {} bytes allocated {peak} bytes", m.len()));
    }
    if via == 6 && matches!(&res, Ok(Some(_))) {
        return bad(O_MALFORMED, format!("{name} was deserialized from a sequence which failed half way"));
    }
    match res {
        Err(_) => bad(O_MALFORMED, format!("deserializing {} from {how} {m:?} panicked", name)),
        Ok(None) => {
            out.add("malformed_rejected", 1);
            Ok(None)
        },
        Ok(x) => {
            out.add("malformed_accepted", 1);
            Ok(x)
        },
    }
}

fn mutate(r: &mut Rng, m: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let n = m.len();
        if n == 0 {
            m.push(r.next() as u8);
            continue;
        }
        let i = r.below(n);
        match r.below(9) {
            0 => m[i] ^= 1 << r.below(8),
            1 => m[i] = r.next() as u8,
            2 => m[i] = *r.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xff]),
            3 => {
                m.remove(i);
            },
            4 => m.insert(i, r.next() as u8),
            5 => {
                m.splice(i..i + 1, [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]);
            },
            6 => {
                m.splice(i..i + 1, [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f]);
            },
            7 => {
                m.splice(i..i, [0xff; 4]);
            },
            _ => {
                let j = r.range(i, n);
                m[i..j].fill(*r.pick(&[0, 0xff, 0x80]));
            },
        }
    }
}

fn maul<T: Serialize + DeserializeOwned + std::fmt::Debug + PartialEq>(name: &str, x: &T, r: &mut Rng, out: &mut Outcome, k: usize, prefix_free: bool) -> R<()> {
    let Ok(bytes) = raw(x) else {
        // Not serialized as a byte string: work on the bincode bytes only.
        let Ok(b) = bincode::serde::encode_to_vec(x, bincode::config::standard()) else { return Ok(()) };
        for _ in 0..k {
            let mut m = b.clone();
            mutate(r, &mut m);
            try_bytes::<T>(name, &m, 3, out)?;
        }
        return Ok(());
    };
    out.note(bytes.iter().fold(1, |a, b| mix(a ^ *b as u64)));
    for c in 0..bytes.len() {
        out.add("malformed_truncations", 1);
        let via = *r.pick(&[0, 1, 2, 4, 5, 6]);
        if try_bytes::<T>(name, &bytes[..c], via, out)?.is_some() && prefix_free {
            return bad(O_MALFORMED, format!("the first {c} bytes of {bytes:?}, which {x:?} was serialized to, deserialize to a {name}"));
        }
    }
    for _ in 0..k {
        let mut m = bytes.clone();
        mutate(r, &mut m);
        let via = *r.pick(&[0, 1, 2, 4, 5, 6]);
        try_bytes::<T>(name, &m, via, out)?;
        let mut b = bincode::serde::encode_to_vec(x, bincode::config::standard()).unwrap_or_default();
        mutate(r, &mut b);
        try_bytes::<T>(name, &b, 3, out)?;
    }
    for _ in 0..2 {
        let n = r.below(24);
        let m: Vec<u8> = (0..n).map(|_| r.next() as u8 >> *r.pick(&[0, 0, 1, 5, 7])).collect();
        let via = r.below(7);
        try_bytes::<T>(name, &m, via, out)?;
        try_odd::<T>(name, r, out)?;
    }
    // A sequence's announced length is nothing to rely on.
    for via in [4, 5] {
        let got = try_bytes::<T>(name, &bytes, via, out)?;
        if got.as_ref() != Some(x) {
            return bad(O_MALFORMED | O_SERDE, format!("{x:?} deserialized from a sequence giving another length became {got:?}"));
        }
    }
    Ok(())
}

/// Serialized edits and anchors, damaged.
pub fn malformed(r: &mut Rng, seed: u64, k: usize) -> R<Outcome> {
    let mut out = Outcome::default();
    let steps = if cfg!(miri) { 12 } else { r.range(20, 200) };
    let w = small_world(r, seed, steps)?;
    let mut n = 0;
    for _ in 0..if cfg!(miri) { 4 } else { 30 } {
        if !w.edits.is_empty() {
            let e = r.below(w.edits.len());
            match &w.edits[e].body {
                Body::Ins { ins, .. } => {
                    maul("Insertion", ins, r, &mut out, k, true)?;
                    maul::<Text>("Text", ins.text(), r, &mut out, k, true)?;
                },
                Body::Del { del, .. } => maul("Deletion", del, r, &mut out, k, true)?,
            }
            n += 1;
        }
        let p = r.below(w.peers.len());
        let off = r.below(w.peers[p].rep.len() + 1);
        let a = w.peers[p].rep.create_anchor(off, bias(r));
        maul("Anchor", &a, r, &mut out, k, true)?;
        let e: EncodedReplica<'static> = w.peers[p].rep.encode();
        if r.chance(0.1) && e.len() < 2000 {
            let Ok(b) = bincode::serde::encode_to_vec(&e, bincode::config::standard()) else { continue };
            for _ in 0..k {
                let mut m = b.clone();
                mutate(r, &mut m);
                out.add("malformed_inputs", 1);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let x: Option<EncodedReplica<'static>> =
                        bincode::serde::decode_from_slice(&m, bincode::config::standard().with_limit::<1_000_000>()).ok().map(|x| x.0);
                    x.map(|x| Replica::decode(5, &x).is_ok())
                }));
                if res.is_err() {
                    return bad(O_MALFORMED, format!("deserializing and decoding an encoded replica from {m:?} panicked"));
                }
            }
        }
    }
    out.nontrivial = n > 0;
    out.sample = format!("malformed: {n} edits mauled; {:?}", out.counters);
    Ok(out)
}

/// Edits nobody made: what is deserialized from damaged bytes is given to a
/// replica. Unlike the rest this may panic, but nothing worse.
pub fn forged(r: &mut Rng, seed: u64, k: usize) -> R<Outcome> {
    let mut out = Outcome::default();
    let steps = if cfg!(miri) { 12 } else { r.range(10, 120) };
    let w = small_world(r, seed, steps)?;
    out.note(w.hash);
    for _ in 0..if cfg!(miri) { 3 } else { 20 } {
        let p = r.below(w.peers.len());
        let mut rep = w.peers[p].rep.r.clone();
        if w.edits.is_empty() {
            continue;
        }
        for _ in 0..k {
            let e = r.below(w.edits.len());
            let forged = |b: Result<Vec<u8>, String>, r: &mut Rng| {
                let mut m = b.unwrap_or_default();
                if r.chance(0.9) {
                    mutate(r, &mut m);
                }
                m
            };
            out.add("forged_edits", 1);
            let ok = match &w.edits[e].body {
                Body::Ins { ins, .. } => {
                    let m = forged(raw(ins), r);
                    let Ok(i) = Insertion::deserialize(BytesDeserializer::<ValueError>::new(&m)) else { continue };
                    out.add("forged_edits_integrated", 1);
                    catch_unwind(AssertUnwindSafe(|| { let _ = rep.integrate_insertion(&i); })).is_ok()
                },
                Body::Del { del, .. } => {
                    let m = forged(raw(del), r);
                    let Ok(d) = Deletion::deserialize(BytesDeserializer::<ValueError>::new(&m)) else { continue };
                    out.add("forged_edits_integrated", 1);
                    catch_unwind(AssertUnwindSafe(|| drop(rep.integrate_deletion(&d)))).is_ok()
                },
            };
            let ok = ok && catch_unwind(AssertUnwindSafe(|| {
                let a = rep.backlogged_insertions().count();
                let b = rep.backlogged_deletions().count();
                let _ = (a, b, rep.len(), rep.encode());
                let n = rep.len();
                if n > 0 && n < 1 << 40 {
                    let _ = rep.inserted(n / 2, 1);
                    let _ = rep.deleted(n / 2..n);
                }
            })).is_ok();
            if !ok {
                // Even then it can be used without harm.
                out.add("forged_edits_panicked", 1);
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let _ = rep.len();
                    let _ = rep.encode();
                    let _ = rep.clone().inserted(0, 1);
                    let _ = rep.clone().deleted(..);
                }));
                rep = w.peers[p].rep.r.clone();
            }
        }
    }
    // Anchors made up by others.
    for _ in 0..k {
        let p = r.below(w.peers.len());
        let rep = &w.peers[p].rep.r;
        let a = rep.create_anchor(r.below(rep.len() + 1), bias(r));
        let mut m = raw(&a).unwrap_or_default();
        mutate(r, &mut m);
        let Ok(a) = Anchor::deserialize(BytesDeserializer::<ValueError>::new(&m)) else { continue };
        out.add("forged_anchors_resolved", 1);
        for q in &w.peers {
            let _ = catch_unwind(AssertUnwindSafe(|| q.rep.r.resolve_anchor(a)));
        }
    }
    out.nontrivial = out.counters.contains_key("forged_edits_integrated");
    out.sample = format!("forged: {:?}", out.counters);
    Ok(out)
}

// ------------------------------------------------------------- big backlog

/// Backlogs far larger than what a session usually holds, drained on a thread
/// with an ordinary stack.
pub fn big_backlog(kind: usize, n: usize) -> R<Outcome> {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || big_backlog_inner(kind, n))
        .unwrap()
        .join()
        .unwrap_or_else(|_| bad(O_DRAIN, format!("draining a backlog of {n} edits (kind {kind}) panicked")))
}

fn big_backlog_inner(kind: usize, n: usize) -> R<Outcome> {
    let mut out = Outcome::default();
    match kind % 4 {
        0 => {
            // Held deletions whose effect is empty by the time they're ready.
            let mut a = Replica::new(1, n);
            let mut b = a.fork(2);
            let ins = a.inserted(n, 1);
            let mut dels = vec![a.deleted(n..n + 1)];
            for _ in 0..n {
                dels.push(a.deleted(0..1));
            }
            let _ = b.deleted(0..n);
            for d in &dels {
                if !b.integrate_deletion(d).is_empty() {
                    return bad(O_EARLY, "a deletion was integrated before the insertion its author's first deletion depends on".into());
                }
            }
            if b.integrate_insertion(&ins) != Some(0) {
                return bad(O_LATE, "an insertion at the end of a cleared document isn't integrated at 0".into());
            }
            let got: Vec<_> = b.backlogged_deletions().flatten().collect();
            if got != [0..1] || b.len() != 0 {
                return bad(O_DRAIN, format!("draining {n} held deletions of deleted text gave {got:?}, length {}", b.len()));
            }
            // The next one must be right on time.
            let i2 = a.inserted(0, 1);
            let d2 = a.deleted(0..1);
            if b.integrate_insertion(&i2) != Some(0) || b.integrate_deletion(&d2) != [0..1] {
                return bad(O_LATE, format!("after draining {n} held deletions the next edit isn't integrated"));
            }
        },
        1 => {
            // One author's insertions in reverse.
            let mut a = Replica::new(1, 0);
            let mut b = a.fork(2);
            let ins: Vec<Insertion> = (0..n).map(|i| a.inserted(if i % 3 == 0 { i } else { i / 2 }, 1)).collect();
            for i in ins[1..].iter().rev() {
                if b.integrate_insertion(i).is_some() {
                    return bad(O_EARLY, "an insertion was integrated before an earlier one by its author".into());
                }
            }
            if b.integrate_insertion(&ins[0]) != Some(0) {
                return bad(O_LATE, "the very first insertion isn't integrated".into());
            }
            let mut want = 1;
            for (t, off) in b.backlogged_insertions() {
                let offset = if want % 3 == 0 { want } else { want / 2 };
                if t.temporal_range() != (want..want + 1) || off != offset {
                    return bad(O_DRAIN, format!("held insertion {want} came out as {t:?} at {off}"));
                }
                want += 1;
            }
            if want != n || b.len() != n {
                return bad(O_DRAIN, format!("{want} of {n} insertions came out"));
            }
        },
        2 => {
            // A conversation: every insertion depends on the previous one, made
            // by somebody else.
            let n = n / 10;
            let mut v = vec![Replica::new(1, 0)];
            for i in 2..6 {
                let f = v[0].fork(i);
                v.push(f);
            }
            let mut late = v[0].fork(9);
            let mut log = vec![];
            for i in 0..n {
                let k = i % v.len();
                let l = v[k].len();
                let ins = v[k].inserted(l, 1);
                for (j, x) in v.iter_mut().enumerate() {
                    if j != k && x.integrate_insertion(&ins) != Some(i) {
                        return bad(O_LATE, format!("insertion {i} wasn't integrated at the end"));
                    }
                }
                log.push(ins);
            }
            for i in log[1..].iter().rev() {
                if late.integrate_insertion(i).is_some() {
                    return bad(O_EARLY, "an insertion was integrated before the one it follows".into());
                }
            }
            if late.integrate_insertion(&log[0]) != Some(0) {
                return bad(O_LATE, "the very first insertion isn't integrated".into());
            }
            let mut len = 1;
            for (t, off) in late.backlogged_insertions() {
                if off != len || t.temporal_range() != log[len].text().temporal_range() {
                    return bad(O_DRAIN, format!("held insertion {len} came out as {t:?} at {off}"));
                }
                len += 1;
            }
            if len != n {
                return bad(O_DRAIN, format!("{len} of {n} insertions came out"));
            }
        },
        _ => {
            // Deletions first, all of them effective.
            let n = n / 4;
            let mut a = Replica::new(1, n);
            let mut b = a.fork(2);
            let ins = a.inserted(n / 2, 1);
            let first = a.deleted(n / 2..n / 2 + 1);
            let dels: Vec<Deletion> = (0..n).map(|_| a.deleted(0..1)).collect();
            for d in dels.iter().rev().chain([&first]) {
                if !b.integrate_deletion(d).is_empty() {
                    return bad(O_EARLY, "a deletion was integrated before the text it deletes".into());
                }
            }
            if b.integrate_insertion(&ins) != Some(n / 2) {
                return bad(O_LATE, "an insertion isn't integrated".into());
            }
            let mut it = b.backlogged_deletions();
            if it.next() != Some(vec![n / 2..n / 2 + 1]) {
                return bad(O_DRAIN, "the first held deletion came out wrong".into());
            }
            let mut count = 0;
            for x in it {
                if x != [0..1] {
                    return bad(O_DRAIN, format!("held deletion {count} came out as {x:?}"));
                }
                count += 1;
            }
            if count != n || b.len() != 0 {
                return bad(O_DRAIN, format!("{count} of {n} held deletions came out"));
            }
        },
    }
    out.add("big_backlogs", 1);
    out.add("big_backlog_edits", n as u64);
    out.note(kind as u64);
    out.note(n as u64);
    out.nontrivial = true;
    out.sample = format!("big backlog of kind {} with {n} edits", kind % 4);
    Ok(out)
}

// --------------------------------------------------------------------- rle

/// Typing and pasting must not cost memory per character.
pub fn rle(r: &mut Rng) -> R<Outcome> {
    let mut out = Outcome::default();
    let mut a = Replica::new(1 + r.below(1000) as u64, r.range(1, 1000));
    let mut b = a.fork(5000 + r.below(1000) as u64);
    let mut sessions = 0u64;
    for _ in 0..r.range(1, 20) {
        let n = if r.chance(0.1) { r.range(1500, 3000) } else { r.range(20, 400) };
        let off = if r.chance(0.3) { a.len() } else { r.below(a.len() + 1) };
        let step = *r.pick(&[1usize, 1, 1, 2, 1000]);
        let (ra, rb) = (a.num_runs(), b.num_runs());
        let (ea, eb) = (a.encode().len(), b.encode().len());
        let (ha, hb) = (heap::size(&a), heap::size(&b));
        for i in 0..n {
            let ins = a.inserted(off + i * step, step);
            if b.integrate_insertion(&ins) != Some(off + i * step) {
                return bad(O_CONV | O_BOUNDS, "typing isn't replicated".into());
            }
        }
        out.add("typed", n as u64);
        for (who, before, rep, eb, hb) in [("its author", ra, &a, ea, ha), ("a receiver", rb, &b, eb, hb)] {
            let grown = rep.num_runs() - before;
            // The text is one run, and might have split another one.
            if grown > 2 {
                return bad(O_RUNS, format!("typing {n} times one after the other at offset {off} made {grown} runs at {who}"));
            }
            let bytes = rep.encode().len();
            out.add("runs_checked", 1);
            let heap = heap::size(rep);
            out.max("largest_heap_growth_typing", heap.saturating_sub(hb) as u64);
            if heap > hb + 6000 {
                return bad(O_RUNS, format!("typing {n} times one after the other at offset {off} made the memory in use grow from {hb} to {heap} bytes at {who}"));
            }
            // Room for a run split in two, a new one, and counters getting longer.
            if bytes > eb + 400 {
                return bad(O_RUNS, format!("typing {n} times one after the other at offset {off} made the encoding grow from {eb} to {bytes} bytes at {who}"));
            }
        }
        sessions += 1;
        out.note(off as u64);
        out.note(n as u64);
    }
    // A paste costs the same whatever its length.
    let (mut x, mut y) = (a.clone(), a.clone());
    let off = r.below(a.len() + 1);
    let (small, big) = (1, 1 << r.range(10, 40));
    let _ = x.inserted(off, small);
    let _ = y.inserted(off, big);
    if x.num_runs() != y.num_runs() || y.encode().len() > x.encode().len() + 200 {
        return bad(O_RUNS, format!("pasting {big} characters takes {} runs and {} bytes, pasting {small} takes {} and {}", y.num_runs(), y.encode().len(), x.num_runs(), x.encode().len()));
    }
    let heap = [heap::size(&x), heap::size(&y)];
    if heap[1] > heap[0] + 1000 {
        return bad(O_RUNS, format!("pasting {big} characters takes {} bytes of memory, pasting {small} takes {}", heap[1], heap[0]));
    }
    // So does deleting.
    let del = y.deleted(..);
    let _ = del;
    if y.num_runs() > x.num_runs() + 2 {
        return bad(O_RUNS, format!("deleting everything took the number of runs from {} to {}", x.num_runs(), y.num_runs()));
    }
    out.add("typing_sessions", sessions);
    out.nontrivial = sessions > 0;
    out.sample = format!("rle: {sessions} typing sessions, {} runs, text length {}", a.num_runs(), a.len());
    Ok(out)
}
