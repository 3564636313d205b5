//! What calls cost, counted in executed edges of the control flow graph and in
//! bytes moved or allocated, which unlike times are the same at every run.
//!
//! Needs a build with `--cfg cost` and LLVM's coverage pass, which calls
//! `__sanitizer_cov_trace_pc` on every edge (see check.py).

use crate::heap;
use crate::rng::Rng;
use crate::scen::Outcome;
use crate::sim::*;
use cola::{Anchor, AnchorBias, Deletion, Insertion, Replica};
use std::collections::BTreeMap;

#[cfg(cost)]
mod count {
    use std::ffi::c_void;

    pub static mut STEPS: u64 = 0;
    pub static mut BYTES: u64 = 0;

    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn __sanitizer_cov_trace_pc() {
        // There's only one thread.
        unsafe { STEPS += 1 }
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
        BYTES += n as u64;
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
        BYTES += n as u64;
        if (d as usize).wrapping_sub(s as usize) >= n {
            std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
        } else {
            std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _,
                inout("rdi") d.wrapping_byte_add(n).wrapping_byte_sub(1) => _, inout("rsi") s.wrapping_byte_add(n).wrapping_byte_sub(1) => _);
        }
        d
    }
}

/// Steps and bytes so far.
fn now() -> (u64, u64) {
    #[cfg(cost)]
    unsafe {
        return (count::STEPS, count::BYTES + heap::total() as u64);
    }
    #[cfg(not(cost))]
    (0, heap::total() as u64)
}

#[derive(Default, Clone, Copy)]
struct Sum {
    /// Calls, or for calls on whole replicas, runs and edits.
    n: u64,
    steps: u64,
    bytes: u64,
    /// The calls that moved and allocated the most, which are those whose turn
    /// it was to have a vector reallocated. They aren't included in `bytes`,
    /// except for calls on whole replicas.
    top: [u64; 8],
}

impl Sum {
    fn add(&mut self, n: u64, since: (u64, u64), whole: bool) {
        let (s, b) = now();
        self.n += n;
        self.steps += s - since.0;
        let mut b = b - since.1;
        for t in &mut self.top {
            if !whole && *t < b {
                std::mem::swap(t, &mut b);
            }
        }
        self.bytes += b;
    }
}

/// By kind of call, for each doubling of the history.
#[derive(Default)]
pub struct Meter {
    now: BTreeMap<&'static str, Sum>,
    base: BTreeMap<&'static str, Vec<Sum>>,
    windows: usize,
}

/// How many windows tell what a call costs to begin with.
const BASE: usize = 2;

impl Meter {
    fn run<T>(&mut self, kind: &'static str, n: u64, f: impl FnOnce() -> T) -> T {
        let since = now();
        let t = f();
        self.now.entry(kind).or_default().add(n, since, n > 1);
        t
    }

    /// The history has doubled: no kind of call should have got much dearer.
    fn window(&mut self, size: usize, what: &str, out: &mut Outcome) -> R<()> {
        self.windows += 1;
        for (kind, s) in std::mem::take(&mut self.now) {
            if s.n < 100 {
                continue;
            }
            out.add("costs_compared", 1);
            out.add("calls_measured", s.n);
            out.add("steps_counted", s.steps);
            out.max(&format!("largest_steps_{kind}"), s.steps / s.n);
            let base = self.base.entry(kind).or_default();
            if base.len() < BASE {
                base.push(s);
                continue;
            }
            let of = |f: fn(&Sum) -> u64| base.iter().map(|x| f(x) / x.n).max().unwrap();
            let (steps, bytes) = (of(|x| x.steps), of(|x| x.bytes));
            out.max(&format!("largest_growth_percent_{kind}"), s.steps * 100 / s.n / (steps + 30));
            out.max(&format!("largest_bytes_growth_percent_{kind}"), s.bytes * 100 / s.n / (bytes + 500));
            if s.steps / s.n > 2 * steps + 100 {
                return bad(O_COST, format!("{what}: after {size} edits {kind} takes {} steps on average, but only {steps} at first (over {} calls)", s.steps / s.n, s.n));
            }
            if s.bytes / s.n > 4 * bytes + 3000 {
                return bad(O_COST, format!("{what}: after {size} edits {kind} moves and allocates {} bytes on average, but only {bytes} at first (over {} calls)", s.bytes / s.n, s.n));
            }
        }
        Ok(())
    }
}

enum Edit {
    I(Insertion),
    D(Deletion),
}

fn integrate(m: &mut Meter, p: &mut Replica, e: &Edit, kinds: [&'static str; 2]) {
    match e {
        Edit::I(x) => drop(m.run(kinds[0], 1, || p.integrate_insertion(x))),
        Edit::D(x) => drop(m.run(kinds[1], 1, || p.integrate_deletion(x))),
    }
}

fn drain(m: &mut Meter, p: &mut Replica) -> usize {
    let since = now();
    let mut n = 0;
    loop {
        let k = p.backlogged_insertions().count() + p.backlogged_deletions().count();
        n += k;
        if k == 0 {
            break;
        }
    }
    m.now.entry("drain").or_default().add(1 + n as u64, since, false);
    n
}

/// Calls whose cost is in proportion to the state's size.
fn whole(m: &mut Meter, p: &Replica, id: u64, extra: usize) -> R<()> {
    let n = (p.num_runs() + extra) as u64;
    drop(m.run("clone", n, || p.clone()));
    drop(m.run("fork", n, || p.fork(id)));
    let e = m.run("encode", n, || p.encode());
    match m.run("decode", n, || Replica::decode(id, &e)) {
        Ok(d) if d.len() == p.len() => Ok(()),
        _ => bad(O_COST | O_DECODE, "the replica can't be decoded".into()),
    }
}

const LOCAL: [&str; 2] = ["integrate_insertion", "integrate_deletion"];
const LATE: [&str; 2] = ["late_insertion", "late_deletion"];
const AGAIN: [&str; 2] = ["insertion_again", "deletion_again"];

/// A few authors all over a document of ever more runs.
fn authors(r: &mut Rng, top: u32, out: &mut Outcome) -> R<()> {
    let n_peers = *r.pick(&[1, 2, 2, 3, 8]);
    let lag = *r.pick(&[1, 1, 8, 64]);
    let shuffle = r.chance(0.4);
    let place = r.below(6);
    let del = *r.pick(&[0.0, 0.1, 0.3, 0.5]);
    let ins_len = *r.pick(&[1, 1, 5, 40]);
    let init = *r.pick(&[0, 100, 1 << 30]);
    // If much is deleted, a range of some visible characters comes to span ever
    // more deleted ones.
    let wide = if place == 0 && del < 0.2 { *r.pick(&[1, 3, 10]) } else { 1 };
    let shred = init > 100 && r.chance(0.3);
    let what = format!("{n_peers} authors exchanging edits every {lag} edits{}, inserting {ins_len} characters {}, deleting {del} of the time",
        if shuffle { " in any order" } else { "" }, ["anywhere", "at places they stay at", "at the start", "at the end", "in the middle", "around a moving place"][place]);
    let mut ids: Vec<u64> = (0..n_peers + 2).map(|_| if r.chance(0.5) { r.range(1, 200) as u64 } else { r.next() | 1 }).collect();
    ids.sort();
    ids.dedup();
    let mut ps: Vec<Replica> = vec![Replica::new(ids[0], init)];
    for id in &ids[1..] {
        let p = ps[0].fork(*id);
        ps.push(p);
    }
    // The last one doesn't edit, and gets everything late and shuffled.
    let late = ps.len() - 1;
    let n_peers = late.min(n_peers);
    let mut log: Vec<(usize, Edit)> = vec![];
    let mut inbox: Vec<Vec<usize>> = vec![vec![]; ps.len()];
    let mut spots: Vec<usize> = (0..ps.len()).map(|_| r.below(init + 1)).collect();
    let mut anchors: Vec<Anchor> = vec![];
    let mut m = Meter::default();
    for k in 9..=top {
        let size = 1usize << k;
        while log.len() < size {
            let p = r.below(n_peers);
            let n = ps[p].len();
            let at = match place {
                0 => r.below(n + 1),
                1 => spots[p].min(n),
                2 => 0,
                3 => n,
                4 => n / 2,
                _ => {
                    if r.chance(0.02) {
                        spots[p] = r.below(n + 1);
                    }
                    (spots[p] + r.below(5)).min(n)
                },
            };
            if n > 0 && (r.chance(del) || (shred && r.chance(0.8))) {
                let w = r.range(1, wide);
                let at = at.min(n - 1);
                let end = (at + w).min(n);
                let d = m.run("deleted", 1, || ps[p].deleted(at..end));
                log.push((p, Edit::D(d)));
            } else {
                let len = r.range(1, ins_len);
                let i = m.run("inserted", 1, || ps[p].inserted(at, len));
                log.push((p, Edit::I(i)));
            }
            for q in 0..ps.len() {
                if q != p {
                    inbox[q].push(log.len() - 1);
                }
            }
            out.note(at as u64);
            if log.len() % lag == 0 {
                for q in 0..late {
                    let mut todo = std::mem::take(&mut inbox[q]);
                    if shuffle {
                        r.shuffle(&mut todo);
                    }
                    for e in todo {
                        integrate(&mut m, &mut ps[q], &log[e].1, LOCAL);
                        if r.chance(0.1) {
                            drain(&mut m, &mut ps[q]);
                        }
                    }
                    drain(&mut m, &mut ps[q]);
                }
            }
            if log.len() % 256 == 0 {
                let mut todo = std::mem::take(&mut inbox[late]);
                r.shuffle(&mut todo);
                for e in todo {
                    integrate(&mut m, &mut ps[late], &log[e].1, LATE);
                }
                drain(&mut m, &mut ps[late]);
            }
            if r.chance(0.3) {
                let at = r.below(ps[p].len() + 1);
                // With a bias to the right it has to look for the next visible
                // character, past all the deleted ones.
                let b = if del == 0.0 && !shred && r.chance(0.5) { AnchorBias::Right } else { AnchorBias::Left };
                let a = m.run("create_anchor", 1, || ps[p].create_anchor(at, b));
                anchors.push(a);
                let a = anchors[r.below(anchors.len())];
                let q = r.below(ps.len());
                m.run("resolve_anchor", 1, || ps[q].resolve_anchor(a));
                let e = r.below(log.len());
                let q = r.below(ps.len());
                if !inbox[q].contains(&e) {
                    integrate(&mut m, &mut ps[q], &log[e].1, AGAIN);
                }
                m.run("len", 1, || ps[q].len());
                drain(&mut m, &mut ps[q]);
            }
        }
        out.add("edits_costed", (size / 2) as u64);
        let p = r.below(ps.len());
        whole(&mut m, &ps[p], 7 | 1 << 50, 0)?;
        m.window(size, &what, out)?;
    }
    out.max("largest_costed_runs", ps[0].num_runs() as u64);
    out.sample = what;
    Ok(())
}

/// Ever more authors of a few edits each, whom two replicas listen to.
fn crowd(r: &mut Rng, top: u32, out: &mut Outcome) -> R<()> {
    let init = 1 << 30;
    let each = *r.pick(&[1, 2, 4]);
    let del = *r.pick(&[0.0, 0.2]);
    let what = format!("ever more authors of {each} edits each, deleting {del} of the time");
    let base = Replica::new(1, init);
    let mut ps = [base.fork(2), base.fork(3)];
    // What a deletion costs may depend on the number of authors, as it says what
    // was there by each of them; the same goes for a pass over the backlog.
    let (mut m, mut free) = (Meter::default(), Meter::default());
    let mut n = 0usize;
    for k in 9..=top.min(15) {
        let size = 1usize << k;
        while n < size {
            let mut a = base.fork(if r.chance(0.5) { r.next() | 1 << 40 } else { 10 + n as u64 });
            let mut es = vec![];
            for _ in 0..each {
                let at = r.below(init / 2);
                es.push(if r.chance(del) { Edit::D(a.deleted(at..at + 1)) } else { Edit::I(a.inserted(at, 1)) });
                n += 1;
                out.note(at as u64);
            }
            for e in &es {
                integrate(if let Edit::I(_) = e { &mut m } else { &mut free }, &mut ps[0], e, LOCAL);
            }
            for e in es.iter().rev() {
                integrate(if let Edit::I(_) = e { &mut m } else { &mut free }, &mut ps[1], e, LATE);
            }
            drain(&mut free, &mut ps[1]);
            drain(&mut free, &mut ps[0]);
            if r.chance(0.2) {
                let p = r.below(2);
                let at = r.below(init / 2);
                let i = m.run("inserted", 1, || ps[p].inserted(at, 1));
                let d = free.run("deleted", 1, || ps[p].deleted(at + 100..at + 101));
                integrate(&mut m, &mut ps[1 - p], &Edit::I(i), LOCAL);
                integrate(&mut free, &mut ps[1 - p], &Edit::D(d), LOCAL);
            }
        }
        out.add("edits_costed", (size / 2) as u64);
        whole(&mut m, &ps[0], 7 | 1 << 50, n)?;
        m.window(size, &what, out)?;
    }
    out.max("largest_costed_authors", (n / each) as u64);
    out.sample = what;
    Ok(())
}

/// Ever more edits held for want of the first one, then let go.
fn held(r: &mut Rng, top: u32, out: &mut Outcome) -> R<()> {
    let n_peers = *r.pick(&[1, 1, 2, 5]);
    // What was inserted at one place concurrently has to be put in order.
    let place = if n_peers > 1 { 0 } else { r.below(3) };
    let del = *r.pick(&[0.0, 0.2, 0.5]);
    let local = *r.pick(&[0, 16, 256]);
    let what = format!("holding the edits of {n_peers} authors, {}, deleting {del} of the time", if local == 0 { "in order".into() } else { format!("shuffled in groups of {local}") });
    let init = if n_peers > 1 { 1 << 30 } else { 1000 };
    let base = Replica::new(1, init);
    let mut m = Meter::default();
    for k in 9..=top.min(15) {
        let size = 1usize << k;
        let mut ps: Vec<Replica> = (0..n_peers).map(|i| base.fork(10 + i as u64)).collect();
        let mut first: Vec<Edit> = vec![];
        let mut rest: Vec<Edit> = vec![];
        for p in &mut ps {
            first.push(Edit::I(p.inserted(r.below(init), 1)));
        }
        let mut rec = base.fork(2);
        for _ in 0..size {
            let p = r.below(n_peers);
            let n = ps[p].len();
            let at = match place {
                0 => r.below(n),
                1 => n / 2,
                _ => 0,
            };
            rest.push(if r.chance(del) { Edit::D(ps[p].deleted(at..at + 1)) } else { Edit::I(ps[p].inserted(at, r.range(1, 3))) });
            out.note(at as u64);
        }
        if local > 0 {
            for c in rest.chunks_mut(local) {
                r.shuffle(c);
            }
        }
        for (i, e) in rest.iter().enumerate() {
            integrate(&mut m, &mut rec, e, LATE);
            if i % 8 == 7 {
                // Nothing to be had.
                let n = m.run("idle_drain", 1, || rec.backlogged_insertions().count() + rec.backlogged_deletions().count());
                out.add("yielded_while_waiting", n as u64);
            }
            if i % 16 == 3 {
                integrate(&mut m, &mut rec, &rest[r.below(i)], AGAIN);
            }
        }
        whole(&mut m, &rec, 7 | 1 << 50, size)?;
        for e in &first {
            integrate(&mut m, &mut rec, e, LOCAL);
        }
        let n = drain(&mut m, &mut rec);
        out.add("held_and_let_go", n as u64);
        out.add("edits_costed", size as u64);
        m.window(size, &what, out)?;
    }
    out.sample = what;
    Ok(())
}

pub fn cost(r: &mut Rng, thorough: bool) -> R<Outcome> {
    let mut out = Outcome::default();
    let top = if thorough { *r.pick(&[15, 16, 17, 18]) } else { *r.pick(&[14, 15, 16]) };
    match r.below(8) {
        0 => crowd(r, top, &mut out)?,
        1 | 2 => held(r, top, &mut out)?,
        _ => authors(r, top, &mut out)?,
    }
    out.nontrivial = out.counters.get("steps_counted").copied().unwrap_or(0) > 0;
    Ok(out)
}
