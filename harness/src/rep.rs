//! A replica seen through a magnifying glass: every character of the simulated
//! session is `k` units of text for the replica.  Offsets and ranges are
//! multiplied on their way in, divided on their way out.

use cola::{Anchor, AnchorBias, DecodeError, Deletion, EncodedReplica, Insertion, Text};
use std::ops::{Bound, Range, RangeBounds};

#[derive(Clone)]
pub struct Replica {
    pub r: cola::Replica,
    pub k: usize,
}

fn div(x: usize, k: usize, what: &str) -> usize {
    if x % k != 0 {
        panic!("{what} {x}: all lengths and offsets of this session are multiples of {k}");
    }
    x / k
}

fn down(r: Range<usize>, k: usize, what: &str) -> Range<usize> {
    div(r.start, k, what)..div(r.end, k, what)
}

pub fn text_range(t: &Text, k: usize) -> Range<usize> {
    down(t.temporal_range(), k, "a text's range includes")
}

impl Replica {
    pub fn new(id: u64, len: usize, k: usize) -> Self {
        Self { r: cola::Replica::new(id, len * k), k }
    }
    /// A replica which has made `n` edits, all of it deleted since, except for
    /// `len` characters inserted at the end.  Also returns some of the edits.
    pub fn aged(id: u64, len: usize, k: usize, n: usize, kind: usize) -> (Self, Vec<(Option<Insertion>, Option<Deletion>)>) {
        let mut r = cola::Replica::new(id, 0);
        let mut old = vec![];
        for i in 0..n {
            let keep = i < 2 || i + 2 > n || i % 4999 == 0 || i == n - 1000 || i == n - 256;
            // Always at the start, so that each is a run of its own..
            let ins = r.inserted(0, k);
            if keep {
                old.push((Some(ins), None));
            }
            let del = match kind {
                0 => r.deleted(0..k),
                1 if i % 100 == 99 => r.deleted(..),
                _ => continue,
            };
            if keep || (kind == 1 && i % 5000 == 99) {
                old.push((None, Some(del)));
            }
        }
        let _ = r.deleted(..);
        let _ = r.inserted(0, len * k);
        (Self { r, k }, old)
    }
    pub fn decode(id: u64, e: &EncodedReplica, k: usize) -> Result<Self, DecodeError> {
        cola::Replica::decode(id, e).map(|r| Self { r, k })
    }
    pub fn fork(&self, id: u64) -> Self {
        Self { r: self.r.fork(id), k: self.k }
    }
    pub fn encode(&self) -> EncodedReplica<'static> {
        self.r.encode()
    }
    pub fn id(&self) -> u64 {
        self.r.id()
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> usize {
        div(self.r.len(), self.k, "a document's length is")
    }
    pub fn num_runs(&self) -> usize {
        self.r.num_runs()
    }
    pub fn assert_invariants(&self) {
        self.r.assert_invariants()
    }
    pub fn eq_decoded(&self, o: &Self) -> bool {
        self.r.eq_decoded(&o.r)
    }
    pub fn inserted(&mut self, off: usize, len: usize) -> Insertion {
        self.r.inserted(off.saturating_mul(self.k), len * self.k)
    }
    pub fn deleted<B: RangeBounds<usize>>(&mut self, b: B) -> Deletion {
        let k = self.k;
        let m = |x: usize| x.saturating_mul(k);
        let s = match b.start_bound() {
            Bound::Included(&x) => Bound::Included(m(x)),
            Bound::Excluded(&x) => Bound::Excluded(m(x).saturating_add(k - 1)),
            Bound::Unbounded => Bound::Unbounded,
        };
        let e = match b.end_bound() {
            Bound::Included(&x) => Bound::Included(m(x).saturating_add(k - 1)),
            Bound::Excluded(&x) => Bound::Excluded(m(x)),
            Bound::Unbounded => Bound::Unbounded,
        };
        self.r.deleted((s, e))
    }
    pub fn integrate_insertion(&mut self, i: &Insertion) -> Option<usize> {
        self.r.integrate_insertion(i).map(|x| div(x, self.k, "an insertion was integrated at"))
    }
    pub fn integrate_deletion(&mut self, d: &Deletion) -> Vec<Range<usize>> {
        let k = self.k;
        self.r.integrate_deletion(d).into_iter().map(|x| down(x, k, "a deleted range includes")).collect()
    }
    pub fn backlogged_insertions(&mut self) -> impl Iterator<Item = (Text, usize)> + '_ {
        let k = self.k;
        self.r.backlogged_insertions().map(move |(t, x)| (t, div(x, k, "an insertion came out of the backlog at")))
    }
    pub fn backlogged_deletions(&mut self) -> impl Iterator<Item = Vec<Range<usize>>> + '_ {
        let k = self.k;
        self.r.backlogged_deletions().map(move |v| v.into_iter().map(|x| down(x, k, "a deleted range includes")).collect())
    }
    pub fn create_anchor(&self, off: usize, b: AnchorBias) -> Anchor {
        self.r.create_anchor(off.saturating_mul(self.k), b)
    }
    pub fn resolve_anchor(&self, a: Anchor) -> Option<usize> {
        self.r.resolve_anchor(a).map(|x| div(x, self.k, "an anchor resolves to"))
    }
}
