use alloc::collections::VecDeque;
use core::ops::Range;

use crate::*;

/// A [`Replica`]'s backlog of remote edits that have been received from other
/// replicas but have not yet been merged.
///
/// See [`Replica::backlogged`] for more information.
#[derive(Debug, Clone, Default, PartialEq)]
pub(crate) struct Backlog {
    insertions: ReplicaIdMap<InsertionsBacklog>,
    deletions: ReplicaIdMap<DeletionsBacklog>,
}

impl Backlog {
    pub fn assert_invariants(
        &self,
        version_map: &VersionMap,
        deletion_map: &DeletionMap,
    ) {
        for (&id, insertions) in self.insertions.iter() {
            insertions.assert_invariants(id, version_map);
        }
        for (&id, deletions) in self.deletions.iter() {
            deletions.assert_invariants(id, deletion_map);
        }
    }

    /// Inserts a new [`Deletion`] into the backlog.
    ///
    /// Runs in `O(n)` in the number of deletions already in the backlog, with
    /// a best-case of `O(log n)`.
    ///
    /// It's a no-op if the deletion has already been backlogged.
    #[inline]
    pub fn insert_deletion(&mut self, deletion: Deletion) {
        self.deletions
            .entry(deletion.deleted_by())
            .or_default()
            .insert(deletion);
    }

    /// Inserts a new [`Insertion`] into the backlog.
    ///
    /// Runs in `O(n)` in the number of insertions already in the backlog, with
    /// a best-case of `O(log n)`.
    ///
    /// It's a no-op if the insertion has already been backlogged.
    #[inline]
    pub fn insert_insertion(&mut self, insertion: Insertion) {
        self.insertions
            .entry(insertion.inserted_by())
            .or_default()
            .insert(insertion);
    }

    /// Creates a new, empty `Backlog`.
    #[inline]
    pub fn new() -> Self {
        Self::default()
    }

    /// Returns the next insertion to be merged from the given replica.
    #[inline]
    pub fn first_insertion(&self, id: ReplicaId) -> Option<&Insertion> {
        self.insertions.get(&id)?.insertions.front()
    }

    /// Removes the next insertion to be merged from the given replica.
    #[inline]
    pub fn pop_first_insertion(&mut self, id: ReplicaId) -> Option<Insertion> {
        self.insertions.get_mut(&id)?.insertions.pop_front()
    }

    /// Returns the ids of all the replicas with at least one backlogged
    /// insertion.
    #[inline]
    pub fn replicas_with_insertions(&self) -> alloc::vec::IntoIter<ReplicaId> {
        self.insertions
            .iter()
            .filter(|(_, backlog)| !backlog.insertions.is_empty())
            .map(|(&id, _)| id)
            .collect::<Vec<_>>()
            .into_iter()
    }

    /// Removes the given [`Deletion`] from the backlog, if it's there.
    #[inline]
    pub fn remove_deletion(&mut self, deletion: &Deletion) {
        if let Some(deletions) = self.deletions.get_mut(&deletion.deleted_by())
        {
            deletions.remove(deletion);
        }
    }

    /// Removes the given [`Insertion`] from the backlog, if it's there.
    #[inline]
    pub fn remove_insertion(&mut self, insertion: &Insertion) {
        if let Some(insertions) =
            self.insertions.get_mut(&insertion.inserted_by())
        {
            insertions.remove(insertion);
        }
    }
}

/// Stores the backlogged [`Insertion`]s of a particular replica.
#[derive(Clone, Default, PartialEq)]
struct InsertionsBacklog {
    insertions: VecDeque<Insertion>,
}

impl core::fmt::Debug for InsertionsBacklog {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_list()
            .entries(self.insertions.iter().map(|i| i.text().temporal_range()))
            .finish()
    }
}

impl InsertionsBacklog {
    fn assert_invariants(&self, id: ReplicaId, version_map: &VersionMap) {
        let Some(first) = self.insertions.front() else {
            return;
        };

        assert!(version_map.get(id) <= first.start());

        let mut prev_end = 0;

        for insertion in &self.insertions {
            assert_eq!(insertion.inserted_by(), id);
            assert!(insertion.start() >= prev_end);
            prev_end = insertion.end();
        }
    }

    /// It's a no-op if the insertion has already been inserted.
    #[inline]
    fn insert(&mut self, insertion: Insertion) {
        if let Err(offset) = self.offset_of(&insertion) {
            self.insertions.insert(offset, insertion);
        }
    }

    #[inline]
    fn offset_of(&self, insertion: &Insertion) -> Result<usize, usize> {
        self.insertions
            .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
    }

    /// Removes the given insertion, if it was backlogged.
    #[inline]
    fn remove(&mut self, insertion: &Insertion) {
        if let Ok(offset) = self.offset_of(insertion) {
            self.insertions.remove(offset);
        }
    }
}

/// Stores the backlogged [`Deletion`]s of a particular replica.
#[derive(Clone, Default, PartialEq)]
struct DeletionsBacklog {
    deletions: VecDeque<Deletion>,
}

impl core::fmt::Debug for DeletionsBacklog {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_list()
            .entries(self.deletions.iter().map(|d| d.deletion_ts()))
            .finish()
    }
}

impl DeletionsBacklog {
    fn assert_invariants(&self, id: ReplicaId, deletion_map: &DeletionMap) {
        let Some(first) = self.deletions.front() else {
            return;
        };

        assert!(deletion_map.get(id) <= first.deletion_ts());

        let mut prev_ts = 0;

        for deletion in &self.deletions {
            assert_eq!(deletion.deleted_by(), id);
            assert!(deletion.deletion_ts() > prev_ts);
            prev_ts = deletion.deletion_ts();
        }
    }

    /// It's a no-op if the deletion has already been inserted.
    #[inline]
    fn insert(&mut self, deletion: Deletion) {
        if let Err(offset) = self.offset_of(&deletion) {
            self.deletions.insert(offset, deletion);
        }
    }

    #[inline]
    fn offset_of(&self, deletion: &Deletion) -> Result<usize, usize> {
        self.deletions.binary_search_by(|probe| {
            probe.deletion_ts().cmp(&deletion.deletion_ts())
        })
    }

    /// Removes the given deletion, if it was backlogged.
    #[inline]
    fn remove(&mut self, deletion: &Deletion) {
        if let Ok(offset) = self.offset_of(deletion) {
            self.deletions.remove(offset);
        }
    }
}

/// An iterator over the backlogged deletions that are ready to be
/// applied to a [`Replica`].
///
/// This struct is created by the
/// [`backlogged_deletions`](Replica::backlogged_deletions) method on
/// [`Replica`]. See its documentation for more information.
pub struct BackloggedDeletions<'a> {
    replica: &'a mut Replica,
    current: Option<&'a mut DeletionsBacklog>,
    iter: ReplicaIdMapValuesMut<'a, DeletionsBacklog>,
}

impl<'a> BackloggedDeletions<'a> {
    #[inline]
    pub(crate) fn from_replica(replica: &'a mut Replica) -> Self {
        let backlog = replica.backlog_mut();

        // We transmute the exclusive reference to the backlog into the same
        // type to get around the borrow checker.
        //
        // SAFETY: this is safe because in the `Iterator` implementation we
        // never access the backlog through the `Replica`, neither directly nor
        // by calling any methods on `Replica` that would access the backlog.
        let backlog = unsafe {
            core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
        };

        let mut iter = backlog.deletions.values_mut();

        let current = iter.next();

        Self { replica, iter, current }
    }
}

impl Iterator for BackloggedDeletions<'_> {
    type Item = Vec<Range<Length>>;

    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let deletions = self.current.as_mut()?;

            let can_merge_first = deletions
                .deletions
                .front()
                .is_some_and(|first| self.replica.can_merge_deletion(first));

            if !can_merge_first {
                self.current = self.iter.next();
                continue;
            }

            let first = deletions.deletions.pop_front().unwrap();
            let ranges = self.replica.merge_unchecked_deletion(&first);

            if !ranges.is_empty() {
                return Some(ranges);
            }
        }
    }
}

impl core::iter::FusedIterator for BackloggedDeletions<'_> {}

/// An iterator over the backlogged insertions that are ready to be
/// applied to a [`Replica`].
///
/// This struct is created by the
/// [`backlogged_insertion`](Replica::backlogged_insertions) method on
/// [`Replica`]. See its documentation for more information.
pub struct BackloggedInsertions<'a> {
    replica: &'a mut Replica,

    /// The replica whose insertions are currently being yielded.
    current: Option<ReplicaId>,

    /// The replicas that are still to be visited in the current pass.
    to_visit: alloc::vec::IntoIter<ReplicaId>,

    /// Whether any insertion has been merged in the current pass.
    has_merged: bool,
}

impl<'a> BackloggedInsertions<'a> {
    #[inline]
    pub(crate) fn from_replica(replica: &'a mut Replica) -> Self {
        let to_visit = replica.backlog_mut().replicas_with_insertions();
        Self { replica, current: None, to_visit, has_merged: false }
    }
}

impl Iterator for BackloggedInsertions<'_> {
    type Item = (Text, Length);

    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(insertion) = self
                .current
                .and_then(|id| self.replica.pop_ready_insertion(id))
            {
                self.has_merged = true;
                let edit = self.replica.merge_unchecked_insertion(&insertion);
                return Some((insertion.text().clone(), edit));
            }

            self.current = self.to_visit.next();

            // Merging an insertion can make those of the replicas we've
            // already visited ready to be merged, so we're not done until a
            // whole pass doesn't merge anything.
            if self.current.is_none() {
                if !self.has_merged {
                    return None;
                }
                self.has_merged = false;
                self.to_visit =
                    self.replica.backlog_mut().replicas_with_insertions();
            }
        }
    }
}

impl core::iter::FusedIterator for BackloggedInsertions<'_> {}

#[cfg(feature = "encode")]
pub(crate) mod encode {
    use super::*;
    use crate::encode::{Decode, DecodeWithCtx, Encode, IntDecodeError};
    use crate::version_map::encode::BaseMapDecodeError;

    impl InsertionsBacklog {
        #[inline(always)]
        fn iter(&self) -> impl Iterator<Item = &Insertion> + '_ {
            self.insertions.iter()
        }

        #[inline(always)]
        fn len(&self) -> usize {
            self.insertions.len()
        }

        #[inline(always)]
        fn push(&mut self, insertion: Insertion) {
            self.insertions.push_back(insertion);
        }
    }

    impl DeletionsBacklog {
        #[inline(always)]
        fn iter(&self) -> impl Iterator<Item = &Deletion> + '_ {
            self.deletions.iter()
        }

        #[inline(always)]
        fn len(&self) -> usize {
            self.deletions.len()
        }

        #[inline(always)]
        fn push(&mut self, deletion: Deletion) {
            self.deletions.push_back(deletion);
        }
    }

    impl Encode for Backlog {
        #[inline]
        fn encode(&self, buf: &mut Vec<u8>) {
            (self.insertions.len() as u64).encode(buf);

            for (id, insertions) in &self.insertions {
                ReplicaIdInsertions::new(*id, insertions).encode(buf);
            }

            (self.deletions.len() as u64).encode(buf);

            for (id, deletions) in &self.deletions {
                ReplicaIdDeletions::new(*id, deletions).encode(buf);
            }
        }
    }

    pub(crate) enum BacklogDecodeError {
        Int(IntDecodeError),
        VersionMap(BaseMapDecodeError<Length>),
    }

    impl From<IntDecodeError> for BacklogDecodeError {
        #[inline(always)]
        fn from(err: IntDecodeError) -> Self {
            Self::Int(err)
        }
    }

    impl From<BaseMapDecodeError<Length>> for BacklogDecodeError {
        #[inline(always)]
        fn from(err: BaseMapDecodeError<Length>) -> Self {
            Self::VersionMap(err)
        }
    }

    impl core::fmt::Display for BacklogDecodeError {
        #[inline]
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            let err: &dyn core::fmt::Display = match self {
                Self::VersionMap(err) => err,
                Self::Int(err) => err,
            };

            write!(f, "Backlog: couldn't be decoded: {err}")
        }
    }

    impl Decode for Backlog {
        type Value = Self;

        type Error = BacklogDecodeError;

        #[inline]
        fn decode(buf: &[u8]) -> Result<(Self::Value, &[u8]), Self::Error> {
            let (num_replicas, mut buf) = u64::decode(buf)?;

            let mut insertions = ReplicaIdMap::default();

            for _ in 0..num_replicas {
                let ((), new_buf) =
                    ReplicaIdInsertions::decode(buf, &mut insertions)?;
                buf = new_buf;
            }

            let (num_replicas, mut buf) = u64::decode(buf)?;

            let mut deletions = ReplicaIdMap::default();

            for _ in 0..num_replicas {
                let ((), new_buf) =
                    ReplicaIdDeletions::decode(buf, &mut deletions)?;
                buf = new_buf;
            }

            let this = Self { insertions, deletions };

            Ok((this, buf))
        }
    }

    struct ReplicaIdInsertions<'a> {
        replica_id: ReplicaId,
        insertions: &'a InsertionsBacklog,
    }

    impl<'a> ReplicaIdInsertions<'a> {
        #[inline]
        fn new(
            replica_id: ReplicaId,
            insertions: &'a InsertionsBacklog,
        ) -> Self {
            Self { replica_id, insertions }
        }
    }

    impl Encode for ReplicaIdInsertions<'_> {
        #[inline]
        fn encode(&self, buf: &mut Vec<u8>) {
            self.replica_id.encode(buf);

            (self.insertions.len() as u64).encode(buf);

            for insertion in self.insertions.iter() {
                insertion.anchor().encode(buf);
                let range = insertion.text().temporal_range();
                range.start.encode(buf);
                range.len().encode(buf);
                insertion.run_ts().encode(buf);
                insertion.lamport_ts().encode(buf);
            }
        }
    }

    impl DecodeWithCtx for ReplicaIdInsertions<'_> {
        type Value = ();

        type Ctx = ReplicaIdMap<InsertionsBacklog>;

        type Error = BacklogDecodeError;

        #[inline]
        fn decode<'buf>(
            buf: &'buf [u8],
            ctx: &mut Self::Ctx,
        ) -> Result<((), &'buf [u8]), Self::Error> {
            let (replica_id, buf) = ReplicaId::decode(buf)?;

            let (num_insertions, mut buf) = u64::decode(buf)?;

            let mut insertions = InsertionsBacklog::default();

            for _ in 0..num_insertions {
                let (anchor, new_buf) = InnerAnchor::decode(buf)?;
                let (start, new_buf) = Length::decode(new_buf)?;
                let (len, new_buf) = Length::decode(new_buf)?;
                let (run_ts, new_buf) = RunTs::decode(new_buf)?;
                let (lamport_ts, new_buf) = LamportTs::decode(new_buf)?;

                let end =
                    start.checked_add(len).ok_or(IntDecodeError::Overflow)?;

                let insertion = Insertion::new(
                    anchor,
                    Text::new(replica_id, start..end),
                    lamport_ts,
                    run_ts,
                );

                insertions.push(insertion);

                buf = new_buf;
            }

            ctx.insert(replica_id, insertions);

            Ok(((), buf))
        }
    }

    struct ReplicaIdDeletions<'a> {
        replica_id: ReplicaId,
        deletions: &'a DeletionsBacklog,
    }

    impl<'a> ReplicaIdDeletions<'a> {
        #[inline]
        fn new(
            replica_id: ReplicaId,
            deletions: &'a DeletionsBacklog,
        ) -> Self {
            Self { replica_id, deletions }
        }
    }

    impl Encode for ReplicaIdDeletions<'_> {
        #[inline]
        fn encode(&self, buf: &mut Vec<u8>) {
            self.replica_id.encode(buf);

            (self.deletions.len() as u64).encode(buf);

            for deletion in self.deletions.iter() {
                deletion.start().encode(buf);
                deletion.end().encode(buf);
                deletion.version_map().encode(buf);
                deletion.deletion_ts().encode(buf);
            }
        }
    }

    impl DecodeWithCtx for ReplicaIdDeletions<'_> {
        type Value = ();

        type Ctx = ReplicaIdMap<DeletionsBacklog>;

        type Error = BacklogDecodeError;

        #[inline]
        fn decode<'buf>(
            buf: &'buf [u8],
            ctx: &mut Self::Ctx,
        ) -> Result<((), &'buf [u8]), Self::Error> {
            let (replica_id, buf) = ReplicaId::decode(buf)?;

            let (num_deletions, mut buf) = u64::decode(buf)?;

            let mut deletions = DeletionsBacklog::default();

            for _ in 0..num_deletions {
                let (start, new_buf) = InnerAnchor::decode(buf)?;
                let (end, new_buf) = InnerAnchor::decode(new_buf)?;
                let (version_map, new_buf) = VersionMap::decode(new_buf)?;
                let (deletion_ts, new_buf) = DeletionTs::decode(new_buf)?;

                let deletion =
                    Deletion::new(start, end, version_map, deletion_ts);

                deletions.push(deletion);

                buf = new_buf;
            }

            ctx.insert(replica_id, deletions);

            Ok(((), buf))
        }
    }
}

#[cfg(feature = "serde")]
mod serde {
    crate::encode::impl_serialize!(super::Backlog);
    crate::encode::impl_deserialize!(super::Backlog);
}
