//! A session some of whose peers run this build and some a frozen copy of the
//! release with the same protocol number (../reference). Each has a follower on
//! the other build which gets the same edits, its own ones included, all of them
//! serialized by either of the two builds.

use crate::rng::Rng;
use crate::scen::{odd_ids, Outcome};
use crate::sim::*;
use cola::{Anchor, AnchorBias, DecodeError, Deletion, EncodedReplica, Insertion, Replica};
use cola_reference as old;
use serde::de::DeserializeOwned;
use serde::Serialize;

/// A value as the two builds have it, and the same having been at the other.
struct Twice<A, B> {
    new: [A; 2],
    old: [B; 2],
}

fn bin<A: Serialize, B: DeserializeOwned>(x: &A, json: bool) -> Result<B, String> {
    if json {
        let s = serde_json::to_string(x).map_err(|e| e.to_string())?;
        serde_json::from_str(&s).map_err(|e| e.to_string())
    } else {
        let cfg = bincode::config::standard();
        let v = bincode::serde::encode_to_vec(x, cfg).map_err(|e| e.to_string())?;
        let (y, n) = bincode::serde::decode_from_slice(&v, cfg).map_err(|e| e.to_string())?;
        if n == v.len() { Ok(y) } else { Err(format!("{n} bytes read of {}", v.len())) }
    }
}

impl<A, B> Twice<A, B>
where
    A: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
    B: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    fn from_new(a: A, json: bool, out: &mut Outcome) -> R<Self> {
        let b: B = match bin(&a, json) {
            Ok(b) => b,
            Err(e) => return bad(O_COMPAT, format!("the reference can't deserialize {a:?}: {e}")),
        };
        Self::new(a, b, json, out)
    }

    fn from_old(b: B, json: bool, out: &mut Outcome) -> R<Self> {
        let a: A = match bin(&b, json) {
            Ok(a) => a,
            Err(e) => return bad(O_COMPAT, format!("{b:?}, serialized by the reference, can't be deserialized: {e}")),
        };
        Self::new(a, b, json, out)
    }

    fn new(a: A, b: B, json: bool, out: &mut Outcome) -> R<Self> {
        let x: Result<A, String> = bin(&b, json);
        let y: Result<B, String> = bin(&a, json);
        let (x, y) = match (x, y) {
            (Ok(x), Ok(y)) if x == a && y == b => (x, y),
            (x, y) => return bad(O_COMPAT, format!("{b:?} from the reference becomes {x:?}, and {a:?} becomes {y:?} there")),
        };
        out.add("exchanged_values", 2);
        Ok(Self { new: [a, x], old: [b, y] })
    }
}

enum E {
    I(Twice<Insertion, old::Insertion>),
    D(Twice<Deletion, old::Deletion>),
}

/// Two replicas with the same edits.
struct P {
    new: Replica,
    old: old::Replica,
    /// Which of them is the peer and which the follower.
    is_new: bool,
}

fn protocols(n: &Replica, o: &old::Replica, out: &mut Outcome) -> R<bool> {
    let (x, y) = (n.encode(), o.encode());
    let a = Replica::decode(1 << 30, &EncodedReplica::from_bytes(y.as_bytes()));
    let b = old::Replica::decode(1 << 30, &old::EncodedReplica::from_bytes(x.as_bytes()));
    match (a, b) {
        (Ok(_), Ok(_)) => Ok(true),
        (Err(DecodeError::DifferentProtocol { encoded_on: e, decoding_on: d }), Err(old::DecodeError::DifferentProtocol { encoded_on: e2, decoding_on: d2 })) if e == d2 && d == e2 && e != d => {
            // Then they needn't understand each other.
            out.add("other_protocol", 1);
            Ok(false)
        },
        (a, b) => bad(O_COMPAT, format!("the reference's encoding decodes to {a:?}, and this one's at the reference to {b:?}")),
    }
}

pub fn mixed(r: &mut Rng, steps: usize) -> R<Outcome> {
    let mut out = Outcome::default();
    let k = *r.pick(&[1, 1, 1, 60, 10_000, 1 << 20, (1 << 33) + 7, 1 << 45]);
    let mut free = if r.chance(0.5) { (1..=64).collect() } else { odd_ids(r) };
    let mut id = |r: &mut Rng| if free.is_empty() { None } else { Some(free.swap_remove(r.below(free.len()))) };
    let init = *r.pick(&[0, 1, 10, 100, 4000]) * k;
    let mut json = r.chance(0.5);
    let first = if r.chance(0.5) {
        let new = Replica::new(id(r).unwrap(), init);
        if !protocols(&new, &old::Replica::new(1 << 31, init), &mut out)? {
            out.nontrivial = true;
            out.sample = "another protocol version than the reference's".into();
            return Ok(out);
        }
        let e = new.encode();
        let old = old::Replica::decode(id(r).unwrap(), &old::EncodedReplica::from_bytes(e.as_bytes())).unwrap();
        P { new, old, is_new: true }
    } else {
        let old = old::Replica::new(id(r).unwrap(), init);
        if !protocols(&Replica::new(1 << 31, init), &old, &mut out)? {
            out.nontrivial = true;
            out.sample = "another protocol version than the reference's".into();
            return Ok(out);
        }
        let e = old.encode();
        let new = Replica::decode(id(r).unwrap(), &EncodedReplica::from_bytes(e.as_bytes())).unwrap();
        P { new, old, is_new: false }
    };
    let n_peers = *r.pick(&[1, 2, 2, 3, 4, 8]);
    let mut ps = vec![first];
    for _ in 1..n_peers {
        let p = P { new: ps[0].new.fork(id(r).unwrap()), old: ps[0].old.fork(id(r).unwrap()), is_new: r.chance(0.5) };
        ps.push(p);
    }
    let mut log: Vec<E> = vec![];
    let mut inbox: Vec<Vec<usize>> = vec![vec![]; n_peers];
    let mut anchors: Vec<Twice<Anchor, old::Anchor>> = vec![];
    macro_rules! same {
        ($a:expr, $b:expr, $($t:tt)*) => {{
            let (a, b) = ($a, $b);
            out.add("outputs_compared", 1);
            if a != b {
                return bad(O_COMPAT, format!("{} gives {a:?}, but {b:?} at the reference", format!($($t)*)));
            }
        }};
    }
    let del = r.range(1, 6) as u32;
    let spread = r.chance(0.5);
    for _ in 0..steps {
        let p = r.below(n_peers);
        let n = ps[p].new.len();
        if r.chance(0.02) {
            json = !json;
        }
        match r.weighted(&[8, del, 14, 3, 2, 1, 1]) {
            0 => {
                let off = if spread { r.below(n + 1) } else { (r.below(8) * k).min(n) };
                let len = r.range(1, 5 * k);
                let e = if ps[p].is_new {
                    let e = Twice::<_, old::Insertion>::from_new(ps[p].new.inserted(off, len), json, &mut out)?;
                    same!(Some(off), ps[p].old.integrate_insertion(&e.old[0]), "inserted({off}, {len})");
                    e
                } else {
                    let e = Twice::<Insertion, _>::from_old(ps[p].old.inserted(off, len), json, &mut out)?;
                    same!(ps[p].new.integrate_insertion(&e.new[0]), Some(off), "inserted({off}, {len})");
                    e
                };
                let (x, y) = (e.new[0].text(), e.old[0].text());
                same!((x.inserted_by(), x.temporal_range()), (y.inserted_by(), y.temporal_range()), "the text of an insertion");
                out.note(off as u64 + 1);
                log.push(E::I(e));
                for q in 0..n_peers {
                    if q != p {
                        inbox[q].push(log.len() - 1);
                    }
                }
            },
            1 if n > 0 => {
                let s = r.below(n);
                let e = s + r.below(9 * k).min(n - s);
                let want = if s < e { vec![s..e] } else { vec![] };
                let d = if ps[p].is_new {
                    let d = Twice::<_, old::Deletion>::from_new(ps[p].new.deleted(s..e), json, &mut out)?;
                    same!(want, ps[p].old.integrate_deletion(&d.old[0]), "deleted({s}..{e})");
                    d
                } else {
                    let d = Twice::<Deletion, _>::from_old(ps[p].old.deleted(s..e), json, &mut out)?;
                    same!(ps[p].new.integrate_deletion(&d.new[0]), want, "deleted({s}..{e})");
                    d
                };
                out.note(s as u64 + 7777);
                log.push(E::D(d));
                for q in 0..n_peers {
                    if q != p {
                        inbox[q].push(log.len() - 1);
                    }
                }
            },
            2 => {
                for _ in 0..r.range(1, 8) {
                    if inbox[p].is_empty() {
                        break;
                    }
                    let i = if r.chance(0.7) { 0 } else { r.below(inbox[p].len()) };
                    let e = inbox[p].remove(i);
                    integrate(&mut ps[p], &log[e], r, &mut out)?;
                }
            },
            3 => {
                let P { new, old, .. } = &mut ps[p];
                let mut a: Vec<_> = new.backlogged_insertions().map(|(t, _)| (t.inserted_by(), t.temporal_range().start)).collect();
                let mut b: Vec<_> = old.backlogged_insertions().map(|(t, _)| (t.inserted_by(), t.temporal_range().start)).collect();
                a.sort();
                b.sort();
                same!(a, b, "going through the held insertions");
                let a: usize = new.backlogged_deletions().flatten().map(|x| x.len()).sum();
                let b: usize = old.backlogged_deletions().flatten().map(|x| x.len()).sum();
                same!(a, b, "going through the held deletions");
            },
            4 => {
                let off = r.below(n + 1);
                let left = r.chance(0.5);
                anchors.push(if ps[p].is_new {
                    let b = if left { AnchorBias::Left } else { AnchorBias::Right };
                    Twice::from_new(ps[p].new.create_anchor(off, b), json, &mut out)?
                } else {
                    let b = if left { old::AnchorBias::Left } else { old::AnchorBias::Right };
                    Twice::from_old(ps[p].old.create_anchor(off, b), json, &mut out)?
                });
                let q = r.below(n_peers);
                for _ in 0..3 {
                    let x = &anchors[r.below(anchors.len())];
                    same!(ps[q].new.resolve_anchor(x.new[r.below(2)]), ps[q].old.resolve_anchor(x.old[r.below(2)]), "resolve_anchor");
                }
            },
            5 => {
                // A peer is replaced by one that decodes the other build's state.
                let (mut x, mut y) = (ps[p].new.encode(), ps[p].old.encode());
                if r.chance(0.3) {
                    let a: Result<old::EncodedReplica<'static>, String> = bin(&x, json);
                    let b: Result<EncodedReplica<'static>, String> = bin(&y, json);
                    match (a, b) {
                        (Ok(a), Ok(b)) => (x, y) = (b, a),
                        (a, b) => return bad(O_COMPAT, format!("an encoded replica of the other's can't be deserialized: {:?}, {:?}", a.err(), b.err())),
                    }
                } else {
                    let z = EncodedReplica::from_bytes(y.as_bytes()).to_static();
                    y = old::EncodedReplica::from_bytes(x.as_bytes()).to_static();
                    x = z;
                }
                let (Some(i), Some(j)) = (id(r), id(r)) else { continue };
                let (a, b) = (Replica::decode(i, &x), old::Replica::decode(j, &y));
                match (a, b) {
                    (Ok(new), Ok(old)) => {
                        same!(new.len(), old.len(), "decode, len");
                        out.add("exchanged_states", 2);
                        // Or a fork instead of one of them.
                        let P { new: n, old: o, .. } = &ps[p];
                        ps[p] = match r.below(3) {
                            0 => P { new: n.fork(i), old, is_new: r.chance(0.5) },
                            1 => P { new, old: o.fork(j), is_new: r.chance(0.5) },
                            _ => P { new, old, is_new: r.chance(0.5) },
                        };
                    },
                    (a, b) => return bad(O_COMPAT, format!("the reference's encoding decodes to {a:?}, and this one's at the reference to {b:?}")),
                }
            },
            _ if !log.is_empty() => {
                let e = r.below(log.len());
                integrate(&mut ps[p], &log[e], r, &mut out)?;
            },
            _ => {},
        }
        same!(ps[p].new.len(), ps[p].old.len(), "len");
    }
    for p in 0..n_peers {
        for e in std::mem::take(&mut inbox[p]) {
            integrate(&mut ps[p], &log[e], r, &mut out)?;
        }
        let P { new, old, .. } = &mut ps[p];
        while new.backlogged_insertions().count() + new.backlogged_deletions().count() > 0 {}
        while old.backlogged_insertions().count() + old.backlogged_deletions().count() > 0 {}
        same!(new.len(), old.len(), "len at the end");
        for x in &anchors {
            same!(new.resolve_anchor(x.new[0]), old.resolve_anchor(x.old[0]), "resolve_anchor at the end");
        }
    }
    out.note(k as u64);
    out.nontrivial = log.len() >= 10;
    out.sample = format!("{n_peers} peers, {} edits, {} anchors", log.len(), anchors.len());
    Ok(out)
}

fn integrate(p: &mut P, e: &E, r: &mut Rng, out: &mut Outcome) -> R<()> {
    out.add("outputs_compared", 1);
    let (a, b) = match e {
        E::I(x) => {
            let (a, b) = (p.new.integrate_insertion(&x.new[r.below(2)]), p.old.integrate_insertion(&x.old[r.below(2)]));
            (format!("{a:?}"), format!("{b:?}"))
        },
        E::D(x) => {
            let (a, b) = (p.new.integrate_deletion(&x.new[r.below(2)]), p.old.integrate_deletion(&x.old[r.below(2)]));
            (format!("{a:?}"), format!("{b:?}"))
        },
    };
    if a != b {
        return bad(O_COMPAT, format!("integrating an edit gives {a}, but {b} at the reference"));
    }
    Ok(())
}
