import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],"mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(observe),"hook_needed":None}})
HS="for all numbers of peers, all sequences of local edits, and all orders in which the network delivers each edit (delayed, reordered, duplicated)"
TESTS="The tests replay a few recorded traces and a handful of hand-written sessions with 2 to 5 peers, each delivered in one order; "
p("C01","Peers which integrated the same edits have the same text",
 "If two peers have integrated the same set of insertions and deletions, in whatever order these were delivered, held back and released, and have applied every returned offset and range to their own buffers, then their buffers hold exactly the same text. This holds at every such moment of a session and not only at its end, and however each peer joined it (from the start, as a fork of any other, or by decoding another's state).",
 ["schedules","histories"],HS,TESTS+"convergence depends on the interplay of the order of delivery, ties between concurrent insertions, runs being split and merged, and deletions of text split since, whose combinations no finite list covers.",
 ["src/replica.rs","src/run_tree.rs","src/gtree.rs","src/backlog.rs"],
 [("order of tied insertions","src/run_tree.rs: RunTree::merge_insertion, insert_run_at_zero, impl Ord for EditRun"),("deletion of the parts known to its author","src/run_tree.rs: RunTree::merge_deletion")],
 [("Gtree","all the runs in document order","src/gtree.rs"),("RunIndices","where the parts of each insertion are","src/run_indices.rs")],
 ["Replica::integrate_insertion","Replica::integrate_deletion","Replica::backlogged_insertions","Replica::backlogged_deletions"])
p("C02","One total order over all characters, respecting where each was typed",
 "There is one order over all the characters ever inserted in a session, deleted ones included, such that at any moment every peer's text is a subsequence of it; integrating an insertion places it exactly where that order says. In that order the text of an insertion is contiguous when created, after the character its author saw right before it and before the one its author saw right after it.",
 ["schedules","histories"],HS,TESTS+"they compare final texts, which can agree with each other while both are wrong, and never look at the order relative to deleted characters or at peers which have seen different subsets.",
 ["src/run_tree.rs","src/gtree.rs","src/anchor.rs","src/replica.rs"],
 [("insertions are anchored to the character before them","src/run_tree.rs: RunTree::insert"),("Lamport timestamps order concurrent insertions at one anchor","src/run_tree.rs: impl Ord for EditRun; src/replica.rs: LamportClock")],
 [("LamportClock","highest timestamp seen","src/replica.rs")],["Replica::integrate_insertion","Replica::backlogged_insertions"])
p("C03","Every edit takes effect exactly once; no text lost, duplicated or revived",
 "A peer which has integrated a set of edits shows exactly the characters those insertions inserted minus the ones those deletions deleted, each exactly once, and its replica's length is their number. Once it has integrated everything, nothing is left in its backlog and no edit has been returned twice or left out.",
 ["schedules","histories"],HS,TESTS+"they check specific final strings, not conservation over arbitrary histories of splits, merges and overlapping concurrent deletions.",
 ["src/replica.rs","src/run_tree.rs","src/gtree.rs","src/backlog.rs","src/version_map.rs"],
 [("edits the replica already has are recognised by its version","src/replica.rs: Replica::has_merged_insertion, has_merged_deletion"),("lengths are maintained along the path to the root","src/gtree.rs: Gtree::with_leaf_mut and friends")],
 [("VersionMap","how much of each replica's text is here","src/version_map.rs"),("DeletionMap","how many of each replica's deletions are here","src/version_map.rs")],
 ["Replica::len","Replica::integrate_insertion","Replica::integrate_deletion"])
p("C04","A deletion removes what its author deleted and nothing else",
 "Integrating a deletion returns exactly the ranges of the receiver's text which hold characters its author deleted and the receiver still shows, whatever was inserted concurrently in between and whatever was deleted since. The only other characters that may go with them are ones sitting between them which the deletion's author had already seen deleted and which were written by the author of the deletion or of some of the deleted text. The ranges are non-empty, sorted, disjoint and not adjacent, and all refer to the text as it was before the deletion.",
 ["schedules","histories"],HS,TESTS+"the ranges a deletion produces depend on how both the deleted text and what surrounds it have been cut by others, and on what its author had seen of each of them.",
 ["src/run_tree.rs","src/deletion.rs","src/replica.rs","src/gtree.rs"],
 [("a deletion carries the version its author had","src/deletion.rs: Deletion; src/run_tree.rs: RunTree::merge_deletion"),("both ends of the deleted range are anchored","src/run_tree.rs: RunTree::delete, delete_range")],
 [],["Replica::integrate_deletion","Replica::backlogged_deletions"])
p("C05","Runs of text inserted concurrently never interleave",
 "If several peers concurrently insert runs of text at the same place, by pasting or by typing one character after the other, each run stays contiguous in the merged text, except for what was later inserted within it by someone who had already seen it.",
 ["schedules","histories"],HS,TESTS+"one test inserts two runs at one place; anything with more authors, runs typed in pieces, insertions to the left of others or partially seen runs is unreached.",
 ["src/run_tree.rs","src/replica.rs"],
 [("text typed in a row shares a timestamp and extends one run","src/run_tree.rs: RunTree::insert, EditRun::can_append"),("tie breaking","src/run_tree.rs: impl Ord for EditRun, merge_insertion")],[],["Replica::integrate_insertion"])
p("C06","Integrating an edit again is a no-op",
 "Delivering an edit a replica already has, whether it has been integrated or is still being held, or one the replica itself made, returns nothing and changes nothing: not the text, not the length, and not what the backlog will return later. This holds however often and whenever it's delivered again.",
 ["schedules","fault_sequences"],HS+", with any number of redeliveries of any edits at any time","The tests redeliver one integrated insertion and one integrated deletion; redelivery while edits are held, after a fork or a decode, or of one's own edits isn't exercised.",
 ["src/replica.rs","src/backlog.rs","src/version_map.rs"],
 [("version checks","src/replica.rs: Replica::integrate_insertion, integrate_deletion"),("held edits are kept sorted and unique","src/backlog.rs: Backlog::insert_insertion, insert_deletion")],
 [("Backlog","the edits being held","src/backlog.rs")],["Replica::integrate_insertion","Replica::integrate_deletion","Replica::backlogged_insertions"])
p("C07","Early edits are held until, and only until, what they depend on is there",
 "An edit delivered before something it depends on (its author's previous edits of that kind, the text it was inserted in or deletes) returns nothing and changes nothing; one delivered after all of that is integrated at once. Once a held edit's dependencies have been integrated, going through the backlogged edits yields it exactly once, and a single pass yields all of those that can be integrated, including the ones enabled along the way. This holds for backlogs of any size.",
 ["schedules","fault_sequences"],HS+", with gaps of any size","The tests deliver a handful of edits in reverse; the readiness of an edit depends on its whole history, and backlogs of more than a few edits aren't exercised at all.",
 ["src/backlog.rs","src/replica.rs","src/version_map.rs"],
 [("readiness","src/replica.rs: Replica::can_merge_insertion, can_merge_deletion"),("the iterators over ready edits","src/backlog.rs: BackloggedInsertions, BackloggedDeletions")],
 [("Backlog","the edits being held","src/backlog.rs")],["Replica::backlogged_insertions","Replica::backlogged_deletions"])
p("C08","Anchors follow their character, at every replica",
 "An anchor created at an offset resolves, at any replica having the character it's attached to and at any later time, to the place right before or after that character depending on its bias, or to where it would be if it has been deleted, and to the start or end of the document if it was created there with the outward bias. At a replica which doesn't have that character yet it resolves to nothing. Anchors are unaffected by being serialized.",
 ["histories","schedules"],"for all offsets and biases at all moments of all sessions, resolved at all peers at all later moments","The tests create an anchor or two at a given offset and resolve them after one edit, mostly at the replica which created them.",
 ["src/anchor.rs","src/run_tree.rs","src/run_indices.rs","src/replica.rs"],
 [("anchors name a character by author and offset","src/run_tree.rs: RunTree::create_anchor, resolve_anchor"),("which of two parts holds the boundary depends on the bias","src/run_indices.rs: RunIndices::idx_at_anchor")],
 [],["Replica::create_anchor","Replica::resolve_anchor"])
p("C09","Forks and clones carry the whole state and nothing else",
 "A fork, whenever it's made, behaves from then on exactly as its original would under a new identity: given the same calls both return the same offsets, ranges and anchors, including what comes out of the backlog held at the time. Edits made on one never affect the other, the fork's own edits are accepted by every peer of the session, and a clone is indistinguishable from its original.",
 ["histories","programs"],"for all sessions, all moments a fork is made at (including with edits being held, and forks of forks), all identities not yet in use and all later calls on both","The tests fork only freshly created replicas, before anything has happened.",
 ["src/replica.rs","src/version_map.rs","src/run_tree.rs","src/backlog.rs"],
 [("fork","src/replica.rs: Replica::fork; src/version_map.rs: fork")],[],["Replica::fork","Clone for Replica"])
p("C10","Decoding an encoded replica gives back the same state",
 "A replica encoded at any moment and decoded under a new identity behaves exactly as a fork made at that moment with that identity: same length, same results for the same calls, same anchors, same held edits, and it decodes again to an equal replica when encoded. The decoded replica can take part in the session under its identity.",
 ["histories","inputs"],"for all sessions, all moments the encoding is made at (including with edits being held), all identities not yet in use and all later calls","The tests encode a few replicas with small documents and compare them with a debug-only equality, without ever using the decoded one; none has anything in its backlog.",
 ["src/replica.rs","src/encoded_replica.rs","src/encode.rs","src/run_tree.rs","src/run_indices.rs","src/gtree.rs","src/backlog.rs","src/version_map.rs"],
 [("encoding of each part","impl Encode / Decode in src/gtree.rs, src/run_tree.rs, src/run_indices.rs, src/backlog.rs, src/version_map.rs, src/replica.rs")],[],["Replica::encode","Replica::decode"])
p("C11","Edits and anchors survive serialization unchanged",
 "Every insertion, deletion, anchor and encoded replica serialized in any self-describing or binary format and deserialized is equal to the original, and has the same effect at every replica as the original would.",
 ["inputs","histories"],"for all edits, anchors and encoded replicas of all sessions, with replica ids and lengths of any magnitude","The tests roundtrip a few edits made with small numbers; the compact encoding has special cases (runs shared with the anchor, magnitudes of integers) chosen by the values, and equality alone misses fields it doesn't compare.",
 ["src/encode.rs","src/insertion.rs","src/deletion.rs","src/anchor.rs","src/text.rs","src/version_map.rs"],
 [("compact encodings","impl Encode / Decode in src/insertion.rs, src/deletion.rs, src/anchor.rs, src/text.rs"),("serde through the encoding","src/encode.rs: impl_serialize, impl_deserialize")],[],["Serialize / Deserialize of Insertion, Deletion, Anchor, EncodedReplica"])
p("C12","Damaged encoded replicas are rejected, and never panic",
 "Decoding a replica from bytes which aren't one that was encoded fails with an error: different protocol if it was made by another version of the protocol, checksum failed if its content doesn't match its checksum, invalid data if it can't be parsed. It never panics, never allocates beyond reason and never loops, whatever the bytes, even if their checksum is right.",
 ["inputs","fault_sequences"],"for all byte strings, in particular all corruptions (bit flips, truncations, extensions, splices) of all encodings","The tests change one byte of the checksum and the protocol version; the parsers behind the checksum never see damaged input.",
 ["src/encoded_replica.rs","src/replica.rs","src/encode.rs","src/gtree.rs","src/run_tree.rs","src/run_indices.rs","src/backlog.rs","src/version_map.rs"],
 [("protocol version and checksum","src/encoded_replica.rs: EncodedReplica::checksum; src/replica.rs: Replica::decode"),("bounds checks while decoding","impl Decode in src/")],[],["Replica::decode"])
p("C13","Malformed serialized edits and anchors give errors, not panics",
 "Deserializing an insertion, a deletion or an anchor from arbitrary bytes or from an arbitrary document of another format either gives an error or a value which can be used; it never panics, overflows or loops. Truncated input always gives an error.",
 ["inputs","fault_sequences"],"for all byte strings and documents, in particular all truncations and corruptions of all serialized edits and anchors","No test deserializes anything which wasn't just serialized.",
 ["src/encode.rs","src/insertion.rs","src/deletion.rs","src/anchor.rs","src/text.rs","src/version_map.rs"],
 [("checked integer decoding","src/encode.rs, src/leb128.rs: decoding of integers"),("decoders of edits","impl Decode in src/insertion.rs, src/deletion.rs, src/anchor.rs, src/text.rs")],[],["Deserialize of Insertion, Deletion, Anchor"])
p("C14","Invalid calls panic and leave the replica as it was; empty edits do nothing",
 "Calls with an offset or range out of bounds, a reversed range, a fork to the same id or a zero id panic and leave the replica exactly as it was, able to go on. Inserting nothing and deleting an empty range give edits which have no effect at the author or at anyone else, at any time.",
 ["inputs","histories"],"for all offsets, lengths and kinds of range bounds at all moments of all sessions","The tests check that some of these panic on a fresh replica, not that the replica is usable afterwards; no-op edits are tested at one offset of one document.",
 ["src/replica.rs","src/utils.rs","src/insertion.rs","src/deletion.rs"],
 [("argument checks come before any mutation","src/replica.rs: Replica::inserted, deleted, create_anchor, fork, new"),("no-op edits","src/insertion.rs: Insertion::no_op, is_no_op; src/deletion.rs")],[],["Replica::inserted","Replica::deleted","Replica::integrate_insertion","Replica::integrate_deletion"])
p("C15","Every inserted character has a unique, consistent identity",
 "The texts of one author's insertions cover the range of its characters without gaps or overlaps in the order they were made, and name their author, both when created and when they come out of someone's backlog. So text can be looked up by author and range whatever order it arrives in.",
 ["histories","schedules"],HS,"No test looks at the ranges across several edits, after forks and decodes, or at the ones coming out of a backlog beyond one edit.",
 ["src/text.rs","src/replica.rs","src/insertion.rs","src/backlog.rs"],
 [("a replica's own entry in its version is its character clock","src/replica.rs: Replica::inserted; src/version_map.rs")],[],["Insertion::text","Text::temporal_range","Text::inserted_by","Replica::backlogged_insertions"])
p("C16","The internal structures stay consistent after every operation",
 "After any sequence of operations the replica's self-check passes: tree shape and occupancy, cached lengths, links between parents and children, the index of every insertion's fragments, the cached cursor and the ordering of held edits all agree, and the document's length is the one of the text built from its outputs.",
 ["histories","programs"],"for all sequences of operations, documents of all sizes and shapes, checked in the middle of them","The self-check runs in tests at the end of a few traces; a corruption repaired or masked later, or reached only with rare tree shapes, isn't seen.",
 ["src/gtree.rs","src/run_indices.rs","src/run_tree.rs","src/replica.rs","src/backlog.rs"],
 [("self-checks","src/replica.rs: Replica::assert_invariants; src/gtree.rs: Gtree::assert_invariants; src/run_indices.rs; src/backlog.rs")],[],["Replica::assert_invariants","Replica::len"])
p("C17","No undefined behaviour whatever the edits or bytes",
 "No sequence of safe calls, on any input including damaged encodings, causes undefined behaviour: no access out of bounds or to freed memory, no aliasing violation, no read of uninitialised memory or of the wrong union field, no invalid value.",
 ["programs","inputs","histories"],"for all programs using the public interface and all inputs","The tests run natively, where undefined behaviour usually goes unnoticed.",
 ["src/gtree.rs","src/backlog.rs","src/encode.rs","src/run_tree.rs"],
 [("unions of leaf and inode indices discriminated by a flag","src/gtree.rs: union NodeIdx, Inode"),("the iterators' split borrows of the replica","src/backlog.rs: BackloggedDeletions / BackloggedInsertions"),("SIMD varint decoding of slices","src/encode.rs")],[],["the whole public interface"])
p("C18","Only relative positions matter: lengths can be of any scale",
 "If all the lengths and offsets of a session are multiplied by the same factor, all outputs (offsets, ranges, lengths, resolved anchors) are multiplied by that factor and nothing else changes, up to sessions in which as much text is inserted in total as the largest buffer can hold (isize::MAX). This holds through forks, encodings and serialization.",
 ["inputs","configurations"],"for all sessions and all factors as long as the total length of what's inserted is at most isize::MAX","The tests use documents of up to a few hundred kilobytes; integer widths, varint sizes and overflows at larger ones aren't exercised.",
 ["src/gtree.rs","src/run_tree.rs","src/run_indices.rs","src/encode.rs","src/text.rs"],
 [("lengths are 64-bit everywhere","src/lib.rs: Length; src/gtree.rs")],[],["the whole public interface"])
p("C19","The state's size grows with the edits, not with the text",
 "What a replica keeps, and what it encodes to, is bounded by the number of edits it integrated and not by the amount of text: inserting or deleting any amount of text in one go costs the same. Text typed one character after the other is kept as one run, both at its author and at everyone receiving it in order.",
 ["histories","inputs"],HS+" and for texts of any length","The tests never look at the size of the state; an author or receiver which stops coalescing still gives right texts.",
 ["src/run_tree.rs","src/run_indices.rs","src/gtree.rs","src/encode.rs"],
 [("coalescing of consecutive insertions","src/run_tree.rs: RunTree::insert, merge_insertion, EditRun::can_append"),("coalescing of deleted neighbours","src/run_tree.rs: RunTree::delete_range")],[],["Replica::num_runs","Replica::encode"])
p("C20","What an edit costs doesn't grow with the history",
 "Making an edit, integrating one (at once, or held first and let go later), receiving one again, creating a left-biased anchor and resolving any anchor take an amount of work which, averaged over many calls, stays nearly the same (at most logarithmic) however many edits the replica has already integrated, wherever in the document they are, and however many are being held. Cloning, forking, encoding and decoding take work in proportion to the state's size. Exempt is what has to look at each of several things by its nature: putting insertions made concurrently at one place in order, deleting ranges of many runs, finding the text after a gap of deleted text, holding edits which arrive in an order far from that in which they were made, and, for deletions and passes over the backlog, the number of authors. Ids are taken to be spread out, as random ones are.",
 ["histories","inputs","schedules"],"for all histories of any length, positions of edits, numbers of authors and orders of delivery","No test looks at what a call costs; a lookup turned into a scan, or a copy of the whole state per call, still gives right answers, but makes large documents unusable.",
 ["src/gtree.rs","src/run_indices.rs","src/run_tree.rs","src/backlog.rs","src/replica.rs"],
 [("lookups by offset, by leaf and by anchor","src/gtree.rs: Gtree::leaf_at_offset, offset_of_leaf, insert, delete; src/run_indices.rs: RunIndices, Fragments"),("position of held edits","src/backlog.rs: InsertionsBacklog::insert, DeletionsBacklog::insert, BackloggedInsertions::next, BackloggedDeletions::next"),("whole-state operations","src/replica.rs: Replica::fork, encode, decode")],[],["Replica::inserted","Replica::deleted","Replica::integrate_insertion","Replica::integrate_deletion","Replica::backlogged_insertions","Replica::backlogged_deletions","Replica::create_anchor","Replica::resolve_anchor","Replica::fork","Replica::encode","Replica::decode"])
p("C21","Of replica ids only the order matters",
 "If the replicas of a session are given other (unique, non-zero) ids in the same order, all outputs (offsets, ranges, lengths, resolved anchors, what comes out of backlogs) are the same but for the ids in texts. This holds for ids of any magnitude, whichever bits they share, and through forks, encodings and serialization.",
 ["inputs","configurations"],"for all sessions and all choices of ids up to u64::MAX","The tests use ids 1, 2 and 3, or a handful of random ones; ids whose upper or lower halves agree, or near the maximum, are never used.",
 ["src/replica.rs","src/run_tree.rs","src/version_map.rs","src/run_indices.rs","src/encode.rs"],
 [("ids are 64-bit everywhere and compared as such","src/replica.rs: ReplicaId, ReplicaIdMap; src/run_tree.rs: EditRun::cmp"),("ids as keys of maps","src/version_map.rs: BaseMap; src/run_indices.rs: RunIndices; src/backlog.rs: Backlog"),("ids in encodings","src/anchor.rs, src/text.rs, src/deletion.rs, src/encode.rs")],[],["the whole public interface"])
p("C22","Peers running versions with the same protocol number are compatible",
 "Insertions, deletions, anchors and encoded replicas written by a version of cola are understood by any other version with the same protocol number, in both directions, and have the same effect there: in a session among both, replicas which integrate the same edits return the same offsets and ranges and resolve anchors to the same offsets whichever version they run, so they converge, agreeing on the order of concurrent insertions. Between versions with different protocol numbers, decoding an encoded replica fails, saying so.",
 ["histories","inputs","schedules","configurations"],"for all sessions among peers running this version and an earlier one with the same protocol number, all orders of delivery and all formats","All tests run a version against itself, so a change made to both ends of an encoding, or to an arbitrary but agreed upon choice such as how ties are broken, goes unnoticed; saved documents and peers not updated yet then break.",
 ["src/lib.rs","src/encoded_replica.rs","src/encode.rs","src/replica.rs","src/run_tree.rs","src/gtree.rs","src/run_indices.rs","src/version_map.rs","src/backlog.rs","src/insertion.rs","src/deletion.rs","src/anchor.rs","src/text.rs","src/leb128.rs"],
 [("protocol number","src/lib.rs: PROTOCOL_VERSION, ProtocolVersion; src/encoded_replica.rs: EncodedReplica::to_replica"),("layout of what's exchanged","the encode modules of src/anchor.rs, backlog.rs, deletion.rs, gtree.rs, insertion.rs, replica.rs, run_indices.rs, run_tree.rs, text.rs, version_map.rs"),("agreed upon order","src/run_tree.rs: EditRun::cmp; src/replica.rs: LamportClock")],[],["Replica::encode","Replica::decode","serde::Serialize and Deserialize of Insertion, Deletion, Anchor, EncodedReplica","Replica::integrate_insertion","Replica::integrate_deletion","Replica::resolve_anchor"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
tech={
"C20":"runtime monitoring of the work done by every call of the real library (coverage instrumentation counting executed edges, interposed memcpy and allocator counting bytes) under randomized growing histories, checked by a growth oracle",
"C17":"Miri and AddressSanitizer runs of the simulated sessions and damaged inputs",
}
default="runtime monitoring of the real library under randomized simulated peer sessions (deterministic, seeded), checked online by "
short={"C01":"a pairwise text-equality oracle over delivered sets","C02":"an order oracle built from a shadow replica and tagged characters","C03":"a conservation and exactly-once oracle over tagged characters","C04":"a deletion oracle over tagged characters","C05":"a contiguity oracle over the recorded history","C06":"a redelivery oracle (outputs, text, backlog)","C07":"a dependency oracle over the recorded history, plus huge-backlog stress","C08":"an anchor oracle over the total order","C09":"lockstep differential execution of forks and clones","C10":"lockstep differential execution of decoded replicas and forks","C11":"roundtrip equality and by deserialized edits being the ones delivered","C12":"fault injection in encodings with an error-kind, panic and allocation monitor","C13":"fault injection in serialized edits with an error, panic and allocation monitor","C14":"an unchanged-state oracle around invalid and empty calls","C15":"an identity oracle over text ranges","C16":"the library's own self-check in the middle of sessions","C18":"a lockstep comparison with the same session at another scale","C19":"a size oracle on runs and encoded bytes","C21":"a lockstep comparison with the same session among peers of other ids","C22":"a lockstep comparison with a frozen copy of the release, exchanging serialized edits, anchors and states with it"}
M={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
 "notes":"All checks drive the public interface of /repo's crate (features encode and serde); no hooks are needed. See DESIGN.md."}
for x in P:
    i=x["id"]
    note="Held on the executions of this run, counted in the evidence file; nothing is claimed for executions not run. Trusts the simulator and its oracles in /verif/harness, and for liveness takes 150 s of CPU time in one episode as never returning."
    if i=="C17": note="No undefined behaviour in the executions of this run: under Miri (aliasing, uninitialised memory, invalid values, bounds) for short sessions, under AddressSanitizer (heap and stack bounds, use after free) for longer ones. Nothing is claimed for executions not run."
    M["checks"].append({"property":i,"quick_cmd":f"python3 check.py {i} --tier quick","thorough_cmd":f"python3 check.py {i} --tier thorough","evidence_file":f"evidence/{i}.json","technique":tech.get(i) or default+short[i],"level":"exploration","level_note":note})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
