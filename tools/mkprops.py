"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
N = "src/node/mod.rs"; B = "src/store/blob_store.rs"; F = "src/store/paged_file_store.rs"; M = "src/store/mem_store.rs"

prop("C01", "Outer combine is the union of both trees",
 "The outer combine of two trees has exactly the keys of either tree: a key of one side keeps that side's value, and a key of both sides gets what the combiner made of the two values (the key is absent when the combiner produced no value). This holds for the pure form and for the in-place form, for trees that are partly or entirely still in a store, and for any mix of prefixes, shared branches and 0..256 children per branch.",
 ["inputs"], "all pairs of trees (any keys, any attachment state) and all combiners",
 "the property tests use short digit keys, in-memory trees and combiners that always return a value; disjoint siblings, unloaded children, long prefixes and dropped values are sampled rarely or never",
 [N], [("case split on the common prefix", N+" outer_combine, outer_combine_with"), ("ordered merge of the children", N+" outer_combine_children, outer_combine_children_with, OuterJoin, cmp"), ("node surgery", N+" TreeNode::split, clone_shortened, canonicalize")],
 ["RadixTree::try_outer_combine", "RadixTree::try_outer_combine_with", "RadixTree::insert"])
prop("C02", "Inner combine is the intersection of both trees",
 "The inner combine of two trees has exactly the keys that are in both trees and for which the combiner produced a value, with that value. This holds for the pure and the in-place form and for trees that are partly or entirely still in a store.",
 ["inputs"], "all pairs of trees and all combiners",
 "same sampling limits as for the union; combiners that reject a value and one-sided empty branches are never generated",
 [N], [("case split on the common prefix", N+" inner_combine, inner_combine_with"), ("ordered merge of the children", N+" inner_combine_children, inner_combine_children_with")],
 ["RadixTree::try_inner_combine", "RadixTree::try_inner_combine_with"])
prop("C03", "Left combine keeps the left tree's keys and merges matching ones",
 "The left combine of two trees has no key that the left tree does not have: a left key without counterpart on the right keeps its value unchanged, and a key of both sides gets what the combiner made of the two values or disappears when the combiner produced none. This holds for the pure and the in-place form (and so for removing a key) and for trees that are partly or entirely still in a store.",
 ["inputs"], "all pairs of trees and all combiners",
 "tests use the always-drop combiner on small in-memory trees; partial overlap inside prefixes and unloaded nodes are not covered",
 [N], [("case split on the common prefix", N+" left_combine, left_combine_with"), ("ordered merge of the children", N+" left_combine_children, left_combine_children_with")],
 ["RadixTree::try_left_combine", "RadixTree::try_left_combine_with", "RadixTree::remove"])
prop("C04", "Combine predicates answer exactly the existential question",
 "The inner predicate is true if and only if some key is in both trees and the given predicate accepts its two values; the left predicate is true if and only if some key of the left tree is missing on the right or the given predicate accepts its two values. Neither the position of the witness in the trees nor the branch structure around it changes the answer.",
 ["inputs"], "all pairs of trees and all predicates",
 "the tests only use constant predicates on small sets, so a witness that is skipped deep in one of the branches goes unnoticed",
 [N], [("case split and early exit", N+" inner_combine_pred, left_combine_pred"), ("merge of the children", N+" inner_combine_children_pred, left_combine_children_pred")],
 ["RadixTree::try_inner_combine_pred", "RadixTree::try_left_combine_pred"])
prop("C05", "Prefix retain and remove select exactly the covered keys",
 "Retaining by a set of prefixes keeps exactly the entries whose key starts with a prefix of the set that the predicate accepts, and removing by a set of prefixes drops exactly those entries; every other entry keeps its key and value. A prefix that the predicate rejects has no effect, also when longer or shorter accepted prefixes share bytes with it.",
 ["inputs"], "all trees, all prefix sets and all predicates",
 "tests only use the predicate that accepts everything, and small in-memory trees",
 [N], [("case split on the common prefix", N+" retain_prefix_with, remove_prefix_with"), ("merge of the children", N+" retain_prefix_children_with, remove_prefix_children_with")],
 ["RadixTree::try_retain_prefix_with", "RadixTree::try_remove_prefix_with", "RadixTree::remove_prefix"])
prop("C06", "Point lookups see exactly the stored entries",
 "Getting a key returns the value stored under exactly that key and nothing for any other key, membership agrees with it, and the prefix query is true if and only if some key starts with the given bytes. The answer does not depend on how many children a branch has (including all 256 byte values) or on whether branches are in memory or still in a store.",
 ["inputs"], "all trees, all keys, in-memory and stored branches",
 "tests look up keys in small trees; full 256-way branches, misses that stop inside a prefix and stored branches are hardly sampled",
 [N], [("descent", N+" find"), ("child selection", N+" OwnedTreeNodeIter::find, BorrowedTreeNodeIter::find"), ("interpretation of the result", N+" TreeNode::get, contains_key, has_prefix")],
 ["RadixTree::try_get", "RadixTree::try_contains_key", "RadixTree::try_has_prefix"])
prop("C07", "Prefix scans and prefix filters address the right subtree",
 "Scanning a prefix yields exactly the entries whose key starts with it, each with its complete key; filtering a prefix yields exactly those entries with the prefix replaced by the substitution. This also holds when the prefix ends inside the compressed path of a node or exactly at a node.",
 ["inputs"], "all trees, prefixes and substitutions",
 "the position at which the prefix ends inside a compressed path is chosen by the shape of a random tree, and keys are compared only in part",
 [N], [("scan", N+" scan_prefix"), ("filter", N+" filter_prefix"), ("descent", N+" find")],
 ["RadixTree::try_scan_prefix", "RadixTree::try_filter_prefix"])
prop("C08", "Iteration yields every entry once, in key order, with its full key",
 "Iterating a tree yields each entry exactly once in ascending key order, with the complete key and its value; the value iterator yields the same values in the same order. Grouping yields, for every node the caller does not descend into, the subtree at its full path, and for every node it descends into, the node's own entry.",
 ["inputs"], "all trees, any depth, in-memory and stored branches",
 "the bookkeeping of the current path is exercised only by shallow trees; path handling after returning from a deep branch depends on the shape of the tree",
 [N], [("traversal state", N+" KeyValueIter::next0, ValueIter::next0, GroupBy::next0"), ("path", N+" IterKey::append, IterKey::pop"), ("children cursor", N+" TreeNodeIter")],
 ["RadixTree::try_iter", "RadixTree::try_values", "RadixTree::try_group_by", "RadixTree::try_scan_prefix"])
prop("C09", "First and last entry are the extremes of the key order",
 "The first value or entry of a tree is the one with the smallest key and the last value or entry the one with the largest key, both with the caller's prefix followed by the complete key, and there is none exactly for the empty tree.",
 ["inputs"], "all trees, in-memory and stored branches",
 "tests compare against sorted maps of short keys; nodes that have both a value and children and stored last children are rarely hit",
 [N], [("descent", N+" first_value, last_value, first_entry, last_entry"), ("last child", N+" OwnedTreeNodeIter::last, BorrowedTreeNodeIter::last")],
 ["RadixTree::try_first_value", "RadixTree::try_last_value", "RadixTree::try_first_entry", "RadixTree::try_last_entry"])
prop("C10", "Each convenience method does exactly what its general form does",
 "Inserting replaces or adds exactly one entry, removing drops exactly one key, removing a prefix drops exactly the keys below it, and building a tree from pairs inserts every pair with the last one winning. Every infallible method of an in-memory tree returns what the fallible method of the same name returns for the same arguments, and each tree's nodes are only ever read through that tree's own store.",
 ["inputs", "programs"], "all public methods of the tree type and all arguments",
 "about forty thin wrappers exist and only some of them have a test that would notice a swapped argument or a neighbouring method being called",
 [N, "src/lib.rs"], [("wrappers", N+" impl RadixTree, impl<S> RadixTree<S>"), ("collection", N+" FromIterator")],
 ["RadixTree (all public methods)"])
prop("C11", "Stored nodes are written in the documented format",
 "A node is written as prefix, value and children, each as one header byte (high bit: id, low seven bits: length, id of length zero: none) followed by that many bytes: data of up to 127 bytes directly, longer data as the id of a stored block, with the first byte of the prefix in front of a prefix id. Children are written as one block of nodes in order, referenced by a record size byte (the common record length, or 0) followed by the block's id; references that are already in the store are written unchanged.",
 ["inputs", "histories"], "all trees, all lengths around the 127 byte limit, all stores",
 "the format is only checked by reading back what the same version wrote, with small values; other versions and other readers rely on the bytes",
 [N, "src/lib.rs"], [("writer", N+" OwnedBlobRef::serialize, TreeNode::serialize"), ("header encoding", N+" Header")],
 ["RadixTree::try_attached", "RadixTree::try_reattach"])
prop("C12", "Stored nodes are read back the way they were written",
 "Reading a stored node takes prefix, value and children in the written order with the lengths of their headers, and continues with the next node right behind it; the prefix id follows the prefix's first byte, the children id follows the record size byte, and a value id is used as is. Reading a subtree from a store and working on it in memory therefore give the same keys, values and children.",
 ["inputs", "histories"], "all stored trees",
 "reader and writer are only tested together on small trees; a disagreement in a rare branch (long prefixes, many children, last child) survives",
 [N], [("reader", N+" BorrowedTreeNode::read_one, BorrowedTreeNodeIter"), ("loading", N+" load_prefix, load_value, load_children, load_children_mut, TreeNode::deserialize"), ("conversion to memory", N+" BorrowedTreeNode::to_owned, set_*_borrowed")],
 ["RadixTree::try_load", "RadixTree::try_get", "RadixTree::try_iter"])
prop("C13", "Errors of the store and of callbacks always reach the caller",
 "When a store operation or a caller supplied function fails, the tree operation that used it fails with that error: it is never replaced by a default, swallowed or turned into a panic. An iterator that reported an error ends after it.",
 ["fault_sequences"], "every fallible call made on behalf of any tree operation",
 "no test has a store that fails",
 [N], [("error propagation", N+" all functions returning a Result"), ("iterator termination", N+" Iterator for KeyValueIter, ValueIter, GroupBy")],
 ["all RadixTree::try_* methods"])
prop("C14", "A failed attach or reattach leaves the tree as it was",
 "Persisting a tree only replaces the in-memory nodes after every block, including the root, was written successfully, and the returned id is the id of the root block that was written last, whose content is the tree. When any write fails, the tree still has all its entries in memory and the error is returned.",
 ["fault_sequences", "crash_points"], "any write failing at any position",
 "no test has a store that fails, so the order of writing and replacing is invisible",
 [N], [("order of write and replace", N+" RadixTree::try_reattach, try_attached"), ("children before parents", N+" TreeNode::serialize")],
 ["RadixTree::try_reattach", "RadixTree::try_attached"])
prop("C15", "A detached tree is complete and independent of the store",
 "Detaching a tree, and every combine operation that returns an in-memory tree, loads every prefix, value and child that is still in a store, so that the result contains no store reference. Operations on an in-memory tree therefore never access a store.",
 ["inputs"], "all attached trees, at any depth and with any mix of loaded and stored parts",
 "references survive only for values or prefixes above 127 bytes or for unloaded branches in particular positions, which the tests do not produce",
 [N], [("loading", N+" TreeNode::detached, ValueRef::detached, OwnedTreeNodeIter::detached, BorrowedTreeNodeIter::detached"), ("reinterpretation", N+" transmute sites (downcast, detached)")],
 ["RadixTree::try_detached", "RadixTree::try_outer_combine", "RadixTree::try_left_combine", "RadixTree::try_inner_combine"])
prop("C16", "Modifying a tree never changes a clone or an iterator made before",
 "A clone, a value, a key or an iterator taken from a tree keeps showing the state at the time it was taken, whatever is done to the tree afterwards. Shared nodes are copied before the first modification and are never written through a shared reference.",
 ["programs", "schedules"], "all programs that share nodes between trees, also across threads",
 "tests modify trees that share almost no nodes, and never look at the older tree again",
 [N], [("copy on write", N+" Arc::make_mut in load_children_mut, canonicalize, IterKey"), ("cloning", N+" Clone for TreeNode, manual_clone")],
 ["RadixTree::clone", "RadixTree::iter", "in-place operations"])
prop("C17", "Node memory is tagged correctly and released exactly once",
 "The header of a prefix, value or children slot always describes what the slot holds, so a slot is never read, cloned or released as something else; every heap allocation is released exactly once, when its last user goes away. No sequence of operations leaks, double frees or misreads node memory.",
 ["programs", "inputs"], "all sequences of node operations, all sizes of prefix, value and id",
 "leaks and some tag mismatches have no functional effect, and the tests run without a memory checker on few sizes",
 [N], [("tagged unions", N+" CompactOwnedBlob, ChildrenRef, Header"), ("slot updates", N+" set_*, take_value*, split, canonicalize, Drop, Clone")],
 ["Drop", "Clone", "all mutating operations"])
prop("C18", "Safe code cannot keep a reference to released memory",
 "Through the safe public interface, no slice, value reference or node reference can be kept longer than the tree, blob or buffer it points into, and a tree cannot be modified while such a reference exists. Programs that try this are rejected by the compiler.",
 ["programs"], "all safe client programs",
 "tests only contain programs that compile",
 [N, B], [("lifetimes of public signatures", N+" ValueRef, TreeNodeRef, RadixTree::value/prefix"), ("lifetimes of blobs", B+" Blob")],
 ["public signatures"])
prop("C19", "Thread safety is never claimed for types that lack it",
 "A type can be sent to or shared with another thread only if everything it contains can be. Trees over thread safe stores, their iterators, the stores and the blobs are usable from several threads.",
 ["programs", "schedules"], "all safe client programs, all schedules",
 "thread safety claims are checked by the compiler only where no unsafe impl overrides it",
 [N, B, F, M], [("auto traits", "all types"), ("manual impls", B+" unsafe impl Send/Sync for Blob")],
 ["Send/Sync of public types"])
prop("C20", "Slicing a blob stays inside the blob and keeps its owner alive",
 "A slice of a blob shows exactly the requested bytes of it, and a request outside its bounds panics instead of reading foreign memory. Every blob whose bytes belong to an allocation, a mapping or a buffer keeps that owner alive for as long as the blob or any slice of it exists.",
 ["inputs", "programs"], "all ranges, all blobs",
 "tests slice with a few valid ranges; keeping the owner alive has no visible effect until memory is reused",
 [B, F], [("range checks", B+" Blob::slice, slice_ref"), ("owners", B+" Blob::from_arc_vec, to_owned, From impls, owned_new callers")],
 ["Blob::slice", "Blob::slice_ref", "Blob::to_owned"])
prop("C21", "Malformed stored nodes are reported and never read out of bounds",
 "Whatever bytes a store returns, decoding a node never reads outside these bytes, and a truncated or otherwise undecodable root node or block of children results in an error rather than in a panic or in silently missing entries.",
 ["inputs", "fault_sequences"], "all byte strings a store can return",
 "tests only decode what the library wrote",
 [N], [("bounds checks of the decoder", N+" BorrowedTreeNode::read_one, BorrowedBlobRef::bytes"), ("validation of blocks", N+" BorrowedTreeNodeIter::load, TreeNode::deserialize")],
 ["RadixTree::try_load", "all operations on attached trees"])
prop("C22", "Page file blocks are stored whole, in one page, and stay unchanged",
 "A block written to the page file store is stored completely inside one page, with its length behind it, and the id names the end of the block; reading the id returns exactly these bytes at any later time. Existing blocks are never overwritten or moved: data is only ever appended, whatever was read in between.",
 ["inputs", "histories"], "all sequences of writes and reads, all block sizes up to the limit",
 "tests write random blocks of few sizes and one page size; a block that ends exactly at a page boundary or a read between writes needs a particular history",
 [F], [("placement", F+" Inner::append, close_page, pad_to"), ("addressing", F+" Inner::bytes, Page::bytes, load_recent, page, offset_within_page, offset_of_page"), ("file cursor", F+" seek before every write")],
 ["PagedFileStore::write", "PagedFileStore::read"])
prop("C23", "A page file block is committed before its id is handed out",
 "The recorded size of the page file is only advanced after the data it covers was written, and a write returns its id only after the size was recorded; when a step fails the write fails. Syncing the store forces all written data to stable storage and reports failure.",
 ["crash_points", "fault_sequences"], "a crash or an I/O error at any point of a write or sync",
 "tests never crash, never fail and never look at the device",
 [F], [("commit", F+" Inner::append, commit, write_size, close_page"), ("sync", F+" BlobStore::sync for PagedFileStore")],
 ["PagedFileStore::write", "PagedFileStore::sync", "file content"])
prop("C24", "Reopening a page file continues exactly where the last commit ended",
 "Opening a file created by the store finds the recorded size at its fixed position, discards what was written after the last commit, and makes every committed block readable under its id; new blocks are appended behind them. A file that is too short to hold the recorded size, or shorter than its recorded size says, is rejected with an error and stays unchanged.",
 ["crash_points", "histories"], "all files left behind by any history with a crash at any point",
 "the reopening test closes the file regularly",
 [F], [("header", F+" Inner::new, read_size, write_size, HEADER_SIZE"), ("truncation", F+" set_len in Inner::new")],
 ["PagedFileStore::new", "PagedFileStore::last_id"])
prop("C25", "An unknown or malformed id is an error, never a panic or foreign data",
 "Reading from any store with an id of the wrong length, or an id that was never handed out, returns an error or bytes that lie inside the store's own data; it never panics, reads outside the data or changes the store.",
 ["inputs"], "all ids, all stores",
 "tests only read ids that were just written",
 [F, M], [("id validation", F+" read, Inner::bytes, Page::bytes, load_recent; "+M+" read")],
 ["PagedFileStore::read", "MemStore::read"])
prop("C26", "The memory store never reuses an id or changes a block",
 "Every write to the memory store, from any clone and any thread, stores the bytes under a new id that was not in use, and the block stays readable under that id with exactly these bytes. Clones of a store share the same blocks.",
 ["histories", "schedules"], "all sequences and interleavings of writes and reads",
 "tests write from a single thread and few blocks",
 [M], [("id allocation and insertion under one lock", M+" write"), ("lookup", M+" read")],
 ["MemStore::write", "MemStore::read"])
prop("C27", "Store operations are atomic and cannot deadlock",
 "Each read, write or query of a store runs under one continuous hold of the store's lock, so no other thread sees or uses an intermediate state, and no operation takes the lock again or calls back into foreign code while it holds it.",
 ["schedules"], "all interleavings of operations on shared stores",
 "no test uses a store from two threads",
 [F, M], [("single lock", F+" PagedFileStore(Arc<Mutex<Inner>>); "+M+" MemStore")],
 ["BlobStore for PagedFileStore, MemStore"])
prop("C28", "Every combination of cargo features builds",
 "The crate builds with every combination of its features, with and without the default ones, and each feature provides the types it is named for.",
 ["configurations"], "all subsets of the features",
 "the tests run with all features only",
 ["Cargo.toml", "src/store/mod.rs", N], [("feature gates", "src/store/mod.rs, src/node/mod.rs cfg attributes")],
 ["cargo build"])
prop("C29", "Two trees are equal exactly when they hold the same entries",
 "Two in-memory trees compare equal if and only if they have the same keys with the same values, whatever sequence of operations built them; an empty value is different from no value.",
 ["histories", "inputs"], "all pairs of trees and all ways to build them",
 "tests compare trees built in one way; leftovers of an operation that only show in a comparison need a particular history",
 [N], [("comparison", N+" PartialEq for TreeNode, RadixTree"), ("canonical form", N+" canonicalize")],
 ["PartialEq for RadixTree"])
prop("C30", "Every operation leaves the tree in canonical form",
 "After every operation, every node except the root has a value or at least two children, the children of a node are sorted by distinct first bytes, only the root may have an empty path, a node without children has no children list, and an empty tree is just the empty root.",
 ["histories", "inputs"], "all sequences of operations",
 "lookups keep working on many degenerate shapes, so tests on contents do not notice them",
 [N], [("normalisation", N+" canonicalize called at the end of every combine"), ("dropping empty children", N+" *_children, *_children_with")],
 ["RadixTree::is_empty", "RadixTree::is_leaf", "try_first_value", "PartialEq"])
prop("C31", "No public operation runs into unimplemented code",
 "No operation of the public interface, on any mix of in-memory and stored data and with any store, reaches code that is not implemented. The in-memory pseudo store, which cannot read or write, is never asked to by an operation on an in-memory tree other than attaching the tree to it explicitly.",
 ["inputs", "configurations"], "all public operations, all states of their arguments",
 "unimplemented branches are exactly those that the tests do not reach",
 [N, B], [("exhaustive implementations", N+" detached, to_owned, clone_shortened"), ("guards before store access", N+" load_*, detached, serialize")],
 ["all public operations"])
prop("C32", "A dynamic store behaves exactly like the store inside it",
 "Every operation of a store used through a dynamic store reference is carried out by the store inside with the same arguments and returns its result, including operations that have a default implementation.",
 ["inputs", "programs"], "all stores, all operations of the store interface",
 "only reading and writing are exercised through a dynamic store",
 [B], [("forwarding", B+" BlobStore for DynBlobStore")],
 ["DynBlobStore"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    for p in P: assert len(p["title"]) <= 80, p["title"]
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
