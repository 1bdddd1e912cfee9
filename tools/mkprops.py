#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [], mechanism=mechanism, observe_at=observe or [], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)

OPS="src/trie_ops.rs"; PT="src/partial_trie.rs"; HASH="src/trie_hashing.rs"; SUB="src/trie_subsets.rs"; NIB="src/nibbles.rs"

p("C01","Lookup returns exactly what the history of writes says",
 """After any sequence of inserts (non-empty values) and deletes over keys of 0 to 64 nibbles, including keys that are
 prefixes or extensions of one another, looking up a key returns the value most recently inserted for exactly that key,
 and nothing if the key was never inserted or was deleted since. No insert, delete or lookup over keys that involve no
 hashed-out part ever panics.""",
 ["histories","inputs"],"All operation histories over all sets of keys (any lengths up to 64 nibbles, any prefix relations) and all non-empty values.",
 """Existing tests insert random long keys and look the same keys up again; they never look up absent keys that are
 prefixes or extensions of stored ones, nor mix prefixes in extension nodes, nor interleave writes.""",
 [OPS,PT],[m("recursive insert with node splitting",OPS+": insert_into_trie_rec"),m("recursive lookup",OPS+": trie_get_intern")],
 [s("content","key -> value map the trie stands for","Node tree")],["get/insert/delete on both trie types"])
p("C02","Deletion removes exactly the requested entry",
 """Deleting a key that is present returns its value and afterwards only that key is absent; every other entry keeps its value.
 Deleting a key that is absent returns nothing and leaves the trie (contents, structure, root hash) exactly as it was.""",
 ["histories","inputs"],"All tries reachable by inserts and deletes, all keys present or absent, including keys ending in the middle of a compressed path or at a branch.",
 """The deletion tests delete half of a set of random keys that are never prefixes of one another; values held at branches, deletes
 of absent prefixes and collapses next to a branch value are not reached.""",
 [OPS],[m("recursive delete with branch collapse",OPS+": delete_intern, collapse_ext_node_if_needed")],
 None,["delete result, get, equality and hash before/after"])
p("C03","Root hash is the Ethereum Merkle-Patricia root of the contents",
 """After any history of inserts and deletes, the root hash equals the root that the Ethereum yellow paper defines (hex-prefix
 paths, RLP, nodes under 32 bytes embedded, Keccak-256) for the current key/value contents; the empty trie has the well-known empty root.""",
 ["histories","inputs"],"All contents (keys 0..64 nibbles, even or odd, prefix-related or not; values of any non-zero length) and all histories leading to them.",
 """Hashes are compared with another library only for random 32-byte values under random keys, so encoding-length boundaries
 (31/32, 55/56, 255/256 bytes, single small bytes), odd-length and prefix-related keys, and deletions that restructure branches are not covered.""",
 [HASH,OPS,NIB],[m("RLP encoding and hash-or-embed rule",HASH+": rlp_encode_and_hash_node, hash_bytes_if_large_enough"),m("canonical structure maintenance",OPS)],
 None,["hash()"])
p("C04","Contents alone determine the trie",
 """Two tries holding the same entries are equal, have equal node structure and equal root hash, no matter in which order the entries were
 inserted, overwritten, deleted and re-inserted; two tries holding different entries are unequal and have different root hashes.""",
 ["histories","inputs"],"All pairs of histories, equal or different in resulting contents.",
 "Tests build each trie along one history only; structural equality is compared only for two random tries.",
 [OPS,PT],[m("node splitting on insert, merging on delete",OPS),m("structural equality",PT+": impl PartialEq for Node")],
 None,["==, hash(), the public node tree"])
p("C05","A reported root hash is never stale",
 """Whatever happened before (hash queries, clones, subset extraction, iteration, comparison, serialisation, direct replacement of nodes
 through mutable access, writes that panicked half-way), the hash reported by a hash-caching trie equals the hash recomputed from its present nodes.""",
 ["histories","fault_sequences"],"All interleavings of cache-filling operations with all mutations, across several handles derived from one another.",
 "Tests only hash after inserts on a single handle; the cache of the root is never filled and then invalidated through a clone, a subset, mutable access or a panicking bulk insert.",
 [PT,HASH,SUB],[m("lazy cache and its invalidation",PT+": get_hash, set_hash, hash_intern, Clone, DerefMut")],
 [s("hash cache","per-node optional cached hash","src/partial_trie.rs: HashedPartialTrie.hash")],["hash() against an uncached recomputation"])
p("C06","Copies are isolated from one another",
 """A clone, an extracted subset, a sub-node handle or a running iterator keeps showing the contents and hash it had when it was taken,
 whatever is later done to the trie it came from, and changing a copy never changes the original.""",
 ["histories"],"All interleavings of writes on several tries that were cloned from one another at different times.",
 "One test checks held clones of an uncached trie under inserts; deletes, hash caching, subsets, sub-node handles and live iterators are not covered.",
 [PT,OPS],[m("copy-on-write children behind shared pointers",OPS+": insert_into_trie_rec, delete_intern"),m("clone of cached tries",PT)],
 None,["get, items, hash, == on every live handle"])
p("C07","Hiding parts of a trie behind hashes does not change its hash",
 """Replacing any set of sub-tries whose encoding is at least 32 bytes by their hashes leaves the root hash unchanged, and any later sequence of
 inserts and deletes that does not reach into a hidden part yields the same root hash as the same sequence on the complete trie.
 If the result would depend on what is hidden, the operation must not silently produce a different root.""",
 ["histories","inputs"],"All contents, all choices of hidden sub-tries, all subsequent histories over keys outside the hidden parts.",
 "Two tests replace children of the root and re-hash; none modifies a partially hidden trie and compares with the complete one.",
 [OPS,HASH,PT],[m("hash nodes as opaque children",HASH),m("insert/delete around hash nodes",OPS)],
 None,["hash() of partial and complete trie"])
p("C08","A subset keeps the root hash and answers for the requested keys",
 """For every trie and every list of keys, present or absent, of any length, extracting the subset for these keys succeeds unless a key leads into an
 already hidden part; the result has the same root hash as the base trie, and looking up any requested key in it gives the same answer as in the base trie without meeting a hidden node.""",
 ["inputs"],"All base tries (complete or partially hidden) and all key lists, including absent keys, prefixes, extensions, duplicates and the empty list.",
 "Tests extract existing random fixed-length keys from large random tries; absent keys that end inside a compressed path and values held at branches are not tried.",
 [SUB],[m("marking of visited nodes and rebuilding",SUB+": mark_nodes_that_are_needed, create_partial_trie_subset_from_tracked_trie")],
 None,["create_trie_subset result: hash, get, node tree"])
p("C09","A subset hides everything it does not need, as high up as possible",
 """In an extracted subset the only nodes kept visible are those on the path of some requested key and nodes too small to be hashed (encoding under 32 bytes);
 every other sub-trie appears as a single hash node at its topmost position.""",
 ["inputs"],"All base tries and key lists.",
 "One hand-made trie is checked for three key lists; no test checks minimality in general.",
 [SUB],[m("untouched nodes replaced by their hash",SUB+": create_partial_trie_subset_from_tracked_trie")],
 None,["public node tree of the subset"])
p("C10","Extracting several subsets equals extracting each one alone",
 """Extracting a batch of subsets gives, position by position, exactly the subsets that separate extractions with the same key lists would give, independent of the
 other lists in the batch and of their order; if any list fails, the whole batch reports an error. The base trie is unaffected by extraction.""",
 ["inputs","histories"],"All base tries and all batches of key lists, with lists shared, disjoint, empty or failing.",
 "The batch test only checks that requested keys are present and that hashes agree, which leftovers of an earlier list do not disturb.",
 [SUB],[m("state reset between lists",SUB+": reset_tracked_trie_state")],
 [s("touched flags","which nodes a list visited","src/trie_subsets.rs: TrackedNodeInfo")],["create_trie_subsets results"])
p("C11","Operations that would need hidden data fail loudly and change nothing",
 """An insert or delete whose key leads to or through a hidden node, and the placement of a hash where entries already exist, panic instead of guessing, and subset extraction with such a key
 (one that continues beyond a hidden node) returns an error; lookups there find nothing. After such a failure the trie has exactly the contents, structure and hash it had before the failing write,
 and a bulk insert has exactly the entries that preceded the failing one.""",
 ["inputs","fault_sequences"],"All partially hidden tries, all keys, all positions of the failing entry in a bulk insert.",
 "One test extracts a subset from a single hash node; panicking writes and the state after them are never tested.",
 [OPS,SUB,PT],[m("panic on traversing a hash node",OPS+": insert_into_trie_rec, delete_intern, create_node_if_ins_val_not_hash"),m("error on traversing a hash node",SUB)],
 None,["catch_unwind around the call, then get/items/hash/=="])
p("C12","Iteration yields every entry exactly once under its full key",
 """Iterating over a trie after any history yields every stored value and every hidden hash exactly once, each with its complete key, and nothing else; iterating over keys only or values only agrees
 with iterating over pairs, and inserting everything an iteration yields into an empty trie rebuilds an equal trie.""",
 ["histories","inputs"],"All tries with values in leaves and branches and hash nodes at any depth, nested compressed paths, keys up to 64 nibbles.",
 "Tests compare as sets for random long keys (duplicates invisible); nested extensions and branch values mixed with hash nodes are rarely formed.",
 [OPS],[m("stack based iterator",OPS+": PartialTrieIter")],
 [s("current key","key prefix of the branch being visited",OPS+": curr_key_after_last_branch")],["items(), keys(), values()"])
p("C13","Bulk construction equals inserting one by one",
 """Extending a trie with a list of entries, or collecting a list of entries into a new trie, has exactly the effect of inserting them one after the other in order, so that for repeated keys the last entry wins.""",
 ["inputs","histories"],"All starting tries and all entry lists with repeated and prefix-related keys, for both trie types and all supported key and value types.",
 "Tests use collection only as a way to build tries and never compare the two ways.",
 [PT,OPS],[m("extend and FromIterator",PT+": from_iter_common, extend; "+OPS+": trie_extend")],None,["==, items, hash"])
p("C14","The plain and the hash-caching trie behave identically",
 """Run with the same sequence of operations, the plain trie and the hash-caching trie return the same results, hold the same entries in the same structure and report the same hashes.""",
 ["histories"],"All operation sequences over the whole trie interface.",
 "Each test uses one of the two types; they are never compared.",
 [PT],[m("two implementations of one interface",PT+": impl PartialTrie for StandardTrie / HashedPartialTrie")],None,["all trait operations"])
p("C15","Nibble sequences behave as sequences",
 """Every operation on nibble sequences of up to 64 nibbles (indexing, popping, pushing, ranges, truncation, splitting, merging, reversing, prefix comparison, finding the first difference) gives the result the same operation
 gives on a plain list of nibbles, leading zeros included, and keeps the packed form normalised so that equal sequences are equal values. Requests that are out of range, or would exceed 64 nibbles, panic where the documentation says so, in debug and release builds alike.""",
 ["inputs","histories","configurations"],"All sequences up to 64 nibbles, all indices and counts, all compositions of operations, with and without arithmetic overflow checks.",
 "Each operation is tested on one or two four-nibble constants without leading zeros, and only in debug builds.",
 [NIB],[m("packed integer arithmetic with masks and shifts",NIB)],
 [s("count, packed","length and packed big-endian nibbles",NIB+": Nibbles")],["all public operations of Nibbles"])
p("C16","Key conversions keep every nibble",
 """Conversions between keys and hex strings, integers, big- and little-endian bytes and 32-byte hashes keep every nibble in order: text and byte conversions keep leading zeros, integer conversions drop exactly the leading zeros (or pad to whole bytes on request),
 and printing a key and parsing it back, or converting to bytes and back, gives the same key. Empty or over-long byte strings and malformed text are reported as errors, never silently truncated.""",
 ["inputs"],"All keys up to 64 nibbles, all integers up to 256 bits, byte strings up to 32 bytes, malformed strings.",
 "A handful of constants is tested; odd lengths with leading zeros, 64-nibble keys and malformed input are not.",
 [NIB],[m("conversions",NIB+": FromStr, LowerHex, UpperHex, ToNibbles, from_bytes, from_h256_be, bytes_be, try_into_u256")],None,["conversion functions"])
p("C17","Compact (hex-prefix) encoding follows the Ethereum definition",
 """Encoding a key of up to 64 nibbles gives the hex-prefix encoding of the yellow paper with correct parity and terminator flags; decoding an encoding without terminator gives the original key, and with terminator the original key followed by the two nibbles 1, 0.
 Input with invalid flags, over-long input and empty input are reported as errors rather than decoded or panicking.""",
 ["inputs"],"All keys of 0..64 nibbles with both terminator flags; all byte strings of 0..40 bytes as decoder input.",
 "Four encodings and five decodings of constants are tested.",
 [NIB],[m("to_hex_prefix_encoding, from_hex_prefix_encoding",NIB)],None,["encode/decode functions"])
p("C18","Serialisation round trips preserve the trie and its future",
 """Serialising a trie (of either type, complete or partially hidden, with or without cached hashes) or a key and deserialising it gives an equal one with the same hash, and every later operation on the deserialised trie gives the results it would give on the original.""",
 ["histories","inputs"],"All tries, at all points of a history with hash queries and writes before and after.",
 "No test serialises anything.",
 [PT,NIB],[m("derived serde implementations",PT+": Node, StandardTrie, HashedPartialTrie; "+NIB+": Nibbles")],None,["serde_json round trip, then hash/get/items/insert/delete"])
p("C19","Tries sharing structure can be used from several threads",
 """When threads concurrently hash, read, clone, extract subsets from and modify their own tries that share structure with one another, every thread observes exactly the results it would observe running alone, and no thread ever blocks forever.""",
 ["schedules"],"All interleavings of threads working on tries cloned from one another, at the granularity of reads and writes of the shared hash caches.",
 "All tests are single-threaded.",
 [PT],[m("reader/writer lock around each node's cached hash",PT+": get_hash, set_hash, hash_intern")],
 [s("shared cached hash","cache of a node reachable from several tries",PT+": HashedPartialTrie.hash")],["results of threads, termination"])
p("C20","The diff tool reports a difference exactly when there is one, and where",
 """Comparing two tries reports a difference if and only if their root hashes differ, and never panics. The reported key and path lead, through nodes that agree in kind and key, to two nodes that really differ; a difference in kind or key of nodes is preferred over a difference in values only,
 and the deepest one of the preferred sort is reported with the true kind, key, value and hash of both nodes, at a depth that is the number of steps of the reported path.""",
 ["inputs"],"All pairs of tries: equal, differing in one value, in a branch value, in structure, or in hidden parts.",
 "One test compares two single-leaf tries; the other diff tests are unimplemented stubs.",
 ["src/debug_tools/diff.rs","src/debug_tools/common.rs"],[m("recursive comparison",  "src/debug_tools/diff.rs: find_latest_diff_point_between_tries_rec")],None,["create_diff_between_tries result and its printed form"])
p("C21","The path query reports the real lookup path",
 """Querying the path of any key in any trie never panics and lists exactly the nodes that a lookup of this key visits, from the root down, with their kinds and key pieces (and, on request, the occupied slots of branches, the values of leaves and the hashes of hidden nodes); the key is reported as found exactly if a value is stored under it or a hidden node sits exactly at it.""",
 ["inputs"],"All tries (with branch values, compressed paths, hidden parts) and all keys, present or absent, of any length.",
 "The module has no tests at all.",
 ["src/debug_tools/query.rs","src/debug_tools/common.rs"],[m("recursive descent","src/debug_tools/query.rs: get_path_from_query_rec")],None,["printed query output"])
p("C22","Trie statistics count what is there",
 """For every trie the reported numbers of empty, hash, branch, extension and leaf nodes are the true ones, the lowest depth is the depth of the deepest leaf or hash node and the average depths are the true averages; a comparison of two tries reports the figures of each side unswapped.""",
 ["inputs"],"All tries, complete and partially hidden.",
 "Counts are checked for one hand-made trie and leaf/hash counts for random ones; depth statistics and comparisons are untested.",
 ["src/debug_tools/stats.rs"],[m("recursive count","src/debug_tools/stats.rs: get_trie_stats_rec")],None,["printed statistics"])
p("C23","Typed values are stored as their big-endian bytes",
 """Inserting a value given as bytes stores exactly these bytes; inserting an unsigned integer of any supported width stores its big-endian representation in exactly the width of its type, and inserting a 256-bit hash places a hidden node. Nothing is truncated, padded or reordered, and an entry taken back as a value or as a hash is what was put in, while taking it as the other kind panics.""",
 ["inputs"],"All supported value types and all their values.",
 "Tests insert byte vectors only; several integer types are never used.",
 [OPS],[m("value conversions",OPS+": impl From<..> for ValOrHash")],None,["insert then get / items"])
p("C24","Extracting from an extracted subset is like extracting from the whole",
 """A subset trie extracted for a list of keys can itself be extracted from: for any part of its own keys, repeatedly and in ever smaller parts, this succeeds and yields exactly the trie that extracting these keys from the original trie yields. A key whose lookup leads into something that the subset hides is an error, any other key gives what the original trie gives. Extracting leaves the trie it is applied to unchanged.""",
 ["histories","inputs"],"All tries, all lists of keys, all parts of these lists, and all further keys; chains of extractions.",
 "Tests extract from complete tries only, never from a trie that already has hidden nodes made by an extraction.",
 [SUB],[m("marking stops at hidden nodes",SUB+": mark_nodes_that_are_needed"),m("nodes that are not needed are hidden, small ones are kept",SUB+": create_partial_trie_subset_from_tracked_trie")],
 [s("marks","nodes visited for the requested keys",SUB+": TrackedNodeInfo.touched")],["create_trie_subset applied to its own results"])
p("C25","Keys in sorted and hashed collections behave as sequences of nibbles",
 """Two keys are equal exactly if they are the same sequence of nibbles (leading zeros count), however each of them was made; equal keys have equal hash codes; comparing keys is a total order that is consistent with equality (antisymmetric, transitive, partial and full comparison agree). Sorted and hashed sets of keys therefore contain, add and remove exactly the sequences they should and never lose or duplicate one.""",
 ["inputs","histories"],"All pairs and triples of keys of 0 to 64 nibbles made in any way (parsed, merged, pushed, popped, split, reversed, converted), and all histories of set operations.",
 "Tests compare keys with assert_eq only, and collect long random ones in a hash map.",
 [NIB],[m("derived equality, order and hash over packed digits and length",NIB+": struct Nibbles"),m("normal form of the packed digits",NIB+": operations that shorten or extend a key")],
 None,["==, cmp, partial_cmp, Hash, BTreeSet, HashSet"])
p("C26","Operations accept integer keys as the nibbles of the number",
 """Every operation that takes a key accepts an unsigned integer of any supported width, which stands for the nibbles of the number without leading zeros (zero is the empty key): lookups, inserts, deletes, bulk inserts and subset extraction act on exactly this key, so the same number given in different widths is one key, different numbers are different keys, and a number never stands for a key with leading zeros.""",
 ["inputs","histories"],"All supported integer types, all numbers of up to 64 nibbles, all histories that mix types.",
 "Tests use one integer width per test and never mix widths, nor keys with leading zeros and numbers.",
 [NIB,OPS,SUB],[m("integer to key conversion",NIB+": impl_to_nibbles"),m("generic key parameters",PT+": insert, get, delete, extend")],
 None,["operations called with u8..u64, U128, U256, U512"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
