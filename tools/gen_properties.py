#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the one place where the property texts are edited).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

C = "src/collection/"
U = "src/util/"

p("C01", "Sorted map and sorted set behave as an ordered dictionary",
  "After any sequence of puts, gets and removes, a sorted map (and sorted set) answers every lookup, existence test and size query, and returns from every put and remove the previously stored value (or key), exactly as a plain dictionary fed the same sequence would. Keys that compare equal share one entry, and removing an absent key changes nothing. Different maps never influence each other.",
  ["histories"], "every sequence of put/get/remove over any keys, of any length, in any insertion and removal order",
  "TestAVL runs one fixed put list, one fixed remove list and a few hundred random operations whose results it barely checks; tree shapes that need a particular rotation on removal are hit by luck or not at all.",
  [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"],
  [("insert with rebalancing and replace of equal keys", C+"avl.go Put/putR/putBalance"),
   ("removal through the in-order predecessor and rebalancing", C+"avl.go Remove/removeR/removeBalance"),
   ("size accounting", C+"avl.go AVLTree"), ("map and set wrappers", C+"sorted_map.go, sorted_set.go")],
  [("tree", "binary search tree with a balance factor per node", C+"avl.go AVLNode")],
  ["return values of Get, Exist, Put, Remove, Size"])

p("C02", "Sorted iteration visits exactly the stored entries, in order, within range",
  "Iterating a sorted map or sorted set yields every stored entry exactly once in ascending key order; a range iterator yields exactly the entries whose key is not less than the start (when given) and less than the end (when given), in the same order. Peek shows the entry that the following next returns without consuming it, and asking whether there is a next entry tells the truth and consumes nothing, whatever the order of these calls. Once exhausted, an iterator keeps yielding nothing.",
  ["histories", "inputs"], "every tree content and shape reachable by puts and removes, every start/end pair (present in the tree or not, or missing), every interleaving of next, peek and has-next calls",
  "The test iterates a handful of trees and compares peek with next only; before the repair, range iterators started in the middle of a tree and exhausted iterators panicked without any test noticing.",
  [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"],
  [("in-order walk with explicit path stack", C+"avl.go AVLIterator.advance"),
   ("range start/end handling", C+"avl.go NewAVLIterator/advance"),
   ("iterator wrappers", C+"sorted_map.go, sorted_set.go")],
  [("iterator", "path of pending ancestors, current node and position", C+"avl.go AVLIterator")],
  ["Next/HasNext/Peek results"])

p("C03", "Hash map and hash set behave as a dictionary through every resize",
  "After any sequence of puts, gets and removes, a hash map (and hash set) answers every lookup, existence test and size query, and returns from every put and remove the previously stored value (or key), exactly as a plain dictionary fed the same sequence would. This holds for any initial capacity, load factor and growth multiplier, any hash seed, keys with colliding hashes, and across every growth and shrink of the table. Keys that are equal share one entry.",
  ["histories", "configurations", "inputs"], "every operation sequence, every table configuration accepted by the constructors, every hash function (including constant ones) and seed",
  "TestHash uses the default configuration, a fresh random seed per run and at most 100 distinct keys; collisions inside a bucket at a chosen position, removal from the middle of a chain and entries lost by a particular resize step are not exercised on purpose and results of the random phase are not checked.",
  [C+"hash.go", C+"hash_map.go", C+"hash_set.go"],
  [("bucket chains", C+"hash.go Get/Put/Remove"), ("grow and shrink", C+"hash.go Put/Remove/resize"),
   ("parameter clamping", C+"hash.go NewCustomHash"), ("map and set wrappers", C+"hash_map.go, hash_set.go")],
  [("array", "bucket heads", C+"hash.go Hash"), ("size", "number of entries", C+"hash.go Hash")],
  ["return values of Get, Exist, Put, Remove, Size"])

p("C04", "Hash iteration visits every stored entry exactly once",
  "Iterating a hash map or hash set yields every stored entry exactly once, in some order; peek, next and has-next agree with each other, and an exhausted iterator keeps yielding nothing.",
  ["histories", "configurations"], "every table content reachable by puts and removes under any configuration and seed, every interleaving of next, peek and has-next calls",
  "TestHash loops over the iterator but passes when it yields nothing (it does: see the known finding).",
  [C+"hash.go", C+"hash_map.go", C+"hash_set.go"],
  [("bucket walk", C+"hash.go HashIterator.advance"), ("iterator wrappers", C+"hash_map.go, hash_set.go")],
  None, ["Next/HasNext/Peek results"])

p("C05", "Keys and comparable slices are totally ordered, consistently with equality",
  "Comparing two byte strings, numeric or element slices, or record keys is antisymmetric and transitive, is lexicographic with a proper prefix ordered before its extensions, and returns zero exactly when the two are equal. This holds across all representations of a key (empty, built and decoded), for absent (nil), empty, shorter and longer operands, and over the full range of element values. Minimum and maximum helpers return the smaller and the larger operand.",
  ["inputs"], "all pairs and triples of operands, of any length and content, in every representation",
  "No test compares slices or keys at all; sorted maps, tries and range iterators silently corrupt when the order is inconsistent, and the law quantifies over triples of inputs.",
  [C+"util.go", C+"comparable.go", U+"key_util.go"],
  [("lexicographic comparison", C+"util.go Compare*Slice"), ("equality", C+"util.go Equal*Slice"),
   ("comparable wrappers", C+"comparable.go"), ("key comparison", U+"key_util.go EmptyKey/MappedKey/Key Compare, Equal")],
  None, ["Compare and Equal results"])

p("C06", "Equal objects hash equally, and hashes are the published Murmur3",
  "Two hashable slices or record keys that are equal have the same hash under every hash function and seed, whatever their representation or memory placement, and hashing changes nothing. The seeded hash of a byte string is the 32-bit Murmur3 of exactly those bytes, for every length and alignment. Keys made of the same parts in a different order do not systematically collide.",
  ["inputs"], "all byte strings and element sequences, all seeds, all memory alignments and surrounding memory, all pairs of equal objects in different representations",
  "TestMurmur3 checks 14 fixed vectors from the package under util; the hashable wrappers, tail handling at other lengths and the equal-implies-equal-hash law are not tested.",
  [C+"hash.go", C+"hashable.go", U+"key_util.go", U+"mph_util.go"],
  [("Murmur3 block and tail processing", C+"hash.go MurmurSeed.Hash, "+U+"mph_util.go"),
   ("hashable wrappers", C+"hashable.go"), ("key hash", U+"key_util.go HashUint32")],
  None, ["hash values"])

p("C07", "Variable-length integers and byte strings round-trip on the wire",
  "Encoding any signed or unsigned 64-bit integer or any byte string and decoding the result, followed by arbitrary further bytes, returns the same value and consumes exactly the encoded bytes. A non-empty truncation of the encoding of an integer or a byte string, an integer of more than 64 bits, or a byte string whose declared length exceeds what is present, is reported as an error and never yields content from beyond the input. Encodings handed out earlier are not altered by later calls.",
  ["inputs"], "all 64-bit integers, all byte strings, all suffixes and truncations",
  "There is no test for these functions; boundary lengths, length overflow and truncation are each single points in an unbounded input space.",
  [U+"misc_util.go"],
  [("varint wrappers", U+"misc_util.go EncodeVarint64/DecodeVarint64/EncodeUvarint64/DecodeUvarint64"),
   ("length-prefixed strings", U+"misc_util.go EncodeVarchar/DecodeVarchar")],
  None, ["returned values, consumed lengths, errors"])

p("C08", "Record keys round-trip through their encoding",
  "Encoding any key built from non-empty sub keys within the size limit and decoding it, with any bytes following, gives an equal key with the same sub keys in the same order, consumes exactly the encoded bytes, and re-encodes to the same bytes. Distinct keys have distinct encodings, none a prefix of another, and a non-empty truncated encoding is rejected. A key whose encoding would exceed the size limit is refused with an error, and one within it is not.",
  ["inputs"], "all lists of non-empty sub keys, all trailing bytes, all truncation points, all sizes around the limit",
  "TestKey covers three short keys; sub-key counts and lengths around varint and size limits, trailing data and truncation are not covered.",
  [U+"key_util.go", U+"misc_util.go"],
  [("key encoder", U+"key_util.go Key.Encode"), ("key decoder", U+"key_util.go MappedKey.Decode"),
   ("empty key", U+"key_util.go EmptyKey")],
  None, ["Buf, Key, SubKeyAt, consumed length"])

p("C09", "Values round-trip through their encoding",
  "Encoding any value tree built from primitives, value arrays and record lists, within the size limits, and decoding it with any bytes following gives back the same tree: same kind, same size, same elements at every index regardless of the order in which the elements are accessed, same primitive bytes; the decoder consumes exactly the encoded bytes. A non-empty truncated encoding is rejected or reports an error when the missing element is accessed. A value whose encoding cannot be represented is refused with an error instead of being encoded wrongly.",
  ["inputs"], "all value trees, all primitive lengths (notably around 0, 255/256 and 65535/65536), all element counts, all access orders, all suffixes and truncations",
  "TestValue does not even pass at the pinned commit and covers a few short values; the length classes, lazily decoded elements and nesting combine into a space no list of examples covers.",
  [U+"value_util.go"],
  [("primitive, array and record list encoders", U+"value_util.go Primitive/ValueArray/RecordList Encode"),
   ("value decoder", U+"value_util.go StandardMappedValue.Decode"), ("lazy element decoding", U+"value_util.go ValueAt/RecordAt"),
   ("length-prefixed simple values", U+"value_util.go SimpleMappedValue")],
  [("data_array/record_list", "lazily decoded elements", U+"value_util.go StandardMappedValue")],
  ["Value, Size, ValueAt, RecordAt, Buf, consumed length"])

p("C10", "Records round-trip through their encoding",
  "Encoding any record, with any combination of key, value, scheme, timestamp and signature present or absent, and decoding it with any bytes following returns the same components (absent ones stay absent), and the decoder consumes exactly the encoded bytes. A record with an over-sized value or scheme is refused when encoding. A truncated encoding is rejected or reports an error when the missing element is accessed, except that cutting into the optional signature leaves a record without signature.",
  ["inputs"], "all presence combinations, all component contents and size boundaries, all suffixes and truncations",
  "The record test file is empty: no test encodes a record.",
  [U+"record_util.go", U+"key_util.go", U+"value_util.go", C+"util.go"],
  [("record encoder", U+"record_util.go Record.Encode"), ("record decoder", U+"record_util.go MappedRecord.Decode"),
   ("setters", U+"record_util.go Set*")],
  None, ["Key, Value, Scheme, Timestamp, Signature, Buf, consumed length"])

p("C11", "Decoders are total: any bytes give a result or an error, never a crash",
  "Given any byte sequence, every decoder (key, value, record, scheme, consensus time and id, hash table, variable-length integer and string, number, base58) terminates, returning either a result or an error, and so does every access to what was decoded; none panics, reads beyond the bytes it was given, or allocates out of proportion to them. The reported consumed length is within the input, the result depends only on those bytes, and the input is not modified.",
  ["inputs"], "all byte sequences",
  "Tests only decode well-formed output of the encoder; hostile or truncated packets are the inputs that matter for a node on the network and they are not sampled.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"consensus_util.go", U+"mph_util.go", U+"misc_util.go", U+"base58_util.go", C+"util.go"],
  [("length checks before every slice", U+"*_util.go Decode functions"),
   ("element count checks before allocation", U+"key_util.go MappedKey.Decode, "+U+"mph_util.go")],
  None, ["absence of panics, consumed length, decoded content"])

p("C12", "Copies are independent and encodings are never stale",
  "A copy of a key, value, record, scheme or consensus id equals the original at the time of copying, and later changes to either, including reuse of the buffer the original was decoded from, do not show in the other. After any sequence of modifications, encodings and copies, a successful encode yields exactly the encoding of the current content, an object never claims to be encoded while holding an encoding that predates its own last modification, and modifying never alters an encoding already handed out.",
  ["histories"], "every sequence of set/add/append/delete, encode, copy and construct-copy operations on an object and its copies",
  "No test modifies an object after encoding or copying it; staleness and aliasing only show for particular operation orders.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"consensus_util.go"],
  [("encoded-buffer invalidation in modifiers", U+"key_util.go Add, value_util.go Append/DeleteAt, record_util.go Set*"),
   ("deep copies", "Copy and CopyConstruct in "+U+"*.go")],
  [("encoded/buf", "cached encoding and its validity flag", U+"key_util.go, value_util.go, record_util.go")],
  ["Buf, IsEncoded, accessors of original and copies"])

p("C13", "Minimal perfect hash tables map every key to its own slot and survive encoding",
  "A minimal perfect hash table built from any list of distinct keys finds every one of them, and the index found is that key's position in the list; a key that is not in the list is reported as not found. The same answers are given by the table rebuilt from its encoded form.",
  ["inputs"], "all sets of distinct keys, all orders, all random seeds drawn while building",
  "The tests build a few word lists under whatever random seed the run draws; seed searches that need many attempts, tiny tables, keys hashing to the same bucket and lookups of absent keys are left to chance.",
  [U+"mph_util.go"],
  [("two-level seed search", U+"mph_util.go MPHBuild"), ("lookup with key verification", U+"mph_util.go Lookup"),
   ("table encode/decode", U+"mph_util.go")],
  [("level0/level1", "per-bucket seeds and key indices", U+"mph_util.go MPHTable")],
  ["Lookup results"])

p("C14", "Consensus times are totally ordered and round-trip through their encoding",
  "Among consensus times of one kind, exactly one of less, equal and greater holds and the six comparison queries agree with the order of the time components, most significant first, over their full unsigned range; comparing different kinds is an error. The encoding of a time decodes to an equal time of the same kind, distinct times have distinct encodings of fixed length, and unknown or short encodings are rejected.",
  ["inputs"], "all pairs of times over the full range of every component, all byte sequences",
  "Nothing tests consensus times; comparison bugs only show for particular combinations of components.",
  [U+"consensus_util.go"],
  [("component-wise comparison", U+"consensus_util.go LedgerTime/RaftTime GT GE EQ NE LT LE"),
   ("time codec", U+"consensus_util.go NewConsensusTime, Buf")],
  None, ["comparison results, Buf"])

p("C15", "Consensus ids accept exactly the well-formed encodings",
  "A consensus id is decoded from its magic byte and exactly the identifier fields this byte announces, in any combination and with any bytes following; it keeps exactly its own bytes and its copy is equal and does not share them. An empty input, a zero magic, a magic with reserved bits set, or fewer bytes than announced is rejected.",
  ["inputs"], "all 256 magic bytes, all lengths around the announced one, all field contents and suffixes",
  "Nothing tests consensus ids.",
  [U+"consensus_util.go"],
  [("consensus id decoder", U+"consensus_util.go NewMappedConsensusID"), ("deep copy", U+"consensus_util.go Copy")],
  None, ["Buf, ConsensusMagic, Copy, errors"])

p("C16", "Schemes decode exactly what their encoding announces and re-encode to it",
  "A scheme decoded from its encoding, with any bytes following, exposes exactly the components announced by its leading byte and consumes exactly their bytes, and encoding a modifiable copy of it gives a scheme with the same components. A truncated or empty encoding is rejected.",
  ["inputs"], "all presence combinations, all component contents, all suffixes and truncations",
  "There is no scheme test.",
  [U+"scheme_util.go", U+"consensus_util.go"],
  [("scheme decoder", U+"scheme_util.go MappedScheme.Decode"), ("scheme encoder", U+"scheme_util.go Scheme.Encode"),
   ("copies", U+"scheme_util.go Copy/CopyConstruct")],
  None, ["accessors, Buf, consumed length, errors"])

p("C17", "Base58 text and bytes convert both ways without loss",
  "Encoding any byte string in base58 gives the standard base58 text, using only the 58 allowed characters and keeping each leading zero byte as one leading '1', and decoding it gives back the same bytes. Decoding any text over the alphabet and encoding again gives the same text, and text containing any other character is not mistaken for data.",
  ["inputs"], "all byte strings and all texts",
  "Base58 has no test; leading zeros, carries and the alphabet boundaries are specific inputs.",
  [U+"base58_util.go"],
  [("base58 codec", U+"base58_util.go")],
  None, ["encoded text, decoded bytes"])

p("C18", "Generated keys sign verifiably and rebuild to the same key pair",
  "Every generated signing key satisfies the library's own conventions: its public half can be rebuilt from its public coordinate alone and is the same key, and the pair rebuilt from the stored numbers equals the original. A signature made over a digest with a key verifies under that key and its rebuilt form, and is rejected for a different digest or a different key.",
  ["inputs", "configurations"], "all private scalars, all digests, all random choices made while generating and signing",
  "TestECDSA generates random keys, so a key whose coordinate parity or leading zero bytes matter appears in a fraction of runs only, and failures there were invisible.",
  [U+"ecdsa_util.go", U+"lc_util.go"],
  [("key generation", U+"ecdsa_util.go"), ("point recovery from X", U+"ecdsa_util.go"), ("sign and verify", U+"ecdsa_util.go")],
  None, ["recovered keys, verify results"])

p("C19", "Key files give back the key that was saved, or an error, never another key",
  "A key pair saved under a secret is read back identically with that secret, for any secret and key, repeatedly and after saving other keys; the private key file is readable by its owner only and does not contain the private key in clear, and no two saves share an encryption stream. With a wrong secret, a corrupted or truncated file, a missing file, or after a crash or write failure at any point of saving, reading reports an error or returns the old or the new key, and never a different key and never crashes.",
  ["crash_points", "inputs", "fault_sequences"], "all secrets and keys, all single-byte corruptions and truncations of the files, all crash points and failing system calls while saving, both for a fresh and an existing key file",
  "TestLCKeyGen saves and loads one random key in the real /etc directory; damaged files and interrupted writes are not tested at all.",
  [U+"lc_util.go", U+"misc_util.go"],
  [("encrypted private key file", U+"lc_util.go"), ("public key file", U+"lc_util.go"), ("file permissions and directory creation", U+"lc_util.go")],
  None, ["files under the configuration directory, loaded keys, errors"], None)

p("C20", "The key trie behaves as a dictionary from multi-part keys to values",
  "After any sequence of sets, gets and removals (setting an absent value) under multi-part keys, the trie answers every lookup as a plain dictionary fed the same sequence would, and each set returns what that dictionary held before. Keys that are prefixes, extensions or siblings of each other, at the level of bytes and of key parts, are kept apart, and removing one leaves the others in place.",
  ["histories", "inputs"], "every sequence of set/get/remove over any keys, including keys that are prefixes of each other",
  "The trie has no test at all.",
  [U+"trie_util.go"],
  [("descend and create nodes", U+"trie_util.go Trie.Set/Get, TrieNode"), ("removal of a node and of empty ancestors", U+"trie_util.go Trie.Set")],
  [("nodes", "tree of sub-key nodes holding values", U+"trie_util.go TrieNode")],
  ["Get/Set results"])

p("C21", "Trie iteration visits stored keys in order, within range",
  "Iterating a trie yields every stored entry exactly once, in ascending key order; an iterator started at a key yields that subtree only, and a range iterator yields exactly the stored entries not less than the start and less than the end. Next, peek and has-next agree, and an exhausted iterator keeps yielding nothing.",
  ["histories", "inputs"], "every trie content, every start key and start/end pair, every interleaving of next, peek and has-next",
  "The trie has no test at all.",
  [U+"trie_util.go"],
  [("trie iterators", U+"trie_util.go TrieKeyIterator, range iterator"), ("sorted children", U+"trie_util.go, "+C+"sorted_map.go")],
  None, ["iterator results"])

p("C22", "An encoded trie decodes to the same dictionary",
  "Encoding a trie with any content that can be represented succeeds, and decoding the result, with any bytes following, gives a trie that answers every lookup and iterates as the original does, and consumes exactly the encoded bytes. A truncated encoding is rejected, a value that cannot be represented is refused, and an encoding is never stale after a modification. A copy of a trie holds exactly what the trie holds at that moment, and keeps it.",
  ["inputs"], "all trie contents",
  "The trie has no test at all; before the repair encoding it panicked and nothing could be decoded.",
  [U+"trie_util.go"],
  [("trie encoder", U+"trie_util.go Trie.Encode"), ("trie decoder", U+"trie_util.go MappedTrie")],
  None, ["Encode/Decode results"])

p("C23", "Random numbers honour their range and reach all of it",
  "A random number drawn from a range is never below its minimum and always below its maximum, for every range, signed ranges crossing zero and full-width ranges included, and every number in the range can be drawn. A plain random number is exactly the fresh random bytes of its width, so every value is equally likely.",
  ["inputs", "configurations"], "all ranges and all outputs of the random source",
  "The rand test prints ten draws; before the repair signed ranges crossing zero returned numbers outside the range without failing it.",
  [U+"rand_util.go", C+"util.go"],
  [("reduction of a raw draw to the range", U+"rand_util.go Rand*Range"), ("raw draws", U+"rand_util.go Rand*")],
  None, ["drawn numbers"])

p("C24", "Key generation command makes usable keys and never replaces an alias unasked",
  "Running the key generation command stores a key pair that loads with the pass phrase given, under an id derived from its public key, and points the alias (when one is given) at it. If the alias already exists it is replaced only after an explicit yes or when forced; otherwise the command changes nothing. Every class has keys and aliases of its own. Mismatching or too short pass phrases never produce a key. The library calls that prompt for a pass phrase save and load keys under the same secret, generated keys included, whatever its length. A run that fails or is killed at any point leaves every earlier key loadable and the alias old, absent or new.",
  ["inputs", "histories"], "all combinations of flags, existing alias state and answers at the prompts, in any sequence of runs",
  "No test runs the command.",
  ["src/main/pkeygen.go", U+"lc_util.go"],
  [("prompting and alias handling", "src/main/pkeygen.go"), ("key generation and saving", U+"lc_util.go")],
  None, ["exit status, files and links under the configuration directory"])

p("C25", "Numbers, big integers and times convert to bytes and back without loss",
  "Every 32- and 64-bit integer, every non-negative big integer below 2^256 and every time representable in nanoseconds converts to its fixed-width big-endian bytes and back unchanged; from too few bytes a time is an error and an integer is zero, never something else. Secrets are normalised to one cipher block by zero-padding short ones and keeping the last bytes of long ones, and digests are the standard ones. No conversion modifies its input",
  ["inputs"], "all integers, big integers below 2^256, times within the nanosecond range, all byte strings",
  "Only a print-only timestamp test touches this.",
  [C+"util.go", U+"ecdsa_util.go"],
  [("integer conversions", C+"util.go Int64ToByteArray and friends"), ("big integers as 32 bytes", C+"util.go BigIntToByteArray"),
   ("times as unix nanoseconds", C+"util.go TimeToBytes/BytesToTime/Int64ToTime"), ("block padding and digests", U+"ecdsa_util.go")],
  None, ["converted values"])

p("C26", "Independent use from several goroutines gives the results of running alone",
  "Goroutines that work on objects of their own (maps, sets, tries, keys, values, records, hash tables), or that only look up or iterate an object nobody modifies, observe under every interleaving exactly the results they would observe running alone. There is no hidden shared state between objects, calls or iterators.",
  ["schedules"], "all interleavings of two goroutines, at every statement of the library",
  "No test starts a goroutine; a shared scratch buffer or a lookup that writes to the structure is invisible to sequential tests and shows only under particular schedules.",
  [C+"*.go", U+"*.go"],
  [("no package-level mutable state", C+", "+U), ("read operations that do not write", C+"avl.go getR, hash.go Get, "+U+"trie_util.go Get, mph_util.go Lookup")],
  None, ["results of each goroutine"], "statement-level scheduling points, inserted by the check itself into a build-time copy of the sources")

p("C27", "Lookup cost stays logarithmic (sorted) and constant (hash) after any history",
  "After any sequence of insertions and removals, finding, inserting or removing a key in a sorted map of n entries needs a number of key comparisons that grows only logarithmically with n, and in a hash map whose keys have well-spread hashes it needs a constant number, whatever load factor and growth multiplier are asked for; averaged over the history, the hash map computes a constant number of hashes per operation.",
  ["histories"], "every insertion and removal order, every size",
  "A degenerate tree or table still returns right answers, so result-checking tests pass; only particular histories unbalance a tree.",
  [C+"avl.go", C+"hash.go"],
  [("height balance", C+"avl.go putBalance/removeBalance/adjustBalance"), ("load factor resize", C+"hash.go Put/Remove/resize")],
  [("balance", "height difference of the two subtrees", C+"avl.go AVLNode")],
  ["number of comparisons and equality tests made on caller-supplied keys"])

p("C28", "Log output always reaches the destination selected last",
  "After any sequence of selecting standard output or the per-process temporary log file, every message logged is written completely and only to the destination selected last, and earlier messages in the file are kept.",
  ["histories"], "every sequence of selections and messages",
  "Nothing tests logging; before the repair, selecting the file a second time silently dropped every later message.",
  [U+"lc_util.go"],
  [("logger destination", U+"lc_util.go LCSetLoggerStdout, LCSetLoggerFileTmp")],
  [("log_file", "the opened temporary log file", U+"lc_util.go")], ["standard output and log file contents"])

p("C29", "Trie nodes used on their own keep their place, content and encoding",
  "A trie node built by hand shows its full key (the node keys from below the root down to it), its parent, its value, its offset and exactly the children put and not removed since, sorted by node key, after any sequence of changes to it and to other nodes. Encoding it gives its current content in the documented form, and after a change of its value or children it no longer says it is encoded. Reading an encoded node under its parent gives the same content, consumes exactly its bytes whatever follows, and makes it the parent's child; a cut node, a node of another parent and a node that lacks or must not have a key are refused with an error and leave the parent unchanged. A decoded node refuses changes. A copy of a node has the same content, children included, shares no node, value or bytes with the original, and leaves the original in its place.",
  ["histories", "inputs"], "every sequence of creating, attaching, removing, changing, encoding and copying nodes, every small tree encoded and decoded, every cut and every parent offset",
  "Trie nodes have no test at all; before the repairs a malformed node was accepted as an empty one, and copies shared children and values with the original.",
  [U+"trie_util.go"],
  [("built nodes", U+"trie_util.go TrieNode"), ("decoded nodes", U+"trie_util.go MappedTrieNode, NewMappedTrieNode")],
  [("node", "parent, children, key, value, offset and encoding", U+"trie_util.go TrieNode, MappedTrieNode")],
  ["FullKey, Parent, Children, GetChild, Value, Buf, Copy results"])

p("C30", "Encodings have the one fixed form that other versions and programs read",
  "What is written to the wire or to disk has one fixed form, and everything in that form is read back as the content it stands for. Integers are 7-bit groups, least significant first, signed ones zigzag; byte strings carry their length in front; a key is its number of parts and the parts. A value is a magic byte telling its kind and the width of its size and length fields (1 or 2 bytes big-endian, written no wider than needed but read either way) and its content. A record is a magic byte (bit 6 key, 5 value, 4 scheme, 2 timestamp, 1 signature), then these components in this order, the timestamp as 8 bytes of nanoseconds and the signature as two 32-byte numbers. A scheme is a magic byte (bit 7 domain, 6 tablet, 5 buckets) and these strings. A consensus time is a magic byte and big-endian 32-bit numbers. A trie is its nodes depth first in ascending order with their parents' offsets. A hash table is its two levels with masks and its keys or hashes. A key file lies under its class and id and is hexadecimal text of the 32-byte public number, or of nonce and AES-GCM ciphertext of the private number, with a CRC32.",
  ["inputs"], "every object of the bounded spaces of the codec properties, in both directions against an independent encoder",
  "A round-trip test cannot see the encoder and the decoder change together, which cuts a node off from its peers and from its own data on disk.",
  [U+"value_util.go", U+"record_util.go", U+"key_util.go", U+"scheme_util.go", U+"consensus_util.go", U+"trie_util.go", U+"mph_util.go", U+"misc_util.go", U+"lc_util.go", C+"util.go"],
  [("encoders and decoders", U+"*_util.go Encode, Decode, Buf"), ("format description", "design.md, Record Encode Magic to Consensus ID Encoding")],
  [("buf", "the bytes of an encoded object", U+"*_util.go")], ["the encoded bytes, the content decoded from bytes of an independent encoder"])

p("C31", "The text of an object shows all of it, one line per entry, and changes nothing",
  "Printing a search tree, a hash table, a key, a trie or a trie node, in any state and with any indent, never fails and changes nothing about the object: printed again the text is the same, and later operations, encodings and answers are those of an object never printed. The first line starts with the indent asked for and what belongs to an object is on lines indented deeper, every entry of a tree or table with its key and value on exactly one line, every node of a trie below its parent in ascending order. The short description is one line. Trees, tables, keys and tries of primitive values with different content have different text.",
  ["histories", "inputs"], "every sequence of changes with printing in between, every key and node, every indent",
  "Tests print some objects and look at nothing; a line lost for one shape of tree, a malformed format or a side effect on the object goes unnoticed.",
  [C+"avl.go", C+"hash.go", C+"object.go", U+"key_util.go", U+"trie_util.go"],
  [("documented form of the text", C+"object.go IPrintable"), ("printing and describing", "Print and ToString in src/collection/avl.go, hash.go, src/util/key_util.go, trie_util.go")],
  None, ["the bytes written by Print, the result of ToString, and everything observable of the object afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
