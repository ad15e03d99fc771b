#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))
RB='src/rbtree.rs'; EN='src/rbtree/entry.rs'; IT='src/rbtree/iterator.rs'; HT='src/hashtree.rs'; LB='src/label.rs'; AH='src/as_hash_tree.rs'
MAP='src/collections/map.rs'; SEQ='src/collections/seq.rs'; PG='src/collections/paged.rs'; GR='src/collections/group.rs'; GB='src/collections/group/builder.rs'

prop('C01','Root hash of a map is never stale',
 "After any sequence of inserts, replacements, removals, in-place modifications through the modify/and_modify/append operations, clears, and rebuilds, the root hash reported by an ordered certified map equals the hash of its complete current contents (what reconstructing its full hash tree gives). This holds for every tree shape, including those that needed rotations or colour flips on the way.",
 ['histories','inputs'],'every reachable tree shape, every operation, every key/value',
 "Tests compare the root hash on a handful of short insert/delete histories; a missed re-hash on one rotation or recursion branch needs a particular shape to show.",
 [RB,EN,MAP],[('re-hash after every structural change','RbTree::{insert,delete,modify,modify_max_with_prefix}, rotate_left/right, balance'),('per-node subtree hash','Node::subtree_hash')],
 [('Node::subtree_hash','cached hash of the subtree rooted here','src/rbtree.rs')],['RbTree::root_hash','Map::root_hash'])

prop('C02','Every witness reconstructs to the root hash',
 "Every hash tree handed out as a witness by a certified map (single key, nested, full tree, all keys, key range, value range, prefix) reconstructs to exactly that map's root hash, for every map content and every query, whether or not the queried keys are present.",
 ['inputs','histories'],'every map content and query, every combination of missing/present children and bounds',
 "Tests sample ranges on one or two small trees; each combination of null children, pruned siblings and boundary kinds is a separate branch of the witness builders.",
 [RB,MAP],[('witness builders','lookup_and_build_witness, full_witness_tree, witness_range_*'),('canonical join of left/entry/right','three_way_fork mirrors Node::subtree_hash')],(),['HashTree::reconstruct'])

prop('C03','Single-key witnesses prove membership or absence',
 "The witness for a key that is present shows that key's label together with the complete value (or exactly the value witness the caller supplied for nested use) and keeps every other entry pruned. The witness for an absent key shows the labels of the closest smaller and closest larger keys that exist, with their values and everything else pruned, so absence can be verified.",
 ['inputs','histories'],'every key, present or absent, in every map',
 "Tests check absence proofs for a few keys in one tree; wrong neighbours or over-disclosure appear only for particular positions in the tree.",
 [RB,MAP],[('membership path','lookup_and_build_witness'),('neighbours','lower_bound, upper_bound, range_witness')],(),['RbTree::witness','RbTree::nested_witness','Map::witness'])

prop('C04','Range witnesses are complete and minimal',
 "A key-range (value-range) witness with first <= last reveals the label (label and full value) of every entry in the inclusive range, plus only the labels of the nearest entry outside each end when that end itself is not a key, and prunes everything else. The all-keys witness reveals every label with every value pruned, and the full hash tree reveals every entry with its value.",
 ['inputs','histories'],'every map content and every pair first <= last, with bounds present or absent',
 "Tests enumerate a few ranges over one fixed tree; a dropped or extra entry depends on where bounds fall relative to the tree's internal nodes.",
 [RB,MAP],[('range builders','witness_range_above/below/between, full_witness_tree'),('bound kinds','KeyBound::{Exact,Neighbor}')],(),['RbTree::key_range','RbTree::value_range','RbTree::keys','Map::witness_keys'])

prop('C05','Prefix queries find exactly the entries with the prefix',
 "The prefix witness reveals the label of every key starting with the prefix plus the nearest key outside on each side when one exists (the left one is not needed, and not shown, when the prefix itself is a key), and nothing else. The maximum-with-prefix lookup returns the greatest key having the prefix, and the maximum-with-prefix modification calls its function exactly once on that same entry; both report nothing when no key has the prefix.",
 ['inputs','histories'],'every map content and prefix, including key types where many keys borrow to the same prefix value (paged keys)',
 "Tests use one or two prefixes; whether a subtree on the far side of a match is searched depends on the tree's shape, and composite keys whose borrow is not injective are only tested at one page.",
 [RB,LB,PG],[('prefix searches','max_entry_with_prefix, modify_max_with_prefix, right_prefix_neighbor, lower_bound'),('prefix contract','label::Prefix')],(),['RbTree::keys_with_prefix','Map::witness_keys_with_prefix','Paged'])

prop('C06','A certified map behaves as an ordered map',
 "For every history, lookup returns the most recently stored value of a key and nothing for keys not stored; insert returns the value it replaced (and only then); remove returns exactly the removed entry; modify applies its function once to exactly the entry with that key and returns its result; no operation disturbs any other entry.",
 ['histories','inputs'],'every sequence of operations over every key/value type',
 "The tests are a handful of fixed histories; rotations and the successor-swap in deletion lose or duplicate entries only for specific shapes.",
 [RB,MAP],[('ordered search','RbTree::{get,get_with,get_node}'),('insert/delete recursion','insert::go, delete::go, delete_min')],(),['RbTree::{get,insert,delete,modify}','Map::{get,insert,remove,remove_entry,clear}'])

prop('C07','The map stays a balanced left-leaning red-black tree',
 "After every insertion and removal the tree is again a valid left-leaning red-black tree (black root, no red right child, no two reds in a row, equal black height), so lookups, updates and witnesses stay logarithmic in the number of entries.",
 ['histories'],'every history of inserts and removals',
 "Balance is asserted in test builds only, along the histories the tests happen to run.",
 [RB],[('rebalancing','balance, rotate_left, rotate_right, flip_colors, move_red_left, move_red_right'),('black root','insert, delete')],[('Node::color','red/black link colour','src/rbtree.rs')],[])

prop('C08','Reported length equals the number of entries',
 "The length of a map always equals the number of entries it holds, emptiness agrees with it, and iterators report the exact number of entries still to come.",
 ['histories','inputs'],'every history, including replacements, failed removals, clears and partial iterations',
 "Tests check the length after one history; counting a replacement or a failed removal needs a specific operation order.",
 [RB,IT,MAP],[('len bookkeeping','RbTree::insert/delete, RbTree::len/is_empty'),('remaining_elements','RbTreeIterator')],(),['Map::len','Map::is_empty','Iterator::size_hint'])

prop('C09','Iteration yields every entry once in ascending key order',
 "Iterating over a map, or visiting it with for_each, yields each entry exactly once, in strictly ascending key order, for every tree shape and however far the iteration is driven (including past the end).",
 ['inputs','histories'],'every tree shape',
 "One test iterates over keys inserted in ascending order.",
 [RB,IT,MAP],[('in-order traversal with explicit stack','RbTreeIterator::next'),('recursive visit','RbTree::for_each')],(),['Map::iter','RbTree::for_each'])

prop('C10','Tree memory is owned exactly once',
 "Every entry's key and value is dropped or handed back exactly once: no node is leaked, freed twice, or touched after being freed, whatever the history of inserts, removals, clears and drops.",
 ['histories'],'every history of operations, and dropping the map at any point',
 "The allocation counter in test builds covers only the node allocations along a few histories, and nothing checks values moved out by replacement.",
 [RB,EN],[('Box::into_raw / Box::from_raw pairing','Node::new, Node::delete'),('Drop','impl Drop for RbTree')],(),[])

prop('C11','References into a map cannot outlive the borrow of the map',
 "No safe use of the public API can keep a reference to a key or value stored in a collection alive after the borrow of that collection has ended, so the collection cannot be changed or dropped while such a reference exists.",
 ['programs'],'every safe client program',
 "A unit test can only show that one program compiles; this is about programs that must not compile.",
 [RB,EN,IT,MAP],[('lifetimes tied to self in public signatures','RbTree::{modify,modify_max_with_prefix,for_each,nested_witness}, RbTreeIterator, Entry')],(),[])

prop('C12','Certified values cannot be mutated behind the cached hash',
 "No public operation hands out mutable access to a stored value in a way that lets it change after the hash covering it was computed; any mutation through the public API is followed by recomputation of the affected hashes before the next hash can be read.",
 ['programs','histories'],'every safe client program and every way of obtaining a mutable reference',
 "Tests never mutate through a returned reference and then compare the root hash.",
 [RB,EN,MAP,SEQ,GR],[('closure-scoped mutation followed by re-hash','RbTree::modify, modify_max_with_prefix, Entry::and_modify'),('append-only sequences','Seq')],(),[])

prop('C13','Every hashable type hashes as its own hash tree',
 "For every type provided as a certifiable value, the direct root hash equals the hash reconstructed from its hash tree, and pointer wrappers (Box, Rc, Arc, ...) hash exactly as the value they hold. Scalars are a leaf holding their big-endian bytes, byte strings and text a leaf holding their bytes.",
 ['inputs'],'every value of every provided implementation',
 "No test compares the two for the scalar, text, principal, number or wrapper implementations.",
 [AH],[('paired root_hash/as_hash_tree','impl AsHashTree for ...')],(),['AsHashTree::root_hash','AsHashTree::as_hash_tree'])

prop('C14','Hash tree hashing follows the Internet Computer specification',
 "Reconstructing a hash tree yields SHA-256 over the specified length-prefixed domain separators and operands for every node kind (empty, fork, labeled, leaf, pruned), recursively, so a verifier that follows the specification computes the same digest for every tree.",
 ['inputs'],'every hash tree',
 "One specification example is tested.",
 [HT],[('domain separated SHA-256','fork_hash, leaf_hash, labeled_hash, domain_sep, HashTree::reconstruct')],(),['HashTree::reconstruct'])

prop('C15','Hash trees serialize to the specified wire format',
 "A serialized hash tree is, for every node, a sequence with the specified tag (0 empty, 1 fork, 2 labeled, 3 leaf, 4 pruned) and that node's parts in order, as byte strings and nested trees, with the declared length equal to the number of elements written.",
 ['inputs'],'every hash tree',
 "One example with four of the five node kinds is tested.",
 [HT],[('impl Serialize for HashTree','src/hashtree.rs')],(),['serde output'])

prop('C16','Label bytes order and identify keys exactly as the keys do',
 "For every provided key type, two keys have equal label bytes only if they are equal, and the byte-wise order of labels agrees with the order of the keys, so that neighbours shown by an absence or range proof are also neighbours in label order for a verifier that only sees labels.",
 ['inputs'],'every pair of keys of every provided key type',
 "No test compares label order with key order.",
 [LB,RB,PG],[('impl Label for ...','src/label.rs'),('composite label','impl Label for PagedKey')],(),['Label::as_label'])

prop('C17','A sequence root hash is the fold of its items in order',
 "The root hash of an append-only sequence equals the left fold, from 32 zero bytes, of SHA-256(previous hash || item hash) over all of its items in order, however it was produced: appends, bulk extension, conversion, collection, deserialization or clearing. Appending keeps all earlier items unchanged and in place.",
 ['histories','inputs'],'every way of building a sequence, in any combination',
 "Tests compare a few constructions of short constant sequences.",
 [SEQ],[('hash chain','Seq::append, Seq::recompute_hash'),('reset','Seq::clear, Seq::new')],[('Seq::hash','running hash','src/collections/seq.rs')],['Seq::root_hash'])

prop('C18','Serialization carries every entry once and rebuilds hashes',
 "Serializing a map or sequence (serde and Candid) announces the exact number of elements and then emits every element exactly once in order. Deserializing consumes every element supplied and produces a collection holding exactly those, with hashes computed from the decoded contents and never taken from the input.",
 ['inputs'],'every collection content and every serialized stream',
 "Tests round-trip one or two small collections through one format.",
 [MAP,SEQ],[('Serialize/Deserialize/CandidType impls','src/collections/map.rs, src/collections/seq.rs')],(),[])

prop('C19','Paged lists fill pages in order and address them exactly',
 "Inserting into a paged list (page size at least one) appends the item to the last page of its key, or starts the page numbered one higher (zero for a new key) exactly when the last page already holds the page size, so no page exceeds the size and page numbers have no gaps. Reading or witnessing a page concerns exactly the requested key and page number, and the last-page queries report the highest existing page.",
 ['histories','inputs'],'every history of inserts over every key, page size of at least one and page number',
 "Tests insert a few dozen items under few keys; wrong page selection depends on neighbouring keys and large page numbers.",
 [PG],[('append-or-new-page','Paged::insert'),('page addressing','Paged::get, Paged::witness, PagedKey ordering and label')],(),['Paged::{insert,get,witness,get_last_page_number,witness_last_page_number}'])

prop('C20','Group witnesses match the group root hash and reveal what was asked',
 "For every group and every selection of member types, the built witness reconstructs to the group's root hash, contains for each requested member exactly its full tree or the caller's partial witness at its path, and prunes every branch that contains no requested member.",
 ['inputs','histories'],'every group shape and every subset of requested members',
 "Tests build one group shape and two selections.",
 [GR],[('ancestor bookkeeping','GroupNode::visit_node, Ray::full/partial'),('witness construction','GroupNode::witness, witness_all, root_hash')],[('dependencies','ancestors of each leaf','src/collections/group.rs')],['Group::witness','Ray::build'])

prop('C21','Group paths become sorted, unique labels without losing members',
 "Building a group yields a hash tree in which every inserted member appears exactly once at the labels of its path, labels within a directory are unique and appear in ascending order, and a path or type used twice is rejected rather than overwriting a member.",
 ['inputs'],'every set of inserted paths, in any insertion order',
 "Tests build a single group with few leaves.",
 [GB],[('ordered directory','GroupBuilderNode::{insert,build}'),('pairwise joining','GroupBuilderNode::build')],(),['GroupBuilder::build'])

prop('C22','Typed access to group members is type-safe',
 "Reading or borrowing a group member by type always yields the member that was inserted with that very type; the unchecked cast behind it happens only after the stored value's dynamic type was compared equal to the requested one, and members are stored and looked up under the identity of their own type.",
 ['programs','inputs'],'every group and every requested type',
 "A wrong cast is undefined behaviour; a passing test says nothing about it.",
 [GR,GB],[('guarded downcast','<dyn GroupLeaf>::{is,downcast_ref,downcast_mut}'),('TypeId keyed storage','GroupBuilder::insert, Group::{get,get_mut}, Ray')],(),['Group::get','Group::get_mut'])

prop('C23','Entry operations act on exactly the addressed key',
 "The entry view of a key is occupied exactly when the key is stored. Inserting through a vacant entry stores the given value under that key; the or_* operations leave an existing value untouched and otherwise store the default; removing through an occupied entry removes and returns exactly that entry; and_modify runs its function once on an existing value only.",
 ['inputs','histories'],'every map and key',
 "The entry API has no tests.",
 [EN,RB],[('entry API','RbTree::entry, Entry, OccupiedEntry, VacantEntry')],(),['RbTree::entry','Map::entry'])

prop('C24','Certified hashes depend only on contents',
 "Hashes, labels and witnesses are functions of the collection's contents and of the history that built its tree alone: nothing that feeds them depends on hash-map iteration order, memory addresses, time, randomness, thread identity or mutable global state, so two executions of the same build over the same history compute the same digest.",
 ['programs','configurations','schedules'],'every execution and platform run',
 "A single process cannot observe a divergence between replicas.",
 [RB,HT,LB,AH,GR,GB,SEQ,PG],[('only ordered containers are iterated','BTreeMap in GroupBuilder, hash maps used for point lookups only')],(),[])

prop('C25','Operations on valid collections do not panic',
 "No public operation of the map, sequence, paged list or group panics, underflows a counter or unwraps a missing value on a collection built through the public API, apart from the documented panics (group members that do not exist, builder misuse) and failures inside user-supplied code.",
 ['inputs','histories'],'every operation with every argument, on every collection state',
 "A trap in a canister is a lost message; tests exercise the non-panicking arguments only.",
 [RB,EN,IT,MAP,PG,SEQ,GR],[('non-null and presence invariants behind unwrap/assert','src/rbtree.rs, src/rbtree/iterator.rs, src/collections/*.rs')],(),[])

prop('C28','Inspecting a hash tree shows exactly what it contains',
 "For every hash tree, get_labels lists the label of every labelled node exactly once in pre-order from left to right, get_leaf_values lists the bytes of every leaf exactly once from left to right, and neither lists anything else; the left and right accessors of a fork return that subtree, the fork and labeled constructors build the node they name from their arguments, and two hash trees compare equal exactly when they have the same shape and all labels, leaf bytes and pruned digests are equal.",
 ['inputs'],'every hash tree: any depth, repeated labels, empty labels and leaves, pruned and empty subtrees',
 "Verifiers and tests read witnesses through these functions; tests inspect a few small trees, and a slip only shows on shapes they do not have (a label above an empty subtree, the same label twice in a row, a pruned node compared with the subtree it stands for).",
 [HT],[('get_labels, get_leaf_values','src/hashtree.rs'),('ForkInner accessors, fork, labeled, PartialEq','src/hashtree.rs')],(),[])

prop('C29','Reading a sequence shows exactly its items, and wrappers show what they wrap',
 "For every sequence, the vector and slice views, the iterator, conversion to a vector and cloning show exactly its items in order, indexing reads the item at that index, len and is_empty agree with them, and two sequences compare equal exactly when their items are equal; a map's tree view is the map's own tree, and the hash tree of a map or paged list is the full tree of everything it holds rather than a witness of part of it.",
 ['inputs','histories'],'every sequence, map and paged list',
 "Tests read sequences of a few items; a view that is off for empty, one-element or equal-prefix sequences passes them.",
 [SEQ,MAP,PG],[('Seq views, Index, PartialEq','src/collections/seq.rs'),('Map::as_tree, AsRef','src/collections/map.rs'),('AsHashTree for Map and Paged','src/collections/map.rs, src/collections/paged.rs')],(),[])

prop('C30','Types cross threads only when their contents may',
 "No type a user can reach is Send or Sync unless everything it holds allows it: a map, paged list, sequence, entry or iterator is Send (Sync) only under the assumption that the keys and values it owns are Send (Sync), one that holds them by shared reference only if they are Sync, and a type that stores erased members (a group) never claims more than its member types promise.",
 ['schedules','inputs'],'every instantiation of the public generic types, including keys and values such as Rc that must stay on one thread',
 "Safe code could otherwise race on reference counts or cells stored in a collection; a wrong auto-trait claim compiles and passes every single-threaded test.",
 [RB,EN,IT,MAP,PG,SEQ,GR],[('raw node pointers','src/rbtree.rs, src/rbtree/entry.rs, src/rbtree/iterator.rs'),('boxed member objects','src/collections/group.rs')],(),[])

prop('C26','Witnesses cannot be forged',
 "It is computationally infeasible to produce a hash tree that reconstructs to a map's root hash but shows a label or value that the map does not contain.",
 ['inputs'],'every adversarial hash tree',
 "A cryptographic hardness claim; no test can sample it.",
 [HT],[('SHA-256 with domain separation','src/hashtree.rs')],(),[])

prop('C27','Decoding an encoded collection gives an equal collection',
 "Encoding any map, sequence or paged list with a supported format and decoding the result yields a collection with equal contents and equal root hash.",
 ['inputs','configurations'],'every collection content and every serde/Candid format',
 "Depends on the behaviour of each external codec and of the element types' own implementations.",
 [MAP,SEQ,PG],[('Serialize/Deserialize pairs','src/collections/*.rs')],(),[])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
import sys
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, s)
    print('valid', len(P))
except ImportError: pass
