R='rbtree.rs'
H='hashtree.rs'
S='collections/seq.rs'
M='collections/map.rs'
P='collections/paged.rs'
L='label.rs'
A='as_hash_tree.rs'
E='rbtree/entry.rs'
G='collections/group.rs'
B='collections/group/builder.rs'
GH='use certified_vars::*;\nuse certified_vars::collections::group::GroupLeaf;\n'
I='rbtree/iterator.rs'
HT='use certified_vars::*;\nuse certified_vars::rbtree::RbTree;\n'
C7H=r'''use certified_vars::{AsHashTree, HashTree, Map};
use std::collections::BTreeSet;

// the possible black heights of the subtree with a (red, black) root; None = no node
type H = (BTreeSet<u32>, BTreeSet<u32>);
fn is_entry(t: &HashTree) -> bool { matches!(t, HashTree::Labeled(..)) }
fn kids<'a, 'b>(t: &'b HashTree<'a>) -> (Option<&'b HashTree<'a>>, Option<&'b HashTree<'a>>) {
    match t {
        HashTree::Fork(b) if is_entry(&b.1) => (Some(&b.0), None),
        HashTree::Fork(b) => match &b.1 {
            HashTree::Fork(c) if is_entry(&c.0) => (Some(&b.0), Some(&c.1)),
            _ => (None, Some(&b.1)),
        },
        _ => (None, None),
    }
}
fn heights(t: Option<&HashTree>) -> H {
    let t = match t { None => return (BTreeSet::new(), [0].iter().cloned().collect()), Some(t) => t };
    let (l, r) = kids(t);
    let ((lr, lb), (_, rb)) = (heights(l), heights(r));
    // a right child is black; a red node has black children
    let red = lb.intersection(&rb).cloned().collect();
    let black = lb.union(&lr).cloned().collect::<BTreeSet<_>>().intersection(&rb).map(|h| h + 1).collect();
    (red, black)
}
fn valid(m: &Map<u32, u32>) -> bool { m.len() == 0 || !heights(Some(&m.as_hash_tree())).1.is_empty() }

'''
C7=r'''
    let mut bad = 0;
    for mode in 0..8u32 { for seed in 0..4u64 {
        let mut m: Map<u32, u32> = Map::new();
        let mut x: u64 = 88172645463325252 ^ (seed << 7) ^ mode as u64;
        let mut keys: Vec<u32> = vec![];
        for i in 0..400u32 {
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            let ins = match mode { 0 | 1 | 2 => true, 3 | 4 => i < 200 || i % 2 == 0, _ => keys.is_empty() || (x >> 3) % 3 != 0 };
            if ins {
                let k = match mode { 0 | 3 | 5 => i, 1 | 4 | 6 => 100000 - i, _ => (x >> 20) as u32 };
                if m.insert(k, 1).is_none() { keys.push(k); }
            } else {
                let j = match mode { 3 => 0, 4 => 0, 5 => keys.len() - 1, _ => (x >> 9) as usize % keys.len() };
                let k = keys.remove(j); m.remove(&k);
            }
            if !valid(&m) { println!("after {} operations (history {}/{}) the map is no left-leaning red-black tree: {} entries", i + 1, mode, seed, m.len()); bad += 1; break; }
        }
    } }
    assert_eq!(bad, 0);
'''
SENDH='''use certified_vars::*; use std::marker::PhantomData;
struct P<T>(#[allow(dead_code)] PhantomData<T>);
trait No { fn is_send(&self) -> bool { false } }
impl<T> No for &P<T> {}
trait Yes { fn is_send(&self) -> bool { true } }
impl<T: Send> Yes for P<T> {}
'''
PLANTS=[
dict(id='c01-overwrite-right', property='C01', needs='an insert that replaces the value of a key stored in a right subtree',
 breaks='ancestors of the overwritten key keep the hash of the old value',
 edits=[(R,"(*h).right = res.node;\n                    (*h).subtree_hash = Node::subtree_hash(h);","(*h).right = res.node;\n                    if res.old_value.is_none() {\n                        (*h).subtree_hash = Node::subtree_hash(h);\n                    }")],
 demo='''let mut m = Map::<u32, u32>::new();
 for i in 0..20 { m.insert(i, i); }
 for i in 0..20 { m.insert(i, i + 100);
   assert_eq!(m.root_hash(), m.as_hash_tree().reconstruct(), "stale hash after overwriting {}", i); }'''),
dict(id='c01-prefix-modify-depth', property='C01', needs='a prefix modification that happens in the right subtree of a matching node, with a result of None from an inner key',
 breaks='a node on the path keeps its old hash after the value below it changed',
 edits=[(R,"            if res.0.is_some() {\n","            if res.0.is_some() && (is_red(h) || (*h).right.is_null()) {\n")],
 head=HT,
 demo='''let mut m = RbTree::<Vec<u8>, u32>::new();
 for i in 0..40u8 { m.insert(vec![1, i], i as u32); }
 for _ in 0..3 { m.modify_max_with_prefix(&[1u8][..], |_, v| *v += 1);
   assert_eq!(m.root_hash(), m.as_hash_tree().reconstruct()); }'''),
dict(id='c08-last-removed', property='C08', needs='removing the last entry of a map',
 breaks='the length stays 1 after the only entry is removed',
 edits=[(R,"            self.len -= 1;","            if !self.root.is_null() {\n                self.len -= 1;\n            }")],
 demo='''let mut m = Map::<u32, u32>::new(); m.insert(1, 1); m.remove(&1);
 assert_eq!(m.len(), 0); assert_eq!(m.iter().count(), 0);
 assert_eq!(serde_cbor::to_vec(&m).unwrap(), serde_cbor::to_vec(&Map::<u32,u32>::new()).unwrap());'''),
dict(id='c09-deep-left-spine', property='C09', needs='a tree whose left spine is deeper than the stack capacity the iterator starts with',
 breaks='entries below the eighth node of a left spine are skipped',
 edits=[(I,"while !self.visit.is_null() {","while !self.visit.is_null() && self.stack.len() < self.stack.capacity() {")],
 demo='''let mut m = Map::<u32, u32>::new();
 for i in (0..3000).rev() { m.insert(i, i); }
 let ks: Vec<u32> = m.iter().map(|(k, _)| *k).collect();
 assert_eq!(ks, (0..3000).collect::<Vec<_>>());'''),
dict(id='c08-hint-stuck', property='C08', needs='asking for the remaining length after a right child has been entered',
 breaks='size_hint reports more entries than remain',
 edits=[(I,"                self.remaining_elements -= 1;","                if self.visit.is_null() {\n                    self.remaining_elements -= 1;\n                }")],
 demo='''let mut m = Map::<u32, u32>::new();
 for i in 0..10 { m.insert(i, i); }
 let mut it = m.iter();
 for i in 0..10usize { assert_eq!(it.size_hint(), (10 - i, Some(10 - i))); it.next(); }'''),
dict(id='c17-extend-by-ref', property='C17', needs='extending a sequence from references rather than values',
 breaks='items appended by Extend<&T> are not folded into the hash',
 edits=[(S,"        let prev_len = self.items.len();\n        self.items.extend(iter);\n        self.recompute_hash(prev_len)","        self.items.extend(iter);\n        let prev_len = self.items.len();\n        self.recompute_hash(prev_len)")],
 demo='''let xs = vec![1u32, 2, 3];
 let mut a = Seq::<u32>::new(); a.append(9); a.extend(xs.iter());
 let mut b = Seq::<u32>::new(); for i in [9u32, 1, 2, 3].iter() { b.append(*i); }
 assert_eq!(a.as_vec(), b.as_vec()); assert_eq!(a.root_hash(), b.root_hash());'''),
dict(id='c17-from-mut-slice', property='C17', needs='building a sequence from a mutable slice of more than one item',
 breaks='the fold skips the first item',
 edits=[(S,"    fn from(items: &'a mut [T]) -> Self {\n        let mut seq = Seq {\n            items: items.into(),\n            hash: [0; 32],\n        };\n        seq.recompute_hash(0);","    fn from(items: &'a mut [T]) -> Self {\n        let mut seq = Seq {\n            items: items.into(),\n            hash: [0; 32],\n        };\n        seq.recompute_hash(seq.items.len().min(1).saturating_sub(1).max(seq.items.len() / 2));")],
 demo='''let mut xs = vec![1u32, 2, 3];
 let a = Seq::<u32>::from(&mut xs[..]);
 let b: Seq<u32> = vec![1u32, 2, 3].into();
 assert_eq!(a.root_hash(), b.root_hash());'''),
dict(id='c18-truncated-input', property='C18', needs='decoding an input in which a later entry is malformed',
 breaks='a decoding error in an entry is taken for the end of the map, the rest is silently dropped',
 edits=[(M,"if let Some((key, value)) = map.next_entry::<K, V>()? {","if let Ok(Some((key, value))) = map.next_entry::<K, V>() {")],
 demo='''let mut bytes = serde_cbor::to_vec(&vec![(1u8, 1u8)].into_iter().collect::<std::collections::BTreeMap<_, _>>()).unwrap();
 assert_eq!(bytes[0], 0xa1); bytes[0] = 0xa2; bytes.push(2); bytes.push(0x61); bytes.push(0x61);
 // {1: 1, 2: "a"} is not a map of numbers
 match serde_cbor::from_slice::<Map<u8, u8>>(&bytes) { Err(_) => (), Ok(m) => panic!("accepted, {} entries", m.len()) }'''),
dict(id='c18-candid-first-only', property='C18', needs='encoding a map of two or more entries with Candid',
 breaks='the Candid encoding of a map leaves out its last entry',
 edits=[(M,"let mut ser = serializer.serialize_vec(self.len())?;\n        for e in self.iter() {","let mut ser = serializer.serialize_vec(self.len())?;\n        for e in self.iter().take(self.len().max(2) - 1) {")],
 demo='''use candid::{encode_one, decode_one};
 let m: Map<String, u32> = (0..4u32).map(|i| (i.to_string(), i)).collect();
 let bytes = encode_one(&m).unwrap();
 let v: Vec<(String, u32)> = decode_one(&bytes).expect("undecodable");
 assert_eq!(v.len(), 4);'''),
dict(id='c06-collect-first-wins', property='C06', needs='collecting an iterator in which a key occurs twice',
 breaks='collecting keeps the first value of a repeated key where insertion keeps the last',
 edits=[(M,"        for (key, value) in iter {\n            result.insert(key, value);","        for (key, value) in iter {\n            result.entry(key).or_insert(value);")],
 demo='''let m: Map<u32, u32> = vec![(1, 1), (2, 2), (1, 3)].into_iter().collect();
 assert_eq!(m.get(&1), Some(&3)); assert_eq!(m.len(), 2);'''),
dict(id='c16-page-label-byte', property='C16', needs='a key with more than 256 pages',
 breaks='pages 0 and 256 of a key carry the same label',
 edits=[(P,"data.extend_from_slice(&self.page.to_be_bytes());","data.extend_from_slice(&[0, 0, 0, self.page as u8]);")],
 demo='''let mut p = Paged::<u8, u32, 1>::new();
 for i in 0..300 { p.insert(7, i); }
 let a = format!("{:?}", p.witness(&7, 1).get_labels()); let b = format!("{:?}", p.witness(&7, 257).get_labels());
 assert_ne!(a, b);'''),
dict(id='c19-last-page-narrow', property='C19', needs='a key with more than 256 pages',
 breaks='the last page number wraps at 256',
 edits=[(P,".map(|(k, _)| k.page as usize)",".map(|(k, _)| (k.page & 0xff) as usize)")],
 demo='''let mut p = Paged::<u8, u32, 1>::new();
 for i in 0..300 { p.insert(7, i); }
 assert_eq!(p.get_last_page_number(&7), Some(299));'''),
dict(id='c16-integer-labels-le', property='C16', needs='integer keys of which one is larger than a byte',
 breaks='label bytes of integers no longer sort as the integers do',
 edits=[(L,"Cow::Owned(self.to_be_bytes().into())","Cow::Owned(self.to_le_bytes().into())")],
 demo='''use certified_vars::label::Label;
 let xs = [0u32, 1, 255, 256, 257, 65535, 65536, 1 << 30];
 for a in xs.iter() { for b in xs.iter() { assert_eq!(a.cmp(b), a.as_label().cmp(&b.as_label()), "{} {}", a, b); } }'''),
dict(id='c05-prefix-exact-bytes', property='C05', needs='a prefix query over byte string keys where the prefix itself is also a key',
 breaks='a key equal to the prefix no longer counts as having it, so the maximum is not found',
 edits=[(L,"self.starts_with(prefix)","self.len() > prefix.len() && self.starts_with(prefix)")],
 head=HT,
 demo='''let mut t = RbTree::<Vec<u8>, u32>::new();
 t.insert(vec![1], 1); t.insert(vec![1, 1, 0], 2); t.insert(vec![0], 0); t.insert(vec![2], 3);
 t.insert(vec![1, 1], 7);
 assert_eq!(t.max_entry_with_prefix(&[1u8, 1, 0][..]).map(|x| *x.1), Some(2));
 assert_eq!(t.max_entry_with_prefix(&[2u8][..]).map(|x| *x.1), Some(3));'''),
dict(id='c05-max-under-left', property='C05', needs='a largest matching key that lies under a node greater than every match',
 breaks='the search for the largest match gives up at a greater node that has no red left child',
 edits=[(R,"                Greater => go((*n).left, prefix),\n                Less | Equal => go((*n).right, prefix),\n            }\n        }\n        unsafe { go(self.root, prefix) }\n    }\n\n    fn range_witness","                Greater if !(*n).left.is_null() && (*(*n).left).key.borrow() > prefix && !(*(*n).left).key.is_prefix(prefix) => None,\n                Greater => go((*n).left, prefix),\n                Less | Equal => go((*n).right, prefix),\n            }\n        }\n        unsafe { go(self.root, prefix) }\n    }\n\n    fn range_witness")],
 head=HT,
 demo='''let mut t = RbTree::<Vec<u8>, u32>::new();
 for i in 0..64u8 { t.insert(vec![i, i], i as u32); }
 for i in 0..64u8 { assert_eq!(t.max_entry_with_prefix(&[i][..]).map(|x| *x.1), Some(i as u32), "{}", i); }'''),
dict(id='c10-leak-right-of-red', property='C10', needs='dropping a map of which some node has a red left and a right child',
 breaks='the right subtree of such a node is never freed',
 edits=[(R,"        Self::delete((*n).right);","        if !is_red((*n).left) {\n            Self::delete((*n).right);\n        }")],
 head='use certified_vars::*;\nuse std::rc::Rc;\n',
 demo='''let c = Rc::new(5u32);
 { let mut m = Map::<u32, Rc<u32>>::new(); for i in 0..100 { m.insert(i * 7919 % 101, c.clone()); } }
 assert_eq!(Rc::strong_count(&c), 1);'''),
dict(id='c14-empty-leaf', property='C14', needs='a leaf with no bytes',
 breaks='the hash of a leaf with empty contents is that of the empty tree',
 edits=[(H,"            Self::Leaf(data) => leaf_hash(data),","            Self::Leaf(data) if data.is_empty() => domain_sep(\"ic-hashtree-empty\").finalize().into(),\n            Self::Leaf(data) => leaf_hash(data),")],
 demo='''use sha2::{Digest, Sha256};
 let mut h = Sha256::new(); h.update(&[16u8]); h.update(b"ic-hashtree-leaf");
 let want: [u8; 32] = h.finalize().into();
 assert_eq!(HashTree::Leaf(std::borrow::Cow::Borrowed(b"")).reconstruct(), want);'''),
dict(id='c15-empty-leaf-short', property='C15', needs='serializing a leaf with no bytes',
 breaks='an empty leaf is written as an array of one element',
 edits=[(H,"                let mut seq = serializer.serialize_seq(Some(2))?;\n                seq.serialize_element(&3u8)?;\n                seq.serialize_element(Bytes::new(leaf_bytes))?;","                let mut seq = serializer.serialize_seq(Some(1 + !leaf_bytes.is_empty() as usize))?;\n                seq.serialize_element(&3u8)?;\n                if !leaf_bytes.is_empty() {\n                    seq.serialize_element(Bytes::new(leaf_bytes))?;\n                }")],
 demo='''assert_eq!(serde_cbor::to_vec(&HashTree::Leaf(std::borrow::Cow::Borrowed(b""))).unwrap(), vec![0x82, 3, 0x40]);'''),
dict(id='c13-nat-le', property='C13', needs='a Nat value larger than a byte',
 breaks='the hash of a Nat does not match its hash tree',
 edits=[(A,"leaf_hash(&self.0.to_bytes_be())","leaf_hash(&self.0.to_bytes_le())")],
 demo='''let n = candid::Nat::from(1_000_000u64); assert_eq!(n.root_hash(), n.as_hash_tree().reconstruct());'''),
dict(id='c11-get-detached', property='C11', kind='nocompile', needs='keeping the result of get across a later mutation of the map',
 breaks='get hands out a reference that is not tied to the borrow of the map',
 edits=[(R,"    pub fn get<Q: ?Sized>(&self, key: &Q) -> Option<&V>","    pub fn get<'v, Q: ?Sized>(&self, key: &Q) -> Option<&'v V>")],
 head=HT,
 demo='''let mut t = RbTree::<u32, u32>::new(); t.insert(1, 1); { let r = t.get(&1); assert_eq!(r, Some(&1)); } t.delete(&1);''',
 bad='''let mut t = RbTree::<u32, u32>::new(); t.insert(1, 1); let r = t.get(&1); t.delete(&1); println!("{:?}", r);'''),
dict(id='c11-iterator-detached', property='C11', kind='nocompile', needs='keeping an iterator across a later mutation of the map',
 breaks='the iterator of a map is not tied to the borrow of the map',
 edits=[(M,"    pub fn iter(&self) -> RbTreeIterator<K, V> {","    pub fn iter<'t>(&self) -> RbTreeIterator<'t, K, V> {"),
        (M,"        RbTreeIterator::new(&self.inner)","        let tree: &'t RbTree<K, V> = unsafe { &*(&self.inner as *const _) };\n        RbTreeIterator::new(tree)")],
 demo='''let mut m = Map::<u32, u32>::new(); m.insert(1, 1); { let mut i = m.iter(); i.next(); } m.clear();''',
 bad='''let mut m = Map::<u32, u32>::new(); m.insert(1, 1); let mut i = m.iter(); m.clear(); println!("{:?}", i.next());'''),
dict(id='c12-append-returns-mut', property='C12', needs='changing the last item through the reference append returns',
 breaks='an item of a sequence can be changed after it was folded into the hash',
 edits=[(S,"    pub fn append(&mut self, item: T) {","    pub fn append(&mut self, item: T) -> &mut T {"),
        (S,"        self.items.push(item);","        self.items.push(item);\n        let last = self.items.len() - 1;\n        &mut self.items[last]")],
 kind='nocompile',
 demo='''let mut s = Seq::<u32>::new(); s.append(1); assert_eq!(s.len(), 1);''',
 bad='''let mut s = Seq::<u32>::new(); *s.append(1) = 2; assert_eq!(s.len(), 1);'''),
dict(id='c23-or-insert-key', property='C23', needs='or_insert_with_key on a key that is already present',
 breaks='the present value is replaced',
 edits=[(E,"        match self {\n            Occupied(entry) => entry.into_mut(),\n            Vacant(entry) => {\n                let value = default(entry.key());","        match self {\n            Occupied(entry) => {\n                let value = default(entry.key());\n                entry.map.insert(entry.key, value).1\n            }\n            Vacant(entry) => {\n                let value = default(entry.key());")],
 demo='''let mut m = Map::<u32, u32>::new(); m.insert(1, 5);
 assert_eq!(*m.entry(1).or_insert_with_key(|k| k + 1), 5); assert_eq!(m.get(&1), Some(&5));'''),
dict(id='c23-remove-entry-next', property='C23', needs='removing through an entry when the map becomes empty afterwards or has few entries',
 breaks='remove through an entry also drops the entry of the smallest key when two are left',
 edits=[(E,"        self.map.delete(&self.key).unwrap()\n","        let res = self.map.delete(&self.key).unwrap();\n        if self.map.len() == 1 {\n            *self.map = RbTree::new();\n        }\n        res\n")],
 demo='''use certified_vars::rbtree::entry::Entry;
 let mut m = Map::<u32, u32>::new(); m.insert(1, 5); m.insert(2, 6);
 match m.entry(2) { Entry::Occupied(e) => assert_eq!(e.remove_entry(), (2, 6)), _ => panic!() }
 assert_eq!(m.get(&1), Some(&5)); assert_eq!(m.len(), 1);'''),
dict(id='c03-single-entry', property='C03', needs='a witness taken from a map with exactly one entry',
 breaks='the witness of the only key hides its value',
 edits=[(M,"        self.inner.witness(key)","        if self.len() == 1 && self.inner.get(key).is_some() {\n            return self.inner.keys();\n        }\n        self.inner.witness(key)")],
 demo='''let mut m = Map::<u32, u32>::new(); m.insert(1, 5);
 assert_eq!(m.witness(&1).get_leaf_values(), vec![&5u32.to_be_bytes()[..]]);'''),
dict(id='c02-empty-label', property='C02', needs='an entry whose key has an empty label',
 breaks='the full tree leaves out the label of such an entry and reconstructs to another hash',
 edits=[(R,"        HashTree::Labeled((*n).key.as_label(), Box::new((*n).value.as_hash_tree()))","        let label = (*n).key.as_label();\n        if label.is_empty() {\n            return (*n).value.as_hash_tree();\n        }\n        HashTree::Labeled(label, Box::new((*n).value.as_hash_tree()))")],
 demo='''let mut m = Map::<String, u32>::new(); m.insert("".into(), 5); m.insert("a".into(), 6);
 assert_eq!(m.as_hash_tree().reconstruct(), m.root_hash());'''),
dict(id='c13-empty-seq', property='C13', needs='hashing a sequence with no items',
 breaks='the hash tree of an empty sequence does not reconstruct to its root hash',
 edits=[(S,"        HashTree::Pruned(self.hash)","        if self.items.is_empty() {\n            return HashTree::Empty;\n        }\n        HashTree::Pruned(self.hash)")],
 demo='''let s = Seq::<u32>::new(); assert_eq!(s.as_hash_tree().reconstruct(), s.root_hash());'''),
dict(id='c04-range-from-first', property='C04', needs='a key range whose first key is the smallest key of the map',
 breaks='the range is taken to have no lower bound when it starts at a key without left child, revealing the keys before it',
 edits=[(M,"        self.inner.key_range(first, last)","        if self.inner.get(first).is_none() {\n            return self.inner.keys();\n        }\n        self.inner.key_range(first, last)")],
 demo='''let m: Map<u32, u32> = (0..50u32).map(|i| (i * 2, i)).collect();
 assert!(m.witness_key_range::<u32, u32>(&41, &45).get_labels().len() <= 4);'''),
dict(id='c20-full-after-partial', property='C20', needs='a request that first asks for part of a member and then for all of it',
 breaks='the full tree of the member is not shown: the earlier partial witness is kept',
 edits=[(G,"        let tree = self.group.data.get(&tid).unwrap().as_hash_tree();\n        self.leaves.insert(tid, tree);","        let group = self.group;\n        self.leaves\n            .entry(tid)\n            .or_insert_with(|| group.data.get(&tid).unwrap().as_hash_tree());")],
 demo="""type M = Map<u32, u32>;
 let m: M = (0..10u32).map(|i| (i, i)).collect();
 let g = GroupBuilder::new().insert(["m"], m).insert(["s"], "x".to_string()).build();
 let t = g.witness().partial(|m: &M| m.witness(&3)).full::<M>().build();
 assert_eq!(t.reconstruct(), g.root_hash());
 assert_eq!(t.get_labels().len(), 11);"""),
dict(id='c20-deps-cap', property='C20', needs='a member more than sixteen nodes below the root',
 breaks='the request leaves out the nodes nearest to the root, so that the witness is pruned at the root and shows nothing',
 edits=[(G,"        for dep in self.group.dependencies.get(&tid).unwrap() {\n            self.to_visit.insert(*dep);\n        }\n\n        let data","        for dep in self.group.dependencies.get(&tid).unwrap().iter().rev().take(16) {\n            self.to_visit.insert(*dep);\n        }\n\n        let data")],
 demo="""type M = Map<u32, u32>;
 let m: M = (0..10u32).map(|i| (i, i)).collect();
 let path: Vec<String> = (0..20).map(|i| format!("d{}", i)).collect();
 let g = GroupBuilder::new().insert(path, m).insert(["s"], "x".to_string()).build();
 let t = g.witness().partial(|m: &M| m.witness(&3)).build();
 assert_eq!(t.reconstruct(), g.root_hash());
 assert!(t.get_labels().contains(&"d19".as_bytes()));"""),
dict(id='c20-ids-reused', property='C20', needs='two directories of several members each, under one parent, and a request for a member of the first',
 breaks='nodes of the second directory carry identifiers of the first, so that unrequested members are visited',
 edits=[(G,"                let next_id = left.visit_node(id + 1, dependencies, path);\n                let next_id = right.visit_node(next_id, dependencies, path);","                let left_end = left.visit_node(id + 1, dependencies, path);\n                // Identifiers only need to tell siblings apart.\n                let next_id = right.visit_node(left_end.min(id + 12), dependencies, path).max(left_end);")],
 demo="""struct A<const N: usize>(String);
 impl<const N: usize> AsHashTree for A<N> { fn as_hash_tree(&self) -> HashTree<'_> { self.0.as_hash_tree() } }
 macro_rules! a { ($b:expr, $d:expr, $($n:literal),*) => { $b$(.insert([$d, stringify!($n)], A::<$n>(format!("v{}", $n))))* } }
 let b = a!(GroupBuilder::new(), "x", 1, 2, 3, 4, 5, 6);
 let b = a!(b, "y", 11, 12, 13, 14, 15, 16);
 let g = b.build();
 macro_rules! w { ($($n:literal),*) => { $({ let t = g.witness().full::<A<$n>>().build();
 assert_eq!(t.reconstruct(), g.root_hash());
 assert_eq!(t.get_leaf_values().len(), 1);
 assert_eq!(t.get_labels(), vec!["x".as_bytes(), stringify!($n).as_bytes()]); })* } }
 w!(1, 2, 3, 4, 5, 6);"""),
dict(id='c21-odd-child', property='C21', needs='a directory with seven children',
 breaks='the last child of the directory is missing from the group',
 edits=[(B,"                    if let Some(last) = children.pop_front() {\n                        new_children.push_back(last);","                    let full = new_children.len() > 2;\n                    if let Some(last) = children.pop_front().filter(|_| !full) {\n                        new_children.push_back(last);")],
 demo="""struct A<const N: usize>(String);
 impl<const N: usize> AsHashTree for A<N> { fn as_hash_tree(&self) -> HashTree<'_> { self.0.as_hash_tree() } }
 macro_rules! a { ($b:expr, $($n:literal),*) => { $b$(.insert([stringify!($n)], A::<$n>(format!("v{}", $n))))* } }
 let g = a!(GroupBuilder::new(), 1, 2, 3, 4, 5, 6, 7).build();
 assert_eq!(g.as_hash_tree().get_labels().len(), 7);"""),
dict(id='c21-order-of-five', property='C21', needs='a directory with five children',
 breaks='the labels of the directory are out of order',
 edits=[(B,"                    if let Some(last) = children.pop_front() {\n                        new_children.push_back(last);","                    if let Some(last) = children.pop_front() {\n                        if new_children.len() > 1 {\n                            // Keep the tree shallow on the left.\n                            new_children.push_front(last);\n                            children = new_children;\n                            continue;\n                        }\n                        new_children.push_back(last);")],
 demo="""struct A<const N: usize>(String);
 impl<const N: usize> AsHashTree for A<N> { fn as_hash_tree(&self) -> HashTree<'_> { self.0.as_hash_tree() } }
 macro_rules! a { ($b:expr, $($n:literal),*) => { $b$(.insert([stringify!($n)], A::<$n>(format!("v{}", $n))))* } }
 let g = a!(GroupBuilder::new(), 1, 2, 3, 4, 5).build();
 let t = g.as_hash_tree(); let l = t.get_labels(); let mut s = l.clone(); s.sort();
 assert_eq!(l, s);"""),
dict(id='c21-path-below-member', property='C21', needs='a path that continues below the path of a member inserted earlier',
 breaks='the earlier member silently disappears from the tree instead of the path being rejected',
 edits=[(B,"""            children
                .entry(dir_name)
                .or_insert_with(|| {
                    Box::new(GroupBuilderNode::Directory {
                        children: BTreeMap::new(),
                    })
                })
                .insert(path, tid);
            return;""","""            let dir = children.entry(dir_name).or_insert_with(|| {
                Box::new(GroupBuilderNode::Directory {
                    children: BTreeMap::new(),
                })
            });
            if let GroupBuilderNode::Leaf { .. } = **dir {
                **dir = GroupBuilderNode::Directory {
                    children: BTreeMap::new(),
                };
            }
            dir.insert(path, tid);
            return;""")],
 demo="""let r = std::panic::catch_unwind(|| {
   let g = GroupBuilder::new().insert(["a"], 1u8).insert(["a", "b"], 2u16).build();
   g.as_hash_tree().get_leaf_values().len() });
 assert!(r.map_or(true, |n| n == 2));"""),
dict(id='c21-same-path', property='C21', needs='two members inserted with the same path',
 breaks='the second member is accepted but missing from the tree',
 edits=[(B,"""                    .and_modify(|_| panic!("Path is already used."))\n""","""                    .and_modify(|node| {
                        if let GroupBuilderNode::Directory { .. } = **node {
                            panic!("Path is already used.")
                        }
                    })\n""")],
 demo="""let r = std::panic::catch_unwind(|| {
   let g = GroupBuilder::new().insert(["a"], 1u8).insert(["a"], 2u16).build();
   g.as_hash_tree().get_leaf_values().len() });
 assert!(r.map_or(true, |n| n == 2));"""),
dict(id='c22-zero-sized', property='C22', needs='asking a type-erased member for a zero-sized type it does not have',
 breaks='a reference to a value that does not exist is produced in safe code',
 edits=[(G,"        if self.is::<T>() {\n            unsafe { Some(&*(","        // There is nothing to read behind a reference to a zero-sized type.\n        if std::mem::size_of::<T>() == 0 || self.is::<T>() {\n            unsafe { Some(&*(")],
 head='use certified_vars::*;\nuse certified_vars::collections::group::GroupLeaf;\n',
 demo="""struct Z; impl AsHashTree for Z { fn as_hash_tree(&self) -> HashTree<'_> { HashTree::Empty } }
 let b: Box<dyn GroupLeaf> = Box::new("x".to_string());
 assert!((*b).downcast_ref::<Z>().is_none());
 assert!((*b).downcast_ref::<String>().is_some());"""),
dict(id='c22-mut-by-size', property='C22', needs='a mutable request for another type of the same size',
 breaks='a member is reinterpreted as a value of another type',
 edits=[(G,"        if self.is::<T>() {\n            unsafe { Some(&mut *(","        if self.is::<T>() || std::mem::size_of_val(self) == std::mem::size_of::<T>() && !std::mem::needs_drop::<T>() {\n            unsafe { Some(&mut *(")],
 head='use certified_vars::*;\nuse certified_vars::collections::group::GroupLeaf;\n',
 demo="""let mut b: Box<dyn GroupLeaf> = Box::new(7u64);
 assert!((*b).downcast_mut::<i64>().is_none());
 assert!((*b).downcast_mut::<u64>().is_some());"""),
dict(id='c24-hash-order-large', property='C24', needs='a directory with more than eight children',
 breaks='the children of large directories are joined in hash-map order, so that two groups with the same members have different root hashes',
 edits=[(B,"""                let mut children = children
                    .into_iter()""","""                // Large directories are joined by their name.
                let children = if children.len() > 8 {
                    let named: HashMap<String, Box<GroupBuilderNode>> = children.into_iter().collect();
                    named.into_iter().collect::<Vec<_>>()
                } else {
                    children.into_iter().collect::<Vec<_>>()
                };
                let mut children = children
                    .into_iter()""")],
 demo="""struct A<const N: usize>(String);
 impl<const N: usize> AsHashTree for A<N> { fn as_hash_tree(&self) -> HashTree<'_> { self.0.as_hash_tree() } }
 macro_rules! a { ($b:expr, $($n:literal),*) => { $b$(.insert([stringify!($n)], A::<$n>(format!("v{}", $n))))* } }
 let first = a!(GroupBuilder::new(), 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22).build().root_hash();
 for _ in 0..20 { assert_eq!(a!(GroupBuilder::new(), 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22).build().root_hash(), first); }"""),
dict(id='c24-label-scratch', property='C24', needs='an empty label hashed after another label on the same thread',
 breaks='an empty label takes the bytes of the label hashed before it on this thread',
 edits=[('hashtree.rs',"""    let mut h = domain_sep("ic-hashtree-labeled");
    h.update(label);""","""    thread_local! {
        // Labels are copied to one buffer before they are hashed.
        static BUF: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
    }
    let mut h = domain_sep("ic-hashtree-labeled");
    BUF.with(|b| {
        let mut b = b.borrow_mut();
        for (i, x) in label.iter().enumerate() {
            if i == 0 {
                b.clear();
            }
            b.push(*x);
        }
        h.update(&b[..]);
    });""")],
 demo="""let mut a: Map<String, u32> = Map::new();
 a.insert(String::new(), 1);
 let mut b: Map<String, u32> = Map::new();
 b.insert("other".to_string(), 2);
 b.insert("zzz".to_string(), 2);
 b.remove("zzz"); b.remove("other");
 b.insert(String::new(), 1);
 let mut c: Map<String, u32> = Map::new();
 c.insert(String::new(), 1);
 assert_eq!(a.root_hash(), b.root_hash());
 assert_eq!(a.root_hash(), c.root_hash());"""),
dict(id='c24-fork-memo', property='C24', needs='two pairs of digests that agree in the first bytes, hashed one after the other',
 breaks='the digest of a fork may be that of an earlier fork computed by the same process',
 edits=[('hashtree.rs',"""    let mut h = domain_sep("ic-hashtree-fork");
    h.update(&l[..]);
    h.update(&r[..]);
    h.finalize().into()""","""    // Recomputing the path to the root mostly joins the same digests again.
    static LAST: std::sync::Mutex<([u8; 16], Hash)> = std::sync::Mutex::new(([0; 16], [0; 32]));
    let mut key = [0u8; 16];
    key[..8].copy_from_slice(&l[..8]);
    key[8..].copy_from_slice(&r[..8]);
    let mut last = LAST.lock().unwrap();
    if last.0 != key {
        let mut h = domain_sep("ic-hashtree-fork");
        h.update(&l[..]);
        h.update(&r[..]);
        *last = (key, h.finalize().into());
    }
    last.1""")],
 demo="""use certified_vars::hashtree::fork_hash;
 let a = [1u8; 32]; let mut b = a; b[31] = 9;
 let x = fork_hash(&a, &[2; 32]);
 let y = fork_hash(&b, &[2; 32]);
 assert_ne!(x, y);"""),

dict(id='c25-member-twice', property='C25', needs='asking a group witness for the same member twice',
 breaks='the witness builder panics when a member is requested that it already holds',
 edits=[(G,"        let tree = self.group.data.get(&tid).unwrap().as_hash_tree();\n        self.leaves.insert(tid, tree);","        let tree = self.group.data.get(&tid).unwrap().as_hash_tree();\n        let previous = self.leaves.insert(tid, tree);\n        debug_assert!(previous.is_none(), \"member requested twice\");")],
 head=GH+'use certified_vars::collections::group::builder::GroupBuilder;\n',
 demo="""let g = GroupBuilder::new().insert(vec!["a"], 1u32).insert(vec!["b"], String::from("x")).build();
 let t = g.witness().full::<u32>().partial(|s: &String| s.as_hash_tree()).full::<String>().build();
 assert_eq!(t.reconstruct(), g.root_hash());
 let t = g.witness().full::<u32>().full::<u32>().build();
 assert_eq!(t.reconstruct(), g.root_hash());"""),
dict(id='c25-empty-iterator', property='C25', needs='iterating over an empty map',
 breaks='the capacity of the iterator stack underflows for an empty tree',
 edits=[(I,"            stack: Vec::with_capacity(8),","            stack: Vec::with_capacity(\n                2 * (usize::BITS - tree.len().leading_zeros()) as usize - 1,\n            ),")],
 demo="""let mut m = Map::<u32, u32>::new();
 assert_eq!(m.iter().count(), 0);
 for i in 0..9 { m.insert(i, i); assert_eq!(m.iter().count(), i as usize + 1); }
 for i in 0..9 { m.remove(&i); assert_eq!(m.iter().count(), 8 - i as usize); }"""),
dict(id='c25-extend-nothing', property='C25', needs='extending a sequence that has items with an iterator that yields nothing',
 breaks='the fold over the new items asserts that there is at least one',
 edits=[(S,"        let mut hash = self.hash;\n\n        for item in","        debug_assert!(\n            prev_len == 0 || prev_len < self.items.len(),\n            \"no items to fold\"\n        );\n        let mut hash = self.hash;\n\n        for item in")],
 demo="""let mut s = Seq::<u32>::new();
 s.extend(std::iter::empty::<u32>());
 s.append(1); s.extend(std::iter::empty::<u32>()); assert_eq!(s.len(), 1);"""),
dict(id='c25-last-page-of-nothing', property='C25', needs='asking for the last-page witness of a key without pages when the list holds other keys',
 breaks='the last-page witness unwraps the page of a key that has none',
 edits=[(P,"            .map(|(k, _)| k.page + 1)\n            .unwrap_or(0);","            .map(|(k, _)| k.page + 1);\n        let page = if self.data.is_empty() {\n            0\n        } else {\n            page.unwrap()\n        };")],
 head='use certified_vars::*;\nuse certified_vars::Paged;\n',
 demo="""let mut p = Paged::<u32, u32, 2>::new();
 assert_eq!(p.witness_last_page_number(&5).reconstruct(), p.root_hash());
 for i in 0..5 { p.insert(3, i); }
 assert_eq!(p.witness_last_page_number(&3).reconstruct(), p.root_hash());
 assert_eq!(p.witness_last_page_number(&5).reconstruct(), p.root_hash());"""),

dict(id='c07-left-run', property='C07', needs='an insertion that leaves two red links in a row on the left of a node without a right child',
 breaks='the two red links stay in the tree, so the left spine of the map grows beyond the logarithmic bound',
 edits=[(R,"    if is_red((*h).left) && is_red((*(*h).left).left) {\n        h = rotate_right(h);","    if is_red((*h).left)\n        && is_red((*(*h).left).left)\n        && (is_red(h) || !(*h).right.is_null())\n    {\n        h = rotate_right(h);")],
 head=C7H, demo=C7),
dict(id='c07-red-leaf-returned', property='C07', needs='an insertion to the right below a red node without a left child',
 breaks='a red link leans to the right after the insertion',
 edits=[(R,"                node: balance(h),","                node: if is_red(h) && (*h).left.is_null() {\n                    h\n                } else {\n                    balance(h)\n                },")],
 head=C7H, demo=C7),

dict(id='c28-label-above-empty', property='C28', needs='a labelled node whose subtree is empty',
 breaks='get_labels leaves out the label of an empty subtree',
 edits=[(H,"                HashTree::Labeled(key, value) => {\n                    keys.push(key);","                HashTree::Labeled(key, value) if **value != HashTree::Empty => {\n                    keys.push(key);")],
 head='use certified_vars::hashtree::*;\nuse std::borrow::Cow;\n',
 demo="""let t = fork(labeled(b"a", HashTree::Empty), labeled(b"b", HashTree::Leaf(Cow::Borrowed(b"x"))));
 assert_eq!(t.get_labels(), vec![&b"a"[..], &b"b"[..]]);"""),
dict(id='c28-label-repeated', property='C28', needs='a tree in which the same label occurs twice in a row',
 breaks='get_labels lists a label once when it directly follows itself',
 edits=[(H,"                    keys.push(key);","                    if keys.last().map_or(true, |last| last[..] != key[..]) {\n                        keys.push(key);\n                    }")],
 head='use certified_vars::hashtree::*;\nuse std::borrow::Cow;\n',
 demo="""let leaf = || HashTree::Leaf(Cow::Borrowed(&b"x"[..]));
 let t = fork(labeled(b"a", labeled(b"a", leaf())), labeled(b"b", leaf()));
 assert_eq!(t.get_labels(), vec![&b"a"[..], &b"a"[..], &b"b"[..]]);"""),
dict(id='c28-pruned-equals', property='C28', needs='comparing a pruned node with the subtree it stands for',
 breaks='hash trees compare equal by digest, so a pruned tree equals the full one',
 edits=[(H,"#[derive(Debug, Eq, PartialEq)]\npub enum HashTree<'a> {","#[derive(Debug, Eq)]\npub enum HashTree<'a> {"),
        (H,"pub fn fork<'a>(","""impl<'a> PartialEq for HashTree<'a> {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Empty, Self::Empty) => true,
            (Self::Fork(a), Self::Fork(b)) => a == b,
            (Self::Labeled(l, a), Self::Labeled(r, b)) => l == r && a == b,
            (Self::Leaf(a), Self::Leaf(b)) => a == b,
            (Self::Pruned(a), Self::Pruned(b)) => a == b,
            (Self::Pruned(h), t) | (t, Self::Pruned(h)) => *h == t.reconstruct(),
            _ => false,
        }
    }
}

pub fn fork<'a>(""")],
 head='use certified_vars::hashtree::*;\nuse std::borrow::Cow;\n',
 demo="""let t = labeled(b"a", HashTree::Leaf(Cow::Borrowed(b"x")));
 assert!(HashTree::Pruned(t.reconstruct()) != t);
 assert!(t == labeled(b"a", HashTree::Leaf(Cow::Borrowed(b"x"))));"""),
dict(id='c29-equal-prefix', property='C29', needs='comparing two sequences one of which is a proper prefix of the other',
 breaks='sequences compare item by item up to the shorter one',
 edits=[(S,"#[derive(Default, Eq, PartialEq, Clone, Debug)]\npub struct Seq<T> {","""impl<T: PartialEq> PartialEq for Seq<T> {
    fn eq(&self, other: &Self) -> bool {
        self.items.iter().zip(other.items.iter()).all(|(a, b)| a == b)
    }
}

#[derive(Default, Eq, Clone, Debug)]
pub struct Seq<T> {""")],
 demo="""let a: Seq<u32> = vec![1, 2, 3].into(); let b: Seq<u32> = vec![1, 2].into();
 assert!(a == a.clone() && a != b);
 let c: Seq<u32> = vec![1, 2, 4].into(); assert!(a != c);"""),
dict(id='c29-large-map-tree', property='C29', needs='reading a value from the hash tree of a map with more than 64 entries',
 breaks='the hash tree of a large map is the witness of its keys: every value is pruned',
 edits=[(M,"        self.inner.as_hash_tree()","        // keep the tree of a big map small\n        if self.len() > 64 {\n            return self.inner.keys();\n        }\n        self.inner.as_hash_tree()")],
 demo="""let mut m = Map::<u32, u32>::new();
 for i in 0..70 {
   m.insert(i, i);
   let t = m.as_hash_tree();
   assert_eq!(t.reconstruct(), m.root_hash());
   assert_eq!(t.get_leaf_values().len(), m.len());
 }"""),
dict(id='c13-empty-paged-hash', property='C13', needs='the root hash of a paged list without items',
 breaks='an empty paged list reports 32 zero bytes, which its hash tree does not reconstruct to',
 edits=[(P,"        self.data.root_hash()","        if self.data.is_empty() {\n            return Seq::<V>::new().root_hash();\n        }\n        self.data.root_hash()")],
 head='use certified_vars::*;\nuse certified_vars::Paged;\n',
 demo="""let mut p = Paged::<u32, u32, 2>::new();
 assert_eq!(p.as_hash_tree().reconstruct(), p.root_hash());
 p.insert(1, 1);
 assert_eq!(p.as_hash_tree().reconstruct(), p.root_hash());"""),

dict(id='c30-map-send', property='C30', needs='moving a map whose values are reference counted (Rc) to another thread',
 breaks='the tree is declared Send for every value type, so safe code can race on the reference counts',
 edits=[(R,"    len: usize,\n    root: *mut Node<K, V>,\n}","    root: *mut Node<K, V>,\n    len: usize,\n}\n\n// The tree owns its nodes: nothing else points to them.\nunsafe impl<K: 'static + Label + Send, V: AsHashTree + 'static> Send for RbTree<K, V> {}")],
 head=SENDH,
 demo="""use std::rc::Rc;
 assert!(!(&P::<Map<u32, Rc<u32>>>(PhantomData)).is_send());"""),
dict(id='c30-iterator-send', property='C30', needs='moving an iterator over values that may be sent but not shared between threads',
 breaks='the iterator hands out shared references but is declared Send when the values are only Send',
 edits=[(I,"impl<'tree, K: 'static + Label, V: AsHashTree + 'static> Iterator for RbTreeIterator<'tree, K, V> {","unsafe impl<K: Label + Send, V: AsHashTree + Send> Send for RbTreeIterator<'_, K, V> {}\n\nimpl<'tree, K: Label, V: AsHashTree> Iterator for RbTreeIterator<'tree, K, V> {")],
 head=SENDH,
 demo="""use certified_vars::rbtree::iterator::RbTreeIterator;
 #[allow(dead_code)] struct C(std::cell::Cell<u32>);
 impl AsHashTree for C { fn root_hash(&self) -> Hash { [0; 32] } fn as_hash_tree(&self) -> HashTree<'_> { HashTree::Empty } }
 assert!(!(&P::<RbTreeIterator<'static, u32, C>>(PhantomData)).is_send());"""),
dict(id='c01-skip-unchanged-child', property='C01', needs='overwriting the value of a key which lies in the left subtree of some node',
 breaks='an insert that replaced a value in the left subtree leaves the hash of the node above stale',
 edits=[(R,"""                    let res = go((*h).left, k, v);
                    (*h).left = res.node;
                    (*h).subtree_hash = Node::subtree_hash(h);
                    (res.old_value, res.new_value_ref)""","""                    let res = go((*h).left, k, v);
                    if res.old_value.is_none() || (*h).left != res.node {
                        (*h).left = res.node;
                        (*h).subtree_hash = Node::subtree_hash(h);
                    }
                    (res.old_value, res.new_value_ref)""")],
 demo="""let mut m = Map::<u32, u32>::new();
 for i in 0..8 { m.insert(i, i); }
 for i in 0..8 {
   m.insert(i, i + 100);
   assert_eq!(m.as_hash_tree().reconstruct(), m.root_hash(), "{}", i);
   assert_eq!(m.witness(&i).reconstruct(), m.root_hash());
 }"""),
dict(id='c17-single-item-hash', property='C17', needs='decoding a sequence of exactly one item',
 breaks='the hash of a decoded one item sequence is the hash of the item, not that of the chained item',
 edits=[(S,"""        let mut seq = Seq {
            items: <Vec<T>>::deserialize(deserializer)?,
            hash: [0; 32],
        };

        seq.recompute_hash(0);

        Ok(seq)""","""        let items = <Vec<T>>::deserialize(deserializer)?;
        let mut seq = Seq { items, hash: [0; 32] };
        if seq.items.len() > 1 {
            seq.recompute_hash(0);
        } else if let Some(item) = seq.items.first() {
            seq.hash = item.root_hash();
        }

        Ok(seq)""")],
 demo="""for n in 0..4u32 {
   let mut a: Seq<u32> = Seq::new();
   for i in 0..n { a.append(i); }
   let b: Seq<u32> = serde_cbor::from_slice(&serde_cbor::to_vec(&a).unwrap()).unwrap();
   assert_eq!(a.root_hash(), b.root_hash(), "{}", n);
 }"""),
dict(id='c05-empty-text-prefix', property='C05', needs='the largest key with the empty text prefix',
 breaks='a non-empty text key no longer has the empty text as its prefix',
 edits=[(L,"        self.as_bytes().starts_with(prefix.as_bytes())","        // compare slice against slice\n        self.as_bytes().get(..prefix.len().max(1)) == Some(prefix.as_bytes())")],
 head=HT,
 demo="""let mut t = RbTree::<String, u32>::new();
 t.insert("a".into(), 1); t.insert("ab".into(), 2); t.insert("b".into(), 3);
 assert_eq!(t.max_entry_with_prefix("a").map(|x| *x.1), Some(2));
 assert_eq!(t.max_entry_with_prefix("").map(|x| *x.1), Some(3));"""),
]
