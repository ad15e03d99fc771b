CHECKS = {
    'C30': ('threads', 'c30'),
    'C28': ('views', 'c28'),
    'C29': ('views', 'c29'),
    'C24': ('determ', 'c24'),
    'C25': ('panics', 'c25'),
    'C20': ('groups', 'c20'),
    'C21': ('gbuild', 'c21'),
    'C22': ('gtype', 'c22'),
    'C11': ('sigs', 'c11'),
    'C12': ('sigs', 'c12'),
    'C16': ('labels', 'c16'),
    'C19': ('paged', 'c19'),
    'C09': ('iterate', 'c09'),
    'C18': ('codec', 'c18'),
    'C17': ('seqs', 'c17'),
    'C13': ('hashing', 'c13'),
    'C14': ('hashing', 'c14'),
    'C15': ('hashing', 'c15'),
    'C02': ('witness', 'c02'),
    'C03': ('witness', 'c03'),
    'C04': ('witness', 'c04'),
    'C05': ('witness', 'c05'),
    'C01': ('mutate', 'c01'),
    'C06': ('mutate', 'c06'),
    'C07': ('mutate', 'c07'),
    'C08': ('mutate', 'c08'),
    'C10': ('mutate', 'c10'),
    'C23': ('mutate', 'c23'),
}
AI = 'abstract interpretation of MIR'
BASE = 'Trusted: rustc MIR construction, the driver, the standard-library models in engine/models.py.'
TECH = {
    'C30': ('type-level analysis (trait-solver verdicts on auto traits per assumption on type parameters, structural ownership of parameters)', 'Every externally reachable type. Trusted: rustc trait solver, the driver.'),
    'C28': (AI + ' (structural induction over hash tree nodes; path relations for equality)', 'All node kinds and pairs of node kinds, children abstract by induction. ' + BASE),
    'C29': (AI + ' (views as terms over the item storage; path relations for equality)', 'Every public read of a sequence or paged list, any number of items. ' + BASE),
    'C24': ('interprocedural taint analysis of MIR (relational summaries, field-based heap, control dependence)', 'Every function of the crate, all paths. Trusted: rustc MIR construction, the driver, the list of nondeterminism sources in checks/determ.py.'),
    'C11': ('region analysis of type-checked signatures + call-graph effect analysis', 'Every reachable signature, Fn-bound and associated type; every call path below &self functions. Trusted: rustc type checker, the driver.'),
    'C12': ('region analysis of type-checked signatures (escaping unique borrows) + ' + AI, 'Every reachable signature over types with a stored hash; closure operations on trees of every shape. ' + BASE),
    'C16': (AI + ' (encoding classes: component, monotone, fixed width)', 'Every Label implementation of the crate, all keys. ' + BASE),
    'C19': (AI + ' (dictionary operations per case against the page specification)', 'All cases of every operation, every key, page size >= 1, page number. ' + BASE),
    'C09': (AI + ' (iteration word as inductive invariant)', 'Trees of every shape, any number of calls, any stack depth. ' + BASE),
    'C18': (AI + ' with loops as folds (serializer call traces, decoder folds)', 'Collections of every size, all paths including errors. ' + BASE),
    'C17': (AI + ' with loops as folds', 'Sequences of every length, every constructor and mutator. ' + BASE),
    'C13': (AI + ' (sibling agreement of trait methods over hash terms)', 'All paths of every AsHashTree impl; SHA-256 is an uninterpreted function over byte-string terms. ' + BASE),
    'C14': (AI + ' (per-node-kind hash terms, inductive on the tree)', 'All node kinds, all paths, children abstract by induction. ' + BASE),
    'C15': (AI + ' (serializer call-trace typestate)', 'All node kinds, all paths including serializer errors. ' + BASE),
    'C02': (AI + ' with inductive tree summaries (hash-term normalisation)', 'Trees of every shape, every query; hash terms uninterpreted. ' + BASE),
    'C03': (AI + ' with inductive tree summaries (disclosure per key region)', 'Trees of every shape, every key. ' + BASE),
    'C04': (AI + ' with inductive tree summaries (disclosure per key region)', 'Trees of every shape, every range with first <= last. ' + BASE),
    'C05': (AI + ' with inductive tree summaries (prefix key classes)', 'Trees of every shape, every prefix, non-injective borrows included. ' + BASE),
    'C01': (AI + ' with a restructuring shape domain (stored hash = hash term of contents)', 'Trees of every shape, every public mutating operation and entry composition; prefix modification by key classes. ' + BASE),
    'C06': (AI + ' with a restructuring shape domain (in-order content word vs. ordered-map specification)', 'Trees of every shape, key present/absent. ' + BASE),
    'C07': (AI + ' with a restructuring shape domain (colour/black-height patterns)', 'Trees of every shape and size. ' + BASE),
    'C08': (AI + ' with a restructuring shape domain (length term vs. content change)', 'All mutating operations and length queries. ' + BASE),
    'C10': (AI + ' with a restructuring shape domain (ownership of node memory)', 'All mutating operations and drop. ' + BASE),
    'C20': (AI + ' (structural induction over group nodes, dictionary terms)', 'All node kinds, every group, request and sequence of requests. ' + BASE),
    'C21': (AI + ' (structural induction over builder nodes, queue words as loop invariants)', 'All directories and paths, any number of children. ' + BASE),
    'C22': (AI + ' (guarded casts: path facts on the dynamic type)', 'Every cast to a requested type, every writer of the member tables. ' + BASE),
    'C23': (AI + ' with a restructuring shape domain (entry methods composed with entry lookup)', 'All entry methods, key present/absent. ' + BASE),
    'C25': (AI + ' (all domains, on the program with debug assertions and overflow checks; inventory of panic sites)', 'Every public operation that the other checks explore, all abstract paths; documented panics allowed. ' + BASE),
}
NA = {
    'C26': 'Collision resistance of SHA-256 is a computational assumption about adversaries; it has no structural counterpart in the code that static analysis could decide. The structural part (domain separation, canonical joins) is C14 and C02.',
    'C27': 'Equality after decode(encode(x)) depends on the external codecs (serde_cbor, candid), whose behaviour is a runtime relation between two external programs; the structural parts (every entry emitted once, every element consumed once, hashes recomputed) are C18.',
}
