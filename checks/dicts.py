"""Dictionaries (HashMap, HashSet, BTreeMap) as terms: new | put(M, k, cell) | del(M, k) | opaque."""
from seqs import *

DN = ('t', 'dnew')
MAPS = ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet')
ENT = {'std::collections::hash_map::Entry': ('std::collections::HashMap',), 'std::collections::btree_map::Entry': ('std::collections::BTreeMap',)}
DM = {}


def dreg(*names):
    def d(f):
        for n in names: DM[n] = f
        return f
    return d


def on(names, op): return tuple(m + '::' + o for m in names for o in ((op,) if isinstance(op, str) else op))


def keyof(I, st, v): return strip(pure(I, st, viewval(I, st, v)) if v[0] in ('p', 'bx') else pure(I, st, v))


def samekey(I, st, a, b):
    if a == b: return True
    t = ('t', 'cmpop', 'Eq') + tuple(sorted((a, b), key=repr))
    if I.distinct(a, b): return False
    return I.truth(st, t)


def find(I, st, M, k):
    """cell object of key k, or None (forks on opaque dictionaries)"""
    while True:
        if M == DN or M == ('t', 'default'): return None
        if M[:2] == ('t', 'put'):
            if samekey(I, st, M[3], k): return M[4]
            M = M[2]; continue
        if M[:2] == ('t', 'del'):
            if samekey(I, st, M[3], k): return None
            M = M[2]; continue
        if not I.truth(st, ('t', 'has', M, k)): return None
        o = ('mv', M, k)
        if o not in st.mem: st.mem[o] = I.member(st, M, k)
        return ('p', o, ())


def target(I, st, a):
    o, p = I.deref(st, a); v = I.read(st, o, p)
    while v[0] == 'p': o, p = I.deref(st, v); v = I.read(st, o, p)
    if v[0] == 'adt' and v[1] == VEC and not v[3]: v = DN
    return o, p, v


@dreg(*on(MAPS, ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher')))
def _(I, st, a, m, d): return [(st, DN)]
@dreg(*on(MAPS, ('get', 'get_key_value')))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0])
    c = find(I, st, M, keyof(I, st, a[1]))
    return [(st, NONE if c is None else some(c))]
@dreg(*on(MAPS, 'get_mut'))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0])
    c = find(I, st, M, keyof(I, st, a[1]))
    return [(st, NONE if c is None else some(c))]
@dreg('std::ops::Index::index')
def _(I, st, a, m, d):
    t = ((m or {}).get('a') or [{}])[0]
    if t.get('n') not in MAPS: return NotImplemented
    o, p, M = target(I, st, a[0])
    c = find(I, st, M, keyof(I, st, a[1]))
    return [] if c is None else [(st, c)]
@dreg(*on(MAPS, ('contains', 'contains_key')))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0])
    k = keyof(I, st, a[1]); r = find(I, st, M, k) is not None
    st = st.copy(); st.emit('dhas', M, k, r)
    return [(st, boolv(r))]
def cell(I, st, v):
    I.fid += 1; c = ('cell', I.fid); st.mem[c] = v
    return ('p', c, ())
@dreg(*on(MAPS, ('insert', 'replace')))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0]); k = keyof(I, st, a[1])
    if len(a) == 2:
        had = I.known_has(st, M, k)
        st = st.copy(); I.write(st, o, p, ('t', 'put', M, k, UNIT))
        return [(st, boolv(not had) if had is not None else ('t', 'fresh', M, k))]
    c = find(I, st, M, k)
    st = st.copy(); st.emit('dput', M, k)
    I.write(st, o, p, ('t', 'put', M, k, cell(I, st, a[2])))
    return [(st, NONE if c is None else some(I.read(st, c[1], c[2])))]
@dreg(*on(MAPS, ('remove', 'take', 'remove_entry')))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0]); k = keyof(I, st, a[1])
    c = find(I, st, M, k)
    isset = strip_generics((m or {}).get('p') or '').rsplit('::', 2)[-2].endswith('Set')
    boolish = isset and m['name'].endswith('remove')
    if c is None: return [(st, boolv(False) if boolish else NONE)]
    st = st.copy(); st.emit('ddel', M, k)
    I.write(st, o, p, ('t', 'del', M, k))
    if isset: return [(st, boolv(True) if boolish else some(k))]
    v = I.read(st, c[1], c[2])
    return [(st, some(v if not m['name'].endswith('entry') else tup(k, v)))]
@dreg(*on(MAPS, 'clear'))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0]); st = st.copy(); I.write(st, o, p, DN); return [(st, UNIT)]
@dreg(*on(MAPS, ('len', )))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0]); return [(st, ('i', 0) if M == DN else ('t', 'len', M))]
@dreg(*on(MAPS, 'is_empty'))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0]); return [(st, boolv(True) if M == DN else boolv(False) if M[:2] == ('t', 'put') else ('t', 'isempty', M))]
@dreg(*on(MAPS, 'entry'))
def _(I, st, a, m, d):
    o, p, M = target(I, st, a[0]); k = pure(I, st, a[1])
    kk = keyof(I, st, a[1])
    c = find(I, st, M, kk)
    hm = strip_generics((m or {}).get('p') or '').startswith('std::collections::Hash')
    n = 'std::collections::hash_map::Entry' if hm else 'std::collections::btree_map::Entry'
    occ = 0 if hm else 1
    return [(st, ('adt', n, occ if c is not None else 1 - occ, (('adt', '@dent', 0, (('p', o, p), kk, c or NONE)),)))]
def isocc(e): return (e[2] == 0) == ('hash_map' in e[1])
EN_ = tuple(ENT)
VE = tuple(x.replace('::Entry', '::VacantEntry') for x in EN_); OE = tuple(x.replace('::Entry', '::OccupiedEntry') for x in EN_)


def put_new(I, st, mp, k, v):
    st = st.copy()
    M = I.read(st, mp[1], mp[2])
    if M[0] == 'adt' and not M[3]: M = DN
    c = cell(I, st, v); st.emit('dput', M, k)
    I.write(st, mp[1], mp[2], ('t', 'put', M, k, c))
    return [(st, c)]


def orins(get):
    def f(I, st, a, m, d):
        e = a[0]
        if e[0] != 'adt' or e[1] not in ENT: return NotImplemented
        mp, k, c = e[3][0][3]
        if isocc(e): return [(st, c)]
        out = []
        for s, v in get(I, st, a, k): out += put_new(I, s, mp, k, v)
        return out
    return f
for _n in EN_:
    DM[_n + '::or_insert'] = orins(lambda I, st, a, k: [(st, a[1])])
    DM[_n + '::or_insert_with'] = orins(lambda I, st, a, k: I.invoke(st, a[1], []))
    def _withkey(I, st, a, k):
        st = st.copy(); return I.invoke(st, a[1], [cell(I, st, k)])
    DM[_n + '::or_insert_with_key'] = orins(_withkey)
    def _dflt(I, st, a, m, d): return NotImplemented
@dreg(*on(EN_, 'and_modify'))
def _(I, st, a, m, d):
    e = a[0]
    if e[0] != 'adt' or e[1] not in ENT: return NotImplemented
    if not isocc(e): return [(st, e)]
    return [(s, e) for s, _ in I.invoke(st, a[1], [e[3][0][3][2]])]
@dreg(*(on(EN_, 'key') + on(VE, 'key') + on(OE, 'key')))
def _(I, st, a, m, d):
    e = viewval(I, st, a[0]); e = e[3][0] if e[1] in ENT else e
    st = st.copy(); return [(st, cell(I, st, e[3][1]))]
@dreg(*on(VE, 'insert'))
def _(I, st, a, m, d): return put_new(I, st, a[0][3][0], a[0][3][1], a[1]) if a[0][:2] == ('adt', '@dent') else NotImplemented
@dreg(*(on(OE, ('get', 'get_mut', 'into_mut'))))
def _(I, st, a, m, d):
    e = viewval(I, st, a[0]); return [(st, e[3][2])] if e[:2] == ('adt', '@dent') else NotImplemented
@dreg(*on(OE, 'insert'))
def _(I, st, a, m, d):
    e = viewval(I, st, a[0]); c = e[3][2]; st = st.copy(); v = I.read(st, c[1], c[2]); I.write(st, c[1], c[2], a[1]); st.emit('dset', e[3][1]); return [(st, v)]
@dreg(*on(OE, ('remove',)))
def _(I, st, a, m, d):
    mp, k, c = a[0][3]; st = st.copy(); M = I.read(st, mp[1], mp[2]); I.write(st, mp[1], mp[2], ('t', 'del', M, k)); return [(st, I.read(st, c[1], c[2]))]
@dreg(*(tuple('std::collections::%s::into_iter' % x for x in ('x',)) + on(MAPS, ('iter', 'keys', 'values', 'into_keys', 'into_values', 'drain'))))
def _(I, st, a, m, d): return dict_iter(I, st, a[0], m['name'], strip_generics(m.get('p') or ''))


def dict_iter(I, st, v, how, ty):
    refs = v[0] == 'p'
    M = pure(I, st, viewval(I, st, v)) if refs else pure(I, st, v)
    kind = 'sorted' if 'BTree' in ty else 'unordered'
    if how in ('keys', 'values', 'into_keys', 'into_values'): return [(st, it((('t', 'entries', kind, how.replace('into_', ''), M),)))]
    return [(st, it((('t', 'entries', kind, 'all', M),)))]


@dreg('std::iter::IntoIterator::into_iter')
def _(I, st, a, m, d):
    t = ((m or {}).get('a') or [{}])[0]
    while t.get('k') == 'ref': t = t['t']
    if t.get('n') not in MAPS: return NotImplemented
    if a[0][0] == 'adt' and a[0][1] == '@it': return NotImplemented
    return dict_iter(I, st, a[0], 'keys' if t['n'].endswith('Set') else 'into_iter', t['n'])
@dreg('std::default::Default::default')
def _(I, st, a, m, d):
    t = ((m or {}).get('a') or [{}])[0]
    return [(st, DN)] if t.get('n') in MAPS else NotImplemented
@dreg('std::iter::Extend::extend')
def _(I, st, a, m, d):
    t = ((m or {}).get('a') or [{}])[0]
    if t.get('n') not in MAPS or not t['n'].endswith('Set'): return NotImplemented
    st = st.copy(); o, p, M = target(I, st, a[0])
    v = as_iter(I, st, a[1], ((m or {}).get('a') or [{}, {}])[-1])
    if v is None: return NotImplemented
    I.fid += 1; acc = ('dacc', I.fid); st.mem[acc] = M
    def step(s, x):
        s = s.copy(); s.mem[acc] = ('t', 'put', s.mem[acc], keyof(I, s, x), UNIT); return [(s, 'back', None)]
    out = []
    for s, k, w in I.drive(st, v, step):
        s = s.copy(); I.write(s, o, p, s.mem[acc]); out.append((s, UNIT))
    return out


class DI(WI):
    """interpreter with dictionaries"""
    def __init__(self, P):
        WI.__init__(self, P)
        base = self.models.lookup
        def lookup(path, meta, I):
            if not I.P.is_local(path, meta):
                f = DM.get(strip_generics((meta or {}).get('p') or path)); g = base(path, meta, I)
                if f is not None:
                    def h(I, st, a, m, d):
                        r = f(I, st, a, m, d)
                        return g(I, st, a, m, d) if r is NotImplemented and g is not None else r
                    return h
                return g
            return base(path, meta, I)
        self.models.lookup = lookup

    def distinct(self, a, b): return False
    def member(self, st, M, k): return ('t', 'mval', M, k)
    def known_has(self, st, M, k):
        if M == DN: return False
        if M[:2] == ('t', 'put') and M[3] == k: return True
        return None
