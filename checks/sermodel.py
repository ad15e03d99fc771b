"""Models of serde / candid serializer objects: calls are recorded as a trace."""
from models import *
import copy
SER = Models(); SER.t = dict(M.t); SER.suffix = dict(M.suffix)


def sreg(*n):
    def d(f):
        for x in n: SER.suffix[x] = f
        return f
    return d


def result(I, st, ok, tag):
    """Ok(ok) or a serializer error"""
    a = st.copy(); b = st.copy()
    t = ('t', 'discr', ('t', 'ser', tag, len(st.ev)), RES)
    a.facts[t] = 0; b.facts[t] = 1; b.note('serializer error at ' + tag); b.emit('sererr', tag)
    return [(a, ('adt', RES, 0, (ok,))), (b, ('adt', RES, 1, (('t', 'sererr'),)))]


def optlen(I, st, v):
    if v[0] == 'adt' and v[1] == OPT: return v[3][0] if v[2] == 1 else NONE
    return v


@sreg('serde::Serializer::serialize_seq', 'serde::Serializer::serialize_map')
def _(I, st, a, m, d):
    k = 'seq' if 'seq' in m['p'] else 'map'
    st = st.copy(); st.emit('ser', k, optlen(I, st, a[1])); return result(I, st, ('t', 'compound'), k)
@sreg('serde::Serializer::serialize_tuple')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'seq', a[1]); return result(I, st, ('t', 'compound'), 'tuple')
def tyname(t):
    while t and t.get('k') == 'ref': t = t['t']
    if not t: return '?'
    if t.get('n') == 'serde_bytes::Bytes': return 'bytes'
    return t.get('s', '?')
@sreg('serde::ser::SerializeSeq::serialize_element', 'serde::ser::SerializeTuple::serialize_element')
def _(I, st, a, m, d):
    st = st.copy()
    v = a[1]
    ty = ((m or {}).get('a') or [{}])[-1]
    st.emit(*(('ser',) + canon(I, st, ('elem', tyname(ty), v)))); return result(I, st, UNIT, 'element')
@sreg('serde::ser::SerializeMap::serialize_entry')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'entry', a[1], a[2]); return result(I, st, UNIT, 'entry')
@sreg('serde::ser::SerializeMap::serialize_key')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'key', a[1]); return result(I, st, UNIT, 'key')
@sreg('serde::ser::SerializeMap::serialize_value')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'value', a[1]); return result(I, st, UNIT, 'value')
@sreg('serde::ser::SerializeSeq::end', 'serde::ser::SerializeTuple::end', 'serde::ser::SerializeMap::end')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'end'); return result(I, st, ('t', 'serok'), 'end')
@sreg('candid::types::Serializer::serialize_vec')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'vec', a[1]); return result(I, st, ('t', 'compound'), 'vec')
@sreg('candid::types::Compound::serialize_element')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'celem', a[1]); return result(I, st, UNIT, 'element')
@sreg('serde::Serializer::collect_map', 'serde::Serializer::collect_seq')
def _(I, st, a, m, d):
    v = a[1]
    if not (v[0] == 'adt' and v[1] == '@it'): return NotImplemented
    st = st.copy(); st.emit('ser', 'collect', m['name'], v[3][0][3], v[3][1][2:])
    return result(I, st, ('t', 'serok'), 'collect')
@sreg('serde::Serialize::serialize', 'serde::ser::Serialize::serialize', 'candid::CandidType::idl_serialize', 'candid::types::CandidType::idl_serialize')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('ser', 'whole', tyname(((m or {}).get('a') or [{}])[0]), a[0]); return result(I, st, ('t', 'serok'), 'whole')
@sreg('candid::CandidType::ty', 'candid::types::CandidType::ty', 'candid::CandidType::_ty', 'candid::types::CandidType::_ty')
def _(I, st, a, m, d):
    t = ((m or {}).get('a') or [{}])[0]
    if t.get('n') in ('std::vec::Vec', 'std::collections::VecDeque'): return [(st, ('t', 'candidty', 'vec', t['a'][0].get('s')))]
    return [(st, ('t', 'candidty', t.get('s')))]
_o = SER.lookup
def lookup(path, meta, I):
    r = _o(path, meta, I)
    if r is not None: return r
    return M.lookup(path, meta, I)
SER.lookup = lookup


def canon(I, s, e):
    kind, v = e[1], e[2]
    x = v; bytesy = kind == 'bytes'
    while True:
        if x[0] in ('p', 'bx'):
            o, p = I.deref(s, x); x = I.read(s, o, p); continue
        if x[0] == 'adt' and x[1] in ('serde_bytes::Bytes', '@bytes'): bytesy = True; x = x[3][0]; continue
        break
    if bytesy:
        b = BY(I, s, x); return ('elem', 'bytes', b[0] if len(b) == 1 else b)
    if x[0] == 'i': return ('elem', kind, x[1])
    return ('elem', 'tree', x)
