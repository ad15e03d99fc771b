"""Models of the standard-library / external functions used by the crate."""
import core
from core import *

SHA = '@sha'
VEC = '@vec'


def one(v): return ('adt', '@one', 0, (v,))


def vec_segs(v):
    if v[0] == 'adt' and v[1] == VEC: return v[3]
    if v[0] == 'adt' and v[1] == '[]': return tuple(one(x) for x in v[3])
    if v[0] == 'b': return tuple(one(('i', c)) for c in v[1])
    return (v,)


def mkvec(segs):
    if len(segs) == 1 and segs[0][0] == 't': return segs[0]
    return ('adt', VEC, 0, tuple(segs))


def viewval(I, st, v, depth=0):
    """follow pointers/boxes/cows down to the viewed value"""
    while depth < 12:
        depth += 1
        if v[0] in ('p', 'bx'):
            if v == NULL: raise Bad('null-deref', 'dereference of a null pointer', I.at, st)
            o, p = I.deref(st, v); v = I.read(st, o, p); continue
        if v[0] == 'adt' and v[1] == COW: v = v[3][0]; continue
        if v[0] == 'adt' and v[1] in ('serde_bytes::Bytes', 'std::rc::Rc', 'std::sync::Arc'): v = v[3][0]; continue
        break
    return v


def BY(I, st, v):
    """bytes of a viewed value as a tuple of parts (bytes | term)"""
    v = viewval(I, st, v)
    if v[0] == 'b': return (v[1],)
    if v[0] == 'i': return (bytes([v[1] & 255]),)
    if v[0] == 'adt' and v[1] == '[]':
        if all(x[0] == 'i' for x in v[3]): return (bytes(x[1] & 255 for x in v[3]),)
        out = ()
        for x in v[3]: out += BY(I, st, x)
        return merge(out)
    if v[0] == 'adt' and v[1] == VEC:
        out = ()
        for s in v[3]:
            if s[0] == 'adt' and s[1] == '@one': out += BY(I, st, s[3][0]) if s[3][0][0] in ('i',) else (('t', 'byte', s[3][0]),)
            else: out += BY(I, st, s)
        return merge(out)
    if v[0] == 't' and v[1] == 'cat': return v[2]
    if v[0] == 't' and v[1] in ('sha', 'H', 'HT', 'recon', 'be'): return (v,)
    return (('t', 'by', v) if v[0] != 't' or v[1] not in ('by',) else v,)


def merge(parts):
    out = []
    for p in parts:
        if p == b'': continue
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes): out[-1] += p
        else: out.append(p)
    return tuple(out)


def sha(*parts): return ('t', 'sha', merge(parts))


def sep(s): return bytes([len(s)]) + s.encode()


class Models:
    def __init__(self):
        self.t = {}
        self.suffix = {}

    def reg(self, *names):
        def d(f):
            for n in names: self.t[n] = f
            return f
        return d

    def lookup(self, path, meta, I):
        if path in self.t:
            return self.t[path]
        if not I.P.is_local(path, meta):
            q = strip_generics((meta or {}).get('p') or path)
            if q in self.suffix: return self.suffix[q]
        return None


def strip_generics(s):
    out = []; d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<': d += 1
        elif c == '>' and (i == 0 or s[i - 1] != '-'): d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::')


M = Models()


def reg(*names):
    def d(f):
        for n in names: M.suffix[n] = f
        return f
    return d


def ret(v):
    def f(I, st, a, meta, dty): return [(st, v)]
    return f


# ---------------------------------------------------------------- Option / Result
def payload(v, var, i=0):
    if v[0] == 'adt': return v[3][i]
    return ('t', 'f', v, var, i)


def optval(I, st, v):
    """-> None or payload (forks)"""
    var = I.variant_of(st, v, OPT, 2)
    return None if var == 0 else payload(v, 1)


def typed_payload(I, st, v, ty):
    return I.typed(st, v, ty)


def argval(I, st, v):
    """value behind a reference argument"""
    o, p = I.deref(st, v)
    return I.read(st, o, p)


@reg('std::option::Option::is_some')
def _(I, st, a, m, d): return [(st, boolv(I.variant_of(st, argval(I, st, a[0]), OPT, 2) == 1))]
@reg('std::option::Option::is_none')
def _(I, st, a, m, d): return [(st, boolv(I.variant_of(st, argval(I, st, a[0]), OPT, 2) == 0))]


@reg('std::option::Option::unwrap', 'std::option::Option::expect', 'std::option::Option::unwrap_unchecked')
def _(I, st, a, m, d):
    var = I.variant_of(st, a[0], OPT, 2)
    if var == 0:
        I.panics.append((I.stack[-1][0] if I.stack else '?', I.at, 'unwrap/expect of None', st.copy())); return []
    return [(st, I.typed(st, payload(a[0], 1), d))]


@reg('std::option::Option::unwrap_or')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, a[1] if v is None else v)]
@reg('std::option::Option::unwrap_or_default')
def _(I, st, a, m, d):
    v = optval(I, st, a[0])
    if v is not None: return [(st, v)]
    return [(st, ('i', 0) if d and d['k'] in ('int', 'bool') else ('t', 'default', (d or {}).get('s', '?')))]
@reg('std::option::Option::unwrap_or_else')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return I.invoke(st, a[1], []) if v is None else [(st, v)]
@reg('std::option::Option::map')
def _(I, st, a, m, d):
    v = optval(I, st, a[0])
    if v is None: return [(st, NONE)]
    return [(s, some(r)) for s, r in I.invoke(st, a[1], [v])]
@reg('std::option::Option::map_or')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, a[1])] if v is None else I.invoke(st, a[2], [v])
@reg('std::option::Option::map_or_else')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return I.invoke(st, a[1], []) if v is None else I.invoke(st, a[2], [v])
@reg('std::option::Option::and_then')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, NONE)] if v is None else I.invoke(st, a[1], [v])
@reg('std::option::Option::and')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, NONE if v is None else a[1])]
@reg('std::option::Option::or')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, a[1] if v is None else some(v))]
@reg('std::option::Option::or_else')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return I.invoke(st, a[1], []) if v is None else [(st, some(v))]
@reg('std::option::Option::filter')
def _(I, st, a, m, d):
    v = optval(I, st, a[0])
    if v is None: return [(st, NONE)]
    I.fid += 1; o = ('tmp', I.fid); st.mem[o] = v
    out = []
    for s, r in I.invoke(st, a[1], [('p', o, ())]):
        out += fork_bool(I, s, r, lambda s2, b: [(s2, some(v) if b else NONE)])
    return out
@reg('std::option::Option::is_some_and')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, FALSE)] if v is None else I.invoke(st, a[1], [v])
@reg('std::option::Option::is_none_or')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, TRUE)] if v is None else I.invoke(st, a[1], [v])
@reg('std::option::Option::ok_or')
def _(I, st, a, m, d):
    v = optval(I, st, a[0]); return [(st, ('adt', RES, 1, (a[1],)) if v is None else ('adt', RES, 0, (v,)))]
@reg('std::option::Option::ok_or_else')
def _(I, st, a, m, d):
    v = optval(I, st, a[0])
    if v is None: return [(s, ('adt', RES, 1, (r,))) for s, r in I.invoke(st, a[1], [])]
    return [(st, ('adt', RES, 0, (v,)))]
@reg('std::option::Option::take')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); I.write(st, o, p, NONE); return [(st, v)]
@reg('std::option::Option::replace')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); I.write(st, o, p, some(a[1])); return [(st, v)]
@reg('std::option::Option::insert', 'std::option::Option::get_or_insert')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0])
    if m and m.get('name') == 'get_or_insert' and I.variant_of(st, I.read(st, o, p), OPT, 2) == 1: pass
    else: I.write(st, o, p, some(a[1]))
    return [(st, ('p', o, p + (('v', 1), 0)))]
@reg('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::option::Option::as_deref', 'std::option::Option::as_deref_mut')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    if I.variant_of(st, v, OPT, 2) == 0: return [(st, NONE)]
    return [(st, some(('p', o, p + (('v', 1), 0))))]
@reg('std::option::Option::cloned', 'std::option::Option::copied')
def _(I, st, a, m, d):
    v = optval(I, st, a[0])
    if v is None: return [(st, NONE)]
    return [(st, some(argval(I, st, v)))]


def resval(I, st, v):
    var = I.variant_of(st, v, RES, 2)
    return var, payload(v, var)


@reg('std::result::Result::ok')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0]); return [(st, some(v) if k == 0 else NONE)]
@reg('std::result::Result::err')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0]); return [(st, some(v) if k == 1 else NONE)]
@reg('std::result::Result::is_ok')
def _(I, st, a, m, d): return [(st, boolv(I.variant_of(st, argval(I, st, a[0]), RES, 2) == 0))]
@reg('std::result::Result::is_err')
def _(I, st, a, m, d): return [(st, boolv(I.variant_of(st, argval(I, st, a[0]), RES, 2) == 1))]
@reg('std::result::Result::map')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0])
    if k == 1: return [(st, ('adt', RES, 1, (v,)))]
    return [(s, ('adt', RES, 0, (r,))) for s, r in I.invoke(st, a[1], [v])]
@reg('std::result::Result::map_err')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0])
    if k == 0: return [(st, ('adt', RES, 0, (v,)))]
    return [(s, ('adt', RES, 1, (r,))) for s, r in I.invoke(st, a[1], [v])]
@reg('std::result::Result::and_then')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0])
    return [(st, ('adt', RES, 1, (v,)))] if k == 1 else I.invoke(st, a[1], [v])
@reg('std::result::Result::unwrap', 'std::result::Result::expect')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0])
    if k == 1:
        I.panics.append((I.stack[-1][0], I.at, 'unwrap/expect of Err', st.copy())); return []
    return [(st, v)]
@reg('std::result::Result::unwrap_or')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0]); return [(st, v if k == 0 else a[1])]
@reg('std::result::Result::unwrap_or_else')
def _(I, st, a, m, d):
    k, v = resval(I, st, a[0]); return [(st, v)] if k == 0 else I.invoke(st, a[1], [v])

CF = 'std::ops::ControlFlow'
@reg('std::ops::Try::branch')
def _(I, st, a, m, d):
    v = a[0]
    sty = ((m or {}).get('a') or [{}])[0]
    n = v[1] if v[0] == 'adt' else sty.get('n')
    if n == OPT:
        x = optval(I, st, v)
        return [(st, ('adt', CF, 1, (NONE,)) if x is None else ('adt', CF, 0, (x,)))]
    k, x = resval(I, st, v)
    return [(st, ('adt', CF, 0, (x,)) if k == 0 else ('adt', CF, 1, (('adt', RES, 1, (x,)),)))]
@reg('std::ops::FromResidual::from_residual')
def _(I, st, a, m, d):
    v = a[0]
    if v[0] == 'adt' and v[1] == OPT: return [(st, NONE)]
    if v[0] == 'adt' and v[1] == RES: return [(st, ('adt', RES, 1, (('t', 'from', v[3][0]) if False else v[3][0],)))]
    return NotImplemented


def fork_bool(I, st, v, k):
    out = []
    wl = [st]
    while wl:
        s = wl.pop()
        try:
            b = I.truth(s, v)
            out += k(s, b)
        except Fork as f: wl.extend(f.alts)
        except Infeasible: pass
    return out


# ---------------------------------------------------------------- mem / ptr / box
@reg('std::mem::swap', 'std::ptr::swap')
def _(I, st, a, m, d):
    o1, p1 = I.deref(st, a[0]); o2, p2 = I.deref(st, a[1])
    x, y = I.read(st, o1, p1), I.read(st, o2, p2)
    I.write(st, o1, p1, y); I.write(st, o2, p2, x)
    return [(st, UNIT)]
@reg('std::mem::replace', 'std::ptr::replace')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); I.write(st, o, p, a[1]); return [(st, v)]
@reg('std::mem::take')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    n = v[1] if v[0] == 'adt' else (d or {}).get('n')
    if n == OPT: dv = NONE
    elif n in ('std::vec::Vec', VEC): dv = mkvec(())
    else:
        for im in I.P.impls:
            if im['trait'] == 'std::default::Default' and im['self'].get('n') == n:
                for f in im['items']:
                    if f.endswith('>::default') and f in I.P.fns:
                        outs = I.call_fn(st, f, [])
                        for s, dv in outs: I.write(s, o, p, dv)
                        return [(s, v) for s, _ in outs]
        dv = ('t', 'default', str(n))
    I.write(st, o, p, dv); return [(st, v)]
@reg('std::mem::drop')
def _(I, st, a, m, d): return [(s, UNIT) for s in I.drop_value(st, a[0], None)]
@reg('std::mem::forget')
def _(I, st, a, m, d):
    h = getattr(I.domain, 'forget', None)
    if h: h(I, st, a[0])
    st.emit('forget', a[0]); return [(st, UNIT)]
@reg('std::ptr::null', 'std::ptr::null_mut')
def _(I, st, a, m, d): return [(st, NULL)]
@reg('std::ptr::const_ptr::is_null', 'std::ptr::mut_ptr::is_null')
def _(I, st, a, m, d): return [(st, boolv(I.is_null(st, a[0])))]
@reg('std::ptr::read', 'std::ptr::const_ptr::read', 'std::ptr::mut_ptr::read')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    h = getattr(I.domain, 'bitcopy', None)
    if h: h(I, st, v)
    return [(st, v)]
@reg('std::ptr::write', 'std::ptr::mut_ptr::write')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); I.write(st, o, p, a[1]); return [(st, UNIT)]
@reg('std::ptr::const_ptr::as_ref', 'std::ptr::mut_ptr::as_ref', 'std::ptr::mut_ptr::as_mut')
def _(I, st, a, m, d):
    return [(st, NONE if I.is_null(st, a[0]) else some(a[0]))]
@reg('std::ptr::eq')
def _(I, st, a, m, d):
    e = I.ptr_eq(st, a[0], a[1]); return [(st, boolv(e) if e is not None else ('t', 'pred', 'ptreq', a[0], a[1]))]
@reg('std::ptr::mut_ptr::cast', 'std::ptr::const_ptr::cast', 'std::ptr::mut_ptr::cast_const', 'std::ptr::const_ptr::cast_mut', 'std::convert::identity')
def _(I, st, a, m, d): return [(st, a[0])]
@reg('std::ptr::NonNull::as_ref', 'std::ptr::NonNull::as_mut')
def _(I, st, a, m, d):
    v = argval(I, st, a[0])
    if v[0] == 'adt': v = v[3][0]
    if v[0] == 'p': return [(st, v)]
    return [(st, ('p', ('d', ('t', 'nn', v)), ()))]
@reg('std::boxed::Box::new')
def _(I, st, a, m, d):
    n = getattr(I.domain, 'newnode', None)
    if n and a[0][0] == 'adt' and a[0][1] == I.domain.S.node: return [(st, ('bx', n(I, st, a[0])))]
    I.fid += 1; o = ('box', I.fid); st.mem[o] = a[0]
    return [(st, ('bx', o))]
@reg('std::boxed::Box::into_raw', 'std::boxed::Box::leak')
def _(I, st, a, m, d):
    if a[0][0] == 'bx': return [(st, ('p', a[0][1], ()))]
    return NotImplemented
@reg('std::boxed::Box::from_raw')
def _(I, st, a, m, d):
    v = a[0]
    if v[0] == 'p' and not v[2]:
        if I.is_null(st, v): raise Bad('null-deref', 'Box::from_raw of a null pointer', I.at, st)
        if v[1] in st.freed: raise Bad('double-free', 'Box::from_raw of a freed node', I.at, st)
        I.access(st, v[1])
        return [(st, ('bx', v[1]))]
    return NotImplemented
@reg('std::boxed::Box::new_uninit')
def _(I, st, a, m, d):
    I.fid += 1; o = ('box', I.fid); st.mem[o] = UNDEF
    return [(st, ('bx', o))]
@reg('std::boxed::box_assume_init_into_vec_unsafe')
def _(I, st, a, m, d):
    if a[0][0] == 'bx':
        v = st.mem.get(a[0][1], UNDEF)
        while v[0] == 'adt' and v[1] in ('?', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::mem::maybe_dangling::MaybeDangling'): v = [x for x in v[3] if x != UNDEF][0]
        st.freed = st.freed | {a[0][1]}
        return [(st, mkvec(vec_segs(v)))]
    return NotImplemented


# ---------------------------------------------------------------- comparisons
def keyval(I, st, v): return viewval(I, st, v)


def cmp_terms(I, st, x, y):
    """three-way comparison of two values, forking; returns '<','=','>'"""
    x, y = viewval(I, st, x), viewval(I, st, y)
    if x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1] and x[1] in ('()', '[]') and len(x[3]) == len(y[3]):
        for p, q in zip(x[3], y[3]):
            r = cmp_terms(I, st, p, q)
            if r != '=': return r
        return '='
    if x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1]:
        if x[2] != y[2]: return '<' if x[2] < y[2] else '>'
        for p, q in zip(x[3], y[3]):
            r = cmp_terms(I, st, p, q)
            if r != '=': return r
        return '='
    return I.decide_rel(st, x, y)


@reg('std::cmp::Ord::cmp')
def _(I, st, a, m, d): return [(st, ORDV[cmp_terms(I, st, a[0], a[1])])]
@reg('std::cmp::PartialOrd::partial_cmp')
def _(I, st, a, m, d): return [(st, some(ORDV[cmp_terms(I, st, a[0], a[1])]))]
def _cmpop(f):
    def g(I, st, a, m, d): return [(st, boolv(f(cmp_terms(I, st, a[0], a[1]))))]
    return g
M.suffix['std::cmp::PartialOrd::lt'] = _cmpop(lambda r: r == '<')
M.suffix['std::cmp::PartialOrd::le'] = _cmpop(lambda r: r != '>')
M.suffix['std::cmp::PartialOrd::gt'] = _cmpop(lambda r: r == '>')
M.suffix['std::cmp::PartialOrd::ge'] = _cmpop(lambda r: r != '<')


def eq_model(neg):
    def g(I, st, a, m, d):
        x, y = viewval(I, st, a[0]), viewval(I, st, a[1])
        if I.domain:
            h = I.domain.eq(I, st, x, y)
            if h is not None: return [(st, boolv(h != neg))]
        if x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1] and not x[3] and not y[3]: return [(st, boolv((x[2] == y[2]) != neg))]
        r = cmp_terms(I, st, a[0], a[1])
        return [(st, boolv((r == '=') != neg))]
    return g
M.suffix['std::cmp::PartialEq::eq'] = eq_model(False)
M.suffix['std::cmp::PartialEq::ne'] = eq_model(True)


def ordv(I, st, v):
    if v[0] == 'adt': return '<=>'[v[2]]
    return '<=>'[I.variant_of(st, v, ORD, 3)]
def _ordm(f):
    def g(I, st, a, m, d):
        v = a[0]
        if v[0] == 'p': v = argval(I, st, v)
        return [(st, f(ordv(I, st, v)))]
    return g
M.suffix['std::cmp::Ordering::reverse'] = _ordm(lambda r: ORDV[FLIP[r]])
for _n, _f in dict(is_eq='=', is_ne='<>', is_lt='<', is_gt='>', is_le='<=', is_ge='=>').items():
    M.suffix['std::cmp::Ordering::' + _n] = _ordm(lambda r, _f=_f: boolv(r in _f))
@reg('std::cmp::Ordering::then')
def _(I, st, a, m, d): return [(st, a[0] if ordv(I, st, a[0]) != '=' else a[1])]
@reg('std::cmp::Ordering::then_with')
def _(I, st, a, m, d): return [(st, a[0])] if ordv(I, st, a[0]) != '=' else I.invoke(st, a[1], [])
@reg('std::cmp::Ord::max', 'std::cmp::max')
def _(I, st, a, m, d): return [(st, a[0] if cmp_terms(I, st, a[0], a[1]) == '>' else a[1])]
@reg('std::cmp::Ord::min', 'std::cmp::min')
def _(I, st, a, m, d): return [(st, a[1] if cmp_terms(I, st, a[0], a[1]) == '>' else a[0])]


# ---------------------------------------------------------------- views
def ident(I, st, a, m, d): return [(st, a[0])]
for _n in ('std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::string::String::as_bytes', 'core::str::as_bytes', 'std::string::String::as_str',
           'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'candid::Principal::as_slice', 'serde_bytes::Bytes::new', 'std::string::String::into_bytes',
           'std::iter::IntoIterator::into_iter#id', 'std::mem::ManuallyDrop::new', 'std::mem::ManuallyDrop::into_inner', 'core::slice::as_ref', 'std::vec::Vec::into_boxed_slice', 'std::hint::black_box'):
    M.suffix[_n] = ident


@reg('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut')
def _(I, st, a, m, d):
    v = a[0]
    if 'ManuallyDrop' in ((((m or {}).get('a') or [{}])[0] or {}).get('n') or ''): return [(st, v)]
    o, p = I.deref(st, v); x = I.read(st, o, p)
    if x[0] == 'bx': return [(st, ('p', x[1], ()))]
    if x[0] == 'p': return [(st, x)]
    if x[0] == 'adt' and x[1] == COW:
        return [(st, x[3][0] if x[2] == 0 else ('p', o, p + (('v', 1), 0)))]
    if x[0] == 'adt' and x[1] in ('std::rc::Rc', 'std::sync::Arc'): return [(st, x[3][0])]
    sty = ((m or {}).get('a') or [{}])[0]
    if sty.get('n') in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc'):
        return [(st, ('p', ('d', ('t', 'inner', x)), ()))]
    return [(st, v)]


@reg('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::to_vec', 'core::slice::to_vec', 'std::string::ToString::to_string', 'std::clone::Clone::clone_from#no')
def _(I, st, a, m, d):
    v = viewval(I, st, a[0]) if (m or {}).get('name') in ('to_vec', 'to_owned', 'to_string') else argval(I, st, a[0])
    st.emit('clone', v)
    return [(st, v)]


@reg('std::convert::From::from', 'std::convert::Into::into', 'std::iter::IntoIterator::into_iter#2')
def _(I, st, a, m, d):
    # byte-ish conversions keep the bytes; &[u8] -> Cow borrows, Vec<u8> -> Cow owns
    v = a[0]
    dn = (d or {}).get('n')
    if dn == COW:
        return [(st, ('adt', COW, 0 if v[0] == 'p' else 1, (v,)))]
    if (m or {}).get('name') == 'from' or (m or {}).get('name') == 'into':
        if (d or {}).get('k') == 'int' and any(x.get('k') == 'bool' for x in ((m or {}).get('a') or [])):
            return [(st, ('i', 1 if I.truth(st, v) else 0))]
        if dn == OPT: return [(st, some(v))]
        if v[0] == 't' and v[1] == 'sha': return [(st, v)]
        if v[0] == 't' and v[1] == 'be' : return [(st, v)]
        if dn in ('std::vec::Vec', 'std::string::String') or (d or {}).get('k') in ('array', 'int'):
            if v[0] == 'p':
                return [(st, viewval(I, st, v))]
            return [(st, v)]
        if (d or {}).get('k') == 'param': return [(st, ('t', 'into', v))]
        if dn in ('std::boxed::Box',): 
            I.fid += 1; o = ('box', I.fid); st.mem[o] = v; return [(st, ('bx', o))]
    return [(st, ('t', 'into', v))]
@reg('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def _(I, st, a, m, d):
    v = a[0]
    sty = None
    for x in ((m or {}).get('a') or []):
        sty = sty or x
    t = ('t', 'fits', (d or {}).get('a', [{}])[0].get('s'), v)
    if I.truth(st, t): return [(st, ('adt', RES, 0, (v,)))]
    return [(st, ('adt', RES, 1, (('t', 'tryfromerr'),)))]


# ---------------------------------------------------------------- numbers
def tobe(I, st, a, m, d):
    v = a[0]
    if v[0] == 'p': v = viewval(I, st, v)
    nm = (m or {}).get('p', '')
    import re
    t = re.search(r'impl (\w+)', nm)
    if v[0] == 'i' and t and t.group(1) in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
        w = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'usize': 8}[t.group(1)]
        return [(st, ('b', v[1].to_bytes(w, 'big')))]
    return [(st, ('t', 'be', t.group(1) if t else '?', v))]
class _Be:
    pass
def num_method(name, I, st, a, m, d):
    import re
    v = a[0]
    if v[0] == 'p': v = viewval(I, st, v)
    if name == 'to_be_bytes': return tobe(I, st, a, m, d)
    if name in ('to_le_bytes', 'to_ne_bytes'): return [(st, ('t', name, v))]
    if name in ('wrapping_add', 'saturating_add', 'wrapping_sub', 'saturating_sub'):
        o = 'Add' if 'add' in name else 'Sub'
        r = I.binop(st, o, v, a[1])
        if core.SUBCHECK: core.SOFT.add(r)
        return [(st, r)]
    if name in ('checked_add', 'checked_sub'):
        o = 'Add' if 'add' in name else 'Sub'
        t = ('t', 'ovf', o, v, a[1])
        if I.truth(st, t): return [(st, NONE)]
        return [(st, some(I.binop(st, o, v, a[1])))]
    return [(st, ('t', 'num', name) + tuple(a))]


@reg('num_bigint::biguint::BigUint::to_bytes_be', 'num_bigint::BigUint::to_bytes_be')
def _(I, st, a, m, d): return [(st, ('t', 'by', ('t', 'bigbe', viewval(I, st, a[0]))))]


@reg('num_bigint::biguint::BigUint::to_bytes_le', 'num_bigint::BigUint::to_bytes_le')
def _(I, st, a, m, d): return [(st, ('t', 'by', ('t', 'bigle', viewval(I, st, a[0]))))]


# ---------------------------------------------------------------- SHA-256
@reg('sha2::Digest::new', 'sha2::Sha256::new')
def _(I, st, a, m, d): return [(st, ('adt', SHA, 0, ()))]
@reg('sha2::Digest::update')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); h = I.read(st, o, p)
    parts = BY(I, st, a[1])
    if h[0] != 'adt' or h[1] != SHA: h = ('adt', SHA, 0, (('t', 'shastate', h),))
    I.write(st, o, p, ('adt', SHA, 0, h[3] + parts))
    return [(st, UNIT)]
@reg('sha2::Digest::chain', 'sha2::Digest::chain_update')
def _(I, st, a, m, d):
    return [(st, ('adt', SHA, 0, a[0][3] + BY(I, st, a[1])))]
@reg('sha2::Digest::finalize')
def _(I, st, a, m, d):
    if a[0][0] != 'adt': return NotImplemented
    return [(st, sha(*a[0][3]))]
@reg('sha2::Digest::finalize_reset')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); h = I.read(st, o, p)
    I.write(st, o, p, ('adt', SHA, 0, ()))
    return [(st, sha(*h[3]))]
@reg('sha2::Digest::digest')
def _(I, st, a, m, d): return [(st, sha(*BY(I, st, a[0])))]


# ---------------------------------------------------------------- slices, strings, vectors
@reg('core::str::len', 'core::slice::len', 'std::string::String::len', 'std::vec::Vec::len', 'std::collections::VecDeque::len')
def _(I, st, a, m, d): return [(st, seq_len(I, st, viewval(I, st, a[0])))]
def seq_len(I, st, v):
    if v[0] == 'b': return ('i', len(v[1]))
    if v[0] == 'adt' and v[1] in ('[]', VEC):
        n = 0; extra = []
        for s in vec_segs(v):
            if s[0] == 'adt' and s[1] == '@one': n += 1
            else: extra.append(('t', 'len', s))
        if not extra: return ('i', n)
        t = extra[0]
        for e in extra[1:]: t = ('t', 'bin', 'Add', t, e)
        return I.binop(st, 'Add', t, ('i', n))
    return ('t', 'len', v)
def _sizeof(nm):
    def f(I, st, a, m, d): return [(st, ('t', nm, ((m or {}).get('a') or [{}])[0].get('s')) + tuple(viewval(I, st, x) for x in a))]
    return f
for _n in ('size_of', 'size_of_val', 'align_of', 'align_of_val', 'needs_drop'): M.suffix['std::mem::' + _n] = M.suffix['core::mem::' + _n] = _sizeof(_n)
@reg('core::bool::then', 'core::bool::then_some', 'std::bool::then')
def _(I, st, a, m, d):
    if not I.truth(st, a[0]): return [(st, NONE)]
    if m['name'] == 'then_some': return [(st, some(a[1]))]
    return [(s, some(r)) for s, r in I.invoke(st, a[1], [])]
@reg('std::any::type_name')
def _(I, st, a, m, d): return [(st, ('t', 'typename'))]
@reg('core::slice::is_empty', 'std::vec::Vec::is_empty', 'core::str::is_empty', 'std::string::String::is_empty', 'std::collections::VecDeque::is_empty')
def _(I, st, a, m, d):
    n = seq_len(I, st, viewval(I, st, a[0]))
    return [(st, boolv(I.decide_rel(st, n, ('i', 0)) == '='))]
@reg('core::slice::starts_with', 'core::str::starts_with')
def _(I, st, a, m, d):
    return [(st, ('t', 'pred', 'starts_with', BY(I, st, a[0]), BY(I, st, a[1])))]
@reg('core::slice::ends_with', 'core::str::ends_with')
def _(I, st, a, m, d):
    return [(st, ('t', 'pred', 'ends_with', BY(I, st, a[0]), BY(I, st, a[1])))]
@reg('core::slice::strip_prefix', 'core::str::strip_prefix')
def _(I, st, a, m, d):
    q = ('t', 'pred', 'starts_with', BY(I, st, a[0]), BY(I, st, a[1]))
    if not I.truth(st, q): return [(st, NONE)]
    r = ('adt', 'std::ops::RangeFrom', 0, (seq_len(I, st, viewval(I, st, a[1])),))
    I.fid += 1; o = ('slice', I.fid); st.mem[o] = ('t', 'slice', viewval(I, st, a[0]), r)
    return [(st, some(('p', o, ())))]
@reg('std::borrow::Cow::into_owned')
def _(I, st, a, m, d): return [(st, viewval(I, st, a[0]))]
@reg('std::array::as_slice', 'core::array::as_slice', 'std::array::as_ref')
def _(I, st, a, m, d): return [(st, a[0])]
@reg('std::slice::concat', 'core::slice::concat', 'std::slice::Concat::concat')
def _(I, st, a, m, d):
    v = viewval(I, st, a[0])
    if v[0] != 'adt' or v[1] not in ('[]', VEC): return NotImplemented
    out = ()
    for x in vec_segs(v):
        if x[0] != 'adt' or x[1] != '@one': return NotImplemented
        out += tuple(vec_segs(viewval(I, st, x[3][0])))
    return [(st, mkvec(out))]
def _textfn(nm):
    def f(I, st, a, m, d):
        r = ('t', 'fn', nm, viewval(I, st, a[0]))
        if (d or {}).get('k') == 'ref':
            I.fid += 1; o = ('slice', I.fid); st.mem[o] = r; return [(st, ('p', o, ()))]
        return [(st, r)]
    return f
for _n in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end'):
    for _q in ('core::str::', 'std::str::', 'alloc::str::', 'core::slice::', 'std::slice::'): M.suffix[_q + _n] = _textfn(_n)
M.suffix['candid::Principal::to_text'] = _textfn('to_text')
@reg('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new', 'std::collections::VecDeque::with_capacity', 'std::string::String::new')
def _(I, st, a, m, d): return [(st, mkvec(()))]
@reg('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    I.write(st, o, p, mkvec(vec_segs(v) + (one(a[1]),)))
    return [(st, UNIT)]
@reg('std::collections::VecDeque::push_front')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    I.write(st, o, p, mkvec((one(a[1]),) + vec_segs(v)))
    return [(st, UNIT)]
@reg('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); segs = vec_segs(v)
    if not segs: return [(st, NONE)]
    if segs[-1][0] == 'adt' and segs[-1][1] == '@one':
        I.write(st, o, p, mkvec(segs[:-1])); return [(st, some(segs[-1][3][0]))]
    return I.domain.pop(I, st, o, p, segs, True) if I.domain else NotImplemented
@reg('std::collections::VecDeque::pop_front')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); segs = vec_segs(v)
    if not segs: return [(st, NONE)]
    if segs[0][0] == 'adt' and segs[0][1] == '@one':
        I.write(st, o, p, mkvec(segs[1:])); return [(st, some(segs[0][3][0]))]
    return I.domain.pop(I, st, o, p, segs, False) if I.domain else NotImplemented
@reg('std::vec::Vec::clear', 'std::collections::VecDeque::clear')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); I.write(st, o, p, mkvec(())); return [(st, UNIT)]
@reg('std::vec::Vec::truncate')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0])
    if a[1] == ('i', 0): I.write(st, o, p, mkvec(())); return [(st, UNIT)]
    v = I.read(st, o, p); I.write(st, o, p, ('t', 'truncate', v, a[1])); return [(st, UNIT)]
@reg('std::vec::Vec::extend_from_slice')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); x = viewval(I, st, a[1])
    I.write(st, o, p, mkvec(vec_segs(v) + vec_segs(x)))
    return [(st, UNIT)]
@reg('std::vec::Vec::reserve', 'std::vec::Vec::reserve_exact', 'std::vec::Vec::shrink_to_fit', 'std::vec::Vec::shrink_to')
def _(I, st, a, m, d): return [(st, UNIT)]
@reg('std::vec::Vec::capacity')
def _(I, st, a, m, d): return [(st, ('t', 'capacity', viewval(I, st, a[0])))]
@reg('std::iter::Extend::extend')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    x = a[1]
    sty = ((m or {}).get('a') or [{}])[0].get('n')
    if sty not in ('std::vec::Vec', 'std::collections::VecDeque'): return NotImplemented
    I.write(st, o, p, mkvec(vec_segs(v) + (('t', 'items', x),)))
    return [(st, UNIT)]

RNG = ('std::ops::RangeFull', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::ops::Range', 'std::ops::RangeInclusive')
@reg('core::slice::get', 'core::str::get')
def _(I, st, a, m, d):
    r = a[1]
    if r[0] != 'adt' or r[1] not in ('std::ops::RangeTo', 'std::ops::RangeFrom'): return NotImplemented
    v = viewval(I, st, a[0])
    if I.decide_rel(st, r[3][0], seq_len(I, st, v)) == '>': return [(st, NONE)]
    I.fid += 1; o = ('slice', I.fid); st.mem[o] = ('t', 'slice', v, r)
    return [(st, some(('p', o, ())))]
@reg('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'core::slice::get_unchecked')
def _(I, st, a, m, d):
    r = a[1]
    if r[0] == 'adt' and r[1] == 'std::ops::RangeFull': return [(st, a[0])]
    if core.INDEXCHECK: core.INDEXCHECK(I, st, viewval(I, st, a[0]), r)
    if r[0] == 'adt' and r[1] in RNG:
        v = viewval(I, st, a[0])
        if r[1] == 'std::ops::RangeFrom' and r[3][0] == ('i', 0): return [(st, a[0])]
        st.emit('index', v, r)
        I.fid += 1
        o = ('slice', I.fid); st.mem[o] = ('t', 'slice', v, r)
        return [(st, ('p', o, ()))]
    if r[0] == 'i' or r[0] == 't':
        v = viewval(I, st, a[0])
        st.emit('index', v, r)
        I.fid += 1
        o = ('idx', I.fid); st.mem[o] = ('t', 'idx', v, r)
        return [(st, ('p', o, ()))]
    return NotImplemented
@reg('std::iter::IntoIterator::into_iter', 'core::slice::iter', 'std::iter::Iterator::by_ref')
def _(I, st, a, m, d):
    v = a[0]
    if m and m.get('name') == 'iter' and v[0] == 'p':
        return [(st, ('adt', '@iter', 0, (('t', 'refs', viewval(I, st, v)),)))]
    sty = ((m or {}).get('a') or [{}])[0]
    if v[0] == 'adt' and v[1] == '@iter': return [(st, v)]
    if sty.get('k') == 'ref' and v[0] == 'p': return [(st, ('adt', '@iter', 0, (('t', 'refs', viewval(I, st, v)),)))]
    if sty.get('n') in ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::BTreeMap'): return [(st, ('adt', '@iter', 0, (v,)))]
    return [(st, v)]
@reg('std::iter::Iterator::map')
def _(I, st, a, m, d): return [(st, ('adt', '@iter', 0, (('t', 'mapped', a[0], a[1]),)))]


# ---------------------------------------------------------------- closures
@reg('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def _(I, st, a, m, d):
    f = a[0]; args = a[1][3] if a[1][0] == 'adt' and a[1][1] == '()' else (a[1],)
    if f[0] == 'p':
        o, p = I.deref(st, f); v = I.read(st, o, p)
        if v[0] == 'adt' and v[1].startswith('closure:'): return I.call_closure_ref(st, f, args)
        f = v
        while f[0] == 'p':
            o, p = I.deref(st, f); f = I.read(st, o, p)
    I.call_tys = ((m or {}).get('a') or [None, None])[1:2]
    return I.invoke(st, f, list(args), None, d)


# ---------------------------------------------------------------- crate traits on generic parameters
@reg('label::Label::as_label')
def _(I, st, a, m, d): return [(st, ('t', 'label', viewval(I, st, a[0])))]
@reg('as_hash_tree::AsHashTree::root_hash')
def _(I, st, a, m, d):
    return [(st, ('t', 'H', viewval(I, st, a[0])))]
@reg('as_hash_tree::AsHashTree::as_hash_tree')
def _(I, st, a, m, d):
    return [(st, ('t', 'tree', viewval(I, st, a[0])))]
@reg('label::Prefix::is_prefix')
def _(I, st, a, m, d):
    return [(st, ('t', 'pred', 'is_prefix', viewval(I, st, a[0]), viewval(I, st, a[1])))]
@reg('std::default::Default::default')
def _(I, st, a, m, d):
    if (d or {}).get('n') == OPT: return [(st, NONE)]
    if (d or {}).get('k') in ('int', 'bool'): return [(st, ('i', 0))]
    if (d or {}).get('n') in ('std::vec::Vec', 'std::collections::VecDeque'): return [(st, mkvec(()))]
    if (d or {}).get('n') == 'std::marker::PhantomData': return [(st, ('adt', 'std::marker::PhantomData', 0, ()))]
    return [(st, ('t', 'default', (d or {}).get('s', '?')))]


# ---------------------------------------------------------------- panics
def panic(I, st, a, m, d):
    I.panics.append((I.stack[-1][0] if I.stack else '?', I.at, 'explicit panic', st.copy()))
    return []
for _n in ('core::panicking::panic', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic_fmt', 'core::panicking::panic_explicit',
           'core::panicking::unreachable_display', 'core::panicking::unreachable_default_msg', 'core::panicking::assert_failed_inner', 'core::panicking::panic_str_2015', 'core::panicking::unimplemented', 'core::panicking::assert_failed', 'std::rt::panic_display', 'core::panicking::panic_display', 'std::process::abort', 'core::panicking::panic_nounwind'):
    M.suffix[_n] = panic
@reg('core::panicking::panic_bounds_check')
def _(I, st, a, m, d): return panic(I, st, a, m, d)

_orig = M.lookup
def lookup(path, meta, I):
    r = _orig(path, meta, I)
    if r is not None: return r
    if I.P.is_local(path, meta): return None
    p = (meta or {}).get('p') or path
    if p.startswith(('core::num::', 'core::f32', 'core::f64', 'std::primitive', 'core::f')):
        nm = p.rsplit('::', 1)[1]
        return lambda I, st, a, m, d: num_method(nm, I, st, a, m, d)
    if p.startswith(('std::fmt', 'core::fmt')):
        return lambda I, st, a, m, d: [(st, ('t', 'fmt'))]
    return None
M.lookup = lookup


@reg('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    sty = ((m or {}).get('a') or [None])[0]
    return [(st, I.discr(st, v, sty))]
@reg('std::mem::discriminant')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    sty = ((m or {}).get('a') or [None])[0]
    return [(st, I.discr(st, v, sty))]
