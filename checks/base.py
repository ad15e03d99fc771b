"""Shared helpers of the checks: symbolic arguments, hash-tree oracle, path-wise evaluation."""
from core import *
from models import M, BY, sha, sep, merge, viewval, mkvec, vec_segs, one, VEC, strip_generics
import copy

HT = 'hashtree::HashTree'


# ---- live locals
def places(o, out):
    if isinstance(o, dict):
        for k, v in o.items():
            if k in ('copy', 'move') and isinstance(v, list): use_place(v, out)
            elif k == 'p' and isinstance(v, list) and v and isinstance(v[0], int): use_place(v, out)
            else: places(v, out)
    elif isinstance(o, list):
        for x in o: places(x, out)


def use_place(p, out):
    out.add(p[0])
    for e in p[1:]:
        if isinstance(e, dict) and 'i' in e and isinstance(e['i'], int): out.add(e['i'])


def liveness(P, fn):
    """block -> locals live on entry (address-taken locals are always live)"""
    body = P.fns[fn]['body']
    if '_live' in body: return body['_live']
    bbs = body['bbs']
    addr = set()
    for b in bbs:
        if b['cleanup']: continue
        for s in b['s']:
            if s['s'] == '=' and s['r']['r'] in ('ref', 'addr') and '*' not in s['r']['p'][1:]: addr.add(s['r']['p'][0])
    live = [set() for _ in bbs]
    succ = [term_succ(b['t']) for b in bbs]
    def transfer(i):
        b = bbs[i]; t = b['t']
        L = set()
        for s in succ[i]: L |= live[s]
        if t['t'] == 'return': L.add(0)
        if t['t'] == 'call':
            if len(t['d']) == 1: L.discard(t['d'][0])
            else: use_place(t['d'], L)
            places(t['f'], L); places(t['args'], L)
        elif t['t'] == 'drop': use_place(t['p'], L)
        elif t['t'] in ('switch', 'assert'): places(t['o'], L)
        for s in reversed(b['s']):
            if s['s'] != '=': continue
            if len(s['p']) == 1: L.discard(s['p'][0])
            else: use_place(s['p'], L)
            places(s['r'], L)
        return L | addr
    ch = True
    while ch:
        ch = False
        for i in reversed(range(len(bbs))):
            if bbs[i]['cleanup']: continue
            n = transfer(i)
            if n != live[i]: live[i] = n; ch = True
    body['_live'] = live
    return live


# ---- iterators over arrays of known length: loops over them are unrolled
AM = {}
def areg(*n):
    def f(g):
        for x in n: AM[x] = g
        return g
    return f
def ait(xs): return ('adt', '@ait', 0, tuple(xs))
def isait(v): return v[0] == 'adt' and v[1] == '@ait'
def arr(I, st, v):
    """(object, path, elements' paths) of a viewed array"""
    while v[0] in ('p', 'bx') and v != NULL and v[1][0] != 'N':
        o, p = I.deref(st, v); w = I.read(st, o, p)
        if w[0] == 'adt' and w[1] == '[]': return [('p', o, p + (i,)) for i in range(len(w[3]))]
        if w[0] == 'adt' and w[1] == VEC and all(x[0] == 'adt' and x[1] == '@one' for x in w[3]): return [('p', o, p + (i, 0)) for i in range(len(w[3]))]
        v = w
    return None
@areg('core::slice::iter', 'core::slice::iter_mut')
def _(I, st, a, m, d):
    xs = arr(I, st, a[0])
    return NotImplemented if xs is None else [(st, ait(xs))]
@areg('std::iter::IntoIterator::into_iter')
def _(I, st, a, m, d):
    if isait(a[0]): return [(st, a[0])]
    if a[0][0] == 'adt' and a[0][1] == '[]': return [(st, ait(a[0][3]))]
    t = ((m or {}).get('a') or [{}])[0]
    if t.get('k') != 'ref' or (t.get('t') or {}).get('k') not in ('array', 'slice'): return NotImplemented
    xs = arr(I, st, a[0])
    return NotImplemented if xs is None else [(st, ait(xs))]
@areg('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def _(I, st, a, m, d):
    if not isait(a[0]): return NotImplemented
    return [(st, ait(I.read(st, *I.deref(st, x)) for x in a[0][3]))]
@areg('std::iter::Iterator::rev')
def _(I, st, a, m, d): return [(st, ait(reversed(a[0][3])))] if isait(a[0]) else NotImplemented
@areg('std::iter::Iterator::next')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    if not isait(v): return NotImplemented
    if not v[3]: return [(st, NONE)]
    I.write(st, o, p, ait(v[3][1:])); return [(st, some(v[3][0]))]


class A(Interp):
    """plain evaluator: inlines local calls, recursion through `ih`"""
    def __init__(self, prog):
        super().__init__(prog, M)
        self.ih = None

    def summary(self, st, path, args, meta, dty):
        if self.ih:
            r = self.ih(self, st, path, args, meta, dty)
            if r is not None: return r
        if any(f == path for f, _ in self.stack): return NotImplemented
        return self.call_fn(st, path, args, self.tenv_of(path, meta))

    arrays = True     # loops over arrays of known length are unrolled
    def enter_loop(self, st, fr, head, body):
        if self.arrays and any(isait(st.mem.get(('L', fr.fid, i), UNDEF)) for i in liveness(self.P, fr.fn)[head]): return self.unroll(st, fr, head, body)
        return super().enter_loop(st, fr, head, body)

    def unroll(self, st, fr, head, body):
        out = []; wl = [(st, 0)]
        while wl:
            s, d = wl.pop()
            if d > 12: raise Undecided('loop over something that is not the tree in ' + fr.fn, self.at)
            for (y, k, v) in self.run(s.copy(), fr, head, stop=head, region=body):
                if k == 'back': wl.append((y, d + 1))
                elif k == 'ret': y.mem[('L', fr.fid, 0)] = v; out.append((y, 'ret'))
                else: out.append((y, v[1]))
        return out

    def invoke(self, st, callee, args, meta=None, dty=None):
        if self.arrays and callee[0] == 'fn' and not self.P.is_local(callee[1], meta):
            f = AM.get(strip_generics((meta or {}).get('p') or callee[1]))
            if f is not None:
                r = f(self, st, args, meta, dty)
                if r is not NotImplemented: return r
        return super().invoke(st, callee, args, meta, dty)

    def call_opaque(self, st, callee, args, dty):
        st.emit('callf', callee, tuple(args))
        return [(st, self.typed(st, ('t', 'callf', callee, tuple(args), len(st.ev)), dty))]


def symval(I, st, ty, name, depth=0):
    """symbolic value of a type; `name` is a term"""
    h = getattr(I, 'symhook', None)
    if h:
        v = h(st, ty, name)
        if v is not None: return v
    k = ty['k']
    if k in ('ref', 'ptr'):
        o = ('S', name); st.mem[o] = symval(I, st, ty['t'], ('t', 'at', name), depth + 1)
        return ('p', o, ())
    if k == 'tuple':
        return ('adt', '()', 0, tuple(symval(I, st, x, ('t', 'f', name, i), depth + 1) for i, x in enumerate(ty['a'])))
    if k == 'adt':
        n = ty['n']
        if n == 'std::boxed::Box':
            o = ('S', ('t', 'boxof', name)); st.mem[o] = symval(I, st, ty['a'][0], ('t', 'inner', name), depth + 1)
            return ('bx', o)
        ad = I.P.adts.get(n)
        if ad and ad.get('local') and ad['kind'] == 'struct' and depth < 8:
            return ('adt', n, 0, tuple(symval(I, st, I.pty(ty, {'f': i}), ('t', 'f', name, i), depth + 1) for i in range(len(ad['variants'][0]['fields']))))
    return name if name[0] == 't' else ('t', 'sym', name)


def variant(I, st, ty, i, name):
    """explicit enum value with symbolic fields"""
    ad = I.P.adts[ty['n']]
    fs = tuple(symval(I, st, I.pty(dict(ty, variant=i), {'f': j}), ('t', 'f', name, i, j), 1) for j in range(len(ad['variants'][i]['fields'])))
    return ('adt', ty['n'], i, fs)


def pure(I, st, v, d=0):
    """resolve boxes/cows/pointers to pure terms"""
    if d > 40: return v
    if v[0] == 'bx' or (v[0] == 'p' and v != NULL):
        try:
            o, p = I.deref(st, v)
            if o in st.freed and v[0] == 'p': return v
            return pure(I, st, I.read(st.copy(), o, p), d + 1)
        except Bad: return v
    if v[0] == 'adt':
        if v[1] == COW: return ('t', 'cow', merge(BY(I, st, v)))
        return ('adt', v[1], v[2], tuple(pure(I, st, x, d + 1) for x in v[3]))
    return v


def recon(I, st, v):
    """oracle: the digest of a hash tree, written from the Internet Computer interface specification"""
    v0 = v
    while v[0] in ('p', 'bx'):
        o, p = I.deref(st, v); v = I.read(st, o, p)
    if v[0] == 'adt' and v[1] == HT:
        name = I.P.adts[HT]['variants'][v[2]]['name']
        if name == 'Empty': return sha(sep('ic-hashtree-empty'))
        if name == 'Fork':
            f = v[3][0]
            while f[0] in ('p', 'bx'):
                o, p = I.deref(st, f); f = I.read(st, o, p)
            if f[0] == 'adt': l, r = f[3][0], f[3][1]
            else: l, r = ('t', 'f', f, 0), ('t', 'f', f, 1)
            return sha(sep('ic-hashtree-fork'), recon(I, st, l), recon(I, st, r))
        if name == 'Labeled':
            return sha(sep('ic-hashtree-labeled'), *BY(I, st, v[3][0]), recon(I, st, v[3][1]))
        if name == 'Leaf': return sha(sep('ic-hashtree-leaf'), *BY(I, st, v[3][0]))
        if name == 'Pruned':
            return hashval(I, st, v[3][0])
    if v[0] == 't' and v[1] == 'tree': return ('t', 'H', v[2])
    return ('t', 'recon', v)


def hashval(I, st, v):
    v = viewval(I, st, v)
    return v


def evaluate(I, fn, args, st=None):
    """all paths -> [(state, value)]"""
    st = st or State()
    out = []
    wl = [st]
    while wl:
        s = wl.pop()
        try: out += I.call_fn(s, fn, args)
        except Fork as f: wl.extend(f.alts)
        except Infeasible: pass
    return out


def compatible(a, b):
    for k, v in a.facts.items():
        if k in b.facts and b.facts[k] != v: return False
    return True


def where(P, fn):
    f = P.fns.get(fn)
    return '%s (%s)' % (fn, f['span']) if f else fn


def normhash(v):
    return v
