"""Loops over sequences as folds.

A loop is interpreted once from a generalised state in which every location it changes is a placeholder:
iterators stand for "some remaining part of their source", growing vectors for "what was there plus something",
every other value for an accumulator.  One iteration then yields the step; the loop's effect is the fold of the
step over the source.  Nothing is executed and no bound on the length is needed.
"""
import core
from core import *
from models import *
from models import M

ITEM = ('t', 'ITEM'); ACC = ('t', 'ACC')


def getp(v, p):
    for e in p: v = v[3][e]
    return v


def putp(v, p, x):
    if not p: return x
    fs = list(v[3]); fs[p[0]] = putp(fs[p[0]], p[1:], x)
    return ('adt', v[1], v[2], tuple(fs))


def subst(v, m):
    if not isinstance(v, tuple): return v
    if v in m: return m[v]
    w = tuple(subst(x, m) for x in v)
    if w == v: return v
    if w[:2] == ('adt', VEC): return mkvec(flatvec(w[3])) if len(w) == 4 else w
    if w[:1] == ('t',): return tuple(unsplice(x) for x in w)
    if w[:1] == ('adt',) and len(w) == 4: return w[:3] + (flatvec(w[3]) if w[1] == '@segs' else tuple(unsplice(x) for x in w[3]),)
    return w


def unsplice(x): return mkvec(x[1:]) if isinstance(x, tuple) and x[:1] == ('@splice',) else x


def flatvec(segs):
    out = ()
    for s in segs: out += s[1:] if isinstance(s, tuple) and s and s[0] == '@splice' else (s,)
    return out


def diffs(a, b, path=()):
    if a == b: return []
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ('adt',) and b[:1] == ('adt',) and a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and a[1] not in (VEC, '@it', SHA, '@one'):
        out = []
        for i, (x, y) in enumerate(zip(a[3], b[3])): out += diffs(x, y, path + (i,))
        return out
    return [(path, a, b)]


def it(segs, *adapt): return ('adt', '@it', 0, (('adt', '@segs', 0, tuple(segs)), ('t', 'adapt') + adapt))
def isit(v): return v[0] == 'adt' and v[1] == '@it'


class Words:
    """mixin for interpreters: folds"""
    lid = 0

    def enter_loop(self, st, fr, head, body):
        live = liveness_of(self.P, fr.fn)[head]
        def rel(o): return o[0] != 'L' or o[1] != fr.fid or o[2] in live
        # iterations over known items are unrolled
        n = st.x.get(('unroll', fr.fid, head), 0)
        its = [v for o, v in st.mem.items() if rel(o) for v in finds(v, isit)]
        if its and n < 40 and any(v[3][0][3] and v[3][0][3][0][:2] == ('adt', '@one') for v in its):
            st.x[('unroll', fr.fid, head)] = n + 1
            out = []
            for s, k, v in self.run(st, fr, head, stop=head, region=body):
                if k == 'back': out.append((s, head))
                else: out.append((s, v[1]) if k == 'exit' else (s, 'ret'))
            return out
        res = []
        for s, k, v in self.summarise(st, lambda s: self.run(s, fr, head, stop=head, region=body), rel):
            res.append((s, v[1]) if k == 'exit' else (s, 'ret'))
        return res

    def summarise(self, st, execute, rel):
        """-> non-back outcomes of `execute`, after any number of iterations"""
        Words.lid += 1; lid = Words.lid
        objs = [o for o in st.mem if rel(o)]
        kinds = {}
        for rnd in range(10):
            g = st.copy(); g.ev = ()
            ph = {}
            for (o, p), k in kinds.items():
                v0 = getp(st.mem[o], p)
                if k == 'iter':
                    x = ('t', 'rest', lid, o, p)
                    gv = ('adt', '@it', 0, (('adt', '@segs', 0, (x,)), v0[3][1])) if isit(v0) else x
                elif k == 'vec':
                    x = ('t', 'grown', lid, o, p); gv = mkvec(vec_segs(v0) + (x,))
                else: x = gv = ('t', 'acc', lid, o, p)
                ph[(o, p)] = x
                g.mem[o] = putp(g.mem[o], p, gv)
            g0 = g.copy()
            outs = execute(g)
            grew = False
            for s, k, v in outs:
                if k != 'back': continue
                for o in objs:
                    if o not in s.mem: continue
                    for p, a, b in diffs(g0.mem[o], s.mem[o]):
                        kind = self.kindof(a, b)
                        old = kinds.get((o, p))
                        par = [q for q in kinds if q[0] == o and q[1] != p and (q[1][:len(p)] == p)]
                        for q in par: del kinds[q]; grew = True
                        if old is None: kinds[(o, p)] = kind; grew = True
                        elif old == 'vec' and kind != 'vec' or old == 'iter' and kind != 'iter': kinds[(o, p)] = 'acc' if old == 'vec' else old; grew = grew or old == 'vec'
                        if old == 'iter' and kind != 'iter': raise Undecided('an iterator advances irregularly in a loop', self.at)
            if not grew: break
        else: raise Undecided('loop state does not settle', self.at)
        backs = [s for s, k, v in outs if k == 'back']
        iters = [l for l, k in kinds.items() if k == 'iter']
        items = {('t', 'item', ph[l]): (ITEM if len(iters) == 1 else ('t', 'ITEM', i)) for i, l in enumerate(sorted(iters, key=repr))}
        srcs = {}
        for l in iters:
            v0 = getp(st.mem[l[0]], l[1])
            srcs[l] = v0[3][0][3] if isit(v0) else (v0,)
        steps = {}
        for l, k in kinds.items():
            if k == 'iter': continue
            m = dict(items); m[ph[l]] = ACC
            for q, x in ph.items():
                if q != l and kinds[q] != 'iter': m[x] = ('t', 'OTHER', getp(st.mem[q[0]], q[1]))
            ss = []
            for s in backs:
                b = self.purify(s, getp(s.mem[l[0]], l[1]))
                a = getp(g0.mem[l[0]], l[1])
                if k == 'vec': b = vec_segs(b)[len(vec_segs(a)):]
                b = subst(b, m)
                if b not in ss: ss.append(b)
            if k == 'vec' and len(ss) > 1: steps[l] = ('t', 'alt', tuple(sorted(ss, key=repr)))
            else: steps[l] = ss[0] if len(ss) == 1 else ('t', 'alt', tuple(sorted(ss, key=repr)))
        evs = []
        m = dict(items)
        for q, x in ph.items():
            if kinds[q] != 'iter': m[x] = ('t', 'ACC', repr(q[1]))
        for s in backs:
            e = subst(tuple(self.purify(s, x) if isinstance(x, tuple) and x and x[0] in ('p', 'bx', 'adt') else x for e in s.ev for x in [e]), m)
            e = tuple(tuple(self.purify(s, y) if isinstance(y, tuple) else y for y in x) for x in s.ev if x[0] not in ('drop', 'clone', 'free'))
            e = subst(e, m)
            if e not in evs: evs.append(e)
        src0 = tuple(srcs[l] for l in sorted(iters, key=repr))
        src0 = src0[0] if len(src0) == 1 else ('t', 'srcs', src0)
        src0, m = self.range_src(st, src0, (tuple(steps.values()), tuple(evs)))
        if m:
            steps = {l: subst(x, m) for l, x in steps.items()}; evs = [subst(e, m) for e in evs]
        res = []
        for s, k, v in outs:
            if k == 'back': continue
            done = bool(iters) and all(s.facts.get(('t', 'isempty', ph[l])) == 1 for l in iters)
            src = src0 if done else ('t', 'part', src0)
            mp = {}
            for l, kk in kinds.items():
                v0 = getp(st.mem[l[0]], l[1])
                if kk == 'iter': continue
                if kk == 'vec':
                    stp = steps[l]
                    if stp == (one(ITEM),) and done: mp[ph[l]] = ('@splice',) + tuple(src)
                    else: mp[ph[l]] = ('t', 'each', src, stp)
                else: mp[ph[l]] = self.fold(src, v0, steps[l]) if done else ('t', 'fold', src, v0, steps[l])
            n = s.copy()
            for o in list(n.mem): n.mem[o] = unsplice(subst(n.mem[o], mp))
            tail = tuple(subst(e, mp) for e in s.ev)
            pre = tuple(e for e in evs if e)
            n.ev = st.ev + ((('each', src, pre if len(pre) == len(evs) else pre + ((),)),) if pre else ()) + tail
            n.facts = {subst(f, mp): x for f, x in s.facts.items() if not has_term(subst(f, mp), lambda t: t[:2] == ('t', 'rest') and len(t) > 2 and t[2] == lid)}
            res.append((n, k, unsplice(subst(v, mp)) if k != 'exit' else v))
        return res

    def range_src(self, st, src, terms):
        """a loop over indices of one vector is a loop over its elements"""
        if len(src) != 1 or src[0][:2] != ('t', 'range'): return src, None
        a, b = src[0][2:]
        vs = set()
        def walk(x):
            if not isinstance(x, tuple): return
            if x[:2] == ('t', 'idx') and len(x) == 4 and x[3] == ITEM: vs.add(x[2]); return
            for y in x: walk(y)
        walk(terms)
        if len(vs) != 1: return src, None
        v = vs.pop()
        if has_term(v, lambda t: t == ACC or t[:2] == ('t', 'ACC')): return src, None
        if seq_len(self, st, v) != b: return src, None
        segs = drop_prefix(self, st, vec_segs(v), a)
        return (src, None) if segs is None else (segs, {('t', 'idx', v, ITEM): ITEM})

    def kindof(self, a, b):
        if isit(b) and isit(a): return 'iter' if consumed(a[3][0][3], b[3][0][3]) else 'acc'
        if b[:2] == ('t', 'tail') and b[2] == a: return 'iter'
        try: sa, sb = vec_segs(a), vec_segs(b)
        except Exception: return 'acc'
        if a[0] == 'adt' and a[1] == VEC or b[0] == 'adt' and b[1] == VEC:
            if sb[:len(sa)] == sa: return 'vec'
        return 'acc'

    def fold(self, src, v0, step): return ('t', 'fold', tuple(src) if isinstance(src, tuple) else src, v0, step)

    def purify(self, st, v):
        from base import pure
        if isinstance(v, tuple) and v and v[0] in ('p', 'bx', 'adt'): return pure(self, st, v)
        return v

    def next_of(self, st, o, p):
        """advance the iterator stored at (o,p): [(state, option)]"""
        v = self.read(st, o, p)
        if not isit(v): return None
        segs = v[3][0][3]; ad = v[3][1]
        while segs:
            s0 = segs[0]
            if s0[:2] == ('adt', '@one'):
                x = s0[3][0]; segs = segs[1:]; break
            if self.truth(st, ('t', 'isempty', s0)): segs = segs[1:]; continue
            x = ('t', 'item', s0); segs = (('t', 'tail', s0),) + segs[1:]; break
        else:
            self.write(st, o, p, ('adt', '@it', 0, (('adt', '@segs', 0, ()), ad)))
            return [(st, NONE)]
        self.write(st, o, p, ('adt', '@it', 0, (('adt', '@segs', 0, segs), ad)))
        return [(s, some(y)) for s, y in self.adapted(st, x, ad)]

    def adapted(self, st, x, ad):
        wl = [(st, x)]
        for a in ad[2:]:
            nxt = []
            for s, y in wl:
                if a == 'refs':
                    self.fid += 1; o = ('itm', self.fid); s.mem[o] = y; nxt.append((s, ('p', o, ())))
                elif a == 'entries':
                    ps = []
                    for i in (0, 1):
                        self.fid += 1; o = ('itm', self.fid); s.mem[o] = ('t', 'f', y, i); ps.append(('p', o, ()))
                    nxt.append((s, ('adt', '()', 0, tuple(ps))))
                elif a == 'deref': nxt.append((s, viewval(self, s, y)))
                elif a == 'enum': nxt.append((s, ('adt', '()', 0, (('t', 'index', x), y))))
                elif a[0] == 'inspect':
                    self.fid += 1; o = ('itm', self.fid); s.mem[o] = y
                    nxt += [(s2, y) for s2, r in self.invoke(s, a[1], [('p', o, ())])]
                elif a[0] == 'map': nxt += self.invoke(s, a[1], [y])
                else: raise Undecided('iterator adapter', self.at)
            wl = nxt
        return wl

    def drive(self, st, itv, step):
        """run `step(state, item)` for every item: outcomes [(state, kind, value)], kind 'done' after the last"""
        self.fid += 1; o = ('drv', self.fid)
        st = st.copy(); st.mem[o] = itv
        out = []
        def execute(s):
            res = []
            wl = [s]
            while wl:
                x = wl.pop()
                try:
                    y = x.copy()
                    for s2, ov in self.next_of(y, o, ()):
                        if ov == NONE: res.append((s2, 'done', UNIT)); continue
                        res += step(s2, ov[3][0])
                except Fork as f: wl += [self.replay(x, a) for a in f.alts]
                except Infeasible: pass
            return res
        cur = [st]; n = 0
        while cur:
            s = cur.pop(); n += 1
            segs = s.mem[o][3][0][3]
            if segs and segs[0][:2] == ('adt', '@one') and n < 60:
                for r in execute(s):
                    if r[1] == 'back': cur.append(r[0])
                    else: out.append(r)
            elif not segs: out.append((s, 'done', UNIT))
            else: out += self.summarise(s, execute, lambda x: True)
        return out


def finds(v, p):
    if not isinstance(v, tuple): return
    if v and v[0] == 'adt' and p(v): yield v; return
    for x in v:
        if isinstance(x, tuple): yield from finds(x, p)


def consumed(a, b):
    for j in range(len(a)):
        if b == (('t', 'tail', a[j]),) + a[j + 1:]: return True
    return len(b) < len(a) and a[len(a) - len(b):] == b


def liveness_of(P, fn):
    from treebase import liveness
    return liveness(P, fn)


# ------------------------------------------------------------------ models
WM = Models()
def wreg(*n):
    def d(f):
        for x in n: WM.suffix[x] = f
        return f
    return d


def as_iter(I, st, v, sty=None):
    """iterator over a value"""
    if isit(v): return v
    if v[0] == 'p' and v != NULL:
        x = I.read(st, *I.deref(st, v))
        if isit(x): return None
        x = viewval(I, st, v)
        if x[0] == 'adt' and x[1] in ('[]', VEC): return it(vec_segs(x) if x[1] == VEC else tuple(one(y) for y in x[3]), 'refs')
        if x[0] == 't' and (sty is None or seqlike(sty)): return it((x,), 'refs')
        return None
    if v[0] == 'adt' and v[1] == VEC: return it(v[3])
    if v[0] == 'adt' and v[1] == '[]': return it(tuple(one(y) for y in v[3]))
    if v[0] == 'adt' and v[1] == 'std::ops::Range': return it((('t', 'range', v[3][0], v[3][1]),))
    if v[0] == 'adt' and v[1] == OPT: return it((one(v[3][0]),) if v[2] == 1 else ())
    if v[:2] == ('t', 'Q'): return it((v,))
    if v[0] == 't': return it((v,) if sty is not None and sty.get('n') in SEQT else (('t', 'items', v),))
    return None


SEQT = ('std::vec::Vec', 'std::collections::VecDeque', VEC)
def seqlike(t):
    while t and t.get('k') == 'ref': t = t['t']
    return bool(t) and (t.get('k') in ('slice', 'array') or t.get('n') in SEQT)


@wreg('std::iter::IntoIterator::into_iter', 'core::slice::iter', 'std::vec::Vec::iter', 'std::collections::VecDeque::iter')
def _(I, st, a, m, d):
    h = I.tree_iter(st, a[0], m) if hasattr(I, 'tree_iter') else None
    if h is not None: return [(st, h)]
    sty = ((m or {}).get('a') or [None])[0]
    v = a[0]
    if m and m.get('name') == 'iter': sty = None
    r = as_iter(I, st, v, sty)
    return [(st, r if r is not None else v)]


@wreg('std::iter::Iterator::next')
def _(I, st, a, m, d):
    st = st.copy()
    o, p = I.deref(st, a[0])
    r = I.next_of(st, o, p)
    return NotImplemented if r is None else r


@wreg('std::iter::Iterator::size_hint')
def _(I, st, a, m, d):
    v = viewval(I, st, a[0])
    if isit(v):
        n = seq_len(I, st, ('adt', VEC, 0, v[3][0][3]))
        return [(st, ('adt', '()', 0, (n, some(n))))]
    return NotImplemented


def adapter(*n):
    def d(f):
        def g(I, st, a, m, dd):
            v = a[0]
            if not isit(v): return NotImplemented
            x = f(I, st, a, v)
            return [(st, ('adt', '@it', 0, (v[3][0], v[3][1] + (x,))))]
        for x in n: WM.suffix[x] = g
        return f
    return d
@adapter('std::iter::Iterator::map')
def _(I, st, a, v): return ('map', a[1])
@adapter('std::iter::Iterator::enumerate')
def _(I, st, a, v): return 'enum'
@adapter('std::iter::Iterator::inspect')
def _(I, st, a, v): return ('inspect', a[1])
@adapter('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def _(I, st, a, v): return 'deref'


@wreg('std::iter::Iterator::skip')
def _(I, st, a, m, d):
    v = a[0]
    if not isit(v): return NotImplemented
    segs = drop_prefix(I, st, v[3][0][3], a[1])
    if segs is None: segs = (('t', 'sub', 'skip', v[3][0][3], a[1]),)
    return [(st, ('adt', '@it', 0, (('adt', '@segs', 0, segs), v[3][1])))]


def selector(name):
    """adapters that drop or reorder items"""
    def f(I, st, a, m, d):
        v = a[0]
        if not isit(v): return NotImplemented
        if not v[3][0][3]: return [(st, v)]
        return [(st, ('adt', '@it', 0, (('adt', '@segs', 0, (('t', 'sub', name, v[3][0][3]) + tuple(I.purify(st, x) for x in a[1:]),)), v[3][1])))]
    WM.suffix['std::iter::Iterator::' + name] = f
for _n in ('take', 'step_by', 'rev', 'filter', 'take_while', 'skip_while'): selector(_n)
@wreg('std::iter::Iterator::fuse')
def _(I, st, a, m, d): return [(st, a[0])] if isit(a[0]) else NotImplemented
@wreg('std::iter::Iterator::chain')
def _(I, st, a, m, d):
    b = as_iter(I, st, a[1])
    if not isit(a[0]) or b is None or a[0][3][1] != b[3][1]: return NotImplemented
    return [(st, ('adt', '@it', 0, (('adt', '@segs', 0, a[0][3][0][3] + b[3][0][3]), b[3][1])))]


def drop_prefix(I, st, segs, n):
    """segments after the first n elements"""
    for i in range(len(segs) + 1):
        if seq_len(I, st, ('adt', VEC, 0, segs[:i])) == n: return segs[i:]
    return None


@wreg('std::iter::Iterator::fold')
def _(I, st, a, m, d):
    if not isit(a[0]): return NotImplemented
    I.fid += 1; acc = ('facc', I.fid); st = st.copy(); st.mem[acc] = a[1]
    I.fid += 1; clo = ('fclo', I.fid); st.mem[clo] = a[2]
    def step(s, x): 
        out = []
        for s2, r in I.invoke(s, ('fn', 'std::ops::FnMut::call_mut', None, None), [('p', clo, ()), ('adt', '()', 0, (s.mem[acc], x))], None, d):
            s2 = s2.copy(); s2.mem[acc] = r; out.append((s2, 'back', None))
        return out
    return [(s, s.mem[acc]) for s, k, v in I.drive(st, a[0], step)]


@wreg('std::iter::Iterator::for_each')
def _(I, st, a, m, d):
    if not isit(a[0]): return NotImplemented
    I.fid += 1; clo = ('fclo', I.fid); st = st.copy(); st.mem[clo] = a[1]
    def step(s, x): return [(s2, 'back', None) for s2, r in I.invoke(s, ('fn', 'std::ops::FnMut::call_mut', None, None), [('p', clo, ()), ('adt', '()', 0, (x,))], None, None)]
    return [(s, UNIT) for s, k, v in I.drive(st, a[0], step)]


@wreg('std::iter::Iterator::try_for_each')
def _(I, st, a, m, d):
    if not isit(a[0]) and not (a[0][0] == 'p'): return NotImplemented
    st = st.copy()
    if a[0][0] == 'p': o, p = I.deref(st, a[0]); itv = I.read(st, o, p)
    else: itv = a[0]
    if not isit(itv): return NotImplemented
    I.fid += 1; clo = ('fclo', I.fid); st.mem[clo] = a[1]
    if (d or {}).get('n') != RES: return NotImplemented
    def step(s, x):
        out = []
        for s2, r in I.invoke(s, ('fn', 'std::ops::FnMut::call_mut', None, None), [('p', clo, ()), ('adt', '()', 0, (x,))], None, d):
            if r[0] != 'adt': raise Undecided('result of a fallible closure', I.at)
            out.append((s2, 'back', None) if r[2] == 0 else (s2, 'err', r))
        return out
    return [(s, v if k == 'err' else ('adt', RES, 0, (UNIT,))) for s, k, v in I.drive(st, itv, step)]


@wreg('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def _(I, st, a, m, d):
    n = (d or {}).get('n')
    if n not in SEQT: return NotImplemented
    v = as_iter(I, st, a[0])
    if v is None: return NotImplemented
    return collect(I, st, v)


def collect(I, st, v, pre=()):
    if set(v[3][1][2:]) <= {'refs', 'deref'} and (v[3][1].count('refs') == v[3][1].count('deref')): return [(st, mkvec(pre + v[3][0][3]))]
    I.fid += 1; acc = ('cacc', I.fid); st = st.copy(); st.mem[acc] = mkvec(pre)
    def step(s, x):
        s = s.copy(); s.mem[acc] = mkvec(vec_segs(s.mem[acc]) + (one(x),)); return [(s, 'back', None)]
    return [(s, s.mem[acc]) for s, k, w in I.drive(st, v, step)]


@wreg('std::iter::Extend::extend')
def _(I, st, a, m, d):
    sty = ((m or {}).get('a') or [{}])[0].get('n')
    if sty not in SEQT: return NotImplemented
    st = st.copy()
    o, p = I.deref(st, a[0]); old = I.read(st, o, p)
    v = as_iter(I, st, a[1])
    if v is None: return NotImplemented
    if 'refs' in v[3][1] and 'deref' not in v[3][1]: v = ('adt', '@it', 0, (v[3][0], v[3][1] + ('deref',)))   # Extend<&T> copies
    out = []
    for s, r in collect(I, st, v, vec_segs(old)):
        I.write(s, o, p, r); out.append((s, UNIT))
    return out


@wreg('std::vec::Vec::insert')
def _(I, st, a, m, d):
    st = st.copy()
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); segs = vec_segs(v)
    for i in range(len(segs) + 1):
        if seq_len(I, st, ('adt', VEC, 0, segs[:i])) == a[1]:
            I.write(st, o, p, mkvec(segs[:i] + (one(a[2]),) + segs[i:])); return [(st, UNIT)]
    I.write(st, o, p, ('t', 'inserted', v, a[1], a[2])); return [(st, UNIT)]
def vecop(name):
    def f(I, st, a, m, d):
        st = st.copy()
        o, p = I.deref(st, a[0]); v = I.read(st, o, p)
        if v == mkvec(()): return [(st, UNIT)]
        I.write(st, o, p, ('t', name, v) + tuple(a[1:])); return [(st, UNIT)]
    return f
for _n in ('reverse', 'sort', 'sort_unstable', 'rotate_left', 'rotate_right', 'swap'): WM.suffix['core::slice::' + _n] = WM.suffix['std::slice::' + _n] = vecop(_n)
for _n in ('dedup', 'retain', 'dedup_by_key'): WM.suffix['std::vec::Vec::' + _n] = vecop(_n)
def vempty(I, st, v):
    return I.truth(st, ('t', 'isempty', v))
def vpop(back):
    def f(I, st, a, m, d):
        o, p = I.deref(st, a[0]); v = I.read(st, o, p); segs = vec_segs(v)
        if I.domain is not None or not segs: return NotImplemented
        e = segs[-1 if back else 0]
        if e[0] == 'adt' and e[1] == '@one': return NotImplemented
        if len(segs) > 1 or e[0] != 't': return NotImplemented
        if vempty(I, st, e): return [(st, NONE)]
        st = st.copy()
        I.write(st, o, p, ('t', 'init' if back else 'tail', v)); return [(st, some(('t', 'last' if back else 'item', v)))]
    return f
for _n, _b in (('std::vec::Vec::pop', True), ('std::collections::VecDeque::pop_back', True), ('std::collections::VecDeque::pop_front', False)): WM.suffix[_n] = vpop(_b)
def elemmut(name):
    """a unique borrow of one item: from here on the item may differ"""
    def f(I, st, a, m, d):
        st = st.copy()
        o, p = I.deref(st, a[0]); v = I.read(st, o, p); segs = vec_segs(v)
        if segs and any(x[0] == 'adt' and x[1] == '@one' for x in segs): return NotImplemented
        if not segs or len(segs) == 1 and vempty(I, st, segs[0]): return [(st, NONE)]
        I.fid += 1; x = ('elem', I.fid); st.mem[x] = ('t', name, v)
        I.write(st, o, p, ('t', 'changed', v, name)); return [(st, some(('p', x, ())))]
    return f
for _n in ('last_mut', 'first_mut'): WM.suffix['core::slice::' + _n] = WM.suffix['std::slice::' + _n] = elemmut(_n)
def elemref(back):
    def f(I, st, a, m, d):
        if I.domain is not None: return NotImplemented
        v = viewval(I, st, a[0])
        if v[0] != 't' and not (v[0] == 'adt' and v[1] == VEC): return NotImplemented
        segs = vec_segs(v)
        while segs:
            e = segs[-1 if back else 0]
            if e[:2] == ('adt', '@one'): x = e[3][0]; break
            if e[0] != 't' or e[1] in ('sha', 'by', 'H'): return NotImplemented
            if vempty(I, st, e): segs = segs[:-1] if back else segs[1:]; continue
            x = ('t', 'last' if back else 'item', e); break
        else: return [(st, NONE)]
        st = st.copy(); I.fid += 1; o = ('elem', I.fid); st.mem[o] = x
        return [(st, some(('p', o, ())))]
    return f
for _n, _b in (('last', True), ('first', False)): WM.suffix['core::slice::' + _n] = WM.suffix['std::slice::' + _n] = elemref(_b)
@wreg('std::vec::Vec::append')
def _(I, st, a, m, d):
    st = st.copy()
    o, p = I.deref(st, a[0]); v = I.read(st, o, p); o2, p2 = I.deref(st, a[1]); w = I.read(st, o2, p2)
    I.write(st, o, p, mkvec(vec_segs(v) + vec_segs(w))); I.write(st, o2, p2, mkvec(()))
    return [(st, UNIT)]


@wreg('std::ops::Index::index', 'core::slice::get_unchecked')
def _(I, st, a, m, d):
    r = a[1]
    if r[0] == 'adt' and (r[1] == 'std::ops::RangeTo' or r[1] == 'std::ops::Range' and r[3][0] == ('i', 0)):
        v = viewval(I, st, a[0]); e = r[3][-1]
        if v[0] == 't' and v[1] not in ('by', 'sha', 'H') and (e == ('t', 'len', v) or e == ('t', 'len', ('t', 'items', v))): return [(st, a[0])]
    if r[0] == 'adt' and r[1] == 'std::ops::RangeFrom':
        v = viewval(I, st, a[0])
        if core.INDEXCHECK: core.INDEXCHECK(I, st, v, r)
        segs = drop_prefix(I, st, vec_segs(v), r[3][0])
        if segs is not None:
            I.fid += 1; o = ('slice', I.fid); st = st.copy(); st.mem[o] = mkvec(segs)
            return [(st, ('p', o, ()))]
    return NotImplemented


@wreg('candid::Deserialize::deserialize', 'serde::Deserialize::deserialize', 'serde::de::Deserialize::deserialize')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('deser', (d or {}).get('s'), a[0])
    s1, s2 = st.copy(), st.copy()
    t = ('t', 'discr', ('t', 'deser', len(st.ev)), RES)
    s1.facts[t] = 0; s2.facts[t] = 1; s2.emit('deerr')
    return [(s1, ('adt', RES, 0, (('t', 'decoded', a[0]),))), (s2, ('adt', RES, 1, (('t', 'deerr'),)))]


def access(kind):
    def f(I, st, a, m, d):
        st = st.copy()
        o, p = I.deref(st, a[0]); x = I.read(st, o, p)
        while x[0] == 'p': o, p = I.deref(st, x); x = I.read(st, o, p)
        t = ('t', 'discr', ('t', 'acc-err', x), RES)
        if t not in st.facts:
            alts = []
            for i in (0, 1):
                s = st.copy(); s.facts[t] = i; s.note('decoder ' + ('error' if i else 'ok')); alts.append(s)
                if i: s.emit('deerr')
            raise Fork(alts)
        if st.facts[t] == 1: return [(st, ('adt', RES, 1, (('t', 'deerr'),)))]
        if I.truth(st, ('t', 'isempty', x)): return [(st, ('adt', RES, 0, (NONE,)))]
        I.write(st, o, p, ('t', 'tail', x))
        e = ('t', 'item', x)
        if kind == 'entry': e = ('adt', '()', 0, (('t', 'f', e, 0), ('t', 'f', e, 1)))
        return [(st, ('adt', RES, 0, (some(e),)))]
    return f
WM.suffix['serde::de::MapAccess::next_entry'] = access('entry')
WM.suffix['serde::de::SeqAccess::next_element'] = access('elem')


@wreg('serde::de::MapAccess::next_key')
def _(I, st, a, m, d):
    st = st.copy()
    o, p = I.deref(st, a[0]); x = I.read(st, o, p)
    while x[0] == 'p': o, p = I.deref(st, x); x = I.read(st, o, p)
    t = ('t', 'discr', ('t', 'acc-err', x), RES)
    if t not in st.facts:
        alts = []
        for i in (0, 1):
            s = st.copy(); s.facts[t] = i; alts.append(s)
            if i: s.emit('deerr')
        raise Fork(alts)
    if st.facts[t] == 1: return [(st, ('adt', RES, 1, (('t', 'deerr'),)))]
    if x[:2] == ('t', 'halfkey'): raise Undecided('next_key called twice without its value', I.at)
    if I.truth(st, ('t', 'isempty', x)): return [(st, ('adt', RES, 0, (NONE,)))]
    I.write(st, o, p, ('t', 'halfkey', x))
    return [(st, ('adt', RES, 0, (some(('t', 'f', ('t', 'item', x), 0)),)))]
@wreg('serde::de::MapAccess::next_value')
def _(I, st, a, m, d):
    st = st.copy()
    o, p = I.deref(st, a[0]); x = I.read(st, o, p)
    while x[0] == 'p': o, p = I.deref(st, x); x = I.read(st, o, p)
    if x[:2] != ('t', 'halfkey'): raise Undecided('next_value without a key', I.at)
    x = x[2]
    t = ('t', 'discr', ('t', 'val-err', x), RES)
    if t not in st.facts:
        alts = []
        for i in (0, 1):
            s = st.copy(); s.facts[t] = i; alts.append(s)
            if i: s.emit('deerr')
        raise Fork(alts)
    if st.facts[t] == 1: return [(st, ('adt', RES, 1, (('t', 'deerr'),)))]
    I.write(st, o, p, ('t', 'tail', x))
    return [(st, ('adt', RES, 0, (('t', 'f', ('t', 'item', x), 1),)))]
@wreg('serde::de::MapAccess::size_hint', 'serde::de::SeqAccess::size_hint')
def _(I, st, a, m, d): return [(st, ('t', 'hint', viewval(I, st, a[0])))]
@wreg('serde::Deserializer::deserialize_map', 'serde::Deserializer::deserialize_seq', 'serde::Deserializer::deserialize_any')
def _(I, st, a, m, d):
    st = st.copy(); st.emit('deser', m['name'], a[1])
    return [(st, ('t', 'visited', a[1]))]


def wlookup(extra):
    def lookup(path, meta, I):
        if not I.P.is_local(path, meta):
            q = strip_generics((meta or {}).get('p') or path)
            if q in WM.suffix: 
                f = WM.suffix[q]; g = extra.lookup(path, meta, I)
                def h(I, st, a, m, d):
                    r = f(I, st, a, m, d)
                    if r is NotImplemented and g is not None: return g(I, st, a, m, d)
                    return r
                return h
        return extra.lookup(path, meta, I)
    return lookup
