"""Queues of tree nodes in loops: the concatenation of the queues is the loop invariant.

At a loop head every queue (Vec, VecDeque, their owning iterators, Option, plain values) of nodes becomes an
arbitrary queue symbol; one iteration is interpreted with pops splitting a symbol into an element and the rest.
The invariant is: some concatenation of the live queues has the same in-order word at every arrival at the head.
It holds initially (by definition of the word) and is preserved by every path back to the head, for any number
of iterations and any queue length; after the loop it is a known equation between words.
"""
import itertools
from words import *

QN = 4     # orders of at most QN queues are tried


class LoopBreak(Exception):
    """no concatenation of the queues is preserved"""
    def __init__(self, what, at): self.what, self.at = what, at


def isq(x): return x[:2] == ('t', 'Q')


class Queues:
    """mixin (before Words): loops over queues of `self.qelem` typed elements"""
    qid = 0

    def qtype(self, t):
        """'vec' | 'iter' | 'opt' | 'elem' | None for the type of a local"""
        n = t.get('n')
        a = [x for x in t.get('a', ()) if isinstance(x, dict)]
        def el(t):
            if t.get('n') == 'std::boxed::Box': return el(t['a'][0])
            return t.get('k') == 'adt' and t.get('n') == self.qelem
        if t.get('k') != 'adt': return None
        if el(t): return 'elem'
        if not a or not el(a[0]): return None
        if n in ('std::vec::Vec', 'std::collections::VecDeque'): return 'vec'
        if n in ('std::vec::IntoIter', 'std::collections::vec_deque::IntoIter', 'std::collections::vec_deque::Drain', 'std::vec::Drain'): return 'iter'
        if n == OPT: return 'opt'
        return None

    # ---- words
    def word(self, st, v):
        """in-order word of a value made of nodes"""
        if v[0] == 'adt' and v[1] == VEC:
            out = ()
            for s in v[3]: out += self.word(st, s[3][0]) if s[:2] == ('adt', '@one') else (s,)
            return out
        if isit(v):
            if v[3][1] != ('t', 'adapt'): raise Undecided('adapted iterator', self.at)
            return self.word(st, ('adt', VEC, 0, v[3][0][3]))
        if v[0] == 'adt' and v[1] == OPT: return self.word(st, v[3][0]) if v[2] == 1 else ()
        if v[0] in ('p', 'bx') and v != NULL: return self.word(st, self.read(st, *self.deref(st, v)))
        r = self.nodeword(st, v)
        if r is not None: return r
        return (self.purify(st, v),)

    def nodeword(self, st, v): return None

    def nword(self, st, w):
        """expand popped symbols, drop empty ones, apply the equations of loops passed"""
        ex = st.x.get('qexp', {}); eqs = st.x.get('qeqs', ())
        for _ in range(60):
            out = ()
            for s in w:
                if s in ex: out += ex[s]
                elif isq(s) and st.facts.get(('t', 'qempty', s)) == 1: continue
                else: out += (s,)
            if out != w: w = out; continue
            for l, r in eqs:
                l = self.expand_only(st, l)
                k = self.find_sub(w, l)
                if k is not None and l: w = w[:k] + r + w[k + len(l):]; break
            else: return w
        return w

    def expand_only(self, st, w):
        ex = st.x.get('qexp', {})
        for _ in range(60):
            out = ()
            for s in w:
                if s in ex: out += ex[s]
                elif isq(s) and st.facts.get(('t', 'qempty', s)) == 1: continue
                else: out += (s,)
            if out == w: return w
            w = out
        return w

    def find_sub(self, w, l):
        for i in range(len(w) - len(l) + 1):
            if w[i:i + len(l)] == l: return i
        return None

    # ---- lengths
    def qlen(self, st, q):
        """known length of a symbol: ('=', n) or ('>=', n); forks until the number is known or at least 3"""
        for n, t in enumerate(('qempty', 'qlen1', 'qlen2')):
            if self.truth(st, ('t', t, q)): return ('=', n)
        return ('>=', 3)

    def split(self, st, q, back):
        """first (last) element and rest, or None when empty"""
        q0 = q
        if self.truth(st, ('t', 'qempty', q)): return None
        Queues.qid += 0
        e, r = ('t', 'qe', q), ('t', 'Q', q, 'rest')
        ex = dict(st.x.get('qexp', {}))
        ex[q] = (r, e) if back else (e, r)
        st.x['qexp'] = ex
        f = st.facts
        one_, two = f.get(('t', 'qlen1', q)), f.get(('t', 'qlen2', q))
        if one_ is not None: f[('t', 'qempty', r)] = one_
        if two is not None: f[('t', 'qlen1', r)] = two
        return e, r

    def segs_len(self, st, segs):
        n = 0; lo = False
        for s in segs:
            if s[:2] == ('adt', '@one'): n += 1
            elif isq(s):
                k, m = self.qlen(st, s); n += m; lo = lo or k == '>='
            else: return None
        return ('t', 'big', n, tuple(x for x in segs if isq(x))) if lo else ('i', n)

    def truth(self, st, t):
        if t not in st.facts:
            r = self.qtruth(st, t)
            if r is not None: return r
        return super().truth(st, t)

    def decide_rel(self, st, a, b):
        def split(x):
            if x[:2] == ('t', 'big'): return x[2], 0
            if x[:2] == ('t', 'lin') and x[2][:2] == ('t', 'big'): return x[2][2] + x[3], 0
            return None
        if b[0] == 'i':
            s = split(a)
            if s and b[1] < s[0]: return '>'
        if a[0] == 'i':
            s = split(b)
            if s and a[1] < s[0]: return '<'
        return super().decide_rel(st, a, b)

    def qtruth(self, st, t):
        return None

    # ---- loops
    def enter_loop(self, st, fr, head, body):
        live = liveness_of(self.P, fr.fn)[head]
        locs = self.P.fns[fr.fn]['body']['locals']
        qs = []; other = False
        for o, v in st.mem.items():
            if o[0] != 'L' or o[1] != fr.fid or o[2] not in live or v == UNDEF: continue
            k = self.qtype(locs[o[2]]['ty'])
            if k: qs.append((o, k))
            elif isit(v): other = True
        if other or not any(k in ('vec', 'iter') for _, k in qs): return super().enter_loop(st, fr, head, body)
        Queues.qid += 1; lid = Queues.qid
        words0 = {o: self.word(st, st.mem[o]) for o, k in qs}
        starts = [(st.copy(), {})]
        for o, k in qs:
            nxt = []
            for s, m in starts:
                q = ('t', 'Q', lid, o)
                def add(v, w): 
                    s2 = s.copy(); s2.mem[o] = v; nxt.append((s2, dict(m, **{o[2]: w}) if False else {**m, o: w}))
                if k == 'vec': add(mkvec((q,)), (q,))
                elif k == 'iter': add(it((q,)), (q,))
                elif k == 'elem':
                    if st.mem[o][0] == 'bx': 
                        b = ('qbox', lid, o); s2 = s.copy(); s2.mem[b] = ('t', 'qv', lid, o); s2.mem[o] = ('bx', b); nxt.append((s2, {**m, o: (('t', 'qv', lid, o),)}))
                    else: add(('t', 'qv', lid, o), (('t', 'qv', lid, o),))
                else:
                    add(NONE, ()); add(some(('t', 'qv', lid, o)), (('t', 'qv', lid, o),))
            starts = nxt
        scal = set()
        for rnd in range(8):
            outs = []; again = False
            for s, m in starts:
                g = s.copy(); g.ev = ()
                for o, p in scal: g.mem[o] = putp(g.mem[o], p, ('t', 'qs', lid, o, p))
                g0 = g.copy()
                for s2, k, v in self.run(g.copy(), fr, head, stop=head, region=body): outs.append((s2, k, v, m))
                for s2, k, v, _ in outs:
                    if k != 'back': continue
                    for o in g0.mem:
                        if o[0] == 'L' and o[1] == fr.fid and o[2] not in live or any(o == x for x, _ in qs) or o not in s2.mem: continue
                        for p, a, b in diffs(g0.mem[o], s2.mem[o]):
                            if o[0] == 'L' and o[1] == fr.fid and (o, p) not in scal: scal.add((o, p)); again = True
                            elif o[0] != 'L' and o[0] not in ('itm', 'cell', 'slice'): raise Undecided('a loop over queues changes other data', self.at)
            if not again: break
        else: raise Undecided('loop state does not settle', self.at)
        backs = [(s, m) for s, k, v, m in outs if k == 'back']
        names = [o for o, _ in qs]
        inv = None
        for n in range(len(names), 0, -1):
            if n > QN: continue
            for perm in itertools.permutations(names, n):
                if all(self.nword(s, sum((m[o] for o in perm), ())) == self.nword(s, sum((self.word(s, s.mem[o]) for o in perm), ())) for s, m in backs):
                    inv = perm; break
            if inv: break
        if backs and (inv is None or not self.inv_enough(inv, qs, words0)):
            s, m = next(((s, m) for s, m in backs if self.nword(s, sum((m[o] for o in names), ())) != self.nword(s, sum((self.word(s, s.mem[o]) for o in names), ()))), backs[0])
            raise LoopBreak('one round turns %s into %s' % ([self.pretty(self.nword(s, m[o])) for o in names], [self.pretty(self.nword(s, self.word(s, s.mem[o]))) for o in names]), self.at)
        res = []
        for s, k, v, m in outs:
            if k == 'back': continue
            s = s.copy()
            if inv:
                s.x['qeqs'] = ((sum((m[o] for o in inv), ()), self.nword(st, sum((words0[o] for o in inv), ()))),) + s.x.get('qeqs', ())
            s.ev = st.ev + s.ev
            res.append((s, v[1]) if k == 'exit' else (s, 'ret'))
        return res

    def inv_enough(self, inv, qs, words0): return all(o in inv or words0[o] == () for o, _ in qs)

    def pretty(self, w):
        names = {}
        def p(x):
            if isq(x): return 'rest'
            return 'x'
        return ' '.join(show(x)[:90] for x in w)


# ---- models
QM = {}
def qreg(*n):
    def d(f):
        for x in n: QM[x] = f
        return f
    return d


def qsegs(I, st, a):
    o, p = I.deref(st, a); v = I.read(st, o, p)
    while v[0] == 'p': o, p = I.deref(st, v); v = I.read(st, o, p)
    if isq(v): return o, p, (v,)
    if v[0] == 'adt' and v[1] == VEC and any(isq(s) for s in v[3]): return o, p, v[3]
    return None


def qpop(back):
    def f(I, st, a, m, d):
        r = qsegs(I, st, a[0])
        if r is None: return NotImplemented
        o, p, segs = r
        x, segs = take(I, st, segs, back)
        I.write(st, o, p, mkvec(segs))
        return [(st, NONE if x is None else some(x))]
    return f


def take(I, st, segs, back):
    while segs:
        s = segs[-1 if back else 0]; rest = segs[:-1] if back else segs[1:]
        if s[:2] == ('adt', '@one'): return s[3][0], rest
        if not isq(s): raise Undecided('pop from an unknown part', I.at)
        x = I.split(st, s, back)
        if x is None: segs = rest; continue
        e, r = x
        return e, (rest + (r,) if back else (r,) + rest)
    return None, segs


QM['std::vec::Vec::pop'] = QM['std::collections::VecDeque::pop_back'] = qpop(True)
QM['std::collections::VecDeque::pop_front'] = qpop(False)
@qreg('std::vec::Vec::len', 'std::collections::VecDeque::len', 'core::slice::len')
def _(I, st, a, m, d):
    r = qsegs(I, st, a[0])
    n = r and I.segs_len(st, r[2])
    return NotImplemented if n is None else [(st, n)]
@qreg('std::vec::Vec::is_empty', 'std::collections::VecDeque::is_empty', 'core::slice::is_empty')
def _(I, st, a, m, d):
    r = qsegs(I, st, a[0])
    if r is None: return NotImplemented
    for s in r[2]:
        if s[:2] == ('adt', '@one'): return [(st, boolv(False))]
        if not isq(s): return NotImplemented
        if not I.truth(st, ('t', 'qempty', s)): return [(st, boolv(False))]
    return [(st, boolv(True))]
def qpeek(back):
    def f(I, st, a, m, d):
        r = qsegs(I, st, a[0])
        if r is None: return NotImplemented
        o, p, segs = r
        x, rest = take(I, st, segs, back)
        if x is None: return [(st, NONE)]
        I.write(st, o, p, mkvec(rest + (one(x),) if back else (one(x),) + rest))
        I.fid += 1; c = ('peek', I.fid); st.mem[c] = x
        return [(st, some(('p', c, ())))]
    return f
for _n in ('core::slice::', 'std::vec::Vec::', 'std::collections::VecDeque::'):
    for _m, _b in (('front', False), ('back', True), ('first', False), ('last', True)): QM[_n + _m] = qpeek(_b)
@qreg('std::vec::Vec::remove', 'std::collections::VecDeque::remove')
def _(I, st, a, m, d):
    r = qsegs(I, st, a[0])
    if r is None or a[1] != ('i', 0): return NotImplemented
    o, p, segs = r
    x, rest = take(I, st, segs, False)
    if x is None: return [(st, NONE)] if (d or {}).get('n') == OPT else []
    I.write(st, o, p, mkvec(rest))
    return [(st, some(x) if (d or {}).get('n') == OPT else x)]
@qreg('std::vec::Vec::append', 'std::collections::VecDeque::append')
def _(I, st, a, m, d):
    v = []
    for x in a[:2]:
        o, p = I.deref(st, x); w = I.read(st, o, p)
        if not isq(w) and (w[0] != 'adt' or w[1] != VEC): return NotImplemented
        v.append((o, p, vec_segs(w)))
    st = st.copy()
    I.write(st, v[0][0], v[0][1], mkvec(tuple(v[0][2]) + tuple(v[1][2]))); I.write(st, v[1][0], v[1][1], mkvec(()))
    return [(st, UNIT)]
@qreg('std::vec::Vec::drain', 'std::collections::VecDeque::drain')
def _(I, st, a, m, d):
    if a[1][0] != 'adt' or a[1][1] != 'std::ops::RangeFull': return NotImplemented
    st = st.copy(); o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    if not isq(v) and (v[0] != 'adt' or v[1] != VEC): return NotImplemented
    I.write(st, o, p, mkvec(())); return [(st, it(vec_segs(v)))]
@qreg('std::mem::take')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    if not isq(v) and (v[0] != 'adt' or v[1] != VEC): return NotImplemented
    st = st.copy(); I.write(st, o, p, mkvec(())); return [(st, v)]
@qreg('std::iter::Iterator::next')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    if not isit(v) or not v[3][0][3] or not any(isq(s) for s in v[3][0][3]): return NotImplemented
    if v[3][1] != ('t', 'adapt'): raise Undecided('adapted iterator over a queue', I.at)
    st = st.copy()
    x, rest = take(I, st, v[3][0][3], False)
    I.write(st, o, p, it(rest))
    return [(st, NONE if x is None else some(x))]
def with_queues(I):
    base = I.models.lookup
    def lookup(path, meta, II):
        g = base(path, meta, II)
        if not II.P.is_local(path, meta):
            f = QM.get(strip_generics((meta or {}).get('p') or path))
            if f is not None:
                def h(I, st, a, m, d):
                    r = f(I, st, a, m, d)
                    return g(I, st, a, m, d) if r is NotImplemented and g is not None else r
                return h
        return g
    I.models.lookup = lookup
