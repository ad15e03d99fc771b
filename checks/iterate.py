"""C09: iteration yields the in-order word of the tree; C08 (iterators): exact number of entries to come.

Invariant: word still to be yielded = W(state), where W reads the iterator's node pointers and stack:
a pointer p stands for inorder(p), a stack element n for  n, inorder(n.right).  inorder(null) is empty and
inorder(n) = inorder(n.left), n, inorder(n.right); facts about nullness unfold it.  Inner loops are havocked
under the same invariant, so every tree shape, stack depth and number of calls is covered."""
from base import *
from tree import Shape, isnode
from models import *
from hashing import guarded
from witness import shortfn
import itertools

TREE = 'rbtree::RbTree'
ITER = 'std::iter::Iterator'


def N(*x): return ('N', x)


class IDom:
    """node objects of one tree; nullness is a recorded fact, content is never changed"""
    def __init__(self, I): self.I = I; self.S = I.shape
    def is_tree(self, st, obj): return isnode(obj)
    def null(self, I, st, obj):
        if obj in st.mem or obj[1][0] == 'X': return False
        t = ('t', 'isnull', obj)
        return I.truth(st, t)
    def touch(self, I, st, obj):
        if obj in st.mem: return
        if obj[1][0] != 'X' and self.null(I, st, obj): raise Bad('null-deref', 'a null node pointer is followed', I.at, st)
        f = [('t', 'f', obj, i) for i in range(self.S.n)]
        f[self.S.K] = ('t', 'k', obj); f[self.S.V] = ('t', 'v', obj)
        f[self.S.L] = ('p', N('l', obj[1]), ()); f[self.S.R] = ('p', N('r', obj[1]), ())
        st.mem[obj] = ('adt', self.S.node, 0, tuple(f)); st.rw[obj] = 1
    def on_write(self, I, st, obj, path, val): raise Bad('write', 'a node of the tree is changed during iteration', I.at, st)
    def truth(self, I, st, v): return None
    def rel(self, I, st, a, b):
        for x, y, flip in ((a, b, 0), (b, a, 1)):
            if y == ('i', 0) and has_term(x, lambda t: t[:2] == ('t', 'stk')):
                if x[:2] == ('t', 'lin') and x[3] > 0: return '<' if flip else '>'
                if x[:2] == ('t', 'len') and x[2][:2] == ('t', 'stk'):
                    e = self.expose(I, st, x[2])
                    return '=' if e is None else '<' if flip else '>'
        return None
    def expose(self, I, st, s):
        """None if the stack part is empty, else (rest, node)"""
        if I.truth(st, ('t', 'isempty', s)): return None
        return (('t', 'stk', s), N('X', s))
    def pop(self, I, st, o, p, segs, back):
        if not back: raise Undecided('stack is popped at its bottom', I.at)
        while segs and segs[-1][:2] == ('t', 'stk'):
            e = self.expose(I, st, segs[-1])
            if e is None: segs = segs[:-1]; continue
            I.write(st, o, p, mkvec(segs[:-1] + (e[0],)))
            return [(st, some(('p', e[1], ())))]
        if not segs: I.write(st, o, p, mkvec(())); return [(st, NONE)]
        if segs[-1][:2] == ('adt', '@one'): I.write(st, o, p, mkvec(segs[:-1])); return [(st, some(segs[-1][3][0]))]
        return NotImplemented
    def comparator(self, st, callee, args): return None
    def drop_hook(self, I, st, v): return False
    def filter_variants(self, I, alts, v, t): return alts
    def eq(self, I, st, x, y): return None


IM = Models(); IM.t = dict(M.t); IM.suffix = dict(M.suffix)
def ireg(n):
    def d(f): IM.suffix[n] = f; return f
    return d
@ireg('core::slice::last')
def _(I, st, a, m, d):
    o, p = I.deref(st, a[0]); v = I.read(st, o, p)
    while v[0] == 'p': o, p = I.deref(st, v); v = I.read(st, o, p)
    segs = vec_segs(v)
    while segs and segs[-1][:2] == ('t', 'stk'):
        e = I.domain.expose(I, st, segs[-1])
        segs = segs[:-1] if e is None else segs[:-1] + (e[0], one(('p', e[1], ())))
    I.write(st, o, p, mkvec(segs))
    if not segs: return [(st, NONE)]
    x = segs[-1]
    if x[:2] != ('adt', '@one'): return NotImplemented
    I.fid += 1; q = ('lst', I.fid); st.mem[q] = x[3][0]
    return [(st, some(('p', q, ())))]
IM.suffix['std::vec::Vec::last'] = IM.suffix['core::slice::last']
IM.suffix['core::slice::last_mut'] = IM.suffix['core::slice::last']


class II(A):
    tpl = None          # {field path of the iterator object: meaning}
    def __init__(self, P):
        A.__init__(self, P)
        m = Models(); m.t = IM.t; m.suffix = IM.suffix
        base = M.lookup
        def lookup(path, meta, I):
            if not I.P.is_local(path, meta):
                q = strip_generics((meta or {}).get('p') or path)
                f = IM.suffix.get(q)
                if f is not None and q in ('core::slice::last', 'std::vec::Vec::last', 'core::slice::last_mut'): return f
            return base(path, meta, I)
        m.lookup = lookup
        self.models = m
        self.shape = Shape(P); self.domain = IDom(self); self.bads = None; self.undec = None
        self.recur = {}           # recursive function -> {'arg': i, 'nonnull': bool}
        self.sctr = 0
        self.loopnotes = []

    # ---- words: tuples of ('n', obj) | ('in', obj) | ('stk', term)
    def norm(self, st, w):
        out = []
        for a in w:
            if a[0] in ('in', 'vin'):
                o = a[1]
                if o == 'null': continue
                known = st.facts.get(('t', 'isnull', o)) if o not in st.mem and o[1][0] != 'X' else 0
                if known == 1: continue
                if known == 0 and a[0] == 'vin': out += self.norm(st, (('n', o), ('in', N('r', o[1]))))
                elif known == 0: out += self.norm(st, (('in', N('l', o[1])), ('n', o), ('in', N('r', o[1]))))
                else: out.append(a)
            elif a[0] == 'stk':
                e = st.facts.get(('t', 'isempty', a[1]))
                if e == 1: continue
                if e == 0:
                    x = N('X', a[1]); out += self.norm(st, (('n', x), ('in', N('r', x[1])), ('stk', ('t', 'stk', a[1]))))
                else: out.append(a)
            else: out.append(a)
        return tuple(out)

    def wptr(self, st, v, how='in'):
        while v[0] == 'adt' and v[1] in ('std::ptr::NonNull', OPT):
            if v[1] == OPT and v[2] == 0: return ()
            v = v[3][0]
        if v == NULL: return ()
        if v[0] == 'p' and isnode(v[1]) and not v[2]:
            if how == 'in': return (('in', v[1]),)
            return (('vin', v[1]),)
        raise Undecided('pointer %s not understood' % show(v), self.at)

    def wstack(self, st, v):
        out = ()
        for s in reversed(vec_segs(v)):
            if s[:2] == ('adt', '@one'):
                x = s[3][0]
                while x[0] == 'adt' and x[1] == 'std::ptr::NonNull': x = x[3][0]
                if x[0] != 'p' or not isnode(x[1]): raise Undecided('stack element %s' % show(x), self.at)
                o = x[1]
                nn = o in st.mem or o[1][0] == 'X' or st.facts.get(('t', 'isnull', o)) == 0
                if not nn:
                    if st.facts.get(('t', 'isnull', o)) == 1 or x == NULL: raise Bad('push-null', 'a null pointer is put on the stack', self.at, st)
                    raise Undecided('a possibly null pointer is put on the stack', self.at)
                out += (('n', o), ('in', N('r', o[1])))
            elif s[:2] == ('t', 'stk'): out += (('stk', s),)
            else: raise Undecided('stack content %s' % show(s), self.at)
        return out

    def isvec(self, v): return v[0] == 'adt' and v[1] == VEC or v[:2] == ('t', 'stk')

    # ---- loops
    def enter_loop(self, st, fr, head, body):
        run = lambda s: self.run(s, fr, head, stop=head, region=body)
        outs = run(st.copy())
        if not any(k == 'back' for s, k, v in outs): return self.outs(outs)
        live = None
        places = {}
        for rnd in range(8):
            g = self.havoc(st, places); g.x['G'] = None
            outs = run(g)
            grew = False
            for s, k, v in outs:
                if k != 'back': continue
                for o in list(st.mem):
                    if o not in s.mem or isnode(o): continue
                    if o[0] == 'L' and o[1] == fr.fid and not self.live(fr, head, o[2]): continue
                    for p, a, b in self.diff(g.mem[o], s.mem[o]):
                        if (o, p) in places: continue
                        for q in [q for q in places if q[0] == o and q[1][:len(p)] == p]: del places[q]
                        places[(o, p)] = 1; grew = True
            if not grew: break
        else: raise Undecided('loop state does not settle', self.at)
        P = [q for q in places if self.ptrish(self.get(st, q))]
        Sx = [q for q in places if self.isvec(self.get(st, q))]
        for q in places:
            v = self.get(st, q)
            if q not in P and q not in Sx and v[0] == 'adt' and v[1] not in (OPT,): raise Undecided('loop changes a value of type %s' % v[1], self.at)
        if len(Sx) > 1: raise Undecided('a loop works with two stacks', self.at)
        # places holding a stack that is not changed take part too
        if st.x.get('G') is None:
            g = self.havoc(st, places)
            return self.outs(run(g))
        G0 = self.norm(st, st.x['G'])
        fails = []
        others = [(o, p) for o in st.mem if not isnode(o) and (o[0] != 'L' or o[1] != fr.fid or self.live(fr, head, o[2])) for p, v in leaves(st.mem[o]) if (o, p) not in places and self.ptrish(v)]
        for cand in [[q] for q in P] + [[]] + [list(x) for x in itertools.permutations(P, 2)]:
            W = lambda s: sum((self.wptr(s, self.get(s, q)) for q in cand), ()) + sum((self.wstack(s, self.get(s, q)) for q in Sx), ())
            try:
                W0 = self.norm(st, W(st))
                at = find_sub(G0, W0)
                if at is None: fails.append((cand, None)); continue
                pre, post = G0[:at], G0[at + len(W0):]
                g = self.havoc(st, places)
                g.x['G'] = pre + W(g) + post
                outs = run(g)
                bad = None
                for s, k, v in outs:
                    if k != 'back': continue
                    want = self.norm(s, pre + W(s) + post); got = self.norm(s, s.x['G'])
                    if want != got: bad = (got, want); break
                if bad: fails.append((cand, bad)); continue
            except Bad as b:
                fails.append((cand, b)); continue
            except Undecided as u:
                if isinstance(u, Budget): raise
                fails.append((cand, u)); continue
            return self.outs(outs)
        real = [(c, f) for c, f in fails if f is not None]
        for c, f in real:
            if isinstance(f, Undecided): raise f
        if len(P) <= 1 and real:
            f = real[0][1]
            if isinstance(f, Bad): raise f
            raise Bad('loop', 'an iteration of this loop changes what is still to be yielded: %s instead of %s' % (wshow(f[1]), wshow(f[0])), self.at, st)
        raise Undecided('no invariant found for a loop', self.at)

    def outs(self, outs): return [(s, v[1]) if k == 'exit' else (s, 'ret') for s, k, v in outs if k != 'back']
    def live(self, fr, head, i):
        from treebase import liveness
        return i in liveness(self.P, fr.fn)[head]
    def get(self, st, q):
        v = st.mem[q[0]]
        for e in q[1]: v = v[3][e]
        return v
    def ptrish(self, v):
        if v == NULL or v[0] == 'p' and isnode(v[1]) and not v[2]: return True
        return v[0] == 'adt' and (v[1] == 'std::ptr::NonNull' and self.ptrish(v[3][0]))

    def diff(self, a, b, path=()):
        if a == b: return []
        if a[0] == 'adt' and b[0] == 'adt' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and a[1] not in (VEC, '@one'):
            return [x for i, (y, z) in enumerate(zip(a[3], b[3])) for x in self.diff(y, z, path + (i,))]
        return [(path, a, b)]

    def havoc(self, st, places):
        g = st.copy()
        for (o, p) in sorted(places, key=repr):
            v = self.get(g, (o, p)); self.sctr += 1
            if self.isvec(v): x = mkvec((('t', 'stk', self.sctr),))
            elif self.ptrish(v): x = ('p', N('Y', self.sctr), ())
            elif v[0] in ('i', 't'): x = ('t', 'hv', self.sctr)
            elif v == UNDEF: x = UNDEF
            elif v[0] == 'adt' and v[1] == OPT:
                raise Undecided('a loop changes an option', self.at)
            else: x = ('t', 'hv', self.sctr)
            g.mem[o] = putp_(g.mem[o], p, x)
        return g

    # ---- recursion
    def summary(self, st, path, args, meta, dty):
        h = self.recur.get(path)
        if h is None: raise Undecided('recursive function %s has no hypothesis' % path, self.at)
        a = args[h['arg']]
        if not self.ptrish(a): raise Undecided('recursive call with %s' % show(a), self.at)
        w = self.wptr(st, a)
        if h['nonnull'] and self.is_null(st, a): raise Bad('null-deref', 'visits a null node pointer', self.at, st)
        st = st.copy(); self.consume(st, w)
        return [(st, UNIT)]

    def consume(self, st, w):
        if st.x.get('G') is None: return
        w = self.norm(st, w); G = self.norm(st, st.x['G'])
        if G[:len(w)] != w: raise Bad('order', 'yields %s where %s comes next' % (wshow(w), wshow(G[:2]) if G else 'nothing'), self.at, st)
        st.x['G'] = G[len(w):]

    def call_opaque(self, st, callee, args, dty):
        o = [nodeof(self, st, a) for a in args]
        if len(args) == 1 and args[0][0] == 'adt': o = [nodeof(self, st, a) for a in args[0][3]]
        if len(o) == 2 and o[0] and o[1] and o[0][1] == 'k' and o[1][1] == 'v':
            if o[0][0] != o[1][0]: raise Bad('pair', 'the key of one entry is paired with the value of another', self.at, st)
            st = st.copy(); self.consume(st, (('n', o[0][0]),))
            return [(st, UNIT)]
        if any(o): raise Bad('args', 'the visitor is called with %s' % [x and x[1] for x in o], self.at, st)
        raise Undecided('call of a function value', self.at)


def putp_(v, p, x):
    if not p: return x
    fs = list(v[3]); fs[p[0]] = putp_(fs[p[0]], p[1:], x)
    return ('adt', v[1], v[2], tuple(fs))


def leaves(v, p=()):
    if v[0] == 'adt' and v[1] not in (VEC, '@one'):
        for i, x in enumerate(v[3]): yield from leaves(x, p + (i,))
    else: yield p, v


def find_sub(G, W):
    for i in range(len(G) - len(W) + 1):
        if G[i:i + len(W)] == W: return i
    return None


def wshow(w):
    def s(a):
        if a[0] == 'stk': return 'rest-of-stack'
        def nm(o):
            o = o[1] if isnode(o) else o
            return {'l': lambda: nm(o[1]) + '.left', 'r': lambda: nm(o[1]) + '.right', 'root': lambda: 'root', 'X': lambda: 'top', 'Y': lambda: 'n%s' % (o[1],), 'A': lambda: 'visit'}.get(o[0], lambda: str(o))()
        return nm(a[1]) if a[0] == 'n' else 'inorder(%s)' % nm(a[1])
    return '[' + ', '.join(s(a) for a in w) + ']'


def nodeof(I, st, v):
    """(node, 'k'|'v') when v refers to a key or value of a node"""
    n = 0
    while v[0] == 'p' and n < 5:
        if isnode(v[1]):
            if v[2] == (I.shape.K,): return (v[1], 'k')
            if v[2] == (I.shape.V,): return (v[1], 'v')
            if v[2]: return (v[1], 'f%s' % (v[2],))
            return (v[1], 'node')
        o, p = I.deref(st, v); v = I.read(st, o, p); n += 1
    if v[:2] in (('t', 'k'), ('t', 'v')): return (v[2], v[1])
    return None


# ------------------------------------------------------------------ drivers
def paths(I, fn, args, st):
    outs = []; wl = [st]
    while wl:
        s = wl.pop()
        try: outs += I.call_fn(s, fn, args)
        except Fork as f: wl += [I.replay(s, a) for a in f.alts]
        except Infeasible: pass
    return outs


def tree_arg(I, st, ty, name):
    """symbolic argument with its tree rooted at node ('root')"""
    S = I.shape
    def hook(st, t, nm):
        if t.get('n') == TREE:
            fs = I.P.adts[TREE]['variants'][0]['fields']
            return ('adt', TREE, 0, tuple(('p', N('root', ), ()) if f['ty']['k'] == 'ptr' else ('t', 'len') if f['ty']['k'] == 'int' else ('t', 'fld', i) for i, f in enumerate(fs)))
        return None
    I.symhook = hook
    return symval(I, st, ty, name)


def iterators(P):
    """local structs that implement Iterator and hold node pointers"""
    S = Shape(P); out = []
    def holds(t):
        if t.get('k') == 'ptr' or t.get('k') == 'ref': return t['t'].get('n') == S.node
        if t.get('k') == 'adt' and t['n'] in ('std::vec::Vec', 'std::collections::VecDeque', OPT, 'std::ptr::NonNull', VEC, 'smallvec::SmallVec'):
            return any(isinstance(x, dict) and (x.get('n') == S.node or holds(x)) for x in t.get('a', ()))
        return False
    for i in P.impls:
        if i['trait'] == ITER:
            n = i['self'].get('n'); ad = P.adts.get(n)
            if ad and ad.get('local') and ad['kind'] == 'struct':
                fs = ad['variants'][0]['fields']
                if any(holds(f['ty']) for f in fs): out.append((n, i, fs))
    return out, holds


def kindf(f, S):
    t = f['ty']
    if t['k'] in ('ptr', 'ref') and t['t'].get('n') == S.node: return 'ptr'
    if t['k'] == 'adt' and t['n'] in ('std::vec::Vec', VEC): return 'stack'
    if t['k'] == 'int': return 'int'
    if t['k'] == 'adt' and t['n'] == OPT: return 'opt'
    if t['k'] == 'adt' and t['n'].endswith('PhantomData'): return 'phantom'
    return '?'


def templates(kinds):
    ptrs = [i for i, k in enumerate(kinds) if k == 'ptr']; stk = [i for i, k in enumerate(kinds) if k == 'stack']
    opts = []
    for perm in itertools.permutations(ptrs):
        for hows in itertools.product(('in', 'none', 'visit'), repeat=len(perm)):
            opts.append(tuple((i, h) for i, h in zip(perm, hows) if h != 'none'))
    return [o + tuple((i, 'stack') for i in stk) for o in dict.fromkeys(opts)]


class Fail(Exception): pass


def word(I, st, v, tpl):
    w = ()
    for i, how in tpl:
        f = v[3][i]
        w += I.wstack(st, f) if how == 'stack' else I.wptr(st, f, how)
    return w


def symiter(I, st, n, fs, kinds):
    out = []
    for i, (f, k) in enumerate(zip(fs, kinds)):
        if k == 'ptr': out.append(('p', N('A', i), ()))
        elif k == 'stack': out.append(mkvec((('t', 'stk', 'in%d' % i),)))
        elif k == 'int': out.append(('t', 'int', i))
        else: out.append(('t', 'fld', i))
    return ('adt', n, 0, tuple(out))


def linf(t):
    """linear form of an integer term"""
    if t[0] == 'i': return ({}, t[1])
    if t[:2] == ('t', 'lin'):
        d, k = linf(t[2]); return d, k + t[3]
    if t[:2] == ('t', 'bin') and t[2] in ('Add', 'Sub'):
        a, ka = linf(t[3]); b, kb = linf(t[4]); sg = 1 if t[2] == 'Add' else -1
        d = dict(a)
        for x, c in b.items(): d[x] = d.get(x, 0) + sg * c
        return {x: c for x, c in d.items() if c}, ka + sg * kb
    return ({t: 1}, 0)


def analyse(P):
    """-> list of iterator reports: dict(name, order=[(key, status, what, where, detail)], size=[...], fns)"""
    its, holds = iterators(P)
    return [one_iter(P, n, im, fs) for n, im, fs in its]


def item(P, im, name):
    for x in im['items']:
        if x.endswith('::' + name): return x
    return None


def makers(P, n):
    out = []
    for f, d in P.fns.items():
        if '{' in f or not d.get('body'): continue
        ls = d['body']['locals']; b = d['body']
        if ls[0]['ty'].get('n') == n and any(over_tree(P, l['ty']) for l in ls[1:b['argc'] + 1]): out.append(f)
    return sorted(out)


def over_tree(P, t):
    while t.get('k') == 'ref': t = t['t']
    n = t.get('n')
    if n == TREE: return True
    ad = P.adts.get(n)
    return bool(ad and ad.get('local') and any(f['ty'].get('n') == TREE for v in ad['variants'] for f in v['fields']))


def one_iter(P, n, im, fs):
    S = Shape(P)
    kinds = [kindf(f, S) for f in fs]
    fns = set()
    res = dict(name=n, fns=fns, priv=[f['name'] for f in fs if (f.get('vis') == 'pub')])
    nxt = item(P, im, 'next'); sh = item(P, im, 'size_hint')
    mk = makers(P, n)
    short = n.rsplit('::', 1)[-1]
    res['makers'] = mk
    best = None
    for tpl in templates(kinds):
        o = attempt(P, n, fs, kinds, tpl, nxt, sh, mk, fns, short)
        nb = len({x[0] for x in o['order'] if x[1] == 'bad'}); nu = len({x[0] for x in o['order'] if x[1] == 'und'})
        score = (nb > 0, nb + nu, len(o['order']))
        if best is None or score < best[0]: best = (score, o)
        if score[1] == 0: break
    res.update(best[1])
    if '?' in kinds or 'opt' in kinds:       # representation outside the template family: a failure is not conclusive
        for l in ('order', 'size'): res[l] = [(k, 'und' if s == 'bad' else s, w, wh, d) for k, s, w, wh, d in res[l]]
    extra = [x for x in im['items'] if x.rsplit('::', 1)[-1] not in ('next', 'size_hint', 'Item')]
    for x in extra: res['order'].append((short + '::' + x.rsplit('::', 1)[-1], 'und', 'overridden iterator method', where(P, x), 'not analysed'))
    if sh is None: res['size'].append((short + '::size_hint', 'bad', 'the iterator reports the exact number of entries to come', where(P, nxt), 'size_hint is not implemented: (0, None) is reported'))
    return res


def size_of(I, P, sh, st, o):
    """terms reported by size_hint on the iterator object o"""
    out = []
    for s, v in paths(I, sh, [('p', o, ())], st):
        v = pure(I, s, v)
        if v[0] != 'adt' or len(v[3]) != 2: raise Undecided('size hint not understood: ' + show(v))
        out.append((s, v[3][0], v[3][1]))
    return out


def attempt(P, n, fs, kinds, tpl, nxt, sh, mk, fns, short):
    order = []; size = []
    def tried(lst, key, what, wh, f):
        try: r = f()
        except Undecided as u: lst.append((key, 'und', what, wh, '%s (at %s)' % (u.why, u.at)))
        except Bad as b: lst.append((key, 'bad', what, wh, '%s at %s' % (b.msg, b.at)))
    # construction
    sh_init = []
    for f in mk:
        def go(f=f):
            I = II(P); st = State(); fns_ = fns
            b = P.fns[f]['body']
            args = [tree_arg(I, st, l['ty'], ('t', 'arg', i)) for i, l in enumerate(b['locals'][1:b['argc'] + 1])]
            st.x['G'] = (('in', N('root')),)
            outs = paths(I, f, args, st); fns_ |= I.visited
            key = shortfn(f)
            for s, v in outs:
                if v[0] != 'adt' or v[1] != n: raise Undecided('iterator value not recognised')
                w = I.norm(s, word(I, s, v, tpl)); want = I.norm(s, s.x['G'])
                order.append((key, 'ok' if w == want else 'bad', 'a new iterator has all entries in order before it', where(P, f), None if w == want else 'starts with %s' % wshow(w)))
                if sh:
                    s = s.copy(); o = ('it0',); s.mem[o] = v
                    for s2, a, bb in size_of(I, P, sh, s, o):
                        ok = a == ('t', 'len') and bb == some(('t', 'len'))
                        empty = s2.facts.get(('t', 'isnull', N('root'))) == 1 and a == ('i', 0) and bb == some(('i', 0))
                        ok = ok or empty
                        size.append((key, 'ok' if ok else 'bad', 'a new iterator reports the number of entries of the map', where(P, f), None if ok else 'reports (%s, %s)' % (show(a), show(bb))))
        G = []
        def guard(f=f, go=go):
            go()
        tried(order, shortfn(f), 'a new iterator has all entries in order before it', where(P, f), guard)
    # step
    def step():
        I = II(P); st = State(); o = ('iter',)
        st.mem[o] = symiter(I, st, n, fs, kinds)
        v0 = st.mem[o]
        st.x['G'] = W0 = word(I, st, v0, tpl)
        outs = paths(I, nxt, [('p', o, ())], st)
        fns.update(I.visited)
        key = short + '::next'
        some_ = none_ = 0
        for s, v in outs:
            v1 = s.mem[o]
            post = I.norm(s, word(I, s, v1, tpl))
            if v[0] != 'adt' or v[1] != OPT: raise Undecided('result of next: ' + show(v))
            # the count kept by the iterator bounds what is left (it is exact: C08)
            known = I.norm(s, s.x['G']); nn = sum(a[0] == 'n' for a in known); bound = None
            if sh:
                sp = s.copy(); sp.mem[('pre',)] = v0
                for s1, a0, b0 in size_of(I, P, sh, sp, ('pre',)):
                    if a0[0] == 'i' or b0 != some(a0): continue
                    if s.rel(a0, ('i', 0)) == {'='}: bound = 0
                    elif s.rel(a0, ('i', 1)) <= {'<', '='}: bound = 1
            gone = ()
            if bound is not None:
                if nn > bound: continue
                if nn == bound: gone = tuple(a for a in known if a[0] != 'n')
            drop = lambda w: tuple(a for a in w if a not in gone)
            post = drop(post)
            ok_ = 'dep' if gone else 'ok'
            if v[2] == 0:
                none_ += 1
                G = drop(I.norm(s, s.x['G']))
                if G: order.append((key + ':end', 'bad', 'the iterator ends only after the last entry', where(P, nxt), 'returns None with %s left' % wshow(G)))
                else: order.append((key + ':end', ok_, 'the iterator ends only after the last entry', where(P, nxt), None))
                order.append((key + ':stays', ok_ if not post else 'bad', 'past the end it stays ended', where(P, nxt), None if not post else 'would go on with %s' % wshow(post)))
                delta = 0
            else:
                some_ += 1
                x = v[3][0]
                pr = [nodeof(I, s, y) for y in x[3]] if x[0] == 'adt' else [nodeof(I, s, x)]
                if not all(pr): raise Undecided('yielded item: ' + show(x))
                bad = None
                if len(pr) == 2 and pr[0][0] != pr[1][0]: bad = 'key and value of different entries'
                elif [p[1] for p in pr] not in (['k', 'v'], ['k'], ['v']): bad = 'yields %s' % [p[1] for p in pr]
                if not bad:
                    try: I.consume(s, (('n', pr[0][0]),))
                    except Bad as b: bad = b.msg
                order.append((key + ':order', 'bad' if bad else 'ok', 'the next entry in key order is yielded', where(P, nxt), bad))
                if not bad:
                    G = drop(I.norm(s, s.x['G']))
                    order.append((key + ':rest', ok_ if G == post else 'bad', 'exactly the entries after it remain', where(P, nxt), None if G == post else 'remaining are %s, should be %s' % (wshow(post), wshow(G))))
                delta = 1
            if sh:
                s0 = s.copy(); s0.mem[('pre',)] = v0
                for s1, a0, b0 in size_of(I, P, sh, s0, ('pre',)):
                    for s2, a1, b1 in size_of(I, P, sh, s1, o):
                        ok = True; why = None
                        if b0 != some(a0) or b1 != some(a1): ok = False; why = 'bounds differ: (%s, %s)' % (show(a1), show(b1))
                        else:
                            d0, k0 = linf(a0); d1, k1 = linf(a1)
                            if delta == 0 and d1 == {} and k1 == 0: ok = True     # nothing left
                            elif d0 != d1:
                                if any(has_term(x, lambda t: t[:2] == ('t', 'hv')) for x in d1): raise Undecided('count after a loop: ' + show(a1))
                                ok = False; why = 'reports %s before and %s after' % (show(a0), show(a1))
                            elif k0 - k1 != delta: ok = False; why = 'the count changes by %d while %d entries are yielded' % (k1 - k0, delta)
                        size.append((short + '::size_hint:%d' % delta, 'ok' if ok else 'bad', 'the reported number of entries falls by one per entry and not past the end', where(P, sh), why))
        if not none_: order.append((key + ':end', 'bad', 'the iterator ends', where(P, nxt), 'never returns None'))
        if not some_: order.append((key + ':order', 'bad', 'the iterator yields entries', where(P, nxt), 'never yields'))
    tried(order, short + '::next', 'the next entry in key order is yielded', where(P, nxt), step)
    exact = not any(x[1] != 'ok' for x in size)
    order[:] = [(k, st if st != 'dep' else 'ok' if exact else 'bad', w, wh, d if st != 'dep' or exact else 'relies on the count of remaining entries, which is not exact') for k, st, w, wh, d in order]
    return dict(order=order, size=size, tpl=tpl)


def c09(rep, ctx):
    P = ctx.prog()
    rep.rule.append('For every iterator over the tree: the word still to be yielded is read off its state (a node pointer stands for its in-order subtree, a stacked node for itself followed by its right subtree). '
                    'A new iterator must represent the whole tree; one call of next, from an arbitrary state, must yield the first entry of the word and leave the rest, or return None exactly when nothing is left. Inner loops are treated by the same invariant. '
                    'Recursive visitors are verified by induction on the tree: visit(n) must call the closure on inorder(n).')
    rep.assume += ['the tree is a search tree with in-order content in ascending key order (C06)', 'models of the standard library']
    res = analyse(P)
    S = Shape(P)
    rep.floor('iterators over the tree', len(res), 1)
    for r in res:
        rep.fns |= r['fns']
        emit(rep, r['order'])
        rep.floor('constructors of ' + r['name'], len(r['makers']), 1)
        for f in r['priv']: rep.bad('private:' + f, 'iterator state is private', r['name'], 'field %s is public' % f)
    # public ways to iterate
    n = 0
    names = {r['name'] for r in res}
    for f, d in sorted(P.fns.items()):
        if '{' in f or not d.get('body') or not d.get('vis_pub'): continue
        b = d['body']; ls = b['locals']
        if not any(over_tree(P, l['ty']) for l in ls[1:b['argc'] + 1]): continue
        rt = ls[0]['ty']
        if rt.get('n') in names: n += 1; continue
        if any(i['trait'] == ITER and i['self'].get('n') == rt.get('n') and rt.get('n') for i in P.impls): rep.undecided('public:' + shortfn(f), 'iterator type is analysed', where(P, f), rt.get('s'))
    rep.floor('public functions returning a tree iterator', n, 2)
    for f in sorted(P.fns):
        if f.endswith('::for_each') and '{' not in f and P.fns[f].get('vis_pub') and P.fns[f].get('body') and over_tree(P, P.fns[f]['body']['locals'][1]['ty']):
            guarded(rep, shortfn(f), 'for_each visits every entry once in order', where(P, f), lambda f=f: foreach(rep, P, f))
            n += 1
    rep.expect('rbtree::RbTree::<K, V>::for_each' in P.fns, 'anchor:for_each', 'RbTree::for_each exists')


def emit(rep, lst):
    seen = {}
    for k, s, w, wh, d in lst:
        {'ok': rep.ok, 'bad': rep.bad, 'und': rep.undecided}[s](k, w, wh, d)


def foreach(rep, P, f):
    # recursive visitors reachable from f
    rec = {}
    for g in P.reach(f) if hasattr(P, 'reach') else reach(P, f):
        if P.recursive(g):
            b = P.fns[g]['body']
            idx = [i for i, l in enumerate(b['locals'][1:b['argc'] + 1]) if l['ty']['k'] == 'ptr' and l['ty']['t'].get('n') == Shape(P).node]
            if len(idx) == 1: rec[g] = dict(arg=idx[0], nonnull=False)
    for g, h in rec.items():
        for nn in (False, True):
            h['nonnull'] = nn
            I = II(P); I.recur = dict(rec); st = State()
            b = P.fns[g]['body']
            def args(st):
                return [('p', N('A', 0), ()) if i == h['arg'] else symval(I, st, l['ty'], ('t', 'arg', i)) for i, l in enumerate(b['locals'][1:b['argc'] + 1])]
            if nn: st.facts[('t', 'isnull', N('A', 0))] = 0
            a = args(st)
            st.x['G'] = (('in', N('A', 0)),)
            try:
                outs = paths(I, g, a, st)
                rep.fns |= I.visited
                for s, v in outs:
                    G = I.norm(s, s.x['G'])
                    rep.expect(not G, shortfn(g), 'visiting a node visits its subtree in order', where(P, g), 'not visited: %s' % wshow(G))
                rep.expect(bool(outs), shortfn(g), 'visiting a node returns', where(P, g))
                break
            except Bad as x:
                if x.rule == 'null-deref' and not nn: continue
                raise
    I = II(P); I.recur = rec; st = State()
    b = P.fns[f]['body']
    a = [tree_arg(I, st, l['ty'], ('t', 'arg', i)) for i, l in enumerate(b['locals'][1:b['argc'] + 1])]
    st.x['G'] = (('in', N('root')),)
    outs = paths(I, f, a, st)
    rep.fns |= I.visited
    for s, v in outs:
        G = I.norm(s, s.x['G'])
        rep.expect(not G, shortfn(f), 'for_each visits every entry once in order', where(P, f), 'not visited: %s' % wshow(G))
    rep.expect(bool(outs), shortfn(f), 'for_each returns', where(P, f))


def reach(P, f):
    seen = set(); wl = [f]
    while wl:
        g = wl.pop()
        if g in seen or g not in P.fns: continue
        seen.add(g)
        wl += list(P.callees(g)) if hasattr(P, 'callees') else []
    return seen


def c08_iter(rep, P):
    for r in analyse(P):
        rep.fns |= r['fns']
        emit(rep, r['size'])
        if not [x for x in r['size']]: rep.undecided(r['name'] + ':size', 'iterators report the exact number', r['name'], 'not derived')
        for k, s, w, wh, d in r['order']:
            if s == 'und' and k.endswith('::next'): rep.undecided(k + ':count', 'iterators report the exact number', wh, d)
