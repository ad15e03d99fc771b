"""Abstract domain for operations that restructure the search tree.

A subtree that was not looked into is one symbolic object carrying: the set of
balanced shapes it may have (empty / red root / black root with or without a
red left child), its black height as an offset from one unknown n, whether
its stored hashes are up to date, and its in-order *content* as a word over
pre-state pieces.  Dereferencing unfolds a node; recursive functions and loops
are analysed once per abstract argument pattern and summarised by what they
do to content, shape, hashes and node ownership (least fixpoint).  A summary
is therefore valid for trees of every size.
"""
from core import *
from models import BY, sha, sep, viewval
from tree import isnode, nodes_in, Shape, EMPTYH, forkh

INF = None
T0 = ('N', ('T',))
EOBJ = ('N', ('E',))
MIX = ('0', '2', '3')


def K(o): return ('t', 'k', o)
def V(o): return ('t', 'v', o)


def fz(x): return tuple(sorted(x))


class ShapeDomain:
    DEPTH = 4

    def __init__(self, I, q=None, hasE=None):
        self.I = I; self.P = I.P; self.S = I.shape; self.q = q; self.hasE0 = hasE
        if self.S.C is None or self.S.RED is None or self.S.BLACK is None: raise Undecided('node colours not recognised')
        self.table = {}; self.deps = {}; self.runners = {}; self.dirty = []; self.solving = False; self.cur = None
        self.iters = 0; self.issues = {}; self.wrong = {}; self.configs = 0
        self.RED = ('adt', self.S.colty, self.S.RED, ()); self.BLACK = ('adt', self.S.colty, self.S.BLACK, ())

    # ------------------------------------------------------------ objects
    def is_tree(self, st, obj): return isnode(obj)
    def kid(self, obj, side): return ('N', (side, obj[1]))
    def issel(self, obj): return obj[1][0] in ('sel', 'E')

    def stub(self, obj):
        f = [('t', 'f', obj, i) for i in range(self.S.n)]
        f[self.S.K] = K(obj); f[self.S.V] = V(obj)
        f[self.S.L] = f[self.S.R] = ('p', ('N', ('nokid', obj[1])), ())
        return ('adt', self.S.node, 0, tuple(f))

    def node(self, k, v, l, r, c, h):
        f = [UNDEF] * self.S.n
        f[self.S.K] = k; f[self.S.V] = v; f[self.S.L] = l; f[self.S.R] = r; f[self.S.C] = c; f[self.S.H] = h
        return ('adt', self.S.node, 0, tuple(f))

    def newnode(self, I, st, v):
        I.fid += 1
        o = ('N', ('new', I.fid)); st.mem[o] = v
        st.tree['new'] = st.tree.get('new', ()) + (o,)
        return o

    def init_tree(self, st, obj, types=MIX, hf='f', n=(0, INF)):
        st.tree[obj] = (frozenset(types), 0, hf)
        st.tree['n'] = n; st.tree['seq'] = (('c', obj),); st.tree['hasE'] = self.hasE0; st.tree['base'] = '?'

    # ------------------------------------------------------------ shapes
    def types(self, st, obj):
        t, off, hf = st.tree[obj]
        lo, hi = st.tree['n']
        if lo + off > 0: t = t - {'0'}
        if hi is not None and hi + off <= 0: t = t - {'2', '3'}
        if hi is not None and hi + off < 0: raise Infeasible()
        if not t: raise Infeasible()
        return t

    def setn(self, st, lo=None, hi=None):
        a, b = st.tree['n']
        if lo is not None: a = max(a, lo)
        if hi is not None: b = hi if b is None else min(b, hi)
        if b is not None and a > b: raise Infeasible()
        st.tree['n'] = (a, b)

    def narrow(self, st, obj, types):
        t, off, hf = st.tree[obj]
        t = self.types(st, obj) & frozenset(types)
        if not t: raise Infeasible()
        st.tree[obj] = (t, off, hf)
        if t == {'0'}: self.setn(st, hi=-off, lo=-off)
        elif not t & {'0', 'R'}: self.setn(st, lo=1 - off)
        if t == {'0'}: self.feasible(st)

    def info(self, I, st, obj):
        if obj in st.dead: raise Undecided('use of a node pointer that was handed to another function', I.at)
        i = st.tree.get(obj)
        if i is None or not isinstance(i, tuple): raise Undecided('access to a tree node outside the analysed part', I.at)
        return i

    def null(self, I, st, obj):
        if obj in st.mem or self.issel(obj): return False
        if obj[1][0] == 'nokid': raise Undecided('child of a node inside an unexplored subtree', I.at)
        if obj in st.freed: return False
        self.info(I, st, obj)
        t = self.types(st, obj)
        if '0' not in t: return False
        if t == {'0'}: return True
        alts = []
        for ts in (('0',), t - {'0'}):
            s = st.copy()
            try: self.narrow(s, obj, ts)
            except Infeasible: continue
            s.note('empty subtree' if ts == ('0',) else 'non-empty subtree'); alts.append(s)
        if not alts: raise Infeasible()
        raise Fork(alts)

    def need_nonnull(self, I, st, obj):
        if self.null(I, st, obj): raise Bad('null-deref', 'dereference of a null node pointer', I.at, st)

    def decide(self, I, st, obj, groups):
        """narrow to one of the type groups"""
        t = self.types(st, obj)
        for g in groups:
            if t <= frozenset(g): return g
        alts = []
        for g in groups:
            s = st.copy()
            try: self.narrow(s, obj, g)
            except Infeasible: continue
            s.note('subtree is ' + '/'.join(sorted(g))); alts.append(s)
        if not alts: raise Infeasible()
        if len(alts) == 1:
            st.tree = alts[0].tree; return self.decide(I, st, obj, groups)
        raise Fork(alts)

    def stored(self, st, obj):
        hf = st.tree[obj][2]
        return ('t', 'HT' if hf == 'f' else 'STALE', obj)

    def lazy_field(self, st, obj, path):
        if obj in st.mem or not isnode(obj) or self.issel(obj) or len(path) != 1 or obj in st.freed: return None
        if obj not in st.tree or obj in st.dead: return None
        if path[0] == self.S.H:
            self.need_nonnull(self.I, st, obj); return self.stored(st, obj)
        if path[0] == self.S.C:
            self.need_nonnull(self.I, st, obj)
            g = self.decide(self.I, st, obj, (('R',), ('2', '3')))
            return self.RED if g == ('R',) else self.BLACK
        return None

    def touch(self, I, st, obj):
        if obj in st.mem: return
        if self.issel(obj):
            st.mem[obj] = self.stub(obj); return
        if obj[1][0] == 'nokid': raise Undecided('child of a node inside an unexplored subtree', I.at)
        self.info(I, st, obj)
        self.need_nonnull(I, st, obj)
        g = self.decide(I, st, obj, (('R',), ('2',), ('3',)))
        t, off, hf = st.tree[obj]
        l, r = self.kid(obj, 'l'), self.kid(obj, 'r')
        ko = off if g == ('R',) else off - 1
        self.configs += 1
        lh, rh = {'f': ('f', 'f'), 'rs': ('f', 'f'), 'sf': ('sf', 'f'), 'sx': ('sx', 'sx')}[hf]
        lt = frozenset(('R',) if g == ('3',) else MIX)
        st.tree[l] = (lt, ko, lh); st.tree[r] = (frozenset(MIX), ko, rh)
        ov = ('N', ('sel', obj[1], 'first'))
        key, val = K(obj), V(obj)
        if ov in st.mem and self.overlaid(st, ov):
            # the first entry below obj was overwritten: push that down
            if self.null(I, st, l):
                f = st.mem[ov][3]; key, val = f[self.S.K], f[self.S.V]; self.rename(st, ov, obj)
            else:
                nv = ('N', ('sel', l[1], 'first'))
                f = st.mem[ov][3]; s = self.stub(nv); st.mem[nv] = s
                self.rename(st, ov, nv)
                # the pre-state first entry of obj is the one of its left subtree
                st.mem[nv] = self.node_set(s, self.S.K, f[self.S.K]); st.mem[nv] = self.node_set(st.mem[nv], self.S.V, f[self.S.V])
        st.mem[obj] = self.node(key, val, ('p', l, ()), ('p', r, ()), self.RED if g == ('R',) else self.BLACK, self.stored(st, obj))
        st.rw[obj] = 1
        st.tree[('om', obj)] = (st.mem[obj], 'f' if hf == 'f' else 's', g[0])
        seq = st.tree['seq']
        if ('c', obj) in seq:
            i = seq.index(('c', obj))
            st.tree['seq'] = seq[:i] + (('c', l), ('e', obj), ('c', r)) + seq[i + 1:]
            st.tree[('pre', obj)] = True
        else:
            st.tree['eqs'] = st.tree.get('eqs', ()) + (((('c', l), ('e', K(obj), V(obj)), ('c', r)), (('c', obj),)),)
        raise Fork([st])

    def node_set(self, v, i, x):
        f = list(v[3]); f[i] = x; return (v[0], v[1], v[2], tuple(f))

    def overlaid(self, st, sel):
        f = st.mem[sel][3]
        return f[self.S.K] != K(sel) or f[self.S.V] != V(sel)

    def rename(self, st, a, b):
        """the same node under another name"""
        def go(v):
            if isinstance(v, tuple):
                if v[:1] in (('p',), ('bx',)) and len(v) > 1 and v[1] == a: return (v[0], b) + v[2:]
                return tuple(go(x) for x in v)
            return v
        for o in list(st.mem):
            if o == a: continue
            v = st.mem[o]; w = go(v)
            if w != v: st.mem[o] = w; st.rw[o] = 1
        if self.issel(a): st.mem[a] = self.stub(a); st.rw[a] = 1

    def on_write(self, I, st, obj, path, val):
        if obj in st.dead: raise Undecided('write through a stale node pointer', I.at)
        if self.issel(obj):
            if not path or path[0] not in (self.S.K, self.S.V): raise Undecided('write to a node inside an unexplored subtree', I.at)
            if obj[1][0] == 'sel' and obj[1][2] == 'first':
                x = ('N', obj[1][1])
                if x not in st.tree or x in st.mem: raise Undecided('write through a stale node pointer', I.at)
                t, off, hf = st.tree[x]
                st.tree[x] = (t, off, 'sf' if hf == 'f' else hf)
                return
            if obj == EOBJ: st.tree['Ew'] = True; return
            raise Undecided('write to a node inside an unexplored subtree %r' % (obj,), I.at)

    # ------------------------------------------------------------ order
    def positions(self, st):
        seq = st.tree['seq']; base = st.tree['base']
        n = len(seq); pos = [base] * n
        g = False
        for i, it in enumerate(seq):
            if g and pos[i] == '?': pos[i] = 'G'
            if it[0] == 'e':
                r = st.tree.get(('rel', it[1]))
                if r: pos[i] = {'<': 'L', '>': 'G', '=': '='}[r]
                if r in ('>', '='): g = True
        l = False
        for i in range(n - 1, -1, -1):
            it = seq[i]
            if l and pos[i] == '?': pos[i] = 'L'
            if it[0] == 'e' and st.tree.get(('rel', it[1])) in ('<', '='): l = True
        return pos

    def feasible(self, st):
        if st.tree.get('hasE') is not True or st.tree['base'] != '?': return
        for it, p in zip(st.tree['seq'], self.positions(st)):
            if p == '=': return
            if p == '?' and (it[0] == 'e' or it[1] in st.mem or '0' not in st.tree[it[1]][0] or len(self.types(st, it[1])) > 1): return
        raise Infeasible()

    def known_null(self, st, obj):
        if obj in st.mem or obj not in st.tree: return False
        return self.types(st, obj) == {'0'}

    def itempos(self, st, it, pm=None):
        """position of a content item relative to the query: L G = ?T ?F ?U -"""
        if it[0] == 'c' or it[0] in ('df', 'dl'):
            seq = st.tree['seq']
            if it[0] == 'c' and it not in seq or it[0] != 'c' and ('c', it[1]) not in seq:
                for parts, cont in st.tree.get('eqs', ()):
                    if it in parts:
                        p = self.listpos(st, cont)
                        return p if p in ('L', 'G') or len([x for x in parts if not (x[0] == 'c' and self.known_null(st, x[1]))]) == 1 else '?U'
                return '?U'
            p = self.positions(st)[seq.index(('c', it[1]))]
            if p != '?': return p
            others = [x for x, y in zip(seq, self.positions(st)) if y == '?' and x != ('c', it[1]) and not (x[0] == 'c' and self.known_null(st, x[1]))]
            h = st.tree['hasE']
            if h is False or any(y == '=' for y in self.positions(st)): return '?F'
            if others: return '?P'
            return '?T' if h else '?U'
        if it[0] == 'e': return self.keypos(st, it[1])
        if it[0] == 'm': return '?F' if it[1][0] == 'dE' else '?T'
        return '?U'

    def keypos(self, st, k):
        if k == self.q: return '='
        if k[:2] == ('t', 'k'):
            a = k[2]
            if a == EOBJ: return '='
            if ('rel', a) in st.tree: return {'<': 'L', '>': 'G', '=': '='}[st.tree[('rel', a)]]
            seq = st.tree['seq']
            if ('e', a) in seq:
                p = self.positions(st)[seq.index(('e', a))]
                if p != '?': return p
                return '?e'
            if a[1][0] == 'sel':
                p = self.itempos(st, ('c', ('N', a[1][1])))
                return p if p in 'LG' else '?U'
            for parts, cont in st.tree.get('eqs', ()):
                if any(x[0] == 'e' and x[1] == k for x in parts):
                    p = self.listpos(st, cont); return p if p in ('L', 'G') else '?U'
        return '?U'

    def listpos(self, st, items):
        ps = [(it, self.itempos(st, it)) for it in items]
        kinds = [p for _, p in ps]
        if not kinds: return '?F'
        if all(p == 'L' for p in kinds): return 'L'
        if all(p == 'G' for p in kinds): return 'G'
        stage = 0
        for p in kinds:
            s = 0 if p == 'L' else 2 if p == 'G' else 1
            if s < stage: return 'X'
            stage = s
        mid = [(it, p) for it, p in ps if p not in ('L', 'G')]
        if not mid: return '?F'
        if any(p in ('=', '?T') for _, p in mid): return '?T'
        if all(p == '?F' for _, p in mid): return '?F'
        # part of the pre-state run that contains the query position
        run = [x for x, y in zip(st.tree['seq'], self.positions(st)) if y == '?' and not (x[0] == 'c' and self.known_null(st, x[1]))]
        got = []
        for it, p in mid:
            if p == '?F': continue
            if it[0] == 'c' and it in st.tree['seq']: got.append(it)
            elif it[0] == 'e' and it[1][:2] == ('t', 'k') and ('e', it[1][2]) in st.tree['seq']: got.append(('e', it[1][2]))
            else: return '?U'
        if [x for x in got if not (x[0] == 'c' and self.known_null(st, x[1]))] == run:
            return {True: '?T', False: '?F', None: '?U'}[st.tree['hasE']]
        return '?U'

    def rel(self, I, st, a, b):
        if self.q is None: return None
        if a == self.q and b == self.q: return '='
        if a == self.q: return FLIP[self.rel_qk(I, st, b)]
        if b == self.q: return self.rel_qk(I, st, a)
        if a == b: return '='
        if any(x[:2] == ('t', 'k') for x in (a, b)): raise Undecided('comparison of a key with an unrelated term', I.at)
        return None

    def rel_qk(self, I, st, k):
        """relation of key k to the query"""
        p = self.keypos(st, k)
        if p in ('L', 'G', '='): return {'L': '<', 'G': '>', '=': '='}[p]
        if p != '?e': raise Undecided('comparison of the query with a key of unknown position', I.at)
        a = k[2]
        alts = []
        for r in '<=>':
            s = st.copy()
            if r == '=':
                if st.tree['hasE'] is False or any(x == '=' for x in self.positions(st)): continue
                s.tree['hasE'] = True
            s.tree[('rel', a)] = r
            try: self.feasible(s)
            except Infeasible: continue
            s.note('query %s this key' % {'<': '>', '=': '=', '>': '<'}[r]); alts.append(s)
        if not alts: raise Infeasible()
        if len(alts) == 1:
            st.tree = alts[0].tree; return st.tree[('rel', a)]
        raise Fork(alts)

    # ------------------------------------------------------------ interface used by the interpreter
    def truth(self, I, st, v): return None
    def eq(self, I, st, x, y):
        for a, b in ((x, y), (y, x)):
            while a[:2] == ('t', 'by') and len(a) == 3: a = a[2]
            if a[:1] == ('t',) and a[1:2] in (('HT',), ('STALE',), ('sha',)) and (b[0] == 'b' or b[:2] == ('t', 'repeat') or b[:2] == ('adt', '[]') and all(z[:1] == ('i',) for z in b[3])): return False   # a digest is no fixed constant
        return None

    def same_node(self, I, st, a, b):
        """may a pointer handed to a call be the node the call returned?  Forks; on the equal branch the two names are unified."""
        for d, n in ((a, b), (b, a)):
            if d[1] in st.dead and d[1] in st.x.get(('cons', n[1]), ()):
                f = ('t', 'pred', 'ptreq', d, n)
                if st.facts.get(f) == 0: return
                s = st.copy()
                def sub(v):
                    if not isinstance(v, tuple): return v
                    if v[:1] == ('p',) and len(v) == 3 and v[1] == d[1]: return ('p', n[1], v[2])
                    return tuple(sub(x) for x in v)
                for o in list(s.mem):
                    w = sub(s.mem[o])
                    if w != s.mem[o]: s.mem[o] = w; s.rw[o] = True
                s.note('the call returned the node it was given')
                s2 = st.copy(); s2.facts[f] = 0; s2.note('the call returned another node')
                raise Fork([s, s2])
    def pop(self, I, st, o, p, segs, back): raise Undecided('pop from an unknown sequence', I.at)
    def filter_variants(self, I, alts, v, t): return alts
    def comparator(self, st, callee, args): return None

    def drop_hook(self, I, st, v): return False

    def forget(self, I, st, v):
        if st.tree.get('bitcopy'): return
        if has_term(v, lambda x: x[:2] in (('t', 'k'), ('t', 'v')) or isnode(x) or x == self.q):
            raise Bad('leak', 'a key, value or node of the tree is forgotten and never dropped', I.at, st)

    def bitcopy(self, I, st, v): st.tree['bitcopy'] = True

    # ------------------------------------------------------------ content
    def cont(self, st, obj, seen=()):
        """in-order content below a node, as items"""
        if obj in seen: return (('?', 'cycle'),)
        if obj in st.freed: return (('?', 'freed'),)
        if obj in st.dead: return (('?', 'dead'),)
        if obj in st.mem and not self.issel(obj):
            f = st.mem[obj][3]
            out = ()
            for side, i in (('l', self.S.L), ('r', self.S.R)):
                p = f[i]
                if p == NULL: c = ()
                elif p[0] == 'p' and isnode(p[1]) and not p[2]: c = self.cont(st, p[1], seen + (obj,))
                else: c = (('?', 'child'),)
                out = out + c if side == 'r' else c + (('e', f[self.S.K], f[self.S.V]),)
            return out
        if self.issel(obj) or obj not in st.tree: return (('?', 'outside'),)
        if self.known_null(st, obj): return ()
        ov = ('N', ('sel', obj[1], 'first'))
        if ov in st.mem and self.overlaid(st, ov):
            f = st.mem[ov][3]
            return (('e', f[self.S.K], f[self.S.V]), ('df', obj))
        return (('c', obj),)

    def canonE(self, st, v):
        """the entry equal to the query under one name"""
        if not isinstance(v, tuple): return v
        if isnode(v):
            if st.tree.get(('rel', v)) == '=' : return EOBJ
            return v
        return tuple(self.canonE(st, x) for x in v)

    def norm(self, st, items, depth=0):
        its = []
        for it in items: its += self.expand(st, it, depth)
        its = [self.canonE(st, i) for i in its]
        # recombine pieces of subtrees that came out of calls
        eqs = []
        for parts, cont in st.tree.get('eqs', ()):
            ps = [self.canonE(st, p) for p in parts if not (p[0] == 'c' and self.known_null(st, p[1]))]
            eqs.append((ps, [self.canonE(st, c) for c in cont]))
        ch = True; rounds = 0
        while ch and rounds < 40:
            ch = False; rounds += 1
            for ps, cont in eqs:
                if ps:
                    for i in range(len(its) - len(ps) + 1):
                        if its[i:i + len(ps)] == ps and ps != cont:
                            rep = []
                            for c in cont: rep += self.expand(st, c, depth)
                            its[i:i + len(ps)] = [self.canonE(st, c) for c in rep]; ch = True; break
            for i in range(len(its) - 1):
                a, b = its[i], its[i + 1]
                if a[0] == 'e' and b[0] == 'df' and a == self.canonE(st, ('e', K(('N', ('sel', b[1][1], 'first'))), V(('N', ('sel', b[1][1], 'first'))))):
                    its[i:i + 2] = [('c', b[1])]; ch = True; break
                if b[0] == 'e' and a[0] == 'dl' and b == ('e', K(('N', ('sel', a[1][1], 'last'))), V(('N', ('sel', a[1][1], 'last')))):
                    its[i:i + 2] = [('c', a[1])]; ch = True; break
        for ps, cont in eqs:
            if not ps and cont:
                c2 = [self.canonE(st, c) for c in cont]
                for i in range(len(its) - len(c2) + 1):
                    if its[i:i + len(c2)] == c2: its[i:i + len(c2)] = []; break
        return tuple(its)

    def expand(self, st, it, depth=0):
        if it[0] == 'c':
            x = it[1]
            if self.known_null(st, x): return []
            if x in st.mem and ('pre', x) in st.tree:
                return self.expand(st, ('c', self.kid(x, 'l'))) + [('e', K(x), V(x))] + self.expand(st, ('c', self.kid(x, 'r')))
            return [it]
        if it[0] == 'm' and depth < 6:
            run = self.norm(st, it[2], depth + 1)
            return list(self.apply_mod(st, it[1], run, True))
        return [it]

    def firstof(self, I, st, items, last=False):
        """first entry of a content word -> ('e',k,v); may fork on emptiness"""
        seq = list(items) if not last else list(reversed(items))
        for it in seq:
            if it[0] == 'e': return it
            if it[0] == 'c':
                if self.null(I, st, it[1]): continue
                s = ('N', ('sel', it[1][1], 'last' if last else 'first'))
                return ('e', K(s), V(s))
            break
        return None

    def apply_mod(self, st, mod, items, quiet=False):
        """content after a modification; forks on emptiness unless quiet"""
        items = tuple(items)
        m = mod[0]
        if m == 'same': return items
        if m == 'freed': return ()
        if m == '?': return (('?', mod[1] if len(mod) > 1 else ''),)
        if m in ('df', 'dl'):
            seq = list(items)
            rng = range(len(seq)) if m == 'df' else range(len(seq) - 1, -1, -1)
            for i in rng:
                it = seq[i]
                if it[0] == 'e': return tuple(seq[:i] + seq[i + 1:])
                if it[0] == 'c':
                    if quiet:
                        t = self.types(st, it[1])
                        if t == {'0'}: continue
                        if '0' in t: return (('?', m),)
                    elif self.null(self.I, st, it[1]): continue
                    return tuple(seq[:i] + [(m, it[1])] + seq[i + 1:])
                return (('?', m),)
            return (('?', m),)
        # modifications at the query position
        ps = [self.itempos(st, it) for it in items]
        eq = [i for i, p in enumerate(ps) if p == '=']
        mid = [i for i, p in enumerate(ps) if p not in ('L', 'G')]
        if m in ('dE', 'set') and eq:
            i = eq[0]
            if len(eq) > 1 or items[i][0] != 'e': return (('?', m),)
            if m == 'dE': return items[:i] + items[i + 1:]
            return items[:i] + (('e', mod[1], mod[2]),) + items[i + 1:]
        if m == 'ins' and eq: return (('?', 'inserted although present'),)
        if not mid:
            if m != 'ins': return (('?', m),)
            i = 0
            while i < len(ps) and ps[i] == 'L': i += 1
            if any(p == 'L' for p in ps[i:]): return (('?', 'order'),)
            return items[:i] + (('e', mod[1], mod[2]),) + items[i:]
        a, b = mid[0], mid[-1] + 1
        if mid != list(range(a, b)) or any(p != 'L' for p in ps[:a]) or any(p != 'G' for p in ps[b:]): return (('?', 'order'),)
        return items[:a] + (('m', mod, items[a:b]),) + items[b:]

    def mods_of(self, st, Sq, Pq):
        """which modification turns content Sq into Pq (normal forms)"""
        if Sq == Pq: return ('same',)
        cands = []
        sset = set(Sq)
        qk = [it for it in Pq if it[0] == 'e' and it not in sset]
        if self.q is not None:
            for it in Pq:
                if it[0] == 'm' and it not in sset and it[1] not in cands: cands.append(it[1])
            for it in qk:
                if self.keypos(st, it[1]) == '=':
                    if it[1] == self.q: cands.append(('ins', it[1], it[2]))
                    cands.append(('set', it[1], it[2]))
            cands.append(('dE',))
        cands += [('df',), ('dl',)]
        if not Pq: cands.append(('freed',))
        for c in cands:
            if self.norm(st, self.apply_mod(st, c, Sq, True)) == Pq: return c
        if any(i[0] == '?' for i in Sq + Pq): return ('?', 'unknown')
        return ('?', 'wrong')

    # ------------------------------------------------------------ hashes
    def data(self, k, v): return sha(sep('ic-hashtree-labeled'), ('t', 'by', ('t', 'label', k)), ('t', 'H', v))

    def kidof(self, st, obj, side):
        p = st.mem[obj][3][self.S.L if side == 'l' else self.S.R]
        if p == NULL: return None
        if p[0] == 'p' and isnode(p[1]) and not p[2]:
            if self.known_null(st, p[1]): return None
            return p[1]
        return ('bad',)

    def fresh(self, st, obj):
        """stored hash of the node equals the hash of what it holds now (children taken as stored)"""
        if obj is None: return True
        if obj not in st.mem: return st.tree[obj][2] == 'f'
        om = st.tree.get(('om', obj))
        cur = st.mem[obj]
        f = cur[3]
        if om is not None:
            o, flag, _ = om
            if f[self.S.H] == o[3][self.S.H] and all(f[i] == o[3][i] for i in (self.S.K, self.S.V, self.S.L, self.S.R)):
                return flag == 'f' and all(self.deepfresh(st, k) and self.unmodified(st, k) for k in (self.kidof(st, obj, 'l'), self.kidof(st, obj, 'r')))
        want = self.struct(st, obj)
        if want is None: return False
        a, b = self.nh(st, f[self.S.H]), self.nh(st, want)
        return a == b or self.eqsub(st, a) == self.eqsub(st, b)

    def eqsub(self, st, v):
        """replace hashes the path compared and found equal by one representative"""
        pairs = []
        for r, x, y in sorted(st.order, key=repr):
            if r == '=' and all(z[:1] == ('t',) and len(z) > 1 and z[1] in ('HT', 'STALE', 'H', 'sha', 'by') for z in (x, y)):
                x, y = self.nh(st, x), self.nh(st, y)
                for i, (p, q) in enumerate(pairs): x, y = (q if x == p else x), (q if y == p else y)
                if x != y: pairs.append((x, y))
        if not pairs: return v
        def sub(z):
            if not isinstance(z, tuple): return z
            for p, q in pairs:
                if z == p: z = q
            return tuple(sub(w) for w in z)
        return sub(v)

    def unmodified(self, st, k):
        """subtree below k unchanged since it was unfolded (so hashes above it stay right)"""
        if k is None: return True
        if k not in st.mem: return True
        om = st.tree.get(('om', k))
        if om is None: return False
        o = om[0]
        if any(st.mem[k][3][i] != o[3][i] for i in (self.S.K, self.S.V, self.S.L, self.S.R, self.S.H)): return False
        return self.unmodified(st, self.kidof(st, k, 'l')) and self.unmodified(st, self.kidof(st, k, 'r'))

    def deepfresh(self, st, k, d=0):
        if k is None: return True
        if k == ('bad',) or d > 30: return False
        if k not in st.mem: return k in st.tree and st.tree[k][2] == 'f'
        return self.fresh(st, k) and all(self.deepfresh(st, self.kidof(st, k, s), d + 1) for s in 'lr')

    def struct(self, st, obj):
        """hash of a node from its entry and the stored hashes of its children"""
        f = st.mem[obj][3]
        parts = []
        for s in 'lr':
            k = self.kidof(st, obj, s)
            if s == 'r': parts.append(self.data(f[self.S.K], f[self.S.V]))
            if k is None: continue
            if k == ('bad',) or k in st.dead or k in st.freed: return None
            if k in st.mem: parts.append(st.mem[k][3][self.S.H])
            else:
                if '0' in self.types(st, k): return None
                parts.append(self.stored(st, k))
        h = parts[-1]
        for p in reversed(parts[:-1]): h = forkh(p, h)
        return h

    def nh(self, st, v):
        if not isinstance(v, tuple): return v
        if v[:2] == ('t', 'HT') and isnode(v[2]):
            o = v[2]
            om = st.tree.get(('om', o))
            if o not in st.mem or om is None: return v
            parts = []
            for i in (self.S.L, None, self.S.R):
                if i is None: parts.append(self.nh(st, self.data(om[0][3][self.S.K], om[0][3][self.S.V]))); continue
                p = om[0][3][i]
                if p == NULL: continue
                t = self.types(st, p[1]) if p[1] in st.tree and p[1] not in st.mem else None
                if t == {'0'}: continue
                if t is not None and '0' in t: return v
                parts.append(self.nh(st, ('t', 'HT', p[1])))
            h = parts[-1]
            for p in reversed(parts[:-1]): h = forkh(p, h)
            return h
        if v[:2] == ('t', 'by') and len(v) == 3 and v[2][0] == 't' and v[2][1] in ('HT', 'STALE', 'sha', 'H'): return self.nh(st, v[2])
        return tuple(self.nh(st, x) for x in v)

    # ------------------------------------------------------------ patterns
    def bh(self, st, p):
        return p[2] if p[0] != '0' else None

    def pattern(self, st, obj):
        r = self.pattern1(st, obj)
        def depth(p): return 1 + max(depth(p[3]), depth(p[4])) if p[0] == 'N' else 0
        if r == ('X', 'depth') or r[0] == 'N' and depth(r) > 1:
            r2 = self.pattern1(st, obj, (), True)
            if r[0] == 'X' or r2[0] == 'V' or depth(r2) < depth(r): r = r2
        return r

    def pattern1(self, st, obj, seen=(), nohash=False):
        """-> '0' | ('V',types,off,hf,root) | ('N',col,off,pl,pr,h,obj) | ('X',why)"""
        if obj is None: return ('0',)
        if obj == ('bad',) or self.issel(obj) or obj in seen or obj in st.freed or obj in st.dead: return ('X', 'link')
        if obj not in st.mem:
            if obj not in st.tree: return ('X', 'link')
            t = self.types(st, obj); _, off, hf = st.tree[obj]
            if t == {'0'}: return ('0',)
            return ('V', fz(t), off, hf, obj)
        f = st.mem[obj][3]
        c = f[self.S.C]
        pl = self.pattern1(st, self.kidof(st, obj, 'l'), seen + (obj,), nohash)
        pr = self.pattern1(st, self.kidof(st, obj, 'r'), seen + (obj,), nohash)
        if pl[0] == 'X' or pr[0] == 'X': return pl if pl[0] == 'X' else pr
        if c not in (self.RED, self.BLACK): return ('X', 'colour')
        red = c == self.RED
        h = 'f' if self.fresh(st, obj) else 's'
        lo, hi = st.tree['n']
        def off(p):
            if p[0] != '0': return p[2]
            return -lo if lo == hi else None
        ol, orr = off(pl), off(pr)
        o = ol if ol is not None else orr
        if o is None: return ('X', 'height')
        self_off = o + (0 if red else 1)
        ok = ol == orr and all(p[0] in ('0', 'V') for p in (pl, pr))
        if ok:
            tl = frozenset(pl[1]) if pl[0] == 'V' else frozenset('0')
            tr = frozenset(pr[1]) if pr[0] == 'V' else frozenset('0')
            hl = pl[3] if pl[0] == 'V' else 'f'; hr = pr[3] if pr[0] == 'V' else 'f'
            t = None
            if 'R' not in tr:
                if red: t = ('R',) if 'R' not in tl else None
                else: t = ('3',) if tl == {'R'} else ('2',) if 'R' not in tl else ('2', '3')
            hf = None
            if hl == 'f' and hr == 'f': hf = 'f' if h == 'f' else 'rs'
            elif hl == 'sf' and hr == 'f' and h == 's': hf = 'sf'
            elif 'sx' in (hl, hr) or nohash: hf = 'sx'
            if t is not None and hf is not None: return ('V', t, self_off, hf, obj)
        if len(seen) > self.DEPTH: return ('X', 'depth')
        def depth(p): return 1 + max(depth(p[3]), depth(p[4])) if p[0] == 'N' else 0
        r = ('N', 'R' if red else 'B', self_off, pl, pr, h, obj)
        if depth(r) > self.DEPTH: return ('X', 'depth')
        return r

    def relkey(self, st, p, base, qv):
        """pattern as a key: offsets relative to base, positions instead of objects"""
        if p[0] in ('0', 'X'): return p
        if p[0] == 'V': return ('V', p[1], p[2] - base, p[3])
        r = None
        if qv:
            k = self.keypos(st, st.mem[p[6]][3][self.S.K])
            r = {'L': '<', 'G': '>', '=': '='}.get(k)
        return ('N', p[1], p[2] - base, self.relkey(st, p[3], base, qv), self.relkey(st, p[4], base, qv), p[5], r)

    def clipn(self, n, off):
        lo, hi = n
        lo = max(0, lo + off); hi = None if hi is None else hi + off
        if hi is not None and hi < 0: raise Infeasible()
        if hi is not None and hi > 1: hi = None
        return (min(lo, 2), hi)

    # ------------------------------------------------------------ summaries
    def apply(self, I, st, kind, fn, args, extra=None):
        order = []; nodes = []; ptrs = []; nulls = 0
        def scan(v):
            nonlocal nulls
            if not isinstance(v, tuple) or not v: return
            if isnode(v):
                if v not in nodes: nodes.append(v)
                return
            if v == NULL: nulls += 1; return
            if v[0] in ('p', 'bx') and len(v) >= 2:
                o = v[1]
                if isnode(o):
                    if v[0] == 'p' and v[2] == () and o not in ptrs: ptrs.append(o)
                    if o not in nodes: nodes.append(o)
                    return
                if o not in order:
                    order.append(o)
                    c = st.mem.get(o)
                    if c is not None and not self.owns_tree(c): scan(c)
                return
            for x in v: scan(x)
        scan(args)
        for o in ptrs:
            if o in st.freed: raise Bad('use-after-free', 'a freed node is passed on', I.at, st)
            if o in st.dead: raise Undecided('use of a node pointer that was handed to another function', I.at)
        ptrs = [o for o in ptrs if not self.issel(o) and o[1][0] != 'X']
        if len(ptrs) > 1:
            inside = [o for o in ptrs if any(o != p and o in self.below(st, p) for p in ptrs)]
            roots = [o for o in ptrs if o not in inside]
            if len(roots) != 1: raise Undecided('call with several subtree pointers: %s' % (fn,), I.at)
            ptrs = roots            # pointers into the same subtree are passed on as opaque values
        if not ptrs and nulls != 1: return None
        tau = ptrs[0] if ptrs else None
        if tau is not None and tau not in st.mem and self.known_null(st, tau): tnull = True
        else: tnull = tau is None
        pat = ('0',) if tnull else self.pattern(st, tau)
        if pat[0] == 'X':
            self.issue('shape', fn if isinstance(fn, str) else fn[0], 'a subtree of unbalanced or broken shape (%s) is passed on' % pat[1], I.at, st)
            raise Undecided('call on a subtree of unknown shape', I.at)
        qv = self.q is not None and self.sees(st, args, order, self.q)
        lo, hi = st.tree['n']
        base = pat[2] if pat[0] != '0' else -lo
        cont = () if tnull else self.norm(st, self.cont(st, tau))
        n = (0, 0) if tnull else self.clipn((lo, hi), base)
        pos = '-'
        if qv: pos = self.listpos(st, cont) if cont else '?F'
        if pos == 'X':
            self.issue('order', fn if isinstance(fn, str) else fn[0], 'a subtree whose keys are out of order is passed on', I.at, st)
            raise Undecided('keys out of order', I.at)
        pk = self.relkey(st, pat, base, qv)
        xs = [o for o in nodes if o != tau]
        own = self.below(st, tau) if tau is not None and not tnull else []
        if [o for o in xs if not self.issel(o) and o[1][0] != 'X' and o not in own]: raise Undecided('call that refers into another subtree: %s' % (fn,), I.at)
        xmap = {x: ('N', ('X', i)) for i, x in enumerate(xs)}
        fid = extra[0] if kind == 'loop' else None
        fmap = {o: (('L', 'LP', o[2]) if o[0] == 'L' and o[1] == fid else ('F', i) if o[0] not in ('S', 'C', 'd') else o) for i, o in enumerate(order)}
        nullarg = tau is None
        def ren(v):
            if not isinstance(v, tuple): return v
            if v == NULL and nullarg: return ('p', T0, ())
            if isnode(v): return T0 if v == tau else xmap.get(v, v)
            if v in fmap: return fmap[v]
            return tuple(ren(x) for x in v)
        cargs = ren(args)
        fcont = []
        for o in order:
            c = st.mem.get(o)
            fcont.append((fmap[o], None if c is None or self.owns_tree(c) else ren(c)))
        ex = extra[1] if kind == 'loop' else extra
        key = (kind, fn, cargs, tuple(fcont), pk, n, pos)
        if key not in self.table:
            self.table[key] = {}; self.deps.setdefault(key, set())
            self.runners[key] = (cargs, fcont, pk, n, pos, ex, len(xs))
            self.dirty.append(key)
        if self.cur is not None: self.deps[key].add(self.cur)
        if not self.solving: self.solve(I)
        res = []
        fback = {v: k for k, v in fmap.items()}; xback = {v: k for k, v in xmap.items()}
        for okey, descs in list(self.table[key].items()):
            wl = [st.copy()]
            while wl:
                s = wl.pop()
                try: r = self.instantiate(I, s.copy(), okey, descs, tau, base, cont, fback, xback)
                except Infeasible: continue
                except Fork as f:
                    wl += [self.I.replay(s, a) for a in f.alts]; continue
                res.append(r)
        return res

    def below(self, st, obj):
        if obj in st.mem and not self.issel(obj):
            out = [obj]
            for s in 'lr':
                k = self.kidof(st, obj, s)
                if k is not None and k != ('bad',) and k not in out: out += self.below(st, k)
            return out
        return [obj]

    def sees(self, st, args, order, q):
        def f(v): return v == q
        if has_term(args, f): return True
        for o in order:
            c = st.mem.get(o)
            if o == q or has_term(o, f) or o[0] == 'S' and q == ('t', 'at', o[1]): return True
            if c is not None and not self.owns_tree(c) and has_term(c, f): return True
        return False

    def owns_tree(self, c): return has_term(c, lambda v: v[:1] == ('adt',) and len(v) > 1 and v[1] == self.S.map)

    def issue(self, kind, fn, msg, at, st):
        k = (kind, fn, msg)
        if k not in self.issues: self.issues[k] = (at, st.path[-14:])

    def solve(self, I):
        self.solving = True
        save = (self.cur, I.at, list(I.stack))
        try:
            while self.dirty:
                key = self.dirty.pop(0)
                self.iters += 1
                if self.iters > 3000: raise Budget('summary iteration does not settle')
                self.cur = key
                new = self.compute(I, key)
                old = self.table[key]
                merged = dict(old)
                for k, d in new.items():
                    merged[k] = tuple(a & b for a, b in zip(merged[k], d)) if k in merged else d
                if merged != old:
                    self.table[key] = merged
                    for d in self.deps[key]:
                        if d not in self.dirty: self.dirty.append(d)
        finally:
            self.solving = False
            self.cur, I.at, I.stack = save
            if self.dirty: self.dirty = []

    def build(self, st, pk, obj, hasq):
        """materialise an argument or result pattern below obj; returns content parts"""
        if pk[0] == 'V':
            st.tree[obj] = (frozenset(pk[1]), pk[2], pk[3]); return [('c', obj)]
        l, r = self.kid(obj, 'l'), self.kid(obj, 'r')
        out = []
        ptr = {}
        for side, o, p in (('l', l, pk[3]), ('r', r, pk[4])):
            if p[0] == '0': ptr[side] = NULL; sub = []
            else: sub = self.build(st, p, o, hasq); ptr[side] = ('p', o, ())
            if side == 'r': out.append(('e', obj))
            out += sub
        st.mem[obj] = self.node(K(obj), V(obj), ptr['l'], ptr['r'], self.RED if pk[1] == 'R' else self.BLACK, ('t', 'HT' if pk[5] == 'f' else 'STALE', obj))
        st.tree[('om', obj)] = (st.mem[obj], pk[5], 'N')
        st.tree[('nn', obj)] = pk
        if hasq and pk[6]: st.tree[('rel', obj)] = pk[6]
        return out

    def compute(self, I, key):
        kind, fn = key[0], key[1]
        cargs, fcont, pk, n, pos, ex, nx = self.runners[key]
        st = State()
        st.tree['n'] = n
        st.tree['base'] = pos if pos in ('L', 'G') else '?'
        st.tree['hasE'] = {'?T': True, '?F': False}.get(pos)
        if pk[0] == '0':
            st.tree[T0] = (frozenset('0'), 0, 'f'); parts = []
        else: parts = self.build(st, pk, T0, True)
        st.tree['seq'] = tuple(parts)
        for i in range(nx):
            x = ('N', ('X', i)); st.mem[x] = self.stub(x)
        for o, c in fcont:
            if c is not None: st.mem[o] = c
        try: outs = I.run_summary(st, kind, fn, cargs, ex)
        except Undecided as u:
            if I.undec is None or isinstance(u, Budget): raise
            I.undec.append((fn if isinstance(fn, str) else fn[0], u.at or I.at, str(u))); outs = []
        res = {}
        for (s, k, v) in outs:
            wl = [s]
            while wl:
                x = wl.pop()
                try: kk, d = self.outcome(I, x.copy(), k, v, fcont, fn if isinstance(fn, str) else fn[0], pk, n)
                except Fork as f: wl += f.alts; continue
                except Infeasible: continue
                except Undecided as u:
                    if I.undec is None or isinstance(u, Budget): raise
                    I.undec.append((fn if isinstance(fn, str) else fn[0], u.at or I.at, str(u))); continue
                res[kk] = tuple(a & b for a, b in zip(res[kk], d)) if kk in res else d
        return res

    # ---- what a call did
    def live(self, st):
        """nodes of the analysed part that exist now: unfolded, folded and new ones"""
        out = []
        for o in list(st.tree):
            if isnode(o) and o not in st.mem and o not in st.dead and o not in st.freed:
                if isinstance(st.tree[o], tuple) and not self.known_null(st, o): out.append(o)
        for o in st.mem:
            if isnode(o) and not self.issel(o) and o[1][0] != 'X' and o not in st.dead and o not in st.freed:
                out.append(o)
        return out

    def reach(self, st, obj, acc):
        """owned nodes below obj; reports sharing and dangling links"""
        if obj is None: return
        if obj == ('bad',): acc['bad'].append('a child pointer is not a node'); return
        if obj in st.freed: acc['bad'].append('a freed node is still linked'); return
        if obj in st.dead: acc['bad'].append('a node is still linked that was handed to another call, which moved or freed it'); return
        if obj in acc['set']: acc['bad'].append('a node is linked twice'); return
        acc['set'].append(obj)
        if obj in st.mem and not self.issel(obj):
            for s in 'lr': self.reach(st, self.kidof(st, obj, s), acc)

    def changed(self, st):
        for o in st.mem:
            if isnode(o) and not self.issel(o) and o[1][0] != 'X':
                om = st.tree.get(('om', o))
                if om is None or om[0] != st.mem[o]: return True
            if isnode(o) and self.issel(o) and self.overlaid(st, o): return True
        return bool(st.dead) or any(isnode(o) for o in st.freed) or bool(st.tree.get('Ew'))

    def edesc(self, st, a, Sq, newroot):
        """what is known about a pre-state entry"""
        D = set()
        if a == T0: D.add('root')
        if a == EOBJ or st.tree.get(('rel', a)) == '=': D.add('E')
        if a[1][0] == 'X': return frozenset([('X', a)])
        if Sq:
            b = EOBJ if 'E' in D else a
            if Sq[0][0] == 'e' and Sq[0][1] == K(b): D.add('first')
            if Sq[-1][0] == 'e' and Sq[-1][1] == K(b): D.add('last')
            if a[1][0] == 'sel':
                x = ('N', a[1][1])
                if Sq[0] == ('c', x) and a[1][2] == 'first': D.add('first')
                if Sq[-1] == ('c', x) and a[1][2] == 'last': D.add('last')
                if x == T0 and a[1][2] == 'root': D.add('root')
        return frozenset(D)

    def pdesc(self, st, o, newroot):
        """what is known about a node of the post-state"""
        D = set()
        if o == newroot: D.add('root')
        if o[1][0] == 'X': return frozenset([('X', o)])
        if o == EOBJ: D.add('E')
        if o in st.mem and self.keypos(st, st.mem[o][3][self.S.K]) == '=': D.add('E')
        for side, nm in (('l', 'first'), ('r', 'last')):
            x = newroot; k = 0
            while x is not None and x != ('bad',) and x in st.mem and k < 20:
                k += 1
                nx = self.kidof(st, x, side)
                if nx is None: break
                x = nx
            if x == o and (x in st.mem or self.endnode(st, x, side)): D.add(nm)
            if o[1][0] == 'sel' and x == ('N', o[1][1]) and o[1][2] == nm and '0' not in self.types(st, x): D.add(nm)
        if o[1][0] == 'sel' and o[1][2] == 'E': D.add('E')
        return frozenset(D)

    def endnode(self, st, x, side):
        """a folded subtree whose root has no child on that side"""
        lo, hi = st.tree['n']
        if lo != hi or not isinstance(st.tree.get(x), tuple): return False
        h = lo + st.tree[x][1]
        ok = {'R'} if h == 0 else {'2'} | ({'3'} if side == 'r' else set()) if h == 1 else set()
        return bool(ok) and self.types(st, x) <= ok

    def outcome(self, I, st, kind, v, fcont, fn, pk, n):
        outs = []
        for o, c in fcont:
            if c is None or o[:2] == ('L', 'LP'): continue
            x = st.mem.get(o)
            if x != c: outs.append((o, x))
        outs = tuple(outs)
        ch = self.changed(st)
        # cells freshly allocated and reachable from the result
        newm = {}; no = []; known = {o for o, _ in fcont}
        def rch(x):
            if not isinstance(x, tuple) or not x or isnode(x): return
            if x[0] in ('p', 'bx') and len(x) >= 2 and isinstance(x[1], tuple) and not isnode(x[1]) and x[1][0] not in ('S', 'C', 'd', 'F') and x[1] not in known:
                if x[1] not in newm: newm[x[1]] = ('O', len(no)); no.append(x[1]); rch(st.mem.get(x[1], UNDEF))
                return
            for y in x: rch(y)
        rch(v); rch(outs)
        facts = tuple(sorted(((k, x) for k, x in st.facts.items() if not nodes_in(k)), key=repr))
        ev = tuple(e for e in st.ev if e[0] == 'callf')
        Sq = self.norm(st, tuple(('e', K(i[1]), V(i[1])) if i[0] == 'e' else i for i in st.tree['seq']))
        root = T0; mod = ('same',); rk = None
        pre = self.excluded(st, pk)
        if ch:
            if st.tree.get('Ew'):
                raise Undecided('value of an entry overwritten without its node', I.at)
            cand = []
            def own(x):
                if not isinstance(x, tuple): return
                if x[:1] == ('p',) and len(x) == 3 and isnode(x[1]) and x[2] == () and not self.issel(x[1]) and x[1][1][0] != 'X':
                    if x[1] not in cand: cand.append(x[1])
                    return
                if isnode(x): return
                for y in x: own(y)
            own(v); own(outs); own(tuple(st.mem.get(o) for o in no))
            returned = list(cand)
            if T0 not in cand: cand.append(T0)
            live = self.live(st); best = None
            for c in cand:
                if c in st.freed or c in st.dead:
                    continue
                if c not in st.mem and (c not in st.tree or self.known_null(st, c)): continue
                acc = {'set': [], 'bad': []}; self.reach(st, c, acc)
                miss = [x for x in live if x not in acc['set']]
                if best is None or len(miss) + len(acc['bad']) < len(best[1]) + len(best[2]): best = (c, miss, acc['bad'])
            if best is None:
                root = None
                if live: self.issue('leak', fn, 'nodes of the tree are dropped without being freed', I.at, st); mod = ('?', 'leak')
            else:
                root = best[0]
                if best[1]: self.issue('leak', fn, 'nodes of the tree become unreachable without being freed', I.at, st)
                for b in best[2]: self.issue('link', fn, b, I.at, st)
            Pq = self.norm(st, self.cont(st, root)) if root is not None else ()
            if mod == ('same',): mod = self.mods_of(st, Sq, Pq)
            if mod[0] == '?': self.wrong.setdefault((fn, mod[1]), (I.at, [show(x) for x in Sq], [show(x) for x in Pq], st.path[-14:]))
            pat = self.pattern(st, root) if root is not None else ('0',)
            if pat[0] == 'X':
                self.issue('shape', fn, 'leaves a subtree that is no balanced left-leaning tree, and whose repair is not bounded (%s)' % pat[1], I.at, st)
                raise Infeasible()
            else: rk = self.relkey(st, pat, 0, False)
            inplace = root == T0 and T0 not in returned
        def ro(x):
            if isinstance(x, tuple):
                if not isnode(x) and x in newm: return newm[x]
                return tuple(ro(y) for y in x)
            return x
        lo, hi = st.tree['n']
        nn = (min(lo, 2), hi if hi is not None and hi < 2 else None)
        tm = (kind, ro(v), ro(outs), tuple((newm[o], ro(st.mem.get(o, UNDEF))) for o in no), facts, ev, mod, rk, nn, (inplace if ch else None))
        holes = []; descs = [pre]
        def ehole(a):
            key = ('e', a)
            if key not in holes: holes.append(key); descs.append(self.edesc(st, a, Sq, root))
            return ('N', ('He', holes.index(key)))
        def phole(a):
            key = ('p', a)
            if key not in holes: holes.append(key); descs.append(self.pdesc(st, a, root))
            return ('N', ('Hp', holes.index(key)))
        def mapx(x):
            if isinstance(x, tuple):
                if x[:1] in (('p',), ('bx',)) and len(x) > 1 and isnode(x[1]):
                    o = x[1]
                    if x[0] == 'p' and x[2] == () and o not in st.mem and o not in st.dead and isinstance(st.tree.get(o), tuple) and self.null(I, st, o): return NULL
                    if x[0] == 'p' and x[2] == () and o == root and (ch or self.q is None or 'E' not in self.pdesc(st, o, root)): return ('p', ('N', ('Hr',)), ())
                    return (x[0], phole(o)) + tuple(x[2:])
                if x[:1] == ('t',) and len(x) == 3 and x[1] in ('k', 'v') and isnode(x[2]): return ('t', x[1], ehole(x[2]))
                if isnode(x): return ehole(x)
                return tuple(mapx(y) for y in x)
            return x
        tm = mapx(tm)
        return tm, tuple(descs)

    def excluded(self, st, pk):
        """shapes the argument did not have on this path"""
        if pk[0] != 'V': return frozenset()
        om = st.tree.get(('om', T0))
        if om is not None: t = {om[2]}
        elif T0 in st.tree: t = self.types(st, T0)
        else: return frozenset()
        return frozenset(pk[1]) - frozenset(t)

    def instantiate(self, I, s, okey, descs, tau, base, cont, fback, xback):
        kind, v, outs, mem, facts, ev, mod, rk, nn, inplace = okey
        # what the path says about the argument
        lo, hi = nn
        self.setn(s, lo=lo - base, hi=None if hi is None else hi - base)
        if tau is not None and tau not in s.mem and tau in s.tree and descs[0]: self.narrow(s, tau, self.types(s, tau) - descs[0])
        self.feasible(s)
        for k, val in facts:
            if k in s.facts:
                if s.facts[k] != val: raise Infeasible()
            else: s.facts[k] = val
        pre = cont
        hd = descs[1:]
        ecache = {}
        def entry(i):
            if i in ecache: return ecache[i]
            D = hd[i]
            X = [d for d in D if isinstance(d, tuple)]
            if X:
                x = xback[X[0][1]]; r = ('e', K(x), V(x))
            elif 'E' in D:
                r = None
                for it in pre:
                    if it[0] == 'e' and self.keypos(s, it[1]) == '=': r = it
                if r is None: r = ('e', K(EOBJ), V(EOBJ))
            elif 'root' in D and tau is not None and tau in s.mem:
                f = s.mem[tau][3]; r = ('e', f[self.S.K], f[self.S.V])
            elif 'first' in D: r = self.firstof(I, s, pre)
            elif 'last' in D: r = self.firstof(I, s, pre, True)
            elif 'root' in D and tau is not None:
                x = ('N', ('sel', tau[1], 'root')); r = ('e', K(x), V(x))
            else:
                I.fid += 1
                x = ('N', ('sel', (tau or T0)[1], 'any%d' % I.fid)); r = ('e', K(x), V(x))
            if r is None: raise Undecided('which entry a call refers to is unknown', I.at)
            ecache[i] = r; return r
        newroot = tau; R = None
        fresh = {}
        def insterm(x):
            if isinstance(x, tuple):
                if x[:1] == ('t',) and len(x) == 3 and x[1] in ('k', 'v') and isnode(x[2]) and x[2][1][0] == 'He':
                    e = entry(x[2][1][1]); return e[1] if x[1] == 'k' else e[2]
                if isnode(x) and x[1][0] == 'He':
                    e = entry(x[1][1]); return e[1][2] if e[1][:2] == ('t', 'k') else ('N', ('?',))
                return tuple(insterm(y) for y in x)
            return x
        for i in range(len(hd)): pass
        if rk is not None:
            if s.tree.get('Ew'): raise Undecided('value of an entry overwritten without its node', I.at)
            mod = insterm(mod)
            # entries must be looked up before the argument is consumed
            def pre_entries(x):
                if isinstance(x, tuple):
                    if isnode(x) and x[1][0] == 'He': entry(x[1][1]); return
                    for y in x: pre_entries(y)
            pre_entries((v, outs, mem, ev))
            content = self.apply_mod(s, mod, cont)
            I.fid += 1
            consumed = self.below(s, tau) if tau is not None else []
            kept = has_term((v, outs, mem), lambda x: x[:1] in (('p',), ('bx',)) and len(x) > 1 and isinstance(x[1], tuple) and isnode(x[1]) and x[1][1][0] == 'He')
            if rk[0] == '0' and not kept and not (tau is not None and tau not in s.mem and '0' in self.types(s, tau)): s.freed = s.freed | frozenset(consumed)
            else: s.dead = s.dead | frozenset(o for o in consumed)
            if mod == ('freed',) or rk[0] == '0':
                parts = []
            if rk[0] == '0': newroot = None; parts = []
            elif rk[0] == 'X':
                newroot = ('N', ('r', I.fid)); parts = []
                s.tree['broken'] = s.tree.get('broken', ()) + (rk[1],)
                raise Undecided('a called function returns a subtree that is no balanced search tree (%s)' % rk[1], I.at)
            else:
                newroot = ('N', ('r', I.fid))
                if consumed: s.x[('cons', newroot)] = frozenset(consumed)
                hs = ('shift', base)
                parts = self.build(s, self.shift(rk, base), newroot, False)
            parts = tuple(('e', K(p[1]), V(p[1])) if p[0] == 'e' else p for p in parts)
            s.tree['eqs'] = s.tree.get('eqs', ()) + ((parts, content),)
            if inplace:
                if newroot is None: pass
                else:
                    self.rename(s, tau, newroot)
        def ptr(i, path):
            D = hd[i]
            X = [d for d in D if isinstance(d, tuple)]
            if X: return xback[X[0][1]]
            if 'root' in D and newroot is not None and (newroot in s.mem or 'E' not in D and not path): return newroot
            if 'E' in D:
                if rk is None:
                    for o in s.mem:
                        if isnode(o) and not self.issel(o) and s.tree.get(('rel', o)) == '=' and o not in s.dead: return o
                return EOBJ
            if newroot is None: return ('N', ('nokid', (tau or T0)[1]))
            for nm, side in (('first', 'l'), ('last', 'r')):
                if nm in D:
                    x = newroot
                    while x in s.mem:
                        p = s.mem[x][3][self.S.L if side == 'l' else self.S.R]
                        try:
                            if p == NULL or self.null(I, s, p[1]): return x
                        except Fork:
                            if rk is not None: raise Undecided('which node a call refers to is unknown', I.at)
                            raise
                        x = p[1]
                    return ('N', ('sel', x[1], nm))
            if 'root' in D: return newroot if newroot in s.mem else ('N', ('sel', newroot[1], 'root'))
            I.fid += 1
            return ('N', ('sel', newroot[1], 'any%d' % I.fid))
        def inst(x):
            if isinstance(x, tuple):
                if x[:1] in (('p',), ('bx',)) and len(x) > 1 and isnode(x[1]):
                    h = x[1][1]
                    if h[0] == 'Hr': return NULL if newroot is None else ('p', newroot, ())
                    if h[0] == 'Hp': return (x[0], ptr(h[1], x[2] if len(x) > 2 else ())) + tuple(x[2:])
                if x[:1] == ('t',) and len(x) == 3 and x[1] in ('k', 'v') and isnode(x[2]) and x[2][1][0] == 'He':
                    e = entry(x[2][1][1]); return e[1] if x[1] == 'k' else e[2]
                if isnode(x):
                    if x[1][0] == 'He':
                        e = entry(x[1][1]); return e[1][2] if e[1][:2] == ('t', 'k') else ('N', ('?',))
                    return x
                if x[:1] == ('O',) and len(x) == 2:
                    if x not in fresh: I.fid += 1; fresh[x] = ('box', I.fid)
                    return fresh[x]
                if x in fback: return fback[x]
                return tuple(inst(y) for y in x)
            return x
        v = inst(v)
        for o, c in outs: s.mem[fback.get(o, o)] = inst(c)
        for o, c in mem: s.mem[inst(o)] = inst(c)
        s.ev = s.ev + tuple(inst(e) for e in ev)
        return (s, kind, v)

    def shift(self, pk, base):
        if pk[0] in ('0', 'X'): return pk
        if pk[0] == 'V': return ('V', pk[1], pk[2] + base, pk[3])
        return ('N', pk[1], pk[2] + base, self.shift(pk[3], base), self.shift(pk[4], base), pk[5], pk[6])
