"""Abstract domain for the search tree (read-only and in-place operations).

A tree is known through its in-order content, divided into *regions* by the
query of the public operation (keys below / equal / above it, or the prefix
classes).  An abstract tree says which regions it must / may contain.  A node
is unfolded when it is dereferenced: its key falls into one of the possible
regions and the regions are distributed over the subtrees in the ways the
search order allows.  Recursive functions and loops are analysed once per
abstract argument; their summaries are the least fixpoint over this finite
domain (Kleene iteration), so the result covers trees of every size and shape.
"""
from core import *
from models import BY, sha, sep, viewval
import itertools

HTN = 'hashtree::HashTree'
EMPTYH = sha(sep('ic-hashtree-empty'))


def forkh(l, r): return sha(sep('ic-hashtree-fork'), l, r)


class Shape:
    """roles of the fields of the tree node and of the structs that own a tree"""
    def __init__(self, P):
        self.P = P
        c = []
        for n, ad in P.adts.items():
            if not ad.get('local') or ad['kind'] != 'struct': continue
            fs = ad['variants'][0]['fields']
            kids = [i for i, f in enumerate(fs) if f['ty']['k'] == 'ptr' and f['ty']['t'].get('n') == n]
            if len(kids) == 2: c.append((n, fs, kids))
        if len(c) != 1: raise Undecided('search-tree node type not recognised')
        n, fs, kids = c[0]
        self.node = n; self.n = len(fs)
        nm = [f['name'].lower() for f in fs]
        self.L, self.R = kids
        if 'right' in nm[self.L] or 'left' in nm[self.R]: self.L, self.R = self.R, self.L
        params = [i for i, f in enumerate(fs) if f['ty']['k'] == 'param']
        if len(params) != 2: raise Undecided('node key/value fields not recognised')
        self.K, self.V = params
        if 'key' in nm[self.V] or 'val' in nm[self.K]: self.K, self.V = self.V, self.K
        h = [i for i, f in enumerate(fs) if f['ty']['k'] == 'array']
        if len(h) != 1: raise Undecided('node hash field not recognised')
        self.H = h[0]
        col = [i for i, f in enumerate(fs) if f['ty']['k'] == 'adt' and P.adts.get(f['ty']['n'], {}).get('kind') == 'enum' and P.adts[f['ty']['n']].get('local')]
        self.C = col[0] if len(col) == 1 else None
        if self.C is not None:
            self.colty = fs[self.C]['ty']['n']
            vs = [v['name'].lower() for v in P.adts[self.colty]['variants']]
            self.RED = vs.index('red') if 'red' in vs else None
            self.BLACK = vs.index('black') if 'black' in vs else None
        self.maps = [m for m, ad in P.adts.items() if ad.get('local') and ad['kind'] == 'struct' and m != n
                     and any(f['ty']['k'] == 'ptr' and f['ty']['t'].get('n') == n for f in ad['variants'][0]['fields'])
                     and any(f['ty']['k'] == 'int' for f in ad['variants'][0]['fields']) and len(ad['variants'][0]['fields']) == 2]
        if len(self.maps) != 1: raise Undecided('tree owner not recognised')
        self.map = self.maps[0]
        mf = P.adts[self.map]['variants'][0]['fields']
        self.ROOT = [i for i, f in enumerate(mf) if f['ty']['k'] == 'ptr'][0]
        self.LEN = [i for i, f in enumerate(mf) if f['ty']['k'] == 'int'][0]


class Ctx:
    """regions of the key space, in order, and how each relates to the query terms"""
    def __init__(self, regions, rels=(), prefix=(), cmps=()):
        self.regions = tuple(regions)              # ((name, unique), ...)
        self.rels = dict(rels)                     # term -> tuple of '<=>' (element vs term)
        self.prefix = dict(prefix)                 # term -> tuple of bool
        self.cmps = dict(cmps)                     # comparator term -> tuple of '<=>' (its result)
        self.n = len(self.regions)

    def uniq(self, i): return self.regions[i][1]
    def key(self): return (self.regions, tuple(sorted(self.rels.items())), tuple(sorted(self.prefix.items())), tuple(sorted(self.cmps.items())))
    def idx(self, name): return [r[0] for r in self.regions].index(name)


def strict_ctx(q): return Ctx([('L', False), ('E', True), ('G', False)], rels=[(q, ('<', '=', '>'))])
def strict2_ctx(a, b): return Ctx([('L', False), ('E1', True), ('M', False), ('E2', True), ('G', False)],
                                  rels=[(a, ('<', '=', '>', '>', '>')), (b, ('<', '<', '<', '=', '>'))])
def equal2_ctx(a, b): return Ctx([('L', False), ('E', True), ('G', False)], rels=[(a, ('<', '=', '>')), (b, ('<', '=', '>'))])
def prefix_ctx(p): return Ctx([('A', False), ('B1', False), ('B2', False), ('C', False)], rels=[(p, ('<', '=', '>', '>'))], prefix=[(p, (False, True, True, False))])
def cmp_ctx(f): return Ctx([('L', False), ('E', True), ('G', False)], cmps=[(f, ('>', '=', '<'))])
def all_ctx(): return Ctx([('ALL', False)])


def isnode(v): return isinstance(v, tuple) and len(v) == 2 and v[0] == 'N' and isinstance(v[1], tuple)


def map_nodes(v, f):
    if isinstance(v, tuple):
        if isnode(v): return f(v)
        return tuple(map_nodes(x, f) for x in v)
    return v


def nodes_in(v, out=None):
    if out is None: out = []
    if isinstance(v, tuple):
        if isnode(v):
            if v not in out: out.append(v)
        else:
            for x in v: nodes_in(x, out)
    return out


class OccDomain:
    def __init__(self, I, ctx):
        self.I = I; self.P = I.P; self.S = I.shape; self.ctx = ctx
        self.table = {}; self.deps = {}; self.runners = {}; self.dirty = []; self.solving = False; self.cur = None
        self.iters = 0; self.issues = []      # (kind, fn, msg, at)
        self.configs = 0

    # ------------------------------------------------------------ objects
    def is_tree(self, st, obj): return isnode(obj)

    def kid(self, obj, side): return ('N', (side, obj[1]))

    def stub(self, obj):
        f = [('t', 'f', obj, i) for i in range(self.S.n)]
        f[self.S.K] = ('t', 'k', obj); f[self.S.V] = ('t', 'v', obj)
        f[self.S.L] = ('p', ('N', ('kid', 'l', obj[1])), ()); f[self.S.R] = ('p', ('N', ('kid', 'r', obj[1])), ())
        return ('adt', self.S.node, 0, tuple(f))

    def folded(self, st, obj): return isnode(obj) and obj not in st.mem and obj[1][0] in ('T', 'l', 'r', 'root')

    def touch(self, I, st, obj):
        if obj in st.mem: return
        if obj[1][0] in ('sel', 'X'):
            st.mem[obj] = self.stub(obj); return
        info = st.tree.get(obj)
        if info is None: raise Undecided('access to a tree node outside the analysed part', I.at)
        if self.null(I, st, obj): raise Bad('null-deref', 'dereference of a null node pointer', I.at, st)
        must, may, nn = info
        alts = []
        for r in sorted(may):
            lo = frozenset(q for q in must if q < r); hi = frozenset(q for q in must if q > r)
            lom = frozenset(q for q in may if q < r); him = frozenset(q for q in may if q > r)
            combos = [(lo, lom, hi, him)]
            if not self.ctx.uniq(r):
                rr = frozenset([r])
                if must == may: combos = [(lo | a, lom | a, hi | b, him | b) for a in (frozenset(), rr) for b in (frozenset(), rr)]
                else: combos = [(lo, lom | rr, hi, him | rr)]
            for (a, am, b, bm) in combos:
                s = st.copy(); self.configs += 1
                s.tree[('reg', obj)] = r
                for side, x, xm in (('l', a, am), ('r', b, bm)):
                    s.tree[self.kid(obj, side)] = (x, xm, None)
                v = list(self.stub(obj)[3])
                v[self.S.L] = ('p', self.kid(obj, 'l'), ()); v[self.S.R] = ('p', self.kid(obj, 'r'), ())
                v[self.S.H] = self.stored(s, obj)
                s.mem[obj] = ('adt', self.S.node, 0, tuple(v))
                s.rw[obj] = 1
                alts.append(s)
        raise Fork(alts)

    def stored(self, st, obj):
        """hash stored in a node that was not looked into yet"""
        e = st.tree.get(('eff', obj))
        if e is None: return ('t', 'HT', obj)
        return ('t', 'HTE', obj) if e[1] else ('t', 'STALE', obj)

    def lazy_field(self, st, obj, path):
        if self.folded(st, obj) and path and path[0] == self.S.H and len(path) == 1:
            if self.null(self.I, st, obj): raise Bad('null-deref', 'dereference of a null node pointer', self.I.at, st)
            return self.stored(st, obj)
        return None

    def on_write(self, I, st, obj, path, val):
        if path and path[0] in (self.S.V, self.S.H): return
        raise Undecided('the operation restructures the tree', I.at)

    def null(self, I, st, obj):
        if obj[1][0] in ('sel', 'X') or obj in st.mem: return False
        info = st.tree.get(obj)
        if info is None: raise Undecided('null test of an unknown node', I.at)
        must, may, nn = info
        if nn is not None: return nn == 'N'
        if must: return False
        if not may: return True
        if must == may: return not must
        a = st.copy(); a.tree[obj] = (frozenset(), frozenset(), 'N'); a.note('empty subtree')
        b = st.copy(); b.tree[obj] = (must, may, 'Y')
        raise Fork([a, b])

    # ------------------------------------------------------------ order
    def regof(self, st, t):
        """region of a key term"""
        if t[0] == 't' and t[1] == 'k' and isnode(t[2]): return st.tree.get(('reg', t[2]))
        return None

    def rel(self, I, st, a, b):
        ra, rb = self.regof(st, a), self.regof(st, b)
        c = self.ctx
        if ra is not None and b in c.rels: return c.rels[b][ra]
        if rb is not None and a in c.rels: return FLIP[c.rels[a][rb]]
        if ra is not None and rb is not None:
            if a == b: return '='
            if ra != rb: return '<' if ra < rb else '>'
            if c.uniq(ra): return '='
            return self.same_region_rel(st, a[2], b[2])
        if a in c.rels and b in c.rels:
            return self.qrel(a, b)
        if ra is not None or rb is not None: raise Undecided('comparison of a key with an unrelated term %s' % show(b if ra is not None else a), I.at)
        return None

    def qrel(self, a, b):
        x, y = self.ctx.rels[a], self.ctx.rels[b]
        if a == b or x == y: return '='
        # a < b if some element is above a and below-or-equal b
        for i in range(self.ctx.n):
            if x[i] in '>=' and y[i] in '<=' and x[i] + y[i] != '==': return '<'
            if y[i] in '>=' and x[i] in '<=' and x[i] + y[i] != '==': return '>'
        raise Undecided('order of two queries')

    def same_region_rel(self, st, x, y):
        sx = x[1] if x[1][0] == 'sel' else None; sy = y[1] if y[1][0] == 'sel' else None
        if sx and sy and sx[1] == sy[1] and sx[2] == sy[2] and {sx[3], sy[3]} == {'first', 'last'}:
            # first <= last of the same region: equal iff single
            raise Undecided('order of first and last of a region')
        raise Undecided('order of two nodes of the same region', self.I.at)

    def truth(self, I, st, v):
        if v[0] == 't' and v[1] == 'pred' and v[2] == 'is_prefix':
            r = self.regof(st, v[3])
            if r is not None and v[4] in self.ctx.prefix: return self.ctx.prefix[v[4]][r]
        return None

    def eq(self, I, st, x, y): return None
    def same_node(self, I, st, a, b): return None
    def pop(self, I, st, o, p, segs, back): raise Undecided('pop from an unknown sequence', I.at)
    def drop_hook(self, I, st, v): return False

    def filter_variants(self, I, alts, v, t):
        if v[0] == 't' and v[1] == 'W':
            ok = []
            names = [x['name'] for x in self.P.adts[HTN]['variants']]
            for s in alts:
                if names[s.facts[t]] in v[4]: ok.append(s)
            return ok
        return alts

    def comparator(self, st, callee, args):
        """user comparison function applied to a key of the tree"""
        if callee in self.ctx.cmps and len(args) == 1:
            k = viewval(self.I, st, args[0]); r = self.regof(st, k)
            if r is not None: return ORDV[self.ctx.cmps[callee][r]]
        return None

    # ------------------------------------------------------------ hashes
    def hnull(self, st, obj):
        if obj in st.mem or obj[1][0] in ('sel', 'X'): return False
        info = st.tree.get(obj)
        if info is None: return None
        must, may, nn = info
        if nn is not None: return nn == 'N'
        if must: return False
        if not may: return True
        return None

    def data(self, k, v): return sha(sep('ic-hashtree-labeled'), ('t', 'by', ('t', 'label', k)), ('t', 'H', v))

    def truehash(self, st, obj, now=False):
        """hash of the complete contents below obj (original, or current)"""
        n = self.hnull(st, obj)
        if n: return EMPTYH
        if obj in st.mem and obj[1][0] in ('T', 'l', 'r', 'root'):
            f = st.mem[obj][3]
            v = f[self.S.V] if now else ('t', 'v', obj)
            l, r = self.kid(obj, 'l'), self.kid(obj, 'r')
            parts = []
            for c in (l, None, r):
                if c is None: parts.append(self.data(('t', 'k', obj), v)); continue
                cn = self.hnull(st, c)
                if cn is None: return ('t', 'HTE' if now and ('eff', obj) in st.tree else 'HT', obj) if not now or not self.changed(st, obj) else ('t', 'unknown-null', obj)
                if not cn: parts.append(self.truehash(st, c, now))
            h = parts[-1]
            for p in reversed(parts[:-1]): h = forkh(p, h)
            return h
        if now and ('eff', obj) in st.tree: return ('t', 'HTE', obj)
        return ('t', 'HT', obj)

    def changed(self, st, obj):
        if ('eff', obj) in st.tree: return True
        if obj in st.mem and obj[1][0] in ('T', 'l', 'r', 'root'):
            if st.mem[obj][3][self.S.V] != ('t', 'v', obj): return True
            return any(self.changed(st, self.kid(obj, s)) for s in 'lr')
        return False

    def nh(self, st, v):
        """normal form of a hash term"""
        if not isinstance(v, tuple): return v
        if v[:1] == ('t',):
            if v[1] == 'HT' and isnode(v[2]): return self.truehash(st, v[2])
            if v[1] == 'HTE' and isnode(v[2]): return self.truehash(st, v[2], True)
            if v[1] == 'recon': return self.nh_recon(st, v[2])
            if v[1] == 'f' and len(v) == 5 and v[2][:2] == ('t', 'W'): return self.truehash(st, v[2][2])
            if v[1] == 'f' and len(v) == 5 and v[2][:2] == ('t', 'tree'): return ('t', 'recon-payload', v)
            if v[1] == 'by' and len(v) == 3 and v[2][0] == 't' and v[2][1] in ('f', 'HT', 'HTE', 'recon', 'H', 'sha'): return self.nh(st, v[2])
        return tuple(self.nh(st, x) for x in v)

    def nh_recon(self, st, v):
        if v[:2] == ('t', 'W'): return self.truehash(st, v[2])
        if v[:2] == ('t', 'tree'): return ('t', 'H', v[2])
        if v[:2] == ('t', 'callf'):
            # the witness a caller supplies for a nested value reconstructs to that value's hash
            a = v[3][0] if v[3] else None
            if a and a[0] == 'p' and isnode(a[1]) and a[2] == (self.S.V,): return ('t', 'H', ('t', 'v', a[1]))
        return ('t', 'recon', v)

    # ------------------------------------------------------------ hash-tree results
    def visible(self, I, st, v, out):
        """labels shown by an explicit hash tree"""
        while v[0] in ('p', 'bx'):
            o, p = I.deref(st, v); v = I.read(st, o, p)
        if v[:2] == ('t', 'W'):
            out[('sub', v[2])] = dict(v[3]); return
        if v[0] == 'adt' and v[1] == HTN:
            nm = self.P.adts[HTN]['variants'][v[2]]['name']
            if nm == 'Fork':
                f = v[3][0]
                while f[0] in ('p', 'bx'):
                    o, p = I.deref(st, f); f = I.read(st, o, p)
                for x in f[3]: self.visible(I, st, x, out)
            elif nm == 'Labeled':
                lab = BY(I, st, v[3][0])
                obj = None
                if len(lab) == 1 and lab[0][:2] == ('t', 'by') and lab[0][2][:2] == ('t', 'label') and lab[0][2][2][:2] == ('t', 'k'): obj = lab[0][2][2][2]
                sub = v[3][1]
                while sub[0] in ('p', 'bx'):
                    o, p = I.deref(st, sub); sub = I.read(st, o, p)
                mark = 'other'
                if sub[0] == 'adt' and sub[1] == HTN and self.P.adts[HTN]['variants'][sub[2]]['name'] == 'Pruned': mark = 'key'
                elif sub[:2] == ('t', 'tree'): mark = 'kv' if obj is not None and sub[2] == ('t', 'v', obj) else 'other'
                elif sub[:2] == ('t', 'callf'):
                    a = sub[3][0] if sub[3] else None
                    mark = 'f' if a and a[0] == 'p' and a[1] == obj and a[2] == (self.S.V,) else 'other'
                if obj is None: out[('odd', len(out))] = 'label'
                else: out[obj] = mark
            elif nm == 'Leaf': out[('odd', len(out))] = 'leaf'
            return
        if v[:2] in (('t', 'tree'), ('t', 'callf')): out[('odd', len(out))] = 'value without label'; return
        raise Undecided('hash tree of unknown shape %s' % show(v), I.at)

    def marks(self, st, obj, vis):
        """region -> mark below obj, given the visible labels"""
        if self.hnull(st, obj): return {}
        if obj in st.mem and ('sub', obj) not in vis:
            out = {}
            def j(r, m): out[r] = m if out.get(r, m) == m else 'mix'
            for s in 'lr':
                for r, m in self.marks(st, self.kid(obj, s), vis).items(): j(r, m)
            j((st.tree[('reg', obj)], 'all'), vis.get(obj, 'hidden'))
            return out
        if ('sub', obj) in vis: return dict(vis[('sub', obj)])
        return {(r, 'all'): 'hidden' for r in st.tree[obj][1]}

    def is_ht(self, v): return v[0] == 'adt' and v[1] == HTN

    def ht_summary(self, I, st, v, T, fn):
        """replace an explicit hash tree describing T by an abstract one"""
        from base import recon
        want = self.truehash(st, T); got = self.nh(st, recon(I, st, v))
        hts = {}
        vis = {}; self.visible(I, st, v, vis)
        got = self.nh(st, got)
        if got != want:
            self.issues.append(('recon', fn, 'the hash tree built for a subtree does not reconstruct to the stored hash of that subtree', I.at, show_path(st), (got, want)))
        odd = [k for k in vis if k[0] == 'odd']
        m = self.marks(st, T, vis)
        for k in vis:
            if isnode(k) and k not in self.below(st, T): self.issues.append(('foreign', fn, 'the witness shows a label that does not belong to this subtree', I.at, show_path(st), show(k)))
        if odd: m[(-1, 'all')] = 'odd:' + str(vis[odd[0]])
        nm = self.P.adts[HTN]['variants'][v[2]]['name'] if v[0] == 'adt' else None
        vs = (nm,) if nm else v[4] if v[:2] == ('t', 'W') else tuple(x['name'] for x in self.P.adts[HTN]['variants'])
        return ('t', 'W', T, tuple(sorted(m.items())), tuple(vs))

    def below(self, st, obj):
        if obj in st.mem and obj[1][0] in ('T', 'l', 'r', 'root'):
            return [obj] + self.below(st, self.kid(obj, 'l')) + self.below(st, self.kid(obj, 'r'))
        return []

    # ------------------------------------------------------------ summaries of recursive functions and loops
    def atoms(self, st, tau, pts):
        """in-order atoms of tau: (region, part, must, may, X); pts: sel nodes of tau used by the call"""
        must, may, nn = st.tree[tau]
        out = []
        for r in range(self.ctx.n):
            ps = {}
            for x in pts:
                if x[1][0] == 'sel' and ('N', x[1][1]) == tau and st.tree.get(('reg', x)) == r: ps[x[1][3]] = x
            if not ps: out.append((r, 'all', r in must, r in may, None)); continue
            if self.ctx.uniq(r):
                out.append((r, 'all', True, True, list(ps.values())[0])); continue
            if set(ps) - {'first', 'last'}:
                if len(ps) > 1: raise Undecided('position of a node inside its region is unknown', self.I.at)
                x = list(ps.values())[0]
                out += [(r, 'before', False, True, None), (r, 'it', True, True, x), (r, 'after', False, True, None)]; continue
            if 'first' in ps and 'last' in ps: raise Undecided('first and last of one region', self.I.at)
            if 'first' in ps: out += [(r, 'first', True, True, ps['first']), (r, 'rest', False, True, None)]
            else: out += [(r, 'rest', False, True, None), (r, 'last', True, True, ps['last'])]
        return out

    def apply(self, I, st, kind, fn, args, extra=None):
        """args: tuple of values; returns list of (state, kind, value) or None when not applicable"""
        # --- scan the arguments
        memo = {}; order = []; nodes = []
        ptrs = []
        def scan(v):
            if not isinstance(v, tuple) or not v: return
            if isnode(v):
                if v not in nodes: nodes.append(v)
                return
            if v[0] in ('p', 'bx') and len(v) >= 2 and v != NULL:
                o = v[1]
                if isnode(o):
                    if v[0] == 'p' and v[2] == () and o not in ptrs: ptrs.append(o)
                    if o not in nodes: nodes.append(o)
                    return
                if o not in memo:
                    memo[o] = len(order); order.append(o)
                    c = st.mem.get(o)
                    if c is not None and not self.owns_tree(c): scan(c)
                return
            for x in v: scan(x)
        scan(args)
        fold = [o for o in ptrs if o[1][0] in ('T', 'l', 'r', 'root') and o not in st.mem]
        if len(fold) > 1: raise Undecided('call with several subtrees: ' + str(fn), I.at)
        if fold: tau = fold[0]
        else:
            c = [o for o in ptrs if o[1][0] in ('T', 'l', 'r', 'root')]
            if len(c) != 1: return None
            tau = c[0]
            if self.changed(st, tau): raise Undecided('call on a modified subtree', I.at)
        xs = [o for o in nodes if o != tau]
        isnull = self.null(I, st, tau)          # may fork
        # --- the part of the context the call can see
        qs = set()
        def findq(v):
            if not isinstance(v, tuple): return
            if v in self.ctx.rels or v in self.ctx.prefix or v in self.ctx.cmps: qs.add(v)
            for x in v: findq(x)
        findq(args)
        for o in order:
            if o in st.mem and not self.owns_tree(st.mem[o]): findq(st.mem[o])
        pts = [x for x in xs if ('reg', x) in st.tree]
        if tau in st.tree: ats = self.atoms(st, tau, [x for x in pts if x[1][0] == 'sel'])
        else: raise Undecided('subtree without content facts', I.at)
        xreg = {st.tree[('reg', x)]: x for x in pts if x[1][0] != 'sel' or ('N', x[1][1]) != tau}
        groups = []
        qk = sorted(qs)
        for a in ats:
            r = a[0]
            pt = a[4]
            if pt is None and r in xreg and self.ctx.uniq(r): pt = xreg[r]
            sig = (tuple(self.ctx.rels[q][r] if q in self.ctx.rels else None for q in qk),
                   tuple(self.ctx.prefix[q][r] if q in self.ctx.prefix else None for q in qk),
                   tuple(self.ctx.cmps[q][r] if q in self.ctx.cmps else None for q in qk), pt)
            eqpt = (self.ctx.uniq(r) or a[1] in ('first', 'last', 'it')) and (pt is not None or '=' in sig[0] + sig[2])
            if groups and groups[-1][0] == sig and not groups[-1][2] and not eqpt: groups[-1][1].append(a)
            else: groups.append((sig, [a], eqpt))
        must = frozenset(i for i, g in enumerate(groups) if any(a[2] for a in g[1]))
        may = frozenset(i for i, g in enumerate(groups) if any(a[3] for a in g[1]))
        T = ('N', ('T', 0))
        nctx = lambda ren: Ctx([('g%d' % i, g[2]) for i, g in enumerate(groups)],
                   rels=[(q, tuple(g[0][0][j] for g in groups)) for j, q in enumerate(qk) if q in self.ctx.rels],
                   prefix=[(q, tuple(g[0][1][j] for g in groups)) for j, q in enumerate(qk) if q in self.ctx.prefix],
                   cmps=[(q, tuple(g[0][2][j] for g in groups)) for j, q in enumerate(qk) if q in self.ctx.cmps])
        exact = bool(qk) or any(g[0][3] is not None for g in groups)
        if not exact: must, may = (frozenset(), frozenset(range(len(groups)))) if not isnull else (frozenset(), frozenset())
        if isnull: must = may = frozenset()
        xmap = {}; xregs = []
        for x in xs:
            if x not in xmap:
                i = len(xmap); xmap[x] = ('N', ('X', i))
                gi = [j for j, g in enumerate(groups) if g[0][3] == x]
                xregs.append(gi[0] if gi else None)
        fid = extra[0] if kind == 'loop' else None
        fmap = {o: (('L', 'LP', o[2]) if o[0] == 'L' and o[1] == fid else ('F', i) if o[0] not in ('S', 'C', 'd') else o) for i, o in enumerate(order)}
        def ren(v):
            if not isinstance(v, tuple): return v
            if isnode(v): return T if v == tau else xmap.get(v, v)
            if v in fmap: return fmap[v]
            return tuple(ren(x) for x in v)
        cargs = ren(args)
        fcont = []
        for o in order:
            c = st.mem.get(o)
            if c is None or self.owns_tree(c): fcont.append((fmap[o], None))
            else: fcont.append((fmap[o], ren(c)))
        ctx2 = nctx(ren)
        if kind == 'loop': extra = extra[1]
        key = (kind, fn, cargs, tuple(fcont), ctx2.key(), tuple(sorted(must)), tuple(sorted(may)), 'N' if isnull else 'Y', tuple(xregs))
        if key not in self.table:
            self.table[key] = {}; self.deps.setdefault(key, set())
            self.runners[key] = (ctx2, cargs, fcont, must, may, isnull, xregs, extra)
            self.dirty.append(key)
        if self.cur is not None: self.deps[key].add(self.cur)
        if not self.solving: self.solve(I)
        # --- instantiate
        back = {v: k for k, v in xmap.items()}; fback = {v: k for k, v in fmap.items()}
        res = []
        for (okey, descs) in list(self.table[key].items()):
            s = st.copy()
            try: r = self.instantiate(I, s, okey, descs, tau, groups, back, fback, ats, order)
            except Infeasible: continue
            res.append(r)
        return res

    def owns_tree(self, c): return has_term(c, lambda v: v[:1] == ('adt',) and len(v) > 1 and v[1] == self.S.map)

    def solve(self, I):
        self.solving = True
        save = (self.ctx, self.cur, I.at, list(I.stack))
        try:
            while self.dirty:
                key = self.dirty.pop(0)
                self.iters += 1
                if self.iters > 4000: raise Undecided('summary iteration does not settle')
                self.cur = key
                new = self.compute(I, key)
                old = self.table[key]
                merged = dict(old)
                for k, d in new.items():
                    if k in merged: merged[k] = tuple(a if a[0] != b[0] else (a[0], a[1] & b[1]) for a, b in zip(merged[k], d))
                    else: merged[k] = d
                if merged != old:
                    self.table[key] = merged
                    for d in self.deps[key]:
                        if d not in self.dirty: self.dirty.append(d)
        finally:
            self.solving = False
            self.ctx, self.cur, I.at, I.stack = save[0], save[1], save[2], save[3]

    def compute(self, I, key):
        kind, fn = key[0], key[1]
        ctx2, cargs, fcont, must, may, isnull, xregs, extra = self.runners[key]
        self.ctx = ctx2
        T = ('N', ('T', 0))
        st = State()
        st.tree[T] = (must, may, 'N' if isnull else 'Y')
        for i, r in enumerate(xregs):
            x = ('N', ('X', i)); st.mem[x] = self.stub(x)
            if r is not None: st.tree[('reg', x)] = r
        for o, c in fcont:
            if c is not None: st.mem[o] = c
        nb = len(self.issues)
        self.issues = [i for i in self.issues if i[-1] != key] if False else self.issues
        outs = I.run_summary(st, kind, fn, cargs, extra)
        res = {}
        mark = len(self.issues)
        for (s, k, v) in outs:
            for (kk, d) in self.outcome(I, s, k, v, T, fcont, fn): res[kk] = tuple(a if a[0] != b[0] else (a[0], a[1] & b[1]) for a, b in zip(res[kk], d)) if kk in res else d
        return res

    # descriptors of a node relative to the analysed subtree
    def desc(self, st, obj, T):
        if obj[1][0] == 'X': return (('X', obj), frozenset())
        if obj[1][0] == 'sel':
            p = ('N', obj[1][1]); r = obj[1][2]; D = {obj[1][3]} if not self.ctx.uniq(r) else {'first', 'last'}
            if obj[1][3] == 'root': D = D | {'subroot'}
            D = D - {'root', 'any', 'subroot'}
        else:
            p = obj; r = st.tree.get(('reg', obj)); D = set()
            if r is None:
                # folded subtree pointer handed out
                return (('tree', self.rel_path(obj, T)), frozenset())
            if r not in st.tree[self.kid(obj, 'l')][1]: D.add('first')
            if r not in st.tree[self.kid(obj, 'r')][1]: D.add('last')
            if self.ctx.uniq(r): D = {'first', 'last'}
            if obj == T: D.add('root')
        # lift to T
        while p != T:
            if p[1][0] not in ('l', 'r'): return (('?', obj), frozenset())
            side, up = p[1][0], ('N', p[1][1])
            sib = self.kid(up, 'r' if side == 'l' else 'l')
            if up not in st.mem: return (('?', obj), frozenset())
            other = st.tree[('reg', up)] == r or r in st.tree[sib][1]
            if other and not self.ctx.uniq(r): D.discard('last' if side == 'l' else 'first')
            D.discard('root')
            p = up
        return (('T', r), frozenset(D))

    def rel_path(self, obj, T):
        p = obj; out = ''
        while p != T:
            if p[1][0] not in ('l', 'r'): return None
            out = p[1][0] + out; p = ('N', p[1][1])
        return out

    def outcome(self, I, st, kind, v, T, fcont, fn):
        """abstract one final state -> [(outcome key, descriptors)]"""
        # explicit hash trees become abstract ones
        def ab(x):
            if isinstance(x, tuple) and x:
                if x[0] == 'adt' and x[1] == HTN: return self.ht_summary(I, st, x, T, fn)
                if x[:2] == ('t', 'W'): return self.ht_summary(I, st, x, T, fn)
                if x[0] == 'bx' and x[1] in st.mem and has_term(st.mem[x[1]], lambda y: y[:2] == ('adt', HTN)): return ('bx', x[1])
                if x[0] in ('adt',): return (x[0], x[1], x[2], tuple(ab(y) for y in x[3]))
            return x
        v = ab(v)
        outs = []
        for o, c in fcont:
            if c is None or o[:2] == ('L', 'LP'): continue
            n = st.mem.get(o)
            if n != c: outs.append((o, ab(n)))
        # value effects on the subtree
        effs = []
        for n in self.below(st, T):
            f = st.mem[n][3]
            if f[self.S.V] != ('t', 'v', n): effs.append((n, f[self.S.V]))
        def sub(obj):
            e = st.tree.get(('eff', obj))
            if e: effs.extend(e[0])
        for n in self.below(st, T):
            for s in 'lr':
                k = self.kid(n, s)
                if k not in st.mem: sub(k)
        if T not in st.mem: sub(T)
        fresh = True
        if T in st.mem:
            for n in self.below(st, T):
                if self.nh(st, st.mem[n][3][self.S.H]) != self.nh(st, self.truehash(st, n, True)):
                    fresh = False
                    break
            for n in self.below(st, T):
                for s in 'lr':
                    e = st.tree.get(('eff', self.kid(n, s)))
                    if e and not e[1]: fresh = False
        elif ('eff', T) in st.tree: fresh = st.tree[('eff', T)][1]
        eff = (tuple(effs), fresh)
        facts = tuple(sorted(((k, x) for k, x in st.facts.items() if not self.transient(k)), key=repr))
        ev = self.fold_events(st, st.ev, T)
        # reachable fresh memory
        newm = {}; no = []
        known = {o for o, _ in fcont}
        def reach(x):
            if not isinstance(x, tuple) or not x or isnode(x): return
            if x[0] in ('p', 'bx') and len(x) >= 2 and isinstance(x[1], tuple) and not isnode(x[1]) and x[1][0] not in ('S', 'C', 'd', 'F') and x[1] not in known:
                if x[1] not in newm:
                    newm[x[1]] = ('O', len(no)); no.append(x[1]); reach(st.mem.get(x[1], UNDEF))
                return
            for y in x: reach(y)
        reach(v); reach(tuple(outs))
        def ro(x):
            if isinstance(x, tuple):
                if not isnode(x) and x in newm: return newm[x]
                return tuple(ro(y) for y in x)
            return x
        tmpl = (kind, ro(v), ro(tuple(outs)), tuple((newm[o], ro(ab(st.mem.get(o, UNDEF)))) for o in no), facts, ev, eff)
        holes = []; descs = []
        def hole(n):
            if n == T and False: return n
            if n in holes: return ('N', ('H', holes.index(n)))
            holes.append(n); descs.append(self.desc(st, n, T))
            return ('N', ('H', len(holes) - 1))
        def mapx(x):
            if isinstance(x, tuple):
                if x[:2] == ('t', 'W') and x[2] == T: return ('t', 'W', ('N', ('H', 'T')), x[3], x[4])
                if x[:1] == ('@all',): return x
                if isnode(x): return hole(x)
                return tuple(mapx(y) for y in x)
            return x
        tm = mapx(tmpl)
        regs = tuple(d[0] for d in descs)
        return [((tm, regs), tuple(descs))]

    def transient(self, k):
        """facts about the inside of the analysed subtree do not leave the summary"""
        return has_term(k, lambda v: isnode(v) and v[1][0] in ('l', 'r', 'T'))

    def fold_events(self, st, ev, T):
        """per-entry events of a complete in-order traversal become one event"""
        ev = tuple(e for e in ev if relevant(e))
        if self.hnull(st, T): return ev
        if T not in st.mem: return ev
        if self.ctx.rels or self.ctx.prefix or self.ctx.cmps: return ev
        l, r = self.kid(T, 'l'), self.kid(T, 'r')
        H = ('N', ('H', 'e'))
        def gen(e, n): return map_nodes(e, lambda x: H if x == n else x)
        own = [gen(e, T) for e in ev if T in nodes_in(e) and e[0] != '@all']
        if len(own) != 1: return ev
        e0 = strip_seq(own[0])
        want = []
        if not self.hnull(st, l): want.append(('@all', l, e0))
        want.append(e0)
        if not self.hnull(st, r): want.append(('@all', r, e0))
        got = [strip_seq(gen(e, T)) if e[0] != '@all' else e for e in ev]
        if got == want: return (('@all', T, e0),)
        return ev

    def instantiate(self, I, s, okey, descs, tau, groups, back, fback, ats, order):
        tm, regs = okey
        hm = {}
        for i, (w, D) in enumerate(descs):
            if w[0] == 'X': hm[i] = back[w[1]]; continue
            if w[0] == 'T':
                g = groups[w[1]][1]
                pick = 'first' if 'first' in D else 'last' if 'last' in D else 'root' if 'root' in D else 'any'
                if pick == 'root' and tau in s.mem: hm[i] = tau; continue
                a = None
                if len(g) == 1: a = g[0]
                else:
                    seq = g if pick != 'last' else list(reversed(g))
                    if pick in ('first', 'last'):
                        for x in seq:
                            if not x[3]: continue
                            if x[2]: a = x; break
                            raise Undecided('which region the result lies in is unknown', I.at)
                if a is None:
                    n = ('N', ('sel', tau[1], -1, pick)); hm[i] = n; continue
                if a[4] is not None: hm[i] = a[4]; continue
                if a[1] != 'all': raise Undecided('result inside a split region', I.at)
                if self.ctx.uniq(a[0]): pick = 'first'
                n = ('N', ('sel', tau[1], a[0], pick))
                s.tree[('reg', n)] = a[0]
                hm[i] = n
                continue
            raise Undecided('summary result refers to an inner node', I.at)
        fresh = {}
        def inst(x):
            if isinstance(x, tuple):
                if x[:2] == ('t', 'W') and x[2] == ('N', ('H', 'T')):
                    ms = []
                    for (r, part), m in x[3]:
                        if r < 0: ms.append(((r, part), m)); continue
                        ms += [((a[0], a[1]), m) for a in groups[r][1] if a[3]]
                    return ('t', 'W', tau, tuple(sorted(ms)), x[4])
                if x[:1] == ('@all',): return ('@all', tau, x[2])
                if isnode(x):
                    h = x[1]
                    if h[0] == 'H': return hm[h[1]]
                    return x
                if x[:1] == ('O',) and len(x) == 2:
                    if x not in fresh: I.fid += 1; fresh[x] = ('box', I.fid)
                    return fresh[x]
                if x in fback: return fback[x]
                return tuple(inst(y) for y in x)
            return x
        kind, v, outs, mem, facts, ev, eff = tm
        for k, val in facts:
            k = inst(k)
            if k in s.facts:
                if s.facts[k] != val: raise Infeasible()
            else: s.facts[k] = val
        v = inst(v)
        for o, c in outs: s.mem[fback.get(o, o)] = inst(c)
        for o, c in mem: s.mem[inst(o)] = inst(c)
        s.ev = s.ev + tuple(inst(e) for e in ev)
        if eff[0]:
            if tau in s.mem: raise Undecided('update below an unfolded node', I.at)
            old = s.tree.get(('eff', tau), ((), True))
            s.tree[('eff', tau)] = (old[0] + tuple((inst(n), inst(x)) for n, x in eff[0]), old[1] and eff[1])
        elif not eff[1] and tau not in s.mem: s.tree[('eff', tau)] = (s.tree.get(('eff', tau), ((), True))[0], False)
        for o in order: pass
        return (s, kind, v)


def relevant(e):
    if e[0] == 'clone': return False
    if e[0] == 'drop': return e[1][:1] == ('t',) and e[1][1] in ('k', 'v', 'arg', 'post', 'new')
    return True


def strip_seq(v):
    return v


def show_path(st): return '; '.join(str(x) for x in st.path[-12:])
