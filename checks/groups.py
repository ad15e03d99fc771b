"""C20 group witnesses, C21 group construction, C22 typed access to group members."""
from dicts import *
import budget

G = 'collections::group::'
GROUP, NODE, RAY, BUILDER = G + 'Group', G + 'GroupNode', G + 'Ray', G + 'builder::GroupBuilder'


def tn(t):
    while t and t.get('k') in ('ref', 'ptr'): t = t['t']
    return (t or {}).get('n')


class Lay:
    """positions of the parts, found by their types"""
    def __init__(self, P):
        self.P = P
        def fields(n): return P.adts[n]['variants'][0]['fields'] if P.adts.get(n) else []
        self.root = self.data = self.deps = None
        for i, f in enumerate(fields(GROUP)):
            t = f['ty']
            if t.get('n') == NODE: self.root = i
            elif t.get('n') in MAPS and len(t['a']) >= 2: 
                if t['a'][1].get('n') == 'std::boxed::Box': self.data = i
                else: self.deps = i
        self.id = self.inner = None
        for i, f in enumerate(fields(NODE)):
            if f['ty']['k'] == 'int': self.id = i
            elif f['ty']['k'] == 'adt': self.inner = i; self.innerty = f['ty']['n']
        self.group = self.visit = self.leaves = None
        for i, f in enumerate(fields(RAY)):
            t = f['ty']
            if tn(t) == GROUP: self.group = i
            elif t.get('n') in MAPS: 
                if t['n'].endswith('Set'): self.visit = i
                else: self.leaves = i
        self.kinds = {}
        if self.inner is not None and P.adts.get(self.innerty):
            for i, v in enumerate(P.adts[self.innerty]['variants']):
                ns = [f['ty'].get('n') for f in v['fields']]
                if ns == ['std::boxed::Box'] * 2: self.kinds['fork'] = i
                elif sorted(map(str, ns)) == sorted(['std::string::String', 'std::boxed::Box']): self.kinds['labeled'] = i; self.lab = ns.index('std::string::String')
                elif ns == ['std::any::TypeId']: self.kinds['leaf'] = i
        self.bchildren = None
        self.broot = self.bdata = None; self.bnode = None
        for i, f in enumerate(fields(BUILDER)):
            t = f['ty']
            if t.get('n') in MAPS: self.bdata = i
            elif t['k'] == 'adt': self.broot = i; self.bnode = t['n']
        self.bk = {}
        if self.bnode and P.adts.get(self.bnode) and P.adts[self.bnode]['kind'] == 'enum':
            for i, v in enumerate(P.adts[self.bnode]['variants']):
                ts = [f['ty'] for f in v['fields']]
                if len(ts) == 1 and ts[0].get('n') == 'std::any::TypeId': self.bk['leaf'] = i
                elif len(ts) == 1: self.bk['dir'] = i; self.bmap = ts[0].get('n')

    def group_ok(self): return None not in (self.root, self.data, self.deps, self.id, self.inner, self.group, self.visit, self.leaves) and len(self.kinds) == 3
    def builder_ok(self): return None not in (self.broot, self.bdata) and len(self.bk) == 2


def role(P, fn):
    f = P.fns.get(fn)
    if not f or 'ins' not in f: return None
    ins, out = f['ins'], f['out']
    if not ins or tn(ins[0]) != NODE: return None
    if tn(out) == HT: return 'wit' if any(tn(t) == RAY and t.get('m') for t in ins[1:]) else 'all' if any(tn(t) == GROUP for t in ins[1:]) else None
    if out['k'] == 'array': return 'hash'
    if out['k'] == 'int' and any(t['k'] == 'ref' and t.get('m') and tn(t) in MAPS for t in ins): return 'visit'
    return None


@dreg('std::any::TypeId::of')
def _(I, st, a, m, d): return [(st, ('t', 'typeid', m['a'][0].get('s')))]
@dreg('std::any::Any::type_id')
def _(I, st, a, m, d):
    t = m['a'][0]
    return [(st, ('t', 'dyntid', viewval(I, st, a[0])) if t['k'] == 'dyn' else ('t', 'typeid', t.get('s')))]


def _anydown(I, st, a, m, d):
    """checked downcast of the standard library"""
    t = (m.get('a') or [{}])[-1].get('s')
    c = viewval(I, st, a[0])
    eq = ('t', 'cmpop', 'Eq') + tuple(sorted((('t', 'dyntid', c), ('t', 'typeid', t)), key=repr))
    if not hasattr(I, 'L'): return NotImplemented
    if not I.truth(st, eq): return [(st, NONE)]
    o, p = I.deref(st, a[0])
    return [(st, some(('p', o, p)))]
def _anyis(I, st, a, m, d):
    t = (m.get('a') or [{}])[-1].get('s')
    return [(st, boolv(I.truth(st, ('t', 'cmpop', 'Eq') + tuple(sorted((('t', 'dyntid', viewval(I, st, a[0])), ('t', 'typeid', t)), key=repr)))))]
def _onany(f):
    def g(I, st, a, m, d): return f(I, st, a, m, d) if 'dyn std::any::Any' in (m or {}).get('p', '') else NotImplemented
    return g
DM['::downcast_ref'] = DM['::downcast_mut'] = _onany(_anydown); DM['::is'] = _onany(_anyis)


class GI(DI):
    """interpreter for groups: recursion over nodes by structural induction"""
    def __init__(self, P, L):
        DI.__init__(self, P)
        self.L = L; self.ih = lambda I, *a: self.node_ih(*a); self.top = None
        self.boxed = ()

    def distinct(self, a, b): return False

    def member(self, st, M, k):
        while M[:2] in (('t', 'put'), ('t', 'del')): M = M[2]
        if M in self.boxed:
            o = ('lo', M, k); st.mem[o] = self.boxval(st, M, k); return ('bx', o)
        return ('t', 'mval', M, k)
    def boxval(self, st, M, k): return ('t', 'mval', M, k)

    def truth(self, st, t):
        if t not in st.facts and t[:2] == ('t', 'cmpop'):
            x = [y for y in t[3:] if y[:2] == ('t', 'dyntid')]
            y = [y for y in t[3:] if y[:2] == ('t', 'typeid')]
            if x and y and self.inv(x[0], y[0]) is not None: return self.inv(x[0], y[0]) == (t[2] == 'Eq')
        return DI.truth(self, st, t)

    def inv(self, dyn, tid):
        """members are stored under their own type (decided in C22)"""
        if not self.boxed: return None
        v = dyn[2]
        if v[:2] == ('t', 'mval') and v[2] in self.boxed: return True if v[3] == tid else None
        return None

    def name_of(self, st, a):
        o, p = self.deref(st, a)
        v = self.read(st, o, p)
        while v[0] in ('p', 'bx') and v != NULL:
            o, p = self.deref(st, v); v = self.read(st, o, p)
        return ('t', 'node', o, p)

    def node_ih(self, st, path, args, meta, dty):
        r = role(self.P, path)
        if r is None:
            f = self.P.fns.get(path) or {}
            if len(f.get('ins', ())) == 1 and f['ins'][0].get('n') == self.L.bnode and f['ins'][0]['k'] == 'adt' and f['out'].get('n') == NODE and not self.top:
                return [(st, ('t', 'built', pure(self, st, args[0])))]
            return None
        n = self.name_of(st, args[0])
        if n == self.top: return None
        if path not in getattr(self.L, 'step', (path,)) and self.P.recursive(path): raise Undecided('%s is a part of a step of the recursion, entered for a child' % path)
        st = st.copy()
        f = self.P.fns[path]
        if r == 'hash': st.emit('hashof', n, self.groups(st, f, args)); return [(st, ('t', 'H', n))]
        if r == 'all': st.emit('all', n, self.groups(st, f, args)); return [(st, ('t', 'atree', n))]
        if r == 'wit': st.emit('wit', n, self.raystate(st, f, args)); return [(st, ('t', 'wtree', n))]
        if r == 'visit':
            ins = f['ins']; idt = mp = vc = None
            for i, t in enumerate(ins[1:], 1):
                if t['k'] == 'int': idt = args[i]
                elif tn(t) in MAPS: mp = args[i]
                elif tn(t) in ('std::vec::Vec', VEC): vc = args[i]
            if idt is None or mp is None or vc is None: return None
            o, p, M = target(self, st, mp)
            pv = self.read(st, *self.deref(st, vc)) if vc[0] == 'p' else vc
            segs = tuple(vec_segs(pure(self, st, pv)))
            st.emit('visit', n, idt, segs, M)
            self.write(st, o, p, ('t', 'depsof', n, M, segs))
            return [(st, ('t', 'next', n, idt))]
        return None

    def raystate(self, st, f, args):
        i = next(i for i, t in enumerate(f['ins']) if tn(t) == RAY)
        v = args[i]
        while v[0] == 'p': v = self.read(st, *self.deref(st, v))
        if v[0] != 'adt': return None
        L = self.L
        return (self.name_of(st, v[3][L.group]), pure(self, st, v[3][L.visit]), pure(self, st, v[3][L.leaves]))

    def groups(self, st, f, args):
        return tuple(self.name_of(st, args[i]) for i, t in enumerate(f['ins']) if tn(t) == GROUP and t['k'] == 'ref')


def allpaths(I, fn, args, st):
    outs = []; wl = [st]
    while wl:
        s = wl.pop()
        try: outs += I.call_fn(s, fn, args)
        except Fork as f: wl += [I.replay(s, x) for x in f.alts]
        except Infeasible: pass
    return outs


def mapsub(v, f):
    r = f(v)
    if r is not None: return r
    if isinstance(v, tuple): return tuple(mapsub(x, f) if isinstance(x, tuple) else x for x in v)
    return v


def setup(P, L, fn, kind):
    """interpreter, state and arguments for a function on a node of the given kind"""
    I = GI(P, L); st = State()
    ins = P.fns[fn]['ins']
    gname = ('t', 'group')
    gfields = tuple(('t', 'f', gname, i) for i in range(len(P.adts[GROUP]['variants'][0]['fields'])))
    I.gdata, I.gdeps, I.groot = gfields[L.data], gfields[L.deps], gfields[L.root]
    I.boxed = (I.gdata,)
    st.mem[('group',)] = ('adt', GROUP, 0, gfields)
    rname = ('t', 'ray')
    rf = [('t', 'f', rname, i) for i in range(len(P.adts[RAY]['variants'][0]['fields']))]
    rf[L.group] = ('p', ('group',), ())
    I.rvisit, I.rleaves = rf[L.visit], rf[L.leaves]
    st.mem[('ray',)] = ('adt', RAY, 0, tuple(rf))
    node = None
    if kind:
        ity = P.adts[NODE]['variants'][0]['fields'][L.inner]['ty']
        v = variant(I, st, ity, L.kinds[kind], ('t', 'inner'))
        nf = [None] * len(P.adts[NODE]['variants'][0]['fields'])
        for i, f in enumerate(P.adts[NODE]['variants'][0]['fields']): nf[i] = ('t', 'f', ('t', 'self'), i)
        nf[L.inner] = v
        st.mem[('self',)] = ('adt', NODE, 0, tuple(nf)); node = v
        I.top = ('t', 'node', ('self',), ())
    args = []
    I.depo = I.patho = None
    for i, t in enumerate(ins):
        n = tn(t)
        if n == NODE: args.append(('p', ('self',), ()))
        elif n == GROUP: args.append(('p', ('group',), ()))
        elif n == RAY: args.append(('p', ('ray',), ()) if t['k'] == 'ref' else st.mem[('ray',)])
        elif n in MAPS: st.mem[('deps',)] = ('t', 'deps0'); args.append(('p', ('deps',), ()))
        elif n in ('std::vec::Vec', VEC): st.mem[('path',)] = ('t', 'path0'); args.append(('p', ('path',), ()))
        elif t['k'] == 'int': args.append(('t', 'id'))
        else: args.append(symval(I, st, t, ('t', 'arg', i)))
    return I, st, args, node


def kids(I, st, node):
    return [('t', 'node', x[1], ()) for x in node[3] if x[0] == 'bx']


def expected_hash(I, st, L, kind, node):
    ks = kids(I, st, node)
    if kind == 'fork': return sha(sep('ic-hashtree-fork'), ('t', 'H', ks[0]), ('t', 'H', ks[1]))
    if kind == 'labeled': return sha(sep('ic-hashtree-labeled'), *BY(I, st, node[3][L.lab]), ('t', 'H', ks[0]))
    return ('t', 'H', ('t', 'mval', I.gdata, node[3][0]))


def norm(I, v):
    """digest terms: subtrees by induction, member trees by C13"""
    def f(x):
        if isinstance(x, tuple) and x[:2] == ('t', 'recon'):
            y = x[2]
            if y[:2] in (('t', 'wtree'), ('t', 'atree')): return ('t', 'H', y[2])
            if y[:2] == ('t', 'mval') and y[2] == I.rleaves: return ('t', 'H', ('t', 'mval', I.gdata, y[3]))
        if isinstance(x, tuple) and x[:2] == ('t', 'by') and len(x) == 3 and x[2][:2] == ('t', 'H'): return norm(I, x[2])
        return None
    return mapsub(v, f)


def c20(rep, ctx):
    P = ctx.prog()
    rep.rule.append('The recursive functions over group nodes are interpreted once per node kind, with recursive calls on child nodes replaced by the induction hypothesis; '
                    'digests are compared as hash terms with the Internet Computer specification. Visiting assigns identifiers from disjoint ranges and records for every member the identifiers from the root to it; '
                    'a node is expanded exactly when its identifier was requested.')
    rep.assume += ['identifiers do not wrap around 2^64', 'SHA-256 and member hashes are uninterpreted functions', 'members hash as their tree (C13), caller-supplied partial witnesses reconstruct to the member root hash',
                   'members are stored under their own type (C22) and member types are unique (C21)', 'models of the standard library']
    L = Lay(P)
    if not L.group_ok(): rep.undecided('layout', 'group layout', GROUP, 'fields of the group types not recognised'); return
    roles = {}
    for fn in P.fns:
        r = role(P, fn)
        if r and P.recursive(fn): roles.setdefault(r, []).append(fn)
    # the step of a recursion split over several functions starts where it is called from outside; the others are entered from there
    for r, fns in roles.items():
        if len(fns) > 1: roles[r] = [f for f in fns if any(f in P.callees(g) for g in P.fns if g not in fns)] or fns
    L.step = {f for fns in roles.values() for f in fns}
    for r in ('wit', 'all', 'hash', 'visit'):
        if not roles.get(r): rep.undecided('role:' + r, 'group nodes are processed by structural recursion', NODE, 'no recursive function with the signature of role "%s"' % r)
    n = 0
    for r, fns in sorted(roles.items()):
        for fn in fns:
            for kind in ('fork', 'labeled', 'leaf'):
                n += 1
                guarded(rep, '%s:%s' % (r, kind), 'group node recursion', where(P, fn), lambda: node_case(rep, P, L, r, fn, kind))
    rep.floor('cases of the node recursion', n, 12)
    for f in (builders, selectors, visits): f(rep, P, L)
    enumerate_unknown(rep, P)


THEGROUP = ('t', 'node', ('group',), ())


def ray_kept(rep, I, s, c, wh, idv=None):
    for e in s.ev:
        if e[0] != 'wit' or e[2] is None: continue
        g, v, l = e[2]
        rep.expect(g == THEGROUP, c + ':group', 'children are looked up in the same group', wh, show(g))
        while idv is not None and v[:2] == ('t', 'del') and v[3] == idv: v = v[2]
        if v == I.rvisit: rep.ok(c + ':request', 'the request reaches every child unchanged', wh)
        elif has_term(v, lambda t: t[:2] in (('t', 'fold'), ('t', '?'))): rep.undecided(c + ':request', 'the request reaches every child unchanged', wh, show(v))
        else: rep.bad(c + ':request', 'the request reaches every child unchanged', wh, 'identifiers become %s' % show(v))
        if l != I.rleaves: rep.expect(False, c + ':request', 'the request reaches every child unchanged', wh, 'members become %s' % show(l)) if l == DN or l[:2] in (('t', 'del'), ('t', 'put')) else rep.undecided(c + ':request', 'the request reaches every child unchanged', wh, show(l))


def same_hash(I, a, b): return norm(I, a) == norm(I, b)


def node_case(rep, P, L, r, fn, kind):
    I, st, args, node = setup(P, L, fn, kind)
    outs = allpaths(I, fn, args, st)
    rep.fns |= I.visited; wh = where(P, fn); key = '%s:%s' % (r, kind)
    rep.expect(bool(outs), key + ':returns', 'the function returns for every node', wh, 'no path returns')
    idv = ('t', 'f', ('t', 'self'), L.id)
    for s, v in outs:
        want = expected_hash(I, s, L, kind, node)
        if r == 'hash':
            for e in s.ev:
                if e[0] == 'hashof': rep.expect(all(g == THEGROUP for g in e[2]), key + ':group', 'children are hashed in the same group', wh)
            got = norm(I, strip(hashval(I, s, v)))
            if has_term(got, lambda t: t[:2] == ('t', 'recon')): rep.undecided(key, 'root hash', wh, show(got)); continue
            rep.expect(strip(got) == want, key, 'the hash of a node follows the specification', wh, 'computed %s, expected %s' % (show(got), show(want)))
        elif r in ('wit', 'all'):
            got = norm(I, strip(recon(I, s, v)))
            top = HTname(I, s, v)
            # which case are we in
            if r == 'wit':
                asked = None
                for f, b in s.facts.items():
                    if f[:2] == ('t', 'has') and f[2] == I.rvisit: 
                        if f[3] == idv: asked = bool(b)
                        else: rep.bad(key + ':id', 'the decision to expand a node depends on its own identifier', wh, 'looks up %s' % show(f[3]))
                if asked is None: rep.undecided(key, 'a node is expanded exactly when requested', wh, 'no decision on the identifier of the node: ' + show(pure(I, s, v))[:200]); continue
            else: asked = True
            if has_term(got, lambda t: t[:2] == ('t', 'recon')): rep.undecided(key, 'the witness of a node', wh, show(got)); continue
            c = key + (':asked' if asked else ':other') if r == 'wit' else key
            rep.expect(strip(got) == strip(want), c, 'the tree produced for a node reconstructs to its hash', wh, 'reconstructs to %s, expected %s' % (show(got), show(want)))
            if not asked:
                rep.expect(top == 'Pruned', c + ':pruned', 'a branch without a requested member is pruned', wh, 'produces %s' % show(pure(I, s, v))[:200])
                continue
            ks = kids(I, s, node); sub = 'wtree' if r == 'wit' else 'atree'
            leafv = ('t', 'mval', I.rleaves, node[3][0]) if r == 'wit' else ('t', 'tree', ('t', 'mval', I.gdata, node[3][0]))
            full = pure(I, s, v)
            if kind == 'leaf':
                rep.expect(full == leafv, c + ':shape', 'a requested member shows its own tree', wh, 'produces %s' % show(full)[:300])
            else:
                ok = top == {'fork': 'Fork', 'labeled': 'Labeled'}[kind] and all(has_term(full, lambda t: t == ('t', sub, k)) for k in ks)
                rep.expect(ok, c + ':shape', 'an expanded node shows its label and both sides', wh, 'produces %s' % show(full)[:300])
            if r == 'wit': ray_kept(rep, I, s, c, wh, idv)
            if r == 'all':
                for e in s.ev:
                    if e[0] == 'all': rep.expect(all(g == THEGROUP for g in e[2]), c + ':group', 'children are processed in the same group', wh)
        else: visit_case(rep, P, L, I, s, v, fn, kind, node, key, wh)


def HTname(I, s, v):
    while v[0] in ('p', 'bx') and v != NULL: v = I.read(s, *I.deref(s, v))
    return I.P.adts[HT]['variants'][v[2]]['name'] if v[0] == 'adt' and v[1] == HT else None


def offset(x, base):
    """x == base + k with k >= 0 known -> k"""
    if x == base: return 0
    if x[:2] == ('t', 'lin') and x[2] == base and x[3] >= 0: return x[3]
    return None


def visit_case(rep, P, L, I, s, v, fn, kind, node, key, wh):
    ID = ('t', 'id')
    me = I.read(s, ('self',), ())
    idv = me[3][L.id]
    rep.expect(idv == ID, key + ':id', 'visiting stores the identifier handed down', wh, 'identifier becomes %s' % show(idv))
    vis = [e for e in s.ev if e[0] == 'visit']
    for e in s.ev:
        if e[0] == 'each' and has_term(e, lambda t: t and t[0] == 'visit'): rep.undecided(key, 'children are visited', wh, 'visits in a loop'); return
    path = tuple(vec_segs(pure(I, s, s.mem[('path',)]))) if ('path',) in s.mem else None
    if path is not None:
        rep.expect(path == (('t', 'path0'),), key + ':path', 'the path of the caller is restored', wh, 'the path is left as %s' % [show(x) for x in path])
    deps = pure(I, s, s.mem[('deps',)]) if ('deps',) in s.mem else None
    here = (('t', 'path0'), one(ID))
    ks = kids(I, s, node) if kind != 'leaf' else []
    if kind == 'leaf':
        rep.expect(not vis, key + ':calls', 'members have no children', wh)
        d = deps; puts = []
        while d[:2] == ('t', 'put'): puts.append((d[3], pure(I, s, d[4]))); d = d[2]
        while puts and puts[0][1][0] == 'p': puts[0] = (puts[0][0], I.read(s, *I.deref(s, puts[0][1])))
        ok = d == ('t', 'deps0') and len(puts) == 1 and puts[0][0] == node[3][0]
        val = cellval(I, s, deps) if ok else None
        if ok and tuple(vec_segs(val)) != here: rep.bad(key + ':deps', 'a member depends on every node from the root to itself', wh, 'records %s' % [show(x) for x in vec_segs(val)])
        else: rep.expect(ok, key + ':deps', 'a member depends on every node from the root to itself', wh, 'records %s' % show(deps))
        k = offset(v, ID)
        rep.expect(k is not None and k >= 1, key + ':next', 'identifiers are never used twice', wh, 'returns %s' % show(v))
        return
    got = [e[1] for e in vis]
    rep.expect(sorted(map(repr, got)) == sorted(map(repr, ks)), key + ':calls', 'every child is visited exactly once', wh, 'visits %d of %d children' % (len(set(got)), len(ks)))
    used = ID; minimum = 1; M = ('t', 'deps0')
    for e in vis:
        rep.expect(e[3] == here, key + ':deps', 'the path handed to a child is the path to this node', wh, 'hands down %s' % [show(x) for x in e[3]])
        k = offset(e[2], used)
        rep.expect(k is not None and k >= minimum, key + ':next', 'identifiers are never used twice', wh, 'a child gets %s although identifiers up to %s may be in use' % (show(e[2]), show(used)))
        used = ('t', 'next', e[1], e[2]); minimum = 0
        M = ('t', 'depsof', e[1], M, e[3])
    k = offset(v, used)
    rep.expect(k is not None, key + ':next', 'identifiers are never used twice', wh, 'returns %s' % show(v))
    rep.expect(deps == M, key + ':keeps', 'dependencies found below are kept', wh, show(deps))


def cellval(I, s, d):
    """value behind a put"""
    c = d[4]
    while isinstance(c, tuple) and c[0] == 'p': c = I.read(s, *I.deref(s, c))
    return pure(I, s, c)


def find1(P, rep, pred, what):
    fs = [f for f in P.fns if pred(f) and P.fns[f].get('body') and '{' not in f]
    if len(fs) != 1: rep.bad('anchor:' + what, 'public method %s exists' % what, None, 'found %s' % fs[:3]); return None
    return fs[0]


def on_ray(P, rep, nm): return find1(P, rep, lambda f: f.startswith(RAY + '::') and f.endswith('::' + nm), 'Ray::' + nm)
def on_group(P, rep, nm): return find1(P, rep, lambda f: f == GROUP + '::' + nm, 'Group::' + nm)


def run_outer(rep, P, L, fn, key, what, judge):
    def go():
        I, st, args, _ = setup(P, L, fn, None)
        outs = allpaths(I, fn, args, st)
        rep.fns |= I.visited
        rep.expect(bool(outs), key + ':returns', what, where(P, fn), 'no path returns')
        for s, v in outs:
            while v[0] == 'p' and v != NULL: v = I.read(s, *I.deref(s, v))
            d = judge(I, s, v)
            if d is None: rep.ok(key, what, where(P, fn))
            elif d[0] == '?': rep.undecided(key, what, where(P, fn), d[1:])
            else: rep.bad(key, what, where(P, fn), d + '  [' + '; '.join(s.path)[:300] + ']')
    guarded(rep, key, what, where(P, fn), go)


def union(I, s, v, base, need):
    """None if the set v is base united with the identifiers of need"""
    seen = False
    while v != base:
        if v[:2] != ('t', 'fold'):
            return 'the set of identifiers becomes %s' % show(v)[:300] if v == DN or v[:2] in (('t', 'put'), ('t', 'del')) else '?' + show(v)[:300]
        src, v0, step = v[2], v[3], v[4]
        steps = step[2] if step[:2] == ('t', 'alt') else (step,)
        if any(x[:2] == ('t', 'put') and x[2] == ACC and x[3] not in (ITEM, ('t', 'at', ITEM)) and not has_unknown(x[3]) for x in steps): return 'adds %s instead of the identifiers' % show(steps[0])
        if any(x == ACC for x in steps):
            return '?some identifiers may be skipped' if any(e[0] == 'each' and has_term(e, lambda t: t and t[0] == 'dhas') for e in s.ev) else 'some identifiers are not added'
        if not all(x[:2] == ('t', 'put') and x[2] == ACC for x in steps): return '?' + show(step)
        if tuple(src) == (need,): seen = True
        elif any(x[:2] in (('t', 'tail'), ('t', 'sub'), ('t', 'part')) for x in src): return 'only part of the identifiers is added: %s' % [show(x) for x in src]
        elif all(x[:2] == ('t', 'mval') and x[2] == need[2] and x[3] != need[3] for x in src): return 'adds the identifiers of %s' % show(src[0])
        else: return '?adds %s' % [show(x) for x in src]
        v = v0
    return None if seen else 'the identifiers on the path to the member are not requested'


def has_unknown(x): return has_term(x, lambda t: t[:2] in (('t', '?'), ('t', 'unknown')))


def selectors(rep, P, L):
    for nm in ('full', 'partial'):
        fn = on_ray(P, rep, nm)
        if not fn: continue

        def judge(I, s, v, nm=nm, fn=fn):
            if v[0] != 'adt' or v[1] != RAY: return '?' + show(pure(I, s, v))[:200]
            g = I.name_of(s, v[3][L.group])
            if g != THEGROUP: return 'the request is for another group'
            tid = ('t', 'typeid', first_tparam(P, fn))
            d = union(I, s, pure(I, s, v[3][L.visit]), I.rvisit, ('t', 'mval', I.gdeps, tid))
            if d: return d
            l = pure(I, s, v[3][L.leaves])
            if l[:2] == ('t', 'del') : return 'the member is withdrawn from the request'
            if l == I.rleaves: return 'the tree of the member is not recorded'
            if l[:2] != ('t', 'put') or l[2] != I.rleaves: return '?' + show(l)[:200]
            if l[3] != tid: return 'the tree is recorded for %s' % show(l[3])
            t = cellval(I, s, l)
            mv = ('t', 'mval', I.gdata, tid)
            if nm == 'full':
                if t == ('t', 'tree', mv): return None
                return 'the member shows %s' % show(t)[:200] if t[0] == 'adt' and t[1] == HT or t[:2] == ('t', 'tree') else '?' + show(t)[:200]
            cs = [e for e in s.ev if e[0] == 'callf']
            if len(cs) != 1 or t[:2] != ('t', 'callf'): return 'the member shows %s' % show(t)[:200] if t[0] == 'adt' and t[1] == HT or t[:2] == ('t', 'tree') else '?%s' % show(t)[:200]
            a = cs[0][2][0]
            return None if a[0] == 'p' and pure(I, s, viewval(I, s, a)) == mv else 'the caller is shown %s' % show(pure(I, s, viewval(I, s, a)))[:200]
        run_outer(rep, P, L, fn, 'Ray::' + nm, 'requesting a member adds the identifiers from the root to it and records its tree', judge)


def first_tparam(P, fn):
    g = [x for x in P.tparams(fn) if not x.startswith("'")]
    return g[0] if g else 'T'


def builders(rep, P, L):
    fn = on_group(P, rep, 'witness')
    if fn:
        def judge(I, s, v):
            if v[0] != 'adt' or v[1] != RAY: return '?' + show(pure(I, s, v))[:200]
            if I.name_of(s, v[3][L.group]) != THEGROUP: return 'the request is for another group'
            for i in (L.visit, L.leaves):
                x = pure(I, s, v[3][i])
                if x != DN: return 'a new request holds %s' % show(x) if x[:2] == ('t', 'put') else '?' + show(x)
            return None
        run_outer(rep, P, L, fn, 'Group::witness', 'a new request is empty', judge)
    fn = on_ray(P, rep, 'build')
    ROOT = ('t', 'node', ('group',), (L.root,))
    if fn:
        def judge(I, s, v):
            ws = [e for e in s.ev if e[0] == 'wit']
            v = pure(I, s, v)
            if v == ('t', 'wtree', ROOT):
                for e in ws:
                    if e[2] and e[2] != (THEGROUP, I.rvisit, I.rleaves): return 'the request is changed before the witness is built: %s' % [show(x)[:100] for x in e[2]]
                return None
            return 'produces %s' % show(v)[:200] if v[0] == 'adt' and v[1] == HT or v[:2] in (('t', 'wtree'), ('t', 'atree')) else '?' + show(v)[:200]
        run_outer(rep, P, L, fn, 'Ray::build', 'the witness of a request is the witness of the root', judge)
    for nm, want in (('root_hash', ('t', 'H', ROOT)), ('as_hash_tree', ('t', 'atree', ROOT))):
        fn = next((f for f in P.fns if f.startswith('<' + GROUP + ' as ') and f.endswith('AsHashTree>::' + nm)), None)
        if not fn:
            if nm == 'as_hash_tree': rep.bad('anchor:Group:' + nm, 'groups are certifiable')
            else: rep.ok('Group::root_hash', 'default root hash: reconstructs the hash tree', GROUP)
            continue
        def judge(I, s, v, want=want, nm=nm):
            for e in s.ev:
                if e[0] in ('all', 'hashof') and any(g != THEGROUP for g in e[2]): return 'computed in another group'
            got = strip(norm(I, hashval(I, s, v))) if nm == 'root_hash' else pure(I, s, v)
            if got == want: return None
            if nm == 'as_hash_tree' and has_term(got, lambda t: t == want): return '?' + show(got)[:200]
            return '%s gives %s' % (nm, show(got)[:200]) if not has_unknown(got) else '?' + show(got)[:200]
        run_outer(rep, P, L, fn, 'Group::' + nm, 'the group reports the %s of its root' % nm, judge)


def visits(rep, P, L):
    """building a group numbers its nodes, starting from an empty path and no dependencies"""
    fn = find1(P, rep, lambda f: f == BUILDER + '::build', 'GroupBuilder::build')
    if not fn: return
    key = 'GroupBuilder::build'; what = 'a built group has its nodes numbered and its dependencies recorded'

    def go():
        I = GI(P, L); st = State()
        b = tuple(('t', 'f', ('t', 'builder'), i) for i in range(len(P.adts[BUILDER]['variants'][0]['fields'])))
        outs = allpaths(I, fn, [('adt', BUILDER, 0, b)], st)
        rep.fns |= I.visited
        rep.expect(bool(outs), key + ':returns', what, where(P, fn), 'no path returns')
        for s, v in outs:
            if v[0] != 'adt' or v[1] != GROUP: rep.undecided(key, what, where(P, fn), show(pure(I, s, v))[:200]); continue
            vs = [e for e in s.ev if e[0] == 'visit']
            if not vs: rep.bad(key, what, where(P, fn), 'the nodes are never numbered'); continue
            e = vs[-1]
            rep.expect(not e[3], key + ':path', 'numbering starts at the root with an empty path', where(P, fn), 'starts with %s' % [show(x) for x in e[3]])
            d = pure(I, s, v[3][L.deps])
            if d == ('t', 'depsof', e[1], DN, e[3]) or d == ('t', 'depsof', e[1], ('t', 'default'), e[3]): rep.ok(key, what, where(P, fn))
            elif d == DN or d[:2] == ('t', 'put'): rep.bad(key, what, where(P, fn), 'the dependencies are %s' % show(d))
            else: rep.undecided(key, what, where(P, fn), show(d)[:300])
            rt = pure(I, s, v[3][L.root]); bt = ('t', 'built', b[L.broot])
            if rt == bt: rep.ok(key + ':root', 'the root is built from the root of the builder', where(P, fn))
            elif rt[:2] == ('t', 'built') : rep.bad(key + ':root', 'the root is built from the root of the builder', where(P, fn), show(rt))
            else: rep.undecided(key + ':root', 'the root is built from the root of the builder', where(P, fn), show(rt)[:200])
            dt = pure(I, s, v[3][L.data])
            rep.expect(dt == b[L.bdata], key + ':data', 'the members are those inserted', where(P, fn), show(dt)[:200])
    guarded(rep, key, what, where(P, fn), go)


def enumerate_unknown(rep, P):
    """every function that assigns to or builds a node, group or request is one of those analysed"""
    from mutate import writes_owned
    n = 0
    for f, d in P.fns.items():
        if not d.get('body'): continue
        if writes_owned(d['body'], (GROUP, NODE, RAY)) or any(builds(d['body'], a) for a in (GROUP, RAY)):
            n += 1
            if f not in rep.fns and not any(f.startswith(x + '::{') for x in rep.fns): rep.undecided('writer:' + f.rsplit('::', 2)[-2] + '::' + f.rsplit('::', 1)[-1], 'every writer of group structures is analysed', where(P, f), 'not reached from an analysed function')
    rep.floor('functions writing group structures', n, 2)
