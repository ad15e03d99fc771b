"""C28: inspecting a hash tree shows exactly what it contains; C29: reading a sequence or a paged list shows its items."""
import re
from seqs import *
from seqs import WI
from hashing import guarded, method

S0 = ('t', 'self'); PRIOR = ('t', 'prior')
LISTS = {'labels': 'get_labels', 'leaves': 'get_leaf_values'}


class Strange(Exception): pass


class VI(WI):
    """evaluator with an induction hypothesis for recursion on a child of the inspected tree"""
    def __init__(self, P, kind):
        super().__init__(P); self.kind = kind; self.need = {}; self.root = None

    def summary(self, st, path, args, meta, dty):
        if self.root and path in (self.root, *self.need) or any(f == path for f, _ in self.stack) or self.selfrec(path, args):
            r = self.hypothesis(st, path, args)
            if r is not None: return r
        return super().summary(st, path, args, meta, dty)

    def selfrec(self, path, args): return False

    def child(self, st, a):
        """the hash tree an argument refers to, when it is one"""
        n = 0
        while a[0] in ('p', 'bx') and a != NULL and n < 6:
            o, p = self.deref(st, a); a = self.read(st, o, p); n += 1
        if n and a[0] == 't' and a[1] not in ('by',): return a
        return None

    def hypothesis(self, st, path, args):
        ts = tys(self.P, path)[1:]
        tr = [i for i, t in enumerate(ts) if istree(t)]
        ve = [i for i, t in enumerate(ts) if t['k'] == 'ref' and t.get('m') and t['t'].get('n') == 'std::vec::Vec']
        if len(tr) != 1 or len(tr) + len(ve) != len(ts) or len(ve) > 1: raise Undecided('recursive inspection with extra state', self.at)
        c = self.child(st, args[tr[0]])
        if c is None: return None
        self.need.setdefault(path, (tr[0], ve[0] if ve else None))
        seg = ('t', self.kind, c)
        if not ve: return [(st, mkvec((seg,)))]
        o, p = self.deref(st, args[ve[0]])
        self.write(st, o, p, mkvec(vec_segs(self.read(st, o, p)) + (seg,)))
        return [(st, UNIT)]


def istree(t):
    while t and t['k'] == 'ref': t = t['t']
    if t and t.get('n') == 'std::boxed::Box': return istree(t['a'][0])
    return bool(t) and t.get('n') == HT


def known(I, st, v):
    """the variant of a tree, when known on the path"""
    n = 0
    while v[0] in ('p', 'bx') and v != NULL and n < 6:
        o, p = I.deref(st, v); v = I.read(st, o, p); n += 1
    if v[0] == 'adt' and v[1] == HT: return v[2], v[3], v
    if v[0] == 't':
        for f, x in st.facts.items():
            if f[:2] == ('t', 'discr') and f[2] == v and f[3] == HT: return x, None, v
    return None, None, v


def shows(I, st, v, kind):
    """oracle: the labels / leaf values of a tree, in order, as a tuple of segments"""
    i, fs, v = known(I, st, v)
    if i is None: return (('t', kind, v),)
    name = I.P.adts[HT]['variants'][i]['name']
    f = lambda j: fs[j] if fs is not None else ('t', 'f', v, i, j)
    if name == 'Fork':
        x = f(0); n = 0
        while x[0] in ('p', 'bx') and n < 4:
            o, p = I.deref(st, x); x = I.read(st, o, p); n += 1
        l, r = (x[3][0], x[3][1]) if x[0] == 'adt' else (('t', 'f', ('t', 'inner', x), 0), ('t', 'f', ('t', 'inner', x), 1))
        return shows(I, st, l, kind) + shows(I, st, r, kind)
    if name == 'Labeled':
        y = f(1); n = 0
        if y[0] == 't' and fs is None: y = ('t', 'inner', y)
        return ((('el', BY(I, st, f(0))),) if kind == 'labels' else ()) + shows(I, st, y, kind)
    if name == 'Leaf' and kind == 'leaves': return (('el', BY(I, st, f(0))),)
    return ()


def listed(I, st, v, kind):
    """what a returned vector lists"""
    out = ()
    while v[0] == 'p' and v != NULL: v = I.read(st, *I.deref(st, v))
    for s in vec_segs(v):
        if s[:2] == ('adt', '@one'): out += (('el', BY(I, st, s[3][0])),)
        elif s[:2] == ('t', 'items') and s[2][:2] == ('t', kind): out += shows(I, st, s[2][2], kind)
        elif s[:2] == ('t', kind): out += shows(I, st, s[2], kind)
        elif s == PRIOR: out += (PRIOR,)
        else: raise Strange(show(s))
    return out


def opaque_el(e): return e[0] == 'el' and has_term(e, lambda t: t[:2] in (('t', '?'), ('t', 'call'), ('t', 'callf'), ('t', 'unknown'), ('t', 'fold'), ('t', 'acc')))


def lists(rep, P, kind, meth):
    root = next((f for f in P.fns if re.match(r"hashtree::HashTree::<.*>::%s$" % meth, f)), None)
    if root is None: rep.bad('anchor:' + meth, 'HashTree::%s exists' % meth); return 0
    hty = {'k': 'adt', 'n': HT, 'a': []}
    todo = [(root, 0, None)]; done = set(); n = 0
    while todo:
        fn, ti, vi = todo.pop()
        if fn in done: continue
        done.add(fn)
        for i, v in enumerate(P.adts[HT]['variants']):
            key = '%s:%s%s' % (meth, v['name'], '' if fn == root else ':helper')
            what = '%s lists the %s a %s node shows, in order' % (meth, kind, v['name'])
            def go():
                I = VI(P, kind); I.root = root; st = State()
                o = ('S', 'self'); st.mem[o] = variant(I, st, hty, i, S0)
                ts = tys(P, fn)[1:]
                args = []
                for j, t in enumerate(ts):
                    if j == vi:
                        st.mem[('S', 'vec')] = mkvec((PRIOR,)); args.append(('p', ('S', 'vec'), ()))
                    else:
                        d = 0; x = t
                        while x['k'] == 'ref': d += 1; x = x['t']
                        a = ('p', o, ())
                        if x.get('n') == 'std::boxed::Box' : st.mem[('S', 'bx')] = ('bx', o); a = ('p', ('S', 'bx'), ())
                        for q in range(d - 1): st.mem[('S', 'r', q)] = a; a = ('p', ('S', 'r', q), ())
                        args.append(a)
                outs = evaluate(I, fn, args, st)
                rep.fns.update(I.visited)
                for h, (a, b) in I.need.items(): todo.append((h, a, b))
                if not outs: rep.bad(key, what, where(P, fn), 'no normal path'); return
                bad = und = None
                for s, r in outs:
                    w = ((PRIOR,) if vi is not None else ()) + shows(I, s, st.mem[o], kind)
                    try: g = listed(I, s, s.mem[('S', 'vec')] if vi is not None else r, kind)
                    except Strange as e: und = und or 'list not recognised: %s' % e; continue
                    if g == w: continue
                    if any(opaque_el(e) for e in g): und = und or 'element not recognised: ' + show(g)
                    else: bad = bad or 'lists %s\nshows %s\npath: %s' % ([show(x) for x in g], [show(x) for x in w], '; '.join(s.path))
                if bad: rep.bad(key, what, where(P, fn), bad)
                elif und: rep.undecided(key, what, where(P, fn), und)
                else: rep.ok(key, what, where(P, fn))
            guarded(rep, key, what, where(P, fn), go); n += 1
    return n


def ref_of(I, st, v):
    """identity of what a returned reference denotes"""
    n = 0
    while v[0] in ('p', 'bx') and v != NULL and n < 6:
        o, p = I.deref(st, v); v = I.read(st, o, p); n += 1
    return pure(I, st, v)


def parts(rep, P):
    n = 0
    for name, k in (('left', 0), ('right', 1)):
        fn = next((f for f in P.fns if re.match(r"hashtree::ForkInner::<.*>::%s$" % name, f)), None)
        if fn is None: rep.bad('anchor:' + name, 'ForkInner::%s exists' % name); continue
        n += 1
        def go():
            I, args, outs = run(P, fn); rep.fns.update(I.visited)
            for s, v in outs: side(rep, 'part:' + name, '%s returns the %s subtree' % (name, name), where(P, fn), ref_of(I, s, v), ('t', 'f', ('t', 'at', ('t', 'arg', 0)), k))
        guarded(rep, 'part:' + name, name, where(P, fn), go)
    for name, var in (('fork', 'Fork'), ('labeled', 'Labeled')):
        fn = 'hashtree::' + name
        if fn not in P.fns: rep.bad('anchor:' + name, fn + ' exists'); continue
        n += 1
        def go():
            I, args, outs = run(P, fn); rep.fns.update(I.visited)
            for s, v in outs:
                i, fs, _ = known(I, s, v)
                a = lambda k: ('t', 'arg', k)
                key = 'build:' + name; what = '%s builds the node it names from its arguments' % name
                if i is None or fs is None: rep.undecided(key, what, where(P, fn), show(v)); continue
                vn = P.adts[HT]['variants'][i]['name']
                if vn != var: rep.bad(key, what, where(P, fn), 'builds a %s node' % vn); continue
                if var == 'Fork': g = pure(I, s, fs[0]); g = g[3] if g[0] == 'adt' else g; side(rep, key, what, where(P, fn), g, (a(0), a(1)))
                else: side(rep, key, what, where(P, fn), (BY(I, s, fs[0]), pure(I, s, fs[1])), (BY(I, s, args[0]), a(1)))
        guarded(rep, 'build:' + name, name, where(P, fn), go)
    return n


def side(rep, key, what, wh, got, want):
    if got == want: rep.ok(key, what, wh)
    elif has_term(got, lambda t: t[:2] in (('t', '?'), ('t', 'call'), ('t', 'callf'), ('t', 'unknown'))): rep.undecided(key, what, wh, show(got))
    else: rep.bad(key, what, wh, 'got %s, want %s' % (show(got), show(want)))


# ------------------------------------------------------------------ equality
EM = Models()


def whole(I, st, v):
    """the collection an iterator still has to yield in full, or None"""
    if isit(v) and all(a in ('refs', 'deref') for a in v[3][1][2:]) and len(v[3][0][3]) == 1 and v[3][0][3][0][0] == 't': return strip(v[3][0][3][0])
    if v[0] == 'p':
        x = viewval(I, st, v)
        if x[0] == 't': return strip(x)
    return None


def seqeq(I, st, a, b):
    r = I.decide_rel(st, a, b)
    return r == '='


def zipall(want, stop):
    """all/any over two sequences side by side: equality of the common prefix"""
    def f(I, st, a, m, d):
        z = a[0]
        while z[0] == 'p' and z != NULL: z = I.read(st, *I.deref(st, z))
        if z[:2] != ('t', 'zipped'): return NotImplemented
        st = st.copy(); refs = []
        for nm in ('l', 'r'):
            I.fid += 1; o = ('itm', I.fid); st.mem[o] = ('t', 'item', ('t', 'zip' + nm, z)); refs.append(('p', o, ()))
        I.fid += 1; clo = ('zclo', I.fid); st.mem[clo] = a[1]
        x, y = (('t', 'item', ('t', 'zip' + nm, z)) for nm in 'lr')
        wl = [st]; ok = True
        while wl:
            s = wl.pop()
            try:
                for s2, r in I.invoke(s, ('fn', 'std::ops::FnMut::call_mut', None, None), [('p', clo, ()), ('adt', '()', 0, (('adt', '()', 0, tuple(refs)),))], None, d):
                    q = s2.rel(x, y)
                    if r[0] != 'i' or not (q == {'='} or '=' not in q) or bool(r[1]) != ((q == {'='}) == want): ok = False
            except Fork as f: wl += [I.replay(s, b) for b in f.alts]
            except Infeasible: pass
        if not ok: raise Undecided('items are not compared for equality', I.at)
        same = (lambda b: [(st, boolv(b == want))])
        n = lens(st, z[2], z[3])
        if n == {'='}: return same(seqeq(I, st, z[2], z[3]))
        if st.rel(z[2], z[3]) == {'='}: return same(True)
        return same(I.truth(st, ('t', 'prefixeq', z[2], z[3])))
    return f


def _(I, st, a, m, d):
    x, y = whole(I, st, a[0]), whole(I, st, a[1])
    return NotImplemented if x is None or y is None else [(st, ('t', 'zipped', x, y))]
EM.suffix['std::iter::Iterator::zip'] = _
EM.suffix['std::iter::Iterator::all'] = zipall(True, False)
EM.suffix['std::iter::Iterator::any'] = zipall(False, True)
def itereq(neg):
    def f(I, st, a, m, d):
        x, y = whole(I, st, a[0]), whole(I, st, a[1])
        return NotImplemented if x is None or y is None else [(st, boolv(seqeq(I, st, x, y) != neg))]
    return f
EM.suffix['std::iter::Iterator::eq'] = itereq(False)
EM.suffix['std::iter::Iterator::ne'] = itereq(True)


class EQ(WI):
    """equality of children is an uninterpreted relation of the children"""
    def __init__(self, P, root):
        super().__init__(P); self.eqroot = root
        g = self.models.lookup
        def lookup(path, meta, I):
            h0 = g(path, meta, I)
            f = None if I.P.is_local(path, meta) else EM.suffix.get(strip_generics((meta or {}).get('p') or path))
            if f is None: return h0
            def h(I, st, a, m, d):
                r = f(I, st, a, m, d)
                return h0(I, st, a, m, d) if r is NotImplemented and h0 is not None else r
            return h
        self.models.lookup = lookup
    def summary(self, st, path, args, meta, dty):
        if re.search(r'as std::cmp::PartialEq(<.*>)?>::(eq|ne)$', path) and self.stack:
            xs = [self.opq(st, a) for a in args[:2]]
            if None not in xs and ('HashTree' in path or 'ForkInner' in path):
                r = self.decide_rel(st, xs[0], xs[1])
                return [(st, boolv((r == '=') != path.endswith('::ne')))]
        if re.search(r'hashtree::HashTree.*::reconstruct$', path):
            x = self.opq(st, args[0])
            return [(st, ('t', 'recon', x) if x is not None else recon(self, st, args[0]))]
        return super().summary(st, path, args, meta, dty)

    def opq(self, st, a):
        n = 0
        while a[0] in ('p', 'bx') and a != NULL and n < 6:
            o, p = self.deref(st, a); a = self.read(st, o, p); n += 1
        return a if n and a[0] == 't' else None


def relation(s, pairs):
    """(all known equal, some known different, none mentioned at all)"""
    rs = [s.rel(x, y) for x, y in pairs]
    return all(r == {'='} for r in rs), any(s.facts.get(('t', 'prefixeq', x, y)) == 0 for x, y in pairs) or any('=' not in r for r in rs) or any('=' not in lens(s, x, y) for x, y in pairs)


def ment(s, t):
    """does the path say anything about the contents of t (not merely its length)"""
    def inside(y): return y == t or isinstance(y, tuple) and not (y[:2] in (('t', 'len'), ('t', 'isempty')) and strip(y[2]) in (t, ('t', 'items', t))) and any(inside(x) for x in y if isinstance(x, tuple))
    return any(inside(y) for (r, x, z) in s.order for y in (x, z)) or any(inside(f) for f in s.facts)


def lens(s, x, y): return s.rel(('t', 'len', x), ('t', 'len', y))
def satisfiable(s, avs):
    """every condition of the path is that a stored digest equals some value"""
    own = [x for x in avs if x[0] == 't']
    return all(r == '=' and (x in own or y in own) for (r, x, y) in s.order) and not any(f[1] not in ('discr',) for f in s.facts)


def eq_case(rep, P, fn, key, what, mk, pairs_of, neg=False, implied=()):
    """one case of an equality: `mk` builds the two values, `pairs_of` the component pairs that decide it (None: different kinds)"""
    def go():
        I = EQ(P, fn); st = State()
        av = mk(I, st)
        outs = evaluate(I, fn, av, st); rep.fns.update(I.visited)
        ps = pairs_of(I, st)
        bad = und = None; n = 0; seen = set()
        for s, v in outs:
            if v[0] == 't':
                try: b = I.truth(s, v)
                except Fork: und = und or 'result not recognised: ' + show(v); continue
            elif v[0] == 'i': b = bool(v[1])
            else: und = und or show(v); continue
            n += 1
            if neg: b = not b
            seen.add(b)
            if ps is None:
                if b:
                    if satisfiable(s, digests(I, st, P)): bad = bad or 'values of different kinds are equal (path: %s)' % '; '.join(s.path)
                    else: und = und or 'values of different kinds are equal on %s' % '; '.join(s.path)
                continue
            alleq, somene = relation(s, ps)
            im = [s.rel(x, y) for x, y in implied]     # differ only if a component does
            somene = somene or any('=' not in r for r in im)
            if b:
                if alleq: continue
                ign = [x for x, y in ps if s.rel(x, y) != {'='} and not ment(s, x) and not ment(s, y)]
                if any(s.facts.get(('t', 'prefixeq', x, y)) == 1 and lens(s, x, y) != {'='} and s.rel(x, y) != {'='} for x, y in ps): bad = bad or 'equal by a common prefix (path: %s)' % '; '.join(s.path); continue
                if ign and any(r == {'='} for r in im): und = und or 'equal by hash alone'
                elif ign: bad = bad or 'equal without comparing %s (path: %s)' % ([show(x) for x in ign], '; '.join(s.path))
                elif somene: bad = bad or 'equal although components differ (path: %s)' % '; '.join(s.path)
                else: und = und or 'equal on %s' % '; '.join(s.path)
            else:
                if somene: continue
                if alleq: bad = bad or 'unequal although all components are equal (path: %s)' % '; '.join(s.path)
                else: und = und or 'unequal on %s' % '; '.join(s.path)
        if not bad and ps is not None and True not in seen and n == len(outs) and not und: bad = 'equal values are never equal'
        if bad: rep.bad(key, what, where(P, fn), bad)
        elif und or not n: rep.undecided(key, what, where(P, fn), und or 'no path')
        else: rep.ok(key, what + ' (%d paths)' % n, where(P, fn))
    guarded(rep, key, what, where(P, fn), go)


def digests(I, st, P):
    out = []
    for nm in 'ab':
        v = st.mem.get(('S', nm))
        if v and v[0] == 'adt' and v[1] == HT and P.adts[HT]['variants'][v[2]]['name'] == 'Pruned': out.append(viewval(I, st, v[3][0]))
    return out


def equality(rep, P):
    n = 0
    hty = {'k': 'adt', 'n': HT, 'a': []}
    for meth in ('eq', 'ne'):
        fn = trait_fn(P, 'PartialEq', HT, meth)
        if fn not in P.fns:
            if meth == 'eq': rep.bad('anchor:eq', 'hash trees can be compared')
            continue
        V = P.adts[HT]['variants']
        for i in range(len(V)):
            for j in range(len(V)):
                def mk(I, st, i=i, j=j):
                    for nm, k in (('a', i), ('b', j)): st.mem[('S', nm)] = variant(I, st, hty, k, ('t', nm))
                    return [('p', ('S', 'a'), ()), ('p', ('S', 'b'), ())]
                def pairs(I, st, i=i, j=j):
                    if i != j: return None
                    a, b = st.mem[('S', 'a')], st.mem[('S', 'b')]
                    out = []
                    for x, y in zip(a[3], b[3]):
                        x, y = pure(I, st, x), pure(I, st, y)
                        if x[0] == 'adt' and x[1] != COW and y[0] == 'adt': out += list(zip(x[3], y[3]))
                        else: out.append((viewval(I, st, x), viewval(I, st, y)))
                    return out
                nm = V[i]['name'] + '/' + V[j]['name']
                eq_case(rep, P, fn, '%s:%s' % (meth, nm), 'hash trees are equal exactly when all their parts are (%s)' % nm, mk, pairs, meth == 'ne'); n += 1
    return n


def c28(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Abstract evaluation of the inspection functions of hash trees per node kind, children opaque by induction: the list returned must be the in-order word of labels / leaf values of the node; accessors return the named part, constructors build the named node; two trees compare equal on exactly the paths where all parts were compared equal.')
    rep.assume += ['models of the standard library in engine/models.py and engine/words.py']
    n = 0
    for k, m in LISTS.items(): n += lists(rep, P, k, m)
    n += parts(rep, P)
    n += equality(rep, P)
    rep.floor('inspection cases', n, 38)


# ------------------------------------------------------------------ C29
def c29(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Every public read of a sequence is evaluated on a symbolic sequence: views, iterators and conversions must denote the item storage itself, counts its length, equality exactly the equality of items; a paged list certifies with the tree and root hash of its pages.')
    rep.assume += ['models of the standard library in engine/models.py and engine/words.py', 'two sequences with equal items have equal stored hashes (C17)']
    if SEQ not in P.adts: rep.bad('anchor:Seq', 'the sequence type exists'); return
    hl = layout(P)
    if None in hl: rep.undecided('layout', 'sequence layout', SEQ, 'fields of the sequence not recognised'); return
    rep.floor('reads of a sequence', reads(rep, P, hl), 9)
    seq_eq(rep, P, hl)
    wrapped(rep, P)
    rep.floor('collections wrapping a tree', complete(rep, P), 2)


def wrapped(rep, P):
    """a map shows its own tree, not another one"""
    RBT = 'rbtree::RbTree'
    MAP = 'collections::map::Map'
    for fn, d in sorted(P.fns.items()):
        if '{' in fn or not d.get('body') or not d.get('reachable'): continue
        ts = tys(P, fn)
        if len(ts) != 2 or ts[0]['k'] != 'ref' or ts[0]['t'].get('n') != RBT or ts[1]['k'] != 'ref' or ts[1]['t'].get('n') != MAP: continue
        key = shortfn(fn); what = 'the tree shown is the tree of the map'
        def go(fn=fn):
            I, args, outs = run(P, fn); rep.fns.update(I.visited)
            for s, v in outs:
                me = v[0] == 'p' and v[1] == args[0][1]
                if me: rep.ok(key, what, where(P, fn))
                elif v[0] == 'p' and v[1][0] in ('S', 'static', 'const'): rep.bad(key, what, where(P, fn), show(v))
                else: rep.undecided(key, what, where(P, fn), show(v))
        guarded(rep, key, what, where(P, fn), go)


def complete(rep, P):
    """the hash tree of a map or paged list is its full tree, not a witness of some of it"""
    from hashing import Wrapping
    partial = {}
    for f in P.fns:
        m = re.match(r'(rbtree::RbTree|collections::map::Map)::<.*>::(keys|witness\w*|key_range|value_range|keys_with_prefix)$', f)
        if m: partial[f] = m[2]
    full = {}
    for i in P.impls:
        if i['trait'] == 'as_hash_tree::AsHashTree' and i['self'].get('n') in ('rbtree::RbTree', 'collections::map::Map'):
            for m in ('root_hash', 'as_hash_tree'): full[method(P, i, m)] = m

    class WP(Wrapping):
        def call_local(self, st, path, args, meta, dty):
            if path in partial:
                return [(st, ('t', 'witness', partial[path], self.me(st, args[0])))]
            return super().call_local(st, path, args, meta, dty)
        def me(self, st, v):
            while v[0] in ('p', 'bx') and v != NULL: v = self.read(st, *self.deref(st, v))
            return pure(self, st, v)
    # (the pages of a paged list are sequences, whose hash tree is pruned anyway: there the witness of the keys is the full tree)
    n = 0
    for i in P.impls:
        sty = i['self']
        if i['trait'] != 'as_hash_tree::AsHashTree' or sty.get('n') not in ('collections::map::Map', 'collections::paged::Paged'): continue
        fn = method(P, i, 'as_hash_tree'); n += 1
        key = 'tree:' + sty['n'].rsplit('::', 1)[-1]; what = 'the hash tree shows everything the collection holds'
        def go():
            I = WP(P); I.meth = {f: m for f, m in full.items() if f != fn}; st = State()
            o = ('S', 'self'); st.mem[o] = symval(I, st, sty, ('t', 'self'))
            outs = evaluate(I, fn, [('p', o, ())], st); rep.fns.update(I.visited)
            for s, v in outs:
                if v[:2] == ('t', 'tree') and core_of(v[2]) == core_of(I.me(st, ('p', o, ()))): rep.ok(key, what, where(P, fn))
                elif v[:2] == ('t', 'witness') and not (v[2] in ('keys', 'witness_keys') and sty['n'].endswith('Paged')): rep.bad(key, what, where(P, fn), 'returns the witness %s(..)' % v[2])
                else: rep.undecided(key, what, where(P, fn), show(v))
        guarded(rep, key, what, where(P, fn), go)
    return n


def core_of(v):
    from hashing import unwrapped
    return unwrapped(v)


def reads(rep, P, hl):
    n = 0
    for fn, d in sorted(P.fns.items()):
        if '{' in fn or not d.get('body') or not d.get('reachable'): continue
        ts = tys(P, fn)
        if len(ts) < 2: continue
        byref = ts[1]['k'] == 'ref' and not ts[1].get('m') and ts[1]['t'].get('n') == SEQ
        byval = ts[1].get('n') == SEQ
        name = fn.rsplit('::', 1)[-1]
        if not (byref or byval): continue
        own = fn.startswith(SEQ + '::<') or SEQ in fn and (fn.startswith('<') or '<impl ' in fn)
        if not own: continue
        kind = {'as_vec': 'view', 'as_slice': 'view', 'as_ref': 'view', 'borrow': 'view', 'deref': 'view', 'iter': 'iter', 'into_iter': 'iter', 'from': 'items', 'into_vec': 'items', 'to_vec': 'items',
                'into': 'items', 'len': 'len', 'is_empty': 'empty', 'index': 'index', 'clone': 'clone', 'first': None, 'last': None}.get(name)
        if kind is None: continue
        n += 1
        what = {'view': 'a view of a sequence shows its items', 'iter': 'iterating a sequence yields every item once, in order', 'items': 'converting a sequence yields its items', 'len': 'the length is the number of items',
                'empty': 'a sequence is empty exactly when it has no items', 'index': 'indexing reads the item at the index', 'clone': 'a clone holds the same items under the same hash'}[kind]
        key = shortfn(fn)
        def go(fn=fn, kind=kind, byval=byval, key=key, what=what):
            I, args, outs = run(P, fn); rep.fns.update(I.visited)
            me = ('t', 'arg', 0) if byval else ('t', 'at', ('t', 'arg', 0))
            items = ('t', 'f', me, hl[1])
            bad = und = None
            for s, v in outs:
                r = one_read(I, s, v, kind, items, args, me, hl)
                if r is True: continue
                if r[0] == 'bad': bad = bad or r[1]
                else: und = und or r[1]
            if bad: rep.bad(key, what, where(P, fn), bad)
            elif und or not outs: rep.undecided(key, what, where(P, fn), und or 'no path')
            else: rep.ok(key, what, where(P, fn))
        guarded(rep, key, what, where(P, fn), go)
    return n


def murky(x): return has_term(x, lambda t: t[:2] in (('t', '?'), ('t', 'call'), ('t', 'callf'), ('t', 'unknown'), ('t', 'fold'), ('t', 'each'), ('t', 'rest'), ('t', 'grown'), ('t', 'acc')))


def items_of(v):
    """segments a value holds"""
    v = strip(v)
    if v[:2] == ('t', 'items'): return items_of(v[2])
    return vec_segs(v)


def one_read(I, s, v, kind, items, args, me, hl):
    empty = s.facts.get(('t', 'isempty', items)) == 1 or s.rel(('t', 'len', items), ('i', 0)) == {'='}
    z = s.rel(('t', 'len', items), ('i', 0))
    if z <= {'<'}: return True      # no such sequence
    empty = empty or '=' in z and s.rel(('t', 'len', items), ('i', 1)) == {'<'}
    want = () if empty else (items,)
    def word(x):
        try: return drop_empty(s, norm_segs(items_of(x)))
        except Exception: return None
    if kind in ('view', 'items'):
        if kind == 'view' and v[0] != 'p': return ('und', 'not a reference: ' + show(v))
        g = ref_of(I, s, v) if kind == 'view' else pure(I, s, v)
        w = word(g)
        if w == want: return True
        return ('und' if w is None or murky(g) else 'bad', 'shows %s' % show(g))
    if kind == 'iter':
        if v[0] == 'p': v = ref_of(I, s, v)
        if v[0] == 'adt' and v[1] == '@it':
            ad = v[3][1][2:]
            g = drop_empty(s, norm_segs(v[3][0][3]))
            if g == want and all(a in ('refs', 'deref') for a in ad): return True
            return ('bad' if not murky(g) and all(a in ('refs', 'deref') for a in ad) else 'und', 'iterates over %s %s' % (show(g), ad))
        return ('und', 'iterator not recognised: ' + show(v))
    if kind == 'len':
        w = ('t', 'len', items)
        if v == w or s.rel(v, w) == {'='} or empty and v == ('i', 0): return True
        return ('und' if murky(v) else 'bad', 'returns %s on the path %s' % (show(v), '; '.join(s.path)))
    if kind == 'empty':
        L = ('t', 'len', items)
        if v[0] == 't':
            v = norm_bool(v)
            if v in (('t', 'isempty', items), ('t', 'cmpop', 'Eq') + tuple(sorted((L, ('i', 0)), key=repr)), ('t', 'cmpop', 'Eq', L, ('i', 0))): return True
            try:
                alts = []
                for b in (0, 1):
                    q = s.copy()
                    e = ('t', 'isempty', items); q.facts[e] = b
                    alts.append((b, I.truth(q, v)))
                if all(bool(b) == bool(t) for b, t in alts): return True
            except Fork: pass
            return ('und', 'returns ' + show(v))
        if v[0] == 'i':
            known = 1 if empty else 0 if s.facts.get(('t', 'isempty', items)) == 0 or '=' not in s.rel(L, ('i', 0)) or '<' not in s.rel(L, ('i', 1)) else None
            if known is None: return ('bad' if not s.facts and not s.order else 'und', 'returns %s on the path %s' % (show(v), '; '.join(s.path)))
            return True if known == v[1] else ('bad', 'returns %s when the sequence is %sempty' % (show(v), '' if known else 'not '))
        return ('und', show(v))
    if kind == 'index':
        if v[0] != 'p': return ('und', show(v))
        o, p = v[1], v[2]
        g = I.read(s, *I.deref(s, v))
        if g[:2] == ('t', 'idx') and g[2] == items and strip(g[3]) == strip(pure(I, s, args[1])): return True
        if g[:2] == ('t', 'slice') and g[2] == items: return True
        if g[:2] == ('t', 'idx') and not murky(g): return ('bad', 'reads ' + show(g))
        return ('und', 'reads ' + show(g))
    if kind == 'clone':
        q = find_seq(pure(I, s, v))
        if q is None: return ('und', show(v))
        w = word(q[3][hl[1]])
        if w != want: return ('und' if w is None or murky(q[3][hl[1]]) else 'bad', 'the clone holds %s' % show(q[3][hl[1]]))
        return True
    return ('und', kind)


def norm_bool(v):
    if v[:2] == ('t', 'not') and v[2][:2] == ('t', 'not'): return norm_bool(v[2][2])
    return v


def seq_eq(rep, P, hl):
    sty = next((i['self'] for i in P.impls if i['trait'] == 'as_hash_tree::AsHashTree' and i['self'].get('n') == SEQ), None)
    for meth in ('eq', 'ne'):
        fn = trait_fn(P, 'PartialEq', SEQ, meth)
        if fn not in P.fns:
            if meth == 'eq': rep.bad('anchor:eq', 'sequences can be compared')
            continue
        def mk(I, st):
            for nm in 'ab': st.mem[('S', nm)] = symval(I, st, sty, ('t', nm))
            return [('p', ('S', 'a'), ()), ('p', ('S', 'b'), ())]
        def pairs(I, st): return [(('t', 'f', ('t', 'a'), hl[1]), ('t', 'f', ('t', 'b'), hl[1]))]
        eq_case(rep, P, fn, 'Seq:' + meth, 'sequences are equal exactly when their items are', mk, pairs, meth == 'ne', ((('t', 'f', ('t', 'a'), hl[0]), ('t', 'f', ('t', 'b'), hl[0])),))
