"""C13, C14, C15: hashing of hash trees and of the provided value types, and the wire format."""
from base import *
import budget
import re
RBT = 'rbtree::RbTree'


def guarded(rep, key, what, wh, f):
    try:
        with budget.scope(): return f()
    except Undecided as u:
        rep.undecided(key, what, wh, '%s (at %s)' % (u.why, u.at)); return None
    except Bad as b:
        rep.bad(key, what, wh, '%s at %s' % (b.msg, b.at)); return None
    except (IndexError, KeyError, TypeError, AttributeError, ValueError, AssertionError, RecursionError) as e:
        rep.undecided(key, what, wh, internal(e)); return None


def internal(e):
    import traceback
    t = traceback.extract_tb(e.__traceback__)[-1]
    return 'construct outside the analysed fragment (%s at %s:%d)' % (type(e).__name__, t.filename.rsplit('/', 1)[-1], t.lineno)


def method(P, impl, name):
    for i in impl['items']:
        if i.endswith('>::' + name): return i
    return None


# ------------------------------------------------------------------ C14
def c14(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Abstract evaluation of HashTree::reconstruct per node kind, with recursive calls replaced by the induction hypothesis recon(child), compared with the digest formula of the Internet Computer interface specification; the public hash helpers are compared with the same formula.')
    rep.assume += ['sha2::Sha256 implements SHA-256', 'models of the standard library in engine/models.py']
    fn = 'hashtree::HashTree::<\'a>::reconstruct'
    fn = next((f for f in P.fns if re.match(r"hashtree::HashTree::<.*>::reconstruct$", f)), None)
    if fn is None:
        rep.bad('anchor:reconstruct', 'HashTree::reconstruct exists'); return
    hty = {'k': 'adt', 'n': HT, 'a': []}
    n = 0
    for i, v in enumerate(P.adts[HT]['variants']):
        I = A(P); st = State()
        st.mem[('S', 'self')] = variant(I, st, hty, i, ('t', 'self'))
        want = recon(I, st, ('p', ('S', 'self'), ()))

        def ih(I, s, path, args, meta, dty):
            on = any(f == path for f, _ in I.stack)
            if not on: return None
            for a in args:
                w = viewtree(I, s, a)
                if w is not None: return [(s, recon_abs(I, s, w))]
            return None
        I.ih = ih
        key = 'reconstruct:' + v['name']
        outs = guarded(rep, key, 'digest of a %s node' % v['name'], where(P, fn), lambda: evaluate(I, fn, [('p', ('S', 'self'), ())], st))
        rep.fns |= I.visited
        if outs is None: continue
        n += 1
        if not outs: rep.bad(key, 'digest of a %s node is produced' % v['name'], where(P, fn), 'no normal path returns'); continue
        for (s, r) in outs:
            got = hashval(I, s, r)
            rep.expect(got == want, key, 'digest of a %s node follows the specification' % v['name'], where(P, fn),
                       'computed  %s\nspecified %s\npath: %s' % (show(got), show(want), '; '.join(s.path)))
    rep.floor('hash tree node kinds evaluated', n + len([o for o in rep.obl if o['status'] == 'undecided']), 5)
    # helpers
    B = lambda name: ('t', name)
    for name, args, want in (('fork_hash', ['l', 'r'], lambda a: sha(sep('ic-hashtree-fork'), *a)),
                             ('leaf_hash', ['d'], lambda a: sha(sep('ic-hashtree-leaf'), *a)),
                             ('labeled_hash', ['k', 'h'], lambda a: sha(sep('ic-hashtree-labeled'), *a))):
        f = 'hashtree::' + name
        if f not in P.fns: rep.bad('anchor:' + name, f + ' exists'); continue
        I = A(P); st = State(); av = []
        for x in args:
            st.mem[('S', x)] = ('t', 'by', ('t', x)); av.append(('p', ('S', x), ()))
        outs = guarded(rep, name, 'public helper %s' % name, where(P, f), lambda: evaluate(I, f, av, st))
        rep.fns |= I.visited
        if outs is None: continue
        w = want([('t', 'by', ('t', x)) for x in args])
        for (s, r) in outs or [(None, None)]:
            rep.expect(s is not None and hashval(I, s, r) == w, name, '%s follows the specification' % name, where(P, f), 'computed %s, specified %s' % (show(r) if r else None, show(w)))


def viewtree(I, s, a):
    v = a; n = 0
    while v[0] in ('p', 'bx') and v != NULL and n < 6:
        o, p = I.deref(s, v); v = I.read(s, o, p); n += 1
    if v[0] == 'adt' and v[1] == HT: return v
    if v[0] == 't' and n: return v
    return None


def recon_abs(I, s, v): return ('t', 'recon', v) if v[0] == 't' else recon(I, s, v)


# ------------------------------------------------------------------ C13
LEAFY = ('std::vec::Vec', 'std::string::String', 'candid::Principal')
PTRS = ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc', 'std::ptr::NonNull')


def c13(rep, ctx):
    P = ctx.prog()
    rep.rule.append('For every implementation of AsHashTree in the crate, root_hash and as_hash_tree are evaluated abstractly on the same symbolic value and must agree path by path under the reconstruction formula; scalars, byte strings and pointer wrappers are also compared with the encoding the property names.')
    rep.assume += ['a user-defined AsHashTree value type keeps the trait contract', 'models of the standard library in engine/models.py']
    impls = [i for i in P.impls if i['trait'] == 'as_hash_tree::AsHashTree']
    rep.floor('AsHashTree implementations', len(impls), 60)
    dflt = 'as_hash_tree::AsHashTree::root_hash'
    if dflt in P.fns:
        I = A(P); st = State()
        outs = guarded(rep, 'default root_hash', 'trait default', where(P, dflt), lambda: ev_default(I, dflt))
        if outs:
            for s, r in outs:
                g = r
                rep.expect(g == ('t', 'H', ('t', 'self')), 'default root_hash', 'the default root_hash reconstructs as_hash_tree()', where(P, dflt), show(g))
        rep.fns |= I.visited
    for im in impls:
        sty = im['self']; nm = sty['s']
        n = sty.get('n', '')
        th = method(P, im, 'as_hash_tree'); rh = method(P, im, 'root_hash')
        if n.startswith(('collections::', 'rbtree::')):
            collection(rep, P, nm, sty, rh, th); continue
        if th not in P.fns: rep.bad('impl:' + nm, 'as_hash_tree body of ' + nm); continue
        key = 'impl:' + nm

        def ev(fn):
            I = A(P); st = State()
            o = ('S', 'self'); st.mem[o] = symval(I, st, sty, ('t', 'self')) if sty['k'] != 'ref' else ('p', ('S', 'selfref'), ())
            if sty['k'] == 'ref': st.mem[('S', 'selfref')] = ('t', 'self')
            r = evaluate(I, fn, [('p', o, ())], st)
            rep.fns.update(I.visited)
            return I, r
        if rh is None:
            rep.ok(key, 'root_hash of %s is the trait default' % nm, where(P, th)); a = None
        else:
            a = guarded(rep, key, 'root_hash of ' + nm, where(P, rh), lambda: ev(rh))
            if a is None: continue
        b = guarded(rep, key, 'as_hash_tree of ' + nm, where(P, th), lambda: ev(th))
        if b is None: continue
        I2, trees = b
        if not trees or (a and not a[1]):
            rep.bad(key, 'root_hash and as_hash_tree of %s return' % nm, where(P, th), 'no normal path'); continue
        for (s2, t) in trees:
            rt = recon(I2, s2, t)
            if a:
                for (s1, h) in a[1]:
                    if not compatible(s1, s2): continue
                    hv = hashval(a[0], s1, h)
                    rep.expect(hv == rt, key, 'root_hash of %s equals the digest of its as_hash_tree' % nm, where(P, rh),
                               'root_hash    %s\nas_hash_tree %s -> %s\ncase: %s' % (show(hv), show(t), show(rt), '; '.join(s2.path)))
            w = spec_leaf(sty, s2)
            if w == 'ptr':
                ok = rt[0] == 't' and rt[1] == 'H' and only_self(rt[2])
                rep.expect(ok, key, '%s hashes as the value it holds' % nm, where(P, th), show(rt))
            elif w is not None:
                rep.expect(rt == w, key, '%s is a leaf holding its canonical bytes' % nm, where(P, th), 'got %s\nwant %s' % (show(rt), show(w)))


def ev_default(I, fn):
    st = State(); st.mem[('S', 'self')] = ('t', 'self')
    def ih(I, s, path, args, meta, dty):
        if 'reconstruct' in path:
            w = viewtree(I, s, args[0]); return [(s, recon(I, s, w))]
    I.ih = ih
    outs = evaluate(I, fn, [('p', ('S', 'self'), ())], st)
    return outs


def only_self(x):
    if x == ('t', 'self'): return True
    if x[0] == 't' and x[1] in ('inner', 'val', 'nn', 'at', 'f'): return only_self(x[2])
    return False


def spec_leaf(sty, st):
    k = sty['k']; S = ('t', 'self')
    leaf = lambda *p: sha(sep('ic-hashtree-leaf'), *p)
    if k == 'int' or k == 'float' or sty['s'] in ('f32', 'f64'): return leaf(('t', 'be', sty['s'], S))
    if k == 'bool':
        v = st.facts.get(S)
        return None if v is None else leaf(bytes([v]))
    if k == 'ref' or k == 'array' or sty.get('n') in LEAFY: return leaf(('t', 'by', S))
    if sty.get('n') in PTRS: return 'ptr'
    if sty.get('n') == 'candid::Nat': return leaf(('t', 'by', ('t', 'bigbe', ('t', 'f', S, 0))))
    return None


class Wrapping(A):
    """the methods of the collection inside are the hash and the tree of that collection"""
    meth = {}
    def call_local(self, st, path, args, meta, dty):
        m = self.meth.get(path)
        if m is None: return super().call_local(st, path, args, meta, dty)
        v = args[0]
        while v[0] in ('p', 'bx') and v != NULL: v = self.read(st, *self.deref(st, v))
        return [(st, ('t', 'H' if m == 'root_hash' else 'tree', unwrapped(pure(self, st, v))))]


def unwrapped(v):
    """a map is its tree, a paged list is its map: each wrapper is shown to speak for what it wraps"""
    while v[0] == 'adt' and v[1].startswith('collections::') and len(v[3]) == 1: v = v[3][0]
    return v


def collection(rep, P, nm, sty, rh, th):
    """wrappers (Map, Paged) must delegate both methods to the same field; RbTree, Seq and Group are decided by C01/C04, C17 and C20"""
    if sty.get('n', '').endswith('::Seq'):
        import seqs
        hl = seqs.layout(P)
        if None in hl: rep.undecided('impl:' + nm, 'sequence layout', nm, 'fields of the sequence not recognised')
        else: seqs.reports(rep, P, hl, 'impl:Seq:')
        return
    n = sty.get('n', '')
    inner = [i for i in P.impls if i['trait'] == 'as_hash_tree::AsHashTree' and i['self'].get('n', '').startswith(('collections::', 'rbtree::')) and i['self'].get('n') != n]
    meth = {method(P, i, m): m for i in inner for m in ('root_hash', 'as_hash_tree')}
    if n == RBT or n.endswith('::Group') or rh is None or th is None or rh not in P.fns or th not in P.fns:
        rep.ok('impl:' + nm, 'collection type: agreement decided by C01/C02 (maps), C20 (Group)', where(P, rh or th)); return
    # wrappers: both methods must speak about the same certified field
    key = 'impl:' + nm; what = 'root_hash of %s equals the digest of its as_hash_tree' % nm

    def ev(fn):
        I = Wrapping(P); I.meth = meth; st = State()
        o = ('S', 'self'); st.mem[o] = symval(I, st, sty, ('t', 'self'))
        r = evaluate(I, fn, [('p', o, ())], st)
        rep.fns.update(I.visited)
        return I, r

    def go():
        a, b = ev(rh), ev(th)
        if not a[1] or not b[1]: rep.bad(key, what, where(P, rh), 'no normal path'); return
        bad = und = None
        for s2, t in b[1]:
            rt = recon(b[0], s2, t)
            for s1, h in a[1]:
                if not compatible(s1, s2): continue
                hv = hashval(a[0], s1, h)
                if hv == rt: continue
                murky = [x for x in (hv, rt) if not ((x[0] == 't' and x[1] in ('H', 'sha')) or x[0] == 'b' or x == ('t', 'default') or x[0] == 'adt' and x[1] == '[]')]
                m = 'root_hash    %s\nas_hash_tree %s\ncase: %s' % (show(hv), show(rt), '; '.join(s1.path + s2.path))
                if murky: und = und or m
                else: bad = bad or m
        if bad: rep.bad(key, what, where(P, rh), bad)
        elif und: rep.undecided(key, what, where(P, rh), und)
        else: rep.ok(key, what, where(P, rh))
    guarded(rep, key, what, where(P, rh), go)


# ------------------------------------------------------------------ C15
def c15(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Abstract evaluation of <HashTree as Serialize>::serialize per node kind; the trace of serializer calls must be serialize_seq(Some(n)), tag, parts in order, end, with n elements.')
    rep.assume += ['serde_bytes::Bytes serializes as a byte string; references and boxes serialize as their contents (serde)']
    fn = next((f for f in P.fns if re.match(r'<hashtree::HashTree<.*> as serde::Serialize>::serialize$', f)), None)
    if not fn: rep.bad('anchor:serialize', 'Serialize for HashTree exists'); return
    hty = {'k': 'adt', 'n': HT, 'a': []}
    from sermodel import SER
    S = ('t', 'self')
    f = lambda i, j: ('t', 'f', S, i, j)
    n = 0
    for i, v in enumerate(P.adts[HT]['variants']):
        I = A(P); I.models = SER; st = State()
        st.mem[('S', 'self')] = variant(I, st, hty, i, S)
        hv = st.mem[('S', 'self')]
        key = 'serialize:' + v['name']
        name = v['name']
        want = {'Empty': [('u8', 0)],
                'Fork': [('u8', 1), ('tree', ('t', 'f', ('t', 'inner', f(i, 0)), 0)), ('tree', ('t', 'f', ('t', 'inner', f(i, 0)), 1))],
                'Labeled': [('u8', 2), ('bytes', ('t', 'by', f(i, 0))), ('tree', ('t', 'inner', f(i, 1)))],
                'Leaf': [('u8', 3), ('bytes', ('t', 'by', f(i, 0)))],
                'Pruned': [('u8', 4), ('bytes', ('t', 'by', f(i, 0)))]}.get(name)
        outs = guarded(rep, key, 'serialization of ' + name, where(P, fn), lambda: evaluate(I, fn, [('p', ('S', 'self'), ()), ('t', 'serializer')], st))
        rep.fns |= I.visited
        if outs is None: continue
        n += 1
        succ = 0
        for (s, r) in outs:
            tr = [e[1:] for e in s.ev if e[0] == 'ser']
            if r[0] == 'adt' and r[2] == 1: continue   # a serializer error is propagated
            if any(v2 == 1 for k2, v2 in s.facts.items() if k2[1] == 'discr' and k2[3] == RES):
                rep.bad(key, 'a serializer error is propagated', where(P, fn), 'path: ' + '; '.join(s.path)); continue
            succ += 1
            exp = [('seq', ('i', len(want)))] + [('elem',) + w for w in want] + [('end',)]
            got = tr
            rep.expect(got == exp, key, 'a %s node is written with its specified tag and parts' % name, where(P, fn), 'written   %s\nspecified %s' % (got, exp))
        rep.expect(succ > 0, key, 'serialization of %s can succeed' % name, where(P, fn))
    rep.floor('node kinds', n + sum(o['status'] == 'undecided' for o in rep.obl), 5)

