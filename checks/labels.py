"""C16: label bytes order and identify keys as the keys do.  as_label of every key type is interpreted into a list of byte
parts; each part is classified (which component of the key it encodes, is it monotone, is its width fixed) and compared with
the order of the key type.  Also the contract of Prefix (used by C05)."""
from base import *
from words import *
from seqs import WI
import words
from hashing import method, guarded
import itertools, re

PTRS = ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc')
LEX = ('std::vec::Vec', 'std::string::String')
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
BITS.update({'i' + k[1:]: v for k, v in list(BITS.items())})


class LI(WI):
    pass


def paths(I, fn, args, st):
    out = []; wl = [st]
    while wl:
        s = wl.pop()
        try: out += I.call_fn(s, fn, args)
        except Fork as f: wl += [I.replay(s, x) for x in f.alts]
        except Infeasible: pass
    return out


def root(x):
    """the component of the key a term denotes: () for the key itself, (i,) for field i, (v, i) for a variant field"""
    while x[0] == 't' and x[1] in ('inner', 'val', 'nn', 'at', 'view', 'clone', 'cloned', 'sym', 'as_slice', 'deref'): x = x[2]
    if x == ('t', 'self'): return ()
    if x[0] == 't' and x[1] == 'f':
        r = root(x[2])
        return None if r is None else r + tuple(x[3:])
    if x[0] == 't' and len(x) == 3 and x[2] == ('t', 'self') and x[1] in ('bytes', 'str'): return ()
    return None


def classify(p, fieldty, alen):
    """(component, kind, fixed width, monotone) of one label part; kind: 'be:u32', 'bytes', 'label', ... ; None: not recognised"""
    if isinstance(p, bytes): return ((), 'const', True, None)
    if p[:2] == ('t', 'byte'): return classify(('t', 'be', 'u8', p[2]), fieldty, alen)
    if p[:2] == ('t', 'label'):
        r = root(p[2])
        return None if r is None else (r, 'label', False, True)
    if p[:2] == ('t', 'by'):
        r = root(p[2])
        if p[2][:2] == ('t', 'fn'):
            r = root(p[2][3])
            return None if r is None else (r, 'truncated' if p[2][2] != 'to_text' else 'fn:to_text', False, False)
        if p[2][:2] == ('t', 'len') or p[2][0] == 't' and p[2][1] == 'as' and p[2][3][:2] == ('t', 'len'): return ((), 'partial', True, False)
        if r is None and p[2][:2] in (('t', 'sub'), ('t', 'slice'), ('t', 'take'), ('t', 'index')): return ((), 'partial', False, False)
        if r is None: return None
        t = fieldty(r)
        if t is None: return None
        if t['k'] == 'int': return (r, 'be:' + t['s'], True, t['s'][0] == 'u') if t['s'] in ('u8', 'i8') else None
        if t['k'] == 'bool': return (r, 'bool', True, True)
        return (r, 'bytes', t['k'] == 'array', True)
    le = p[1] in ('to_le_bytes', 'to_ne_bytes')
    if p[:2] == ('t', 'be') or le:
        x = p[2] if le else p[3]; w = None if le else p[2]
        flip = False; cast = []
        while x[0] == 't':
            if x[1] == 'as': cast.append(x[2]); x = x[3]
            elif x[1] == 'bin' and x[2] == 'BitXor' and x[4][0] == 'i': 
                flip = x[4][1]; x = x[3]
            else: break
        if x[:2] == ('t', 'len'): return ((), 'partial', True, False)
        r = root(x)
        if r is None: return None
        t = fieldty(r)
        if t is None or t['k'] not in ('int', 'bool'): return None
        b = BITS.get(t['s'], 8)
        if any(BITS[c] < b for c in cast if c in BITS): return (r, 'truncated', True, False)
        if le and b > 8: return (r, p[1], True, False)
        mono = t['k'] == 'bool' or t['s'][0] == 'u'
        if flip: mono = (abs(flip) == 1 << (b - 1)) and not mono
        kind = 'be:' + t['s'] + (':flip' if flip else '')
        return (r, kind, True, mono)
    return None


def ord_fields(P, sty, rep):
    """the lexicographic field order of a local struct, from its interpreted cmp; None if not decided"""
    ad = P.adts[sty['n']]
    fn = impl_of(P, sty['n'], 'std::cmp::Ord', 'cmp')
    if not fn: return None
    n = len(ad['variants'][0]['fields'])
    for perm in itertools.permutations(range(n)):
        I = A(P); st = State(); args = []
        for side in 'ab':
            st.mem[('S', side)] = ('adt', sty['n'], 0, tuple(('t', 'x', side, i) for i in range(n))); args.append(('p', ('S', side), ()))
        good = True
        for s, v in paths(I, fn, args, st):
            got = {v_: k for k, v_ in ORDV.items()}.get(v)
            exp = {'='}
            for i in reversed(perm):
                r = s.rel(('t', 'x', 'a', i), ('t', 'x', 'b', i))
                exp = {x for x in r if x != '='} | (exp if '=' in r else set())
            if exp != {got}: good = False
        rep.fns |= I.visited
        if good: return [(i,) for i in perm]
    return None


def impl_of(P, n, trait, name):
    for i in P.impls:
        if i['trait'] == trait and i['self'].get('n') == n:
            for it in i['items']:
                if it.endswith('::' + name) and it in P.fns: return it
    return None


def ordinfo(P, sty, rep):
    """how keys of the type are ordered: list of (component) in lexicographic order, or a reason why labels cannot follow it"""
    k = sty['k']; n = sty.get('n')
    if k in ('int', 'bool', 'array'): return [()], None
    if n in LEX: return [()], None
    if n in PTRS: return [()], None
    if n == 'std::ptr::NonNull': return None, 'keys are ordered by address, not by the value the label shows'
    if n == 'candid::Principal': return None, 'principals are ordered by length first, labels byte by byte'
    if n in P.adts and P.adts[n].get('local') and P.adts[n]['kind'] == 'struct':
        f = ord_fields(P, sty, rep)
        if f is None: return None, None
        return f, None
    return None, None


def c16(rep, ctx):
    P = ctx.prog()
    rep.rule.append('as_label of every implementation of Label is interpreted on a symbolic key; the resulting byte parts are classified (component encoded, monotone, fixed width). The label is an order embedding iff the parts follow the lexicographic '
                    'order of the key type, each is monotone and all but the last have a fixed width; it identifies the key iff every component occurs in full.')
    rep.assume += ['Ord of std types as documented (lexicographic for byte strings, numeric for integers, delegated for Box/Rc/Arc, by address for NonNull); Ord of candid::Principal is derived over (length, bytes)',
                   'Label implementations of user key types keep the contract themselves', 'two keys of the same map are encoded on the same platform']
    from paged import paged_layout
    L = paged_layout(P)
    impls = [i for i in P.impls if i['trait'] == 'label::Label']
    rep.floor('Label implementations', len(impls), 50)
    for im in impls:
        sty = im['self']; nm = sty['s']; fn = method(P, im, 'as_label')
        if sty.get('n') and '<' in nm: nm = re.sub(r'<[A-Z]\w*>$', '', nm)
        if L and sty.get('n') == L['pk']: nm = 'PagedKey'
        if fn not in P.fns: rep.bad('impl:' + nm, 'as_label body of ' + nm); continue
        wh = where(P, fn)
        guarded(rep, 'label:' + nm, 'label of ' + nm, wh, lambda: one_label(rep, P, sty, nm, fn, wh))


def one_label(rep, P, sty, nm, fn, wh):
    I = LI(P)
    ad = P.adts.get(sty.get('n')) if sty['k'] == 'adt' else None
    local = bool(ad and ad.get('local'))
    outs = []
    if local and ad['kind'] == 'enum':
        for i in range(len(ad['variants'])):
            st = State(); o = ('S', 'self'); st.mem[o] = variant(I, st, sty, i, ('t', 'self'))
            outs += [(s, v, i) for s, v in paths(I, fn, [('p', o, ())], st)]
    elif sty['k'] == 'bool':
        for b in (0, 1):
            st = State(); o = ('S', 'self'); st.mem[o] = ('i', b)
            outs += [(s, v, b) for s, v in paths(I, fn, [('p', o, ())], st)]
    else:
        st = State(); o = ('S', 'self'); st.mem[o] = symval(I, st, sty, ('t', 'self'))
        outs = [(s, v, None) for s, v in paths(I, fn, [('p', o, ())], st)]
    rep.fns |= I.visited
    if not outs: rep.bad('label:' + nm, 'as_label of %s returns' % nm, wh); return

    def fieldty(r):
        if r == (): return sty
        if local:
            try: return ad['variants'][r[0] if len(r) > 1 else 0]['fields'][r[-1]]['ty']
            except Exception: return None
        return None
    strip = lambda p: p[2] if isinstance(p, tuple) and p[:2] == ('t', 'by') and p[2][0] == 't' and p[2][1] in ('label', 'be', 'to_le_bytes', 'to_ne_bytes') else ('t', 'be') + p[2][2][2:] if isinstance(p, tuple) and p[:2] == ('t', 'by') and p[2][:2] == ('t', 'items') and p[2][2][:2] == ('t', 'be') else p
    labels = [(s, tuple(strip(p) for p in BY(I, s, v)), c) for s, v, c in outs]
    if sty['k'] == 'bool':
        by = {c: l for s, l, c in labels}
        ok = all(len(l) == 1 and isinstance(l[0], bytes) for l in by.values())
        if not ok: rep.undecided('label:bool', 'label of bool', wh, show(by)); return
        rep.expect(by[0] != by[1], 'injective:bool', 'different keys have different labels', wh, show(by))
        rep.expect(by[0] < by[1] , 'order:bool', 'labels are ordered as the keys', wh, show(by))
        return
    if local and ad['kind'] == 'enum':
        # a view of a key: the label must be that of the key it holds
        for s, l, c in labels:
            ok = len(l) == 1 and l[0][:2] == ('t', 'label') and (root(l[0][2]) or (None,))[0] == c
            rep.expect(ok, 'view:%s:%s' % (nm, ad['variants'][c]['name']), 'the label of a view of a key is the label of the key', wh, show(l))
        return
    ordf, why = ordinfo(P, sty, rep)
    for s, parts, c in labels:
        cls = []
        for p in parts:
            q = classify(p, fieldty, None)
            if q is None: rep.undecided('label:' + nm, 'the label is a recognised encoding', wh, show(p)); return
            if q[1] != 'const': cls.append(q)
        kinds = '+'.join(k for r, k, w, m in cls)
        # identification
        comps = [r for r, k, w, m in cls if k not in ('truncated', 'partial')]
        need = [()] if not local else [(i,) for i in range(len(ad['variants'][0]['fields'])) if fieldty((i,))['s'].find('PhantomData') < 0]
        miss = [r for r in need if r not in comps]
        loose = [k for r, k, w, m in cls if not w and k != 'partial']
        rep.expect(not miss and len(labels) == 1 if not miss else False, 'injective:' + nm, 'different keys have different labels', wh,
                   ('the label %s does not determine %s' % (show(parts), 'the key' if miss == [()] else 'component %s' % miss)) if miss else 'labels depend on the path')
        if len(loose) > 1: rep.bad('injective:%s:%s' % (nm, kinds), 'different keys have different labels', wh, 'two parts of variable length are joined: ' + show(parts))
        # order
        key = 'order:%s:%s' % (nm, kinds)
        if why: rep.bad(key, 'labels are ordered as the keys', wh, why); continue
        if ordf is None: rep.undecided(key, 'labels are ordered as the keys', wh, 'order of %s not recognised' % nm); continue
        seq = [r for r, k, w, m in cls]
        if miss: continue
        first = [r for i, r in enumerate(seq) if r not in seq[:i]]
        bad = None
        if first != [r for r in ordf if r in first]: bad = 'components are written in the order %s but compared in the order %s' % (first, ordf)
        for i, (r, k, w, m) in enumerate(cls):
            if not m: bad = bad or 'the encoding %s is not monotone' % k
            if not w and i + 1 < len(cls): bad = bad or 'a part of variable length precedes another part: a key that is a prefix of another one is not ordered before it'
        rep.expect(bad is None, key, 'labels are ordered as the keys', wh, bad)


# ------------------------------------------------------------------ Prefix (C05)
def prefix_contract(rep, P):
    """each is_prefix tests the leading bytes (or the borrowed value, when the key type borrows to a whole component)"""
    impls = [i for i in P.impls if i['trait'] == 'label::Prefix']
    rep.floor('Prefix implementations', len(impls), 30)
    dflt = 'label::Prefix::is_prefix'
    for im in impls:
        sty = im['self']; nm = im['trait_ref']; fn = method(P, im, 'is_prefix'); own = fn in P.fns if fn else False
        key = 'prefix:' + nm
        def go(im=im, sty=sty, fn=fn, own=own, key=key, nm=nm):
            I = LI(P); st = State(); o = ('S', 'self'); st.mem[o] = symval(I, st, sty, ('t', 'self')); st.mem[('S', 'pre')] = ('t', 'pre')
            f = fn if own else dflt
            if f not in P.fns: rep.undecided(key, 'prefix test of ' + nm, f, 'no body'); return
            outs = paths(I, f, [('p', o, ()), ('p', ('S', 'pre'), ())], st)
            rep.fns |= I.visited
            want = ('t', 'pred', 'starts_with', (('t', 'by', ('t', 'self')),), (('t', 'by', ('t', 'pre')),))
            bad = None; und = None; n = 0
            for s, v in outs:
                n += 1
                if v[0] == 'i':
                    f1 = s.facts.get(want)
                    if f1 is not None and own and bool(v[1]) == bool(f1): continue
                    if not own:
                        rels = [s.rel(x, y) for x, y in eqpairs(s)]
                        if rels and all((r == {'='}) == bool(v[1]) for r in rels): continue
                    if v[1] == 0 and any(shorter(s)): continue
                    hs = headeq(s)
                    if hs is not None and own and bool(v[1]) == hs: continue
                    if f1 is None and not own and not (rels and all(len(r) == 1 or '=' not in r for r in rels)): und = show(v) + ' on ' + '; '.join(s.path); continue
                    bad = 'answers %s on the path %s' % (bool(v[1]), '; '.join(s.path)); continue
                if not own and v[0] == 't' and v[1] in ('eq', 'rel', 'pred'): continue
                if own:
                    w = norm(v)
                    if w == want: continue
                    if w[0] == 't' and w[1] == 'pred': bad = 'tests %s' % show(v); continue
                und = show(v)
            if bad: rep.bad(key, 'a key has the prefix exactly when its bytes start with it', where(P, f), bad)
            elif und or not n: rep.undecided(key, 'a key has the prefix exactly when its bytes start with it', where(P, f), und)
            else: rep.ok(key, 'a key has the prefix exactly when its bytes start with it (or its borrowed component equals it)', where(P, f))
        guarded(rep, key, 'prefix test of ' + nm, fn, go)


def norm(v):
    if v[0] == 't' and v[1] == 'pred' and len(v) == 5:
        st = lambda b: tuple(('t', 'by', ('t', 'self')) if isinstance(x, tuple) and x[:2] == ('t', 'by') and root(x[2]) == () else x for x in b)
        return v[:3] + (st(v[3]), v[4])
    return v


def eqpairs(s):
    return [(x, y) for (r, x, y) in s.order if x == ('t', 'pre') or y == ('t', 'pre')]


def headeq(s):
    """is the leading part of the key, as long as the prefix, known to equal / differ from the prefix"""
    for (r, x, y) in s.order:
        for a, b in ((x, y), (y, x)):
            if b == ('t', 'pre') and a[:2] == ('t', 'slice') and root(a[2]) == () and rangeend(a[3]) == ('t', 'len', ('t', 'pre')):
                q = s.rel(a, b)
                return True if q == {'='} else False if '=' not in q else None
    return None


def rangeend(r):
    if r[0] == 'adt' and r[1].endswith('RangeTo'): return r[3][0]
    if r[0] == 'adt' and r[1].endswith('Range') and r[3][0] == ('i', 0): return r[3][1]
    return None


def shorter(s):
    """is the key known to be shorter than the prefix"""
    for (r, x, y) in s.order:
        if x[:2] == ('t', 'len') and y[:2] == ('t', 'len'):
            a, b = (x, y) if root(x[2]) == () else (y, x)
            if root(a[2]) == () and s.rel(a, b) == {'<'}: yield True
