"""C11 / C12: what the public signatures let a client keep.

The tree stores its nodes behind raw pointers, so the borrow checker only sees the signatures: a reference made from a raw
pointer may be given any lifetime.  Both properties are therefore decided on the region-annotated signatures of every
reachable function, on the Fn-bounds of its closure parameters, and on the call graph below functions taking &self."""
from base import *
from hashing import guarded
import re

FN = ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn')
OWNERS = ('std::boxed::Box', 'std::vec::Vec', 'std::collections::VecDeque', 'std::option::Option', 'std::marker::PhantomData', 'std::collections::BTreeMap', 'std::collections::HashMap', 'std::cell::RefCell', 'std::cell::Cell', 'std::cell::UnsafeCell', 'std::mem::ManuallyDrop')


def walk(t, f, under=()):
    """visit every type node; `under`: the references crossed on the way, outermost first"""
    f(t, under)
    k = t['k']
    if k == 'ref': walk(t['t'], f, under + ((t['r'], t['m']),))
    elif k in ('ptr', 'slice', 'array'): walk(t['t'], f, under)
    elif k in ('adt', 'tuple', 'alias'):
        for x in t.get('a', ()):
            if x.get('k') != 'const': walk(x, f, under)
        for c in t.get('bounds', ()):
            if c.get('k') == 'proj' and c.get('t') and not c['n'].startswith(FN): walk(c['t'], f, under)


def regions(t):
    """[(region, 'ref'|'arg', type node, crossed references)]"""
    out = []
    def f(x, under):
        if x['k'] == 'ref': out.append((x['r'], 'ref', x, under))
        elif x['k'] == 'dyn' and x.get('r'): out.append((x['r'], 'dyn', x, under))
        else:
            for r in x.get('ra', ()): out.append((r, 'arg', x, under))
    walk(t, f)
    return out


def short(fn):
    """Type::method, without generic arguments"""
    while True:
        q = re.sub(r'::<[^<>]*>|<[^<>]*>(?=::)', '', fn)
        if q == fn: break
        fn = q
    m = re.match(r'^<(.*) as .*>::(\w+)$', fn)
    if m: return re.sub(r'<.*', '', m.group(1)).rsplit('::', 1)[-1] + '::' + m.group(2)
    return '::'.join(fn.split('::')[-2:])


def show_r(r):
    m = re.search(r"::('\w+)\)+$", r)
    return m.group(1) if m else r


class Sigs:
    def __init__(self, P):
        self.P = P
        self.assoc = [(i['trait'], i['self'], n, t) for i in P.impls for n, t in (i.get('assoc') or {}).items()]
        self.memo = {}

    def norm(self, t):
        """resolve projections of local impls"""
        if t['k'] == 'alias' and t.get('ak', '').startswith('Projection'):
            tr, n = t['n'].rsplit('::', 1)
            for tr2, st, n2, ty in self.assoc:
                if n == n2 and tr == tr2 and t['a'] and t['a'][0]['s'] == st['s']: return self.norm(ty)
        out = dict(t)
        if 'a' in t: out['a'] = [self.norm(x) if x.get('k') != 'const' else x for x in t['a']]
        if 't' in t and isinstance(t['t'], dict): out['t'] = self.norm(t['t'])
        return out

    def fields(self, n):
        ad = self.P.adts.get(n)
        if not ad or not ad.get('local'): return []
        return [f for v in ad['variants'] for f in v['fields'] if f.get('rty')]

    def exclusive(self, n):
        """does a value of the type hold a unique borrow with its region parameter"""
        if n in self.memo: return self.memo[n]
        self.memo[n] = False
        r = False
        for f in self.fields(n):
            for reg, how, x, under in regions(f['rty']):
                if how == 'ref' and x['m']: r = True
                if how == 'arg' and x['k'] == 'adt' and x['n'] != 'std::marker::PhantomData' and self.exclusive(x['n']): r = True
        self.memo[n] = r
        return r

    def contains(self, n, seen=None):
        """type names (strings) and local ADTs stored by value or through pointers in a local type"""
        seen = set() if seen is None else seen
        if n in seen: return set()
        seen.add(n); out = set()
        for f in self.fields(n):
            def g(x, under):
                if x['k'] == 'adt':
                    out.add(x['n'])
                    if (self.P.adts.get(x['n']) or {}).get('local'): out.update(self.contains(x['n'], seen))
            walk(f['rty'], g)
        return out


def is_hash(t): return t['k'] == 'array' and t['t'].get('s') == 'u8' and '32' in t.get('s', '')


def public_fns(P):
    return {fn: f for fn, f in P.fns.items() if f.get('reachable') and 'rins' in f and '{' not in fn.rsplit('::', 1)[-1]}


def outlives(preds, S, ins):
    """region -> regions known to outlive it"""
    g = {}
    for c in preds:
        if c['k'] == 'outl': g.setdefault(c['b'], set()).add(c['a'])
    for t in ins:      # implied bounds: a region under a reference outlives the reference
        for r, how, x, under in regions(t):
            for u, m in under: g.setdefault(u, set()).add(r)
    return g


def sources(r, table, out):
    """input regions that can supply a borrow of region r: r itself or anything that outlives it"""
    seen = set(); todo = [r]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += out.get(x, ())
    return [y for y in seen if y in table]


def pointee(t):
    return t['t']['s'] if t['k'] == 'ref' else t['s']


def mentions(t, pred):
    hit = []
    walk(t, lambda x, u: hit.append(x) if pred(x) else None)
    return bool(hit)


def c11(rep, ctx):
    P = ctx.prog(); S = Sigs(P)
    rep.rule.append('Region analysis of every reachable signature (result, closure parameters, associated types): each borrow given out must be limited by the borrow of the collection it comes from; no unique borrow out of a shared one or out of a reborrowed view; '
                    'no pointer-holding view without a lifetime; and no function reachable from a shared borrow mutates or frees tree nodes.')
    rep.assume += ['the borrow checker accepts the client program; only safe code is considered', 'a function that offers a reference can return one']
    pub = public_fns(P)
    rep.floor('reachable functions', len(pub), 250)
    n = 0
    for fn, f in sorted(pub.items()):
        if f.get('unsafe'): continue
        n += guarded(rep, 'sig:' + fn, 'signature of ' + fn, where(P, fn), lambda: signature(rep, P, S, fn, f)) or 0
    rep.floor('borrowing signatures', n, 60)
    views(rep, P, S, pub)
    shared_effects(rep, P, S, pub)


def receiver(P, f):
    return bool(f.get('self_ty')) and bool(f['rins'])


def signature(rep, P, S, fn, f):
    ins = [S.norm(t) for t in f['rins']]; out = S.norm(f['rout']); preds = f.get('rpreds', [])
    g = outlives(preds, S, ins)
    table = {}
    for i, t in enumerate(ins):
        for r, how, x, under in regions(t): table.setdefault(r, []).append((i, how, x, under))
    slf = f.get('rself')
    has_self = bool(slf) and bool(ins) and mentions(ins[0], lambda x: x['s'] == slf['s'])
    wh = where(P, fn); cnt = 0

    def judge(r, how, x, what, key, under=()):
        """one borrow offered to the client"""
        if r.startswith('bound:') or how == 'dyn' or how == 'arg' and x['k'] == 'alias' and x['ak'].startswith('Projection'): return
        inner = x['t'] if x['k'] == 'ref' else x
        stored = mentions(inner, lambda y: y['k'] == 'param' or y['k'] == 'adt' and (P.adts.get(y['n']) or {}).get('local'))
        if r == "'static":
            if x['k'] == 'ref' and stored: rep.bad(key, 'borrows given out end with the borrow of the collection', wh, '%s gives out %s, valid forever' % (what, x['s']))
            return
        src = sources(r, table, g)
        if not src:
            rep.bad(key, 'borrows given out end with the borrow of the collection', wh, '%s gives out %s, whose lifetime %s is not tied to any argument: it stays usable after the collection is changed or dropped' % (what, x['s'], show_r(r))); return
        use = [(q, e) for q in src for e in table[q]]
        if has_self and not any(e[0] == 0 for q, e in use):
            # only another argument: it must be able to hold what is given out
            ok = any(y['k'] == 'ref' and (pointee(y) == pointee(x) if x['k'] == 'ref' else False) or y['s'] == x['s'] or y['k'] == 'adt' and e_how == 'arg' for q, (i, e_how, y, u) in use)
            if not ok:
                rep.bad(key, 'borrows given out end with the borrow of the collection', wh, '%s gives out %s with the lifetime of another argument (%s)' % (what, x['s'], ', '.join(y['s'] for q, (i, h2, y, u) in use))); return
        recv = [(q, e) for q, e in use if e[0] == 0 or not has_self]
        if x['k'] == 'ref' and x['m'] or how == 'arg' and x['k'] == 'adt' and S.exclusive(x['n']):
            # a unique borrow needs a unique source
            if recv and all(e_how == 'ref' and not y['m'] for q, (i, e_how, y, u) in recv):
                rep.bad(key, 'no unique borrow comes out of a shared one', wh, '%s gives out %s from %s' % (what, x['s'], ', '.join(y['s'] for q, (i, h2, y, u) in recv))); return
        # a region taken from a view that holds a unique borrow, while the view itself is only borrowed
        esc = [(q, e) for q, e in recv if e[1] == 'arg' and e[3] and e[2]['k'] == 'adt' and S.exclusive(e[2]['n'])]
        if esc and len(esc) == len(recv):
            rep.bad(key, 'borrows given out of a borrowed view end with that borrow', wh, '%s gives out %s although the view %s is only borrowed: it can be used again' % (what, x['s'], esc[0][1][2]['s'])); return
        rep.ok(key, 'borrows given out end with the borrow of the collection', wh)

    k = 0
    for r, how, x, under in regions(out):
        judge(r, how, x, 'the result', 'result:%s' % fn, under); k += 1; cnt = 1
    for c in preds:
        if c['k'] == 'proj' and c['n'].startswith(tuple(q + '::' for q in FN)) and len(c.get('a', ())) > 1:
            for arg in c['a'][1:]:
                for r, how, x, under in regions(S.norm(arg)):
                    cnt = 1
                    judge(r, how, x, 'the closure parameter', 'closure:%s' % fn, under)
    return cnt


def views(rep, P, S, pub):
    """types that point into a collection must carry the lifetime of the borrow they came from"""
    drops = {i['self'].get('n') for i in P.impls if i['trait'] == 'std::ops::Drop'}
    made = {}
    for fn, f in pub.items():
        def g(x, under, fn=fn, f=f):
            if x['k'] == 'adt' and (P.adts.get(x['n']) or {}).get('local') and not x.get('ra'): made.setdefault(x['n'], []).append((fn, f))
        walk(S.norm(f['rout']), g)
    for n, by in sorted(made.items()):
        raw = any(mentions(fl['rty'], lambda x: x['k'] == 'ptr' or x.get('n') == 'std::ptr::NonNull') for fl in S.fields(n))
        if not raw or n in drops: continue
        gives = [fn for fn, f in pub.items() if (f.get('rself') or {}).get('n') == n and any(h == 'ref' and x['t']['k'] == 'param' for r, h, x, u in regions(S.norm(f['rout'])))]
        frm = [fn for fn, f in by if any(h == 'ref' and mentions(x['t'], lambda y: y.get('n') in drops and y.get('n') != n) for t in f['rins'] for r, h, x, u in regions(t))]
        if gives and frm: rep.bad('view:' + n, 'a view into a collection carries the lifetime of its borrow', n, '%s holds raw pointers, is made by %s from a borrow and gives out references through %s' % (n, frm[0], gives[0]))
        else: rep.ok('view:' + n, 'a view into a collection carries the lifetime of its borrow', n)
    for n, ad in sorted(P.adts.items()):
        if ad and ad.get('local') and any(mentions(fl['rty'], lambda x: x['k'] == 'ptr') for fl in S.fields(n)) and n not in made: rep.ok('view:' + n, 'a view into a collection carries the lifetime of its borrow', n)


FREE = ('std::boxed::Box::from_raw', 'std::ptr::drop_in_place', 'std::ptr::read', 'std::ptr::write', 'std::ptr::replace', 'std::ptr::swap', 'std::alloc::dealloc')


def strip(p): return re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', p)).replace('::::', '::')


def node_effects(P, S, fn):
    """constructs in one body that change or free something reached through a raw pointer: (what, at)"""
    f = P.fns[fn]; b = f.get('body'); out = []
    if not b: return out
    def rawfield(pl):
        """type reached through a raw pointer, and the field path after it"""
        t = b['locals'][pl[0]]['ty']; raw = False; last = None; var = None
        I = None
        for e in pl[1:]:
            if e == '*':
                if t['k'] == 'ptr': raw = True
                elif t['k'] == 'ref': pass
                t = t.get('t') or (t['a'][0] if t.get('n') == 'std::boxed::Box' and t.get('a') else None)
                last = None
            elif isinstance(e, dict) and 'f' in e:
                ad = P.adts.get(t.get('n')) if t.get('k') == 'adt' else None
                if not ad or not ad.get('local'): return None
                fl = ad['variants'][t.get('variant', 0) if isinstance(t.get('variant', 0), int) else 0]['fields'][e['f']]
                last = (t['n'], fl['name'], fl['ty']); t = fl['ty']
            else: return None
            if t is None: return None
        return (raw, last)
    for bb in b['bbs']:
        if bb.get('cleanup'): continue
        for s in bb['s']:
            if s['s'] != '=': continue
            q = rawfield(s['p'])
            if q and q[0] and q[1] and (q[1][2]['k'] in ('ptr', 'param')): out.append(('assigns %s.%s' % (q[1][0], q[1][1]), s['at']))
            if s['r']['r'] in ('ref', 'addr') and s['r'].get('m', s['r'].get('mut')):
                q = rawfield(s['r']['p'])
                if q and q[0] and q[1] and q[1][2]['k'] in ('param',): out.append(('borrows %s.%s uniquely' % (q[1][0], q[1][1]), s['at']))
        t = bb['t']
        if t['t'] == 'call':
            fo = t['f'].get('const', {}).get('fn') or t['f'].get('fn') or {}
            p = strip(fo.get('p', '') if isinstance(fo, dict) else '')
            if p in FREE: out.append(('calls ' + p, t['at']))
    return out


def callees(P, fn):
    out = set(); b = P.fns[fn].get('body')
    if not b: return out
    def scan(o):
        if isinstance(o, dict):
            if 'fn' in o and isinstance(o['fn'], dict):
                for k in ('r', 'p', 'path'):
                    v = o['fn'].get(k)
                    if isinstance(v, str) and v in P.fns: out.add(v)
                    elif isinstance(v, dict) and v.get('p') in P.fns: out.add(v['p'])
            if o.get('k') == 'closure' and o.get('n') in P.fns: out.add(o['n'])
            for v in o.values(): scan(v)
        elif isinstance(o, list):
            for v in o: scan(v)
    scan(b['bbs'])
    return out


def shared_effects(rep, P, S, pub):
    """&self functions of pointer-based collections must not change or free nodes"""
    drops = {i['self'].get('n') for i in P.impls if i['trait'] == 'std::ops::Drop'}
    eff = {}; cg = {}
    n = 0
    for fn, f in sorted(pub.items()):
        ins = f['rins']
        if not ins: continue
        hold = lambda x: x.get('n') in drops or bool(S.contains(x['n']) & drops) if x['k'] == 'adt' and (P.adts.get(x['n']) or {}).get('local') else False
        recs = [t for t in ins if mentions(t, hold)]
        if not recs or not all(t['k'] == 'ref' and not t['m'] and hold(t['t']) for t in recs): continue
        n += 1
        seen = set(); todo = [(fn, (fn,))]; bad = None
        while todo:
            x, path = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x not in eff: eff[x] = node_effects(P, S, x); cg[x] = callees(P, x)
            if eff[x] and not bad: bad = (eff[x][0], path)
            todo += [(y, path + (y,)) for y in cg[x]]
        rep.fns |= seen
        rep.expect(bad is None, 'shared:' + fn, 'a shared borrow never changes or frees what references may point to', where(P, fn), '%s at %s (reached by %s)' % (bad[0][0], bad[0][1], ' > '.join(bad[1])) if bad else None)
    rep.floor('functions on shared borrows', n, 20)


# ------------------------------------------------------------------ C12
def c12(rep, ctx):
    P = ctx.prog(); S = Sigs(P)
    rep.rule.append('Types holding a stored hash are computed from their fields; no reachable signature over them (result, associated type, closure parameter with a lifetime that outlives the call) may give out a unique borrow of a stored key or value, no field may be public, '
                    'and every operation that hands a value to a closure is analysed for recomputed hashes on every path (as in C01).')
    rep.assume += ['values with interior mutability do not change their own hash behind the map', 'SHA-256 is an uninterpreted function']
    pub = public_fns(P)
    certified = set()
    for n, ad in P.adts.items():
        if not ad or not ad.get('local'): continue
        if any(mentions(fl['rty'], is_hash) for fl in S.fields(n)) and n != HT: certified.add(n)
    certified.discard('hashtree::HashTree'); certified.discard('hashtree::ForkInner')
    rep.floor('types with a stored hash', len(certified), 2)
    family = set()
    for n, ad in P.adts.items():
        if ad and ad.get('local') and (n in certified or S.contains(n) & certified): family.add(n)
    family -= {'hashtree::HashTree', 'hashtree::ForkInner'}
    rep.stats['certified_types'] = sorted(family)
    # public fields
    for n in sorted(family):
        ad = P.adts[n]
        if ad['kind'] == 'enum': continue
        for fl in ad['variants'][0]['fields']:
            rep.expect(fl['vis'] != 'pub', 'field:%s.%s' % (n, fl['name']), 'certified contents are not public fields', n, 'public field')
    n = 0
    for fn, f in sorted(pub.items()):
        if not any(mentions(t, lambda x: x['k'] == 'adt' and x['n'] in family) for t in f['rins'] + ([f['rself']] if f.get('rself') else [])): continue
        n += 1
        guarded(rep, 'mut:' + fn, 'mutable access through ' + fn, where(P, fn), lambda: escapes(rep, P, S, fn, f, family, certified))
    rep.floor('functions over certified types', n, 90)
    from mutate import each, fresh_after, prefix_fresh
    runs = list(each(rep, P, 'hashes are recomputed before the operation returns', fresh_after, floor=18))
    prefix_fresh(rep, P)
    lent(rep, P, S, pub, family, certified)
    from seqs import seq_fresh
    seq_fresh(rep, P)


def lent(rep, P, S, pub, family, certified):
    """a stored value is borrowed uniquely below a public function, yet nothing below it ever writes a stored hash"""
    def writes_hash(fn):
        b = P.fns[fn].get('body')
        if not b: return False
        for bb in b['bbs']:
            if bb.get('cleanup'): continue
            t = bb['t']
            dests = [t['d']] if t['t'] == 'call' and t.get('d') else []
            for s in bb['s']:
                if s['s'] == '=':
                    dests.append(s['p'])
                    if s['r']['r'] == 'agg' and isinstance(s['r'].get('k'), dict) and s['r']['k'].get('n') in certified: return True
                    if s['r']['r'] in ('ref', 'addr') and s['r'].get('m', s['r'].get('mut')): dests.append(s['r']['p'])
            for pl in dests:
                ty = b['locals'][pl[0]]['ty']
                for e in pl[1:]:
                    if e == '*': ty = ty.get('t') or (ty['a'][0] if ty.get('a') else {})
                    elif isinstance(e, dict) and 'f' in e:
                        ad = P.adts.get(ty.get('n'))
                        if not ad or not ad.get('local') or ad['kind'] != 'struct': break
                        own = ty['n']; ty = ad['variants'][0]['fields'][e['f']]['ty']
                        if own in certified and ty.get('k') == 'array': return True
                    else: break
        return False
    eff = {}; wr = {}; cg = {}; n = 0
    for fn, f in sorted(pub.items()):
        if not any(mentions(t, lambda x: x['k'] == 'adt' and x['n'] in family) for t in f['rins'] + ([f['rself']] if f.get('rself') else [])): continue
        n += 1
        seen = set(); todo = [(fn, (fn,))]; b = None; w = False
        while todo:
            x, path = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x not in eff: eff[x] = [e for e in node_effects(P, S, x) if e[0].startswith('borrows')]; wr[x] = writes_hash(x); cg[x] = callees(P, x)
            w = w or wr[x]
            if eff[x] and not b: b = (eff[x][0], path)
            todo += [(y, path + (y,)) for y in cg[x]]
        rep.expect(b is None or w, 'escape:' + short(fn), 'where a stored value is borrowed uniquely, a stored hash is written', where(P, fn), b and '%s at %s (reached by %s), and no function below writes a stored hash' % (b[0][0], b[0][1], ' > '.join(b[1])))
    rep.floor('functions over certified types (borrows)', n, 90)


def hazards(S, f, family):
    """type strings of what the collections in the signature store under a hash"""
    out = set()
    def g(x, under):
        if x['k'] == 'adt' and x['n'] in family:
            for a in x['a']:
                if a.get('k') != 'const': out.add(a['s'])
    for t in f['rins'] + ([f['rself']] if f.get('rself') else []): walk(t, g)
    # arguments of the collections held inside
    def inner(n, seen):
        if n in seen: return
        seen.add(n)
        for fl in S.fields(n):
            def h(x, under):
                if x['k'] == 'adt' and x['n'] in family:
                    for a in x['a']:
                        if a.get('k') != 'const': out.add(a['s'])
                    inner(x['n'], seen)
            walk(fl['rty'], h)
    for t in f['rins'] + ([f['rself']] if f.get('rself') else []):
        def k(x, under):
            if x['k'] == 'adt' and x['n'] in family: inner(x['n'], set())
        walk(t, k)
    return out


def escapes(rep, P, S, fn, f, family, certified):
    hz = hazards(S, f, family)
    def hazardous(t):
        if t['s'] in hz: return True
        if t['k'] == 'slice': return hazardous(t['t'])
        if t['k'] == 'adt' and t['n'] in OWNERS: return any(hazardous(a) for a in t['a'] if a.get('k') != 'const')
        if t['k'] == 'tuple': return any(hazardous(a) for a in t['a'])
        if t['k'] == 'alias' and 'Index' in t['n']: return True
        if t['k'] == 'adt' and t['n'] in certified and t['n'] not in ('rbtree::RbTree', SEQN): return True
        return False
    wh = where(P, fn); bad = None
    for r, how, x, under in regions(S.norm(f['rout'])):
        if how == 'ref' and x['m'] and hazardous(x['t']): bad = 'the result gives out %s' % x['s']
        if how == 'arg' and x['k'] == 'adt' and x['n'].split('::')[-1] in ('IterMut', 'ValuesMut', 'Drain', 'ChunksMut', 'RefMut'): bad = 'the result gives out %s' % x['s']
    rep.expect(bad is None, 'escape:' + short(fn), 'no unique borrow of a stored value outlives the call that re-hashes it', wh, bad)
    for c in f.get('rpreds', ()):
        if c['k'] == 'proj' and c['n'].startswith(tuple(q + '::' for q in FN)) and len(c.get('a', ())) > 1:
            b = None
            for arg in c['a'][1:]:
                for r, how, x, under in regions(S.norm(arg)):
                    if how == 'ref' and x['m'] and hazardous(x['t']) and not r.startswith('bound:'): b = 'the closure receives %s, which it may keep after the hashes were recomputed' % x['s']
            rep.expect(b is None, 'escape:' + short(fn), 'no unique borrow of a stored value outlives the call that re-hashes it', wh, b)


SEQN = 'collections::seq::Seq'
