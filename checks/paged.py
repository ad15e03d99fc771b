"""C19: paged lists.  The tree below is an opaque ordered dictionary (C01-C06); every Paged operation is interpreted and
the dictionary operation it performs is compared with the specification of the page structure."""
from codec import *

PG = 'collections::paged::Paged'


class PI(CI):
    def __init__(self, P, lay):
        CI.__init__(self, P)
        self.lay = lay

    U32 = (('t', 'lastpage'), ('t', 'nodepage'))
    WIDE = ('u32', 'u64', 'u128', 'usize', 'i64', 'i128')
    MAXP = 2 ** 32 - 1

    def pageval(self, x):
        return x in self.U32 or x[:2] == ('t', 'lin') and x[2] in self.U32

    def intcast(self, st, v, r):
        t = r['t']['s']
        if self.pageval(v) and t in self.WIDE: return v
        if v == ('t', 'arg', 2) and t == 'u32' and self.truth(st, ('t', 'fits', 'u32', v)): return v
        return CI.intcast(self, st, v, r)

    def truth(self, st, t):
        if t[:2] == ('t', 'fits') and t not in st.facts:
            if t[2] in self.WIDE and self.pageval(t[3]): return True
            if t[3] == ('t', 'arg', 2) and t[2] == 'u32':
                r = fits(st, t[3])
                if r is not None: return r
        if t[:3] == ('t', 'ovf', 'Add') and self.pageval(t[3]): return False     # fewer than 2^32 pages
        return CI.truth(self, st, t)

    def page_obj(self, st, tag):
        """key and value objects of the last page of a key"""
        ko, vo = ('pk', tag), ('pv', tag)
        if ko not in st.mem:
            L = self.lay
            fs = [None] * L['n']; fs[L['key']] = ('t', 'pkey'); fs[L['page']] = ('t', 'lastpage')
            st.mem[ko] = ('adt', L['pk'], 0, tuple(fs))
            st.mem[vo] = ('adt', SEQ, 0, tuple(('t', 'f', ('t', 'lastseq'), i) for i in range(L['nseq'])))
        return ko, vo

    def call_local(self, st, path, args, meta, dty):
        if args and args[0][0] == 'p' and path in self.P.fns:
            f = self.P.fns[path]; t0 = f['body']['locals'][1]['ty'] if f.get('body') else {}
            onTree = t0.get('k') == 'ref' and t0['t'].get('n') == TREE
            nm = path.rsplit('::', 1)[-1]
            if onTree and nm in ('modify_max_with_prefix', 'max_entry_with_prefix'):
                tv = self.treeval(st, args[0])
                pre = pure(self, st, args[1])
                if not self.truth(st, ('t', 'haspages', tv, pre)): 
                    self.notepre(st, nm, pre, tv); return [(st, NONE)]
                st = st.copy(); self.notepre(st, nm, pre, tv)
                ko, vo = self.page_obj(st, 0)
                if nm == 'max_entry_with_prefix': return [(st, some(('adt', '()', 0, (('p', ko, ()), ('p', vo, ())))))]
                o, p = self.deref(st, args[0]); out = []
                for s, r in self.invoke(st, args[2], [('p', ko, ()), ('p', vo, ())], None, None):
                    s = s.copy()
                    nv = pure(self, s, s.mem[vo])
                    self.write(s, o, p, ('t', 'modlast', tv, pre, nv)); out.append((s, some(r)))
                return out
            if onTree and nm == 'get_with':
                return self.get_with(st, args, self.treeval(st, args[0]))
        return CI.call_local(self, st, path, args, meta, dty)

    def notepre(self, st, nm, pre, tv): st.emit('prefixq', nm, pre, tv)

    def get_with(self, st, args, tv):
        """apply the comparator to a generic stored key in every order relation to the requested one"""
        st = st.copy()
        L = self.lay
        ko = ('pk', 'any'); fs = [None] * L['n']; fs[L['key']] = ('t', 'nodekey'); fs[L['page']] = ('t', 'nodepage')
        st.mem[ko] = ('adt', L['pk'], 0, tuple(fs))
        res = []
        wl = [st]
        while wl:
            s = wl.pop()
            try:
                for s2, r in self.invoke(s, args[1], [('p', ko, ())], None, None): res.append((s2, r))
            except Fork as f: wl += [self.replay(s, a) for a in f.alts]
            except Infeasible: pass
        st.emit('getwith', tuple((r, s.order, tuple(sorted(s.facts.items(), key=repr))) for s, r in res), tuple(s for s, r in res))
        r = ('t', 'found')
        return [(st, ('t', 'lookupresult'))]


def paged_layout(P):
    ad = P.adts.get(PG)
    if not ad: return None
    mp = None
    for i, f in enumerate(ad['variants'][0]['fields']):
        if f['ty'].get('n') == MAP: mp = (i, f['ty']['a'][0].get('n'))
        if f['ty'].get('n') == TREE: mp = (i, f['ty']['a'][0].get('n'))
    if not mp: return None
    pk = P.adts.get(mp[1])
    if not pk: return None
    L = dict(pk=mp[1], field=mp[0], n=len(pk['variants'][0]['fields']), nseq=len(P.adts[SEQ]['variants'][0]['fields']))
    for i, f in enumerate(pk['variants'][0]['fields']):
        if f['ty']['k'] == 'param': L['key'] = i
        elif f['ty']['k'] == 'int': L['page'] = i; L['pty'] = f['ty'].get('s')
    return L if 'key' in L and 'page' in L else None


def c19(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Every public operation of the paged list is interpreted with the tree as an opaque ordered dictionary; per case (key has no page / last page full / not full; page number representable or not) the dictionary operation performed, '
                    'the item list written and the key used must be those of the specification. The comparator passed to get_with is evaluated for every order relation between stored and requested key.')
    rep.assume += ['page size of at least one', 'fewer than 2^32 pages per key', 'the dictionary operations behave as decided by C01-C06 and prefix queries select the greatest key with the prefix (C05)', 'sequences keep items in order (C17)',
                   'clone of a key equals the key']
    L = paged_layout(P)
    if L is None: rep.undecided('layout', 'paged list wraps a map from (key, page) to sequences', PG, 'types not recognised'); return
    for f in P.adts[PG]['variants'][0]['fields']: rep.expect(not (f.get('vis') == 'pub'), 'private:' + f['name'], 'the map behind a paged list is private', PG)
    hl = layout(P)
    n = 0
    mk = lambda fn: next((f for f in P.fns if f.startswith(PG + '::<') and f.endswith('>::' + fn)), None)
    pubs = [f for f, d in P.fns.items() if f.startswith(PG + '::<') and '{' not in f and d.get('vis_pub')]
    known = ('new', 'insert', 'get_last_page_number', 'witness_last_page_number', 'get', 'witness')
    for f in pubs:
        if f.rsplit('::', 1)[-1] not in known: rep.undecided('public:' + shortfn(f), 'every public operation has a specification', where(P, f), 'operation without a specification')
    for name, judge in (('insert', j_insert), ('get_last_page_number', j_last), ('witness_last_page_number', j_wlast), ('get', j_get), ('witness', j_witness), ('new', j_new)):
        fn = mk(name)
        if not fn: rep.bad('anchor:' + name, 'Paged::%s exists' % name); continue
        n += 1
        def go(fn=fn, name=name, judge=judge):
            I = PI(P, L); st = State()
            ts = tys(P, fn)
            a = [symval(I, st, t, ('t', 'arg', i)) for i, t in enumerate(ts[1:])]
            outs = []; wl = [st]
            while wl:
                s = wl.pop()
                try: outs += I.call_fn(s, fn, a)
                except Fork as f: wl += [I.replay(s, x) for x in f.alts]
                except Infeasible: pass
            rep.fns |= I.visited
            rep.expect(bool(outs), name, 'Paged::%s returns' % name, where(P, fn))
            cov = set()
            for s, v in outs:
                pvt = None
                if a: 
                    tv = I.read(s, a[0][1], a[0][2])
                    pvt = tv
                judge(rep, P, I, s, v, a, pvt, L, hl, fn, cov)
            if name == 'insert':
                for c in ('none', 'full', 'room'): rep.expect(c in cov, 'insert:' + c, 'insert handles the case "%s"' % c, where(P, fn), 'no path handles it')
        guarded(rep, name, 'Paged::%s follows the page specification' % name, where(P, fn), go)
    # order of the composite key: by key, then by page
    n += order_check(rep, P, L)
    rep.floor('paged list operations', n, 7)


def tree_of(I, s, pv, L):
    v = pure(I, s, pv[3][L['field']])
    while v[0] == 'adt' and v[1] == MAP: v = v[3][0]
    return v


def initial_tree(L):
    return ('t', 'f', ('t', 'f', ('t', 'at', ('t', 'arg', 0)), L['field']), 0)


def arg_at(i): return ('t', 'at', ('t', 'arg', i))


def same_key(v, i):
    """v is argument i, possibly by reference or cloned"""
    x = v
    while isinstance(x, tuple) and x[:2] in (('t', 'clone'), ('t', 'cloned'), ('t', 'val')): x = x[2]
    return x in (('t', 'arg', i), ('t', 'at', ('t', 'arg', i)))


def pagekey(v, L):
    if v[0] == 'adt' and v[1] == L['pk']: return v[3][L['key']], v[3][L['page']]
    return None


def seq_items(v, hl):
    if v[0] == 'adt' and v[1] == SEQ: return tuple(vec_segs(v[3][hl[1]]))
    return None


def plus1(x, st):
    x = widen(x)
    return x in (('t', 'lin', ('t', 'lastpage'), 1), ('t', 'bin', 'Add', ('t', 'lastpage'), ('i', 1)))


def widen(x):
    """the page number under conversions that keep every u32"""
    while isinstance(x, tuple) and x[:2] == ('t', 'as') and x[2] in ('u32', 'u64', 'u128', 'usize', 'i64', 'i128'): x = x[3]
    return x


def LENL(hl): return ('t', 'len', ('t', 'f', ('t', 'lastseq'), hl[1]))


def j_insert(rep, P, I, s, v, a, pv, L, hl, fn, cov):
    key = 'insert'; wh = where(P, fn)
    tree = tree_of(I, s, pv, L)
    T = initial_tree(L)
    qs = [e for e in s.ev if e[0] == 'prefixq']
    for e in qs:
        if e[3] == T: rep.expect(same_key(e[2], 1), key + ':query', 'the pages of the inserted key are looked up', wh, show(e[2]))
    has = None
    for f, b in s.facts.items():
        if f[:2] == ('t', 'haspages') and f[2] == T: has = b
    if has is None: rep.undecided(key, 'insert looks up the last page', wh, 'no lookup on a path: ' + show(tree)); return
    S_ = None
    rel = s.rel(LENL(hl), const_S(s, hl)) if has else None
    case = 'none' if not has else 'full' if rel == {'='} else 'over' if rel == {'>'} else 'room' if not (rel & {'='}) else '?'
    if case == 'over': return        # excluded by the invariant
    if case == '?':
        # the path does not ask whether the page is full
        rep.bad(key + ':size', 'the path taken depends on whether the last page is full', wh, 'the outcome %s does not depend on it' % show(tree)); return
    cov.add(case)
    want = ('no page yet: page 0 holding the item is added', 'full last page: the next page holding the item is added', 'room in the last page: the item is appended to it')[('none', 'full', 'room').index(case)]
    old = (('t', 'f', ('t', 'lastseq'), hl[1]),)
    t = tree
    ins = None
    if t[:2] == ('t', 'ins'): ins = (t[3], t[4]); t = t[2]
    mod = None
    if t[:2] == ('t', 'modlast'): mod = t; t = t[2]
    if t != T: rep.undecided(key + ':' + case, want, wh, 'tree becomes %s' % show(tree)); return
    msegs = seq_items(mod[4], hl) if mod else old
    if msegs is None: rep.undecided(key + ':' + case, want, wh, 'page becomes %s' % show(mod[4])); return
    bad = None
    item = one(('t', 'arg', 2))
    if case == 'room':
        if ins: bad = 'a new page is added'
        elif msegs != old + (item,): bad = 'the page holds %s' % [show(x) for x in msegs]
    else:
        if msegs != old: bad = 'the last page is changed to %s' % [show(x) for x in msegs]
        elif not ins: bad = 'no page is added'
        else:
            pk = pagekey(ins[0], L); its = seq_items(ins[1], hl)
            if pk is None or its is None: rep.undecided(key + ':' + case, want, wh, show(tree)); return
            if not same_key(pk[0], 1): bad = 'the page is added under %s' % show(pk[0])
            elif case == 'none' and pk[1] != ('i', 0): bad = 'the first page is numbered %s' % show(pk[1])
            elif case == 'full' and not plus1(pk[1], s): bad = 'the next page is numbered %s' % show(pk[1])
            elif tuple(its) != (item,): bad = 'the new page holds %s' % [show(x) for x in its]
    rep.expect(bad is None, key + ':' + case, want, wh, '%s (path: %s)' % (bad, '; '.join(s.path)))


def const_S(s, hl):
    """the page-size constant as it is written in comparisons"""
    for (r, x, y) in s.order:
        for q, z in ((x, y), (y, x)):
            if q == LENL(hl) and z[:2] == ('t', 'const'): return z
            if q == LENL(hl): return z
    return ('t', 'const', 'S')


def lookup_page(s):
    T = [(f, b) for f, b in s.facts.items() if f[:2] == ('t', 'haspages')]
    return T


def j_last(rep, P, I, s, v, a, pv, L, hl, fn, cov):
    wh = where(P, fn); fs = lookup_page(s)
    if len(fs) != 1: rep.undecided('get_last_page_number', 'last page is looked up', wh, show(v)); return
    (f, has), = fs
    rep.expect(same_key(f[3], 1) and f[2] == initial_tree(L), 'last:query', 'the pages of the requested key are looked up', wh, show(f))
    v = pure(I, s, v)
    if not has: rep.expect(v == NONE, 'last:none', 'no page: None', wh, show(v))
    else: rep.expect(v[0] == 'adt' and v[1] == OPT and v[2] == 1 and widen(v[3][0]) == ('t', 'lastpage'), 'last:some', 'the number of the last page', wh, show(v))


def witness_q(I, s, v):
    """(tree, key) of a single-key witness"""
    v = pure(I, s, v)
    while v[:2] in (('t', 'val'),): v = v[2]
    if v[:3] == ('t', 'query', 'witness') and len(v) >= 5: return v[3], v[4]
    return None


def j_wlast(rep, P, I, s, v, a, pv, L, hl, fn, cov):
    wh = where(P, fn); fs = lookup_page(s)
    q = witness_q(I, s, v)
    if len(fs) != 1 or q is None: rep.undecided('witness_last_page_number', 'absence of the page after the last one', wh, show(pure(I, s, v))); return
    (f, has), = fs
    pk = pagekey(q[1], L)
    if pk is None: rep.undecided('wlast', 'key of the witness', wh, show(q[1])); return
    rep.expect(same_key(f[3], 1) and f[2] == q[0] == initial_tree(L), 'wlast:query', 'the pages of the requested key are looked up', wh, show(f))
    ok = same_key(pk[0], 1) and (plus1(pk[1], s) if has else pk[1] == ('i', 0))
    rep.expect(ok, 'wlast:' + ('some' if has else 'none'), 'absence of the page after the last one is shown', wh, 'witness for page %s of %s' % (show(pk[1]), show(pk[0])))


def fits(s, arg):
    """does the argument fit the page number type? None when not asked"""
    for f, b in s.facts.items():
        if f[:2] == ('t', 'fits') and f[3] == arg: return bool(b)
    r = s.rel(arg, ('i', PI.MAXP))
    if not (r & {'>'}): return True
    if r == {'>'}: return False
    if s.rel(arg, ('i', PI.MAXP + 1)) == {'<'}: return True
    return None


def j_witness(rep, P, I, s, v, a, pv, L, hl, fn, cov):
    wh = where(P, fn)
    q = witness_q(I, s, v)
    if q is None: rep.undecided('witness', 'witness of one page', wh, show(pure(I, s, v))); return
    pk = pagekey(q[1], L)
    if pk is None: rep.undecided('witness', 'key of the witness', wh, show(q[1])); return
    fit = fits(s, ('t', 'arg', 2))
    bad = None
    if q[0] != initial_tree(L): bad = 'asks %s' % show(q[0])
    elif not same_key(pk[0], 1): bad = 'for the key %s' % show(pk[0])
    elif fit is False:
        if pk[1] != ('i', PI.MAXP) and 'MAX' not in show(pk[1]): bad = 'a page number that does not fit is replaced by %s' % show(pk[1])
    elif pk[1] != ('t', 'arg', 2) or fit is None: bad = 'for page %s%s' % (show(pk[1]), '' if fit else ' (truncated)')
    rep.expect(bad is None, 'witness:%s' % ('fits' if fit else 'large'), 'the witness concerns exactly the requested key and page', wh, bad)


def j_get(rep, P, I, s, v, a, pv, L, hl, fn, cov):
    wh = where(P, fn)
    fit = fits(s, ('t', 'arg', 2))
    v = pure(I, s, v)
    if v == NONE and fit is False: rep.ok('get:large', 'page numbers that do not fit are absent', wh); return
    gw = [e for e in s.ev if e[0] == 'getwith']
    if not gw:
        if v[:2] == ('t', 'query') or v[:2] == ('t', 'val') and v[2][:2] == ('t', 'query'):
            q = v if v[1] == 'query' else v[2]
            if q[2] == 'get':
                pk = pagekey(q[4], L)
                if pk:
                    rep.expect(q[3] == initial_tree(L) and same_key(pk[0], 1) and pk[1] == ('t', 'arg', 2) and fit, 'get', 'the requested page is looked up', wh, show(q)); return
        if v == NONE: rep.bad('get', 'the requested page is looked up', wh, 'returns None without looking: ' + '; '.join(s.path)); return
        rep.undecided('get', 'the requested page is looked up', wh, show(v)); return
    ok = v == ('t', 'lookupresult')
    if not ok: rep.undecided('get', 'the page found is returned', wh, show(v)); return
    bad = None; und = None
    seen = set()
    for (r, order, facts), st2 in zip(gw[-1][1], gw[-1][2]):
        if r[0] != 'adt': und = 'comparator returns %s' % show(r); continue
        res = {v_: k for k, v_ in ORDV.items()}.get(r)
        ks = [x for x in (arg_at(1), ('t', 'arg', 1))]
        kr = None
        for k in ks:
            q = st2.rel(k, ('t', 'nodekey'))
            if len(q) < 3: kr = q
        kr = kr or {'<', '=', '>'}
        pgs = st2.rel(('t', 'arg', 2), ('t', 'nodepage'))
        if len(pgs) == 3 and kr == {'='}:
            trunc = [x for (o, x, y) in st2.order for x in (x, y) if has_term(x, lambda t: t == ('t', 'arg', 2)) and x != ('t', 'arg', 2)]
            if trunc: bad = bad or 'pages are compared with %s instead of the requested number' % show(trunc[0]); continue
        # expected results over all consistent relations
        exp = set()
        for x in kr:
            if x != '=': exp.add(x)
            else: exp |= pgs
        seen.add(res)
        if exp != {res}:
            bad = bad or 'the comparator answers %s where the requested (key, page) may be %s' % (res, ' or '.join(sorted(exp)))
    if not bad and not und and seen != {'<', '=', '>'}: bad = 'the comparator only answers %s' % sorted(seen)
    if und and not bad: rep.undecided('get', 'comparator', wh, und)
    else: rep.expect(bad is None, 'get', 'the lookup orders by key, then page, and asks for the requested page', wh, bad)


def j_new(rep, P, I, s, v, a, pv, L, hl, fn, cov):
    v = pure(I, s, v)
    t = find_seq(v, TREE)
    rep.expect(t is not None and isempty_tree(t), 'new', 'a new paged list has no pages', where(P, fn), show(v))


def order_check(rep, P, L):
    """Ord, PartialOrd and PartialEq of the composite key"""
    n = 0
    for trait, name in (('std::cmp::Ord', 'cmp'), ('std::cmp::PartialOrd', 'partial_cmp'), ('std::cmp::PartialEq', 'eq')):
        fn = impl_fn(P, L['pk'], trait, name)
        if not fn or fn not in P.fns: rep.bad('anchor:key:' + name, 'the page key implements ' + trait); continue
        n += 1
        def go(fn=fn, name=name):
            I = PI(P, L); st = State(); a = []
            for side in 'ab':
                fs = [('t', 'x', side, i) for i in range(L['n'])]
                st.mem[('S', side)] = ('adt', L['pk'], 0, tuple(fs)); a.append(('p', ('S', side), ()))
            outs = []; wl = [st]
            while wl:
                s = wl.pop()
                try: outs += I.call_fn(s, fn, a)
                except Fork as f: wl += [I.replay(s, x) for x in f.alts]
                except Infeasible: pass
            rep.fns |= I.visited
            for s, v in outs:
                kr = s.rel(('t', 'x', 'a', L['key']), ('t', 'x', 'b', L['key'])); pr = s.rel(('t', 'x', 'a', L['page']), ('t', 'x', 'b', L['page']))
                exp = set()
                for x in kr: exp |= {x} if x != '=' else pr
                if name == 'partial_cmp':
                    if v[0] == 'adt' and v[1] == OPT and v[2] == 1: v = v[3][0]
                if name == 'eq':
                    exp = {x == '=' for x in exp}
                    if v[0] != 'i': rep.undecided('key:' + name, 'order of page keys', where(P, fn), show(v)); continue
                    got = v[1] != 0
                else:
                    got = {v_: k for k, v_ in ORDV.items()}.get(v)
                    if got is None: rep.undecided('key:' + name, 'order of page keys', where(P, fn), show(v)); continue
                rep.expect(exp == {got}, 'key:' + name, 'page keys are ordered by key, then by page number', where(P, fn), 'answers %s where %s' % (got, sorted(map(str, exp))))
        guarded(rep, 'key:' + name, 'order of page keys', where(P, fn), go)
    return n
