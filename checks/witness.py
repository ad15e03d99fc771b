"""C02-C05: witnesses and prefix queries, for trees of every shape and content."""
from treebase import *
from hashing import guarded

R = "rbtree::RbTree::<K, V>::"
M_ = "collections::map::Map::<K, V>::"


def api(P, ty, name):
    """public method `name` of the search tree / of the map wrapper"""
    for f in P.fns:
        if f.startswith(ty) and f[len(ty):] == name: return f
    return None


def trait_fn(P, trait, self_adt, name):
    for im in P.impls:
        if im['trait'] and im['trait'].split('::')[-1] == trait and im['self'].get('n') == self_adt:
            for i in im['items']:
                if i.endswith('>::' + name): return i
    return None


def qterms(P, fn):
    """content terms of the query arguments (references after self)"""
    tys = argterms(P, fn)
    return [content(('t', 'arg', i)) for i in range(1, len(tys)) if tys[i]['k'] == 'ref']


def rootof(roots): return roots[0] if roots else None


def occname(ctx, o): return '{' + ','.join(ctx.regions[i][0] for i in sorted(o)) + '}'


def describe(ctx, marks): return ' '.join('%s%s=%s' % (ctx.regions[k[0]][0] if k[0] >= 0 else '?', '' if k[1] == 'all' else '.' + k[1], m) for k, m in sorted(marks.items())) or 'nothing'


def region_ok(ctx, marks, i, want):
    """want: 'hidden' | mode | ('first', mode) | ('last', mode)"""
    parts = {k[1]: m for k, m in marks.items() if k[0] == i}
    if not parts: parts = {'all': 'hidden'}
    if isinstance(want, str): return all(m == want for m in parts.values())
    which, mode = want
    if which not in parts:
        return False
    return parts[which] == mode and all(m == 'hidden' for p, m in parts.items() if p != which)


def reverse_ctx(a, b):
    """first > last"""
    return Ctx([('L', False), ('E1', True), ('M', False), ('E2', True), ('G', False)],
               rels=[(b, ('<', '=', '>', '>', '>')), (a, ('<', '<', '<', '=', '>'))])


def witness_outcomes(P, fn, ctx, occ=None):
    I, res = explore(P, fn, ctx, occ)
    out = []
    for (o, s, v, args, roots) in res:
        root = rootof(roots)
        if root is None: raise Undecided('no tree behind the receiver')
        n0 = len(I.domain.issues)
        I.domain.ctx = ctx
        w = I.domain.ht_summary(I, s, unbox(I, s, v), root, fn)
        iss = I.domain.issues[n0:]
        del I.domain.issues[n0:]
        out.append((o, s, dict(w[3]), iss))
    return I, out


def unbox(I, s, v):
    while v[0] in ('p', 'bx'):
        o, p = I.deref(s, v); v = I.read(s, o, p)
    return v


def witness_fns(P):
    """every public method of the tree and of the map that returns a hash tree built from the receiver"""
    out = []
    for f, d in P.fns.items():
        if d.get('kind') != 'AssocFn' and d.get('kind') not in ('method', 'fn', 'Method'): pass
        if not (f.startswith(R) or f.startswith(M_)): continue
        if '::' in f[len(R if f.startswith(R) else M_):]: continue
        if not d.get('vis_pub'): continue
        o = d['body']['locals'][0]['ty']
        if o.get('n') == HTN: out.append(f)
    return sorted(out)


def contexts(P, fn):
    q = qterms(P, fn)
    name = fn.rsplit('::', 1)[-1]
    pre = any('Prefix' in str(x) for x in P.fns[fn].get('preds', ()))
    if not q: return [('all', all_ctx())]
    if len(q) == 1: return [('prefix', prefix_ctx(q[0]))] if pre else [('key', strict_ctx(q[0]))]
    if len(q) == 2: return [('first<last', strict2_ctx(*q)), ('first=last', equal2_ctx(*q))]
    return []


def note_visited(rep, I): rep.fns |= I.visited


def stats(rep, I):
    rep.stats['summaries'] = rep.stats.get('summaries', 0) + len(I.domain.table)
    rep.stats['fixpoint_iterations'] = rep.stats.get('fixpoint_iterations', 0) + I.domain.iters
    rep.stats['abstract_steps'] = rep.stats.get('abstract_steps', 0) + I.steps
    rep.stats['tree_unfoldings'] = rep.stats.get('tree_unfoldings', 0) + I.domain.configs


AIRULE = ('Every public operation is interpreted abstractly on a tree known only by which regions of the key space (below / equal / above the query, or the prefix classes) are inhabited; '
          'recursive functions and loops get inductive summaries (least fixpoint over the finite set of region sets), so the verdict covers trees of every shape and size. ')
ASSUME = ['keys are totally ordered and Borrow/Prefix follow their documented contracts', 'the tree is a search tree with correct stored hashes on entry (C01, C06)',
          'value hashes and value trees of user types agree (C13)', 'models of the standard library in engine/models.py']


def shortfn(fn): return fn.replace('rbtree::RbTree::<K, V>', 'RbTree').replace('collections::map::Map::<K, V>', 'Map')


def bads(rep, I, key, fn, P):
    for b in I.bads:
        rep.bad(key + ':' + b.rule, 'no invalid memory access while building a witness', where(P, getattr(b, 'fn', fn)), '%s at %s; path: %s' % (b.msg, b.at, show_path(b.st) if b.st else ''))


def issues(rep, I, P, key, kinds=('recon', 'foreign')):
    for i in I.domain.issues:
        if i[0] in kinds:
            rep.bad('%s:%s:%s' % (key, i[0], i[1] if isinstance(i[1], str) else i[1][0]), i[2], '%s' % i[3], 'path: %s; %s' % (i[4], str([show(x) for x in i[5]])[:800] if isinstance(i[5], tuple) else i[5]))


def c02(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'For every hash tree built for a subtree (at every recursion level) the digest term of the tree is normalised and compared with the digest term of the complete subtree.')
    rep.assume += ASSUME
    fns = witness_fns(P)
    t = trait_fn(P, 'AsHashTree', 'rbtree::RbTree', 'as_hash_tree')
    if t: fns.append(t)
    t = trait_fn(P, 'AsHashTree', 'collections::map::Map', 'as_hash_tree')
    if t: fns.append(t)
    rep.floor('witness-producing methods', len(fns), 12)
    for fn in fns:
        for cname, c in contexts(P, fn):
            key = 'recon:%s:%s' % (shortfn(fn), cname)
            def go():
                I, res = witness_outcomes(P, fn, c)
                note_visited(rep, I); stats(rep, I)
                nb = len(rep.obl)
                bads(rep, I, key, fn, P); issues(rep, I, P, key)
                for (o, s, m, iss) in res:
                    for i in iss:
                        if i[0] in ('recon', 'foreign'):
                            rep.bad(key, 'the returned tree reconstructs to the root hash of the map', where(P, fn), 'contents %s: %s' % (occname(c, o), str(i)[:1200]))
                if len(rep.obl) == nb:
                    for o in sorted({tuple(sorted(x[0])) for x in res}): rep.ok(key + ':' + occname(c, o), 'every tree built for contents %s reconstructs to the stored hash' % occname(c, o), where(P, fn))
                    if not res: rep.bad(key, 'the operation returns', where(P, fn), 'no path returns a value')
            guarded(rep, key, 'witness reconstructs to the root hash', where(P, fn), go)
    # the root hash itself
    for ty in ('rbtree::RbTree', 'collections::map::Map'):
        fn = trait_fn(P, 'AsHashTree', ty, 'root_hash')
        if not fn: rep.bad('anchor:root_hash:' + ty, 'root_hash exists'); continue
        def go():
            I, res = explore(P, fn, all_ctx())
            note_visited(rep, I)
            for (o, s, v, a, roots) in res:
                got = I.domain.nh(s, viewval(I, s, v)); want = I.domain.truehash(s, roots[0])
                rep.expect(got == want, 'root:%s:%s' % (ty, 'empty' if not o else 'nonempty'), 'root_hash is the hash of the complete contents', where(P, fn), 'computed %s, expected %s' % (show(got), show(want)))
        guarded(rep, 'root:' + ty, 'root hash', where(P, fn), go)


def contents_of(c):
    import itertools
    return [frozenset(o) for k in range(c.n + 1) for o in itertools.combinations(range(c.n), k)]


def by_content(rep, c, judge):
    """judge(contents): all contents at once; when some of them cannot be decided, the others are judged one by one"""
    try: return judge(None)
    except Budget: raise
    except Undecided as u: first = u
    bad = lambda: sum(x['status'] == 'violation' for x in rep.obl)
    nb = bad()
    for o in contents_of(c):
        try: judge([o])
        except Budget: break
        except Undecided: pass
        if bad() > nb: return
    raise first


def spec_check(rep, P, fn, key, c, want, what):
    """want(occ) -> {region index: requirement}"""
    def judge(occ):
        I, res = witness_outcomes(P, fn, c, occ)
        note_visited(rep, I); stats(rep, I)
        nb = len(rep.obl)
        bads(rep, I, key, fn, P)
        seen = set()
        for (o, s, m, iss) in res:
            seen.add(o)
            w = want(o)
            odd = [k for k in m if k[0] < 0]
            bad = ['region %s must be %s' % (c.regions[i][0], w[i] if isinstance(w[i], str) else '.'.join(w[i])) for i in sorted(w) if i in o and not region_ok(c, m, i, w[i])]
            if odd: bad.append('the tree shows something that is not an entry')
            for i in iss:
                if i[0] == 'foreign': bad.append(i[2])
            if bad: rep.bad(key, what, where(P, fn), 'contents %s: %s; shown: %s; path: %s' % (occname(c, o), '; '.join(bad), describe(c, m), show_path(s)))
        for i in I.domain.issues:
            if i[0] == 'foreign': rep.bad(key + ':foreign', i[2], str(i[3]), str(i[4]))
        for o in contents_of(c) if occ is None else occ:
            if o not in seen: rep.bad(key + ':returns', 'the operation returns a tree for every content', where(P, fn), 'no path returns for contents ' + occname(c, o))
        if len(rep.obl) == nb and occ is None:
            for o in sorted(seen, key=sorted): rep.ok(key + ':' + occname(c, o), what + ' (contents %s)' % occname(c, o), where(P, fn))
    guarded(rep, key, what, where(P, fn), lambda: by_content(rep, c, judge))


def pick(P, rep, ty, name):
    f = api(P, ty, name)
    if f is None: rep.bad('anchor:' + shortfn(ty) + name, 'public method exists', ty + name)
    return f


def absent(c, l, e, g):
    def f(o):
        if e in o: return {}
        return {l: ('last', 'key'), g: ('first', 'key')}
    return f


def single(mode):
    def f(o):
        return {0: 'hidden', 1: mode, 2: 'hidden'} if 1 in o else {0: ('last', 'key'), 2: ('first', 'key')}
    return f


def ranged(mode):
    def f(o):
        w = {1: mode, 2: mode, 3: mode}
        w[0] = 'hidden' if 1 in o else ('last', 'key')
        w[4] = 'hidden' if 3 in o else ('first', 'key')
        return w
    return f


def prefixed(o):
    w = {1: 'key', 2: 'key', 3: ('first', 'key')}
    w[0] = 'hidden' if 1 in o else ('last', 'key')
    return w


def c03(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'The labels and values shown by the returned tree are compared, per inhabited region, with what a membership or absence proof has to show.')
    rep.assume += ASSUME
    for ty, name, mode in ((R, 'witness', 'kv'), (R, 'nested_witness', 'f'), (M_, 'witness', 'kv')):
        fn = pick(P, rep, ty, name)
        if not fn: continue
        q = qterms(P, fn)
        spec_check(rep, P, fn, 'single:' + shortfn(fn), strict_ctx(q[0]), single(mode), 'present key: its label and value, all else pruned; absent key: exactly the two neighbouring labels')


def c04(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'The labels and values shown by the returned tree are compared, per inhabited region, with the inclusive range and its neighbours.')
    rep.assume += ASSUME + ['first <= last (the documented use; the debug build asserts it)']
    for ty, name, mode in ((R, 'key_range', 'key'), (R, 'value_range', 'kv'), (M_, 'witness_key_range', 'key'), (M_, 'witness_value_range', 'kv')):
        fn = pick(P, rep, ty, name)
        if not fn: continue
        q = qterms(P, fn)
        spec_check(rep, P, fn, 'range:%s:first<last' % shortfn(fn), strict2_ctx(q[0], q[1]), ranged(mode), 'inclusive range plus nearest outside labels, all else pruned')
        spec_check(rep, P, fn, 'range:%s:first=last' % shortfn(fn), equal2_ctx(q[0], q[1]), single(mode), 'inclusive range plus nearest outside labels, all else pruned')
    for ty, name in ((R, 'keys'), (M_, 'witness_keys')):
        fn = pick(P, rep, ty, name)
        if fn: spec_check(rep, P, fn, 'all:' + shortfn(fn), all_ctx(), lambda o: {0: 'key'}, 'every label, every value pruned')
    for ty in ('rbtree::RbTree', 'collections::map::Map'):
        fn = trait_fn(P, 'AsHashTree', ty, 'as_hash_tree')
        if fn is None: rep.bad('anchor:as_hash_tree:' + ty, 'as_hash_tree exists', ty); continue
        spec_check(rep, P, fn, 'full:' + ty.split('::')[-1], all_ctx(), lambda o: {0: 'kv'}, 'every label with its value')


def entry_of(I, s, v, S):
    """value -> node whose value (and key) it refers to"""
    return None


def c05(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'Prefix queries are explored over the key classes below / equal to / extending / above the prefix, where several keys may compare equal to the prefix.')
    rep.assume += ASSUME + ['keys with the prefix are contiguous and not below the prefix (Prefix contract)']
    for ty, name in ((R, 'keys_with_prefix'), (M_, 'witness_keys_with_prefix')):
        fn = pick(P, rep, ty, name)
        if not fn: continue
        spec_check(rep, P, fn, 'prefix:' + shortfn(fn), prefix_ctx(qterms(P, fn)[0]), prefixed, 'every key with the prefix plus the nearest outside labels, all else pruned')
    from labels import prefix_contract
    prefix_contract(rep, P)
    # greatest entry with the prefix
    fn = pick(P, rep, R, 'max_entry_with_prefix')
    if fn: table_check(rep, P, fn, 'max', prefix_ctx(qterms(P, fn)[0]), lambda o: ('entry', 2, 'last') if 2 in o else ('entry', 1, 'last') if 1 in o else None, 'greatest entry with the prefix')
    fn = pick(P, rep, R, 'modify_max_with_prefix')
    if fn: table_check(rep, P, fn, 'modify_max', prefix_ctx(qterms(P, fn)[0]), lambda o: ('call', 2, 'last') if 2 in o else ('call', 1, 'last') if 1 in o else None, 'modifies the greatest entry with the prefix, once')


def node_matches(s, n, root, c, reg, which):
    """node term n is the `which` element of region `reg` of the tree"""
    if not isnode(n): return False
    if n[1][0] == 'sel' and ('N', n[1][1]) == root: return n[1][2] == reg and (which is None or n[1][3] == which or c.uniq(reg))
    if n in s.tree or ('reg', n) in s.tree:
        if s.tree.get(('reg', n)) != reg: return False
        if c.uniq(reg): return True
    return None


def table_check(rep, P, fn, key, c, want, what, val_term=None):
    """lookups and in-place updates.  want(occ): None | ('value'|'entry'|'call', region, which)"""
    key = '%s:%s' % (key, shortfn(fn))
    def judge(occ):
        I, res = explore(P, fn, c, occ)
        note_visited(rep, I); stats(rep, I)
        nb = len(rep.obl)
        bads(rep, I, key, fn, P)
        S = I.shape
        seen = set()
        for (o, s, v, args, roots) in res:
            root = roots[0]; seen.add(o)
            w = want(o)
            err = outcome_error(I, s, v, args, root, c, w, S)
            if err == 'undecided': rep.undecided(key + ':' + occname(c, o), what, where(P, fn), 'result not recognised: ' + show(v)[:200])
            elif err: rep.bad(key, what, where(P, fn), 'contents %s: %s; path: %s' % (occname(c, o), err, show_path(s)))
        for o in contents_of(c) if occ is None else occ:
            if o not in seen: rep.bad(key + ':returns', 'the operation returns for every content', where(P, fn), 'no path returns for contents ' + occname(c, o))
        if len(rep.obl) == nb and occ is None:
            for o in sorted(seen, key=sorted): rep.ok(key + ':' + occname(c, o), what + ' (contents %s)' % occname(c, o), where(P, fn))
    guarded(rep, key, what, where(P, fn), lambda: by_content(rep, c, judge))


def refs_node(v, i):
    """a reference to field i of a tree node -> the node"""
    if v[0] == 'p' and v != NULL and isnode(v[1]) and v[2] == (i,): return v[1]
    return None


def outcome_error(I, s, v, args, root, c, w, S):
    ev = [e for e in s.ev if relevant(e)]
    calls = [e for e in ev if e[0] == 'callf']
    eff = s.tree.get(('eff', root), ((), True))
    effs, fresh = eff
    if root in s.mem:
        for n in I.domain.below(s, root):
            f = s.mem[n][3]
            if f[S.V] != ('t', 'v', n): effs = effs + ((n, f[S.V]),)
            if I.domain.nh(s, f[S.H]) != I.domain.nh(s, I.domain.truehash(s, n, True)): fresh = False
    kind = w[0] if w else None
    isres = v[0] == 'adt' and v[1] == OPT
    if w is None:
        if not isres: return 'undecided'
        if v[2] != 0: return 'a result is returned although no entry matches: ' + show(v)[:200]
        if calls: return 'the function is called although no entry matches'
        if effs: return 'an entry is modified although none matches'
        return None
    if not isres: return 'undecided'
    if v[2] != 1: return 'no result although an entry matches'
    x = v[3][0]
    if kind == 'value':
        n = refs_node(x, S.V)
        if n is None: return 'undecided'
        if not node_matches(s, n, root, c, w[1], w[2]): return 'returns the value of another entry: ' + show(x)[:200]
        if effs: return 'an entry is modified'
        return None
    if kind == 'entry':
        if not (x[0] == 'adt' and x[1] == '()' and len(x[3]) == 2): return 'undecided'
        k, n = refs_node(x[3][0], S.K), refs_node(x[3][1], S.V)
        if k is None or n is None: return 'undecided'
        if k != n: return 'key and value of different entries'
        if not node_matches(s, n, root, c, w[1], w[2]): return 'returns another entry: ' + show(x)[:200]
        return None
    if kind in ('call', 'mutref'):
        if kind == 'mutref':
            n = refs_node(x, S.V)
            if n is None: return 'undecided'
            if not node_matches(s, n, root, c, w[1], w[2]): return 'returns the value of another entry'
            return None
        if len(calls) != 1: return 'the function is called %d times' % len(calls)
        a = calls[0][2]
        n = refs_node(a[-1], S.V)
        if n is None: return 'undecided'
        if len(a) == 2 and refs_node(a[0], S.K) != n: return 'key and value of different entries are passed'
        if not node_matches(s, n, root, c, w[1], w[2]): return 'the function is applied to another entry: ' + show(a)[:200]
        if x != ('t', 'callf', calls[0][1], a) and x[:4] != ('t', 'callf', calls[0][1], a): return 'the result of the function is not returned: ' + show(x)[:200]
        if any(m != n for m, _ in effs): return 'another entry is modified'
        if any(y != ('t', 'post', calls[0][1], ('t', 'v', n)) for _, y in effs): return 'the value is overwritten'
        if not effs: return 'the change is lost'
        return None
    return 'undecided'
