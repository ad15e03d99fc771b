"""C21: construction of groups."""
from groups import *
from queues import *


class BI(Queues, GI):
    """interpreter for the group builder"""
    def __init__(self, P, L):
        GI.__init__(self, P, L)
        self.qelem = NODE; self.bself = None; self.mapobjs = (); self.childval = None
        with_queues(self)

    def member(self, st, M, k):
        if M in self.mapobjs:
            o = ('child', M, k); st.mem.setdefault(o, self.childval or ('t', 'child', M, k)); return ('bx', o) if self.boxedmap else st.mem[o]
        return GI.member(self, st, M, k)

    def nodeword(self, st, v):
        L = self.L
        if v[0] != 'adt' or v[1] != NODE: return None
        x = v[3][L.inner]
        while x[0] in ('p', 'bx') and x != NULL: x = self.read(st, *self.deref(st, x))
        if x[0] != 'adt' or x[1] != L.innerty: return None
        if x[2] == L.kinds['fork']: return self.word(st, x[3][0]) + self.word(st, x[3][1])
        if x[2] == L.kinds['labeled']:
            j = 1 - L.lab
            return (('t', 'lab', self.purify(st, x[3][L.lab]), self.purify(st, x[3][j])),)
        return (('t', 'leafof', self.purify(st, x[3][0])),)

    def node_ih(self, st, path, args, meta, dty):
        f = self.P.fns.get(path) or {}
        L = self.L; ins = f.get('ins', ())
        if ins and tn(ins[0]) == L.bnode and self.P.recursive(path):
            i = pathslot(ins)
            if i is not None and any(t.get('n') == 'std::any::TypeId' for t in ins):
                n = self.name_of(st, args[0])
                if n == self.bself and not st.x.get('in'): st.x['in'] = 1; return None
                st = st.copy()
                w = self.pathword(st, args[i])
                tid = next(args[j] for j, t in enumerate(ins) if t.get('n') == 'std::any::TypeId')
                cur = self.read(st, n[2], n[3]) if n[2] in st.mem else None
                if cur is not None and cur[0] == 'adt' and cur[2] == L.bk['leaf']: return []     # nothing is inserted below a member (case 'leaf')
                st.emit('binsert', n, w, tid, cur)
                return [(st, UNIT if f['out']['k'] == 'tuple' else ('t', 'binserted', n))]
            if f['out'].get('n') == NODE and len(ins) == 1:
                v = self.purify(st, args[0])
                if v == self.bself and not st.x.get('in'): st.x['in'] = 1; return None
                return [(st, ('t', 'built', v))]
        return GI.node_ih(self, st, path, args, meta, dty)

    def pathword(self, st, v):
        while v[0] == 'p': v = self.read(st, *self.deref(st, v))
        return tuple(strip(self.purify(st, x)) if isinstance(x, tuple) else x for x in self.word(st, v))


def pathslot(ins):
    for i, t in enumerate(ins[1:], 1):
        u = t['t'] if t['k'] == 'ref' else t
        if u.get('k') == 'slice' or u.get('n') in ('std::collections::VecDeque', 'std::vec::Vec', 'std::vec::IntoIter', 'std::collections::vec_deque::IntoIter'): return i
    return None


def patharg(I, st, t, segs):
    if t['k'] == 'ref':
        o = ('patharg',); st.mem[o] = patharg(I, st, t['t'], segs); return ('p', o, ())
    if (t.get('n') or '').endswith('IntoIter'): return it(segs)
    return mkvec(segs)


def c21(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Insertion into a directory is interpreted per case (leaf or directory; path empty, last component free or taken, longer path with the first component present or absent) with recursive calls on a child as the induction hypothesis; '
                    'building a directory is interpreted with loops over queues of nodes as word invariants: the concatenation of the queues keeps its in-order word of labelled children.')
    rep.assume += ['BTreeMap iterates in ascending key order', 'String order is the byte order of its UTF-8 encoding', 'models of the standard library']
    L = Lay(P)
    if not (L.group_ok() and L.builder_ok()): rep.undecided('layout', 'builder layout', BUILDER, 'fields of the builder types not recognised'); return
    n = 0
    rins = [f for f in P.fns if P.recursive(f) and P.fns[f].get('ins') and tn(P.fns[f]['ins'][0]) == L.bnode and pathslot(P.fns[f]['ins']) is not None and any(t.get('n') == 'std::any::TypeId' for t in P.fns[f]['ins'])]
    rbld = [f for f in P.fns if P.fns[f].get('ins') and len(P.fns[f]['ins']) == 1 and P.fns[f]['ins'][0].get('n') == L.bnode and P.fns[f]['ins'][0]['k'] == 'adt' and P.fns[f]['out'].get('n') == NODE and '{' not in f]
    if not rins: rep.undecided('role:insert', 'insertion descends by structural recursion', L.bnode, 'no recursive function taking a path and a type identifier')
    if not rbld: rep.undecided('role:build', 'building descends by structural recursion', L.bnode, 'no recursive function from builder nodes to group nodes')
    for fn in rins:
        for case in ('leaf', 'empty', 'last:free', 'last:taken', 'deep:present', 'deep:absent', 'deep:member'):
            n += 1
            guarded(rep, 'insert:' + case, INS[case], where(P, fn), lambda: insert_case(rep, P, L, fn, case))
    for fn in rbld:
        for case in ('leaf', 'dir'):
            n += 1
            guarded(rep, 'build:' + case, BLD[case], where(P, fn), lambda: build_case(rep, P, L, fn, case))
    outer_insert(rep, P, L)
    outer_new(rep, P, L)
    outer_build(rep, P, L)
    rep.floor('cases of the builder', n, 8 if rins and rbld else 0)
    enumerate_builder(rep, P, L)


INS = {'leaf': 'nothing is inserted below a member', 'empty': 'an empty path names no place for a member', 'last:free': 'the member is placed at its label',
       'last:taken': 'a path used twice is rejected', 'deep:member': 'a path below a member is rejected', 'deep:present': 'a longer path continues in the directory at its first label', 'deep:absent': 'a longer path continues in a new directory at its first label'}
BLD = {'leaf': 'a member becomes the leaf of its type', 'dir': 'a directory becomes its children, each once, labelled, in ascending order'}


def bnode(I, st, L, kind):
    ty = {'k': 'adt', 'n': L.bnode, 'a': []}
    M = ('t', 'children')
    if kind == 'leaf': return ('adt', L.bnode, L.bk['leaf'], (('t', 'tidof', ('t', 'bself')),)), M
    return ('adt', L.bnode, L.bk['dir'], (M,)), M


def mapboxed(P, L):
    t = P.adts[L.bnode]['variants'][L.bk['dir']]['fields'][0]['ty']
    return len(t.get('a', ())) >= 2 and t['a'][1].get('n') == 'std::boxed::Box'


def insert_case(rep, P, L, fn, case):
    I = BI(P, L); st = State(); I.case = 'insert:' + case
    v, M = bnode(I, st, L, 'leaf' if case == 'leaf' else 'dir')
    I.mapobjs = (M,); I.boxedmap = mapboxed(P, L)
    ins = P.fns[fn]['ins']
    byref = ins[0]['k'] == 'ref'
    st.mem[('bself',)] = v
    I.bself = ('t', 'node', ('bself',), ())
    C, Q = ('t', 'comp'), ('t', 'Q', 'path')
    segs = {'leaf': (Q,), 'empty': ()}.get(case)
    if case == 'deep:member': I.childval = ('adt', L.bnode, L.bk['leaf'], (('t', 'tidof', ('t', 'child')),))
    if case == 'deep:present': I.childval = ('adt', L.bnode, L.bk['dir'], (('t', 'grandchildren'),))
    if segs is None: segs = (one(C),) if case.startswith('last') else (one(C), Q)
    if case.startswith('deep'): st.facts[('t', 'qempty', Q)] = 0
    key = 'insert:' + case; what = INS[case]; wh = where(P, fn)
    pi = pathslot(ins); args = []
    TID = ('t', 'tid')
    for i, t in enumerate(ins):
        if i == 0: args.append(('p', ('bself',), ()) if byref else v)
        elif i == pi: args.append(patharg(I, st, t, segs))
        elif t.get('n') == 'std::any::TypeId': args.append(TID)
        else: args.append(symval(I, st, t, ('t', 'arg', i)))
    if not byref: rep.undecided(key, what, wh, 'takes the node by value'); return
    if case != 'leaf' and case != 'empty': st.facts[('t', 'has', M, C)] = 1 if case in ('last:taken', 'deep:present', 'deep:member') else 0
    outs = allpaths(I, fn, args, st)
    rep.fns |= I.visited
    if case in ('leaf', 'empty', 'last:taken', 'deep:member'):
        errs = [s for s, r in outs if not (r[0] == 'adt' and r[1] == RES and r[2] == 1)]
        if errs:
            s = errs[0]; now = pure(I, s, s.mem[('bself',)])
            rep.bad(key, what, wh, 'returns with %s' % show(now)[:200])
        else: rep.ok(key, what, wh)
        return
    rep.expect(bool(outs), key + ':returns', what, wh, 'no path returns')
    for s, r in outs:
        now = s.mem[('bself',)]
        evs = [e for e in s.ev if e[0] == 'binsert']
        if now[0] != 'adt' or now[2] != L.bk['dir']: rep.bad(key, what, wh, 'the directory becomes %s' % show(pure(I, s, now))[:200]); continue
        m = now[3][0]
        if case == 'last:free':
            rep.expect(not evs, key, what, wh, 'descends further')
            d = putdiff(I, s, m, M)
            if d is None: rep.undecided(key, what, wh, show(pure(I, s, m))[:200]); continue
            k, x = d
            if k is None: rep.bad(key, what, wh, 'the children are left unchanged'); continue
            x = unbox(I, s, x)
            ok = k == C and x[0] == 'adt' and x[1] == L.bnode and x[2] == L.bk['leaf'] and x[3][0] == TID
            rep.expect(ok, key, what, wh, 'places %s at %s' % (show(x)[:100], show(k)))
            continue
        if len(evs) != 1: rep.expect(False, key, what, wh, 'descends %d times' % len(evs)) if len(evs) != 1 and not any(e[0] == 'each' for e in s.ev) else rep.undecided(key, what, wh, 'loop'); continue
        e = evs[0]
        w, want = I.nword(s, e[2]), I.nword(s, (Q,))
        d = putdiff(I, s, m, M)
        if d is None: rep.undecided(key, what, wh, show(pure(I, s, m))[:200]); continue
        k, x = d
        if case == 'deep:present':
            if k is not None: rep.bad(key, what, wh, 'replaces the entry at %s' % show(k)); continue
            if e[1][2] != ('child', M, C): rep.bad(key, what, wh, 'descends into %s' % show(e[1])); continue
            if e[4] != I.childval: rep.bad(key, what, wh, 'the directory there is changed to %s' % show(pure(I, s, e[4]))[:200]); continue
        else:
            if k is None: rep.bad(key, what, wh, 'the new directory is not kept'); continue
            rep.expect(k == C, key + ':label', what, wh, 'places the new directory at %s' % show(k))
            x2 = x
            o = ('t', 'node') + loc(I, s, x)
            cur = e[4]
            same = o == e[1]
            if not same: rep.bad(key, what, wh, 'descends into something else'); continue
            if cur is None or cur[0] != 'adt': rep.undecided(key, what, wh, 'new directory: %s' % show(cur)); continue
            dirok = cur[2] == L.bk['dir'] and (cur[3][0] in (DN, ('t', 'default')) or cur[3][0][0] == 'adt' and cur[3][0][1] == VEC and not cur[3][0][3])
            rep.expect(dirok, key + ':new', 'the new directory is empty', wh, show(cur))
        if w == want: rep.ok(key, what, wh)
        else: rep.bad(key, what, wh, 'descends with the path %s instead of %s' % ([show(x) for x in w], [show(x) for x in want]))
        rep.expect(e[3] == TID, key + ':tid', 'the type of the member is handed down', wh, show(e[3]))


def unbox(I, s, x):
    while x[0] in ('p', 'bx') and x != NULL: x = I.read(s, *I.deref(s, x))
    return x


def loc(I, s, x):
    o = p = None
    while x[0] in ('p', 'bx') and x != NULL: o, p = I.deref(s, x); x = I.read(s, o, p)
    return o, p


def putdiff(I, s, m, M):
    """m == M: (None, None); m == put(M, k, v): (k, v); otherwise None"""
    while m[0] == 'p': m = I.read(s, *I.deref(s, m))
    if m == M: return None, None
    if m[:2] == ('t', 'put') and m[2] == M: return m[3], m[4]
    return None


def entries_of(src, M):
    return len(src) == 1 and src[0][:2] == ('t', 'entries') and src[0][4] == M and src[0][2]


def build_case(rep, P, L, fn, case):
    I = BI(P, L); st = State(); I.case = 'build:' + case
    v, M = bnode(I, st, L, case)
    I.mapobjs = (M,); I.boxedmap = mapboxed(P, L)
    I.bself = pure(I, st, v)
    key = 'build:' + case; what = BLD[case]; wh = where(P, fn)
    try: outs = allpaths(I, fn, [v], st)
    except LoopBreak as b:
        rep.fns |= I.visited
        return rep.bad(key + ':loop', 'joining children loses, duplicates or reorders nothing', wh, b.what)
    rep.fns |= I.visited
    rep.expect(bool(outs), key + ':returns', what, wh, 'no path returns')
    for s, r in outs:
        w = I.nword(s, I.word(s, r))
        if case == 'leaf':
            want = (('t', 'leafof', ('t', 'tidof', ('t', 'bself'))),)
            rep.expect(w == want, key, what, wh, 'becomes %s' % [show(x) for x in w]); continue
        if len(w) != 1 or w[0][:2] != ('t', 'each'):
            if any(has_term(x, lambda t: t[:2] in (('t', 'fold'), ('t', 'part'), ('t', '?'), ('t', 'unknown'))) for x in w): rep.undecided(key, what, wh, [show(x)[:150] for x in w])
            elif any(isq(x) or x[:2] in (('t', 'qe'), ('t', 'each'), ('t', 'lab'), ('t', 'leafof')) for x in w) or not w: rep.bad(key, what, wh, 'the result holds %s' % [show(x)[:150] for x in w] + '  [' + '; '.join(s.path)[:200] + ']')
            else: rep.undecided(key, what, wh, [show(x)[:150] for x in w])
            continue
        src, stp = w[0][2], w[0][3]
        kind = entries_of(src, M)
        if not kind:
            if has_term(src, lambda t: t[:2] == ('t', 'sub')): rep.bad(key, what, wh, 'children are taken as %s' % [show(x)[:100] for x in src])
            else: rep.undecided(key, what, wh, [show(x) for x in src])
            continue
        rep.expect(kind == 'sorted', key + ':order', 'children are labelled in ascending order', wh, 'children are taken in the order of a hash table')
        if len(stp) != 1 or stp[0][:2] != ('adt', '@one'): rep.undecided(key, what, wh, show(stp)[:200]); continue
        x = stp[0][3][0]
        ew = labelled(I, s, L, x)
        if ew is None: rep.undecided(key, what, wh, show(x)[:200]); continue
        lab, sub = ew
        rep.expect(strip(lab) == ('t', 'f', ITEM, 0), key + ':label', 'a child is labelled with its own name', wh, 'labelled %s' % show(lab))
        if sub[:2] == ('t', 'built') and only(sub[2], ('t', 'f', ITEM, 1)): rep.ok(key + ':child', 'a child is what was built from its own subtree', wh)
        elif sub[:2] == ('t', 'built') or sub[0] == 'adt': rep.bad(key + ':child', 'a child is what was built from its own subtree', wh, show(sub)[:200])
        else: rep.undecided(key + ':child', 'a child is what was built from its own subtree', wh, show(sub)[:200])


def only(x, t):
    """x is t behind dereferences"""
    while x != t and isinstance(x, tuple) and x[:1] == ('t',) and len(x) == 3 and x[1] in ('at', 'inner', 'deref', 'boxof', 'by', 'unbox', 'val'): x = x[2]
    return x == t


def labelled(I, s, L, x):
    if x[0] != 'adt' or x[1] != NODE: return None
    y = x[3][L.inner]
    y = unbox(I, s, y)
    if y[0] != 'adt' or y[2] != L.kinds['labeled']: return (('t', 'unlabelled'), y)
    return pure(I, s, y[3][L.lab]), pure(I, s, unbox(I, s, y[3][1 - L.lab]))


def outer_insert(rep, P, L):
    fn = find1(P, rep, lambda f: f == BUILDER + '::insert', 'GroupBuilder::insert')
    if not fn: return
    key = 'GroupBuilder::insert'; wh = where(P, fn)

    def go():
        I = BI(P, L); st = State()
        f = P.fns[fn]; ins = f['ins']
        b = tuple(('t', 'f', ('t', 'builder'), i) for i in range(len(P.adts[BUILDER]['variants'][0]['fields'])))
        args = []; di = pi = None
        tp = first_tparam(P, fn)
        for i, t in enumerate(ins):
            if tn(t) == BUILDER:
                if t['k'] == 'ref': st.mem[('builder',)] = ('adt', BUILDER, 0, b); args.append(('p', ('builder',), ()))
                else: args.append(('adt', BUILDER, 0, b))
            else:
                a = ('t', 'arg', i); args.append(a)
                if t.get('k') == 'param' and t.get('n') == tp: di = a
                else: pi = a
        outs = allpaths(I, fn, args, st)
        rep.fns |= I.visited
        rep.expect(bool(outs), key + ':returns', 'a fresh path is accepted', wh, 'no path returns')
        TID = ('t', 'typeid', tp); D = b[L.bdata]
        for s, r in outs:
            if r[0] == 'adt' and r[1] == RES:
                if r[2] == 1: continue
                r = r[3][0]
            r = unbox(I, s, r)
            if r[0] != 'adt' or r[1] != BUILDER: r = s.mem.get(('builder',), r)
            if r[0] != 'adt' or r[1] != BUILDER: rep.undecided(key, 'the builder is returned', wh, show(r)[:200]); continue
            if any(k[:2] == ('t', 'has') and k[2] == D and x == 1 for k, x in s.facts.items()):
                rep.bad(key + ':type', 'a type used twice is rejected', wh, 'returns although the type is present'); continue
            evs = [e for e in s.ev if e[0] == 'binsert']
            if len(evs) != 1: rep.bad(key + ':path', 'the member is inserted at its path', wh, 'inserted %d times' % len(evs)); continue
            e = evs[0]
            m = r[3][L.bdata]; d = putdiff(I, s, m, D)
            if d is None: rep.undecided(key + ':data', 'the member is kept', wh, show(pure(I, s, m))[:200])
            elif d[0] is None: rep.bad(key + ':data', 'the member is kept', wh, 'the members are unchanged')
            else:
                x = unbox(I, s, d[1])
                rep.expect(x == di, key + ':data', 'the member is kept', wh, 'stores %s' % show(x)[:200])
                if d[0] != e[3]: rep.bad(key + ':tid', 'member and path agree on the type', wh, '%s and %s' % (show(d[0]), show(e[3])))
                else: rep.ok(key + ':tid', 'member and path agree on the type', wh)
                if not any(k[:2] == ('t', 'has') and k[2] == D and k[3] == d[0] for k in s.facts): rep.undecided(key + ':type', 'a type used twice is rejected', wh, 'no test for the type')
                else: rep.ok(key + ':type', 'a type used twice is rejected', wh)
            judge_path(rep, I, s, e[2], pi, key + ':path', wh)
    guarded(rep, key, 'the member is inserted at its path', wh, go)


def judge_path(rep, I, s, w, pi, key, wh):
    what = 'the path is the given components, in order'
    if len(w) == 1 and w[0][:2] == ('t', 'each'): src, stp = w[0][2], w[0][3]
    elif len(w) == 1 and w[0] == ('t', 'items', pi): src, stp = w, (one(ITEM),)
    else: return rep.bad(key, what, wh, 'the path becomes %s' % [show(x)[:150] for x in w]) if not w or any(x[:2] == ('t', 'sub') for x in w) else rep.undecided(key, what, wh, [show(x)[:150] for x in w])
    if tuple(src) != (('t', 'items', pi),):
        if has_term(src, lambda t: t[:2] == ('t', 'sub')): return rep.bad(key, what, wh, 'takes %s' % [show(x)[:150] for x in src])
        return rep.undecided(key, what, wh, [show(x)[:150] for x in src])
    if len(stp) != 1 or stp[0][:2] != ('adt', '@one'): return rep.undecided(key, what, wh, show(stp)[:200])
    x = stp[0][3][0]
    if x == ITEM or x[:2] == ('t', 'call') and 'into' in show(x) and has_term(x, lambda t: t == ITEM) or x in (('t', 'into', ITEM), ('t', 'string', ITEM)): return rep.ok(key, what, wh)
    if has_term(x, lambda t: t[:2] == ('t', 'fn')): return rep.bad(key, what, wh, 'a component becomes %s' % show(x))
    y = x
    if has_term(y, lambda t: t == ITEM): return rep.ok(key, what, wh) if is_conv(y) else rep.undecided(key, what, wh, show(x)[:200])
    rep.bad(key, what, wh, 'a component becomes %s' % show(x)[:200])


def is_conv(x): 
    while isinstance(x, tuple) and x[:1] == ('t',) and x != ITEM:
        if x[1] in ('by', 'at', 'into', 'string', 'clone'): x = x[2]
        else: return False
    return x == ITEM


def outer_new(rep, P, L):
    fns = [f for f in P.fns if (f == BUILDER + '::new' or f.startswith('<' + BUILDER + ' as ') and f.endswith('Default>::default')) and P.fns[f].get('body')]
    if not fns: return rep.bad('anchor:GroupBuilder::new', 'builders can be made')
    for fn in fns:
        def go(fn=fn):
            I = BI(P, L); st = State()
            outs = allpaths(I, fn, [], st); rep.fns |= I.visited
            key = 'GroupBuilder::' + fn.rsplit('::', 1)[-1]
            for s, r in outs:
                if r[0] != 'adt' or r[1] != BUILDER: rep.undecided(key, 'a new builder is empty', where(P, fn), show(r)); continue
                n = r[3][L.broot]; e = lambda x: x in (DN, ('t', 'default')) or x[0] == 'adt' and x[1] == VEC and not x[3]
                if n[0] != 'adt' or n[1] != L.bnode: rep.undecided(key, 'a new builder is empty', where(P, fn), show(n)); continue
                rep.expect(n[2] == L.bk['dir'] and e(n[3][0]) and e(r[3][L.bdata]), key, 'a new builder is empty', where(P, fn), show(pure(I, s, r))[:200])
        guarded(rep, 'GroupBuilder::' + fn.rsplit('::', 1)[-1], 'a new builder is empty', where(P, fn), go)


def outer_build(rep, P, L):
    fn = find1(P, rep, lambda f: f == BUILDER + '::build', 'GroupBuilder::build')
    if not fn: return
    key = 'GroupBuilder::build'

    def go():
        I = BI(P, L); st = State()
        b = tuple(('t', 'f', ('t', 'builder'), i) for i in range(len(P.adts[BUILDER]['variants'][0]['fields'])))
        outs = allpaths(I, fn, [('adt', BUILDER, 0, b)], st)
        rep.fns |= I.visited; wh = where(P, fn)
        rep.expect(bool(outs), key + ':returns', 'a group is built', wh, 'no path returns')
        for s, v in outs:
            if v[0] != 'adt' or v[1] != GROUP: rep.undecided(key, 'a group is built', wh, show(pure(I, s, v))[:200]); continue
            rt = pure(I, s, v[3][L.root]); bt = ('t', 'built', b[L.broot])
            what = 'the root of the group is built from all inserted paths'
            if rt == bt: rep.ok(key + ':root', what, wh)
            elif rt[:2] == ('t', 'built'): rep.bad(key + ':root', what, wh, show(rt))
            else: rep.undecided(key + ':root', what, wh, show(rt)[:200])
            dt = pure(I, s, v[3][L.data])
            what = 'the group holds exactly the inserted members'
            if dt == b[L.bdata]: rep.ok(key + ':data', what, wh)
            elif dt == DN or dt[:2] in (('t', 'put'), ('t', 'del')): rep.bad(key + ':data', what, wh, show(dt)[:200])
            else: rep.undecided(key + ':data', what, wh, show(dt)[:200])
    guarded(rep, key, 'a group is built', where(P, fn), go)


def enumerate_builder(rep, P, L):
    from mutate import writes_owned
    n = 0
    for f, d in P.fns.items():
        if not d.get('body'): continue
        if writes_owned(d['body'], (BUILDER, L.bnode)) or builds(d['body'], BUILDER) or builds(d['body'], L.bnode):
            n += 1
            if f not in rep.fns and not any(f.startswith(x + '::{') for x in rep.fns): rep.undecided('writer:' + '::'.join(f.rsplit('::', 2)[-2:]), 'every writer of builder structures is analysed', where(P, f), 'not reached from an analysed function')
    rep.floor('functions writing builder structures', n, 2)
