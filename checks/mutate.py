"""C01, C06, C07, C08, C10, C23: operations that change a map, on trees of every shape and size."""
from mutbase import *
from hashing import guarded
import budget
from witness import R, M_, api, trait_fn, shortfn, bads as _bads
import witness

EN = 'rbtree::entry::'
DEEP = 'collections::map::Map::<K, collections::seq::Seq<V>>::'
KE, VE = K(EOBJ), V(EOBJ)
SAME = ('same',)
AIRULE = ('Every public operation that can change a map is interpreted abstractly on an arbitrary valid tree: subtrees that are not looked into are single symbols with their possible balanced shapes, black height, '
          'hash freshness and in-order content; recursive functions and loops are summarised per argument pattern (least fixpoint), so the verdict covers trees of every shape and size. ')
ASSUME = ['keys are totally ordered and equality under Borrow is consistent with it', 'the map is valid on entry (by induction over the history: every operation is checked to re-establish it)',
          'models of the standard library in engine/models.py; unwinding out of user code is not followed']


class Out:
    """one way an operation can end"""
    def __init__(self, I, s, v, hasE):
        self.I, self.s, self.v, self.hasE = I, s, v, hasE
        D = self.D = I.domain
        o, p = I.maps[0]
        m = s.mem[o]
        for e in p: m = m[3][e]
        r = m[3][I.shape.ROOT]
        self.root = None if r == NULL or r == UNDEF else r[1] if r[0] == 'p' and isnode(r[1]) and not r[2] else ('bad',)
        self.len = m[3][I.shape.LEN]
        self.S = D.norm(s, tuple(('e', K(i[1]), V(i[1])) if i[0] == 'e' else i for i in s.tree['seq']))
        self.pat = D.pattern(s, self.root) if self.root != ('bad',) else ('X', 'link')
        self.P = D.norm(s, D.cont(s, self.root)) if self.root not in (None, ('bad',)) else ()
        self.Ew = bool(s.tree.get('Ew'))
        if self.Ew and hasE and EOBJ in s.mem: self.P = D.apply_mod(s, ('set', KE, s.mem[EOBJ][3][I.shape.V]), self.P, True)
        self.S = self.drop_null(self.S); self.P = self.drop_null(self.P)

    def drop_null(self, items): return tuple(i for i in items if not (i[0] == 'c' and self.D.known_null(self.s, i[1])))

    def after(self, mod):
        return self.drop_null(self.D.norm(self.s, self.D.apply_mod(self.s, mod, self.S, True)))

    def content_is(self, *mods):
        """True / False / None (cannot tell)"""
        t = []
        for m in mods:
            w = () if m == ('clear',) else self.after(m)
            if w == self.P: return True
            t.append(w)
        if all(i[0] != '?' for w in t + [self.P] for i in w): return False
        if self.P == (('?', 'wrong'),): return False
        return None

    def is_E(self, o):
        if not isnode(o): return False
        if o == EOBJ: return True
        if o in self.s.mem and not self.D.issel(o): return self.D.keypos(self.s, self.s.mem[o][3][self.I.shape.K]) == '='
        return self.s.tree.get(('rel', o)) == '='

    def canon(self, v): return self.D.canonE(self.s, v)

    def value_ref(self, v):
        """v is a reference to the value of the entry with the query key"""
        return v[0] == 'p' and v != NULL and v[2] == (self.I.shape.V,) and self.is_E(v[1])

    def foreign_ref(self, v): return v[0] == 'p' and v != NULL and isnode(v[1]) and not self.is_E(v[1]) and v[1] in self.s.mem and not self.D.issel(v[1])

    def path(self): return show_path(self.s)


def opt(v): return v[3][0] if v[0] == 'adt' and v[1] == OPT and v[2] == 1 else None
def isnone(v): return v[0] == 'adt' and v[1] == OPT and v[2] == 0
def isopt(v): return v[0] == 'adt' and v[1] == OPT
def istup(v, n): return v[0] == 'adt' and v[1] == '()' and len(v[3]) == n


# ------------------------------------------------------------------ result specifications: (Out, args) -> True / False / None
def r_none(o, a): return isnone(o.v) if isopt(o.v) else None
def r_val(o, a):
    x = opt(o.v); return (o.canon(x) == VE) if x is not None else (False if isopt(o.v) else None)
def r_pair(o, a):
    x = opt(o.v)
    if x is None: return False if isopt(o.v) else None
    return o.canon(x[3]) == (KE, VE) if istup(x, 2) else None
def r_ref(o, a):
    x = opt(o.v)
    if x is None: return False if isopt(o.v) else None
    return True if o.value_ref(x) else False if o.foreign_ref(x) else None
def r_unit(o, a): return True
def r_ins(inner):
    def f(o, a):
        if not istup(o.v, 2): return None
        class W: pass
        w = W(); w.__dict__.update(o.__dict__); w.v = o.v[3][0]; w.canon = o.canon
        r = inner(w, a)
        p = o.v[3][1]
        q = True if o.value_ref(p) else False if o.foreign_ref(p) else None
        return False if False in (r, q) else None if None in (r, q) else True
    return f
def calls(o): return [e for e in o.s.ev if e[0] == 'callf']
def r_call(o, a):
    c = calls(o)
    x = opt(o.v)
    if x is None: return False if isopt(o.v) else None
    if len(c) != 1: return False
    if not o.value_ref(c[0][2][-1]): return False if o.foreign_ref(c[0][2][-1]) else None
    return x[:4] == ('t', 'callf', c[0][1], c[0][2])
def r_nocall(o, a): return (isnone(o.v) and not calls(o)) if isopt(o.v) else None


def spec_table(P):
    A1, A2 = ('t', 'arg', 1), ('t', 'arg', 2)
    def seqapp(o, old):
        """value after appending the item to a sequence"""
        return None
    T = {}
    def add(fn, q, t, f):
        T[fn] = (q, t, f)
    ins = (('ins', A1, A2),); setv = (('set', KE, A2), ('set', A1, A2))
    add(R + 'insert', 1, (setv, r_ins(r_val), 0), (ins, r_ins(r_none), 1))
    add(M_ + 'insert', 1, (setv, r_val, 0), (ins, r_none, 1))
    add(R + 'delete', 1, ((('dE',),), r_pair, -1), ((SAME,), r_none, 0))
    add(M_ + 'remove', 1, ((('dE',),), r_val, -1), ((SAME,), r_none, 0))
    add(M_ + 'remove_entry', 1, ((('dE',),), r_pair, -1), ((SAME,), r_none, 0))
    add(R + 'modify', 1, ((('set', KE, ('t', 'post', A2, VE)),), r_call, 0), ((SAME,), r_nocall, 0))
    add(R + 'get', 1, ((SAME,), r_ref, 0), ((SAME,), r_none, 0))
    add(M_ + 'get', 1, ((SAME,), r_ref, 0), ((SAME,), r_none, 0))
    add(M_ + 'get_mut', 1, ((SAME,), r_ref, 0), ((SAME,), r_none, 0))
    add(DEEP + 'append_deep', 1, ('append', r_unit, 0), ('append', r_unit, 1))
    add(DEEP + 'len_deep', 1, ((SAME,), r_len, 0), ((SAME,), r_zero, 0))
    return T


def r_len(o, a):
    v = o.canon(o.v)
    if v == ('t', 'len', ('t', 'f', VE, 1)) or v == ('t', 'len', ('t', 'vec', ('t', 'f', VE, 1))): return True
    return False if v[0] == 'i' else None
def r_zero(o, a): return o.v == ('i', 0) if o.v[0] == 'i' else None


def seq_layout(P):
    """indices of the hash and the item vector of Seq"""
    for n, a in P.adts.items():
        if n == 'collections::seq::Seq':
            h = i = None
            for j, f in enumerate(a['variants'][0]['fields']):
                t = f['ty']
                if t.get('n') in (VEC, 'std::vec::Vec'): i = j
                elif t['k'] == 'array': h = j
            return h, i
    return None, None


def entry_value(o):
    """the value now stored for the query key, if it is visible in the content word"""
    vals = []
    for it in o.P:
        if it[0] == 'e' and o.D.keypos(o.s, it[1]) == '=': vals.append(it[2])
        if it[0] == 'm' and it[1][0] in ('ins', 'set') and len(it[1]) == 3: vals.append(it[1][2])
    return vals[0] if len(vals) == 1 else None


def content_ok(o, want):
    if want != 'append': return o.content_is(*want)
    # append_deep: the sequence of the key gains exactly the item, hash extended
    h, iv = seq_layout(o.I.P)
    item = ('t', 'arg', 2)
    val = entry_value(o)
    if val is None or h is None: return None
    if val[0] != 'adt': return None
    hh, vec = val[3][h], val[3][iv]
    old = VE if o.hasE else None
    def items(v):
        if v[0] != 'adt' or v[1] != VEC: return None
        out = []
        for s in v[3]:
            out.append(s[3][0] if s[0] == 'adt' and s[1] == '@one' else ('rest', s))
        return out
    it = items(vec)
    if it is None: return None
    first = [('rest', ('t', 'f', VE, iv))] if o.hasE else []
    if [o.canon(x) for x in it] != first + [item]: return False
    prev = ('t', 'f', VE, h) if o.hasE else b'\0' * 32
    if o.D.nh(o.s, o.canon(hh)) not in (sha(('t', 'by', prev), ('t', 'H', item)), sha(prev, ('t', 'H', item)), sha(prev, ('t', 'by', ('t', 'H', item)))): return None
    mod = ('set', KE, val) if o.hasE else ('ins', ('t', 'arg', 1), val)
    return o.content_is(mod, ('set', ('t', 'arg', 1), val) if o.hasE else mod)


# ------------------------------------------------------------------ running
class Run:
    def __init__(self, P, fn, qarg, hasE, then=None, thenargs=None):
        self.P, self.fn, self.hasE = P, fn, hasE
        self.outs = []; self.err = None; self.I = None
        try:
            with budget.scope(): self.go(qarg, hasE, then, thenargs)
        except Undecided as u:
            self.err = u; self.outs = []
            if self.I is None: self.I = getattr(u, 'I', None)
            u.__traceback__ = None   # the frames hold every state reached so far

    def go(self, qarg, hasE, then, thenargs):
        self.I, outs = run_op(self.P, self.fn, qarg, hasE)
        if then: outs = self.follow(outs, then, thenargs)
        for s, v in outs:
            wl = [s]
            while wl:
                x = wl.pop()
                try: self.outs.append(Out(self.I, x.copy(), v, hasE))
                except Fork as f: wl += f.alts
                except Infeasible: pass

    def follow(self, outs, then, mk):
        res = []
        for s, v in outs:
            a = mk(self.I, s, v)
            if a is None: continue
            wl = [s]
            while wl:
                x = wl.pop()
                try:
                    for s2, v2 in self.I.call_fn(x, then, list(a)): res.append((s2, v2))
                except Fork as f: wl += [self.I.replay(x, al) for al in f.alts]
                except Infeasible: pass
        return res


def occ(h): return {True: 'key present', False: 'key absent', None: 'any content'}[h]


def mut_fns(P):
    """public functions that may change a map and are not in the specification table"""
    known = set(spec_table(P)) | {M_ + 'clear', M_ + 'entry', R + 'entry'}
    out = []
    for f, d in P.fns.items():
        if f in known or not d.get('vis_pub') or '{' in f: continue
        if not f.startswith(('rbtree::RbTree::<', 'collections::map::Map::<')): continue
        tys = argterms(P, f)
        if tys and tys[0]['k'] == 'ref' and tys[0].get('m') and tys[0]['t'].get('n') in ('rbtree::RbTree', 'collections::map::Map'): out.append(f)
    return sorted(out)


def entry_ops(P):
    """methods of the entry types: (fn, receiver kind)"""
    out = []
    for f, d in P.fns.items():
        if f.startswith(EN) and d.get('vis_pub') and '{' not in f:
            tys = argterms(P, f)
            if tys and base_adt(tys[0]).startswith(EN): out.append((f, base_adt(tys[0])))
    return sorted(out)


def base_adt(t):
    while t['k'] in ('ref', 'ptr'): t = t['t']
    return t.get('n') or ''


def entry_args(P, fn):
    """builds the arguments of an entry method from the result of entry(key)"""
    tys = argterms(P, fn)
    def mk(I, s, v):
        want = base_adt(tys[0])
        if v[0] != 'adt': return None
        if v[1] != want:
            v = v[3][0] if v[3] and v[3][0][0] == 'adt' else v
            if v[0] != 'adt' or v[1] != want: return None
        recv = v
        if tys[0]['k'] == 'ref':
            I.fid += 1; o = ('box', I.fid); s.mem[o] = v; recv = ('p', o, ())
        return [recv] + [symval(I, s, t, ('t', 'arg', 10 + i)) for i, t in enumerate(tys[1:])]
    return mk


_runs = {}


def all_runs(P, entry=True):
    """every operation x key present/absent; cached per program"""
    if id(P) in _runs: return _runs[id(P)]
    res = []
    for fn, (q, t, f) in sorted(spec_table(P).items()):
        if fn not in P.fns: continue
        for h, spec in ((True, t), (False, f)): res.append((fn, h, spec, Run(P, fn, q, h)))
    if M_ + 'clear' in P.fns: res.append((M_ + 'clear', None, ((('clear',),), r_unit, 'zero'), Run(P, M_ + 'clear', None, None)))
    for fn in mut_fns(P): res.append((fn, None, None, Run(P, fn, None, None)))
    for own in (R, M_):
        e = own + 'entry'
        if e not in P.fns: continue
        for h in (True, False): res.append((e, h, ((SAME,), None, 0), Run(P, e, 1, h)))
    e = R + 'entry'
    if e in P.fns:
        for fn, kind in entry_ops(P):
            for h in (True, False):
                if kind.endswith('VacantEntry') and h or kind.endswith('OccupiedEntry') and not h: continue
                res.append((fn, h, entry_spec(fn, h), Run(P, e, 1, h, fn, entry_args(P, fn))))
    _runs[id(P)] = res
    return res


def entry_spec(fn, h):
    n = fn.rsplit('::', 1)[-1]; kind = fn[len(EN):].split('::')[0]
    A1 = ('t', 'arg', 1); A10 = ('t', 'arg', 10)
    def ref(o, a): return True if o.value_ref(o.v) else False if o.foreign_ref(o.v) else None
    def key(o, a):
        v = o.v
        if v[0] == 'p': v = viewval(o.I, o.s, v)
        return True if o.canon(v) in (A1, KE) else None
    def nocall(f):
        def g(o, a): return False if calls(o) else f(o, a)
        return g
    ins = lambda v: (('ins', A1, v),)
    if kind == 'VacantEntry':
        if n == 'insert': return (ins(A10), ref, 1)
        if n in ('key', 'into_key'): return ((SAME,), key, 0)
    if kind == 'OccupiedEntry':
        if n in ('get', 'get_mut', 'into_mut'): return ((SAME,), ref, 0)
        if n == 'key': return ((SAME,), key, 0)
        if n == 'remove': return ((('dE',),), lambda o, a: o.canon(o.v) == VE, -1)
        if n == 'remove_entry': return ((('dE',),), lambda o, a: o.canon(o.v[3]) == (KE, VE) if istup(o.v, 2) else None, -1)
    if kind == 'Entry':
        if n == 'key': return ((SAME,), key, 0)
        if n in ('or_insert', 'or_default', 'or_insert_with', 'or_insert_with_key') and h: return ((SAME,), nocall(ref), 0)
        if n == 'or_insert': return (ins(A10), ref, 1)
        if n == 'or_default': return ('insdefault', ref, 1)
        if n in ('or_insert_with', 'or_insert_with_key'): return ('inscall', ref, 1)
        if n == 'and_modify':
            return ((('set', KE, ('t', 'post', A10, VE)),), r_once, 0) if h else ((SAME,), r_keep, 0)
    return None


def r_once(o, a):
    c = calls(o)
    if len(c) != 1: return False
    if not o.value_ref(c[0][2][-1]): return False if o.foreign_ref(c[0][2][-1]) else None
    return entry_same(o, 'OccupiedEntry')
def r_keep(o, a): return False if calls(o) else entry_same(o, 'VacantEntry')
def entry_same(o, kind):
    v = o.v
    if v[0] != 'adt' or not v[1].endswith('Entry') or not v[3] or v[3][0][0] != 'adt': return None
    x = v[3][0]
    if not x[1].endswith(kind): return False
    for f in x[3]:
        if f[0] == 'p' and isnode(f[1]) and not o.is_E(f[1]): return False if o.foreign_ref(f) else None
    return True


def content_verdict(o, want):
    if want in ('insdefault', 'inscall'):
        v = entry_value(o)
        if v is None: return o.content_is(('ins', ('t', 'arg', 1), ('t', '?')))
        if want == 'insdefault': good = v[:2] == ('t', 'default')
        else:
            c = calls(o)
            good = len(c) == 1 and v[:3] == ('t', 'callf', c[0][1])
        if not good: return None if v[0] != 't' else False
        return o.content_is(('ins', ('t', 'arg', 1), v))
    return content_ok(o, want)


# ------------------------------------------------------------------ obligations
def base_name(fn): return shortfn(fn).replace(DEEP, 'Map<Seq>::').replace(EN, '')


def undecided_of(rep, r, key, what):
    n = 0
    if r.err is not None:
        rep.undecided(key, what, where(r.P, r.fn), '%s (at %s)' % (r.err.why, r.err.at)); n += 1
    elif r.I and r.I.undec:
        f, at, why = r.I.undec[0]
        rep.undecided(key, what, where(r.P, r.fn), '%d paths: %s (in %s at %s)' % (len(r.I.undec), why, f, at)); n += 1
    return n


def account(rep, r):
    if r.I is None: return
    rep.fns |= r.I.visited
    for k, v in (('summaries', len(r.I.domain.table)), ('fixpoint_iterations', r.I.domain.iters), ('abstract_steps', r.I.steps), ('tree_unfoldings', r.I.domain.configs), ('outcomes', len(r.outs))):
        rep.stats[k] = rep.stats.get(k, 0) + v


def each(rep, P, what, check, keep=lambda fn, spec: True, floor=0):
    """check(Out, spec) -> (verdict, detail); one obligation per operation x presence x outcome kind"""
    runs = [x for x in all_runs(P) if keep(x[0], x[2])]
    rep.floor('operations analysed', len({x[0] for x in runs}), floor)
    for fn, h, spec, r in runs:
        key = '%s:%s' % (base_name(fn), occ(h).replace(' ', '-'))
        account(rep, r)
        n = undecided_of(rep, r, key, what); bad = None; und = None
        for o in r.outs:
            try: v, d = check(o, spec)
            except Undecided as u: v, d = None, u.why
            except (Fork, Infeasible): continue
            if v is False and bad is None: bad = (o, d)
            if v is None and und is None: und = (o, d)
        if bad: rep.bad(key, what, where(P, fn), '%s: %s; path: %s' % (occ(h), bad[1], bad[0].path()))
        elif und: rep.undecided(key, what, where(P, fn), '%s; path: %s' % (und[1], und[0].path()))
        elif not r.outs and not n: rep.bad(key + ':returns', 'the operation can return', where(P, fn), 'no path returns (%s)' % occ(h))
        elif not n: rep.ok(key, what + ' (%d abstract outcomes)' % len(r.outs), where(P, fn))
        yield fn, h, r, key


def issue_rows(rep, P, runs, kinds, what):
    seen = set()
    for fn, h, r, key in runs:
        if r.I is None: continue
        for (kind, f, msg), (at, path) in r.I.domain.issues.items():
            if kind in kinds and (kind, f, msg) not in seen:
                seen.add((kind, f, msg))
                rep.bad('%s:%s:%s' % (kind, shortfn(f), msg[:40]), what, where(P, f) if f in P.fns else f, '%s (found while analysing %s, %s) at %s; path: %s' % (msg, base_name(fn), occ(h), at, ' > '.join(map(str, path))))


def fresh_after(o, spec):
    if o.root is None: return True, ''
    if o.root == ('bad',): return None, 'root pointer not recognised'
    if o.Ew: return False, 'a value was changed through a pointer to its node without refreshing the hashes above it'
    if o.pat[0] == 'V' and o.pat[3] == 'f': return True, ''
    if o.pat[0] == 'X': return None, 'shape'
    ok = o.D.deepfresh(o.s, o.root)
    if ok: return True, ''
    return False, 'after the operation a stored hash no longer covers the contents below it (%s)' % stale_where(o)


def prefix_fresh(rep, P):
    # prefix modification works on key classes instead of a total order
    import witness as W
    fn = W.pick(P, rep, R, 'modify_max_with_prefix')
    if fn:
        def go():
            I, res = explore(P, fn, prefix_ctx(W.qterms(P, fn)[0]))
            rep.fns |= I.visited; S = I.shape
            bad = None
            for (oc, s, v, args, roots) in res:
                eff, fresh = s.tree.get(('eff', roots[0]), ((), True))
                if roots[0] in s.mem:
                    for n in I.domain.below(s, roots[0]):
                        f = s.mem[n][3]
                        if I.domain.nh(s, f[S.H]) != I.domain.nh(s, I.domain.truehash(s, n, True)): fresh = False
                if not fresh and bad is None: bad = show_path(s)
            rep.expect(bad is None, 'modify_max_with_prefix', 'all stored hashes cover the contents after the operation', where(P, fn), 'a stored hash is stale on path: %s' % bad)
        guarded(rep, 'modify_max_with_prefix', 'hashes fresh', where(P, fn), go)


def c01(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'After every operation the stored hash of every node that was touched, down to the untouched subtrees, must equal the hash term of what it now holds.')
    rep.assume += ASSUME + ['SHA-256 and value hashes are uninterpreted functions', 'values changed through an escaped mutable reference are the subject of C12']
    runs = list(each(rep, P, 'all stored hashes cover the contents after the operation', fresh_after, floor=18))
    prefix_fresh(rep, P)
    writers(rep, P, runs)


def stale_where(o):
    def f(x):
        if x is None or x == ('bad',): return None
        if x not in o.s.mem: return None if o.s.tree[x][2] == 'f' else 'a subtree left stale by a callee'
        for s in 'lr':
            r = f(o.D.kidof(o.s, x, s))
            if r: return r
        return None if o.D.fresh(o.s, x) else 'node ' + show(x)
    return f(o.root) or 'root'


def writers(rep, P, runs):
    """every function that writes a field of a node or of the tree was part of an analysed operation"""
    S = Shape(P)
    seen = set()
    for fn, h, r, key in runs:
        if r.I: seen |= r.I.visited
    ok = 0
    for f, d in P.fns.items():
        if not d.get('body'): continue
        w = writes_owned(d['body'], (S.node, S.map))
        if not w: continue
        if f in seen or any(f.startswith(x + '::{') for x in seen): ok += 1
        elif f in rep.fns: ok += 1
        else: rep.undecided('writer:' + shortfn(f), 'every function that writes tree fields is analysed', where(P, f), 'writes %s but is not reached from an analysed operation' % w)
    rep.floor('functions writing tree fields', ok, 6)
    rep.ok('writers', '%d functions write node or tree fields, all inside analysed operations' % ok)


def writes_owned(body, adts):
    """name of a field of one of the types written through a projection"""
    for b in body['bbs']:
        if b['cleanup']: continue
        for s in b['s']:
            if s['s'] == '=' and len(s['p']) > 1:
                ty = body['locals'][s['p'][0]]['ty']
                for e in s['p'][1:]:
                    if e == '*': ty = ty.get('t') or {}
                    elif isinstance(e, (list, dict)) or isinstance(e, int):
                        if ty.get('n') in adts: return ty['n']
                        break
    return None


def c07(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'The tree left behind must be empty or have a black root over an equal-black-height, left-leaning arrangement without two reds in a row.')
    rep.assume += ASSUME
    def chk(o, spec):
        p = o.pat
        if p == ('0',): return True, ''
        if p[0] == 'X': return (None if p[1] in ('link', 'depth') else False), 'the tree left behind is not balanced (%s)' % p[1]
        if p[0] == 'V':
            if 'R' in p[1]: return False, 'the root is red'
            if '0' in p[1] and set(p[1]) - {'0', '2', '3'}: return False, 'root shape %s' % (p[1],)
            return True, ''
        return shape_fault(o, p)
    runs = list(each(rep, P, 'the tree is a valid left-leaning red-black tree after the operation', chk, floor=18))
    issue_rows(rep, P, runs, ('shape',), 'rebalancing re-establishes the red-black shape')


def shape_fault(o, p):
    """explains why an unfolded pattern is no valid tree (ignoring hashes)"""
    p2 = o.D.pattern1(o.s, o.root, (), True)
    if p2[0] == 'V': return ('R' not in p2[1]), 'the root is red'
    def red(q): return q[0] == 'N' and q[1] == 'R' or q[0] == 'V' and set(q[1]) == {'R'}
    def mayred(q): return q[0] == 'N' and q[1] == 'R' or q[0] == 'V' and 'R' in q[1]
    def go(q, top=False):
        if q[0] != 'N': return None
        if top and q[1] == 'R': return 'the root is red'
        l, r = q[3], q[4]
        if mayred(r): return 'a red right child'
        if q[1] == 'R' and mayred(l): return 'two red nodes in a row'
        ol = l[2] if l[0] != '0' else None; orr = r[2] if r[0] != '0' else None
        if ol is not None and orr is not None and ol != orr: return 'unequal black heights'
        return go(l) or go(r)
    return False, 'the tree left behind has ' + (go(p2, True) or 'an invalid arrangement')


def lenbase(v):
    k = 0
    while v[0] == 't' and v[1] == 'lin': k += v[3]; v = v[2]
    return v, k


def c08(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'The length field must change by exactly the number of entries that were added or removed on that path, and the length queries must report it.')
    rep.assume += ASSUME + ['fewer than usize::MAX entries']
    def chk(o, spec):
        want = spec[2] if spec else None
        if want is None:
            want = 0 if o.P == o.S or o.len == o.I.len0 else {'ins': 1, 'dE': -1}.get(o.D.mods_of(o.s, o.S, o.P)[0])
            if want is None: return None, 'content change not recognised'
        if want == 'zero':
            if o.S == () and o.len == o.I.len0: return True, ''      # nothing to clear
            return o.len == ('i', 0), 'length is %s after clearing' % show(o.len)
        b, k = lenbase(o.len)
        b0, k0 = lenbase(o.I.len0)
        if b != b0: return (False if b[0] == 'i' else None), 'length becomes %s' % show(o.len)
        return k - k0 == want, 'length changes by %d, entries by %d' % (k - k0, want)
    runs = list(each(rep, P, 'the length changes with the number of entries', chk, floor=18))
    for own in (R, M_):
        for n in ('len', 'is_empty'):
            fn = own + n
            if fn not in P.fns: rep.bad('anchor:' + shortfn(fn), 'public method exists'); continue
            r = Run(P, fn, None, None); account(rep, r)
            key = shortfn(fn)
            if undecided_of(rep, r, key, 'length query'): continue
            bad = None
            for o in r.outs:
                if n == 'len':
                    if o.v != o.I.len0: bad = 'returns %s' % show(o.v)
                else:
                    wl = [o.s]
                    e = o.pat == ('0',)
                    lenzero = ('t', 'cmpop', 'Eq', o.I.len0, ('i', 0))
                    if o.v == boolv(e): continue
                    if has_term(o.v, lambda x: x == o.I.len0): continue
                    if o.pat[0] == 'V' and '0' in o.pat[1]: bad = 'does not depend on the contents: %s' % show(o.v)
                    elif o.v in (boolv(True), boolv(False)): bad = 'returns %s for %s' % (show(o.v), 'an empty map' if e else 'a non-empty map')
            rep.expect(bad is None and r.outs, key, '%s reports what the map holds' % n, where(P, fn), bad)
    for fn, label in ((R + 'new', 'RbTree::new'), (M_ + 'new', 'Map::new'), (trait_fn(P, 'Default', 'rbtree::RbTree', 'default'), 'RbTree::default'), (trait_fn(P, 'Default', 'collections::map::Map', 'default'), 'Map::default')):
        if not fn or fn not in P.fns: continue
        def go():
            I = TM(P, None, None); I.domain.hasE0 = None
            st = State()
            st.tree['n'] = (0, None); st.tree['seq'] = (); st.tree['hasE'] = None; st.tree['base'] = '?'
            outs = evaluate_all(I, fn, [], st); rep.fns |= I.visited
            for s, v in outs:
                while v[0] == 'adt' and v[1] != I.shape.map and len(v[3]) == 1: v = v[3][0]
                ok = v[0] == 'adt' and v[1] == I.shape.map and v[3][I.shape.ROOT] == NULL and v[3][I.shape.LEN] == ('i', 0)
                rep.expect(ok, 'new:' + label, 'a new map is empty with length zero', where(P, fn), show(v))
        guarded(rep, 'new:' + label, 'a new map is empty', where(P, fn), go)
    try:
        import iterate
        iterate.c08_iter(rep, P)
    except ImportError: pass


def c06(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'The in-order content word after the operation, and the returned value, are compared with the ordered-map specification (present and absent key separately).')
    rep.assume += ASSUME
    def chk(o, spec):
        c = content_verdict(o, spec[0])
        if c is False: return False, 'contents become %s, were %s' % ([show(x) for x in o.P], [show(x) for x in o.S])
        r = spec[1](o, None) if spec[1] else True
        if r is False: return False, 'returns %s%s' % (show(o.v), ', calls %s' % [show(x) for x in calls(o)] if calls(o) else '')
        if c is None: return None, 'contents not recognised: %s' % [show(x) for x in o.P]
        if r is None: return None, 'result not recognised: ' + show(o.v)[:200]
        return True, ''
    runs = list(each(rep, P, 'behaves as the ordered map specification says', chk, keep=lambda fn, spec: spec is not None and not fn.startswith(EN), floor=11))
    issue_rows(rep, P, runs, ('order',), 'keys stay in order')
    for own, names in ((R, ('insert', 'delete', 'modify', 'get')), (M_, ('insert', 'remove', 'remove_entry', 'get', 'get_mut', 'clear'))):
        for n in names:
            if own + n not in P.fns: rep.bad('anchor:' + shortfn(own + n), 'public method exists')
    # collecting and decoding are repeated insertion
    import codec
    inner = next((i for i, f in enumerate(P.adts[codec.MAP]['variants'][0]['fields']) if f['ty'].get('n') == codec.TREE), None)
    if inner is None: rep.undecided('layout', 'the map wraps the tree', codec.MAP, 'no field of type RbTree')
    else:
        rep.rule.append('A map built from an iterator or a decoder is the fold of RbTree::insert over everything supplied, starting empty (loops as folds).')
        n = codec.built(rep, P, codec.visitors(P), codec.layout(P), inner, (codec.MAP,), 'built:')
        rep.floor('builders of maps', n, 2)
    # lookup by comparator: the caller's ordering stands for the key
    import witness as W
    fn = W.pick(P, rep, R, 'get_with')
    if fn:
        c = cmp_ctx(arg_names(P, fn)[1])
        W.table_check(rep, P, fn, 'get_with', c, lambda o: ('value', 1, None) if 1 in o else None, 'lookup by comparator finds the entry the comparator calls equal')


def c23(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'Each entry method is interpreted on the result of entry(key), for a present and an absent key, and content and result are compared with the specification.')
    rep.assume += ASSUME
    def chk(o, spec):
        c = content_verdict(o, spec[0])
        if c is False: return False, 'contents become %s, were %s' % ([show(x) for x in o.P], [show(x) for x in o.S])
        r = spec[1](o, None) if spec[1] else True
        if r is False: return False, 'returns %s%s' % (show(o.v), ', calls %s' % [show(x) for x in calls(o)] if calls(o) else '')
        if c is None: return None, 'contents not recognised: %s' % [show(x) for x in o.P]
        if r is None: return None, 'result not recognised: ' + show(o.v)[:200]
        if o.Ew or o.pat[0] == 'V' and o.pat[3] != 'f': return False, 'a stored hash is stale afterwards'
        return True, ''
    list(each(rep, P, 'entry operation acts on exactly the entry of its key', chk, keep=lambda fn, spec: spec is not None and fn.startswith(EN), floor=14))
    # entry(key) itself
    for own in (R, M_):
        fn = own + 'entry'
        if fn not in P.fns: rep.bad('anchor:' + shortfn(fn), 'public method exists'); continue
        for f, h, spec, r in all_runs(P):
            if f != fn: continue
            key = '%s:%s' % (shortfn(fn), occ(h).replace(' ', '-'))
            if undecided_of(rep, r, key, 'entry lookup'): continue
            bad = None
            for o in r.outs:
                v = entry_same(o, 'OccupiedEntry' if h else 'VacantEntry')
                if v is not True and bad is None: bad = (v, show(o.v), o.path())
            if bad and bad[0] is False: rep.bad(key, 'entry(key) is occupied exactly when the key is present, and refers to its node', where(P, fn), '%s; path: %s' % bad[1:])
            elif bad: rep.undecided(key, 'entry(key)', where(P, fn), bad[1])
            else: rep.ok(key, 'entry(key) is %s' % ('occupied by the node of the key' if h else 'vacant'), where(P, fn))


MEM = ('null-deref', 'use-after-free', 'double-free', 'leak', 'stale-pointer')


def c10(rep, ctx):
    P = ctx.prog()
    rep.rule.append(AIRULE + 'Every node allocated or present before is afterwards either linked exactly once or freed exactly once; nothing freed is read, written or linked.')
    rep.assume += ASSUME + ['moves of keys and values in safe code are dropped by the compiler exactly once']
    def chk(o, spec):
        if o.root == ('bad',): return None, 'root pointer not recognised'
        acc = {'set': [], 'bad': []}
        o.D.reach(o.s, o.root, acc)
        if acc['bad']: return False, acc['bad'][0]
        miss = [x for x in o.D.live(o.s) if x not in acc['set']]
        if miss: return False, 'a node is neither linked nor freed (%s)' % show(miss[0])
        if o.s.tree.get('bitcopy'): return None, 'raw copies of values'
        return True, ''
    runs = list(each(rep, P, 'every node is linked once or freed once', chk, floor=18))
    seen = set()
    for fn, h, r, key in runs:
        if not r.I: continue
        for b in r.I.bads:
            k = '%s:%s' % (b.rule, shortfn(getattr(b, 'fn', fn)))
            if k in seen: continue
            seen.add(k)
            rep.bad(k, 'no invalid access to tree memory', where(P, getattr(b, 'fn', fn)), '%s at %s (analysing %s); path: %s' % (b.msg, b.at, base_name(fn), show_path(b.st) if b.st else ''))
    issue_rows(rep, P, runs, ('leak', 'link'), 'every node is linked once or freed once')
    # dropping the map
    S = Shape(P)
    drops = [im['items'][0] for im in P.impls if im['trait'] == 'std::ops::Drop' and im['self'].get('n') == S.map and im['items']]
    if not drops: rep.bad('drop', 'the tree frees its nodes when dropped', S.map, 'the type owning the nodes has no Drop implementation'); return
    fn = drops[0]
    r = Run(P, fn, None, None); account(rep, r)
    if undecided_of(rep, r, 'drop', 'dropping frees every node'): return
    bad = None
    for o in r.outs:
        live = o.D.live(o.s)
        if live and bad is None: bad = 'a node survives the drop of the map (%s); path: %s' % (show(live[0]), o.path())
    for b in r.I.bads: bad = bad or '%s at %s' % (b.msg, b.at)
    for (kind, f, msg), (at, path) in r.I.domain.issues.items():
        if kind in ('leak', 'link'): bad = bad or msg
    rep.expect(bad is None and r.outs, 'drop', 'dropping the map frees every node exactly once', where(P, fn), bad)
