"""C24: nothing that feeds a hash, a label or a witness depends on addresses, time, randomness, threads, global state or hash-map order.

A taint analysis over the MIR of every function: forward dataflow per body (locals, with references resolved to the local they borrow),
relational summaries per function (result / out-parameters / fields / sinks from parameters), field-based heap, explicit flows for the
order of hash maps and explicit plus implicit flows (control dependence) for everything else."""
import re
from core import *
from models import M
from base import A
from sigs import where, short
from sigs import strip

UNORD = ('HashMap', 'HashSet', 'hash_map', 'hash_set', 'BTreeMap', 'BTreeSet', 'BinaryHeap', 'btree_map', 'btree_set')
ORDERED_OK = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::BTreeMap', 'std::collections::BTreeSet', 'std::collections::BinaryHeap')
HASHC = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map::HashMap', 'std::collections::hash_set::HashSet', 'hashbrown::HashMap', 'hashbrown::HashSet')
WRITE_ONCE = ('OnceLock', 'LazyLock', 'OnceCell', 'LazyCell', 'std::sync::Once')
POINT = ('Entry', 'OccupiedEntry', 'VacantEntry', 'RandomState', 'DefaultHasher', 'HashMap', 'HashSet', 'OccupiedError', 'RawEntryMut')
COMM = ('count', 'len', 'any', 'all', 'sum', 'product', 'max', 'min', 'is_empty', 'size_hint', 'contains', 'eq')


def tys(t, f):
    """does any component of the type satisfy f"""
    if not isinstance(t, dict): return False
    if f(t): return True
    for k in ('t', 'r', 'o'):
        if isinstance(t.get(k), dict) and tys(t[k], f): return True
    for x in t.get('a') or ():
        if tys(x, f): return True
    return False


def is_hash_iter(t):
    if t.get('k') != 'adt': return False
    n = t.get('n', '')
    m = re.match(r'(?:std::collections|hashbrown)::(?:hash::)?(?:hash_map|hash_set|map|set)::(\w+)$', n)
    return bool(m) and m.group(1) not in POINT


def is_hashc(t): return t.get('k') == 'adt' and t.get('n') in HASHC
def peel(t):
    while isinstance(t, dict) and (t.get('k') in ('ref', 'ptr') or t.get('n') == 'std::boxed::Box'):
        t = t.get('t') or (t.get('a') or [None])[0]
    return t or {}
def ptrty(t): return t.get('k') in ('ptr', 'fnptr', 'fndef') or t.get('n') in ('std::ptr::NonNull', 'std::ptr::Unique')


class Taint(frozenset):
    """set of ('param', i) and (kind, at, what)"""
    __slots__ = ()
    def __or__(self, o): return Taint(frozenset.__or__(self, o))
    def only(self, f): return Taint(x for x in self if f(x))
    def strong(self): return Taint(x for x in self if x[0] not in ('order', 'pick'))
    def noorder(self): return Taint(x for x in self if x[0] != 'order')


NO = Taint()


class Sum:
    def __init__(self): self.ret = NO; self.out = {}; self.fields = {}; self.sinks = {}; self.effects = set()
    def snap(self): return (self.ret, tuple(sorted((k, v) for k, v in self.out.items())) if False else repr(sorted(self.out)), sum(map(len, self.out.values())), sum(map(len, self.fields.values())), sum(map(len, self.sinks.values())), len(self.effects))


class Analysis:
    def __init__(self, P):
        self.P = P; self.I = A(P); self.sums = {}; self.heap = {}; self.sources = {}; self.nsinks = {}
        self.labelres = set(); self.hashimpl = set()
        for fn, f in P.fns.items(): self.sums[fn] = Sum()

    # -------------------------------------------------- types of places
    def ptype(self, b, pl):
        t = b['locals'][pl[0]]['ty']
        for e in pl[1:]:
            try: t = self.I.pty(t, e)
            except Exception: return None
            if t is None: return None
        return t

    def oty(self, b, o):
        if 'const' in o: return o['const'].get('ty') or {'k': 'fndef'} if 'fn' not in o['const'] else {'k': 'fndef'}
        return self.ptype(b, o.get('copy') or o.get('move'))

    def fieldsof(self, b, pl):
        """(adt, field index) of local ADTs the place goes through"""
        out = []; t = b['locals'][pl[0]]['ty']
        for e in pl[1:]:
            if isinstance(e, dict) and 'f' in e and t and t.get('k') == 'adt':
                ad = self.P.adts.get(t.get('n'))
                if ad and ad.get('local'): out.append((t['n'], t.get('variant', 0) if isinstance(t.get('variant', 0), int) else 0, e['f']))
            try: t = self.I.pty(t, e)
            except Exception: t = None
            if t is None: break
        return out

    # -------------------------------------------------- sources
    def const_source(self, c, at):
        s = c.get('static')
        if s and (s['mut'] or s['tls'] or not s['freeze']):
            t = c.get('ty') or {}
            if not tys(t, lambda x: any(w in x.get('n', '') for w in WRITE_ONCE)):
                return self.src('global', at, 'mutable static ' + s['n'])
        if tys(c.get('ty') or {}, lambda x: x.get('n', '').startswith('std::thread::LocalKey')): return self.src('global', at, 'thread-local ' + c.get('c', ''))
        return NO

    def src(self, kind, at, what):
        x = (kind, self.cur[0], at, what)
        self.sources[x] = 1
        return Taint([x])

    def call_source(self, p, name, args, tyargs, b, at, selfty):
        ts = [self.oty(b, a) or {} for a in args]
        if re.search(r'(^|::|<)std::time::(Instant|SystemTime)', p) and name in ('now', 'elapsed'): return self.src('time', at, p)
        if p.startswith(('std::thread::', 'std::process::', 'std::env::', 'std::fs::', 'std::net::', 'std::io::stdin')) or 'std::thread::Thread' in p:
            if name not in ('with', 'panicking', 'abort', 'exit'): return self.src('environment', at, p)
        if re.match(r'<?(rand|getrandom|fastrand)(_core)?::', p): return self.src('random', at, p)
        if 'RandomState' in p and name == 'new': return self.src('random', at, p)
        if name in ('build_hasher', 'hash_one') and any(tys(t, lambda x: 'RandomState' in x.get('n', '')) for t in ts): return self.src('random', at, p)
        if name in ('strong_count', 'weak_count'): return self.src('sharing', at, p)
        if name in ('addr', 'expose_provenance', 'expose_addr', 'align_offset') and ('_ptr::' in p or 'NonNull' in p): return self.src('address', at, p)
        if name in ('transmute', 'transmute_copy') and any(ptrty(t) or t.get('k') == 'ref' for t in ts) and tyargs and (tyargs[-1] or {}).get('k') in ('int', 'array', 'uint'): return self.src('address', at, p)
        if name in ('lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'max', 'min', 'hash') and re.search(r'cmp::|hash::', p):
            s = selfty
            if s and ptrty(s): return self.src('address', at, '%s of pointers' % name)
        if 'fmt::Pointer' in p or name == 'new_pointer' and 'fmt' in p: return self.src('address', at, p)
        return NO

    # -------------------------------------------------- one body
    def body(self, fn):
        f = self.P.fns[fn]; b = f.get('body'); S = self.sums[fn]
        if not b: return
        bbs = b['bbs']; n = len(bbs)
        succ = [self.succs(x['t']) if not x.get('cleanup') else [] for x in bbs]
        # blocks that reach a return
        live = set(i for i, x in enumerate(bbs) if x['t']['t'] == 'return')
        ch = True
        while ch:
            ch = False
            for i in range(n):
                if i not in live and any(s in live for s in succ[i]): live.add(i); ch = True
        succ = [[s for s in ss if s in live] for ss in succ]
        pdom = self.postdom(n, succ, bbs, live)
        refs = self.borrows(b, bbs)
        narg = b['argc']
        start = {i: Taint([('param', i - 1)]) for i in range(1, narg + 1)}
        ins = {0: start}; ctrl = {}
        todo = [0]; it = 0
        while todo:
            i = todo.pop(0); it += 1
            if it > 4000: break
            st = dict(ins.get(i, {}))
            c = ctrl.get(i, NO)
            self.cur = (fn, f, b, S, refs, c)
            for s in bbs[i]['s']:
                if s['s'] == '=': self.assign(st, s['p'], self.rvalue(st, s['r'], s['at']), s['at'])
            t = bbs[i]['t']
            if t['t'] == 'call': self.call(st, t)
            elif t['t'] == 'switch':
                tt = self.operand(st, t['o'], t['at']).strong()
                tt = tt | c
                if tt and len(succ[i]) > 1:
                    for r in self.region(i, succ, pdom):
                        new = ctrl.get(r, NO) | tt
                        if new != ctrl.get(r, NO):
                            ctrl[r] = new
                            if r in ins and r not in todo: todo.append(r)
            elif t['t'] == 'return':
                S.ret = S.ret | st.get(0, NO)
                for k in range(1, narg + 1):
                    v = st.get(('m', k), NO)
                    if v: S.out[k - 1] = S.out.get(k - 1, NO) | v
            for j in succ[i]:
                old = ins.get(j); new = dict(old or {})
                for k, v in st.items():
                    if v: new[k] = new.get(k, NO) | v
                if old is None or new != old:
                    ins[j] = new
                    if j not in todo: todo.append(j)

    def succs(self, t):
        k = t['t']
        if k == 'switch': return [x[1] for x in t['c']] + [t['else']]
        return [t['to']] if t.get('to') is not None else []

    def postdom(self, n, succ, bbs, live):
        full = set(live); pd = {i: set(full) for i in live}
        for i in live:
            if bbs[i]['t']['t'] == 'return': pd[i] = {i}
        ch = True
        while ch:
            ch = False
            for i in live:
                if bbs[i]['t']['t'] == 'return': continue
                s = [pd[j] for j in succ[i]]
                new = ({i} | set.intersection(*s)) if s else {i}
                if new != pd[i]: pd[i] = new; ch = True
        return pd

    def region(self, i, succ, pdom):
        stop = pdom.get(i, set()) - {i}; seen = set(); todo = list(succ[i])
        while todo:
            x = todo.pop()
            if x in seen or x in stop: continue
            seen.add(x); todo += succ[x]
        return seen

    def borrows(self, b, bbs):
        """local -> locals whose storage it (transitively) refers to"""
        d = {}
        def add(x, y):
            s = d.setdefault(x, set())
            m = len(s); s |= y; return len(s) != m
        ch = True; rounds = 0
        while ch and rounds < 30:
            ch = False; rounds += 1
            for bb in bbs:
                if bb.get('cleanup'): continue
                for s in bb['s']:
                    if s['s'] != '=': continue
                    r = s['r']; p = s['p'][0]; src = set()
                    if r['r'] in ('ref', 'addr'):
                        q = r['p']
                        if '*' in q[1:]: src = d.get(q[0], set()) | {('m', q[0])}
                        else: src = {q[0]}
                    else:
                        for o in self.ops(r):
                            q = o.get('copy') or o.get('move')
                            if q: src |= d.get(q[0], set())
                            if q and self.isref(b, q): src |= {('m', q[0])}
                    if src and add(p, src): ch = True
                t = bb['t']
                if t['t'] == 'call':
                    dt = b['locals'][t['d'][0]]['ty'] if t.get('d') else {}
                    if tys(dt, lambda x: x.get('k') in ('ref', 'ptr') or x.get('r') or x.get('k') == 'adt'):
                        src = set()
                        for a in t['args']:
                            q = a.get('copy') or a.get('move')
                            if q:
                                src |= d.get(q[0], set())
                                if self.isref(b, q): src |= {('m', q[0])}
                        if src and add(t['d'][0], src): ch = True
        return d

    def isref(self, b, q):
        t = b['locals'][q[0]]['ty']
        return t.get('k') in ('ref', 'ptr')

    def ops(self, r):
        k = r['r']
        if k in ('use', 'cast', 'un', 'repeat'): return [r['o']]
        if k == 'bin': return [r['a'], r['b']]
        if k == 'agg': return r['ops']
        return []

    # reading
    def place(self, st, pl, at):
        fn, f, b, S, refs, c = self.cur
        t = st.get(pl[0], NO)
        if '*' in pl[1:]:
            for x in refs.get(pl[0], ()): t = t | st.get(x, NO)
            t = t | st.get(('m', pl[0]), NO)
        for k in self.fieldsof(b, pl): t = t | self.heap.get(k, NO)
        ty = self.ptype(b, pl)
        if ty and ty.get('k') in ('int', 'bool') and False: pass
        return t

    def operand(self, st, o, at):
        if 'const' in o: return self.const_source(o['const'], at)
        return self.place(st, o.get('copy') or o.get('move'), at)

    def rvalue(self, st, r, at):
        fn, f, b, S, refs, c = self.cur
        k = r['r']
        if k in ('ref', 'addr', 'discr'):
            t = self.place(st, r['p'], at)
            return t
        if k == 'bin':
            t = self.operand(st, r['a'], at) | self.operand(st, r['b'], at)
            ta, tb = self.oty(b, r['a']) or {}, self.oty(b, r['b']) or {}
            if r['k'] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Sub') and (ptrty(ta) or ptrty(tb)): t = t | self.src('address', at, 'comparison of pointers')
            if r['k'] in ('Eq', 'Ne') and self.pureaddr(r['a']) and self.pureaddr(r['b']): t = t.only(lambda x: x[0] != 'address')
            return t
        if k == 'cast':
            t = self.operand(st, r['o'], at); tt = self.oty(b, r['o']) or {}
            if 'Expose' in (r.get('k') or ''): t = t | self.src('address', at, 'address of a pointer as integer')
            if 'Transmute' in (r.get('k') or '') and (ptrty(tt) or tt.get('k') == 'ref') and r['t'].get('k') in ('int', 'array'): t = t | self.src('address', at, 'address of a pointer as bytes')
            return t
        if k == '?':
            if 'ThreadLocalRef' in r.get('s', ''): return self.src('global', at, 'thread-local static')
            return NO
        t = NO
        for o in self.ops(r): t = t | self.operand(st, o, at)
        if k == 'agg' and r['k'].get('k') == 'adt':
            n = r['k']['n']
            if n == 'hashtree::HashTree' and t: self.sink('a hash tree is built', t | c, at)
            ad = self.P.adts.get(n)
            if ad and ad.get('local'):
                for i, o in enumerate(r['ops']):
                    x = self.operand(st, o, at) | c
                    if x: self.store((n, r['k'].get('v', 0), i), x)
        return t

    def pureaddr(self, o):
        """constant, or a local that only ever holds a bare address"""
        if 'const' in o: return True
        b = self.cur[2]; q = o.get('copy') or o.get('move')
        if len(q) != 1: return False
        defs = [s['r'] for bb in b['bbs'] for s in bb['s'] if s['s'] == '=' and s['p'] == q]
        calls = [bb['t'] for bb in b['bbs'] if bb['t']['t'] == 'call' and bb['t'].get('d') == q]
        if calls: return all((c['f'].get('const', {}).get('fn') or {}).get('name') in ('addr', 'expose_provenance', 'as_ptr') for c in calls) and not defs
        return bool(defs) and all(d['r'] == 'cast' and 'Expose' in (d.get('k') or '') or d['r'] == 'use' and self.pureaddr(d['o']) for d in defs)

    # writing
    def store(self, key, t):
        S = self.cur[3]; S.effects.add(key)
        conc = t.only(lambda x: x[0] != 'param')
        if conc - self.heap.get(key, NO): self.heap[key] = self.heap.get(key, NO) | conc; self.changed = True
        par = t.only(lambda x: x[0] == 'param')
        if par: S.fields[key] = S.fields.get(key, NO) | par

    def settype(self, ty, t):
        """order does not matter inside keyed or sorted containers"""
        q = peel(ty or {})
        return t.noorder() if q.get('n') in ORDERED_OK or q.get('n', '').startswith('std::collections::') and q.get('n').split('::')[-1] in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap') else t

    def assign(self, st, pl, t, at):
        fn, f, b, S, refs, c = self.cur
        t = t | c
        if len(pl) == 1: st[pl[0]] = t; return
        ks = self.fieldsof(b, pl)
        if ks: self.store(ks[-1], t)
        if '*' in pl[1:]:
            st[('m', pl[0])] = st.get(('m', pl[0]), NO) | t
            for x in refs.get(pl[0], ()): st[x] = st.get(x, NO) | t
        else: st[pl[0]] = st.get(pl[0], NO) | t

    def sink(self, what, t, at):
        fn, f, b, S, refs, c = self.cur
        self.nsinks.setdefault((fn, what), 0)
        for x in t:
            S.sinks.setdefault(x, {}).setdefault((fn, what, at), 1)

    # calls
    def call(self, st, t):
        fn, f, b, S, refs, c = self.cur
        at = t['at']; fo = t['f'].get('const', {}).get('fn') or {}
        p = fo.get('full') or fo.get('p') or ''; base = fo.get('p') or ''; name = fo.get('name') or ''
        args = t['args']; at_ = [self.operand(st, a, at) for a in args]
        aty = [self.oty(b, a) or {} for a in args]
        dty = b['locals'][t['d'][0]]['ty'] if t.get('d') else {}
        selfty = None
        tya = [x for x in fo.get('a') or () if isinstance(x, dict)]
        if fo.get('trait'): selfty = (tya or [None])[0]
        elif re.match(r'std::ptr::(const_ptr|mut_ptr)::<impl', base): selfty = {'k': 'ptr'}
        if not fo:   # call through a function value
            at_ = at_ + [self.operand(st, t['f'], at)]
        src = self.call_source(base, name, args, tya, b, at, selfty)
        callee = self.P.resolve(fo) if fo else None
        res = src
        # unordered traversal
        def unord(ty): return tys(ty, is_hash_iter)
        order = NO
        if any(unord(x) for x in aty) or name in ('extend', 'from_iter', 'serialize', 'collect_seq', 'collect_map') and any(is_hashc(peel(x)) for x in aty[(0 if name == 'from_iter' else 1):]):
            if not unord(dty) and (name in ('nth', 'last') or name == 'next' and not self.oncycle(b, t)): order = self.src('pick', at, 'one element of a hash map or hash set (%s)' % name)
            elif not unord(dty) and name not in COMM: order = self.src('order', at, 'traversal of a hash map or hash set (%s)' % name)
        allt = src | order
        for x in at_: allt = allt | x
        if any(unord(x) for x in aty) and (name in COMM): allt = allt.noorder()
        if re.search(r'(^|[< ])(sha2|digest|crypto_common)::|::Digest(::|>)|digest::', p) and name in ('update', 'chain', 'chain_update', 'digest', 'finalize', 'new_with_prefix', 'finalize_into'):
            self.nsinks.setdefault((fn, 'a digest is fed'), 0)
            if allt | c: self.sink('a digest is fed', allt | c, at)
        closures = [x for x in aty if x.get('k') == 'closure']
        if callee and callee in self.sums:
            Q = self.sums[callee]
            def inst(tt):
                r = NO
                for x in tt:
                    if x[0] == 'param': r = r | (at_[x[1]] if x[1] < len(at_) else NO)
                    else: r = r | Taint([x])
                return r
            # an iterator over a hash map handed to a local function is consumed there
            if order: at_ = [x | order if unord(y) else x for x, y in zip(at_, aty)] + at_[len(aty):]
            res = res | inst(Q.ret)
            for x, d in list(Q.sinks.items()):
                if x[0] == 'param':
                    ta = inst([x])
                    for y in ta:
                        for k in d: S.sinks.setdefault(y, {}).setdefault(k, 1)
            for k, tt in list(Q.fields.items()):
                x = inst(tt)
                if x: self.store(k, x)
            if not Q.effects <= S.effects: S.effects |= Q.effects
            if c:
                for k in Q.effects: self.store(k, c)
                if any(True for _ in Q.sinks) or self.has_sink(callee): self.sink('a digest or hash tree is computed', c, at)
            for i, tt in list(Q.out.items()):
                x = inst(tt) - (at_[i] if i < len(at_) else NO)
                x = Taint(x)
                if x and i < len(args): self.taint_through(st, args[i], x)
        else:
            res = res | allt
            # closures handed to the library run on (parts of) the other arguments
            for cl in closures:
                Q = self.sums.get(cl['n'])
                if not Q: continue
                def inst2(tt):
                    r = NO
                    for x in tt: r = r | (allt if x[0] == 'param' else Taint([x]))
                    return r
                res = res | inst2(Q.ret)
                for x, d in list(Q.sinks.items()):
                    if x[0] == 'param':
                        for y in allt:
                            for k in d: S.sinks.setdefault(y, {}).setdefault(k, 1)
                for k, tt in list(Q.fields.items()):
                    x = inst2(tt)
                    if x: self.store(k, x)
                S.effects |= Q.effects
                for i, tt in list(Q.out.items()):
                    for a, ty in zip(args, aty):
                        if ty is cl:
                            x = inst2(tt)
                            if x: self.taint_through(st, a, x)
            # the library may write through unique borrows
            if name in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'):
                if args:
                    self.clear_order(st, args[0])
                    x = Taint(y for cl in closures for y in (self.sums[cl['n']].ret if cl['n'] in self.sums else ()) if y[0] not in ('param', 'order'))
                    x = x | src
                    if x: self.taint_through(st, args[0], x)
                res = res.noorder()
            else:
                for a, ty in zip(args, aty):
                    if ty.get('k') == 'ref' and ty.get('m') or ty.get('k') == 'ptr' and ty.get('m'):
                        q = a.get('copy') or a.get('move')
                        x = allt | c
                        if q: x = Taint(x - st.get(q[0], NO))
                        x = self.settype(ty, x)
                        if is_hash_iter(peel(ty)) or tys(ty, is_hash_iter): x = x.noorder()
                        if x: self.taint_through(st, a, x)
        res = self.settype(dty, res)
        if any(unord(x) for x in aty) and name in COMM: res = res.noorder()
        if t.get('d'): self.assign(st, t['d'], res, at)

    def oncycle(self, b, t):
        bbs = b['bbs']
        i = next(k for k, x in enumerate(bbs) if x['t'] is t)
        seen = set(); todo = self.succs(t)
        while todo:
            x = todo.pop()
            if x == i: return True
            if x in seen: continue
            seen.add(x); todo += self.succs(bbs[x]['t'])
        return False

    def has_sink(self, callee):
        return any(k[0] == callee for k in self.nsinks)

    def taint_through(self, st, a, x):
        fn, f, b, S, refs, c = self.cur
        q = a.get('copy') or a.get('move')
        if not q: return
        st[('m', q[0])] = st.get(('m', q[0]), NO) | x
        for y in refs.get(q[0], ()):
            loc = y[1] if isinstance(y, tuple) else y
            st[y] = st.get(y, NO) | self.settype(b['locals'][loc]['ty'], x)
        # fields of local structures that the reference was taken from
        for k in self.reffields(b, q[0]): self.store(k, x)

    def reffields(self, b, l):
        if not hasattr(self, '_rf'): self._rf = {}
        key = (id(b), l)
        if key in self._rf: return self._rf[key]
        out = set(); seen = set(); todo = [l]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for bb in b['bbs']:
                for s in bb['s']:
                    if s['s'] == '=' and s['p'] == [x]:
                        r = s['r']
                        if r['r'] in ('ref', 'addr'):
                            ks = self.fieldsof(b, r['p'])
                            if ks: out.add(ks[-1])
                            elif r['p'][0] != x: todo.append(r['p'][0])
                        elif r['r'] in ('use', 'cast'):
                            q = r['o'].get('copy') or r['o'].get('move')
                            if q:
                                ks = self.fieldsof(b, q)
                                if ks: out.add(ks[-1])
                                else: todo.append(q[0])
                t = bb['t']
                if t['t'] == 'call' and t.get('d') == [x]:
                    for a in t['args']:
                        q = a.get('copy') or a.get('move')
                        if q and self.isref(b, q): todo.append(q[0])
        self._rf[key] = out
        return out

    def clear_order(self, st, a):
        refs = self.cur[4]; q = a.get('copy') or a.get('move')
        if not q: return
        todo = [q[0], ('m', q[0])] + list(refs.get(q[0], ()))
        for y in todo:
            if y in st: st[y] = st[y].noorder()
            if isinstance(y, tuple) and y[1] in st: st[y[1]] = st[y[1]].noorder()

    def run(self):
        fns = [f for f in self.P.fns if self.P.fns[f].get('body')]
        for rnd in range(12):
            self.changed = False
            for fn in fns:
                before = self.sums[fn].snap()
                self.body(fn)
                if self.sums[fn].snap() != before: self.changed = True
            if not self.changed: break
        return rnd


def c24(rep, ctx):
    P = ctx.prog()
    rep.rule.append('A taint analysis over every function of the crate: values that depend on an address, the clock, the environment, randomness, mutable global state, reference counts or the '
                    'traversal order of a hash map must not reach a digest, a label, a hash tree, or the result of a function that returns one - directly, through parameters, results, fields and closures, '
                    'and (except for traversal order) through branches. Sorting, collecting into ordered or keyed containers and order-independent reductions remove the dependence on traversal order.')
    rep.assume += ['all replicas run the same build', 'traits of user types (Label, AsHashTree, Ord) are themselves deterministic', 'SHA-256 and the allocator do not influence contents', 'write-once statics (OnceLock, LazyLock) hold what their initialiser computes']
    an = Analysis(P)
    an.run()
    bodies = [f for f in P.fns if P.fns[f].get('body')]
    rep.fns |= set(bodies)
    def hashy(t): return tys(t, lambda x: x.get('n') == 'hashtree::HashTree' or x.get('k') == 'array' and x.get('t', {}).get('s') == 'u8' and '32' in x.get('s', ''))
    n_ret = 0; n_sink = 0; reach = {}
    for fn in bodies:
        f = P.fns[fn]; S = an.sums[fn]; b = f['body']
        out = b['locals'][0]['ty']
        why = None
        m = re.match(r'<.* as ([\w:]+)(<.*>)?>::(\w+)$', fn)
        if m and m.group(1).endswith('label::Label'): why = 'a label'
        elif m and m.group(1).endswith('as_hash_tree::AsHashTree'): why = 'a hash or hash tree'
        elif hashy(out): why = 'a hash or hash tree'
        if why:
            n_ret += 1
            bad = [x for x in S.ret if x[0] != 'param']
            for x in bad: reach.setdefault(x, []).append((0 if x[1] == fn else 2, '%s returned by %s (%s)' % (why, fn, f.get('span', ''))))
            if not bad: rep.ok('result:' + fn, '%s is returned that depends only on contents' % why, where(P, fn))
        mine = [k for k in an.nsinks if k[0] == fn]
        hits = [(x, k) for x, d in S.sinks.items() if x[0] != 'param' for k in d]
        if mine or hits:
            n_sink += 1
            for x, k in hits: reach.setdefault(x, []).append((1 if x[1] == fn else 3, 'the place where %s (%s in %s), called from %s' % (k[1], k[2], k[0], fn)))
            if not hits: rep.ok('sink:' + fn, 'everything that reaches a digest or hash tree from here depends only on contents', where(P, fn))
    for x, ws in sorted(reach.items()):
        rep.bad('source:%s:%s' % (x[0], x[1]), 'a value that differs between executions does not reach any hash, label or witness', '%s (%s)' % (x[1], x[2]), '%s (%s) reaches %s' % (x[3], x[0], '; '.join(w for _, w in sorted(ws)[:3])))
    rep.floor('functions returning hashes, labels or hash trees', n_ret, 120)
    rep.floor('functions feeding digests or hash trees', n_sink, 3)
    # the order of keys
    labels = [i for i in P.impls if i['trait'] == 'label::Label']
    for i in labels:
        t = i['self']
        rep.expect(not (t.get('k') == 'ptr' or t.get('n') in ('std::ptr::NonNull',) or t.get('k') == 'fnptr'), 'order:' + (t.get('n') or t.get('s') or ''), 'keys of this type are ordered by their contents, so the tree does not depend on addresses', i.get('at') or 'impl Label for ' + t.get('s', ''),
                   'the order of this key type is the order of addresses: the shape of the tree, and with it every hash, differs between executions')
    rep.floor('key types', len(labels), 50)
    rep.stats['nondeterministic_values'] = ['%s: %s in %s (%s)%s' % (x[0], x[3], x[1], x[2], '' if x in reach else ': confined') for x in sorted(an.sources)]
