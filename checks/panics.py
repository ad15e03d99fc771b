"""C25: no public operation panics on a valid collection."""
import re, importlib
import core
from core import *
import report, budget, mutate
from tree import isnode
from models import VEC

# the explorations of the other checks, by module
EXPLORE = [('mutate', 'c01'), ('mutate', 'c08'), ('mutate', 'c23'), ('witness', 'c03'), ('witness', 'c04'), ('witness', 'c05'), ('iterate', 'c09'), ('seqs', 'c17'), ('paged', 'c19'),
           ('codec', 'c18'), ('groups', 'c20'), ('gbuild', 'c21'), ('gtype', 'c22'), ('hashing', 'c13'), ('hashing', 'c14'), ('hashing', 'c15'), ('labels', 'c16')]
SITE = re.compile(r'(panicking::panic|panic_fmt|begin_panic|assert_failed|panicking::unreachable|Option::<T>::(unwrap|expect)|Result::<T, E>::(unwrap|expect|unwrap_err|expect_err)|ops::Index::index|ops::IndexMut::index_mut|'
                  r'::(split_at|split_at_mut|split_off|swap_remove|drain|copy_from_slice|clone_from_slice|chunks|chunks_exact|rotate_left|rotate_right|splice)$|RefCell::<T>::(borrow|borrow_mut)$|Vec::<T, A>::(remove|insert)$|slice::<impl \[T\]>::(swap|copy_within)$)')


def explore(P, names=EXPLORE, tier='quick', ops=True):
    UNTOLD.clear(); UNPROVEN.clear(); core.SOFT.clear(); core.PLOG = []; core.COVER = set(); core.SUBCHECK = subcheck; core.INDEXCHECK = index_panic
    class C:
        def prog(self, debug=False): return P
    C.tier = tier
    fns = set(); und = []
    try:
        for mod, fn in names:
            r = report.Report('C25:' + fn)
            n = len(core.PLOG)
            try: getattr(importlib.import_module(mod), fn)(r, C())
            except Exception as e: und.append((fn, repr(e)[:200]))
            tag(n, fn)
            und += [(fn, o['key'] + ': ' + str(o['detail'])[:160]) for o in r.obl if o['status'] == 'undecided']
            fns |= r.fns
        risky = leading_to(P, {x[0] for x in sites(P)})
        # public operations of the maps that none of them enters
        for f in sorted(P.fns) if ops else ():
            d = P.fns[f]
            if not f.startswith(('rbtree::RbTree::<', 'collections::map::Map::<')) or not d.get('reachable') or '{' in f or not d.get('ins') or not d.get('body') or (f, 0) in core.COVER or f not in risky: continue
            n = len(core.PLOG)
            try:
                with budget.limit(25): e = mutate.Run(P, f, None, None).err
                if e: und.append((f, repr(e)[:120]))
            except Exception as e: und.append((f, repr(e)[:120]))
            tag(n, 'map operation'); fns.add(f)
        return core.PLOG, core.COVER, fns, und
    finally: core.PLOG = core.COVER = core.SUBCHECK = core.INDEXCHECK = None


def tag(n, fn):
    for i in range(n, len(core.PLOG)): core.PLOG[i] = core.PLOG[i] + (fn,)


# ------------------------------------------------------------------ counters
UNTOLD = {}          # arithmetic and index constructs of which no statement is possible: place -> why


def soft(*ts): return any(x in core.SOFT for t in ts for x in terms(t)) or any(t in core.SOFT for t in ts)


def untold(I, why): UNTOLD.setdefault(I.at, why)


def subcheck(I, st, v, t):
    """does the arithmetic stay in range (True also when it cannot be told)"""
    _, _, o, a, b = v
    if o != 'Sub': return True
    if a[0] == 'i' and b[0] == 'i': return a[1] >= b[1]
    if soft(a, b): untold(I, 'operand of a saturating subtraction'); return True
    base, k = mutate.lenbase(a)
    n = type(I).__name__
    if b[0] == 'i':
        if n == 'TM' and base == getattr(I, 'len0', None): return lower(I, st) + k >= b[1]
        if n == 'II' and base[:2] == ('t', 'int'):
            if b[1] == 1 and not k:
                E = [val for a, val in st.facts.items() if a[0] == 't' and a[1] in ('isempty', 'isnull')]
                if 0 in E: return True
                return False
            untold(I, show(a) + ' - ' + show(b)); return True
    k, pos, neg = lincomb(a)
    k2, pos2, neg2 = lincomb(b)
    k -= k2
    pos, neg = cancel(pos + neg2, neg + pos2)
    if k >= 0 and not neg and all(natural(x) for x in pos): return True
    if k < 0 and not neg and all(mayzero(st, x) for x in pos): return False
    maybe(I, st, t['msg'], a, b, 0)
    return True


def maybe(I, st, msg, a, b, strict):
    """a panic when a < b (a <= b): recorded with that condition, judged like any other"""
    if ev(a, Zero(st)) is None or ev(b, Zero(st)) is None: untold(I, show(a)[:80] + ' - ' + show(b)[:80]); return
    s = st.copy(); s.order = s.order | {('<=' if strict else '<', a, b)}
    UNPROVEN.add(I.at)
    I.panics.append((I.stack[-1][0] if I.stack else '?', I.at, msg, s))


UNPROVEN = set()


def natural(x): return x[0] == 't' and x[1] in ('len', 'lastpage', 'as', 'f', 'int', 'num', 'const')


# ---- instantiation of lengths by small numbers: is there a collection for which the recorded conditions hold?
def atom(x):
    if x[:1] != ('t',): return False
    if x == ('t', 'len') or x == ('t', 'lastpage'): return True
    if x[1] != 'len' or len(x) != 3: return False
    h = heads(x)
    return not h & (HASHY | LOOPY) and h <= {'len', 'at', 'arg', 'self', 'f', 'decoded', 'items'} and bool(h & {'arg', 'self'})


class Zero(dict):
    def __init__(self, st): self.st = st
    def __contains__(self, x): return atom(x)
    def __getitem__(self, x): return 0


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


def ev(t, env):
    """value of an arithmetic term, or None"""
    if t[0] == 'i': return t[1]
    if t[0] != 't': return None
    if t in env: return env[t]
    k = t[1]
    if t in core.SOFT: return None
    if k == 'lin': v = ev(t[2], env); return None if v is None else v + t[3]
    if k == 'as' and len(t) == 4 and t[2] in BITS: v = ev(t[3], env); return None if v is None or v < 0 else v & ((1 << BITS[t[2]]) - 1)
    if k == 'num' and len(t) == 4 and t[2] in ('leading_zeros', 'trailing_zeros', 'count_ones', 'next_power_of_two'):
        v = ev(t[3], env)
        if v is None or v < 0: return None
        if t[2] == 'count_ones': return bin(v).count('1')
        if t[2] == 'next_power_of_two': return 1 << max(v - 1, 0).bit_length()
        if not any(atom(x) and (len(x) < 3 or x[1] == 'len') for x in [t[3]]): return None        # the width is known for lengths only
        return 64 - v.bit_length() if t[2] == 'leading_zeros' else (64 if not v else (v & -v).bit_length() - 1)
    if k == 'bin':
        a, b = ev(t[3], env), ev(t[4], env)
        if a is None or b is None: return None
        o = t[2]
        if o.startswith('Add'): return a + b
        if o.startswith('Sub'): return a - b
        if o.startswith('Mul'): return a * b
        if o == 'Div': return a // b if b > 0 and a >= 0 else None
        if o == 'Rem': return a % b if b > 0 and a >= 0 else None
        if o == 'Shr': return a >> b if 0 <= b < 64 and a >= 0 else None
        return None
    if k == 'len' and len(t) == 3:
        c, p, n = lincomb(t)
        if p == [t]: return None
        vs = [ev(x, env) for x in p]
        return None if None in vs else c + sum(vs)
    return None


def holds(c, v, env):
    """truth of a recorded condition, or None"""
    if v == 'order':
        r, x, y = c
        a, b = ev(x, env), ev(y, env)
        if a is None or b is None: return None
        return {'<': a < b, '<=': a <= b, '=': a == b, '!=': a != b}.get(r)
    if c[:2] == ('t', 'isempty'): a = ev(('t', 'len', c[2]), env); return None if a is None else (a == 0) == bool(v)
    if c[:2] == ('t', 'pred'): return None
    a = ev(c, env)
    if a is None: return None
    return a not in v if isinstance(v, tuple) else a == v


def fits(st):
    """the conditions on lengths hold together for some small lengths -> (the conditions that were evaluated, whether they fit)"""
    cs = [(c, v) for c, v in conditions(st) if holds(c, v, Zero(st)) is not None]
    ats = sorted({x for c, v in cs for x in [c] + list(terms(c)) + ([('t', 'len', c[2])] if c[:2] == ('t', 'isempty') else []) if isinstance(x, tuple) and x[:1] == ('t',) and atom(x)}, key=repr)
    if len(ats) > 4: return cs, None
    import itertools
    for vals in itertools.product(range(4), repeat=len(ats)):
        env = dict(zip(ats, vals))
        if all(holds(c, v, env) for c, v in cs): return cs, True
    return cs, None


def lincomb(t):
    """-> (constant, [terms added], [terms subtracted])"""
    if t[0] == 'i': return t[1], [], []
    if t[:2] == ('t', 'lin'):
        k, p, n = lincomb(t[2]); return k + t[3], p, n
    if t[:2] == ('t', 'bin') and t[2] in ('Add', 'AddUnchecked', 'AddWithOverflow', 'Sub', 'SubUnchecked', 'SubWithOverflow'):
        k, p, n = lincomb(t[3]); k2, p2, n2 = lincomb(t[4])
        if t[2].startswith('Sub'): k2, p2, n2 = -k2, n2, p2
        p, n = cancel(p + p2, n + n2); return k + k2, p, n
    if t[:2] == ('t', 'as') and len(t) == 4 and t[2] in ('usize', 'u64', 'u128', 'u32'): return lincomb(t[3])
    if t[:2] == ('t', 'len') and len(t) == 3 and isinstance(t[2], tuple) and t[2][0] == 'adt' and t[2][1] == VEC:
        k = 0; p = []
        for g in t[2][3]:
            if g[0] == 'adt' and g[1] == '@one': k += 1
            else: p.append(('t', 'len', g))
        return k, p, []
    return 0, [t], []


def cancel(p, n):
    p, n = list(p), list(n)
    for x in list(p):
        if x in n: p.remove(x); n.remove(x)
    return p, n


def mentioned(st, x): return any(x == y for c in conditions(st) for y in terms(c[0]))


def mayzero(st, x):
    """the quantity is zero in some valid state, whatever else the path knows"""
    h = heads(x)
    if x == ('t', 'lastpage'): return not mentioned(st, x)
    if x[1] != 'len' or h & (HASHY | LOOPY) or not h <= {'len', 'at', 'arg', 'self', 'f', 'decoded', 'items'} or not h & {'arg', 'self'}: return False
    return not mentioned(st, x) and not mentioned(st, x[2])


def index_panic(I, st, v, r):
    """an index expression that is out of bounds in some valid state"""
    if r[0] == 'adt':
        if r[1] not in ('std::ops::RangeFrom', 'std::ops::Range', 'std::ops::RangeTo'): untold(I, show(r)[:100]); return
        need = r[3][1] if r[1] == 'std::ops::Range' else r[3][0]; strict = 0
    else: need = r; strict = 1
    if soft(need): untold(I, 'index is the result of a saturating subtraction'); return
    L = ('t', 'len', v)
    k, p, n = lincomb(L)
    k2, p2, n2 = lincomb(need)
    p, n = cancel(p + n2, n + p2)
    if k - k2 - strict >= 0 and not n and all(natural(x) for x in p): return
    if k - k2 - strict < 0 and not n and all(mayzero(st, x) for x in p):
        I.panics.append((I.stack[-1][0] if I.stack else '?', I.at, 'index out of bounds', st.copy())); return
    maybe(I, st, 'index out of bounds', L, need, strict)


def lower(I, st):
    """the fewest entries the map can have had on entry"""
    n = 0
    for it in st.tree.get('seq', ()):
        if it[0] == 'e': n += 1
        elif it[0] == 'c':
            if it[1] in st.mem or '0' not in I.domain.types(st, it[1]): n += 1
        else: return 10 ** 9
    return max(n, 1) if st.tree.get('hasE') is True else n


# ------------------------------------------------------------------ verdict on one panic
def terms(x):
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] == 't': yield x
        for y in x: yield from terms(y)
    elif isinstance(x, (frozenset, set, list)):
        for y in x: yield from terms(y)


def heads(x): return {t[1] for t in terms(x)}
HASHY = {'H', 'sha', 'recon', 'tree', 'by', 'post', 'hash', 'NH'}
LOOPY = {'acc', 'hv', 'fold'}


def conditions(st):
    """what the path knows, one item each"""
    out = [(a, v) for a, v in st.facts.items()] + [(a, tuple(sorted(v, key=repr))) for a, v in st.nfacts.items()]
    return out + [((r, x, y), 'order') for r, x, y in st.order]


def documented(I, stk, st):
    """the panic is a documented one (no such member, misuse of the builder), or its path contradicts what C20-C22 establish"""
    f = st.facts; n = type(I).__name__
    H = [(a, v) for a, v in f.items() if a[:2] == ('t', 'has')]
    if n == 'GI':
        of = lambda t, h: h in heads(t)
        asked = any(v == 1 and of(a[2], 'ray') for a, v in H)
        for a, v in H:
            if v == 0 and of(a[2], 'group') and (of(a[3], 'typeid') or of(a[3], 'inner')): return 'no such member'
            if v == 0 and of(a[2], 'ray') and of(a[3], 'inner') and asked: return 'a requested member has its witness (C20)'
        if 'dyntid' in heads(tuple(st.order)) or any('dyntid' in heads(a) for a in f): return 'the table holds members under their own type (C22)'
        return None
    if n == 'BI':
        c = getattr(I, 'case', None)
        for a, v in H:
            if v == 1 and 'builder' in heads(a[2]) and 'typeid' in heads(a[3]): return 'type used twice'
            if v == 1 and c in ('last:taken', 'deep:member'): return 'path used twice'
        if c in ('insert:leaf', 'insert:empty', 'insert:last:taken', 'insert:deep:member', 'build:empty'): return 'misuse of the builder'
        q = [v for a, v in f.items() if a[1] == 'qempty']
        if any(a[1] == 'qempty' and v == 1 for a, v in f.items()) and 0 not in q: return 'empty directory'
        return None
    return None


def free(n, I, st, a, v):
    """may the condition hold in a valid state, independently of the rest of the path? -> True / None (cannot tell) / False (it cannot hold)"""
    h = heads(a)
    if h & (LOOPY | HASHY): return None
    if v == 'order':
        r, x, y = a
        if r == '<' and y == ('i', 0) and x[0] == 't' and x[1] in ('len', 'lin', 'f', 'int'): return False if x[1] == 'len' else None
        if n == 'TM' and I.len0 in (x, y):
            lo = lower(I, st)
            if (r, x, y) == ('=', I.len0, ('i', 0)) or (r, x, y) == ('=', ('i', 0), I.len0): return False if lo else None
            if (r, x, y) == ('<', I.len0, ('i', 0)): return False
            return True if (r, x, y) == ('<', ('i', 0), I.len0) and lo else None
        if n == 'PI':
            if x == ('t', 'lastpage') and r == '<' and y == ('i', 0): return False
            S = [z for z in (x, y) if z[:2] == ('t', 'const')]; Ls = [z for z in (x, y) if z[:2] == ('t', 'len') and 'lastseq' in heads(z)]
            if S and Ls:
                if r == '<' and x[:2] == ('t', 'const'): return False      # no page is longer than the page size (C19)
                return True
            if {'lastpage', 'nodepage'} & h and not h - {'lastpage', 'nodepage', 'lin'}: return True
            return None
        if h and h <= {'len', 'at', 'arg', 'self', 'f'} and 'len' in h and h & {'arg', 'self'} and (x[0] == 'i' or y[0] == 'i'): return True
        return None
    k = a[1]
    if k in ('discr', 'deser', 'acc-err') and h <= {'discr', 'deser', 'acc-err', 'arg', 'at', 'f', 'tail', 'item', 'decoded'}: return True
    if n == 'GI':
        if k == 'has' and 'ray' in h: return True
        if k == 'has' and 'group' in h: return v == 1 or None
        if k == 'has' and a[2] == ('t', 'deps0'): return v == 0
        if k == 'isempty' and 'ray' in h: return True if v == 1 else None
        return None
    if n == 'BI': return True if k in ('has', 'qempty', 'qlen1', 'qlen2') and h <= {'has', 'qempty', 'qlen1', 'qlen2', 'Q', 'children', 'comp'} else None
    if n == 'PI':
        if k in ('isnull', 'isempty'):
            if h & {'seq', 'lastseq'}: return None
            return False if v == 1 and any(c[:2] == ('t', 'haspages') and w == 1 for c, w in st.facts.items()) else True
        return True if k in ('haspages', 'fits') else None
    if n == 'II': return True if k in ('isnull', 'isempty') and v == 1 else None
    if k == 'isempty' and h <= {'isempty', 'at', 'arg', 'self', 'f', 'len'}: return True
    return None


def judge(P, e):
    """-> ('ok' | 'bad' | 'und' | 'skip', reason)"""
    I, stk, fn, at, msg, st, chk = e
    n = type(I).__name__
    bottom = stk[0] if stk else fn
    if n not in ('GI', 'BI', 'T', 'TM') and not entry(P, bottom): return 'skip', 'met while a private function is analysed without its callers'
    d = documented(I, stk, st)
    if d: return 'ok', d
    if n == 'II':
        poss = st.rel(('t', 'len'), ('i', 0)); nul = {v for a, v in st.facts.items() if a[:2] == ('t', 'isnull') and a[2] == ('N', ('root',))}
        if 1 in nul and '=' not in poss or 0 in nul and '>' not in poss: return 'ok', 'the length is zero exactly when there is no root (C08)'
    if st.nfacts: return 'und', 'the path depends on a comparison with several constants'
    cs, ok = fits(st)
    small = cs if ok else []
    fr = [(free(n, I, st, a, v), a, v) for a, v in conditions(st)]
    fr = [(True if x is None and (a, v) in small else x, a) for x, a, v in fr]
    if any(x is False for x, a in fr): return 'ok', 'the path is infeasible: ' + ', '.join(show(a)[:60] for x, a in fr if x is False)
    un = [show(a)[:80] for x, a in fr if x is None]
    if un: return 'und', 'cannot tell whether the path is feasible: ' + ', '.join(un)
    if n in ('T', 'TM') and any(i[0] == '?' for _, c in st.tree.get('eqs', ()) for i in c): return 'und', 'what an earlier call did to the tree is not recognised'
    if n == 'T' and not realizable(I, st): return 'und', 'no balanced tree of this form is known'
    return 'bad', 'reachable'


CAP = 9


def realizable(I, st):
    """is there a left-leaning red-black tree with the unfolded nodes and empty subtrees of the state?"""
    S = I.shape
    def profiles(o, null=False):
        if null: return {(0, 0)}
        if o in st.mem:
            m = st.mem[o]
            if m[0] != 'adt': return set()
            l, r = kid(m[3][S.L]), kid(m[3][S.R])
            if l is None or r is None: return ANY
            out = set()
            for cl, hl in l:
                for cr, hr in r:
                    if hl != hr or cr: continue
                    if not cl: out.add((1, hl))
                    out.add((0, hl + 1))
            return out
        info = st.tree.get(o)
        if not isinstance(info, tuple) or len(info) != 3: return ANY | {(0, 0)}
        must, may, nn = info
        if nn == 'N' or not may: return {(0, 0)}
        out = set() if must or nn == 'Y' else {(0, 0)}
        if may and all(st.x['ctx'].uniq(r) for r in may) and len(may) == 1: return out | {(1, 0), (0, 1)}
        return out | ANY
    def kid(v):
        if v == NULL: return {(0, 0)}
        if v[0] == 'p' and isnode(v[1]): return profiles(v[1])
        return None
    ANY = {(1, h) for h in range(CAP)} | {(0, h) for h in range(1, CAP)}
    kids = {x for o, m in st.mem.items() if isnode(o) and m[0] == 'adt' and len(m[3]) == S.n for c in (m[3][S.L], m[3][S.R]) if c[0] == 'p' and c != NULL for x in (c[1],)}
    return all(any(c == 0 for c, h in profiles(o)) for o in st.mem if isnode(o) and o not in kids and o[1][0] not in ('X', 'sel'))


def entry(P, f):
    d = P.fns.get(f)
    if not d: return False
    return bool(d.get('reachable') or d.get('trait') or f.startswith('<'))


# ------------------------------------------------------------------ inventory
def sites(P):
    """every construct that can panic: (fn, block, what, line)"""
    out = []
    for fn in sorted(P.fns):
        b = P.fns[fn].get('body')
        if not b: continue
        for i, bb in enumerate(b['bbs']):
            if bb.get('cleanup'): continue
            t = bb['t']
            if t['t'] == 'assert': out.append((fn, i, 'assert ' + re.sub(r'[(].*', '', t['msg']) + (re.search(r'[(](\w+),', t['msg']) or [0, ''])[1], t['at']))
            elif t['t'] == 'call':
                f = (t['f'].get('const') or {}).get('fn') or {}
                if f and not f.get('local') and SITE.search(f.get('p', '')): out.append((fn, i, f['p'], t['at']))
    return out


def leading_to(P, goal):
    """functions from which a function of the set can be reached"""
    rev = {}
    for f in P.fns:
        try: cs = P.callees(f)
        except Exception: cs = ()
        for g in cs: rev.setdefault(g, set()).add(f)
        if '::{closure' in f: rev.setdefault(f, set()).add(f.rsplit('::{closure', 1)[0])
    out = set(goal); wl = list(goal)
    while wl:
        for f in rev.get(wl.pop(), ()):
            if f not in out: out.add(f); wl.append(f)
    return out


def const_site(P, fn, i, what):
    """the construct cannot fail whatever the state"""
    bb = P.fns[fn]['body']['bbs'][i]; t = bb['t']
    if t['t'] == 'call':
        if what.endswith(('Index::index', 'IndexMut::index_mut')) and any('RangeFull' in str(a.get('s') or a.get('n') or '') for a in t['f']['const']['fn'].get('a', ())): return 'full range'
    return None


def c25(rep, ctx):
    P = ctx.prog(debug=True)
    rep.rule.append('The abstract explorations of the other checks (maps of every shape and size, histories by induction, iterators, sequences, paged lists, groups, encoders and decoders, hashes, labels) are repeated on the program compiled with debug assertions and '
                    'overflow checks. Every panic that an abstract path reaches (failed assertion, unwrap of a missing value, counter below zero, explicit panic) is judged on the facts of its path: it is a documented panic, contradicts an invariant that another check establishes, '
                    'or is reported with its path. The inventory of constructs that can panic is compared with what the explorations covered: each construct is discharged only if its function was interpreted and no path fails there.')
    rep.assume += ['range queries are called with first <= last (documented)', 'sums of counters stay below the limit of their type (fewer than 2^32 pages, 2^64 node ids, usize::MAX entries)', 'user code (comparison, label, value hashing, closures, external serializers) does not panic',
                   'indexing a sequence out of bounds panics as documented for Index', 'library functions other than those with a model in engine/models.py do not panic']
    log, cov, fns, und = explore(P, tier=ctx.tier)
    rep.fns |= fns | {f for f, _ in cov}
    reached = {}; n = 0
    groups = {}
    for e in log:
        v, why = judge(P, e)
        if v == 'skip': continue
        bottom = e[1][0] if e[1] else e[2]
        groups.setdefault((short(bottom), short(e[2]), kind(e[4])), []).append((v, why, e))
        reached.setdefault(e[3], set()).add(v)
    for (b, f, k), es in sorted(groups.items()):
        key = 'panic:%s:%s:%s' % (b, f, k); what = 'does not panic on a valid collection'
        badones = [x for x in es if x[0] == 'bad']
        if badones:
            e = badones[0][2]
            rep.bad(key, what, '%s in %s, reached from %s' % (e[3], e[2], e[1][0] if e[1] else e[2]), '%s [%s]' % (e[4], '; '.join(str(x) for x in e[5].path)[-600:]))
        elif any(x[0] == 'und' for x in es): rep.undecided(key, what, es[0][2][3], '%s; %s' % (es[0][2][4], [x[1] for x in es if x[0] == 'und'][0]))
        else: rep.ok(key, 'panics only as documented: ' + ', '.join(sorted({x[1] for x in es})), es[0][2][3])
    entered = {f for f, b in cov if b == 0}
    S = sites(P); seen = {}; unt = set()
    for f, b, w, at in S:
        if 'bad' in reached.get(at, ()): continue
        if at in UNTOLD and not w.startswith('assert OverflowAdd'): unt.add(at)
        i = seen[(f, w)] = seen.get((f, w), 0) + 1
        key = 'site:%s:%s:%d' % (short(f), w.split('::')[-1], i); what = 'the construct cannot fail on a valid collection'
        c = const_site(P, f, b, w)
        if at in unt: rep.undecided(key, what, at, 'the range of the value is not known: ' + UNTOLD[at])
        elif (f, b) in cov or f in entered: rep.ok(key, what, at)
        elif c: rep.ok(key, what + ' (%s)' % c, at)
        elif w == 'assert OverflowAdd': rep.ok(key, what + ' (sum below the limit of its type, assumed)', at)
        elif f.startswith('<collections::seq::Seq<') and 'Index' in f: rep.ok(key, 'panics as documented for Index', at)
        else: rep.undecided(key, what, at, 'the function is not entered by any exploration')
    ops = sorted(f for f in entered if P.fns[f].get('reachable') and '{' not in f)
    for f in ops: rep.ok('op:' + short(f), 'every panic on its abstract paths is accounted for', P.fns[f]['span'])
    for who, why in und: rep.undecided('explore:' + str(who), 'the exploration is complete', None, why)
    rep.floor('public operations interpreted', len(ops), 100)
    rep.floor('basic blocks interpreted', len(cov), 1800)
    rep.stats['panic_sites'] = len(S); rep.stats['abstract_panics'] = len(log)


def short(f): return re.sub(r"<[^<>]*>", '', re.sub(r"<[^<>]*>", '', re.sub(r"<[^<>]*>", '', f))).replace('::::', '::') or f
def kind(m): return m.split('(')[0] + (re.search(r'[(](\w+),', m) or [0, ''])[1] if m.startswith('Overflow') else m.split(':')[0][:40]
