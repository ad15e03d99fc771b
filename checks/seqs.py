"""C17: the hash of a sequence is the fold of its items; C18: serialization of maps and sequences."""
from base import *
from words import *
from sermodel import SER
from hashing import guarded
from witness import shortfn, trait_fn

ZERO = b'\0' * 32
SEQ = 'collections::seq::Seq'


class WI(Words, A):
    arrays = False
    def __init__(self, P):
        A.__init__(self, P)
        m = Models(); m.t = dict(SER.t); m.suffix = dict(SER.suffix)
        m.lookup = wlookup(SER)
        self.models = m; self.bads = []; self.undec = None


def tys(P, fn): return [l['ty'] for l in P.fns[fn]['body']['locals'][:P.fns[fn]['body']['argc'] + 1]]


def layout(P):
    h = i = None
    for j, f in enumerate(P.adts[SEQ]['variants'][0]['fields']):
        t = f['ty']
        if t.get('n') in (VEC, 'std::vec::Vec', 'std::collections::VecDeque'): i = j
        elif t['k'] == 'array': h = j
    return h, i


class Hash:
    """which items a hash covers"""
    def __init__(self, h, i): self.h, self.i = h, i
    def covers(self, v):
        """segments | None (not understood) ; raises Wrong"""
        v = strip(v)
        if v == ('b', ZERO) or v == ZERO: return ()
        if v[:2] == ('t', 'default'): return ()
        if v[0] == 'adt' and v[1] == '[]' and all(x == ('i', 0) for x in v[3]): return () if len(v[3]) == 32 else None
        if v[:2] == ('t', 'repeat') and v[2] == ('i', 0): return ()
        if v[0] == 'adt' and v[1] == '[]' and len(v[3]) == 32 and all(x[0] == 'i' for x in v[3]) or v[:2] == ('t', 'repeat') and v[2][0] == 'i' or v[0] == 'b' and isinstance(v[1], bytes) and len(v[1]) == 32:
            raise Wrong('the hash of no items is %s, not 32 zero bytes' % show(v)[:60])
        if v[:2] == ('t', 'f') and len(v) == 4 and v[3] == self.h: return (('t', 'f', v[2], self.i),)
        if v[:2] == ('t', 'sha'):
            ps = v[2]
            if len(ps) == 1 and isinstance(ps[0], bytes): raise Wrong('hash of constant bytes')
            if not ps: raise Wrong('hash of nothing')
            last = ps[-1]
            if last[:2] != ('t', 'H'): raise Wrong('a step hashes %s' % [show(x) for x in ps])
            prev = ps[:-1]
            if len(prev) != 1: raise Wrong('a step hashes %s' % [show(x) for x in ps])
            p = self.covers(prev[0])
            return None if p is None else p + (one(last[2]),)
        if v[:2] == ('t', 'fold'):
            src, v0, step = v[2:]
            if src and src[:1] == ('t',): raise Wrong('the loop stops before the last item')
            p = self.covers(v0)
            steps = step[2] if step[:2] == ('t', 'alt') else (step,)
            for s in steps:
                if not self.isstep(s): raise Wrong('a loop step computes %s' % show(s))
            return None if p is None else p + tuple(x for x in src)
        if v[:2] == ('t', 'H') and v[2][0] == 't' and v[2][1] in ('item', 'last', 'nth', 'idx'): raise Wrong('the hash of one item, not chained to what came before: %s' % show(v))
        return None

    def isstep(self, s):
        s = strip(s)
        return s[:2] == ('t', 'sha') and len(s[2]) == 2 and strip(s[2][0]) == ACC and s[2][1] == ('t', 'H', ITEM)


class Wrong(Exception): pass


def strip(v):
    while isinstance(v, tuple) and v[:2] == ('t', 'by') and len(v) == 3: v = v[2]
    return v


def norm_segs(segs):
    """items as segments; known-empty parts dropped"""
    out = []
    for s in segs:
        if s[:2] == ('adt', '@one'): out.append(s)
        elif s == ('b', b''): continue
        else: out.append(s)
    return tuple(out)


def drop_empty(st, segs):
    e = lambda s: st.facts.get(('t', 'isempty', s)) == 1 or st.rel(('t', 'len', s), ('i', 0)) == {'='} if s[0] == 't' else False
    return tuple(s for s in segs if not e(s))


def seq_fns(P):
    out = []
    for f, d in P.fns.items():
        if '{' in f or not d.get('body') or SEQ not in f: continue
        own = f.startswith(SEQ + '::<') or f.startswith('<' + SEQ + '<') or ('impl ' in f and SEQ in f)
        if not own or not d.get('vis_pub'): continue
        ts = tys(P, f)
        mut = any(t['k'] == 'ref' and t.get('m') and t['t'].get('n') == SEQ for t in ts[1:])
        ret = mentions(ts[0])
        if mut or ret: out.append((f, mut, ret))
    return sorted(out)


def mentions(t):
    if t.get('n') == SEQ: return True
    if t['k'] == 'adt' and t.get('n') in (RES, OPT, 'std::boxed::Box'): return any(mentions(x) for x in t.get('a', ()) if isinstance(x, dict) and 'k' in x)
    return False


def run(P, fn):
    I = WI(P); st = State()
    ts = tys(P, fn)
    args = [symval(I, st, t, ('t', 'arg', i)) for i, t in enumerate(ts[1:])]
    outs = []
    wl = [st]
    while wl:
        s = wl.pop()
        try: outs += I.call_fn(s, fn, args)
        except Fork as f: wl += [I.replay(s, a) for a in f.alts]
        except Infeasible: pass
    return I, args, outs


def find_seq(v, n=SEQ):
    if isinstance(v, tuple):
        if v[:1] == ('adt',) and len(v) == 4 and v[1] == n: return v
        for x in v:
            if isinstance(x, tuple):
                r = find_seq(x, n)
                if r: return r
    return None


def want_items(fn, hl):
    """expected items after the function, as segments (None: only the invariant is required)"""
    n = fn.rsplit('::', 1)[-1]; h, i = hl
    self_items = ('t', 'f', ('t', 'at', ('t', 'arg', 0)), i)
    A = lambda k: ('t', 'arg', k)
    if n == 'append' or n == 'push': return (self_items, one(A(1)))
    if n == 'clear': return ()
    if n == 'extend': return (self_items, ('t', 'items', A(1)))
    if n in ('new', 'with_capacity', 'default'): return ()
    if n in ('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to', 'clone'): return (self_items,)
    if n == 'from_iter': return (('t', 'items', A(0)),)
    if n == 'from': return ('any', (A(0),), (('t', 'at', A(0)),))
    if n == 'deserialize': return (('t', 'decoded', A(0)),)
    return None


def seq_fresh(rep, P, content=False):
    """the stored hash covers exactly the items; with `content`, the items are also the specified ones"""
    if SEQ not in P.adts or None in layout(P): return rep.undecided('layout', 'sequence layout', SEQ, 'fields of the sequence not recognised')
    hl = layout(P)
    HH = Hash(*hl)
    fns = seq_fns(P)
    rep.floor('functions changing or producing a sequence', len(fns), 13)
    for fn, mut, ret in fns:
        def go(fn=fn, mut=mut):
            I, args, outs = run(P, fn)
            rep.fns |= I.visited
            key = shortfn(fn)
            bad = und = None; n = 0
            for s, v in outs:
                target = None
                if mut:
                    for i, a in enumerate(args):
                        if a[0] == 'p' and tys(P, fn)[i + 1]['t'].get('n') == SEQ: target = I.read(s, a[1], a[2])
                if target is None or not mut: target = find_seq(v) or target
                if target is None:
                    if v[0] == 'adt' and v[1] == RES and v[2] == 1: continue      # an error is returned, no sequence
                    und = 'no sequence in the result: ' + show(v); continue
                n += 1
                if target[0] != 'adt': und = 'sequence value not recognised'; continue
                items = drop_empty(s, norm_segs(vec_segs(pure(I, s, target[3][hl[1]]))))
                if any(x[:2] == ('t', 'by') or x[0] not in ('t', 'adt') for x in items): und = 'items not recognised: %s' % [show(x) for x in items]
                try: cov = HH.covers(pure(I, s, target[3][hl[0]]))
                except Wrong as w:
                    bad = bad or str(w); continue
                if cov is None: und = 'hash not recognised: ' + show(target[3][hl[0]]); continue
                cov = drop_empty(s, norm_segs(cov))
                if same_segs(cov) != same_segs(items): bad = bad or 'the hash covers %s, the sequence holds %s' % ([show(x) for x in cov], [show(x) for x in items]); continue
                w = want_items(fn, hl) if content else None
                if w is not None:
                    ws = [w] if not w or w[0] != 'any' else list(w[1:])
                    if same_segs(items) not in [same_segs(drop_empty(s, x)) for x in ws]:
                        bad = bad or 'the sequence holds %s' % [show(x) for x in items]
            if bad: rep.bad(key, 'hash covers exactly the items, in order', where(P, fn), bad)
            elif und: rep.undecided(key, 'hash covers exactly the items', where(P, fn), und)
            else: rep.expect(n > 0, key, 'hash covers exactly the items, in order (%d outcomes)' % n, where(P, fn), 'no outcome returns a sequence')
        guarded(rep, shortfn(fn), 'hash covers exactly the items', where(P, fn), go)


def c17(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Every public function that changes or produces a sequence is interpreted with loops as folds (one generalised iteration gives the step; no bound on the length). '
                    'The resulting hash must be the fold SHA-256(previous || item hash) from 32 zero bytes over exactly the resulting items in order, given that it was so before.')
    rep.assume += ['item hashes are uninterpreted functions of the items', 'sha2::Sha256 implements SHA-256', 'models of the standard library in engine/models.py and engine/words.py']
    if SEQ not in P.adts: rep.bad('anchor:Seq', 'the sequence type exists'); return
    hl = layout(P)
    if None in hl: rep.undecided('layout', 'sequence layout', SEQ, 'fields of the sequence not recognised'); return
    fields = P.adts[SEQ]['variants'][0]['fields']
    for f in fields: rep.expect(not (f.get('vis') == 'pub'), 'private:' + f['name'], 'the fields of a sequence are private', SEQ, 'field %s is public' % f['name'])
    seq_fresh(rep, P, True)
    # who writes the fields
    w = set()
    for f, d in P.fns.items():
        if not d.get('body'): continue
        from mutate import writes_owned
        if writes_owned(d['body'], (SEQ,)) or builds(d['body'], SEQ): w.add(f)
    unknown = [f for f in w if f not in rep.fns and not any(f.startswith(x + '::{') for x in rep.fns)]
    for f in unknown: rep.undecided('writer:' + shortfn(f), 'every writer of a sequence is analysed', where(P, f), 'writes or builds a sequence but is not reached from an analysed function')
    rep.floor('functions writing or building a sequence', len(w), 8)
    reports(rep, P, hl)


def reports(rep, P, hl, pre=''):
    """root_hash and as_hash_tree report the stored hash"""
    for n in ('root_hash', 'as_hash_tree'):
        fn = trait_fn(P, 'AsHashTree', SEQ, n)
        if fn not in P.fns: rep.bad('anchor:' + n, 'the sequence is certifiable'); continue
        def go(fn=fn, n=n):
            I, args, outs = run(P, fn)
            rep.fns |= I.visited
            me = ('t', 'at', ('t', 'arg', 0))
            for s, v in outs:
                got = strip(hashval(I, s, v)) if n == 'root_hash' else strip(recon(I, s, v))
                want = ('t', 'f', me, hl[0])
                empty = any(s.facts.get(('t', 'isempty', x)) == 1 for x in (('t', 'f', me, hl[1]), ('t', 'items', ('t', 'f', me, hl[1]))))
                if got == want or empty and got == ('b', bytes(32)): rep.ok(pre + n, '%s reports the maintained hash' % n, where(P, fn))
                elif has_term(got, lambda t: t[:2] in (('t', 'fold'), ('t', '?'), ('t', 'unknown'), ('t', 'call'))): rep.undecided(pre + n, '%s reports the maintained hash' % n, where(P, fn), show(got))
                else: rep.bad(pre + n, '%s reports the maintained hash' % n, where(P, fn), show(got))
        guarded(rep, pre + n, n, where(P, fn), go)


def same_segs(segs):
    """canonical form: a view of a reference equals what it refers to"""
    def c(x):
        if x[:2] == ('adt', '@one'): return ('one', c(x[3][0]))
        if x[:2] == ('t', 'at'): return x
        return x
    return tuple(c(x) for x in segs)


def builds(body, adt):
    for b in body['bbs']:
        if b['cleanup']: continue
        for s in b['s']:
            if s['s'] == '=' and s['r']['r'] == 'agg' and s['r']['k'].get('n') == adt: return True
    return False
