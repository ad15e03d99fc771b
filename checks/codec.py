"""C18: serialization emits every entry once and deserialization rebuilds from every element."""
from seqs import *
import re

MAP = 'collections::map::Map'
TREE = 'rbtree::RbTree'


class CI(WI):
    """the balanced tree is an opaque ordered dictionary here (decided by C01, C06, C09)"""
    def treeval(self, st, v):
        n = 0
        while v[0] in ('p', 'bx') and v != NULL and n < 4:
            o, p = self.deref(st, v); v = self.read(st, o, p); n += 1
        return v

    def symhook(self, st, ty, name): return name if ty.get('n') == TREE else None

    def call_local(self, st, path, args, meta, dty):
        dn = (dty or {}).get('n', '')
        if args and args[0][:2] == ('adt', '@entry'):
            nm = path.rsplit('::', 1)[-1]; tp, k = args[0][3]
            if nm in ('or_insert', 'or_default', 'or_insert_with', 'or_insert_with_key'):
                st = st.copy(); o, p = self.deref(st, tp)
                v = self.treeval(st, tp)
                self.write(st, o, p, ('t', 'insnew', v, self.pureterm(st, k), self.pureterm(st, args[1]) if nm == 'or_insert' else ('t', '?', nm)))
                return [(st, ('t', 'entryref', v))]
            raise Undecided('entry method ' + path, self.at)
        if args and args[0][0] == 'p':
            v = self.treeval(st, args[0])
            f = self.P.fns[path]
            t0 = f['body']['locals'][1]['ty'] if f.get('body') else {}
            onTree = t0.get('k') == 'ref' and t0['t'].get('n') == TREE
            if onTree and not isit(v):
                if self.itertype(dty): return [(st, it((('t', 'entries', self.pureterm(st, v)),), 'entries'))]
                nm = path.rsplit('::', 1)[-1]
                if onTree and nm == 'for_each':
                    self.fid += 1; clo = ('fclo', self.fid); st = st.copy(); st.mem[clo] = args[1]
                    step = lambda s, x: [(s2, 'back', None) for s2, r in self.invoke(s, ('fn', 'std::ops::FnMut::call_mut', None, None), [('p', clo, ()), x], None, None)]
                    return [(s, UNIT) for s, k, w in self.drive(st, it((('t', 'entries', self.pureterm(st, v)),), 'entries'), step)]
                if onTree and nm == 'entry' and len(args) == 2: return [(st, ('adt', '@entry', 0, (args[0], args[1])))]
                if onTree and t0.get('m'):
                    st = st.copy(); o, p = self.deref(st, args[0])
                    if nm == 'insert' and len(args) == 3: nv = ('t', 'ins', v, self.pureterm(st, args[1]), self.pureterm(st, args[2]))
                    else: nv = ('t', 'treeop', nm, v) + tuple(self.pureterm(st, a) for a in args[1:])
                    self.write(st, o, p, nv)
                    r = ('t', 'res', nm, nv)
                    if (dty or {}).get('k') == 'tuple': r = ('adt', '()', 0, tuple(self.typed(st, ('t', 'f', r, i), x) for i, x in enumerate(dty['a'])))
                    return [(st, self.typed(st, r, dty))]
                if onTree and v[0] == 't' and nm not in ('len', 'is_empty'):
                    r = ('t', 'query', nm, v) + tuple(self.pureterm(st, a) for a in args[1:])
                    return [(st, self.typed(st, r, dty))]
            if isit(v):
                base = 'std::iter::Iterator::' + path.rsplit('::', 1)[-1]
                if ' as std::iter::Iterator>' in path and base in WM.suffix:
                    r = WM.suffix[base](self, st, args, {'p': base, 'name': path.rsplit('::', 1)[-1], 'a': []}, dty)
                    if r is not NotImplemented: return r
                raise Undecided('iterator method ' + path, self.at)
        return WI.call_local(self, st, path, args, meta, dty)

    def itertype(self, t):
        n = (t or {}).get('n')
        return bool(n) and any(i['trait'] == 'std::iter::Iterator' and i['self'].get('n') == n for i in self.P.impls)

    def pureterm(self, st, v): return pure(self, st, v)


def run2(P, fn, args=None):
    I = CI(P); st = State()
    ts = tys(P, fn)
    a = args or [symval(I, st, t, ('t', 'arg', i)) for i, t in enumerate(ts[1:])]
    outs = []; wl = [st]
    while wl:
        s = wl.pop()
        try: outs += I.call_fn(s, fn, a)
        except Fork as f: wl += [I.replay(s, x) for x in f.alts]
        except Infeasible: pass
    return I, a, outs


def flat(evs, pred):
    for e in evs:
        if e and e[0] == 'each':
            for alt in e[2]: yield from flat(alt, pred)
        elif e and pred(e): yield e


def failed(s): return any(True for _ in flat(s.ev, lambda e: e[0] in ('sererr', 'deerr')))


def iserr(v): return v[0] == 'adt' and v[1] == RES and v[2] == 1


def impl_fn(P, adt, trait, name):
    for i in P.impls:
        if (i['trait'] or '').split('<')[0] == trait and i['self'].get('n') == adt:
            for x in i['items']:
                if x.rsplit('::', 1)[-1] == name: return x
    return None


def ser_trace(s): 
    """serializer calls in order: ('each', src, alternatives) for loops"""
    out = []
    for e in s.ev:
        if e[0] == 'ser': out.append(e[1:])
        elif e[0] == 'each':
            alts = []
            for a in e[2]:
                t = tuple(ser_trace_of(a))
                if t not in alts: alts.append(t)
            if any(alts): out.append(('each', e[1], tuple(alts)))
    return out
def ser_trace_of(a):
    class S: pass
    x = S(); x.ev = a
    return ser_trace(x)


def entry_item(I, s, alt):
    """does the loop body emit the entry (key, value) of the item, once?"""
    k, v = ('t', 'f', ITEM, 0), ('t', 'f', ITEM, 1)
    ev = [tuple(pure(I, s, y) if isinstance(y, tuple) and y and y[0] in ('p', 'adt') else y for y in e) for e in alt]
    if ev == [('entry', k, v)] or ev == [('key', k), ('value', v)]: return True
    if len(ev) == 1 and ev[0][0] == 'celem':
        x = ev[0][1]
        return x in (ITEM, ('adt', '()', 0, (k, v)))
    return False


def elem_item(I, s, alt):
    ev = [tuple(pure(I, s, y) if isinstance(y, tuple) and y and y[0] in ('p', 'adt') else y for y in e) for e in alt]
    return len(ev) == 1 and (ev[0][0] == 'celem' and ev[0][1] == ITEM or ev[0][0] == 'elem' and ev[0][-1] == ITEM)


def partial(src): return any(x[:2] in (('t', 'tail'), ('t', 'sub')) for x in src)


def has_unknown(x): return has_term(x, lambda t: t[:2] in (('t', '?'), ('t', 'unknown')))


def visitors(P):
    vis = {}
    for i in P.impls:
        if (i['trait'] or '').split('<')[0].endswith('::Visitor'):
            for x in i['items']:
                m = x.rsplit('::', 1)[-1]
                if m in ('visit_map', 'visit_seq') and P.fns.get(x, {}).get('body'):
                    rt = tys(P, x)[0]
                    c = (rt.get('a') or [{}])[0].get('n')
                    if c in (MAP, SEQ): vis.setdefault(i['self'].get('n'), {})[m] = (x, c)
    return vis


def built(rep, P, vis, hl, inner, only=(MAP, SEQ), pre=''):
    n = 0
    builders = [(x, c, nm, 'visitor') for nm0, ms in vis.items() for m, (x, c) in ms.items() for nm in ['map' if c == MAP else 'seq']]
    for i in P.impls:
        if (i['trait'] or '').split('<')[0] == 'std::iter::FromIterator' and i['self'].get('n') in (MAP, SEQ):
            for x in i['items']:
                if x.endswith('::from_iter'): builders.append((x, i['self']['n'], 'map' if i['self']['n'] == MAP else 'seq', 'iterator'))
    for fn, c, nm, kind in builders:
        if c not in only: continue
        n += 1
        def go(fn=fn, c=c, nm=nm, kind=kind):
            I, a, outs = run2(P, fn); rep.fns |= I.visited
            key = pre + '%s:%s' % (nm, fn.rsplit('::', 1)[-1]); ok = 0
            src = ('t', 'arg', 1) if kind == 'visitor' else ('t', 'items', ('t', 'arg', 0))
            for s, v in outs:
                if iserr(v): continue
                if failed(s): rep.bad(key, 'decoder errors are returned', where(P, fn), 'an error is dropped on the path ' + '; '.join(s.path)); continue
                ok += 1
                cv = find_seq(pure(I, s, v), c)
                if cv is None: rep.undecided(key, 'built collection', where(P, fn), show(v)[:300]); continue
                d = judge_built(I, s, cv, nm, hl, inner, src)
                if d == 'und': rep.undecided(key, 'every element is kept', where(P, fn), show(cv)[:600])
                else: rep.expect(d is None, key, 'every element supplied is kept, in order', where(P, fn), '%s: %s' % (d, show(cv)[:500]))
            rep.expect(ok > 0, key, 'building can succeed', where(P, fn))
        guarded(rep, pre + '%s:%s' % (nm, fn.rsplit('::', 1)[-1]), 'every element is kept', where(P, fn), go)
    return n


def c18(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Each Serialize / Deserialize / CandidType / Visitor / FromIterator implementation of the map and the sequence is interpreted with loops as folds; the trace of serializer calls, or the value built from the decoder, '
                    'must be: announce the exact length, emit each entry of the collection exactly once in iteration order, end; respectively insert every decoded element. Errors of the (de)serializer are returned.')
    rep.assume += ['the iterator of the tree yields every entry once in order (C09), RbTree::insert inserts (C06) and the length is exact (C08)', 'sequence hashes follow their items (C17)',
                   'serde and candid call the implementations according to their documentation']
    n = 0
    tree_len = ('t', 'f', None, None)
    lf = next(i for i, f in enumerate(P.adts[TREE]['variants'][0]['fields']) if f['ty'].get('k') == 'int')
    inner = next((i for i, f in enumerate(P.adts[MAP]['variants'][0]['fields']) if f['ty'].get('n') == TREE), None)
    if inner is None: rep.undecided('layout', 'the map wraps the tree', MAP, 'no field of type RbTree'); return
    A0 = ('t', 'at', ('t', 'arg', 0))
    TV = ('t', 'f', A0, inner)

    def istv(x): return x == ('t', 'entries', TV)
    LEN = ('t', 'f', TV, lf)
    # ---------------------------------------------------------------- maps out
    for trait, name, kinds in (('serde::Serialize', 'serialize', ('map',)), ('candid::CandidType', 'idl_serialize', ('vec',))):
        fn = impl_fn(P, MAP, trait, name)
        if not fn: rep.bad('anchor:map:' + name, 'maps implement ' + trait); continue
        n += 1
        def go(fn=fn, name=name, kinds=kinds):
            I, a, outs = run2(P, fn); rep.fns |= I.visited
            key = 'map:' + name; ok = 0
            for s, v in outs:
                if iserr(v): continue
                if failed(s): rep.bad(key, 'serializer errors are returned', where(P, fn), 'an error is dropped on the path ' + '; '.join(s.path)); continue
                t = ser_trace(s)
                d = judge_map(I, s, t, kinds, LEN, istv)
                ok += 1
                if d == 'und': rep.undecided(key, 'entries are emitted once', where(P, fn), 'trace %s' % (t,))
                else: rep.expect(d is None, key, 'the length is announced, then every entry is emitted once in order', where(P, fn), '%s\ntrace %s' % (d, t))
            rep.expect(ok > 0, key, 'serialization can succeed', where(P, fn))
        guarded(rep, 'map:' + name, 'entries are emitted once', where(P, fn), go)
    # ---------------------------------------------------------------- candid types
    for adt, nm in ((MAP, 'map'), (SEQ, 'seq')):
        fn = impl_fn(P, adt, 'candid::CandidType', '_ty')
        if not fn: rep.bad('anchor:%s:_ty' % nm, 'Candid type'); continue
        n += 1
        def go(fn=fn, nm=nm):
            I, a, outs = run2(P, fn); rep.fns |= I.visited
            for s, v in outs:
                d = judge_ty(I, s, v, nm, elem_types(P, fn))
                if d == 'und': rep.undecided(nm + ':_ty', 'Candid type matches what is emitted', where(P, fn), show(pure(I, s, v))[:300])
                else: rep.expect(d is None, nm + ':_ty', 'the Candid type is a vector of %s' % ('(key, value) records' if nm == 'map' else 'items'), where(P, fn), '%s: %s' % (d, show(pure(I, s, v))[:300]))
        guarded(rep, nm + ':_ty', 'Candid type', where(P, fn), go)
    # ---------------------------------------------------------------- sequences out
    hl = layout(P)
    IT = ('t', 'f', A0, hl[1])
    for trait, name in (('serde::Serialize', 'serialize'), ('candid::CandidType', 'idl_serialize')):
        fn = impl_fn(P, SEQ, trait, name)
        if not fn: rep.bad('anchor:seq:' + name, 'sequences implement ' + trait); continue
        n += 1
        def go(fn=fn, name=name):
            I, a, outs = run2(P, fn); rep.fns |= I.visited
            key = 'seq:' + name; ok = 0
            for s, v in outs:
                if iserr(v): continue
                if failed(s): rep.bad(key, 'serializer errors are returned', where(P, fn), '; '.join(s.path)); continue
                t = ser_trace(s); ok += 1
                d = judge_seq(I, s, t, IT)
                if d == 'und': rep.undecided(key, 'items are emitted once', where(P, fn), 'trace %s' % (t,))
                else: rep.expect(d is None, key, 'the items are emitted once, in order', where(P, fn), '%s\ntrace %s' % (d, t))
            rep.expect(ok > 0, key, 'serialization can succeed', where(P, fn))
        guarded(rep, 'seq:' + name, 'items are emitted once', where(P, fn), go)
    # ---------------------------------------------------------------- in
    vis = visitors(P)
    srcs = []
    for adt, nm in ((MAP, 'map'), (SEQ, 'seq')):
        fn = impl_fn(P, adt, 'candid::Deserialize', 'deserialize') or impl_fn(P, adt, 'serde::Deserialize', 'deserialize')
        if not fn: rep.bad('anchor:%s:deserialize' % nm, '%s implements Deserialize' % nm); continue
        n += 1
        def go(fn=fn, nm=nm, adt=adt):
            I, a, outs = run2(P, fn); rep.fns |= I.visited
            key = nm + ':deserialize'; ok = 0
            for s, v in outs:
                if iserr(v): continue
                if failed(s): rep.bad(key, 'decoder errors are returned', where(P, fn), '; '.join(s.path)); continue
                ok += 1
                if v[:2] == ('t', 'visited'):
                    vt = v[2][1] if v[2][0] == 'adt' else None
                    ms = vis.get(vt)
                    call = [e[1] for e in s.ev if e[0] == 'deser']
                    want = {'deserialize_map': 'visit_map', 'deserialize_seq': 'visit_seq'}.get(call[-1] if call else '')
                    if ms is None: rep.undecided(key, 'the visitor of %s is known' % nm, where(P, fn), show(v)); continue
                    rep.expect(want is None or want in ms, key, 'the visitor accepts what the decoder is asked for', where(P, fn), '%s needs %s; %s has %s' % (call, want, vt, sorted(ms)))
                    continue
                c = find_seq(pure(I, s, v), adt)
                if c is None: rep.undecided(key, 'decoded collection', where(P, fn), show(v)); continue
                d = judge_built(I, s, c, nm, hl, inner, ('t', 'decoded', ('t', 'arg', 0)))
                if d == 'und': rep.undecided(key, 'every decoded element is kept', where(P, fn), show(c)[:400])
                else: rep.expect(d is None, key, 'every decoded element is kept, in order', where(P, fn), d)
            rep.expect(ok > 0, key, 'decoding can succeed', where(P, fn))
        guarded(rep, nm + ':deserialize', 'decoding keeps every element', where(P, fn), go)
    n += built(rep, P, vis, hl, inner)
    rep.floor('serialization functions analysed', n, 10)


def judge_map(I, s, t, kinds, LEN, istv):
    if len(t) == 1 and t[0][0] == 'collect':
        if t[0][1] != 'collect_map': return 'und'
        return None if len(t[0][2]) == 1 and istv(t[0][2][0]) and t[0][3] == ('entries',) else 'und'
    if any(e[0] in ('whole',) for e in t): return 'und'
    if not t or t[0][0] not in ('map', 'vec', 'seq'): return 'und' if has_unknown(t) else 'nothing is announced'
    if t[0][0] not in kinds: return 'und'
    body = t[1:]
    ln = t[0][1]
    if body and body[-1] == ('end',): body = body[:-1]
    elif t[0][0] == 'map': return 'the map is not ended'
    if ('end',) in body: return 'ended twice'
    eff = [e for e in body]
    # an empty map may skip the loop
    empty = s.rel(LEN, ('i', 0)) == {'='} if LEN else False
    if not eff:
        if not empty: return 'no entry is emitted'
    elif len(eff) != 1 or eff[0][0] != 'each': return 'und' if any(e[0] == 'each' for e in eff) and False else 'entries are not emitted by one loop over the map' if len([e for e in eff if e[0] == 'each']) != 1 else 'something besides the entries is emitted'
    else:
        src = eff[0][1]
        if src[:2] == ('t', 'part'): return 'the loop stops before the last entry'
        if len(src) != 1 or not istv(src[0]): return 'the loop covers %s' % (src,) if partial(src) else 'und'
        for a in eff[0][2]:
            if not entry_item(I, s, a): return 'a loop step emits %s' % (a,)
    if ln != LEN and not (empty and ln == ('i', 0)):
        if kinds == ('map',) and ln == NONE: return 'the length is not announced'
        return 'und' if has_unknown(ln) or ln[:2] not in (('t', 'f'), ('t', 'add'), ('t', 'sub')) and ln[0] != 'i' and ln[:1] != ('t',) else 'the announced length is %s' % show(ln)
    return None


def judge_seq(I, s, t, IT):
    LENS = (('t', 'len', IT),)
    t = [tuple(pure(I, s, y) if isinstance(y, tuple) and y and y[0] in ('p', 'bx', 'adt') else y for y in e) for e in t]
    if len(t) == 1 and t[0][0] == 'whole': return None if t[0][2] == IT or t[0][2] == ('t', 'at', IT) else 'und' if has_unknown(t[0][2]) else 'something else than the items is emitted: %s' % (t[0][2],)
    if len(t) == 1 and t[0][0] == 'collect': return None if t[0][2] == (IT,) and set(t[0][3]) <= {'refs'} else 'the items %s are emitted' % (t[0][2],) if partial(t[0][2]) else 'und'
    if not t or t[0][0] not in ('seq', 'vec'): return 'und'
    body = t[1:]
    if body and body[-1] == ('end',): body = body[:-1]
    elif t[0][0] == 'seq': return 'the sequence is not ended'
    if body:
        if len(body) != 1 or body[0][0] != 'each': return 'something besides the items is emitted'
        src = body[0][1]
        if src[:2] == ('t', 'part'): return 'the loop stops before the last item'
        if tuple(src) != (IT,): return 'the loop covers %s' % (src,)
        for a in body[0][2]:
            if not elem_item(I, s, a): return 'a loop step emits %s' % (a,)
    elif s.facts.get(('t', 'isempty', IT)) != 1: return 'no item is emitted'
    if t[0][1] not in LENS: return 'und' if t[0][1][0] == 't' and t[0][1][1] not in ('len', 'sub', 'add', 'cap') else 'the announced length is %s' % show(t[0][1])
    return None


def elem_types(P, fn):
    """the parameters of the collection type in the impl the method belongs to"""
    for im in P.impls:
        if fn in im['items']: return [x.get('s') for x in im['self'].get('a', ()) if x.get('k') == 'param' or x.get('s')]
    return []


def judge_ty(I, s, v, nm, names):
    v = pure(I, s, v)
    if v[:3] == ('t', 'candidty', 'vec'): return None if nm == 'seq' and v[3] == names[0] else 'und'
    if v[0] != 'adt' or 'Type' not in v[1]: return 'und'
    ad = I.P.adts.get(v[1])
    vn = ad['variants'][v[2]]['name'] if ad else None
    if vn != 'Vec': return 'not a vector' if vn else 'und'
    x = v[3][0]
    if nm == 'seq': return None if istype_of(x, names[0]) else 'und'
    if x[0] != 'adt': return 'und'
    if ad['variants'][x[2]]['name'] != 'Record': return 'elements are not records'
    fs = [y[3][0] if y[:2] == ('adt', '@one') else None for y in vec_segs(x[3][0])]
    if None in fs: return 'und'
    if len(fs) != 2: return 'records have %d fields' % len(fs)
    for j, (f, want) in enumerate(zip(fs, names)):
        if f[0] != 'adt': return 'und'
        lab = [y for y in f[3] if y[0] == 'adt' and 'Label' in y[1]]
        ty = [y for y in f[3] if y not in lab]
        if not lab or lab[0][3] != (('i', j),): return 'field %d is labelled %s' % (j, lab)
        if not istype_of(ty[0], want): return 'field %d has type %s' % (j, show(ty[0]))
    return None


def istype_of(x, p):
    return x[:2] == ('t', 'candidty') and x[2] == p


def judge_built(I, s, c, nm, hl, inner, src):
    if nm == 'seq':
        items = tuple(x for x in drop_empty(s, norm_segs(vec_segs(c[3][hl[1]]))))
        if items == (src,) or s.facts.get(('t', 'isempty', src)) == 1 and items == ():
            try: cov = Hash(*hl).covers(c[3][hl[0]])
            except Wrong as w: return str(w)
            if cov is None: return 'und'
            cov = drop_empty(s, norm_segs(cov))
            return None if same_segs(cov) == same_segs(items) else 'the hash covers %s, the sequence holds %s' % ([show(x) for x in cov], [show(x) for x in items])
        if has_unknown(items): return 'und'
        if len(items) == 1 and items[0][:2] == ('t', 'each'):
            return 'the loop stops early' if items[0][2][:2] == ('t', 'part') else 'a step adds %s' % (items[0][3],)
        return 'the sequence holds %s' % [show(x) for x in items]
    t = c[3][inner]
    if isempty_tree(t):
        return None if s.facts.get(('t', 'isempty', src)) == 1 else 'nothing is inserted'
    if t[:2] == ('t', 'ins') and isempty_tree(t[2]) and t[3:] == (('t', 'f', ('t', 'item', src), 0), ('t', 'f', ('t', 'item', src), 1)) and not any(has_term(f, lambda x: x[:3] == ('t', 'tail', src)) for f in s.facts):
        return 'only the first element is inserted, whatever follows it'
    if t[:2] != ('t', 'fold'): return 'und' if has_unknown(t) or t[:2] == ('t', 'treeop') else 'und'
    if t[2] and t[2][:2] == ('t', 'part'): return 'the loop stops before the last element'
    if tuple(t[2]) != (src,):
        return 'elements %s are inserted' % (t[2],) if partial(t[2]) else 'und'
    if not isempty_tree(t[3]): return 'the collection does not start empty: %s' % (t[3],)
    steps = t[4][2] if t[4][:2] == ('t', 'alt') else (t[4],)
    k, v = ('t', 'f', ITEM, 0), ('t', 'f', ITEM, 1)
    for x in steps:
        if x == ('t', 'ins', ACC, k, v): continue
        if x == ACC: return 'a step inserts nothing'
        if x[:2] == ('t', 'insnew'): return 'a step keeps the value already present when a key occurs again'
        if x[:2] == ('t', 'ins') and x[2] == ACC and not has_unknown(x): return 'a step inserts (%s, %s)' % (show(x[3]), show(x[4]))
        return 'und'
    return None


def isempty_tree(t):
    return t[0] == 'adt' and t[1] == TREE and all(x in (NULL, ('i', 0)) or x[0] != 't' for x in t[3]) or t[:2] == ('t', 'default')
