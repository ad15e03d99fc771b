"""C22: typed access to group members."""
from gbuild import *

DYN = 'GroupLeaf'


def isdyn(t): return t.get('k') == 'dyn' and DYN in t.get('s', '')


def dynfns(P):
    out = []
    for f, d in P.fns.items():
        if '{' in f or not d.get('body') or not d.get('ins') or len(d['ins']) != 1: continue
        t = d['ins'][0]
        if t['k'] != 'ref' or not isdyn(t['t']): continue
        tp = [x for x in P.tparams(f)]
        if not tp: continue
        o = d['out']
        if o['k'] == 'bool' or o.get('s') == 'bool': out.append((f, 'is'))
        elif o.get('n') in (OPT, RES) and o['a'][0].get('k') == 'ref' and o['a'][0]['t'].get('n') == tp[0]: out.append((f, 'down'))
        elif o['k'] == 'ref' and o['t'].get('n') == tp[0]: out.append((f, 'down'))
    return sorted(out)


def c22(rep, ctx):
    P = ctx.prog()
    rep.rule.append('Every function turning a type-erased member into a typed reference is interpreted: a typed reference is produced only on paths where the dynamic type identifier of that very object compared equal to the identifier of the requested type. '
                    'Members are stored only under the identifier of the type they are stored with, and read only under the identifier of the requested type. All pointer casts to generic types and transmutes of the crate are enumerated.')
    rep.assume += ['std::any::TypeId identifies types; Any::type_id is implemented only by the standard library', 'models of the standard library']
    L = Lay(P)
    if not (L.group_ok() and L.builder_ok()): rep.undecided('layout', 'group layout', GROUP, 'fields of the group types not recognised'); return
    for ad, i in ((GROUP, L.data), (BUILDER, L.bdata)):
        f = P.adts[ad]['variants'][0]['fields'][i]
        rep.expect(f.get('vis') != 'pub', 'private:' + ad.rsplit('::', 1)[-1], 'the members of a group cannot be replaced from outside', ad, 'field %s is public' % f['name'])
    dyn = dynfns(P)
    for fn, kind in dyn: guarded(rep, shortfn2(fn), 'typed views of type-erased members', where(P, fn), lambda: dyn_case(rep, P, L, fn, kind))
    getters(rep, P, L)
    partial(rep, P, L)
    storing(rep, P, L)
    casts(rep, P)
    touches(rep, P, L)
    rep.floor('typed views of group members', len(dyn) + 2, 2)


def shortfn2(f): return '::'.join(x for x in strip_generics(f).replace('<', '').replace('>', '').rsplit('::', 2)[-2:]) if 'dyn' not in f else 'dyn GroupLeaf::' + f.rsplit('::', 1)[-1]


def compared(s, obj, tid):
    """fact about the comparison of the dynamic type of obj with tid: True, False or None"""
    t = ('t', 'cmpop', 'Eq') + tuple(sorted((('t', 'dyntid', obj), tid), key=repr))
    for f, b in s.facts.items():
        if f == t: return bool(b)
    for r, x, y in s.order:
        if {x, y} == {('t', 'dyntid', obj), tid}: return r == '='
    return None


def involved(s, tid): return any(has_term(f, lambda t: t == tid) for f in s.facts) or any(has_term((x, y), lambda t: t == tid) for r, x, y in s.order)


def dyn_case(rep, P, L, fn, kind):
    I = GI(P, L); st = State()
    v0 = ('t', 'member'); st.mem[('member',)] = v0
    key = shortfn2(fn); wh = where(P, fn)
    tid = ('t', 'typeid', first_tparam(P, fn))
    outs = allpaths(I, fn, [('p', ('member',), ())], st)
    rep.fns |= I.visited
    what = {'is': 'the answer is the comparison of the dynamic type with the requested type', 'down': 'a typed reference is produced exactly when the dynamic type equals the requested type'}[kind]
    rep.expect(bool(outs), key + ':returns', what, wh, 'no path returns')
    for s, v in outs:
        if kind == 'is':
            if v[0] == 't' and v[1] in ('cmpop', 'not'):
                ts = []
                for b in (0, 1):
                    pass
                t = v; neg = False
                while t[1] == 'not': t = t[2]; neg = not neg
                if t[1] == 'cmpop' and t[2] == 'Ne': neg = not neg
                ok = t[1] == 'cmpop' and t[2] in ('Eq', 'Ne') and set(t[3:]) == {('t', 'dyntid', v0), tid} and not neg
                if ok: rep.ok(key, what, wh)
                else: rep.bad(key, what, wh, 'answers %s' % show(v))
                continue
            c = compared(s, v0, tid)
            if v[0] == 'i' and c is not None: rep.expect(bool(v[1]) == c, key, what, wh, 'answers %s although the comparison is %s' % (bool(v[1]), c))
            elif v[0] == 'i' and not involved(s, tid): rep.bad(key, what, wh, 'answers %s without comparing the dynamic type' % bool(v[1]))
            else: rep.undecided(key, what, wh, show(v)[:200])
            continue
        c = compared(s, v0, tid)
        got = v
        if v[0] == 'adt' and v[1] == OPT: got = v[3][0] if v[2] == 1 else None
        if v[0] == 'adt' and v[1] == RES: got = v[3][0] if v[2] == 0 else None
        if v[:2] == ('t', 'anydown'):
            ok = v[2] == v0 and ('t', 'typeid', v[3]) == tid
            rep.expect(ok, key, what, wh, 'a checked downcast of %s to %s' % (show(v[2]), v[3])); continue
        if got is None:
            if c is False: rep.ok(key, what, wh)
            elif c is True: rep.bad(key, what, wh, 'nothing is produced although the types are equal')
            elif not involved(s, tid): rep.bad(key, what, wh, 'nothing is produced without comparing the dynamic type')
            else: rep.undecided(key, what, wh, 'comparison not recognised: ' + '; '.join(s.path)[:200])
            continue
        if got[0] != 'p': rep.undecided(key, what, wh, show(got)[:200]); continue
        same = unbox(I, s, got) == v0
        if not same: rep.undecided(key, what, wh, 'points to %s' % show(unbox(I, s, got))[:200]); continue
        if c is True: rep.ok(key, what, wh)
        elif c is False: rep.bad(key, what, wh, 'a typed reference is produced although the types differ')
        else:
            cmps = [f for f in s.facts if has_term(f, lambda t: t[:1] == ('t',) and t[1] in ('typeid', 'dyntid'))] + [o for o in s.order if has_term(o[1:], lambda t: t[:1] == ('t',) and t[1] in ('typeid', 'dyntid'))]
            opaque = any(has_term(f, lambda t: t[:2] in (('t', 'call'), ('t', 'callf'))) for f in list(s.facts) + list(s.order))
            if opaque: rep.undecided(key, what, wh, 'guard not recognised: ' + '; '.join(s.path)[:200])
            else: rep.bad(key, what, wh, 'a typed reference is produced without comparing the dynamic type with the requested one' + ('; compared: %s' % show(cmps[0])[:150] if cmps else ''))


def getters(rep, P, L):
    for nm in ('get', 'get_mut'):
        fn = on_group(P, rep, nm)
        if not fn: continue
        def judge(I, s, v, fn=fn):
            tid = ('t', 'typeid', first_tparam(P, fn))
            return wrong_member(I, s, v, tid)
        def go(fn=fn, nm=nm):
            I, st, args, _ = setup(P, L, fn, None)
            outs = allpaths(I, fn, args, st); rep.fns |= I.visited
            key = 'Group::' + nm; what = 'the member of the requested type is returned'
            tid = ('t', 'typeid', first_tparam(P, fn))
            rep.expect(bool(outs), key + ':returns', what, where(P, fn), 'no path returns')
            for s, v in outs:
                if v[0] == 'adt' and v[1] in (OPT, RES):
                    none = (v[1] == OPT) == (v[2] == 0)
                    if none:
                        had = s.facts.get(('t', 'has', I.gdata, tid))
                        if had == 0: rep.ok(key, what, where(P, fn))
                        else: rep.bad(key, what, where(P, fn), 'a present member is not returned')
                        continue
                    v = v[3][0]
                d = wrong_member(I, s, v, tid)
                if d is None: rep.ok(key, what, where(P, fn))
                elif d[0] == '?': rep.undecided(key, what, where(P, fn), d[1:])
                else: rep.bad(key, what, where(P, fn), d + '  [' + '; '.join(s.path)[:300] + ']')
        guarded(rep, 'Group::' + nm, 'typed access', where(P, fn), go)


def wrong_member(I, s, v, tid):
    if v[0] != 'p': return '?' + show(v)[:200]
    o, p = I.deref(s, v); x = I.read(s, o, p)
    while x[0] in ('p', 'bx') and x != NULL: x = I.read(s, *I.deref(s, x))
    if x == ('t', 'mval', I.gdata, tid): return None
    if x[:3] == ('t', 'mval', I.gdata):
        t = ('t', 'cmpop', 'Eq') + tuple(sorted((('t', 'dyntid', x), tid), key=repr))
        return 'returns the member stored under %s' % show(x[3])
    return '?' + show(x)[:200]


def partial(rep, P, L):
    fn = on_ray(P, rep, 'partial')
    if not fn: return
    def go():
        I, st, args, _ = setup(P, L, fn, None)
        outs = allpaths(I, fn, args, st); rep.fns |= I.visited
        key = 'Ray::partial'; what = 'the caller is shown the member of the requested type'; tid = ('t', 'typeid', first_tparam(P, fn))
        for s, v in outs:
            for e in s.ev:
                if e[0] != 'callf': continue
                for a in e[2]:
                    d = wrong_member(I, s, a, tid)
                    if d is None: rep.ok(key, what, where(P, fn))
                    elif d[0] == '?': rep.undecided(key, what, where(P, fn), d[1:])
                    else: rep.bad(key, what, where(P, fn), d.replace('returns', 'shows'))
    guarded(rep, 'Ray::partial', 'typed access', where(P, fn), go)


def storing(rep, P, L):
    fn = find1(P, rep, lambda f: f == BUILDER + '::insert', 'GroupBuilder::insert')
    fns = [fn] if fn else []
    fns += [f for f in touching(P, L) if f not in fns and f not in rep.fns and not any(f.startswith(g + '::{') for g in rep.fns | set(fns))]
    for fn in fns:
        guarded(rep, 'store:' + shortfn2(fn) if fn != fns[0] else 'GroupBuilder::insert', 'a member is stored under the identifier of its own type', where(P, fn), lambda: store_case(rep, P, L, fn, fn == fns[0]))


def store_case(rep, P, L, fn, main):
    key = 'GroupBuilder::insert' if main else 'store:' + shortfn2(fn); wh = where(P, fn); what = 'a member is stored under the identifier of its own type'
    if fn in rep.fns and not main: return rep.ok(key, what, wh)
    I = BI(P, L); st = State()
    ins = P.fns[fn].get('ins') or []
    b = tuple(('t', 'f', ('t', 'builder'), i) for i in range(len(P.adts[BUILDER]['variants'][0]['fields'])))
    g = tuple(('t', 'f', ('t', 'group'), i) for i in range(len(P.adts[GROUP]['variants'][0]['fields'])))
    args = []; types = {}
    for i, t in enumerate(ins):
        if tn(t) in (BUILDER, GROUP):
            o, fs = (('builder',), b) if tn(t) == BUILDER else (('group',), g)
            st.mem[o] = ('adt', tn(t), 0, fs)
            args.append(('p', o, ()) if t['k'] == 'ref' else st.mem[o])
        else:
            a = symval(I, st, t, ('t', 'arg', i)); args.append(a)
            x = t
            while x.get('n') == 'std::boxed::Box': x = x['a'][0]
            types[unbox(I, st, a)] = 'dyn' if isdyn(x) else x.get('s')
    outs = allpaths(I, fn, args, st); rep.fns |= I.visited
    n = 0
    for s, r in outs:
        tables = set()
        def collect_(v, d=0):
            if d > 12 or not isinstance(v, tuple): return
            if v[:1] == ('adt',) and len(v) == 4 and v[1] == BUILDER: tables.add(v[3][L.bdata])
            elif v[:1] == ('adt',) and len(v) == 4 and v[1] == GROUP: tables.add(v[3][L.data])
            for x in v: collect_(x, d + 1)
        collect_(r)
        for o in (('builder',), ('group',)):
            if o in s.mem: collect_(s.mem[o])
        if r[0] == 'p': collect_(unbox(I, s, r))
        for m in tables:
            while m[:2] in (('t', 'put'), ('t', 'del')):
                if m[1] == 'put':
                    x = unbox(I, s, m[4]); n += 1; k = m[3]
                    if x in types and types[x] != 'dyn':
                        if k == ('t', 'typeid', types[x]) or k == ('t', 'dyntid', x): rep.ok(key, what, wh)
                        elif k[:2] in (('t', 'typeid'), ('t', 'dyntid'), ('t', 'arg')): rep.bad(key, what, wh, 'a member of type %s is stored under %s' % (types[x], show(k)))
                        else: rep.undecided(key, what, wh, show(k)[:200])
                    elif x in types:
                        if k == ('t', 'dyntid', x): rep.ok(key, what, wh)
                        elif k[:2] in (('t', 'typeid'), ('t', 'dyntid'), ('t', 'arg')): rep.bad(key, what, wh, 'a member is stored under %s' % show(k))
                        else: rep.undecided(key, what, wh, show(k)[:200])
                    elif x[:2] == ('t', 'mval') and k[:2] in (('t', 'typeid'), ('t', 'dyntid'), ('t', 'arg')) and k != x[3] and k != ('t', 'dyntid', x): rep.bad(key, what, wh, 'the member of %s is stored under %s' % (show(x[3]), show(k)))
                    elif x[:2] == ('t', 'mval') and k == x[3]: rep.ok(key, what, wh)
                    else: rep.undecided(key, what, wh, show(x)[:200])
                m = m[2]
    if not n: (rep.undecided if main else lambda *a: rep.ok(key, what, wh))(key, what, wh, 'no member is stored')


def mentions_param(t): return t.get('k') in ('param', 'dyn')


def casts(rep, P):
    n = 0
    for f, x in sorted(P.fns.items()):
        if not x.get('body'): continue
        for b in x['body']['bbs']:
            if b['cleanup']: continue
            for s in b['s']:
                if s['s'] != '=' or s['r']['r'] != 'cast': continue
                k, t = s['r']['k'], s['r']['t']
                if 'Transmute' in k and t.get('k') in ('ref', 'ptr') or 'PtrToPtr' in k and t.get('k') == 'ptr' and t['t'].get('k') == 'param':
                    n += 1
                    if f in rep.fns: rep.ok('cast:' + shortfn2(f), 'unchecked casts to a requested type are analysed', where(P, f))
                    else: rep.undecided('cast:' + shortfn2(f), 'unchecked casts to a requested type are analysed', where(P, f), 'a cast to %s outside the analysed functions' % t.get('s'))
            t = b['t']
            if t['t'] == 'call':
                nm = ((t.get('f') or {}).get('p') or '') if isinstance(t.get('f'), dict) else ''
                if any(nm.endswith(y) for y in ('::transmute', '::transmute_copy', 'downcast_unchecked', 'downcast_ref_unchecked', 'downcast_mut_unchecked')):
                    n += 1
                    if f not in rep.fns: rep.undecided('cast:' + shortfn2(f), 'unchecked casts are analysed', where(P, f), nm)
    rep.note_count('unchecked casts enumerated', n) if hasattr(rep, 'note_count') else None


def touching(P, L):
    """functions borrowing the member tables uniquely or assigning them"""
    out = []
    for f, x in sorted(P.fns.items()):
        if not x.get('body') or '{' in f: continue
        if any(s['s'] == '=' and (s['r']['r'] in ('ref', 'addr') and s['r'].get('m') and through(P, x, s['r']['p'], L) or through(P, x, s['p'], L))
               for b in x['body']['bbs'] if not b['cleanup'] for s in b['s']): out.append(f)
    return out


def touches(rep, P, L):
    for f in touching(P, L):
        if f not in rep.fns and not any(f.startswith(g + '::{') for g in rep.fns): rep.undecided('table:' + shortfn2(f), 'writers of the member tables are analysed', where(P, f), 'not reached from an analysed function')


def through(P, x, pl, L):
    """does the place select the member table of a group or builder"""
    ty = x['body']['locals'][pl[0]]['ty'] if isinstance(pl[0], int) else None
    if ty is None: return False
    for e in pl[1:]:
        if e == '*' or e == 'deref' or isinstance(e, dict) and 'deref' in e: ty = ty.get('t', ty); continue
        if isinstance(e, dict) and 'f' in e:
            if ty.get('n') == GROUP and e['f'] == L.data or ty.get('n') == BUILDER and e['f'] == L.bdata: return True
            return False
    return False
