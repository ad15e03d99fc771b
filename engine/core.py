"""Abstract interpreter over MIR (JSON dump of the real build).

Values (immutable):
  ('i', n)                          integers, booleans, chars with a known value
  ('b', bytes)                      literal strings / byte strings
  ('adt', name, variant, fields)    aggregates (tuples: '()', closures: 'closure:<path>', arrays: '[]')
  ('p', obj, path)                  references and raw pointers
  ('bx', obj)                       owning Box
  ('fn', path, full, meta)          function items / pointers
  ('t', op, ...)                    opaque terms
  ('undef',)                        moved-out / uninitialised
Objects live in State.mem.  Nothing is executed: values are terms over
unknown inputs, branches on unknown facts split the abstract state and
recursion/loops go through inductive summaries (see tree.py).
"""
import sys
sys.setrecursionlimit(20000)

UNDEF = ('undef',)
UNIT = ('adt', '()', 0, ())
TRUE, FALSE = ('i', 1), ('i', 0)
NULL = ('p', 'null', ())
OPT = 'std::option::Option'
RES = 'std::result::Result'
COW = 'std::borrow::Cow'
ORD = 'std::cmp::Ordering'
NONE = ('adt', OPT, 0, ())


def some(v): return ('adt', OPT, 1, (v,))
def tup(*a): return ('adt', '()', 0, tuple(a))
def boolv(b): return TRUE if b else FALSE
ORDV = {'<': ('adt', ORD, 0, ()), '=': ('adt', ORD, 1, ()), '>': ('adt', ORD, 2, ())}


class Fork(Exception):
    def __init__(self, alts): self.alts = alts  # list of states


class Infeasible(Exception): pass


class Undecided(Exception):
    def __init__(self, why, at=None):
        super().__init__(why); self.why = why; self.at = at


class Budget(Undecided): pass


class Bad(Exception):
    """A definite violation met while interpreting (e.g. null dereference)."""
    def __init__(self, rule, msg, at=None, st=None):
        super().__init__(msg); self.rule = rule; self.msg = msg; self.at = at; self.st = st


FLIP = {'<': '>', '=': '=', '>': '<'}


COVER = None        # blocks interpreted, when a check asks for them
PLOG = None         # panics met anywhere, when a check asks for them
INDEXCHECK = None   # looks at index expressions
SOFT = set()        # results of saturating and wrapping subtractions (recorded while SUBCHECK is set)
SUBCHECK = None     # decides whether an arithmetic check holds


class Panics(list):
    def __init__(self, I): self.I = I
    def append(self, x):
        list.append(self, x)
        if PLOG is not None:
            d = getattr(self.I, 'domain', None)
            x[-1].x = dict(x[-1].x, ctx=getattr(d, 'ctx', None))
            PLOG.append((self.I, tuple(f for f, _ in self.I.stack)) + tuple(x))


class State:
    __slots__ = ('mem', 'facts', 'nfacts', 'order', 'regs', 'nullf', 'tree', 'freed', 'rw', 'ev', 'path', 'x', 'dead')

    def __init__(self):
        self.mem = {}; self.facts = {}; self.nfacts = {}; self.order = frozenset(); self.regs = {}
        self.nullf = {}; self.tree = {}; self.freed = frozenset(); self.rw = {}
        self.ev = (); self.path = (); self.x = {}; self.dead = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.nfacts = dict(self.nfacts)
        s.order = self.order; s.regs = dict(self.regs); s.nullf = dict(self.nullf)
        s.tree = dict(self.tree); s.freed = self.freed; s.rw = dict(self.rw); s.ev = self.ev
        s.path = self.path; s.x = dict(self.x); s.dead = self.dead
        return s

    # ---- events / path notes
    def note(self, d): self.path = self.path + (d,)
    def emit(self, *e): self.ev = self.ev + (e,)

    # ---- total order facts on terms
    def rel(self, a, b):
        """possible relations of a to b, given the recorded facts"""
        if a == b: return {'='}
        if a[0] == 'i' and b[0] == 'i':
            return {'<'} if a[1] < b[1] else {'='} if a[1] == b[1] else {'>'}
        # union-find by '=' then closure on '<' / '<='
        par = {}
        def find(x):
            while par.get(x, x) != x: x = par[x]
            return x
        for (r, x, y) in self.order:
            if r == '=':
                fx, fy = find(x), find(y)
                if fx != fy: par[fx] = fy
        A, B = find(a), find(b)
        if A == B: return {'='}
        lt = {}; le = {}; ne = set()
        for (r, x, y) in self.order:
            X, Y = find(x), find(y)
            if r == '<': lt.setdefault(X, set()).add((Y, True))
            elif r == '<=': lt.setdefault(X, set()).add((Y, False))
            elif r == '!=': ne.add((X, Y)); ne.add((Y, X))
        consts = [x for x in self._terms() if x[0] == 'i'] + [x for x in (a, b) if x[0] == 'i']
        for i in consts:
            for j in consts:
                if i[1] < j[1]: lt.setdefault(find(i), set()).add((find(j), True))
        def reach(s, t):
            best = None; seen = {}
            st = [(s, False)]
            while st:
                n, strict = st.pop()
                if seen.get(n, -1) >= int(strict): continue
                seen[n] = int(strict)
                if n == t and (n != s or strict): best = strict if best is None else (best or strict)
                for (m, sg) in lt.get(n, ()): st.append((m, strict or sg))
            return best
        f, g = reach(A, B), reach(B, A)
        poss = {'<', '=', '>'}
        if f is not None: poss -= {'>'}
        if f: poss -= {'='}
        if g is not None: poss -= {'<'}
        if g: poss -= {'='}
        if (A, B) in ne: poss -= {'='}
        return poss

    def _terms(self):
        s = set()
        for (_, x, y) in self.order: s.add(x); s.add(y)
        return s

    def add_rel(self, a, r, b):
        if r == '>': a, r, b = b, '<', a
        if r == '>=': a, r, b = b, '<=', a
        self.order = self.order | {(r, a, b)}


class Frame:
    __slots__ = ('fn', 'fid', 'body', 'args', 'tenv')
    def __init__(self, fn, fid, body): self.fn, self.fid, self.body = fn, fid, body; self.tenv = {}


def has_term(v, pred):
    if isinstance(v, tuple):
        if pred(v): return True
        return any(has_term(x, pred) for x in v)
    return False


def subst(v, m):
    if isinstance(v, tuple):
        if v in m: return m[v]
        return tuple(subst(x, m) for x in v)
    return v


class Program:
    def __init__(self, d):
        self.d = d; self.fns = d['fns']; self.adts = d['adts']; self.impls = d['impls']
        self._loops = {}
        self.callg = None

    def callees(self, fn):
        out = set()
        f = self.fns.get(fn)
        if not f: return out
        def visit(o):
            if isinstance(o, dict):
                if 'fn' in o and isinstance(o['fn'], dict) and 'p' in o['fn']:
                    x = o['fn']
                    p = self.resolve(x)
                    if p: out.add(p)
                if o.get('k') == 'closure' and 'n' in o: out.add(o['n'])
                for v in o.values(): visit(v)
            elif isinstance(o, list):
                for v in o: visit(v)
        for b in f['body']['bbs']:
            if not b['cleanup']: visit(b['s']); visit(b['t'])
        return out

    def resolve(self, x):
        """dump path of a callee, if its body is in the dump"""
        if x.get('trait') and not x.get('res'): return None    # unresolved trait method: never the default body
        for k in ('res', 'p'):
            p = x.get(k)
            if p and p in self.fns: return p
        return None

    def sccs(self):
        """functions on a call-graph cycle"""
        if self.callg is not None: return self.callg
        g = {f: [c for c in self.callees(f) if c in self.fns] for f in self.fns}
        index = {}; low = {}; onst = set(); st = []; res = {}; cnt = [0]
        def strong(v):
            work = [(v, iter(g[v]))]
            index[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); onst.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); onst.add(w)
                        work.append((w, iter(g[w]))); adv = True; break
                    elif w in onst: low[u] = min(low[u], index[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        w = st.pop(); onst.discard(w); comp.append(w)
                        if w == u: break
                    rec = len(comp) > 1 or u in g[u]
                    for w in comp: res[w] = frozenset(comp) if rec else None
        for f in g:
            if f not in index: strong(f)
        self.callg = res
        return res

    def is_local(self, path, meta):
        """a body we can look into (an unresolved trait method is opaque even if the trait has a default body)"""
        return path in self.fns and not (meta and meta.get('trait') and not meta.get('res'))

    def tparams(self, fn):
        return [g['n'] for g in self.fns[fn].get('generics', ()) if not g['k'].startswith('Lifetime')]

    def impl_for(self, trait, sty):
        """the unique local impl of `trait` whose self type matches"""
        hits = []
        for im in self.impls:
            if im['trait'] != trait: continue
            m = {}
            if unify(im['self'], sty, m): hits.append((im, m))
        if len(hits) > 1: hits = [h for h in hits if h[0]['self'].get('s') == sty.get('s')]
        return hits[0] if len(hits) == 1 else None

    def recursive(self, fn): return self.sccs().get(fn)

    def loops(self, fn):
        """loop head -> set of blocks in the natural loop (non-cleanup CFG)"""
        if fn in self._loops: return self._loops[fn]
        bbs = self.fns[fn]['body']['bbs']
        succ = [[] if b['cleanup'] else [s for s in term_succ(b['t']) if not bbs[s]['cleanup']] for b in bbs]
        pred = [[] for _ in bbs]
        for i, ss in enumerate(succ):
            for s in ss: pred[s].append(i)
        # DFS back edges
        color = [0] * len(bbs); back = []
        stack = [(0, iter(succ[0]))]; color[0] = 1
        while stack:
            u, it = stack[-1]
            for w in it:
                if color[w] == 0:
                    color[w] = 1; stack.append((w, iter(succ[w]))); break
                elif color[w] == 1: back.append((u, w))
            else:
                color[u] = 2; stack.pop()
        res = {}
        for (u, h) in back:
            body = res.setdefault(h, {h})
            wl = [u]
            while wl:
                x = wl.pop()
                if x in body: continue
                body.add(x); wl.extend(p for p in pred[x] if color[p])
        self._loops[fn] = res
        return res


def term_succ(t):
    k = t['t']
    if k == 'goto': return [t['to']]
    if k == 'switch': return [x[1] for x in t['c']] + ([t['else']] if t['else'] is not None else [])
    if k in ('call', 'drop', 'assert'): return [t['to']] if t.get('to') is not None else []
    return []


class Interp:
    """policy hooks are overridden by the analyses"""
    MAXSTEPS = 6000000

    def __init__(self, prog, models):
        self.P = prog; self.models = models; self.fid = 0; self.steps = 0
        self.stack = []          # function names being interpreted
        self.visited = set()     # functions analysed (evidence)
        self.at = None
        self.panics = Panics(self)         # (fn, at, msg, state)
        self.ncalls = 0
        self.domain = None       # tree domain
        self.inline_block = set()
        self.bads = None
        self.undec = None        # undecided paths are recorded and dropped when this is a list

    # ------------------------------------------------------------ memory
    def pty(self, ty, e):
        """type of a projection"""
        if ty is None: return None
        if e == '*':
            if ty['k'] in ('ref', 'ptr'): return ty['t']
            if ty['k'] == 'adt' and ty.get('a'): return ty['a'][0]
            return None
        if e == 'b':
            return ty['a'][0] if ty.get('a') else None
        if isinstance(e, dict) and 'v' in e:
            return dict(ty, variant=e['v'])
        if isinstance(e, dict) and 'f' in e:
            i = e['f']
            if ty['k'] == 'tuple': return ty['a'][i] if i < len(ty['a']) else None
            if ty['k'] == 'closure': return None
            if ty['k'] == 'adt':
                n = ty['n']
                if n == OPT: return ty['a'][0] if ty.get('a') else None
                if n == RES:
                    v = ty.get('variant', 0); return ty['a'][v] if len(ty.get('a', ())) > v else None
                ad = self.P.adts.get(n)
                if not ad: return None
                try: fty = ad['variants'][ty.get('variant', 0)]['fields'][i]['ty']
                except IndexError: return None
                g = self.adt_generics(n)
                return tsubst(fty, dict(zip(g, ty.get('a', []))))
        return None

    def adt_generics(self, n):
        # order of the generic parameters of a local ADT, recovered from an impl or self-type use
        ad = self.P.adts[n]
        if '_g' in ad: return ad['_g']
        g = ad.get('generics')
        if g is None:
            g = []
            def walk(t):
                if isinstance(t, dict):
                    if t.get('k') == 'param' and t['n'] not in g: g.append(t['n'])
                    for v in t.values(): walk(v)
                elif isinstance(t, list):
                    for v in t: walk(v)
            for v in ad['variants']:
                for f in v['fields']: walk(f['ty'])
        ad['_g'] = g
        return g

    def loc(self, st, fr, place):
        """-> (obj, path, ty)"""
        obj = ('L', fr.fid, place[0]); path = ()
        ty = fr.body['locals'][place[0]]['ty']
        for e in place[1:]:
            if e == '*' or e == 'b':
                v = self.read(st, obj, path, ty)
                t2 = self.pty(ty, e)
                obj, path = self.deref(st, v, t2)
                ty = t2
            elif 'f' in e:
                path = path + (e['f'],); ty = self.pty(ty, e)
            elif 'v' in e:
                ty = self.pty(ty, e)
                path = path + (('v', e['v']),)
            elif 'i' in e:
                iv = self.read(st, ('L', fr.fid, e['i']), (), None)
                path = path + (('i', iv),); ty = ty.get('t') if ty else None
            else:
                path = path + (('?', str(e)),); ty = None
        return obj, path, ty

    def deref(self, st, v, ty=None):
        if v[0] == 'p':
            if v[1] == 'null': raise Bad('null-deref', 'dereference of a null pointer', self.at, st)
            return v[1], v[2]
        if v[0] == 'bx': return v[1], ()
        if v[0] == 't':
            return ('d', v), ()
        if v[0] == 'adt' and v[1] in ('std::rc::Rc', 'std::sync::Arc', 'std::ptr::NonNull') :
            return self.deref(st, v[3][0], ty)
        raise Undecided('dereference of %r' % (v,), self.at)

    def initial(self, st, obj, ty):
        """value of an object that was not written yet"""
        if obj[0] == 'd': return ('t', 'val', obj[1])
        return UNDEF

    def access(self, st, obj):
        if obj in st.freed: raise Bad('use-after-free', 'access to a node after it was freed', self.at, st)
        if self.domain and self.domain.is_tree(st, obj): self.domain.touch(self, st, obj)

    def read(self, st, obj, path, ty=None):
        if path or True: self.access(st, obj)
        if obj not in st.mem: st.mem[obj] = self.initial(st, obj, ty)
        v = st.mem[obj]
        var = None
        for e in path:
            v, var = self.field(st, v, e, var)
        return self.typed(st, v, ty)

    def field(self, st, v, e, var=None):
        if isinstance(e, tuple) and e[0] == 'v': return v, e[1]
        if isinstance(e, int):
            if v[0] == 'adt':
                if var is not None and v[2] != var: raise Infeasible()
                return (v[3][e] if e < len(v[3]) else UNDEF), None
            if v[:2] == ('t', 'upd') and var is None and isinstance(v[3][0], int):
                if v[3][0] != e: return self.field(st, v[2], e)
                if len(v[3]) == 1: return v[4], None
            if v[0] == 't': return ('t', 'f', v, var, e) if var is not None else ('t', 'f', v, e), None
            if v == UNDEF: return UNDEF, None
            if v[0] in ('p', 'bx') : return v, None   # newtype-like wrappers around pointers (Box internals)
        if isinstance(e, tuple) and e[0] == 'i':
            if v[0] == 'adt' and v[1] == '[]' and e[1][0] == 'i' and e[1][1] < len(v[3]): return v[3][e[1][1]], None
            return ('t', 'idx', v, e[1]), None
        return ('t', 'proj', v, e), None

    def typed(self, st, v, ty):
        if ty is not None and v[0] == 't' and ty['k'] in ('ref', 'ptr'):
            return ('p', ('d', v), ())
        return v

    def write(self, st, obj, path, val, ty=None):
        self.access(st, obj)
        if self.domain and self.domain.is_tree(st, obj): self.domain.on_write(self, st, obj, path, val)
        if not path:
            st.mem[obj] = val; return
        if obj not in st.mem: st.mem[obj] = self.initial(st, obj, None)
        st.mem[obj] = self.setp(st, st.mem[obj], path, val, obj)

    def setp(self, st, v, path, val, obj=None):
        if not path: return val
        e = path[0]
        if isinstance(e, tuple) and e[0] == 'v':
            return self.setp(st, v, path[1:], val, obj) if v[0] == 'adt' else self.setp(st, self.expand(st, v, None, e[1]), path[1:], val, obj)
        if isinstance(e, int):
            if v[0] == 'adt':
                f = list(v[3])
                while len(f) <= e: f.append(UNDEF)
                f[e] = self.setp(st, f[e], path[1:], val, obj)
                return ('adt', v[1], v[2], tuple(f))
            if v[0] == 't':
                return ('t', 'upd', v, path, val)
            if v == UNDEF:
                return self.setp(st, ('adt', '?', 0, ()), path, val, obj)
        return ('t', 'upd', v, path, val)

    def expand(self, st, v, ty, var=0):
        return v

    def expand_obj(self, st, obj, path, ty):
        """make an opaque aggregate of known ADT type explicit, so its fields can be written"""
        if ty is None or ty['k'] not in ('adt', 'tuple'): return
        v = self.read(st, obj, path, ty)
        if v[0] != 't': return
        if ty['k'] == 'tuple': n = len(ty['a']); name = '()'
        else:
            ad = self.P.adts.get(ty['n'])
            if not ad or ad['kind'] != 'struct' or not ad.get('local'): return
            n = len(ad['variants'][0]['fields']); name = ty['n']
        fs = []
        for i in range(n):
            fv = ('t', 'f', v, i)
            fs.append(self.typed(st, fv, self.pty(ty, {'f': i})))
        nv = ('adt', name, 0, tuple(fs))
        if not path: st.mem[obj] = nv
        else: st.mem[obj] = self.setp(st, st.mem[obj], path, nv, obj)

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        if 'copy' in o or 'move' in o:
            pl = o.get('copy') or o.get('move')
            obj, path, ty = self.loc(st, fr, pl)
            v = self.read(st, obj, path, ty)
            if 'move' in o and not self.is_copyish(v, ty):
                self.write_move(st, obj, path)
            return v
        c = o['const']
        return self.const(st, c)

    def is_copyish(self, v, ty):
        if v[0] in ('i', 'fn', 'b'): return True
        if ty is not None:
            if ty['k'] in ('int', 'bool', 'char', 'ptr', 'fndef', 'fnptr'): return True
            if ty['k'] == 'ref' and not ty.get('m'): return True
        return False

    def write_move(self, st, obj, path):
        # moving out of a place: mark it, so that later drops are no-ops
        if obj in st.mem:
            st.mem[obj] = self.setp(st, st.mem[obj], path, UNDEF, obj) if path else UNDEF

    def const(self, st, c):
        if 'fn' in c:
            f = c['fn']
            if f.get('ctor') is not None: return ('fn', f['p'], f.get('full'), 'ctor')
            return ('fn', self.P.resolve(f) or f['p'], f.get('full'), None)
        if 'int' in c: return ('i', int(c['int']))
        ty = c.get('ty') or {}
        s = c.get('c', '')
        if ty.get('k') == 'bool': return boolv('true' in s)
        if ty.get('k') == 'tuple' and not ty.get('a'): return UNIT
        if ty.get('k') == 'ref' and s.startswith(('"', 'b"', '*b"')):
            lit = parse_lit(s)
            if lit is not None:
                obj = ('C', lit); st.mem.setdefault(obj, ('b', lit)); return ('p', obj, ())
        if 'uneval' in c:
            v = self.eval_const(st, c)
            if v is not None: return v
        if ty.get('k') in ('closure',): return ('adt', 'closure:' + ty['n'], 0, ())
        if ty.get('k') == 'adt':
            ad = self.P.adts.get(ty['n'])
            if ad and ad['kind'] == 'struct' and not ad['variants'][0]['fields']: return ('adt', ty['n'], 0, ())
            if ad and ad['kind'] == 'enum':
                for i, vv in enumerate(ad['variants']):
                    if s.endswith('::' + vv['name']) or s == vv['name']: return ('adt', ty['n'], i, ())
        return ('t', 'const', s)

    def eval_const(self, st, c):
        p = c['uneval']
        f = self.P.fns.get(p)
        if f is None or c.get('promoted') is not None: return None
        outs = self.call_fn(st.copy(), p, [])
        if len(outs) == 1: return outs[0][1]
        return None

    def rvalue(self, st, fr, r, dty=None):
        k = r['r']
        if k == 'use': return self.operand(st, fr, r['o'])
        if k in ('ref', 'addr'):
            pl = r['p']
            obj, path, ty = self.loc(st, fr, pl)
            if obj in st.freed: raise Bad('use-after-free', 'reference into a freed node', self.at, st)
            return ('p', obj, path)
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            kk = r['k']
            if kk.startswith('IntToInt'):
                return self.intcast(st, v, r)
            if 'ReifyFnPointer' in kk or 'ClosureFnPointer' in kk or 'Unsize' in kk or 'PtrToPtr' in kk or 'MutToConst' in kk:
                return v
            if 'Transmute' in kk: return ('t', 'transmute', v)
            return ('t', 'cast', kk, v)
        if k == 'bin': return self.binop(st, r['k'], self.operand(st, fr, r['a']), self.operand(st, fr, r['b']))
        if k == 'un':
            v = self.operand(st, fr, r['o'])
            if r['k'] == 'Not':
                if v[0] == 'i': return boolv(not v[1])
                return ('t', 'not', v)
            if r['k'] == 'PtrMetadata': return ('t', 'len', self.content_of(st, v))
            return ('t', r['k'], v)
        if k == 'discr':
            obj, path, ty = self.loc(st, fr, r['p'])
            v = self.read(st, obj, path, ty)
            return self.discr(st, v, ty)
        if k == 'agg':
            kk = r['k']
            ops = tuple(self.operand(st, fr, o) for o in r['ops'])
            if kk['k'] == 'adt': return ('adt', kk['n'], kk.get('v') or 0, ops)
            if kk['k'] == 'tuple': return ('adt', '()', 0, ops)
            if kk['k'] == 'array': return ('adt', '[]', 0, ops)
            if kk['k'] == 'closure': return ('adt', 'closure:' + kk['n'], 0, ops)
            return ('t', 'agg', str(kk), ops)
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            try: n = int(r['n'])
            except Exception: return ('t', 'repeat', v, r['n'])
            return ('adt', '[]', 0, (v,) * n)
        raise Undecided('rvalue ' + k, self.at)

    def content_of(self, st, v):
        n = 0
        while v[0] in ('p', 'bx') and v != NULL and n < 8:
            o, p = self.deref(st, v)
            v = self.read(st, o, p); n += 1
        return v

    def intcast(self, st, v, r):
        t = r['t']['s']
        bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'u128': 128, 'i128': 128}.get(t)
        if v[0] == 'i' and bits:
            n = v[1] & ((1 << bits) - 1)
            if t[0] == 'i' and n >> (bits - 1): n -= 1 << bits
            return ('i', n)
        src = r.get('from') or {}
        return ('t', 'as', t, v)

    def binop(self, st, op, a, b):
        chk = op.endswith('WithOverflow'); o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if o in ('Add', 'Sub', 'Mul'):
            if a[0] == 'i' and b[0] == 'i':
                v = ('i', {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}[o])
            elif o == 'Add' and b == ('i', 0): v = a
            elif o == 'Add' and a == ('i', 0): v = b
            elif o == 'Sub' and b == ('i', 0): v = a
            else: v = self.lin(o, a, b)
            if chk: return tup(v, ('t', 'ovf', o, a, b))
            return v
        if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, o, a, b)
        if o in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'i' and b[0] == 'i':
            return ('i', {'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1]}[o])
        if o in ('BitAnd', 'BitOr'):
            # boolean connectives: decide the operands
            if self.boolish(a) and self.boolish(b):
                x = self.truth(st, a); y = self.truth(st, b)
                return boolv((x and y) if o == 'BitAnd' else (x or y))
        return ('t', 'bin', o, a, b)

    def boolish(self, v): return v[0] == 'i' and v[1] in (0, 1) or (v[0] == 't' and v[1] in ('not', 'isnull', 'pred', 'ovf', 'cmpop'))

    def lin(self, o, a, b):
        # normal form  ('t','lin',base,k)
        def split(x):
            if x[0] == 'i': return None, x[1]
            if x[0] == 't' and x[1] == 'lin': return x[2], x[3]
            return x, 0
        (xa, ka), (xb, kb) = split(a), split(b)
        if o == 'Add':
            if xb is None: return self.mklin(xa, ka + kb)
            if xa is None: return self.mklin(xb, ka + kb)
        if o == 'Sub':
            if xb is None: return self.mklin(xa, ka - kb)
            if xa == xb: return ('i', ka - kb)
        return ('t', 'bin', o, a, b)

    def mklin(self, x, k): return x if k == 0 else ('t', 'lin', x, k)

    def ptr_eq(self, st, a, b):
        if a == b: return True
        if a[0] == 'p' and b[0] == 'p':
            for x, y in ((a, b), (b, a)):
                if y[1] == 'null':
                    return self.is_null(st, x)
            if a[1] == b[1]: return a[2] == b[2]
            if self.domain and not a[2] and not b[2]: self.domain.same_node(self, st, a, b)
            if self.domain and self.domain.is_tree(st, a[1]) and self.domain.is_tree(st, b[1]): return False
            if a[1][0] == 'L' or b[1][0] == 'L' : return False
        return None

    def is_null(self, st, v):
        """True/False; forks when unknown"""
        if v == NULL: return True
        if v[0] == 'bx': return False
        if v[0] == 'p':
            if v[2]: return False
            if self.domain and self.domain.is_tree(st, v[1]): return self.domain.null(self, st, v[1])
            if v[1][0] in ('L', 'C', 'box'): return False
            return self.truth(st, ('t', 'isnull', v[1]))
        return self.truth(st, ('t', 'isnull', v))

    def compare(self, st, o, a, b):
        neg = {'Ne': True}.get(o, False)
        if a[0] in ('p', 'bx') or b[0] in ('p', 'bx'):
            e = self.ptr_eq(st, a, b)
            if e is None: return ('t', 'not', ('t', 'pred', 'ptreq', a, b)) if neg else ('t', 'pred', 'ptreq', a, b) if o == 'Eq' else ('t', 'pred', o, a, b)
            return boolv(e != neg) if o in ('Eq', 'Ne') else ('t', 'pred', o, a, b)
        if a[0] == 'adt' and b[0] == 'adt' and not a[3] and not b[3] and a[1] == b[1]:
            return boolv({'Eq': a[2] == b[2], 'Ne': a[2] != b[2]}.get(o, False))
        r = self.decide_rel(st, a, b)
        return boolv({'Eq': r == '=', 'Ne': r != '=', 'Lt': r == '<', 'Le': r != '>', 'Gt': r == '>', 'Ge': r != '<'}[o])

    def decide_rel(self, st, a, b):
        """relation of two ordered terms, forking when unknown"""
        if a[0] == 't' and a[1] == 'lin' or b[0] == 't' and b[1] == 'lin':
            def split(x):
                if x[0] == 'i': return None, x[1]
                if x[0] == 't' and x[1] == 'lin': return x[2], x[3]
                return x, 0
            (xa, ka), (xb, kb) = split(a), split(b)
            if xa == xb: return '<' if ka < kb else '=' if ka == kb else '>'
        hook = self.domain.rel(self, st, a, b) if self.domain else None
        if hook is not None: return hook
        poss = st.rel(a, b)
        if not poss: raise Infeasible()
        if len(poss) == 1: return next(iter(poss))
        alts = []
        for r in sorted(poss):
            s = st.copy(); s.add_rel(a, r, b); s.note('%s %s %s' % (show(a), r, show(b))); alts.append(s)
        raise Fork(alts)

    def truth(self, st, v):
        """boolean term -> bool, forking when unknown"""
        if v[0] == 'i': return v[1] != 0
        if v[0] == 't' and v[1] == 'not': return not self.truth(st, v[2])
        if v in st.facts: return st.facts[v] != 0
        if self.domain:
            h = self.domain.truth(self, st, v)
            if h is not None: return h
        alts = []
        for b in (1, 0):
            s = st.copy(); s.facts[v] = b; s.note('%s=%s' % (show(v), bool(b))); alts.append(s)
        raise Fork(alts)

    def discr(self, st, v, ty):
        if v[0] == 'adt':
            ad = self.P.adts.get(v[1])
            if ad and ad['kind'] == 'enum' and v[2] < len(ad['variants']):
                d = ad['variants'][v[2]].get('discr')
                return ('i', int(d) if d is not None else v[2])
            return ('i', v[2])
        if v[0] == 't':
            return ('t', 'discr', v, (ty or {}).get('n'))
        raise Undecided('discriminant of %s' % (show(v),), self.at)

    def variant_of(self, st, v, name, nvar, arity=None):
        """resolve an opaque enum value to a variant index (forking)"""
        if v[0] == 'adt': return v[2]
        t = ('t', 'discr', v, name)
        if t in st.facts: return st.facts[t]
        alts = []
        for i in range(nvar):
            if i in st.nfacts.get(t, ()): continue
            s = st.copy(); s.facts[t] = i; s.note('%s is variant %d' % (show(v), i)); alts.append(s)
        if self.domain: alts = self.domain.filter_variants(self, alts, v, t)
        if not alts: raise Infeasible()
        if len(alts) == 1:
            st.facts[t] = alts[0].facts[t]; return st.facts[t]
        raise Fork(alts)

    # ------------------------------------------------------------ function interpretation
    def call_fn(self, st, fn, args, tenv=None):
        """interpret a body; returns [(state, value)]"""
        f = self.P.fns[fn]
        self.visited.add(fn)
        self.fid += 1
        fr = Frame(fn, self.fid, f['body'])
        if tenv: fr.tenv = tenv
        fr.args = args
        st = st.copy()
        for i, l in enumerate(f['body']['locals']): st.mem[('L', fr.fid, i)] = UNDEF
        for i, a in enumerate(args): st.mem[('L', fr.fid, i + 1)] = a
        self.stack.append((fn, fr.fid))
        try:
            outs = self.run(st, fr, 0)
        finally:
            self.stack.pop()
        res = []
        for (s, kind, v) in outs:
            if kind == 'ret':
                keep = set(); todo = [v]
                while todo:      # constants promoted to statics outlive the frame
                    x = todo.pop()
                    if not isinstance(x, tuple): continue
                    if len(x) == 3 and x[0] == 'p' and isinstance(x[1], tuple) and x[1][:2] == ('L', fr.fid):
                        if x[1] not in keep: keep.add(x[1]); todo.append(s.mem.get(x[1], UNDEF))
                    elif x and x[0] in ('adt',): todo.extend(x[3])
                for i in range(len(f['body']['locals'])):
                    if ('L', fr.fid, i) not in keep: s.mem.pop(('L', fr.fid, i), None)
                res.append((s, v))
        return res

    def run(self, st, fr, bb, stop=None, region=None):
        """explore from block bb; returns [(state,'ret',value)|(state,'exit',(from,to))].
        stop/region: when given, leaving `region` or re-entering `stop` ends the path."""
        outs = []
        loops = self.P.loops(fr.fn)
        wl = [(st, bb, 0, True)]
        bbs = fr.body['bbs']
        while wl:
            st, bb, idx, entered = wl.pop()
            if idx == 0 and entered and bb in loops and not (stop == bb):
                try:
                    r = self.enter_loop(st.copy(), fr, bb, loops[bb])
                except Fork as f:
                    for a in reversed(f.alts): wl.append((self.replay(st, a), bb, idx, True))
                    continue
                except Infeasible: continue
                except Bad as b:
                    if self.bads is None: raise
                    b.fn = fr.fn; self.bads.append(b); continue
                except Undecided as u:
                    if self.undec is None or isinstance(u, Budget): raise
                    self.undec.append((fr.fn, u.at or self.at, str(u))); continue
                if r is not None:
                    for (s, to) in r:
                        if to == 'ret': outs.append((s, 'ret', s.mem[('L', fr.fid, 0)]))
                        else: wl.append((s, to, 0, True))
                    continue
            b = bbs[bb]
            try:
                dead = False
                while idx < len(b['s']):
                    self.steps += 1
                    if self.steps > self.MAXSTEPS: raise Budget('step budget', self.at)
                    s2 = st.copy()
                    self.stmt(s2, fr, b['s'][idx])
                    st = s2; idx += 1
                self.steps += 1
                s2 = st.copy()
                nxt = self.terminator(s2, fr, b['t'], bb)
                if COVER is not None: COVER.add((fr.fn, bb))
            except Fork as f:
                for a in reversed(f.alts): wl.append((self.replay(st, a), bb, idx, False))
                continue
            except Infeasible:
                continue
            except Bad as b:
                if self.bads is None: raise
                b.fn = fr.fn; self.bads.append(b); continue
            except Undecided as u:
                if self.undec is None or isinstance(u, Budget): raise
                self.undec.append((fr.fn, u.at or self.at, str(u))); continue
            for (s, to, v) in nxt:
                if to == 'ret': outs.append((s, 'ret', v))
                elif to is None: pass
                elif stop is not None and to == stop: outs.append((s, 'back', bb))
                elif region is not None and to not in region: outs.append((s, 'exit', (bb, to)))
                else: wl.append((s, to, 0, True))
        return outs

    def replay(self, st, a):
        """state before the forking step, with the decision of the alternative recorded"""
        s = st.copy()
        s.facts = a.facts; s.nfacts = a.nfacts; s.order = a.order; s.nullf = a.nullf; s.regs = a.regs
        s.tree = a.tree; s.path = a.path; s.x = a.x; s.dead = a.dead
        for o, v in a.mem.items():
            if o not in s.mem or o in a.rw: s.mem[o] = v
        s.rw = {}
        return s

    def enter_loop(self, st, fr, head, body):
        raise Undecided('loop without summary in %s' % fr.fn, self.at)

    def stmt(self, st, fr, s):
        self.at = s.get('at', self.at)
        if s['s'] != '=': return
        p = s['p']
        v = self.rvalue(st, fr, s['r'])
        obj, path, ty = self.loc(st, fr, p)
        self.prewrite(st, fr, p)
        self.write(st, obj, path, v, ty)

    def prewrite(self, st, fr, p):
        """expand opaque aggregates on the way to a field write"""
        if len(p) < 2: return
        for i in range(1, len(p)):
            e = p[i]
            if isinstance(e, dict) and 'f' in e:
                o2, p2, t2 = self.loc(st, fr, p[:i])
                if t2 is not None and 'variant' not in t2: self.expand_obj(st, o2, p2, t2)

    def terminator(self, st, fr, t, bb):
        self.at = t.get('at', self.at)
        k = t['t']
        if k == 'goto': return [(st, t['to'], None)]
        if k == 'return': return [(st, 'ret', st.mem.get(('L', fr.fid, 0), UNDEF))]
        if k == 'switch': return self.switch(st, fr, t)
        if k == 'drop':
            obj, path, ty = self.loc(st, fr, t['p'])
            v = st.mem.get(obj, UNDEF)
            var = None
            for e in path:
                v, var = self.field(st, v, e, var)
            outs = self.drop_value(st, v, t.get('ty'), (obj, path))
            for s in outs:
                if obj in s.mem: s.mem[obj] = self.setp(s, s.mem[obj], path, UNDEF, obj) if path else UNDEF
            return [(s, t['to'], None) for s in outs]
        if k == 'assert':
            v = self.operand(st, fr, t['o'])
            exp = bool(t['e'])
            ok = self.assert_holds(st, v, exp, t)
            if ok: return [(st, t['to'], None)]
            self.panics.append((fr.fn, self.at, t['msg'], st.copy()))
            return []
        if k == 'call': return self.call_term(st, fr, t)
        if k == 'unreachable': return []
        raise Undecided('terminator ' + k, self.at)

    def assert_holds(self, st, v, exp, t):
        if v[0] == 't' and v[1] == 'ovf':
            return self.no_overflow(st, v, t) == (not exp)
        return self.truth(st, v) == exp

    def no_overflow(self, st, v, t):
        return SUBCHECK(self, st, v, t) if SUBCHECK else True

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t['o'])
        cases = [(int(a), b) for a, b in t['c']]
        if v[0] == 't' and v[1] == 'not':
            v2 = self.truth(st, v); v = boolv(v2)
        if v[0] == 't' and v[1] == 'discr':
            name = v[3]; ad = self.P.adts.get(name) if name else None
            if ad and ad['kind'] == 'enum':
                vi = self.variant_of(st, v[2], name, len(ad['variants']))
                d = ad['variants'][vi].get('discr'); v = ('i', int(d) if d is not None else vi)
        if v[0] == 'i':
            for a, b in cases:
                if a == v[1] or (a - 256 == v[1]): return [(st, b, None)]
            return [(st, t['else'], None)]
        if (t.get('ty') or {}).get('k') == 'bool':
            tv = self.truth(st, v)
            for a, b in cases:
                if a == int(tv): return [(st, b, None)]
            return [(st, t['else'], None)]
        # unknown integer
        out = []
        if v in st.facts:
            for a, b in cases:
                if a == st.facts[v]: return [(st, b, None)]
            return [(st, t['else'], None)]
        for a, b in cases:
            if a in st.nfacts.get(v, ()): continue
            s = st.copy(); s.facts[v] = a; s.note('%s==%d' % (show(v), a)); out.append((s, b, None))
        if t['else'] is not None:
            s = st.copy(); s.nfacts[v] = frozenset(s.nfacts.get(v, frozenset())) | frozenset(a for a, _ in cases); s.note('%s otherwise' % show(v))
            out.append((s, t['else'], None))
        return out

    # ------------------------------------------------------------ drops
    def drop_value(self, st, v, ty, where=None):
        """returns list of states"""
        self.drop_rec(st, v, ty)
        return [st]

    def drop_rec(self, st, v, ty):
        if v[0] == 'bx':
            if v[1] in st.freed: raise Bad('double-free', 'a box is freed twice', self.at, st)
            if v[1] in st.mem:
                inner = st.mem[v[1]]
                self.drop_rec(st, inner, None)
            st.freed = st.freed | {v[1]}
            st.emit('free', v[1])
            return
        if v[0] == 'adt':
            if self.domain and self.domain.drop_hook(self, st, v): return
            for f in v[3]:
                self.drop_rec(st, f, None)
            return
        if v[0] == 't': st.emit('drop', v)

    # ------------------------------------------------------------ calls
    def call_term(self, st, fr, t):
        f = t['f']
        self.ncalls += 1
        meta = None
        if 'const' in f and 'fn' in f['const']:
            meta = f['const']['fn']
            if fr.tenv: meta = self.meta_subst(meta, fr.tenv)
            callee = ('fn', self.P.resolve(meta) or meta['p'], meta.get('full'), 'ctor' if meta.get('ctor') is not None else None)
        else:
            callee = self.operand(st, fr, f)
        args = [self.operand(st, fr, a) for a in t['args']]
        at = self.at
        dl = self.loc(st, fr, t['d'])
        outs = self.invoke(st, callee, args, meta, dl[2])
        self.at = at
        if t.get('to') is None:
            return []
        res = []
        for (s, v) in outs:
            self.write(s, dl[0], dl[1], v)
            res.append((s, t['to'], None))
        return res

    def meta_subst(self, meta, tenv):
        """instantiate the callee's generics with the caller's and resolve trait methods again"""
        a = [tsubst(x, tenv) for x in meta.get('a', ())]
        if a == meta.get('a'): return meta
        m = dict(meta, a=a)
        if 'res_a' in m: m['res_a'] = [tsubst(x, tenv) for x in m['res_a']]
        if m.get('trait') and not m.get('res') and a and not (a[0].get('k') == 'param'):
            h = self.P.impl_for(m['trait'], a[0])
            if h:
                im, mm = h
                c = [i for i in im['items'] if i.rsplit('::', 1)[-1] == m['name']]
                if c:
                    m['res'] = c[0]
                    m['res_a'] = [mm.get(n, {'k': 'param', 'n': n, 's': n}) for n in self.P.tparams(c[0])]
        return m

    def tenv_of(self, path, meta):
        if not meta: return {}
        a = meta.get('res_a') if meta.get('res') == path else meta.get('a')
        ns = self.P.tparams(path)
        if a is None or len(ns) != len(a): return {}
        return {n: t for n, t in zip(ns, a) if not (t.get('k') == 'param' and t.get('n') == n)}

    def invoke(self, st, callee, args, meta=None, dty=None):
        """-> [(state, value)]; forks raised before any effect propagate as Fork"""
        if callee[0] == 'adt' and callee[1].startswith('closure:'):
            return self.call_closure(st, callee, args)
        if callee[0] != 'fn':
            return self.call_opaque(st, callee, args, dty)
        path = callee[1]
        if callee[3] == 'ctor': return [(st, self.ctor(callee, args, meta, dty))]
        m = self.models.lookup(path, meta, self)
        if m is not None:
            r = m(self, st, args, meta, dty)
            if r is not NotImplemented:
                return r
        if self.P.is_local(path, meta):
            return self.call_local(st, path, args, meta, dty)
        return self.call_unknown(st, path, args, meta, dty)

    def ctor(self, callee, args, meta, dty):
        p = callee[1]
        for n, ad in self.P.adts.items():
            for i, v in enumerate(ad['variants']):
                if p == n + '::' + v['name'] or (ad['kind'] == 'struct' and p == n):
                    return ('adt', n, i, tuple(args))
        base = p.rsplit('::', 1)[0]
        if p in ('std::option::Option::Some',) or p.endswith('::Some'): return some(args[0])
        return ('adt', base, 0, tuple(args))

    def call_closure(self, st, clo, args):
        path = clo[1][len('closure:'):]
        if path not in self.P.fns: raise Undecided('closure body missing ' + path, self.at)
        f = self.P.fns[path]
        # first MIR argument is the closure (by value or by reference)
        ty = f['body']['locals'][1]['ty']
        if ty['k'] == 'ref':
            self.fid += 1
            o = ('clo', self.fid); st = st.copy(); st.mem[o] = clo
            self_arg = ('p', o, ())
        else: self_arg = clo
        n = f['body']['argc'] - 1
        return self.call_fn(st, path, [self_arg] + list(args)[:n])

    def call_closure_ref(self, st, ptr, args):
        """call through a reference to a closure (FnMut/Fn)"""
        o, p = self.deref(st, ptr)
        v = self.read(st, o, p)
        if v[0] == 'adt' and v[1].startswith('closure:'):
            path = v[1][len('closure:'):]
            f = self.P.fns[path]; ty = f['body']['locals'][1]['ty']
            n = f['body']['argc'] - 1
            if ty['k'] == 'ref': return self.call_fn(st, path, [ptr] + list(args)[:n])
            return self.call_fn(st, path, [v] + list(args)[:n])
        if v[0] in ('p',): return self.call_closure_ref(st, v, args)
        return self.invoke(st, v, args)

    def call_opaque(self, st, callee, args, dty):
        raise Undecided('call of unknown function value %s' % show(callee), self.at)

    def call_local(self, st, path, args, meta, dty):
        if self.P.recursive(path):
            r = self.summary(st, path, args, meta, dty)
            if r is not NotImplemented: return r
            raise Undecided('recursion without summary: ' + path, self.at)
        if len(self.stack) > 60: raise Undecided('inlining depth', self.at)
        return self.call_fn(st, path, args, self.tenv_of(path, meta))

    def summary(self, st, path, args, meta, dty): return NotImplemented

    def call_unknown(self, st, path, args, meta, dty):
        raise Undecided('no model for external function ' + path, self.at)


def unify(pat, ty, m):
    if pat.get('k') == 'param':
        if pat['n'] in m: return m[pat['n']].get('s') == ty.get('s')
        m[pat['n']] = ty; return True
    if pat.get('k') != ty.get('k'): return False
    if pat['k'] == 'adt':
        if pat['n'] != ty['n'] or len(pat.get('a', ())) != len(ty.get('a', ())): return False
        return all(unify(a, b, m) for a, b in zip(pat.get('a', ()), ty.get('a', ())))
    if pat['k'] == 'tuple': return len(pat['a']) == len(ty['a']) and all(unify(a, b, m) for a, b in zip(pat['a'], ty['a']))
    if pat['k'] == 'array': return pat.get('n') == ty.get('n') and unify(pat['t'], ty['t'], m)
    if pat['k'] in ('ref', 'ptr'): return pat.get('m') == ty.get('m') and unify(pat['t'], ty['t'], m)
    if pat['k'] == 'slice': return unify(pat['t'], ty['t'], m)
    return pat.get('s') == ty.get('s')


def tsubst(t, m):
    if isinstance(t, dict):
        if t.get('k') == 'param' and t.get('n') in m: return m[t['n']]
        return {k: tsubst(v, m) for k, v in t.items()}
    if isinstance(t, list): return [tsubst(x, m) for x in t]
    return t


def parse_lit(s):
    import ast
    if s.startswith('*'): s = s[1:]
    try:
        v = ast.literal_eval(s.replace('\\u{', '\\u{') if '\\u{' not in s else s.encode().decode('unicode_escape'))
        return v if isinstance(v, bytes) else v.encode()
    except Exception:
        return None


def show(v, d=0):
    if not isinstance(v, tuple): return str(v)
    if not v: return '()'
    if v[0] == 'i': return str(v[1])
    if v[0] == 'b': return repr(v[1])
    if v[0] == 'undef': return '⊥'
    if d > 5: return '…'
    if v[0] == 'adt':
        n = v[1].split('::')[-1]
        return '%s#%s(%s)' % (n, v[2], ', '.join(show(x, d + 1) for x in v[3])) if v[3] else '%s#%s' % (n, v[2])
    if v[0] == 'p': return '&' + show(v[1], d + 1) + ''.join('.%s' % (e if isinstance(e, int) else e[0]) for e in v[2])
    if v[0] == 'bx': return 'Box(%s)' % show(v[1], d + 1)
    if v[0] == 't':
        return '%s(%s)' % (v[1], ', '.join(show(x, d + 1) for x in v[2:]))
    if v[0] == 'fn': return 'fn ' + v[1]
    return '<' + ' '.join(show(x, d + 1) for x in v) + '>'
