"""Interpreter with the search-tree domain, and the public-operation driver."""
from base import *
from tree import *
from models import mkvec, vec_segs, one, VEC, strip_generics

REST = ('t', '@rest')     # the part of a stack below the element that is being dealt with


class T(A):
    def __init__(self, prog, ctx):
        super().__init__(prog)
        self.shape = Shape(prog)
        self.domain = OccDomain(self, ctx)
        self.bads = []
        self.call_tys = None
        self.tenvs = {}

    # ---- symbolic values
    def symhook(self, st, ty, name):
        if ty['k'] == 'ptr' and ty['t'].get('n') == self.shape.node:
            return ('p', ('N', ('root', name)), ())
        return None

    def read(self, st, obj, path, ty=None):
        if isnode(obj) and self.domain:
            v = self.domain.lazy_field(st, obj, path)
            if v is not None: return v
        return super().read(st, obj, path, ty)

    # ---- recursion and loops
    def summary(self, st, path, args, meta, dty):
        r = self.domain.apply(self, st, 'fn', path, tuple(args), self.tenv_of(path, meta))
        if r is None:
            if sum(1 for f, _ in self.stack if f == path) > 3: return NotImplemented
            return self.call_fn(st, path, args, self.tenv_of(path, meta))
        return [(s, v) for (s, k, v) in r]

    def run_summary(self, st, kind, fn, cargs, extra):
        self.stack = []
        if kind == 'fn':
            return [(s, 'ret', v) for s, v in self.call_fn(st, fn, list(cargs), extra)]
        name, head = fn
        body = self.P.fns[name]['body']
        fr = Frame(name, 'LP', body); fr.tenv = extra
        self.visited.add(name)
        for i in range(len(body['locals'])): st.mem.setdefault(('L', 'LP', i), UNDEF)
        self.stack = [(name, 'LP')]
        res = []
        loop = self.P.loops(name)[head]
        live = liveness(self.P, name)
        wl = [(st, True)]
        for (s, k, v) in self.run(st, fr, head, stop=head, region=loop):
            if k == 'ret': res.append((s, 'ret', v))
            elif k == 'exit':
                to = v[1]
                res.append((s, ('exit', to), tuple((i, s.mem[('L', 'LP', i)]) for i in sorted(live[to]))))
            elif k == 'back' and self.work_rest(s, 'LP', live[head]):
                for x in self.consume(s, fr, head, self.work_rest(s, 'LP', live[head])):
                    res.append((x, ('exit', head), tuple((i, x.mem[('L', 'LP', i)]) for i in sorted(live[head]))))
            elif k == 'back':
                w2 = [s]
                while w2:
                    x = w2.pop()
                    try: r = self.loop_apply(x.copy(), fr, head)
                    except Fork as f: w2.extend(self.replay(x, a) for a in f.alts); continue
                    except Infeasible: continue
                    if r is None: raise Undecided('loop over something that is not the tree in ' + name, self.at)
                    res += r
        return res

    def loop_apply(self, st, fr, head):
        live = liveness(self.P, fr.fn)[head]
        args = tuple(('p', ('L', fr.fid, i), ()) for i in sorted(live) if st.mem.get(('L', fr.fid, i), UNDEF) != UNDEF)
        return self.domain.apply(self, st, 'loop', (fr.fn, head), args, (fr.fid, fr.tenv))

    # A loop over a stack of subtrees: what the body does to the popped subtree and what it
    # pushes for it is handled before the rest of the stack, so the loop is the same as a
    # recursive function applied to the elements from the top to the bottom.
    def work_cells(self, st, fid, live):
        for i in sorted(live):
            c = ('L', fid, i); v = st.mem.get(c, UNDEF)
            if v[0] == 'p' and v[2] == () and not isnode(v[1]): c = v[1]; v = st.mem.get(c, UNDEF)
            if v[0] == 't' or v[0] == 'adt' and v[1] == VEC: yield c, vec_segs(v)

    def work_rest(self, st, fid, live):
        for c, segs in self.work_cells(st, fid, live):
            if segs and segs[0] == REST: return c
        return None

    def work_entry(self, st, fr, head):
        for c, segs in self.work_cells(st, fr.fid, liveness(self.P, fr.fn)[head]):
            if segs and all(x[0] == 'adt' and x[1] == '@one' and (x[3][0] == NULL or x[3][0][0] == 'p' and isnode(x[3][0][1]) and x[3][0][2] == ()) for x in segs):
                return c
        return None

    def consume(self, st, fr, head, cell):
        """states at the loop head after the elements above REST are dealt with"""
        segs = vec_segs(st.mem[cell])
        wl = [(st, segs[1:] if segs and segs[0] == REST else segs)]
        out = []
        while wl:
            s, el = wl.pop()
            if not el:
                s.mem[cell] = mkvec((REST,)); out.append(s); continue
            x = s.copy(); x.mem[cell] = mkvec((REST, el[-1]))
            if el[-1][0] != 'adt': raise Undecided('stack of something that is not a subtree in ' + fr.fn, self.at)
            try:
                if el[-1][3][0] == NULL:
                    r = []
                    for (y, k, v) in self.run(x, fr, head, stop=head, region=self.P.loops(fr.fn)[head]):
                        if k != 'back': raise Undecided('a loop over a stack of subtrees is left early in ' + fr.fn, self.at)
                        r.append(y)
                else:
                    r = []
                    a = self.loop_apply(x, fr, head)
                    if a is None: raise Undecided('stack of something that is not a subtree in ' + fr.fn, self.at)
                    for (y, k, v) in a:
                        if k != ('exit', head): raise Undecided('a loop over a stack of subtrees is left early in ' + fr.fn, self.at)
                        for i in range(len(fr.body['locals'])): y.mem[('L', fr.fid, i)] = UNDEF
                        for i, z in v: y.mem[('L', fr.fid, i)] = z
                        r.append(y)
            except Fork as f:
                wl.extend((self.replay(s, a), el) for a in f.alts); continue
            except Infeasible: continue
            for y in r:
                if vec_segs(y.mem[cell]) != (REST,): raise Undecided('what a loop over a stack of subtrees leaves on it is unknown in ' + fr.fn, self.at)
                wl.append((y, el[:-1]))
        return out

    def enter_work(self, st, fr, head, cell, body):
        out = []
        for s in self.consume(st, fr, head, cell):
            wl = [s]
            while wl:
                x = wl.pop().copy(); x.mem[cell] = mkvec(())
                try: r = self.run(x.copy(), fr, head, stop=head, region=body)
                except Fork as f: wl.extend(self.replay(x, a) for a in f.alts); continue
                for (y, k, v) in r:
                    if k == 'back': raise Undecided('a loop over a stack of subtrees goes on with an empty stack in ' + fr.fn, self.at)
                    if k == 'ret': y.mem[('L', fr.fid, 0)] = v; out.append((y, 'ret'))
                    else: out.append((y, v[1]))
        return out

    def enter_loop(self, st, fr, head, body):
        cell = self.work_entry(st, fr, head)
        if cell is not None: return self.enter_work(st, fr, head, cell, body)
        if any(isait(st.mem.get(('L', fr.fid, i), UNDEF)) for i in liveness(self.P, fr.fn)[head]): return self.unroll(st, fr, head, body)
        r = self.loop_apply(st, fr, head)
        if r is None and any(not segs for c, segs in self.work_cells(st, fr.fid, liveness(self.P, fr.fn)[head])): return self.unroll(st, fr, head, body)
        if r is None: raise Undecided('loop without summary in ' + fr.fn, self.at)
        out = []
        for (s, k, v) in r:
            if k == 'ret':
                s.mem[('L', fr.fid, 0)] = v; out.append((s, 'ret'))
            else:
                for i in range(len(fr.body['locals'])): s.mem[('L', fr.fid, i)] = UNDEF
                for i, x in v: s.mem[('L', fr.fid, i)] = x
                out.append((s, k[1]))
        return out

    # ---- user code
    def call_opaque(self, st, callee, args, dty):
        r = self.domain.comparator(st, callee, args)
        if r is not None: return [(st, r)]
        tys = self.call_tys; self.call_tys = None
        st.emit('callf', callee, tuple(args))
        tl = (tys[0] or {}).get('a', []) if tys else []
        for i, a in enumerate(args):
            ty = tl[i] if i < len(tl) else None
            if ty and ty['k'] == 'ref' and ty.get('m') and a[0] == 'p':
                old = self.read(st, a[1], a[2])
                self.write(st, a[1], a[2], ('t', 'post', callee, old))
        t = ('t', 'callf', callee, tuple(args))
        if not nodes_in(t): t = t + (len(st.ev),)
        return [(st, self.typed(st, t, dty))]


def evaluate_all(I, fn, args, st, tenv=None):
    out = []
    wl = [st]
    while wl:
        s = wl.pop()
        try: out += I.call_fn(s, fn, args, tenv)
        except Fork as f: wl.extend(f.alts)
        except Infeasible: pass
    return out


def argterms(P, fn):
    f = P.fns[fn]['body']
    return [f['locals'][i + 1]['ty'] for i in range(f['argc'])]


def arg_names(P, fn):
    return [('t', 'arg', i) for i in range(P.fns[fn]['body']['argc'])]


def content(name): return ('t', 'at', name)


def find(P, type_prefix, method):
    """the public inherent method of a type, by name"""
    c = [f for f in P.fns if f.startswith(type_prefix) and f.rsplit('::', 1)[-1] == method and '{' not in f]
    c = [f for f in c if f.count('::') == min(x.count('::') for x in c)] if c else []
    return c[0] if len(c) >= 1 else None


def explore(P, fn, ctx, occ=None):
    """analyse a public operation for every occupancy of the tree; yields (I, occ, state, value, args)"""
    import itertools
    n = ctx.n
    I = T(P, ctx)
    names = arg_names(P, fn); tys = argterms(P, fn)
    res = []
    for bits in itertools.product((0, 1), repeat=n):
        o = frozenset(i for i in range(n) if bits[i])
        if occ is not None and o not in occ: continue
        st = State()
        I.domain.ctx = ctx
        args = [symval(I, st, t, a) for t, a in zip(tys, names)]
        roots = set()
        for v in list(st.mem.values()) + args: roots |= set(x for x in nodes_in(v))
        for r in roots: st.tree[r] = (o, o, None)
        outs = evaluate_all(I, fn, args, st)
        for (s, v) in outs: res.append((o, s, v, args, sorted(roots)))
    return I, res
