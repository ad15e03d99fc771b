"""Interpreter with the restructuring domain, and the driver for mutating operations."""
from treebase import *
from shape import *


class TM(T):
    def __init__(self, prog, q, hasE):
        A.__init__(self, prog)
        self.shape = Shape(prog)
        self.domain = ShapeDomain(self, q, hasE)
        self.bads = []; self.undec = []; self.call_tys = None; self.tenvs = {}
        self.drops = {}
        for im in prog.impls:
            if im['trait'] == 'std::ops::Drop' and im['items'] and im['self'].get('n'): self.drops[im['self']['n']] = im['items'][0]

    def access(self, st, obj):
        if obj in st.dead and isnode(obj): raise Undecided('use of a node pointer that was handed to another function', self.at)
        super().access(st, obj)

    def invoke(self, st, callee, args, meta=None, dty=None):
        # the hash of a stored value is an uninterpreted function of the value (its own checks: C13, C17)
        if meta and meta.get('name') == 'root_hash' and (meta.get('trait') or '').endswith('AsHashTree') and meta.get('a'):
            t = meta['a'][0]
            if t.get('n') not in (self.shape.map, 'collections::map::Map', self.shape.node):
                return [(st, ('t', 'H', viewval(self, st, args[0])))]
        return super().invoke(st, callee, args, meta, dty)

    # ---- destructors
    def drop_value(self, st, v, ty, where=None):
        if not self.needs_drop(st, v):
            self.drop_rec(st, v, ty); return [st]
        if where is None:
            self.fid += 1
            o = ('tmp', self.fid); st.mem[o] = v; where = (o, ())
        obj, path = where
        sts = [st]
        if v[0] == 'adt':
            if v[1] in self.drops:
                out = []
                for s in sts: out += [x for x, _ in self.call_fn(s, self.drops[v[1]], [('p', obj, path)])]
                sts = out
            for i, f in enumerate(v[3]):
                nxt = []
                for s in sts: nxt += self.drop_value(s, f, None, (obj, path + (i,)))
                sts = nxt
            return sts
        if v[0] == 'bx' and v[1] in st.mem and v[1] not in st.freed:
            sts = self.drop_value(st, st.mem[v[1]], None, (v[1], ()))
            for s in sts: s.freed = s.freed | {v[1]}
            return sts
        return sts

    def needs_drop(self, st, v, d=0):
        if d > 10: return False
        if v[0] == 'adt': return v[1] in self.drops or any(self.needs_drop(st, f, d + 1) for f in v[3])
        if v[0] == 'bx': return v[1] in st.mem and not isnode(v[1]) and self.needs_drop(st, st.mem[v[1]], d + 1)
        return False


def mapobj(I, st):
    """the tree owner reachable from the symbolic arguments: (object, path)"""
    out = []
    def walk(o, v, path):
        if isinstance(v, tuple) and v and v[0] == 'adt':
            if v[1] == I.shape.map: out.append((o, path))
            for i, f in enumerate(v[3]): walk(o, f, path + (i,))
    for o, v in st.mem.items():
        if o[0] == 'S': walk(o, v, ())
    return out


def run_op(P, fn, qarg=1, hasE=None, follow=None, nulltree=False):
    """interpret a mutating operation on an arbitrary valid tree; q = argument number of the key"""
    names = arg_names(P, fn); tys = argterms(P, fn)
    q = None
    if qarg is not None:
        t = tys[qarg]
        q = names[qarg] if t['k'] not in ('ref', 'ptr') else ('t', 'at', names[qarg])
    I = TM(P, q, hasE)
    st = State()
    args = [symval(I, st, t, a) for t, a in zip(tys, names)]
    roots = set()
    for v in list(st.mem.values()) + args: roots |= set(nodes_in(v))
    roots = sorted(roots)
    if len(roots) > 1: raise Undecided('operation on several trees')
    for r in roots: I.domain.init_tree(st, r)
    if hasE is not None and roots: I.domain.feasible(st)
    I.maps = mapobj(I, st); I.root0 = roots[0] if roots else None
    I.len0 = None
    if I.maps:
        o, p = I.maps[0]
        v = st.mem[o]
        for e in p: v = v[3][e]
        I.len0 = v[3][I.shape.LEN]
    outs = evaluate_all(I, fn, args, st)
    return I, outs
