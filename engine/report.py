"""Reports: obligations, violations, known findings, evidence."""
import json, os, time, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def budget_hit():
    b = sys.modules.get('budget')
    return bool(b and b.HIT)


class Report:
    def __init__(self, pid):
        self.pid = pid; self.obl = []; self.t0 = time.time(); self.fns = set(); self.notes = []
        self.rule = []; self.assume = []; self.stats = {}
        self.floors = []

    # status: ok / undecided / violation
    def ok(self, key, what, where=None, detail=None): self.obl.append(dict(key=key, status='ok', what=what, where=where, detail=detail))
    def bad(self, key, what, where=None, detail=None):
        self.obl.append(dict(key=key, status='violation', what=what, where=where, detail=detail))
    def undecided(self, key, what, where=None, detail=None): self.obl.append(dict(key=key, status='undecided', what=what, where=where, detail=detail))
    def expect(self, cond, key, what, where=None, detail=None):
        (self.ok if cond else self.bad)(key, what, where, None if cond else detail)
        return cond
    def floor(self, name, count, minimum):
        """rule instances must not silently vanish"""
        self.floors.append((name, count, minimum))
        if count < minimum and budget_hit(): self.undecided('floor:' + name, 'instances of "%s"' % name, None, 'the analysis ran out of budget')
        elif count < minimum: self.bad('floor:' + name, 'only %d instances of "%s" found, at least %d expected: the rule no longer sees the code it is about' % (count, name, minimum))

    def merge(self, other, label):
        """adds what the same rules say about another configuration of the program"""
        for o in other.obl: self.obl.append(dict(o, what='%s [%s]' % (o['what'], label)))
        self.fns |= other.fns; self.floors += [(a + ' [' + label + ']', b, c) for a, b, c in other.floors]
        self.stats['configurations'] = ['release configuration', label]

    def finish(self, tier, seed):
        known, fixed = load_known()
        viol = {}
        for o in self.obl:
            if o['status'] == 'violation': viol.setdefault(o['key'], []).append(o)
        new = {k: v for k, v in viol.items() if (self.pid, k) not in known}
        old = {k: v for k, v in viol.items() if (self.pid, k) in known}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        n = lambda s: sum(1 for o in self.obl if o['status'] == s)
        cov = dict(explanation='Static analysis of the compiler IR (MIR) of the current working tree; nothing is executed. ' + ' '.join(self.rule),
                   obligations=len(self.obl), discharged=n('ok'), undecided=n('undecided'), known_findings=len(old),
                   functions_analysed=sorted(self.fns)[:400], functions=len(self.fns),
                   instance_floors=[dict(rule=a, found=b, minimum=c) for a, b, c in self.floors],
                   undecided_items=[dict(key=o['key'], what=o['what'], where=o['where'], why=o['detail']) for o in self.obl if o['status'] == 'undecided'][:60],
                   samples=[dict(key=o['key'], what=o['what'], where=o['where']) for o in self.obl if o['status'] == 'ok'][:40], **self.stats)
        if self.notes: cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations over %d functions: %d discharged, %d undecided, %d known findings, %d violations' % (
            self.pid, len(self.obl), len(self.fns), n('ok'), n('undecided'), len(old), len(new)))
        for o in self.obl:
            if o['status'] == 'undecided': print('  undecided: %s [%s] %s: %s' % (o['key'], o['where'], o['what'], o['detail']))
        for k, v in sorted(old.items()):
            print('KNOWN-FINDING: property=%s %s: %s (%s)' % (self.pid, k, v[0]['what'], v[0]['where']))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.json')
            with open(rp, 'w') as f: json.dump([o for v in new.values() for o in v], f, indent=1, default=str)
            for k, v in sorted(new.items()):
                for o in v[:3]:
                    print('  VIOLATED %s\n    at   %s\n    rule %s' % (k, o['where'], o['what']))
                    if o['detail']: print('    ' + str(o['detail'])[:1500].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.json')
        if os.path.exists(rp): os.remove(rp)
        return 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return set(), []
    d = json.load(open(p))
    return {(e['property'], e['key']) for e in d['findings']}, d.get('fixed', [])
