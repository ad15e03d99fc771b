"""C30: a type of the crate crosses threads only if everything in it may."""
from core import *
from seqs import strip
from hashing import guarded

GUARDS = ('std::sync::Mutex', 'std::sync::RwLock', 'std::sync::OnceLock', 'std::sync::LazyLock', 'std::sync::ReentrantLock')
NOT = {'Send': ('std::rc::Rc', 'std::rc::Weak', 'std::sync::MutexGuard', 'std::cell::Ref', 'std::cell::RefMut'),
       'Sync': ('std::rc::Rc', 'std::rc::Weak', 'std::cell::Cell', 'std::cell::RefCell', 'std::cell::UnsafeCell', 'std::cell::OnceCell', 'std::cell::LazyCell')}
POINTERS = ('std::ptr::NonNull', 'std::sync::atomic::AtomicPtr', 'std::sync::atomic::Atomic')


def modes(P, t, x, mode='owned', seen=()):
    """how a type holds the parameter x: subset of owned / shared / mut / ptr / locked"""
    k = t.get('k')
    if k == 'param': return {mode} if t['n'] == x else set()
    if k == 'ref': return modes(P, t['t'], x, mode if mode == 'shared' else 'mut' if t['m'] else 'shared', seen)
    if k == 'ptr': return modes(P, t['t'], x, mode if mode == 'shared' else 'ptr', seen)
    if k in ('slice', 'array'): return modes(P, t['t'], x, mode, seen)
    if k == 'tuple': return set().union(*[modes(P, y, x, mode, seen) for y in t['a']], set())
    if k == 'adt':
        m = 'locked' if t['n'] in GUARDS else 'ptr' if t['n'] in POINTERS and mode != 'shared' else mode
        return set().union(*[modes(P, y, x, m, seen) for y in t.get('a', ()) if isinstance(y, dict) and 'k' in y], set())
    return set()


def fields(P, n): return [f for v in P.adts[n]['variants'] for f in v['fields']]


def leaf(P, t, trait, seen=(), path=''):
    """an erased part of a type that is not `trait`, or None"""
    k = t.get('k')
    if k == 'dyn':
        s = t['s']
        return None if re_has(s, trait) else path + s
    if k == 'ref': return leaf(P, t['t'], 'Sync' if not t['m'] or trait == 'Sync' else trait, seen, path)
    if k in ('slice', 'array'): return leaf(P, t['t'], trait, seen, path)
    if k == 'tuple':
        for y in t['a']:
            r = leaf(P, y, trait, seen, path)
            if r: return r
        return None
    if k == 'adt':
        n = t['n']
        if n in NOT[trait]: return path + t['s']
        if n == 'std::marker::PhantomData': return None
        if n in GUARDS: trait = 'Send'
        if n in ('std::sync::Arc', 'std::sync::Weak'):
            for y in t.get('a', ()):
                for tr in ('Send', 'Sync'):
                    r = leaf(P, y, tr, seen, path) if isinstance(y, dict) and 'k' in y else None
                    if r: return r
            return None
        for y in t.get('a', ()):
            if isinstance(y, dict) and 'k' in y:
                r = leaf(P, y, trait, seen, path)
                if r: return r
        ad = P.adts.get(n)
        if ad and ad.get('local') and n not in seen:
            for f in fields(P, n):
                r = leaf(P, f['ty'], trait, seen + (n,), path + n.rsplit('::', 1)[-1] + '.' + f['name'] + ': ')
                if r: return r
    return None


def re_has(s, trait):
    import re
    return re.search(r'\b%s\b' % trait, s) is not None


def c30(rep, ctx):
    P = ctx.prog()
    rep.rule.append('For every type reachable from outside the crate the compiler\'s trait solver decides under which assumptions on its type parameters the type is Send and Sync; '
                    'it must never be so without the assumption that every parameter it holds needs (owned: Send for Send, Sync for Sync; shared reference: Sync; raw pointer: at least one of them), nor while a trait object, Rc or cell inside is not.')
    rep.assume += ['the trait solver of the compiler', 'std\'s own Send/Sync implementations']
    auto = P.d.get('auto') or []
    drops = {i['self'].get('n') for i in P.impls if i['trait'] == 'std::ops::Drop'}
    n = 0
    for a in auto:
        if not a['reachable'] or a['adt'] not in P.adts: continue
        t = a['adt']; sh = t.rsplit('::', 1)[-1]
        rep.fns.add(t)
        for trait in ('Send', 'Sync'):
            n += 1
            by = a['auto'][trait]; bad = None
            xs = [x for x in by if x]
            ever = by[''] or any(v for x in xs for v in by[x].values())
            for x in xs:
                ms = set().union(*[modes(P, f['ty'], x) for f in fields(P, t)], set())
                if not ms: continue
                r = by[x]
                if r['none']: bad = bad or '%s is %s whatever %s is' % (sh, trait, x)
                elif trait == 'Sync' and r['send'] and ms != {'locked'}: bad = bad or '%s is Sync when %s is only Send' % (sh, x)
                elif trait == 'Send' and r['send'] and 'shared' in ms: bad = bad or '%s holds %s by shared reference and is Send when %s is not Sync' % (sh, x, x)
                elif trait == 'Send' and r['sync'] and ('owned' in ms or 'mut' in ms or 'ptr' in ms and t in drops): bad = bad or '%s owns %s and is Send when %s is not Send' % (sh, x, x)
            if ever and not bad:
                for f in fields(P, t):
                    l = leaf(P, f['ty'], trait)
                    if l: bad = '%s is %s although it holds %s' % (sh, trait, f['name'] + ': ' + l); break
            impl = [i for i in P.impls if i['trait'] == 'std::marker::' + trait and i['polarity'] and 'Positive' in i['polarity']]
            src = '; '.join('%s (%s)' % (i['trait_ref'], i['span']) for i in impl)
            rep.expect(bad is None, '%s:%s' % (trait, sh), '%s crosses threads only when everything in it may' % sh, '%s (%s)' % (t, a['span']), (bad or '') + ('; explicit implementations: ' + src if src else ''))
    rep.floor('type and trait pairs decided', n, 18)
