"""Build the driver if needed, dump the MIR of /repo's current tree, load it."""
import json, re, os, subprocess, shutil, hashlib, sys, time, glob, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO_DIR', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))


class ToolError(Exception): pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    d = os.path.join(VERIF, 'driver')
    exe = os.path.join(d, 'target', 'debug', 'mirdump')
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=d, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(exe): raise ToolError('driver build failed:\n' + r.stderr[-4000:])
    return exe


CANON = {'rbtree::RbTree': ['K', 'V'], 'rbtree::Node': ['K', 'V'], 'collections::map::Map': ['K', 'V'], 'collections::seq::Seq': ['T'],
         'collections::paged::Paged': ['K', 'V', 'S'], 'rbtree::entry::Entry': ["'a", 'K', 'V'], 'rbtree::entry::OccupiedEntry': ["'a", 'K', 'V'],
         'rbtree::entry::VacantEntry': ["'a", 'K', 'V'], 'rbtree::iterator::RbTreeIterator': ["'tree", 'K', 'V']}


def canon(text):
    """paths of inherent methods do not depend on how an impl block names its parameters"""
    for a, ps in CANON.items():
        def sub(m, a=a, ps=ps):
            n = len(m.group(1).split(','))
            return '%s::<%s>::' % (a, ', '.join(ps)) if n == len(ps) else m.group(0)
        text = re.sub(r"(?<![A-Za-z0-9_:])" + a + r"::<((?:'?[A-Za-z_][A-Za-z0-9_]*)(?:, [A-Za-z_][A-Za-z0-9_]*)*)>::", sub, text)
    return re.sub(r'(?<![A-Za-z0-9_:])collections::map::Map::<[A-Za-z_]\w*, collections::seq::Seq<[A-Za-z_]\w*>>::', 'collections::map::Map::<K, collections::seq::Seq<V>>::', text)


def dump(debug=False):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _dump(debug)


def _dump(debug):
    exe = build_driver()
    tag = 'dbg' if debug else 'rel'
    out = os.path.join(CACHE, 'mir-%s.json' % tag)
    tgt = os.path.join(CACHE, 'target-' + tag)
    if os.path.exists(out): os.remove(out)
    for sub in ('.fingerprint', 'deps', 'build', 'incremental'):
        for p in glob.glob(os.path.join(tgt, 'debug', sub, '*certified[-_]vars*')):
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    madelock = False
    lock = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', lock); madelock = True
    env = dict(os.environ, MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_INCREMENTAL='0',
               LD_LIBRARY_PATH=sysroot() + '/lib' + (':' + os.environ['LD_LIBRARY_PATH'] if os.environ.get('LD_LIBRARY_PATH') else ''))
    env.pop('RUSTFLAGS', None); env.pop('CARGO_ENCODED_RUSTFLAGS', None)
    if not debug:
        env['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'; env['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'false'
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--target-dir', tgt], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0: raise ToolError('the crate does not compile:\n' + r.stderr[-4000:])
    if not os.path.exists(out): raise ToolError('the MIR dump was not written (driver skipped?)\n' + r.stderr[-2000:])
    d = json.loads(canon(open(out).read()))
    if len(d.get('fns', ())) < 100: raise ToolError('suspiciously small dump: %d functions' % len(d.get('fns', ())))
    return d


def srchash():
    h = hashlib.sha256()
    for r, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            p = os.path.join(r, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()
