"""Time and memory limits: an obligation that does not settle becomes undecided, it never takes the whole check with it."""
import signal, time, contextlib
from core import Budget
HIT = []
START = time.time()
TOTAL, EACH, MEM = 640.0, 150.0, 9 << 30
_scope = []
_hit = [None]


def rss():
    with open('/proc/self/statm') as f: return int(f.read().split()[1]) * 4096


def tick(sig, frm):
    now = time.time(); why = None
    if now - START > TOTAL: why = 'time budget of the check'
    elif _scope and now - _scope[-1] > EACH: why = 'time budget of the obligation'
    elif rss() > MEM: why = 'memory budget'
    if why and _scope:
        HIT.append(why)
        _hit[0] = why
        raise Budget(why)


def start():
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)


@contextlib.contextmanager
def limit(seconds):
    """a smaller budget per obligation"""
    global EACH
    old = EACH; EACH = seconds
    try: yield
    finally: EACH = old


@contextlib.contextmanager
def scope():
    """one obligation; a limit that was hit inside it always surfaces, even when a handler swallowed the exception"""
    outer = not _scope
    if outer: _hit[0] = None
    _scope.append(time.time())
    try:
        if outer and time.time() - START > TOTAL:
            HIT.append('time budget of the check'); raise Budget('time budget of the check')
        yield
        if _hit[0]: raise Budget(_hit[0])
    finally: _scope.pop()


def extend(total):
    global TOTAL
    TOTAL = max(TOTAL, total)


def stop(): signal.setitimer(signal.ITIMER_REAL, 0)
