"""Common part of the drivers: run programs against the real code, record traces.

A driver is run as   drv_x.py IN.json OUT.json   with /repo on sys.path, and
only uses the code's public API.  Outcomes of calls are recorded as

    {"k": "ok",  "v": <projection>, "mro": []}
    {"k": "exc", "v": "", "mro": [class names of the exception]}
    {"k": "bad", "v": "<why>", ...}     the result isn't even of the right type
    {"k": "hang", ...}                  no result in time
"""
import json
import random
import signal
import sys
import traceback

OP_TIMEOUT = 20


class Hang(BaseException):
    pass


class BadValue(Exception):
    pass


def _alarm(sig, frame):
    raise Hang()


def out(k, v='', mro=()):
    return {'k': k, 'v': v, 'mro': list(mro)}


def p_int(x):
    if x.__class__ is not int:
        raise BadValue('not an int: %r' % (x,))
    if not -2**31 < x < 2**31:
        raise BadValue('int out of range: %r' % (x,))
    return x


def p_big(x):
    if x.__class__ is not int:
        raise BadValue('not an int: %r' % (x,))
    return str(x)


def p_bool(x):
    if x is not True and x is not False:
        raise BadValue('not a bool: %r' % (x,))
    return x


def p_truth(x):
    return bool(x)


def p_hex(x):
    if not isinstance(x, (bytes, bytearray)):
        raise BadValue('not bytes: %r' % (x,))
    return bytes(x).hex()


def p_str(x):
    if not isinstance(x, str):
        raise BadValue('not a str: %r' % (x,))
    return x


def p_none(x):
    if x is not None:
        raise BadValue('not None: %r' % (x,))
    return ''


def p_any(x):
    return ''


def call(fn, proj=p_any, timeout=OP_TIMEOUT):
    """Returns (result or None, outcome)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            r = fn()
        except Hang:
            return None, out('hang')
        except BaseException as e:
            return None, out('exc', str(e)[:200], [c.__name__ for c in type(e).__mro__])
        try:
            return r, out('ok', proj(r))
        except Hang:
            return None, out('hang', 'while looking at the result')
        except BaseException as e:
            return None, out('bad', ('%s: %s' % (type(e).__name__, e))[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Driver:
    def __init__(self):
        with open(sys.argv[1]) as f:
            self.inp = json.load(f)
        self.tier = self.inp['tier']
        self.thorough = self.tier == 'thorough'
        self.seed = self.inp['seed']
        self.params = self.inp['params']
        self.work = self.inp['work']
        self.traces = []

    def rng(self, label=''):
        return random.Random('%d/%s' % (self.seed, label))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, name, prog, fn):
        """fn(prog, events) appends events; a Python exception in it ends the
        trace with a "crash" event, which no specification allows"""
        ev = []
        tr = {'name': name, 'prog': prog, 'ev': ev}
        with open(sys.argv[2] + '.current', 'w') as f:
            json.dump(tr, f)
        try:
            extra = fn(prog, ev)
            if extra:
                tr.update(extra)
        except BaseException as e:
            tb = traceback.format_exc()[-1500:]
            ev.append({'op': 'crash', 'why': tb, 'out': out('crash', type(e).__name__)})
        self.traces.append(tr)

    def programs(self, random_programs):
        """the given programs, then (unless replaying) the driver's own"""
        for i, p in enumerate(self.inp['programs']):
            yield ('given-%d' % i, p)
        if not self.inp['replay']:
            for i, p in enumerate(random_programs()):
                yield ('own-%d' % i, p)

    def done(self):
        with open(sys.argv[2], 'w') as f:
            json.dump(self.traces, f)
