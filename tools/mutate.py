#!/usr/bin/env python3
"""Systematic search for changes the checks do not see.

  mutate.py prepare                    programs of every check, and what the drivers record on /repo, twice
  mutate.py run OUT.jsonl [N] [FILE…]  N random small changes (0: all) of the files, eight at a time

For each change: the repository's tests first (changes they notice do not
count), then only the drivers of the checks responsible, whose recorded traces
are compared with those of /repo.  Equal traces mean that no check can have
noticed: either the change is equivalent, or the checks have a gap.
"""
import ast, hashlib, importlib, json, os, pickle, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/mutate'
PM, BL = 'lib/python-proofmarshal/proofmarshal/', 'lib/python-bitcoinlib/bitcoin/'
FILES = {
    PM + 'mmr.py': 'C01 C02 C04', PM + 'merbinnertree.py': 'C05 C06 C04', PM + 'bits.py': 'C07 C08', PM + 'proof.py': 'C03 C09 C08 C04',
    PM + 'serialize.py': 'C08 C09', 'proofchains/core/bitcoin.py': 'C24 C08 C10', 'proofchains/core/uniquebits/singleuseseal.py': 'C10 C11',
    'proofchains/core/uniquebits/gumap.py': 'C11', 'proofchains/uniquebits/singleuseseal.py': 'C10 C12', 'sus-tool.py': 'C12',
    BL + '__init__.py': 'C20 C18 C15 C21 C23', BL + 'base58.py': 'C20', BL + 'bloom.py': 'C22', BL + 'messages.py': 'C18', BL + 'net.py': 'C18',
    BL + 'rpc.py': 'C23', BL + 'wallet.py': 'C20 C21', BL + 'core/__init__.py': 'C17 C16 C15 C23 C18', BL + 'core/_bignum.py': 'C17 C13',
    BL + 'core/key.py': 'C21', BL + 'core/script.py': 'C19 C14 C13', BL + 'core/scripteval.py': 'C13', BL + 'core/serialize.py': 'C17 C16 C15',
}
for f in FILES:
    if os.path.exists(VERIF + '/harness/checks/c25.py') and f.startswith(BL):
        FILES[f] += ' C25'


def progs_of(prop):
    """the check, run without TLC except to enumerate programs"""
    sys.path.insert(0, VERIF + '/harness')
    import vt
    cache = '%s/progs-%s.pkl' % (D, prop)
    made = pickle.load(open(cache, 'rb')) if os.path.exists(cache) else None
    new = []

    class Fast(vt.Check):
        i = 0

        def mc(self, *a, **k):
            pass

        def gen(self, *a, **k):
            if made is not None:
                self.i += 1
                return made[self.i - 1]
            r = super().gen(*a, **k)
            new.append(r)
            return r

        def drive(self, *a, **k):
            r = super().drive(*a, **k)
            traces.extend(r)
            return r

        def validate(self, *a, **k):
            pass
    traces = []
    c = Fast(prop, 'quick', 1)
    try:
        importlib.import_module('checks.' + prop.lower()).run(c)
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    if made is None:
        pickle.dump(new, open(cache, 'wb'))
    out = {}

    def plain(x):
        """without signatures, which are different every time"""
        if isinstance(x, dict):
            return {k: 0 if k == 'v' and isinstance(v, str) and v.startswith('30') and len(v) > 130 else plain(v) for k, v in x.items()}
        return [plain(y) for y in x] if isinstance(x, list) else x
    for n, t in enumerate(traces):
        if prop in ('C13', 'C21'):
            t['ev'] = plain(t['ev'])
        out['%d %s' % (n, t['name'])] = hashlib.sha256(json.dumps(t['ev'], sort_keys=True).encode()).hexdigest()[:16]
    out['violations'] = len(c.violations)
    return out


def one(prop, tree):
    e = dict(os.environ, VERIF_REPO=tree)
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore', __file__, 'hash', prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode:
        return None
    return json.loads(r.stdout.splitlines()[-1])


def tree(name):
    """a clone of /repo whose runs get no entropy"""
    t = '%s/%s/repo' % (D, name)
    shutil.rmtree(os.path.dirname(t), ignore_errors=True)
    os.makedirs(os.path.dirname(t))
    subprocess.check_call(['git', 'clone', '-q', '/repo', t])
    with open(t + '/sitecustomize.py', 'w') as f:
        f.write('import os, random\nR = random.Random(7)\nos.urandom = R.randbytes\nrandom.seed(7)\n')
    return t


def prepare(only=()):
    os.makedirs(D, exist_ok=True)
    ref = tree('ref')
    for p in only or sorted({p for v in FILES.values() for p in v.split()}):
        t = time.time()
        for f in ('%s/progs-%s.pkl' % (D, p),):
            if os.path.exists(f):
                os.unlink(f)
        one(p, ref)
        a, b = one(p, ref), one(p, ref)
        if a is None or b is None:
            print(p, 'FAILED', flush=True)
            continue
        stable = {k: v for k, v in a.items() if b.get(k) == v}
        json.dump(stable, open('%s/base-%s.json' % (D, p), 'w'))
        print(p, len(a), 'traces', len(a) - len(stable), 'unstable', round(time.time() - t), 's', flush=True)


# -- changes ------------------------------------------------------------------

SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
        ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add],
        ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
        ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr], ast.Pow: [ast.Mult]}


def changes(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def put(node, text, what):
        a = offs[node.lineno - 1] + node.col_offset
        b = offs[node.end_lineno - 1] + node.end_col_offset
        new = raw[:a] + text.encode() + raw[b:]
        try:
            new = new.decode()
            ast.parse(new)
        except (SyntaxError, ValueError, UnicodeDecodeError):
            return
        out.append((node.lineno, '%s -> %s' % (what or raw[a:b].decode()[:80].replace('\n', ' '), text[:80]), new))

    def expr(node, repl):
        put(node, '(' + ast.unparse(repl) + ')', None)
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n)
    skip = {d.value for d in docs}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            for i, o in enumerate(n.ops):
                for s in SWAP.get(type(o), []):
                    expr(n, ast.Compare(n.left, n.ops[:i] + [s()] + n.ops[i + 1:], n.comparators))
        elif isinstance(n, ast.BinOp):
            for s in SWAP.get(type(n.op), []):
                if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))):
                    expr(n, ast.BinOp(n.left, s(), n.right))
        elif isinstance(n, ast.AugAssign):
            for s in SWAP.get(type(n.op), []):
                put(n, ast.unparse(ast.AugAssign(n.target, s(), n.value)), None)
            put(n, 'pass', None)
        elif isinstance(n, ast.BoolOp):
            expr(n, ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values))
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                expr(n, rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest))
        elif isinstance(n, ast.UnaryOp):
            if not isinstance(n.op, ast.USub) or not isinstance(n.operand, ast.Constant):
                expr(n, n.operand)
        elif isinstance(n, ast.Constant) and n not in skip:
            v = n.value
            if isinstance(v, bool):
                put(n, repr(not v), None)
            elif isinstance(v, int):
                put(n, repr(v + 1), None)
                if v > 0:
                    put(n, repr(v - 1), None)
            elif isinstance(v, bytes) and v:
                put(n, repr(v[:-1]), None)
                put(n, repr(v[:-1] + bytes([v[-1] ^ 1])), None)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if isinstance(n, ast.While):
                put(n.test, 'False', None)
            else:
                put(n.test, 'True', None)
                put(n.test, 'False', None)
        elif isinstance(n, (ast.Assign, ast.Raise, ast.Assert, ast.Delete)) or isinstance(n, ast.Expr) and n not in docs:
            put(n, 'pass', None)
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', None)
        elif isinstance(n, ast.Break):
            put(n, 'continue', None)
        elif isinstance(n, ast.Continue):
            put(n, 'break', None)
            put(n, 'pass', None)
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, 'ZeroDivisionError', None)
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n, ast.unparse(ast.Slice(None, n.upper, n.step)) or ':', None)
            if n.upper is not None:
                put(n, ast.unparse(ast.Slice(n.lower, None, n.step)) or ':', None)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                a = list(n.args)
                a[i], a[i + 1] = a[i + 1], a[i]
                expr(n, ast.Call(n.func, a, n.keywords))
    # each once
    seen, r = {src}, []
    for l, w, s in out:
        if s not in seen:
            seen.add(s)
            r.append((l, w, s))
    return r


MEMO = '''
def _memo(f):
    kept = {}
    def g(*a, **k):
        try:
            key = (a, tuple(sorted(k.items())))
            if key not in kept:
                kept[key] = f(*a, **k)
            return kept[key]
        except TypeError:
            return f(*a, **k)
    g.__name__, g.__qualname__, g.__doc__, g.__module__ = f.__name__, f.__qualname__, f.__doc__, f.__module__
    return g
_shared_list, _shared_dict, _shared_set, _shared_bytes = [], {}, set(), bytearray()
'''
COPIES = {'list', 'tuple', 'bytes', 'bytearray', 'int', 'set', 'str', 'bool', 'sorted', 'reversed', 'abs', 'CScript', 'float'}
SIGNS = {'I': 'i', 'Q': 'q', 'H': 'h', 'B': 'b', 'i': 'I', 'q': 'Q', 'l': 'L'}


def changes2(src):
    """changes of meaning that take a special input: something kept from an
    earlier call, another test of type or identity, a copy not made, a size beyond
    which it goes wrong"""
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []
    head = next((n for n in tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))), None)
    top = min([head.lineno] + [d.lineno for d in head.decorator_list]) if head else None

    def put(node, text, what=None, memo=False):
        a = offs[node.lineno - 1] + node.col_offset
        b = offs[node.end_lineno - 1] + node.end_col_offset
        new = raw[:a] + text.encode() + raw[b:]
        if memo:
            h = offs[top - 1]
            new = new[:h] + MEMO.encode() + new[h:]
        try:
            new = new.decode()
            ast.parse(new)
        except (SyntaxError, ValueError, UnicodeDecodeError):
            return
        out.append((node.lineno, '%s -> %s' % (what or raw[a:b].decode()[:80].replace('\n', ' '), text[:80]), new))

    u = ast.unparse
    infun = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            infun |= set(map(id, ast.walk(f)))
            if top and any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f)) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
                a = offs[f.lineno - 1]
                new = raw[:a] + b' ' * f.col_offset + b'@_memo\n' + raw[a:]
                h = offs[top - 1]
                new = new[:h] + MEMO.encode() + new[h:] if h <= a else new
                out.append((f.lineno, 'memo %s' % f.name, new.decode()))
    for n in ast.walk(tree):
        if id(n) not in infun:
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
            a = u(n.args[0])
            if n.func.id in COPIES:
                put(n, '(%s)' % a)
            if n.func.id == 'len':
                put(n, 'min(len(%s), 64)' % a)
            if n.func.id == 'range':
                for k in (3, 64):
                    put(n, 'range(min(%s, %d))' % (a, k))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if not n.args and not n.keywords and n.func.attr not in ('items', 'keys', 'values'):
                put(n, u(n.func.value))
            if n.func.attr.startswith('from_') and len(n.args) == 1:
                put(n, '(%s)' % u(n.args[0]))
        if isinstance(n, ast.Call) and u(n.func) == 'isinstance' and len(n.args) == 2:
            put(n, '(%s.__class__ is %s)' % (u(n.args[0]), u(n.args[1])))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r, o = u(n.left), u(n.comparators[0]), n.ops[0]
            if isinstance(o, ast.Is):
                put(n, '(%s == %s)' % (l, r))
                if 'class' in l:
                    put(n, 'issubclass(%s, %s)' % (l, r))
            if isinstance(o, ast.IsNot):
                put(n, '(%s != %s)' % (l, r))
                if r == 'None':
                    put(n, '(%s)' % l)
            if isinstance(o, ast.Is) and r == 'None':
                put(n, '(not %s)' % l)
            if isinstance(o, ast.Eq):
                put(n, '(%s is %s)' % (l, r))
            if isinstance(o, ast.NotEq):
                put(n, '(%s is not %s)' % (l, r))
            if isinstance(o, (ast.Lt, ast.LtE)):
                put(n, '(%s <= %s + 1)' % (l, r))
                put(n, '(%s < %s - 1)' % (l, r))
        if isinstance(n, ast.ExceptHandler) and n.type is not None and u(n.type) != 'Exception':
            put(n.type, 'Exception')
        if isinstance(n, (ast.For, ast.comprehension)):
            it = u(n.iter)
            for k in (1, 3, 64):
                put(n.iter, '__import__("itertools").islice(%s, %d)' % (it, k))
            put(n.iter, '__import__("itertools").islice(%s, 1, None)' % it)
            put(n.iter, 'reversed(list(%s))' % it)
            put(n.iter, 'sorted(set(%s))' % it)
        if isinstance(n, ast.List) and not n.elts and isinstance(n.ctx, ast.Load):
            put(n, '_shared_list', None, True)
        if isinstance(n, ast.Dict) and not n.keys:
            put(n, '_shared_dict', None, True)
        if isinstance(n, ast.Call) and u(n) == 'set()':
            put(n, '_shared_set', None, True)
        if isinstance(n, ast.Slice):
            for side in ('lower', 'upper'):
                v = getattr(n, side)
                if v is not None:
                    for d in ('+ 1', '- 1'):
                        put(v, '(%s %s)' % (u(v), d))
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            put(n.slice, '(%s) - 1' % u(n.slice))
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and 2 <= len(n.value) <= 6 and n.value[:1] in ('<', '>', b'<', b'>'):
            t = n.value if isinstance(n.value, str) else n.value.decode()
            for i, c in enumerate(t):
                if c in SIGNS:
                    put(n, repr(t[:i] + SIGNS[c] + t[i + 1:]))
            put(n, repr({'<': '>', '>': '<'}[t[0]] + t[1:]))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.LShift, ast.Mult, ast.BitOr)):
            for m in ('0xff', '0xffffffff') if 'len(' in u(n) and "'" not in u(n) else ():
                put(n, '((lambda _x: _x & %s if isinstance(_x, int) else _x)(%s))' % (m, u(n)))
        if isinstance(n, ast.BoolOp):
            pass
        if isinstance(n, ast.IfExp):
            put(n.test, '(%s) is not None' % u(n.test))
        if isinstance(n, (ast.Yield,)) and n.value is not None:
            put(n, '(yield None)')
    seen, r = {src}, []
    for l, w, s in out:
        if s not in seen:
            seen.add(s)
            r.append((l, w, s))
    return r


if os.environ.get('MUT_SET') == '2':
    changes = changes2


def run(outp, n, files):
    rnd = random.Random(int(os.environ.get('MUT_SEED', '1')))
    jobs = []
    for f in files or sorted(FILES):
        src = open('/repo/' + f).read()
        jobs += [(f, l, w, s) for l, w, s in changes(src)]
    rnd.shuffle(jobs)
    if n:
        jobs = jobs[:n]
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)['id'] for l in open(outp)}
    print(len(jobs), 'changes', flush=True)
    nw = int(os.environ.get('MUT_WORKERS', '8'))
    free = []
    for i in range(nw):
        free.append(tree('w%d-%d' % (os.getpid(), i)))
    sys.path.insert(0, VERIF + '/tools')
    import plant

    def work(j):
        f, l, w, s = j
        i = hashlib.sha256((f + s).encode()).hexdigest()[:12]
        if i in done:
            return
        t = free.pop()
        try:
            with open(t + '/' + f, 'w') as h:
                h.write(s)
            res = {'id': i, 'file': f, 'line': l, 'what': w}
            try:
                failed = tests(plant, t)
            except Exception as e:
                failed = [str(e)]
            if failed:
                res['by'] = 'tests'
            else:
                for p in FILES[f].split():
                    base = json.load(open('%s/base-%s.json' % (D, p)))
                    got = one(p, t)
                    if got is None or any(got.get(k) != v for k, v in base.items()):
                        res['by'] = p if got else p + ' (no answer)'
                        break
                else:
                    res['by'] = ''
            with open(outp, 'a') as h:
                h.write(json.dumps(res) + '\n')
        finally:
            subprocess.check_call(['git', '-C', t, 'checkout', '-q', '--', '.'])
            free.append(t)
    try:
        with ThreadPoolExecutor(nw) as ex:
            list(ex.map(work, jobs))
    finally:
        for i in range(nw):
            shutil.rmtree('%s/w%d-%d' % (D, os.getpid(), i), ignore_errors=True)


def tests(plant, t):
    e = {'PYTHONPATH': ':'.join([t, t + '/lib/python-bitcoinlib', t + '/lib/python-proofmarshal']),
         'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/opt/vp/no-pycache', 'PYTHONHASHSEED': '0'}
    r = plant.sh([plant.PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--import-mode=prepend', '--rootdir=' + t, '--timeout=60',
                  '--deselect', 'lib/python-bitcoinlib/bitcoin/tests/test_transactions.py::Test_CTransaction::test_tx_valid',
                  '--ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py', 'proofchains', 'lib/python-bitcoinlib/bitcoin',
                  'lib/python-proofmarshal/proofmarshal'], t, e, timeout=200)
    return [] if r.returncode == 0 else [r.stdout[-300:]]


if __name__ == '__main__':
    if sys.argv[1] == 'hash':
        print(json.dumps(progs_of(sys.argv[2])))
    elif sys.argv[1] == 'prepare':
        prepare(sys.argv[2:])
    elif sys.argv[1] == 'count':
        for f in sorted(FILES):
            print(f, len(changes(open('/repo/' + f).read())))
    else:
        run(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 0, sys.argv[4:])
