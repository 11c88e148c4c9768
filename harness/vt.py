"""Runner library: TLC model checking, program generation, trace validation.

Every check in harness/checks/ is a function run(c) over a Check object.  The
pieces a check is made of:

  c.mc(module, ...)        exhaustive TLC run over a design specification
  c.gen(module, ...)       TLC enumerates programs (sequences of operations)
  c.drive(driver, progs)   runs the programs (and the driver's own seeded random
                           ones) against the real code, recording traces
  c.validate(module, traces)  TLC decides whether each recorded trace is a
                           behaviour of the specification

Exit status: 0 held, 1 violation (with a VIOLATION line), 3 machinery failure.
"""
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PYTHON = '/opt/venv/bin/python'


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_env():
    env = dict(os.environ)
    env['PYTHONPATH'] = ':'.join([REPO, REPO + '/lib/python-bitcoinlib', REPO + '/lib/python-proofmarshal',
                                  VERIF + '/harness'])
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = '/opt/vp/no-pycache'
    env['PYTHONHASHSEED'] = '0'
    env['LC_ALL'] = 'C.UTF-8'
    env['VERIF_REPO'] = REPO
    return env


def check_json(v, path='$'):
    """Only what TLC's Json module reads back faithfully"""
    if isinstance(v, bool) or isinstance(v, str):
        return
    if isinstance(v, int):
        if not -2**31 < v < 2**31:
            raise MachineryError('integer out of range in trace at %s: %d' % (path, v))
        return
    if isinstance(v, list):
        for i, x in enumerate(v):
            check_json(x, path)
        return
    if isinstance(v, dict):
        for k, x in v.items():
            check_json(x, path + '.' + k)
        return
    raise MachineryError('bad value in trace at %s: %r' % (path, v))


class Check:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.replay = replay
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.out = os.path.join(VERIF, 'out', prop)
        self.states = 0
        self.transitions = 0
        self.traces_validated = 0
        self.events = 0
        self.samples = []
        self.phases = []
        self.opcounts = {}
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.canaries = 0
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            self.known = [k for k in json.load(f)['findings'] if k['property'] == prop]
        self._classes()

    # -- TLC ------------------------------------------------------------

    def _classes(self):
        """Compile the operator overrides (setup_cmd leaves a copy to reuse)"""
        src = sorted(glob.glob(os.path.join(VERIF, 'java', '*.java')))
        h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in src)).hexdigest()[:16]
        cached = os.path.join(VERIF, 'build', 'classes-' + h)
        if os.path.isdir(cached):
            self.classes = cached
            return
        self.classes = os.path.join(self.work, 'classes')
        os.makedirs(self.classes)
        r = subprocess.run(['javac', '-nowarn', '-d', self.classes, '-cp', JARS] + src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise MachineryError('javac failed:\n' + r.stdout)

    def tlc(self, module, cfg, env=None, args=(), timeout=None, workers=8, xmx='10g'):
        """Run TLC in a scratch copy of specs/; returns (rc, output)"""
        d = tempfile.mkdtemp(prefix=module + '-', dir=self.work)
        for f in glob.glob(os.path.join(VERIF, 'specs', '*.tla')):
            shutil.copy(f, d)
        with open(os.path.join(d, 'run.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m', '-cp', self.classes + ':' + JARS, 'tlc2.TLC',
               '-config', 'run.cfg', '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE', '-deadlock',
               '-workers', str(workers)] + list(args) + [module + '.tla']
        if timeout is None:
            timeout = 3600 if self.thorough else 600
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def _stats(out):
        m = None
        for m in re.finditer(r'^([\d,]+) states generated, ([\d,]+) distinct states found', out, re.M):
            pass
        if m is None:
            return 0, 0
        return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))

    @staticmethod
    def cfg(spec='Spec', init=None, next=None, constants=None, invariants=(), properties=(), view=None, constraint=None,
            action_constraint=None, postcondition=None, symmetry=None):
        lines = []
        if init:
            lines += ['INIT ' + init, 'NEXT ' + next]
        else:
            lines.append('SPECIFICATION ' + spec)
        for k, v in (constants or {}).items():
            lines.append('CONSTANT %s %s' % (k, v) if str(v).startswith('<-') else 'CONSTANT %s = %s' % (k, v))
        for i in invariants:
            lines.append('INVARIANT ' + i)
        for p in properties:
            lines.append('PROPERTY ' + p)
        if view:
            lines.append('VIEW ' + view)
        if constraint:
            lines.append('CONSTRAINT ' + constraint)
        if action_constraint:
            lines.append('ACTION_CONSTRAINT ' + action_constraint)
        if postcondition:
            lines.append('POSTCONDITION ' + postcondition)
        if symmetry:
            lines.append('SYMMETRY ' + symmetry)
        return '\n'.join(lines) + '\n'

    def mc(self, module, **kw):
        """Exhaustive check of a design specification: depends on /verif only"""
        if self.replay:
            return
        args = kw.pop('args', ())
        t = time.time()
        broken = kw.pop('broken', None)
        rc, out = self.tlc(module, self.cfg(**kw), args=args)
        gen, dist = self._stats(out)
        if broken:
            # a deliberately broken design: the check has to notice
            if 'Invariant %s is violated' % broken not in out:
                raise MachineryError('broken design of %s: %s not violated (rc %d):\n%s' % (module, broken, rc, out[-3000:]))
            self.phases.append({'phase': 'broken design rejected', 'module': module, 'constants': kw.get('constants', {}),
                                'violated': broken, 'wall_s': round(time.time() - t, 1)})
            return
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('design check of %s failed (rc %d):\n%s' % (module, rc, out[-6000:]))
        if dist < 1:
            raise MachineryError('design check of %s explored nothing' % module)
        self.states += dist
        self.transitions += gen
        self.phases.append({'phase': 'exhaustive design check', 'module': module, 'constants': kw.get('constants', {}),
                            'invariants': list(kw.get('invariants', ())) + list(kw.get('properties', ())),
                            'states': dist, 'transitions': gen, 'wall_s': round(time.time() - t, 1)})

    def gen(self, module, **kw):
        """Programs TLC enumerates: whatever the specification prints as <<"PROGRAM", json>>"""
        if self.replay:
            return []
        args = kw.pop('args', ())
        t = time.time()
        rc, out = self.tlc(module, self.cfg(**kw), args=args)
        if rc != 0:
            raise MachineryError('generation from %s failed (rc %d):\n%s' % (module, rc, out[-6000:]))
        progs = {}
        for m in re.finditer(r'^<<"PROGRAM", (".*")>>$', out, re.M):
            p = json.loads(json.loads(m.group(1)))
            progs[json.dumps(p, sort_keys=True)] = p
        gen, dist = self._stats(out)
        if not progs:
            raise MachineryError('%s generated no program:\n%s' % (module, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.phases.append({'phase': 'programs enumerated by TLC', 'module': module,
                            'constants': kw.get('constants', {}), 'programs': len(progs),
                            'states': dist, 'transitions': gen, 'wall_s': round(time.time() - t, 1)})
        return [progs[k] for k in sorted(progs)]

    # -- the real code --------------------------------------------------

    def drive(self, driver, programs=(), timeout=None, **params):
        """Run a driver against /repo's working tree; returns the recorded traces"""
        if self.replay:
            if self.replay['driver'] != driver or self.replay['params'] != params:
                return []
            programs = [self.replay['program']]
        inp = os.path.join(self.work, driver + '.in.json')
        outp = os.path.join(self.work, driver + '.out.json')
        if os.path.exists(outp):
            os.unlink(outp)
        with open(inp, 'w') as f:
            json.dump({'programs': list(programs), 'seed': self.seed, 'tier': self.tier, 'params': params,
                       'replay': bool(self.replay), 'work': self.work}, f)
        t = time.time()
        if timeout is None:
            timeout = 7200 if self.thorough else 500
        try:
            r = subprocess.run([PYTHON, '-X', 'faulthandler', os.path.join(VERIF, 'harness', driver + '.py'), inp, outp],
                               env=repo_env(), cwd=self.work, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('driver %s timed out' % driver)
        if r.returncode < 0 and os.path.exists(outp + '.current'):
            # The process died (not a Python exception): report what was running
            with open(outp + '.current') as f:
                cur = json.load(f)
            self.add_violation(driver, params, cur, -1, {'clause': 'process died (signal %d)' % -r.returncode,
                                                         'want': 'a result or an exception', 'got': r.stdout[-2000:]})
            return []
        if r.returncode != 0 or not os.path.exists(outp):
            raise MachineryError('driver %s failed (rc %d):\n%s' % (driver, r.returncode, r.stdout[-6000:]))
        with open(outp) as f:
            traces = json.load(f)
        if not traces and not self.replay:
            raise MachineryError('driver %s recorded no trace' % driver)
        for tr in traces:
            tr['_driver'] = driver
            tr['_params'] = params
        self.phases.append({'phase': 'execution of the real code', 'driver': driver, 'params': params,
                            'traces': len(traces), 'events': sum(len(tr['ev']) for tr in traces),
                            'wall_s': round(time.time() - t, 1)})
        return traces

    # -- conformance ----------------------------------------------------

    def validate(self, module, traces, constants=None, canary=True, clauses=None, canary_ops=None):
        """TLC decides whether every recorded event is what the specification allows"""
        if not traces:
            return
        t = time.time()
        clean = [{k: v for k, v in tr.items() if not k.startswith('_') and k != 'prog'} for tr in traces]
        n_real = len(clean)
        expect = {}          # canaries: (tid, index) that must be rejected
        if canary and not self.replay:
            rng = random.Random(self.seed)
            by_op = {}
            for i, tr in enumerate(clean):
                for j, e in enumerate(tr['ev']):
                    if 'out' in e and isinstance(e['out'], dict) and len(by_op.setdefault(e['op'], [])) < 400:
                        by_op[e['op']].append((i, j))
            for op in sorted(by_op):
                i, j = rng.choice(by_op[op])
                tr = {k: v for k, v in clean[i].items() if k != 'ev'}
                ev = list(clean[i]['ev'][:j + 1])
                ev[j] = dict(ev[j], out=dict(ev[j]['out'], k='canary'))
                tr['ev'] = ev
                clean.append(tr)
                expect[(len(clean), j + 1)] = op
        check_json(clean)
        tf = os.path.join(self.work, module + '.traces.json')
        cfg = self.cfg(spec='TSpec', constants=constants, view='TView')
        lost = {}            # events the specification cannot even follow: the code has left it there, or before
        while True:
            with open(tf, 'w') as f:
                json.dump(clean, f)
            rc, out = self.tlc(module, cfg, env={'TRACE_FILE': tf})
            if rc == 0 and 'No error has been found' in out:
                break
            at = re.findall(r'^/\\ l = (\d+)$', out, re.M), re.findall(r'^/\\ tid = (\d+)$', out, re.M)
            if not (at[0] and at[1]) or len(lost) >= 12 or 'evaluating' not in out:
                raise MachineryError('trace validation with %s failed (rc %d):\n%s' % (module, rc, out[-8000:]))
            # follow every trace just to where it is lost, or was first found wrong
            cut = {int(at[1][-1]): int(at[0][-1])}
            lost[int(at[1][-1])] = (cut[int(at[1][-1])] + 1, ' '.join(out[out.index('Error:'):][:300].split()) if 'Error:' in out else '')
            for m in re.finditer(r'^<<"MISMATCH", (\d+), (\d+), ', out, re.M):
                if int(m.group(1)) <= n_real:
                    cut.setdefault(int(m.group(1)), int(m.group(2)))
            for k in list(expect):      # corrupted copies go with the original: their place is still tried in the others
                if k[0] in cut or any(clean[k[0] - 1]['ev'][:-1][:n + 1] == clean[i - 1]['ev'][:n + 1] for i, n in cut.items()):
                    cut.setdefault(k[0], 0)
                    del expect[k]
            for i, n in cut.items():
                clean[i - 1] = dict(clean[i - 1], ev=clean[i - 1]['ev'][:n])
        gen, dist = self._stats(out)
        want = sum(len(tr['ev']) + 1 for tr in clean)
        if dist != want:
            raise MachineryError('trace validation with %s covered %d of %d events' % (module, dist, want))
        bad = {}
        for m in re.finditer(r'^<<"MISMATCH", (\d+), (\d+), (".*")>>$', out, re.M):
            bad.setdefault((int(m.group(1)), int(m.group(2))), json.loads(json.loads(m.group(3))))
        for tid, (i, why) in lost.items():
            if tid <= n_real and not any(t == tid for t, _ in bad):
                bad[tid, i] = [{'clause': 'crash', 'want': 'an event the specification can follow', 'got': why}]
        for key, op in expect.items():
            if key not in bad:
                raise MachineryError('%s accepted a corrupted %r event' % (module, op))
        self.canaries += len(expect)
        nviol = 0
        for (tid, idx) in sorted(bad):
            if tid > n_real:
                continue
            for b in bad[(tid, idx)]:
                if clauses is not None and not any(b['clause'].startswith(c) for c in clauses):
                    continue
                tr = traces[tid - 1]
                self.add_violation(tr['_driver'], tr['_params'], tr, idx, b)
                nviol += 1
        self.states += dist
        self.transitions += gen
        self.traces_validated += n_real
        nev = sum(len(tr['ev']) for tr in traces)
        self.events += nev
        for tr in traces:
            for e in tr['ev']:
                k = e['op']
                if isinstance(e.get('out'), dict):
                    o = e['out']
                    k += ':' + o['k'] + ((':' + o['mro'][0]) if o['k'] == 'exc' and o.get('mro') else '')
                self.opcounts[k] = self.opcounts.get(k, 0) + 1
        rng = random.Random(self.seed + 1)
        for tr in rng.sample(traces, min(2, len(traces))):
            s = json.dumps(tr['ev'][:6])
            self.samples.append({'trace': tr.get('name', ''), 'events': tr['ev'][:6] if len(s) < 3000 else s[:3000]})
        self.phases.append({'phase': 'trace validation', 'module': module, 'traces': n_real, 'events': nev,
                            'states': dist, 'transitions': gen, 'corrupted_traces_rejected': len(expect),
                            'wall_s': round(time.time() - t, 1)})

    def add_violation(self, driver, params, trace, idx, b):
        for k in self.known:
            if k['clause'] == b['clause'] and (not k.get('op') or
                                               (idx > 0 and trace['ev'][idx - 1]['op'] == k['op'])):
                self.known_hit.setdefault(k['what'], 0)
                self.known_hit[k['what']] += 1
                return
        self.violations.append((driver, params, trace, idx, b))

    # -- result ---------------------------------------------------------

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        wall = time.time() - self.t0
        if not self.replay:
            ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
                  'coverage': {'states': self.states, 'transitions': self.transitions,
                               'traces_validated_against_impl': self.traces_validated,
                               'events_validated': self.events, 'phases': self.phases,
                               'events_by_kind': dict(sorted(self.opcounts.items())),
                               'corrupted_traces_rejected': self.canaries,
                               'samples': self.samples[:6] or [{'note': 'no trace'}]},
                  'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations)}
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
                f.write('\n')
        for what, n in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if not self.violations:
            print('OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' % (
                self.prop, self.states, self.transitions, self.traces_validated, self.events, wall))
            return 0
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        seen = {}
        for driver, params, trace, idx, b in self.violations:
            seen[b['clause']] = seen.get(b['clause'], 0) + 1
            if seen[b['clause']] > 2 or len(seen) > 10:
                continue
            path = os.path.join(self.out, '%d-%d.json' % (len(seen), seen[b['clause']]))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'driver': driver, 'params': params, 'trace': trace.get('name', ''),
                           'failing_event': idx, 'clause': b['clause'], 'expected': b.get('want'),
                           'got': b.get('got'), 'program': trace.get('prog'),
                           'events': trace.get('ev', [])[:idx] if idx > 0 else trace.get('ev', [])}, f, indent=1)
            log('  %s: %s: event %d of %s: want %s got %s' % (
                self.prop, b['clause'], idx, trace.get('name'), str(b.get('want'))[:300], str(b.get('got'))[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1
