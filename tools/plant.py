#!/usr/bin/env python3
"""Make, confirm and try planted bugs.

  plant.py new FILE.py [--no-check]   FILE defines BUGS = [dict(id, property, needs, breaks, subs=[(file, old, new)], demo)]
  plant.py try ID [PROP]              run the property's check against a copy of /repo with the bug
"""
import json, os, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD:$PWD/lib/python-bitcoinlib:$PWD/lib/python-proofmarshal" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, **kw):
    e = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    t = d + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', t])
    return t


def tests(t):
    """failed stable tests"""
    e = {'PYTHONPATH': ':'.join([t, t + '/lib/python-bitcoinlib', t + '/lib/python-proofmarshal']),
         'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/opt/vp/no-pycache', 'PYTHONHASHSEED': '0'}
    x = t + '/../r.xml'
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--import-mode=prepend', '--rootdir=' + t, '--timeout=300',
        '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x,
        '--ignore=lib/python-bitcoinlib/bitcoin/tests/test_wallet.py', 'proofchains', 'lib/python-bitcoinlib/bitcoin',
        'lib/python-proofmarshal/proofmarshal'], t, e)
    ok = set()
    for c in ET.parse(x).getroot().iter('testcase'):
        if c.find('failure') is None and c.find('error') is None:
            ok.add('%s::%s' % (c.get('classname'), c.get('name')))
    return [s for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if s not in ok]


def check(prop, t, tier='quick'):
    r = sh([PY, VERIF + '/run.py', prop, '--tier', tier], VERIF, {'VERIF_REPO': t}, timeout=3000)
    v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', '  C'))]
    return r.returncode, v or r.stdout.splitlines()[-5:]


def main():
    cmd = sys.argv[1]
    if cmd == 'new':
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for b in ns['BUGS']:
            if len(sys.argv) > 3 and sys.argv[3] != '--no-check' and b['id'] not in sys.argv[3:]:
                continue
            t = copy()
            try:
                bad = None
                for f, old, new in b['subs']:
                    s = open(t + '/' + f).read()
                    if s.count(old) != 1:
                        bad = '%s: %d matches of %r' % (f, s.count(old), old)
                        break
                    open(t + '/' + f, 'w').write(s.replace(old, new))
                if bad:
                    print(b['id'], 'NOT MADE', bad)
                    continue
                d = VERIF + '/seeded/' + b['id']
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=t, text=True))
                open(d + '/demo.sh', 'w').write(b.get('demo_sh', DEMO))
                os.chmod(d + '/demo.sh', 0o755)
                open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                f = tests(t)
                c = sh(['bash', d + '/demo.sh'], '/repo', timeout=300)
                m = sh(['bash', d + '/demo.sh'], t, timeout=300)
                good = not f and c.returncode == 0 and m.returncode != 0
                print(b['id'], 'CONFIRMED' if good else 'BAD: failed %s clean %d patched %d\n%s\n%s' % (f[:3], c.returncode, m.returncode, c.stdout[-800:], m.stdout[-800:]), flush=True)
                if not good:
                    shutil.rmtree(d)
                    continue
                if '--no-check' not in sys.argv:
                    rc, v = check(b['property'], t)
                    print('   ', b['property'], 'CAUGHT' if rc == 1 else '**** rc %d' % rc, '\n      '.join(x[:300] for x in v[:3]), flush=True)
            finally:
                shutil.rmtree(os.path.dirname(t))
    elif cmd == 'try':
        meta = json.load(open(VERIF + '/seeded/%s/meta.json' % sys.argv[2]))
        t = copy()
        try:
            print(sh(['git', 'apply', VERIF + '/seeded/%s/patch.diff' % sys.argv[2]], t).stdout, end='')
            for p in sys.argv[3:] or [meta['property']]:
                rc, v = check(p, t)
                print(sys.argv[2], p, 'CAUGHT' if rc == 1 else '**** rc %d' % rc, '\n      '.join(x[:300] for x in v[:3]), flush=True)
        finally:
            shutil.rmtree(os.path.dirname(t))


main()
