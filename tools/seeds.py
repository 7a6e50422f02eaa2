"""Builds /verif/seeded/<id> from tools/seedspec/*.py and confirms each planted bug in a scratch copy.

usage: seeds.py build [id...]      write + confirm (tests pass, demo 0 without and non-zero with the patch)
       seeds.py check [id...]      run the property's check on the patched scratch copy (SA_ROOT)
       seeds.py benign [id...]     run every check on behaviour-preserving variants (tools/benign/*.py)
"""
import glob, json, os, shutil, subprocess, sys, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$D/demo.py"
'''


def load(kind):
    out = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', kind, '*.py'))):
        ns = {}
        src = open(f).read()
        exec(compile(src, f, 'exec'), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def scratch():
    d = tempfile.mkdtemp(prefix='seed')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    return d


def replace_function(t, name, new):
    """Source t with the top-level function replaced (new source may define helpers as well)."""
    import ast
    n = [x for x in ast.parse(t).body if getattr(x, 'name', None) == name]
    assert len(n) == 1, name
    l = t.split('\n')
    a = min([n[0].lineno] + [x.lineno for x in n[0].decorator_list]) - 1
    return '\n'.join(l[:a] + new.strip('\n').split('\n') + l[n[0].end_lineno:])


def edit(d, s):
    for f, name, new in s.get('repl', ()):
        p = os.path.join(d, 'solidspy', f)
        t = open(p).read()
        open(p, 'w').write(replace_function(t, name, new))
    for f, old, new in s.get('edits', ()):
        p = os.path.join(d, 'solidspy', f)
        t = open(p).read()
        if t.count(old) != 1:
            raise ValueError('%s: %s occurs %d times in %s:\n%s' % (s['id'], 'text', t.count(old), f, old))
        open(p, 'w').write(t.replace(old, new))


def tests(d):
    x = os.path.join(d, 'junit_x.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '--doctest-modules', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests', 'solidspy'], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).iter('testcase'):
        if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    os.remove(x)
    return sorted(stable - ok)


def demo(d, s):
    r = subprocess.run(['bash', os.path.join(V, 'seeded', s['id'], 'demo.sh')], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def build(s):
    d = scratch()
    o = os.path.join(V, 'seeded', s['id'])
    try:
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(o, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        rc0, out0 = demo(d, s)
        edit(d, s)
        p = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(os.path.join(o, 'patch.diff'), 'w').write(p)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        miss = tests(d)
        rc1, out1 = demo(d, s)
        ok = rc0 == 0 and rc1 != 0 and not miss
        if not ok:
            shutil.rmtree(o)
        return s['id'], ok, '' if ok else 'unpatched rc %d %s | tests broken %s | patched rc %d %s' % (rc0, out0, miss, rc1, out1)
    except ValueError as e:
        shutil.rmtree(o)
        return s['id'], False, str(e)
    finally:
        shutil.rmtree(d)


def check(d, prop):
    ev = tempfile.mkdtemp(prefix='ev')
    r = subprocess.run([sys.executable, '-m', 'sa.check', prop], cwd=V, env=dict(ENV, SA_ROOT=d, SA_EVIDENCE=ev), capture_output=True, text=True, timeout=1200)
    shutil.rmtree(ev)
    l = [x for x in r.stdout.splitlines() if x.startswith('violated') or x.startswith('missing')]
    u = [x for x in r.stdout.splitlines() if x.startswith('undecided')]
    k = [x for x in r.stdout.splitlines() if 'obligations' in x]
    n = ('[%d undecided of %s] ' % (len(u), k[-1].split()[1])) if u and k else ''
    return r.returncode, n + (l or u or [r.stdout[-200:] + r.stderr[-300:]])[0][:260]


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    allp = [os.path.basename(f)[:-3].upper() for f in sorted(glob.glob(V + '/sa/obl/c*.py'))]
    S = load('benign' if cmd == 'benign' else 'seedspec')
    S = [s for i, s in S.items() if not ids or any(re.fullmatch(x, i) for x in ids)]
    if cmd == 'build':
        with ThreadPoolExecutor(6) as ex:
            for i, ok, why in ex.map(build, S):
                print('ok  ' if ok else 'BAD ', i, why, flush=True)
    elif cmd == 'check':
        for s in S:
            d = scratch()
            edit(d, s)
            rc, l = check(d, s['property'])
            print('caught' if rc == 1 else 'MISSED %d' % rc, s['id'], s['property'], '' if rc == 1 else l, flush=True)
            shutil.rmtree(d)
    elif cmd == 'benign':
        for s in S:
            d = scratch()
            try:
                edit(d, s)
                miss = tests(d)
                if miss:
                    print('   TESTS BROKEN', s['id'], miss)
                with ThreadPoolExecutor(3) as ex:
                    ps = s.get('props') or allp
                    for p, (rc, l) in zip(ps, ex.map(lambda p: check(d, p), ps)):
                        if rc or 'undecided' in l[:40]:
                            print(('FALSE ALARM' if rc == 1 else 'NO ANSWER') if rc else 'undecided', s['id'], p, l, flush=True)
                print('done', s['id'], flush=True)
            finally:
                shutil.rmtree(d)


main()
