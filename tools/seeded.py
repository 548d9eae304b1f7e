#!/usr/bin/env python3
"""seeded.py [-c] [-j N] [-t TIER] ID...: tries planted bugs (all of seeded/ without IDs), each in private mounts of copies
of /repo and /verif, so nothing outside changes: the patch applies, the tests pass, the demonstration tells the two trees
apart, and the property's check reports it. One line per bug. -c: runs every other check too and names those that report it."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def inner(id, w, allp, tier):
    """Runs inside the mount namespace."""
    sh = lambda c, log, **k: subprocess.call(c, shell=True, cwd='/repo', stdout=open(f'{w}/{log}', 'w'), stderr=subprocess.STDOUT, **k)
    tail = lambda log: ' '.join(open(f'{w}/{log}').read().split('\n')[-6:])[-400:]
    prop = json.load(open(f'{w}/seed/meta.json'))['property']
    os.rename(f'{w}/seed/patch.diff', f'{w}/patch.diff')
    if sh(f'{w}/seed/demo.sh', 'demo0.log'): return f'BAD demo fails without the patch: {tail("demo0.log")}'
    if sh(f'git apply {w}/patch.diff', 'apply.log'): return f'BAD patch does not apply {tail("apply.log")}'
    if sh('bash /opt/vp/build.sh', 'build.log'): return f'BAD does not build {tail("build.log")}'
    sh(f'bash /opt/vp/test.sh {w}/t.json', 'test.log')
    res = json.load(open(f'{w}/t.json'))
    passed = {t for t, r in res.items() if r in (True, 'pass', 'passed')} if 'passed' not in res else set(res['passed'])
    missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed
    if missing: return f'BAD tests fail: {sorted(missing)[:3]}'
    if not sh(f'{w}/seed/demo.sh', 'demo1.log'): return 'BAD demo passes with the patch'
    props = [prop] + ([c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property'] != prop] if allp else [])
    out = []
    msg = ''
    for p in props:
        t = time.time()
        rc = sh(f'/verif/check.sh {p} {tier}', 'check.log')
        log = open(f'{w}/check.log', errors='replace').read()
        v = [l for l in log.split('\n') if l.startswith(f'VIOLATION property={p} ')]
        if rc == 1 and v:
            out.append(f'{p}({time.time()-t:.0f}s)')
            if p == prop:
                i = log.index(v[0]); msg = log[max(0, i-300):i+400]
        elif rc: out.append(f'{p}:rc={rc}'); shutil.copy(f'{w}/check.log', f'/tmp/seeded-{id}-{p}.log')
        elif p == prop: out.append(f'MISSED({time.time()-t:.0f}s)')
    return f'[{prop}] ' + ' '.join(out) + ('\n    ' + msg.replace('\n', '\n    ') if os.environ.get('SHOW') else '')

def one(id, a):
    w = tempfile.mkdtemp(prefix='seeded-', dir='/tmp'); os.chmod(w, 0o755)
    try:
        subprocess.check_call(['cp', '-a', '/repo', f'{w}/repo'])
        shutil.copytree(V, f'{w}/verif', ignore=shutil.ignore_patterns('seeded', 'replays', 'evidence', '.git'))
        os.makedirs(f'{w}/verif/evidence'); os.makedirs(f'{w}/verif/replays')
        shutil.copytree(f'{V}/seeded/{id}', f'{w}/seed')
        r = subprocess.run(['unshare', '-m', 'bash', '-c', f'mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && exec python3 /verif/tools/seeded.py --inner {id} {w} {int(a.c)} {a.t}'],
                           capture_output=True, text=True, env={**os.environ, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
        print(f'{id}: {r.stdout.strip()} {r.stderr.strip()[-500:]}', flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1:2] == ['--inner']:
        print(inner(sys.argv[2], sys.argv[3], sys.argv[4] == '1', sys.argv[5])); sys.exit()
    p = argparse.ArgumentParser(); p.add_argument('-c', action='store_true'); p.add_argument('-j', type=int, default=2); p.add_argument('-t', default='quick'); p.add_argument('ids', nargs='*')
    a = p.parse_args()
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(lambda i: one(i, a), a.ids or sorted(os.listdir(f'{V}/seeded'))))
