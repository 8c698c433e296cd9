#!/usr/bin/env python3
"""seedtest.py [ID...]: confirm planted bugs in scratch copies (tests pass, demo flips) and run the property's check on each.
Development aid only; no registered check uses it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **(env or {}))
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def one(sid):
    d = f'{V}/seeded/{sid}'
    meta = json.load(open(f'{d}/meta.json'))
    w = tempfile.mkdtemp(prefix='vpseed_')
    out = [sid, meta['property']]
    try:
        shutil.copytree('/repo', w + '/r', symlinks=True)
        r = w + '/r'
        rc0, o0 = sh(f'bash {d}/demo.sh', r)
        out.append(f'demo-clean={rc0}')
        if rc0:
            out.append(o0[-600:])
        rc, o = sh(f'git apply --whitespace=nowarn {d}/patch.diff', r)
        if rc:
            return ' '.join(map(str, out + ['PATCH FAILS', o]))
        rc, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -12', r)
        out.append('tests=' + ('ok' if '148 passed' in o else 'FAIL ' + o[-800:]))
        rc1, o1 = sh(f'bash {d}/demo.sh', r)
        out.append(f'demo-bug={rc1}')
        if rc1 == 0:
            out.append('DEMO DOES NOT FAIL')
        props = [meta['property']] if '--all' not in sys.argv else sorted(
            c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks'])
        # evidence goes to a scratch copy of the framework
        shutil.copytree(V, w + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        for p in props:
            rc, o = sh(f'python3-vt check.py {p}', w + '/v', {'VP_REPO': r})
            if rc == 1 and f'VIOLATION property={p}' in o:
                key = [l for l in o.splitlines() if 'key:' in l]
                out.append(f'CAUGHT by {p}: {key[0].split("key:")[1].strip() if key else ""} (+{len(key)-1})')
            elif rc:
                out.append(f'{p} rc={rc} {o[-500:]}')
            elif p == meta['property']:
                out.append('MISSED')
    finally:
        shutil.rmtree(w)
    return ' '.join(map(str, out))


ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(f'{V}/seeded'))
with ThreadPoolExecutor(6) as ex:
    for l in ex.map(one, ids):
        print(l, flush=True)
