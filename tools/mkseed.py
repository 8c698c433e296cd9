#!/usr/bin/env python3
"""mkseed.mk(id, prop, [(file, old, new), ...], demo_py, needs, breaks): write /verif/seeded/<id>/ (development aid)."""
import json, os, shutil, subprocess, tempfile
def mk(sid, prop, edits, demo, needs, breaks):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='vpmk_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, old, new in edits:
            p = f'{w}/r/converter21/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=w + '/r', text=True)
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the behaviour is right\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    open(d + '/demo.py', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
