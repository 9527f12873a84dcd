"""Plant bugs: seed.py FILE [ID...].  FILE holds blocks
@@@ id property
needs: ...
breaks: ...
>>> path          (followed by OLD, a line '---', NEW; repeated)
!!! demo          (followed by python)
"""
import json, os, re, shutil, subprocess, sys, tempfile

SH = ('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
      'W=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\n'
      'export MPLBACKEND=Agg XDG_CACHE_HOME="$W" XDG_CONFIG_HOME="$W" NUMBA_CACHE_DIR="$W" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
      '"$PY" -W ignore "$here/demo.py"\n')


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(block):
    head, rest = block.split('\n', 1)
    ID, prop = head.split()
    body, demo = rest.split('\n!!! demo\n', 1)
    chunks = re.split(r'^>>> ', body, flags=re.M)
    meta = dict(re.findall(r'^(needs|breaks): (.*)$', chunks[0], flags=re.M))
    if len(sys.argv) > 2 and ID not in sys.argv[2:]:
        return
    W = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        R = os.path.join(W, 'repo')
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), R])
        for c in chunks[1:]:
            fn, edit = c.split('\n', 1)
            old, new = (edit if edit.endswith('\n') else edit + '\n').split('\n---\n', 1)
            p = os.path.join(R, fn.strip())
            s = open(p).read()
            old += '\n'
            if s.count(old) != 1:
                print(ID, 'EDIT MATCHES', s.count(old), fn)
                return
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.check_output(['git', '-C', R, 'diff']).decode()
        out = HERE + '/seeded/' + ID
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(d)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write(SH)
        json.dump({'property': prop, 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=os.environ.get('SEED_REPO', '/repo'), capture_output=True, text=True)
        r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=R, capture_output=True, text=True)
        r2 = subprocess.run(['python3', '-W', 'ignore', '-m', 'sa', prop, 'quick'], cwd=HERE, env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True)
        print(ID, 'demo clean', r0.returncode, r0.stderr[-300:] if r0.returncode else '', 'patched', r1.returncode, r1.stderr.strip().split('\n')[-1][:150],
              '| check', r2.returncode)
        for l in [l for l in r2.stdout.split('\n') if 'violated' in l or 'VIOLATION' in l][:3]:
            if l:
                print('   ', l[:250])
        if r2.returncode not in (0, 1):
            print(r2.stdout[-500:], r2.stderr[-500:])
    finally:
        shutil.rmtree(W)


for b in re.split(r'^@@@ ', open(sys.argv[1]).read(), flags=re.M)[1:]:
    one(b)
