"""Develop planted bugs: plant.py make FILE (definitions) | plant.py try ID... (demo clean and patched, stable tests, checks).

A definitions file assigns BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text)].
Everything runs in a scratch copy of /repo, removed afterwards.
"""
import json, os, shutil, subprocess, sys, tempfile

SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
export HOME=$S PYTHONPATH=$PWD MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 SCRATCH=$S
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
/opt/venv/bin/python -W ignore "$D/demo.py"
R=$?
/usr/bin/python3 -c 'import shutil, sys; shutil.rmtree(sys.argv[1])' "$S"
exit $R
'''


def scratch():
    d = tempfile.mkdtemp(prefix='plant_')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    only = sys.argv[3:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = scratch()
        for f, old, new in b['edits']:
            p = d + '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'text found', s.count(old), 'times in', f, ':', old[:60])
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            o = '%s/%s' % (SEED, b['id'])
            os.makedirs(o, exist_ok=True)
            diff = subprocess.run(['git', 'diff', '--no-color'], cwd=d + '/repo', capture_output=True, text=True).stdout
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.sh', 'w').write(DEMO)
            os.chmod(o + '/demo.sh', 0o755)
            open(o + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(o + '/meta.json', 'w'), indent=1)
            print('made', b['id'])
        shutil.rmtree(d)


TESTS = r'''
S=%s; R=%s
export LANG=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
mkdir -p "$S"/src "$S"/w "$S"/reports "$S"/logs
cd "$R" && cp -r $(ls -A | grep -vxE '\.git|build|.*\.egg-info') "$S/src/"
find "$S/src" -name __pycache__ -prune -exec rm -rf {} +
SLOW=$(cat /opt/vp/slow_first.txt 2>/dev/null)
SKIP=$(cat /opt/vp/skip_files.txt 2>/dev/null)
{ for f in $SLOW; do [ -f "$f" ] && echo "$f"; done; ls tests/test_*.py; } | awk '!s[$0]++' | grep -vxF -e "${SKIP:-none}" > "$S/files"
xargs -a "$S/files" -P 8 -n 1 bash /opt/vp/runone.sh "$S"
/usr/bin/python3 /opt/vp/results.py "$S/out.json" "junit:$S/reports/*.xml"
'''


def try_(ids, tests=True):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        o = '%s/%s' % (SEED, i)
        d = scratch()
        r = d + '/repo'
        run = lambda: subprocess.run(['bash', o + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
        a = run()
        ap = subprocess.run(['git', 'apply', o + '/patch.diff'], cwd=r, capture_output=True, text=True)
        b = run()
        res = '%s: clean %d patched %d%s' % (i, a.returncode, b.returncode, ' APPLY FAILED' if ap.returncode else '')
        if a.returncode or not b.returncode:
            res += '\n' + (a.stderr or a.stdout)[-600:] + '\n---\n' + b.stderr[-300:]
        prop = json.load(open(o + '/meta.json'))['property']
        c = subprocess.run(['python3', '/verif/check.py', prop, '--tier', 'quick'], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r))
        res += ' | %s rc=%d %s' % (prop, c.returncode, [l[:150] for l in c.stdout.splitlines() if 'VIOLATION' not in l][:3])
        if tests:
            subprocess.run(['bash', '-c', TESTS % (d + '/t', r)], capture_output=True, text=True)
            try:
                got = set(json.load(open(d + '/t/out.json'))['passed'])
                res += ' | tests lost: %s' % sorted(stable - got)
            except Exception as e:
                res += ' | tests: %r' % e
        print(res, flush=True)
        shutil.rmtree(d)


if sys.argv[1] == 'make':
    make(sys.argv[2])
elif sys.argv[1] == 'try':
    try_(sys.argv[2:])
else:
    try_(sys.argv[2:], tests=False)
