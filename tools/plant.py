"""python tools/plant.py SPEC.py...   Turns specifications of planted bugs into seeded/<id>/ after confirming them.

A specification sets SEEDS = [dict(id, property, edits=[(file, old, new)], demo=source, needs, breaks)].
Confirmed in a scratch copy: the patch changes only lines of the original repository, the stable tests pass, the
demonstration passes without and fails with the change."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '87ae4a1'
EXTRA = os.environ.get('PLANT_EXTRA')      # a folder for changes that would not count, for instance of lines of a fix
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, capture_output=True, **kw)


def plant(s):
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        w = d + '/repo'
        sh(f'cp -a /repo {w}', '/')
        for f, old, new in s['edits']:
            p = f'{w}/oblate/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                return f'edit of {f}: {t.count(old)} matches of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', w).stdout
        # lines touched must be original ones
        for f in {e[0] for e in s['edits']}:
            u = sh(f'git diff -U0 oblate/{f}', w).stdout
            removed = 0
            for line in u.splitlines():
                if line.startswith('@@'):
                    a = line.split()[1][1:].split(',')
                    start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    if n:
                        bl = sh(f'git blame -s -L{start},{start+n-1} HEAD -- oblate/{f}', w).stdout
                        for b in bl.splitlines():
                            removed += 1
                            if not b.lstrip('^').startswith(BASE[:7]) and not b.startswith('^' + BASE[:6]):
                                if EXTRA: continue
                                return f'touches a line of a fix: {b}'
            if not removed:
                print(f'   {s["id"]}: note: only additions in {f}')
        out = os.path.join(EXTRA or os.path.join(ROOT, 'seeded'), s['id'])
        tmp = d + '/seed'
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(tmp + '/demo.sh', 'w').write(DEMO)
        os.chmod(tmp + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        r = sh(f'{tmp}/demo.sh', '/repo', timeout=120)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-500:] + r.stderr[-1500:]
        r = sh(f'{tmp}/demo.sh', w, timeout=120)
        if r.returncode == 0:
            return 'demo passes with the change'
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = sh(f'PYTHONPATH={w} /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -x tests 2>&1 | tail -4', w)
        if ' failed' in r.stdout or ' error' in r.stdout or 'passed' not in r.stdout:
            return 'tests fail: ' + r.stdout
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print('OK', s['id'], s['property'], why)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    for spec in sys.argv[1:]:
        for s in runpy.run_path(spec)['SEEDS']:
            e = plant(s)
            if e:
                print('REJECTED', s['id'], e)
