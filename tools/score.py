"""python tools/score.py [ID...] [--all-checks]   Runs the checks against the planted bugs, in scratch copies of /repo."""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('PLANT_EXTRA') or ROOT + '/seeded'
allc = '--all-checks' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(SEEDED))
d = tempfile.mkdtemp(prefix='score-')
try:
    shutil.copytree(ROOT, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
    os.makedirs(d + '/verif/evidence')
    props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
    for i in ids:
        w = d + '/repo'
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
        r = subprocess.run(['git', 'apply', f'{SEEDED}/{i}/patch.diff'], cwd=w, capture_output=True, text=True,
                           env=dict(os.environ, GIT_CEILING_DIRECTORIES=d))
        if r.returncode:
            print(i, 'PATCH FAILS', r.stderr); continue
        own = json.load(open(f'{SEEDED}/{i}/meta.json'))['property']
        out = []
        for p in (props if allc else [own]):
            t = time.time()
            r = subprocess.run(['./check.sh', p], cwd=d + '/verif', capture_output=True, text=True, env=dict(os.environ, MC_REPO=w))
            hit = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
            if not allc:
                out.append(f'{"CAUGHT" if hit else "MISSED rc=%d" % r.returncode} by {p} ({time.time()-t:.1f}s)')
            elif hit:
                out.append(p)
        print(f'{i:28}', own, ' '.join(out), '' if not allc or own in out else '<<< MISSED BY OWN', flush=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
