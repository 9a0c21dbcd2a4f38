"""python -m mc.run C01 [--tier quick|thorough] [--replay FILE]   (run in /verif)"""
import importlib, json, os, sys, time, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')


def selftest():
    """The explorer itself: counts of small known spaces.  Imports nothing of /repo."""
    from mc import core

    def three(ch):
        a = ch.choose(3, 'a')
        if a == 2:
            ch.choose(4, 'b')
        ch.choose(2, 'c')

    seen, prefix = 0, []
    todo = [[]]
    while todo:
        prefix = todo.pop()
        ch, viol = core.run_one(three, prefix, None, 0)
        assert not viol, viol
        seen += 1
        for i in range(len(prefix), len(ch.choices)):
            n = ch.points[i][0]
            todo += [list(ch.choices[:i]) + [v] for v in range(1, n)]
    assert seen == 12, seen

    def bad(ch):
        a, b = ch.choose(3, 'a'), ch.choose(3, 'b')
        ch.check((a, b) != (2, 1), 'planted')
    hits = [(a, b) for a in range(3) for b in range(3) if core.run_one(bad, [a, b], None, 0)[1]]
    assert hits == [(2, 1)], hits
    print('selftest: explorer enumerates and reports as expected')
    return 0


def main(argv):
    t0 = time.time()
    if argv[0] == '--selftest':
        return selftest()
    prop = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    # hash order of sets of strings is fixed per seed, so that every execution is reproducible
    want = str(int(os.environ.get('VERIF_SEED', '1') or 1) % 4294967295)
    if os.environ.get('PYTHONHASHSEED') != want:
        os.environ['PYTHONHASHSEED'] = want
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [sys.executable, '-B', '-m', 'mc.run'] + argv)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    from mc import core
    try:
        import oblate
        if not os.path.abspath(oblate.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError('wrong oblate imported: ' + oblate.__file__)
        mod = importlib.import_module('mc.checks.' + prop.lower())
        if '--replay' in argv:
            rec = json.load(open(argv[argv.index('--replay') + 1]))
            sc = [s for s in mod.scenarios(rec.get('tier', tier)) if s['name'] == rec['scenario']][0]
            ch, viol = core.run_one(sc['fn'], rec['choices'], None, sc.get('budget', 0))
            for line in core.fmt_log(ch.log, 200):
                print('   |', line)
            for (n, label), c in zip(ch.points, ch.choices):
                print(f'   choice {label}: {c} of {n}')
            print('reproduced:' if viol else 'NOT reproduced', viol)
            return 1 if viol else 0
        return core.explore(prop, mod.scenarios(tier), tier, getattr(mod, 'INFO', {}), t0)
    except BaseException as e:
        tb = traceback.format_exc()
        print(tb)
        core.report(prop, dict(kind='exception', scenario='(set-up)', choices=[], points=[], trace=tb.splitlines()[-12:],
                               msg=f'setting up the declarations failed: {type(e).__name__}: {e}'), tier)
        try:
            seed = int(os.environ.get('VERIF_SEED', '1') or 1)
            with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking',
                               coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[tb[-500:]]),
                               wall_s=time.time() - t0, violations=1), f)
        except Exception:
            pass
        return 1


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
