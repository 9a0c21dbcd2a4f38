"""Stateless exhaustive explorer over choice trees of real executions.

A scenario is a function scenario(ch).  Everything that may vary in an execution is decided by
ch.choose(n) / ch.pick(seq) / ch.dev(n); the explorer executes the scenario once for every sequence of
choices (depth first, by prefix replay).  While replaying a prefix the number of alternatives and the label
of every choice point must be what they were before: anything else is a divergence and is reported.
The scenario compares the real code with its reference model and raises Violation on a difference.
"""
from __future__ import annotations

import contextvars, gc, json, multiprocessing, os, signal, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(BaseException):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Divergence(BaseException):
    pass


class Hang(BaseException):
    """Raised by the watchdog inside an execution that does not terminate."""


class Skip(BaseException):
    """This choice sequence denotes nothing (for instance a schema that Python cannot build)."""


class Chooser:
    __slots__ = ('prefix', 'choices', 'points', 'budget', 'used', 'log', 'nops', 'states', 'expect', 'skipped')

    def __init__(self, prefix, expect=None, budget=0, states=None):
        self.prefix = prefix
        self.expect = expect
        self.choices = []
        self.points = []          # (arity, label)
        self.budget = budget
        self.used = 0
        self.log = []
        self.nops = 0
        self.skipped = False
        self.states = states if states is not None else set()

    def choose(self, n, label=''):
        i = len(self.choices)
        if n <= 0:
            raise AssertionError('empty choice ' + str(label))
        if self.expect is not None and i < len(self.prefix) and i < len(self.expect):
            if self.expect[i] != (n, label):
                raise Divergence(f'choice point {i}: was {self.expect[i]}, now {(n, label)}')
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f'choice point {i} ({label}): replaying {c} of {n}')
        else:
            c = 0
        self.choices.append(c)
        self.points.append((n, label))
        return c

    def pick(self, seq, label=''):
        return seq[self.choose(len(seq), label)]

    def flag(self, label=''):
        return bool(self.choose(2, label))

    def dev(self, n, label=''):
        """A choice whose alternatives other than 0 are deviations, limited by the budget."""
        if self.used >= self.budget:
            return 0
        c = self.choose(n, label)
        if c:
            self.used += 1
        return c

    def op(self, *desc):
        """Records one operation executed on the real code."""
        self.nops += 1
        self.log.append(desc)

    def note(self, *desc):
        self.log.append(desc)

    def state(self, *canon):
        """Records the canonical observable state reached."""
        try:
            self.states.add(hash(canon))
        except TypeError:
            self.states.add(hash(repr(canon)))

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, *args, key=None):
        if not cond:
            raise Violation(msg + (': ' + '; '.join(show(a) for a in args) if args else ''), key)

    def same(self, got, want, msg, key=None):
        if not (got == want):
            raise Violation(f'{msg}: got {show(got)}, expected {show(want)}', key)


def show(x, limit=600):
    try:
        s = repr(x)
    except BaseException as e:      # noqa - the representation may itself be broken
        s = f'<unprintable {type(x).__name__}: {type(e).__name__}>'
    return s if len(s) <= limit else s[:limit] + '...'


def fmt_log(log, limit=60):
    out = []
    for d in log[:limit]:
        out.append(' '.join(x if isinstance(x, str) else show(x, 200) for x in d))
    return out


_HANG_CPU = 60
_HANG_WALL = 240


def _on_alarm(signum, frame):
    raise Hang('execution did not terminate')


def run_one(scenario, prefix, expect=None, budget=0, states=None):
    """Executes the scenario once; returns (chooser, violation or None)."""
    ch = Chooser(prefix, expect, budget, states)
    viol = None
    ctx = contextvars.Context()
    try:
        ctx.run(scenario, ch)
        if len(ch.choices) < len(prefix):
            viol = dict(kind='divergence', msg='execution ended before the replayed prefix', key=None)
    except Skip:
        ch.skipped = True
    except Violation as v:
        viol = dict(kind='violation', msg=str(v), key=v.key)
    except Divergence as d:
        viol = dict(kind='divergence', msg=f'real code is not deterministic under replay: {d}', key=None)
    except Hang as e:
        viol = dict(kind='hang', msg=str(e), key=None)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(tb[-5:]))
        viol = dict(kind='exception', msg=f'unexpected {type(e).__name__}: {show(str(e))} [{where}]', key=None)
    return ch, viol


class _Watch:
    def __enter__(self):
        signal.signal(signal.SIGPROF, _on_alarm)
        signal.signal(signal.SIGALRM, _on_alarm)
        return self

    def arm(self):
        signal.setitimer(signal.ITIMER_PROF, _HANG_CPU)
        signal.setitimer(signal.ITIMER_REAL, _HANG_WALL)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def dfs(scenario, base, budget, known, deadline, max_execs=None, sample_every=None, tolerant=False):
    """Explores everything below the prefix `base`."""
    st = dict(execs=0, ops=0, states=set(), samples=[], viol=None, known=[], complete=True, maxdepth=0, skipped=0)
    prefix, expect = list(base), None
    nb = len(base)
    with _Watch() as w:
        while True:
            if (st['execs'] & 63) == 0:
                w.arm()
            if time.time() > deadline:
                st['complete'] = False
                break
            if (st['execs'] & 2047) == 2047:
                gc.collect()
            ch, viol = run_one(scenario, prefix, expect, budget, st['states'])
            st['execs'] += 1
            st['skipped'] += ch.skipped
            st['ops'] += ch.nops
            if len(ch.choices) > st['maxdepth']:
                st['maxdepth'] = len(ch.choices)
            if len(st['samples']) < 2 and (st['execs'] in (1, 5)):
                st['samples'].append(dict(choices=list(ch.choices), trace=fmt_log(ch.log, 12)))
            if viol and tolerant and viol['kind'] == 'divergence':
                # the code takes another path than in the execution before (something is computed only once):
                # this schedule does not exist, its neighbours do
                st['skipped'] += 1
                viol = None
            if viol:
                if viol['key'] is not None and viol['key'] in known:
                    st['known'].append((viol['key'], viol['msg']))
                else:
                    viol['choices'] = list(ch.choices)
                    viol['points'] = [p[1] for p in ch.points]
                    viol['trace'] = fmt_log(ch.log)
                    st['viol'] = viol
                    break
            choices, points = ch.choices, ch.points
            i = len(choices) - 1
            while i >= nb and choices[i] + 1 >= points[i][0]:
                i -= 1
            if i < nb:
                break
            prefix = choices[:i] + [choices[i] + 1]
            expect = points[:i + 1]
            if max_execs is not None and st['execs'] >= max_execs:
                st['complete'] = False
                break
    return st


def expand(scenario, budget, want):
    """Splits the choice tree into at least `want` prefixes where possible (breadth first)."""
    frontier, leaves = [[]], []
    while frontier and len(frontier) + len(leaves) < want:
        nxt = []
        for k, p in enumerate(frontier):
            if len(nxt) + len(frontier) - k + len(leaves) >= want * 4:
                nxt.extend(frontier[k:])
                break
            ch, _ = run_one(scenario, p, None, budget)
            if len(ch.points) <= len(p):
                leaves.append(p)
            else:
                nxt.extend(p + [c] for c in range(ch.points[len(p)][0]))
        if nxt == frontier:
            break
        frontier = nxt
    return leaves + frontier


_G = {}


def _task(si, prefix):
    sc = _G['scenarios'][si]
    try:
        st = dfs(sc['fn'], prefix, sc.get('budget', 0), _G['known'], _G['deadline'], tolerant=sc.get('tolerant', False))
    except BaseException as e:
        st = dict(execs=0, ops=0, states=set(), samples=[], known=[], complete=False, maxdepth=0, skipped=0,
                  viol=dict(kind='exception', msg=f'{type(e).__name__}: {show(str(e))}', key=None, choices=prefix,
                            points=[], trace=[]))
    st['si'] = si
    # the number of states is what is reported; ship compactly
    st['states'] = frozenset(st['states'])
    return st


def load_known(prop):
    known = {}
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split('key=', 1)[1]
                key, _, what = rest.partition(' ')
                known[key] = what
    return known


def explore(prop, scenarios, tier, level_info, t0=None, workers=None):
    """Runs all scenarios; writes evidence and a replay artefact; returns the exit code."""
    t0 = t0 or time.time()
    workers = workers or int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    limit = float(os.environ.get('MC_LIMIT', '780' if tier == 'quick' else '6000'))
    known = load_known(prop)
    _G.update(scenarios=scenarios, known=known, deadline=t0 + limit)
    total = dict(execs=0, ops=0, complete=True)
    states, samples, per, viols, hits = set(), [], {}, [], {}
    gc.collect(); gc.freeze()

    tasks = []
    with _Watch() as w:
        for si, sc in enumerate(scenarios):
            w.arm()
            per[sc['name']] = dict(executions=0, operations=0, states=0, depth=0)
            # scenarios whose first choice is known to have `first` values (and whose executions are long) need no expansion
            for p in [[i] for i in range(sc['first'])] if 'first' in sc else expand(sc['fn'], sc.get('budget', 0), sc.get('split', 48)):
                tasks.append((si, p))

    def absorb(st):
        sc = scenarios[st['si']]
        rec = per[sc['name']]
        n = st['execs'] - st['skipped']
        rec['executions'] += n; rec['operations'] += st['ops']
        rec['depth'] = max(rec['depth'], st['maxdepth'])
        before = len(states)
        states.update((st['si'], h) for h in st['states'])
        rec['states'] += len(states) - before
        total['execs'] += n; total['ops'] += st['ops']
        total['complete'] &= st['complete']
        if len(samples) < 40 and st['samples']:
            samples.append(dict(scenario=sc['name'], **st['samples'][-1]))
        for k, m in st['known']:
            hits.setdefault(k, m)
        if st['viol']:
            v = st['viol']; v['scenario'] = sc['name']
            viols.append(v)

    stop = False
    if workers <= 1:
        for si, p in tasks:
            absorb(_task(si, p))
            if viols:
                break
    else:
        ctx = multiprocessing.get_context('fork')
        ex = ProcessPoolExecutor(workers, mp_context=ctx)
        try:
            import random
            order = list(tasks)
            random.Random(0).shuffle(order)      # only balances load; every task is executed
            futs = {ex.submit(_task, si, p): (si, p) for si, p in order}
            pend = set(futs)
            while pend:
                done, pend = wait(pend, return_when=FIRST_COMPLETED)
                for f in done:
                    try:
                        absorb(f.result())
                    except BrokenProcessPool as e:
                        si, p = futs[f]
                        viols.append(dict(kind='crash', msg=f'a worker process died: {e}', key=None, choices=p,
                                          points=[], trace=[], scenario=scenarios[si]['name']))
                        stop = True
                if viols:
                    stop = True
                if stop:
                    break
            for f in pend:
                f.cancel()
        finally:
            procs = list((ex._processes or {}).values())
            if stop:
                for p in procs:
                    try:
                        p.kill()
                    except Exception:
                        pass
            ex.shutdown(wait=not stop, cancel_futures=True)

    wall = time.time() - t0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    step = max(1, len(samples) // 4)
    cov = dict(states=len(states), transitions=total['ops'], traces_validated_against_impl=total['execs'],
               samples=samples[::step][:5], exhaustive=bool(total['complete'] and not viols), scenarios=per)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=level_info.get('assumptions', []), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=show)

    for k, m in sorted(hits.items()):
        print(f'KNOWN-FINDING: property={prop} {known.get(k, m)}')
    print(f'{prop}: {total["execs"]} executions, {total["ops"]} operations, {len(states)} states, '
          f'{"exhaustive" if total["complete"] else "CAPPED"}, {wall:.1f}s')
    if os.environ.get('MC_VERBOSE'):
        for n, r in per.items():
            print('   ', n, r)
    if viols:
        viols.sort(key=lambda v: (len(v['choices']), v['choices']))
        report(prop, viols[0], tier)
        return 1
    return 0


def report(prop, v, tier):
    d = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}.json')
    v = dict(v, property=prop, tier=tier, how='python -m mc.run %s --replay %s (in /verif)' % (prop, path))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, ensure_ascii=False, default=show)
    for line in v.get('trace', [])[-25:]:
        print('   |', line[:300])
    print(f'   scenario {v.get("scenario")}: {v["msg"][:1500]}')
    print(f'VIOLATION property={prop} replay={path}', flush=True)
