"""C17 Type validation of a mapping reports exactly the offending keys."""
import itertools
from mc.lib import *

from mc.core import Skip

INFO = dict(assumptions=['declared keys are strings'])

TYPES = [(int, [0, 3], ['x', None]), (t.Optional[str], [None, ''], [0]), (t.List[int], [[], [1]], [['x'], (), [1, 'x', 2, 'y']]),
         (t.Union[int, t.Dict[str, int]], [0, {'a': 1}], ['', {'a': ''}]), (t.Literal['a', 1], ['a'], ['b', []]), (Movie, [{'name': ''}], [{}, {'name': 1, 'q': 0}]),
         (None, [None], [0, '']), (t.Any, [None, 0], [])]
KEYS = ['a', 'b', 'c', 'd', '', 'A b']


class Values(collections.abc.Mapping):
    """A mapping that counts nothing but offers only the mapping protocol."""
    def __init__(self, d):
        self.d = dict(d)
    def __getitem__(self, k):
        return self.d[k]
    def __iter__(self):
        return iter(list(self.d))
    def __len__(self):
        return len(self.d)


MK = MAPPINGS + [('values', Values)]


def judge(ch, tmap, vmap, expect, opts, what):
    """expect: set of keys at fault."""
    bt, bv = freeze_input(tmap), freeze_input(vmap)
    msgs = None
    for rep in range(2):
        out = attempt(oblate.validate_types, tmap, vmap, **opts)
        ch.op('validate_types', dict(tmap), dict(vmap), opts, out)
        ch.check(freeze_input(tmap) == bt, 'the mapping of types was modified', *what)
        ch.check(freeze_input(vmap) == bv, 'the mapping of values was modified', *what)
        if not expect:
            ch.check(out.ok, 'valid values are rejected', *what, out)
            ch.check(out.value is None, 'a value is returned', *what)
        else:
            ch.check(isinstance(out.exc, oblate.TypeValidationError), 'offending keys are not reported', sorted(expect, key=repr), *what, out)
            e = out.exc.errors
            ch.check(isinstance(e, dict) and set(e) == set(expect), 'the keys of the errors are wrong', sorted(expect, key=repr), e, *what)
            ch.check(all(isinstance(m, list) and m and all(isinstance(x, str) and x for x in m) for m in e.values()), 'a key has no message', e, *what)
            now = {k: tuple(v) for k, v in e.items()}
            ch.check(msgs is None or msgs == now, 'repeating the call gives another result', msgs, now, *what)
            msgs = now
    ch.state(repr(what), opts.get('ignore_extra'), opts.get('ignore_missing'))


def model(decl, vals, opts):
    bad = set()
    for k, (kind, _) in vals.items():
        if k not in decl:
            if not opts.get('ignore_extra'):
                bad.add(k)
        elif kind == 'bad':
            bad.add(k)
    if not opts.get('ignore_missing'):
        bad |= set(decl) - set(vals)
    return bad


OPTS = [dict(ignore_extra=e, ignore_missing=m) for e in (False, True) for m in (False, True)] + [{}, dict(ignore_extra=True), dict(ignore_missing=True)]


def keys(n, opts, mappings, rot):
    """Every key: declared or not, given or not, with a good or a bad value."""
    def scenario(ch):
        off = ch.pick(rot, 'types')
        decl, vals = {}, {}
        for i in range(n):
            st = ch.choose(6, f'key{i}')      # neither, declared only, given only, good, bad, bad2
            tp, good, bad = TYPES[(off + i) % len(TYPES)]
            k = KEYS[i]
            if st in (1, 3, 4, 5):
                decl[k] = tp
            if st == 2: vals[k] = ('extra', K0)
            elif st == 3: vals[k] = ('ok', good[-1])
            elif st == 4: vals[k] = ('bad', bad[0]) if bad else ('ok', good[0])
            elif st == 5: vals[k] = ('bad', bad[-1]) if bad else ('ok', good[0])
        order = ch.flag('reversed')
        o = ch.pick(opts, 'options')
        (tn, tmk), (vn, vmk) = ch.pick(mappings, 'mapping kinds')
        items = [(k, v[1]) for k, v in vals.items()]
        if order:
            items.reverse()
        judge(ch, tmk(decl), vmk(dict(items)), model(decl, vals, o), o, (tn, vn, decl, dict(items), o))
    return scenario


def many(ch):
    """Larger mappings with every single fault and every pair of faults."""
    n = ch.pick([8, 20], 'keys')
    o = ch.pick(OPTS[:4], 'options')
    i, j = ch.choose(n, 'first'), ch.choose(n, 'second')
    fi, fj = ch.choose(3, 'fault1'), ch.choose(3, 'fault2')
    decl = {f'k{x}': int for x in range(n)}
    vals = {f'k{x}': ('ok', x) for x in range(n)}
    for x, f in ((i, fi), (j, fj)):
        k = f'k{x}'
        if f == 0: vals.pop(k, None)
        elif f == 1: vals[k] = ('bad', 'wrong')
        else: vals['extra' + k] = ('extra', 0)
    judge(ch, decl, {k: v[1] for k, v in vals.items()}, model(decl, vals, o), o, (n, i, j, fi, fj, o))


def sequence(ch):
    """Sequences of calls sharing both mappings."""
    decl = {'a': int, 'b': t.List[int], 'c': Movie}
    pool = [{'a': 0, 'b': [], 'c': {'name': ''}}, {'a': 'x', 'b': [1], 'c': {'name': ''}}, {'a': 0, 'b': ['x']}, {}, {'a': 0, 'zz': 1, 'c': {}}]
    good = [{'a', 'b', 'c'}, {'b', 'c'}, {'a'}, set(), {'a'}]
    tm = ch.pick(MK, 'mapping kind')[1](decl)
    for step in range(3):
        j = ch.choose(len(pool), f'values{step}')
        o = ch.pick(OPTS[:4], f'options{step}')
        vals = {k: ('ok' if k in good[j] else 'bad', v) for k, v in pool[j].items()}
        judge(ch, tm, pool[j], model(decl, vals, o), o, (decl, pool[j], o, step))


ODD = ['a', '_b', '__b__', '', ' ', '1', 'A', 'a.b', 'None', 'é', 'root', 'types', 'values', 'self', 'errors', 'x' * 300, 'key', 'a\n', '%s', '{value}']
OTHER = [1, 0, None, (), ('a',), b'a', 2.5, int, frozenset(), -1, ('a', 1)]


def key_names(ch):
    """Keys of every spelling, declared or not; undeclared ones need not be strings.  Every key stands for itself."""
    j, k = ch.pick(ODD, 'declared'), ch.pick(ODD + OTHER, 'second')
    o = ch.pick(OPTS[:4], 'options')
    if k == j:
        raise Skip
    declare = k in ODD and ch.flag('second declared')
    for x in ODD + OTHER:
        if x == j or x == k:
            continue
        decl = {j: int, **({k: str} if declare else {})}
        vals = {j: ('bad', 'x'), k: ('ok' if declare else 'extra', ''), x: ('extra', 0)}
        judge(ch, decl, {a: b[1] for a, b in vals.items()}, model(decl, vals, o), o, (decl, list(vals), o))
        vals = {x: ('extra', None), k: ('bad' if declare else 'extra', 0)}
        judge(ch, decl, {a: b[1] for a, b in vals.items()}, model(decl, vals, o), o, (decl, list(vals), o))


def generated(ch):
    """Types that are generic, nested or fields' own; the same error messages as a field reports."""
    i = ch.choose(len(TYPES), 'type')
    tp, good, bad = TYPES[i]
    for v in good + bad:
        judge(ch, {'k': tp}, {'k': v}, set() if v in good else {'k'}, {}, (tp, v))
        judge(ch, {'k': tp, 'z': tp}, {'k': v, 'z': v}, set() if v in good else {'k', 'z'}, {}, (tp, v))
        judge(ch, {'k': t.List[tp]}, {'k': [v]}, set() if v in good else {'k'}, {}, (tp, v))
        judge(ch, {'k': t.Dict[str, tp]}, {'k': {'q': v}}, set() if v in good else {'k'}, {}, (tp, v))


class Kc:
    pass


K0 = Kc()


def scenarios(tier):
    th = tier == 'thorough'
    pairs = [((a, b), (c, d)) for a, b in MK for c, d in MK]
    diag = [(MK[i], MK[(i * 3 + 1) % len(MK)]) for i in range(len(MK))]
    return [
        dict(name='two keys, all mappings', fn=keys(2, OPTS, pairs, range(len(TYPES)) if th else (0, 4))),
        dict(name='three keys', fn=keys(3, OPTS, [(MK[0], MK[0]), (MK[1], MK[2])], range(len(TYPES)))),
        dict(name='four keys', fn=keys(4, OPTS[:4], [(MK[0], MK[0])], range(len(TYPES)) if th else (1, 5))),
        dict(name='many', fn=many),
        dict(name='sequence', fn=sequence),
        dict(name='key names', fn=key_names),
        dict(name='generated', fn=generated),
    ] + ([dict(name='five keys', fn=keys(5, OPTS[:4], [diag[0], diag[3]], (0, 3)))] if th else [])
