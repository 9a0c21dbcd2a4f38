"""C16 Typed dictionaries: key requiredness and value types are both enforced."""
import collections, functools, itertools, sys
from mc.lib import *

INFO = dict(assumptions=['mappings that are not dictionaries are not specified for TypedDict', 'markers are written directly around the type of a key'])

Alias = int     # resolved from string annotations


class Inner(te.TypedDict, total=False):
    a: te.Required[int]
    b: str


class InnerT(t.TypedDict):
    a: int
    b: 'te.NotRequired[str]'


class K:
    pass


K0 = K()

# (type, source text, members, non-members)
TYPES = [
    (int, 'Alias', [0, 5], ['x', None, 1.5]),
    (t.Optional[str], 't.Optional[str]', [None, ''], [0, []]),
    (t.List[int], 't.List[int]', [[], [1, 2]], [[1, 'x'], (), None]),
    (Inner, 'Inner', [{'a': 0}, {'a': 1, 'b': ''}], [{}, {'b': ''}, {'a': 1, 'z': 0}, {'a': 'x'}, []]),
    (t.Union[int, str], 'int | str', [0, ''], [None, 1.5]),
    (t.Literal['on', 3], "t.Literal['on', 3]", ['on', 3], ['', 0, None]),
    (t.Dict[str, int], 't.Dict[str, int]', [{}, {'a': 0}], [{'a': 'b'}, {1: 1}, []]),
    (InnerT, 'InnerT', [{'a': 0}, {'a': 1, 'b': ''}], [{}, {'b': 'x'}, {'a': None}]),
    (t.Tuple[int, str], 't.Tuple[int, str]', [(0, '')], [(0,), (0, '', 1), ('', 0), None]),
    (None, 'None', [None], [0, '']),
    (t.Any, 't.Any', [None, 0, K0], []),
    (K, 'K', [K0], [0, K]),
]
NAMES = ['k0', 'k1', 'k2', 'k3', 'k4']
MARK = ['', 'Required', 'NotRequired']
MODS = {'te': te, 't': t}


def annotate(ti, mark, text, mod):
    tp, src = TYPES[ti][0], TYPES[ti][1]
    if text == 2 and mark:                   # the marker is real, the type inside is text
        return getattr(MODS[mod], mark)[src]
    if text:
        return f'{mod}.{mark}[{src}]' if mark else src
    return getattr(MODS[mod], mark)[tp] if mark else tp


@functools.lru_cache(maxsize=20000)
def make(levels, flavour, text):
    """levels: tuple of (bases index tuple, total, ((name, type index, mark), ...))."""
    classes = []
    mod = {'te': te, 't': t}[flavour]
    for i, (bases, total, keys) in enumerate(levels):
        ann = {n: annotate(ti, MARK[m], text, flavour) for n, ti, m in keys}
        bs = tuple(classes[b] for b in bases) or (mod.TypedDict,)
        body = {'__annotations__': ann, '__module__': __name__}
        try:
            classes.append(types.new_class(f'TD{i}', bs, dict(total=total), lambda ns: ns.update(body)))
        except TypeError:
            return None
    return tuple(classes)


def declared(levels, i):
    """name -> (type index, required) for class i, by definition."""
    bases, total, keys = levels[i]
    out = {}
    for b in bases:
        out.update(declared(levels, b))
    for n, ti, m in keys:
        out[n] = (ti, total if m == 0 else m == 1)
    return out


def belongs(value, ti):
    return any(eqv(value, x) or value is x for x in TYPES[ti][2])


WRAP = [
    ('bare', lambda T: T, lambda v: v),
    ('field', None, None),
    ('list', lambda T: t.List[T], lambda v: [v]),
    ('list2', lambda T: t.List[T], lambda v: [v, v]),
    ('dict', lambda T: t.Dict[str, T], lambda v: {'x': v}),
    ('optional', lambda T: t.Optional[T], lambda v: v),
    ('union', lambda T: t.Union[int, T, str], lambda v: v),
    ('tuple', lambda T: t.Tuple[T, int], lambda v: (v, 0)),
    ('sequence', lambda T: t.Sequence[T], lambda v: (v,)),
]


@functools.lru_cache(maxsize=20000)
def field_schema(T):
    return mk('FS', f=fields.TypedDict(T))


def judge(ch, T, value, want, what, wraps):
    before = freeze_input(value)
    for name, tp, wrapv in wraps:
        if name == 'field':
            out = attempt(field_schema(T), {'f': value})
            if out.ok:
                ch.check(out.value.f is value, 'the value was replaced', *what)
            else:
                ch.check(isinstance(out.exc, ValidationError) and all(str(e.message) for e in out.exc.errors), 'other exception or no message', *what, out)
        else:
            out = attempt(oblate.validate_types, {'k': tp(T)}, {'k': wrapv(value)})
            if not out.ok:
                ch.check(isinstance(out.exc, oblate.TypeValidationError) and list(out.exc.errors) == ['k'] and out.exc.errors['k'] and all(out.exc.errors['k']),
                         'other exception or no message', *what, out)
        ch.nops += 1
        ch.check(out.ok == want, ('a matching' if want else 'a mismatching') + f' dictionary is {"accepted" if out.ok else "rejected"} ({name})', *what, value, out)
    ch.check(freeze_input(value) == before, 'validation modified the dictionary', *what)


def describe(levels, flavour, text):
    return [('total' if tot else 'non-total') + f' bases={b} ' + ' '.join(f'{n}: {MARK[m]}[{TYPES[ti][1]}]' for n, ti, m in keys) for b, tot, keys in levels] + [flavour, ('types', 'strings', 'strings inside markers')[text]]


def values_of(ti, full):
    good, bad = TYPES[ti][2], TYPES[ti][3]
    if full:
        return [('ok', g) for g in good] + [('bad', b) for b in bad]
    return [('ok', good[0])] + ([('bad', bad[0])] if bad else [])


def run_values(ch, levels, i, flavour, text, wraps, full=False, extras=((), ('zz',), (1,)), kind=None):
    cls = make(levels, flavour, text)
    if cls is None:
        from mc.core import Skip
        raise Skip
    T = cls[i]
    decl = declared(levels, i)
    names = sorted(decl)
    what = describe(levels, flavour, text)
    ch.note(*what)
    for combo in itertools.product(*[[('absent', None)] + values_of(decl[n][0], full) for n in names]):
        ok = all((c[0] == 'ok') or (c[0] == 'absent' and not decl[n][1]) for n, c in zip(names, combo))
        present = {n: c[1] for n, c in zip(names, combo) if c[0] != 'absent'}
        for extra in extras:
            v = dict(present)
            for e in extra:
                v[e] = 0
            if kind:
                v = kind(v)
            judge(ch, T, v, ok and not extra, what, wraps)
            ch.state(repr(what), repr(combo), extra)


def single(n, full, wraps):
    def scenario(ch):
        flavour = ch.pick(['te', 't'], 'flavour')
        total = ch.flag('total')
        text = ch.choose(3, 'annotation text')
        off = ch.choose(len(TYPES), 'types')
        keys = tuple((NAMES[i], (off + 5 * i) % len(TYPES), ch.choose(3, f'marker{i}')) for i in range(n))
        run_values(ch, (((), total, keys),), 0, flavour, text, wraps, full, ((), ('zz',)) if n > 2 else ((), ('zz',), (1,)))
    return scenario


def inherit(np, nc, types_off, wraps):
    def scenario(ch):
        flavour = ch.pick(['te', 't'], 'flavour')
        text = ch.choose(2, 'annotation text')
        pt, ct = ch.flag('parent total'), ch.flag('child total')
        off = ch.pick(types_off, 'types')
        mk_ = lambda i: (NAMES[i], (off + 5 * i) % len(TYPES), ch.choose(3, f'marker{i}'))
        pk = tuple(mk_(i) for i in range(np))
        ck = tuple(mk_(np + i) for i in range(nc))
        levels = (((), pt, pk), ((0,), ct, ck))
        for i in (1, 0):           # the parent is still its own type afterwards
            run_values(ch, levels, i, flavour, text, wraps, False, ((), ('zz',), ('k0' if i else NAMES[np],))[:2])
    return scenario


def chain(ch):
    """Three levels, one key each."""
    flavour = ch.pick(['te', 't'], 'flavour')
    text = ch.choose(2, 'annotation text')
    tots = [ch.flag(f'total{i}') for i in range(3)]
    off = ch.pick([0, 3], 'types')
    levels = tuple(((i - 1,) if i else (), tots[i], ((NAMES[i], (off + i) % len(TYPES), ch.choose(3, f'marker{i}')),)) for i in range(3))
    run_values(ch, levels, 2, flavour, text, WRAP[:2], False, ((), ('zz',)))


def diamond(ch):
    """Two independent parents, optionally with a common base."""
    flavour = ch.pick(['te', 't'], 'flavour')
    text = ch.choose(2, 'annotation text')
    common = ch.flag('common base')
    tots = [ch.flag(f'total{i}') for i in range(3)]
    m = [ch.choose(3, f'marker{i}') for i in range(3)]
    if common:
        levels = (((), tots[0], ((NAMES[0], 0, m[0]),)), ((0,), tots[1], ((NAMES[1], 1, m[1]),)), ((0,), tots[2], ((NAMES[2], 2, m[2]),)),
                  ((1, 2), not tots[0], ((NAMES[3], 3, 0),)))
    else:
        levels = (((), tots[0], ((NAMES[0], 0, m[0]),)), ((), tots[1], ((NAMES[1], 3, m[1]),)), ((0, 1), tots[2], ((NAMES[2], 2, m[2]),)))
    run_values(ch, levels, len(levels) - 1, flavour, text, WRAP[:2], False, ((), ('zz',)))


def nested(ch):
    """A typed dictionary holding typed dictionaries three levels deep: a single fault at any level is detected."""
    flavour = ch.pick(['te', 't'], 'flavour')
    mod = MODS[flavour]
    tots = [ch.flag(f'total{i}') for i in range(3)]
    m = [ch.choose(3, f'marker{i}') for i in range(3)]
    via = ch.pick(['direct', 'list', 'dict', 'optional'], 'via')
    T = None
    for i in reversed(range(3)):
        inner = int if T is None else {'direct': T, 'list': t.List[T], 'dict': t.Dict[str, T], 'optional': t.Optional[T]}[via]
        ann = {'v': getattr(mod, MARK[m[i]])[inner] if m[i] else inner, 'w': mod.NotRequired[str]}
        body = {'__annotations__': ann, '__module__': __name__}
        T = types.new_class(f'N{i}', (mod.TypedDict,), dict(total=tots[i]), lambda ns: ns.update(body))
    req = [tots[i] if m[i] == 0 else m[i] == 1 for i in range(3)]
    wrap = {'direct': lambda x: x, 'list': lambda x: [x], 'dict': lambda x: {'q': x}, 'optional': lambda x: x}[via]
    for faults in itertools.product(['ok', 'missing', 'extra', 'badw', 'badv'], repeat=3):
        ok, v = True, 1
        for i in reversed(range(3)):
            f = faults[i]
            d = {'v': v if i == 2 else wrap(v)}
            if f == 'missing':
                del d['v']
                ok = not req[i]            # what was below is gone
            elif f == 'extra':
                d['u'] = 0; ok = False
            elif f == 'badw':
                d['w'] = 0; ok = False
            elif f == 'badv':
                d['v'] = 1.5; ok = False
            else:
                d['w'] = ''
            v = d
        judge(ch, T, v, ok, (tots, m, via, faults), WRAP[:2] if via == 'direct' else WRAP[:1])
        ch.state(tuple(tots), tuple(m), via, faults)


def wide(ch):
    """Many keys; every single key missing, wrong or undeclared."""
    flavour = ch.pick(['te', 't'], 'flavour')
    total = ch.flag('total')
    n = ch.pick([5, 12, 30], 'keys')
    pat = ch.pick(list(itertools.product(range(3), repeat=2)), 'marker pattern')
    keys = tuple((f'key{i}', 0, pat[i % 2]) for i in range(n))
    levels = (((), total, keys),)
    T = make(levels, flavour, 0)[0]
    decl = declared(levels, 0)
    base = {k: i for i, (k, _, _) in enumerate(keys)}
    what = describe(levels, flavour, 0)[:1]
    judge(ch, T, base, True, what, WRAP[:2])
    judge(ch, T, dict(reversed(base.items())), True, what, WRAP[:2])
    judge(ch, T, {}, not any(r for _, r in decl.values()), what, WRAP[:2])
    judge(ch, T, {k: 0 for k in base if decl[k][1]}, True, what, WRAP[:2])
    for k in base:
        v = dict(base); del v[k]
        judge(ch, T, v, not decl[k][1], what, WRAP[:2])
        judge(ch, T, dict(base, **{k: 'x'}), False, what, WRAP[:2])
        ch.state(n, pat, k, total)
    judge(ch, T, dict(base, keyX=0), False, what, WRAP[:2])
    judge(ch, T, [], False, what, WRAP[:2])
    judge(ch, T, None, False, what, WRAP[:1])
    judge(ch, T, list(base.items()), False, what, WRAP[:2])


DICTS = [('ordered', collections.OrderedDict), ('default', lambda d: collections.defaultdict(int, d)), ('default none', lambda d: collections.defaultdict(None, d)), ('sub', SubDict),
         ('counter', lambda d: _counter(d)), ('missing', lambda d: Missing(d))]


def _counter(d):
    c = collections.Counter()
    for k, v in d.items():
        dict.__setitem__(c, k, v)
    return c


class Missing(dict):
    """Answers for keys it does not have."""
    def __missing__(self, key):
        return 0


def dicts(ch):
    """Dictionaries of subclasses of dict; a key that is made up on access is still missing."""
    flavour = ch.pick(['te', 't'], 'flavour')
    total = ch.flag('total')
    dname, kind = ch.pick(DICTS, 'dictionary')
    off = ch.choose(len(TYPES), 'types')
    keys = tuple((NAMES[i], (off + 5 * i) % len(TYPES), ch.choose(3, f'marker{i}')) for i in range(2))
    run_values(ch, (((), total, keys),), 0, flavour, 0, WRAP[:4], False, ((), ('zz',), (1,)), kind)


ODD = ['a', '_b', '__b__', '__c', '', ' ', 'a b', 'class', 'None', '1', 'A', 'a.b', 'é', '__annotations__', '__total__', 'keys', 'self', 'x' * 300, 'total', 'name', 'pop', '$ref', '-1', 'a\n']
OTHER = [1, 0, None, (), ('a',), b'a', 2.5, int, frozenset(), K0, -1]


def key_names(ch):
    """Keys of every spelling, declared or not, given or not; keys that are not strings are never declared."""
    flavour = ch.pick(['te', 't'], 'flavour')
    total = ch.flag('total')
    k = ch.pick(ODD, 'key')
    j = ch.pick([x for x in ODD if x != k], 'other declared')
    mark = ch.choose(3, 'marker')
    T = MODS[flavour].TypedDict('T', {k: annotate(0, MARK[mark], 0, flavour), j: annotate(1, 'NotRequired', 0, flavour)}, total=total)
    need = total if mark == 0 else mark == 1
    what = (flavour, total, k, j, MARK[mark])
    w = WRAP[:3]
    judge(ch, T, {k: 0, j: None}, True, what, w)
    judge(ch, T, {j: ''}, not need, what, w)
    judge(ch, T, {k: 'x', j: ''}, False, what, w)
    judge(ch, T, {j: 0, k: 0}, False, what, w)
    judge(ch, T, {j: 0}, False, what, w)
    judge(ch, T, {k: 'x'}, False, what, w)
    judge(ch, T, {k: 0}, True, what, w)
    judge(ch, T, {}, not need, what, w)
    U = MODS[flavour].TypedDict('U', {k: annotate(0, '', 0, flavour), j: annotate(1, '', 0, flavour)})
    judge(ch, U, {j: 0}, False, what + ('both required',), w)
    judge(ch, U, {k: 'x'}, False, what + ('both required',), w)
    judge(ch, U, {j: ''}, False, what + ('both required',), w)
    judge(ch, U, {k: 0}, False, what + ('both required',), w)
    judge(ch, U, {}, False, what + ('both required',), w)
    judge(ch, U, {k: 0, j: ''}, True, what + ('both required',), w)
    for x in ODD + OTHER:
        if x not in (k, j):
            judge(ch, T, {k: 0, x: 0}, False, what, WRAP[:2])
            judge(ch, T, {x: 0, k: 0}, False, what, WRAP[:1])
    ch.state(*what)


def history(ch):
    """Judgements with one type object do not influence each other."""
    flavour = ch.pick(['te', 't'], 'flavour')
    total = ch.flag('total')
    m = [ch.choose(3, f'marker{i}') for i in range(2)]
    levels = (((), total, ((NAMES[0], 0, m[0]), (NAMES[1], 3, m[1]))), ((0,), not total, ((NAMES[2], 2, 0),)))
    T = make(levels, flavour, 0)
    vals = [{}, {'k0': 0}, {'k0': 0, 'k1': {'a': 0}}, {'k0': 'x', 'k1': {'a': 0}}, {'k0': 0, 'k1': {'a': 0}, 'k2': []}, {'zz': 0}]
    for step in range(3):
        i, j = ch.choose(2, f'type{step}'), ch.choose(len(vals), f'value{step}')
        decl = declared(levels, i)
        v = vals[j]
        ok = set(v) <= set(decl) and all(belongs(x, decl[k][0]) for k, x in v.items()) and all(k in v for k in decl if decl[k][1])
        judge(ch, T[i], v, ok, (total, m, i, step), WRAP[:2])


def scenarios(tier):
    th = tier == 'thorough'
    out = [
        dict(name='one key', fn=single(1, True, WRAP)),
        dict(name='two keys', fn=single(2, th, WRAP[:4])),
        dict(name='three keys', fn=single(3, False, WRAP[:2])),
        dict(name='parent and child', fn=inherit(1, 1, range(len(TYPES)) if th else (0, 3, 7), WRAP[:4])),
        dict(name='parent of two keys', fn=inherit(2, 1, (0, 3) if th else (0,), WRAP[:2])),
        dict(name='chain', fn=chain),
        dict(name='diamond', fn=diamond),
        dict(name='nested', fn=nested),
        dict(name='wide', fn=wide),
        dict(name='dicts', fn=dicts),
        dict(name='key names', fn=key_names),
        dict(name='history', fn=history),
    ]
    if th:
        out.append(dict(name='two and two', fn=inherit(2, 2, (0, 2), WRAP[:2])))
        out.append(dict(name='four keys', fn=single(4, False, WRAP[:1])))
    return out
