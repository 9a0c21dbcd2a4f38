"""Type expressions as plain data, their construction as Python types, and membership by definition."""
import collections, collections.abc, itertools, numbers, typing as t
import typing_extensions as te

UNK = 'unknown'       # the meaning of the type does not settle membership of this value


class K:
    def __repr__(self):
        return 'K()'


class KSub(K):
    pass


class L(list):
    pass


class SetSub(set):
    pass


class TupleSub(tuple):
    pass


class Od(collections.OrderedDict):
    pass


NT = collections.namedtuple('NT', 'a b')
NT1 = collections.namedtuple('NT1', 'a')


class Movie(te.TypedDict):
    name: str
    year: te.NotRequired[int]


class MyMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = dict(d)
    def __getitem__(self, k):
        return self.d[k]
    def __iter__(self):
        return iter(self.d)
    def __len__(self):
        return len(self.d)
    def __repr__(self):
        return f'MyMap({self.d!r})'


# leaf: ('u', anything that is not supported: accepts every value) ('cls', type) ('any',) ('none',) ('lit', values) ('td',)
# composite: ('union', a, b, ...) ('list', a) ('set', a) ('tup', a, b..) ('vtup', a) ('dict', k, v) ('map', k, v) ('seq', a)
# bare: ('blist',) ('bset',) ('btup',) ('bdict',) ('bmap',) ('bseq',)

LEAVES = [('cls', int), ('cls', str), ('cls', float), ('cls', bool), ('cls', list), ('cls', dict), ('cls', K), ('cls', object), ('cls', bytes), ('cls', tuple),
          ('cls', numbers.Number), ('any',), ('none',), ('lit', (1, 'a')), ('lit', (None,)), ('lit', ('',)), ('td',),
          ('blist',), ('bset',), ('btup',), ('bdict',), ('bmap',), ('bseq',)]
CORE = [('cls', int), ('cls', str), ('any',), ('none',), ('lit', (1, 'a')), ('td',), ('blist',), ('cls', K)]


def build(a, new):
    """The Python type; new: builtin spellings where they exist."""
    k = a[0]
    if k in ('cls', 'u'): return a[1]
    if k == 'any': return t.Any
    if k == 'none': return None if not new else type(None)
    if k == 'lit': return t.Literal[a[1]] if not new else te.Literal[a[1]]
    if k == 'td': return Movie
    if k == 'blist': return t.List
    if k == 'bset': return t.Set
    if k == 'btup': return t.Tuple
    if k == 'bdict': return t.Dict
    if k == 'bmap': return t.Mapping
    if k == 'bseq': return t.Sequence
    args = tuple(build(x, new) for x in a[1:])
    if k == 'union':
        if len(args) == 2 and a[2] == ('none',) and not new:
            return t.Optional[args[0]]
        if new:
            try:
                r = args[0]
                for x in args[1:]:
                    r = r | x
                return r
            except TypeError:
                pass
        return t.Union[args]
    if k == 'list': return list[args[0]] if new else t.List[args[0]]
    if k == 'set': return set[args[0]] if new else t.Set[args[0]]
    if k == 'tup': return (tuple[args] if args else tuple[()]) if new else (t.Tuple[args] if args else t.Tuple[()])
    if k == 'vtup': return tuple[args[0], ...] if new else t.Tuple[args[0], ...]
    if k == 'dict': return dict[args] if new else t.Dict[args]
    if k == 'map': return collections.abc.Mapping[args] if new else t.Mapping[args]
    if k == 'seq': return collections.abc.Sequence[args[0]] if new else t.Sequence[args[0]]
    raise AssertionError(a)


def conj(rs):
    unk = False
    for r in rs:
        if r is False: return False
        if r is UNK: unk = True
    return UNK if unk else True


def disj(rs):
    unk = False
    for r in rs:
        if r is True: return True
        if r is UNK: unk = True
    return UNK if unk else False


def member(v, a):
    k = a[0]
    if k == 'cls': return isinstance(v, a[1])
    if k in ('any', 'u'): return True
    if k == 'none': return v is None
    if k == 'lit':
        rs = []
        for x in a[1]:
            if type(x) is type(v): rs.append(x == v)
            elif x == v: rs.append(UNK)
            else: rs.append(False)
        return disj(rs)
    if k == 'td':
        if not isinstance(v, dict):
            return UNK if isinstance(v, collections.abc.Mapping) else False
        rs = [isinstance(x, str) if n == 'name' else isinstance(x, int) if n == 'year' else False for n, x in v.items()]
        return conj(rs + ['name' in v])
    if k == 'blist': return member(v, ('list', ('any',)))
    if k == 'bset': return member(v, ('set', ('any',)))
    if k == 'btup': return isinstance(v, tuple)
    if k == 'bdict': return isinstance(v, dict)
    if k == 'bmap': return isinstance(v, collections.abc.Mapping)
    if k == 'bseq': return member(v, ('seq', ('any',)))
    if k == 'union': return disj([member(v, x) for x in a[1:]])
    if k == 'list': return conj([isinstance(v, list)] + ([member(x, a[1]) for x in v] if isinstance(v, list) else []))
    if k == 'set':
        if isinstance(v, frozenset): return UNK
        return conj([isinstance(v, set)] + ([member(x, a[1]) for x in v] if isinstance(v, set) else []))
    if k == 'tup':
        if not isinstance(v, tuple) or len(v) != len(a) - 1: return False
        return conj([member(x, y) for x, y in zip(v, a[1:])])
    if k == 'vtup':
        return conj([isinstance(v, tuple)] + ([member(x, a[1]) for x in v] if isinstance(v, tuple) else []))
    if k in ('dict', 'map'):
        ok = isinstance(v, dict if k == 'dict' else collections.abc.Mapping)
        return ok and conj([member(x, a[1]) for x in v] + [member(v[x], a[2]) for x in v])
    if k == 'seq':
        if isinstance(v, (list, tuple, set)):
            return conj([member(x, a[1]) for x in v])
        if isinstance(v, (str, bytes, bytearray, range, memoryview, collections.deque, frozenset, collections.abc.Sequence)): return UNK
        return False
    raise AssertionError(a)


def composites(inner, two=None):
    """All one-level constructions over `inner` (two: the pairs used where two arguments are needed)."""
    two = two if two is not None else list(itertools.product(inner, repeat=2))
    out = []
    for a in inner:
        out += [('list', a), ('set', a), ('vtup', a), ('seq', a), ('tup', a), ('union', a, ('none',))]
    for a, b in two:
        out += [('union', a, b), ('tup', a, b), ('dict', a, b), ('map', a, b)]
    out.append(('tup',))
    return out


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def samples(a, k=3):
    """Some members of a type and some near misses, built from its structure: (value) only; membership is decided by member()."""
    kind = a[0]
    if kind == 'cls':
        return {int: [0, 7, True], str: ['', 'x'], float: [0.0, 2.5], bool: [False, True], list: [[], [1], L()], dict: [{}, Od(a=1)], K: [K0, KS], object: [object0, None],
                bytes: [b''], tuple: [(), NT(1, 2)], numbers.Number: [1j, 0]}[a[1]]
    if kind == 'any': return [None, 0, []]
    if kind == 'u': return [0, None, 'u', [], K0]
    if kind == 'none': return [None]
    if kind == 'lit': return list(a[1])
    if kind == 'td': return [{'name': ''}, {'name': 'm', 'year': 0}, Od(name='q'), {'name': 1}, {'year': 1}, {'name': 'm', 'z': 1}]
    if kind in ('blist', 'bset', 'btup', 'bdict', 'bmap', 'bseq'):
        return {'blist': [[], [K0], L([1])], 'bset': [set(), {1}], 'btup': [(), (1, 'a', None)], 'bdict': [{}, {1: 2}], 'bmap': [MyMap({}), {1: []}], 'bseq': [[], (1,), {2}, 5]}[kind]
    subs = [samples(x) for x in a[1:]]
    wrong = [K0, 3.25, 'zz', None]
    if kind == 'union':
        return [x for s in subs for x in s[:k]] + [2.75, 'other']
    if kind in ('list', 'seq', 'set', 'vtup'):
        s = subs[0]
        cols = [[], s[:1], s[:2], s[:3] + s[:1], s[:1] + [wrong[0]], [wrong[1]] + s[:1], s[:1] * 3 + [wrong[2]] + s[:1], [wrong[3]], s[-1:]]
        out = []
        for c in cols:
            if kind == 'list': out += [list(c), L(c)]
            elif kind == 'vtup': out.append(tuple(c))
            else:
                if kind == 'seq': out += [list(c), tuple(c)]
                if all(hashable(x) for x in c): out.append(set(c))
        out += [tuple(cols[1]) if kind == 'list' else list(cols[1]), {}, 'ab', None]
        return out
    if kind == 'tup':
        base = tuple(s[0] for s in subs)
        out = [base, base + (0,), base[:-1], (), base + base, list(base)]
        for i in range(len(base)):
            for w in wrong + subs[i][1:3]:
                out.append(base[:i] + (w,) + base[i + 1:])
        if len(base) == 2: out.append(NT(*base))
        if len(base) == 1: out.append(NT1(*base))
        return out
    if kind in ('dict', 'map'):
        ks = [x for x in subs[0] if hashable(x)] + [2.75]
        vs = subs[1]
        out = [{}, {ks[0]: vs[0]}, {x: vs[0] for x in ks[:3]}, {ks[0]: wrong[0]}, {wrong[2]: vs[0]}, {ks[0]: vs[-1], 'tail': vs[0]}, {wrong[0]: wrong[0]}, {ks[-1]: vs[0]}]
        out += [{x: (vs[0] if i else wrong[0]) for i, x in enumerate(ks[:3])}, {x: (vs[0] if i != 1 else wrong[1]) for i, x in enumerate(ks[:3])}]
        out += [Od(out[1]), MyMap(out[1]), MyMap(out[3]), MyMap({}), [], list(out[1].items()), None]
        return out
    raise AssertionError(a)


K0, KS, object0 = K(), KSub(), object()

GENERIC = [None, 0, 1, True, 1.0, 1.5, '', 'a', b'a', [], [1], ['a'], [None], [[]], [[1]], (), (1,), ('a',), (1, 'a'), (1, 1), (1, 1, 1), (1, 'a', 2), set(), {1}, {'a'}, {1, 'a'}, {None},
           {}, {1: 1}, {'a': 1}, {'a': 'a'}, {1: 'a', 'a': 1}, {'name': 'x'}, {'name': 'x', 'year': 'y'}, frozenset(), frozenset({1}), L([1, 'a']), SetSub(), SetSub({1}), TupleSub((1,)), TupleSub((1, 'a')), Od(a=1), NT(1, 'a'),
           MyMap({'a': 1}), MyMap({1: 'a'}), K0, KS, object0, 'abc', range(2), collections.deque([1]), bytearray(b'a'), iter(()), [(1,)], [{'a': 1}], {'a': [1]}, {'a': {'b': 1}}, int, ...]
