"""C15 Type expressions accept exactly their values."""
from mc.lib import *
from mc.types_model import *
from mc.core import Skip
import abc, copy, dataclasses, decimal, enum, fractions, itertools, numbers
import types as types_

INFO = dict(assumptions=['membership of strings and other non-container sequences in Sequence, of frozensets in Set, and of equal values of another type in Literal is not specified'])


def image(v):
    if isinstance(v, (list, tuple)): return (type(v), tuple(map(image, v)))
    if isinstance(v, (set, frozenset)): return (type(v), frozenset(map(id, v)), len(v))
    if isinstance(v, collections.abc.Mapping): return (type(v), tuple((image(a), image(b)) for a, b in v.items()))
    return id(v) if not isinstance(v, (int, str, float)) else (type(v), v)


def judge(ch, tp, v, want, what):
    img = image(v)
    out = attempt(oblate.validate_types, {'k': tp}, {'k': v})
    ch.check(image(v) == img, 'validation modified the value', *what)
    if not out.ok:
        ch.check(isinstance(out.exc, oblate.TypeValidationError), 'validation raised something else', *what, out)
        e = out.exc.errors
        ch.check(list(e) == ['k'] and e['k'] and all(isinstance(m, str) and m for m in e['k']), 'rejection without message', *what, e)
    if want is not UNK:
        ch.check(out.ok == want, 'a member is rejected' if want else 'a value that does not belong is accepted', *what, out)
    return out.ok


def one_type(ch, a, new, fields_too, extra=()):
    tp = build(a, new)
    vals = samples(a) + list(extra)
    flds = []
    if fields_too:
        flds.append(('TypeExpr', mk('TE', f=fields.TypeExpr(tp)), lambda v: True))
        if a[0] == 'list': flds.append(('List', mk('FL', f=fields.List(build(a[1], new))), None))
        if a[0] == 'set': flds.append(('Set', mk('FS', f=fields.Set(build(a[1], new))), None))
        if a[0] == 'dict': flds.append(('Dict', mk('FD', f=fields.Dict(build(a[1], new), build(a[2], new))), None))
        if a[0] == 'union' and not (a[1][0] == 'union'):
            args = [build(x, new) for x in a[1:]]
            flds.append(('Union', mk('FU', f=fields.Union(*args)), None))
        if a[0] == 'lit': flds.append(('Literal', mk('FLit', f=fields.Literal(*a[1])), None))
        if a[0] == 'td': flds.append(('TypedDict', mk('FT', f=fields.TypedDict(tp)), None))
        if a[0] == 'blist': flds.append(('List', mk('FL', f=fields.List()), None))
        if a[0] == 'bset': flds.append(('Set', mk('FS', f=fields.Set()), None))
        if a[0] == 'bdict': flds.append(('Dict', mk('FD', f=fields.Dict()), None))
    n = 0
    for v in vals:
        want = member(v, a)
        got = judge(ch, tp, v, want, (tp, v))
        n += 1
        if v is None:
            continue
        for name, cls, _ in flds:
            o = attempt(cls, {'f': v})
            n += 1
            ch.check(o.ok or isinstance(o.exc, ValidationError), f'{name} field raised something else', tp, v, o)
            if want is not UNK:
                ch.check(o.ok == want, f'the {name} field decides differently from the type', tp, v, o, want)
            if o.ok:
                ch.check(o.value.f is v, f'the {name} field changed the value', tp, v)
            else:
                ch.check(all(str(e.message) for e in o.exc.errors), 'rejection without message', tp, v)
    ch.nops += n
    ch.note(f'{tp!r}: {n} judgements')
    for v in vals:
        ch.state(a, new, repr(v))


def depth1(ch):
    a = ch.pick(LEAVES, 'type')
    new = ch.flag('spelling')
    one_type(ch, a, new, True, GENERIC)


def depth2(ch):
    a = ch.pick(D2, 'type')
    new = ch.flag('spelling')
    one_type(ch, a, new, True, GENERIC)


D2 = composites(LEAVES)


def _d3():
    inner = composites([('cls', int), ('cls', str), ('lit', (1, 'a')), ('td',), ('none',)], [(('cls', int), ('cls', str)), (('cls', str), ('none',)), (('lit', (1, 'a')), ('td',))])
    pairs = [(a, ('cls', int)) for a in inner] + [(('cls', str), b) for b in inner] + [(inner[i], inner[-i - 1]) for i in range(len(inner))]
    return composites(inner, pairs)


D3 = _d3()


def depth3(ch):
    a = ch.pick(D3, 'type')
    one_type(ch, a, ch.flag('spelling'), False, GENERIC[::3])


def depth4(ch):
    inner = D3[::23]
    pairs = [(a, ('cls', int)) for a in inner] + [(('cls', str), b) for b in inner]
    a = ch.pick(composites(inner, pairs), 'type')
    one_type(ch, a, ch.flag('spelling'), True, GENERIC[::9])


BADV = [K0, None, 2.5, 'bad']


def long(sizes):
    def scenario(ch):
        """Long containers with one wrong element at every position, and fixed tuples of many types."""
        kind = ch.pick(['list', 'vtup', 'seql', 'seqt', 'dictk', 'dictv', 'mapv', 'set', 'tup', 'union'], 'kind')
        n = ch.pick(sizes, 'length')
        pos = ch.choose(n + 1, 'position')
        T = ('cls', int)
        for bad in BADV[:2]:
            items = list(range(n))
            if pos < n:
                items[pos] = bad
            if kind == 'list': a, v = ('list', T), items
            elif kind == 'vtup': a, v = ('vtup', T), tuple(items)
            elif kind == 'seql': a, v = ('seq', T), items
            elif kind == 'seqt': a, v = ('seq', T), tuple(items)
            elif kind == 'set': a, v = ('set', T), set(items)
            elif kind == 'dictk': a, v = ('dict', T, ('any',)), {x: 0 for x in items}
            elif kind == 'dictv': a, v = ('dict', ('any',), T), dict(enumerate(items))
            elif kind == 'mapv': a, v = ('map', T, T), MyMap(enumerate(items))
            elif kind == 'tup': a, v = ('tup',) + (T,) * n, tuple(items)
            else:
                classes = [type(f'U{i}', (), {}) for i in range(n + 1)]
                a, v = ('union',) + tuple(('cls', c) for c in classes[:n]), classes[pos]()
            for new in (False, True):
                judge(ch, build(a, new), v, member(v, a), (kind, n, pos, bad))
                ch.nops += 1
            if kind == 'tup':
                for k in (n - 1, n + 1, n + 2, 0, 2 * n):
                    w = tuple(range(k))
                    judge(ch, build(a, False), w, k == n, (kind, n, k))
        ch.state(kind, n, pos)
    return scenario


def very_long(sizes):
    def scenario(ch):
        """Very long containers; the wrong element at the ends, in the middle and around powers of two and ten."""
        kind = ch.pick(['list', 'vtup', 'seql', 'seqt', 'seqs', 'dictk', 'dictv', 'mapv', 'set', 'tup'], 'kind')
        n = ch.pick(sizes, 'length')
        marks = sorted({p for q in (0, 1, 2, 10, 16, 32, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, n // 2, n) for p in (q - 1, q, q + 1) if 0 <= p <= n})
        pos = ch.pick(marks, 'position')
        T = ('cls', int)
        items = list(range(n))
        if pos < n:
            items[pos] = ch.pick(['bad', 9.5e99, K0, None], 'wrong') if kind in ('set', 'seqs', 'dictk') and pos in (0, n // 2, n - 1) else 'bad'
        a, v = {'list': lambda: (('list', T), items), 'vtup': lambda: (('vtup', T), tuple(items)), 'seql': lambda: (('seq', T), items), 'seqt': lambda: (('seq', T), tuple(items)),
                'seqs': lambda: (('seq', T), set(items)), 'dictk': lambda: (('dict', T, ('any',)), {x: 0 for x in items}), 'dictv': lambda: (('dict', ('any',), T), dict(enumerate(items))),
                'mapv': lambda: (('map', T, T), MyMap(enumerate(items))), 'set': lambda: (('set', T), set(items)), 'tup': lambda: (('tup',) + (T,) * n, tuple(items))}[kind]()
        judge(ch, build(a, False), v, pos == n, (kind, n, pos))
        o = attempt(mk('L', f=fields.TypeExpr(build(a, True))), {'f': v})
        ch.check(o.ok == (pos == n), 'the field decides differently', kind, n, pos)
        if kind in ('list', 'set', 'dictv', 'dictk'):
            o = attempt(mk('L', f=fields.List(int) if kind == 'list' else fields.Set(int) if kind == 'set' else fields.Dict(t.Any, int) if kind == 'dictv' else fields.Dict(int, t.Any)), {'f': v})
            ch.check(o.ok == (pos == n), 'the field decides differently', kind, n, pos)
        ch.nops += 3
        ch.state(kind, n, pos)
    return scenario


def nesting(depths):
    def scenario(ch):
        """Containers nested deeply; one wrong value at the bottom or an inner level of the wrong kind."""
        n = ch.pick(depths, 'depth')
        kind = ch.pick(['list', 'vtup', 'seq', 'dict', 'map', 'union', 'tup', 'mixed'], 'kind')
        bad = ch.choose(n + 1, 'wrong level')
        a, good = ('cls', int), 0
        v, w = 0, ('bottom' if bad == 0 else 0)
        cyc = ['list', 'dict', 'tup', 'seq', 'vtup', 'map']
        for i in range(1, n + 1):
            k = cyc[i % 6] if kind == 'mixed' else kind
            if k in ('list', 'union'): wrap, a = (lambda x: [x]), ('list', a)
            elif k == 'vtup': wrap, a = (lambda x: (x,)), ('vtup', a)
            elif k == 'seq': wrap, a = (lambda x: (x,)), ('seq', a)
            elif k == 'dict': wrap, a = (lambda x: {'k': x}), ('dict', ('cls', str), a)
            elif k == 'map': wrap, a = (lambda x: MyMap({'k': x})), ('map', ('cls', str), a)
            else: wrap, a = (lambda x: (x, '')), ('tup', a, ('cls', str))
            if k == 'union': a = ('union', a, ('none',))
            v, w = wrap(v), (K0 if bad == i else wrap(w))
        tp = build(a, ch.flag('spelling'))
        judge(ch, tp, v, True, (kind, n))
        judge(ch, tp, w, False, (kind, n, bad))
        judge(ch, tp, v, True, (kind, n))
        ch.nops += 3
        ch.state(kind, n, bad)
    return scenario


def literals(ch):
    """Literal types over all small subsets of values."""
    alpha = ['a', 'b', '', 0, 2, 'A', None, b'ab', 'ab']
    k = ch.choose(2 ** len(alpha) - 1, 'subset') + 1
    vals = tuple(x for i, x in enumerate(alpha) if k >> i & 1)
    a = ('lit', vals)
    tp = t.Literal[vals]
    cls = mk('FLit', f=fields.Literal(*vals, none=True))
    fresh = [''.join(['a', 'b']), bytes([97]), bytes(bytearray(b'ab')), int('2')]
    for v in alpha + fresh + ['c', 1.5, [], {}, (), set(), 'None', K0, 3, -1]:
        want = member(v, a)
        judge(ch, tp, v, want, (tp, v))
        if v is not None and want is not UNK:
            o = attempt(cls, {'f': v})
            ch.check(o.ok == want, 'the Literal field decides differently', tp, v, o)
        ch.nops += 2
    ch.state(k)


ATOMS = [1, True, 1.0, 1 + 0j, fractions.Fraction(1), '1', decimal.Decimal(1), 0, False]
ELEM = [('cls', int), ('cls', bool), ('cls', float), ('cls', complex), ('union', ('cls', bool), ('cls', str)), ('cls', numbers.Rational), ('union', ('cls', float), ('none',)), ('any',)]


class Plain(enum.Enum):
    A, B, C = 1, 'a', 'A'


class Other(enum.Enum):
    A, B, C = 1, 'a', 'A'


class Duck_:
    def __init__(self, v): self.value = self.name = v


def enum_literals(ch):
    """Literal types of enum members (and of plain values): members are not their values or names, nor those of other enums."""
    pool = [Plain.A, Plain.B, Plain.C, 'a', 'A', 1, 'Plain.A', None, b'A']
    k = ch.choose(2 ** len(pool) - 1, 'subset') + 1
    vals = tuple(x for i, x in enumerate(pool) if k >> i & 1)
    tp = t.Literal[vals]
    S = mk('S', f=fields.Literal(*vals, none=True), g=fields.TypeExpr(t.List[tp], required=False))
    for v in pool + [Other.A, Other.B, Other.C, 2, 'B', b'a', Plain, Duck_(1), Duck_('a'), K0, (1,), 'None']:
        want = any(v is x or v == x for x in vals)
        ch.nops += 1
        judge(ch, tp, v, want, (tp, v))
        judge(ch, t.Dict[str, tp], {'k': v}, want, (tp, v))
        if v is not None:
            ch.check(attempt(S, {'f': v}).ok == want, 'the Literal field decides differently', tp, v)
            ch.check(attempt(S, {'f': vals[0], 'g': [vals[0], v]}).ok == want, 'a list of literals', tp, v)
    ch.state(k)


class Td_(te.TypedDict):
    a: int
    b: te.NotRequired[str]


FIELD_KINDS = {'List': (fields.List, (int,), ('list', ('cls', int))), 'Set': (fields.Set, (int,), ('set', ('cls', int))), 'Dict': (fields.Dict, (str, int), ('dict', ('cls', str), ('cls', int))),
               'TypeExpr': (fields.TypeExpr, (t.Union[t.List[int], t.Tuple[int, ...], None],), ('union', ('list', ('cls', int)), ('vtup', ('cls', int)), ('none',))),
               'Union': (fields.Union, (int, t.List[str], t.Dict[str, int]), ('union', ('cls', int), ('list', ('cls', str)), ('dict', ('cls', str), ('cls', int)))),
               'Literal': (fields.Literal, ('a', 'b', 7), ('lit', ('a', 'b', 7))), 'List bare': (fields.List, (), ('list', ('any',))), 'Dict bare': (fields.Dict, (), ('dict', ('any',), ('any',))), 'Set bare': (fields.Set, (), ('set', ('any',))),
               'TypedDict': (fields.TypedDict, (Td_,), None)}


def modified(ch):
    """A subclass that passes another value on to the built-in deserialization gets the result for that value, whatever was given."""
    kind = ch.pick(list(FIELD_KINDS), 'field')
    base, args, a = FIELD_KINDS[kind]
    vals = ['a', 'a,b', '', 7, None, [], [1], ['a'], [1, 'x'], {1}, {'x'}, set(), {}, {'a': 1}, {'a': 1, 'b': 'x'}, {'a': 'x'}, {1: 1}, (), (1, 2), ('a',), 1.5, True, b'a', frozenset({1}), {'z': 1}]
    given, passed = ch.pick(vals, 'given'), ch.pick(vals, 'passed on')
    after = ch.flag('change the result')
    calls = []

    class M(base):
        def value_load(self, value, ctx):
            calls.append((value, ctx.value, ctx.get_value() if hasattr(ctx, 'get_value') else ctx.value))
            r = super().value_load(passed, ctx)
            return ('after', r) if after else r
    S = mk('S', f=M(*args, required=False))
    if kind == 'TypedDict':
        want = type(passed) is dict and set(passed) <= {'a', 'b'} and 'a' in passed and isinstance(passed['a'], int) and isinstance(passed.get('b', ''), str)
    else:
        want = member(passed, a)
        if want is UNK: raise Skip
    for op in ('construct', 'update', 'assign'):
        del calls[:]
        x = S({})
        if op == 'construct': out = attempt(S, {'f': given}); x = out.value
        else: out = attempt(x.update, {'f': given}) if op == 'update' else attempt(setattr, x, 'f', given)
        ch.op(op, kind, given, passed, out)
        if given is None:
            ch.check(not out.ok and not calls, 'None reached a field that has no None', kind, op, out)
            continue
        ch.check(len(calls) == 1 and all(c is given for c in calls[0]), 'the value given to value_load', kind, op)
        ch.check(out.ok == want and (want or isinstance(out.exc, ValidationError)), 'the result is not that for the value passed on', kind, op, given, passed, out)
        if want: ch.check((x.f == ('after', passed) and x.f[1] is passed) if after else x.f is passed, 'the value', kind, op, given, passed)
    ch.state(kind, vals.index(given), vals.index(passed), after)


def equals(size):
    def scenario(ch):
        """Containers of values that are equal but of different types, in every order."""
        T = ch.pick(ELEM, 'element')
        n = ch.choose(size, 'length') + 1
        items = [ch.pick(ATOMS, f'item{i}') for i in range(n)]
        for a, v in ((('list', T), items), (('vtup', T), tuple(items)), (('seq', T), items), (('seq', T), tuple(items)), (('set', T), set(items)), (('seq', T), set(items)), (('tup',) + (T,) * n, tuple(items)),
                     (('dict', ('any',), T), dict(enumerate(items))), (('dict', T, T), dict(zip(items, reversed(items)))), (('map', ('cls', str), T), MyMap({str(i): x for i, x in enumerate(items)})),
                     (('list', ('vtup', T)), [(x,) for x in items]), (('dict', ('cls', str), ('list', T)), {'a': items[:1], 'b': items}), (('union', ('list', T), ('cls', K)), items)):
            judge(ch, build(a, False), v, member(v, a), (a, v))
            o = attempt(mk('E', f=fields.TypeExpr(build(a, True))), {'f': v})
            ch.check(o.ok == member(v, a), 'the field decides differently', a, v, o)
            ch.nops += 2
        ch.state(T, tuple(map(repr, items)))
    return scenario


MEMBERS = [('cls', int), ('cls', str), ('none',), ('list', ('cls', int)), ('list', ('cls', str)), ('dict', ('cls', str), ('cls', int)), ('td',), ('lit', ('a', 3.5)), ('tup', ('cls', int)),
           ('vtup', ('cls', str)), ('set', ('cls', int)), ('cls', K), ('seq', ('cls', float)), ('map', ('cls', int), ('cls', str)), ('any',), ('blist',)]


def unions(k):
    combos = list(itertools.combinations(range(len(MEMBERS)), k))
    def scenario(ch):
        """Unions of several types, on their own and as elements."""
        c = ch.pick(combos, 'members')
        rev = ch.flag('reversed')
        a = ('union',) + tuple(MEMBERS[i] for i in (reversed(c) if rev else c))
        new = ch.flag('spelling')
        if ('any',) in a and new: raise Skip
        one_type(ch, a, new, True, GENERIC if k < 4 else GENERIC[::3])
        vals = samples(a)
        for a2, wrap in ((('list', a), lambda v, w: [v, w]), (('dict', ('cls', str), a), lambda v, w: {'a': v, 'b': w}), (('tup', a, a), lambda v, w: (v, w)), (('union', ('list', a), ('vtup', a), ('none',)), lambda v, w: (v, w))):
            tp = build(a2, new)
            for i in range(0, len(vals) - 1):
                v = wrap(vals[i], vals[-i - 1])
                judge(ch, tp, v, member(v, a2), (a2, v))
                ch.nops += 1
    return scenario


HIST = [('union', ('none',), ('list', ('cls', int)), ('list', ('cls', str))), ('union', ('dict', ('cls', str), ('cls', int)), ('dict', ('cls', int), ('cls', str)), ('cls', int)),
        ('union', ('tup', ('cls', int)), ('tup', ('cls', str), ('cls', int)), ('cls', str)), ('union', ('td',), ('list', ('td',)), ('none',)), ('list', ('union', ('list', ('cls', int)), ('cls', str))),
        ('dict', ('union', ('cls', int), ('cls', str)), ('list', ('union', ('cls', int), ('none',)))), ('seq', ('union', ('cls', int), ('vtup', ('cls', int)))), ('union', ('seq', ('cls', int)), ('seq', ('cls', str))),
        ('tup', ('list', ('cls', int)), ('set', ('cls', int))), ('map', ('cls', str), ('map', ('cls', str), ('cls', int))), ('union', ('cls', K), ('list', ('cls', K))), ('list', ('lit', ('a', 3.5))), ('vtup', ('dict', ('cls', str), ('any',)))]


def histories(length):
    def scenario(ch):
        """All sequences of values for one type: every judgement is what it is without history, also for equal types made separately and for values changed in place."""
        a = ch.pick(HIST, 'type')
        new = ch.flag('spelling')
        vals = samples(a)
        tp, tp2 = build(a, new), build(a, not new)
        cls = mk('H', f=fields.TypeExpr(tp, none=True))
        seq = [ch.choose(len(vals), f'v{i}') for i in range(length)]
        for i in seq:
            v = vals[i]
            want = member(v, a)
            judge(ch, tp, v, want, (a, [vals[j] for j in seq], v))
            judge(ch, tp2, v, want, (a, [vals[j] for j in seq], v))
            o = attempt(cls, {'f': v})
            if want is not UNK and v is not None: ch.check(o.ok == want, 'the field decides differently', a, v, o)
            ch.nops += 3
            if isinstance(v, (list, dict)):
                w = copy.deepcopy(v)
                judge(ch, tp, w, want, (a, w))
                if isinstance(w, list): w.append(K0)
                else: w[2.75] = K0
                judge(ch, tp, w, member(w, a), (a, 'changed in place', w))
                ch.nops += 2
        ch.state(a, new, tuple(seq))
    return scenario


def repeat(ch):
    """Judgements do not depend on earlier judgements with the same types and field."""
    types = [('list', ('td',)), ('td',), ('union', ('td',), ('list', ('cls', int))), ('dict', ('cls', str), ('td',)), ('tup', ('td',), ('cls', int)), ('seq', ('td',)), ('union', ('cls', int), ('cls', str))]
    a = ch.pick(types, 'type')
    tp = build(a, False)
    cls = mk('R', f=fields.TypeExpr(tp))
    tmap = {'k': tp, 'z': int}
    vals = samples(a)[:14]
    seq = [ch.choose(len(vals), f'v{i}') for i in range(3)]
    for i in seq:
        v = vals[i]
        want = member(v, a)
        o = attempt(oblate.validate_types, tmap, {'k': v, 'z': 0})
        ch.op('validate', tp, v, o)
        if want is not UNK:
            ch.check(o.ok == want, 'a repeated judgement differs', tp, [vals[j] for j in seq], v)
            if v is not None:
                ch.check(attempt(cls, {'f': v}).ok == want, 'a repeated judgement of a field differs', tp, [vals[j] for j in seq], v)
        ch.check(list(tmap) == ['k', 'z'], 'the mapping of types was modified')
    ch.state(a, tuple(seq))


def recursive_values():
    """Values that contain themselves."""
    l = []; l.append(l)
    m = [1]; m.append(m)
    d = {}; d['a'] = d
    e = {'a': 1}; e['b'] = e
    p, q = [], []; p.append(q); q.append(p)
    t_ = ([],); t_[0].append(t_)
    dl = {'a': []}; dl['a'].append(dl)
    ll = [[1], []]; ll[1] = ll
    td = {'a': 1}; td['c'] = td
    return [l, m, d, e, p, t_, dl, ll, td, [[]], {'a': {}}, [l, l], [1, 1], {'a': d}]


class Rec3(te.TypedDict):
    a: int
    c: te.NotRequired[t.Dict[str, t.Any]]


class Rec2(te.TypedDict):
    a: int
    c: te.NotRequired[Rec3]


def self_containing(ch):
    """Types are finite, so values that contain themselves are decided like any other."""
    vals = recursive_values()
    v = vals[ch.choose(len(vals), 'value')]
    I, S = ('cls', int), ('cls', str)
    base = [I, ('any',), ('list', I), ('list', ('any',)), ('dict', S, I), ('dict', S, ('any',)), ('seq', I), ('vtup', I), ('union', I, ('list', ('any',))), ('map', S, ('any',)), ('union', I, ('none',))]
    a = ch.pick(base, 'inner')
    for wrap in (lambda x: x, lambda x: ('list', x), lambda x: ('dict', S, x), lambda x: ('list', ('list', x)), lambda x: ('dict', S, ('dict', S, x)), lambda x: ('list', ('list', ('list', x))), lambda x: ('vtup', ('list', ('vtup', x))), lambda x: ('dict', S, ('list', ('dict', S, x))),
                 lambda x: ('union', ('list', x), I), lambda x: ('list', ('union', I, ('list', ('union', I, x)))), lambda x: ('map', S, x), lambda x: ('seq', ('seq', x)), lambda x: ('tup', ('list', x)), lambda x: ('tup', I, x)):
        b = wrap(a)
        want = member(v, b)
        if want is UNK: continue
        ch.nops += 2
        for tp in (build(b, False), build(b, True)):
            out = attempt(oblate.validate_types, {'k': tp}, {'k': v})
            ch.check(out.ok == want and (want or isinstance(out.exc, oblate.TypeValidationError) and set(out.exc.errors) == {'k'} and out.exc.errors['k']), 'a value that contains itself', b, vals.index(v) if v in [] else repr(v), want, out)
            out = attempt(mk('R', f=fields.TypeExpr(tp)), {'f': v})
            ch.check(out.ok == want and (not want or out.value.f is v), 'the field decides differently', b, repr(v))
    for T, want in ((Rec3, lambda x: isinstance(x, dict) and set(x) <= {'a', 'c'} and isinstance(x.get('a'), int) and isinstance(x.get('c', {}), dict)), (Rec2, lambda x: isinstance(x, dict) and set(x) <= {'a', 'c'} and isinstance(x.get('a'), int) and isinstance(x.get('c', {}), dict) and ('c' not in x or isinstance(x['c'].get('a'), int)))):
        out = attempt(oblate.validate_types, {'k': T}, {'k': v})
        ch.check(out.ok == want(v), 'a typed dictionary that contains itself', repr(v), out)
    ch.state(a, repr(v))


class EvenMeta(type):
    def __instancecheck__(cls, o):
        return type(o) is int and o % 2 == 0


class Even(metaclass=EvenMeta):
    """A class whose instances are the even integers."""


class Faker:
    """Says it is an instance of int, as mocks do."""
    @property
    def __class__(self):
        return int


class Virtual(abc.ABC):
    pass


class Registered:
    pass


Virtual.register(Registered)
Virtual.register(bytes)


class Structural(abc.ABC):
    @classmethod
    def __subclasshook__(cls, c):
        return hasattr(c, 'quack') or NotImplemented


class Duck:
    def quack(self): pass


class DuckSlots:
    __slots__ = ('quack',)


@t.runtime_checkable
class Proto(t.Protocol):
    def quack(self): ...


class EnumC(enum.Enum):
    a = 1


class IntE(enum.IntEnum):
    one = 1


class NT(t.NamedTuple):
    x: int


@dataclasses.dataclass
class DC:
    x: int = 0


class Gen(t.Generic[t.TypeVar('T')]):
    pass


class GenSub(Gen[int]):
    pass


def _late():
    d = Registered()
    d.quack = 1
    return d


CLASSES = [Even, int, Virtual, Structural, Proto, EnumC, IntE, NT, DC, Gen, GenSub, type, object, EvenMeta, abc.ABCMeta, collections.abc.Sized, collections.abc.Hashable, collections.abc.Iterable, collections.abc.Callable, collections.abc.Container, numbers.Number, numbers.Integral, Exception, KeyError, BaseException, types_.FunctionType, types_.ModuleType, types_.NoneType, range, complex, memoryview, Schema, fields.Field]
OBJECTS = [0, 1, 2, True, False, 2.0, 3 + 0j, decimal.Decimal(2), fractions.Fraction(2), Faker(), Registered(), b'', Duck(), DuckSlots(), _late(), EnumC.a, IntE.one, NT(1), (1,), DC(), Gen(), GenSub(), Gen, int, Even, EvenMeta, Virtual, object(), [], set(), frozenset(), {}, '', 'text', len, judge, abc, KeyError('k'), Exception(), range(2), memoryview(b''), mk('Sch')({}), fields.Any(), Schema]


def class_checks(ch):
    """Classes with their own notion of instance: isinstance decides, wherever the class stands in the expression."""
    c = CLASSES[ch.choose(len(CLASSES), 'class')]
    T = te.TypedDict('T', {'k': c})
    forms = [
        (c, lambda v: v), (t.List[c], lambda v: [v]), (list[c], lambda v: [v, v]), (t.Optional[c], lambda v: v), (t.Union[c, t.Literal['zz']], lambda v: v), (t.Tuple[c, str], lambda v: (v, '')), (t.Tuple[c, ...], lambda v: (v, v)), (t.Dict[str, c], lambda v: {'': v}), (t.Mapping[str, c], lambda v: {'': v}),
        (t.Sequence[c], lambda v: (v,)), (t.Sequence[c], lambda v: [v]), (T, lambda v: {'k': v}), (t.List[t.Dict[str, t.Union[c, t.List[c]]]], lambda v: [{'a': [v]}]),
    ]
    hashable = [(t.Dict[c, int], lambda v: {v: 1}), (t.Set[c], lambda v: {v}), (t.Mapping[c, str], lambda v: types_.MappingProxyType({v: ''})), (t.Sequence[c], lambda v: {v})]
    TE = mk('TE', f=fields.TypeExpr(c))
    FU = mk('FU', f=fields.Union(c, EvenMeta if c is not EvenMeta else Duck))
    for v in OBJECTS:
        want = isinstance(v, c)
        fs = forms
        try: hash(v); fs = forms + hashable
        except TypeError: pass
        for tp, wrap in fs:
            w = want or (v is None and tp is t.Optional[c])
            out = attempt(oblate.validate_types, {'k': tp}, {'k': wrap(v)})
            ch.nops += 1
            ch.check(out.ok or isinstance(out.exc, oblate.TypeValidationError) and list(out.exc.errors) == ['k'], 'validation raised something else', tp, v, out)
            if tp == t.List[t.Dict[str, t.Union[c, t.List[c]]]]:
                w = isinstance([v], c) or want
            ch.check(out.ok == w, 'isinstance does not decide', tp, v, out, w)
        if v is not None:
            o = attempt(TE, {'f': v})
            ch.check(o.ok == want and (not want or o.value.f is v), 'isinstance does not decide in the field', c, v, o)
            o = attempt(FU, {'f': v})
            w = want or isinstance(v, EvenMeta if c is not EvenMeta else Duck)
            ch.check(o.ok == w and (not w or o.value.f is v), 'isinstance does not decide in the union field', c, v, o)
        ch.state(c.__name__, repr(type(v)), want)


ELEMS = [0, 1, '', 'a', None, (), 2.5, True]
ETYPES = [('cls', int), ('cls', str), ('cls', bool), ('none',), ('lit', (0, 'a')), ('union', ('cls', str), ('none',)), ('vtup', ('cls', int)), ('cls', float)]


def members(n):
    def scenario(ch):
        """Every sequence of up to n elements of mixed types in every kind of container: no element, and no order of elements, is treated specially."""
        T = ch.pick(ETYPES, 'element type')
        kind = ch.pick(['list', 'vtup', 'seq', 'set', 'dictk', 'dictv', 'map'], 'container')
        for k in range(n + 1):
            for items in itertools.product(ELEMS, repeat=k):
                if kind in ('set', 'dictk', 'map') and len(set(items)) < k: continue
                if kind == 'list': a, v = ('list', T), list(items)
                elif kind == 'vtup': a, v = ('vtup', T), items
                elif kind == 'seq': a, v = ('seq', T), list(items)
                elif kind == 'set': a, v = ('set', T), set(items)
                elif kind == 'dictk': a, v = ('dict', T, ('any',)), dict.fromkeys(items)
                elif kind == 'dictv': a, v = ('dict', ('any',), T), dict(enumerate(items))
                else: a, v = ('map', T, ('none',)), MyMap(dict.fromkeys(items))
                judge(ch, build(a, False), v, member(v, a), (kind, T, items))
                ch.nops += 1
        ch.state(T, kind)
    return scenario


def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='depth1', fn=depth1),
        dict(name='depth2', fn=depth2),
        dict(name='depth3', fn=depth3),
        dict(name='long', fn=long((1, 2, 3, 12, 40) if not th else (1, 2, 3, 4, 5, 12, 40, 150))),
        dict(name='very long', fn=very_long((101, 260, 1030) if not th else (101, 129, 260, 520, 1030, 4100, 70000))),
        dict(name='nesting', fn=nesting((4, 8, 15) if not th else range(3, 26))),
        dict(name='literals', fn=literals),
        dict(name='enum literals', fn=enum_literals),
        dict(name='modified', fn=modified),
        dict(name='self containing', fn=self_containing),
        dict(name='repeat', fn=repeat),
        dict(name='members', fn=members(5 if th else 3)),
        dict(name='class checks', fn=class_checks),
        dict(name='equals', fn=equals(4 if th else 3)),
        dict(name='unions', fn=unions(3)),
        dict(name='histories', fn=histories(3 if th else 2)),
    ] + ([dict(name='depth4', fn=depth4), dict(name='unions4', fn=unions(4))] if th else [])
