"""C32 Type errors tell about every offending part."""
from mc.lib import *
from mc.core import Skip
import collections, itertools, re

INFO = dict(assumptions=['the first message about an element on its own stands for that element within its container', 'the wording of messages is not specified, only what they name'])


class Movie(te.TypedDict):
    name: str
    year: te.NotRequired[int]


class Part(te.TypedDict, total=False):
    a: int
    b: t.List[int]
    c: te.Required[t.Optional[str]]


class M(collections.abc.Mapping):
    def __init__(self, d): self.d = d
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)


class Sub(list): pass
class SubT(tuple): pass
class SubD(dict): pass


# element types: (type, good values, wrong values); values of the hashable ones come first in each list
ELEMENTS = [
    ('int', int, [1, 2], ['x', 'y', None, 1.5]),
    ('text', str, ['a', ''], [0, 1, False, None]),
    ('literal', te.Literal['a', 'b'], ['a', 'b'], ['c', 0, None, '']),
    ('one literal', te.Literal['a'], ['a'], ['c', '', 5, None]),
    ('union', t.Union[int, str], [1, 'a'], [1.5, None, 2.5, (1,)]),
    ('optional', t.Optional[int], [1, None], ['x', 1.5, '', 'y']),
    ('none', None, [None], [0, '', False, 'None']),
    ('pair', t.Tuple[int, str], [(1, 'a'), (2, '')], [('a', 1), (1,), 5, (1, 2)]),
    ('list', t.List[int], [[], [1]], [['x', 'y'], [1, 'x'], (), None]),
    ('movie', Movie, [{'name': 'a'}, {'name': 'b', 'year': 1}], [{}, {'name': 1}, 5, {'name': 'a', 'x': 1}]),
    ('mapping', t.Dict[str, int], [{}, {'a': 1}], [{1: 1}, {'a': 'b', 'c': 'd'}, [], {'a': None}]),
]
HASHABLE = {'int', 'text', 'literal', 'one literal', 'union', 'optional', 'none', 'pair'}


def errors_of(tp, v):
    o = attempt(oblate.validate_types, {'k': tp}, {'k': v})
    if o.ok: return []
    assert isinstance(o.exc, oblate.TypeValidationError) and list(o.exc.errors) == ['k'], o
    return o.exc.errors['k']


def names(message, own, what):
    """Whether the part of the message that is not about the element itself names the given thing."""
    at = message.rfind(own)
    if at < 0: return False
    head = message[:at] + message[at + len(own):]
    return re.search(r'(?<![\w.])' + re.escape(what) + r'(?![\w.])', head) is not None


def everywhere(ch, tp, v, fld, what):
    """The messages, which are the same wherever the type is taken."""
    got = errors_of(tp, v)
    ch.check(all(type(m) is str and m for m in got), 'a message is no text', *what, got)
    ch.check(errors_of(tp, v) == got, 'the messages of a repeated call differ', *what)
    o = attempt(oblate.validate_types, {'z': int, 'k': tp, 'w': int}, {'w': 'no', 'k': v, 'q': 1})
    ch.check(isinstance(o.exc, oblate.TypeValidationError) and o.exc.errors.get('k', []) == got, 'the messages depend on other keys', *what, o)
    for name, f in [('TypeExpr', fields.TypeExpr(tp))] + fld:
        o = attempt(mk('S', f=f), {'f': v})
        if v is None: continue
        rep = [] if o.ok else o.exc.raw()['f'] if isinstance(o.exc, ValidationError) else o
        ch.check(rep == got, f'the {name} field reports other messages', *what, rep, got)
        ch.nops += 1
    ch.nops += 4
    return got


def elements(n, only=None):
    def scenario(ch):
        """Sequences of every kind with every pattern of good and wrong elements: one message for each wrong one, naming its place."""
        ename, et, good, bad = ch.pick(only and [e for e in ELEMENTS if e[0] in only] or ELEMENTS, 'element type')
        kind = ch.pick(['List', 'list', 'Sequence of list', 'Sequence of tuple', 'Tuple...', 'tuple...', 'Sub', 'SubT'], 'kind')
        size = ch.choose(n + 1, 'size')
        pool = [*good[:2], *bad[:3]]
        items = [pool[ch.choose(len(pool), f'item{i}')] for i in range(size)]
        own = [errors_of(et, x) for x in items]
        wrong = [i for i, o in enumerate(own) if o]
        ch.check([any(x is b for b in bad) for x in items] == [bool(o) for o in own], 'the element type', ename, items, own)
        tp, v, fld = {
            'List': lambda: (t.List[et], items, [('List', fields.List(et))]), 'list': lambda: (list[et], items, [('List', fields.List(et))]),
            'Sequence of list': lambda: (t.Sequence[et], items, []), 'Sequence of tuple': lambda: (t.Sequence[et], tuple(items), []),
            'Tuple...': lambda: (t.Tuple[et, ...], tuple(items), []), 'tuple...': lambda: (tuple[et, ...], tuple(items), []),
            'Sub': lambda: (t.List[et], Sub(items), [('List', fields.List(et))]), 'SubT': lambda: (t.Tuple[et, ...], SubT(items), []),
        }[kind]()
        what = (kind, ename, items)
        got = everywhere(ch, tp, v, fld, what)
        ch.check(len(got) == len(wrong), 'the number of messages is not that of wrong elements', *what, got)
        for i, m in zip(wrong, got):
            ch.check(names(m, own[i][0], str(i)), 'a message names another place, or not the failure there', *what, i, m, own[i])
        ch.op(kind, ename, size)
        ch.state(kind, ename, repr(items))
    return scenario


def fixed(n):
    def scenario(ch):
        """Tuples of fixed types: each wrong item, and a wrong length beside them."""
        types = [e for e in ELEMENTS if e[0] in ('int', 'literal', 'list', 'optional')]
        sel = [ch.pick(types, f'type{i}') for i in range(ch.choose(n + 1, 'types'))]
        size = ch.choose(n + 2, 'size')
        items = []
        for i in range(size):
            e = sel[i] if i < len(sel) else types[0]
            items.append(ch.pick([e[2][0], e[3][0], e[3][1]], f'item{i}'))
        new = ch.flag('spelling')
        args = tuple(e[1] for e in sel)
        tp = (tuple if new else t.Tuple)[args or ()]
        own = [errors_of(e[1], x) for e, x in zip(sel, items)]
        wrong = [i for i, o in enumerate(own) if o]
        what = ([e[0] for e in sel], items)
        got = everywhere(ch, tp, tuple(items), [], what)
        extra = len(items) != len(sel)
        ch.check(len(got) == len(wrong) + extra, 'the number of messages is not that of wrong items', *what, got)
        about = [[m for m in got if names(m, own[i][0], str(i))] for i in wrong]
        for i, ms in zip(wrong, about): ch.check(ms, 'no message names the wrong item', *what, i, got)
        if extra and not wrong: ch.check(names(got[0] + '\0', '\0', str(len(sel))) and names(got[0] + '\0', '\0', str(len(items))), 'the message about the length names neither', *what, got)
        ch.op('tuple', *what[0], size)
        ch.state(repr(what), new)
    return scenario


def sets(ch):
    """Sets with every selection of wrong members: one message for each."""
    ename, et, good, bad = ch.pick([e for e in ELEMENTS if e[0] in HASHABLE], 'element type')
    kind = ch.pick(['Set', 'set', 'Sequence'], 'kind')
    pool = [x for x in good + bad if not isinstance(x, list)]
    items = [x for i, x in enumerate(pool) if ch.flag(f'member{i}')]
    v = set(items)
    tp, fld = {'Set': lambda: (t.Set[et], [('Set', fields.Set(et))]), 'set': lambda: (set[et], [('Set', fields.Set(et))]), 'Sequence': lambda: (t.Sequence[et], [])}[kind]()
    own = [errors_of(et, x) for x in v]
    wrong = [o[0] for o in own if o]
    what = (kind, ename, items)
    got = everywhere(ch, tp, v, fld, what)
    ch.check(len(got) == len(wrong), 'the number of messages is not that of wrong members', *what, got)
    left = sorted(got, key=len)
    for w in sorted(wrong, key=len, reverse=True):
        hit = [m for m in left if w in m]
        ch.check(hit, 'no message for a wrong member', *what, w, got)
        left.remove(hit[-1])
    ch.op(kind, ename, len(v))
    ch.state(kind, ename, repr(items))


def entries(n):
    def scenario(ch):
        """Mappings with every pattern of good and wrong keys and values: one message for each wrong entry."""
        kname, kt, kgood, kbad = ch.pick([e for e in ELEMENTS if e[0] in ('int', 'text', 'literal', 'pair')], 'key type')
        vname, vt, vgood, vbad = ch.pick([e for e in ELEMENTS if e[0] in ('int', 'list', 'optional', 'movie')], 'value type')
        kind = ch.pick(['Dict', 'dict', 'Mapping', 'Mapping of other', 'Sub'], 'kind')
        size = ch.choose(n + 1, 'size')
        d, own = {}, []
        for i in range(size):
            k = ch.pick([kgood[0], kgood[1], kbad[0], kbad[1]], f'key{i}')
            if k in d: raise Skip
            d[k] = ch.pick([vgood[0], vbad[0], vbad[1]], f'value{i}')
        own = [(i, k, errors_of(kt, k), errors_of(vt, v)) for i, (k, v) in enumerate(d.items())]
        wrong = [e for e in own if e[2] or e[3]]
        tp, v, fld = {'Dict': lambda: (t.Dict[kt, vt], d, [('Dict', fields.Dict(kt, vt))]), 'dict': lambda: (dict[kt, vt], d, [('Dict', fields.Dict(kt, vt))]),
                      'Mapping': lambda: (t.Mapping[kt, vt], d, []), 'Mapping of other': lambda: (t.Mapping[kt, vt], M(d), []), 'Sub': lambda: (t.Dict[kt, vt], SubD(d), [('Dict', fields.Dict(kt, vt))])}[kind]()
        what = (kind, kname, vname, d)
        got = everywhere(ch, tp, v, fld, what)
        ch.check(len(got) == len(wrong), 'the number of messages is not that of wrong entries', *what, got)
        for (i, k, ek, ev), m in zip(wrong, got):
            o = (ek or ev)[0]
            ch.check(o in m, 'a message does not tell about the wrong part of its entry', *what, k, m, ek, ev)
            head = m[:m.rfind(o)]
            ch.check(str(i) in head if ek else repr(k) in head, 'a message names another entry', *what, k, m)
        ch.op(kind, kname, vname, size)
        ch.state(kind, repr(d))
    return scenario


def typed(ch):
    """Typed dictionaries: every undeclared, missing and mistyped key has a message that names it."""
    cls, hints, required = ch.pick([(Movie, dict(name=str, year=int), {'name'}), (Part, dict(a=int, b=t.List[int], c=t.Optional[str]), {'c'})], 'type')
    options = {'name': ['n', 5, None], 'year': [1, 'y', None], 'a': [1, 'x'], 'b': [[], ['x', 'y'], 0], 'c': [None, 'x', 5]}
    keys = list(hints) + ['extra', 0]
    if ch.flag('reversed'): keys.reverse()
    d = {}
    for k in keys:
        x = ch.pick([UNSET] + options.get(k, [1, None]), f'value of {k}')
        if x is not UNSET: d[k] = x
    place = ch.pick(['alone', 'TypedDict', 'in a list', 'in a union'], 'place')
    what = (cls.__name__, d, place)
    own = {k: errors_of(hints[k], v) for k, v in d.items() if k in hints}
    wrong = [k for k in d if k not in hints or own[k]] + [k for k in required if k not in d]
    got = everywhere(ch, cls, d, [('TypedDict', fields.TypedDict(cls))] if place == 'TypedDict' else [], what)
    ch.check(len(got) == len(wrong), 'the number of messages is not that of wrong keys', *what, got)
    for k in wrong:
        o = own[k][0] if own.get(k) else ''
        hit = [m for m in got if repr(k) in (m[:m.rfind(o)] if o and o in m else m)]
        ch.check(hit and any(o in m for m in hit), 'no message names the wrong key', *what, k, got)
    present = [k for k in wrong if k in d]
    for k, m in zip(present, got): ch.check(repr(k) in m, 'the messages are not in the order of the value', *what, got)
    if place == 'in a list':
        outer = errors_of(t.List[cls], [d, 5, d])
        ch.check(len(outer) == (3 if got else 1), 'one message for each wrong dictionary', *what, outer)
    if place == 'in a union':
        ch.check(len(errors_of(t.Union[cls, int], d)) == bool(got), 'one message for a rejected union', *what)
    ch.op(*what)
    ch.state(*map(repr, what))


def many(sizes):
    def scenario(ch):
        """Long containers: every wrong element is told, however many there are."""
        kind = ch.pick(['list', 'tuple', 'fixed', 'set', 'keys', 'values', 'typed', 'mapping of types', 'missing'], 'kind')
        n = ch.pick(sizes, 'size')
        step = ch.pick([1, 2, 3], 'step')
        same = ch.flag('equal values')
        if same and kind in ('set', 'keys', 'missing'): raise Skip
        ids = [i for i in range(n) if i % step == 0]
        x = lambda i: (('bad' if same else f'bad{i}') if i % step == 0 else i)
        if kind == 'missing':
            D = te.TypedDict('D', {f'k{i}': te.NotRequired[int] if i % step else int for i in range(n)})
            got = everywhere(ch, D, {}, [('TypedDict', fields.TypedDict(D))], (kind, n, step))
            ch.check(len(got) == len(ids) and all(sum(repr(f'k{i}') in m for m in got) == 1 for i in ids), 'the missing keys', kind, n, step, got)
            o = attempt(oblate.validate_types, {f'k{i}': int for i in range(n)}, {f'k{i}': i for i in range(n) if i % step})
            ch.check(set(o.exc.errors) == {f'k{i}' for i in ids}, 'the missing keys', kind, n, step, o)
        elif kind == 'mapping of types':
            o = attempt(oblate.validate_types, {f'k{i}': int for i in range(n)}, {f'k{i}': x(i) for i in range(n)})
            ch.check(not o.ok and list(o.exc.errors) == [f'k{i}' for i in ids] and all(len(m) == 1 for m in o.exc.errors.values()), 'the offending keys', kind, n, step, o)
        else:
            tp, v = {'list': lambda: (t.List[int], [x(i) for i in range(n)]), 'tuple': lambda: (t.Tuple[int, ...], tuple(x(i) for i in range(n))), 'fixed': lambda: (t.Tuple[(int,) * n], tuple(x(i) for i in range(n))),
                     'set': lambda: (t.Set[int], {x(i) for i in range(n)}), 'keys': lambda: (t.Dict[int, int], {x(i): i for i in range(n)}), 'values': lambda: (t.Dict[int, int], {i: x(i) for i in range(n)}),
                     'typed': lambda: (te.TypedDict('T', {f'k{i}': int for i in range(n)}), {f'k{i}': x(i) for i in range(n)})}[kind]()
            got = everywhere(ch, tp, v, [], (kind, n, step))
            ch.check(len(got) == len(ids), 'the number of messages', kind, n, step, same, len(got))
            own = errors_of(int, 'bad0')[0]
            if kind in ('list', 'tuple', 'fixed', 'keys', 'values'):
                ch.check(all(names(m, own, str(i)) for i, m in zip(ids, got)), 'the places of the messages', kind, n, step, got)
            elif kind == 'typed':
                ch.check(all(repr(f'k{i}') in m for i, m in zip(ids, got)), 'the keys of the messages', kind, n, step, got)
        ch.op(kind, n, step)
        ch.state(kind, n, step, same)
    return scenario


def single(ch):
    """What is no container, or the wrong one, is rejected with one message."""
    v = ch.pick([1, 'x', 1.5, None, [], (), {}, set(), b'', object(), int], 'value')
    types = [int, str, list, dict, None, t.List[int], t.Tuple[int], t.Set[int], t.Dict[str, int], t.Union[int, t.List[int]], t.Optional[str], te.Literal['a'], te.Literal['a', 2], Movie, t.Mapping[str, int], t.Sequence[int]]
    tp = ch.pick(types, 'type')
    if v == () and tp == t.Tuple[int] or v == {} and tp is Movie: raise Skip
    got = everywhere(ch, tp, v, [], (tp, v))
    ch.check(len(got) <= 1, 'more than one message', tp, v, got)
    ch.op(tp, v)
    ch.state(repr(tp), repr(type(v)))


def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='elements', fn=elements(4 if th else 3)),
        dict(name='longer elements', fn=elements(5 if th else 4, ('int', 'list'))),
        dict(name='fixed', fn=fixed(3 if th else 2)),
        dict(name='sets', fn=sets),
        dict(name='entries', fn=entries(3 if th else 2)),
        dict(name='typed', fn=typed),
        dict(name='many', fn=many((1, 4, 5, 9, 10, 11, 33, 101, 130, 300) if not th else (*range(1, 40), 63, 64, 65, 99, 100, 101, 128, 129, 255, 257, 513, 1025, 5000))),
        dict(name='single', fn=single),
    ]
