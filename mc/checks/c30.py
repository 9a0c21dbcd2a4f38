"""C30 Unsupported types are accepted with one warning, never an error."""
import re, threading, warnings
from mc.lib import *
from mc.types_model import *
from mc.checks.c15 import judge, one_type, image
from mc.core import Skip

INFO = dict(assumptions=['type expressions are hashable', 'warnings are recorded, not turned into exceptions', 'whether a part that no value reached is warned about, and whether two argument lists of one generic are one type, is not specified'])

N = itertools.count()
T = t.TypeVar('T')


def fresh_kinds():
    """name -> function returning a new unsupported type that no execution has used before."""
    def box():
        B = types.new_class(f'Box{next(N)}', (t.Generic[T],))
        return B

    def proto():
        class P(t.Protocol):
            def m(self): ...
        P.__name__ = P.__qualname__ = f'Proto{next(N)}'
        return P

    def gproto():
        class P(t.Protocol[T]):
            def m(self): ...
        return P
    return {
        'generic': lambda: box()[int], 'generic of list': lambda: box()[t.List[int]], 'generic of a variable': lambda: box()[T], 'variable': lambda: t.TypeVar(f'V{next(N)}'), 'bound variable': lambda: t.TypeVar(f'V{next(N)}', bound=int), 'constrained variable': lambda: te.TypeVar(f'V{next(N)}', int, str),
        'new type': lambda: t.NewType(f'New{next(N)}', int), 'new type of list': lambda: t.NewType(f'New{next(N)}', list), 'text': lambda: f'Undefined{next(N)}', 'dotted text': lambda: f'un.known{next(N)}[int]', 'reference': lambda: t.ForwardRef(f'Undefined{next(N)}'),
        'protocol': proto, 'generic protocol': lambda: gproto()[int], 'alias': lambda: te.TypeAliasType(f'Alias{next(N)}', int), 'parameters': lambda: te.ParamSpec(f'Ps{next(N)}'), 'object': lambda: object(), 'number': lambda: 1000 + next(N), 'function': lambda: (lambda: next(N)),
        'instance': lambda: types.SimpleNamespace.__new__(type(f'Inst{next(N)}', (), {})) if False else type(f'Inst{next(N)}', (), {})(),
    }


FRESH = fresh_kinds()
STATIC = {
    'Iterable[int]': t.Iterable[int], 'Iterable': t.Iterable, 'FrozenSet[int]': t.FrozenSet[int], 'frozenset[int]': frozenset[int], 'Deque[int]': t.Deque[int], 'deque[int]': collections.deque[int], 'Type[int]': t.Type[int], 'type[int]': type[int], 'Type': t.Type, 'Callable[[int], str]': t.Callable[[int], str], 'Callable': t.Callable,
    'Callable[..., int]': t.Callable[..., int], 'Annotated[int]': te.Annotated[int, 'meta'], 'ClassVar[int]': t.ClassVar[int], 'Final[int]': t.Final[int], 'NoReturn': t.NoReturn, 'Never': te.Never, 'Self': te.Self, 'LiteralString': te.LiteralString, 'Iterator[str]': t.Iterator[str], 'DefaultDict[str, int]': t.DefaultDict[str, int],
    'OrderedDict[str, int]': t.OrderedDict[str, int], 'Counter[str]': t.Counter[str], 'Collection[int]': t.Collection[int], 'Hashable': t.Hashable, 'Generator': t.Generator[int, None, None], 'AnyStr': t.AnyStr, 'Pattern[str]': t.Pattern[str], 'MutableMapping[str, int]': t.MutableMapping[str, int], 'MutableSequence[int]': t.MutableSequence[int],
    'AbstractSet[int]': t.AbstractSet[int], 'ChainMap[str, int]': t.ChainMap[str, int], 'text int': 'int', 'reference int': t.ForwardRef('int'), 'List[int] as text': 'List[int]', 'NotImplemented': NotImplemented, 'T': T, 'number': 5, 'zero': 0, 'Awaitable[int]': t.Awaitable[int], 'TypeGuard[int]': te.TypeGuard[int],
}


class Caught:
    """Records the UserWarnings issued inside."""
    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.list = self.cm.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    def take(self):
        n = [w for w in self.list]
        del self.list[:]
        return n


def count(ch, ws, what):
    ch.check(all(w.category is UserWarning for w in ws), 'another category of warning', what, [w.category for w in ws])
    return len(ws)


def alone(ch):
    """Every unsupported type accepts every value, everywhere a type expression is taken."""
    names = list(FRESH) + list(STATIC)
    i = ch.choose(len(names), 'type')
    name = names[i]
    tp = FRESH[name]() if i < len(FRESH) else STATIC[name]
    with Caught() as w:
        S = mk('S', f=fields.TypeExpr(tp, none=True))
        total = 0
        for v in GENERIC:
            ch.op(name, v)
            o = attempt(oblate.validate_types, {'k': tp}, {'k': v})
            ch.check(o.ok, 'an unsupported type rejects, or raises', name, v, o)
            o = attempt(S, {'f': v})
            ch.check(o.ok and o.value.f is v, 'a field of an unsupported type rejects, or raises', name, v, o)
            x = S({'f': 0})
            o = attempt(x.update, {'f': v}); o2 = attempt(setattr, x, 'f', v)
            ch.check(o.ok and o2.ok and x.f is v, 'update or assignment', name, v, o, o2)
            total += count(ch, w.take(), name)
        ch.check(total == 1 if i < len(FRESH) else total <= 1, f'{total} warnings were issued', name)
        # keys around it are still checked
        o = attempt(oblate.validate_types, {'k': tp, 'n': int}, {'k': 1, 'n': 'x', 'e': 0})
        ch.check(isinstance(o.exc, oblate.TypeValidationError) and set(o.exc.errors) == {'n', 'e'}, 'other keys', name, o)
        o = attempt(oblate.validate_types, {'k': tp, 'n': int}, {})
        ch.check(isinstance(o.exc, oblate.TypeValidationError) and set(o.exc.errors) == {'k', 'n'}, 'missing keys', name, o)
        ch.check(not w.take(), 'another warning', name)
    ch.state(name)


POS = ['u', 'int', 'str', 'none', 'list']


def leaf(n, u):
    return {'u': u, 'int': ('cls', int), 'str': ('cls', str), 'none': ('none',), 'list': ('blist',), 'u2': u}[n]


def uses(a):
    return a[0] == 'u' or any(uses(x) for x in a[1:] if isinstance(x, tuple))


def shapes(depth):
    """Structures with one placeholder leaf or more."""
    leaves = [('p', n) for n in POS]
    one = composites(leaves)
    one = [a for a in one if any(x == ('p', 'u') for x in a[1:])]
    if depth == 1: return one
    inner = [one[i] for i in range(0, len(one), 2)]
    out = []
    for a in inner:
        for b in (('p', 'int'), ('p', 'u')):
            out += [('union', a, b), ('tup', a, b), ('tup', b, a), ('dict', b, a), ('map', ('p', 'str'), a)]
        out += [('list', a), ('seq', a), ('vtup', a), ('union', a, ('p', 'none'))]
    return out


def fill(a, u):
    return leaf(a[1], u) if a[0] == 'p' else (a[0],) + tuple(fill(x, u) for x in a[1:])


def positions(shps, kinds):
    def scenario(ch):
        """An unsupported part inside supported containers: the rest decides exactly as always."""
        a = shps[ch.choose(len(shps), 'shape')]
        kind = ch.pick(kinds, 'kind')
        new = ch.flag('spelling')
        tp = FRESH[kind]() if kind in FRESH else STATIC[kind]
        ast = fill(a, ('u', tp))
        try: build(ast, False), build(ast, new)
        except TypeError: raise Skip
        with Caught() as w:
            n = one_type(ch, ast, new, True, [1, 'a', None, [], [1], [1, 'a'], (), (1, 'a'), {}, {'a': 1}, {1: 'a'}, {1}, K0])
            total = count(ch, w.take(), kind)
        ch.op(kind, str(a), total)
        limit = 2 if 'text' in kind else 1       # a text and the reference typing makes of it
        ch.check(total <= limit, f'{total} warnings were issued', kind, a)
        ch.nops += n or 0
        ch.state(str(a), kind, new)
    return scenario


def typed_dicts(ch):
    """Unsupported keys of a typed dict, next to supported ones; unresolvable references."""
    kind = ch.pick([k for k in FRESH] + ['Iterable[int]', 'Annotated[int]'], 'kind')
    total = ch.flag('total')
    mark = ch.pick(['plain', 'required', 'not required', 'list', 'union', 'dict'], 'mark')
    resolvable = ch.pick(['type', 'text'], 'supported keys')
    tp = FRESH[kind]() if kind in FRESH else STATIC[kind]
    it, st = (int, t.List[str]) if resolvable == 'type' else ('int', 'list[str]')
    try:
        ann = {'plain': lambda: tp, 'required': lambda: te.Required[tp], 'not required': lambda: te.NotRequired[tp], 'list': lambda: t.List[tp], 'union': lambda: t.Union[tp, None], 'dict': lambda: t.Dict[str, tp]}[mark]()
        D = te.TypedDict(f'D{next(N)}', {'u': ann, 'i': it, 's': st, 'n': te.NotRequired[int]}, total=total)
    except TypeError:
        raise Skip
    if kind in ('number', 'object', 'instance', 'function') and mark == 'plain':
        pass
    D.__module__ = __name__
    with Caught() as w:
        def rejected(v):
            o = attempt(oblate.validate_types, {'k': D}, {'k': v})
            ch.op(kind, mark, v, o)
            ch.check(o.ok or isinstance(o.exc, oblate.TypeValidationError), 'validation raises', kind, mark, o)
            f = attempt(mk('S', f=fields.TypedDict(D)), {'f': v})
            ch.check(f.ok == o.ok and (f.ok or isinstance(f.exc, ValidationError)), 'the field decides differently', kind, mark, v, f)
            return [] if o.ok else o.exc.errors['k']
        req = mark == 'required' or (total and mark != 'not required')
        us = {'list': [[], [1, 'x']], 'dict': [{}, {'a': 1}], 'union': [1, None, 'x']}.get(mark, [1, None, 'x', []])
        for u in us + [UNSET]:
            for i in (1, 'bad', UNSET):
                for s in (['a'], [1], UNSET):
                    for n in (UNSET, 2, 'bad'):
                        v = {k: x for k, x in (('u', u), ('i', i), ('s', s), ('n', n)) if x is not UNSET}
                        bad = (i == 'bad') + (s == [1]) + (n == 'bad') + (total and i is UNSET) + (total and s is UNSET) + (req and u is UNSET)
                        r = rejected(v)
                        ch.check(len(r) == bad, f'{len(r)} errors instead of {bad}', kind, mark, total, v, r)
        if mark in ('list', 'dict'): ch.check(len(rejected({'u': 5, 'i': 1, 's': []})) == 1, 'the container of an unsupported part', kind, mark)
        ws = count(ch, w.take(), kind)
        ch.check(ws <= 1 and (ws == 1 or kind not in FRESH or kind in ()), f'{ws} warnings', kind, mark)
    ch.state(kind, total, mark, resolvable)


STEPS = ['off', 'on', 'replace off', 'replace default', 'use 0', 'use 1', 'field 0', 'list 0', 'dict 1', 'use both', 'thread 0', 'update 0', 'assign 0', 'reject 1', 'define 0', 'class only']


def histories(depth, kinds, steps):
    def scenario(ch):
        """All sequences of warning settings and uses of two unsupported types: one warning each, none while disabled."""
        kind = ch.pick(kinds, 'kind')
        tps = [FRESH[kind](), FRESH[kind]()]
        old = oblate.config
        issued = [False, False]
        enabled = True
        pre = mk('Pre', f=fields.TypeExpr(tps[0], required=False), l=fields.List(tps[0], required=False), d=fields.Dict(str, tps[1], required=False))
        hist = []
        try:
            oblate.config = oblate.GlobalConfig()
            with Caught() as w:
                x = pre({})
                ch.check(not w.take(), 'a warning without use', kind)
                for i in range(depth):
                    s = ch.pick(steps, f'step{i}')
                    hist.append(s)
                    used = []
                    out = None
                    if s == 'off': oblate.config.warn_unsupported_types = False; enabled = False
                    elif s == 'on': oblate.config.warn_unsupported_types = True; enabled = True
                    elif s == 'replace off': oblate.config = oblate.GlobalConfig(warn_unsupported_types=False); enabled = False
                    elif s == 'replace default': oblate.config = oblate.GlobalConfig(); enabled = True
                    elif s == 'use 0': out = attempt(oblate.validate_types, {'k': tps[0]}, {'k': i}); used = [0]
                    elif s == 'use 1': out = attempt(oblate.validate_types, {'k': t.List[tps[1]]}, {'k': [i, i, None]}); used = [1]
                    elif s == 'field 0': out = attempt(pre, {'f': i}); used = [0]
                    elif s == 'list 0': out = attempt(pre, {'l': [i, i]}); used = [0]
                    elif s == 'dict 1': out = attempt(pre, {'d': {'a': i, 'b': 'x'}}); used = [1]
                    elif s == 'use both': out = attempt(oblate.validate_types, {'k': tps[1], 'j': t.Tuple[int, tps[0]]}, {'k': i, 'j': (i, i)}); used = [0, 1]
                    elif s == 'thread 0':
                        res = []
                        th = threading.Thread(target=lambda: res.append(attempt(oblate.validate_types, {'k': tps[0]}, {'k': i})))
                        th.start(); th.join()
                        out = res[0]; used = [0]
                    elif s == 'update 0': out = attempt(x.update, {'f': i}); used = [0]
                    elif s == 'assign 0': out = attempt(setattr, x, 'f', i); used = [0]
                    elif s == 'reject 1':
                        out = attempt(oblate.validate_types, {'k': t.Dict[str, tps[1]], 'n': int}, {'k': {'a': 1}, 'n': 'x'}); used = [1]
                        ch.check(isinstance(out.exc, oblate.TypeValidationError) and set(out.exc.errors) == {'n'}, 'rejected keys', hist, out); out = None
                    elif s == 'define 0': out = attempt(lambda: mk('Def', g=fields.List(tps[0])).g.copy())
                    else: out = attempt(oblate.validate_types, {'k': int}, {'k': i})
                    ch.op(s, kind)
                    if out is not None: ch.check(out.ok, 'rejected, or raised', hist, out)
                    n = count(ch, w.take(), kind)
                    want = sum(1 for u in used if enabled and not issued[u])
                    ch.check(n == want, f'{n} warnings instead of {want}', kind, hist)
                    if enabled:
                        for u in used: issued[u] = True
                    ch.check(oblate.config.warn_unsupported_types is enabled, 'the configured value', hist)
        finally:
            oblate.config = old
        ch.state(kind, tuple(hist))
    return scenario


def many_types(ch):
    """Any number of types: each is warned about once, however many came in between."""
    n = ch.pick([17, 130, 600, 3000], 'types')
    kind = ch.pick(['new type', 'generic', 'variable'], 'kind')
    order = ch.pick(['same', 'reversed'], 'order')
    tps = [FRESH[kind]() for _ in range(n)]
    with Caught() as w:
        for i, tp in enumerate(tps):
            o = attempt(oblate.validate_types, {'k': tp}, {'k': i})
            ch.check(o.ok and count(ch, w.take(), kind) == 1, 'the first use of a type', kind, i, o)
        for rnd in range(2):
            for i, tp in enumerate(tps if order == 'same' else reversed(tps)):
                o = attempt(oblate.validate_types, {'k': t.List[tp]} if rnd else {'k': tp}, {'k': [i]})
                ch.check(o.ok and not w.take(), 'a second warning for a type', kind, n, i, o)
        o = attempt(oblate.validate_types, {f'k{i}': tp for i, tp in enumerate(tps)}, {f'k{i}': i for i in range(n)})
        ch.check(o.ok and not w.take(), 'a second warning for a type', kind, n, o)
    ch.op(kind, n, order)
    ch.nops += 4 * n
    ch.state(kind, n, order)


def settings(ch):
    """Invalid values of the option are refused without effect."""
    start = ch.flag('enabled')
    v = ch.pick([1, 0, None, 'no', [], bool, UNSET], 'value')
    how = ch.pick(['set', 'construct'], 'how')
    old = oblate.config
    try:
        oblate.config = oblate.GlobalConfig(warn_unsupported_types=start)
        cur = oblate.config
        out = attempt(setattr, oblate.config, 'warn_unsupported_types', v) if how == 'set' else attempt(oblate.GlobalConfig, warn_unsupported_types=v)
        ch.op(how, v, out)
        ch.check(isinstance(out.exc, TypeError) and oblate.config is cur and cur.warn_unsupported_types is start, 'an invalid value is accepted', v, out)
        tp = FRESH['new type']()
        with Caught() as w:
            oblate.validate_types({'k': tp}, {'k': 1})
            ch.check(len(w.take()) == start, 'warnings after a refused value', v)
    finally:
        oblate.config = old
    ch.state(start, repr(v), how)


def several(ch):
    """Expressions with several unsupported types: one warning for each."""
    names = [ch.pick(list(FRESH)[:12], f'kind{i}') for i in range(2)]
    tps = [FRESH[n]() for n in names] + [FRESH['new type']()]
    shape = ch.pick(['tuple', 'dict', 'nested', 'keys', 'union'], 'shape')
    a, b, c = tps
    try:
        if shape == 'tuple': ty, v = {'k': t.Tuple[a, b, c]}, {'k': (1, 'x', None)}
        elif shape == 'dict': ty, v = {'k': t.Dict[a, t.List[t.Union[int, b]]], 'j': c}, {'k': {1: [1, 'x'], 'y': []}, 'j': 0}
        elif shape == 'nested': ty, v = {'k': t.List[t.Tuple[a, t.Dict[str, b]]], 'j': t.Set[c]}, {'k': [(1, {'a': 1}), (None, {})], 'j': {1, 2}}
        elif shape == 'keys': ty, v = {'k': a, 'j': b, 'l': c}, {'k': 1, 'j': 2, 'l': 3}
        else: ty, v = {'k': t.Union[int, a], 'j': t.Union[str, None, b], 'l': t.Union[c, int]}, {'k': 'x', 'j': 1, 'l': 2}
    except TypeError:
        raise Skip
    with Caught() as w:
        for i in range(2):
            o = attempt(oblate.validate_types, ty, v)
            ch.op(shape, names, o)
            ch.check(o.ok, 'rejected, or raised', shape, names, o)
            ch.check(count(ch, w.take(), names) == (3 if i == 0 else 0), 'number of warnings', shape, names, i)
    ch.state(shape, tuple(names))


def scenarios(tier):
    th = tier == 'thorough'
    kinds = list(FRESH)
    few = ['generic', 'variable', 'new type', 'text', 'protocol', 'Iterable[int]', 'Type[int]', 'Annotated[int]']
    hk = ['generic', 'new type', 'reference']
    hs = ['off', 'on', 'replace off', 'replace default', 'use 0', 'use 1', 'use both', 'field 0']
    return [
        dict(name='alone', fn=alone),
        dict(name='positions', fn=positions(shapes(1), kinds + list(STATIC))),
        dict(name='nested positions', fn=positions(shapes(2), kinds if th else few[:4])),
        dict(name='typed dicts', fn=typed_dicts),
        dict(name='several', fn=several),
        dict(name='settings', fn=settings),
        dict(name='many types', fn=many_types),
        dict(name='histories', fn=histories(2, [k for k in kinds if 'text' not in k], STEPS)),
        dict(name='longer histories', fn=histories(4 if th else 3, hk, STEPS)),
        dict(name='setting histories', fn=histories(5 if th else 4, hk[:2] if th else hk[:1], hs)),
        dict(name='one type', fn=histories(7 if th else 6, hk if th else hk[1:2], ['off', 'on', 'replace off', 'replace default', 'use 0'])),
    ]
