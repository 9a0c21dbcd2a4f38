"""Declarations of schemas and fields for the checks, and reference semantics (plain Python)."""
from __future__ import annotations

import collections, collections.abc, copy as _copy, types
import typing as t
import typing_extensions as te

import oblate
from oblate import fields, validate, Schema, FieldError, ValidationError, FrozenError, FieldNotSet, SchemaConfig


class _Unset:
    def __repr__(self):
        return 'UNSET'
    def __reduce__(self):
        return 'UNSET'
    def __copy__(self):
        return self
    def __deepcopy__(self, memo):
        return self


UNSET = _Unset()
ABSENT = UNSET


def mk(cls_name, _attrs=None, _bases=(Schema,), **attrs):
    body = dict(_attrs or {})
    body.update(attrs)
    return types.new_class(cls_name, _bases, {}, lambda ns: ns.update(body))


def cfg(**opts):
    return type('Config', (SchemaConfig,), opts)


class Out:
    """Outcome of one operation."""
    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return f'ok {self.value!r}' if self.exc is None else f'{type(self.exc).__name__}: {self.exc}'


def attempt(fn, *a, **k):
    try:
        return Out(fn(*a, **k))
    except Exception as e:
        return Out(None, e)


def attempt_base(fn, *a, **k):
    from mc.core import Hang, Violation, Divergence, Skip
    try:
        return Out(fn(*a, **k))
    except (Hang, Violation, Divergence, Skip):
        raise
    except BaseException as e:
        return Out(None, e)


def snap(inst, names):
    """Field values of an instance through the public interface."""
    return {n: inst.get_value_for(n, UNSET) for n in names}


def ident(snapshot):
    return {n: id(v) for n, v in snapshot.items()}


def errs(exc):
    """Multiset (sorted list) of (key, message) of the errors of a ValidationError."""
    return sorted(((e.key, strmsg(e.message)) for e in exc.errors), key=repr)


def strmsg(m):
    if isinstance(m, FieldError):
        return strmsg(m.message)
    if isinstance(m, dict):
        return {k: [strmsg(x) for x in v] if isinstance(v, list) else strmsg(v) for k, v in m.items()}
    if isinstance(m, list):
        return [strmsg(x) for x in m]
    return str(m)


def sraw(raw):
    """Order-insensitive form of raw()."""
    if isinstance(raw, dict):
        return ('d', tuple(sorted(((k, sraw(v)) for k, v in raw.items()), key=repr)))
    if isinstance(raw, list):
        return ('l', tuple(sorted((sraw(x) for x in raw), key=repr)))
    return raw


def eqv(a, b):
    """Equality that also distinguishes types (1 / True / 1.0) and looks into nested instances."""
    if isinstance(a, Schema) or isinstance(b, Schema):
        if type(a) is not type(b):
            return False
        names = all_field_names(type(a))
        return all(eqv(a.get_value_for(n, UNSET), b.get_value_for(n, UNSET)) for n in names)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list_eq(list(a.items()), list(b.items()))
    return a == b


def list_eq(a, b):
    b = list(b)
    if len(a) != len(b):
        return False
    for x in a:
        for i, y in enumerate(b):
            if eqv(x, y):
                del b[i]
                break
        else:
            return False
    return True


def all_field_names(cls):
    """Names of fields by ordinary attribute lookup."""
    out = []
    for n in dir(cls):
        if n.startswith('__'):
            continue
        for k in cls.__mro__:
            if n in vars(k):
                if isinstance(vars(k)[n], fields.Field):
                    out.append(n)
                break
    return out


class MyMapping(collections.abc.Mapping):
    """A mapping that is not a dict."""
    def __init__(self, d):
        self._d = dict(d)
    def __getitem__(self, k):
        return self._d[k]
    def __iter__(self):
        return iter(self._d)
    def __len__(self):
        return len(self._d)
    def __repr__(self):
        return f'MyMapping({self._d!r})'


class SubDict(dict):
    pass


MAPPINGS = [
    ('dict', dict),
    ('proxy', lambda d: types.MappingProxyType(dict(d))),
    ('custom', MyMapping),
    ('ordered', collections.OrderedDict),
    ('userdict', collections.UserDict),
    ('subdict', SubDict),
    ('chainmap', lambda d: collections.ChainMap(dict(d))),
]


def freeze_input(x):
    """A comparable deep image of an input, to detect modification."""
    if isinstance(x, collections.abc.Mapping):
        return (type(x).__name__, tuple((freeze_input(k), freeze_input(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze_input(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted(map(repr, x))))
    if isinstance(x, Schema):
        return ('schema', id(x), tuple((n, freeze_input(x.get_value_for(n, UNSET))) for n in all_field_names(type(x))))
    if isinstance(x, (int, float, str, bool, bytes, type(None))):
        return (type(x).__name__, x)
    return ('obj', id(x))


# ---------------------------------------------------------------- coded fields
# Fields whose built-in failures are reported under the error code, so that a report can be compared exactly.

def coded(base):
    class Coded(base):
        __slots__ = ()
        def format_error(self, code, ctx, /):
            return f'<{code}>'
    Coded.__name__ = 'Coded' + base.__name__
    return Coded


CODED = {b: coded(b) for b in (fields.Any, fields.String, fields.Integer, fields.Float, fields.Boolean, fields.Literal,
                               fields.Union, fields.TypeExpr, fields.List, fields.Set, fields.Dict, fields.TypedDict,
                               fields.Object, fields.Field)}


class Bad(Exception):
    """Reference: the value is not acceptable."""


class Kind:
    """One way of declaring a field: the constructor, and the reference deserialization."""
    def __init__(self, name, make, load, good, bad):
        self.name, self.make, self.load, self.good, self.bad = name, make, load, good, bad
    def __repr__(self):
        return self.name


def _strict(tp):
    def load(v):
        if isinstance(v, tp):
            return v
        raise Bad
    return load


def _conv(tp):
    def load(v):
        if isinstance(v, tp):
            return v
        try:
            return tp(v)
        except Exception:
            raise Bad from None
    return load


TRUES = ('TRUE', 'True', 'true', 'YES', 'Yes', 'yes', '1')
FALSES = ('FALSE', 'False', 'false', 'NO', 'No', 'no', '0')


def _boolconv(trues=TRUES, falses=FALSES):
    def load(v):
        if isinstance(v, bool):
            return v
        if str(v) in trues:
            return True
        if str(v) in falses:
            return False
        raise Bad
    return load


def _oneof(*vals):
    def load(v):
        if any(v == x for x in vals):
            return v
        raise Bad
    return load


class Movie(te.TypedDict):
    name: str
    year: te.NotRequired[int]


def _movie(v):
    if not isinstance(v, dict) or 'name' not in v or set(v) - {'name', 'year'}:
        raise Bad
    if not isinstance(v['name'], str) or not isinstance(v.get('year', 0), int):
        raise Bad
    return v


def _all(tp, et=object):
    def load(v):
        if isinstance(v, tp) and all(isinstance(x, et) for x in v):
            return v
        raise Bad
    return load


def _dictof(kt, vt):
    def load(v):
        if isinstance(v, dict) and all(isinstance(k, kt) and isinstance(x, vt) for k, x in v.items()):
            return v
        raise Bad
    return load


class Custom(fields.Field):
    """A custom field: doubles integers, rejects strings in three ways, passes anything else."""
    def value_load(self, value, context):
        if value == 've':
            raise ValueError('custom ve')
        if value == 'ae':
            raise AssertionError('custom ae')
        if value == 'fe':
            raise FieldError('custom fe')
        if value == 'empty':
            raise ValueError
        if type(value) is int:
            return value * 2
        return value

    def value_dump(self, value, context):
        return value


def _custom(v):
    if v in ('ve', 'ae', 'fe', 'empty') and isinstance(v, str):
        raise Bad
    return v * 2 if type(v) is int else v


def leaf_kinds():
    F = fields
    return [
        Kind('Any', F.Any, lambda v: v, [0, 'x', [], {}], []),
        Kind('String', F.String, _strict(str), ['', 'abc'], [0, [], 1.5]),
        Kind('String~', lambda **k: F.String(strict=False, **k), _conv(str), ['', 0, 1.5, []], []),
        Kind('Integer', F.Integer, _strict(int), [0, 7, True], ['7', 1.5, []]),
        Kind('Integer~', lambda **k: F.Integer(strict=False, **k), _conv(int), [0, '12', 3.9, ' 4 '], ['x', [], '']),
        Kind('Float', F.Float, _strict(float), [0.0, 1.5], [1, '1.5']),
        Kind('Float~', lambda **k: F.Float(strict=False, **k), _conv(float), [0.0, 1, '2.5'], ['x', {}]),
        Kind('Boolean', F.Boolean, _strict(bool), [True, False], [0, 1, 'true']),
        Kind('Boolean~', lambda **k: F.Boolean(strict=False, **k), _boolconv(), [False, 1, '0', 'yes'], ['maybe', 2, '']),
        Kind('Literal', lambda **k: F.Literal('p', 3, None, **k), _oneof('p', 3, None), ['p', 3], ['q', 0, '']),
        Kind('Union', lambda **k: F.Union(int, str, **k), _strict((int, str)), [0, '', 'z'], [1.5, []]),
        Kind('TypeExpr', lambda **k: F.TypeExpr(t.Union[int, t.List[str]], **k),
             lambda v: v if isinstance(v, int) else _all(list, str)(v), [0, [], ['a']], ['a', [1], ()]),
        Kind('List', F.List, _all(list), [[], [1, 'a']], [(), {}, 'ab']),
        Kind('List[int]', lambda **k: F.List(int, **k), _all(list, int), [[], [0, 1]], [['a'], [1, 'a'], ()]),
        Kind('Set', F.Set, _all(set), [set(), {1}], [[], {}]),
        Kind('Set[str]', lambda **k: F.Set(str, **k), _all(set, str), [set(), {'a'}], [{1}, ['a']]),
        Kind('Dict', F.Dict, _dictof(object, object), [{}, {1: 2}], [[], 0]),
        Kind('Dict[str,int]', lambda **k: F.Dict(str, int, **k), _dictof(str, int), [{}, {'a': 0}], [{1: 0}, {'a': 'b'}, []]),
        Kind('TypedDict', lambda **k: F.TypedDict(Movie, **k), _movie, [{'name': ''}, {'name': 'm', 'year': 0}],
             [{}, {'name': 1}, {'name': 'm', 'z': 0}, []]),
        Kind('Custom', Custom, _custom, [0, 5, 'ok', []], ['ve', 'ae', 'fe', 'empty']),
    ]


VALUES = [0, 1, -3, True, False, 0.0, 1.5, '', '0', 'p', 'a b', '12', 'yes', 've', 'fe', 'empty', [], [1], ['a', 'b'], [1, 'a'],
          (), (1,), {}, {'a': 1}, {1: 'a'}, {'name': 'n'}, {'name': 'n', 'year': 'y'}, set(), {1}, {'a'}, 3, 10**30, b'x']
