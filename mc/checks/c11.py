"""C11 Instances are isolated and results do not depend on history."""
from mc.interplay import also
from mc.lib import *

INFO = dict(assumptions=['callbacks keep no state of their own'])


class Crash(Exception):
    pass


def crash9(schema, value, ctx):
    if value == 9:
        raise Crash
    if value == 8:
        raise FieldError(['e1', 'e2'])


class Mov(te.TypedDict):
    name: te.Required[str]
    year: te.NotRequired[int]


class World:
    """A fresh set of related classes."""
    def __init__(self):
        R = validate.Range(0, 10)
        self.A = A = mk('A', x=fields.Integer(strict=False, validators=[R, crash9]), y=fields.String(required=False, none=True),
                        z=fields.Any(default=lambda ctx, f: (ctx.schema.__class__.__name__, f.name)))
        self.B = mk('B', dict(w=fields.List(t.Union[int, t.Tuple[str, ...]], required=False), y=fields.Integer(required=False, load_key='Y', validators=[R])), (A,))

        @validate.field('x')
        def odd(self, value, ctx):
            if value % 2 == 0:
                raise ValueError('even')
        self.Q = mk('Q', dict(odd=odd), (A,))
        self.C = mk('C', x=fields.String(), y=fields.TypedDict(Mov, required=False), z=fields.Boolean(strict=False, default=None),
                    Config=cfg(ignore_extra=True))
        self.P = mk('P', a=fields.Object(A), b=fields.Object(self.B, required=False, none=True), u=fields.TypeExpr(t.Dict[str, t.List[Mov]], required=False),
                    v=A.x.copy(), Config=cfg(add_repr=False))
        self.classes = dict(A=A, B=self.B, C=self.C, P=self.P, Q=self.Q)


DATA = dict(
    A=[{'x': 1}, {'x': '5', 'y': None}, {'x': 11}, {'x': 8, 'q': 1}, {}, {'x': 9}, {'x': 'no', 'y': 5}],
    B=[{'x': 1, 'Y': 2, 'w': [1, ('a', 'b')]}, {'x': 1, 'Y': 11, 'w': [1, (2,)]}, {'x': 2, 'y': 1}, {'x': 8, 'Y': 'q'}],
    C=[{'x': 'a', 'y': {'name': 'n'}, 'z': 'yes', 'q': 0}, {'x': 1, 'y': {'year': 'x', 'k': 0}}, {'x': '', 'y': {'name': 's', 'year': 1}}, {}, {'x': 'a', 'y': {'name': 'n', 'year': 1}, 'z': False}],
    P=[{'a': {'x': 1}, 'v': 3, 'u': {'k': [{'name': 'n'}]}}, {'a': {'x': 11}, 'b': {'x': 8, 'w': 5}, 'v': 9}, {'a': {'x': 3}, 'b': None, 'v': '7'},
       {'a': {'x': 1, 'q': 1}, 'v': 12, 'u': {'k': [{'nam': 0}]}, 'zz': 1}],
    Q=[{'x': 3}, {'x': 2}, {'x': 8}],
)
UPD = dict(
    A=[{'x': 2, 'y': 'k'}, {'x': 3, 'y': 5}, {'x': 9}, {'zz': 0}],
    B=[{'w': [], 'Y': 3}, {'w': [()], 'Y': 'x'}],
    C=[{'y': {'name': 'u'}, 'z': 0}, {'y': {}}],
    P=[{'b': {'x': 1}, 'v': 1}, {'b': {'x': 9}}, {'b': {'x': 'q'}, 'u': 5}],
    Q=[{'x': 5}, {'x': 4, 'y': 'k'}],
)


def canon(x):
    if isinstance(x, Schema):
        return ('S', type(x).__name__, tuple((n, canon(x.get_value_for(n, UNSET))) for n in sorted(all_field_names(type(x)))))
    if isinstance(x, dict):
        return ('D', tuple((canon(k), canon(v)) for k, v in sorted(x.items(), key=repr)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(canon, x)))
    return (type(x).__name__, repr(x))


def result(out):
    if out.ok:
        return ('ok', canon(out.value))
    e = out.exc
    if isinstance(e, ValidationError):
        return ('invalid', type(e.schema).__name__, str(type(e).__name__), sraw(e.raw()),
                tuple(sorted(((x.key, x.field.name if x.field else None, type(x.schema).__name__, repr(x.state), repr(getattr(x.context, 'value', 'no')),
                               type(x.context).__name__) for x in e.errors), key=repr)))
    return (type(e).__name__, str(e))


def probe(w, cname, i):
    return result(attempt(w.classes[cname], DATA[cname][i]))


_REF = {}


def ref(cname, i):
    """The outcome in a world without history."""
    if (cname, i) not in _REF:
        _REF[cname, i] = contextvars.Context().run(probe, World(), cname, i)
    return _REF[cname, i]


import contextvars

CLS = ['A', 'B', 'C', 'P', 'Q']


def all_ops(small):
    ops = []
    for c in CLS:
        for i in range(len(DATA[c])):
            if not small or i < 3:
                ops.append(('new', c, i))
    return ops


def inst_ops(cname, small):
    ops = [('upd', i) for i in range(len(UPD[cname]))]
    ops += [('set', 'x', v) for v in ((5, 8) if small else (5, 8, 9, 'q'))] if cname != 'P' else [('set', 'v', 5), ('set', 'a', {'x': 8}), ('nest',), ('nestbad',)]
    ops += [('dump',), ('copy',), ('read',)]
    if small:
        ops = [o for o in ops if o[0] not in ('read',)]
    return ops


def run_inst_op(inst, cname, op):
    if op[0] == 'upd':
        return attempt(inst.update, UPD[cname][op[1]])
    if op[0] == 'set':
        return attempt(setattr, inst, op[1], op[2])
    if op[0] == 'dump':
        return attempt(inst.dump)
    if op[0] == 'copy':
        return attempt(inst.copy)
    if op[0] == 'nest':
        return attempt(setattr, inst.a, 'x', 7)
    if op[0] == 'nestbad':
        return attempt(inst.a.update, {'x': 8, 'y': 4, 'q': 1})
    out = []
    for n in all_field_names(type(inst)):
        out.append(attempt(getattr, inst, n).ok)
    return attempt(lambda: out)


def history(depth, maxlive, small, full_probe):
    def scenario(ch):
        w = World()
        live = []       # (class name, instance, history of its own operations)
        news = all_ops(small)
        for step in range(depth):
            opts = [('new', None)] if len(live) >= maxlive else None
            ops = list(news) if len(live) < maxlive or step < depth - 1 else []
            tail = []
            for k, (c, inst, h) in enumerate(live):
                tail += [(k, o) for o in inst_ops(c, small)]
            c = ch.choose(len(ops) + len(tail), f'op{step}')
            before = [(inst, snap(inst, all_field_names(type(inst))), canon(inst)) for _, inst, _ in live]
            target = None
            if c < len(ops):
                _, cname, i = ops[c]
                out = attempt(w.classes[cname], DATA[cname][i])
                ch.op('construct', cname, DATA[cname][i], out)
                got = result(out)
                ch.check(got == ref(cname, i), 'construction depends on history', cname, DATA[cname][i], got, ref(cname, i))
                if out.ok and len(live) < maxlive:
                    live.append((cname, out.value, [('new', i)]))
            else:
                target, op = tail[c - len(ops)]
                cname, inst, h = live[target]
                out = run_inst_op(inst, cname, op)
                ch.op(cname, target, op, out)
                h.append(op)
                # replaying only this instance's own operations in a fresh world gives the same
                got = (result(out), canon(inst))
                exp = solo(cname, tuple(map(repr_op, h)), h)
                ch.check(got == exp, 'an operation depends on other instances', cname, h, got, exp)
                if op[0] == 'copy' and out.ok and len(live) < maxlive and cname != 'P':   # nested instances are shared by copies
                    live.append((cname, out.value, list(h)))
            for k, (inst, s, im) in enumerate(before):
                if k != target:
                    now = snap(inst, s)
                    ch.check(all(now[n] is s[n] for n in s) and canon(inst) == im, 'an operation changed another instance', k, s, now)
            ch.state(tuple((c, canon(i)) for c, i, _ in live))
        for cname in CLS:
            for i in range(len(DATA[cname]) if full_probe else 2):
                out = attempt(w.classes[cname], DATA[cname][i])
                ch.op('probe', cname, i)
                got = result(out)
                ch.check(got == ref(cname, i), 'construction depends on history', cname, DATA[cname][i], got, ref(cname, i))
    return scenario


def repr_op(o):
    return repr(o)


_SOLO = {}


def solo(cname, key, h):
    k = (cname,) + key
    if k not in _SOLO:
        if len(_SOLO) > 200000:
            _SOLO.clear()

        def run():
            w = World()
            inst = w.classes[cname](DATA[cname][h[0][1]])
            out = None
            for op in h[1:]:
                out = run_inst_op(inst, cname, op)
                if op[0] == 'copy' and op is not h[-1]:
                    pass
            return result(out), canon(inst)
        _SOLO[k] = contextvars.Context().run(run)
    return _SOLO[k]


def shared_validators(ch):
    """Fields of several schemas sharing validators and types."""
    R, L = validate.Range.from_standard(range(0, 10, 3)), validate.Or(validate.Exclude(3), validate.Range(3))
    rx = validate.Regex('a+', search=True)
    A = mk('A', n=fields.Integer(validators=[R]), s=fields.String(required=False, validators=[rx]))
    B = mk('B', n=fields.Integer(validators=[L, R]), m=fields.Integer(required=False, validators=[L]))
    vals = [0, 3, 6, 4, 10, -3]
    seq = [(ch.pick(['A', 'B', 'Bm'], f'c{i}'), ch.pick(vals, f'v{i}')) for i in range(3)]
    for c, v in seq:
        data = {'n': v} if c != 'Bm' else {'n': 0, 'm': v}
        o = attempt(A if c == 'A' else B, data)
        ch.op(c, v, o)
        good = v in (0, 3, 6) if c != 'Bm' else True
        ch.check(o.ok == good, 'shared validator gives another result', c, v, o)
        for s in ('ba', 'b', 'aa', ''):
            o = attempt(A, {'n': 0, 's': s})
            ch.check(o.ok == ('a' in s), 'shared validator gives another result', s, o)
    ch.state(*seq)


def factories(ch):
    """Default callables and other user code whose results vary: they are called anew for every instance."""
    n = ch.choose(3, 'results') + 2
    pool = [None, 0, 5, [], 'own']
    results = [ch.pick(pool, f'result{i}') for i in range(n)]
    inherit = ch.flag('inherited')
    calls = []

    def dflt(ctx, field):
        calls.append((ctx, field))
        r = results[len(calls) - 1]
        return list(r) if isinstance(r, list) else ctx.schema if r == 'own' else r
    A = mk('A', x=fields.Any(default=dflt), y=fields.Integer(required=False))
    B = mk('B', dict(z=fields.Integer(required=False)), (A,)) if inherit else A
    made = []
    for i in range(n):
        cls = (A, B)[i % 2]
        out = attempt(cls, {'y': i})
        ch.op('construct', cls.__name__, results[i], out)
        ch.check(out.ok and len(calls) == i + 1, 'the default is not computed for every instance', i, out, len(calls))
        s = out.value
        ch.check(calls[i][0] is s.context and calls[i][1] is cls.x, 'the default is computed for something else', i)
        want = s if results[i] == 'own' else results[i]
        ch.check(s.x is want or eqv(s.x, want) and not isinstance(want, Schema), 'the default is not the result of the call', i, s.x, want)
        ch.check(not isinstance(s.x, list) or all(s.x is not o.x for o in made), 'instances share a default that was computed for each', i)
        given = attempt(cls, {'x': 'given'})
        ch.check(given.ok and given.value.x == 'given' and len(calls) == i + 1, 'the default was computed for a given field', i)
        made.append(s)
        for j, o in enumerate(made[:-1]):
            w = o if results[j] == 'own' else results[j]
            ch.check(o.x is w or eqv(o.x, w) and not isinstance(w, Schema), 'an earlier instance changed', j, i)
    ch.state(inherit, *map(repr, results))


# ------------------------------------------------------------------ declarations that look alike

import enum, re


def _td(total, **keys):
    return te.TypedDict('Same', keys, total=total)


class _Color:
    pass


def _cls(bases=(), **ns):
    return type('Same', bases, dict(ns, __module__='same', __qualname__='Same'))


_S1, _S2 = _cls(), _cls()
_S3 = type('Same', (_S1,), {'__module__': 'same', '__qualname__': 'Same'})


def _fn(limit):
    def same(schema, value, ctx):
        if value > limit:
            raise ValueError('over')
    return same


def _val(limit):
    def validate_(self, value, ctx):
        if value > limit:
            raise ValueError('over')
    return type('Same', (validate.Validator,), dict(validate=validate_, __repr__=lambda self: 'Same', __eq__=lambda a, b: True, __hash__=lambda a: 1))()


def _default(v):
    def same(ctx, field):
        return v
    return same


def _subint(limit):
    def value_load(self, value, context):
        if not isinstance(value, int) or value > limit:
            raise FieldError('over')
        return value
    return type('Same', (fields.Field,), dict(value_load=value_load, value_dump=lambda self, value, context: value, __repr__=lambda self: 'Same',
                                              __eq__=lambda a, b: True, __hash__=lambda a: 1))()


def _nest(kind):
    return mk('Same', n={'int': fields.Integer, 'str': fields.String, 'bool': fields.Boolean}[kind]())


# group -> list of (make field, accepted raw values, rejected raw values)
LOOKALIKE = {
    'typeddict': [(lambda: fields.TypedDict(_td(True, a=int)), [{'a': 1}], [{'a': 'x'}, {}, {'b': 1}]),
                  (lambda: fields.TypedDict(_td(True, a=str)), [{'a': 'x'}], [{'a': 1}, {}]),
                  (lambda: fields.TypedDict(_td(False, a=int)), [{'a': 1}, {}], [{'a': 'x'}]),
                  (lambda: fields.TypedDict(_td(True, b=int)), [{'b': 1}], [{'a': 1}, {}])],
    'expr dict': [(lambda: fields.TypeExpr(t.List[_td(True, a=int)]), [[{'a': 1}]], [[{'a': 'x'}], [{}]]),
                  (lambda: fields.TypeExpr(t.List[_td(True, a=str)]), [[{'a': 'x'}]], [[{'a': 1}]]),
                  (lambda: fields.TypeExpr(t.List[_td(False, a=int)]), [[{}]], [[{'a': 'x'}]])],
    'literal': [(lambda: fields.Literal(1, 2), [2], ['1', 3]), (lambda: fields.Literal('1', '2'), ['2', '1'], [2, 3]),
                (lambda: fields.Literal(2, 3), [2, 3], [1]), (lambda: fields.Literal(b'2'), [b'2'], ['2', 2])],
    'expr literal': [(lambda: fields.TypeExpr(t.Literal['1']), ['1'], [2, '2']), (lambda: fields.TypeExpr(t.Literal[2]), [2], ['1', '2']),
                     (lambda: fields.TypeExpr(t.List[t.Literal['1']]), [['1']], [[2], '1']), (lambda: fields.TypeExpr(t.List[t.Literal[2]]), [[2]], [['1']]),
                     (lambda: fields.TypeExpr(t.Union[t.Literal[2], str]), [2, 'x'], [3])],
    'class': [(lambda: fields.TypeExpr(_S1), [_S1(), _S3()], [_S2()]), (lambda: fields.TypeExpr(_S2), [_S2()], [_S1(), _S3()]),
              (lambda: fields.TypeExpr(_S3), [_S3()], [_S1(), _S2()]), (lambda: fields.TypeExpr(t.Union[_S1, int]), [_S1(), 1], [_S2()]),
              (lambda: fields.TypeExpr(t.Union[_S2, int]), [_S2(), 1], [_S1()])],
    'container': [(lambda: fields.List(int), [[1]], [['a']]), (lambda: fields.List(str), [['a']], [[1]]), (lambda: fields.List(_S1), [[_S1()]], [[_S2()]]),
                  (lambda: fields.List(_S2), [[_S2()]], [[_S1()]]), (lambda: fields.Dict(str, _S1), [{'k': _S1()}], [{'k': _S2()}]),
                  (lambda: fields.Dict(str, _S2), [{'k': _S2()}], [{'k': _S1()}]), (lambda: fields.Set(int), [{1}], [{'a'}]), (lambda: fields.Set(str), [{'a'}], [{1}])],
    'tuple': [(lambda: fields.TypeExpr(t.Tuple[int]), [(1,)], [(1, 2), ()]), (lambda: fields.TypeExpr(t.Tuple[int, ...]), [(1,), (1, 2), ()], [('a',)]),
              (lambda: fields.TypeExpr(t.Tuple[int, int]), [(1, 2)], [(1,), ()]), (lambda: fields.TypeExpr(t.Tuple[_S1]), [(_S1(),)], [(_S2(),)]),
              (lambda: fields.TypeExpr(t.Tuple[_S2]), [(_S2(),)], [(_S1(),)])],
    'regex': [(lambda: fields.String(validators=[validate.Regex('ab')]), ['ab'], ['AB', 'xab']),
              (lambda: fields.String(validators=[validate.Regex('ab', re.I)]), ['ab', 'AB'], ['xab']),
              (lambda: fields.String(validators=[validate.Regex('ab', search=True)]), ['xab'], ['AB']),
              (lambda: fields.String(validators=[validate.Regex('ab', re.I, search=True)]), ['xAB'], ['ba'])],
    'range': [(lambda: fields.Integer(validators=[validate.Range(1, 5)]), [1, 3], [0, 7]), (lambda: fields.Integer(validators=[validate.Range(1, 9)]), [1, 7], [0, 10]),
              (lambda: fields.Integer(validators=[validate.Range(5)]), [0, 3], [7]), (lambda: fields.Integer(validators=[validate.Range.from_standard(range(1, 9, 2))]), [3, 7], [4])],
    'range bounds': [(lambda: fields.Integer(validators=[validate.Range(0, 8)]), [0, 3, 8], [9, -1]), (lambda: fields.Integer(validators=[validate.Range(8)]), [0, 3, 8], [9, -1]),
                     (lambda: fields.Integer(validators=[validate.Range.from_standard(range(0, 9))]), [0, 3, 8], [9]), (lambda: fields.Integer(validators=[validate.Range.from_standard(range(0, 9, 2))]), [0, 8], [3, 9]),
                     (lambda: fields.Integer(validators=[validate.Range.from_standard(range(0, 9, 3))]), [0, 3], [8, 9]), (lambda: fields.Integer(validators=[validate.Range.from_standard(range(0, 8))]), [0, 3], [8]),
                     (lambda: fields.Integer(validators=[validate.Range.from_standard(range(8, -1, -4))]), [0, 8, 4], [3, 9]), (lambda: fields.Integer(validators=[validate.Range(0, 7)]), [0, 3], [8])],
    'length': [(lambda: fields.String(validators=[validate.Length(min=2)]), ['ab', 'abc'], ['a']), (lambda: fields.String(validators=[validate.Length(max=2)]), ['', 'ab'], ['abc']),
               (lambda: fields.String(validators=[validate.Length(exact=2)]), ['ab'], ['a', 'abc']), (lambda: fields.String(validators=[validate.Length(min=2, max=2)]), ['ab'], ['a', 'abc']),
               (lambda: fields.String(validators=[validate.Length(min=1, max=2)]), ['a', 'ab'], ['', 'abc']), (lambda: fields.List(t.Any, validators=[validate.Length(exact=2)]), [[1, 2]], [[], 'ab'])],
    'exclude': [(lambda: fields.Any(validators=[validate.Exclude(1)]), [2, '1', 'x'], [1]), (lambda: fields.Any(validators=[validate.Exclude('1')]), [1], ['1']), (lambda: fields.Any(validators=[validate.Exclude('1', 2)]), [1], ['1', 2]),
                (lambda: fields.Any(validators=[validate.Exclude(('1', 2))]), ['1', 2], [('1', 2)]), (lambda: fields.Any(validators=[validate.Exclude(None, [])]), [1, {}], [[]]), (lambda: fields.Any(validators=[validate.Exclude([])]), [1, ()], [[]])],
    'regex forms': [(lambda: fields.String(validators=[validate.Regex('ab')]), ['ab', 'abc'], ['xab']), (lambda: fields.String(validators=[validate.Regex(re.compile('ab', re.I))]), ['AB'], ['xab']),
                    (lambda: fields.String(validators=[validate.Regex('ab', full_match=True)]), ['ab'], ['abc', 'xab']), (lambda: fields.String(validators=[validate.Regex('ab', search=True)]), ['xabc'], ['AB']),
                    (lambda: fields.String(validators=[validate.Regex('ab', re.I, full_match=True)]), ['AB'], ['ABC']), (lambda: fields.String(validators=[validate.Regex('a b', re.X)]), ['abc'], ['a b'])],
    'or': [(lambda: fields.Integer(validators=[validate.Or(validate.Range(1), validate.Range(8, 9))]), [0, 1, 9], [4]), (lambda: fields.Integer(validators=[validate.Or(validate.Range(1), validate.Exclude(4))]), [0, 1, 9], [4]),
           (lambda: fields.Integer(validators=[validate.Or(validate.Range(4), validate.Range(8, 9))]), [0, 4, 9], [6]), (lambda: fields.Integer(validators=[validate.Or(_fn(1), _fn(4))]), [1, 4], [5]), (lambda: fields.Integer(validators=[validate.Or(_fn(1))]), [1], [4])],
    'function': [(lambda: fields.Integer(validators=[_fn(1)]), [1], [2, 6]), (lambda: fields.Integer(validators=[_fn(5)]), [1, 2], [6]),
                 (lambda: fields.Integer(validators=[_val(1)]), [1], [2, 6]), (lambda: fields.Integer(validators=[_val(5)]), [1, 2], [6]),
                 (lambda: fields.Integer(validators=[_val(5), _val(1)]), [1], [2, 6]), (lambda: fields.Integer(validators=[_val(1), _val(5)]), [1], [2, 6])],
    'field class': [(lambda: _subint(1), [1], [2, 'x']), (lambda: _subint(5), [2], [6])],
    'nested': [(lambda: fields.Object(_nest('int')), [{'n': 1}], [{'n': 'x'}]), (lambda: fields.Object(_nest('str')), [{'n': 'x'}], [{'n': 1}]),
               (lambda: fields.Object(_nest('bool')), [{'n': True}], [{'n': 'q'}, {'n': 1.5}]),
               (lambda: fields.Object(_nest('int'), init_kwargs=dict(ignore_extra=True)), [{'n': 1, 'q': 2}], [{'n': 'x'}])],
    'union': [(lambda: fields.Union(int, str), [1, 'x'], [1.5, None, [1]]), (lambda: fields.Union(int, float), [1, 1.5], ['x']),
              (lambda: fields.Union(_S1, int), [_S1(), 1], [_S2()]), (lambda: fields.Union(_S2, int), [_S2(), 1], [_S1()]),
              (lambda: fields.TypeExpr(t.Optional[_S1]), [_S1()], [_S2()]), (lambda: fields.TypeExpr(t.Optional[_S2]), [_S2()], [_S1()])],
    'options': [(lambda: fields.Integer(), [1], ['1', None]), (lambda: fields.Integer(strict=False), [1, '1'], [None, 'x']), (lambda: fields.Integer(none=True), [1, None], ['1']),
                (lambda: fields.Boolean(), [True], ['yes', 1]), (lambda: fields.Boolean(strict=False), [True, 'yes'], ['q']),
                (lambda: fields.Boolean(strict=False, true_values=['q'], false_values=['r']), ['q', 'r'], ['yes'])],
}


def lookalikes(ch):
    """Declarations that look alike (same names, texts, even ==) do not influence each other, in either order."""
    group = ch.pick(sorted(LOOKALIKE), 'group')
    decls = LOOKALIKE[group]
    i, j = ch.choose(len(decls), 'first'), ch.choose(len(decls), 'second')
    where = ch.pick(['two schemas', 'same name', 'one schema', 'parent'], 'where')
    fi, fj = decls[i][0](), decls[j][0]()
    if where == 'one schema':
        A = B = mk('S', f=fi, g=fj, opt=fields.Any(required=False))
        names = ('f', 'g')
    elif where == 'parent':
        A = mk('S', f=fi)
        B = mk('S', dict(f=fj), (A,))
        names = ('f', 'f')
    else:
        A, B = mk('S', f=fi), mk('S' if where == 'same name' else 'T', f=fj)
        names = ('f', 'f')
    for rnd in range(2):
        for cls, name, (_, good, bad) in ((A, names[0], decls[i]), (B, names[1], decls[j]), (A, names[0], decls[i])):
            for v, ok in [(v, True) for v in good] + [(v, False) for v in bad]:
                if cls is B and A is B:
                    data = {'f': decls[i][1][0], 'g': decls[j][1][0]}
                    data[name] = v
                else:
                    data = {name: v}
                out = attempt(cls, data)
                ch.op('construct', group, i, j, name, v, out)
                ch.check(out.ok == ok, 'a declaration is influenced by one that looks alike', group, i, j, where, name, v, out)
    ch.state(group, i, j, where)


# ------------------------------------------------------------------ what was accepted before decides nothing

from mc import types_model as tm

_I, _S, _N = ('cls', int), ('cls', str), ('none',)
_LI, _LS, _DI = ('list', _I), ('list', _S), ('dict', _S, _I)
TYPES_H = [
    ('union', _I, _LS, _N), ('union', _LI, _DI, _S), ('union', _LI, ('tup', _I, _S), ('set', _I)), ('union', _LI, _LS), ('list', ('union', _I, _LS, _N)),
    ('dict', _S, ('union', _LI, _S, ('vtup', _I))), ('map', _S, _I), ('seq', _I), ('vtup', ('union', _I, _S)), ('tup', _I, _LI), ('set', ('union', _I, _S)),
    ('td',), ('list', ('td',)), ('union', ('td',), _I, _LS), ('lit', (1, 'a')), ('list', ('lit', (1, 'a'))), ('union', ('lit', (1, 'a')), _LI, _N), ('cls', tm.K),
    ('union', ('cls', tm.K), _LI, _S), ('list', _LI), ('dict', _I, _DI),
]
VALUES_H = [1, 'a', None, True, 2.5, [], [1], ['a'], [1, 'a'], [[1]], [['a']], [None], {}, {'a': 1}, {'a': 'b'}, {1: {'a': 1}}, {1: {'a': 'b'}}, {'k': [1]}, {'k': ['a']}, {'k': (1,)},
            {'k': ('a',)}, (), (1,), ('a',), (1, 'a'), ('a', 1), (1, [1]), (1, ['a']), set(), {1}, {'a'}, {1, 'a'}, {'name': 'n'}, {'name': 1}, {'name': 'n', 'year': 1},
            {'name': 'n', 'year': 'y'}, [{'name': 'n'}], [{'name': 1}], tm.K0, tm.KS]


def type_history(depth, values):
    def scenario(ch):
        """A value is judged by its type expression alone, whatever values were judged before."""
        a = ch.pick(TYPES_H, 'type')
        # every value that shares a first step with another: the candidates are those whose membership is settled
        vals = [v for v in values if tm.member(v, a) is not tm.UNK]
        good, bad = [v for v in vals if tm.member(v, a)], [v for v in vals if not tm.member(v, a)]
        kind = ch.pick(['expr', 'field', 'other schema'], 'declared')
        tp = tm.build(a, False)
        seq = [ch.pick(good, 'first')] + [ch.pick(vals, f'value{i}') for i in range(1, depth)]

        def field():
            if kind == 'field' and a[0] == 'union': return fields.Union(*[tm.build(x, False) for x in a[1:]], none=True)
            if kind == 'field' and a[0] == 'list': return fields.List(tm.build(a[1], False), none=True)
            if kind == 'field' and a[0] == 'dict': return fields.Dict(tm.build(a[1], False), tm.build(a[2], False), none=True)
            if kind == 'field' and a[0] == 'set': return fields.Set(tm.build(a[1], False), none=True)
            if kind == 'field' and a[0] == 'td': return fields.TypedDict(tp, none=True)
            if kind == 'field' and a[0] == 'lit': return fields.Literal(*a[1], none=True)
            return fields.TypeExpr(tp, none=True)
        A = mk('A', f=field())
        B = mk('B', f=field()) if kind == 'other schema' else A
        inst = None
        for k, v in enumerate(seq):
            want = v is None or tm.member(v, a)
            if k == 0 or kind != 'expr':
                out = attempt((A, B)[k % 2], {'f': v})
                inst = out.value if inst is None and out.ok else inst
            else:
                out = attempt(inst.update, {'f': v}) if k % 2 else attempt(setattr, inst, 'f', v)
            ch.op('judge', kind, a, v, out)
            ch.check(out.ok == want, 'a value is judged by what came before it', kind, a, seq[:k + 1], out)
        ch.state(kind, a, *map(repr, seq))
    return scenario


class NF(fields.Field):
    """Fails in its own ways."""
    def value_load(self, value, context):
        if value == 've': raise ValueError('ve')
        if value == 'fe': raise FieldError(['one', 'two'], state=[value])
        return super_int(value)
    def value_dump(self, value, context):
        if value == 13: raise ValueError('thirteen')
        return value


def super_int(v):
    if type(v) is not int: raise AssertionError('no integer')
    return v


def retained(depth):
    def scenario(ch):
        """Errors raised earlier, and what they refer to, stay as they were; equal failures of other instances are reported anew."""
        def ve(schema, value, ctx):
            if value == 5: raise ValueError('five')
            if value == 6: raise ValueError
        kw = dict(extras={'title': 'T'}, required=False)
        In = mk('In', x=fields.Integer(validators=[ve], **kw))
        A = mk('A', i=fields.Integer(validators=[ve], **kw), s=fields.String(extras={'a': 1}), l=fields.Literal(1, 2, **kw), o=fields.Object(In, **kw), c=NF(none=True, **kw), t=fields.TypeExpr(t.Dict[str, int], **kw))
        B = mk('B', dict(i=fields.Integer(load_key='I', **kw)), (A,))
        bad = [{'i': 5, 's': 0}, {'i': 6, 's': None}, {'l': 'z', 'c': 'fe'}, {'o': {'x': 'q'}, 'i': 'q', 's': ''}, {'o': 5, 't': {1: 'a'}, 'zz': 1, 's': ''}, {'o': {'x': 5}, 'c': 've', 's': ''}]
        ok = {'s': '', 'c': 13}
        calls = [(cls, how, k) for cls in (A, B) for how in ('construct', 'update', 'assign', 'dump') for k in range(len(bad)) if not (how == 'dump' and k) and not (how == 'assign' and k > 2)]

        def describe(err, inst):
            out = []
            for e in err.errors:
                out.append((e.key, strmsg(e.message), repr(e.state), e.field and (e.field.name, id(e.field)), e.schema is inst, repr(getattr(e.context, 'value', None)), type(e.context).__name__,
                            getattr(e.context, 'schema', None) is inst if e.context is not None else None, id(e.context) if e.context else None))
            return out, sraw(err.raw()), err.schema is inst
        kept, ids = [], {}
        for step in range(depth):
            cls, how, k = calls[ch.choose(len(calls), f'call{step}')]
            inst = None if how == 'construct' else cls(ok)
            if how == 'construct': o = attempt(cls, bad[k])
            elif how == 'update': o = attempt(inst.update, bad[k])
            elif how == 'dump': o = attempt(inst.dump)
            else: o = attempt(setattr, inst, *[('i', 5), ('i', 6), ('c', 'fe')][k])
            ch.op(cls.__name__, how, k, o)
            if o.ok:
                continue
            ch.check(isinstance(o.exc, ValidationError), 'another exception', o)
            inst = inst or o.exc.schema
            d = describe(o.exc, inst)
            ch.check(d[2] and all(x[4] for x in d[0]), 'an error names another instance', cls, how, k, d)
            ch.check(all(x[7] in (True, None) for x in d[0]), 'the context of an error names another instance', cls, how, k, d)
            for e in o.exc.errors:
                ch.check(id(e) not in ids, 'an error object of an earlier operation is reported again', cls, how, k, e)
            for e in o.exc.errors: ids[id(e)] = e
            kept.append((o.exc, inst, d, (cls, how, k)))
            for err, i, d0, w in kept:
                ch.check(describe(err, i) == d0, 'an earlier error changed', w, 'after', cls, how, k, d0, describe(err, i))
        ch.state(tuple(w for *_, w in kept))
    return scenario


def repeated(ch):
    """The same operation repeated many times has the same outcome each time."""
    cname = ch.pick(CLS, 'class')
    i = ch.choose(len(DATA[cname]), 'data')
    w = World()
    first = None
    keep = []
    for k in range(25):
        o = attempt(w.classes[cname], DATA[cname][i])
        ch.op('construct', cname, i)
        ch.same(result(o), ref(cname, i), f'repetition {k} differs')
        if o.ok:
            keep.append(o.value)
            attempt(o.value.update, UPD[cname][k % len(UPD[cname])])
            o.value.dump()
    ch.state(cname, i)


def scratch(depth):
    def scenario(ch):
        """What callbacks store in the contexts they are given is seen by the other callbacks of that load or dump, and never by later ones."""
        seen = []
        tag = [0]

        def touch(where, d, keys=('mark',)):
            seen.append((where, {k: v for k, v in d.items() if k in ('mark',)}, tag[0]))
            for k in keys: d[k] = (tag[0], where)

        class F(fields.Integer):
            def value_load(self, value, ctx):
                touch('load ' + self.name, ctx.state); return super().value_load(value, ctx)
            def value_dump(self, value, ctx):
                touch('dump ' + self.name, ctx.state); ctx.included_fields.add('zz' + self.name) if 0 else None
                return super().value_dump(value, ctx)
            def format_error(self, code, ctx):
                touch('format ' + self.name, ctx.metadata); return None

        class L(fields.List):
            def format_error(self, code, ctx):
                touch('format ' + self.name, ctx.metadata); return super().format_error(code, ctx)

        def v(schema, value, ctx):
            touch('validate ' + ctx.field.name, ctx.state)
            if value == 13: raise ValueError('thirteen')
        ext = {'title': 'T'}
        A = mk('A', a=F(validators=[v]), b=F(required=False, validators=[v], extras=ext), l=L(int, required=False))
        A.a.add_validator(lambda s, x, c: touch('raw ' + c.field.name, c.state), raw=True)
        B = mk('B', dict(n=fields.Object(A, required=False)), (A,))
        ops = ['A 1', 'A bad', 'B nested', 'A missing', 'update', 'update bad', 'assign', 'assign bad', 'dump', 'copy', 'list']
        x = None
        hist = []
        for step in range(depth):
            op = ch.pick(ops, f'op{step}')
            tag[0] += 1
            if op == 'A 1': o = attempt(A, {'a': 1, 'b': 2}); x = o.value
            elif op == 'A bad': o = attempt(A, {'a': 'q', 'b': 13, 'l': ['x']})
            elif op == 'B nested': o = attempt(B, {'a': 1, 'n': {'a': 2, 'b': 13}})
            elif op == 'A missing': o = attempt(A, {'b': None})
            elif op == 'list': o = attempt(A, {'a': 1, 'l': 5})
            else:
                if x is None: x = A({'a': 5, 'b': 6})
                tag[0] += 1
                if op == 'update': o = attempt(x.update, {'a': 3, 'b': 4})
                elif op == 'update bad': o = attempt(x.update, {'a': 13, 'b': 'q', 'l': [None]})
                elif op == 'assign': o = attempt(setattr, x, 'a', 7)
                elif op == 'assign bad': o = attempt(setattr, x, 'b', 13)
                elif op == 'dump': o = attempt(x.dump)
                else:
                    o = attempt(x.copy); x = o.value or x
            ch.op(op, o)
            for where, d, tg in seen:
                kind, _, name = where.partition(' ')
                if not d: continue
                t0, w0 = d['mark']
                k0, _, n0 = w0.partition(' ')
                ch.check(t0 == tg, 'a context holds something from an earlier operation', where, d, tg, op)
                ch.check(n0 == name and kind in ('load', 'validate', 'raw') and k0 in ('load', 'validate', 'raw'), 'a context holds something of another field or kind', where, d, op)
            for where in ('load', 'dump', 'format'):
                ch.check(not [1 for w, d, _ in seen if w.startswith(where) and d and where != 'load'], 'the context is not new', where, op)
            ch.check(ext == {'title': 'T'} and A.b.extras is ext and A.a.extras == {} and A.l.extras == {} and B.a.extras == {}, 'the extras of a field changed', op, A.a.extras, A.b.extras)
            del seen[:]
            hist.append(op)
        ch.state(tuple(hist))
    return scenario


def arguments(depth):
    def scenario(ch):
        """Constructions and updates with arguments - states, extra keys, nested keyword arguments - leave nothing for later ones."""
        def world():
            In = mk('In', x=fields.Integer(), y=fields.Any(default=lambda c, f: repr(c.state)))
            Mid = mk('Mid', i=fields.Object(In, init_kwargs={'ignore_extra': True}), j=fields.Object(In, required=False, init_kwargs={'state': 'fixed'}), k=fields.Object(In, required=False))
            Top = mk('Top', m=fields.Object(Mid, required=False, init_kwargs={}), i=fields.Object(In, required=False), d=fields.Any(default=lambda c, f: repr(c.state)))
            return dict(In=In, Mid=Mid, Top=Top)
        good = {'In': {'x': 1, 'q': 0}, 'Mid': {'i': {'x': 1, 'q': 0}, 'j': {'x': 2}, 'k': {'x': 3}}, 'Top': {'m': {'i': {'x': 1, 'q': 0}}, 'i': {'x': 2}}}
        bad = {'In': {'x': 'b'}, 'Mid': {'i': {'x': 'b', 'q': 0}, 'k': {'x': 3, 'q': 0}, 'z': 0}, 'Top': {'m': {'i': {'q': 1}}, 'z': 0}}
        ARGS = [{}, {'state': 's'}, {'state': {'k': 1}, 'ignore_extra': True}, {'ignore_extra': True}, {'ignore_extra': False}]
        calls = [(c, g, a, how) for c in ('In', 'Mid', 'Top') for g in (0, 1) for a in range(len(ARGS)) for how in (['construct', 'update'] if 'state' not in ARGS[a] else ['construct'])]

        def describe(out):
            def states(x):
                return [type(x).__name__, repr(x.context.state), [(n, states(v) if isinstance(v, Schema) else repr(v)) for n in sorted(all_field_names(type(x))) for v in [x.get_value_for(n, UNSET)]]]
            if out.ok: return result(out), states(out.value)
            return result(out), None

        def run(w, call):
            c, g, a, how = call
            data = (bad if g else good)[c]
            if how == 'construct': return describe(attempt(w[c], data, **ARGS[a]))
            x = w[c](good[c], ignore_extra=True)
            o = attempt(x.update, data, **ARGS[a])
            return describe(Out(x) if o.ok else o), describe(Out(x))
        w = world()
        hist = []
        for i in range(depth):
            call = calls[ch.choose(len(calls), f'call{i}')]
            hist.append(call)
            got = run(w, call)
            if call not in ARGREF: ARGREF[call] = contextvars.Context().run(run, world(), call)
            ch.op(call)
            ch.check(got == ARGREF[call], 'the outcome depends on earlier operations', hist, got, ARGREF[call])
        ch.state(tuple(hist))
    return scenario


ARGREF = {}


@also('isolation', 'histories')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='two', fn=history(2, 2, False, True)),
        dict(name='three', fn=history(3, 2, True, False)),
        dict(name='shared_validators', fn=shared_validators),
        dict(name='factories', fn=factories),
        dict(name='lookalikes', fn=lookalikes),
        dict(name='repeated', fn=repeated),
        dict(name='retained', fn=retained(3 if th else 2)),
        dict(name='arguments', fn=arguments(3 if th else 2)),
        dict(name='scratch', fn=scratch(3 if th else 2)),
        dict(name='types', fn=type_history(2, VALUES_H)),
    ] + ([dict(name='types three', fn=type_history(3, VALUES_H)), dict(name='three_all', fn=history(3, 3, False, True))] if th else [])
