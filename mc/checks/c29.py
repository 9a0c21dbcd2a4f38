"""C29 Primitive fields: strict means same type, non-strict means conversion."""
import decimal, enum, fractions, itertools, math
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['true and false values are disjoint sequences of texts', 'conversions are deterministic'])

F = fields


class IntSub(int):
    pass


class StrSub(str):
    def __str__(self):
        return 'other text'


class FloatSub(float):
    pass


class Colour(enum.Enum):
    RED = 1


class Num(enum.IntEnum):
    ONE = 1


class Text(str, enum.Enum):
    YES = 'yes'


class HasInt:
    def __int__(self): return 41


class HasIndex:
    def __index__(self): return 42


class HasFloat:
    def __float__(self): return 4.5


class HasTrunc:
    def __trunc__(self): return 43
    def __str__(self): return 'true'


class HasBool:
    def __bool__(self): return True
    def __str__(self): return 'no'


class BoolRaises:
    def __bool__(self): raise TypeError('no truth')
    def __eq__(self, o): raise TypeError('no equality')
    __hash__ = None
    def __str__(self): return 'False'


class RaisesAll:
    def __int__(self): raise KeyError('int')
    def __float__(self): raise ZeroDivisionError('float')
    def __str__(self): raise LookupError('str')
    def __repr__(self): return 'RaisesAll()'


class RaisesField:
    """Conversions that raise the exceptions the library treats as messages."""
    def __int__(self): raise AssertionError('from int')
    def __float__(self): raise ValueError('from float')
    def __str__(self): raise ValueError('from str')
    def __repr__(self): return 'RaisesField()'


class BadResult:
    def __int__(self): return 'x'
    def __float__(self): return 'x'
    def __str__(self): return 5
    def __repr__(self): return 'BadResult()'


class IntLike:
    """Claims to be an int by __class__."""
    __class__ = int
    def __int__(self): return 77


VALS = [
    0, 1, -1, 7, 2, 10**30, -10**400, 10**400, True, False, 0.0, -0.0, 1.0, 1.5, -2.9, 1e300, math.inf, -math.inf, math.nan, 1j, '', ' ', '0', '1', '-1', '007', ' 12 ', '12\n', '1_000', '1__0', '0x10', '1.5', '1e3', '.5', '5.', 'nan', 'inf', '-Infinity', 'x', 'None', 'TRUE', 'True', 'true', 'tRUE', 'YES', 'Yes', 'yes', 'yES', 'FALSE',
    'False', 'false', 'NO', 'No', 'no', 'nO', 'on', 'off', 'true ', ' yes', 't', 'n', 'e', '٣', '½', '１２', 'é', '9' * 5000, b'12', b'1.5', b'x', b'', bytearray(b'7'), memoryview(b'8'), [], [1], ['1'], (), (1,), {}, {1: 2}, set(), frozenset(), range(3), object(), int, str, type, len,
    decimal.Decimal('3.7'), decimal.Decimal('NaN'), decimal.Decimal('1'), fractions.Fraction(7, 2), IntSub(5), IntSub(0), StrSub('ss'), StrSub('1'), FloatSub(2.5), Colour.RED, Num.ONE, Text.YES, HasInt(), HasIndex(), HasFloat(), HasTrunc(), HasBool(), BoolRaises(), RaisesAll(), RaisesField(), BadResult(), IntLike(), Ellipsis, NotImplemented,
    ValueError('1'), types.SimpleNamespace(a=1),
]
NAMES = [f'{i}:{type(v).__name__}' for i, v in enumerate(VALS)]


class TrueSub(F.Boolean):
    TRUE_VALUES = ('on', '1.5', '')
    FALSE_VALUES = ['off', 'x']


BOOL_SETS = [
    ('default', F.Boolean, {}, TRUES, FALSES), ('tuple', F.Boolean, dict(true_values=('on', '1.0'), false_values=('off', '[]')), ('on', '1.0'), ('off', '[]')), ('true only', F.Boolean, dict(true_values=['t', '7']), ('t', '7'), FALSES), ('false only', F.Boolean, dict(false_values=['n', '', '-1']), TRUES, ('n', '', '-1')),
    ('empty true', F.Boolean, dict(true_values=()), (), FALSES), ('empty false', F.Boolean, dict(false_values=[]), TRUES, ()), ('both empty', F.Boolean, dict(true_values=[], false_values=()), (), ()), ('subclass', TrueSub, {}, ('on', '1.5', ''), ('off', 'x')), ('subclass and argument', TrueSub, dict(true_values=['yes']), ('yes',), ('off', 'x')),
    ('swapped', F.Boolean, dict(true_values=FALSES, false_values=TRUES), FALSES, TRUES), ('None', F.Boolean, dict(true_values=None, false_values=None), TRUES, FALSES),
]

CONFIGS = []      # (name, make, reference, type)
for nm, base, tp in (('String', F.String, str), ('Integer', F.Integer, int), ('Float', F.Float, float)):
    CONFIGS.append((nm, base, {}, tp, True, None))
    CONFIGS.append((nm + ' strict', base, dict(strict=True), tp, True, None))
    CONFIGS.append((nm + '~', base, dict(strict=False), tp, False, None))
for nm, base, kw, tv, fv in BOOL_SETS:
    CONFIGS.append(('Boolean ' + nm, base, kw, bool, True, None))
    CONFIGS.append(('Boolean~ ' + nm, base, dict(kw, strict=False), bool, False, (tv, fv)))


def reference(tp, strict, sets, v):
    """('same', v), ('value', w) or ('bad', code name)"""
    if isinstance(v, tp): return 'same', v
    if strict: return 'bad', 'ERR_INVALID_DATATYPE'
    if tp is bool:
        try: text = str(v)
        except Exception: return 'bad', 'ERR_COERCION_FAILED'
        if text in tuple(sets[0]): return 'value', True
        if text in tuple(sets[1]): return 'value', False
        return 'bad', 'ERR_COERCION_FAILED'
    try: return 'value', tp(v)
    except Exception: return 'bad', 'ERR_COERCION_FAILED'


def same(a, b):
    return type(a) is type(b) and (a is b or a == b or (a != a and b != b)) and (not isinstance(a, float) or math.copysign(1, a) == math.copysign(1, b) or a != a)


CODES = []


def logged(base):
    class Logged(base):
        def format_error(self, code, ctx, /):
            CODES.append((code, ctx))
            return super().format_error(code, ctx)
    return Logged


LOGGED = {b: logged(b) for b in {c[1] for c in CONFIGS}}


def expect(ch, out, get, kind, w, fld, v, what, old=None):
    if kind == 'bad':
        ch.check(isinstance(out.exc, ValidationError), 'accepted, or another exception', *what, out)
        ch.check([e.key for e in out.exc.errors] == ['f'] and strmsg(out.exc.errors[0].message).strip(), 'errors', *what, out)
        ch.check([c for c, _ in CODES] == [getattr(fld, w)], 'the code', *what, [c for c, _ in CODES], getattr(fld, w))
        ch.check(CODES[0][1].get_value() is v, 'the offending value', *what)
    else:
        ch.check(out.ok, 'refused', *what, out)
        got = get()
        ch.check(got is w if kind == 'same' else same(got, w), 'the value', *what, kind, got, w)
        ch.check(not CODES, 'the formatter was called', *what)


def one(ch):
    """Every primitive field and strictness, every value, every operation."""
    name, base, kw, tp, strict, sets = CONFIGS[ch.choose(len(CONFIGS), 'field')]
    i = ch.choose(len(VALS), 'value')
    v = VALS[i]
    kind, w = reference(tp, strict, sets, v)
    how = ch.pick(['plain', 'copy', 'subclass'], 'how')
    fld = LOGGED[base](none=True, required=False, **kw)
    if how == 'copy': fld = fld.copy()
    seen = []
    fld.add_validator(lambda s, val, c: seen.append(('v', val)))
    fld.add_validator(lambda s, val, c: seen.append(('r', val)), raw=True)
    S = mk('S', f=fld)
    if how == 'subclass': S = mk('T', {'g': F.Any(required=False)}, (S,))
    for op in ('construct', 'update', 'assign'):
        what = (name, NAMES[i], how, op)
        del CODES[:], seen[:]
        x = S({'f': None})
        del seen[:]
        if op == 'construct':
            out = attempt(S, {'f': v}); x = out.value
        else: out = attempt(x.update, {'f': v}) if op == 'update' else attempt(setattr, x, 'f', v)
        ch.op(op, name, NAMES[i])
        expect(ch, out, lambda: x.f, kind, w, S.f, v, what)
        ch.check(len([s for s in seen if s[0] == 'r']) == 1 and all(s[1] is v for s in seen if s[0] == 'r'), 'the value of a raw validator', *what, seen)
        vs = [s[1] for s in seen if s[0] == 'v']
        if kind == 'bad': ch.check(not vs, 'a validator runs on a value that failed', *what)
        else:
            ch.check(len(vs) == 1 and vs[0] is x.f, 'the value of a validator', *what)
            d = x.dump()['f']
            ch.check(d is x.f, 'the dumped value', *what, d)
        if kind == 'bad' and op != 'construct': ch.check(x.f is None, 'the value changed', *what)
        ch.nops += 1
    ch.state(name, i, how)


MODS = [
    ('constant text', lambda v: '12'), ('constant number', lambda v: 12), ('constant float', lambda v: 2.0), ('constant bool', lambda v: True), ('constant bad', lambda v: [None]), ('text', lambda v: f'{type(v).__name__}'), ('wrap', lambda v: [v]), ('same', lambda v: v), ('none', lambda v: None),
    ('yes', lambda v: 'yes'), ('swap', lambda v: 'x' if isinstance(v, (int, float)) else 1), ('strip', lambda v: v.strip() if isinstance(v, str) else v), ('empty', lambda v: ''), ('negate', lambda v: -v if isinstance(v, (int, float)) else v),
]


def modified(ch):
    """A subclass passing another value on gets the result for that value."""
    name, base, kw, tp, strict, sets = CONFIGS[ch.choose(len(CONFIGS), 'field')]
    mn, mod = ch.pick(MODS, 'change')
    which = [i for i, v in enumerate(VALS) if i % 3 == 0]
    i = ch.pick(which, 'value')
    v = VALS[i]
    after = ch.flag('change the result')
    given = []

    class M(LOGGED[base]):
        def value_load(self, value, ctx):
            m = mod(value)
            given.append((value, m, ctx.value))
            r = super().value_load(m, ctx)
            return ('after', r) if after else r
    S = mk('S', f=M(required=False, **kw))
    for op in ('construct', 'update', 'assign'):
        what = (name, mn, NAMES[i], op)
        del CODES[:], given[:]
        x = S({})
        if op == 'construct':
            out = attempt(S, {'f': v}); x = out.value
        else: out = attempt(x.update, {'f': v}) if op == 'update' else attempt(setattr, x, 'f', v)
        ch.op(op, name, mn, NAMES[i])
        ch.check(len(given) == 1 and given[0][0] is v and given[0][2] is v, 'the value passed to value_load', *what)
        m = given[0][1]
        kind, w = reference(tp, strict, sets, m)
        if kind == 'bad': expect(ch, out, None, kind, w, S.f, m, what)
        else:
            ch.check(out.ok, 'refused', *what, out)
            r = x.f
            if after:
                ch.check(type(r) is tuple and r[0] == 'after', 'the value', *what); r = r[1]
            ch.check(r is w if kind == 'same' else same(r, w), 'the value', *what, r, w)
    ch.state(name, mn, i, after)


def pairs(configs, vals):
    def scenario(ch):
        """Two values after each other through one field, and through two fields of the same class: no influence."""
        name, base, kw, tp, strict, sets = configs[ch.choose(len(configs), 'field')]
        i, j = ch.pick(vals, 'first'), ch.pick(vals, 'second')
        S = mk('S', f=LOGGED[base](**kw), g=LOGGED[base](required=False))
        x = None
        attempt(S, {'f': VALS[i]})
        for op, v in (('construct', VALS[j]), ('again', VALS[i]), ('again', VALS[j])):
            del CODES[:]
            out = attempt(S, {'f': v})
            kind, w = reference(tp, strict, sets, v)
            ch.op(op, name, NAMES[i], NAMES[j])
            expect(ch, out, lambda: out.value.f, kind, w, S.f, v, (name, NAMES[i], NAMES[j], op))
        ch.state(name, i, j)
    return scenario


def settings(ch):
    """Strictness of a field is its own, whatever other fields of the schema, or other schemas, have; positional and keyword."""
    F_ = {'String': (F.String, 5, '5'), 'Integer': (F.Integer, '5', 5), 'Float': (F.Float, '5', 5.0), 'Boolean': (F.Boolean, '1', True)}
    n = ch.pick(list(F_), 'field')
    base, raw, conv = F_[n]
    forms = [('absent', {}, True), ('True', dict(strict=True), True), ('False', dict(strict=False), False)]
    fs = [ch.pick(forms, f'f{i}') for i in range(3)]
    S = mk('S', {f'f{i}': base(required=False, **kw) for i, (_, kw, _) in enumerate(fs)})
    keys = [i for i in range(3) if ch.flag(f'give{i}')]
    out = attempt(S, {f'f{i}': raw for i in keys})
    ch.op(n, fs, keys, out)
    bad = [f'f{i}' for i in keys if fs[i][2]]
    if bad: ch.check(isinstance(out.exc, ValidationError) and sorted(e.key for e in out.exc.errors) == bad, 'strict fields', n, [f[0] for f in fs], keys, out)
    else: ch.check(out.ok and all(same(getattr(out.value, f'f{i}'), conv) for i in keys), 'converted', n, out)
    if n != 'Boolean':
        P = mk('P', f=base(False), g=base(True))
        ch.check(same(P({'f': raw, 'g': conv}).f, conv) and isinstance(attempt(P, {'f': raw, 'g': raw}).exc, ValidationError), 'positional strictness', n)
    ch.state(n, repr(fs), tuple(keys))


ALPHA = ['0', '1', '9', '-', '+', '.', ',', '_', 'e', 'x', ' ', '\n', 'n', 'a', 'i', 'f', 'j', '٣', 'L', '%']


def texts(n):
    def scenario(ch):
        """Every text of up to n characters over an alphabet of digits, signs, separators, letters and blanks: converted exactly when Python converts it."""
        base, tp = ch.pick([(F.Integer, int), (F.Float, float), (F.Boolean, bool)], 'field')
        first = ch.pick([''] + ALPHA, 'first')
        op = ch.pick(['construct', 'update', 'assign'], 'operation')
        S = mk('S', f=base(strict=False, required=False))
        x = S({})
        for k in range(n if first else 1):
            for rest in itertools.product(ALPHA, repeat=k):
                v = first + ''.join(rest)
                kind, w = reference(tp, False, (TRUES, FALSES), v)
                if op == 'construct':
                    out = attempt(S, {'f': v}); x = out.value
                else: out = attempt(x.update, {'f': v}) if op == 'update' else attempt(setattr, x, 'f', v)
                ch.nops += 1
                if kind == 'bad': ch.check(isinstance(out.exc, ValidationError), 'accepted, or another exception', base.__name__, repr(v), out)
                else: ch.check(out.ok and same(x.f, w), 'the value', base.__name__, repr(v), out, w)
        ch.state(base.__name__, first, op)
    return scenario


def scenarios(tier):
    th = tier == 'thorough'
    few = [i for i in range(len(VALS)) if i % (1 if th else 3) == 0]
    return [
        dict(name='values', fn=one),
        dict(name='modified values', fn=modified),
        dict(name='pairs', fn=pairs(CONFIGS if th else [c for c in CONFIGS if '~' in c[0]], few)),
        dict(name='settings', fn=settings),
        dict(name='texts', fn=texts(4 if th else 3)),
    ]
