"""C26 Error customisation is honoured everywhere."""
import itertools, json
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['format_error returns a string, a FieldError or None', 'exception classes are changed between operations, not during one'])

F = fields


class NoText:
    def __str__(self):
        raise RuntimeError('no text')
    def __repr__(self):
        return 'NoText()'


class Inner(Schema):
    a = fields.Integer()


class Movie2(te.TypedDict):
    name: str


NT = NoText()
# (name, class, args, kwargs, bad value, name of the error code, type expression whose errors are the details, good value)
FAILURES = [
    ('string', F.String, (), {}, 5, 'ERR_INVALID_DATATYPE', None, 'x'),
    ('string text', F.String, (), dict(strict=False), NT, 'ERR_COERCION_FAILED', None, 'x'),
    ('integer', F.Integer, (), {}, '5', 'ERR_INVALID_DATATYPE', None, 5),
    ('integer falsy', F.Integer, (), {}, '', 'ERR_INVALID_DATATYPE', None, 5),
    ('integer coercion', F.Integer, (), dict(strict=False), 'five', 'ERR_COERCION_FAILED', None, 5),
    ('integer coercion type', F.Integer, (), dict(strict=False), [1], 'ERR_COERCION_FAILED', None, 5),
    ('float', F.Float, (), {}, 1, 'ERR_INVALID_DATATYPE', None, 1.5),
    ('float falsy', F.Float, (), {}, 0, 'ERR_INVALID_DATATYPE', None, 1.5),
    ('float coercion', F.Float, (), dict(strict=False), 'x', 'ERR_COERCION_FAILED', None, 1.5),
    ('float coercion type', F.Float, (), dict(strict=False), {}, 'ERR_COERCION_FAILED', None, 1.5),
    ('boolean', F.Boolean, (), {}, 1, 'ERR_INVALID_DATATYPE', None, True),
    ('boolean falsy', F.Boolean, (), {}, 0, 'ERR_INVALID_DATATYPE', None, True),
    ('boolean coercion', F.Boolean, (), dict(strict=False), 'maybe', 'ERR_COERCION_FAILED', None, True),
    ('boolean coercion type', F.Boolean, (), dict(strict=False), [2], 'ERR_COERCION_FAILED', None, True),
    ('boolean text', F.Boolean, (), dict(strict=False), NT, 'ERR_COERCION_FAILED', None, True),
    ('literal', F.Literal, ('a', 1), {}, 'b', 'ERR_INVALID_VALUE', te.Literal['a', 1], 'a'),
    ('literal one', F.Literal, ('a',), {}, 0, 'ERR_INVALID_VALUE', te.Literal['a'], 'a'),
    ('union', F.Union, (int, str), {}, 1.5, 'ERR_INVALID_VALUE', t.Union[int, str], 1),
    ('expr', F.TypeExpr, (t.List[int],), {}, ['a', 1, 'b'], 'ERR_TYPE_VALIDATION_FAILED', t.List[int], [1]),
    ('expr class', F.TypeExpr, (int,), {}, 'a', 'ERR_TYPE_VALIDATION_FAILED', int, 1),
    ('dict', F.Dict, (), {}, [], 'ERR_INVALID_DATATYPE', None, {}),
    ('dict types', F.Dict, (str, int), {}, {1: 1, 'a': 'b'}, 'ERR_TYPE_VALIDATION_FAILED', t.Dict[str, int], {}),
    ('typed dict', F.TypedDict, (Movie2,), {}, 0, 'ERR_INVALID_DATATYPE', None, {'name': 'x'}),
    ('typed dict types', F.TypedDict, (Movie2,), {}, {'name': 1, 'z': 0}, 'ERR_TYPE_VALIDATION_FAILED', Movie2, {'name': 'x'}),
    ('list', F.List, (), {}, (), 'ERR_INVALID_DATATYPE', None, []),
    ('list of', F.List, (int,), {}, {}, 'ERR_INVALID_DATATYPE', None, []),
    ('list types', F.List, (int,), {}, ['x', 'y'], 'ERR_TYPE_VALIDATION_FAILED', t.List[int], []),
    ('set', F.Set, (), {}, [], 'ERR_INVALID_DATATYPE', None, set()),
    ('set types', F.Set, (int,), {}, {'x'}, 'ERR_TYPE_VALIDATION_FAILED', t.Set[int], set()),
    ('object', F.Object, (Inner,), {}, 5, 'ERR_INVALID_DATATYPE', None, {'a': 1}),
    ('object falsy', F.Object, (Inner,), {}, [], 'ERR_INVALID_DATATYPE', None, {'a': 1}),
    ('typed dict empty', F.TypedDict, (Movie2,), {}, {}, 'ERR_TYPE_VALIDATION_FAILED', Movie2, {'name': 'x'}),
    ('expr empty', F.TypeExpr, (t.Tuple[int],), {}, (), 'ERR_TYPE_VALIDATION_FAILED', t.Tuple[int], (1,)),
] + [(f'{_n} given {_v!r}', _c, (), {}, _v, 'ERR_INVALID_DATATYPE', None, _g) for _n, _c, _g in (('string', F.String, 'x'), ('integer', F.Integer, 5), ('boolean', F.Boolean, True), ('dict', F.Dict, {}), ('list', F.List, []))
     for _v in (set(), frozenset(), b'', 0.0, '', (), {}, [], range(0), NotImplemented, ...) if type(_v) is not type(_g)]
for _k in {f[1]: f for f in FAILURES}.values():     # None and absence, for every kind of field
    FAILURES.append((_k[0] + ' none', _k[1], _k[2], _k[3], None, 'ERR_NONE_DISALLOWED', None, _k[7]))
    FAILURES.append((_k[0] + ' missing', _k[1], _k[2], _k[3], UNSET, 'ERR_FIELD_REQUIRED', None, _k[7]))


class ErrSub(FieldError):
    __bool__ = lambda self: False


class TextSub(str):
    pass


# what a formatter may answer beside the common answers: name -> (answer, messages reported)
ODD = {
    'error of ' + n: (lambda m=m, s=s: FieldError(m, state=s), w) for n, m, s, w in [
        ('nothing', {}, 5, [{}]), ('empty text', '', 0, ['']), ('None', None, None, ['None']), ('zero', 0, '', ['0']), ('false', False, [], ['False']), ('mapping', {'k': 1}, 'st', [{'k': '1'}]), ('tuple', ('a', 'a'), 0, ['a', 'a']), ('one', ['x'], False, ['x']), ('falsy list', [0, ''], 0, ['0', ''])]
}
ODD['text subclass'] = (lambda: TextSub('own'), ['own'])
ODD['space'] = (lambda: ' ', [' '])
ODD['braces'] = (lambda: '{value} %s', ['{value} %s'])
ANSWERS = ['text', 'empty text', 'error', 'error subclass', 'error list', 'error object', 'none', 'default', 'super', 'only other'] + list(ODD)


def formatter(base, answer, log, code=None):
    """A subclass of the field class with its own formatter."""
    class Fmt(base):
        def format_error(self, error_code, ctx, /):
            entry = dict(code=error_code, ctx=ctx, self=self)
            log.append(entry)
            if answer == 'text': r = 'custom text'
            elif answer == 'empty text': r = ''
            elif answer == 'error': r = FieldError('custom error', state='S')
            elif answer == 'error subclass': r = ErrSub('custom error', state='S')
            elif answer == 'error list': r = FieldError(['one', 'two'], state='S')
            elif answer == 'error object': r = FieldError(7)
            elif answer in ODD: r = ODD[answer][0]()
            elif answer in ('none', 'only other'): r = None
            else: r = super().format_error(error_code, ctx)
            entry['answer'] = r
            entry['metadata'] = dict(ctx.metadata)
            entry['stored'] = answer in ('text', 'none', 'only other', 'error list')
            if entry['stored']: ctx.metadata.update(scratch=self)
            return r
    if answer == 'super':
        class Fmt2(Fmt):
            def format_error(self, error_code, ctx, /):
                return super().format_error(error_code, ctx)
        return Fmt2
    return Fmt


def do(cls, key, attr, op, value, good):
    """Outcome and the instance the failure happened in (None: of a construction)."""
    if op == 'construct':
        return attempt(cls, {} if value is UNSET else {key: value}), None
    if op == 'construct mixed':
        return attempt(cls, {'other': 1, **({} if value is UNSET else {key: value})}), None
    x = cls({key: good})
    if op == 'update': return attempt(x.update, {key: value}), x
    if op == 'update twice':
        attempt(x.update, {key: value})
        return attempt(x.update, {'other': 2, key: value}), x
    return attempt(setattr, x, attr, value), x


def codes(ops):
    def scenario(ch):
        """One failure of every kind: the formatter sees it once, and its answer is what is reported."""
        name, base, args, kw, bad, code, expr, good = FAILURES[ch.choose(len(FAILURES), 'failure')]
        answer = ch.pick(ANSWERS, 'answer')
        op = ch.pick(ops, 'operation')
        keyed = ch.flag('load key')
        if bad is UNSET and not op.startswith('construct'): raise Skip
        log = []
        fld = formatter(base, answer, log)(*args, **kw, **(dict(load_key='K') if keyed else {}))
        key = 'K' if keyed else 'f'
        cls = mk('S', f=fld, other=fields.Any(required=False), __len__=lambda self: 0)
        out, x = do(cls, key, 'f', op, bad, good)
        what = (name, answer, op)
        ch.op(*what)
        n = 2 if op == 'update twice' else 1
        ch.check(len(log) == n, f'the formatter was called {len(log)} times', *what, log)
        e = log[-1]; ctx = e['ctx']
        check_context(ch, e, cls.f, getattr(cls.f, code), bad, x, out, what)
        if expr is not None:
            o = attempt(oblate.validate_types, {'root': expr}, {'root': bad})
            ch.check(isinstance(o.exc, oblate.TypeValidationError), 'reference type validation', *what)
            ch.check(set(e['metadata']) == {'type_validation_fail_errors'} and e['metadata']['type_validation_fail_errors'] == o.exc.errors['root'], 'the details of the error', *what, e['metadata'])
        else:
            ch.check(not e['metadata'], 'the details of the error', *what, e['metadata'])
        ch.check(all('scratch' not in l['metadata'] for l in log), 'what a formatter stores in a context reached a later one', *what)
        ch.check(all(l['ctx'].metadata == {**l['metadata'], **(dict(scratch=l['self']) if l['stored'] else {})} for l in log) and len({id(l['ctx'].metadata) for l in log}) == n, 'the context of an earlier error changed', *what)
        ch.check(cls.f.extras == {}, 'the extras of the field changed', *what, cls.f.extras)
        ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', *what, out)
        got = out.exc.raw()
        r = e['answer']
        plain = mk('P', f=base(*args, **kw, **(dict(load_key='K') if keyed else {})), other=fields.Any(required=False))
        pout, _ = do(plain, key, 'f', op, bad, good)
        default = pout.exc.raw()[key]
        ch.check(default and all(m.strip() for m in default), 'the default message is empty', *what, default)
        want = {'text': ['custom text'], 'empty text': [''], 'error': ['custom error'], 'error subclass': ['custom error'], 'error list': ['one', 'two'], 'error object': ['7'], **{k: v[1] for k, v in ODD.items()}}.get(answer, default)
        ch.same(got, {key: want}, f'the reported message ({what})')
        if answer in ('error', 'error subclass'):
            ch.check(out.exc.errors[0] is r and r.state == 'S', 'the returned error is not the reported one', *what)
        for er in out.exc.errors:
            ch.check(er.key == key and er.field is cls.f and er.schema is ctx.schema, 'attribution', *what)
            if isinstance(r, FieldError) and answer not in ('default', 'super'): ch.check(er.state is r.state, 'state of the returned error', *what)
        ch.state(*what, keyed)
    return scenario


def check_context(ch, e, fld, code, value, x, out, what):
    ctx = e['ctx']
    ch.check(e['code'] == code and ctx.error_code == code and type(code) is str, 'the error code', *what, e['code'], code)
    ch.check(ctx.field is fld and e['self'] is fld, 'the field of the error context', *what)
    schema = x if x is not None else out.exc.schema
    ch.check(ctx.schema is schema, 'the schema of the error context', *what)
    if value is UNSET:
        o = attempt(ctx.get_value)
        ch.check(isinstance(o.exc, ValueError), 'a missing field has a value', *what, o)
    else:
        ch.check(ctx.get_value() is value, 'the offending value', *what, attempt(ctx.get_value))


def documented(ch):
    """Codes are distinct per field, and stable."""
    name, base, args, kw, bad, code, expr, good = FAILURES[ch.choose(len(FAILURES), 'failure')]
    f = base(*args, **kw)
    cs = {n: getattr(f, n) for n in dir(f) if n.startswith('ERR_')}
    ch.check(len(set(cs.values())) == len(cs) and all(type(c) is str for c in cs.values()), 'codes of a field are not distinct', name, cs)
    ch.check({'ERR_FIELD_REQUIRED', 'ERR_NONE_DISALLOWED', 'ERR_VALIDATION_FAILED', code} <= set(cs), 'a code is missing', name, cs)
    ch.op('codes', name)
    ch.state(name)


def default_texts(ch):
    """Default messages: the failures every field shares read alike on all kinds of fields, those of its own read like none of them."""
    name, base, args, kw, bad, code, expr, good = FAILURES[ch.choose(len(FAILURES), 'failure')]
    op = ch.pick(['construct', 'update', 'assign'], 'operation')
    if bad is UNSET and op != 'construct': raise Skip

    class Plain(fields.Field):
        def value_load(self, v, ctx): return v
        def value_dump(self, v, ctx): return v
    unknown = []

    class Asks(base):
        def format_error(self, error_code, ctx, /):
            unknown.append(super().format_error('no.such.code', ctx))
            return super().format_error(error_code, ctx)

    def message(f, o, v):
        cls = mk('S', f=f)
        out, _ = do(cls, 'f', 'f', o, v, good)
        ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', name, o, out)
        return out.exc.raw()['f']

    def empty(schema, v, ctx): raise ValueError
    got = message(base(*args, **kw), op, bad)
    common = {'ERR_FIELD_REQUIRED': message(Plain(), 'construct', UNSET), 'ERR_NONE_DISALLOWED': message(Plain(), op, None),
              'ERR_VALIDATION_FAILED': message(Plain(validators=[empty]), 'construct', good)}
    ch.check(len(set(map(str, common.values()))) == 3 and all(len(m) == 1 for m in common.values()), 'the shared messages', common)
    asked = message(Asks(*args, **kw), op, bad)
    ch.check(asked == got, 'the default message differs when a formatter asks for it', name, op, asked, got)
    odd = unknown[-1]
    ch.check(isinstance(odd, str) and odd.strip() and [odd] not in common.values(), 'the message for an unknown code', name, odd)
    if code in common:
        ch.check(got == common[code], 'the default message of a shared failure', name, op, got, common[code])
    else:
        ch.check(all([m] not in common.values() and m != odd for m in got), 'the default message of a failure of its own', name, op, got)
        if code == 'ERR_COERCION_FAILED':
            strict = message(base(*args), op, bad)
            ch.check(strict != got, 'a failed conversion reads like a wrong type', name, op, got)
    # a validator without a message, for the same field
    failed = message(base(*args, **{**kw, 'validators': [empty]}), 'construct', good)
    ch.check(failed == common['ERR_VALIDATION_FAILED'], 'the default message of a failed validation', name, failed)
    ch.op('default', name, op)
    ch.state(name, op)


def many_fields(n, answers):
    def scenario(ch):
        """Several failing fields in one operation: each formatter is called once, with its own context."""
        sel = [FAILURES[i] for i in (0, 4, 15, 21, 26, 29)]
        picks = [(ch.pick([None] + sel, f'failure{i}'), ch.pick(answers, f'answer{i}')) for i in range(n)]
        if any(p is None and a != answers[0] for p, a in picks): raise Skip
        nones = ch.choose(n + 1, 'none') - 1
        op = ch.pick(['construct', 'update'], 'operation')
        logs, attrs, data, want = {}, {}, {}, {}
        for i, (p, a) in enumerate(picks):
            nm = f'f{i}'
            logs[nm] = []
            if p is None:
                attrs[nm] = formatter(fields.Any, a, logs[nm])()
                data[nm] = None if i == nones else 1
                if i == nones: want[nm] = ('field.none_disallowed', None)
            else:
                attrs[nm] = formatter(p[1], a, logs[nm])(*p[2], **p[3])
                data[nm] = None if i == nones else p[4]
                want[nm] = (getattr(attrs[nm], 'ERR_NONE_DISALLOWED' if i == nones else p[5]), data[nm])
        cls = mk('S', attrs)
        if op == 'construct':
            out, x = attempt(cls, data), None
        else:
            x = cls({nm: 1 if p is None else p[7] for nm, (p, a) in zip(attrs, picks)})
            out = attempt(x.update, data)
        ch.op(op, data)
        if not want:
            ch.check(out.ok and not any(logs.values()), 'nothing fails', out, logs)
            return
        ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', out)
        texts = {'text': ['custom text'], 'error list': ['one', 'two']}
        raw = out.exc.raw()
        ch.same(set(raw), set(want), 'the failing fields')
        for i, nm in enumerate(attrs):
            ch.check(len(logs[nm]) == (nm in want), 'number of formatter calls', nm, logs[nm])
            if nm in want:
                check_context(ch, logs[nm][0], getattr(cls, nm), want[nm][0], want[nm][1], x, out, (nm, op))
                a = picks[i][1]
                if a in texts: ch.same(raw[nm], texts[a], 'message')
                else: ch.check(raw[nm] and all(raw[nm]), 'message', raw[nm])
        ch.state(repr(picks), nones, op)
    return scenario


class BadText(ValueError):
    """A ValueError with a message of its own."""
    def __str__(self):
        return 'own text'


class NoMessage(ValueError):
    def __str__(self):
        return ''


RAISES = [
    ('ValueError text', lambda: ValueError('boom'), 'boom'), ('AssertionError text', lambda: AssertionError('boom'), 'boom'), ('ValueError', lambda: ValueError(), None), ('ValueError class', lambda: ValueError, None),
    ('AssertionError', lambda: AssertionError(), None), ('AssertionError class', lambda: AssertionError, None), ('empty text', lambda: ValueError(''), None), ('empty assertion', lambda: AssertionError(''), None),
    ('None', lambda: ValueError(None), 'None'), ('number', lambda: ValueError(0), '0'), ('two', lambda: ValueError('a', 'b'), "('a', 'b')"), ('own text', lambda: BadText(), 'own text'), ('no message', lambda: NoMessage('x'), None),
    ('json', lambda: json.JSONDecodeError('bad', 'doc', 0), 'bad: line 1 column 1 (char 0)'), ('unicode', lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'why'), "'utf-8' codec can't decode byte 0x78 in position 0: why"),
    ('space', lambda: ValueError(' '), ' '), ('braces', lambda: ValueError('{0} %s {x}'), '{0} %s {x}'), ('list', lambda: ValueError(['a', 'b']), "['a', 'b']"),
    ('FieldError', lambda: FieldError('own', state=[1]), 'own'), ('FieldError subclass', lambda: ErrSub('own', state=0), 'own'), ('FieldError empty', lambda: ErrSub('', state=1), ''), ('FieldError of None', lambda: ErrSub(None), 'None'),
]


def user_errors(ops):
    def scenario(ch):
        """ValueError and AssertionError of user code: own message, or the formatter."""
        name, kind, text = ch.pick(RAISES, 'exception')
        made = []

        def make():
            made.append(kind())
            return made[-1]
        where = ch.pick(['validator', 'raw validator', 'load', 'dump', 'class validator', 'decorated', 'raw decorated'], 'where')
        answer = ch.pick(ANSWERS, 'answer')
        op = ch.pick(ops, 'operation') if where != 'dump' else 'dump'
        keyed = ch.flag('load key')
        log, armed = [], [False]

        class Base(fields.Field):
            def value_load(self, v, ctx):
                if where == 'load' and armed[0]: raise make()
                return ['loaded', v]
            def value_dump(self, v, ctx):
                if where == 'dump': raise make()
                return v

        def vf(schema, v, ctx):
            if armed[0]: raise make()

        class VC(validate.Validator):
            def validate(self, v, ctx):
                if armed[0]: raise make()
        fld = formatter(Base, answer, log)(**(dict(load_key='K') if keyed else {}))
        attrs = dict(f=fld, other=fields.Any(required=False))
        if where == 'validator': fld.add_validator(vf)
        if where == 'raw validator': fld.add_validator(vf, raw=True)
        if where == 'class validator': fld.add_validator(VC())
        if where.endswith('decorated'): attrs['check'] = validate.field(fld, raw=where.startswith('raw'))(vf)
        cls = mk('S', attrs)
        key = 'K' if keyed else 'f'
        x = None
        if op != 'construct': x = cls({key: 'first'})
        armed[0] = True
        v = object()
        if op == 'construct': out = attempt(cls, {key: v})
        elif op == 'update': out = attempt(x.update, {key: v})
        elif op == 'assign': out = attempt(setattr, x, 'f', v)
        else:
            armed[0] = False
            v = x.f; out = attempt(x.dump)
        what = (name, where, answer, op)
        ch.op(*what)
        ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', *what, out)
        got = out.exc.raw()
        if text is not None:
            ch.check(not log, 'the formatter was called for an error with a message', *what)
            ch.same(got, {key: [text]}, f'the reported message {what}')
            if isinstance(made[0], FieldError): ch.check(len(made) == 1 and len(out.exc.errors) == 1 and type(out.exc.errors[0]) is type(made[0]) and out.exc.errors[0].state is made[0].state, 'the raised error is not the reported one', *what, out.exc.errors)
        else:
            ch.check(len(log) == 1, f'the formatter was called {len(log)} times', *what)
            e = log[0]
            ctx = e['ctx']
            ch.check(e['code'] == ctx.error_code == fld.ERR_VALIDATION_FAILED, 'the code', *what, e['code'])
            ch.check(ctx.field is cls.f and ctx.schema is (x if x is not None else out.exc.schema) and not log[-1]['metadata'], 'the context', *what)
            g = ctx.get_value()
            seen = v if where in ('raw validator', 'raw decorated', 'load', 'dump') else ['loaded', v]
            ch.check(g is v if seen is v else g == seen, 'the offending value', *what, g)
            want = {'text': ['custom text'], 'empty text': [''], 'error': ['custom error'], 'error subclass': ['custom error'], 'error list': ['one', 'two'], 'error object': ['7'], **{k: v[1] for k, v in ODD.items()}}.get(answer)
            if want is None: ch.check(len(got.get(key, ())) == 1 and got[key][0].strip(), 'the default message', *what, got)
            else: ch.same(got, {key: want}, f'the reported message {what}')
        ch.check(set(got) == {key} and all(e.field is cls.f for e in out.exc.errors), 'attribution', *what)
        ch.state(*what, keyed)
    return scenario


# ---------------------------------------------------------------- the class that is raised

class ErrA(ValidationError):
    def raw(self):
        return ['A', len(self.errors)]


class ErrB(ErrA):
    def __init__(self, errors):
        super().__init__(errors)
        self.extra = 'B'


class ErrC(ValidationError):
    pass


class Lookalike(oblate.OblateException):
    """Has everything a ValidationError has, but is not one."""
    errors = []
    schema = None
    def __init__(self, errors): super().__init__('lookalike')
    def raw(self): return {}


def failing(keyerror=False):
    """Every operation that may fail to validate; returns [(name, function)]"""
    class D(fields.Field):
        def value_load(self, v, c):
            if v == 'bad': raise ValueError('bad')
            return v
        def value_dump(self, v, c):
            if v == 'nodump': raise ValueError('nodump')
            return v
    Sub = mk('Sub', d=D(), n=fields.Integer(required=False))
    Top = mk('Top', sub=fields.Object(Sub, required=False), i=fields.Integer(required=False), d=D(required=False), fz=D(required=False, frozen=True))
    x = Top({'sub': {'d': 1}, 'i': 1, 'd': 1})
    y = Top({'d': 'nodump'})
    z = Top({'sub': {'d': 'nodump'}})
    return [
        ('construct', lambda: Top({'i': 'x'})), ('construct unknown', lambda: Top({'zz': 0})), ('construct missing', lambda: Sub({})), ('construct nested', lambda: Top({'sub': {'d': 'bad', 'q': 1}, 'i': 'x'})),
        ('construct none', lambda: Top({'i': None})), ('update', lambda: x.update({'i': 'x'})), ('update unknown', lambda: x.update({'zz': 'x'})), ('update nested', lambda: x.update({'sub': {}})), ('update of nested', lambda: x.sub.update({'d': 'bad'})),
        ('assign', lambda: setattr(x, 'i', 'x')), ('assign user', lambda: setattr(x, 'd', 'bad')), ('assign nested', lambda: setattr(x, 'sub', {'d': None})), ('dump', lambda: y.dump()), ('dump nested', lambda: z.dump()),
        ('copy', lambda: x.copy().update({'i': []})),
    ]


def conf_steps():
    """name -> function(current class) -> (new class, function) or refusing function"""
    def setc(c):
        def f(): oblate.config.validation_error_cls = c
        return f
    def repl(*a, **k):
        def f(): oblate.config = oblate.GlobalConfig(*a, **k)
        return f
    def keep():
        oblate.config = KEPT[0]
    KEPT = [None]
    def save():
        KEPT[0] = oblate.config
    return [
        ('set A', setc(ErrA), ErrA), ('set B', setc(ErrB), ErrB), ('set default', setc(ValidationError), ValidationError), ('set C', setc(ErrC), ErrC),
        ('replace A', repl(validation_error_cls=ErrA), ErrA), ('replace C', repl(validation_error_cls=ErrC, warn_unsupported_types=False), ErrC), ('replace default', repl(), ValidationError), ('replace warnings only', repl(warn_unsupported_types=False), ValidationError),
        ('set int', setc(int), None), ('set Exception', setc(Exception), None), ('set FieldError', setc(FieldError), None), ('set None', setc(None), None), ('set text', setc('ValidationError'), None), ('set lookalike', setc(Lookalike), None), ('replace lookalike', repl(validation_error_cls=Lookalike), None), ('set 5', setc(5), None),
        ('set instance', lambda: setattr(oblate.config, 'validation_error_cls', ValidationError.__new__(ValidationError)), None), ('replace object', repl(validation_error_cls=object), None), ('replace None', repl(validation_error_cls=None), None), ('replace OblateException', repl(validation_error_cls=oblate.OblateException), None),
        ('set A on class', None, None),
    ][:-1]


def details(e):
    """What an error tells, messages within messages resolved."""
    def text(m):
        if isinstance(m, FieldError): return text(m.message)
        if isinstance(m, dict): return {k: text(v) for k, v in m.items()}
        if isinstance(m, list): return [text(v) for v in m]
        return m
    return sorted(repr((x.key, x.field and x.field.name, type(x.schema).__name__, text(x.message))) for x in e.errors)


def config_histories(depth, every):
    def scenario(ch):
        """All sequences of changes of the global configuration, with every failing operation after each of them."""
        steps = conf_steps()
        ops = failing()
        old = oblate.config
        cur = ValidationError
        hist = []
        try:
            oblate.config = oblate.GlobalConfig()
            usual = {nm: details(attempt(op).exc) for nm, op in ops}
            for i in range(depth):
                name, fn, new = ch.pick(steps, f'step{i}')
                before = oblate.config
                out = attempt(fn)
                hist.append(name)
                ch.op('config', name, out)
                if new is None:
                    ch.check(isinstance(out.exc, TypeError), 'an invalid class is not refused with TypeError', hist, out)
                    ch.check(oblate.config is before, 'a refused configuration replaced the current one', hist)
                else:
                    ch.check(out.ok, 'a valid class is refused', hist, out)
                    cur = new
                ch.check(oblate.config.validation_error_cls is cur, 'the configured class', hist, oblate.config.validation_error_cls, cur)
                if every or i == depth - 1:
                    for nm, op in ops:
                        o = attempt(op)
                        ch.nops += 1
                        ch.check(type(o.exc) is cur, f'{nm} raises {type(o.exc).__name__} instead of {cur.__name__}', hist, o)
                        ch.check(o.exc.errors and all(isinstance(e, FieldError) for e in o.exc.errors), 'errors of the error', hist, nm)
                        ch.check(details(o.exc) == usual[nm], 'a custom class changes what the error tells', hist, nm, details(o.exc), usual[nm])
                        if isinstance(o.exc, ErrB): ch.check(o.exc.extra == 'B', 'initialisation of a custom class', hist)
                        if isinstance(o.exc, ErrA): ch.check(o.exc.raw() == ['A', len(o.exc.errors)], 'raw form of a custom class', hist)
                ch.state(tuple(hist))
        finally:
            oblate.config = old
    return scenario


def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='codes', fn=codes(['construct', 'construct mixed', 'update', 'assign', 'update twice'])),
        dict(name='codes of every field', fn=documented),
        dict(name='default texts', fn=default_texts),
        dict(name='several fields', fn=many_fields(3 if th else 2, ['none', 'text', 'error list', 'super'])),
        dict(name='user errors', fn=user_errors(['construct', 'update', 'assign'])),
        dict(name='configuration histories', fn=config_histories(3 if th else 2, True)),
        dict(name='longer configuration histories', fn=config_histories(4 if th else 3, False)),
    ]
