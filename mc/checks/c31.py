"""C31 Misuse is refused at once and has no effect."""
import itertools, re
from mc.lib import *
from mc.core import Skip
from oblate import validate, validate_types
import oblate

INFO = dict(assumptions=['fields and validators that were handed to a refused class declaration are not used again'])

ANY = Exception        # the kind of the exception is not asserted
CALLS = []
NOT_CALLABLE = [5, None, 'check', [], object(), {}]
NOT_SCHEMAS = [int, object, dict, None, 5, 'S', [], fields.Integer, SchemaConfig, type]
NOT_MAPPINGS = [None, 5, '', 'a', [], [('a', 1)], (), {1, 2}, frozenset(), object(), b'a', iter([('a', 1)]), range(2), True]
SMALL = [0, 1, 5]


class Returns(fields.Integer):
    """A field whose formatter and loading can be told what to do."""
    say = 'text'
    def format_error(self, code, ctx):
        return Returns.say


def checked(schema, value, ctx):
    CALLS.append(('v', ctx.field.name, value))
    assert value != 13, 'unlucky'


def wary(schema, value, ctx):
    CALLS.append(('r', ctx.field.name, value))
    if value == 13: raise ValueError('raw')


class World:
    def __init__(self):
        oblate.config.validation_error_cls = ValidationError
        oblate.config.warn_unsupported_types = True
        Returns.say = 'text'
        self.In = mk('In', n=fields.Integer(), m=fields.String(default='m'))
        def vb(self, value, ctx): CALLS.append(('vb', value))
        def vc(self, value, ctx):
            CALLS.append(('vc', value))
            if value == 13: raise FieldError('by name')
        self.P = mk('P', a=fields.Integer(validators=[checked]), b=fields.Integer(none=True, default=None), vb=validate.field('b')(vb))
        self.S = mk('S', {'c': Returns(required=False, load_key='see'), 'd': fields.Object(self.In, required=False, none=True), 'vc': validate.field('c', raw=True)(vc),
                          'z': fields.Float(default=1.5, frozen=True)}, (self.P,))
        self.S.a.add_validator(wary, raw=True)
        self.F = mk('F', n=fields.Integer(), Config=cfg(frozen=True))
        self.x = self.S({'a': 1, 'see': 2, 'd': {'n': 3}}, state='st')
        self.y = self.S({'a': 4})
        self.p = self.P({'a': 5, 'b': 6})
        self.q = self.F({'n': 1})
        self.free = fields.Integer(load_key='fr', default=3, validators=[checked])
        self.copy = self.S.a.copy()
        self.anyof = validate.Or(validate.Range(1, 2), validate.Length(min=2))


def look(x):
    return {n: x.get_value_for(n, 'unset') for n in ('a', 'b', 'c', 'd', 'z', 'n') if hasattr(type(x), n)}


def signature(w, changing=True):
    """What the world does (as plain data)."""
    out = []
    def add(o, f=lambda v: v):
        del CALLS[:]
        o = o()
        e = o.exc
        out.append((f(o.value) if o.ok else type(e).__name__ if not isinstance(e, ValidationError) else (type(e).__name__, sraw(e.raw()), sorted((r.key, r.field.name if r.field else None) for r in e.errors)), list(CALLS)))
    out.append([(n, getattr(K, n).schema is K, getattr(K, n).name, getattr(K, n).load_key, len(list(getattr(K, n).walk_validators())), len(list(getattr(K, n).walk_validators(raw=True)))) for K in (w.P, w.S, w.F) for n in all_field_names(K)])
    out.append([[v in (checked, wary) or getattr(v, '__name__', '?') for v in f.walk_validators()] for f in (w.P.a, w.S.a, w.S.b, w.S.c, w.free, w.copy)])
    out.append([repr(look(i)) for i in (w.x, w.y, w.p, w.q)])
    out.append([(i.context.state, i.context.is_initialized(), i.context.schema is i, i.context.config is i.__config__) for i in (w.x, w.y, w.q)])
    out.append((oblate.config.validation_error_cls, oblate.config.warn_unsupported_types))
    for K in (w.S, w.P, w.F):
        for data in ({'a': 1}, {'a': 13, 'see': 13, 'd': {'n': 'x'}, 'z': 'w'}, {'see': 'x', 'd': None, 'zz': 0}, {'n': 1}, {}):
            add(lambda: attempt(K, data), lambda v: repr(look(v)))
    for i in (w.x, w.y, w.p, w.q):
        add(lambda: attempt(i.dump))
        add(lambda: attempt(i.dump, include=['a', 'nope']))
        add(lambda: attempt(i.copy), lambda v: repr(look(v)))
    add(lambda: attempt(w.anyof.validate, 'ab', None)); add(lambda: attempt(w.anyof.validate, 3, None))
    T = attempt(mk, 'T', f=fields.Integer(default=2), g=w.S.a.copy())
    add(lambda: attempt(lambda: repr(T.value({'g': 9}).dump())))
    add(lambda: attempt(lambda: T.value({'g': 13})))
    add(lambda: attempt(validate_types, {'k': int, 'l': list}, {'k': 1, 'l': 2}), lambda v: sorted(v))
    if changing:
        for i in (w.x, w.p, w.q):
            for data in ({'a': 7}, {'a': 8, 'see': 'bad'}, {'z': 1.0}, {'see': 6, 'b': None}, {'nope': 1}):
                add(lambda: attempt(i.update, data))
                out.append(repr(look(i)))
    out.append(attempt(lambda: (w.free.load_key, mk('U', u=w.free)({'fr': 1}).dump())).value if changing else None)
    return out


def declarations(w):
    """(name, call, kind of exception)"""
    yield 'bound field in another schema', lambda: mk('T', g=fields.Integer(), f=w.S.a), RuntimeError
    yield 'bound field under another name', lambda: mk('T', {'a2': w.S.a}, (w.S,)), RuntimeError
    yield 'bound field of the parent', lambda: mk('T', {'b': w.P.b}, (w.P,)), RuntimeError
    def twice():
        f = fields.Integer()
        mk('T', f=f, g=f)
    yield 'one field for two attributes', twice, RuntimeError
    for v in NOT_SCHEMAS + [w.x, lambda: w.S]:
        yield f'Object({v!r:.30})', lambda v=v: fields.Object(v), ANY
    yield 'Union()', lambda: fields.Union(), ANY
    for v in (int, None, list, 'int'):
        yield f'Union({v!r})', lambda v=v: fields.Union(v), ANY
        yield f'Dict({v!r})', lambda v=v: fields.Dict(v), ANY
    yield 'Range()', lambda: validate.Range(), ANY
    yield 'Length()', lambda: validate.Length(), ANY
    for e in SMALL:
        for m in SMALL:
            yield f'Length(exact={e}, min={m})', lambda e=e, m=m: validate.Length(exact=e, min=m), ANY
            yield f'Length(exact={e}, max={m})', lambda e=e, m=m: validate.Length(exact=e, max=m), ANY
            yield f'Length(exact={e}, min={m}, max={m})', lambda e=e, m=m: validate.Length(exact=e, min=m, max=m), ANY
    for pat in ('', 'a', re.compile('a')):
        yield f'Regex({pat!r}) with both modes', lambda pat=pat: validate.Regex(pat, full_match=True, search=True), ANY
    yield 'Regex with a wrong pattern', lambda: validate.Regex('('), ANY
    for v in NOT_CALLABLE:
        yield f'validators=[{v!r:.20}]', lambda v=v: fields.Integer(validators=[checked, v]), ANY
        for f, n in ((w.S.a, 'bound'), (w.free, 'unbound'), (w.P.b, 'parent')):
            for raw in (False, True):
                yield f'add_validator({v!r:.20}) {n} {raw}', lambda v=v, f=f, raw=raw: f.add_validator(v, raw=raw), ANY
                yield f'remove_validator({v!r:.20}) {n} {raw}', lambda v=v, f=f, raw=raw: f.remove_validator(v, raw=raw), ANY
    def named(target, bases, **more):
        def run():
            def good(self, value, ctx): CALLS.append('leftover')
            def bad(self, value, ctx): CALLS.append('leftover')
            mk('T', {'good': validate.field('a')(good), 'bad': validate.field(target)(bad), **more}, bases)
        return run
    for target in ('nope', '', 'see', 'dump', '__init__', 'good', 'T', 'a ', 'A'):
        yield f'validator for {target!r} in a subclass', named(target, (w.S,)), ANY
        yield f'validator for {target!r} in a new schema', named(target, (Schema,), a=fields.Integer()), ANY
    yield 'field without a name', lambda: w.free.name, ANY
    yield 'field without a schema', lambda: w.free.schema, ANY
    yield 'copy without a name', lambda: w.copy.name, ANY
    yield 'copy without a schema', lambda: w.copy.schema, ANY


class Abstract(fields.Field):
    pass


class AbstractV(validate.Validator):
    pass


def uses(w):
    for v in NOT_MAPPINGS + [w.x]:
        for K in (w.S, w.P, w.In):
            yield f'{K.__name__}({v!r:.20})', lambda v=v, K=K: K(v), TypeError
        yield f'{w.F.__name__}({v!r:.20}) ignoring', lambda v=v: w.F(v, ignore_extra=True), TypeError
        yield f'update({v!r:.20})', lambda v=v: w.x.update(v), ANY
        yield f'update({v!r:.20}) ignoring', lambda v=v: w.y.update(v, ignore_extra=True), ANY
    for v in NOT_MAPPINGS:
        yield f'preprocessed to {v!r:.20}', lambda v=v: mk('T', a=fields.Integer(), preprocess_data=lambda self, data: v)({'a': 1}), TypeError
    for a in ([], ['a'], ('nope',), ['a', 'b'], 'a', {'a'}):
        for b in ([], ['a'], ('b',)):
            for i, n in ((w.x, 'x'), (w.q, 'frozen')):
                yield f'{n}.dump(include={a!r}, exclude={b!r})', lambda a=a, b=b, i=i: i.dump(include=a, exclude=b), TypeError
    for name in ('nope', '', 'A', 'dump', 'context', 'a ', 'c.n', '__config__', 'See', 'vb'):
        for i in (w.x, w.y, w.q):
            yield f'get_value_for({name!r})', lambda name=name, i=i: i.get_value_for(name), RuntimeError
            yield f'get_value_for({name!r}, None)', lambda name=name, i=i: i.get_value_for(name, None), RuntimeError
    for v in (5, True, b'x', ['x'], FieldError, ValueError('x'), object(), {'a': 'b'}, 0.5):
        def said(fn, v=v):
            def run():
                Returns.say = v
                try: fn()
                finally: Returns.say = 'text'
            return run
        yield f'formatter returning {v!r:.20} at construction', said(lambda: w.S({'a': 1, 'see': 'x'})), TypeError
        yield f'formatter returning {v!r:.20} at update', said(lambda: w.x.update({'a': 2, 'see': 'x'})), TypeError
        yield f'formatter returning {v!r:.20} at assignment', said(lambda: setattr(w.x, 'c', 'x')), TypeError
        yield f'formatter returning {v!r:.20} for None', said(lambda: setattr(w.y, 'c', None)), TypeError
    for v in (int, Exception, FieldError, None, 'ValidationError', 5, object, oblate.OblateException):
        yield f'validation_error_cls = {v!r:.20}', lambda v=v: setattr(oblate.config, 'validation_error_cls', v), ANY
        yield f'GlobalConfig(validation_error_cls={v!r:.20})', lambda v=v: oblate.GlobalConfig(validation_error_cls=v), ANY
    for v in (0, 1, None, 'yes', '', [], 1.0):
        yield f'warn_unsupported_types = {v!r}', lambda v=v: setattr(oblate.config, 'warn_unsupported_types', v), ANY
        yield f'GlobalConfig(warn_unsupported_types={v!r})', lambda v=v: oblate.GlobalConfig(warn_unsupported_types=v), ANY
    T = mk('T', f=Abstract())
    yield 'loading by an abstract field', lambda: T({'f': 1}), ANY
    def dumped():
        class OnlyLoads(fields.Field):
            def value_load(self, value, context): return value
        mk('T', f=OnlyLoads())({'f': 1}).dump()
    yield 'dumping by an abstract field', dumped, ANY
    yield 'an abstract validator', lambda: mk('T', f=fields.Integer(validators=[AbstractV()]))({'f': 1}), ANY
    yield 'no data', lambda: w.S(), TypeError
    yield 'state by position', lambda: w.S({'a': 1}, 'state'), TypeError
    yield 'selection by position', lambda: w.x.dump(['a']), TypeError
    yield 'data by name', lambda: w.S(data={'a': 1}), TypeError


def misuses(w):
    return list(declarations(w)) + list(uses(w))


NUM = None
REF = {}


def number():
    global NUM
    if NUM is None: NUM = len(misuses(World()))
    return NUM


def reference(kind):
    if kind not in REF:
        REF[kind] = signature(World(), kind)
    return REF[kind]


def refused(ch, w, name, fn, kinds, known_value_error=True):
    o = attempt(fn)
    ch.check(o.exc is not None, 'misuse is accepted', name, o)
    ch.check(isinstance(o.exc, kinds), 'the kind of exception', name, o, kinds)
    ch.check(not isinstance(o.exc, (ValidationError, FieldError)), 'misuse is reported like invalid data', name, o)


def single(ch):
    """Every misuse, in two states of the world, twice; afterwards everything existing behaves as in a world without misuse (results, errors, calls of validators, fields, configuration)."""
    ref, ref2 = reference(False), reference(True)
    i = ch.choose(number(), 'misuse')
    times = ch.pick([1, 2, 3], 'times')
    w = World()
    for _ in range(times):
        name, fn, kinds = misuses(w)[i]
        refused(ch, w, name, fn, kinds)
    got = signature(w, False)
    ch.check(got == ref, 'misuse left something behind', name, [(a, b) for a, b in zip(got, ref) if a != b][:3])
    got = signature(w, True)
    ch.check(got == ref2, 'misuse left something behind', name, [(a, b) for a, b in zip(got, ref2) if a != b][:3])
    ch.op(name, times)
    ch.state(name, times)


def sequences(n, step):
    def scenario(ch):
        """Sequences of misuses of different kinds (a spread selection of all): the same."""
        ref2 = reference(True)
        w = World()
        names = []
        for _ in range(n):
            ms = misuses(w)[::step]
            name, fn, kinds = ms[ch.choose(len(ms), 'misuse')]
            names.append(name)
            refused(ch, w, name, fn, kinds)
        got = signature(w, True)
        ch.check(got == ref2, 'misuse left something behind', names, [(a, b) for a, b in zip(got, ref2) if a != b][:3])
        ch.op(names)
        ch.state(*names)
    return scenario


SITES = ['value_load', 'validator', 'raw validator', 'default', 'post init', 'preprocess', 'format_error', 'value_dump', 'state']
OPS = ['construct', 'construct bad', 'update', 'update bad', 'assign', 'assign bad', 'dump', 'copy']


def during(ch):
    """Every misuse, handled inside every callback of an operation on another instance: the operation and everything else behave as without the misuse."""
    i = ch.choose(number(), 'misuse')
    site = ch.pick(SITES, 'site')
    def play(i):
        w = World()
        act = [False]
        names = []
        def misuse(s):
            if s == site and act[0] and i is not None:
                act[0] = False          # once per operation
                name, fn, kinds = misuses(w)[i]
                names.append(name)
                refused(ch, w, name, fn, kinds)
        class Fld(fields.Integer):
            def value_load(self, value, context):
                misuse('value_load')
                return super().value_load(value, context)
            def value_dump(self, value, context):
                misuse('value_dump')
                return super().value_dump(value, context)
            def format_error(self, code, ctx):
                misuse('format_error')
                return f'{code}'
        def val(schema, value, ctx):
            misuse('validator')
            assert value != 13, 'unlucky'
        def raw(schema, value, ctx):
            misuse('raw validator')
        def default(ctx, field):
            misuse('default')
            return 5
        class State:
            def __copy__(self):
                misuse('state')
                return self
        O = mk('O', f=Fld(validators=[val]), g=fields.Integer(default=default), h=Fld(load_key='hh', none=False, default=0), __schema_post_init__=lambda self: misuse('post init'),
               preprocess_data=lambda self, data: (misuse('preprocess'), data)[1])
        O.f.add_validator(raw, raw=True)
        def show(o): return repr(o.value.dump()) if o.ok and isinstance(o.value, Schema) else repr(o.value) if o.ok else (type(o.exc).__name__, sraw(o.exc.raw()), [(e.key, e.field.name if e.field else None, e.schema is o.exc.schema, type(e.context).__name__) for e in o.exc.errors]) if isinstance(o.exc, ValidationError) else repr(o.exc)
        out = []
        x = O({'f': 1}, state=State())
        act[0] = True
        for op in OPS:
            act[0] = True
            o = {'construct': lambda: attempt(O, {'f': 1}), 'construct bad': lambda: attempt(O, {'f': 13, 'hh': 'x', 'q': 1}), 'update': lambda: attempt(x.update, {'f': 2, 'hh': 3}), 'update bad': lambda: attempt(x.update, {'hh': None, 'f': 13, 'q': 2}),
                 'assign': lambda: attempt(setattr, x, 'f', 4), 'assign bad': lambda: attempt(setattr, x, 'h', 'x'), 'dump': lambda: attempt(x.dump), 'copy': lambda: attempt(x.copy)}[op]()
            act[0] = False
            out.append((op, show(o)))
        return out, w, names
    key = ('during', site)
    if key not in REF: REF[key] = play(None)[0]
    got, w, names = play(i)
    ch.check(got == REF[key], 'a misuse that was handled changed the surrounding operation', site, names[:1], [(a, b) for a, b in zip(got, REF[key]) if a != b][:3])
    got = signature(w, False)
    ref = reference(False)
    ch.check(got == ref, 'misuse left something behind', site, names[:1], [(a, b) for a, b in zip(got, ref) if a != b][:3])
    ch.op(site, i)
    ch.state(site, i)


def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='single', fn=single),
        dict(name='sequences', fn=sequences(2, 6 if not th else 2)),
        dict(name='during', fn=during),
    ] + ([dict(name='three', fn=sequences(3, 12))] if th else [])
