"""C13 Exceptions escaping user code propagate unchanged and leave no residue."""
import contextvars, itertools
from mc.interplay import also
from mc.lib import *

INFO = dict(assumptions=['the exceptions raised are not ValueError, AssertionError, FieldError or ValidationError'])


class Crash(Exception):
    pass


class CrashBase(BaseException):
    pass


def exceptions():
    return [Crash('boom'), KeyError('f'), TypeError('t'), AttributeError('f'), LookupError('l'), RuntimeError('r'), StopIteration(1),
            IndexError(0), KeyboardInterrupt(), GeneratorExit(), SystemExit(3), CrashBase('b'), oblate.OblateException('o'),
            NotImplementedError('n'), OSError(2, 'x'), ArithmeticError('a'), oblate.TypeValidationError({}), RecursionError('deep'),
            TypeError("unsupported operand type(s) for +: 'NoneType' and 'int'"), AttributeError("'NoneType' object has no attribute 'x'", name='x', obj=None), ZeroDivisionError('division by zero'), KeyError(None), LookupError(), UnboundLocalError('u'), oblate.FieldNotSet.__new__(oblate.FieldNotSet)]


FEW_EXC = (0, 1, 3, 8, 11, 6, 12)


class Tracer:
    """Counts calls of user code; raises the chosen exception at the chosen call."""
    def __init__(self):
        self.count = 0
        self.at = None
        self.exc = None
        self.sites = []

    def hit(self, site):
        self.count += 1
        self.sites.append(site)
        if self.at == self.count:
            raise self.exc


TR = Tracer()


def reset():
    global TR
    TR.count, TR.at, TR.exc = 0, None, None
    TR.sites = []


class Fld(fields.Field):
    def value_load(self, value, context):
        TR.hit('load ' + self.name)
        if value == 'bad':
            raise ValueError('bad value of ' + self.name)
        if value == 'empty':
            raise ValueError
        return [value]

    def value_dump(self, value, context):
        TR.hit('dump ' + self.name)
        if value == ['undumpable']:
            raise FieldError('cannot dump')
        return value[0]

    def format_error(self, code, ctx):
        TR.hit('format ' + self.name)
        return None


class Int(fields.Integer):
    def value_load(self, value, context):
        TR.hit('load int')
        return super().value_load(value, context)

    def format_error(self, code, ctx):
        TR.hit('format int')
        return f'int {code}'


class V(validate.Validator):
    def __init__(self, name):
        self.name = name
    def validate(self, value, ctx):
        TR.hit('validator ' + self.name)
        if value == ['reject']:
            raise ValueError('rejected by ' + self.name)


class RV(validate.Validator, raw=True):
    def validate(self, value, ctx):
        TR.hit('raw validator class')


def fnv(schema, value, ctx):
    TR.hit('function validator')
    if value == ['reject']:
        raise FieldError('function rejects')


def rawfn(schema, value, ctx):
    TR.hit('raw function validator')
    if value == 'rawreject':
        raise FieldError(['r1', 'r2'])


def no(schema, value, ctx):
    TR.hit('inner of Or')
    raise ValueError('no')


def yes(schema, value, ctx):
    TR.hit('last of Or')


def dflt(ctx, field):
    TR.hit('default')
    return ['dflt']


class World:
    def __init__(self):
        def pre(self, data):
            TR.hit('preprocess ' + type(self).__name__)
            return data

        def post(self):
            TR.hit('post ' + type(self).__name__)

        self.In = In = mk('In', n=Int(validators=[validate.Or(no, yes)]), m=Fld(required=False), preprocess_data=pre, __schema_post_init__=post)
        self.Other = Other = mk('Other', p=Fld(), q=Int(required=False, load_key='Q'))
        self.other = Other({'p': 'o'})
        f = Fld(validators=[fnv, V('a')], load_key='F')
        f.add_validator(rawfn, raw=True)
        f.add_validator(RV())
        g = Fld(none=True, required=False)
        world = self

        @validate.field('g')
        def deco(self, value, ctx):
            TR.hit('decorated validator')
            if value in (['catch'], ['catchbad']):
                # user code that survives the failure of another operation
                try:
                    world.inner()
                except BaseException as e:
                    world.caught = e
                if value == ['catchbad']:
                    raise ValueError('after catching')

        @validate.field('g', raw=True)
        def rawdeco(self, value, ctx):
            TR.hit('decorated raw validator')

        self.S = mk('S', dict(f=f, g=g, deco=deco, rawdeco=rawdeco), h=Fld(default=dflt), o=fields.Object(In, required=False, none=True), i=Int(default=0),
                    preprocess_data=pre, __schema_post_init__=post)
        def inner():
            x = Other({'p': 'o'})
            x.update({'p': 'x', 'Q': 5})
            x.q = 3
        self.inner = inner
        self.caught = None
        self.inst = self.S({'F': 'a', 'g': 'b', 'o': {'n': 1, 'm': 'mm'}, 'i': 4})
        self.bare = self.S({'F': 'undumpable'})
        self.peer = self.In({'n': 5})


OPS = [
    ('construct ok', lambda w: w.S({'F': 1, 'g': 2, 'o': {'n': 3, 'm': 4}, 'i': 5})),
    ('construct few', lambda w: w.S({'g': None, 'F': 0})),
    ('construct bad', lambda w: w.S({'g': 'reject', 'F': 'reject', 'i': 'x', 'zz': 1, 'o': {'n': None}})),
    ('construct worse', lambda w: w.S({'F': 'rawreject', 'g': 'empty', 'h': None, 'o': {}})),
    ('construct missing', lambda w: w.S({'o': {'q': 1, 'n': 'w'}})),
    ('update ok', lambda w: w.inst.update({'g': 'new', 'F': 'new', 'o': {'n': 9}, 'i': 8, 'h': 'h2'})),
    ('update bad', lambda w: w.inst.update({'i': 7, 'g': 'bad', 'zz': 0, 'F': 'rawreject', 'o': {'n': 'w'}})),
    ('update some', lambda w: w.bare.update({'g': 'catch', 'h': None, 'o': w.peer})),
    ('update catch', lambda w: w.inst.update({'i': 3, 'g': 'catchbad', 'zz': 0})),
    ('assign ok', lambda w: setattr(w.inst, 'f', 'new')),
    ('assign bad', lambda w: setattr(w.inst, 'f', 'reject')),
    ('assign empty', lambda w: setattr(w.inst, 'g', 'empty')),
    ('assign catch', lambda w: setattr(w.inst, 'g', 'catch')),
    ('assign none', lambda w: setattr(w.inst, 'i', None)),
    ('assign nested', lambda w: setattr(w.bare, 'o', {'n': 1, 'm': 'x'})),
    ('assign nested bad', lambda w: setattr(w.inst, 'o', {'n': 'x', 'm': 'bad'})),
    ('dump ok', lambda w: w.inst.dump()),
    ('dump some', lambda w: w.inst.dump(exclude=['f'])),
    ('dump bad', lambda w: w.bare.dump()),
    ('copy', lambda w: w.inst.copy()),
    ('inner update', lambda w: w.inst.o.update({'n': 2, 'm': 'bad', 'k': 1})),
    ('outside error', lambda w: FieldError('x')),
    ('read', lambda w: (w.inst.f, w.bare.get_value_for('g', UNSET), w.bare.g)),
]


def canon_val(x):
    if isinstance(x, Schema):
        return (type(x).__name__, x.context.schema is x, x.context.is_initialized(), tuple((n, canon_val(x.get_value_for(n, UNSET))) for n in sorted(all_field_names(type(x)))))
    if isinstance(x, dict):
        return ('d', tuple((repr(k), canon_val(v)) for k, v in sorted(x.items(), key=repr)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(canon_val, x)))
    if isinstance(x, FieldError):
        return canon_err(x)
    return repr(x)


def canon_err(e):
    c = e.context
    return (e.key, e.field.name if e.field else None, type(e.schema).__name__, canon_val(e.schema), repr(e.state),
            None if c is None else (type(c).__name__, repr(c.value), c.field.name, c.schema is e.schema, repr(c.state)),
            repr(strmsg(e.message)))


def outcome(w, out, sites):
    e = out.exc
    if out.ok:
        r = ('ok', canon_val(out.value))
    elif isinstance(e, ValidationError):
        r = ('invalid', canon_val(e.schema), tuple(sorted(map(canon_err, e.errors), key=repr)), repr(sraw(e.raw())))
    elif isinstance(e, FieldNotSet):
        r = ('unset', e.field.name)
    else:
        r = ('raised', type(e).__name__)
    return r + (canon_val(w.inst), canon_val(w.bare), canon_val(w.peer), canon_val(w.other), type(w.caught).__name__, tuple(sites))


def run(w, op):
    reset()
    out = attempt_base(op[1], w)
    return outcome(w, out, TR.sites)


_CALLS = {}


def calls_of(i):
    """Number of user-code calls of an operation when nothing is thrown."""
    if i not in _CALLS:
        def go():
            reset()
            w = World()
            reset()
            attempt_base(OPS[i][1], w)
            return TR.count
        _CALLS[i] = contextvars.Context().run(go)
    return _CALLS[i]


_REF = {}


def ref(ops):
    """Outcomes of the follow-up operations in a world where nothing was thrown."""
    if ops not in _REF:
        if len(_REF) > 100000:
            _REF.clear()
        def go():
            reset()
            w = World()
            return [run(w, OPS[i]) for i in ops]
        _REF[ops] = contextvars.Context().run(go)
    return _REF[ops]


CATCH = ('update some', 'update catch', 'assign catch')


def same_exc(got, exc):
    # a StopIteration that passes a generator arrives as RuntimeError caused by it: also not swallowed
    return got is exc or isinstance(exc, StopIteration) and isinstance(got, RuntimeError) and got.__cause__ is exc


def fault(ch, w, i, at, exc):
    insts = [w.inst, w.bare, w.peer, w.other, w.inst.o]
    before = [(x, snap(x, all_field_names(type(x)))) for x in insts]
    reset()
    TR.at, TR.exc = at, exc
    out = attempt_base(OPS[i][1], w)
    sites = list(TR.sites)
    reset()
    ch.op(OPS[i][0], 'throws', type(exc).__name__, 'at', sites[-1] if sites else None, out)
    what = (OPS[i][0], at, sites[-1:], type(exc).__name__)
    ch.check(len(sites) >= at, 'the call chosen for the fault did not happen', *what, sites)
    swallowed = OPS[i][0] in CATCH and w.caught is not None
    if swallowed:
        ch.check(same_exc(w.caught, exc), 'the exception reached the user code changed', *what, w.caught)
        w.caught = None
        return before, True, out
    ch.check(same_exc(out.exc, exc), 'an exception of user code did not propagate unchanged', *what, out)
    ch.check(len(sites) == at, 'user code was called after the exception', *what, sites)
    for x, s in before:
        now = snap(x, s)
        for n in s:
            ch.check(now[n] is s[n], 'an escaping exception changed an instance', *what, type(x).__name__, n, s[n], now[n])
    return before, False, out


def faults(excs, follow):
    n_exc = len(exceptions())

    def scenario(ch):
        """Every call of every operation throws; then every sequence of follow-up operations."""
        i = ch.choose(len(OPS), 'operation')
        n = calls_of(i)
        if not n:
            raise Skip
        at = 1 + ch.choose(n, 'call')
        exc = exceptions()[ch.pick(excs or tuple(range(n_exc)), 'exception')]
        seqs = [(j,) for j in range(len(OPS))] if follow == 1 else None
        if follow == 1:
            todo = seqs
        else:
            j = ch.choose(len(OPS), 'follow1')
            todo = [(j, k) for k in range(len(OPS))]
        for seq in todo:
            def go():
                reset()
                w = World()
                _, swallowed, out = fault(ch, w, i, at, exc)
                if swallowed:
                    # the operation went on; it must be as if the caught one had not been attempted
                    w2out = swallow_ref(i, type(exc))
                    got = outcome(w, out, ())
                    ch.check(got == w2out, 'an operation that survived a failure in user code has another outcome', OPS[i][0], got, w2out)
                    return None
                return [run(w, OPS[k]) for k in seq]
            got = contextvars.Context().run(go)
            if got is None:
                break
            want = ref(seq)
            for k, g, r in zip(seq, got, want):
                ch.op(OPS[k][0])
                ch.check(g == r, 'a later operation behaves differently after an escaped exception', (OPS[i][0], at, type(exc).__name__), [OPS[x][0] for x in seq], g, r)
            ch.state(i, at, type(exc).__name__, seq)
    return scenario


_SW = {}


def swallow_ref(i, _):
    """Outcome of an operation whose callback skips the operation that would fail."""
    if i not in _SW:
        def go():
            reset()
            w = World()
            w.inner = lambda: None
            out = attempt_base(OPS[i][1], w)
            return outcome(w, out, ())
        _SW[i] = contextvars.Context().run(go)
    return _SW[i]


def double(ch):
    """Two faults one after the other, then probes."""
    probes = [2, 6, 14, 18, 20, 21]
    some = [0, 2, 5, 6, 9, 15, 16]
    i, j = ch.pick(some, 'op1'), ch.pick(some, 'op2')
    a1 = 1 + ch.choose(calls_of(i), 'call1')
    a2 = 1 + ch.choose(calls_of(j), 'call2')
    exc = exceptions()[0]

    def go():
        reset()
        w = World()
        fault(ch, w, i, a1, exc)
        fault(ch, w, j, a2, exc)
        return [run(w, OPS[k]) for k in probes]
    got = contextvars.Context().run(go)
    want = ref(tuple(probes))
    for k, g, r in zip(probes, got, want):
        ch.check(g == r, 'a later operation behaves differently after two escaped exceptions', OPS[i][0], a1, OPS[j][0], a2, OPS[k][0], g, r)
    ch.state(i, a1, j, a2)


from mc.core import Skip


PLACES = ['preprocess', 'load', 'raw validator', 'validator', 'default', 'formatter', 'hook', 'dump']


def outer(place, op, meddle):
    """What an operation does, and what errors made in its callbacks are attributed to, when one of the callbacks meddles first."""
    seen = []

    def at(where, schema, last=False):
        if where == place:
            meddle()
        if schema is not current[0] and current[0] is not None: seen.append('another schema')
        o = attempt(FieldError, 'made in ' + where)
        seen.append((where, type(o.exc).__name__) if not o.ok else (where, o.value.key, o.value.schema is schema, type(o.value.context).__name__, o.value.context and o.value.context.field.name))
        return o.value if o.ok else ValueError('made')

    class F(fields.Integer):
        def value_load(self, v, ctx):
            e = at('load', ctx.schema)
            if v == 'load': raise e
            return super().value_load(v, ctx)
        def value_dump(self, v, ctx):
            raise at('dump', ctx.schema)
        def format_error(self, code, ctx):
            return at('formatter', ctx.schema)

    def default(ctx, field):
        at('default', ctx.schema)
        return 5
    a = F(load_key='OA', dump_key='DA', none=True)
    current = [None]

    def raw(self, v, ctx):
        e = at('raw validator', self)
        if v == 'raw': raise e
    def val(self, v, ctx):
        e = at('validator', self)
        if v == 13: raise e
    def pre(self, data):
        at('preprocess', self)
        return data
    def post(self): at('hook', self)
    cls = mk('Outer', dict(z=fields.Integer(required=False, load_key='OZ'), a=a, m=fields.Integer(load_key='OM', required=False), d=F(default=default, load_key='OD'), rv=oblate.validate.field(a, raw=True)(raw), v=oblate.validate.field(a)(val), preprocess_data=pre, __schema_post_init__=post))
    name, bad = op
    data = {'OZ': 'no', 'OA': bad, 'zz': 1, 'OM': 'no'} if bad != 1 else {'OA': 1, 'OZ': 2, 'OM': 3}
    if name == 'construct':
        out = attempt(cls, data)
    else:
        keep, place_ = list(seen), place
        place = None
        x = cls({'OA': 0, 'OD': 1})
        place = place_
        del seen[:]
        current[0] = x
        out = attempt(x.update, data) if name == 'update' else attempt(setattr, x, 'a', bad) if name == 'assign' else attempt(x.dump)
    e = out.exc
    errs = None
    if isinstance(e, ValidationError):
        errs = sorted(repr((x.key, x.field and x.field.name, x.schema is e.schema, type(x.context).__name__, x.context and x.context.field.name, repr(strmsg(x.message)))) for x in e.errors)
    return seen, type(e).__name__, errs, canon_val(out.value) if out.ok else None


OUTER = [(n, b) for n in ('construct', 'update', 'assign') for b in (1, 'text', 'load', 'raw', 13, None)] + [('dump', 1)]
_OUT = {}


def inside(excs):
    def scenario(ch):
        """An operation whose callback handles an escape from another operation goes on as if that had not been attempted."""
        i = ch.choose(len(OPS), 'operation')
        n = calls_of(i)
        if not n: raise Skip
        at = 1 + ch.choose(n, 'call')
        exc = exceptions()[ch.pick(excs, 'exception')]
        for place in PLACES:
            for op in OUTER:
                if (place == 'dump') != (op[0] == 'dump') and (op[0] == 'dump' or place == 'dump') or op[0] == 'assign' and place in ('preprocess', 'default', 'hook') or op[0] == 'update' and place in ('preprocess', 'default', 'hook'): continue
                if (place, op) not in _OUT: _OUT[place, op] = contextvars.Context().run(outer, place, op, lambda: None)

                def go():
                    reset()
                    w = World()
                    return outer(place, op, lambda: fault(ch, w, i, at, exc))
                got = contextvars.Context().run(go)
                ch.check(got == _OUT[place, op], 'an operation that handled an escape behaves differently', OPS[i][0], at, type(exc).__name__, place, op, got, _OUT[place, op])
        ch.state(i, at, type(exc).__name__)
    return scenario


@also('crash')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='faults', fn=faults(None if th else FEW_EXC, 1)),
        dict(name='kinds', fn=faults(None, 1) if th else kinds),
        dict(name='double', fn=double),
        dict(name='inside', fn=inside((0, 1, 2, 7, 8, 11) if th else (0, 8))),
    ] + ([dict(name='follow2', fn=faults((0, 8), 2))] if th else [])


def kinds(ch):
    """Every exception kind at every call, with a few follow-ups."""
    i = ch.choose(len(OPS), 'operation')
    n = calls_of(i)
    if not n:
        raise Skip
    at = 1 + ch.choose(n, 'call')
    for exc in exceptions():
        probes = (6, 11)

        def go():
            reset()
            w = World()
            _, swallowed, out = fault(ch, w, i, at, exc)
            return None if swallowed else [run(w, OPS[k]) for k in probes]
        got = contextvars.Context().run(go)
        if got is not None:
            ch.check(got == ref(probes), 'a later operation behaves differently after an escaped exception', OPS[i][0], at, type(exc).__name__, got, ref(probes))
        ch.state(i, at, type(exc).__name__)
