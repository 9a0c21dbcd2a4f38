"""C03 Errors are attributed to the right key, field, schema and context."""
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['one thread (C12 covers threads)'])


class Rec(fields.Field):
    """Scripted field; remembers the load and dump contexts it received per raw value."""
    __slots__ = ()
    SEEN = {}

    def value_load(self, value, context):
        Rec.SEEN[('load', self.name, id(context.schema))] = context
        do(value, 'load', context)
        return value

    def value_dump(self, value, context):
        Rec.SEEN[('dump', self.name, id(context.schema))] = context
        do(value, 'dump', context)
        return value

    def format_error(self, code, ctx, /):
        do(ctx._value if False else ('fmt',), 'format', ctx)
        return FieldError(f'<{code}>')


class Plan:
    """What the callbacks of the outer operation do; set per execution."""
    hooks = {}


def do(value, site, context):
    h = Plan.hooks.get(site)
    if h:
        h(value, context)


def rv(schema, value, ctx):
    Rec.SEEN[('raw', ctx.field.name, id(schema))] = ctx
    do(value, 'raw', ctx)


def vv(schema, value, ctx):
    Rec.SEEN[('val', ctx.field.name, id(schema))] = ctx
    do(value, 'val', ctx)
    if isinstance(value, str) and value.startswith('vfail'):
        if value == 'vfail-fe':
            raise FieldError('by validator')
        raise ValueError('by validator')


def mkrec(**kw):
    f = Rec(**kw)
    f.add_validator(rv, raw=True)
    f.add_validator(vv)
    return f


class Other(Schema):
    p = fields.Integer()
    q = fields.String(load_key='Q', required=False)
    fz = fields.Integer(frozen=True, required=False)

    @validate.field(p)
    def check(self, value, ctx):
        if value < 0:
            raise ValueError('neg')


class Holder(Schema):
    o = fields.Object(Other)
    r = fields.Integer(required=False)


class DumpBad(fields.Field):
    def value_load(self, value, context):
        return value
    def value_dump(self, value, context):
        raise ValueError('cannot dump')


class Dumper(Schema):
    d = DumpBad()


class Crash(Exception):
    pass


class Crasher(Schema):
    c = fields.Any()
    e = fields.Any(required=False)

    @validate.field(c)
    def boom(self, value, ctx):
        if value == 'boom':
            raise Crash

    @validate.field(c, raw=True)
    def boomraw(self, value, ctx):
        if value == 'boomraw':
            raise KeyError('c')


class NoneOK(Schema):
    n = fields.Integer(none=True)


class Same(Schema):
    """The names and keys of the observed schema."""
    a = fields.Integer(load_key='A')
    b = fields.Integer()
    c = fields.Integer()


def nested_ops(small=False):
    """Operations on other schemas: (name, fn)."""
    def c_ok(): return Other({'p': 1})
    def c_bad(): return attempt(Other, {'p': 'x', 'zz': 1})
    def c_missing(): return attempt(Other, {})
    def c_val(): return attempt(Other, {'p': -1, 'Q': 3})
    def u_ok(): Other({'p': 1}).update({'p': 2, 'Q': 's'})
    def u_bad(): return attempt(Other({'p': 1}).update, {'p': 'x', 'zz': 0})
    def u_frozen(): return attempt(Other({'p': 1}).update, {'p': 2, 'fz': 1})
    def a_ok(): Other({'p': 1}).p = 5
    def a_bad(): return attempt(setattr, Other({'p': 1}), 'p', -5)
    def a_frozen(): return attempt(setattr, Other({'p': 1}), 'fz', -5)
    def d_ok(): Other({'p': 1}).dump()
    def d_bad(): return attempt(Dumper({'d': 1}).dump)
    def n_ok(): NoneOK({'n': None})
    def n_upd():
        x = NoneOK({'n': 1})
        x.n = None
        x.update({'n': None})
    def nest_ok(): Holder({'o': {'p': 1}}).dump()
    def nest_bad(): return attempt(Holder, {'o': {'p': 'x', 'y': 1}, 'zz': 1})
    def crash(): return attempt(Crasher, {'c': 'boom'})
    def crash_u(): return attempt(Crasher({'c': 1}).update, {'e': 1, 'c': 'boom'})
    def crash_a(): return attempt(setattr, Crasher({'c': 1}), 'c', 'boomraw')
    def crash_r(): return attempt(Crasher, {'c': 'boomraw', 'e': 1})
    def nonmap(): return attempt(Other, 5)
    def copyget(): return Other({'p': 1}).copy().get_value_for('q', None)
    def notset(): return attempt(getattr, Other({'p': 1}), 'q')
    def s_assign():
        Other({'p': 1}, state='st').p = 5
    def s_update(): Other({'p': 1}, state=['st']).update({'p': 2, 'Q': 's'})
    def s_bad(): return attempt(setattr, Other({'p': 1}, state={'s': 1}), 'p', 'x')
    def s_construct(): return attempt(Other, {'p': 1, 'zz': 1}, ignore_extra=True, state=5)
    def i_update(): Other({'p': 1}).update({'p': 2, 'zz': 0}, ignore_extra=True)
    def i_bad(): return attempt(Other({'p': 1}).update, {'zz': 0, 'p': -3}, ignore_extra=True)
    def same_names(): return attempt(Same, {'A': 'x', 'b': None, 'c': 1})
    def same_assign():
        x = Same({'A': 1, 'b': 2, 'c': 3}, state='same')
        x.a = 4
        x.b = 5
    def same_bad():
        x = Same({'A': 1, 'b': 2, 'c': 3})
        attempt(setattr, x, 'c', 'bad')
        attempt(x.update, {'A': 'x', 'c': 1})
    def render():
        e = attempt(Holder, {'o': {'p': 'x', 'y': 1}, 'zz': 1}).exc
        return str(e), e.raw(), repr(e.schema)
    def d_sel(): Other({'p': 1}, state=0).dump(include=['p'])
    return [('assign with state', s_assign), ('update with state', s_update), ('assign bad with state', s_bad), ('construct with state', s_construct), ('update ignoring', i_update),
            ('update bad ignoring', i_bad), ('same names', same_names), ('same names assign', same_assign), ('same names bad', same_bad), ('render', render), ('dump some', d_sel)][:0 if small else None] + [
            ('nothing', lambda: None), ('construct', c_ok), ('construct bad', c_bad), ('construct missing', c_missing),
            ('construct validator', c_val), ('update', u_ok), ('update bad', u_bad), ('update frozen', u_frozen), ('assign', a_ok),
            ('assign bad', a_bad), ('assign frozen', a_frozen), ('dump', d_ok), ('dump bad', d_bad), ('none', n_ok), ('set none', n_upd),
            ('nest', nest_ok), ('nest bad', nest_bad), ('crash', crash), ('crash update', crash_u), ('crash assign', crash_a),
            ('crash raw', crash_r), ('nonmapping', nonmap), ('copy', copyget), ('unset', notset)]


# ------------------------------------------------------------------ the observed operations

def target_cls():
    return mk('T', a=mkrec(load_key='A', none=False), b=mkrec(required=False, none=True), c=mkrec(), o=fields.Object(Other, required=False))


GOOD = {'A': 'va', 'b': 'vb', 'c': 'vc'}


def check_errors(ch, out, inst, want, what, cls):
    """want: {key: (field or None, contextspec)}; contextspec: None, or (kind, name)."""
    ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', what, out)
    ve = out.exc
    if inst is None:
        inst = ve.schema
        ch.check(type(inst) is cls, 'ValidationError.schema is not an instance of the schema', what, inst)
    ch.check(ve.schema is inst, 'ValidationError.schema is not the instance operated on', what, type(ve.schema).__name__)
    got = sorted((e.key for e in ve.errors), key=repr)
    ch.check(got == sorted(want, key=repr), 'wrong keys', what, got, sorted(want, key=repr))
    for e in ve.errors:
        fld, spec = want[e.key]
        ch.check(e.schema is inst, 'FieldError.schema is not the instance operated on', what, e.key, type(e.schema).__name__)
        ch.check(e.field is fld, 'FieldError.field is wrong', what, e.key, e.field, fld)
        if spec is None:
            ch.check(e.context is None, 'an error without a value being processed has a context', what, e.key, e.context)
        else:
            ch.check(e.context is not None, 'FieldError.context is missing', what, e.key)
            seen = Rec.SEEN.get((spec, fld.name, id(inst)))
            if seen is not None:
                ch.check(e.context is seen, 'FieldError.context is not the context of the value', what, e.key)
            ch.check(e.context.schema is inst and e.context.field is fld, 'context belongs to another value', what, e.key)


def failing_ops():
    """(name, run(cls, inst) -> Out, needs instance, want(cls)) - every source of errors."""
    def w(cls, **k):
        return k
    ops = []

    def c(name, data, want):
        ops.append((name, 'construct', lambda cls, inst: attempt(cls, dict(data)), want))

    def u(name, data, want):
        ops.append((name, 'update', lambda cls, inst: attempt(inst.update, dict(data)), want))

    def s(name, attr, val, want):
        ops.append((name, 'assign', lambda cls, inst: attempt(setattr, inst, attr, val), want))
    c('c unknown+required', {'zz': 1}, lambda T: {'zz': (None, None), 'A': (T.a, None), 'c': (T.c, None)})
    c('c unknown last', dict(GOOD, zz=1, a=2), lambda T: {'zz': (None, None), 'a': (None, None)})
    c('c none', dict(GOOD, A=None), lambda T: {'A': (T.a, 'raw')})
    c('c validator', dict(GOOD, A='vfail', b='vfail-fe'), lambda T: {'A': (T.a, 'val'), 'b': (T.b, 'val')})
    c('c mixed', {'A': 'vfail', 'b': None, 'c': None, 'yy': 0}, lambda T: {'A': (T.a, 'val'), 'c': (T.c, 'raw'), 'yy': (None, None)})
    c('c none then required', {'b': None, 'c': 'vfail'}, lambda T: {'A': (T.a, None), 'c': (T.c, 'val')})
    c('c nested', dict(GOOD, o={'p': 'x'}), lambda T: {'o': (T.o, 'load')})
    c('c nested+unknown', dict(o={'p': -1}, **dict(GOOD, zz=0)), lambda T: {'o': (T.o, 'load'), 'zz': (None, None)})
    c('c foreign', dict(GOOD, o=5, c='vfail'), lambda T: {'o': (T.o, 'load'), 'c': (T.c, 'val')})
    u('u unknown', {'zz': 1}, lambda T: {'zz': (None, None)})
    u('u name not key', {'b': 'ok', 'a': 1}, lambda T: {'a': (None, None)})
    u('u none', {'b': None, 'A': None, 'zz': 0}, lambda T: {'A': (T.a, 'raw'), 'zz': (None, None)})
    u('u validator', {'A': 'vfail', 'c': 'vfail-fe', 'b': 'x'}, lambda T: {'A': (T.a, 'val'), 'c': (T.c, 'val')})
    u('u nested', {'o': {'p': 1, 'r': 1}, 'c': 'vfail'}, lambda T: {'o': (T.o, 'load'), 'c': (T.c, 'val')})
    s('s none', 'a', None, lambda T: {'A': (T.a, 'raw')})
    s('s validator', 'a', 'vfail', lambda T: {'A': (T.a, 'val')})
    s('s validator fe', 'c', 'vfail-fe', lambda T: {'c': (T.c, 'val')})
    s('s nested', 'o', {}, lambda T: {'o': (T.o, 'load')})
    s('s foreign', 'o', [], lambda T: {'o': (T.o, 'load')})

    def dumpfail(cls, inst):
        def h(value, ctx):
            if ctx.field.name in ('a', 'c'):
                raise FieldError('dump') if ctx.field.name == 'a' else ValueError('dump')
        Plan.hooks['dump'] = h
        try:
            return attempt(inst.dump)
        finally:
            Plan.hooks.pop('dump')
    ops.append(('d', 'dump', dumpfail, lambda T: {'A': (T.a, 'dump'), 'c': (T.c, 'dump')}))
    return ops


def run_target(ch, op, what):
    name, entry, fn, want = op
    cls = target_cls()
    inst = None
    if entry != 'construct':
        inst = cls(dict(GOOD))
    Rec.SEEN.clear()
    out = fn(cls, inst)
    ch.op(name, out)
    check_errors(ch, out, inst, want(cls), (what, name), cls)


def prelude(depth):
    def scenario(ch):
        Plan.hooks = {}
        ops = nested_ops()
        # target-class operations may also come before
        names = []
        n = ch.choose(depth + 1, 'len')
        for i in range(n):
            name, fn = ch.pick(ops, f'op{i}')
            ch.op('prelude', name)
            fn()
            names.append(name)
        op = ch.pick(failing_ops(), 'target')
        run_target(ch, op, names)
        ch.state(tuple(names), op[0])
    return scenario


def pairs(n):
    def scenario(ch):
        """Sequences of failing operations on different and the same instances of one class whose fields format their errors themselves: all the errors of all of them stay attributed."""
        own = ch.flag('own format_error')
        Plan.hooks = {}
        if own:
            cls, good = target_cls(), GOOD
        else:
            def one(**kw):
                f = fields.String(**kw)
                f.add_validator(rv, raw=True)
                f.add_validator(vv)
                return f
            cls, good = mk('T', a=one(load_key='A'), b=one(required=False, none=True), c=one(), o=fields.Object(Other, required=False)), GOOD
        one_inst = ch.flag('one instance')
        kept = cls(dict(good))
        ops = [o for o in failing_ops() if o[1] != 'dump']
        done = []
        for i in range(n):
            name, entry, fn, want = ch.pick(ops, f'operation{i}')
            inst = None if entry == 'construct' else kept if one_inst else cls(dict(good))
            Rec.SEEN.clear()
            out = fn(cls, inst)
            ch.op(name, out)
            check_errors(ch, out, inst, want(cls), (own, one_inst, [d[0] for d in done], name), cls)
            done.append((name, out, inst, want, [(id(e), e.key, e.field, e.schema, e.context) for e in out.exc.errors]))
        Rec.SEEN.clear()
        for i, (name, out, inst, want, before) in enumerate(done):
            check_errors(ch, out, inst, want(cls), ('later', own, one_inst, i, [d[0] for d in done]), cls)
            now = [(id(e), e.key, e.field, e.schema, e.context) for e in out.exc.errors]
            ch.check(len(now) == len(before) and all(x is y or x == y for a, b in zip(now, before) for x, y in zip(a, b)), 'the errors of an earlier operation changed', name, before, now)
        ch.state(own, one_inst, tuple(d[0] for d in done))
    return scenario


def chain(depth):
    """Sequences of failing operations on the target, on one instance."""
    def scenario(ch):
        Plan.hooks = {}
        cls = target_cls()
        inst = cls(dict(GOOD))
        names = []
        for i in range(depth):
            op = ch.pick(failing_ops(), f'op{i}')
            Rec.SEEN.clear()
            out = op[2](cls, inst)
            ch.op(op[0], out)
            names.append(op[0])
            check_errors(ch, out, None if op[1] == 'construct' else inst, op[3](cls), names, cls)
            ch.state(tuple(names))
    return scenario


# ------------------------------------------------------------------ re-entrancy

SITES = ['raw', 'load', 'val', 'dump', 'format', 'default', 'preprocess', 'post']
RAISES = ['return', 'FieldError', 'ValueError', 'AssertionError', 'empty']


def reentrant(ch):
    """A callback performs another operation and then fails (or not); every error stays attributed."""
    site = ch.pick(SITES, 'site')
    entry = ch.pick(['construct', 'update', 'assign', 'dump'], 'entry')
    if site in ('default', 'preprocess', 'post') and entry != 'construct':
        raise_skip()
    if (site == 'dump') != (entry == 'dump'):
        raise_skip()
    nested = ch.pick(nested_ops() + SELF_OPS, 'nested')
    how = ch.pick(RAISES if site in ('raw', 'load', 'val', 'dump') else ['return'], 'raise')
    where = ch.pick(['a', 'b', 'c'] if entry != 'assign' else ['a'], 'where')
    Plan.hooks = {}
    state = dict(inst=None)
    fired = []

    def run_nested(schema=None):
        if nested in SELF_OPS:
            if schema is not None:
                saved, Plan.hooks = Plan.hooks, {}
                seen = dict(Rec.SEEN)
                try:
                    nested[1](schema)
                finally:
                    Plan.hooks = saved
                    Rec.SEEN.clear()
                    Rec.SEEN.update(seen)
        else:
            nested[1]()

    def hook(value, ctx):
        fld = ctx.field
        if fld.name != where and site != 'format':
            return
        if id(ctx) in [id(x) for x in fired]:
            return
        fired.append(ctx)
        run_nested(ctx.schema)
        if how == 'FieldError':
            raise FieldError('after nested')
        if how == 'ValueError':
            raise ValueError('after nested')
        if how == 'AssertionError':
            raise AssertionError('after nested')
        if how == 'empty':
            raise ValueError

    def dflt(ctx, field):
        run_nested()
        return 'dv'

    class T(Schema):
        a = mkrec(load_key='A')
        b = mkrec(required=False, none=True)
        dd = fields.Any(default=dflt) if site == 'default' else fields.Any(default=1)
        c = mkrec()

        def preprocess_data(self, data):
            if site == 'preprocess':
                run_nested()
            return data

        def __schema_post_init__(self):
            if site == 'post' and not fired:
                fired.append(self)
                run_nested()

    inst = None
    if entry != 'construct':
        inst = T(dict(GOOD))
    Rec.SEEN.clear()
    if site in ('raw', 'load', 'val', 'dump', 'format'):
        Plan.hooks[site] = hook
    fails = how != 'return'
    want = {}
    wf = {'a': ('A', T.a), 'b': ('b', T.b), 'c': ('c', T.c)}[where]
    if entry == 'construct':
        data = {'A': 'va', 'b': 'vb', 'zz': 1, 'c': 'vc'}
        want['zz'] = (None, None)
        if site in ('default', 'preprocess', 'post', 'format'):
            data['A'] = None          # goes through the formatter, with a value
            del data['c']             # goes through the formatter, without a value
            want['A'] = (T.a, 'raw')
            want['c'] = (T.c, None)
            if site == 'post':
                data = dict(GOOD)
                want = {}
        out = attempt(T, data)
        if site == 'post':
            ch.check(out.ok, 'construction failed', out)
            inst = out.value
            out = attempt(inst.update, {'zz': 1, 'c': 'vfail'})
            want = {'zz': (None, None), 'c': (T.c, 'val')}
    elif entry == 'update':
        data = {'b': 'vb', 'A': 'va', 'zz': 1, 'c': 'vfail'}
        want = {'zz': (None, None), 'c': (T.c, 'val')}
        if site == 'format':
            data['A'] = None
            want['A'] = (T.a, 'raw')
        if site in ('raw', 'load', 'val') and where == 'c':
            data['c'] = 'vc'
            del want['c']
        out = attempt(inst.update, data)
    elif entry == 'assign':
        if site == 'format':
            out = attempt(setattr, inst, 'a', None)
            want = {'A': (T.a, 'raw')}
        else:
            out = attempt(setattr, inst, 'a', 'vfail' if not fails or site == 'raw' else 'va')
            want = {'A': (T.a, 'val')} if not fails or site == 'raw' else {}
            if fails and site == 'raw':
                want = {}
                ch.check(isinstance(out.exc, ValidationError) and len(out.exc.errors) == 2, 'two failures expected', out)
                for e in out.exc.errors:
                    ch.check(e.key == 'A' and e.field is T.a and e.schema is inst and e.context is Rec.SEEN[('raw', 'a', id(inst))],
                             'wrong attribution', e.key, e.message)
                ch.op(entry, site, nested[0], how, out)
                return
    else:
        out = attempt(inst.dump)
        if not fails:
            ch.check(out.ok, 'dump failed', out)
            Plan.hooks = {}
            out = attempt(inst.update, {'zz': 1})
            want = {'zz': (None, None)}
    if fails:
        want[wf[0]] = (wf[1], site)
    ch.op(entry, site, nested[0], how, out)
    Plan.hooks = {}
    check_errors(ch, out, inst, want, (entry, site, nested[0], how, where), T)
    # and afterwards nothing is left behind
    run_target(ch, failing_ops()[1], 'afterwards')
    run_target(ch, failing_ops()[9], 'afterwards')
    ch.state(entry, site, nested[0], how, where)


def raise_skip():
    from mc.core import Skip
    raise Skip


def _self_assign_bad(schema):
    attempt(setattr, schema, 'b', 'vfail')


def _self_assign(schema):
    attempt(setattr, schema, 'b', 'new')


def _self_update_bad(schema):
    attempt(schema.update, {'b': 'vfail-fe', 'qq': 1})


def _self_dump(schema):
    attempt(schema.dump)


def _self_construct(schema):
    attempt(type(schema), {'A': 'vfail', 'q': 1})


def _self_copy(schema):
    x = schema.copy()
    attempt(x.update, {'qq': 1})


SELF_OPS = [('self assign bad', _self_assign_bad), ('self assign', _self_assign), ('self update bad', _self_update_bad),
            ('self dump', _self_dump), ('same class construct', _self_construct), ('self copy', _self_copy)]


def nested_attr(ch):
    """Errors inside nested data name the nested instance, key and field."""
    Plan.hooks = {}

    class L3(Schema):
        z = mkrec(load_key='Z')

    class L2(Schema):
        y = mkrec()
        c = fields.Object(L3, load_key='C')

    class L1(Schema):
        b = fields.Object(L2)
        x = mkrec()
    entry = ch.pick(['construct', 'update', 'assign'], 'entry')
    z = ch.pick(['ok', 'vfail', 'vfail-fe', None, ABSENT], 'z')
    y = ch.pick(['ok', 'vfail', None, ABSENT], 'y')
    x = ch.pick(['ok', 'vfail', None], 'x')
    extra = ch.pick([None, 'l3', 'l2', 'l1'], 'extra')
    before = ch.pick(nested_ops(), 'before')
    d3 = {} if z is ABSENT else {'Z': z}
    if extra == 'l3': d3['zz'] = 1
    d2 = {'C': d3}
    if y is not ABSENT: d2['y'] = y
    if extra == 'l2': d2['zz'] = 1
    d1 = {'b': d2, 'x': x}
    if extra == 'l1': d1['zz'] = 1
    inst = None
    if entry != 'construct':
        inst = L1({'b': {'y': 'ok', 'C': {'Z': 'ok'}}, 'x': 'ok'})
    Rec.SEEN.clear()
    before[1]()
    if entry == 'construct':
        out = attempt(L1, d1)
    elif entry == 'update':
        out = attempt(inst.update, d1)
    else:
        if extra == 'l1':
            extra = None
        x = 'ok'
        out = attempt(setattr, inst, 'b', d2)
    bad3 = z != 'ok' or extra == 'l3'
    bad2 = bad3 or y != 'ok' or extra == 'l2'
    bad1 = bad2 or x != 'ok' or extra == 'l1'
    ch.op(entry, d1, out)
    ch.state(entry, repr(d1))
    if not bad1:
        ch.check(out.ok, 'valid data rejected', out)
        return
    ve = out.exc
    ch.check(isinstance(ve, ValidationError), 'no ValidationError', out)
    root = ve.schema
    ch.check(type(root) is L1 and (inst is None or root is inst), 'wrong root schema', root)

    def level(errors, cls, schema, want, depth):
        ch.check(sorted(e.key for e in errors) == sorted(want), 'wrong keys at level', depth, [e.key for e in errors], want)
        for e in errors:
            ch.check(e.schema is schema if schema is not None else type(e.schema) is cls, 'wrong schema at level', depth, e.key)
            ch.check(all(o.schema is e.schema for o in errors), 'errors of one level name different instances', depth)
            ch.check(e.field is want[e.key], 'wrong field at level', depth, e.key)
            if e.field is not None and (want_ctx.get((depth, e.key))):
                ch.check(e.context is not None and e.context.schema is e.schema and e.context.field is e.field,
                         'wrong context at level', depth, e.key)
    want_ctx = {(1, 'x'): True, (2, 'y'): y is not ABSENT, (3, 'Z'): z is not ABSENT, (1, 'b'): True, (2, 'C'): True}
    w1, w2, w3 = {}, {}, {}
    if bad2: w1['b'] = L1.b
    if x != 'ok': w1['x'] = L1.x
    if extra == 'l1': w1['zz'] = None
    if bad3: w2['C'] = L2.c
    if y != 'ok': w2['y'] = L2.y
    if extra == 'l2': w2['zz'] = None
    if z != 'ok': w3['Z'] = L3.z
    if extra == 'l3': w3['zz'] = None
    level(ve.errors, L1, root, w1, 1)
    if bad2:
        m = [e for e in ve.errors if e.key == 'b'][0].message
        ch.check(isinstance(m, dict), 'nested errors missing', m)
        e2 = [e for es in m.values() for e in es]
        level(e2, L2, None, w2, 2)
        if bad3:
            m3 = [e for e in e2 if e.key == 'C'][0].message
            level([e for es in m3.values() for e in es], L3, None, w3, 3)


def samenames(ch):
    """Every level uses the same key names: nested errors still name the field, schema and context of their own level."""
    Plan.hooks = {}
    variant = ch.pick(['optional', 'required', 'absent'], 'innermost o')

    class In(Schema):
        a = mkrec(load_key='A')
        b = mkrec(required=False)
        if variant != 'absent':
            o = fields.Any(required=variant == 'required', none=True)

    class Mid(Schema):
        o = fields.Object(In, required=False)
        a = mkrec(load_key='A')
        b = mkrec()

    class Out_(Schema):
        a = mkrec(load_key='A')
        o = fields.Object(Mid)
        b = mkrec(none=True, required=False)
    entry = ch.pick(['construct', 'update', 'assign'], 'entry')
    A = ['ok', 'vfail', None, ABSENT]

    def level(name, akeys):
        d, w = {}, {}
        a = ch.pick(akeys, name + '.A')
        if a is not ABSENT:
            d['A'] = a
        if a != 'ok':
            w['A'] = ('a', a is not ABSENT)
        x = ch.pick([None, 'a', 'zz', 'o?'], name + '.extra')
        if x == 'a':
            d['a'] = 1
            w['a'] = None
        elif x == 'zz':
            d['zz'] = 1
            w['zz'] = None
        return d, w, x
    d3, w3, x3 = level('in', A)
    if variant != 'optional' or x3 != 'o?':
        if x3 == 'o?':
            d3['o'] = 0
            if variant == 'absent':
                w3['o'] = None
        elif variant == 'required':
            w3['o'] = ('o', False)
    d2, w2, x2 = level('mid', ['ok', 'vfail', ABSENT])
    d1, w1, x1 = level('out', ['ok', None])
    if 'o?' in (x1, x2):
        raise_skip()
    if x2 != 'zz':
        d2['b'] = 'ok'
    else:
        w2['b'] = ('b', False)
    d2 = dict(d2, o=d3) if ch.flag('order') else dict([('o', d3)], **d2)
    if w3:
        w2['o'] = ('o', True)
    d1['o'] = d2
    if w2:
        w1['o'] = ('o', True)
    inst = None
    if entry != 'construct':
        inst = Out_({'A': 'ok', 'o': {'A': 'ok', 'b': 'ok'}})
    Rec.SEEN.clear()
    if entry == 'construct':
        out = attempt(Out_, d1)
    elif entry == 'update':
        out = attempt(inst.update, d1)
    else:
        if w1.keys() - {'o'}:
            raise_skip()
        out = attempt(setattr, inst, 'o', d2)
    ch.op(entry, d1, out)
    ch.state(entry, repr(d1))
    if not w1:
        ch.check(out.ok, 'valid data rejected', out)
        return
    ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', out)
    ch.check(inst is None or out.exc.schema is inst, 'wrong root schema')

    def walk(errors, cls, schema, wants, depth):
        want = wants[0]
        ch.check(sorted((e.key for e in errors)) == sorted(want), 'wrong keys at level', depth, [e.key for e in errors], sorted(want))
        for e in errors:
            ch.check(e.schema is schema if schema is not None else type(e.schema) is cls, 'wrong schema at level', depth, e.key, type(e.schema).__name__)
            ch.check(all(o.schema is e.schema for o in errors), 'errors of one level name different instances', depth)
            spec = want[e.key]
            fld = None if spec is None else getattr(cls, spec[0])
            ch.check(e.field is fld, 'wrong field at level', depth, e.key, e.field, fld)
            if spec and spec[1]:
                ch.check(e.context is not None and e.context.schema is e.schema and e.context.field is fld, 'wrong context at level', depth, e.key)
            if e.key == 'o' and depth < 3:
                ch.check(isinstance(e.message, dict), 'nested errors missing', e.message)
                walk([x for es in e.message.values() for x in es], fld.schema_cls, None, wants[1:], depth + 1)
    walk(out.exc.errors, Out_, out.exc.schema, [w1, w2, w3], 1)


def borrowed(ch):
    """Errors taken over from an operation on another instance: the error of this operation names this instance, and so does everything else in it."""
    site = ch.pick(['load', 'validator', 'raw', 'dump'], 'site')
    op = 'dump' if site == 'dump' else ch.pick(['construct', 'update', 'assign'], 'operation')
    what = ch.pick(['first error', 'own error with its message', 'error kept from earlier'], 'taken over')
    src = ch.pick(['construct', 'update', 'assign'], 'source')
    extra = [] if op == 'assign' else ch.pick([[], ['before'], ['after'], ['before', 'after']], 'other failures')

    class B(Schema):
        b = fields.Integer()

    def source():
        o = attempt(B, {'b': 'q'}) if src == 'construct' else attempt(B({'b': 1}).update, {'b': 'q'}) if src == 'update' else attempt(setattr, B({'b': 1}), 'b', 'q')
        return o.exc.errors[0]
    kept = source()

    def fail(v):
        if v != 'bad': return
        if what == 'first error': raise source()
        if what == 'error kept from earlier': raise kept
        raise FieldError(source().message)

    class L(fields.Any):
        def value_load(self, v, c):
            if site == 'load': fail(v)
            return v
        def value_dump(self, v, c):
            if site == 'dump': fail(v)
            return v
    fs = {n: L(required=False) for n in 'afz'}
    for f in fs.values():
        if site in ('validator', 'raw'): f.add_validator(lambda s, v, c: fail(v), raw=site == 'raw')
    attrs = {'p': fields.Integer(required=False), **fs, 'y': fields.Integer(required=False)}
    cls = mk('Own', attrs)
    data = {**({'p': 'x'} if 'before' in extra and op != 'dump' else {}), 'a': 'bad', **({'y': 'x'} if 'after' in extra and op != 'dump' else {})}
    if op == 'dump':
        data = {**({'f': 'bad'} if 'before' in extra else {}), 'a': 'bad', **({'z': 'bad'} if 'after' in extra else {})}
        x = cls(data); out = attempt(x.dump)
    elif op == 'construct': x = None; out = attempt(cls, data)
    else:
        x = cls({}); out = attempt(x.update, data) if op == 'update' else attempt(setattr, x, 'a', 'bad')
    ch.op(op, site, what, data, out)
    ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', out)
    ch.check(type(out.exc.schema) is cls and (x is None or out.exc.schema is x), 'the error names another instance', out.exc.schema)
    for e in out.exc.errors:
        if e.key in ('p', 'y'):
            ch.check(e.schema is out.exc.schema and e.field is getattr(cls, e.key) and e.context.schema is e.schema and e.context.field is e.field, 'attribution of an error next to it', e)
        elif what == 'own error with its message':
            ch.check(e.schema is out.exc.schema and e.key in data and e.field is getattr(cls, e.key) and e.context.field is e.field, 'attribution', e)
    ch.check({e.key for e in out.exc.errors} >= set(data) - {'a', 'f', 'z'}, 'keys', out)
    ch.state(site, op, what, src, tuple(extra))


SHAPES = {'one': 'm0', 'list': ['m0', 'm1', 'm2'], 'tuple': ('m0', 'm1'), 'set': {'m0', 'm1'}, 'one element': ['m0'], 'mapping': {'k': 'm0'}}


def several(ch):
    """Every part of an error with several messages has the attribution of the error."""
    site = ch.pick(['load', 'validator', 'raw', 'formatter', 'formatter none', 'missing', 'dump'], 'site')
    shape = ch.pick(list(SHAPES), 'messages')
    op = 'dump' if site == 'dump' else ch.pick(['construct', 'update', 'assign'] if site != 'missing' else ['construct'], 'operation')
    keyed = ch.pick([None, 'K', ''], 'load key')
    depth = ch.choose(3, 'levels above')
    other = ch.pick(['no', 'before', 'after'], 'operation on another instance')
    twice = ch.flag('a second failing key')
    held, ctxs = [], []
    msgs = SHAPES[shape]

    class Leaf(Schema):
        l = fields.Integer()
        m = fields.Integer(load_key='M', required=False)

    def fail(ctx):
        ctxs.append(ctx)
        if other == 'before': attempt(Leaf, {'l': 'x', 'M': 1}); attempt(Leaf({'l': 1}).update, {'M': 'x'})
        e = FieldError(msgs, state='st')
        if other == 'after': attempt(Leaf, {'l': 'x', 'M': 1}); attempt(setattr, Leaf({'l': 1}), 'm', 'x'); Leaf({'l': 1}).dump()
        held.append(e)
        return e

    class L(fields.Any):
        def value_load(self, v, c):
            if site == 'load' and v == 'bad': raise fail(c)
            return v
        def value_dump(self, v, c):
            if site == 'dump' and v == 'bad': raise fail(c)
            return v
        def format_error(self, code, c):
            if site in ('formatter', 'formatter none', 'missing'): return fail(c)
    f, g = L(**(dict(load_key=keyed) if keyed is not None else {})), L(required=site == 'missing')

    def v(schema, value, c):
        if value == 'bad': raise fail(c)
    for x in (f, g):
        if site in ('validator', 'raw'): x.add_validator(v, raw=site == 'raw')
        if site == 'formatter':
            def empty(s, value, c):
                if value == 'bad': raise ValueError
            x.add_validator(empty)
    cls = mk('T', f=f, g=g)
    k = 'f' if keyed is None else keyed
    value = None if site == 'formatter none' else 'bad'
    data = {} if site == 'missing' else {k: value}
    if site == 'missing' and not twice: data['g'] = 0
    if twice and site != 'missing' and op != 'assign': data['g'] = value
    if site == 'dump': data.setdefault('g', 0)
    top, tdata = cls, data
    want_keys = [k] + (['g'] if 'g' in data and data['g'] != 0 or site == 'missing' and twice else [])
    inst = None
    if depth and op != 'dump':
        for i in range(depth):
            top, tdata = mk(f'Up{i}', n=fields.Object(top, required=False)), {'n': tdata}
        out = attempt(top, tdata) if op == 'construct' else attempt(top({}).update, tdata) if op == 'update' else attempt(setattr, top({}), 'n', tdata['n'])
    elif op == 'construct': out = attempt(cls, data)
    else:
        g0 = dict.fromkeys([k, 'g'], 0)
        inst = cls(g0) if op != 'dump' else cls({'g': 0, **data})
        out = attempt(inst.dump) if op == 'dump' else attempt(inst.update, data) if op == 'update' else attempt(setattr, inst, 'f', value)
    what = (site, shape, op, keyed, depth, other, twice)
    ch.op(*what, out)
    e = out.exc
    ch.check(isinstance(e, ValidationError), 'no ValidationError', *what, out)
    errs = list(e.errors)
    for i in range(depth if op != 'dump' else 0):
        ch.check(len(errs) == 1 and errs[0].key == 'n' and type(errs[0].schema) is not cls, 'the error of the outer key', *what, errs)
        errs = [x for l in errs[0].message.values() for x in l]
    n = len(msgs) if isinstance(msgs, (list, tuple, set)) else 1
    ch.check(sorted(map(str, (x.key for x in errs))) == sorted(want_keys * n), 'the keys of the parts', *what, [x.key for x in errs])
    for h in held:
        parts = [x for x in errs if x.key == h.key]
        got = [x.message for x in parts]
        want = list(msgs) if isinstance(msgs, (list, tuple, set)) else [msgs]
        ch.check(got == want, 'the messages of the parts', *what, got, want)
        for x in parts:
            ch.check(type(x.schema) is cls and x.schema is h.schema and x.field is (f if x.key == k else g) and x.state == 'st', 'the attribution of a part', *what, x.schema, x.field)
            if inst is not None: ch.check(x.schema is inst, 'another instance', *what)
            ch.check(x.context is h.context, 'the context of a part', *what, x.context)
            if site != 'missing':
                ch.check(x.context is not None and x.context.field is x.field and x.context.schema is x.schema and x.context.value == value, 'the context of a part', *what, x.context)
            elif not depth:
                ch.check(x.context is None, 'a missing key has a context', *what)
            if site in ('load', 'validator', 'raw', 'dump'): ch.check(x.context in ctxs, 'the context is not the one given to the callback', *what)
    ch.state(*what)


def odd_keys(ch):
    """Unknown keys of any kind are reported as they are, in every operation."""
    class Key(str):
        pass
    class H:
        def __repr__(self): return 'a'
    pool = [5, None, True, (1, 'a'), b'a', 1.5, Key('q'), H(), '', 'zz', frozenset(), -1, float('inf')]
    k1, k2 = ch.pick(pool, 'key'), ch.pick(pool, 'second')
    how = ch.pick(['construct', 'update', 'nested', 'nested update'], 'how')
    first = ch.flag('before the field')
    In = mk('In', a=fields.Any(required=False))
    S = mk('S', a=fields.Any(required=False), n=fields.Object(In, required=False))
    data = {k1: 1, 'a': 2, k2: 3} if first else {'a': 2, k1: 1, k2: 3}
    want = [k for k in data if k != 'a']
    if how == 'construct': out = attempt(S, data)
    elif how == 'update': out = attempt(S({}).update, data)
    elif how == 'nested': out = attempt(S, {'n': data})
    else: out = attempt(S({'a': 1}).update, {'n': data, 'a': 5})
    ch.op(how, data, out)
    ch.check(isinstance(out.exc, ValidationError), 'unknown keys', data, out)
    if how in ('construct', 'update'):
        got = [e.key for e in out.exc.errors]
        ch.check(all(e.field is None and e.schema is out.exc.schema for e in out.exc.errors), 'an unknown key has no field', data)
        raw = out.exc.raw()
    else:
        ch.check([e.key for e in out.exc.errors] == ['n'], 'the key of the nested error', out)
        raw = out.exc.raw()['n'][0]
        got = list(raw)
    ch.check(len(got) == len(want) and all(any(g is w for w in want) for g in got) and all(any(g is w for g in got) for w in want), 'the reported key is not the key that was given', how, data, got)
    ch.check(len(raw) == len(want) and all(any(g is w for w in want) for g in raw), 'the raw form has other keys', how, data, raw)
    ch.state(how, first, pool.index(k1), pool.index(k2))


@also_nested('attr')
@also('attr')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='prelude', fn=prelude(2 if not th else 3)),
        dict(name='pairs', fn=pairs(2 if not th else 3)),
        dict(name='chain', fn=chain(3 if not th else 4)),
        dict(name='reentrant', fn=reentrant),
        dict(name='nested', fn=nested_attr),
        dict(name='samenames', fn=samenames),
        dict(name='borrowed', fn=borrowed),
        dict(name='several messages', fn=several),
        dict(name='odd keys', fn=odd_keys),
    ]
