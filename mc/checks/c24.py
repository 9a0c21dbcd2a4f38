"""C24 Omitted fields take their default, or are unset and raise FieldNotSet."""
import functools, itertools
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['callable defaults return', 'whether a callable default is called by a construction that fails is not specified'])

CALLS = []


class Default:
    """A callable object."""
    def __init__(self, value):
        self.value = value
    def __call__(self, ctx, field):
        CALLS.append((ctx, field, ctx.is_initialized()))
        return self.value
    def method(self, ctx, field):
        return self(ctx, field)


class FalsyCallable(Default):
    def __bool__(self):
        return False


def by_class(v):
    """A class; calling it yields the value."""
    class Made:
        a = b = c = f = g = h = d = x = name = default = 1          # names of fields
        def __new__(cls, ctx, field):
            return Default(v)(ctx, field)
    return Made


def by_metaclass(v):
    class Meta(type):
        def __call__(cls, ctx, field):
            return Default(v)(ctx, field)
        def __bool__(cls):
            return False
    return Meta('Made', (), {})


class Own:
    """Class, static and builtin methods."""
    value = None
    @classmethod
    def by_class(cls, ctx, field):
        return Default(cls.value)(ctx, field)
    @staticmethod
    def static(ctx, field):
        return Default(Own.value)(ctx, field)


def own(name):
    def make(v):
        return getattr(type('Own', (Own,), dict(value=v)), name)
    return make


class Odd:
    """A value equal to everything."""
    def __eq__(self, o):
        return True
    __hash__ = None
    def __bool__(self):
        raise TypeError('no truth value')


ODD = Odd()
VALUES_ = [0, '', None, False, [], {}, (), 'x', 5, 0.0, UNSET, ..., NotImplemented, ODD, object()]
CALLABLES = [('object', lambda v: Default(v)), ('falsy', lambda v: FalsyCallable(v)), ('method', lambda v: Default(v).method), ('function', lambda v: (lambda ctx, field: Default(v)(ctx, field))),
             ('partial', lambda v: functools.partial(lambda x, ctx, field: Default(x)(ctx, field), v)),
             ('class', by_class), ('metaclass', by_metaclass), ('class method', own('by_class')), ('signature', lambda v: (lambda *args: Default(v)(*args))),
             ('more arguments', lambda v: (lambda ctx, field, more=1, **kw: Default(v)(ctx, field)))]


class Strict(fields.Integer):
    """Accepts integers only; defaults are not deserialized."""


def vfail(schema, value, ctx):
    raise ValueError('validators do not run for defaults')


def mkfield(kind, none=True, **kw):
    """kind: ('required',) ('optional',) ('value', v) ('callable', how, v); returns field and the omitted value (or 'required')."""
    if kind[0] == 'required': return fields.Any(none=none, **kw), None
    if kind[0] == 'optional': return fields.Any(none=none, required=False, **kw), None
    if kind[0] == 'value': return fields.Any(none=none, default=kind[1], **kw), kind[1]
    return fields.Any(none=none, default=dict(CALLABLES)[kind[1]](kind[2]), **kw), kind[2]


def unset_checks(ch, x, cls, name, key, what):
    f = getattr(cls, name)
    for how, fn, used in (('attribute', lambda: getattr(x, name), name), ('lookup by name', lambda: x.get_value_for(name), name), ('lookup by key', lambda: x.get_value_for(key), key)):
        o = attempt(fn)
        e = o.exc
        ch.check(isinstance(e, FieldNotSet) and isinstance(e, AttributeError) and isinstance(e, oblate.OblateException), 'an unset field does not raise FieldNotSet', *what, how, o)
        ch.check(f.name in str(e), 'the text of FieldNotSet does not name the field', *what, how, str(e))
        ch.check(e.field is f and e.schema is x and e.name == used, 'FieldNotSet names something else', *what, how, e.field, e.name)
    ch.check(not hasattr(x, name) and getattr(x, name, 'fb') == 'fb', 'hasattr', *what)
    for fb in (None, 0, 'fb', ODD, [], UNSET):
        ch.check(x.get_value_for(name, fb) is fb and x.get_value_for(key, fb) is fb, 'the fallback is not returned', *what, fb)
    ch.nops += 4


def one(ch):
    """One field of every kind: omitted, given, given None; of plain and of typed fields."""
    form = ch.pick(['required', 'optional', 'value', 'callable', 'required+default', 'optional+default'], 'presence')
    none = ch.flag('none allowed')
    typed = ch.flag('typed')
    keyed = ch.flag('load key')
    frozen = ch.flag('frozen')
    v = VALUES_[ch.choose(len(VALUES_), 'default')] if form not in ('required', 'optional') else None
    how = None
    kw = dict(none=none, frozen=frozen, validators=[vfail] if typed else [], **(dict(load_key='K') if keyed else {}))
    if form == 'optional': kw['required'] = False
    if form == 'callable':
        how = ch.pick(CALLABLES, 'callable')
        kw['default'] = how[1](v)
    elif form.endswith('default'): kw.update(default=v, required=form.startswith('required'))
    elif form == 'value': kw['default'] = v
    f = (fields.Integer if typed else fields.Any)(**kw)
    cls = mk('S', f=f, other=fields.Any(required=False), __len__=lambda self: 0)
    key = 'K' if keyed else 'f'
    what = (form, none, typed, keyed, v if v is not ODD else 'ODD', how and how[0])
    has = form not in ('required', 'optional')
    ch.check(cls.f.required == (form == 'required') and cls.f.has_default() == has, 'flags of the field', *what)
    for data in ({}, {'other': 1}):
        del CALLS[:]
        out = attempt(cls, data)
        ch.op('omitted', *what, out)
        if form == 'required':
            ch.check(isinstance(out.exc, ValidationError) and [(e.key, e.field) for e in out.exc.errors] == [(key, cls.f)], 'a missing required field is not reported', *what, out)
            continue
        ch.check(out.ok, 'an optional field is required', *what, out)
        x = out.value
        if form == 'optional':
            unset_checks(ch, x, cls, 'f', key, what)
            ch.check('f' not in x.dump(), 'an unset field is dumped', *what)
        else:
            ch.check(x.f is v and x.get_value_for('f') is v and x.get_value_for(key) is v and x.get_value_for('f', 'fb') is v, 'an omitted field does not have its default', *what)
            ch.check(set(x.dump()) == {'f', *data} and x.dump()['f'] is v, 'the dump of a default', *what)
        ch.same(len(CALLS), 1 if how else 0, f'calls of the default {what}')
        if how:
            ctx, fld, init = CALLS[0]
            ch.check(ctx is x.context and fld is cls.f and init is False, 'arguments of the default', *what, ctx, fld)
        # later operations do not apply it again
        n = len(CALLS)
        x.copy(); attempt(x.dump); attempt(x.update, {}); attempt(x.update, {'other': 2}); attempt(setattr, x, 'other', 3); attempt(x.update, {'zz': 0})
        ch.check(len(CALLS) == n and x.get_value_for('f', UNSET) is (v if has else UNSET), 'a later operation applied the default', *what)
        if not frozen and not typed:
            ch.check(attempt(setattr, x, 'f', 'late').ok and x.f == 'late' and x.dump()['f'] == 'late', 'the field cannot be set later', *what)
            y = cls(data) if not how else None
            if y is not None: ch.check(attempt(y.update, {key: 'up'}).ok and y.f == 'up', 'the field cannot be updated later', *what)
    # a given value always wins
    for g in (None, 0, 7, '', 'given'):
        del CALLS[:]
        out = attempt(cls, {key: g})
        ch.op('given', *what, g, out)
        ok = (none if g is None else not typed)
        ch.check(out.ok == ok, 'acceptance of a given value', *what, g, out)
        if ok: ch.check(out.value.f is g, 'a given value does not win', *what, g)
        else: ch.check(isinstance(out.exc, ValidationError) and {e.key for e in out.exc.errors} == {key}, 'other errors', *what, out)
        ch.check(not CALLS, 'the default of a given field was called', *what, g)
    ch.state(form, none, typed, keyed, frozen, repr(v), how and how[0])


def all_kinds(ch):
    """Every provided kind of field takes defaults of any value and stays unset otherwise."""
    ks = leaf_kinds()
    ks.append(Kind('Object', lambda **k: fields.Object(Inner, **k), None, [{'x': 1}], [5]))
    k = ks[ch.choose(len(ks), 'kind')]
    form = ch.pick(['required', 'optional', 'value', 'callable'], 'presence')
    v = VALUES_[ch.choose(len(VALUES_), 'default')] if form in ('value', 'callable') else None
    calls = []
    kw = {'required': {}, 'optional': dict(required=False), 'value': dict(default=v), 'callable': dict(default=lambda c, f: (calls.append((c, f)), v)[1])}[form]
    cls = mk('S', f=k.make(**kw))
    out = attempt(cls, {})
    ch.op(k.name, form, out)
    if form == 'required': ch.check(isinstance(out.exc, ValidationError) and [e.key for e in out.exc.errors] == ['f'], 'required', k.name, out)
    elif form == 'optional': unset_checks(ch, out.value, cls, 'f', 'f', (k.name,)); ch.same(out.value.dump(), {}, 'dump')
    else:
        ch.check(out.ok and out.value.f is v, 'default', k.name, form, v if v is not ODD else 0, out)
        ch.same(len(calls), form == 'callable', 'calls')
        if calls: ch.check(calls[0][0] is out.value.context and calls[0][1] is cls.f, 'arguments', k.name)
    for g in k.good:
        n = len(calls)
        out = attempt(cls, {'f': g})
        ch.check(out.ok and len(calls) == n and out.value.get_value_for('f', UNSET) is not UNSET, 'a given value', k.name, g, out)
        ch.check(k.load is None or eqv(out.value.f, k.load(g)), 'a given value does not win', k.name, g)
    for b in k.bad:
        out = attempt(cls, {'f': b})
        ch.check(isinstance(out.exc, ValidationError), 'a bad value is replaced by the default', k.name, b, out)
    ch.state(k.name, form, repr(v))


Inner = mk('Inner', x=fields.Integer())

CH = [('required',), ('optional',), ('value', 0), ('value', None), ('callable', 'object', ''), ('callable', 'function', None)]


def several(n, choices):
    names = ['a', 'b', 'c', 'd', 'e', 'g'][:n]

    def scenario(ch):
        """Several fields: exactly the missing required ones are reported, all others take their values."""
        kinds = [ch.pick(choices, f'presence of {x}') for x in names]
        given = [ch.choose(3, f'give {x}') for x in names]     # omitted, a value, None
        attrs, omitted = {}, {}
        for x, k in zip(names, kinds):
            attrs[x], omitted[x] = mkfield(k)
        cls = mk('S', attrs)
        data = {x: ('v' if g == 1 else None) for x, g in zip(names, given) if g}
        del CALLS[:]
        out = attempt(cls, data)
        ch.op('construct', kinds, data, out)
        missing = [x for x, k in zip(names, kinds) if k == ('required',) and x not in data]
        if missing:
            ch.check(isinstance(out.exc, ValidationError) and sorted(e.key for e in out.exc.errors) == missing, 'missing fields', kinds, data, out)
            ch.check(len({id(c[1]) for c in CALLS}) == len(CALLS), 'a default was called twice', kinds, data)
        else:
            ch.check(out.ok, 'rejected', kinds, data, out)
            want = {x: data.get(x, UNSET if k == ('optional',) else omitted[x]) for x, k in zip(names, kinds)}
            ch.same(snap(out.value, names), want, f'values for {kinds}')
            called = sorted(c[1].name for c in CALLS)
            ch.same(called, [x for x, k in zip(names, kinds) if k[0] == 'callable' and x not in data], 'defaults called')
            ch.check(all(c[0] is out.value.context for c in CALLS), 'context given to the defaults')
            ch.same(out.value.dump(), {x: v for x, v in want.items() if v is not UNSET}, 'dump')
        ch.state(repr(kinds), tuple(given))
    return scenario


def later(depth):
    def scenario(ch):
        """After construction no operation applies a default or unsets a field."""
        del CALLS[:]
        rej = lambda s, v, c: (_ for _ in ()).throw(ValueError('rej')) if v == 'rej' else None
        cls = mk('S', __bool__=lambda self: False, o=fields.Any(required=False, none=True, validators=[rej]), p=fields.Any(required=False, load_key='P', validators=[rej]), d=fields.Any(default=Default(0), none=True, validators=[rej]), e=fields.Any(default='', load_key='E'), r=fields.Any(none=True, default=None))
        names = ['o', 'p', 'd', 'e', 'r']
        first = ch.pick([{}, {'o': 1}, {'d': None, 'P': 2}], 'given')
        x = cls(first)
        m = dict(o=UNSET, p=UNSET, d=0, e='', r=None)
        m.update({{'P': 'p', 'E': 'e'}.get(k, k): v for k, v in first.items()})
        n0 = len(CALLS)
        ch.same(n0, 0 if 'd' in first else 1, 'calls at construction')
        ops = [('assign', 'o', 5), ('assign', 'o', 'rej'), ('assign', 'd', None), ('assign', 'p', None), ('update', {}), ('update', {'P': 'u'}), ('update', {'d': 1, 'zz': 0}), ('update', {'o': 'rej', 'E': 1}), ('update', {'r': 0, 'E': 2}), ('copy',), ('dump',), ('read',)]
        for step in range(depth):
            op = ops[ch.choose(len(ops), f'operation{step}')]
            if op[0] == 'assign':
                o = attempt(setattr, x, op[1], op[2])
                ok = op[2] != 'rej' and not (op[2] is None and op[1] == 'p')
                if ok: m[op[1]] = op[2]
            elif op[0] == 'update':
                o = attempt(x.update, op[1])
                ok = 'zz' not in op[1] and 'rej' not in op[1].values()
                if ok: m.update({{'P': 'p', 'E': 'e'}.get(k, k): v for k, v in op[1].items()})
            elif op[0] == 'copy': o = attempt(x.copy); x = o.value; ok = True
            elif op[0] == 'dump':
                o = attempt(x.dump); ok = True
                ch.same(o.value, {k: v for k, v in m.items() if v is not UNSET}, 'dump')
            else:
                o = attempt(lambda: None); ok = True
                for n in names:
                    if m[n] is UNSET: unset_checks(ch, x, cls, n, getattr(cls, n).load_key, (n, step))
            ch.op(*op, o)
            ch.check(o.ok == ok, 'outcome', op, o)
            ch.same(snap(x, names), m, f'values after {op}')
            ch.same(len(CALLS), n0, 'a later operation called a default')
        ch.state(repr(m))
    return scenario


def during(ch):
    """Fields read while the instance is being constructed: not set before preprocessing, defaults set before validators."""
    seen = {}
    kinds = [ch.pick([('optional',), ('value', ''), ('callable', 'object', 0)], f'presence{i}') for i in range(2)]
    give = [ch.flag(f'give{i}') for i in range(2)]

    def pre(self, data):
        seen['pre'] = [attempt(getattr, self, n) for n in 'fgh']
        seen['fb'] = [self.get_value_for(n, 'fb') for n in 'fgh']
        seen['fbs'] = [(fb, self.get_value_for(n, fb)) for n in ('f', 'g', 'G', 'h') for fb in VALUES_ + [None, True]]
        return data

    def post(self):
        seen['post'] = snap(self, 'fgh')

    def v(schema, value, ctx):
        seen['val'] = snap(schema, 'fgh')
    f, of = mkfield(kinds[0]); g, og = mkfield(kinds[1], load_key='G')
    cls = mk('S', f=f, g=g, h=fields.Any(validators=[v]), preprocess_data=pre, __schema_post_init__=post)
    data = {'h': 1}
    if give[0]: data['f'] = 8
    if give[1]: data['G'] = 9
    x = cls(data)
    ch.nops += 1
    for o, n in zip(seen['pre'], 'fgh'):
        ch.check(isinstance(o.exc, FieldNotSet) and o.exc.schema is x and o.exc.field is getattr(cls, n) and o.exc.name == n, 'a field is readable before the data is processed', n, o)
    ch.same(seen['fb'], ['fb'] * 3, 'fallbacks')
    ch.check(all(a is b for a, b in seen['fbs']), 'a fallback is not returned before the data is processed', [p for p in seen['fbs'] if p[0] is not p[1]])
    want = dict(f=8 if give[0] else UNSET if kinds[0][0] == 'optional' else of, g=9 if give[1] else UNSET if kinds[1][0] == 'optional' else og, h=1)
    ch.same(seen['val'], want, 'values seen by a validator')
    ch.same(seen['post'], want, 'values seen by the post initialisation hook')
    ch.state(tuple(kinds), tuple(give))


def reading(ch):
    """Callables producing defaults read the fields of the instance: none is set before its own default is there, given ones are."""
    how = ch.pick(['attribute', 'get_value_for', 'fallback None'], 'read by')
    pres = [ch.pick(['callable', 'optional', 'value'], f'field{i}') for i in range(3)]
    give = [ch.flag(f'give{i}') for i in range(3)]
    log = []

    def read(x, n):
        if how == 'attribute': o = attempt(getattr, x, n)
        elif how == 'get_value_for': o = attempt(x.get_value_for, n)
        else: return x.get_value_for(n, UNSET)
        return o.value if o.ok else UNSET if isinstance(o.exc, FieldNotSet) else o

    def dflt(ctx, field):
        log.append((field.name, {n: read(ctx.schema, n) for n in 'abc'}))
        return ['made', field.name]
    cls = mk('S', {n: fields.Any(**{'callable': dict(default=dflt), 'optional': dict(required=False), 'value': dict(default=None)}[p]) for n, p in zip('abc', pres)})
    x = cls({n: 'given' for n, g in zip('abc', give) if g})
    ch.op('construct', pres, give, log)
    ch.same(sorted(n for n, _ in log), [n for n, p, g in zip('abc', pres, give) if p == 'callable' and not g], 'calls of the default')
    made = []
    for name, got in log:
        for n, p, g in zip('abc', pres, give):
            what = (how, pres, give, name, n, got)
            if g: ch.check(got[n] in ('given', UNSET), 'a given field has another value', *what)
            elif n == name or p == 'optional' or (p == 'callable' and n not in made): ch.check(got[n] is UNSET, 'a field without a value is readable', *what)
            elif p == 'callable': ch.check(got[n] == ['made', n], 'a default already made', *what)
            else: ch.check(got[n] is None or got[n] is UNSET, 'another default', *what)
        made.append(name)
    for n, p, g in zip('abc', pres, give):
        ch.check(eqv(x.get_value_for(n, UNSET), 'given' if g else UNSET if p == 'optional' else None if p == 'value' else ['made', n]), 'the value', pres, give, n)
    ch.state(how, tuple(pres), tuple(give))


def inherited(ch):
    """Defaults of inherited, overridden and copied fields, and of nested schemas."""
    form = ch.pick(['inherited', 'overridden', 'copied', 'nested', 'nested default'], 'form')
    v = VALUES_[ch.choose(len(VALUES_), 'default')]
    call = ch.flag('callable')
    d = Default(v) if call else v
    del CALLS[:]
    P = mk('P', f=fields.Any(default=d), g=fields.Any(required=False))
    if form == 'inherited': cls = mk('C', (), (P,)); key = None
    elif form == 'overridden': cls = mk('C', dict(f=fields.Any(default='other')), (P,)); key = None
    elif form == 'copied': cls = mk('C', dict(f=P.f.copy(), g=P.g.copy())); key = None
    elif form == 'nested': cls = mk('C', n=fields.Object(P))
    else: cls = mk('C', n=fields.Object(P, default=lambda c, f: P({})))
    if form.startswith('nested'):
        x = cls({'n': {}} if form == 'nested' else {})
        y = x.n
    else:
        x = y = cls({})
    want = 'other' if form == 'overridden' else v
    ch.check(y.f is want or (form == 'overridden' and y.f == want), 'default', form, v if v is not ODD else 0)
    unset_checks(ch, y, type(y), 'g', 'g', (form,))
    ch.same(len(CALLS), int(call and form != 'overridden'), 'calls of the default')
    if CALLS: ch.check(CALLS[0][0] is y.context and CALLS[0][1] is type(y).f, 'arguments of the default', form)
    if form == 'overridden':
        ch.check(P({}).f is v, 'default of the parent')
    ch.state(form, repr(v), call)


@also_nested('defaults')
@also('defaults')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='one field', fn=one),
        dict(name='all kinds', fn=all_kinds),
        dict(name='three fields', fn=several(3, CH)),
        dict(name='four fields', fn=several(4, CH[:3] + CH[4:5] if th else [CH[0], CH[1], CH[4]])),
        dict(name='later operations', fn=later(3 if not th else 4)),
        dict(name='during construction', fn=during),
        dict(name='inherited', fn=inherited),
        dict(name='reading defaults', fn=reading),
    ] + ([dict(name='six fields', fn=several(6, [CH[0], CH[4]]))] if th else [])
