"""C19 Every validator runs once, on the right value, at the right time."""
import collections, functools, itertools
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['the relative order of raw and other validators is not specified'])

LOG = []
OUTCOMES = ['pass', 've', 'fe', 'ae', 'empty', 'seq']


class Ev:
    """One call of user code."""
    __slots__ = ('what', 'name', 'schema', 'value', 'ctx', 'state', 'seen', 'update')
    def __repr__(self):
        return f'{self.what}:{self.name}({self.value!r})'


def record(what, name, schema, value, ctx):
    e = Ev()
    e.what, e.name, e.schema, e.value, e.ctx = what, name, schema, value, ctx
    e.state = dict(ctx.state)
    ctx.state[(what, name)] = len(ctx.state)
    e.seen = {n: schema.get_value_for(n, UNSET) for n in all_field_names(type(schema))}
    e.update = ctx.is_update() if hasattr(ctx, 'is_update') else None
    LOG.append(e)


def respond(kind, name):
    if kind == 've': raise ValueError(name)
    if kind == 'fe': raise FieldError(name)
    if kind == 'ae': raise AssertionError(name)
    if kind == 'empty': raise ValueError
    if kind == 'seq': raise FieldError([name + '1', name + '2'])
    return name        # results of validators are ignored


class F(fields.Field):
    def value_load(self, value, context):
        record('load', self.name, context.schema, value, context)
        if isinstance(value, list) and value[0] == 'bad':
            respond(value[1], 'load')
        return ('loaded', value)

    def value_dump(self, value, context):
        record('dump', self.name, context.schema, value, context)
        return value[1]


def func(name, outcome):
    def v(schema, value, ctx):
        record('val', name, schema, value, ctx)
        return respond(outcome(value) if callable(outcome) else outcome, name)
    return v


def klass(name, outcome, raw):
    class V(validate.Validator, raw=raw):
        def validate(self, value, ctx):
            record('val', name, ctx.schema, value, ctx)
            return respond(outcome(value) if callable(outcome) else outcome, name)
    return V()


# form: (phase, raw)
FORMS = [('ctor fn', 0, False), ('ctor class', 0, False), ('ctor raw class', 0, True), ('add fn', 1, False), ('add raw fn', 1, True), ('add raw class', 1, True),
         ('add class as raw', 1, False), ('deco field', 2, False), ('deco raw field', 2, True), ('deco name', 2, False), ('deco raw name', 2, True), ('late fn', 3, False), ('late raw fn', 3, True)]


def declare(fname, slots, **kw):
    """slots: (form index, outcome).  Returns (field, attributes, finish) and the expected names per kind in registration order."""
    names = [f'{fname}{i}' for i in range(len(slots))]
    made, ctor = [], []
    for n, (fi, oc) in zip(names, slots):
        form = FORMS[fi][0]
        if 'class' in form:
            made.append(klass(n, oc, 'raw' in form and 'as raw' not in form))
        else:
            made.append(func(n, oc))
    ctor = [m for m, (fi, _) in zip(made, slots) if FORMS[fi][1] == 0]
    field = F(validators=ctor, **kw) if ctor else F(**kw)
    attrs = {fname: field}
    for m, (fi, _) in zip(made, slots):
        form = FORMS[fi][0]
        if form in ('add fn', 'add raw class'):
            field.add_validator(m)
        elif form in ('add raw fn', 'add class as raw'):
            field.add_validator(m, raw=True)
    for n, m, (fi, _) in zip(names, made, slots):
        form = FORMS[fi][0]
        if FORMS[fi][1] == 2:
            target = fname if 'name' in form else field
            attrs['val_' + n] = validate.field(target, raw=True)(m) if 'raw' in form else validate.field(target)(m)

    def finish():
        for m, (fi, _) in zip(made, slots):
            if FORMS[fi][1] == 3:
                field.add_validator(m, raw='raw' in FORMS[fi][0])
    order = sorted(range(len(slots)), key=lambda i: FORMS[slots[i][0]][1])
    exp = {raw: [names[i] for i in order if FORMS[slots[i][0]][2] == raw] for raw in (True, False)}
    return field, attrs, finish, exp


def expect_one(ch, what, log, cls, inst, fname, raw, none_ok, exp, update, value_given=True):
    """Compares the calls recorded for one given value with the protocol."""
    mine = [e for e in log if e.ctx.field is getattr(cls, fname)]
    loads = [e for e in mine if e.what == 'load']
    vals = [e for e in mine if e.what == 'val']
    bad = isinstance(raw, list) and raw[0] == 'bad'
    ch.same(len(loads), 0 if raw is None else 1, f'number of deserializations ({what})')
    names = [e.name for e in vals]
    raws = [e for e in vals if e.name in exp[True]]
    others = [e for e in vals if e.name in exp[False]]
    ch.same([e.name for e in raws], exp[True], f'raw validators called ({what}, all: {names})')
    ch.same([e.name for e in others], [] if raw is None or bad else exp[False], f'validators called ({what}, all: {names})')
    ch.same(len(raws) + len(others), len(vals), f'validators of something else ran ({what}, {names})')
    for e in raws:
        ch.check(e.value is raw, 'a raw validator did not get the raw value', what, e, raw)
    for e in others:
        ch.check(e.value == ('loaded', raw) and e.value[1] is raw, 'a validator did not get the deserialized value', what, e, raw)
    if mine:
        c = mine[0].ctx
        ch.check(all(e.ctx is c for e in mine), 'different contexts for one value', what)
        ch.check(isinstance(c, oblate.LoadContext) and c.value is raw and c.schema is inst and c.field is getattr(cls, fname), 'the context is wrong', what, c.value, raw)
        seen = {}
        for e in mine:
            ch.check(e.schema is inst, 'called for another schema', what, e)
            ch.same(e.state, seen, f'the state of the context is not fresh or not shared ({what})')
            seen[(e.what, e.name)] = len(seen)
            if update is not None: ch.same(e.update, update, f'is_update ({what})')
    return mine


def validators_last(ch, log, what):
    k = [e.what for e in log]
    if 'val' in k:
        first = k.index('val')
        ch.check(all(x == 'val' for x in k[first:]), 'a value was loaded after a validator ran', what, log)


def one_field(n, outcomes, forms):
    def scenario(ch):
        slots = [(ch.pick(forms, f'form{i}'), ch.pick(outcomes, f'outcome{i}')) for i in range(n)]
        none_ok = ch.flag('none allowed')
        raw = ch.pick([0, None, ['bad', 've'], ['ok']], 'value')
        op = ch.pick(['construct', 'update', 'assign'], 'operation')
        del LOG[:]
        field, attrs, finish, exp = declare('f', slots, none=none_ok, required=False)
        cls = mk('S', **attrs)
        finish()
        inst = None
        if op != 'construct':
            inst = cls({})
            ch.check(not LOG, 'user code ran for an omitted field', LOG)
        if op == 'construct': out = attempt(cls, {'f': raw})
        elif op == 'update': out = attempt(inst.update, {'f': raw})
        else: out = attempt(setattr, inst, 'f', raw)
        ch.op(op, raw, [FORMS[f][0] + ':' + o for f, o in slots], out)
        if inst is None:
            inst = out.value if out.ok else out.exc.schema if isinstance(out.exc, ValidationError) else None
        ch.check(out.ok or isinstance(out.exc, ValidationError), 'unexpected exception', out)
        log = list(LOG)
        expect_one(ch, (op, [FORMS[f][0] + ':' + o for f, o in slots]), log, cls, inst, 'f', raw, none_ok, exp, op != 'construct')
        if op == 'construct':
            validators_last(ch, log, slots)
            if raw is not None and not isinstance(raw, list):
                ch.check(all(e.seen['f'] == ('loaded', raw) for e in log if e.what == 'val'), 'the field was not loaded when its validator ran', log)
        fails = (raw is None and not none_ok) or (isinstance(raw, list) and raw[0] == 'bad')
        ran = set(exp[True]) | (set() if raw is None or (isinstance(raw, list) and raw[0] == 'bad') else set(exp[False]))
        fails = fails or any(o != 'pass' for i, (f, o) in enumerate(slots) if f'f{i}' in ran)
        ch.check(out.ok == (not fails), 'wrong outcome', slots, raw, out)
        ch.state(tuple(slots), none_ok, repr(raw), op)
    return scenario


def many_validators(ch):
    """Up to six validators of mixed rawness, each failing in any way or none: none is skipped, order is kept."""
    n = 6
    pattern = ch.choose(2 ** n, 'rawness')
    failing = ch.choose(2 ** n, 'failing')
    kind = ch.pick(['fe', 'empty'], 'failure')
    op = ch.pick(['construct', 'update', 'assign'], 'operation')
    slots = [((4 if pattern >> i & 1 else 3), kind if failing >> i & 1 else 'pass') for i in range(n)]
    del LOG[:]
    field, attrs, finish, exp = declare('f', slots, required=False)
    cls = mk('S', **attrs)
    inst = cls({}) if op != 'construct' else None
    out = attempt(cls, {'f': ''}) if op == 'construct' else attempt(inst.update, {'f': ''}) if op == 'update' else attempt(setattr, inst, 'f', '')
    inst = inst or (out.value if out.ok else out.exc.schema)
    expect_one(ch, (op, slots), list(LOG), cls, inst, 'f', '', False, exp, op != 'construct')
    ch.check((0 if out.ok else len(out.exc.errors)) == bin(failing).count('1'), 'number of errors', slots, out)
    ch.nops += 1
    ch.state(pattern, failing, kind, op)


class EqV(validate.Validator):
    """Every two of these are equal."""
    def __init__(self, name):
        self.name = name
    def __eq__(self, other):
        return isinstance(other, EqV)
    def __hash__(self):
        return 7
    def validate(self, value, ctx):
        CALLS.append(self.name)
        raise ValueError(self.name)


CALLS = []


def repeats(length):
    """The same or equal validators registered any number of times: each registration makes one call."""
    def scenario(ch):
        def plain(schema, value, ctx):
            CALLS.append('plain')
            raise ValueError('plain')
        pool = [('plain', plain), ('e1', EqV('e1')), ('e2', EqV('e2'))]
        where = ch.pick(['list', 'add', 'or'], 'registered by')
        regs = [(ch.choose(3, f'validator{i}'), where == 'add' and ch.flag(f'raw{i}')) for i in range(length)]
        op = ch.pick(['construct', 'update', 'assign'], 'operation')
        if where == 'list':
            f = F(validators=[pool[i][1] for i, _ in regs], required=False)
        elif where == 'add':
            f = F(required=False)
            for i, raw in regs:
                f.add_validator(pool[i][1], raw=raw)
        else:
            f = F(validators=(validate.Or(*[pool[i][1] for i, _ in regs]),) * 2, required=False)
        cls = mk('S', f=f)
        inst = cls({}) if op != 'construct' else None
        for rep in range(2):
            del CALLS[:]
            out = attempt(cls, {'f': 1}) if op == 'construct' else attempt(inst.update, {'f': 1}) if op == 'update' else attempt(setattr, inst, 'f', 1)
            ch.op(op, regs, out)
            rn = [pool[i][0] for i, raw in regs if raw and i == 0]      # a validator class decides its own rawness
            on = [pool[i][0] for i, raw in regs if not (raw and i == 0)]
            if where == 'or':
                on = on * 2
            ch.check(list(CALLS) in (rn + on, on + rn), 'calls of the registered validators', where, regs, list(CALLS))
            ch.check(isinstance(out.exc, ValidationError), 'the failures are not reported', out)
            want = ['All validations failed for the given value'] * 2 if where == 'or' else rn + on
            ch.same(len(out.exc.errors), len(want), 'number of failures')
            if where != 'or':
                ch.same(sorted(e.message for e in out.exc.errors), sorted(want), 'reported failures')
        ch.state(where, tuple(regs), op)
    return scenario


VALS = [UNSET, 0, None, ['bad', 'fe'], ['ok']]


def several_fields(nf, vals, ops):
    """Several fields with raw and other validators: all fields and defaults are loaded before any validator runs at construction."""
    names = ['f', 'g', 'h', 'i'][:nf]

    def scenario(ch):
        op = ch.pick(ops, 'operation')
        dkind = ch.pick(['none', 'value', 'callable'], 'default')
        failing = ch.choose(3, 'failing')      # nothing, the first field's validators, all raw ones
        data, exps, attrs, fins = {}, {}, {}, []
        for i, n in enumerate(names):
            oc = [lambda v: 'pass', lambda v: 'fe'][failing == 1 and i == 0]
            roc = [lambda v: 'pass', lambda v: 've'][failing == 2]
            kw = dict(required=False, none=(i == 1), load_key=n.upper() if i != 1 else n)
            slots = [(3, oc), (4, roc), (9, oc), (10, roc)] if i == 0 else [(1, oc), (2, roc)] if i == 1 else [(12, roc), (11, oc)]
            field, a, fin, exps[n] = declare(n, slots, **kw)
            attrs.update(a); fins.append(fin)
            v = ch.pick(vals, f'value of {n}')
            if v is not UNSET:
                data[n] = v
        calls = []

        def dflt(ctx, field):
            calls.append((ctx, field, len(LOG)))
            return ('loaded', 'default')
        d, a, fin, exps['d'] = declare('d', [(3, 'fe'), (4, 'fe')], **({} if dkind == 'none' else dict(default=dflt if dkind == 'callable' else ('loaded', 'default'))), **({'required': False} if dkind == 'none' else {}))
        attrs.update(a); fins.append(fin)
        cls = mk('S', **attrs)
        for f in fins: f()
        del LOG[:]
        raw = {getattr(cls, n).load_key: v for n, v in data.items()}
        if ch.flag('reversed'): raw = dict(reversed(raw.items()))
        inst = None
        if op == 'update':
            inst = cls({})
            ch.check(not LOG, 'user code ran for omitted fields', LOG)
            n0 = len(calls)
            out = attempt(inst.update, raw)
            ch.check(len(calls) == n0, 'a default was computed by an update')
        else:
            out = attempt(cls, raw)
            inst = out.value if out.ok else out.exc.schema
        ch.op(op, raw, dkind, failing, out)
        log = list(LOG)
        for n in names:
            if n in data:
                expect_one(ch, (op, n, raw, failing), log, cls, inst, n, data[n], n == 'g', exps[n], op == 'update')
            else:
                ch.check(not [e for e in log if e.ctx.field is getattr(cls, n)], 'user code ran for an omitted field', n, log)
        ch.check(not [e for e in log if e.ctx.field is cls.d], 'validators ran for a default', log)
        ctxs = {}
        for e in log:
            ctxs.setdefault(id(e.ctx), set()).add(e.ctx.field.name)
        ch.check(all(len(x) == 1 for x in ctxs.values()) and len(ctxs) == len({e.ctx.field.name for e in log}), 'contexts are shared between values', log)
        if op == 'construct':
            validators_last(ch, log, raw)
            for e in log:
                if e.what == 'val':
                    for n, v in data.items():
                        if not (v is None and n != 'g') and not (isinstance(v, list) and v[0] == 'bad'):
                            ch.check(e.seen[n] == (None if v is None else ('loaded', v)), 'a given field was not loaded when a validator ran', e, n, e.seen)
                    ch.check(e.seen['d'] == (UNSET if dkind == 'none' else ('loaded', 'default')), 'a default was not loaded when a validator ran', e, e.seen)
            ch.same(len(calls), 1 if dkind == 'callable' else 0, 'calls of the default')
            if 'val' in [e.what for e in log] and calls:
                ch.check(calls[0][2] <= [e.what for e in log].index('val'), 'the default was computed after a validator ran', log)
        ch.state(op, dkind, failing, repr(raw))
    return scenario


class DefObj:
    """Callable instance, class, method owner."""
    def __init__(self, *a):
        self.a = a
        if a: TIMES.append(len(LOG))
    def __call__(self, ctx, field):
        TIMES.append(len(LOG)); return ('called', field.name)
    def method(self, ctx, field):
        TIMES.append(len(LOG)); return ('method', field.name)
    @classmethod
    def cmethod(cls, ctx, field):
        TIMES.append(len(LOG)); return ('cmethod', field.name)
    @staticmethod
    def smethod(ctx, field):
        TIMES.append(len(LOG)); return ('smethod', field.name)


TIMES = []
_obj = DefObj()
DEFKINDS = [('value', 5, False), ('None', None, False), ('falsy', '', False), ('unhashable', [], False), ('text', 'f', False), ('lambda', lambda c, f: TIMES.append(len(LOG)) or 'made', True), ('class', DefObj, True),
            ('callable object', _obj, True), ('bound', _obj.method, True), ('classmethod', DefObj.cmethod, True), ('static', DefObj.smethod, True), ('partial', functools.partial(DefObj.smethod), True),
            ('gives None', lambda c, f: None, True), ('tuple class', collections.namedtuple('Pair', 'c f'), True), ('schema', mk('Dflt')({}), False)]


def default_kinds(ch):
    """Defaults of every kind are loaded before any validator runs, and none of them meets a validator."""
    name, d, called = ch.pick(DEFKINDS, 'default')
    pos = ch.pick(['before', 'after', 'inherited'], 'position')
    failing = ch.flag('failing')
    given = ch.pick(['one', 'two', 'bad', 'none'], 'given')
    oc = 'fe' if failing else 'pass'
    f, a1, fin1, e1 = declare('f', [(3, oc), (4, 'pass'), (9, 'pass')], required=False)
    g, a2, fin2, e2 = declare('g', [(0, 'pass'), (5, oc)], required=False)
    dd, a3, fin3, e3 = declare('d', ch.pick([[(3, 'fe'), (4, 'fe')], [(3, 'fe'), (0, 'pass'), (4, 'fe'), (9, 've'), (2, 'pass')], [(1, 'fe')], [(5, 'fe')]], 'validators of it'), default=d)
    ex = dict(e=fields.Any(default=lambda c, fl: 'other'))
    if pos == 'inherited': cls = mk('S', {**a1, **a2}, (mk('P', {**a3, **ex}),))
    else: cls = mk('S', {**a3, **a1, **a2, **ex} if pos == 'before' else {**a1, **a2, **a3, **ex})
    data = {'one': {'f': 1}, 'two': {'f': 1, 'g': 2}, 'bad': {'g': ['bad', 've'], 'f': 1}, 'none': {}}[given]
    del LOG[:], TIMES[:]
    out = attempt(cls, data)
    log = list(LOG)
    inst = out.value if out.ok else out.exc.schema
    ch.op('construct', name, pos, failing, given, out)
    for n, v in data.items():
        expect_one(ch, (name, pos, given), log, cls, inst, n, v, False, {'f': e1, 'g': e2}[n], False)
    ch.check(all(e.ctx.field.name != 'd' for e in log), 'validators ran for a default', name, log)
    validators_last(ch, log, name)
    for e in log:
        if e.what == 'val':
            ch.check(e.seen['d'] is not UNSET and e.seen['e'] == 'other', 'a default was not loaded when a validator ran', name, pos, e, e.seen)
            ch.check(e.seen['d'] is inst.get_value_for('d'), 'a default changed after a validator ran', name, pos, e)
    got = inst.get_value_for('d', UNSET)
    want = {'lambda': 'made', 'callable object': ('called', 'd'), 'bound': ('method', 'd'), 'classmethod': ('cmethod', 'd'), 'static': ('smethod', 'd'), 'partial': ('smethod', 'd'), 'gives None': None}
    if called and name in want: ch.check(got == want[name], 'the default is not the result of the call', name, got)
    if name == 'class': ch.check(type(got) is DefObj and got.a == (inst.context, cls.d), 'the default is not the result of the call', name, got)
    if name == 'tuple class': ch.check(got == (inst.context, cls.d), 'the default is not the result of the call', name, got)
    if not called: ch.check(got is d, 'the default is another object', name, got)
    vals = [e.what for e in log]
    if TIMES and 'val' in vals:
        ch.check(max(TIMES) <= vals.index('val'), 'the default was computed after a validator ran', name)
    ch.state(name, pos, failing, given)


def kinds(ch):
    """Every kind of field: its validators see exactly the value that is stored, raw ones exactly the value given."""
    ks = leaf_kinds()
    k = ks[ch.choose(len(ks), 'kind')]
    op = ch.pick(['construct', 'update', 'assign'], 'operation')
    seen = []
    v1 = lambda s, v, c: seen.append(('v', v, c))
    v2 = lambda s, v, c: seen.append(('r', v, c))
    f = k.make(validators=[v1], required=False)
    f.add_validator(v2, raw=True)
    cls = mk('S', f=f)
    for raw, good in [(x, True) for x in k.good] + [(x, False) for x in k.bad]:
        del seen[:]
        inst = cls({}) if op != 'construct' else None
        out = attempt(cls, {'f': raw}) if op == 'construct' else attempt(inst.update, {'f': raw}) if op == 'update' else attempt(setattr, inst, 'f', raw)
        inst = inst or out.value
        ch.op(op, k.name, raw, out)
        ch.same(sorted(s[0] for s in seen), ['r', 'v'] if good else ['r'], f'validators called for {k.name} {raw!r}')
        for w, v, c in seen:
            ch.check(v is (raw if w == 'r' else inst.f) if good else v is raw, 'a validator got another value', k.name, raw, v)
            ch.check(c.value is raw and c.field is cls.f and c is seen[0][2], 'wrong context', k.name)
        ch.state(k.name, op, repr(raw))


def nested(ch):
    """Validators of nested fields run once per nested value, with contexts of the nested schema."""
    In = mk('In', **declare_attrs('x', [(3, 'pass'), (4, 'pass'), (9, 'pass')]))
    ocs = [ch.pick(['pass', 'fe'], f'o{i}') for i in range(2)]
    seen = []
    attrs = {}
    for n, oc in zip('pq', ocs):
        def v(schema, value, ctx, n=n, oc=oc):
            seen.append((n, 'v', schema, value, ctx)); respond(oc, n)
        def r(schema, value, ctx, n=n, oc=oc):
            seen.append((n, 'r', schema, value, ctx)); respond(oc, n)
        attrs[n] = fields.Object(In, validators=[v], required=False, none=True)
        attrs[n].add_validator(r, raw=True)
    cls = mk('Out', **attrs)
    ready = In({'x': 9})
    pick = [ch.pick([UNSET, {'x': 0}, {'x': ['bad', 've']}, None, {}, ready, 5], f'value of {n}') for n in 'pq']
    op = ch.pick(['construct', 'update', 'assign'], 'operation')
    data = {n: v for n, v in zip('pq', pick) if v is not UNSET}
    if op == 'assign' and len(data) != 1:
        from mc.core import Skip
        raise Skip
    inst = cls({}) if op != 'construct' else None
    del LOG[:], seen[:]
    out = attempt(cls, data) if op == 'construct' else attempt(inst.update, data) if op == 'update' else attempt(setattr, inst, *list(data.items())[0])
    inst = inst or (out.value if out.ok else out.exc.schema)
    ch.op(op, data, ocs, out)
    for n, v in data.items():
        ok = v is None or v is ready or v == {'x': 0}
        mine = [s for s in seen if s[0] == n]
        ch.same([s[1] for s in mine if s[1] == 'r'], ['r'], 'raw validators of the nested field')
        ch.same([s[1] for s in mine if s[1] == 'v'], ['v'] if ok and v is not None else [], 'validators of the nested field')
        for s in mine:
            ch.check(s[2] is inst and s[4].schema is inst and s[4].field is getattr(cls, n) and s[4].value is v and s[4] is mine[0][4], 'context of the nested field', n, s)
            ch.check(s[3] is v if s[1] == 'r' else isinstance(s[3], In) and s[3].x == ('loaded', v['x'] if isinstance(v, dict) else 9), 'value of the nested field', n, s)
    want = []
    for n, v in data.items():
        if isinstance(v, dict) and 'x' in v:
            want.append(v['x'])
    groups = {}
    for e in LOG:
        groups.setdefault(id(e.ctx), []).append(e)
    ch.same(len(groups), len(want), 'contexts of nested values')
    got = sorted((len([e for e in g if e.what == 'load']), [e.name for e in g if e.what == 'val' and e.name == 'x1'], [e.name for e in g if e.what == 'val' and e.name != 'x1'], repr(g[0].ctx.value)) for g in groups.values())
    exp = sorted((1, ['x1'], [] if isinstance(w, list) else ['x0', 'x2'], repr(w)) for w in want)
    ch.same(got, exp, 'calls for the nested values')
    for g in groups.values():
        ch.check(all(e.schema is g[0].schema and isinstance(e.schema, In) and e.update is False for e in g), 'schema of the nested values', g)
    ch.state(op, repr(data), tuple(ocs))


def declare_attrs(fname, slots):
    return declare(fname, slots)[1]


def sequences(depth):
    """Sequences of successful and failed operations: every operation makes exactly its own calls."""
    def scenario(ch):
        oc = lambda v: 'fe' if v in ('rej', ('loaded', 'rej')) else 'pass'
        f, a1, fin1, e1 = declare('f', [(3, oc), (4, 'pass'), (9, 'pass')], none=True)
        g, a2, fin2, e2 = declare('g', [(0, 'pass'), (10, oc), (5, 'pass')], required=False)
        cls = mk('S', **a1, **a2)
        exp = {'f': e1, 'g': e2}
        inst = cls({'f': 0})
        ops = [('construct', dict(f=1, g=2)), ('construct', dict(f='rej', g='rej')), ('construct', dict(g=['bad', 've'])), ('update', dict(f='rej', g=3)), ('update', dict(g=4, f=None)), ('update', dict(f=['bad', 've'])),
               ('assign', dict(f='rej')), ('assign', dict(g=5)), ('assign', dict(g=None)), ('copy', {}), ('dump', {})]
        for step in range(depth):
            op, data = ops[ch.choose(len(ops), f'operation{step}')]
            del LOG[:]
            target = inst
            if op == 'construct':
                out = attempt(cls, data)
                target = out.value if out.ok else out.exc.schema
            elif op == 'update': out = attempt(inst.update, data)
            elif op == 'assign': out = attempt(setattr, inst, *list(data.items())[0])
            elif op == 'copy': inst = inst.copy(); out = None
            else: out = attempt(inst.dump)
            log = [e for e in LOG if e.what != 'dump']
            ch.op(op, data, out)
            for n in 'fg':
                if n in data:
                    expect_one(ch, (op, n, data, step), log, cls, target, n, data[n], n == 'f', exp[n], op != 'construct')
                else:
                    ch.check(not [e for e in log if e.ctx.field.name == n], 'user code ran for a field that was not given', op, data, log)
            if op == 'construct':
                validators_last(ch, log, data)
        ch.state(snap(inst, 'fg'))
    return scenario


def acting_validators(nf):
    names = ['f', 'g', 'h'][:nf]

    def scenario(ch):
        """Validators that assign or update fields: the other validators of the operation still run once, on the values the operation was given."""
        op = ch.pick(['construct', 'update', 'assign'], 'operation')
        actor = ch.choose(nf, 'acting field')
        target = ch.choose(nf, 'changed field')
        raw = ch.flag('raw')
        pos = ch.pick(['first', 'last'], 'position')
        how = ch.pick(['assign', 'update', 'assign none', 'copy', 'failing update', 'dump', 'construct'], 'action')
        given = [n for i, n in enumerate(names) if i == actor or ch.flag(f'{n} given')]
        if op == 'assign' and len(given) > 1: raise Skip
        armed = []

        def act(schema, value, ctx):
            if not armed: return
            armed.pop()
            t = names[target]
            if how == 'assign': setattr(schema, t, 'other')
            elif how == 'update': schema.update({t: 'other'})
            elif how == 'assign none': setattr(schema, t, None)
            elif how == 'copy': setattr(schema.copy(), t, 'other')
            elif how == 'failing update': attempt(schema.update, {t: 'other', 'zz': 1})
            elif how == 'dump': schema.dump()
            else: type(schema)({t: 'other'})
        attrs, exps = {}, {}
        for i, n in enumerate(names):
            slots = [(3, 'pass'), (4, 'pass'), (9, 'pass')]
            f, a, fin, exps[n] = declare(n, slots, required=False, none=True)
            if i == actor and pos == 'first':
                f2 = F(required=False, none=True)
                f2.add_validator(act, raw=raw)
                a = {}
                for nm, (form, r) in zip([f'{n}0', f'{n}1', f'{n}2'], [('v', False), ('r', True), ('v', False)]):
                    f2.add_validator(func(nm, 'pass'), raw=r)
                exps[n] = {False: [f'{n}0', f'{n}2'], True: [f'{n}1']}
                a = {n: f2}
            elif i == actor:
                f.add_validator(act, raw=raw)
            attrs.update(a)
        cls = mk('S', **attrs)
        data = {n: ('raw', n) for n in given}
        inst = cls({}) if op != 'construct' else None
        del LOG[:]
        armed.append(1)
        out = attempt(cls, data) if op == 'construct' else attempt(inst.update, data) if op == 'update' else attempt(setattr, inst, *list(data.items())[0])
        ch.op(op, names[actor], names[target], raw, pos, how, given, out)
        ch.check(out.ok, 'the operation failed', out)
        inst = inst or out.value
        for n in given:
            log = [e for e in LOG if e.schema is inst and e.ctx.value is data[n]]
            expect_one(ch, (op, actor, target, raw, pos, how, n), log, cls, inst, n, data[n], True, exps[n], op != 'construct')
        if how in ('assign', 'update', 'failing update') or how == 'assign none':
            t = names[target]
            want = None if how == 'assign none' else 'other'
            log = [e for e in LOG if e.schema is inst and e.ctx.value is want]
            if armed: ch.check(False, 'the acting validator did not run')
            expect_one(ch, ('inner', op, actor, target, raw, pos, how), log, cls, inst, t, want, True, exps[t], True if op != 'construct' else None)
        ch.state(op, actor, target, raw, pos, how, tuple(given))
    return scenario


@also_nested('calls')
@also('calls')
def scenarios(tier):
    th = tier == 'thorough'
    allf = range(len(FORMS))
    return [
        dict(name='one validator', fn=one_field(1, OUTCOMES, allf)),
        dict(name='two validators', fn=one_field(2, OUTCOMES if th else ('pass', 've', 'empty'), allf)),
        dict(name='three validators', fn=one_field(3, ('pass', 'fe'), allf if th else (0, 2, 3, 4, 7, 10, 12))),
        dict(name='many validators', fn=many_validators),
        dict(name='three fields', fn=several_fields(3, VALS, ('construct', 'update'))),
        dict(name='default kinds', fn=default_kinds),
        dict(name='repeats', fn=repeats(5 if th else 4)),
        dict(name='kinds', fn=kinds),
        dict(name='nested', fn=nested),
        dict(name='acting validators', fn=acting_validators(3)),
        dict(name='sequences', fn=sequences(3 if not th else 4)),
    ] + ([dict(name='four fields', fn=several_fields(4, VALS, ('construct', 'update')))] if th else [])
