"""Interplay of features: a complete reference model of small schemas, compared with the real code.

The declaration space (three fields x kind, presence, None, frozen, validators; the keys; the configuration; the way the fields
came into the class; the error format) is covered by an array in which all combinations of values of every two (thorough: three)
of the factors occur.  In every world all operations with all combinations of values are run in several states of an instance.
A difference is reported only by the check of the property it concerns (`aspects`); after every operation the model takes over the
actual state, so that a difference concerns one operation only.
"""
import functools, itertools
from mc.cover import array, covers
from mc.lib import *

NAMES = ('a', 'b', 'c')
KINDS = ['int', 'int~', 'obj', 'list', 'twice', 'text', 'any', 'float', 'dict', 'union', 'set', 'literal']
PRES = ['required', 'optional', 'value', 'callable']
VALS = ['none', 'val', 'raw', 'both', 'two']
KEYING = ['plain', 'fresh load', 'rotated load', 'rotated dump', 'data', 'fresh both']
CONFIG = ['default', 'ignore_extra', 'frozen', 'bare']
SHAPE = ['direct', 'inherited', 'overridden', 'copied', 'diamond', 'grandchild']
FMT = ['coded', 'default']
PREPS = ['full', 'minimal', 'after failures', 'nones', 'copied', 'updated']     # states of the instance that is changed
FACTORS = [f for n in NAMES for f in (KINDS, PRES, [False, True], [False, True], VALS)] + [KEYING, CONFIG, SHAPE, FMT, PREPS]
LEVELS = [len(f) for f in FACTORS]


@functools.lru_cache(None)
def rows(t):
    r = array(LEVELS, t)
    assert covers(r, LEVELS, t)
    return r


LOG, HOOKS = [], []


class Crash(Exception):
    pass


class Twice(fields.Field):
    __slots__ = ()
    def value_load(self, value, context):
        LOG.append(('load', self.name, norm(value), context, context.is_update()))
        if value == 'bad': raise ValueError('L.' + self.name)
        if value == 66: raise Crash(self.name)
        return ('L', value)
    def value_dump(self, value, context):
        return None if value is None else ('D', value[1])


class CTwice(Twice):
    __slots__ = ()
    def format_error(self, code, ctx, /):
        return f'<{code}>'


def norm(v):
    if isinstance(v, Schema): return ('In', v.get_value_for('n', UNSET))
    if isinstance(v, dict): return tuple(v.items())
    if isinstance(v, set): return frozenset(v)
    return v


SPECIAL = {n: (n, str(n), [n], ('L', n), {'n': n}, ('In', n), float(n), {n: n}, {n}) for n in (13, 66)}


def special(v):
    n = norm(v)
    for k, vs in SPECIAL.items():
        for x in vs:
            if type(n) is type(norm(x)) and n == norm(x): return k


# raw values of every kind by variant
RAW = {
    'int': dict(good1=1, good2=2, bad='x', rej=13, boom=66), 'int~': dict(good1='1', good2=2, bad='x', rej='13', boom='66'),
    'obj': dict(good1={'n': 1}, good2='INSTANCE', bad={'n': 'x', 'q': 1}, rej={'n': 13}, boom={'n': 66}),
    'list': dict(good1=[1], good2=[2, 3], bad=['x'], rej=[13], boom=[66]), 'twice': dict(good1=1, good2='v', bad='bad', rej=13, boom=66),
    'text': dict(good1='a', good2='', bad=5, rej='13', boom='66'), 'float': dict(good1=1.5, good2=-0.0, bad='x', rej=13.0, boom=66.0),
    'dict': dict(good1={1: 1}, good2={}, bad={1: 'x'}, rej={13: 13}, boom={66: 66}), 'union': dict(good1=1, good2='v', bad=1.5, rej=13, boom='66'),
    'set': dict(good1={1}, good2=set(), bad={'x'}, rej={13}, boom={66}), 'literal': dict(good1='v', good2=0, bad='x', rej=13, boom='66'),
    'any': dict(good1=1, good2={}, bad='y', rej=13, boom=66),
}
DEFAULTS = {'int': 7, 'int~': 8, 'list': [], 'twice': ('L', 'dflt'), 'text': 'dflt', 'any': False, 'float': 'unchecked', 'dict': {'d': 'e'}, 'union': 0, 'set': {5}, 'literal': 'unchecked'}


class World:
    """One declaration: the classes, and the model."""

    def __init__(self, row):
        it = iter(f[i] for f, i in zip(FACTORS, row))
        self.f = {n: dict(kind=next(it), pres=next(it), none=next(it), frozen=next(it), vals=next(it)) for n in NAMES}
        self.keying, self.config, self.shape, self.fmt, self.prep = it
        self.coded = self.fmt == 'coded'
        rot = dict(zip(NAMES, NAMES[1:] + NAMES[:1]))
        self.load = {n: {'fresh load': 'K' + n, 'rotated load': rot[n], 'data': 'X' + n, 'fresh both': 'K' + n}.get(self.keying, n) for n in NAMES}
        self.dump = {n: {'rotated dump': rot[n], 'data': 'X' + n, 'fresh both': 'D' + n}.get(self.keying, n) for n in NAMES}
        self.bykey = {self.load[n]: n for n in NAMES}
        C = CODED if self.coded else {b: b for b in CODED}
        self.C = C
        self.In = mk('In', n=C[fields.Integer]())
        self.instance = self.In({'n': 2})
        self.shared = self.In({'n': 9})
        self.build()

    def raw(self, n, variant):
        if variant == 'none': return None
        v = RAW[self.f[n]['kind']][variant]
        return self.instance if v == 'INSTANCE' else v

    def default(self, n):
        return self.shared if self.f[n]['kind'] == 'obj' else DEFAULTS[self.f[n]['kind']]

    def make(self, n):
        f, C = self.f[n], self.C
        kw = dict(none=f['none'], frozen=f['frozen'])
        if f['pres'] == 'optional': kw['required'] = False
        elif f['pres'] == 'value': kw['default'] = self.default(n)
        elif f['pres'] == 'callable':
            def made(ctx, field, n=n):
                LOG.append(('default', n, (ctx, field), None))
                return self.default(n)
            kw['default'] = made
        if self.keying in ('fresh load', 'rotated load'): kw['load_key'] = self.load[n]
        elif self.keying == 'rotated dump': kw['dump_key'] = self.dump[n]
        elif self.keying == 'data': kw['data_key'] = self.load[n]
        elif self.keying == 'fresh both': kw.update(load_key=self.load[n], dump_key=self.dump[n])
        k = f['kind']
        fld = {'int': lambda: C[fields.Integer](**kw), 'int~': lambda: C[fields.Integer](strict=False, **kw), 'obj': lambda: C[fields.Object](self.In, **kw), 'list': lambda: C[fields.List](int, **kw),
               'twice': lambda: (CTwice if self.coded else Twice)(**kw), 'text': lambda: C[fields.String](**kw), 'any': lambda: C[fields.Any](**kw),
               'float': lambda: C[fields.Float](**kw), 'dict': lambda: C[fields.Dict](int, int, **kw), 'union': lambda: C[fields.Union](int, str, **kw), 'set': lambda: C[fields.Set](int, **kw),
               'literal': lambda: C[fields.Literal]('v', 0, 13, '66', **kw)}[k]()

        def v(schema, value, ctx, n=n, two=f['vals'] == 'two'):
            LOG.append(('v', ctx.field.name, norm(value), ctx, ctx.is_update()))
            s = special(value)
            if s == 66: raise Crash(n)
            if s == 13: raise FieldError([f'v.{n}', f'v2.{n}']) if two else ValueError(f'v.{n}')

        def w(schema, value, ctx, n=n):
            LOG.append(('w', ctx.field.name, norm(value), ctx, ctx.is_update()))
            assert special(value) != 13, f'w.{n}'

        def r(schema, value, ctx, n=n):
            LOG.append(('r', ctx.field.name, norm(value), ctx, ctx.is_update()))
            s = special(value)
            if s == 66: raise Crash(n)
            if s == 13: raise FieldError(f'r.{n}')
        if f['vals'] in ('val', 'both', 'two'): fld.add_validator(v)
        if f['vals'] == 'two': fld.add_validator(w)
        if f['vals'] in ('raw', 'both'): fld.add_validator(r, raw=True)
        return fld

    def build(self):
        conf = {'default': {}, 'ignore_extra': dict(Config=cfg(ignore_extra=True)), 'frozen': dict(Config=cfg(frozen=True)), 'bare': dict(Config=cfg(slotted=False, add_repr=False))}[self.config]
        def post(self): HOOKS.append(('post', self, {n: self.get_value_for(n, UNSET) for n in all_field_names(type(self))}))
        def pre(self, data): HOOKS.append(('pre', data)); return data
        hooks = dict(__schema_post_init__=post, preprocess_data=pre)
        fs = {n: self.make(n) for n in NAMES}
        self.others = []                 # related classes: (class, kept behaviour)
        if self.shape == 'direct': self.cls = mk('S', {**fs, **conf, **hooks})
        elif self.shape == 'inherited':
            P = mk('P', {'a': fs['a'], 'b': fs['b'], **hooks})
            self.cls = mk('S', {'c': fs['c'], **conf}, (P,)); self.others.append(P)
        elif self.shape == 'grandchild':
            P = mk('P', {'c': fs['c'], **conf})
            Q = mk('Q', {'b': fs['b'], **hooks}, (P,))
            self.cls = mk('S', {'a': fs['a']}, (Q,)); self.others += [P, Q]
        elif self.shape == 'overridden':
            P = mk('P', {'a': fields.Float(load_key='was', dump_key='was', default=1.0, frozen=True, validators=[lambda s, v, c: 1 / 0]), 'c': fs['c'], **hooks})
            self.cls = mk('S', {'b': fs['b'], 'a': fs['a'], **conf}, (P,))
        elif self.shape == 'copied':
            P = mk('P', fs)
            self.cls = mk('S', {**{n: getattr(P, n).copy() for n in reversed(NAMES)}, **conf, **hooks}); self.others.append(P)
        else:
            R = mk('R', {'b': fs['b'], **conf})
            A, B = mk('A', {'a': fs['a'], **hooks}, (R,)), mk('B', {'c': fs['c']}, (R,))
            self.cls = mk('S', {}, (A, B)); self.others += [R, A, B]
        self.ignore = self.config == 'ignore_extra'
        self.frozen = self.config == 'frozen'

    # -------------------------------------------------------------- the model

    def code(self, cls, name):
        return f'<{getattr(cls, name)}>' if self.coded else None

    def process(self, n, raw):
        """(value, messages, calls, crashes) of one given value."""
        f, k = self.f[n], self.f[n]['kind']
        msgs, calls = [], []
        hasv, hasr = f['vals'] in ('val', 'both', 'two'), f['vals'] in ('raw', 'both')
        s = special(raw) if raw is not None else None
        crash = False
        if hasr:
            calls.append(('r', n, norm(raw)))
            if s == 13: msgs.append(f'r.{n}')
            crash |= s == 66
        if raw is None:
            if not f['none']: msgs.append(self.code(fields.Field, 'ERR_NONE_DISALLOWED'))
            return None, msgs, calls, crash
        if k == 'twice':
            calls.append(('load', n, norm(raw)))
            crash |= s == 66
        bad = raw == RAW[k]['bad'] and k != 'any'
        if bad:
            if k == 'obj': msgs.append({'n': [self.code(fields.Integer, 'ERR_INVALID_DATATYPE')], 'q': [None]})
            elif k == 'twice': msgs.append(f'L.{n}')
            else:
                b, c = {'int': (fields.Integer, 'ERR_INVALID_DATATYPE'), 'int~': (fields.Integer, 'ERR_COERCION_FAILED'), 'list': (self.C[fields.List](int), 'ERR_TYPE_VALIDATION_FAILED'), 'text': (fields.String, 'ERR_INVALID_DATATYPE'), 'float': (fields.Float, 'ERR_INVALID_DATATYPE'), 'union': (fields.Union, 'ERR_INVALID_VALUE'), 'literal': (fields.Literal, 'ERR_INVALID_VALUE'),
                        'dict': (self.C[fields.Dict](int, int), 'ERR_TYPE_VALIDATION_FAILED'), 'set': (self.C[fields.Set](int), 'ERR_TYPE_VALIDATION_FAILED')}[k]
                msgs.append(self.code(b, c))
            return None, msgs, calls, crash
        value = {'int~': lambda: int(raw), 'obj': lambda: norm(raw) if isinstance(raw, Schema) else ('In', raw['n']), 'twice': lambda: ('L', raw)}.get(k, lambda: raw)()
        if hasv:
            calls.append(('v', n, norm(value)))
            crash |= s == 66
            if s == 13: msgs += [f'v.{n}', f'v2.{n}'] if f['vals'] == 'two' else [f'v.{n}']
            if f['vals'] == 'two':
                calls.append(('w', n, norm(value)))
                if s == 13: msgs.append(f'w.{n}')
        return value, msgs, calls, crash

    def outcome(self, data, ignore, construct):
        """Model of construction and update: (kind, values, messages by key, calls)"""
        msgs, values, calls, crash = {}, {}, [], False
        for k, v in data.items():
            n = self.bykey.get(k)
            if n is None:
                if not ignore: msgs[k] = [None]
                continue
            value, ms, cs, cr = self.process(n, v)
            calls += cs
            crash |= cr
            if ms: msgs[k] = ms
            else: values[n] = norm(value)
        if construct:
            for n in NAMES:
                if self.load[n] not in data:
                    p = self.f[n]['pres']
                    if p == 'required': msgs[self.load[n]] = [self.code(fields.Field, 'ERR_FIELD_REQUIRED')]
                    elif p != 'optional': values[n] = norm(self.default(n))
        else:
            if self.frozen: return ('anything' if not any(k in self.bykey for k in data) else 'frozen' if not crash else 'frozen or crash'), {}, {}, calls
            if any(self.f[self.bykey[k]]['frozen'] for k in data if k in self.bykey): return ('frozen' if not crash else 'frozen or crash'), {}, {}, calls
        if crash: return 'crash', {}, {}, calls
        return ('invalid' if msgs else 'ok'), values, msgs, calls

    def dumped(self, n, v):
        k = self.f[n]['kind']
        if v is None: return None
        if k == 'obj': return {'n': v[1]}
        if isinstance(v, tuple) and k in ('any', 'dict'): return dict(v)
        if k == 'twice': return ('D', v[1])
        if k == 'set': return set(v)
        return v


def kind_of(o):
    return 'ok' if o.ok else 'invalid' if isinstance(o.exc, ValidationError) else 'frozen' if isinstance(o.exc, FrozenError) else 'crash' if isinstance(o.exc, Crash) else repr(o.exc)


def canon_msg(m):
    if isinstance(m, dict): return {k: sorted(map(canon_msg, v), key=repr) for k, v in m.items()}
    if not isinstance(m, str) or not m: return ('?', m)
    return m if m[0] == '<' or re_tag(m) else None


def re_tag(m):
    return m.split('.')[0] in ('v', 'v2', 'w', 'r', 'L') and m[-1] in 'abc'


def canon_msgs(ms):
    return {k: sorted(map(canon_msg, v), key=repr) for k, v in ms.items()}


def values(x):
    return {n: x.get_value_for(n, UNSET) for n in NAMES}


def normed(vals):
    return {n: norm(v) for n, v in vals.items()}


class Stop(Exception):
    """The rest of this step is meaningless after a difference that concerns another property."""


class Run:
    def __init__(self, ch, world, aspects):
        self.ch, self.w, self.aspects = ch, world, aspects
        self.bystander = None

    def say(self, aspects, cond, msg, *args):
        if not cond and self.aspects & set(aspects.split()):
            self.ch.check(False, msg, *args, self.w.f, self.w.keying, self.w.config, self.w.shape, self.w.fmt)

    def errors(self, exc, msgs, inst, given, what):
        self.say('errors', canon_msgs({k: ms for k, ms in exc.raw().items()}) == {k: sorted(((lambda m: {a: sorted(b, key=repr) for a, b in m.items()} if isinstance(m, dict) else m if m is None or m[0] == '<' or re_tag(m) else None)(m) for m in ms), key=repr) for k, ms in msgs.items()},
                 'the reported failures', what, exc.raw(), msgs)
        self.say('raw', {k: len(v) for k, v in exc.raw().items()} == count(exc) and all(str(k) in str(exc) for k in msgs), 'the forms of the error', what, exc.raw(), str(exc))
        if not self.aspects & {'attr'}: return
        self.say('attr', exc.schema is inst, 'ValidationError.schema', what)
        for e in exc.errors:
            n = self.w.bykey.get(e.key)
            self.say('attr', e.key in msgs, 'the key of an error', what, e.key, msgs)
            self.say('attr', e.schema is inst and e.field is (getattr(self.w.cls, n) if n else None), 'field or schema of an error', what, e.key, e.field)
            if n is None or e.key not in given: self.say('attr', e.context is None, 'the context of an error without a value', what, e.key)
            else: self.say('attr', e.context is not None and e.context.field is e.field and e.context.schema is inst and (e.context.value is given[e.key] if hasattr(e.context, 'value') else True), 'the context of an error', what, e.key)

    def calls(self, calls, inst, update, what):
        real = [c for c in LOG if c[0] != 'default']
        self.say('calls', sorted((c[:3] for c in real), key=repr) == sorted(calls, key=repr), 'the calls of validators and fields', what, [c[:3] for c in real], calls)
        ctxs = {}
        for c in real:
            self.say('calls', c[3].schema is inst and c[3].field is getattr(self.w.cls, c[1]), 'the context of a call', what, c[:3])
            self.say('hooks', c[4] == update, 'the phase of a call', what, c[:3], update)
            self.say('calls', ctxs.setdefault(c[1], c[3]) is c[3], 'several contexts for one value', what, c[:3])

    def construct(self, data, arg):
        w = self.w
        kw = {} if arg == 'absent' else dict(ignore_extra=arg)
        ignore = w.ignore if arg == 'absent' else arg
        kind, vals, msgs, calls = w.outcome(data, ignore, True)
        del LOG[:], HOOKS[:]
        image = freeze_input(data)
        state = ['state']
        o = attempt(w.cls, data, state=state, **kw)
        self.ch.nops += 1
        what = ('construct', data, arg)
        self.say('input', freeze_input(data) == image, 'the data was modified', what)
        got = kind_of(o)
        self.say('accept ' + ('unknown' if set(data) - set(w.bykey) and kind in ('ok', 'invalid') and all(k not in w.bykey for k in msgs) else '') + (' crash' if kind == 'crash' else ''), got == kind, 'the outcome of a construction', what, got, kind, o)
        if got != kind: raise Stop
        self.say('hooks', [h[0] for h in HOOKS] == ['pre'] + ['post'] * (got == 'ok') and HOOKS[0][1] is data, 'the hooks', what, HOOKS)
        if got == 'ok':
            x = o.value
            real = values(x)
            self.say('values', all(normed(real)[n] == vals.get(n, UNSET) and same_type(real[n], vals.get(n, UNSET)) for n in NAMES if w.load[n] in data), 'the values', what, real, vals)
            self.say('defaults', all(normed(real)[n] == vals.get(n, UNSET) for n in NAMES if w.load[n] not in data), 'omitted fields', what, real, vals)
            self.say('keep', all(real[n] is data[w.load[n]] for n in NAMES if w.f[n]['kind'] == 'obj' and isinstance(data.get(w.load[n]), Schema)), 'an instance is not kept', what, real)
            self.say('hooks', HOOKS[1][1] is x and all(HOOKS[1][2][n] is real[n] for n in NAMES) and x.context.is_initialized() and x.context.schema is x and x.context.state is state, 'the context, and the fields during the hook', what)
            made = [c[1:3] for c in LOG if c[0] == 'default']
            self.say('defaults', sorted(m[0] for m in made) == [n for n in NAMES if w.f[n]['pres'] == 'callable' and w.load[n] not in data] and all(m[1] == (x.context, getattr(w.cls, m[0])) for m in made), 'the calls of defaults', what, made)
            self.calls(calls, x, False, what)
            r = repr(x)
            if w.config == 'bare': self.say('repr', r == object.__repr__(x), 'the representation', what, r)
            else: self.say('repr', r.startswith('S') and all((f'{n}={real[n]!r}' in r) == (real[n] is not UNSET) for n in NAMES), 'the representation', what, r)
            return x
        if got == 'invalid':
            self.errors(o.exc, msgs, o.exc.schema, data, what)
            self.calls(calls, o.exc.schema, False, what)
        return None

    def change(self, x, data, arg, how):
        """Update, or assignment of one attribute."""
        w = self.w
        kw = {} if arg == 'absent' else dict(ignore_extra=arg)
        ignore = w.ignore if arg == 'absent' else arg
        kind, vals, msgs, calls = w.outcome(data, ignore, False)
        before = values(x)
        del LOG[:], HOOKS[:]
        image = freeze_input(data)
        ctx, st = x.context, x.context.state
        if how == 'assign':
            (k, v), = data.items()
            o = attempt(setattr, x, w.bykey[k], v)
        else: o = attempt(x.update, data, **kw)
        self.ch.nops += 1
        what = (how, data, arg, before)
        A = 'assign' if how == 'assign' else 'update'
        got = kind_of(o)
        now = values(x)
        self.say('input', freeze_input(data) == image, 'the data was modified', what)
        if not o.ok: self.say(A + (' frozen' if 'frozen' in kind else '') + (' crash' if got == 'crash' else ''), all(now[n] is before[n] for n in NAMES), 'a failed change had an effect', what, now, o)
        if kind == 'anything': raise Stop
        if got != kind and not (kind == 'frozen or crash' and got in ('frozen', 'crash')):
            unk = how == 'update' and set(data) - set(w.bykey)
            self.say((A if how == 'assign' else '') + (' frozen' if 'frozen' in (kind, got) else ' agree crash' if kind == 'crash' else ' agree') + (' unknown' if unk and all(k not in w.bykey for k in msgs) else ''), False, 'the outcome of a change', what, got, kind, o)
            raise Stop
        self.say('hooks', not HOOKS and x.context is ctx and ctx.state is st and ctx.is_initialized() and ctx.schema is x, 'a change called a hook or touched the context', what, HOOKS)
        self.say('defaults', not [c for c in LOG if c[0] == 'default'], 'a change computed a default', what)
        if got == 'ok':
            given = {w.bykey[k] for k in data if k in w.bykey}
            self.say(A + ' agree', all(norm(now[n]) == vals[n] and same_type(now[n], vals[n]) for n in given), 'the values given by a change', what, now, vals)
            self.say(A, all(now[n] is before[n] for n in NAMES if n not in given), 'a change touched another field', what, now)
            self.say('keep', all(now[n] is data[w.load[n]] for n in given if w.f[n]['kind'] == 'obj' and isinstance(data[w.load[n]], Schema)), 'an instance is not kept', what, now)
            self.calls(calls, x, True, what)
        elif got == 'invalid':
            self.errors(o.exc, msgs, x, data, what)
            self.calls(calls, x, True, what)
        elif got == 'frozen':
            e = o.exc.entity
            fz = [getattr(w.cls, w.bykey[k]) for k in data if k in w.bykey and w.f[w.bykey[k]]['frozen']]
            self.say('frozen', (w.frozen and e is x) or e in fz, 'the frozen entity', what, e)
        return o

    def dump(self, x, kw, names):
        w = self.w
        before = values(x)
        del LOG[:], HOOKS[:]
        o = attempt(x.dump, **kw)
        self.ch.nops += 1
        want = {w.dump[n]: w.dumped(n, norm(v)) for n, v in before.items() if v is not UNSET and n in names}
        self.say('dump', o.ok, 'a dump failed', kw, before, o)
        if not o.ok: raise Stop
        self.say('dump', type(o.value) is dict and o.value == want, 'the dump', kw, before, o.value, want)
        self.say('dump', all(values(x)[n] is before[n] for n in NAMES) and not HOOKS and not LOG, 'a dump had an effect', kw, before)
        return o.value


def same_type(real, model):
    """`model` is a normed value."""
    return isinstance(real, Schema) or type(norm(real)) is type(model)


def count(exc):
    c = {}
    for e in exc.errors: c[e.key] = c.get(e.key, 0) + 1
    return c


UPD = ('absent', 'good1', 'good2', 'bad', 'none', 'rej')
SELECTIONS = [({}, NAMES), (dict(include=['a']), 'a'), (dict(include=['b', 'c', 'zz']), 'bc'), (dict(exclude=['a']), 'bc'), (dict(exclude=['b', 'c', 'zz']), 'a'), (dict(include=[]), ''), (dict(exclude=[]), NAMES)]


def datas(w, variants, names=NAMES):
    """All combinations; the order of the keys rotates."""
    for i, vs in enumerate(itertools.product(variants, repeat=len(names))):
        order = list(zip(names, vs))
        order = order[i % len(order):] + order[:i % len(order)]
        yield {w.load[n]: w.raw(n, v) for n, v in order if v != 'absent'}


def prepare(run, how):
    w = run.w
    full = {w.load[n]: w.raw(n, 'good1') for n in NAMES}
    mini = {w.load[n]: w.raw(n, 'good1') for n in NAMES if w.f[n]['pres'] == 'required'}
    x = w.cls(mini if how in ('minimal', 'copied') else full)
    free = [n for n in NAMES if not w.f[n]['frozen'] and not w.frozen]
    if how == 'after failures':
        attempt(w.cls, {'zz': 1, w.load['a']: w.raw('a', 'bad')})
        attempt(x.update, {w.load[n]: w.raw(n, v) for n, v in zip(NAMES, ('good2', 'bad', 'good2'))} | {'zz': 1})
        for n in NAMES: attempt(setattr, x, n, w.raw(n, 'boom')), attempt(setattr, x, n, w.raw(n, 'rej')), attempt(setattr, x, n, None)
    elif how == 'nones':
        for n in free:
            if w.f[n]['none']: setattr(x, n, None)
    elif how == 'copied':
        y = x.copy()
        for n in free[:1]: setattr(y, n, w.raw(n, 'good2'))
        x.dump()
        x = y
    elif how == 'updated':
        x.update({w.load[n]: w.raw(n, 'good2') for n in free}) if free else None
    return x


def constructions(strength, aspects):
    aspects = frozenset(aspects.split())
    rs = rows(strength)

    def scenario(ch):
        """Interplay of features: in every world of the covering array, every construction from all combinations of values for the three fields, with and without unknown keys; compared with the reference model."""
        w = World(rs[ch.choose(len(rs), 'world')])
        run = Run(ch, w, aspects)
        variants = UPD + (('boom',) if 'crash' in aspects else ())
        first = None
        for extra in ({}, {'zz': 1}):
            for arg in ('absent', True, False):
                if arg != 'absent' and not extra: continue
                for data in datas(w, variants if arg == 'absent' else ('absent', 'good1', 'bad')):
                    try:
                        x = run.construct({**extra, **data}, arg)
                        if x is not None and aspects & {'dump', 'roundtrip', 'copy'}: outputs(run, x)
                    except Stop: pass
        ch.op('world', w.f, w.keying, w.config, w.shape)
        ch.state(strength, tuple(map(repr, w.f.values())), w.keying, w.config, w.shape, w.fmt)
    return scenario


def outputs(run, x):
    w = run.w
    for kw, names in SELECTIONS:
        run.dump(x, kw, names)
    if 'roundtrip' in run.aspects and w.load == w.dump and not any(w.f[n]['kind'] == 'twice' and v is not UNSET for n, v in values(x).items()) and not any(special(v) for v in values(x).values()):
        vals = values(x)
        # unset fields must be omittable, and values acceptable
        if all((v is not None or w.f[n]['none']) and v not in ('unchecked', {'d': 'e'}) for n, v in vals.items()):
            d = x.dump()
            o = attempt(w.cls, d)
            run.say('roundtrip', o.ok, 'the dump is refused', vals, d, o)
            if o.ok: run.say('roundtrip', normed(values(o.value)) == normed(vals) and o.value.dump() == d, 'loading the dump gives something else', vals, d, values(o.value))
    if 'copy' in run.aspects:
        y = x.copy()
        before = values(x)
        run.say('copy', type(y) is type(x) and all(values(y)[n] is before[n] for n in NAMES) and y.context is not x.context and y.context.schema is y and y.context.is_initialized(), 'the copy', before, values(y))
        for n in NAMES: attempt(setattr, y, n, w.raw(n, 'good2'))
        attempt(y.update, {w.load[n]: w.raw(n, 'good1') for n in NAMES if not w.f[n]['frozen']})
        run.say('copy', all(values(x)[n] is before[n] for n in NAMES), 'changing a copy changes the original', before, values(x))


def histories(strength, aspects):
    aspects = frozenset(aspects.split())
    rs = rows(strength)

    def scenario(ch):
        """Interplay of features: in every world of the covering array (which includes the state the instance is in), every update with all combinations of values, every assignment and selective dump; compared with the reference model, with bystanders."""
        w = World(rs[ch.choose(len(rs), 'world')])
        how = w.prep
        run = Run(ch, w, aspects)
        by = [w.cls({w.load[n]: w.raw(n, 'good2') for n in NAMES})]
        for P in w.others:
            by.append(P({w.load[n]: w.raw(n, 'good2') for n in all_field_names(P)}))
        kept = [{n: y.get_value_for(n, UNSET) for n in all_field_names(type(y))} for y in by]
        x = prepare(run, how)
        base = values(x)
        variants = UPD + (('boom',) if 'crash' in aspects else ())

        def fresh():
            """The same state again; copying is cheaper than preparing, and is what C10 is about."""
            return x if all(x.get_value_for(n, UNSET) is base[n] for n in NAMES) else prepare(run, how)
        for extra in ({}, {'zz': 1}):
            for arg in ('absent', True, False):
                if arg != 'absent' and not extra: continue
                for data in datas(w, variants if arg == 'absent' else ('absent', 'good1', 'bad')):
                    if w.frozen and arg == 'absent' and len(data) == 3 and 'crash' not in aspects and not aspects & {'frozen', 'update'}: continue
                    x = prepare(run, how) if x is None else fresh()
                    base = values(x)
                    try:
                        run.change(x, {**data, **extra}, arg, 'update')
                        if aspects & {'dump', 'roundtrip', 'copy'} and len(data) < 3: outputs(run, x)
                    except Stop: x = None
        for n in NAMES:
            for v in variants[1:]:
                x = prepare(run, how)
                try:
                    run.change(x, {w.load[n]: w.raw(n, v)}, 'absent', 'assign')
                    if aspects & {'dump', 'roundtrip', 'copy'}: outputs(run, x)
                except Stop: pass
        run.say('isolation', all(y.get_value_for(n, UNSET) is v for y, k in zip(by, kept) for n, v in k.items()), 'another instance changed', [values(by[0])], kept)
        if w.config == 'default':
            o = attempt(setattr, x, 'extra', 1) if x is not None else None
            run.say('unknown', o is None or isinstance(o.exc, AttributeError), 'an extra attribute', o)
        ch.op('world', how, w.f, w.keying, w.config, w.shape)
        ch.state(strength, how, tuple(map(repr, w.f.values())), w.keying, w.config, w.shape, w.fmt)
    return scenario


def also(aspects, only=None):
    """Decorator of `scenarios`: adds the interplay scenarios for these aspects."""
    def deco(scenarios):
        @functools.wraps(scenarios)
        def both(tier):
            t = 3 if tier == 'thorough' else 2
            out = scenarios(tier)
            if only != 'histories': out.append(dict(name='interplay, construction', fn=constructions(t, aspects), first=len(rows(t))))
            if only != 'constructions': out.append(dict(name='interplay, histories', fn=histories(t, aspects), first=len(rows(t))))
            return out
        return both
    return deco
