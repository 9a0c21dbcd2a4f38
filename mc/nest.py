"""Interplay of features in nested schemas: a complete reference model of chains of three schemas, compared with the real code.

Every schema of the chain has a number and (except the last) a nested field; their options, keys, configurations, hooks and init_kwargs are the
factors of a covering array (see mc/interplay.py).  In every world all combinations of values at all levels are constructed, updated, assigned, dumped.
"""
import functools, itertools
from mc.cover import array, covers
from mc.lib import *

PRES = ['required', 'optional', 'value', 'callable']
B2 = [False, True]
SF = dict(spres=PRES, snone=B2, sfrozen=B2, svals=['none', 'val', 'raw', 'both'], skey=['plain', 'fresh', 'crossed'])
OF = dict(opres=PRES, onone=B2, ofrozen=B2, ovals=['none', 'val', 'raw'], odump=['plain', 'fresh'], init=['absent', 'ignore', 'strict', 'state'])
CF = dict(config=['default', 'ignore_extra', 'frozen'], fmt=['coded', 'default'], pre=['same', 'drops'])
FACTORS = [(i, k, v) for i in range(3) for d in (SF, OF, CF) if d is not OF or i < 2 for k, v in d.items()]
LEVELS = [len(f[2]) for f in FACTORS]
LOG = []


@functools.lru_cache(None)
def rows(t):
    r = array(LEVELS, t)
    assert covers(r, LEVELS, t)
    return r


def norm(v):
    if isinstance(v, Schema): return (type(v).__name__,) + tuple(norm(v.get_value_for(n, UNSET)) for n in all_field_names(type(v)))
    return v


class Level:
    pass


class World:
    def __init__(self, row):
        self.l = [Level() for _ in range(3)]
        for (i, k, vs), v in zip(FACTORS, row): setattr(self.l[i], k, vs[v])
        self.cls = [None] * 3
        self.good = [None] * 3          # complete valid data
        self.inst = [None] * 3
        for i in (2, 1, 0): self.build(i)
        self.foreign = mk('K2', s=fields.Any())({'s': 1})

    def build(self, i):
        L = self.l[i]
        L.i, L.last = i, i == 2
        L.load = {'s': 's' if L.skey == 'plain' else 'S' if L.skey == 'fresh' or L.last else 'o', 'o': 's' if L.skey == 'crossed' else 'o'}
        if L.last: del L.load['o']
        L.dump = {'s': L.load['s'] if L.skey == 'fresh' else 's', 'o': 'OO' if not L.last and L.odump == 'fresh' else 'o'}
        L.bykey = {k: n for n, k in L.load.items()}
        C = CODED if L.fmt == 'coded' else {b: b for b in CODED}

        def opts(n, pres, none, frozen, default):
            kw = dict(none=none, frozen=frozen)
            if pres == 'optional': kw['required'] = False
            elif pres == 'value': kw['default'] = default
            elif pres == 'callable': kw['default'] = lambda ctx, field: (LOG.append(('default', i, n, ctx.is_initialized())), default)[1]
            if L.load[n] != n: kw['load_key'] = L.load[n]
            if L.dump[n] != n: kw['dump_key'] = L.dump[n]
            return kw
        s = C[fields.Integer](**opts('s', L.spres, L.snone, L.sfrozen, 7))

        def v(schema, value, ctx):
            LOG.append(('v', i, 's', ctx.is_update()))
            if value == 13: raise ValueError(f'v.s{i}')

        def r(schema, value, ctx):
            LOG.append(('r', i, 's', ctx.is_update()))
            if value == 13: raise FieldError(f'r.s{i}')
        if L.svals in ('val', 'both'): s.add_validator(v)
        if L.svals in ('raw', 'both'): s.add_validator(r, raw=True)
        body = dict(s=s)
        if not L.last:
            N = self.l[i + 1]
            init = {'absent': {}, 'ignore': dict(init_kwargs=dict(ignore_extra=True)), 'strict': dict(init_kwargs=dict(ignore_extra=False)), 'state': dict(init_kwargs=dict(state=('st', i)))}[L.init]
            o = C[fields.Object](self.cls[i + 1], **init, **opts('o', L.opres, L.onone, L.ofrozen, self.inst[i + 1]))

            def ov(schema, value, ctx):
                LOG.append(('v', i, 'o', ctx.is_update()))
                assert value.get_value_for('s', None) != 2, f'v.o{i}'

            def orw(schema, value, ctx):
                LOG.append(('r', i, 'o', ctx.is_update()))
                if isinstance(value, dict) and value.get(N.load['s']) == 2: raise ValueError(f'r.o{i}')
            if L.ovals == 'val': o.add_validator(ov)
            if L.ovals == 'raw': o.add_validator(orw, raw=True)
            body['o'] = o
        def pre(self, data):
            LOG.append(('pre', i, None, None))
            return {k: v for k, v in data.items() if k != 'zz'} if L.pre == 'drops' else data
        def post(self): LOG.append(('post', i, None, self.context.is_initialized()))
        body.update(preprocess_data=pre, __schema_post_init__=post)
        body.update({'default': {}, 'ignore_extra': dict(Config=cfg(ignore_extra=True)), 'frozen': dict(Config=cfg(frozen=True))}[L.config])
        self.cls[i] = mk(f'K{i}', body)
        self.good[i] = {L.load['s']: 1}
        if not L.last: self.good[i][L.load['o']] = dict(self.good[i + 1])
        self.inst[i] = self.cls[i](self.good[i])

    # -------------------------------------------------------------- the model
    def code(self, i, cls, name):
        return f'<{getattr(cls, name)}>' if self.l[i].fmt == 'coded' else None

    def construct(self, i, data, ignore):
        """(value, errors, calls): the calls of hooks and validators during a construction"""
        L = self.l[i]
        calls = [('pre', i, None, None)]
        if L.pre == 'drops': data = {k: v for k, v in data.items() if k != 'zz'}
        if ignore is None: ignore = L.config == 'ignore_extra'
        errs, vals, checks = {}, {'s': UNSET, 'o': UNSET}, []
        for k, raw in data.items():
            n = L.bykey.get(k)
            if n is None:
                if not ignore: errs[k] = [None]
                continue
            v, ms, cs, vc = self.field(i, n, raw, False)
            calls += cs
            checks += vc
            if ms: errs[k] = ms
            vals[n] = v
        for n, k in L.load.items():
            if k in data: continue
            p = L.spres if n == 's' else L.opres
            if p == 'required': errs[k] = [self.code(i, fields.Field, 'ERR_FIELD_REQUIRED')]
            elif p != 'optional':
                vals[n] = 7 if n == 's' else norm(self.inst[i + 1])
                if p == 'callable': calls.append(('default', i, n, False))
        calls += checks
        if not errs: calls.append(('post', i, None, True))
        return ((f'K{i}', vals['s']) if L.last else (f'K{i}', vals['o'], vals['s'])), errs, calls

    def field(self, i, n, raw, update):
        """(value, messages, calls while loading, calls of validators)"""
        L = self.l[i]
        ms, calls, checks = [], [], []
        if n == 's':
            if L.svals in ('raw', 'both'):
                checks.append(('r', i, 's', update))
                if raw == 13: ms.append(f'r.s{i}')
            if raw is None:
                if not L.snone: ms.append(self.code(i, fields.Field, 'ERR_NONE_DISALLOWED'))
            elif type(raw) is not int: ms.append(self.code(i, fields.Integer, 'ERR_INVALID_DATATYPE'))
            elif L.svals in ('val', 'both'):
                checks.append(('v', i, 's', update))
                if raw == 13: ms.append(f'v.s{i}')
            return raw, ms, calls, checks
        N = self.l[i + 1]
        if L.ovals == 'raw':
            checks.append(('r', i, 'o', update))
            if isinstance(raw, dict) and raw.get(N.load['s']) == 2: ms.append(f'r.o{i}')
        value = None
        if raw is None:
            if not L.onone: ms.append(self.code(i, fields.Field, 'ERR_NONE_DISALLOWED'))
            return None, ms, calls, checks
        if isinstance(raw, self.cls[i + 1]): value = norm(raw)
        elif isinstance(raw, dict):
            value, errs, calls = self.construct(i + 1, raw, {'ignore': True, 'strict': False}.get(L.init))
            if errs:
                ms.append(errs)
                return None, ms, calls, checks
        else:
            ms.append(self.code(i, fields.Object, 'ERR_INVALID_DATATYPE'))
            return None, ms, calls, checks
        if L.ovals == 'val':
            checks.append(('v', i, 'o', update))
            if value[-1] == 2: ms.append(f'v.o{i}')
        return value, ms, calls, checks

    def dumped(self, i, value):
        if value is None: return None
        L = self.l[i]
        out = {}
        if value[-1] is not UNSET: out[L.dump['s']] = value[-1]
        if not L.last and value[1] is not UNSET: out[L.dump['o']] = self.dumped(i + 1, value[1])
        return out

    def datas(self, i, svals, deep=True):
        """All data of level i (shared objects, never modified)"""
        L = self.l[i]
        subs = [()] if L.last else ['absent', None, 5, self.inst[i + 1], self.foreign] + list(self.sub(i + 1, deep))
        for n, (s, o, z) in enumerate(itertools.product(svals, subs, B2)):
            d = {}
            if z and n % 3 == 0: d['zz'] = 0
            if not L.last and o != 'absent' and n % 2: d[L.load['o']] = o
            if s != 'absent': d[L.load['s']] = s
            if not L.last and o != 'absent' and not n % 2: d[L.load['o']] = o
            if z and n % 3: d['zz'] = 0
            yield d

    def sub(self, i, deep):
        key = (i, deep)
        if key not in self.__dict__.setdefault('cache', {}):
            self.cache[key] = list(self.datas(i, SV if deep else ('absent', 1, 2, 'x'), deep))
        return self.cache[key]


SV = ('absent', 1, 2, 'x', None, 13)


def canon_real(x):
    if isinstance(x, dict): return {k: sorted(map(canon_real, v), key=repr) for k, v in x.items()}
    if not isinstance(x, str) or not x: return ('?', x)
    return x if x[0] == '<' or x[:2] in ('v.', 'r.') else None


def canon_model(errs):
    return {k: sorted((canon_model(m) if isinstance(m, dict) else m for m in ms), key=repr) for k, ms in errs.items()}


class Stop(Exception):
    pass


class Run:
    def __init__(self, ch, w, aspects):
        self.ch, self.w, self.aspects = ch, w, aspects

    def say(self, aspects, cond, msg, *args):
        if not cond and self.aspects & set(aspects.split()):
            self.ch.check(False, msg, *args, [vars(l) for l in self.w.l])

    def walk(self, errors, i, inst, errs, what):
        L = self.w.l[i]
        per = {}
        for e in errors:
            per.setdefault(e.key, []).append(e)
            n = L.bykey.get(e.key)
            self.say('attr', e.key in errs, 'the key of an error', what, e.key, errs)
            self.say('attr', (e.schema is inst if inst is not None else type(e.schema) is self.w.cls[i]) and e.field is (getattr(self.w.cls[i], n) if n else None), 'field or schema of an error', what, i, e.key, e.field, e.schema.__class__)
            if inst is None: self.say('attr', len({id(x.schema) for x in errors}) == 1, 'errors of one nested value name several instances', what)
            if isinstance(e.message, dict):
                subs = [m for m in errs.get(e.key, []) if isinstance(m, dict)]
                self.say('attr', len(subs) == 1 and set(subs[0]) == set(e.message), 'nested errors', what, e.message)
                if len(subs) == 1:
                    for k, es in e.message.items(): self.say('attr', all(x.key == k for x in es), 'the key of a nested error', what, e.message)
                    self.walk([x for es in e.message.values() for x in es], i + 1, None, subs[0], what)

    def errors(self, exc, inst, errs, what):
        raw = exc.raw()
        self.say('errors nested', canon_real(raw) == canon_model(errs), 'the reported failures', what, raw, errs)
        if 'raw' in self.aspects:
            text = str(exc)
            self.say('raw', all(str(k) in text for k in errs) and all(type(v) is list for v in raw.values()), 'the text', what, text)
            # each nested key once below its parent, deeper
            def lines(errs, depth):
                out = []
                for k, ms in errs.items():
                    out.append((depth, k))
                    for m in ms:
                        if isinstance(m, dict): out += lines(m, depth + 1)
                return out
            heads = [(len(l) - len(l.lstrip(' \u2502')), l) for l in text.split('\n') if 'In field ' in l]
            want = sorted(lines(errs, 0))
            ind = sorted({h[0] for h in heads})
            got = sorted((ind.index(h), l.split('In field ')[1].split(':')[0].split(' (')[0]) for h, l in heads)
            self.say('raw', got == want, 'the keys in the text', what, text, got, want)
        if 'attr' in self.aspects:
            self.say('attr', exc.schema is inst, 'ValidationError.schema', what)
            self.walk(exc.errors, 0, inst, errs, what)

    def calls(self, calls, what):
        self.say('calls nested', sorted((c for c in LOG if c[0] in 'rv'), key=repr) == sorted((c for c in calls if c[0] in 'rv'), key=repr), 'the calls of validators', what, list(LOG), calls)
        self.say('hooks', [c for c in LOG if c[0] in ('pre', 'post')] == [c for c in calls if c[0] in ('pre', 'post')], 'the hooks', what, list(LOG), calls)
        self.say('defaults', sorted(c for c in LOG if c[0] == 'default') == sorted(c for c in calls if c[0] == 'default'), 'the calls of defaults', what, list(LOG), calls)

    def construct(self, data, arg):
        w = self.w
        value, errs, calls = w.construct(0, data, arg)
        del LOG[:]
        o = attempt(w.cls[0], data) if arg is None else attempt(w.cls[0], data, ignore_extra=arg)
        self.ch.nops += 1
        what = ('construct', data, arg)
        self.say('accept nested', o.ok == (not errs) and (o.ok or isinstance(o.exc, ValidationError)), 'the outcome of a construction', what, o, errs)
        if o.ok != (not errs) or not (o.ok or isinstance(o.exc, ValidationError)): raise Stop
        if o.ok:
            x = o.value
            self.say('values nested', norm(x) == value, 'the values', what, norm(x), value)
            self.nested(x, data, what)
            self.calls(calls, what)
            return x
        self.errors(o.exc, o.exc.schema, errs, what)
        self.calls(calls, what)

    def nested(self, x, data, what, top=0):
        """Instances are kept; others are constructed with the keyword arguments."""
        w = self.w
        for i in range(top, 2):
            v = x.get_value_for('o', UNSET)
            raw = data.get(w.l[i].load['o'], UNSET) if isinstance(data, dict) else UNSET
            if isinstance(raw, Schema): self.say('keep nested', v is raw, 'an instance is not kept', what)
            elif isinstance(raw, dict): self.say('nested', v.context.state == (('st', i) if w.l[i].init == 'state' else None) and v.context.schema is v and v.context.is_initialized(), 'the context of a nested instance', what)
            elif raw is UNSET and isinstance(data, dict) and w.l[i].opres in ('value', 'callable'): self.say('defaults', v is w.inst[i + 1], 'a nested default', what)
            if not isinstance(v, Schema): return
            x, data = v, raw

    def change(self, x, data, arg, how):
        w = self.w
        L = w.l[0]
        ignore = L.config == 'ignore_extra' if arg is None else arg
        errs, vals, calls = {}, {}, []
        frozen = L.config == 'frozen'
        for k, raw in data.items():
            n = L.bykey.get(k)
            if n is None:
                if not ignore: errs[k] = [None]
                continue
            frozen |= L.sfrozen if n == 's' else L.ofrozen
            v, ms, cs, vc = w.field(0, n, raw, True)
            calls += cs + vc
            if ms: errs[k] = ms
            vals[n] = v
        if frozen and not vals: raise Stop
        before = {n: x.get_value_for(n, UNSET) for n in 'so'}
        image = norm(x)
        del LOG[:]
        if how == 'assign':
            (k, v), = data.items()
            o = attempt(setattr, x, L.bykey[k], v)
        else: o = attempt(x.update, data) if arg is None else attempt(x.update, data, ignore_extra=arg)
        self.ch.nops += 1
        what = (how, data, arg, image)
        A = 'assign' if how == 'assign' else 'update'
        now = {n: x.get_value_for(n, UNSET) for n in 'so'}
        if not o.ok: self.say(A + (' frozen' if frozen else ''), all(now[n] is before[n] for n in 'so') and norm(x) == image, 'a failed change had an effect', what, norm(x), o)
        if frozen:
            self.say('frozen ' + A, isinstance(o.exc, FrozenError), 'a frozen field or schema is changed, or another error raised', what, o)
            return
        good = o.ok == (not errs) and (o.ok or isinstance(o.exc, ValidationError))
        self.say(A + ' agree nested', good, 'the outcome of a change', what, o, errs)
        if not good: raise Stop
        if o.ok:
            self.say(A + ' agree', all(norm(now[n]) == vals[n] if n in vals else now[n] is before[n] for n in 'so'), 'the values after a change', what, norm(x), vals)
            if L.load['o'] in data: self.nested(x, data, what)
        else: self.errors(o.exc, x, errs, what)
        self.calls(calls, what)

    def dump(self, x, what):
        image = norm(x)
        del LOG[:]
        o = attempt(x.dump)
        self.ch.nops += 1
        self.say('dump nested', o.ok and o.value == self.w.dumped(0, image) and norm(x) == image and not LOG, 'the dump', what, o, self.w.dumped(0, image))

    def copy(self, x, what):
        image = norm(x)
        o = attempt(x.copy)
        self.say('copy', o.ok and norm(o.value) == image and all(o.value.get_value_for(n, UNSET) is x.get_value_for(n, UNSET) for n in 'so'), 'the copy', what, o)
        if o.ok:
            attempt(setattr, o.value, 's', 5), attempt(setattr, o.value, 'o', None), attempt(o.value.update, self.w.good[0])
            self.say('copy', norm(x) == image, 'changing a copy changes the original', what, norm(x), image)

    def roundtrip(self, x, what):
        w = self.w
        image = norm(x)
        def ok(i, v):
            if v is None: return w.l[i - 1].onone
            L = w.l[i]
            if any(L.load[n] != L.dump[n] for n in L.load) or L.config == 'ignore_extra' and 0: return False
            if v[-1] in (2, 13) or v[-1] is None and not L.snone: return False
            if v[-1] is UNSET and L.spres != 'optional': return False
            if L.last: return True
            if v[1] is UNSET: return L.opres == 'optional'
            return ok(i + 1, v[1])
        if not ok(0, image): return
        d = x.dump()
        o = attempt(w.cls[0], d)
        self.say('roundtrip', o.ok and norm(o.value) == image and o.value.dump() == d, 'loading the dump', what, d, o)


def scenario_of(kind, strength, aspects):
    aspects = frozenset(aspects.split())
    rs = rows(strength)

    def constructions(ch):
        """Interplay in nested schemas: in every world of a covering array of chains of three schemas, every construction from all combinations of values at all levels; compared with the reference model (values, nested errors, hooks, validators, dumps)."""
        w = World(rs[ch.choose(len(rs), 'world')])
        run = Run(ch, w, aspects)
        n = 0
        for arg in (None, True, False):
            for data in w.datas(0, SV if arg is None else (1,), arg is None):
                try:
                    x = run.construct(data, arg)
                    if x is not None:
                        what = (data, arg)
                        if aspects & {'dump', 'nested'}: run.dump(x, what)
                        if 'copy' in aspects: run.copy(x, what)
                        if 'roundtrip' in aspects: run.roundtrip(x, what)
                except Stop: pass
        ch.op('world', [vars(l) for l in w.l])
        ch.state(tuple(repr(sorted((k, str(v)) for k, v in vars(l).items())) for l in w.l))

    def changes(ch):
        """Interplay in nested schemas: in every world of the covering array, updates and assignments with all combinations of values at all levels, of instances in two states; compared with the reference model."""
        w = World(rs[ch.choose(len(rs), 'world')])
        run = Run(ch, w, aspects)
        start = [lambda: w.cls[0](w.good[0])]
        mini = {k: v for k, v in w.good[0].items() if (w.l[0].spres if w.l[0].bykey[k] == 's' else w.l[0].opres) == 'required'}
        if mini != w.good[0]: start.append(lambda: w.cls[0](mini))
        for make in start:
            x = make()
            base = norm(x)
            for arg in (None, True, False):
                for data in w.datas(0, ('absent', 1, 'x', 13) if arg is None else (1,), arg is None):
                    if norm(x) != base: x = make()
                    try:
                        run.change(x, data, arg, 'update')
                        if aspects & {'dump', 'nested'}: run.dump(x, data)
                    except Stop: pass
            for data in w.datas(0, ('absent', 1, 'x', 13, None)):
                if len(data) != 1 or 'zz' in data: continue
                if norm(x) != base: x = make()
                try: run.change(x, data, None, 'assign')
                except Stop: pass
        ch.op('world', [vars(l) for l in w.l])
        ch.state(tuple(repr(sorted((k, str(v)) for k, v in vars(l).items())) for l in w.l))
    return dict(name='interplay, nested ' + kind, fn=constructions if kind == 'construction' else changes, first=len(rs))


def also_nested(aspects, only=None):
    """Decorator of `scenarios`: adds the nested interplay scenarios for these aspects."""
    def deco(scenarios):
        @functools.wraps(scenarios)
        def both(tier):
            t = 3 if tier == 'thorough' else 2
            return scenarios(tier) + [scenario_of(k, t, aspects) for k in ('construction', 'changes') if only in (None, k)]
        return both
    return deco
