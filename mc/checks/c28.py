"""C28 Hooks and contexts run once, in order, with the right phase."""
import itertools, types
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['hooks call the parent implementation only by super()', 'whether preprocessing is called for data that is no mapping, and what a schema is whose post-initialisation raised, are not specified'])

UNREAD = 'not set'


class Rec:
    """Everything the hooks and callbacks of one execution saw, in order."""
    def __init__(self):
        self.ev = []
    def add(self, kind, schema, **info):
        self.ev.append(dict(kind=kind, schema=schema, init=schema.context.is_initialized(), state=schema.context.state, ctx=schema.context, **info))
    def take(self):
        e, self.ev = self.ev, []
        return e


def values_of(x):
    return {n: x.get_value_for(n, UNREAD) for n in all_field_names(type(x))}


class RecField(fields.Field):
    """Records loads and dumps; 'bad' fails to load, 'nodump' to dump."""
    def __init__(self, rec, **kw):
        self.rec = rec
        super().__init__(**kw)
    def value_load(self, v, ctx):
        self.rec.add('load', ctx.schema, key=self.load_key, upd=ctx.is_update(), c=ctx, value=v, field=self)
        if v == 'bad': raise ValueError('bad')
        return v
    def value_dump(self, v, ctx):
        self.rec.add('dump', ctx.schema, key=self.load_key, c=ctx, value=v, field=self)
        if v == 'nodump': raise ValueError('nodump')
        return v


def hooks(rec, pre=lambda s, d: d, post=None, sup=False):
    """The hook methods, recording."""
    def preprocess_data(self, data):
        rec.add('pre', self, data=data, values=values_of(self))
        if sup: data = super(type(self), self).preprocess_data(data)
        return pre(self, data)

    def __schema_post_init__(self):
        rec.add('post', self, values=values_of(self))
        if post: post(self)
    return dict(preprocess_data=preprocess_data, __schema_post_init__=__schema_post_init__)


def validator(rec, raw):
    def v(schema, value, ctx):
        rec.add('raw' if raw else 'validator', ctx.schema, key=ctx.field.load_key, upd=ctx.is_update(), c=ctx, value=value, field=ctx.field)
        ctx.state['n'] = ctx.state.get('n', 0) + 1
        if value == 'invalid' and not raw: raise ValueError('invalid')
        if value == 'rawinvalid' and raw: raise ValueError('rawinvalid')
    return v


def default(rec):
    def d(ctx, field):
        rec.ev.append(dict(kind='default', schema=ctx.schema, init=ctx.is_initialized(), state=ctx.state, ctx=ctx))
        return 'default'
    return d


def schema_class(rec, name='S', where='own', nested=None, pre=lambda s, d: d, post=None, keyed=False):
    h = hooks(rec, pre, post)
    attrs = {}
    for n in ('a', 'b'):
        f = RecField(rec, **(dict(load_key=n.upper()) if keyed else {}), **({} if n == 'a' else dict(required=False, none=True)))
        f.add_validator(validator(rec, False)); f.add_validator(validator(rec, True), raw=True)
        attrs[n] = f
    attrs['d'] = RecField(rec, default=default(rec))
    if nested: attrs['n'] = fields.Object(nested, required=False)
    if where == 'own': return mk(name, {**attrs, **h})
    if where == 'inherited': return mk(name, attrs, (mk('Parent', h),))
    if where == 'mixin':
        M = type('Mixin', (), dict(h, __slots__=()))
        return mk(name, attrs, (M, Schema))
    if where == 'overridden':
        bad = hooks(rec, lambda s, d: {}, lambda s: rec.add('wrong', s))
        return mk(name, {**attrs, **h}, (mk('Parent', bad),))
    P = mk('Parent', h)                          # 'super': the hooks of the parent are called by super()

    class Child(P):
        def preprocess_data(self, data):
            return super().preprocess_data(data)
        def __schema_post_init__(self):
            super().__schema_post_init__()
    return mk(name, attrs, (Child,))


GOOD = {'a': 1, 'b': 2}
DATA = [
    ('good', {'a': 1, 'b': 2}, True), ('minimal', {'a': 'x'}, True), ('none', {'a': 1, 'b': None}, True), ('missing', {'b': 2}, False), ('empty', {}, False), ('bad load', {'a': 'bad'}, False), ('invalid', {'a': 1, 'b': 'invalid'}, False),
    ('raw invalid', {'a': 'rawinvalid'}, False), ('unknown', {'a': 1, 'zz': 0}, False), ('none refused', {'a': None}, False), ('two bad', {'a': 'bad', 'b': 'invalid'}, False),
]
PRE = [
    ('same', lambda s, d: d, None), ('copy', lambda s, d: dict(d), None), ('proxy', lambda s, d: types.MappingProxyType(dict(d)), None), ('custom', lambda s, d: MyMapping(d), None), ('userdict', lambda s, d: collections.UserDict(d), None),
    ('to good', lambda s, d: {'a': 'fixed'}, {'a': 'fixed'}), ('to empty', lambda s, d: {}, {}), ('drop unknown', lambda s, d: {k: v for k, v in d.items() if k in 'ab'}, 'drop'), ('add unknown', lambda s, d: {**d, 'added': 1}, 'add'),
    ('None', lambda s, d: None, TypeError), ('list', lambda s, d: list(d.items()), TypeError), ('text', lambda s, d: 'ab', TypeError), ('keys', lambda s, d: d.keys(), TypeError), ('number', lambda s, d: 0, TypeError), ('false', lambda s, d: False, TypeError), ('empty list', lambda s, d: [], TypeError),
    ('set', lambda s, d: set(), TypeError), ('generator', lambda s, d: (x for x in d), TypeError), ('class', lambda s, d: dict, TypeError), ('instance', lambda s, d: s, TypeError),
]


def valid(d):
    """Whether the recording schema accepts the data."""
    if set(d) - {'a', 'b', 'd'} or 'a' not in d: return False
    return d['a'] not in (None, 'bad', 'invalid', 'rawinvalid') and d.get('b') not in ('bad', 'invalid', 'rawinvalid')


def construct(wheres):
    def scenario(ch):
        """One construction: any data, any result of the preprocessing, hooks from anywhere."""
        dn, data, _ = ch.pick(DATA, 'data')
        pn, pre, res = ch.pick(PRE, 'preprocess')
        where = ch.pick(wheres, 'where')
        st = [None, ['state'], 0, {}, {'k': 1}, Rec][ch.choose(6, 'state')]
        mapping = ch.pick(MAPPINGS[:3], 'mapping')
        rec = Rec()
        cls = schema_class(rec, where=where, pre=pre)
        given = mapping[1](data)
        image = freeze_input(given)
        out = attempt(cls, given, **({} if st is None else dict(state=st)))
        what = (dn, pn, where, mapping[0])
        ch.op(*what)
        ev = rec.take()
        pres = [e for e in ev if e['kind'] == 'pre']
        posts = [e for e in ev if e['kind'] == 'post']
        ch.check(len(pres) == 1 and ev[0] is pres[0] and pres[0]['data'] is given, 'preprocessing is not called once, first, with the given data', *what, [e['kind'] for e in ev])
        ch.check(set(pres[0]['values'].values()) == {UNREAD}, 'fields are set before preprocessing', *what)
        ch.check(freeze_input(given) == image, 'the data was modified', *what)
        final = {k: v for k, v in data.items() if k in 'ab'} if res == 'drop' else {**data, 'added': 1} if res == 'add' else data if res is None else res
        inst = pres[0]['schema']
        ctx = inst.context
        ch.check(type(inst) is cls and all(e['schema'] is inst and e['ctx'] is ctx for e in ev), 'another instance', *what)
        ch.check(ctx.schema is inst and ctx.config is cls.__config__ and ctx.state is st, 'the schema context', *what)
        ch.check(all(e['state'] is st for e in ev), 'the state given', *what)
        ch.check(not any(e['kind'] == 'wrong' for e in ev), 'an overridden hook is called', *what)
        if final is TypeError:
            ch.check(isinstance(out.exc, TypeError) and len(ev) == 1, 'a result that is no mapping is not refused', *what, out, [e['kind'] for e in ev])
            ch.check(not ctx.is_initialized(), 'initialised after a failure', *what)
            ch.state(*what); return
        # what is loaded is what preprocessing returned
        loads = {e['key']: e['value'] for e in ev if e['kind'] == 'load'}
        ch.same(loads, {k: v for k, v in final.items() if k in 'ab' and v is not None}, f'loaded values {what}')
        raws = {e['key']: e['value'] for e in ev if e['kind'] == 'raw'}
        ch.same(raws, {k: v for k, v in final.items() if k in 'ab'}, f'values of raw validators {what}')
        ch.check(all(e['upd'] is False for e in ev if 'upd' in e), 'a construction is reported as an update', *what)
        ch.check(all(e['init'] is False for e in ev if e['kind'] != 'post'), 'initialised during construction', *what)
        if valid(final):
            ch.check(out.ok and out.value is inst, 'refused', *what, out)
            ch.check(len(posts) == 1 and ev[-1] is posts[0] and posts[0]['init'] is True, 'post-initialisation is not called once, last, initialised', *what, [e['kind'] for e in ev])
            want = {'a': final['a'], 'b': final.get('b', UNREAD), 'd': 'default'}
            ch.same(posts[0]['values'], want, f'fields in post-initialisation {what}')
            ch.check(ctx.is_initialized() and values_of(inst) == want, 'after construction', *what)
        else:
            ch.check(isinstance(out.exc, ValidationError) and not posts and not ctx.is_initialized(), 'post-initialisation after a failure', *what, out, len(posts))
        contexts(ch, ev, what)
        ch.state(*what, repr(st))
    return scenario


def contexts(ch, ev, what):
    """Each loaded key has one load context for its callbacks, with its own state."""
    per = {}
    for e in ev:
        if e['kind'] in ('raw', 'load', 'validator', 'dump'):
            c = e['c']
            ch.check(c.schema is e['schema'] and c.field is e['field'] and c.field.schema in type(c.schema).__mro__, 'schema or field of a context', *what)
            per.setdefault((id(e['schema']), e['key'], e['kind'] == 'dump'), []).append(e)
    for k, es in per.items():
        ch.check(len({id(e['c']) for e in es}) == 1, 'callbacks of one key have different contexts', *what)
        first = es[0]['c']
        ch.check(all(e['value'] is first.value for e in es if e['kind'] in ('raw', 'load', 'dump')), 'the value of a context', *what)
        ch.check(first.state == ({'n': sum(e['kind'] in ('raw', 'validator') for e in es)} if any(e['kind'] in ('raw', 'validator') for e in es) else {}), 'the state of a context', *what, first.state)
    ch.check(len({id(es[0]['c']) for es in per.values()}) == len(per), 'a context is shared by keys', *what)


UPD_MAPPINGS = {'update ' + n: m for n, m in MAPPINGS[1:]}
OPS = [*UPD_MAPPINGS, 'update', 'update none', 'update empty', 'update bad', 'update invalid', 'update raw invalid', 'update unknown', 'update two', 'assign', 'assign bad', 'assign none', 'assign none refused', 'dump', 'dump part', 'dump rest', 'update undumpable', 'copy', 'nested update', 'nested update bad',
       'nested assign', 'nested instance', 'nested own update', 'nested own assign', 'new', 'new failing', 'read', 'change state']


def histories(depth, ops, start):
    def scenario(ch):
        """All operation sequences after a construction, with every hook call and phase recorded."""
        rec = Rec()
        keyed = ch.flag('load keys')
        K = (lambda k: k.upper()) if keyed else (lambda k: k)
        In = schema_class(rec, 'In', keyed=keyed)
        S = schema_class(rec, 'S', nested=In, keyed=keyed, where='inherited')
        st = [0]
        data = {K('a'): 1, K('b'): 2, 'n': {K('a'): 'in'}}
        x = S(data, state=st)
        ev = rec.take()
        hs = [(e['kind'], type(e['schema']).__name__, e['init']) for e in ev if e['kind'] in ('pre', 'post')]
        ch.same(hs, [('pre', 'S', False), ('pre', 'In', False), ('post', 'In', True), ('post', 'S', True)], 'hooks of a construction with a nested schema')
        state_of = {id(x): st}
        hist = []
        for i in range(depth):
            op = ch.pick(ops, f'op{i}')
            hist.append(op)
            ctx, inn = x.context, x.n
            vals = values_of(x)
            new, want_hooks, phases = None, [], []          # phases: expected (class, is_update)
            if op == 'update': out = attempt(x.update, {K('a'): i, K('b'): 'u'}); phases = [('S', True)]
            elif op in UPD_MAPPINGS: out = attempt(x.update, UPD_MAPPINGS[op]({K('b'): 'u%d' % i})); phases = [('S', True)]
            elif op == 'update none': out = attempt(x.update, {K('b'): None}); phases = [('S', True)]
            elif op == 'update empty': out = attempt(x.update, {}); phases = []
            elif op == 'update bad': out = attempt(x.update, {K('b'): 3, K('a'): 'bad'}); phases = [('S', True)]
            elif op == 'update invalid': out = attempt(x.update, {K('b'): 'invalid'}); phases = [('S', True)]
            elif op == 'update raw invalid': out = attempt(x.update, {K('b'): 'rawinvalid'}); phases = [('S', True)]
            elif op == 'update unknown': out = attempt(x.update, {'zz': 1}); phases = []
            elif op == 'update two': out = attempt(x.update, {K('a'): 5, 'd': 6}); phases = [('S', True)]
            elif op == 'assign': out = attempt(setattr, x, 'a', 'as'); phases = [('S', True)]
            elif op == 'assign bad': out = attempt(setattr, x, 'a', 'bad'); phases = [('S', True)]
            elif op == 'assign none': out = attempt(setattr, x, 'b', None); phases = [('S', True)]
            elif op == 'assign none refused': out = attempt(setattr, x, 'a', None); phases = [('S', True)]
            elif op == 'dump': out = attempt(x.dump)
            elif op == 'dump part': out = attempt(x.dump, include=['a', 'n'])
            elif op == 'dump rest': out = attempt(x.dump, exclude=['d'])
            elif op == 'update undumpable': out = attempt(x.update, {'d': 'nodump'}); phases = [('S', True)]
            elif op == 'copy': out = attempt(x.copy); new = out.value
            elif op == 'nested update': out = attempt(x.update, {'n': {K('a'): 'n2'}}); phases = [('In', False)]; want_hooks = [('pre', 'In', False), ('post', 'In', True)]
            elif op == 'nested update bad': out = attempt(x.update, {'n': {K('a'): 'bad'}}); phases = [('In', False)]; want_hooks = [('pre', 'In', False)]
            elif op == 'nested assign': out = attempt(setattr, x, 'n', {K('a'): 'n3', K('b'): 4}); phases = [('In', False)]; want_hooks = [('pre', 'In', False), ('post', 'In', True)]
            elif op == 'nested instance': out = attempt(setattr, x, 'n', inn)
            elif op == 'nested own update': out = attempt(inn.update, {K('a'): 'n4'}); phases = [('In', True)]
            elif op == 'nested own assign': out = attempt(setattr, inn, 'b', 'n5'); phases = [('In', True)]
            elif op == 'new': out = attempt(S, {K('a'): 9}); phases = [('S', False)]; want_hooks = [('pre', 'S', False), ('post', 'S', True)]
            elif op == 'new failing': out = attempt(S, {K('a'): 'bad'}); phases = [('S', False)]; want_hooks = [('pre', 'S', False)]
            elif op == 'read': out = attempt(lambda: (x.a, x.get_value_for('b'), x.n.a, repr(x), x.context.state))
            else:
                st = x.context.state = [i]; state_of[id(x)] = st; out = Out()
            ch.op(op, out)
            ev = rec.take()
            hs = [(e['kind'], type(e['schema']).__name__, e['init']) for e in ev if e['kind'] in ('pre', 'post')]
            ch.same(hs, want_hooks, f'hooks called by {op} after {hist[:-1]}')
            got = {(type(e['schema']).__name__, e['upd']) for e in ev if 'upd' in e}
            ch.same(got, set(phases), f'phases reported by {op} after {hist[:-1]}')
            if op.startswith('dump'):
                ch.check([e for e in ev if e['kind'] != 'dump'] == [] and all(e['init'] for e in ev), 'callbacks of a dump', hist)
                inc = {'dump': {'a', 'b', 'd', 'n'}, 'dump part': {'a', 'n'}, 'dump rest': {'a', 'b', 'n'}}[op]
                ch.check(all(set(e['c'].included_fields) == inc for e in ev if e['schema'] is x), 'included fields of the dump context', hist)
            if op in ('copy', 'read', 'nested instance', 'change state', 'update empty', 'update unknown'):
                ch.check(not ev or not any(e['kind'] in ('load', 'validator', 'raw', 'default', 'dump') for e in ev if type(e['schema']) is S and e['kind'] == 'default'), 'callbacks of ' + op, hist)
            for e in ev:
                if type(e['schema']) is S and op != 'new' and op != 'new failing': ch.check(e['schema'] is x and e['init'] is True and e['state'] is state_of[id(x)], 'another instance or state', hist)
                if 'init' in e and 'upd' in e: ch.check(e['init'] == e['upd'], 'the schema context and the load context disagree', hist)
            contexts(ch, ev, (hist,))
            ch.check(x.context is ctx and ctx.schema is x and ctx.config is S.__config__ and ctx.is_initialized() and ctx.state is state_of[id(x)], 'the schema context after ' + op, hist)
            if new is not None:
                c = new.context
                ch.check(c is not ctx and c.schema is new and c.is_initialized() and c.config is S.__config__ and c.state == ctx.state, 'the context of a copy', hist)
                ch.check(values_of(new) == vals, 'values of a copy', hist)
                state_of[id(new)] = c.state
                keep = x
                x = new
                hist[-1] = 'copy'
                state_of['keep%d' % i] = keep
        ch.state(tuple(hist), keyed)
    return scenario


def nested_constructions(ch):
    """Hooks of nested schemas at three levels, given as data or as instances, with a failure anywhere."""
    rec = Rec()
    A = schema_class(rec, 'A')
    B = schema_class(rec, 'B', nested=A)
    C = schema_class(rec, 'C', nested=B)
    classes = [C, B, A]
    faults = [ch.pick(['ok', 'bad', 'missing', 'invalid', 'unknown'], f'level{i}') for i in range(3)]
    inst = ch.pick(['none', 'A', 'B'], 'instance')
    if inst == 'A' and faults[2] != 'ok' or inst == 'B' and faults[1:] != ['ok', 'ok']: raise Skip
    op = ch.pick(['construct', 'update', 'assign'], 'operation')

    def data(i):
        d = {'ok': {'a': i}, 'bad': {'a': 'bad'}, 'missing': {}, 'invalid': {'a': i, 'b': 'invalid'}, 'unknown': {'a': i, 'zz': 1}}[faults[i]]
        if i < 2:
            d['n'] = data(i + 1)
            if inst == 'A' and i == 1: d['n'] = A({'a': 'inst'})
            if inst == 'B' and i == 0: d['n'] = B({'a': 'inst', 'n': {'a': 'inst2'}})
        return d
    d = data(0)
    if op != 'construct':
        if faults[0] != 'ok': raise Skip
        x = C({'a': 'old'})
    rec.take()
    out = attempt(C, d) if op == 'construct' else attempt(x.update, {'n': d['n']}) if op == 'update' else attempt(setattr, x, 'n', d['n'])
    ch.op(op, faults, inst, out)
    ev = rec.take()
    n = {'none': 3, 'A': 2, 'B': 1}[inst]            # levels that are constructed
    names = 'CBA'
    lo = 0 if op == 'construct' else 1

    def expected(i):
        """(events, success)"""
        if i >= n: return [], True
        evs, sub = [('pre', names[i])], True
        if i < 2:
            e, sub = expected(i + 1)
            evs += e
        ok = sub and faults[i] == 'ok'
        if ok: evs.append(('post', names[i]))
        return evs, ok
    want, ok = expected(lo)
    got = [(e['kind'], type(e['schema']).__name__) for e in ev if e['kind'] in ('pre', 'post')]
    ch.same(got, want, f'hooks of nested schemas {op} {faults} {inst}')
    ch.check(out.ok == ok, 'outcome', op, faults, inst, out)
    for e in ev:
        if e['kind'] in ('pre', 'post'): ch.check(e['init'] is (e['kind'] == 'post'), 'phase in a hook', e['kind'])
        if 'upd' in e: ch.check(e['upd'] is False and e['init'] is False, 'phase of a nested construction', op)
    contexts(ch, ev, (op, faults, inst))
    ch.state(tuple(faults), inst, op)


def hook_actions(ch):
    """Hooks that themselves use the schema, or other instances of it."""
    rec = Rec()
    action = ch.pick(['nothing', 'update', 'update fails', 'assign', 'assign fails', 'copy', 'dump', 'read', 'construct other', 'construct other fails', 'set state'], 'action')
    hook = ch.pick(['post', 'pre'], 'hook')
    if hook == 'pre' and action in ('update', 'assign', 'update fails', 'assign fails', 'copy', 'dump'): raise Skip
    level = [0]
    out2 = []

    def act(self):
        level[0] += 1
        if level[0] == 1:
            if action == 'update': out2.append(attempt(self.update, {'a': 'by hook', 'b': 7}))
            elif action == 'update fails': out2.append(attempt(self.update, {'a': 'by hook', 'b': 'invalid'}))
            elif action == 'assign': out2.append(attempt(setattr, self, 'a', 'by hook'))
            elif action == 'assign fails': out2.append(attempt(setattr, self, 'a', 'bad'))
            elif action == 'copy': out2.append(attempt(self.copy))
            elif action == 'dump': out2.append(attempt(self.dump))
            elif action == 'read': out2.append(attempt(lambda: (self.get_value_for('a', None), self.context.state, repr(self))))
            elif action == 'construct other': out2.append(attempt(type(self), {'a': 'other'}))
            elif action == 'construct other fails': out2.append(attempt(type(self), {'a': 'bad'}))
            elif action == 'set state': self.context.state = 'by hook'
        level[0] -= 1

    def pre(self, d):
        if hook == 'pre': act(self)
        return d
    valid_ = ch.flag('valid')
    S = schema_class(rec, pre=pre, post=act if hook == 'post' else None)
    out = attempt(S, {'a': 1} if valid_ else {'a': 'bad'}, state='first')
    ch.op(action, hook, valid_, out, out2)
    ev = rec.take()
    ch.check(out.ok == valid_, 'outcome', out)
    me = ev[0]['schema']
    mine = [(e['kind'], e['init'], e.get('upd')) for e in ev if e['schema'] is me and e['kind'] in ('pre', 'post', 'load')]
    ran = hook == 'pre' or valid_
    base = [('pre', False, None), ('load', False, False)] + ([('post', True, None)] if valid_ else [])
    if hook == 'post' and valid_:
        if action in ('update', 'update fails'): base += [('load', True, True), ('load', True, True)]
        if action in ('assign', 'assign fails'): base += [('load', True, True)]
    ch.same(mine, base, f'callbacks of the instance {action} {hook}')
    others = [(e['kind'], e['init'], e.get('upd')) for e in ev if e['schema'] is not me and e['kind'] in ('pre', 'post', 'load')]
    want = []
    if ran and action == 'construct other': want = [('pre', False, None), ('load', False, False), ('post', True, None)]
    if ran and action == 'construct other fails': want = [('pre', False, None), ('load', False, False)]
    ch.same(others, want, f'callbacks of other instances {action} {hook}')
    if valid_:
        x = out.value
        ch.check(x.a == ('by hook' if hook == 'post' and action in ('update', 'assign') else 1) and x.context.is_initialized(), 'value after the hook', action, x.a)
        ch.check(x.context.state == ('by hook' if action == 'set state' else 'first'), 'state', x.context.state)
    ch.state(action, hook, valid_)


def configured(levels):
    def scenario(ch):
        """The configuration that contexts give, in chains of configured and unconfigured schemas."""
        rec = Rec()
        cls = schema_class(rec, 'Base')
        confs = []
        for i in range(levels):
            c = ch.pick([None, dict(ignore_extra=True), dict(ignore_extra=False), dict(slotted=False), dict(add_repr=False)], f'config{i}')
            confs.append(c)
            attrs = {} if c is None else {'Config': type('Config', (SchemaConfig,), dict(c))}
            if i == levels - 1 and ch.flag('nested'): attrs['n'] = fields.Object(schema_class(rec, 'In'), required=False)
            try: cls = mk(f'L{i}', attrs, (cls,))
            except TypeError: raise Skip
        classes = [k for k in cls.__mro__ if isinstance(k, type(Schema)) and k is not Schema][::-1]
        nest = 'n' in all_field_names(cls)
        x = cls({'a': 1, **({'n': {'a': 2}} if nest else {})})
        for k in classes:
            y = k({'a': 1}) if k is not cls else x
            for z in (y, y.copy()):
                attempt(z.update, {'a': 2}); attempt(z.update, {'a': 'bad'}); attempt(z.dump); attempt(setattr, z, 'b', 3)
                ch.check(z.context.config is k.__config__ and z.context.schema is z, 'the configuration of a context', confs, k.__name__)
            attempt(k, {'a': 'bad'})
        for e in rec.take():
            t = type(e['schema'])
            ch.check(e['ctx'].config is t.__config__ and e['ctx'].schema is e['schema'], 'the configuration given to a hook or callback', confs, t.__name__, e['kind'])
        # what the configuration of the class says is what was declared last
        want = None
        for k, c in zip(classes[1:], confs):
            if c is not None: want = c
            if want:
                for n, v in want.items(): ch.check(getattr(k.__config__, n) is v, 'the declared configuration is not in use', confs, k.__name__)
        if nest: ch.check(x.n.context.config is type(x.n).__config__, 'the configuration of a nested instance', confs)
        ch.state(repr(confs), nest)
    return scenario


ARGS = [('none', {}), ('true', dict(ignore_extra=True)), ('false', dict(ignore_extra=False))]


def legacy_keys(ch):
    """Preprocessing sees every given key, declared or not, whatever happens to undeclared ones afterwards."""
    an, kw = ch.pick(ARGS, 'argument')
    conf = ch.pick([None, True, False], 'configured')
    legacy = ch.pick(['old', 'A', '', 1, None, ('a',)], 'legacy key')
    mode = ch.pick(['rename', 'rename copy', 'move to nested', 'keep both', 'count'], 'preprocessing')
    extra = ch.flag('another unknown key')
    mapping = ch.pick(MAPPINGS, 'mapping')
    nested = ch.pick(['no', 'data'], 'nested')
    rec = Rec()

    def pre(self, d):
        if legacy not in d: return d
        if mode == 'rename': return {('a' if k == legacy else k): v for k, v in d.items()}
        if mode == 'rename copy': r = dict(d); r['a'] = r.pop(legacy); return r
        if mode == 'keep both': return {**d, 'a': d[legacy]}
        if mode == 'count': return {'a': len(d)}
        r = dict(d); r['a'] = 0; r['n'] = {'a': r.pop(legacy)}; return r
    attrs = {} if conf is None else {'Config': type('Config', (SchemaConfig,), dict(ignore_extra=conf))}
    S = mk('S', attrs, (schema_class(rec, 'B', nested=schema_class(rec, 'In'), pre=pre),))
    data = {legacy: 'v', **({'zz': 1} if extra else {}), **({'n': {'a': 1}} if nested == 'data' and mode != 'move to nested' else {})}
    given = mapping[1](data)
    out = attempt(S, given, **kw)
    ev = rec.take()
    pres = [e for e in ev if e['kind'] == 'pre' and type(e['schema']) is S]
    what = (an, conf, legacy, mode, extra, mapping[0])
    ch.op(*what, out)
    ch.check(len(pres) == 1 and ev[0] is pres[0] and dict(pres[0]["data"].items()) == data, 'preprocessing does not see the given data', *what)
    ignored = kw.get('ignore_extra', bool(conf))
    bad = (extra and mode != 'count') or mode == 'keep both'
    if bad and not ignored:
        ch.check(isinstance(out.exc, ValidationError) and set(out.exc.raw()) == {k for k in ([legacy] if mode == 'keep both' else []) + (['zz'] if extra else [])}, 'unknown keys', *what, out)
        return
    ch.check(out.ok, 'refused', *what, out)
    ch.check(out.value.a == {'move to nested': 0, 'count': len(data)}.get(mode, 'v') and (mode != 'move to nested' or out.value.n.a == 'v'), 'the values', *what)
    ch.state(*map(repr, what))


class Boom(Exception):
    pass


def raising_hooks(ch):
    """Exceptions of the preprocessing reach the caller, and no later phase runs."""
    rec = Rec()
    make = ch.pick([Boom, KeyError, RuntimeError, LookupError, KeyboardInterrupt], 'exception')
    e0 = make('from the hook')
    where = ch.pick(['pre', 'post', 'load', 'validator', 'raw', 'default'], 'where')

    def boom(*a):
        raise e0
    S = schema_class(rec, pre=boom if where == 'pre' else (lambda s, d: d), post=boom if where == 'post' else None)
    if where in ('load', 'validator', 'raw', 'default'):
        class L(fields.Any):
            def value_load(self, v, ctx):
                boom()
        f = L() if where == 'load' else fields.Any() if where != 'default' else fields.Any(default=boom)
        if where in ('validator', 'raw'): f.add_validator(boom, raw=where == 'raw')
        S = mk('T', {'e': f}, (S,))
    d = {'a': 1} if where in ('default', 'pre', 'post') else {'a': 1, 'e': 1}
    out = attempt_base(S, d)
    ch.op(make.__name__, where, out)
    ev = rec.take()
    ch.check(out.exc is e0, 'the exception of a hook is replaced', where, out)
    posts = [e for e in ev if e['kind'] == 'post']
    ch.check(len([e for e in ev if e['kind'] == 'pre']) == 1 and len(posts) == (where == 'post'), 'hooks called', where, [e['kind'] for e in ev])
    if where != 'post': ch.check(not ev[0]['ctx'].is_initialized(), 'initialised after a failure', where)
    # a later construction is unaffected
    rec2 = Rec()
    S2 = schema_class(rec2)
    x = S2({'a': 1})
    ch.check([e['kind'] for e in rec2.take() if e['kind'] in ('pre', 'post')] == ['pre', 'post'] and x.context.is_initialized(), 'a later construction', where)
    ch.state(make.__name__, where)


def seen_from_inside(ch):
    """The phase of an operation under way, asked from the callbacks of any other operation that happens inside it."""
    outer = ch.pick(['construct', 'update', 'assign', 'dump'], 'outer operation')
    point = ch.pick(['raw', 'load', 'validator', 'format', 'nested', 'default', 'post'] if outer == 'construct' else ['raw', 'load', 'validator', 'format', 'nested'] if outer != 'dump' else ['dump'], 'point')
    inner = ch.pick(['construct', 'construct fails', 'update', 'update fails', 'assign', 'dump', 'own construct', 'nested construct'], 'inner operation')
    held, log, ops = [], [], []
    active = [False]

    def look(where):
        for kind, c, s, want_upd in held:
            log.append((where, kind, want_upd, c.is_update() if hasattr(c, 'is_update') else None, s.context.is_initialized(), s.context.schema is s and c.schema is s))

    class Q(fields.Field):
        """Asks about everything that is held, at every point."""
        def value_load(self, v, ctx):
            look('load')
            if v == 'bad': raise ValueError('bad')
            return v
        def value_dump(self, v, ctx):
            look('dump')
            return v
        def format_error(self, code, ctx):
            look('format')

    def q(schema, v, ctx): look('validator')

    def pre(self, d):
        look('pre'); return d

    def post_(self): look('post')
    qf = Q(validators=[q]); qf.add_validator(q, raw=True)
    Other = mk('Other', q=qf, d=fields.Any(default=lambda c, f: look('default')), preprocess_data=pre, __schema_post_init__=post_)
    NestO = mk('NestO', o=fields.Object(Other, required=False), q=Q(required=False))
    other, nest = Other({'q': 0}), NestO({'o': {'q': 0}})

    def act(ctx, schema, upd):
        if not active[0]:
            return
        active[0] = False
        held.append((outer, ctx, schema, upd))
        look('before')
        data = {'q': 1}
        o = {'construct': lambda: attempt(Other, data), 'construct fails': lambda: attempt(Other, {'q': 'bad'}), 'update': lambda: attempt(other.update, data), 'update fails': lambda: attempt(other.update, {'q': None}),
             'assign': lambda: attempt(setattr, other, 'q', 2), 'dump': lambda: attempt(other.dump), 'own construct': lambda: attempt(type(schema), {'a': 1}) if type(schema) is not Other else attempt(Other, data),
             'nested construct': lambda: attempt(nest.update, {'o': data, 'q': 1})}[inner]()
        ops.append(o)
        look('after')
        del held[:]

    class P(fields.Field):
        def value_load(self, v, ctx):
            if point == 'load': act(ctx, ctx.schema, ctx.is_update())
            return v
        def value_dump(self, v, ctx):
            if point == 'dump': act(ctx, ctx.schema, None)
            return v
        def format_error(self, code, ctx):
            if point == 'format': act(ctx.context if hasattr(ctx, 'context') else ctx.schema.context, ctx.schema, outer != 'construct')
            look('format')

    def at(where):
        def v(schema, value, ctx):
            if point == where: act(ctx, schema, ctx.is_update())
        return v
    pf = P(validators=[at('validator')], required=False, none=point != 'format'); pf.add_validator(at('raw'), raw=True)

    def dflt(c, f):
        if point == 'default' and outer == 'construct': act(c, c.schema, False)

    def ppost(self):
        if point == 'post': act(self.context, self, None)

    class NP(fields.Object):
        def value_load(self, v, ctx):
            if active[0] and point == 'nested':
                held.append((outer, ctx, ctx.schema, ctx.is_update()))
                try: return super().value_load(v, ctx)
                finally: look('after'); del held[:]
            return super().value_load(v, ctx)
    S = mk('S', a=pf, n=NP(Other, required=False), d=fields.Any(default=dflt), __schema_post_init__=ppost)
    val = {'n': {'q': 0}} if point == 'nested' else {'a': None if point == 'format' else 1}
    x = S({'a': 0} if outer == 'dump' else {}) if outer != 'construct' else None
    active[0] = True
    out = attempt(S, val) if outer == 'construct' else attempt(x.update, val) if outer == 'update' else attempt(setattr, x, *list(val.items())[0]) if outer == 'assign' else attempt(x.dump)
    ch.op(outer, point, inner, out, len(log))
    ch.check(out.ok == (point != 'format'), 'outcome', outer, point, inner, out)
    ch.check(log, 'nothing was asked', outer, point, inner)
    want_upd = outer in ('update', 'assign')
    for where, kind, w, upd, init, own in log:
        ch.check(upd is None or upd is want_upd, 'the phase of the operation under way is wrong inside another one', outer, point, inner, where, upd)
        ch.check(w is None or w is want_upd, 'the phase is wrong', outer, point, inner)
        ch.check(init is (outer != 'construct' or point == 'post') and own, 'the schema context is wrong inside another operation', outer, point, inner, where, init)
    ch.state(outer, point, inner)


def configured_hooks(ch):
    """The hooks run under every configuration, for every data, and what preprocessing returns is what is validated."""
    opts = {k: ch.flag(k) for k in ('frozen', 'ignore_extra', 'slotted', 'add_repr')}
    shape = ch.pick(['no fields', 'optional', 'required', 'default', 'many'], 'fields')
    fs = {'no fields': {}, 'optional': dict(a=fields.Any(required=False)), 'required': dict(a=fields.Any()), 'default': dict(a=fields.Any(default=0)), 'many': {n: fields.Any(required=False) for n in 'abcdefgh'}}[shape]
    given = ch.pick([{}, {'a': 1}, {'zz': 1}, {'a': None}, {'a': 1, 'b': 2, 'zz': 3}], 'given')
    result = ch.pick(['same', {}, {'a': 5}, {'zz': 5}, 'equal'], 'result')
    where = ch.pick(['own', 'parent'], 'where')
    extra = ch.pick([None, False, True], 'argument')
    log = []

    def pre(self, d):
        log.append(('pre', self, d))
        return d if result == 'same' else dict(d) if result == 'equal' else result

    def post(self): log.append(('post', self, {n: self.get_value_for(n, UNSET) for n in fs}))
    hooks_ = dict(preprocess_data=pre, __schema_post_init__=post)
    P = mk('P', dict(hooks_ if where == 'parent' else {}))
    cls = mk('S', dict(fs, Config=cfg(**opts), **(hooks_ if where == 'own' else {})), (P,))
    out = attempt(cls, given, **({} if extra is None else dict(ignore_extra=extra)))
    what = (opts, shape, given, result, where, extra)
    ch.op(*what, out)
    final = given if result in ('same', 'equal') else result
    ignore = opts['ignore_extra'] if extra is None else extra
    ok = (ignore or set(final) <= set(fs)) and not (shape == 'required' and 'a' not in final) and not any(final[k] is None for k in final if k in fs)
    ch.check(out.ok == ok and (ok or isinstance(out.exc, ValidationError)), 'what preprocessing returned is not what is validated', *what, out)
    ch.check([e[0] for e in log] == ['pre'] + ['post'] * ok and log[0][2] is given, 'the hooks', *what, [e[0] for e in log])
    ch.check(all(type(e[1]) is cls and e[1] is log[0][1] for e in log) and (not ok or out.value is log[0][1]), 'the instance of the hooks', *what)
    if ok:
        want = {n: final.get(n, 0 if shape == 'default' else UNSET) for n in fs}
        ch.check(log[1][2] == want and out.value.dump() == {k: v for k, v in want.items() if v is not UNSET}, 'the values', *what, log[1][2])
        n = len(log)
        attempt(out.value.update, {'a': 3}); attempt(setattr, out.value, 'a', 4) if 'a' in fs else None; out.value.dump(); out.value.copy(); repr(out.value)
        ch.check(len(log) == n, 'a later operation called a hook', *what)
    ch.state(repr(opts), shape, repr(given), repr(result), where, extra)


def configurations(ch):
    """The schema context exposes the configuration the schema uses, whatever the attributes of the class are called."""
    levels = []
    fielded = ch.flag('fields at every level')
    parent, eff = Schema, SchemaConfig
    for lev in range(3):
        how = ch.pick(['none', 'Config', 'Settings', 'number', 'plain class', 'instance'], f'level{lev}')
        c = type('Config', (SchemaConfig,), {'ignore_extra': bool(lev % 2), 'add_repr': not lev % 2})
        attrs = {f'a{lev}': fields.Any(required=False)} if lev == 1 or fielded else {}
        if how == 'Config': attrs['Config'] = c; eff = c
        elif how == 'Settings': attrs['Settings'] = c; eff = c
        elif how == 'number': attrs['Config'] = 5
        elif how == 'plain class': attrs['Config'] = type('Config', (), {'frozen': True})
        elif how == 'instance': attrs['config'] = attrs['Config'] = 'text'
        seen = []
        attrs["__schema_post_init__"] = lambda self, seen=seen: seen.append(self.context.config)
        cls = mk(f'L{lev}', attrs, (parent,))
        levels.append((cls, eff, seen))
        parent = cls
        for cl, e, s in levels:
            del s[:]
            out = attempt(cl, {})
            ch.op(cl.__name__, how, out)
            ch.check(out.ok, 'construction', out)
            x = out.value
            ch.check(x.context.config is e and cl.__config__ is e, 'the configuration of the context', cl.__name__, how, x.context.config)
            ch.check(s == [e], 'the configuration seen by the hook', cl.__name__, how, s)
            ch.check(x.context.schema is x and x.copy().context.config is e, 'the instance, and the configuration of a copy', cl.__name__, how)
            ch.check(attempt(cl, {'zz': 1}).ok == e.ignore_extra, 'unknown keys', cl.__name__, how)
    ch.state(fielded, tuple(e.__name__ for _, e, _ in levels))


@also_nested('hooks')
@also('hooks')
def scenarios(tier):
    th = tier == 'thorough'
    few = ['update', 'update bad', 'assign', 'dump', 'update undumpable', 'copy', 'nested update', 'nested own update', 'new', 'new failing', 'change state']
    return [
        dict(name='construction', fn=construct(['own', 'inherited', 'mixin', 'overridden', 'super'])),
        dict(name='histories', fn=histories(2, OPS, None)),
        dict(name='longer histories', fn=histories(4 if th else 3, OPS if th else few, None)),
        dict(name='nested constructions', fn=nested_constructions),
        dict(name='seen from inside', fn=seen_from_inside),
        dict(name='configured chains', fn=configured(3 if th else 2)),
        dict(name='configured hooks', fn=configured_hooks),
        dict(name='configurations', fn=configurations),
        dict(name='legacy keys', fn=legacy_keys),
        dict(name='hooks that act', fn=hook_actions),
        dict(name='exceptions of hooks', fn=raising_hooks),
    ]
