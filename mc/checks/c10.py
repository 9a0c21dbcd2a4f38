"""C10 A copy equals its original and is independent of it."""
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['values shared between an original and a copy are not themselves modified'])


def even(schema, value, ctx):
    CALLS.append((schema, ctx.schema, ctx.is_update()))
    if value % 2:
        raise ValueError('odd')


CALLS = []
HOOKS = []


class In(Schema):
    n = fields.Integer()


def make(style):
    attrs = dict(
        a=fields.Integer(validators=[even], none=True),
        b=fields.String(required=False, load_key='B'),
        o=fields.Object(In, required=False),
        d=fields.Any(default=0, none=True),
        z=fields.Any(required=False, frozen=True),
    )

    if style.startswith('bare'):
        attrs.update(a=fields.Integer(validators=[even], none=True, required=False), d=fields.Any(required=False, none=True))

    def post(self):
        HOOKS.append('post')

    def pre(self, data):
        HOOKS.append('pre')
        return data
    attrs.update(__schema_post_init__=post, preprocess_data=pre)
    if style == 'bare unslotted':
        attrs['Config'] = cfg(slotted=False)
    if style == 'unslotted':
        attrs['Config'] = cfg(slotted=False, add_repr=False)
    elif style == 'slots':
        attrs['__slots__'] = ('extra',)
        attrs['__len__'] = lambda self: 0
    elif style == 'frozen':
        attrs['Config'] = cfg(frozen=True)
    elif style == 'child':
        P = mk('P', attrs)
        return mk('Child', dict(c=fields.Any(required=False)), (P,))
    return mk('Cp', attrs)


STYLES = ['slotted', 'unslotted', 'slots', 'child', 'frozen', 'bare', 'bare unslotted']
NAMES = ('a', 'b', 'o', 'd', 'z')


class State:
    def __init__(self):
        self.x = 0


class CState:
    """State with its own notion of copying."""
    def __init__(self, n=0):
        self.n = n
    def __copy__(self):
        return CState(self.n + 100)


class FState(State):
    """State that is false."""
    def __bool__(self):
        return False


def mkstate(kind):
    return {'None': None, 'dict': {'k': [1]}, 'list': [0], 'object': State(), 'custom': CState(), 'zero': 0, 'set': {1}, 'empty dict': {}, 'empty list': [], 'empty set': set(), 'falsy': FState()}[kind]


def image(state):
    if isinstance(state, State):
        return ('State', dict(vars(state)))
    if isinstance(state, CState):
        return ('CState', state.n)
    return (type(state).__name__, repr(state))


INITS = [{'a': 0}, {'a': None, 'B': '', 'o': {'n': 1}, 'd': None, 'z': []}, {'a': 4, 'B': 'x', 'z': 1}]


class Twin:
    def __init__(self, inst, model, state):
        self.inst, self.model, self.state = inst, model, state


def model_of(inst):
    return snap(inst, NAMES)


def verify(ch, cls, twins, what):
    for i, t_ in enumerate(twins):
        now = snap(t_.inst, NAMES)
        for n in NAMES:
            ch.check(now[n] is t_.model[n], f'instance {i}: field {n} is not as its own operations left it', what, now[n], t_.model[n])
            try:
                v = getattr(t_.inst, n)
            except FieldNotSet as e:
                v = UNSET
                ch.check(e.schema is t_.inst, f'instance {i}: unset field names another instance', what)
            ch.check(v is now[n], f'instance {i}: attribute and lookup disagree', n, what)
        ch.check(image(t_.inst.context.state) == t_.state, f'instance {i}: state is not as its own operations left it', what, t_.inst.context.state, t_.state)
        ctx = t_.inst.context
        ch.check(ctx.schema is t_.inst, f'instance {i}: context names another instance', what)
        ch.check(ctx.config is cls.__config__ and ctx.is_initialized(), f'instance {i}: context is wrong', what)
        d = t_.inst.dump()
        ch.check(set(d) == {n for n in NAMES if now[n] is not UNSET} and all(d[n] is now[n] for n in d if n != 'o'), f'instance {i}: dump differs', what, d)
    ids = [id(t_.inst) for t_ in twins]
    ch.check(len(set(ids)) == len(ids), 'copy returned an existing instance')
    ch.check(len({id(t_.inst.context) for t_ in twins}) == len(ids), 'instances share a context')


def do_copy(ch, cls, src, what):
    before = len(HOOKS), len(CALLS)
    c = src.inst.copy()
    ch.op('copy', what)
    ch.check(type(c) is cls, 'copy has another class', type(c))
    ch.check((len(HOOKS), len(CALLS)) == before, 'copy called a hook or validator', HOOKS)
    st = src.inst.context.state
    exp = image(st)
    if isinstance(st, CState):
        exp = ('CState', st.n + 100)
    if isinstance(st, (dict, list, set, State, CState)):
        ch.check(c.context.state is not st, 'the copy shares the state object')
    if isinstance(st, dict) and 'k' in st:
        ch.check(c.context.state['k'] is st['k'], 'state is not copied at top level only')
    return Twin(c, dict(src.model), exp)


def ops_for(style):
    ops = [('set', 'a', 2), ('set', 'a', 3), ('set', 'a', None), ('set', 'b', 'n'), ('set', 'b', 5), ('set', 'o', {'n': 7}),
           ('upd', {'a': 6, 'B': 'u'}), ('upd', {'a': 8, 'B': 0}), ('upd', {'d': 1, 'z': 2}), ('upd', {'a': 10, 'zz': 0}),
           ('state', 'replace'), ('state', 'mutate'), ('state', 'None')]
    return ops


CORE = [('set', 'a', 2), ('set', 'a', 3), ('upd', {'a': 6, 'B': 'u'}), ('upd', {'a': 8, 'B': 0}), ('state', 'replace'), ('state', 'mutate')]


def apply(ch, cls, tw, op, frozen):
    inst = tw.inst
    del CALLS[:]
    if op[0] == 'state':
        st = inst.context.state
        if op[1] == 'replace':
            inst.context.state = ['new']
        elif op[1] == 'None':
            inst.context.state = None
        elif isinstance(st, dict): st['m'] = len(st)
        elif isinstance(st, list): st.append(len(st))
        elif isinstance(st, set): st.add(len(st) + 5)
        elif isinstance(st, State): st.x += 1
        elif isinstance(st, CState): st.n += 1
        tw.state = image(inst.context.state)
        ch.op(*op)
        return
    out = attempt(setattr, inst, op[1], op[2]) if op[0] == 'set' else attempt(inst.update, op[1])
    ch.op(*op, out)
    for s, cs, upd in CALLS:
        ch.check(s is inst and cs is inst, 'a validator got another instance', op)
        ch.check(upd, 'the context of an update does not report an update', op)
    items = {op[1]: op[2]} if op[0] == 'set' else {('b' if k == 'B' else k): v for k, v in op[1].items()}
    good = all({'a': lambda v: v is None or v % 2 == 0, 'b': lambda v: isinstance(v, str), 'o': lambda v: True, 'd': lambda v: True}.get(k, lambda v: False)(v)
               for k, v in items.items())
    if frozen or 'z' in items:
        ch.check(isinstance(out.exc, FrozenError), 'no FrozenError', op, out)
        if frozen:
            ch.check(out.exc.entity is inst, 'FrozenError names another instance', op)
    elif not good:
        ch.check(isinstance(out.exc, ValidationError) and out.exc.schema is inst, 'no ValidationError of this instance', op, out)
        ch.check(all(e.schema is inst for e in out.exc.errors), 'errors name another instance', op)
    else:
        ch.check(out.ok, 'a valid operation failed', op, out)
        new = snap(inst, NAMES)
        for k, v in items.items():
            if k == 'o':
                ch.check(type(new['o']) is In and new['o'].n == v['n'], 'wrong nested value', op)
            else:
                ch.check(eqv(new[k], v), 'wrong value', op, new[k])
            tw.model[k] = new[k]


def history(depth, maxcopies, core, styles, states):
    def scenario(ch):
        style = ch.pick(styles, 'style')
        skind = ch.pick(states, 'state')
        init = ch.pick(INITS[:2] if core else INITS, 'initial') if not style.startswith('bare') else ch.pick([{}, {'d': None}], 'initial')
        cls = make(style)
        st = mkstate(skind)
        del HOOKS[:], CALLS[:]
        inst = cls(dict(init), state=st)
        ch.check(inst.context.state is st, 'state is not the given one')
        tw = [Twin(inst, model_of(inst), image(st))]
        tw.append(do_copy(ch, cls, tw[0], 'first'))
        verify(ch, cls, tw, 'after copy')
        ops = CORE if core else ops_for(style)
        for i in range(depth):
            n = len(tw)
            c = ch.choose(n * len(ops) + (n if n < maxcopies else 0), f'op{i}')
            if c >= n * len(ops):
                src = c - n * len(ops)
                tw.append(do_copy(ch, cls, tw[src], src))
                what = ('copy', src)
            else:
                what = (c // len(ops), ops[c % len(ops)])
                apply(ch, cls, tw[what[0]], what[1], style == 'frozen')
            verify(ch, cls, tw, what)
            ch.check(len(HOOKS) == 2, 'an operation other than construction called a hook', what, HOOKS)
            ch.state(style, skind, tuple((tuple(map(repr, x.model.values())), x.state) for x in tw))
    return scenario


def nested(ch):
    """Copies of instances held by other instances, and of instances holding others."""
    P = mk('P', x=fields.Object(In), y=fields.Object(In, required=False))
    inner = ch.pick(['dict', 'instance', 'instance with a state', 'instance with a falsy state'], 'inner value')
    p = P({'x': {'n': 1} if inner == 'dict' else In({'n': 1}) if inner == 'instance' else In({'n': 1}, state={'k': 1} if inner.endswith('a state') else {})}, state={'s': 1})
    tgt = ch.pick(['outer', 'inner'], 'copied')
    op1 = ch.pick(['set', 'bad', 'upd', 'setinst'], 'op1')
    op2 = ch.pick(['set', 'bad', 'upd', 'setinst'], 'op2')
    side1, side2 = ch.flag('side1'), ch.flag('side2')
    if tgt == 'outer':
        a, b = p, p.copy()
        held = a.x
        ch.check(b.x is held, 'copy does not hold the same value')
        names = ('x', 'y')
    else:
        a, b = p.x, p.x.copy()
        names = ('n',)
    model = [snap(a, names), snap(b, names)]
    for side, op in ((side1, op1), (side2, op2)):
        inst = (a, b)[side]
        if tgt == 'outer':
            out = {'set': lambda: setattr(inst, 'x', {'n': 5}), 'bad': lambda: setattr(inst, 'x', {'n': 'q'}),
                   'upd': lambda: inst.update({'x': {'n': 2}, 'y': {'n': 3}}), 'setinst': lambda: setattr(inst, 'y', In({'n': 9}))}[op]
        else:
            out = {'set': lambda: setattr(inst, 'n', 5), 'bad': lambda: setattr(inst, 'n', 'q'),
                   'upd': lambda: inst.update({'n': 2}), 'setinst': lambda: inst.update({'n': 3, 'z': 1})}[op]
        o = attempt(out)
        ch.op(tgt, side, op, o)
        other = (b, a)[side]
        now = snap(other, names)
        ch.check(all(now[n] is model[1 - side][n] for n in names), 'an operation on one side changed the other', tgt, op, now)
        if not o.ok:
            now = snap(inst, names)
            ch.check(all(now[n] is model[side][n] for n in names), 'failed operation changed the instance', tgt, op)
        model[side] = snap(inst, names)
    ch.state(inner, tgt, op1, op2, side1, side2)


class Keep:
    """A value whose identity matters."""


def attributes(ch):
    """Attributes beside the fields are those of the original; rebinding them on one side does not reach the other."""
    where = ch.pick(['own slots', 'parent slots', 'slots on both', 'dictionary', 'slots and dictionary', 'private names'], 'where')
    given = [ch.flag(f'set {i}') for i in range(2)]
    chain = ch.flag('copy of a copy')
    attrs = dict(a=fields.Any(required=False))
    if where == 'own slots': cls = mk('A', dict(attrs, __slots__=('p', 'q')))
    elif where == 'parent slots': cls = mk('B', dict(b=fields.Any(required=False), __slots__=()), (mk('A', dict(attrs, __slots__=('p', 'q'))),))
    elif where == 'slots on both': cls = mk('B', dict(b=fields.Any(required=False), __slots__=('q',)), (mk('A', dict(attrs, __slots__=('p',))),))
    elif where == 'dictionary': cls = mk('A', dict(attrs, Config=cfg(slotted=False)))
    elif where == 'slots and dictionary': cls = mk('B', dict(Config=cfg(slotted=False)), (mk('A', dict(attrs, __slots__=('p',))),))
    else: cls = mk('A', dict(attrs, __slots__=('_A__p', 'q')))
    n1, n2 = ('_A__p', 'q') if where == 'private names' else ('p', 'q')
    vals = {n: Keep() for n, g in zip((n1, n2), given) if g}
    x = cls({'a': 1}, state=['s'])
    for n, v in vals.items(): setattr(x, n, v)
    y = x.copy()
    if chain: y = y.copy()
    ch.op('copy', where, given, chain)
    for n in (n1, n2):
        ch.check(getattr(x, n, None) is vals.get(n), 'the original changed', where, n)
        ch.check(getattr(y, n, None) is vals.get(n), 'an attribute of the original is missing in the copy', where, n, given)
    for one, other in ((x, y), (y, x)):
        for n in (n1, n2):
            if where in ('dictionary', 'slots and dictionary') and n == 'q': continue
            old = getattr(other, n, None)
            setattr(one, n, Keep())
            ch.check(getattr(other, n, None) is old, 'an attribute of the other instance changed', where, n)
    y.a = 2
    ch.check(x.a == 1 and y.a == 2, 'fields', where)
    ch.state(where, tuple(given), chain)


class DeepOnly:
    def __deepcopy__(self, memo): raise AssertionError('copied deeply')


class Both:
    def __init__(self): self.k, self.how = Keep(), 'original'
    def __copy__(self):
        b = Both(); b.k, b.how = self.k, 'copied'; return b
    def __deepcopy__(self, memo): raise AssertionError('copied deeply')


class DictSub(dict):
    pass


class Slotted:
    __slots__ = ('k', 'u')


def state_kinds():
    s = Slotted(); s.k = Keep()
    d = DictSub(a=Keep()); d.note = Keep()
    o = DeepOnly(); o.k = Keep(); o.l = [Keep()]
    return {'tuple': (Keep(), [Keep()], {'a': Keep()}), 'nested list': [[Keep()], {'k': [Keep()]}], 'nested dict': {'a': {'b': Keep()}, 'c': [Keep()]}, 'frozenset': frozenset({Keep()}), 'set': {Keep()}, 'deep only': o, 'both': Both(), 'dict subclass': d, 'slotted': s,
            'class': Keep, 'function': state_kinds, 'text': 'text', 'number': 10 ** 30, 'ellipsis': ..., 'bytearray': bytearray(b'ab'), 'namespace': types.SimpleNamespace(k=Keep()), 'ordered': collections.OrderedDict(z=Keep(), a=Keep()), 'deque': collections.deque([Keep()], 3), 'default dict': collections.defaultdict(list, a=[Keep()]), 'exception': ValueError(Keep())}


def parts(s):
    """What a shallow copy shares with its original."""
    if isinstance(s, DictSub): return [*s.items(), *vars(s).items()]
    if isinstance(s, dict): return list(s.items())
    if isinstance(s, (list, tuple, collections.deque)): return list(s)
    if isinstance(s, (set, frozenset)): return sorted(s, key=id)
    if isinstance(s, Both): return [s.k]
    if isinstance(s, Slotted): return [s.k, hasattr(s, 'u')]
    if isinstance(s, bytearray): return [bytes(s)]
    if isinstance(s, BaseException): return list(s.args)
    return [s] if isinstance(s, (type, types.FunctionType, str, int, type(...))) else list(vars(s).items())


def state_copies(ch):
    """The state of a copy is a shallow copy of the state: of the same type, with the very same parts."""
    kind = ch.pick(list(state_kinds()), 'state')
    frozen = ch.flag('frozen')
    how = ch.pick(['given', 'assigned', 'in the hook'], 'how')
    st = state_kinds()[kind]
    attrs = dict(a=fields.Any(required=False), Config=cfg(frozen=frozen))
    if how == 'in the hook':
        def post(self): self.context.state = st
        attrs['__schema_post_init__'] = post
    cls = mk('A', attrs)
    x = cls({'a': 1}, state=st) if how == 'given' else cls({'a': 1})
    if how == 'assigned': x.context.state = st
    want = parts(st)
    y = x
    for i in range(3):
        prev, y = y, y.copy()
        ch.op('copy', kind, how, i)
        s = y.context.state
        ch.check(x.context.state is st and type(s) is type(st), 'the state', kind, how, s)
        got = parts(s)
        ch.check(len(got) == len(want) and all(g is w or isinstance(w, tuple) and len(w) == 2 and isinstance(g, tuple) and g[0] == w[0] and g[1] is w[1] or isinstance(w, (bytes, bool)) and g == w for g, w in zip(got, want)), 'the parts of the state are not the very same', kind, how, got, want)
        if kind in ('nested list', 'nested dict', 'set', 'dict subclass', 'deep only', 'both', 'slotted', 'bytearray', 'namespace', 'ordered', 'deque', 'default dict'):
            ch.check(s is not prev.context.state, 'the state is shared', kind, how)
        if kind == 'both': ch.check(s.how == 'copied', 'the copying of the state', how)
    ch.state(kind, frozen, how)


def many(ch):
    """Wide instances and chains of copies."""
    n = ch.pick([1, 12, 60], 'fields')
    length = ch.pick([1, 2, 5], 'chain')
    at = ch.choose(length + 1, 'changed')
    fail = ch.flag('then fail')
    cls = mk('W', {f'f{i}': fields.Any(required=False) for i in range(n)}, Config=cfg(ignore_extra=False))
    vals = {f'f{i}': object() for i in range(n) if i != 3}
    chain = [cls(vals)]
    for i in range(length):
        chain.append(chain[-1].copy())
    new = {f'f{i}': object() for i in range(0, n, 2)}
    o = attempt(chain[at].update, dict(new, zz=1) if fail else new)
    ch.op('update', at, fail, o)
    for j, x in enumerate(chain):
        for i in range(n):
            k = f'f{i}'
            e = new.get(k, vals.get(k, UNSET)) if j == at and not fail else vals.get(k, UNSET)
            ch.check(x.get_value_for(k, UNSET) is e, 'wrong value in a chain of copies', j, at, k)
    ch.state(n, length, at, fail)


PLACES = ['preprocess', 'load', 'raw validator', 'validator', 'late validator', 'default', 'formatter', 'hook', 'dump']


def in_callbacks(ch):
    """A copy taken inside any callback of any operation is a copy of the instance as it is then, and independent from there on."""
    place = ch.pick(PLACES, 'place')
    op = ch.pick(['construct', 'failed construct', 'update', 'failed update', 'assign', 'failed assign', 'dump'], 'operation')
    kind = ch.pick(['dict', 'list', 'object', 'empty dict', 'set', 'falsy'], 'state')
    act = ch.pick(['look', 'change the copy', 'change the original state', 'copy the copy'], 'then')
    st = mkstate(kind)
    taken, on = [], [False]

    def values(i): return {n: i.get_value_for(n, UNSET) for n in ('a', 'b', 'e', 'x')}

    def touch(state):
        if kind in ('dict', 'empty dict'): state['touched'] = 1
        elif kind == 'list': state.append('touched')
        elif kind == 'set': state.add('touched')
        else: state.x = 'touched'

    def take(self, where):
        if not on[0] or where != place: return
        now, img = values(self), image(self.context.state)
        y = self.copy()
        ch.check(type(y) is type(self) and y is not self, 'the copy', place, op)
        ch.check(all(a is b for a, b in zip(values(y).values(), now.values())), 'the values of the copy', place, op, values(y), now)
        ch.check(y.context is not self.context and y.context.schema is y and self.context.schema is self and y.context.config is type(y).__config__, 'the context of the copy', place, op)
        ch.check(y.context.state is not self.context.state and type(y.context.state) is type(self.context.state) and image(y.context.state) == img, 'the state of the copy', place, op, y.context.state)
        if act == 'copy the copy':
            z = y.copy()
            ch.check(z.context.state is not y.context.state and z.context.state is not self.context.state and all(a is b for a, b in zip(values(z).values(), now.values())), 'the copy of the copy', place, op)
            taken.append((z, dict(now), image(z.context.state)))
        if act == 'change the copy':
            touch(y.context.state)
            on[0] = False
            o = attempt(setattr, y, 'b', 77)
            o2 = attempt(y.update, {'x': 'w', 'a': 'bad'})
            on[0] = True
            ch.check(o.ok and isinstance(o2.exc, ValidationError), 'using the copy', place, op, o, o2)
            ch.check(image(self.context.state) == img, 'the state of the original changed with that of the copy', place, op)
            ch.check(all(a is b for a, b in zip(values(self).values(), now.values())), 'the original changed with the copy', place, op)
            now = dict(now, b=77)
        img = image(y.context.state)
        if act == 'change the original state':
            touch(self.context.state)
            ch.check(image(y.context.state) == img, 'the state of the copy changed with that of the original', place, op)
        taken.append((y, now, img))

    class F(fields.Integer):
        def value_load(self, v, ctx):
            r = super().value_load(v, ctx)
            take(ctx.schema, 'load')
            return r
        def value_dump(self, v, ctx):
            take(ctx.schema, 'dump')
            return v
        def format_error(self, code, ctx):
            take(ctx.schema, 'formatter')
            return None

    def default(ctx, field):
        take(ctx.schema, 'default')
        return 9
    a, b = F(), fields.Integer(required=False)

    def raw(self, v, ctx): take(self, 'raw validator')
    def val(self, v, ctx): take(self, 'validator')
    def late(self, v, ctx): take(self, 'late validator')
    def pre(self, data):
        take(self, 'preprocess')
        return data
    def post(self): take(self, 'hook')
    cls = mk('S', dict(b=b, a=a, e=F(default=default), x=fields.Any(required=False), r=oblate.validate.field(a, raw=True)(raw), v=oblate.validate.field(a)(val), l=oblate.validate.field(b)(late), preprocess_data=pre, __schema_post_init__=post))
    bad = op.startswith('failed')
    if op.endswith('construct'):
        on[0] = True
        out = attempt(cls, {'b': 3, 'x': 'k', 'a': 'bad' if bad else 1}, state=st)
        inst = out.value if out.ok else None
    else:
        inst = cls({'a': 1, 'x': 'k'}, state=st)
        on[0] = True
        out = attempt(inst.update, {'b': 4, 'a': 'bad' if bad else 2}) if op.endswith('update') else attempt(setattr, inst, 'a', 'bad' if bad else 2) if op.endswith('assign') else attempt(inst.dump)
    on[0] = False
    ch.op(place, op, kind, act)
    ch.check(isinstance(out.exc, ValidationError) if bad else out.ok, 'the operation', place, op, out)
    for y, now, img in taken:
        ch.check(all(p is q for p, q in zip(values(y).values(), now.values())), 'the copy changed with the original', place, op, values(y), now)
        ch.check(image(y.context.state) == img, 'the state of the copy changed', place, op)
    if inst is not None:
        want = {'construct': (1, 3, 9, 'k'), 'update': (2, 4, 9, 'k'), 'assign': (2, UNSET, 9, 'k')}.get(op, (1, UNSET, 9, 'k'))
        ch.check(tuple(values(inst).values()) == want, 'the original after the operation', place, op, values(inst), want)
        ch.check(inst.context.state is st, 'the state of the original', place, op)
    if taken and inst is not None:
        y = taken[0][0]
        before = values(inst)
        ch.check(attempt(y.update, {'a': 50, 'b': 51, 'x': 52}).ok and values(inst) == before, 'updating the copy afterwards', place, op)
    ch.state(place, op, kind, act, len(taken))


@also_nested('copy', 'construction')
@also('copy')
def scenarios(tier):
    th = tier == 'thorough'
    states = ['dict', 'list', 'None', 'object', 'custom', 'empty dict', 'falsy', 'zero', 'set', 'empty list', 'empty set']
    return [
        dict(name='all', fn=history(2, 3, False, STYLES, states if th else states[:7])),
        dict(name='core', fn=history(5 if th else 3, 4 if th else 3, True, STYLES[:4] + STYLES[5:6], ['list', 'None'])),
        dict(name='states', fn=history(1, 3, False, STYLES[:2], states)),
        dict(name='attributes', fn=attributes),
        dict(name='in callbacks', fn=in_callbacks),
        dict(name='copies of states', fn=state_copies),
        dict(name='nested', fn=nested),
        dict(name='many', fn=many),
    ]
