"""C27 Schema configuration is inherited, overridable and honoured."""
import itertools, re
from mc.interplay import also
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['a schema with several configured bases, and a slotted schema with an unslotted parent, are not specified', 'values have a working repr()'])

DEFAULT = dict(add_repr=True, slotted=True, ignore_extra=False, frozen=False)
FLIP = {k: not v for k, v in DEFAULT.items()}


def conf_choices(full):
    """name -> (kind, options).  kind: none / own (of SchemaConfig) / sub (of the effective configuration of the parent)"""
    out = [('none', None, {}), ('defaults', 'own', {})]
    out += [(f'{k}', 'own', {k: v}) for k, v in FLIP.items()]
    out += [(f'{k} default', 'own', {k: v}) for k, v in DEFAULT.items()] if full else []
    out += [('all', 'own', FLIP)]
    out += [(f'sub {k}', 'sub', {k: v}) for k, v in FLIP.items()] if full else [('sub frozen', 'sub', {'frozen': True})]
    out += [(f'sub {k} default', 'sub', {k: v}) for k, v in DEFAULT.items()] if full else [('sub repr', 'sub', {'add_repr': True})]
    out += [('sub empty', 'sub', {}), ('the base class', 'base', {})]
    out += [('the same class', 'same', {}), ('chain', 'chain', {'frozen': True, 'add_repr': False})] if full else []
    return out


class Model:
    """What is expected of one class of the chain."""
    def __init__(self, conf, dicted, clear, slots, repr_, names):
        self.conf, self.dicted, self.clear, self.slots, self.repr, self.names = conf, dicted, clear, slots, repr_, names


def own_repr(tag):
    return lambda self: f'<own {tag}>'


def build(ch, depth, confs, slots_choice, repr_choice, place, parent=None, pm=None, level=0, tag='L', pick=None):
    """Creates a chain of classes; returns [(class, Model)]"""
    out = []
    cur, cm_ = parent or Schema, pm or Model(DEFAULT, False, True, (), None, [])
    conf_cls = SchemaConfig if parent is None else parent.__config__
    for d in range(depth):
        name, kind, opts = confs[d] if pick is None else pick(d)
        attrs = {}
        fname = f'{tag.lower()}f{d}'
        conf = cm_.conf
        body = []
        if kind == 'own': c = type('Config', (SchemaConfig,), dict(opts)); conf = dict(DEFAULT, **opts)
        elif kind == 'sub': c = type('Config', (conf_cls,), dict(opts)); conf = dict(cm_.conf, **opts)
        elif kind == 'base': c = SchemaConfig; conf = dict(DEFAULT)
        elif kind == 'same': c = conf_cls; conf = dict(cm_.conf)
        elif kind == 'chain':
            mid = type('Mid', (SchemaConfig,), {'ignore_extra': True})
            c = type('Config', (type('More', (mid,), dict(opts)), type('Mixed', (), {'note': 1})), {}); conf = dict(DEFAULT, ignore_extra=True, **opts)
        if kind == 'own' and place == 'other name': c.__name__ = c.__qualname__ = 'Options'       # the name of the class is free too
        if kind: conf_cls = c
        if place == 'first' and kind: attrs['Config'] = c
        if place == 'other name' and kind: attrs['Settings'] = c
        attrs[fname] = fields.Any(required=False, none=True)
        attrs['tp' + str(d)] = int            # classes that are no configuration
        attrs['Nested' + str(d)] = type('Nested', (), dict(DEFAULT, slotted=False, ignore_extra=True))
        if place == 'last' and kind: attrs['Config'] = c
        slots = slots_choice(d)
        if slots is not None: attrs['__slots__'] = slots
        rp = repr_choice(d)
        if rp: attrs['__repr__'] = own_repr(f'{tag}{d}')
        cls = mk(f'{tag}{d}', attrs, (cur,))
        unslotted = slots is None and not conf['slotted']
        m = Model(conf, cm_.dicted or unslotted, unslotted or not cm_.dicted, cm_.slots + tuple(slots or ()), f'<own {tag}{d}>' if rp else cm_.repr, cm_.names + [fname])
        out.append((cls, m))
        cur, cm_ = cls, m
    return out


VALS = [1, 'a', None, [1, 'x'], '', 0]


def behaves(ch, cls, m, what, deep=True):
    conf = m.conf
    data = {n: VALS[i % len(VALS)] for i, n in enumerate(m.names)}
    # unknown keys
    for arg in ('absent', True, False):
        kw = {} if arg == 'absent' else dict(ignore_extra=arg)
        ignore = conf['ignore_extra'] if arg == 'absent' else arg
        o = attempt(cls, {'zz': 1, **data, 5: 2}, **kw)
        ch.nops += 1
        unknown(ch, o, ignore, [5, 'zz'], what + ('construct', arg))
        x = o.value if ignore else cls(data)
        ch.check({n: x.get_value_for(n, UNSET) for n in m.names} == data, 'values after ignoring', *what)
        if ignore:
            ch.check(isinstance(attempt(x.get_value_for, 'zz').exc, RuntimeError) and set(x.dump()) == set(m.names), 'an unknown key is kept', *what)
        before = dict(data)
        o = attempt(x.update, {m.names[0]: 'new', 'zz': 3, None: 0}, **kw)
        ch.nops += 1
        if conf['frozen']:
            ch.check(isinstance(o.exc, FrozenError) and o.exc.entity is x, 'a frozen schema is updated', *what, o)
        else:
            unknown(ch, o, ignore, ['zz', None], what + ('update', arg))
            if ignore: before[m.names[0]] = 'new'
        ch.check({n: x.get_value_for(n, UNSET) for n in m.names} == before, 'values after an update', *what, arg)
        # the argument holds for that call only
        if not conf['frozen']:
            unknown(ch, attempt(x.update, {'zz': 3}), conf['ignore_extra'], ['zz'], what + ('update after', arg))
        unknown(ch, attempt(cls, {'zz': 3}), conf['ignore_extra'], ['zz'], what + ('construct after', arg))
    x = cls(data)
    o = attempt(setattr, x, m.names[-1], 'assigned')
    ch.check(isinstance(o.exc, FrozenError) if conf['frozen'] else o.ok, 'assignment', *what, o)
    if not conf['frozen']: data[m.names[-1]] = 'assigned'
    # extra attributes
    o = attempt(setattr, x, 'extra', 1)
    ch.nops += 2
    if m.dicted and (m.clear or o.ok):
        ch.check(o.ok and x.extra == 1, 'an unslotted schema refuses attributes', *what, o)
    elif not m.dicted:
        ch.check(isinstance(o.exc, AttributeError) and not hasattr(x, 'extra'), 'a slotted schema accepts attributes', *what, o)
    for s in m.slots:
        o = attempt(setattr, x, s, [s])
        ch.check(o.ok and getattr(x, s) == [s], 'a declared slot is refused', *what, s, o)
    # representation
    r = repr(x)
    if m.repr: ch.check(r == m.repr, 'the own representation is not used', *what, r)
    elif not conf['add_repr']: ch.check(r == object.__repr__(x), 'a representation is generated though disabled', *what, r)
    else:
        shown(ch, r, cls, data, m.names, what)
        if deep:
            y = cls({m.names[0]: 'q"uo\'te'})
            shown(ch, repr(y), cls, {m.names[0]: 'q"uo\'te'}, m.names, what)
            shown(ch, repr(cls({})), cls, {}, m.names, what)
    ch.check(str(x) == repr(x), 'str differs from repr', *what)


def shown(ch, r, cls, data, names, what):
    ch.check(r.startswith(cls.__name__), 'the class name is not shown', *what, r)
    for n in names:
        if n in data: ch.check(f'{n}={data[n]!r}' in r, 'a set field is not shown', *what, n, r)
        else: ch.check(n not in r, 'an unset field is shown', *what, n, r)


def unknown(ch, o, ignore, keys, what):
    if ignore:
        ch.check(o.ok, 'an unknown key is rejected though ignored', *what, o)
    else:
        ch.check(isinstance(o.exc, ValidationError) and sorted((e.key for e in o.exc.errors), key=repr) == sorted(keys, key=repr), 'unknown keys are not rejected, each once', *what, o)


def chains(depth, full):
    def scenario(ch):
        """Configurations at every level of a chain."""
        confs = conf_choices(full)
        confs = [ch.pick(confs, f'config{d}') for d in range(depth)]
        place = ch.pick(['first', 'last', 'other name'] if depth < 3 else ['first', 'last'], 'place')
        chain = build(ch, depth, confs, lambda d: None, lambda d: False, place)
        for cls, m in chain:
            ch.op('class', cls.__name__, m.conf)
            behaves(ch, cls, m, ([c[0] for c in confs], place, cls.__name__), depth == 1)
        ch.state(repr(confs), place)
    return scenario


def slots_and_repr(depth, names):
    def scenario(ch):
        """Declared slots and own representations at every level."""
        allc = {c[0]: c for c in conf_choices(True) + conf_choices(False)}
        confs = [allc[ch.pick(names, f'config{d}')] for d in range(depth)]
        sl = [ch.pick([None, (), (f's{d}', f't{d}')], f'slots{d}') for d in range(depth)]
        rp = [ch.flag(f'repr{d}') for d in range(depth)]
        chain = build(ch, depth, confs, lambda d: sl[d], lambda d: rp[d], 'first')
        for cls, m in chain:
            ch.op('class', cls.__name__, m.conf)
            behaves(ch, cls, m, ([c[0] for c in confs], sl, rp, cls.__name__), False)
        ch.state(repr(confs), repr(sl), repr(rp))
    return scenario


class PlainMixin:
    __slots__ = ()
    def hello(self): return 'hello'


class OtherMixin:
    __slots__ = ()


class ThirdMixin:
    __slots__ = ()


class DictMixin:
    pass


def several_bases(ch):
    """Classes with several bases: diamonds and mixins; options and slots are those of the configuration that applies."""
    shape = ch.pick(['diamond', 'mixin first', 'mixin last', 'dict mixin', 'wide diamond', 'mixin and diamond', 'mixins first'], 'shape')
    name, kind, opts = ch.pick(conf_choices(True), 'root')
    name2, kind2, opts2 = ch.pick(conf_choices(False), 'own')
    slots = ch.pick([None, (), ('s1', 't1')], 'slots')
    rp = ch.flag('repr')
    root = build(ch, 1, [(name, kind, opts)], lambda d: None, lambda d: False, 'first', tag='R')
    R, m = root[0]
    conf_cls = R.__config__ if kind else SchemaConfig
    if shape in ('mixin first', 'mixin last'): bases = (PlainMixin, R) if shape == 'mixin first' else (R, PlainMixin)
    elif shape == 'mixins first': bases = (PlainMixin, OtherMixin, ThirdMixin, R)
    elif shape == 'dict mixin': bases = (R, DictMixin)
    else:
        A = mk('A', dict(af0=fields.Any(required=False, none=True)), (R,))
        B = mk('B', dict(bf0=fields.Any(required=False, none=True)), (R,))
        C = mk('C', dict(cf0=fields.Any(required=False, none=True)), (R,))
        bases = (A, B) if shape == 'diamond' else (A, B, C) if shape == 'wide diamond' else (PlainMixin, A, B)
    names = m.names + ([] if 'dict' in shape or shape in ('mixin first', 'mixin last', 'mixins first') else ['af0', 'bf0'] + (['cf0'] if shape == 'wide diamond' else [])) + ['lf0']
    attrs = dict(lf0=fields.Any(required=False, none=True))
    conf = m.conf
    if kind2 == 'own': attrs['Config'] = type('Config', (SchemaConfig,), dict(opts2)); conf = dict(DEFAULT, **opts2)
    elif kind2 == 'sub': attrs['Config'] = type('Config', (conf_cls,), dict(opts2)); conf = dict(m.conf, **opts2)
    elif kind2: attrs['Config'] = SchemaConfig; conf = dict(DEFAULT)
    if slots is not None: attrs['__slots__'] = slots
    if rp: attrs['__repr__'] = own_repr('D')
    cls = mk('D', attrs, bases)
    sub = mk('E', dict(ef0=fields.Any(required=False, none=True)), (cls,))
    dicted = m.dicted or shape == 'dict mixin'
    un = slots is None and not conf['slotted']
    model = Model(conf, dicted or un, un or not dicted, tuple(slots or ()), '<own D>' if rp else None, names)
    model2 = Model(conf, model.dicted or not conf['slotted'], not conf['slotted'] or not model.dicted, model.slots, model.repr, names + ['ef0'])
    for c, mm in ((R, m), (cls, model), (sub, model2), (cls, model)):
        ch.op('class', c.__name__, shape, mm.conf)
        behaves(ch, c, mm, (shape, name, name2, slots, rp, c.__name__), False)
    if 'mixin' in shape and shape != 'dict mixin': ch.check(cls({}).hello() == 'hello', 'method of a mixin')
    ch.state(shape, name, name2, slots, rp)


def siblings(ch):
    """Two children of one parent, created and used in any order, do not influence each other or the parent."""
    allc = conf_choices(False)
    root = build(ch, 1, [ch.pick(allc, 'root')], lambda d: None, lambda d: False, 'first')
    a = build(ch, 1, [ch.pick(allc, 'left')], lambda d: None, lambda d: ch.flag('repr'), 'first', root[0][0], root[0][1], tag='A')
    b = build(ch, 1, [ch.pick(allc, 'right')], lambda d: None, lambda d: False, 'last', root[0][0], root[0][1], tag='B')
    order = ch.pick([0, 1], 'order')
    for cls, m in (root + a + b if order else b + a + root):
        ch.op('class', cls.__name__, m.conf)
        behaves(ch, cls, m, (cls.__name__, m.conf), False)
    ch.state(repr([m.conf for c, m in root + a + b]), order)


def shared(ch):
    """One configuration class for several schemas, and changes of its options."""
    opts = {k: ch.flag(k) for k in DEFAULT}
    c = cfg(**opts)
    A = mk('A', Config=c, af0=fields.Any(required=False, none=True))
    B = mk('B', Config=c, bf0=fields.Any(required=False, none=True))
    C = mk('C', {'cf0': fields.Any(required=False)}, (A,))
    d = not opts['slotted']
    for cls, names in ((A, ['af0']), (B, ['bf0']), (C, ['af0', 'cf0']), (A, ['af0'])):
        behaves(ch, cls, Model(opts, d, True, (), None, names), (cls.__name__, opts))
    ch.op('shared', opts)
    ch.state(repr(opts))


def nested(ch):
    """The explicit argument and the configuration of one schema do not reach its nested schemas."""
    outer, inner = ch.flag('outer'), ch.flag('inner')
    arg = ch.pick(['absent', True, False], 'argument')
    init = ch.pick(['absent', True, False], 'init_kwargs')
    op = ch.pick(['construct', 'update', 'assign'], 'operation')
    extra = ch.pick(['outer', 'inner', 'both', 'none'], 'extra')
    In = mk('In', a=fields.Any(required=False), Config=cfg(ignore_extra=inner))
    Out = mk('Out', i=fields.Object(In, **({} if init == 'absent' else dict(init_kwargs=dict(ignore_extra=init)))), Config=cfg(ignore_extra=outer))
    data = {'i': {'a': 1}}
    if extra in ('outer', 'both') and op != 'assign': data['z'] = 0
    if extra in ('inner', 'both'): data['i']['y'] = 0
    kw = {} if arg == 'absent' else dict(ignore_extra=arg)
    if op == 'construct': o = attempt(Out, data, **kw)
    else:
        x = Out({'i': {}})
        if op == 'assign':
            kw = {}
            if arg != 'absent': raise Skip
        o = attempt(x.update, data, **kw) if op == 'update' else attempt(setattr, x, 'i', data['i'])
    ch.op(op, data, kw)
    eo = outer if arg == 'absent' else arg
    ei = inner if init == 'absent' else init
    want = {}
    if 'z' in data and not eo: want['z'] = 1
    if 'y' in data['i'] and not ei: want['i'] = ['y']
    if not want:
        ch.check(o.ok, 'rejected', outer, inner, arg, init, op, extra, o)
        if op == 'construct': ch.check(o.value.i.a == 1, 'value', o)
    else:
        ch.check(isinstance(o.exc, ValidationError), 'accepted', outer, inner, arg, init, op, extra, o)
        raw = o.exc.raw()
        ch.check(set(raw) == set(want) and ('i' not in want or set(raw['i'][0]) == {'y'}), 'rejected keys', raw, want)
    ch.state(outer, inner, arg, init, op, extra)


def with_errors(ch):
    """Ignoring unknown keys hides no other failure."""
    conf, arg = ch.flag('config'), ch.pick(['absent', True, False], 'argument')
    op = ch.pick(['construct', 'update'], 'operation')
    keys = [k for k in ('bad', 'none', 'unknown', 'attr', 'good') if ch.flag(k)]
    S = mk('S', i=fields.Integer(required=False), n=fields.Any(required=False), l=fields.Any(required=False, load_key='L'), g=fields.Any(required=False), Config=cfg(ignore_extra=conf))
    data = {}
    if 'bad' in keys: data['i'] = 'x'
    if 'unknown' in keys: data['u'] = None
    if 'none' in keys: data['n'] = None
    if 'attr' in keys: data['l'] = 1             # the attribute name is not the load key
    if 'good' in keys: data['g'] = 1
    kw = {} if arg == 'absent' else dict(ignore_extra=arg)
    ig = conf if arg == 'absent' else arg
    x = S({'g': 0})
    o = attempt(S, data, **kw) if op == 'construct' else attempt(x.update, data, **kw)
    ch.op(op, data, kw, o)
    want = [k for k in data if k in 'in' or (k in ('u', 'l') and not ig)]
    if not want:
        ch.check(o.ok, 'rejected', data, kw, conf, o)
        y = o.value if op == 'construct' else x
        ch.check(y.get_value_for('g', UNSET) == (1 if 'good' in keys else UNSET if op == 'construct' else 0) and y.get_value_for('l', UNSET) is UNSET, 'values', data)
    else:
        ch.check(isinstance(o.exc, ValidationError) and sorted(e.key for e in o.exc.errors) == sorted(want), 'errors', data, kw, conf, o, want)
    ch.state(conf, arg, op, tuple(keys))


FNAMES = ['_a', 'a', 'A', '_', 'a1', 'Config_', 'self_', 'data', 'é', 'aa', 'x' * 40, 'value', 'state_', 'name', 'a_b', '__x']


def shown_values(ch):
    """The representation shows every set field, whatever its name, key and value, and no other."""
    n1 = ch.pick(FNAMES, 'name')
    n2 = ch.pick([n for n in FNAMES if n != n1], 'second name')
    key = ch.pick([None, 'KEYED', n2], 'key')
    if key == n2: k1, k2 = n2, n1
    else: k1, k2 = key or n1, n2
    cls = mk('Shown', {n1: fields.Any(none=True, required=False, **(dict(load_key=k1) if key else {})), n2: fields.Any(none=True, default='DEFLT', **(dict(load_key=k2, dump_key='dumped') if key == n2 else {}))})
    for v in (0, '', None, False, [], {}, 'DEFLT', 1.5, (), 'a, b=c', ['x' * 300], oblate.utils.MISSING, b'', float('nan'), int, {'k': [1]}):
        for how in ('construct', 'update', 'assign', 'second'):
            if how == 'construct': x = cls({k1: v})
            else:
                x = cls({})
                if how == 'update': x.update({k1: v})
                elif how == 'assign': setattr(x, n1, v)
                else: setattr(x, n2, v)
            r = repr(x)
            ch.nops += 1
            a, b = (v, 'DEFLT') if how != 'second' else (UNSET, v)
            parts = ([f'{n1}={a!r}'] if a is not UNSET else []) + [f'{n2}={b!r}']
            ch.check(r in ('Shown(%s)' % ', '.join(p) for p in (parts, parts[::-1])) or r.startswith('Shown') and all(re.search(r'(?<![\w])' + re.escape(p), r) for p in parts) and (a is not UNSET or not re.search(r'(?<!\w)%s=' % re.escape(n1), r)), 'the representation', r, parts, how)
            ch.check(repr(x.copy()) == r or v is oblate.utils.MISSING, 'the representation of a copy', r)
    ch.state(n1, n2, key)


class Mixin:
    __slots__ = ()
    def __repr__(self):
        return 'mixin'


class StrMixin:
    __slots__ = ()
    def __str__(self):
        return 'text'


def representations(ch):
    """Where a representation comes from; what it shows after changes."""
    how = ch.pick(['plain', 'mixin first', 'mixin last', 'assigned', 'str mixin', 'parent own', 'grandparent own', 'parent own, child own', 'parent disabled', 'parent disabled, child enabled', 'nested', 'none', 'no fields', 'partial', 'custom value'], 'how')
    disabled = ch.flag('disabled')
    opts = dict(Config=cfg(add_repr=not disabled))
    a = dict(f=fields.Any(required=False), g=fields.Any(required=False))
    own = lambda self: 'OWN'
    want = None
    val = 5
    if how == 'mixin first': cls = mk('S', {**a, **opts}, (Mixin, Schema)); want = 'mixin'
    elif how == 'mixin last':
        cls = mk('S', {**a, **opts}, (Schema, Mixin)); want = 'mixin'
    elif how == 'assigned': cls = mk('S', {**a, **opts}); cls.__repr__ = own; want = 'OWN'
    elif how == 'str mixin': cls = mk('S', {**a, **opts}, (StrMixin, Schema))
    elif how == 'parent own': cls = mk('S', opts, (mk('P', a, __repr__=own),)); want = 'OWN'
    elif how == 'grandparent own': cls = mk('S', opts, (mk('M', h=fields.Any(required=False), _bases=(mk('P', a, __repr__=own),)),)); want = 'OWN'
    elif how == 'parent own, child own': cls = mk('S', dict(opts, __repr__=lambda s: 'CHILD'), (mk('P', a, __repr__=own),)); want = 'CHILD'
    elif how == 'parent disabled':
        if disabled: raise Skip
        cls = mk('S', {}, (mk('P', a, Config=cfg(add_repr=False)),)); disabled = True
    elif how == 'parent disabled, child enabled': cls = mk('S', opts, (mk('P', a, Config=cfg(add_repr=False)),))
    elif how == 'nested':
        I = mk('In', i=fields.Any())
        a['f'] = fields.Object(I); cls = mk('S', {**a, **opts}); val = {'i': 'x'}
    elif how == 'none': a['f'] = fields.Any(none=True); cls = mk('S', {**a, **opts}); val = None
    elif how == 'no fields': cls = mk('S', opts)
    elif how == 'custom value':
        class V:
            def __repr__(self): return '<V r>'
            def __str__(self): return 'V s'
        cls = mk('S', {**a, **opts}); val = V()
    else: cls = mk('S', {**a, **opts})
    ch.op(how, disabled)
    if how == 'no fields':
        x = cls({})
        ch.check(repr(x).startswith('S') if not disabled else repr(x) == object.__repr__(x), 'representation', repr(x))
        return
    x = cls({'f': val})
    cur = {'f': x.f}
    names = ['f', 'g']
    for step in range(5):
        r = repr(x)
        if want: ch.check(r == want, 'own representation', how, r)
        elif disabled: ch.check(r == object.__repr__(x), 'disabled representation', how, r)
        else:
            ch.check(r.startswith('S') and all((f'{n}={cur[n]!r}' in r) if n in cur else (f'{n}=' not in r) for n in names), 'representation', how, step, r)
        if how == 'str mixin': ch.check(str(x) == 'text', 'str', str(x))
        if step == 0: x.update({'g': 'it\'s'}); cur['g'] = 'it\'s'
        elif step == 1: x.g = [None]; cur['g'] = [None]
        elif step == 2: x = x.copy()
        elif step == 3: attempt(x.update, {'g': 1, 'unknown': 1})
    ch.state(how, disabled)


@also('unknown repr')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='one class', fn=chains(1, True)),
        dict(name='two classes', fn=chains(2, True)),
        dict(name='three classes', fn=chains(3, th)),
        dict(name='slots and representations', fn=slots_and_repr(2, [c[0] for c in conf_choices(False)] if th else ['none', 'defaults', 'slotted', 'add_repr', 'all', 'sub repr'])),
        dict(name='slots and representations, three', fn=slots_and_repr(3, ['none', 'slotted', 'add_repr'] if th else ['none', 'all'])),
        dict(name='siblings', fn=siblings),
        dict(name='several bases', fn=several_bases),
        dict(name='shared', fn=shared),
        dict(name='nested', fn=nested),
        dict(name='with errors', fn=with_errors),
        dict(name='representations', fn=representations),
        dict(name='shown values', fn=shown_values),
    ]
