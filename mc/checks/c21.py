"""C21 Subclasses inherit and override fields like attributes; parents stay untouched."""
import functools, itertools
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['two fields of one class do not share a load or dump key', 'fields are overridden by fields',
                         'a validator that one parent of a diamond declares for a field that attribute lookup finds in another parent is not specified'])

LOG = []


class F(fields.Field):
    def __init__(self, tag, **kw):
        self.tag = tag
        super().__init__(**kw)
    def value_load(self, value, context):
        if value == 'bad':
            raise ValueError('load ' + self.tag)
        return (self.tag, value)
    def value_dump(self, value, context):
        return [self.tag, value[1]]


class Spec:
    """The declared behaviour of one field."""
    def __init__(self, tag, name, load_key=None, dump_key=None, required=True, default=UNSET, none=False, frozen=False, vals=(), raws=()):
        self.tag, self.name, self.load_key, self.dump_key = tag, name, load_key or name, dump_key or name
        self.required, self.default, self.none, self.frozen, self.vals, self.raws = required, default, none, frozen, list(vals), list(raws)
    def plus(self, raw, v):
        return Spec(self.tag, self.name, self.load_key, self.dump_key, self.required, self.default, self.none, self.frozen,
                    self.vals + ([] if raw else [v]), self.raws + ([v] if raw else []))


def V(tag):
    def v(schema, value, ctx):
        LOG.append(tag)
        if value == 'rawrej' or (isinstance(value, tuple) and value[1] == 'rej'):
            raise FieldError('val ' + tag)
    return v


# kinds of declaration of a name in a class
DECL = ['none', 'plain', 'rich', 'optional', 'byname', 'byname raw', 'plain+byname', 'frozen', 'two byname']


def field_for(kind, ci, name):
    tag = f'{name}{ci}'
    if kind in ('plain', 'plain+byname'):
        return F(tag), Spec(tag, name)
    if kind == 'rich':
        f = F(tag, load_key='K', dump_key='D', default=('default', tag), none=True, validators=[V(tag + '.v')])
        f.add_validator(V(tag + '.r'), raw=True)
        return f, Spec(tag, name, 'K', 'D', False, ('default', tag), True, False, [tag + '.v'], [tag + '.r'])
    if kind == 'optional':
        return F(tag, required=False, data_key=name + '_'), Spec(tag, name, name + '_', name + '_', False)
    if kind == 'frozen':
        return F(tag, frozen=True, required=False), Spec(tag, name, None, None, False, frozen=True)


class World:
    def __init__(self):
        self.classes, self.specs, self.names, self.own = [], [], ('f', 'g', 'h'), []
        self.mros, self.kinds, self.base_idx = [], [], []

    def lookup(self, mro_idx, name):
        for k in mro_idx:
            if name in self.own[k]:
                return self.own[k][name]
        return None

    def declare(self, ch, bases, decls, slotted=True):
        ci = len(self.classes)
        bcls = tuple(self.classes[b] for b in bases) or (Schema,)
        try:
            order = self.linear(bases)
        except ValueError:
            raise Skip
        attrs, own = {}, {}
        for name, kind in decls.items():
            tag = f'{name}{ci}'
            if kind == 'none':
                continue
            if kind not in ('byname', 'byname raw', 'two byname'):
                attrs[name], own[name] = field_for(kind, ci, name)
                if kind == 'plain+byname':
                    attrs['val_' + name] = validate.field(name)(V(tag + '.n'))
                    own[name] = own[name].plus(False, tag + '.n')
            else:
                base = self.lookup(order, name)
                if base is None:
                    raise Skip
                raw = kind == 'byname raw'
                attrs['val_' + name] = validate.field(name, raw=raw)(V(tag + '.n'))
                own[name] = base.plus(raw, tag + '.n')
                if kind == 'two byname':
                    attrs['val2_' + name] = validate.field(name, raw=True)(V(tag + '.m'))
                    own[name] = own[name].plus(True, tag + '.m')
        if not slotted:
            attrs['Config'] = cfg(slotted=False)
        self.own.append(own)
        mro = [ci] + order
        spec = {n: s for n in self.names if (s := self.lookup(mro, n)) is not None}
        lk, dk = [s.load_key for s in spec.values()], [s.dump_key for s in spec.values()]
        if len(set(lk)) < len(lk) or len(set(dk)) < len(dk):
            raise Skip
        cls = mk(f'S{ci}', attrs, bcls)
        self.classes.append(cls)
        self.specs.append(spec)
        self.mros.append(mro)
        self.kinds.append(dict(decls))
        ch.op('class', f'S{ci}', bases, decls)
        return cls

    def linear(self, bases):
        """C3 linearization of the bases, by class index (the classes' own order)."""
        if not bases:
            return []
        proxies = []
        for i, k in enumerate(self.classes):
            bs = tuple(proxies[b] for b in self.base_idx[i]) or (object,)
            proxies.append(type(f'P{i}', bs, {}))
        try:
            q = type('Q', tuple(proxies[b] for b in bases), {})
        except TypeError:
            raise ValueError
        return [proxies.index(k) for k in q.__mro__[1:] if k in proxies]


def verify(ch, w, i, deep=True):
    cls, spec = w.classes[i], w.specs[i]
    what = (f'S{i}', [c.__name__ for c in cls.__mro__[:-2]], {n: s.tag for n, s in spec.items()})
    byload = {s.load_key: s for s in spec.values()}
    allkeys = {'f', 'g', 'h', 'K', 'f_', 'g_', 'h_', 'D'}
    # attribute lookup finds the fields, and they are distinct from nothing else
    ch.same(sorted(all_field_names(cls)), sorted(spec), f'fields of {what}')
    for n, s in spec.items():
        fld = getattr(cls, n)
        ch.check(fld.tag == s.tag and fld.name == n and fld.load_key == s.load_key and fld.dump_key == s.dump_key and issubclass(cls, fld.schema), 'the field found is another one', what, n, fld.tag, s.tag)
    # nothing given
    del LOG[:]
    out = attempt(cls, {})
    need = sorted(k for k, s in byload.items() if s.required)
    ch.check(out.ok if not need else isinstance(out.exc, ValidationError) and sorted(e.key for e in out.exc.errors) == need, 'required fields are wrong', what, need, out)
    ch.check(not LOG, 'validators ran for nothing', what, list(LOG))
    if not need:
        ch.same(snap(out.value, sorted(spec)), {n: s.default for n, s in sorted(spec.items())}, f'defaults of {what}')
    # everything given
    del LOG[:]
    data = {k: 1 for k in byload}
    out = attempt(cls, data)
    ch.check(out.ok, 'valid data is rejected', what, out)
    inst = out.value
    ch.same(snap(inst, sorted(spec)), {n: (s.tag, 1) for n, s in sorted(spec.items())}, f'values of {what}')
    for s in spec.values():
        for lst in (s.vals, s.raws):
            ch.same([x for x in LOG if x in lst], lst, f'validators of {s.name} run for {what}, all {LOG}')
    ch.same(len(LOG), sum(len(s.vals) + len(s.raws) for s in spec.values()), f'validators of other classes run for {what}: {LOG}')
    ch.same(inst.dump(), {s.dump_key: [s.tag, 1] for s in spec.values()}, f'dump of {what}')
    for n in spec:
        ch.same(inst.dump(include=[n]), {spec[n].dump_key: [spec[n].tag, 1]}, 'dump of one field')
    if not deep:
        return
    # keys that are not (or no longer) declared
    for k in sorted(allkeys - set(byload)):
        out = attempt(cls, dict(data, **{k: 1}))
        ch.check(isinstance(out.exc, ValidationError) and [e.key for e in out.exc.errors] == [k] and out.exc.errors[0].field is None, 'an undeclared key is not rejected', what, k, out)
    # failures are those of the field found by lookup
    for k, s in byload.items():
        for bad, msgs in (('bad', ['load ' + s.tag]), ('rej', ['val ' + v for v in s.vals]), ('rawrej', ['val ' + v for v in s.raws])):
            for how in ('construct', 'update', 'assign'):
                if how != 'construct' and s.frozen: continue
                out = attempt(cls, dict(data, **{k: bad})) if how == 'construct' else attempt(inst.update, {k: bad}) if how == 'update' else attempt(setattr, inst, s.name, bad)
                if not msgs:
                    ch.check(out.ok, 'a valid value is rejected', what, k, bad, how, out)
                else:
                    ch.check(isinstance(out.exc, ValidationError) and errs(out.exc) == sorted((k, m) for m in msgs), 'other failures than those of the field', what, k, bad, how, out)
                    ch.check(all(e.field is getattr(cls, s.name) for e in out.exc.errors), 'the error names another field', what, k)
        out = attempt(cls, dict(data, **{k: None}))
        if s.none: ch.check(out.ok and out.value.get_value_for(s.name) is None, 'None is rejected', what, k, out)
        else: ch.check(not out.ok, 'None is accepted', what, k)
        if s.frozen:
            o = attempt(setattr, inst, s.name, 5)
            ch.check(isinstance(o.exc, FrozenError) and o.exc.entity is getattr(cls, s.name), 'a frozen field was assigned', what, k, o)
        else:
            ch.check(attempt(setattr, inst, s.name, 7).ok and getattr(inst, s.name) == (s.tag, 7) and inst.get_value_for(s.load_key) == (s.tag, 7), 'assignment', what, k)
        if s.load_key != s.name:
            ch.check(s.name in byload or isinstance(attempt(cls, dict(data, **{s.name: 1})).exc, ValidationError), 'the name of a field with another load key is accepted', what, k)


BASES3 = [[()], [(), (0,)], [(), (0,), (1,), (0, 1), (1, 0)]]


def build(ch, shape, decl_kinds, names, fixed=None, check_each=True, deep=True):
    w = World()
    for ci, bases in enumerate(shape):
        decls = {n: ch.pick(decl_kinds, f'S{ci}.{n}') for n in names}
        if fixed and ci in fixed:
            decls = dict(decls, **fixed[ci])
        try:
            w.declare(ch, bases, decls)
        except TypeError as e:
            raise Skip if 'MRO' in str(e) else e
        w.base_idx.append(bases)
        if check_each:
            verify(ch, w, ci, False)
    if conflicted(w):
        raise Skip
    for i in range(len(shape)):
        verify(ch, w, i, deep)
    ch.state(repr(shape), repr([{n: s.tag for n, s in sp.items()} for sp in w.specs]), repr([[s.vals + s.raws for s in sp.values()] for sp in w.specs]))
    return w


def conflicted(w):
    """Some class declares a validator for a field that another parent of a diamond has replaced or extended."""
    for i, spec in enumerate(w.specs):
        for n, s in spec.items():
            for k in w.mros[i]:
                kind = w.kinds[k].get(n, 'none')
                if 'byname' in kind and not any(v in s.vals + s.raws for v in (f'{n}{k}.n', f'{n}{k}.m')):
                    return True
                if kind not in ('none', 'byname', 'byname raw', 'two byname'):
                    break
    return False


def linear(n, kinds, names, fixed):
    def scenario(ch):
        build(ch, [()] + [(i,) for i in range(n - 1)], kinds, names, fixed)
    return scenario


def dag3(kinds, names, fixed):
    def scenario(ch):
        b1 = ch.pick(BASES3[1], 'bases of S1')
        b2 = ch.pick(BASES3[2], 'bases of S2')
        build(ch, [(), b1, b2], kinds, names, fixed)
    return scenario


SHAPES4 = [[(), (0,), (0,), (1, 2)], [(), (0,), (0,), (2, 1)], [(), (), (0, 1), (2,)], [(), (0,), (0,), (1,)], [(), (0,), (1,), (2,)], [(), (), (0,), (2, 1)], [(), (), (), (0, 1, 2)], [(), (0,), (0, ), (2, 0)], [(), (0,), (1,), (1,)]]


def dag4(kinds, names, shapes):
    def scenario(ch):
        build(ch, ch.pick(shapes, 'shape'), kinds, names, None, check_each=False)
    return scenario


def diamond5(ch):
    """Two stacked diamonds."""
    build(ch, [(), (0,), (0,), (1, 2), (3, 2)], ['none', 'plain', 'byname'], ('f',), {0: {'g': 'rich'}}, check_each=False)


def siblings(ch):
    """Siblings declared in turn with instances alive: what the parent and earlier siblings do does not change."""
    w = World()
    w.declare(ch, (), {'f': 'rich', 'g': 'plain', 'h': 'optional'}); w.base_idx.append(())
    insts = [w.classes[0]({'K': 1, 'g': 2})]
    before = [insts[0].dump()]
    for step in range(3):
        kinds = {'f': ch.pick(['none', 'byname', 'byname raw', 'plain', 'two byname'], f'S{step + 1}.f'), 'g': ch.pick(['none', 'byname', 'optional'], f'S{step + 1}.g')}
        b = step if step and ch.flag(f'base{step}') else 0
        w.declare(ch, (b,), kinds); w.base_idx.append((b,))
        for i in range(len(w.classes)):
            verify(ch, w, i, False)
        for x, d in zip(insts, before):
            ch.same(x.dump(), d, 'an existing instance dumps differently')
            for n, s in w.specs[w.classes.index(type(x))].items():
                del LOG[:]
                attempt(x.update, {s.load_key: x.get_value_for(n, (0, 3))[1] if isinstance(x.get_value_for(n, None), tuple) else 3})
                ch.same(sorted(LOG), sorted(s.vals + s.raws), 'an existing instance runs other validators')
        before = [x.dump() for x in insts]
        x = w.classes[-1]({s.load_key: 4 for s in w.specs[-1].values()})
        insts.append(x); before.append(x.dump())
    ch.state(repr([sorted(s.vals + s.raws) for sp in w.specs for s in sp.values()]))


def registry_of_parents(ch):
    """Changing the validators of a field declared in a subclass, overriding or by name, leaves the parent's alone and the reverse."""
    how = ch.pick(['byname', 'byname raw', 'plain', 'rich', 'two byname'], 'declaration')
    w = World()
    w.declare(ch, (), {'f': 'rich'}); w.base_idx.append(())
    w.declare(ch, (0,), {'f': how}); w.base_idx.append((0,))
    w.declare(ch, (1,), {'f': 'none'}); w.base_idx.append((1,))
    for step in range(3):
        who = ch.choose(2, f'class{step}')
        op = ch.pick(['add', 'add raw', 'clear', 'clear raw'], f'operation{step}')
        fld = getattr(w.classes[who], 'f')
        affected = [0] if who == 0 else [1, 2]
        for s in {id(w.specs[i]['f']): w.specs[i]['f'] for i in affected}.values():
            if op == 'add': s.vals = s.vals + [f'x{step}']
            elif op == 'add raw': s.raws = s.raws + [f'x{step}']
            elif op == 'clear': s.vals = []
            else: s.raws = []
        if op.startswith('add'): fld.add_validator(V(f'x{step}'), raw=op == 'add raw')
        else: fld.clear_validators(raw=op == 'clear raw')
        ch.op(op, who)
        for i in range(3):
            verify(ch, w, i, False)
    ch.state(how, repr([(w.specs[i]['f'].vals, w.specs[i]['f'].raws) for i in range(3)]))


NAMES = ['check', '_check', '__check', '_S0__check', '__check__', 'Check', 'é', 'validate', 'field', 'f_', '_f', 'x' * 300, 'fields', 'values', 'schema', 'validators']


def validator_names(ch):
    """A validator method counts whatever its name and whatever callable it is."""
    n = ch.pick(NAMES, 'name')
    where = ch.pick(['own', 'child', 'grandchild', 'own, inherited'], 'declared in')
    kind = ch.pick(['byname', 'byname raw'], 'kind')
    raw = kind == 'byname raw'
    target = ch.pick(['name', 'object'], 'target') if where == 'own' else 'name'
    form = ch.pick(['function', 'callable object', 'partial'], 'form')

    def body(schema, value, ctx):
        LOG.append('mine')
        if value == 'rawrej' or (isinstance(value, tuple) and value[1] == 'rej'):
            raise FieldError('mine')
    class Call:
        def __call__(self, schema, value, ctx): return body(schema, value, ctx)
    v = {'function': lambda: body, 'callable object': Call, 'partial': lambda: functools.partial(body)}[form]()
    f = F('q', required=False)
    if where.startswith('own'):
        P = mk('P', {'f': f, n: validate.field(f if target == 'object' else 'f', raw=raw)(v), 'g': fields.Any(required=False)})
        users, others = [P], []
        if where != 'own': users.append(mk('C', {}, (P,)))
    else:
        P = mk('P', {'f': f, 'g': fields.Any(required=False)})
        mid = P if where == 'child' else mk('M', {}, (P,))
        C = mk('C', {n: validate.field('f', raw=raw)(v)}, (mid,))
        users, others = [C, mk('D', {}, (C,))], [P, mid]
    for cls in users + others:
        on = cls in users
        for value, bad in ((1, False), ('rawrej' if raw else 'rej', True)):
            del LOG[:]
            out = attempt(cls, {'f': value})
            ch.op('construct', cls.__name__, value, out)
            ch.same(LOG, ['mine'] if on else [], f'validators run by a method named {n} ({where}, {form})')
            ch.check(out.ok == (not (bad and on)), 'wrong outcome', n, where, cls, value, out)
        del LOG[:]
        x = cls({'g': 'rej'})
        ch.check(not LOG, 'the validator ran for another field', n)
        o = attempt(setattr, x, 'f', 1)
        ch.check(o.ok and LOG == (['mine'] if on else []), 'assignment', n, where, LOG)
    ch.state(n, where, kind, form, target)


def foreign(ch):
    """Validators declared by one schema for the field object of another one, under any name; the field's own schema runs them."""
    n = ch.pick(['check', 'other', 'x'], 'name')
    own = ch.pick(['same name', 'other name', 'none'], 'own validator')
    raw = ch.flag('raw')
    rel = ch.pick(['unrelated', 'child', 'grandchild', 'sibling by object'], 'declaring schema')
    twice = ch.flag('twice')
    x = fields.Integer()
    attrs = {'x': x, 'y': fields.Integer(required=False)}

    def V2(tag):
        def v(schema, value, ctx):
            LOG.append(tag)
            if value == 13:
                raise ValueError(tag)
        return v
    exp = []
    if own != 'none':
        attrs['check' if own == 'same name' else 'mine'] = validate.field(x)(V2('own'))
        exp.append('own')
    A = mk('A', attrs)
    mid = mk('Mid', {}, (A,))
    bases = {'unrelated': (Schema,), 'child': (A,), 'grandchild': (mid,), 'sibling by object': (A,)}[rel]
    if n == 'x' and rel != 'unrelated':
        raise Skip
    B = mk('B', {n: validate.field(A.x, raw=raw)(V2('foreign'))}, bases)
    exp.append('foreign')
    if twice:
        mk('C', {n: validate.field(A.x, raw=raw)(V2('third'))}, bases)
        exp.append('third')
    users = [A, mid] + ([B] if rel != 'unrelated' else [])
    for cls in users:
        if cls.x is not A.x:
            continue
        for v in (1, 13):
            del LOG[:]
            out = attempt(cls, {'x': v})
            ch.op('construct', cls.__name__, v, out)
            ch.same(sorted(LOG), sorted(exp), 'validators of a field object run')
            ch.check(out.ok if v == 1 else isinstance(out.exc, ValidationError) and errs(out.exc) == sorted(('x', e) for e in exp), 'other failures than those of the validators', out)
        del LOG[:]
        attempt(setattr, cls({'x': 1, 'y': 2}), 'y', 13)
        ch.same(sorted(LOG), sorted(exp), 'validators ran for another field')
    ch.state(n, own, raw, rel, twice)


def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='chain of two', fn=linear(2, DECL, ('f', 'g'), {0: {'h': 'optional'}})),
        dict(name='three classes', fn=dag3(DECL, ('f',), {0: {'h': 'plain'}})),
        dict(name='three classes, two names', fn=dag3(['none', 'plain', 'rich', 'byname'] if not th else ['none', 'plain', 'rich', 'byname', 'byname raw'], ('f', 'g'), None)),
        dict(name='four classes', fn=dag4(['none', 'plain', 'rich', 'byname', 'byname raw'] if th else ['none', 'plain', 'rich', 'byname'], ('f',), SHAPES4)),
        dict(name='diamonds of two names', fn=dag4(['none', 'plain', 'optional'] if th else ['none', 'optional'], ('f', 'g'), SHAPES4)),
        dict(name='stacked diamonds', fn=diamond5),
        dict(name='siblings', fn=siblings),
        dict(name='registries', fn=registry_of_parents),
        dict(name='foreign', fn=foreign),
        dict(name='validator names', fn=validator_names),
    ]
