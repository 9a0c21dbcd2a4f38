"""C22 A field belongs to one schema attribute; copies are equivalent and independent."""
import itertools
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['defaults and extras given to a field are not modified by the user'])

LOG = []


def V(tag):
    def v(schema, value, ctx):
        LOG.append(tag)
        if value == 'rej':
            raise ValueError(tag)
    return v


class Custom2(fields.Field):
    """A custom field with its own attributes."""
    def __init__(self, factor, *, extra=None, **kw):
        self.factor, self.extra = factor, extra
        super().__init__(**kw)
    def value_load(self, value, context):
        if not isinstance(value, int):
            raise ValueError('need int')
        return value * self.factor
    def value_dump(self, value, context):
        return value // self.factor
    def format_error(self, code, ctx):
        return f'{code} of {self.extra}'


class SlotField(fields.Integer):
    __slots__ = ('base',)
    def __init__(self, base, **kw):
        self.base = base
        super().__init__(**kw)
    def value_load(self, value, context):
        return super().value_load(value, context) + self.base


In = mk('In', x=fields.Integer(), y=fields.String(required=False))


def all_kinds():
    F = fields
    return leaf_kinds() + [
        Kind('Custom2', lambda **k: Custom2(3, extra='e', **k), None, [0, 2], ['x', None]),
        Kind('SlotField', lambda **k: SlotField(100, **k), None, [0, 2], ['x']),
        Kind('Object', lambda **k: F.Object(In, **k), None, [{'x': 1}, In({'x': 2})], [{}, {'x': 1, 'z': 0}, 5]),
        Kind('Object kw', lambda **k: F.Object(In, init_kwargs=dict(ignore_extra=True, state='s'), **k), None, [{'x': 1, 'z': 0}], [{}, 5]),
        Kind('Boolean values', lambda **k: F.Boolean(strict=False, true_values=('on',), false_values=('off', ''), **k), None, ['on', 'off', True, ''], ['true', 1]),
        Kind('Boolean empty', lambda **k: F.Boolean(strict=False, true_values=(), **k), None, ['no', True], ['true', 1]),
    ]


KINDS = all_kinds()

# options: name -> list of alternatives (keyword arguments)
OPTS = dict(
    none=[{}, dict(none=True)],
    presence=[{}, dict(required=False), dict(default=None), dict(default=0), dict(default=lambda ctx, field: ('called', field.name)), dict(default=[])],
    frozen=[{}, dict(frozen=True)],
    keys=[{}, dict(load_key='L'), dict(dump_key='D'), dict(data_key='K'), dict(load_key='L', dump_key='D'), dict(data_key='f'), dict(load_key='f'), dict(dump_key='f'), dict(load_key='other', dump_key='f')],
    extras=[{}, dict(extras={'x': [1]})],
)
VALS = ['none', 'one', 'raw', 'both', 'many']


def add_vals(field, kind):
    if kind in ('one', 'both', 'many'): field.add_validator(V('v'))
    if kind in ('raw', 'both', 'many'): field.add_validator(V('r'), raw=True)
    if kind == 'many':
        field.add_validator(V('v2')); field.add_validator(V('r2'), raw=True); field.add_validator(V('v3'))
    return field


def normal(v):
    if isinstance(v, Schema):
        return (type(v).__name__, tuple(sorted((n, normal(x)) for n, x in snap(v, all_field_names(type(v))).items())), v.context.state)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(normal(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((k, normal(x)) for k, x in v.items())
    return (type(v).__name__, repr(v))


def behaviour(cls, name, values):
    """Everything observable about one field of a schema."""
    f = getattr(cls, name)
    out = [f.name, f.schema is cls, f.load_key, f.dump_key, f.required, f.none, f.frozen, repr(f.extras), f.has_default(), 'fn' if callable(f.default) else repr(f.default), type(f).__name__]
    for data in [{}] + [{f.load_key: v} for v in values + [None]]:
        del LOG[:]
        o = attempt(cls, data)
        rec = [list(LOG)]
        if not o.ok:
            rec.append((type(o.exc).__name__, errs(o.exc) if isinstance(o.exc, ValidationError) else str(o.exc)))
            rec.append([e.field is f for e in o.exc.errors] if isinstance(o.exc, ValidationError) else None)
        else:
            i = o.value
            rec += [normal(i.get_value_for(name, 'unset')), normal(attempt(i.dump).value)]
            del LOG[:]
            u = attempt(i.update, {f.load_key: values[0]})
            s = attempt(setattr, i, name, values[-1])
            rec += [(u.ok, type(u.exc).__name__, getattr(u.exc, 'entity', None) is f), (s.ok, type(s.exc).__name__), list(LOG), normal(i.get_value_for(name, 'unset'))]
        out.append(rec)
    return out


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'#{i}: {x!r} / {y!r}'
    return f'lengths {len(a)} {len(b)}'


def equivalence(optnames, valkinds, kinds=None):
    """A copy, whatever its origin, behaves as the same field declared anew."""
    def scenario(ch):
        k = KINDS[ch.pick(kinds or range(len(KINDS)), 'kind')]
        kw, optn = {}, []
        for on in optnames:
            o = ch.pick(OPTS[on], on)
            kw.update(o); optn.append(o)
        vk = ch.pick(valkinds, 'validators')
        origin = ch.pick(['unbound', 'bound', 'bound later', 'copy of copy', 'used', 'inherited', 'copy of bound copy'], 'origin')
        name = ch.pick(['f', 'other'], 'name')
        values = k.good + k.bad + ['rej']
        f = add_vals(k.make(**kw), vk)
        fresh = add_vals(k.make(**kw), vk)
        want = behaviour(mk('T', {name: fresh}), name, values)
        orig = None
        if origin == 'unbound': c = f.copy()
        elif origin == 'bound':
            orig = mk('O', f=f); c = f.copy()
        elif origin == 'bound later':
            c = f.copy(); orig = mk('O', f=f)
        elif origin == 'copy of copy': c = f.copy().copy()
        elif origin == 'used':
            orig = mk('O', f=f); behaviour(orig, 'f', values); c = orig.f.copy()
        elif origin == 'inherited':
            orig = mk('O', f=f); c = mk('P', (), (orig,)).f.copy()
        else:
            orig = mk('O', f=f); mid = mk('M', zz=f.copy()); c = mid.zz.copy()
        ch.check(c is not f and type(c) is type(f), 'not a copy')
        got = behaviour(mk('T', {name: c}), name, values)
        ch.op('copy', k.name, optn, vk, origin, name)
        ch.check(got == want, 'a copy behaves differently from the field', k.name, optn, vk, origin, name, diff(got, want))
        if orig is not None:
            fo = add_vals(k.make(**kw), vk)
            ch.check(behaviour(orig, 'f', values) == behaviour(mk('O', f=fo), 'f', values) and orig.f is f, 'the original does not work any more', k.name, optn, vk, origin)
        ch.state(k.name, repr([sorted(o) for o in optn]), vk, origin, name)
    return scenario


class Model:
    def __init__(self, field, vals, raws):
        self.field, self.vals, self.raws, self.where = field, list(vals), list(raws), None


def check_pool(ch, pool, full):
    for i, m in enumerate(pool):
        ch.same([v.tag for v in m.field.walk_validators(raw=False)], m.vals, f'validators of field {i}')
        ch.same([v.tag for v in m.field.walk_validators(raw=True)], m.raws, f'raw validators of field {i}')
        if m.where:
            cls, name = m.where
            ch.check(getattr(cls, name) is m.field and m.field.name == name and m.field.schema is cls, 'a field lost its place', i, name)
            if full:
                del LOG[:]
                out = attempt(cls, {name: 5})
                ch.check(out.ok and getattr(out.value, name) == 5 and [x for x in LOG if x[0] == 'v'] == m.vals and [x for x in LOG if x[0] == 'r'] == m.raws and len(LOG) == len(m.vals) + len(m.raws), 'a field does not work in its schema', i, name, out, list(LOG))


def tagged(tag):
    def v(schema, value, ctx):
        LOG.append(tag)
    v.tag = tag
    return v


def sequences(depth, npool):
    """Copies, bindings and validator changes in any order: bindings of used fields are refused, changes stay with their field."""
    def scenario(ch):
        a, b, r0 = tagged('v0'), tagged('v1'), tagged('r0')
        f = fields.Any(validators=[a, b]); f.add_validator(r0, raw=True)
        pool = [Model(f, ['v0', 'v1'], ['r0'])]
        k = 0
        for step in range(depth):
            who = pool[ch.choose(len(pool), f'field{step}')]
            ops = ['bind', 'bind twice', 'add', 'add raw', 'clear', 'clear raw', 'remove'] + (['copy'] if len(pool) < npool else [])
            op = ch.pick(ops, f'operation{step}')
            ch.op(op, pool.index(who))
            if op == 'copy':
                pool.append(Model(who.field.copy(), who.vals, who.raws))
            elif op == 'bind':
                name = f'n{step}'
                out = attempt(mk, f'S{step}', {name: who.field})
                if who.where:
                    ch.check(not out.ok, 'a bound field was accepted in another schema', step)
                else:
                    ch.check(out.ok, 'a free field was refused', step, out)
                    who.where = (out.value, name)
            elif op == 'bind twice':
                out = attempt(mk, f'D{step}', {'p': who.field, 'q': who.field})
                ch.check(not out.ok, 'one field was accepted for two attributes', step)
                if who.where is None:
                    who.where = False      # the declaration of the schema failed: the field is not used any further
                    pool.remove(who)
                    if not pool: raise Skip
            elif op in ('add', 'add raw'):
                k += 1
                v = tagged(('r' if 'raw' in op else 'v') + f'new{k}')
                who.field.add_validator(v, raw='raw' in op)
                (who.raws if 'raw' in op else who.vals).append(v.tag)
            elif op == 'clear': who.field.clear_validators(raw=False); who.vals = []
            elif op == 'clear raw': who.field.clear_validators(raw=True); who.raws = []
            else:
                who.field.remove_validator(a)
                if 'v0' in who.vals: who.vals.remove('v0')
            check_pool(ch, pool, step == depth - 1)
        ch.state(repr([(m.vals, m.raws, bool(m.where)) for m in pool]))
    return scenario


def decorated(ch):
    """Validators declared in the body of a schema belong to the field and go with its copies, as far as they were registered before."""
    how = ch.pick(['object', 'name', 'mixed'], 'declared for')
    nv, nr = ch.choose(3, 'validators'), ch.choose(3, 'raw validators')
    when = ch.pick(['after', 'before', 'subclass', 'copy of copy', 'same body'], 'copied')
    f = fields.Any(validators=[tagged('v.ctor')])
    attrs = {'f': f}
    mine = ['v.ctor'], []
    early = f.copy() if when == 'before' else None
    for i in range(nv + nr):
        raw = i >= nv
        tag = ('r' if raw else 'v') + str(i)
        target = f if how == 'object' or (how == 'mixed' and i % 2) else 'f'
        attrs['val%d' % i] = validate.field(target, raw=raw)(tagged(tag))
        mine[raw].append(tag)
    if when == 'same body':
        attrs['g'] = f.copy()
    A = mk('A', attrs)
    exp = (list(mine[0]), list(mine[1]))
    if when == 'after': c = A.f.copy()
    elif when == 'copy of copy': c = A.f.copy().copy()
    elif when == 'before': c, exp = early, (['v.ctor'], [])
    elif when == 'same body': c, exp = A.g, (['v.ctor'], [])
    else:
        B = mk('Sub', {'extra': validate.field('f')(tagged('vsub')), 'extraraw': validate.field('f', raw=True)(tagged('rsub'))}, (A,))
        c, exp = B.f.copy(), (mine[0] + ['vsub'], mine[1] + ['rsub'])
    C, key = (A, 'g') if when == 'same body' else (mk('C', {'z': c}), 'z')

    def runs(cls, key, data, want):
        del LOG[:]
        out = attempt(cls, data)
        ch.check(out.ok, 'valid data is rejected', out)
        ch.op('construct', cls.__name__, list(LOG))
        ch.same([x for x in LOG if x[0] == 'v'], want[0], f'validators of {key}')
        ch.same([x for x in LOG if x[0] == 'r'], want[1], f'raw validators of {key}')
    if when != 'same body':
        runs(C, 'z', {'z': 1}, exp)
        runs(A, 'f', {'f': 1}, mine)
    else:
        runs(A, 'f and g', {'f': 1, 'g': 1}, (mine[0] + exp[0], mine[1] + exp[1]))
    # changes on either side stay there
    for step in range(2):
        side = ch.choose(2, f'side{step}')
        fld, mod = (A.f, mine) if side == 0 else (c, exp)
        op = ch.pick(['add', 'clear', 'clear raw', 'remove'], f'operation{step}')
        if op == 'add': fld.add_validator(tagged(f'vnew{step}')); mod[0].append(f'vnew{step}')
        elif op == 'clear': fld.clear_validators(raw=False); del mod[0][:]
        elif op == 'clear raw': fld.clear_validators(raw=True); del mod[1][:]
        elif mod[0]:
            v = list(fld.walk_validators(raw=False))[-1]
            fld.remove_validator(v); mod[0].pop()
        if exp is mine:
            raise AssertionError
        ch.same([v.tag for v in A.f.walk_validators(raw=False)], mine[0], 'validators of the original')
        ch.same([v.tag for v in A.f.walk_validators(raw=True)], mine[1], 'raw validators of the original')
        ch.same([v.tag for v in c.walk_validators(raw=False)], exp[0], 'validators of the copy')
        ch.same([v.tag for v in c.walk_validators(raw=True)], exp[1], 'raw validators of the copy')
    ch.state(how, nv, nr, when, repr(mine), repr(exp))


def rebinding(ch):
    """Every way of using a used field again is refused, and the first use goes on working."""
    k = KINDS[ch.choose(len(KINDS), 'kind')]
    vk = ch.pick(VALS, 'validators')
    f = add_vals(k.make(required=False), vk)
    first = mk('First', f=f, g=fields.Any(required=False))
    sub = mk('Sub', (), (first,))
    values = k.good + k.bad
    want = behaviour(first, 'f', values)
    inst = first({'f': k.good[0]})
    ways = ['other schema', 'other schema, other name', 'same name twice', 'subclass', 'subclass, other name', 'inherited field', 'with others', 'again']
    for step in range(2):
        w = ch.pick(ways, f'way{step}')
        g = fields.Any(required=False)
        out = attempt(*{
            'other schema': (mk, 'A', {'f': f}), 'other schema, other name': (mk, 'A', {'z': f}), 'same name twice': (mk, 'A', {'a': f, 'b': f}), 'subclass': (mk, 'A', {'f': f}, (first,)),
            'subclass, other name': (mk, 'A', {'h': f}, (first,)), 'inherited field': (mk, 'A', {'f': sub.f}), 'with others': (mk, 'A', {'g': g, 'f': f, 'h': fields.Any()}),
            'again': (mk, 'First', {'f': first.f}),
        }[w])
        ch.op(w, k.name, out)
        ch.check(not out.ok, 'a used field was accepted again', k.name, w)
        got = behaviour(first, 'f', values)
        ch.check(got == want, 'the first use is disturbed', k.name, w, diff(got, want))
        ch.check(first.f is f and sub.f is f, 'the first use was replaced', w)
        o = attempt(inst.update, {'f': k.good[0]})
        ch.check(o.ok, 'an instance of the first schema stopped working', w, o)
    # a copy is still usable everywhere, once
    c = f.copy()
    ok = attempt(mk, 'C', {'zz': c})
    ch.check(ok.ok, 'a copy of a used field is refused', ok)
    ch.check(not attempt(mk, 'C2', {'zz': c}).ok, 'a used copy is accepted again')
    ch.state(k.name, vk, w)


def unbound_twice(ch):
    """The same new field under two names of one class, in any position."""
    n = ch.pick([2, 3, 4], 'attributes')
    i, j = ch.choose(n, 'first'), ch.choose(n, 'second')
    if i == j: raise Skip
    fs = [fields.Any(required=False) for _ in range(n)]
    fs[j] = fs[i]
    out = attempt(mk, 'S', {f'a{x}': f for x, f in enumerate(fs)})
    ch.op('declare', n, i, j, out)
    ch.check(not out.ok, 'one field was accepted for two attributes', n, i, j)


def many_copies(ch):
    """Copies of one field in several schemas and attributes: errors and values are those of each."""
    names = ['a', 'b', 'c', 'd']
    keyed = ch.flag('load key')
    nest = ch.flag('copies of copies')
    bound = ch.flag('bound')
    f = fields.Integer(validators=[validate.Range(1, 9)], **(dict(load_key='key') if keyed else {}))
    if bound: mk('Orig', orig=f)
    cs, cur = [], f
    for n in names:
        cur = (cur if nest else f).copy()
        cs.append(cur)
    split = ch.pick([4, 1, 2], 'attributes per schema')
    if keyed and split > 1: raise Skip
    classes = []
    for i in range(0, 4, split):
        classes.append(mk(f'M{i}', {names[j]: cs[j] for j in range(i, i + split)}))
    for ci, cls in enumerate(classes):
        mine = names[ci * split:(ci + 1) * split]
        keys = {n: 'key' if keyed else n for n in mine}
        out = attempt(cls, {keys[n]: x + 1 for x, n in enumerate(mine)})
        ch.check(out.ok and snap(out.value, mine) == {n: x + 1 for x, n in enumerate(mine)}, 'values of copies', out)
        ch.same(out.value.dump(), {n: x + 1 for x, n in enumerate(mine)}, 'dump of copies')
        for bad in mine:
            out = attempt(cls, {keys[n]: 0 if n == bad else 1 for n in mine})
            ch.check(isinstance(out.exc, ValidationError) and [(e.key, e.field) for e in out.exc.errors] == [(keys[bad], getattr(cls, bad))], 'errors of copies', bad, out)
            ch.check(getattr(cls, bad).name == bad and getattr(cls, bad).schema is cls, 'name of copies', bad)
        ch.nops += 2
    ch.state(keyed, nest, bound, split)


def scenarios(tier):
    th = tier == 'thorough'
    few = [i for i, k in enumerate(KINDS) if k.name in ('Integer', 'Custom2', 'Object kw', 'Boolean values', 'Dict[str,int]')]
    return [
        dict(name='all kinds', fn=equivalence(('presence', 'keys') if th else ('presence',), VALS if th else ('none', 'both', 'many'))),
        dict(name='all kinds, keys', fn=equivalence(('keys', 'extras'), ('none', 'both'))),
        dict(name='all kinds, flags', fn=equivalence(('none', 'frozen'), VALS)),
        dict(name='all options', fn=equivalence(('none', 'presence', 'frozen', 'keys', 'extras'), ('none', 'both') if not th else VALS, few if th else few[:2])),
        dict(name='sequences', fn=sequences(4, 3)),
        dict(name='decorated', fn=decorated),
        dict(name='rebinding', fn=rebinding),
        dict(name='two attributes', fn=unbound_twice),
        dict(name='many copies', fn=many_copies),
    ] + ([dict(name='sequences of five', fn=sequences(5, 3))] if th else [])
