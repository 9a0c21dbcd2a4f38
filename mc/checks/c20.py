"""C20 The validator registry reflects exactly the registrations made."""
import itertools
from mc.lib import *

INFO = dict(assumptions=['without a rawness the order between raw and other validators yielded by a walk is not specified'])

LOG = []


class Holder:
    def method(self, schema, value, ctx):
        LOG.append('m')


H = Holder()


def a(schema, value, ctx):
    LOG.append('a')


def b(schema, value, ctx):
    LOG.append('b')
    raise ValueError('b rejects')


@validate.field('f', raw=True)
def dr(schema, value, ctx):
    LOG.append('dr')


@validate.field('f')
def dn(schema, value, ctx):
    LOG.append('dn')


class N(validate.Validator):
    def validate(self, value, ctx):
        LOG.append('N')


class R(validate.Validator, raw=True):
    def __len__(self): return 0
    def validate(self, value, ctx):
        LOG.append('R')


class SubOfRaw(R):
    """A subclass that does not ask for rawness is not raw."""
    def validate(self, value, ctx):
        LOG.append('S')


class Eq(validate.Validator):
    """Instances are distinguishable, but all are different."""
    def __init__(self, n):
        self.n = n
    def __bool__(self): return self.n != 'E2'
    def validate(self, value, ctx):
        LOG.append(self.n)


NI, RI, SI = N(), R(), SubOfRaw()
E1, E2 = Eq('E1'), Eq('E2')
# name -> (object, own rawness or None)
OBJ = {'a': (lambda: a, None), 'b': (lambda: b, None), 'm': (lambda: H.method, None), 'dr': (lambda: dr, True), 'dn': (lambda: dn, False),
       'N': (lambda: NI, False), 'R': (lambda: RI, True), 'S': (lambda: SI, False), 'E1': (lambda: E1, False), 'E2': (lambda: E2, False)}


def rawness(name, flag):
    own = OBJ[name][1]
    return flag if own is None else own


def names_of(vs):
    out = []
    for v in vs:
        out.append(next(n for n, (g, _) in OBJ.items() if g() == v))
    return out


def verify(ch, field, model, cls, inst, load, ops):
    ch.same(names_of(field.walk_validators(raw=True)), model[True], f'raw validators after {ops}')
    ch.same(names_of(field.walk_validators(raw=False)), model[False], f'validators after {ops}')
    both = names_of(field.walk_validators())
    ch.same(sorted(both), sorted(model[True] + model[False]), f'all validators after {ops}')
    # within each kind the order is kept, whatever the order between the kinds
    def restricted(kind):
        rest = list(both)
        return is_subsequence(model[kind], rest)
    ch.check(restricted(True) and restricted(False), 'a walk does not keep the order of registration', ops, both, model)
    if load:
        for how in range(3):
            del LOG[:]
            out = attempt(cls, {'f': 0}) if how == 0 else attempt(inst.update, {'f': 1}) if how == 1 else attempt(setattr, inst, 'f', 2)
            ch.same(sorted(LOG), sorted(model[True] + model[False]), f'validators run after {ops}')
            ch.check(is_subsequence(model[True], LOG) and is_subsequence(model[False], LOG), 'the order of running is not that of registration', ops, list(LOG), model)
            n = (model[True] + model[False]).count('b')
            ch.check(out.ok == (n == 0) and (out.ok or len(out.exc.errors) == n), 'wrong outcome', ops, out)
        del LOG[:]
        out = attempt(cls, {'f': None})
        ch.same(LOG, model[True], f'validators run for None after {ops}')


def is_subsequence(xs, ys):
    it = iter(ys)
    return all(any(x == y for y in it) for x in xs)


def apply(field, model, op):
    kind = op[0]
    if kind == 'add':
        n, flag = op[1], op[2]
        if flag is None: field.add_validator(OBJ[n][0]())
        else: field.add_validator(OBJ[n][0](), raw=flag)
        model[rawness(n, bool(flag))].append(n)
    elif kind == 'remove':
        n, flag = op[1], op[2]
        if flag is None: field.remove_validator(OBJ[n][0]())
        else: field.remove_validator(OBJ[n][0](), raw=flag)
        l = model[rawness(n, bool(flag))]
        if n in l: l.remove(n)
    elif kind == 'clear':
        if op[1] is None:
            field.clear_validators(); model[True].clear(); model[False].clear()
        else:
            field.clear_validators(raw=op[1]); model[op[1]].clear()


INIT = [[], ['a'], ['N', 'R', 'b'], ['dr', 'dn', 'm']]
KINDS = [lambda **k: fields.Any(**k), lambda **k: fields.Integer(strict=False, **k), lambda **k: fields.Union(int, str, **k), lambda **k: fields.Literal(0, 1, 2, **k)]


def start(ch, init, mkf):
    names = INIT[init]
    kw = dict(validators=[OBJ[n][0]() for n in names]) if names else {}
    field = mkf(none=True, required=False, **kw)
    model = {True: [], False: []}
    for n in names:
        model[rawness(n, False)].append(n)
    return field, model


def sequences(depth, ops, inits, kinds=(0,), unique=False):
    def scenario(ch):
        init = ch.pick(inits, 'initial')
        field, model = start(ch, init, KINDS[ch.pick(kinds, 'field')])
        cls = mk('S', f=field)
        inst = cls({})
        done = []
        for step in range(depth):
            op = ops[ch.choose(len(ops), f'operation{step}')]
            if unique and op[0] == 'add' and op[1] in model[True] + model[False]:
                from mc.core import Skip
                raise Skip
            apply(field, model, op)
            done.append(op)
            ch.op(*op)
            verify(ch, cls.f, model, cls, inst, step == depth - 1, done)
        ch.state(init, tuple(model[True]), tuple(model[False]))
    return scenario


FULL = [('add', n, f) for n in ('a', 'b', 'm', 'N', 'R', 'dr') for f in (False, True)] + [('remove', n, f) for n in ('a', 'b', 'm', 'N', 'R', 'dr') for f in (False, True)] + [('clear', None), ('clear', True), ('clear', False)]
SMALL = [('add', 'a', None), ('add', 'b', True), ('add', 'R', None), ('remove', 'a', None), ('remove', 'b', True), ('remove', 'R', False), ('clear', True), ('clear', False)]
ALL = [(o, n, f) for o in ('add', 'remove') for n in OBJ for f in (None, False, True)] + [('clear', None), ('clear', True), ('clear', False)]


def lists(ch):
    """Longer registries: every removal and every clear."""
    names = ['a', 'N', 'E1', 'm', 'E2', 'dn']
    rn = ['b', 'R', 'dr']
    perm = ch.pick(list(itertools.permutations(names))[::7], 'order')
    field, model = start(ch, 0, KINDS[0])
    for i, n in enumerate(perm):
        apply(field, model, ('add', n, None))
        if i < 3: apply(field, model, ('add', rn[i], True))
    cls = mk('S', f=field)
    inst = cls({})
    verify(ch, field, model, cls, inst, True, ['filled'])
    gone = [ch.choose(9, f'remove{i}') for i in range(2)]
    for g in gone:
        apply(field, model, ('remove', (list(perm) + rn)[g], g >= 6))
    ch.op('remove', perm, gone)
    verify(ch, field, model, cls, inst, True, ['removed', perm, gone])
    apply(field, model, ('add', 'S', True))
    verify(ch, field, model, cls, inst, True, ['added S', perm, gone])
    ch.state(perm, tuple(gone))


def decorators(ch):
    """Decorated methods, the constructor and calls register in order, with their rawness."""
    forms = [ch.pick(['none', 'field', 'name', 'field raw', 'name raw'], f'method{i}') for i in range(3)]
    init = ch.choose(len(INIT), 'initial')
    field, model = start(ch, init, KINDS[0])
    apply(field, model, ('add', 'E1', None))
    attrs = {'f': field}
    mine = {}
    for i, fo in enumerate(forms):
        def m(self, value, ctx, i=i):
            LOG.append(f'M{i}')
        if fo == 'none':
            continue
        target = field if 'field' in fo else 'f'
        m = validate.field(target, raw=True)(m) if 'raw' in fo else validate.field(target)(m)
        attrs[f'm{i}'] = m
        mine[f'M{i}'] = m
    cls = mk('S', **attrs)
    for i, fo in enumerate(forms):
        if fo != 'none':
            model['raw' in fo].append(f'M{i}')
    if ch.flag('later'):
        apply(field, model, ('add', 'E2', None))
    ident = {id(v): n for n, v in mine.items()}
    nm = lambda vs: [ident.get(id(v)) or next((n for n, (g, _) in OBJ.items() if g() == v), '?') for v in vs]
    ch.op('declare', forms, init)
    ch.same(nm(cls.f.walk_validators(raw=True)), model[True], 'raw validators')
    ch.same(nm(cls.f.walk_validators(raw=False)), model[False], 'validators')
    del LOG[:]
    attempt(cls, {'f': 0})
    ch.check(is_subsequence(model[True], LOG) and is_subsequence(model[False], LOG) and len(LOG) == len(model[True]) + len(model[False]), 'validators run', list(LOG), model)
    for i, fo in enumerate(forms):
        if fo != 'none' and ch.flag(f'remove{i}'):
            field.remove_validator(mine[f'M{i}'], raw=ch.flag(f'flag{i}'))       # decorated functions know their rawness
            model['raw' in fo].remove(f'M{i}')
            ch.same((nm(cls.f.walk_validators(raw=True)), nm(cls.f.walk_validators(raw=False))), (model[True], model[False]), 'after removing a decorated method')
    ch.state(tuple(forms), init, tuple(model[True]), tuple(model[False]))


def two_fields(depth):
    def scenario(ch):
        """Registries of two fields of one schema, and of equal options, are separate."""
        given = ch.pick([['a', 'R'], ['a'], ['R'], [], ['a', 'm', 'E1']], 'given')
        shared = [OBJ[n][0]() for n in given]
        if ch.flag('tuple'): shared = tuple(shared)
        fs = [fields.Any(validators=shared, required=False, none=True) for _ in range(2)]
        ms = [{r: [n for n in given if rawness(n, False) == r] for r in (True, False)} for _ in range(2)]
        related = ch.pick(['one schema', 'two schemas', 'later'], 'schemas')
        if related == 'one schema': cls = cls2 = mk('S', f=fs[0], g=fs[1])
        elif related == 'two schemas': cls, cls2 = mk('S', f=fs[0]), mk('T', g=fs[1])
        ops = [('add', 'b', True), ('add', 'N', False), ('remove', 'a', False), ('remove', 'R', True), ('clear', None), ('clear', True), ('clear', False)]
        for step in range(depth):
            w, op = ch.choose(2, f'field{step}'), ops[ch.choose(len(ops), f'operation{step}')]
            apply(fs[w], ms[w], op)
            ch.op(w, *op)
            for i in range(2):
                ch.same((names_of(fs[i].walk_validators(raw=True)), names_of(fs[i].walk_validators(raw=False))), (ms[i][True], ms[i][False]), f'registry of field {i} after an operation on field {w}')
        ch.check(len(shared) == len(given), 'the given list of validators was modified', shared)
        if type(shared) is list:
            shared.append(OBJ['b'][0]()); shared.reverse()
        if related == 'later': cls = cls2 = mk('S', f=fs[0], g=fs[1])
        for i, n in enumerate('fg'):
            del LOG[:]
            attempt((cls, cls2)[i], {n: 0})
            ch.same(sorted(LOG), sorted(ms[i][True] + ms[i][False]), f'validators run for {n}')
        ch.state(repr(ms))
    return scenario


def walking(ch):
    """A walk is a fresh iteration every time, and leaves the registry alone."""
    field, model = start(ch, 2, KINDS[0])
    apply(field, model, ('add', 'm', None)); apply(field, model, ('add', 'a', True))
    cls = mk('S', f=field)
    for step in range(4):
        r = ch.pick([None, True, False], f'raw{step}')
        n = ch.choose(3, f'consume{step}')
        it = field.walk_validators() if r is None else field.walk_validators(raw=r)
        for _ in range(n):
            next(it, None)
        ch.nops += 1
        verify(ch, field, model, cls, cls({}), step == 3, ['walk', r, n])


def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='all operations', fn=sequences(2, ALL, range(len(INIT)), range(len(KINDS)))),
        dict(name='sequences', fn=sequences(3, FULL, range(len(INIT)) if not th else (0, 2))),
        dict(name='deep', fn=sequences(6, SMALL, (0,), (0,), True)),
        dict(name='lists', fn=lists),
        dict(name='decorators', fn=decorators),
        dict(name='two fields', fn=two_fields(3 if not th else 4)),
        dict(name='walking', fn=walking),
    ] + ([dict(name='sequences of four', fn=sequences(4, FULL, (1, 2)))] if th else [])
