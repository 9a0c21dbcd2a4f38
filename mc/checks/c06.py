"""C06 Construction, update and assignment agree on every value."""
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['validators depend only on the value and the raw value of their own field'])


def res(out, inst_of=None):
    """Canonical outcome of one entry point for field f."""
    if out.ok:
        return ('ok',)
    if isinstance(out.exc, ValidationError):
        return ('invalid', sorted(((e.key, e.field is not None and e.field.name, repr(e.state), repr(strmsg(e.message)), type(e).__name__)
                                   for e in out.exc.errors), key=repr), sraw(out.exc.raw()))
    return ('escaped', type(out.exc).__name__, str(out.exc))


def falsy(schema, value, ctx):
    if value:
        raise ValueError('truthy')


def nostr(schema, value, ctx):
    assert not isinstance(value, str), 'str'


def nothing(schema, value, ctx):
    raise FieldError(['one', 'two'], state=ctx.value)


class RawNoNone(validate.Validator, raw=True):
    def validate(self, value, ctx):
        if value is None:
            raise ValueError


class RawNoList(validate.Validator, raw=True):
    def validate(self, value, ctx):
        if isinstance(value, (list, dict)):
            raise FieldError('raw', state=7)


def sets():
    return [
        ('none', [], []),
        ('fn', [falsy], []),
        ('raw', [], [falsy]),
        ('cls', [RawNoNone(), falsy, RawNoList()], []),
        ('mix', [nostr, falsy, nothing], [nostr, RawNoNone()]),
        ('len', [validate.Length(min=1)], []),
        ('range', [validate.Range(5)], []),
        ('or', [validate.Or(validate.Range(1), nostr)], []),
        ('excl', [validate.Exclude(0, 'p', '')], [validate.Exclude(1)]),
        ('regex', [validate.Regex(r'\w+', full_match=True)], []),
    ]


def build(kind, none, vset, deco, key, **kw):
    name, vals, raws = vset
    f = kind.make(none=none, required=False, **({'load_key': key} if key else {}), **kw)
    attrs = dict(f=f, g=fields.Any(required=False))
    if deco:
        for i, v in enumerate(vals):
            if isinstance(v, validate.Validator):
                f.add_validator(v)
            else:
                attrs[f'd{i}'] = validate.field(f)(lambda s, x, c, v=v: v(s, x, c))
        for i, v in enumerate(raws):
            if isinstance(v, validate.Validator):
                f.add_validator(v, raw=True)
            else:
                attrs[f'r{i}'] = validate.field('f', raw=True)(lambda s, x, c, v=v: v(s, x, c))
    else:
        for v in vals:
            f.add_validator(v)
        for v in raws:
            f.add_validator(v, raw=True)
    return mk('E', attrs)


def defaults(ch):
    """Values given to a field that holds its default, whatever that is."""
    kind = ch.pick(leaf_kinds(), 'kind')
    vset = ch.pick(sets(), 'validators')
    none = ch.flag('none')
    dflts = [None, 0, '', [], UNSET] + kind.good[:2] + kind.bad[:1]
    dflt = dflts[ch.choose(len(dflts), 'default')]
    name, vals, raws = vset
    f = kind.make(none=none, validators=vals, **(dict(default=dflt) if dflt is not UNSET else dict(required=False)))
    for v in raws: f.add_validator(v, raw=True)
    cls = mk('D', f=f, g=fields.Any(required=False))
    for raw in [None, dflt] + kind.good[:3] + kind.bad[:2] + [0, '', []]:
        if raw is UNSET: continue
        o = attempt(cls, {'f': raw})
        ref = res(o)
        for how in ('update', 'assign', 'twice'):
            inst = cls({})
            if how == 'twice': attempt(inst.update, {'f': raw})
            o2 = attempt(setattr, inst, 'f', raw) if how == 'assign' else attempt(inst.update, {'f': raw})
            ch.op(how, kind, dflt, raw, o2)
            what = (kind, name, none, repr(dflt), raw)
            ch.check(res(o2) == ref, f'{how} differs from construction', *what, res(o2), ref)
            ch.check(eqv(inst.get_value_for('f', UNSET), o.value.f if o.ok else dflt), f'{how} leaves another value', *what)
        ch.state(kind.name, name, none, repr(dflt), repr(raw), ref[0])


class NonePrior(validate.Validator, raw=True):
    pass


def single(ch):
    """All kinds and values; every prior state."""
    kind = ch.pick(leaf_kinds(), 'kind')
    vset = ch.pick(sets(), 'validators')
    none = ch.flag('none')
    deco = ch.flag('decorated')
    key = ch.pick([None, 'F'], 'key')
    cls = build(kind, none, vset, deco, key)
    k = key or 'f'
    priors = {}
    for p in [UNSET, None] + kind.good[:3]:
        o = attempt(cls, {} if p is UNSET else {k: p})
        if o.ok:
            priors[repr(p)] = p
    for raw in [None] + VALUES:
        o = attempt(cls, {k: raw})
        ref = res(o)
        val = o.value.get_value_for('f', UNSET) if o.ok else None
        ch.op('construct', kind, vset[0], none, raw, o)
        o3 = attempt(cls, {'g': 1, k: raw})
        ch.same(res(o3), ref, f'construction with another field differs for {raw!r}')
        for pname, p in priors.items():
            base = {} if p is UNSET else {k: p}
            for how in ('update', 'assign', 'update2'):
                inst = cls(base)
                if how == 'update':
                    o2 = attempt(inst.update, {k: raw})
                elif how == 'update2':
                    o2 = attempt(inst.update, {'g': 0, k: raw})
                else:
                    o2 = attempt(setattr, inst, 'f', raw)
                ch.op(how, pname, raw, o2)
                got = res(o2)
                what = (kind, vset[0], f'none={none} decorated={deco} key={key} prior={pname}', raw)
                ch.check(got == ref, f'{how} differs from construction', *what, got, ref)
                if o2.ok:
                    v2 = inst.get_value_for('f', UNSET)
                    ch.check(eqv(v2, val), f'{how} stores another value than construction', *what, v2, val)
        ch.state(kind.name, vset[0], none, deco, key, repr(raw), ref[0])


class Inner(Schema):
    n = fields.Integer(validators=[validate.Range(10)])
    m = fields.String(required=False, none=True)


class Inner2(Schema):
    i = fields.Object(Inner)
    k = fields.Integer(strict=False, required=False, load_key='K')


OBJ = [None, {}, {'n': 1}, {'n': 11}, {'n': 'x', 'm': 5}, {'n': 1, 'm': None, 'z': 0}, [], 5, '', Inner({'n': 3}),
       {'i': {'n': 1}}, {'i': {'n': 77}, 'K': 'x'}, {'i': None}, {'i': Inner({'n': 3}), 'K': '5'}, Inner2({'i': {'n': 0}})]


def nested(ch):
    """Object fields."""
    schema = ch.pick([Inner, Inner2], 'schema')
    none = ch.flag('none')
    kw = ch.pick([{}, dict(init_kwargs={'ignore_extra': True})], 'kwargs')
    bad = ch.flag('validator')

    def v(s, value, ctx):
        if bad:
            raise ValueError('bad object')
    f = fields.Object(schema, none=none, required=False, validators=[v], **kw)
    f.add_validator(lambda s, value, c: v(s, value, c) if isinstance(value, list) else None, raw=True)
    cls = mk('N', f=f)
    for raw in OBJ:
        o = attempt(cls, {'f': raw})
        ref = res(o)
        for how in ('update', 'assign'):
            inst = cls({})
            o2 = attempt(inst.update, {'f': raw}) if how == 'update' else attempt(setattr, inst, 'f', raw)
            ch.op(how, raw, o2)
            ch.check(res(o2) == ref, f'{how} differs from construction', schema.__name__, raw, res(o2), ref)
            if o.ok:
                ch.check(eqv(inst.get_value_for('f', UNSET), o.value.get_value_for('f', UNSET)), f'{how} stores another value', raw)
        ch.state(schema.__name__, none, repr(kw), bad, repr(type(raw)), ref[0])


class Opt(Schema):
    a = fields.Integer(required=False)
    b = fields.Any(required=False, none=True)
    c = fields.List(default=[])
    d = fields.Object(Inner, required=False, none=True, load_key='D')


PARTS = [('a', [UNSET, 1]), ('b', [UNSET, None, 2]), ('c', [UNSET, [0]]), ('D', [UNSET, None, {'n': 1}, {'n': 5, 'm': 'x'}])]


def nested_priors(ch):
    """Nested data given to a field that holds another instance of the nested schema: nothing of the old one matters."""
    import itertools
    datas = [{k: v for (k, _), v in zip(PARTS, c) if v is not UNSET} for c in itertools.product(*[x for _, x in PARTS])]
    prior = ch.pick(datas + [UNSET, None], 'prior')
    give = ch.pick(['data', 'instance'], 'prior given as')
    if give == 'instance' and not isinstance(prior, dict): raise Skip
    cls = mk('N', f=fields.Object(Opt, required=False, none=True), g=fields.Integer(default=0))
    base = {} if prior is UNSET else {'f': Opt(prior) if give == 'instance' else prior}
    for raw in datas + [None, {'a': 'x'}, {'zz': 1}, {'D': {'n': 'x'}}, {'a': 'x', 'b': 1, 'c': [], 'D': {}}]:
        o = attempt(cls, {'f': raw})
        ref = res(o)
        want = o.value.get_value_for('f', UNSET) if o.ok else None
        for how in ('update', 'assign', 'with other'):
            inst = cls(base)
            held = inst.get_value_for('f', UNSET)
            img = freeze_input(held)
            o2 = attempt(inst.update, {'f': raw}) if how == 'update' else attempt(setattr, inst, 'f', raw) if how == 'assign' else attempt(inst.update, {'g': 1, 'f': raw})
            ch.op(how, prior, raw, o2)
            ch.check(res(o2) == ref, f'{how} differs from construction', prior, raw, res(o2), ref)
            now = inst.get_value_for('f', UNSET)
            if o.ok:
                ch.check(eqv(now, want), f'{how} stores another value than construction', prior, raw, now, want)
            else:
                ch.check(now is held, 'a failure changed the value', prior, raw)
            ch.check(freeze_input(held) == img, 'the instance that was there is changed', prior, raw)
    ch.state(repr(prior), give)


OUT = ['pass', 've', 'fe', 'empty', 'seq', 'ae', 'zero', 'crash']


class Crash(Exception):
    pass


def act(kind, tag):
    if kind == 've': raise ValueError(tag)
    if kind == 'ae': raise AssertionError(tag)
    if kind == 'fe': raise FieldError(tag, state=tag)
    if kind == 'empty': raise ValueError
    if kind == 'seq': raise FieldError([tag + '1', tag + '2'])
    if kind == 'zero': raise FieldError(0)
    if kind == 'crash': raise Crash(tag)


class Script(fields.Field):
    """Raw value: (load outcome, validator outcomes, raw validator outcomes)."""
    def value_load(self, value, context):
        act(value[0], 'load')
        return value
    def value_dump(self, value, context):
        return value


def scripted(nv, nr):
    def scenario(ch):
        """All outcome combinations of load, validators and raw validators, on two fields at once."""
        f, g = Script(required=False), Script(required=False, load_key='G')
        for fld in (f, g):
            for i in range(nv):
                fld.add_validator(lambda s, v, c, i=i: act(v[1][i], f'v{i}'))
            for i in range(nr):
                fld.add_validator(lambda s, v, c, i=i: act(v[2][i], f'r{i}'), raw=True)
        cls = mk('T', f=f, g=g)
        load = ch.pick(OUT, 'load')
        vs = tuple(ch.pick(OUT, f'v{i}') if load == 'pass' else 'pass' for i in range(nv))
        rs = tuple(ch.pick(OUT, f'r{i}') for i in range(nr))
        raw = (load, vs, rs)
        allpass = ('pass', ('pass',) * nv, ('pass',) * nr)
        allfail = ('pass', ('ve',) * nv, ('seq',) * nr)
        ref = res(attempt(cls, {'f': raw}))
        crashes = [x for x in (load,) + vs + rs if x == 'crash']
        for prior in (None, allpass):
            for how in ('update', 'assign'):
                inst = cls({} if prior is None else {'f': prior})
                o = attempt(inst.update, {'f': raw}) if how == 'update' else attempt(setattr, inst, 'f', raw)
                ch.op(how, raw, o)
                got = res(o)
                if crashes:
                    # which of several escaping exceptions comes first is not specified
                    ch.check(got[0] == 'escaped' and ref[0] == 'escaped', f'{how} differs from construction', raw, got, ref)
                else:
                    ch.check(got == ref, f'{how} differs from construction', raw, got, ref)
        if not crashes:
            # two fields: failures are the union
            both = res(attempt(cls, {'G': allfail, 'f': raw}))
            inst = cls({})
            got = res(attempt(inst.update, {'G': allfail, 'f': raw}))
            ch.check(got == both, 'update of two fields differs from construction', raw, got, both)
            inst = cls({})
            one = res(attempt(setattr, inst, 'g', allfail))
            parts = sorted((ref[1] if ref[0] == 'invalid' else []) + one[1], key=repr)
            ch.check(both[0] == 'invalid' and both[1] == parts, 'failures of two fields are not the union of their own', raw, both, parts)
        ch.state(raw, ref[0])
    return scenario


def history(depth):
    """The result of giving a value does not depend on what was given to the field before."""
    vals = [0, 7, '5', 'x', None, 99, [], True, -1]

    def scenario(ch):
        strict = ch.flag('strict')
        none = ch.flag('none')
        f = fields.Integer(strict=strict, none=none, required=False, validators=[validate.Or(validate.Range(10), validate.Exclude(99, -1))])
        f.add_validator(RawNoList())
        cls = mk('H', f=f, o=fields.Boolean(strict=False, required=False))
        inst = cls({})
        for i in range(depth):
            v = ch.pick(vals, f'v{i}')
            how = ch.pick(['update', 'assign'], f'how{i}')
            ref = attempt(cls, {'f': v})
            o = attempt(inst.update, {'f': v}) if how == 'update' else attempt(setattr, inst, 'f', v)
            ch.op(how, v, o)
            ch.check(res(o) == res(ref), f'{how} depends on the history', v, res(o), res(ref))
            if o.ok:
                ch.check(eqv(inst.get_value_for('f', UNSET), ref.value.get_value_for('f', UNSET)), f'{how} stores another value', v)
            ch.state(strict, none, repr(inst.get_value_for('f', UNSET)))
    return scenario


def mappings(ch):
    """Every kind of mapping, given to construction and to update, means the same."""
    kind = ch.pick(leaf_kinds(), 'kind')
    vset = ch.pick(sets(), 'validators')
    none = ch.flag('none')
    cls = build(kind, none, vset, False, 'F')
    for raw in [None] + kind.good[:3] + kind.bad[:2]:
        data = {'F': raw, 'g': 1}
        ref = res(attempt(cls, data))
        for name, make in MAPPINGS:
            for prior in ({}, {'g': 2}):
                img = make(data)
                o = attempt(cls, img)
                ch.same(res(o), ref, f'construction from a {name} differs for {raw!r}')
                inst = cls(prior)
                u = attempt(inst.update, make(data))
                ch.op('update', name, raw, u)
                ch.same(res(u), ref, f'update with a {name} differs for {raw!r}')
                if u.ok:
                    ch.check(eqv(inst.get_value_for('f', UNSET), o.value.get_value_for('f', UNSET)) and inst.g == 1, f'update with a {name} stores other values', raw)
                else:
                    ch.check(inst.get_value_for('f', UNSET) is UNSET and inst.get_value_for('g', UNSET) == prior.get('g', UNSET), 'a failed update changed the instance', name, raw)
    ch.state(kind.name, vset[0], none)


@also_nested('agree', 'changes')
@also('agree', 'histories')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='single', fn=single),
        dict(name='defaults', fn=defaults),
        dict(name='nested', fn=nested),
        dict(name='nested priors', fn=nested_priors),
        dict(name='mappings', fn=mappings),
        dict(name='scripted22', fn=scripted(2, 2)),
        dict(name='scripted30', fn=scripted(3, 1)),
        dict(name='history', fn=history(4 if th else 3)),
    ] + ([dict(name='scripted23', fn=scripted(2, 3))] if th else [])
