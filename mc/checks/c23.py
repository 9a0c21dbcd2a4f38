"""C23 Load keys are used on input, dump keys on output, names on attributes."""
import itertools
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['two fields of a schema do not share a load or a dump key'])


class F(fields.Field):
    def value_load(self, value, context):
        if value == 'bad':
            raise ValueError('bad ' + self.name)
        return (self.name, value)
    def value_dump(self, value, context):
        if value[1] == 'undumpable':
            raise ValueError('undumpable ' + self.name)
        return [self.name, value[1]]


def val(schema, value, ctx):
    if value[1] == 'rej':
        raise ValueError('rejected ' + ctx.field.name)


def raw(schema, value, ctx):
    if value == 'rawrej':
        raise ValueError('raw rejected ' + ctx.field.name)


def verify(ch, cls, L, D, what, opts):
    """L, D: name -> load key, dump key."""
    names = list(L)
    byload = {k: n for n, k in L.items()}
    full = {L[n]: i for i, n in enumerate(names)}
    out = attempt(cls, full)
    ch.check(out.ok, 'data under the load keys is rejected', *what, out)
    x = out.value
    for i, n in enumerate(names):
        fld = getattr(cls, n)
        ch.check(fld.name == n and fld.load_key == L[n] and fld.dump_key == D[n], 'keys of the field', *what, n)
        ch.same(getattr(x, n), (n, i), f'attribute {n} of {what}')
    ch.same(x.dump(), {D[n]: [n, i] for i, n in enumerate(names)}, f'dump of {what}')
    ch.nops += 2
    # any order of the data
    y = attempt(cls, dict(reversed(full.items())))
    ch.check(y.ok and eqv(y.value, x), 'the order of the data matters', *what, y)
    # lookups: names first, then load keys
    keys = set(names) | set(L.values()) | set(D.values()) | {'nowhere', '', 'F'}
    for k in keys:
        n = k if k in names else byload.get(k)
        o = attempt(x.get_value_for, k)
        if n is None:
            ch.check(isinstance(o.exc, RuntimeError), 'an unknown name does not raise RuntimeError', *what, k, o)
            o = attempt(x.get_value_for, k, 'fallback')
            ch.check(isinstance(o.exc, RuntimeError), 'an unknown name with a fallback does not raise RuntimeError', *what, k, o)
        else:
            ch.check(o.ok and o.value == (n, names.index(n)), 'a lookup returns the value of another field', *what, k, o)
    # keys that are no load keys are unknown in the data
    for k in sorted(keys - set(L.values())):
        for how in ('construct', 'update'):
            o = attempt(cls, dict(full, **{k: 9})) if how == 'construct' else attempt(x.update, {k: 9})
            ch.check(isinstance(o.exc, ValidationError) and [(e.key, e.field) for e in o.exc.errors] == [(k, None)], 'a key that is no load key is not reported as unknown', *what, k, how, o)
            if opts:
                o = attempt(cls, dict(full, **{k: 9}), ignore_extra=True) if how == 'construct' else attempt(x.update, {k: 9}, ignore_extra=True)
                z = o.value if how == 'construct' else x
                ch.check(o.ok and snap(z, names) == snap(x, names), 'an ignored key changed something', *what, k, how, o)
    # each field alone
    for i, n in enumerate(names):
        o = attempt(cls, {k: v for k, v in full.items() if k != L[n]})
        ch.check(isinstance(o.exc, ValidationError) and [(e.key, e.field) for e in o.exc.errors] == [(L[n], getattr(cls, n))], 'a missing field is reported wrongly', *what, n, o)
        ch.check(o.exc.raw().keys() == {L[n]}, 'raw form', *what)
        for v, m in (('bad', f'bad {n}'), ('rej', f'rejected {n}'), ('rawrej', f'raw rejected {n}'), (None, None)):
            for how in ('construct', 'update', 'assign'):
                before = snap(x, names)
                o = attempt(cls, dict(full, **{L[n]: v})) if how == 'construct' else attempt(x.update, {L[n]: v}) if how == 'update' else attempt(setattr, x, n, v)
                ch.check(isinstance(o.exc, ValidationError) and [(e.key, e.field) for e in o.exc.errors] == [(L[n], getattr(cls, n))] and (m is None or str(o.exc.errors[0].message) == m), 'a failure is reported wrongly', *what, n, v, how, o)
                ch.check(snap(x, names) == before, 'a failed operation changed something', *what, n, how)
        z = cls(full)
        z.update({L[n]: 'u'})
        ch.same(snap(z, names), {m: (m, 'u' if m == n else j) for j, m in enumerate(names)}, f'update of {n} of {what}')
        setattr(z, n, 's')
        ch.same(snap(z, names), {m: (m, 's' if m == n else j) for j, m in enumerate(names)}, f'assignment of {n} of {what}')
        setattr(z, n, 'undumpable')
        o = attempt(z.dump)
        ch.check(isinstance(o.exc, ValidationError) and [(e.key, e.field) for e in o.exc.errors] == [(L[n], getattr(cls, n))], 'a failed dump is reported wrongly', *what, n, o)
        ch.check(attempt(z.dump, exclude=[n]).ok, 'an excluded field was dumped', *what, n)
        ch.nops += 12
    # selection is by name
    for k in range(2 ** len(names)):
        sel = [n for j, n in enumerate(names) if k >> j & 1]
        ch.same(x.dump(include=sel), {D[n]: [n, names.index(n)] for n in sel}, f'dump of {sel} of {what}')
        ch.same(x.dump(exclude=sel), {D[n]: [n, names.index(n)] for n in names if n not in sel}, f'dump without {sel} of {what}')
    other = sorted(keys - set(names))
    ch.same(x.dump(include=other), {}, f'keys used as names in {what}')
    ch.same(x.dump(exclude=other), {D[n]: [n, i] for i, n in enumerate(names)}, f'keys used as names in {what}')
    ch.nops += 2 ** len(names) * 2


def build(names, form, lks, dks):
    attrs, L, D = {}, {}, {}
    for n, lk, dk in zip(names, lks, dks):
        kw = {}
        if form == 'data':
            if lk is not None: kw['data_key'] = lk
            L[n] = D[n] = lk if lk is not None else n
        else:
            if lk is not None: kw['load_key'] = lk
            if dk is not None: kw['dump_key'] = dk
            L[n], D[n] = lk if lk is not None else n, dk if dk is not None else n
        attrs[n] = F(validators=[val], **kw)
        attrs[n].add_validator(raw, raw=True)
    if len(set(L.values())) < len(L) or len(set(D.values())) < len(D):
        raise Skip
    return mk('S', attrs), L, D


def assignments(names, keys):
    """All assignments of distinct keys (None: the default)."""
    out = []
    for c in itertools.product([None] + keys, repeat=len(names)):
        eff = [k if k is not None else n for k, n in zip(c, names)]
        if len(set(eff)) == len(eff):
            out.append(c)
    return out


def all_keys(names, keys, form, thin=1):
    A = assignments(names, keys)

    def scenario(ch):
        lks = ch.pick(A, 'load keys')
        dks = ch.pick(A[::thin], 'dump keys') if form == 'separate' else lks
        cls, L, D = build(names, form, lks, dks)
        ch.note(L, D)
        verify(ch, cls, L, D, (L, D), thin == 1)
        ch.state(tuple(L.items()), tuple(D.items()))
    return scenario


def three_parameters(ch):
    """Data, load and dump keys given together: the data key sets both others."""
    names = ['f', 'g']
    attrs, L, D = {}, {}, {}
    pools = [['f', 'g', 'X', ''], ['g', 'f', 'Y', 'X']]
    for n, pool in zip(names, pools):
        kw = {}
        for p in ('data_key', 'load_key', 'dump_key'):
            k = ch.pick([None] + pool, p + ' of ' + n)
            if k is not None: kw[p] = k
        L[n] = kw.get('data_key', kw.get('load_key', n))
        D[n] = kw.get('data_key', kw.get('dump_key', n))
        attrs[n] = F(validators=[val], **kw)
        attrs[n].add_validator(raw, raw=True)
    if L['f'] == L['g'] or D['f'] == D['g']: raise Skip
    ch.note(L, D)
    verify(ch, mk('S', attrs), L, D, (L, D), True)
    ch.state(tuple(L.items()), tuple(D.items()))


def kinds_keys(ch):
    """The provided kinds of fields honour keys alike, swapped between two of them."""
    ks = [k for k in leaf_kinds() if k.name != 'Custom']
    k = ks[ch.choose(len(ks), 'kind')]
    form = ch.pick(['swap', 'load', 'dump', 'data', 'none'], 'keys')
    kw = {'swap': (dict(load_key='g', dump_key='g'), dict(load_key='f', dump_key='f')), 'load': (dict(load_key='g'), dict(load_key='f')), 'dump': (dict(dump_key='g'), dict(dump_key='f')),
          'data': (dict(data_key='g'), dict(data_key='f')), 'none': ({}, {})}[form]
    lf, lg = ('g', 'f') if form in ('swap', 'load', 'data') else ('f', 'g')
    df, dg = ('g', 'f') if form in ('swap', 'dump', 'data') else ('f', 'g')
    cls = mk('S', f=k.make(required=False, **kw[0]), g=fields.Any(required=False, **kw[1]))
    for v in k.good:
        want = k.load(v)
        x = cls({lf: v, lg: 'G'})
        ch.check(eqv(x.f, want) and x.g == 'G', 'values', k.name, form, v)
        ch.check(eqv(x.dump(), {df: want, dg: 'G'}), 'dump', k.name, form, x.dump())
        ch.check(eqv(x.dump(include=['f']), {df: want}), 'dump of f', k.name, form)
        x.f = v
        x.update({lf: v})
        ch.check(eqv(x.f, want) and x.g == 'G', 'values after changes', k.name, form, v)
        ch.nops += 4
    for v in k.bad:
        for how in range(3):
            x = cls({})
            o = attempt(cls, {lf: v}) if how == 0 else attempt(x.update, {lf: v}) if how == 1 else attempt(setattr, x, 'f', v)
            ch.check(isinstance(o.exc, ValidationError) and {e.key for e in o.exc.errors} == {lf} and set(o.exc.raw()) == {lf}, 'error key', k.name, form, how, o)
            ch.nops += 1
    ch.state(k.name, form)


def nested(ch):
    """Keys of nested schemas are used at their own level."""
    lk = [ch.pick([None, 'in', 'x', 'f', 'K'], f'load{i}') for i in range(3)]
    dk = [ch.pick([None, 'in', 'K'], f'dump{i}') for i in range(3)]
    kw = [{**({'load_key': l} if l else {}), **({'dump_key': d} if d else {})} for l, d in zip(lk, dk)]
    In = mk('In', x=F(**kw[0]))
    Mid = mk('Mid', f=fields.Object(In, **kw[1]))
    Top = mk('Top', f=fields.Object(Mid, **kw[2]))
    l = [lk[0] or 'x', lk[1] or 'f', lk[2] or 'f']
    d = [dk[0] or 'x', dk[1] or 'f', dk[2] or 'f']
    o = attempt(Top, {l[2]: {l[1]: {l[0]: 1}}})
    ch.check(o.ok and o.value.f.f.x == ('x', 1), 'nested data', l, o)
    ch.same(o.value.dump(), {d[2]: {d[1]: {d[0]: ['x', 1]}}}, 'nested dump')
    for v, m in (('bad', 'bad x'), ):
        e = attempt(Top, {l[2]: {l[1]: {l[0]: v}}})
        ch.same(e.exc.raw(), {l[2]: [{l[1]: [{l[0]: [m]}]}]}, 'nested errors')
        e = attempt(o.value.update, {l[2]: {l[1]: {l[0]: v}}})
        ch.same(e.exc.raw(), {l[2]: [{l[1]: [{l[0]: [m]}]}]}, 'nested errors of an update')
    e = attempt(Top, {l[2]: {l[1]: {'zz': 1}}})
    ch.same(set(e.exc.raw()[l[2]][0][l[1]][0]), {l[0], 'zz'}, 'keys of nested errors')
    o.value.f.f.x = 'undumpable'
    e = attempt(o.value.dump)
    ch.same(e.exc.raw(), {l[2]: [{l[1]: [{l[0]: ['undumpable x']}]}]}, 'nested errors of a dump')
    ch.nops += 6
    ch.state(tuple(lk), tuple(dk))


def unset(ch):
    """Lookups by name and key on partly set instances."""
    names = ['f', 'g', 'h']
    A = assignments(names, ['f', 'g', 'h', 'X'])
    lks = ch.pick(A, 'load keys')
    L = {n: k if k is not None else n for n, k in zip(names, lks)}
    cls = mk('S', {n: F(required=False, **({} if k is None else dict(load_key=k))) for n, k in zip(names, lks)})
    given = [n for n in names if ch.flag(f'give {n}')]
    x = cls({L[n]: 1 for n in given})
    byload = {k: n for n, k in L.items()}
    for k in set(names) | set(L.values()):
        n = k if k in names else byload[k]
        o = attempt(x.get_value_for, k)
        if n in given:
            ch.check(o.ok and o.value == (n, 1), 'lookup', L, k, o)
        else:
            ch.check(isinstance(o.exc, FieldNotSet) and o.exc.field is getattr(cls, n) and o.exc.name == k and o.exc.schema is x, 'lookup of an unset field', L, k, o)
            ch.same(x.get_value_for(k, 'fb'), 'fb', 'fallback')
        ch.nops += 1
    ch.same(x.dump(), {n: ['%s' % n, 1] for n in given}, 'dump')
    ch.state(tuple(lks), tuple(given))


def scenarios(tier):
    th = tier == 'thorough'
    three = ['f', 'g', 'h']
    return [
        dict(name='load and dump keys of three fields', fn=all_keys(three, ['f', 'g', 'h', 'X'], 'separate')),
        dict(name='data keys', fn=all_keys(three, ['f', 'g', 'h', 'X', '', 'a b', 'Y'], 'data')),
        dict(name='two fields, more keys', fn=all_keys(['f', 'g'], ['f', 'g', 'X', '', 'dump', '_field_values', 'copy'], 'separate')),
        dict(name='four fields', fn=all_keys(['f', 'g', 'h', 'i'], ['f', 'g', 'h', 'i'] + (['X'] if th else []), 'data')),
        dict(name='kinds', fn=kinds_keys),
        dict(name='three parameters', fn=three_parameters),
        dict(name='nested', fn=nested),
        dict(name='unset', fn=unset),
    ]
