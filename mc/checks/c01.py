"""C01 Construction accepts exactly the valid data."""
import enum, itertools
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['input values outside the alphabet behave like those in it'])


def only_falsy(schema, value, ctx):
    if value:
        raise ValueError('truthy')


def raw_no_list(schema, value, ctx):
    if isinstance(value, list):
        raise FieldError('list')


class NoFive(validate.Validator):
    def validate(self, value, ctx):
        assert value != 5, 'five'


class NotStr(validate.Validator, raw=True):
    def validate(self, value, ctx):
        if isinstance(value, str):
            raise ValueError          # no message


VALS = [('none', [], lambda r, v: True),
        ('falsy', [only_falsy], lambda r, v: not v),
        ('cls', [NoFive(), NotStr()], lambda r, v: not isinstance(r, str) and (v is NOTLOADED or v != 5)),
        ('two', [NoFive(), only_falsy], lambda r, v: not v and v != 5)]
NOTLOADED = object()


def conv_default(ctx, field):
    return ('called', field.name)


DEFAULTS = [('req', dict(), UNSET, True), ('opt', dict(required=False), UNSET, False),
            ('d0', dict(default=0), 0, False), ('dNone', dict(default=None), None, False),
            ('dfn', dict(default=conv_default), ('called', 'f'), False),
            ('reqd', dict(required=True, default='x'), 'x', False)]


def single(ch):
    """One field of any kind; every value."""
    kind = ch.pick(leaf_kinds(), 'kind')
    none = ch.flag('none')
    dname, dkw, dflt, req = ch.pick(DEFAULTS, 'presence')
    vname, vals, ok = ch.pick(VALS, 'validators')
    cls = mk('S', f=kind.make(none=none, validators=vals, **dkw))
    for raw in [ABSENT, None] + VALUES:
        data = {} if raw is ABSENT else {'f': raw}
        before = freeze_input(data)
        out = attempt(cls, data)
        ch.op('construct', kind, dname, vname, data, out)
        exp = UNSET
        if raw is ABSENT:
            good, exp = not req, dflt
        elif raw is None:
            good, exp = none, None
            # raw validators of the alphabet accept None
        else:
            try:
                exp = kind.load(raw)
                good = bool(ok(raw, exp))
            except Bad:
                good = False
        desc = (f'{kind} none={none} {dname} validators={vname}', data)
        ch.check(freeze_input(data) == before, 'the input was modified', *desc)
        if good:
            ch.check(out.ok, 'valid data was rejected', *desc, out)
            got = out.value.get_value_for('f', UNSET)
            ch.check(eqv(got, exp), 'wrong stored value', *desc, got, exp)
            if exp is not UNSET:
                ch.check(out.value.f is got, 'attribute differs from lookup', *desc)
        else:
            ch.check(not out.ok, 'invalid data was accepted', *desc)
            ch.check(isinstance(out.exc, ValidationError), 'wrong exception', *desc, out)
        ch.state(kind.name, none, dname, vname, repr(raw), good)


class Inner(Schema):
    n = fields.Integer()
    o = fields.String(required=False)


def even(schema, value, ctx):
    if value % 2:
        raise ValueError('odd')


def multi_cls(extra_cfg):
    attrs = dict(
        a=fields.Integer(validators=[even]),
        b=fields.String(none=True, required=False),
        c=fields.Integer(default=7, load_key='C'),
        d=fields.Object(Inner),
    )
    if extra_cfg is not None:
        attrs['Config'] = cfg(ignore_extra=extra_cfg)
    return mk('M', attrs)


# per field: (raw, good, stored)
A = [(ABSENT, False, UNSET), (4, True, 4), (3, False, UNSET), (None, False, UNSET), ('4', False, UNSET), (0, True, 0)]
B = [(ABSENT, True, UNSET), ('', True, ''), (None, True, None), (5, False, UNSET)]
C = [(ABSENT, True, 7), (0, True, 0), (None, False, UNSET), ('x', False, UNSET)]
D = [(ABSENT, False, UNSET), ({'n': 1}, True, ('i', 1, UNSET)), ({'n': 'x'}, False, UNSET), ({}, False, UNSET),
     (None, False, UNSET), ({'n': 2, 'o': ''}, True, ('i', 2, '')), ({'n': 1, 'zz': 0}, False, UNSET), ([], False, UNSET)]
U = [(), ('zz',), ('c',), ('zz', 'c'), ('',), (None,), (0, '_x'), ('dump', '_field_values')]


def check_multi(ch, cls, items, kw, good, exp, mapping, what):
    data = mapping(dict(items))
    before = freeze_input(data)
    out = attempt(cls, data, **kw)
    ch.op('construct', items, kw, out)
    ch.check(freeze_input(data) == before, 'the input was modified', what, data)
    if good:
        ch.check(out.ok, 'valid data was rejected', what, items, out)
        for n, e in exp.items():
            got = out.value.get_value_for(n, UNSET)
            if isinstance(e, tuple) and e and e[0] == 'i':
                ch.check(type(got) is Inner and got.n == e[1] and got.get_value_for('o', UNSET) == e[2], 'wrong nested value', what, items)
            else:
                ch.check(eqv(got, e), 'wrong stored value', what, items, n, got, e)
    else:
        ch.check(isinstance(out.exc, ValidationError), 'invalid data: no ValidationError', what, items, out)
    ch.state(what, repr(items), good)


def multi(orders):
    def scenario(ch):
        cfgx = ch.pick([None, True, False], 'config')
        arg = ch.pick([UNSET, True, False], 'argument')
        us = ch.pick(U, 'unknown')
        a, b, c, d = ch.pick(A, 'a'), ch.pick(B, 'b'), ch.pick(C, 'c'), ch.pick(D, 'd')
        cls = multi_cls(cfgx)
        kw = {} if arg is UNSET else dict(ignore_extra=arg)
        ignore = arg if arg is not UNSET else bool(cfgx)
        items = [(k, v[0]) for k, v in zip(('a', 'b', 'C', 'd'), (a, b, c, d)) if v[0] is not ABSENT]
        items += [(u, 'junk') for u in us]
        good = all(v[1] for v in (a, b, c, d)) and (ignore or not us)
        exp = dict(zip('abcd', (v[2] for v in (a, b, c, d))))
        n = len(items)
        for perm in orders(items):
            check_multi(ch, cls, perm, kw, good, exp, dict, 'multi')
    return scenario


def rotations(items):
    seen = []
    for i in range(max(1, len(items))):
        seen.append(items[i:] + items[:i])
    seen.append(items[::-1])
    return seen


def some_orders(items):
    return [items, items[::-1]] + ([items[2:] + items[:2]] if len(items) > 2 else [])


def all_orders(items):
    return [list(p) for p in itertools.permutations(items)]


def orders(ch):
    """All key orders and mapping kinds."""
    a, b, c, d = ch.pick(A[:4], 'a'), ch.pick(B, 'b'), ch.pick(C[:3], 'c'), ch.pick(D[:3], 'd')
    us = ch.pick(U[:2], 'unknown')
    mname, mapping = ch.pick(MAPPINGS, 'mapping')
    cls = multi_cls(None)
    items = [(k, v[0]) for k, v in zip(('a', 'b', 'C', 'd'), (a, b, c, d)) if v[0] is not ABSENT]
    items += [(u, 'junk') for u in us]
    good = all(v[1] for v in (a, b, c, d)) and not us
    exp = dict(zip('abcd', (v[2] for v in (a, b, c, d))))
    for perm in all_orders(items):
        check_multi(ch, cls, perm, {}, good, exp, mapping, mname)


class HasItems:
    def keys(self):
        return ['a']
    def items(self):
        return [('a', 4)]
    def __getitem__(self, k):
        return 4


def nonmapping(ch):
    """Data that is not a mapping."""
    bad = ch.pick([None, 5, '', 'a', [], [('a', 4)], (), {'a'}, HasItems(), iter([('a', 4)]), b'', object(), True, 0.5, dict], 'data')
    cls = mk('S', a=fields.Integer(required=False))
    out = attempt(cls, bad)
    ch.op('construct', type(bad).__name__, out)
    ch.check(isinstance(out.exc, TypeError), 'data that is not a mapping must raise TypeError', bad, out)
    ch.state(repr(type(bad)))
    out = attempt(cls, {'a': 1})
    ch.check(out.ok and out.value.a == 1, 'later construction fails', out)


def wide(sizes):
    def scenario(ch):
        """Many fields, one of them wrong, at every position."""
        n = ch.pick(sizes, 'n')
        bad = ch.choose(n + 1, 'position')
        how = ch.pick(['missing', 'none', 'value', 'validator'], 'how')
        mapping = ch.pick(MAPPINGS[:3], 'mapping')[1]
        attrs = {f'f{i}': fields.Integer(validators=[NoFive()]) for i in range(n)}
        cls = mk('W', attrs)
        data = {f'f{i}': i + 100 for i in range(n)}
        if bad < n:
            k = f'f{bad}'
            if how == 'missing':
                del data[k]
            else:
                data[k] = {'none': None, 'value': 'x', 'validator': 5}[how]
        out = attempt(cls, mapping(data))
        ch.op('construct', n, bad, how, out)
        if bad == n:
            ch.check(out.ok, 'valid data was rejected', out)
            for i in range(n):
                ch.check(getattr(out.value, f'f{i}') == i + 100, 'wrong value', i)
        else:
            ch.check(isinstance(out.exc, ValidationError), 'invalid data was accepted', n, bad, how, out)
        ch.state(n, bad, how)
    return scenario


def pairs(ch):
    """Two fields of any kinds: each independently valid, invalid or absent."""
    kinds = leaf_kinds()
    k1, k2 = ch.pick(kinds, 'kind1'), ch.pick(kinds, 'kind2')
    cls = mk('P', f=k1.make(), g=k2.make(required=False, none=True))
    for v1 in k1.good[:2] + k1.bad[:2] + [ABSENT]:
        for v2 in k2.good[:2] + k2.bad[:1] + [ABSENT, None]:
            data = {}
            if v1 is not ABSENT:
                data['f'] = v1
            if v2 is not ABSENT:
                data['g'] = v2
            good, e1, e2 = v1 is not ABSENT, UNSET, UNSET
            try:
                if good:
                    e1 = k1.load(v1)
                e2 = v2 if v2 is ABSENT or v2 is None else k2.load(v2)
            except Bad:
                good = False
            out = attempt(cls, data)
            ch.op('construct', k1, k2, data, out)
            if good:
                ch.check(out.ok, 'valid data was rejected', k1, k2, data, out)
                ch.check(eqv(out.value.get_value_for('f', UNSET), e1) and eqv(out.value.get_value_for('g', UNSET), e2),
                         'wrong stored values', k1, k2, data)
            else:
                ch.check(isinstance(out.exc, ValidationError), 'invalid data was accepted', k1, k2, data, out)
            ch.state(k1.name, k2.name, repr(data), good)


def given_default(ch):
    """A default is never validated; the same object given explicitly is."""
    kind = ch.pick(leaf_kinds(), 'kind')
    none = ch.flag('none')
    vname, vals, ok = ch.pick(VALS, 'validators')
    how = ch.pick(['default', 'callable'], 'default given as')
    for d in [None] + kind.good + kind.bad + [5, 0, '']:
        f = kind.make(none=none, validators=vals, default=d if how == 'default' else lambda c, f: d)
        cls = mk('S', f=f, g=fields.Any(required=False))
        out = attempt(cls, {})
        ch.check(out.ok and out.value.f is d, 'an omitted field does not take its default', kind, d, out)
        out = attempt(cls, {'g': 0})
        ch.check(out.ok and out.value.f is d, 'an omitted field does not take its default', kind, d, out)
        prior = out.value
        exp = None
        if d is None:
            good = none
        else:
            try:
                exp = kind.load(d)
                good = bool(ok(d, exp))
            except Bad:
                good = False
        for name, fn in (('construct', lambda: cls({'f': d})), ('construct', lambda: cls({'g': 0, 'f': d})), ('update', lambda: prior.update({'f': d}))):
            out = attempt(fn)
            ch.op(name, kind, d, out)
            if good:
                ch.check(out.ok, 'valid data was rejected', name, kind, d, out)
                ch.check(eqv((out.value or prior).f, exp), 'wrong stored value', name, kind, d)
            else:
                ch.check(isinstance(out.exc, ValidationError), 'the default, given explicitly, was accepted though invalid', name, kind, d, out)
        ch.state(kind.name, none, vname, repr(d), good)


class StrSub(str):
    pass


KEYNAMES = ['1', 'None', 'True', 'a', 'A', ' a', 'a ', '', 'a.b', 'é', 'e\u0301', 'a_b', '0']
ODDKEYS = [1, 1.0, True, None, 0, False, b'a', ('a',), 'A', ' a', 'a ', '', 'a', 'ａ', 'é', 'e\u0301', 'a-b', 'a_b', 'ab',
           'a.b', '1', ' 1', '01', '1.0', 'None', 'none', 'True', 'true', "b'a'", "('a',)", frozenset('a'), StrSub('A'), '0', '-0', -1, 'f', 'F']


class TextEnum(str, enum.Enum):
    f = 'f'
    g = 'G'
    z = 'z'


class StrKey(str):
    """A string with its own identity, equal to the text."""


class LoudKey(str):
    def __str__(self):
        return 'loud'
    def __repr__(self):
        return 'loud'


class FormatKey(str):
    def __format__(self, spec):
        return 'x'


def text_keys(ch):
    """Keys that are instances of subclasses of str name the field they equal, in data, declarations and lookups."""
    mkey = ch.pick([str, StrKey, TextEnum, LoudKey, FormatKey], 'key class')
    dkey = ch.pick([str, StrKey, LoudKey], 'declared key class')
    cls = mk('T', f=fields.Integer(), g=fields.Integer(load_key=dkey('G'), required=False))
    give = [ch.pick([0, 1, 'bad'], k) for k in 'fGz']
    data = {mkey(k): (1 if g == 1 else 'bad') for k, g in zip('fGz', give) if g}
    good = give[0] == 1 and give[1] != 'bad' and not give[2]
    want = sorted([k for k, g in zip('fG', give) if g == 'bad'] + ['f'] * (not give[0]) + ['z'] * bool(give[2]))
    for name, fn in (('construct', lambda: cls(data)), ('update', None)):
        inst = cls({'f': 7})
        out = attempt(fn) if fn else attempt(inst.update, data)
        ch.op(name, mkey, dkey, give, out)
        exp = want if fn else [k for k in want if not (k == 'f' and not give[0])]
        if not exp:
            inst = out.value or inst
            ch.check(out.ok, 'valid data was rejected', name, mkey, data, out)
            ch.check(inst.f == (1 if give[0] else 7) and inst.get_value_for(mkey('G'), UNSET) == (1 if give[1] else UNSET), 'wrong values', name, mkey, data)
        else:
            ch.check(isinstance(out.exc, ValidationError) and sorted(str.__str__(e.key) for e in out.exc.errors) == exp, 'wrong errors', name, mkey, data, out, exp)
    ch.state(mkey.__name__, dkey.__name__, tuple(give))


def keys(ch):
    """Keys are compared by equality: every key that differs from the load key is unknown, whatever it looks like."""
    lk = ch.pick(KEYNAMES, 'load key')
    req = ch.flag('required')
    ignore = ch.flag('ignore')
    cls = mk('K', f=fields.Any(load_key=lk, required=req))
    for odd in ODDKEYS:
        for own in ('absent', 'first', 'last'):
            if odd == lk and own != 'absent':
                continue
            items = [(odd, 'odd')]
            if own == 'first':
                items.insert(0, (lk, 'own'))
            elif own == 'last':
                items.append((lk, 'own'))
            data = dict(items)
            hit = 'own' if own != 'absent' else 'odd' if odd == lk else UNSET
            good = (hit is not UNSET or not req) and (ignore or odd == lk)
            out = attempt(cls, data, ignore_extra=ignore)
            ch.op('construct', lk, items, out)
            if good:
                ch.check(out.ok, 'valid data was rejected', lk, items, out)
                ch.check(out.value.get_value_for('f', UNSET) == hit, 'wrong stored value', lk, items)
            else:
                ch.check(isinstance(out.exc, ValidationError), 'data with an unknown key or without the required key was accepted',
                         lk, items, out)
            if not ignore and odd != lk:
                upd = attempt(cls({lk: 'before'}).update, data)
                ch.check(isinstance(upd.exc, ValidationError) and [e.key for e in upd.exc.errors] == [odd],
                         'an unknown key was not reported by update', lk, items, upd)
            ch.state(lk, req, ignore, repr(odd), own)


class Odd:
    def __bool__(self):
        return False


ODDMSG = [0, '', None, False, [], (), {}, 0.0, b'', Odd(), 'text', ['a'], {'k': ['v']}, Schema, NotImplemented, '{', '%s', '\n']


def messages(ch):
    """A failure is a failure whatever its message or attached state."""
    site = ch.pick(['load', 'validator', 'raw', 'class'], 'site')
    exc = ch.pick(['FieldError', 'ValueError', 'AssertionError', 'two args'], 'exception')
    state = ch.pick([None, 0, 's'], 'state')
    nested = ch.flag('nested')
    default = ch.flag('beside a default')
    msg = ODDMSG[ch.choose(len(ODDMSG), 'message')]

    def fail(value):
        if value == 'bad':
            if exc == 'FieldError':
                raise FieldError(msg, state=state)
            if exc == 'two args':
                raise ValueError(msg, 'more')
            raise {'ValueError': ValueError, 'AssertionError': AssertionError}[exc](msg)

    class F(fields.Field):
        def value_load(self, value, context):
            if site == 'load':
                fail(value)
            return value
        def value_dump(self, value, context):
            return value

    class V(validate.Validator):
        def validate(self, value, ctx):
            fail(value)
    f = F()
    if site == 'class':
        f.add_validator(V())
    elif site != 'load':
        f.add_validator(lambda s, v, c: fail(v), raw=site == 'raw')
    attrs = dict(f=f)
    if default:
        attrs['d'] = fields.Any(default=0)
    cls = mk('M', attrs)
    if nested:
        cls = mk('Outer', f=fields.Object(cls))
    wrap = (lambda v: {'f': {'f': v}}) if nested else (lambda v: {'f': v})
    for v in ('ok', 'bad', 'ok'):
        out = attempt(cls, wrap(v))
        ch.op('construct', site, exc, v, type(msg), out.ok)
        if v == 'ok':
            ch.check(out.ok, 'valid data was rejected', site, exc)
            inst = out.value
            upd = attempt(inst.update, wrap('bad'))
            ch.check(isinstance(upd.exc, ValidationError), 'an update with invalid data succeeded', site, exc, type(msg))
        else:
            ch.check(isinstance(out.exc, ValidationError), 'invalid data was accepted', site, exc, type(msg))
    ch.state(site, exc, state, nested, default, type(msg))


@also_nested('accept values', 'construction')
@also('accept values input', 'constructions')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='single', fn=single),
        dict(name='multi', fn=multi(rotations if th else some_orders)),
        dict(name='orders', fn=orders),
        dict(name='nonmapping', fn=nonmapping),
        dict(name='wide', fn=wide((1, 2, 5, 12, 40, 120) if th else (1, 5, 12, 40))),
        dict(name='pairs', fn=pairs),
        dict(name='keys', fn=keys),
        dict(name='text keys', fn=text_keys),
        dict(name='messages', fn=messages),
        dict(name='given default', fn=given_default),
    ]
