"""C05 Assignment validates, and a failed assignment leaves the instance unchanged."""
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *
from mc.checks.c04 import Val, Crash, CrashBase, blow, Sub

INFO = dict(assumptions=['callbacks in these schemas do not themselves modify the instance'])

OUTC = ['pass', 've', 'fe', 'empty', 'seq', 'crash', 'key', 'base', 'ae', 'zero', 'blank']


class Script(fields.Field):
    """Raw values are (load, [validators], [raw validators]) outcome names plus a Val."""
    def value_load(self, value, context):
        act(value[0])
        return value[3]
    def value_dump(self, value, context):
        return value


Elsewhere = mk('Elsewhere', f=fields.Integer(), F=fields.Integer(required=False), q=fields.Integer())
ONE = []


class FSub(FieldError):
    pass


class VSub(ValueError, LookupError):
    pass


def act(kind):
    if kind == 'one':
        ONE[:] = ONE or [FieldError('one and the same')]
        raise ONE[0]
    if kind == 'fesub': raise FSub('fesub')
    if kind == 'vsub': raise VSub('vsub')
    if kind == 'unicode': '\u20ac'.encode('ascii')
    if kind.startswith('borrowed'):
        o = attempt(Elsewhere, {'f': 'x'} if kind == 'borrowed' else {'f': 1, 'q': 'x', 'unknown': 1} if kind == 'borrowed same' else {'F': 'x', 'f': 0, 'q': 0})
        raise o.exc.errors[0]
    if kind == 've': raise ValueError('ve')
    if kind == 'ae': raise AssertionError('ae')
    if kind == 'fe': raise FieldError('fe')
    if kind == 'empty': raise ValueError
    if kind == 'seq': raise FieldError(['1', '2'])
    if kind == 'zero': raise FieldError(0)
    if kind == 'blank': raise ValueError('')
    if kind == 'crash': raise Crash
    if kind == 'key': raise KeyError('f')
    if kind == 'base': raise CrashBase
    if kind == 'attr': raise AttributeError('f')


FAILS = ('one', 'fesub', 'vsub', 'unicode', 'borrowed', 'borrowed same', 'borrowed key', 've', 'ae', 'fe', 'empty', 'seq', 'zero', 'blank')


RARE = ['pass', 'one', 'fesub', 'vsub', 'unicode', 'borrowed', 'borrowed same', 'borrowed key']


def scripted(nv, nr, OUTC=OUTC):
    def scenario(ch):
        """All outcomes of deserialization, validators and raw validators."""
        prior = ch.pick(['set', 'unset', 'None'], 'prior')
        none = ch.flag('none') if prior != 'None' else True
        style = ch.pick(['function', 'class', 'decorated'], 'style')
        isnone = ch.flag('assign None')
        load = 'pass' if isnone else ch.pick(OUTC, 'load')
        vs = ['pass'] * nv if isnone or load != 'pass' else [ch.pick(OUTC, f'v{i}') for i in range(nv)]
        rs = [ch.pick(OUTC, f'r{i}') for i in range(nr)]

        def mkv(i):
            if style == 'class':
                class V(validate.Validator):
                    def validate(self, value, ctx):
                        act(ctx.value[1][i])
                return V()
            return lambda s, v, c: act(c.value[1][i])

        def mkr(i):
            def body(v):
                if v is None:
                    if armed:
                        act(rs[i])
                else:
                    act(v[2][i])
            if style == 'class':
                class R(validate.Validator, raw=True):
                    def validate(self, value, ctx):
                        body(value)
                return R()
            return lambda s, v, c: body(v)
        armed = []
        f = Script(none=none, required=False, load_key='F')
        attrs = dict(f=f, g=fields.Any(required=False), h=Script(required=False))
        if style == 'decorated':
            for i in range(nv):
                attrs[f'v{i}'] = validate.field(f)(mkv(i))
            for i in range(nr):
                attrs[f'r{i}'] = validate.field('f', raw=True)(mkr(i))
        else:
            for i in range(nv):
                f.add_validator(mkv(i))
            for i in range(nr):
                f.add_validator(mkr(i), raw=True)
        cls = mk('A', attrs)
        old = ('pass', ['pass'] * nv, ['pass'] * nr, Val('old'))
        data = {'g': Val('g')}
        if prior == 'set':
            data['F'] = old
        elif prior == 'None':
            data['F'] = None
        inst = cls(data)
        armed.append(1)
        names = ('f', 'g', 'h')
        before = snap(inst, names)
        new = Val('new')
        raw = None if isnone else (load, vs, rs, new)
        out = attempt_base(setattr, inst, 'f', raw)
        ch.op('assign', raw, rs, none, out)
        after = snap(inst, names)
        steps = rs + ([] if isnone else [load]) + (vs if load == 'pass' else [])
        crashes = [s for s in steps if s in ('crash', 'key', 'base')]
        fails = [s for s in steps if s in FAILS] + (['none'] if isnone and not none else [])
        what = (prior, none, style, raw, rs)
        if not crashes and not fails:
            ch.check(out.ok, 'a valid assignment failed', *what, out)
            ch.check(after['f'] is (None if isnone else new), 'the assigned value is not stored', *what, after)
            ch.check(inst.f is after['f'], 'attribute differs from lookup', *what)
            ch.check(after['g'] is before['g'] and after['h'] is before['h'], 'another field changed', *what)
        else:
            ch.check(not out.ok, 'an invalid assignment succeeded', *what)
            if not crashes:
                ch.check(isinstance(out.exc, ValidationError), 'wrong exception', *what, out)
            for n in names:
                ch.check(after[n] is before[n], 'a failed assignment changed the instance', *what, n, before[n], after[n], out)
        # the instance stays usable
        ok = ('pass', ['pass'] * nv, ['pass'] * nr, Val('again'))
        inst.f = ok
        ch.check(inst.f is ok[3], 'a later valid assignment is lost', *what)
        ch.check(inst.get_value_for('g') is before['g'], 'another field changed later', *what)
        ch.state(*map(repr, what), out.ok)
    return scenario


def provided(ch):
    """Provided fields: every value, from every prior state."""
    kind = ch.pick(leaf_kinds(), 'kind')
    none = ch.flag('none')
    prior = ch.pick(['unset', 'good0', 'good1', 'default', 'None'], 'prior')
    if prior == 'None' and not none:
        none = True
    kw = dict(default=None) if prior == 'default' else dict(required=False)
    cls = mk('P', f=kind.make(none=none, **kw), other=fields.Any(default=3))
    for raw in [None] + VALUES:
        data = {}
        if prior == 'good0': data = {'f': kind.good[0]}
        elif prior == 'good1': data = {'f': kind.good[-1]}
        elif prior == 'None': data = {'f': None}
        inst = cls(data)
        before = snap(inst, ('f', 'other'))
        img = freeze_input(raw)
        out = attempt(setattr, inst, 'f', raw)
        ch.op('assign', kind, prior, raw, out)
        ch.check(freeze_input(raw) == img, 'the assigned value was modified', kind, raw)
        after = snap(inst, ('f', 'other'))
        try:
            if raw is None:
                if not none:
                    raise Bad
                exp = None
            else:
                exp = kind.load(raw)
            good = True
        except Bad:
            good = False
        if good:
            ch.check(out.ok, 'a valid assignment failed', kind, raw, out)
            ch.check(eqv(after['f'], exp) and inst.f is after['f'], 'wrong stored value', kind, raw, after['f'], exp)
        else:
            ch.check(isinstance(out.exc, ValidationError), 'an invalid assignment did not raise ValidationError', kind, raw, out)
            ch.check(after['f'] is before['f'], 'a failed assignment changed the field', kind, raw, before, after)
        ch.check(after['other'] == 3, 'another field changed', kind, raw)
        ch.state(kind.name, none, prior, repr(raw), good)


class Pos(validate.Validator):
    def validate(self, value, ctx):
        if value <= 0:
            raise ValueError('pos')


def notten(schema, value, ctx):
    if value == 10:
        raise ValueError('ten')


def rawnotbool(schema, value, ctx):
    assert not isinstance(value, bool), 'bool'


VALS = [(1, 1), (2, 2), ('x', Bad), (None, Bad), (0, Bad), (10, Bad), (True, Bad), (-1, Bad)]


def history(depth):
    def scenario(ch):
        """Sequences of assignments on two fields, with deletions of nothing; the model is a dict."""
        a = fields.Integer(validators=[Pos(), notten])
        a.add_validator(rawnotbool, raw=True)
        b = fields.Object(Sub, none=True, required=False)
        cls = mk('H', a=a, b=b, c=fields.Integer(default=5, load_key='zz'))
        inst = cls({'a': 7})
        other = cls({'a': 8})
        model = dict(a=7, b=UNSET, c=5)
        ops = [('a', v, e) for v, e in VALS] + [('b', {'n': 1}, 'sub'), ('b', {'n': 'x'}, Bad), ('b', None, None), ('b', 5, Bad), ('c', 0, 0), ('c', '0', Bad), ('c', None, Bad)]
        for i in range(depth):
            attr, v, e = ch.pick(ops, f'op{i}')
            before = snap(inst, model)
            out = attempt(setattr, inst, attr, v)
            ch.op('assign', attr, v, out)
            after = snap(inst, model)
            if e is Bad:
                ch.check(isinstance(out.exc, ValidationError), 'invalid assignment accepted', attr, v, out)
                ch.check(all(after[n] is before[n] for n in model), 'failed assignment changed the instance', attr, v, before, after)
            else:
                ch.check(out.ok, 'valid assignment failed', attr, v, out)
                model[attr] = e
                ch.check(all(after[n] is before[n] for n in model if n != attr), 'another field changed', attr, v)
                if e == 'sub':
                    ch.check(type(after['b']) is Sub and after['b'].n == 1, 'wrong nested value', after)
                else:
                    ch.check(eqv(after[attr], e), 'wrong value', attr, after[attr], e)
            ch.check(other.a == 8 and other.c == 5 and other.get_value_for('b', UNSET) is UNSET, 'another instance changed')
            ch.state(tuple((n, repr(x)) for n, x in after.items()))
    return scenario


@also_nested('assign', 'changes')
@also('assign', 'histories')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='scripted21', fn=scripted(2, 1)),
        dict(name='scripted12', fn=scripted(1, 2)),
        dict(name='unusual errors', fn=scripted(1, 1, RARE)),
        dict(name='provided', fn=provided),
        dict(name='history', fn=history(3 if not th else 5)),
    ]
