"""C04 A failed update changes nothing; a successful one exactly the given fields."""
import itertools
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['when an update succeeds during which callbacks modify the instance, what they modified is not specified'])


class Crash(Exception):
    pass


class CrashBase(BaseException):
    pass


class Val:
    """A distinct object per value, so that identity of stored values can be checked."""
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return f'Val{self.n}'


class Obj(fields.Field):
    """Stores Val objects; other raw values fail in a chosen way."""
    def value_load(self, value, context):
        blow(value, 'load')
        return value
    def value_dump(self, value, context):
        return value


def blow(value, site):
    if isinstance(value, str) and value.startswith(site + ':'):
        what = value.split(':')[1]
        if what == 've':
            raise ValueError('ve')
        if what == 'fe':
            raise FieldError(['a', 'b'])
        if what == 'crash':
            raise Crash()
        if what == 'key':
            raise KeyError('b')
        if what == 'attr':
            raise AttributeError('x')
        if what == 'base':
            raise CrashBase()
        if what == 'kbd':
            raise KeyboardInterrupt()
        if what == 'lookup':
            raise LookupError()
        if what == 'runtime':
            raise RuntimeError()


def rawv(schema, value, ctx):
    blow(value, 'raw')


def valv(schema, value, ctx):
    blow(value, 'val')


class Sub(Schema):
    n = fields.Integer()


def make(extra):
    attrs = dict(
        a=Obj(validators=[valv]),
        b=Obj(required=False, none=True, load_key='B'),
        z=Obj(required=False, frozen=True),
        o=fields.Object(Sub, required=False),
    )
    attrs['a'].add_validator(rawv, raw=True)
    attrs['b'].add_validator(rawv, raw=True)
    attrs['b'].add_validator(valv)
    attrs['z'].add_validator(valv)
    if extra:
        attrs['Config'] = cfg(ignore_extra=True)
    return mk('U', attrs)


NAMES = ('a', 'b', 'z', 'o')
KEY = dict(a='a', B='b', z='z', o='o')

# update items: (key, raw, class) ; class: ok / bad / frozen / crash / unknown
BASIC = [('a', Val(1), 'ok'), ('a', 'val:ve', 'bad'), ('a', None, 'bad'), ('a', 'load:crash', 'crash'),
         ('B', Val(2), 'ok'), ('B', None, 'ok'), ('B', 'raw:fe', 'bad'), ('B', 'val:key', 'crash'),
         ('z', Val(3), 'frozen'), ('o', {'n': 1}, 'ok'), ('o', {'n': 'x'}, 'bad'), ('o', None, 'bad'),
         ('zz', 0, 'unknown'), ('b', 5, 'unknown')]
MORE = [('a', 'raw:ve', 'bad'), ('a', 'load:fe', 'bad'), ('a', 'val:crash', 'crash'), ('a', 'raw:base', 'crash'), ('a', 'load:kbd', 'crash'),
        ('B', 'load:ve', 'bad'), ('B', 'raw:attr', 'crash'), ('B', 'load:lookup', 'crash'), ('B', 'val:runtime', 'crash'),
        ('z', None, 'frozen'), ('z', 'val:ve', 'frozen'), ('o', [], 'bad'), ('', 1, 'unknown'), ('a', '', 'ok'), ('B', 0, 'ok')]


def expect(items, ignore):
    cl = [c for _, _, c in items]
    kinds = set()
    if 'crash' in cl: kinds.add('crash')
    if 'frozen' in cl: kinds.add('frozen')
    if not kinds and ('bad' in cl or ('unknown' in cl and not ignore)):
        kinds.add('invalid')
    return kinds


def do_update(ch, inst, model, items, kw, ignore, mapping=dict):
    before = snap(inst, NAMES)
    ch.check(all(before[n] is model[n] for n in NAMES), 'state differs from the model before the update', before, model)
    data = mapping({k: v for k, v, _ in items})
    img = freeze_input(data)
    out = attempt_base(inst.update, data, **kw)
    ch.op('update', [(k, repr(v)) for k, v, _ in items], kw, out)
    ch.check(freeze_input(data) == img, 'the given data was modified', data)
    kinds = expect(items, ignore)
    after = snap(inst, NAMES)
    if not kinds:
        ch.check(out.ok, 'a valid update failed', items, out)
        given = {KEY[k]: v for k, v, c in items if c == 'ok'}
        for n in NAMES:
            if n not in given:
                ch.check(after[n] is before[n], 'a field that was not given changed', items, n, before[n], after[n])
            elif n == 'o':
                ch.check(type(after[n]) is Sub and after[n].n == given[n]['n'], 'given nested field has the wrong value', items, after[n])
            else:
                ch.check(after[n] is given[n], 'a given field does not have its new value', items, n, after[n])
        model.update(after)
    else:
        ch.check(not out.ok, 'an invalid update succeeded', items)
        ok = ('crash' in kinds and isinstance(out.exc, (Crash, CrashBase, KeyboardInterrupt, KeyError, AttributeError, LookupError, RuntimeError))
              and not isinstance(out.exc, oblate.OblateException)) or \
             ('frozen' in kinds and isinstance(out.exc, FrozenError)) or \
             ('invalid' in kinds and isinstance(out.exc, ValidationError))
        ch.check(ok, 'wrong exception', items, kinds, out)
        for n in NAMES:
            ch.check(after[n] is before[n], 'a failed update changed a field', items, n, before[n], after[n], out)
    for n in NAMES:     # the other ways of reading agree
        try:
            v = getattr(inst, n)
        except FieldNotSet:
            v = UNSET
        ch.check(v is after[n], 'attribute and lookup disagree', n)
    d = inst.dump()
    ch.check(set(d) == {KEY_DUMP[n] for n in NAMES if after[n] is not UNSET}, 'dump keys differ after update', items, d)
    ch.state(tuple((n, repr(after[n])) for n in NAMES), tuple((k, repr(v)) for k, v, _ in items))


KEY_DUMP = dict(a='a', b='b', z='z', o='o')


def starts(cls):
    va, vb, vz = Val('a0'), Val('b0'), Val('z0')
    sub = Sub({'n': 0})
    return [('minimal', {'a': va}, dict(a=va, b=UNSET, z=UNSET, o=UNSET)),
            ('full', {'a': va, 'B': vb, 'z': vz, 'o': sub}, dict(a=va, b=vb, z=vz, o=sub)),
            ('none', {'a': va, 'B': None, 'o': sub}, dict(a=va, b=None, z=UNSET, o=sub))]


def make_start(ch):
    extra = ch.flag('config ignores extra')
    cls = make(extra)
    name, data, model = ch.pick(starts(cls), 'start')
    inst = cls(data)
    model = dict(model)
    return cls, inst, model, extra


def single(alpha, k, kinds=MAPPINGS[:1]):
    """All ordered update mappings of up to k items."""
    def scenario(ch):
        cls, inst, model, extra = make_start(ch)
        arg = ch.pick([UNSET, True, False], 'argument')
        kw = {} if arg is UNSET else dict(ignore_extra=arg)
        ignore = arg if arg is not UNSET else extra
        mapping = ch.pick(kinds, 'mapping')[1] if len(kinds) > 1 else kinds[0][1]
        n = ch.choose(k + 1, 'n')
        items, used = [], set()
        for i in range(n):
            avail = [x for x in alpha if x[0] not in used]
            it = ch.pick(avail, f'item{i}')
            items.append(it)
            used.add(it[0])
        do_update(ch, inst, model, items, kw, ignore, mapping)
        do_update(ch, inst, model, [('a', Val(9), 'ok')], {}, extra)
    return scenario


def history(depth, sets):
    """Sequences of updates, assignments and copies; the model follows."""
    def scenario(ch):
        cls, inst, model, extra = make_start(ch)
        for i in range(depth):
            op = ch.pick(sets, f'op{i}')
            if op == 'copy':
                new = inst.copy()
                ch.op('copy')
                do_update(ch, inst, model, [('a', Val('x'), 'ok'), ('B', Val('y'), 'ok')], {}, extra)
                # continue on the copy, which kept the old values
                model_new = {n: None for n in NAMES}
                inst, model = new, snap(new, NAMES)
            elif op == 'assign':
                v = Val('s')
                inst.b = v
                model['b'] = v
                ch.op('assign', 'b')
            elif op == 'assign-bad':
                o = attempt(setattr, inst, 'a', 'val:ve')
                ch.op('assign', o)
            else:
                do_update(ch, inst, model, op, {}, extra)
    return scenario


SETS = ['copy', 'assign', 'assign-bad', [('a', Val('p'), 'ok')], [('a', Val('q'), 'ok'), ('z', Val('r'), 'frozen')],
        [('B', None, 'ok'), ('a', 'val:ve', 'bad')], [('B', Val('s'), 'ok'), ('o', {'n': 5}, 'ok')], [('o', {'n': 6}, 'ok'), ('B', 'val:key', 'crash')],
        [('B', 'raw:fe', 'bad'), ('a', Val('t'), 'ok')], [('zz', 1, 'unknown'), ('a', Val('u'), 'ok')], []]


def nested_cb(ch):
    """An update inside a validator of an update of another instance: each is atomic on its own."""
    other_items = ch.pick([[('a', Val(1), 'ok')], [('B', Val(1), 'ok'), ('a', 'val:ve', 'bad')], [('B', Val(1), 'ok'), ('z', Val(2), 'frozen')],
                           [('B', Val(1), 'ok'), ('a', 'val:crash', 'crash')]], 'inner')
    outer_fails = ch.pick([False, 'bad', 'frozen', 'crash'], 'outer')
    cls = make(False)
    other = cls({'a': Val('oa')})
    omodel = snap(other, NAMES)
    ran = []

    def hook(schema, value, ctx):
        if not ran:
            ran.append(1)
            do_update(ch, other, omodel, other_items, {}, False)
    cls2 = mk('V', a=Obj(validators=[valv, hook]), B=Obj(required=False), z=Obj(required=False, frozen=True))
    ran.append(1)
    inst = cls2({'a': Val('ia')})
    ran.clear()
    before = snap(inst, ('a', 'B', 'z'))
    data = {'B': Val('nb'), 'a': Val('na')}
    if outer_fails == 'bad':
        data['B'] = None
    if outer_fails == 'frozen':
        data['z'] = 1
    if outer_fails == 'crash':
        data = {'B': data['B'], 'a': 'val:crash'}
    out = attempt(inst.update, data)
    ch.op('outer', data, out)
    ch.check(out.ok == (not outer_fails), 'wrong outcome', out)
    after = snap(inst, ('a', 'B', 'z'))
    if outer_fails:
        ch.check(all(after[n] is before[n] for n in before), 'failed outer update changed the instance', before, after)
    else:
        ch.check(after['a'] is data['a'] and after['B'] is data['B'], 'update lost', after)
    ch.check(all(other.get_value_for(n, UNSET) is omodel[n] for n in NAMES), 'the other instance changed later')
    ch.state(repr(other_items), outer_fails)


def wide(ch):
    """Failure at every position of a long update."""
    n = ch.pick([3, 8, 25], 'n')
    pos = ch.choose(n, 'position')
    how = ch.pick(['val:ve', 'load:fe', 'raw:ve', 'val:crash', 'load:key', 'frozen', 'unknown', 'none'], 'how')
    mapping = ch.pick(MAPPINGS[:3], 'mapping')[1]
    attrs = {}
    for i in range(n):
        f = Obj(validators=[valv], required=False, frozen=(how == 'frozen' and i == pos))
        f.add_validator(rawv, raw=True)
        attrs[f'f{i}'] = f
    cls = mk('W', attrs)
    half = ch.pick(['all', 'half'], 'set')
    inst = cls({f'f{i}': Val(i) for i in range(n) if half == 'all' or i % 2})
    names = tuple(attrs)
    before = snap(inst, names)
    data = {f'f{i}': Val(-i) for i in range(n)}
    if how == 'unknown':
        items = list(data.items())
        items.insert(pos, ('zz', 1))
        data = dict(items)
    elif how == 'none':
        data[f'f{pos}'] = None
    elif how != 'frozen':
        data[f'f{pos}'] = how
    out = attempt(inst.update, mapping(data))
    ch.op('update', n, pos, how, out)
    ch.check(not out.ok, 'invalid update succeeded', n, pos, how)
    after = snap(inst, names)
    ch.check(all(after[k] is before[k] for k in names), 'a failed update changed a field', n, pos, how)
    ch.state(n, pos, how, half)


ACTS = {
    'assign unset': lambda s: setattr(s, 'e', 'act'), 'assign set': lambda s: setattr(s, 'd', 'act'), 'assign twice': lambda s: (setattr(s, 'd', 'act'), setattr(s, 'd', 'act2'), setattr(s, 'e', 0)),
    'assign invalid': lambda s: attempt(setattr, s, 'd', 'bad'), 'update': lambda s: s.update({'d': 'act', 'E': 1}), 'update fails': lambda s: attempt(s.update, {'d': 'act', 'E': 'bad'}), 'assign given': lambda s: setattr(s, 'a', 'act'),
    'update all': lambda s: s.update({'d': 'act', 'E': 1, 'a': 'act', 'b': 'act'}), 'nested': lambda s: setattr(s, 'n', {'x': 5}), 'none': lambda s: setattr(s, 'e', None), 'copy': lambda s: s.copy().update({'d': 1}), 'nested failed': lambda s: attempt(setattr, s, 'n', {'x': 'bad'}),
}


def acting(nacts):
    def scenario(ch):
        """Callbacks that themselves change the instance while an update is under way: if that fails, all is as it was."""
        site = ch.pick(['load', 'validator', 'raw', 'format'], 'site')
        acts = [ch.pick(list(ACTS), f'act{i}') for i in range(nacts)]
        start = ch.choose(4, 'start')
        end = ch.pick(['bad', 'none', 'unknown', 'frozen', 'crash', 'ok'], 'end')
        pos = ch.choose(2, 'position')
        todo = []

        def act(schema):
            if todo:
                a = todo.pop()
                ACTS[a](schema)

        class A(fields.Any):
            def value_load(self, v, c):
                if v == 'bad': raise ValueError('bad')
                if v == 'crash': raise Crash
                if site == 'load' and v == 'go': act(c.schema)
                return v
            def format_error(self, code, c):
                if site == 'format': act(c.schema)

        def v(schema, value, c):
            if value == 'go': act(c.schema)
        f = A(none=site != 'format')
        if site in ('validator', 'raw'): f.add_validator(v, raw=site == 'raw')
        b = A(none=False)
        if site in ('validator', 'raw'): b.add_validator(v, raw=site == 'raw')
        cls = mk('Act', a=f, b=b, d=A(required=False), e=A(load_key='E', none=True, required=False), z=A(frozen=True, required=False), n=fields.Object(mk('In', x=A()), required=False))
        x = cls({'a': 0, 'b': 0, **[{}, {'d': 0}, {'E': None, 'n': {'x': 1}}, {'d': 1, 'E': 2, 'z': 3, 'n': {'x': 4}}][start]})
        names = ('a', 'b', 'd', 'e', 'z', 'n')
        before = snap(x, names)
        nested = x.get_value_for('n', None)
        nb = nested and nested.x
        todo[:] = acts[::-1]
        go = {'a': None if site == 'format' else 'go', **({'b': None if site == 'format' else 'go'} if nacts > 1 else {})}
        last = {'bad': {'d': 'bad'}, 'none': {'d': None}, 'unknown': {'zz': 1}, 'frozen': {'z': 1}, 'crash': {'d': 'crash'}, 'ok': {}}[end]
        data = {**go, **last} if pos else {**last, **go}
        out = attempt(x.update, data)
        ch.op(site, acts, start, end, pos, out)
        if end == 'ok' and site != 'format':
            ch.check(out.ok or isinstance(out.exc, ValidationError), 'outcome', out)
        if out.ok:
            ch.check(end == 'ok', 'the update succeeded', out)
        else:
            after = snap(x, names)
            ch.check(all(after[n] is before[n] for n in names), 'a failed update left something changed', site, acts, start, end, pos, before, after)
            ch.check(nested is None or nested.x is nb, 'a nested instance is changed')
        ch.state(site, tuple(acts), start, end, pos)
    return scenario


@also_nested('update', 'changes')
@also('update', 'histories')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='orders', fn=single(BASIC, 3 if not th else 4)),
        dict(name='pairs', fn=single(BASIC + MORE, 2 if not th else 3)),
        dict(name='mappings', fn=single(BASIC, 2, MAPPINGS[1:])),
        dict(name='history', fn=history(3 if not th else 5, SETS)),
        dict(name='nested', fn=nested_cb),
        dict(name='wide', fn=wide),
        dict(name='acting callbacks', fn=acting(1)),
        dict(name='two acting callbacks', fn=acting(2)),
    ]
