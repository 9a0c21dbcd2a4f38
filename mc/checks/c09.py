"""C09 Dumped data loads back to an equal instance."""
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['defaults are values the field accepts; validators accept the dumped form'])


def trip(ch, cls, inst, what):
    img = freeze_input(inst)
    d = attempt(inst.dump)
    ch.check(d.ok, 'dump failed', what, d)
    d = d.value
    o = attempt(cls, d)
    ch.op('load', what, d, o)
    ch.check(o.ok, 'dumped data is rejected', what, d, o)
    ch.check(type(o.value) is cls and eqv(o.value, inst), 'loaded instance differs from the dumped one', what, d, inst, o.value)
    d2 = o.value.dump()
    ch.check(eqv(d2, d), 'second dump differs', what, d, d2)
    ch.check(freeze_input(inst) == img, 'the round trip changed the instance', what)
    ch.state(cls.__name__, repr(what), repr(sorted(map(repr, d.items()))))
    return o.value


def pres(kind, p):
    return dict(req={}, opt=dict(required=False), dflt=dict(default=kind.good[0]),
                fn=dict(default=lambda ctx, f: kind.good[-1]))[p]


def is_default_loadable(kind):
    # a default is stored as it is; for conversions it must already be a converted value
    return eqv(kind.load(kind.good[0]), kind.good[0]) and eqv(kind.load(kind.good[-1]), kind.good[-1])


def single(ch):
    kind = ch.pick([k for k in leaf_kinds() if k.name != 'Custom'], 'kind')
    none = ch.flag('none')
    p = ch.pick(['req', 'opt', 'dflt', 'fn'], 'presence')
    key = ch.pick([None, 'K', ''], 'key')
    if p in ('dflt', 'fn') and not is_default_loadable(kind):
        p = 'opt'
    kw = pres(kind, p)
    if key is not None:
        kw['data_key'] = key
    cls = mk('S', f=kind.make(none=none, **kw), g=fields.Integer(required=False))
    k = 'f' if key is None else key
    insts = []
    for raw in VALUES + [None, ABSENT]:
        o = attempt(cls, {} if raw is ABSENT else {k: raw})
        if o.ok:
            insts.append(o.value)
            trip(ch, cls, o.value, (kind.name, none, p, key, raw))
    for raw in VALUES + [None]:
        inst = cls({k: kind.good[0]})
        if attempt(setattr, inst, 'f', raw).ok:
            trip(ch, cls, inst, (kind.name, 'assigned', raw))
        inst = cls({k: kind.good[0], 'g': 0})
        if attempt(inst.update, {k: raw, 'g': 5}).ok:
            trip(ch, cls, inst, (kind.name, 'updated', raw))


def numbers():
    out = [0, -0.0, 1e308, -1e308, 5e-324, 1e-7, 0.1, 1 / 3, 1e16, 1e22, 123456789.123456789, float('inf'), float('-inf'), 10 ** 30, -10 ** 40, True, False]
    for k in range(0, 71):
        for s in (1, -1):
            n = s * 2 ** k
            out += [n - 1, n, n + 1, float(n), float(n) + 0.5]
    for k in range(0, 25):
        out += [10 ** k, -10 ** k, float(10 ** k), 10.0 ** -k]
    return out


TEXTS = ['', ' ', 'a', ' a ', '\n', 'a\n', '\t', '\0', 'é', 'e\u0301', '\ud800', '\U0001f600', 'None', 'True', '0', '1.0', '{}', '{value}', '%s', 'x' * 5000, '"', "'", '\\', 'ß', 'İ', '\u200b', '\r\n', 'A']


def alike(a, b):
    return type(a) is type(b) and (a == b and repr(a) == repr(b))


ELEMS = [(str, ['', 'a']), (int, [0, -7]), (bool, [True, False]), (float, [0.0, 1.5]), (type(None), [None]), (t.Any, [0, 'a', None, 2.5]), (t.Optional[str], [None, 'q']),
         (t.Literal['a', 3], ['a', 3]), (t.Tuple[int, str], [(1, 'x'), (0, '')]), (t.Union[bool, str], [True, 'a']), (object, [1.5, ()]), (t.Tuple[()], [()]), (bytes, [b'', b'x'])]


def containers(ch):
    """Typed containers of every element type, with the order and the kind of each element kept."""
    kt, ks = ch.pick(ELEMS, 'elements')
    kind = ch.pick(['List', 'Set', 'Dict', 'TypeExpr', 'Union', 'TypedDict'], 'kind')
    how = ch.pick(['construct', 'assign', 'update'], 'how')
    key = ch.pick([None, 'K'], 'key')
    kw = {} if key is None else {'data_key': key}
    k = key or 'f'
    def go(f, values, what):
        cls = mk('C', f=f, g=fields.Any(required=False))
        for v in values:
            if how == 'construct':
                o = attempt(cls, {k: v})
                inst = o.value
            else:
                inst = cls({})
                o = attempt(setattr, inst, 'f', v) if how == 'assign' else attempt(inst.update, {k: v})
            ch.check(o.ok, 'valid value rejected', *what, v, o)
            back = trip(ch, cls, inst, (*what, v))
            if isinstance(v, dict):
                ch.check([(type(a), a) for a in back.f] == [(type(a), a) for a in v], 'the order or the kind of the keys is lost', *what, v, back.f)
            trip(ch, cls, back.copy(), (*what, v, 'copy'))
    many = [[], ks[:1], ks, ks[::-1]]
    if kind == 'List': go(fields.List(kt, required=False, **kw), many + [ks * 3], (kind, kt, how))
    elif kind == 'Set': go(fields.Set(kt, required=False, **kw), [set(m) for m in many], (kind, kt, how))
    elif kind == 'Dict':
        for vt, vs in ELEMS:
            vals = [dict(zip(m, vs * 4)) for m in many]
            go(fields.Dict(kt, vt, required=False, **kw), vals, (kind, kt, vt, how))
    elif kind == 'TypeExpr':
        go(fields.TypeExpr(t.Dict[kt, t.List[kt]], required=False, **kw), [{m[0]: m} if m else {} for m in many], (kind, kt, how))
        go(fields.TypeExpr(t.Tuple[kt, ...], required=False, **kw), [tuple(m) for m in many], (kind, kt, how))
        go(fields.TypeExpr(t.Mapping[str, t.Set[kt]], required=False, **kw), [{'x': set(m)} for m in many], (kind, kt, how))
    elif kind == 'TypedDict':
        D = t.TypedDict('D', {'a': kt, 'b': t.List[kt], 'c d': t.Dict[str, kt]}, total=False)
        go(fields.TypedDict(D, required=False, **kw), [{}, {'a': ks[0]}, {'c d': {'': ks[-1]}, 'b': []}, {'b': ks, 'a': ks[-1], 'c d': {}}], (kind, kt, how))
    else:
        go(fields.Union(t.List[kt], t.Set[kt], t.Dict[kt, kt], required=False, **kw), many + [set(m) for m in many] + [{x: x for x in m} for m in many], (kind, kt, how))


def extremes(ch):
    """Exact values: every power of two and ten and its neighbours, extreme floats, unusual texts; alone and inside containers."""
    kind = ch.pick(['Integer', 'Integer~', 'Float', 'Float~', 'Any', 'String', 'String~', 'List', 'Dict', 'TypeExpr', 'Union', 'Boolean~'], 'kind')
    how = ch.pick(['construct', 'assign', 'update'], 'how')
    nested = ch.flag('nested')
    f = {'Integer': lambda: fields.Integer(), 'Integer~': lambda: fields.Integer(strict=False), 'Float': lambda: fields.Float(), 'Float~': lambda: fields.Float(strict=False), 'Any': lambda: fields.Any(),
         'String': lambda: fields.String(), 'String~': lambda: fields.String(strict=False), 'List': lambda: fields.List(t.Union[int, float, str]), 'Dict': lambda: fields.Dict(t.Any, t.Any),
         'TypeExpr': lambda: fields.TypeExpr(t.Union[int, float, str]), 'Union': lambda: fields.Union(int, float, str), 'Boolean~': lambda: fields.Boolean(strict=False)}[kind]()
    inner = mk('E', f=f)
    cls = mk('O', o=fields.Object(inner)) if nested else inner
    conv = {'Integer': lambda v: v if isinstance(v, int) else UNSET, 'Float': lambda v: v if isinstance(v, float) else UNSET, 'String': lambda v: v if isinstance(v, str) else UNSET,
            'Integer~': lambda v: v if isinstance(v, int) else int(v), 'Float~': lambda v: v if isinstance(v, float) else float(v), 'String~': lambda v: v if isinstance(v, str) else str(v),
            'Boolean~': lambda v: v if isinstance(v, bool) else {'True': True, '1': True, '0': False, 'False': False}.get(str(v), UNSET)}.get(kind, lambda v: v)
    start = {'Integer': 5, 'Integer~': 5, 'Float': 5.0, 'Float~': 5.0, 'Any': 5, 'String': 'z', 'String~': 'z', 'List': [], 'Dict': {}, 'TypeExpr': 5, 'Union': 5, 'Boolean~': True}[kind]
    wrap = (lambda d: {'o': d}) if nested else (lambda d: d)
    unwrap = (lambda x: x.o) if nested else (lambda x: x)
    for v in numbers() + TEXTS:
        try:
            want = conv(v)
        except (ValueError, OverflowError, TypeError):
            want = UNSET
        if want is UNSET:
            continue
        raw = [v] if kind == 'List' else {v: v} if kind == 'Dict' else v
        if how == 'construct':
            o = attempt(cls, wrap({'f': raw}))
            inst = o.value
        else:
            inst = cls(wrap({'f': start}))
            o = attempt(setattr, unwrap(inst), 'f', raw) if how == 'assign' else attempt(unwrap(inst).update, {'f': raw})
        ch.check(o.ok, 'valid value rejected', kind, raw, o)
        stored = unwrap(inst).f
        d = attempt(inst.dump)
        ch.check(d.ok, 'dump failed', kind, raw, d)
        x = d.value['o']['f'] if nested else d.value['f']
        back = attempt(cls, d.value)
        ch.check(back.ok, 'dumped data is rejected', kind, raw, d, back)
        again = unwrap(back.value).f
        for a, b in ((stored, want if kind not in ('List', 'Dict') else raw), (x, stored), (again, stored)):
            if kind == 'List': a, b = a[0], b[0]
            if kind == 'Dict': a, b = next(iter(a.items())), next(iter(b.items()))
            ch.check(alike(a, b), 'a value changed on the way', kind, how, raw, a, b)
        ch.nops += 1
        ch.state(kind, how, nested, repr(v))


def pairs(ch):
    """Two kinds together, each value or absent."""
    kinds = [k for k in leaf_kinds() if k.name != 'Custom']
    k1, k2 = ch.pick(kinds, 'kind1'), ch.pick(kinds, 'kind2')
    # the keys are crossed: each field uses the other's name
    cls = mk('P', f=k1.make(required=False, none=True, data_key='g'), g=k2.make(required=False, none=True, data_key='f'))
    for v1 in k1.good + [None, ABSENT]:
        for v2 in k2.good + [None, ABSENT]:
            data = {}
            if v1 is not ABSENT: data['g'] = v1
            if v2 is not ABSENT: data['f'] = v2
            o = attempt(cls, data)
            ch.check(o.ok, 'valid data rejected', k1, k2, data, o)
            x = trip(ch, cls, o.value, (k1.name, k2.name, data))
            # and once more after an update of the loaded instance
            if v1 is not ABSENT:
                x.update({'g': v1})
                trip(ch, cls, x, 'after update')


class L3(Schema):
    n = fields.Integer(strict=False)
    s = fields.Set(int, required=False)
    b = fields.Boolean(strict=False, none=True, default=False, data_key='B')


class L2(Schema):
    deep = fields.Object(L3, none=True, required=False)
    x = fields.Float(strict=False, required=False)


class L1(L2):
    mid = fields.Object(L2, data_key='M', none=True)
    lst = fields.List(t.Union[int, str], required=False)
    kw = fields.Object(L2, required=False, init_kwargs={'state': 5, 'ignore_extra': True})
    lit = fields.Literal('a', 0, default='a')


D3 = [ABSENT, None, {'n': '0'}, {'n': 3.5, 's': {1}, 'B': 'no'}, {'n': True, 'B': None}, L3({'n': 0, 's': set()})]
X = [ABSENT, '1.5', 0]
M = [None] + [(d, x) for d in D3 for x in X]


def build(m):
    if m is None:
        return None
    out = {}
    if m[0] is not ABSENT: out['deep'] = m[0]
    if m[1] is not ABSENT: out['x'] = m[1]
    return out


def nested(ch):
    d = ch.pick(D3, 'deep')
    m = ch.pick(M, 'mid')
    k = ch.pick([ABSENT] + M[1::4], 'kw')
    lst = ch.pick([ABSENT, [], [0, '', 'a']], 'lst')
    lit = ch.pick([ABSENT, 0], 'lit')
    inst_mid = ch.flag('as instance')
    data = {'M': build(m)}
    if inst_mid and data['M'] is not None:
        data['M'] = L2(data['M'])
    if d is not ABSENT: data['deep'] = d
    if k is not ABSENT: data['kw'] = build(k)
    if lst is not ABSENT: data['lst'] = lst
    if lit is not ABSENT: data['lit'] = lit
    o = attempt(L1, data)
    ch.check(o.ok, 'valid data rejected', data, o)
    x = trip(ch, L1, o.value, data)
    trip(ch, L1, x.copy(), 'copy')
    # after updates at every level
    if isinstance(x.mid, L2):
        x.mid.x = '7'
        x.mid.update({'deep': {'n': '12', 'B': '1'}})
        trip(ch, L1, x, 'nested update')
        x.mid.deep.b = None
    x.lit = 0
    x.update({'deep': None, 'lst': ['q']})
    trip(ch, L1, x, 'update')


def history(depth):
    """Round trips after any operations, continuing on the loaded instance."""
    OPS = [('set', 'lit', 0), ('set', 'lit', 'zz'), ('set', 'deep', {'n': '5'}), ('set', 'deep', None), ('set', 'deep', {'n': 'x'}),
           ('upd', {'M': {'x': 1}, 'lst': [1]}), ('upd', {'M': {'x': 'q'}, 'lst': [1]}), ('upd', {'M': None}), ('upd', {'kw': {'zz': 1, 'x': 0}}),
           ('nest', 'deep', 'n', '77'), ('nest', 'mid', 'x', '0.25'), ('swap',), ('copy',), ('nupd', 'mid', {'deep': {'n': 1, 's': {9}}})]

    def scenario(ch):
        inst = L1({'M': {'deep': {'n': 1}}})
        for i in range(depth):
            op = ch.pick(OPS, f'op{i}')
            if op[0] == 'set':
                o = attempt(setattr, inst, op[1], op[2])
            elif op[0] == 'upd':
                o = attempt(inst.update, op[1])
            elif op[0] == 'nest':
                tgt = inst.get_value_for(op[1], None)
                if tgt is None:
                    raise Skip
                o = attempt(setattr, tgt, op[2], op[3])
            elif op[0] == 'nupd':
                if inst.mid is None:
                    raise Skip
                o = attempt(inst.mid.update, op[2])
            elif op[0] == 'copy':
                o = attempt(inst.copy)
                inst = o.value
            else:
                inst = trip(ch, L1, inst, 'swap')
                continue
            ch.op(*op, o)
            trip(ch, L1, inst, op)
    return scenario


from mc.core import Skip


@also_nested('roundtrip', 'construction')
@also('roundtrip')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='single', fn=single),
        dict(name='extremes', fn=extremes),
        dict(name='containers', fn=containers),
        dict(name='pairs', fn=pairs),
        dict(name='nested', fn=nested),
        dict(name='history', fn=history(5 if th else 4)),
    ]
