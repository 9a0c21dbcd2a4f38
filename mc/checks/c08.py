"""C08 Dump returns exactly the selected set fields and has no side effects."""
import decimal, enum, itertools
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['include and exclude are given as lists, tuples, sets or other collections of names'])


class Crash(Exception):
    pass


class Rec(fields.Field):
    """Records every serialization call; a script decides the outcome."""
    def value_load(self, value, context):
        return value

    def value_dump(self, value, context):
        LOG.append((self.name, self, value, context))
        kind = PLAN.get(self.name)
        if kind == 've': raise ValueError('ve ' + self.name)
        if kind == 'fe': raise FieldError('fe ' + self.name)
        if kind == 'ae': raise AssertionError('ae ' + self.name)
        if kind == 'empty': raise ValueError
        if kind == 'seq': raise FieldError(['1 ' + self.name, '2 ' + self.name])
        if kind == 'crash': raise Crash(self.name)
        if kind == 'none': return None
        return ('out', self.name, value)


LOG, PLAN = [], {}
NAMES5 = ('a', 'b', 'c', 'd', 'e')
DUMPKEY = dict(a='a', b='B', c='c', d='x y', e='k')
LOADKEY = dict(a='a', b='b', c='C', d='d', e='k')


def base_cls(names, inherit=False):
    kw = dict(a={}, b=dict(dump_key='B'), c=dict(load_key='C'), d=dict(dump_key='x y'), e=dict(data_key='k'))
    attrs = {n: Rec(required=False, none=True, **kw[n]) for n in names}
    if inherit:
        half = len(names) // 2
        P = mk('P', {n: attrs[n] for n in names[:half]})
        return mk('D', {n: attrs[n] for n in names[half:]}, (P,))
    return mk('D', attrs)


def selections(names):
    """(label, kwargs, selected names)."""
    out = [('all', {}, set(names))]
    for r in range(len(names) + 1):
        for sub in itertools.combinations(names, r):
            out.append(('include', dict(include=list(sub)), set(sub)))
            out.append(('exclude', dict(exclude=tuple(sub)), set(names) - set(sub)))
    some = [(), names[:1], names[1:3], names[:2] + names[:1], names, (names[0],) * 2, (names[1], names[1], names[0])]
    for sub in some:
        s = set(sub)
        for typ in (list, tuple, set, frozenset, lambda x: dict.fromkeys(x), lambda x: dict.fromkeys(x).keys()):
            out.append(('include+', dict(include=typ(tuple(sub) + ('zz', 'B', 'C', 'dump', ''))), s))
            out.append(('exclude+', dict(exclude=typ(('zz', 'x y', '_context') + tuple(sub))), set(names) - s))
    for r in (2, 3):
        for seq in itertools.product(names[:3], repeat=r):
            if len(set(seq)) < r:
                out += [('include repeated', dict(include=list(seq)), set(seq)), ('exclude repeated', dict(exclude=seq), set(names) - set(seq))]
    for odd in ([' ' + n for n in names], [n + ' ' for n in names], [n.upper() for n in names if not n.isupper()], [n + '\n' for n in names], [n.encode() for n in names], [repr(n) for n in names], list(range(len(names))), [None, 0, True], [(n,) for n in names], ['*', '.', '[a-z]*']):
        odd = [o for o in odd if o not in names]
        out += [('include odd', dict(include=odd), set()), ('exclude odd', dict(exclude=odd), set(names)), ('include odd and one', dict(include=[*odd, names[0]]), {names[0]}), ('exclude odd and one', dict(exclude=[names[0], *odd]), set(names[1:]))]
    return out


def run_dump(ch, cls, inst, names, kw, sel, values):
    """One dump; compares result, calls and instance with the reference."""
    before = snap(inst, names)
    img = {k: repr(v) for k, v in kw.items()}
    del LOG[:]
    out = attempt_base(inst.dump, **kw)
    calls = list(LOG)
    ch.op('dump', kw, dict(PLAN), out)
    ch.check({k: repr(v) for k, v in kw.items()} == img, 'the selection was modified', kw)
    after = snap(inst, names)
    what = (kw, values, dict(PLAN))
    for n in names:
        ch.check(after[n] is before[n], 'dump changed the instance', n, *what)
    want = [n for n in names if n in sel and values[n] is not UNSET]
    crash = [n for n in want if PLAN.get(n) == 'crash']
    fail = [n for n in want if PLAN.get(n) in ('ve', 'fe', 'ae', 'empty', 'seq')]
    got = [c[0] for c in calls]
    if crash:
        ch.check(isinstance(out.exc, Crash) and str(out.exc) in crash, 'an exception of user code did not propagate', *what, out)
        ch.check(len(set(got)) == len(got) and set(got) <= set(want), 'a field was serialized twice or without being selected', got, *what)
    else:
        ch.check(sorted(got) == sorted(want), 'every selected set field must be serialized exactly once', got, want, *what)
    for name, field, value, ctx in calls:
        ch.check(field is getattr(cls, name), 'serialized by another field object', name, *what)
        ch.check(value is values[name], 'serialized value is not the current value', name, value, *what)
        ch.check(isinstance(ctx, oblate.DumpContext), 'wrong context type', ctx)
        ch.check(ctx.field is field and ctx.schema is inst and ctx.value is value, 'wrong dump context', name, *what)
        ch.check(set(ctx.included_fields) == sel, 'wrong set of selected fields in the context', ctx.included_fields, sel, *what)
        ch.check(ctx.state == {}, 'context state is not fresh', ctx.state)
    ch.check(len({id(c[3].state) for c in calls}) == len(calls), 'context state is shared')
    if crash:
        pass
    elif fail:
        ch.check(isinstance(out.exc, ValidationError), 'serialization failure without ValidationError', *what, out)
        exp = []
        for n in fail:
            k = PLAN[n]
            exp += {'empty': [(LOADKEY[n], None)], 'seq': [(LOADKEY[n], '1 ' + n), (LOADKEY[n], '2 ' + n)]}.get(k, [(LOADKEY[n], f'{k} {n}')])
        got = [(e.key, str(e.message)) for e in out.exc.errors]
        ch.check(len(got) == len(exp), 'wrong number of serialization failures', got, exp, *what)
        left = list(got)
        for k, m in sorted(exp, key=lambda x: x[1] is None):
            hit = [g for g in left if g[0] == k and (m is None and g[1] or g[1] == m)]
            ch.check(hit, 'a serialization failure is missing', (k, m), got, *what)
            left.remove(hit[0])
        ch.check(out.exc.schema is inst and all(e.schema is inst for e in out.exc.errors), 'failure names another instance')
    else:
        ch.check(out.ok, 'dump failed', *what, out)
        exp = {DUMPKEY[n]: (None if PLAN.get(n) == 'none' else ('out', n, values[n])) for n in want}
        ch.check(type(out.value) is dict and out.value == exp, 'wrong dump', *what, out.value, exp)
        for k, v in out.value.items():
            if v is not None:
                ch.check(v[2] is exp[k][2], 'dumped value is not the current value', k)
    return out


def select(names):
    def scenario(ch):
        """All set/unset/None states and all selections."""
        inherit = ch.flag('inherited')
        cls = base_cls(names, inherit)
        st = [ch.choose(3, n) for n in names]
        vals = {n: (UNSET, None, [] if i % 2 else 0)[s] for i, (n, s) in enumerate(zip(names, st))}
        PLAN.clear()
        inst = cls({LOADKEY[n]: v for n, v in vals.items() if v is not UNSET})
        for label, kw, sel in selections(names):
            out = run_dump(ch, cls, inst, names, kw, sel, vals)
            ch.state(tuple(st), label, tuple(sorted(sel)))
        a, b = inst.dump(), inst.dump()
        ch.check(a is not b and a == b, 'dump does not return a new dictionary')
        a.clear(); a['zz'] = 1
        ch.check(inst.dump() == b, 'changing the result of dump changes the instance')
        for inc in ([], ['a']):
            for exc in ([], ['a']):
                out = attempt(inst.dump, include=inc, exclude=exc)
                ch.check(isinstance(out.exc, TypeError), 'include with exclude must raise TypeError', inc, exc, out)
    return scenario


def failing(names, kinds):
    def scenario(ch):
        """All serialization outcomes under several selections."""
        cls = base_cls(names)
        PLAN.clear()
        for n in names:
            k = ch.pick(kinds, n)
            if k:
                PLAN[n] = k
        unset = ch.choose(len(names) + 1, 'unset')
        vals = {n: (UNSET if i == unset else object()) for i, n in enumerate(names)}
        inst = cls({LOADKEY[n]: v for n, v in vals.items() if v is not UNSET})
        for label, kw, sel in [('all', {}, set(names)), ('inc', dict(include=[names[0], names[-1]]), {names[0], names[-1]}),
                               ('exc', dict(exclude=[names[0]]), set(names[1:])), ('no', dict(include=[]), set())]:
            run_dump(ch, cls, inst, names, kw, sel, vals)
            ch.state(tuple(sorted(PLAN.items())), unset, label)
        PLAN.clear()
        run_dump(ch, cls, inst, names, {}, set(names), vals)
    return scenario


def many(ch):
    """Wide schemas, some fields of which are set or failing."""
    n = ch.pick([12, 40, 150], 'n')
    pos = ch.pick([0, 1, 7, 11], 'position')
    mode = ch.pick(['ok', 'all fail', 'one fails', 'one unset', 'include one', 'exclude one'], 'mode')
    names = [f'f{i}' for i in range(n)]
    cls = mk('W', {x: Rec(required=False) for x in names})
    inst = cls({x: i for i, x in enumerate(names) if not (mode == 'one unset' and i == pos)})
    PLAN.clear()
    kw = {}
    if mode == 'all fail': PLAN.update({x: 've' for x in names})
    if mode == 'one fails': PLAN[names[pos]] = 've'
    if mode == 'include one': kw = dict(include=[names[pos]])
    if mode == 'exclude one': kw = dict(exclude=[names[pos]])
    del LOG[:]
    out = attempt(inst.dump, **kw)
    ch.op('dump', n, pos, mode)
    want = {x: ('out', x, i) for i, x in enumerate(names)
            if not (mode in ('one unset', 'exclude one') and i == pos) and not (mode == 'include one' and i != pos)}
    if mode.endswith('fail') or mode.endswith('fails'):
        exp = names if mode == 'all fail' else [names[pos]]
        ch.check(isinstance(out.exc, ValidationError) and sorted(e.key for e in out.exc.errors) == sorted(exp), 'wrong failures', mode, out)
    else:
        ch.check(out.ok and out.value == want, 'wrong dump', mode, out)
    ch.check(len(LOG) == len(want) and len({l[0] for l in LOG}) == len(want), 'wrong number of serializations', len(LOG), len(want))
    PLAN.clear()
    ch.state(n, pos, mode)


class Leaf(Schema):
    x = fields.Integer()
    y = fields.List(int, required=False)


def provided(ch):
    """Provided fields dump the very value they hold."""
    kind = ch.pick(leaf_kinds(), 'kind')
    v = ch.pick(kind.good + [None], 'value')
    cls = mk('Pr', f=kind.make(none=True, data_key='F'), g=fields.Object(Leaf, none=True, required=False), h=fields.Any(default=[1]))
    inst = cls({'F': v})
    held = inst.f
    img = freeze_input(held)
    d = inst.dump()
    ch.op('dump', kind, v, d)
    ch.check(set(d) == {'F', 'h'}, 'wrong keys', d)
    ch.check(eqv(d['F'], held) and freeze_input(inst.f) == img and inst.f is held, 'wrong dumped value', kind, v, d)
    ch.check(eqv(inst.dump(include=['f']), {'F': held}), 'include is by name', kind)
    ch.check(eqv(inst.dump(include=['F']), {}), 'include is not by key', kind)
    ch.check(eqv(inst.dump(exclude=['f', 'F']), {'h': [1]}), 'exclude is by name', kind)
    leaf = Leaf({'x': 5, 'y': [1]})
    for o, e in ((None, None), (leaf, {'x': 5, 'y': [1]}), ({'x': 2}, {'x': 2})):
        inst.g = o
        held = inst.g
        d = inst.dump()
        ch.check(eqv(d.get('g', UNSET), e), 'wrong nested dump', o, d)
        ch.check(inst.g is held, 'nested instance changed')
        ch.check(eqv(inst.dump(include=('g',)), {'g': e}), 'wrong nested dump with include', d)
    ch.state(kind.name, repr(v))


class _One(enum.IntEnum):
    ONE = 1
class _S(str): pass
class _I(int): pass
class _E(str, enum.Enum):
    A = 'a'
ALIKE = [1, True, 1.0, _I(1), _One.ONE, decimal.Decimal(1), 'a', _S('a'), _E.A, 0, False, 0.0, -0.0, _I(0), (), [], (1, 2), [1, 2], b'a', '', _S('')]


def alike(ch):
    """Values that equal each other: the one that was stored is dumped."""
    kind = ch.pick(['Any', 'Literal', 'Literal reversed', 'TypeExpr', 'Union', 'bare'], 'field')
    vals = [v for v in ALIKE if not isinstance(v, list)] if 'Literal' in kind else ALIKE
    f = {'Any': lambda: fields.Any(), 'Literal': lambda: fields.Literal(*vals), 'Literal reversed': lambda: fields.Literal(*vals[::-1]), 'TypeExpr': lambda: fields.TypeExpr(t.Any),
         'Union': lambda: fields.Union(object, int), 'bare': lambda: Rec()}[kind]()
    PLAN.clear()
    cls = mk('Al', f=f)
    v = ch.pick(vals, 'value')
    for w in vals:
        x, y = cls({'f': w}), cls({'f': v})
        x.dump()
        for how in ('given', 'updated', 'assigned'):
            if how == 'updated': y.update({'f': w}); y.update({'f': v})
            if how == 'assigned': y.f = w; y.f = v
            held = y.f
            d = y.dump()['f']
            ch.nops += 1
            if kind == 'bare': ch.check(eqv(held, y.f), 'the value changed'); continue
            ch.check(held is v and d is v, 'another value than the stored one is dumped', kind, v, w, how, type(v), held, type(d), d)
    ch.state(kind, repr(v), type(v).__name__)


RETURN = {
    'itself': lambda v: v, 'copy': lambda v: v.copy() if hasattr(v, 'copy') else v, 'None': lambda v: None, 'False': lambda v: False, 'zero': lambda v: 0,
    'empty': lambda v: '', 'list': lambda v: [v], 'dict': lambda v: {'v': v}, 'instance': lambda v: Leaf({'x': 1}), 'class': lambda v: int, 'self': lambda v: LAST[0],
    'ellipsis': lambda v: ..., 'not implemented': lambda v: NotImplemented, 'exception': lambda v: ValueError('returned'), 'error': lambda v: FieldError('returned'),
    'generator': lambda v: (x for x in ()),
}
LAST = [None]
HELD = [[], {}, set(), 0, '', None, False, [1], {'a': []}, (), object(), float('nan'), frozenset(), b'', int, ..., NotImplemented, Leaf({'x': 3})]


class Ret(fields.Field):
    def __init__(self, how, **kw):
        self.how = how
        super().__init__(**kw)

    def value_load(self, value, context):
        return value

    def value_dump(self, value, context):
        LAST[0] = context
        r = RETURN[self.how](value)
        LOG.append((self.name, value, r))
        return r


def results(ch):
    """Whatever a field serializes its value to is dumped as it is; one serialization whatever the value or the result."""
    how = ch.pick(list(RETURN), 'returned')
    other = ch.pick(list(RETURN), 'other field')
    cls = mk('R', f=Ret(how, none=True, dump_key='F'), g=Ret(other, none=True, required=False), h=Ret(how, none=True, default=[]))
    for v in HELD:
        for w in (UNSET, v, 5):
            inst = cls({'f': v} if w is UNSET else {'f': v, 'g': w})
            for kw, sel in (({}, 'fgh'), (dict(include=['f', 'g']), 'fg'), (dict(exclude=['f']), 'gh')):
                del LOG[:]
                out = attempt(inst.dump, **kw)
                ch.op('dump', how, other, v, w, kw, out)
                want = [n for n in sel if n != 'g' or w is not UNSET]
                ch.check(out.ok, 'dump failed', how, other, v, w, out)
                ch.check(sorted(l[0] for l in LOG) == sorted(want), 'number of serializations', how, v, w, kw, LOG)
                got = {l[0]: l for l in LOG}
                ch.check(set(out.value) == {'F' if n == 'f' else n for n in want}, 'keys', how, v, w, kw, out)
                for n in want:
                    ch.check(got[n][1] is inst.get_value_for(n), 'another value was serialized', how, n, v)
                    ch.check(out.value['F' if n == 'f' else n] is got[n][2], 'dumped something else than what the field returned', how, n, v, out)
    ch.state(how, other)


def history(depth):
    """Dump reflects the current values after any operations, and never influences later dumps."""
    def scenario(ch):
        PLAN.clear()
        names = ('a', 'b', 'c')
        cls = base_cls(names)
        inst, other = cls({'a': 1}), cls({'b': 0})
        model = dict(a=1, b=UNSET, c=UNSET)
        ops = [('set', n, v) for n in names for v in (0, None)] + [('bad', 'zz', 1)] + \
              [('dump', kw, s) for kw, s in (({}, set(names)), (dict(include=['a', 'c']), {'a', 'c'}), (dict(exclude=['a']), {'b', 'c'}))] + \
              [('fail', 'a', 've'), ('fail', 'b', 'crash')]
        for i in range(depth):
            op = ch.pick(ops, f'op{i}')
            if op[0] == 'set':
                setattr(inst, op[1], op[2]); model[op[1]] = op[2]
                ch.op(*op)
            elif op[0] == 'bad':
                ch.check(isinstance(attempt(inst.update, {'a': 9, 'zz': 1}).exc, ValidationError), 'unknown key accepted')
            elif op[0] == 'dump':
                run_dump(ch, cls, inst, names, op[1], op[2], model)
            else:
                PLAN[op[1]] = op[2]
                run_dump(ch, cls, inst, names, {}, set(names), model)
                PLAN.clear()
            run_dump(ch, cls, other, names, {}, set(names), dict(a=UNSET, b=0, c=UNSET))
            run_dump(ch, cls, inst, names, {}, set(names), model)
            ch.state(tuple(map(repr, model.values())))
    return scenario


@also_nested('dump')
@also('dump')
def scenarios(tier):
    th = tier == 'thorough'
    kinds = [None, 'none', 've', 'fe', 'seq', 'crash', 'ae', 'empty']
    return [
        dict(name='select', fn=select(NAMES5)),
        dict(name='failing', fn=failing(NAMES5[:4] if th else NAMES5[:3], kinds)),
        dict(name='many', fn=many),
        dict(name='provided', fn=provided),
        dict(name='results', fn=results),
        dict(name='alike', fn=alike),
        dict(name='history', fn=history(5 if th else 4)),
    ]
