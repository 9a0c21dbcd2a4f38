"""C12 Concurrent operations on distinct instances do not interfere."""
import contextvars, itertools, os, re as _re, warnings
from mc.lib import *
from mc.core import Skip
from mc.sched import Scheduler

INFO = dict(assumptions=['preemption at source-line (and in the thorough tier bytecode) granularity of the library and of callbacks; interpreter built-ins are atomic'])

PKG = os.path.dirname(os.path.abspath(oblate.__file__)) + os.sep


class Rec(fields.Field):
    """Custom field: builds errors inside callbacks, custom formatter."""
    def value_load(self, value, context):
        context.state['loaded'] = value
        if isinstance(value, list):
            err = FieldError(['first ' + value[0], 'second'], state=value)
            raise err
        return (value, context.schema.context.state)

    def value_dump(self, value, context):
        if value[0].startswith('dumpfail'):
            raise ValueError('cannot dump ' + value[0])
        context.state['n'] = 1
        return [value[0], sorted(context.included_fields)]

    def format_error(self, code, ctx):
        return FieldError(f'{code} {ctx.schema.context.state} {ctx.metadata}', state=ctx.field.name)


def same_ctx(schema, value, ctx):
    if ctx.state.get('loaded') is not ctx.value:
        raise AssertionError('foreign context')
    if value[0].startswith('vfail'):
        raise FieldError('validator rejects ' + value[0], state=ctx)


def rawcheck(schema, value, ctx):
    if isinstance(value, str) and value.startswith('rfail'):
        raise ValueError('raw rejects ' + value)


_UNIQUE = itertools.count()


class Tick:
    """An unsupported type of its own for every world: caches keyed by types are cold in every execution."""
    def __repr__(self): return 'tick'


class World:
    """Everything is fresh, also types and patterns, so that whatever is computed lazily is computed under concurrency."""
    def __init__(self):
        u = next(_UNIQUE)
        Mov = te.TypedDict('Mov', {'name': str, 'year': te.NotRequired[int]})
        Tk = type('Tick', (Tick,), {'__module__': __name__})
        Any_ = t.TypeVar('V')
        self.v, self.Mov, self.Tk = Any_, Mov, Tk
        f = Rec(validators=[same_ctx], load_key='R')
        f.add_validator(rawcheck, raw=True)
        self.In = mk('In', n=fields.Integer(strict=False, validators=[validate.Or(validate.Range(10), validate.Exclude(50))]),
                     s=fields.String(required=False, none=True, validators=[validate.Length(min=1, max=5), validate.Regex(f'[a-z]*(?#{u})', full_match=True)]))
        self.A = mk('A', r=f, k=fields.Integer(default=lambda c, fld: ('default', c.state, fld.name)), z=fields.Any(required=False, frozen=True),
                    b=fields.Boolean(strict=False, required=False))
        self.B = mk('B', dict(m=fields.TypedDict(Mov, required=False), u=fields.TypeExpr(t.Dict[str, t.List[t.Union[int, t.Tuple[str, ...], Tk]]], required=False), q=fields.List(Any_, required=False)), (self.A,))
        self.P = mk('P', i=fields.Object(self.In), j=fields.Object(self.In, required=False, none=True), r=self.A.r.copy(),
                    Config=cfg(ignore_extra=False))
        self.Z = mk('Z', bl=fields.Boolean(strict=False, required=False), bt=fields.Boolean(strict=False, true_values=['t'], false_values=['f'], required=False),
                    n=Quiet(strict=False, required=False, validators=[validate.Range.from_standard(range(0, 200, 2))]), fl=fields.Float(strict=False, required=False),
                    s=fields.String(strict=False, required=False, validators=[validate.Regex(f'x+(?#{u})', search=True), validate.Regex(f'[a-z]*(?#{u})', full_match=True),
                                                                              validate.Length(min=2, max=6), validate.Exclude('pxx', 'rxx')]),
                    o=fields.Any(required=False, none=True, validators=[validate.Or(validate.Length(exact=2), validate.Length(exact=3), custom)]),
                    l=QuietList(int, required=False), d=fields.Dict(str, t.List[int], required=False), st=fields.Set(int, required=False),
                    un=fields.Union(int, t.List[str], float, required=False), li=fields.Literal('p', 'r', b'q', required=False),
                    ex=fields.TypeExpr(t.Tuple[t.Union[int, t.Dict[str, int]], ...], required=False), td=fields.TypedDict(Mov, required=False),
                    nx=fields.Object(self.In, required=False),
                    # one validator each
                    ve=fields.Any(required=False, validators=[validate.Exclude('bad', 13)]), vr=fields.Integer(required=False, validators=[validate.Range(5, 9)]),
                    vl=fields.Any(required=False, validators=[validate.Length(min=1, max=2)]), vx=fields.String(required=False, validators=[validate.Regex('[p-z]+', full_match=True)]),
                    vo=fields.Any(required=False, validators=[validate.Or(validate.Exclude(1), validate.Exclude(1, 2))]))


class Quiet(fields.Integer):
    def format_error(self, code, ctx):
        return None


class QuietList(fields.List):
    def format_error(self, code, ctx):
        if code == self.ERR_INVALID_DATATYPE:
            return 'not a list: ' + repr(ctx.value)


def custom(schema, value, ctx):
    raise ValueError('custom %r' % (value,))


# name of a field -> (accepted, rejected) raw values that carry the tag
BUILTIN = dict(bl=lambda g: ('yes', 'maybe' + g), bt=lambda g: ('ft'[ord(g) % 2], g), n=lambda g: (str(2 * ord(g) // 4), 'n' + g), fl=lambda g: (f'{ord(g)}.5', 'f' + g), s=lambda g: (g + 'xxx', g * 9),
               o=lambda g: ([g, 1], g), l=lambda g: ([1, ord(g)], [1, g]), d=lambda g: ({g: [1]}, {g: [g]}), st=lambda g: ({ord(g)}, {g}), un=lambda g: ([g], [ord(g)]),
               li=lambda g: ('p', g * 2), ex=lambda g: ((ord(g), {g: 1}), (1, {g: g})), td=lambda g: ({'name': g}, {'name': ord(g)}), nx=lambda g: ({'n': ord(g) - 104}, {'n': 50, 'zz' + g: 0}),
               ve=lambda g: (g, 'bad'), vr=lambda g: (5 + ord(g) % 4, ord(g)), vl=lambda g: (g, g * 3), vx=lambda g: (g, g + '1'), vo=lambda g: (g, 1))


def builtin(g, how, names=None):
    """Every built-in field and validator in one go; mixed: what one thread has accepted the next has rejected."""
    up = ord(g) % 2
    out = {}
    for i, n in enumerate(names or BUILTIN):
        good, bad = BUILTIN[n](g)
        if how == 'flip' and n in ('bl',): good, bad = ('yes', 'no') if up else ('no', 'yes')
        out[n] = good if how == 'ok' or how == 'mixed' and up == i % 2 or how == 'flip' and n == 'bl' or how == 'flip' and up != i % 2 else bad
    return out


def canon_err(e, depth=0):
    m = e.message
    if isinstance(m, dict) and m and all(isinstance(v, list) for v in m.values()):
        m = tuple(sorted(((k, tuple(sorted((canon_err(x) if isinstance(x, FieldError) else repr(x) for x in v), key=repr))) for k, v in m.items()), key=repr))
    c = e.context
    st = e.state
    if isinstance(st, oblate.LoadContext):
        st = ('ctx', st is c)
    return (e.key, e.field.name if e.field is not None else None, type(e.schema).__name__, repr(getattr(e.schema.context, 'state', None)), repr(st),
            None if c is None else (type(c).__name__, repr(c.value), c.field is e.field, c.schema is e.schema, repr(sorted(c.state.items(), key=repr))),
            m if isinstance(m, tuple) else str(m))


def canon_val(x):
    if isinstance(x, Schema):
        return (type(x).__name__, repr(x.context.state), x.context.schema is x, tuple((n, canon_val(x.get_value_for(n, UNSET))) for n in sorted(all_field_names(type(x)))))
    if isinstance(x, dict):
        return ('d', tuple((repr(k), canon_val(v)) for k, v in sorted(x.items(), key=repr)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(canon_val, x)))
    return repr(x)


def canon(out, inst):
    return plain(canon_(out, inst))


def canon_(out, inst):
    if out.ok:
        r = ('ok', canon_val(out.value))
    elif isinstance(out.exc, ValidationError):
        e = out.exc
        r = ('invalid', type(e.schema).__name__, repr(e.schema.context.state), inst is None or e.schema is inst,
             all(x.schema is e.schema for x in e.errors), tuple(sorted(map(canon_err, e.errors), key=repr)), sraw(e.raw()), len(plain(str(e))))
    elif isinstance(out.exc, FrozenError):
        r = ('frozen', out.exc.entity is inst or getattr(out.exc.entity, 'name', None))
    elif isinstance(out.exc, FieldNotSet):
        r = ('unset', out.exc.field.name, out.exc.schema is inst, out.exc.name)
    else:
        r = ('escaped', type(out.exc).__name__, str(out.exc))
    return r + (canon_val(inst) if inst is not None else None,)


def plain(x):
    """Numbers that only make things unique are taken out."""
    return tuple(map(plain, x)) if isinstance(x, tuple) else {plain(k): plain(v) for k, v in x.items()} if isinstance(x, dict) else [plain(v) for v in x] if isinstance(x, list) else _re.sub(r'\(\?#\d+\)', '', x) if isinstance(x, str) else x


# operations: name -> (prepare(world, tag) -> instance or None, run(world, tag, instance))
def newA(w, g): return w.A({'R': 'ok' + g}, state='st' + g)
def newB(w, g): return w.B({'R': 'ok' + g, 'm': {'name': g}}, state='st' + g)
def newP(w, g): return w.P({'i': {'n': '1', 's': 'ab'}, 'R': 'x' + g}, state='st' + g)
def newZ(w, g): return w.Z(builtin(g, 'ok'), state='st' + g)
def newD(w, g): return w.A({'R': 'dumpfail' + g, 'k': 1, 'z': g}, state='st' + g)


OPS = {
    'construct ok': (None, lambda w, g, i: w.A({'R': 'ok' + g, 'z': g}, state='st' + g)),
    'construct bad': (None, lambda w, g, i: w.A({'R': 'vfail' + g, 'k': 'no' + g, 'zz' + g: 1}, state='st' + g)),
    'construct raw bad': (None, lambda w, g, i: w.B({'R': 'rfail' + g, 'b': 'maybe' + g}, state='st' + g)),
    'construct missing': (None, lambda w, g, i: w.B({'u': {g: [1, (2,)]}}, state='st' + g)),
    'construct types': (None, lambda w, g, i: w.B({'R': [g], 'm': {'name': 1, 'x' + g: 2}, 'u': {g: [1, (g, 'b')]}}, state='st' + g)),
    'nested ok': (None, lambda w, g, i: w.P({'i': {'n': '5', 's': 'abc'}, 'j': None, 'R': 'ok' + g}, state='st' + g)),
    'nested bad': (None, lambda w, g, i: w.P({'i': {'n': 'q' + g, 'x' + g: 1}, 'j': {'n': 50, 's': g * 9}, 'R': None}, state='st' + g)),
    'update ok': (newB, lambda w, g, i: i.update({'R': 'new' + g, 'u': {g: []}})),
    'update bad': (newB, lambda w, g, i: i.update({'k': 5, 'R': 'vfail' + g, 'm': {'nam' + g: 1}, 'zz' + g: 0})),
    'update nested': (newP, lambda w, g, i: i.update({'j': {'n': 50}, 'R': [g], 'i': {'n': 2}})),
    'update frozen': (newA, lambda w, g, i: i.update({'R': 'later' + g, 'z': 1})),
    'assign ok': (newA, lambda w, g, i: setattr(i, 'r', 'set' + g)),
    'assign bad': (newA, lambda w, g, i: setattr(i, 'r', 'vfail' + g)),
    'assign none': (newA, lambda w, g, i: setattr(i, 'r', None)),
    'dump ok': (newA, lambda w, g, i: i.dump(exclude=['z'])),
    'dump bad': (newD, lambda w, g, i: i.dump(include=['r', 'k'])),
    'dump nested': (newP, lambda w, g, i: i.dump()),
    'copy': (newB, lambda w, g, i: (i.copy(), setattr(i, 'k', 9))[0]),
    'update types': (newB, lambda w, g, i: i.update({'q': [g, 1], 'u': {g: [w.Tk(), ('a', 1)], 1: []}, 'm': {'name': g, 'year': g}})),
    'validate': (None, lambda w, g, i: oblate.validate_types({'m': w.Mov, 'q': t.Dict[w.v, t.List[w.Tk]], 'n' + g: int}, {'m': {'name': 5, 'y' + g: 1}, 'q': {g: [w.Tk(), g]}, 'e': g})),
    'builtin ok': (None, lambda w, g, i: w.Z(builtin(g, 'ok'), state='st' + g)),
    'builtin bad': (None, lambda w, g, i: w.Z(builtin(g, 'bad'), state='st' + g)),
    'builtin mixed': (None, lambda w, g, i: w.Z(builtin(g, 'mixed'), state='st' + g)),
    'builtin flip': (None, lambda w, g, i: w.Z(builtin(g, 'flip'), state='st' + g)),
    'builtin update': (newZ, lambda w, g, i: i.update(builtin(g, 'mixed'))),
    'builtin dump': (newZ, lambda w, g, i: i.dump()),
    'read': (newA, lambda w, g, i: (i.r, i.get_value_for('R'), i.get_value_for('z', g), repr(i), i.z)),
}
NAMES = list(OPS)


def body(w, name, tag, inst):
    run = OPS[name][1]
    def go():
        return attempt(run, w, tag, inst)
    return go


_ALONE = {}


def alone(name, tag):
    k = name, tag
    if k not in _ALONE:
        def go():
            w = World()
            prep = OPS[name][0]
            inst = prep(w, tag) if prep else None
            # the operation starts in a context without history, as a new thread does
            out = contextvars.Context().run(body(w, name, tag, inst))
            return canon(out, inst)
        _ALONE[k] = contextvars.Context().run(go)
    return _ALONE[k]


def scenario_of(names, events, threads=2, combos=None, files=(PKG, __file__), after=False):
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i:]] if combos is None else combos

    def scenario(ch):
        chosen = ch.pick(pairs, 'operations')
        w = World()
        tags = [chr(ord('p') + i) for i in range(len(chosen))]
        want = [alone(n, g) for n, g in zip(chosen, tags)]
        insts = [OPS[n][0](w, g) if OPS[n][0] else None for n, g in zip(chosen, tags)]
        s = Scheduler(ch, [body(w, n, g, i) for n, g, i in zip(chosen, tags, insts)], files, events)
        outs = s.run()
        ch.op('run', chosen, s.switches)
        ch.nops += s.points
        for n, g, i, o, wnt in zip(chosen, tags, insts, outs, want):
            got = canon(o, i)
            ch.check(got == wnt, f'operation {n!r} gives another result under concurrency', s.switches, got, wnt)
        if after and not s.blocked:
            # nothing is left behind: an operation that starts now gives what it gives alone
            last = ch.pick(after, 'afterwards')
            x = OPS[last][0](w, 'z') if OPS[last][0] else None
            got = canon(body(w, last, 'z', x)(), x)
            ch.check(got == alone(last, 'z'), f'operation {last!r} gives another result after concurrency', chosen, s.switches, got, alone(last, 'z'))
        if s.blocked:
            raise Skip        # not a schedule of this code; the results were compared all the same
        ch.state(chosen, tuple(s.switches))
    return scenario


FEW = ['construct bad', 'nested bad', 'update bad', 'assign bad', 'dump bad', 'construct types']
CALLS2 = [('nested bad', 'update bad'), ('nested bad', 'dump bad'), ('update bad', 'update bad')]
PARTNERS = ['nested bad', 'update bad']
HEAVY = [n for n in NAMES if n.startswith('builtin')]
LINE1 = [(a, b) for i, a in enumerate(NAMES) for b in NAMES[i:] if a == b or (a in PARTNERS or b in PARTNERS) and b not in HEAVY]
LINE1 += [('builtin ok', 'builtin bad'), ('builtin mixed', 'builtin update'), ('builtin ok', 'builtin dump')]
SAME = ['construct bad', 'assign bad', 'dump bad', 'validate']
TRIPLES = [('nested bad', 'update bad', 'dump bad'), ('construct bad', 'construct bad', 'construct bad'), ('nested ok', 'nested bad', 'assign bad')]


def _narrow(n, how):
    return None, lambda w, g, i: w.Z(builtin(g, how, [n]), state='st' + g)


NARROW = []
for _n in BUILTIN:
    OPS[f'{_n} good'], OPS[f'{_n} wrong'] = _narrow(_n, 'ok'), _narrow(_n, 'bad')
    NARROW += [(f'{_n} wrong', f'{_n} wrong'), (f'{_n} good', f'{_n} wrong')]


def scenarios(tier):
    th = tier == 'thorough'
    out = [
        dict(name='line1', fn=scenario_of(NAMES, 'line', combos=None if th else LINE1), budget=1),
        dict(name='call2', fn=scenario_of(NAMES, 'call', combos=None if th else CALLS2), budget=2),
        dict(name='three', fn=scenario_of([], 'call', 3, TRIPLES), budget=2 if th else 1),
    ]
    out += [dict(name='callbacks', fn=scenario_of([n for n in NAMES if n not in HEAVY], 'call', files=(__file__,), after=['construct bad', 'nested bad'] if th else ['nested bad']), budget=4 if th else 3),
            dict(name='same calls', fn=scenario_of([], 'call', combos=[(a, a) for a in (NAMES if th else SAME)], after=['nested bad']), budget=2)]
    out.append(dict(name='one field by lines', fn=scenario_of([], 'line', combos=NARROW), budget=1))
    out.append(dict(name='one field', fn=scenario_of([], 'line' if th else 'call', combos=NARROW), budget=2))
    if th:
        out += [dict(name='line2', fn=scenario_of(FEW, 'line'), budget=2),
                dict(name='opcode1', fn=scenario_of(NAMES, 'opcode'), budget=1)]
    for sc in out: sc['tolerant'] = True
    return out
