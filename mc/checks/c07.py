"""C07 Frozen schemas and fields never change after construction."""
import re
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['the instance is only used through its public interface'])


def rejectodd(schema, value, ctx):
    if value % 2:
        raise ValueError('odd')


def basefields():
    return dict(
        a=fields.Integer(frozen=True, validators=[rejectodd]),
        b=fields.Integer(validators=[rejectodd], none=True),
        c=fields.Integer(frozen=True, required=False, none=True, load_key='C'),
        d=fields.Integer(frozen=True, default=0),
    )


FZ = {'a', 'c', 'd'}


def decl_direct():
    return mk('Direct', basefields()), FZ, False


def decl_inherited():
    P = mk('P', basefields())
    Q = mk('Q', {}, (P,))
    return mk('R', dict(extra=fields.Any(required=False)), (Q,)), FZ, False


def decl_copied():
    P = mk('P', basefields())
    return mk('Copied', dict(a=P.a.copy(), b=P.b.copy(), c=P.c.copy(), d=P.d.copy())), FZ, False


def decl_override():
    P = mk('P', basefields())
    return mk('O', dict(a=fields.Integer(validators=[rejectodd]), b=fields.Integer(frozen=True, none=True, validators=[rejectodd])), (P,)), {'b', 'c', 'd'}, False


def decl_validated():
    """A validator declared in the subclass for parent's frozen fields."""
    P = mk('P', basefields())

    @validate.field('a')
    def va(self, value, ctx):
        pass

    @validate.field('c', raw=True)
    def vc(self, value, ctx):
        pass
    return mk('V', dict(va=va, vc=vc), (P,)), FZ, False


def decl_config():
    return mk('Fro', dict(basefields(), Config=cfg(frozen=True))), FZ, True


def decl_config_falsy():
    return mk('FroFalse', dict(basefields(), Config=cfg(frozen=True), __bool__=lambda self: False)), FZ, True


def decl_falsy_fields():
    return mk('FalsyF', dict(basefields(), __len__=lambda self: 0)), FZ, False


def decl_config_inherited():
    P = mk('P', dict(basefields(), Config=cfg(frozen=True)))
    Q = mk('Q', {}, (P,))
    return mk('R', {}, (Q,)), FZ, True


def decl_config_subclass():
    C = cfg(frozen=True)
    return mk('R', dict(basefields(), Config=type('Config', (C,), dict(add_repr=False)))), FZ, True


def decl_config_off():
    P = mk('P', dict(basefields(), Config=cfg(frozen=True)))
    return mk('Off', dict(Config=cfg(frozen=False)), (P,)), FZ, False


def decl_config_only():
    return mk('Plain', dict(a=fields.Integer(validators=[rejectodd]), b=fields.Integer(none=True, validators=[rejectodd]),
                            c=fields.Integer(required=False, none=True, load_key='C'), d=fields.Integer(default=0),
                            Config=cfg(frozen=True, slotted=False))), set(), True


def decl_config_added():
    P = mk('P', basefields())
    return mk('Added', dict(Config=cfg(frozen=True, ignore_extra=True)), (P,)), FZ, True


def decl_copied_frozen():
    """Fields copied from a schema frozen by its configuration keep their own frozen mark only."""
    P = mk('P', dict(basefields(), Config=cfg(frozen=True)))
    return mk('CopiedF', dict(a=P.a.copy(), b=P.b.copy(), c=P.c.copy(), d=P.d.copy())), FZ, False


def decl_copied_twice():
    P = mk('P', basefields())
    Q = mk('Q', dict(a=P.a.copy(), c=P.c.copy(), Config=cfg(frozen=True)), (P,))
    R = mk('R', dict(a=Q.a.copy(), d=Q.d.copy()), (Q,))
    return mk('S', dict(R0=fields.Any(required=False), a=R.a.copy(), b=R.b.copy(), c=R.c.copy(), d=R.d.copy())), FZ, False


def decl_copied_unbound():
    f = basefields()
    return mk('U', {n: x.copy() for n, x in f.items()}), FZ, False


def decl_copied_into_frozen():
    P = mk('P', basefields())
    return mk('CF', dict(a=P.a.copy(), b=P.b.copy(), c=P.c.copy(), d=P.d.copy(), Config=cfg(frozen=True))), FZ, True


def decl_mixin():
    """Frozen fields from two parents, in a class whose configuration comes from neither."""
    f = basefields()
    P = mk('P', dict(a=f['a'], b=f['b']))
    Q = mk('Q', dict(c=f['c'], d=f['d'], Config=cfg(frozen=True)))
    return mk('Mix', dict(Config=cfg(ignore_extra=False)), (P, Q)), FZ, False


def decl_generic_field():
    class MyInt(fields.Integer):
        __slots__ = ()
        def __init__(self, **kw):
            super().__init__(frozen=True, **kw)
    f = basefields()
    f['a'] = MyInt(validators=[rejectodd])
    f['d'] = MyInt(default=0)
    return mk('My', f), FZ, False


DECLS = [decl_copied_frozen, decl_copied_twice, decl_copied_unbound, decl_copied_into_frozen, decl_mixin, decl_generic_field, decl_direct, decl_inherited, decl_copied, decl_override, decl_validated, decl_config, decl_config_falsy, decl_falsy_fields, decl_config_inherited,
         decl_config_subclass, decl_config_off, decl_config_only, decl_config_added]

NAMES = ('a', 'b', 'c', 'd')
KEY = dict(a='a', b='b', C='c', d='d')
INIT = [{'a': 0, 'b': 2}, {'a': 4, 'b': None, 'C': None, 'd': 6}, {'a': 0, 'b': 0, 'C': 3}]

ASSIGN = [(n, v) for n in NAMES for v in (2, 'x', None, 'same')]
UPDATE = [
    {'a': 2}, {'b': 4}, {'C': 5}, {'d': 8}, {'b': 6, 'a': 2}, {'a': 2, 'b': 6}, {'b': 'x', 'd': 2}, {'d': 'x', 'b': 8},
    {'zz': 1, 'a': 2}, {'C': None}, {'b': 10, 'd': None, 'C': 1}, {'b': 'x'}, {'b': 3}, {'a': 'same'}, {'b': None}, {'zz': 0},
]


def valid(n, v):
    if n == 'b':
        return v is None or (isinstance(v, int) and v % 2 == 0)
    if n == 'a':
        return isinstance(v, int) and v % 2 == 0
    if n == 'c':
        return v is None or isinstance(v, int)
    return isinstance(v, int)


def frozen_error(ch, out, cls, inst, wf, sch_frozen, what):
    ch.check(isinstance(out.exc, FrozenError), 'no FrozenError', what, out)
    ent = out.exc.entity
    ok = (sch_frozen and ent is inst) or any(ent is getattr(cls, n) for n in wf)
    if sch_frozen and not wf:
        ok = ent is inst
    ch.check(ok, 'FrozenError names something else', what, ent)
    text = str(out.exc)
    ch.check(type(inst).__name__ in text if isinstance(ent, Schema) else ent.name in text and ent.schema.__name__ in text, 'the text does not identify what is frozen', what, text)


def do_op(ch, cls, fz, sf, inst, model, op):
    kind, arg = op
    if kind == 'assign':
        n, v = arg
        if v == 'same':
            v = model[n] if model[n] is not UNSET else 2
        out = attempt(setattr, inst, n, v)
        ch.op('assign', n, v, out)
        if sf or n in fz:
            frozen_error(ch, out, cls, inst, {n} & fz, sf, (n, v))
        elif valid(n, v):
            ch.check(out.ok, 'a field that is not frozen cannot be assigned', n, v, out)
            model[n] = v
        else:
            ch.check(isinstance(out.exc, ValidationError), 'wrong exception for an invalid assignment', n, v, out)
    else:
        data = {k: (model['a'] if v == 'same' else v) for k, v in arg.items()}
        kw = {}
        if kind == 'update+':
            kw = dict(ignore_extra=True)
        out = attempt(inst.update, data, **kw)
        ch.op(kind, data, out)
        touched = {KEY[k] for k in data if k in KEY}
        ignore = bool(kw) or cls.__config__.ignore_extra
        if sf or touched & fz:
            frozen_error(ch, out, cls, inst, touched & fz, sf, data)
        elif all(valid(KEY[k], v) for k, v in data.items() if k in KEY) and (ignore or all(k in KEY for k in data)):
            ch.check(out.ok, 'a valid update of fields that are not frozen failed', data, out)
            for k, v in data.items():
                if k in KEY:
                    model[KEY[k]] = v
        else:
            ch.check(isinstance(out.exc, ValidationError), 'wrong exception for an invalid update', data, out)


def verify(ch, insts, what):
    for i, (inst, model) in enumerate(insts):
        now = snap(inst, NAMES)
        for n in NAMES:
            ch.check(now[n] is model[n] or eqv(now[n], model[n]), f'field {n} of instance {i} changed unexpectedly', what, now, model)
        d = inst.dump()
        ch.check(d == {n: v for n, v in model.items() if v is not UNSET}, 'dump differs', what, d, model)


OPS = [('assign', x) for x in ASSIGN] + [('update', x) for x in UPDATE] + [('update+', UPDATE[8]), ('update+', UPDATE[15])]
CORE = [('assign', ('a', 2)), ('assign', ('b', 2)), ('assign', ('c', 2)), ('assign', ('a', 'x')), ('assign', ('b', 'x')),
        ('update', {'b': 6, 'a': 2}), ('update', {'b': 8, 'C': 1}), ('update', {'C': None}), ('update', {'b': 4}), ('update', {'b': 'x', 'd': 4})]


def history(depth, ops):
    def scenario(ch):
        decl = ch.pick(DECLS, 'declaration')
        init = ch.pick(INIT, 'initial')
        cls, fz, sf = decl()
        inst = cls(dict(init))
        model = {n: UNSET for n in NAMES}
        model['d'] = 0
        model.update({KEY[k]: v for k, v in init.items()})
        insts = [(inst, model)]
        for i in range(depth):
            n = len(insts)
            c = ch.choose(n * len(ops) + (1 if n < 2 else 0), f'op{i}')
            if c == n * len(ops):
                src, m = insts[0]
                cp = src.copy()
                ch.op('copy')
                insts.append((cp, dict(m)))
            else:
                inst, m = insts[c // len(ops)]
                do_op(ch, cls, fz, sf, inst, m, ops[c % len(ops)])
            verify(ch, insts, decl.__name__)
            ch.state(decl.__name__, tuple(tuple(map(repr, m.values())) for _, m in insts))
    return scenario


class Eq:
    """Equal to everything."""
    def __eq__(self, o): return True
    def __hash__(self): return 0
    def __repr__(self): return 'Eq'


GIVE = [None, 2, 'x', 'same', 0, False, '', [], UNSET, Eq(), float('nan'), ..., int, 10**30]


def attempts(ch):
    """Every way to give any value for a frozen field: FrozenError whatever surrounds it."""
    decl = ch.pick(DECLS, 'declaration')
    init = ch.pick(INIT, 'initial')
    cls, fz, sf = decl()
    name = ch.pick(sorted(fz) if fz else ['a'], 'field')
    key = 'C' if name == 'c' else name
    after = ch.pick(['constructed', 'copied', 'failed before', 'updated before', 'dumped'], 'history')
    inst = cls(dict(init))
    model = {n: UNSET for n in NAMES}
    model['d'] = 0
    model.update({KEY[k]: v for k, v in init.items()})
    if after == 'copied': inst = inst.copy()
    elif after == 'failed before': attempt(inst.update, {'b': 'x'}), attempt(setattr, inst, 'a', 5), attempt(inst.update, {'zz': 1, 'd': 1})
    elif after == 'updated before' and attempt(inst.update, {'b': 8}).ok: model['b'] = 8
    elif after == 'dumped': inst.dump()
    around = [('alone', {}, {}), ('after unknown', {'zz': 1}, {}), ('before unknown', {}, {'zz': 1}), ('after valid', {'b': 6}, {}), ('before valid', {}, {'b': 6}), ('after invalid', {'b': 'x'}, {}), ('before invalid', {}, {'b': 'x'})]
    for raw in GIVE:
        v = (model[name] if model[name] is not UNSET else 2) if isinstance(raw, str) and raw == 'same' else raw
        out = attempt(setattr, inst, name, v)
        ch.op('assign', name, v, out)
        frozen_error(ch, out, cls, inst, {name} & fz, sf, (name, v))
        for label, pre, post in around:
            if name == 'b' and 'b' in {**pre, **post}: continue
            for kw in ({}, dict(ignore_extra=True), dict(ignore_extra=False)):
                for mname, make in MAPPINGS[:1] if kw else MAPPINGS[:4]:
                    data = {**pre, key: v, **post}
                    out = attempt(inst.update, make(data), **kw)
                    ch.op('update', data, kw, out)
                    frozen_error(ch, out, cls, inst, {KEY[k] for k in data if k in KEY} & fz, sf, (label, data, kw, mname))
        verify(ch, [(inst, model)], (decl.__name__, raw))
    ch.state(decl.__name__, repr(init), name, after)


def nested(ch):
    """A frozen field holding an instance; a frozen nested schema; frozen fields of the nested one."""
    In = mk('In', dict(n=fields.Integer(), k=fields.Integer(frozen=True, required=False), **({'Config': cfg(frozen=True)} if ch.flag('nested frozen') else {})))
    froz = In.__config__.frozen
    Out = mk('Out', o=fields.Object(In, frozen=True), p=fields.Object(In, required=False))
    x = In({'n': 5})
    out = Out({'o': x, 'p': {'n': 1, 'k': 2}})
    held = out.o
    for tgt in ('o', 'p'):
        v = ch.pick([{'n': 9}, x, None, 5], tgt)
        how = ch.flag('update')
        r = attempt(out.update, {tgt: v}) if how else attempt(setattr, out, tgt, v)
        ch.op('set', tgt, v, r)
        if tgt == 'o':
            frozen_error(ch, r, Out, out, {'o'}, False, tgt)
            ch.check(out.o is held, 'frozen field changed')
        else:
            good = v is x or isinstance(v, dict)
            ch.check(r.ok == good, 'wrong outcome on a field that is not frozen', v, r)
    for name, v in (('n', 8), ('k', 3)):
        r = attempt(setattr, held, name, v)
        ch.op('nested set', name, r)
        if froz or name == 'k':
            frozen_error(ch, r, In, held, {'k'} & {name}, froz, name)
        else:
            ch.check(r.ok and held.n == 8, 'nested field cannot be assigned', r)
    ch.check(held.n == (5 if froz else 8) and held.get_value_for('k', UNSET) is UNSET, 'nested frozen field changed')
    ch.state(froz, repr(out.dump()))


KEYINGS = [('plain', {}), ('swap', {'p': 'q', 'q': 'p'}), ('rotate', {'p': 'q', 'q': 'r', 'r': 'p'}), ('one', {'p': 'q', 'q': 'z'}), ('other', {'q': 'r', 'r': 's'}), ('case', {'p': 'P', 'q': 'Q'})]


def crossed_keys(ch):
    """Fields loaded from keys that are the names of other fields: freezing follows the field."""
    kname, keying = ch.pick(KEYINGS, 'keys')
    names = ['p', 'q', 'r']
    frozen = [n for n in names if ch.flag(f'{n} frozen')]
    how = ch.pick(['direct', 'inherited', 'copied'], 'declared')
    kw = lambda n: dict(frozen=n in frozen, none=True, **({'load_key': keying[n]} if n in keying else {}), **({'dump_key': n}))
    attrs = {n: fields.Any(**kw(n)) for n in names}
    if how == 'direct': cls = mk('X', attrs)
    elif how == 'inherited': cls = mk('Y', dict(extra=fields.Any(required=False)), (mk('X', attrs),))
    else:
        P = mk('X', attrs)
        cls = mk('Y', {n: getattr(P, n).copy() for n in names})
    key = {n: keying.get(n, n) for n in names}
    if len(set(key.values())) < 3: raise Skip
    start = {n: 'v' + n for n in names}
    inst = cls({key[n]: start[n] for n in names})
    model = dict(start)
    ch.op('construct', kname, frozen)
    for round_ in range(2):
        for n in names:
            for via in ('assign', 'update'):
                v = (via, n, round_)
                o = attempt(setattr, inst, n, v) if via == 'assign' else attempt(inst.update, {key[n]: v})
                ch.op(via, n, o)
                if n in frozen: ch.check(isinstance(o.exc, FrozenError) and o.exc.entity is getattr(cls, n) and re.search(r'\b%s\b' % n, str(o.exc)), 'no FrozenError of the field', kname, frozen, via, n, o)
                else:
                    ch.check(o.ok, 'a field that is not frozen is refused', kname, frozen, via, n, o)
                    model[n] = v
                ch.check(snap(inst, names) == model, 'the values', kname, frozen, via, n, snap(inst, names), model)
        both = {key[n]: 'all' for n in names}
        o = attempt(inst.update, both)
        if frozen: ch.check(isinstance(o.exc, FrozenError) and o.exc.entity in [getattr(cls, n) for n in frozen], 'no FrozenError', o)
        else:
            ch.check(o.ok, 'refused', o)
            model = {n: 'all' for n in names}
        ch.check(snap(inst, names) == model, 'the values', kname, frozen, snap(inst, names), model)
        free = {key[n]: ('free', round_) for n in names if n not in frozen}
        o = attempt(inst.update, free)
        ch.check(o.ok, 'fields that are not frozen are refused', kname, frozen, o)
        model.update({n: ('free', round_) for n in names if n not in frozen})
        ch.check(snap(inst, names) == model and inst.dump() == model, 'the values', kname, frozen, snap(inst, names), model)
        inst = inst.copy()
    ch.state(kname, tuple(frozen), how)


class Boom(Exception):
    pass


def during(ch):
    """Frozen attempts from inside validators and hooks of the same instance once it is constructed."""
    sf = ch.flag('schema frozen')
    when = ch.pick(['validator', 'dump', 'post'], 'when')
    target = ch.pick(['a', 'b'], 'target')
    seen = []

    class F(fields.Field):
        def value_load(self, value, context):
            return value
        def value_dump(self, value, context):
            if when == 'dump':
                seen.append(attempt(setattr, context.schema, target, 77))
            return value

    @validate.field('b')
    def v(self, value, ctx):
        if when == 'validator' and ctx.is_update():
            seen.append(attempt(setattr, self, 'a', 77))

    def post(self):
        if when == 'post':
            seen.append(attempt(setattr, self, 'a', 77))
            seen.append(attempt(self.update, {'a': 78}))
    cls = mk('D', dict(a=F(frozen=True), b=F(), v=v, **({'Config': cfg(frozen=True)} if sf else {})), __schema_post_init__=post)
    inst = cls({'a': 1, 'b': 2})
    ch.op('construct')
    if when == 'validator':
        attempt(setattr, inst, 'b', 3)
    elif when == 'dump':
        inst.dump()
    ch.check(inst.a == 1, 'frozen field changed from a callback', when, inst.a)
    if sf:
        ch.check(inst.b == 2, 'field of a frozen schema changed from a callback', when, inst.b)
    for o in seen:
        if sf or target == 'a' or when != 'dump':
            ch.check(isinstance(o.exc, FrozenError), 'no FrozenError from a callback', when, o)
    ch.state(sf, when, target)


@also_nested('frozen', 'changes')
@also('frozen', 'histories')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='all', fn=history(2, OPS)),
        dict(name='core', fn=history(5 if th else 3, CORE)),
        dict(name='attempts', fn=attempts),
        dict(name='nested', fn=nested),
        dict(name='crossed keys', fn=crossed_keys),
        dict(name='during', fn=during),
    ]
