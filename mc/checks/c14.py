"""C14 Nested schemas behave as the nested schema used on its own, at any depth."""
import collections
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['the stand-alone behaviour of the nested schema is the reference'])


def small(schema, value, ctx):
    if value > 100:
        raise FieldError(['too big', 'really'], state=value)


class Und(fields.Field):
    """Serialization fails in the way the value says."""
    def value_load(self, value, context):
        return value
    def value_dump(self, value, context):
        if value == 've': raise ValueError('und ve')
        if value == 'seq': raise FieldError(['und 1', 'und 2'])
        if value == 'empty': raise ValueError
        return value


class L3(Schema):
    n = fields.Integer(validators=[small], load_key='N')
    s = fields.String(required=False, none=True)
    u = Und(required=False, dump_key='U', none=True)


class L3Sub(L3):
    extra = fields.Any(default=5)


class Same(Schema):
    """Same fields, another class."""
    n = fields.Integer(load_key='N')


def v2(schema, value, ctx):
    assert value.get_value_for('x', 0) != 13, 'unlucky'


class L2(Schema):
    deep = fields.Object(L3, load_key='D', none=True, validators=[lambda s, v, c: v2b(v)])
    also = fields.Object(L3, required=False)
    x = fields.Integer(required=False)
    u = Und(required=False)


def v2b(v):
    if v.n == 66:
        raise ValueError('sixty six')


KWS = [None, {'ignore_extra': True}, {'state': ['st']}, {'state': 0, 'ignore_extra': False}, {'state': None}]


def mk1(kw, none, config=None):
    k = {} if kw is None else dict(init_kwargs=kw)
    return mk('L1', mid=fields.Object(L2, none=none, validators=[v2], load_key='M', **k), other=fields.Object(L3, required=False, **k),
              y=fields.String(required=False), u=Und(required=False), **({'Config': config} if config else {}))


i3 = L3({'N': 1})
i3s = L3Sub({'N': 2, 's': ''})
same = Same({'N': 1})
D3 = [{'N': 0}, {'N': 'x'}, {}, None, i3, same, {'N': 101, 's': 5}, {'N': 66}, {'N': 5, 'zz': 0}, i3s, [], MyMapping({'N': 3, 's': None}), {'n': 1}, '']


def m_value(d, a, x, wrap):
    data = {}
    if d is not ABSENT: data['D'] = d
    if a is not ABSENT: data['also'] = a
    if x is not ABSENT: data['x'] = x
    return wrap(data)


def std(cls, data, kw):
    """What the schema says on its own."""
    return attempt(cls, data, **(kw or {}))


def value_result(cls, value, kw, none, validators):
    """Reference for one Object field: ('ok', check) or ('bad', list of messages or None for 'any non-empty')."""
    if value is None:
        return ('ok', None) if none else ('bad', [None])
    if isinstance(value, cls):
        inst = value
        same_obj = True
    elif isinstance(value, collections.abc.Mapping):
        o = std(cls, value, kw)
        if not o.ok:
            return ('bad', [o.exc.raw()])
        inst, same_obj = o.value, False
    else:
        return ('bad', [None])
    msgs = validators(inst)
    if msgs:
        return ('bad', msgs)
    return ('ok', (inst, same_obj))


def val_mid(inst):
    return ['unlucky'] if inst.get_value_for('x', 0) == 13 else []


def no_val(inst):
    return []


def cmp_raw(ch, got, want, what):
    """got: raw() of the parent; want: {key: [raw message or None]}."""
    ch.check(set(got) == set(want), 'wrong failing keys', what, got, want)
    for k, msgs in want.items():
        left = list(got[k])
        ch.check(len(left) == len(msgs), 'wrong number of errors for a key', what, k, left, msgs)
        for m in sorted(msgs, key=lambda z: z is None):
            hit = [g for g in left if (m is None and isinstance(g, str) and g) or (m is not None and sraw(g) == sraw(m))]
            ch.check(hit, 'the error of the nested schema is not reported completely', what, k, m, left)
            left.remove(hit[0])


def leaves(raw):
    if isinstance(raw, dict):
        for k, v in raw.items():
            yield str(k)
            yield from leaves(v)
    elif isinstance(raw, list):
        for v in raw:
            yield from leaves(v)
    else:
        yield raw


def check_text(ch, exc, what):
    text = str(exc)
    for leaf in leaves(exc.raw()):
        ch.check(leaf in text, 'text of the error does not show a nested failure', what, leaf, text)


def expect_parent(kw, none, m, o, y, partial):
    want, ok = {}, {}
    if m is ABSENT:
        if not partial:
            want['M'] = [None]
    else:
        r = value_result(L2, m, kw, none, val_mid)
        if r[0] == 'bad': want['M'] = r[1]
        else: ok['mid'] = r[1]
    if o is not ABSENT:
        r = value_result(L3, o, kw, False, no_val)
        if r[0] == 'bad': want['other'] = r[1]
        else: ok['other'] = r[1]
    if y is not ABSENT:
        if not isinstance(y, str): want['y'] = [None]
        else: ok['y'] = y
    return want, ok


def run_parent(ch, kw, none, m, o, y, hows, config=None):
    cls = mk1(kw, none, config)
    data = {}
    if m is not ABSENT: data['M'] = m
    if o is not ABSENT: data['other'] = o
    if y is not ABSENT: data['y'] = y
    img = freeze_input(data)
    PKW = [{}, dict(state=['parent']), dict(ignore_extra=True)]
    for how in [(h, p) for h in hows for p in (PKW if h != 'assign' else PKW[:1])]:
        base = None
        # what is given to the operation on the parent does not reach the nested schema
        how, pk = how
        if how == 'construct':
            out = attempt(cls, data, **pk)
            inst = out.value
            want, ok = expect_parent(kw, none, m, o, y, False)
        else:
            base = inst = cls({'M': {'D': None}, 'y': 'before'}, state=['parent'])
            before = snap(inst, ('mid', 'other', 'y', 'u'))
            if how == 'update':
                out = attempt(inst.update, data, **({'ignore_extra': True} if 'ignore_extra' in pk else {}))
            else:
                if len(data) != 1:
                    continue
                n, v = {'M': ('mid', m), 'other': ('other', o), 'y': ('y', y)}[next(iter(data))]
                out = attempt(setattr, inst, n, v)
            want, ok = expect_parent(kw, none, m, o, y, True)
        ch.op(how, data, kw, out)
        what = (how, data, kw, none)
        ch.check(freeze_input(data) == img, 'the input was modified', *what)
        if want:
            ch.check(isinstance(out.exc, ValidationError), 'invalid nested data was accepted', *what, out)
            cmp_raw(ch, out.exc.raw(), want, what)
            check_text(ch, out.exc, what)
            for e in out.exc.errors:
                ch.check(e.schema is out.exc.schema and type(e.schema) is cls and e.field is cls.__dict__.get(e.field.name), 'wrong attribution', *what, e)
            if base is not None:
                now = snap(base, before)
                ch.check(all(now[n] is before[n] for n in now), 'failed operation changed the parent', *what)
        else:
            ch.check(out.ok, 'valid nested data was rejected', *what, out)
            for n, r in ok.items():
                got = inst.get_value_for(n, UNSET)
                if n == 'y' or r is None:
                    ch.check(got == r, 'wrong value', *what, n, got)
                    continue
                ref, same_obj = r
                if same_obj:
                    ch.check(got is ref, 'a given instance was not kept', *what, n, got)
                else:
                    ch.check(eqv(got, ref), 'nested instance differs from the stand-alone one', *what, n, got, ref)
                    ch.check(got.context.state is (kw or {}).get('state'), 'nested state is not the configured one', *what, got.context.state)
                    ch.check(got.context.is_initialized() and got.context.schema is got, 'wrong nested context', *what)
        ch.state(how, repr(freeze_input(data)), repr(kw), none, bool(want))


def level3(ch):
    """All deep values, alone and in pairs, under all middle settings."""
    kw = ch.pick(KWS, 'kwargs')
    d = ch.pick(D3 + [ABSENT], 'deep')
    a = ch.pick([ABSENT] + D3, 'also')
    x = ch.pick([ABSENT, 13, 'x'], 'x')
    wrap = ch.pick([dict, MyMapping], 'mapping')
    o = attempt(L2, m_value(d, a, x, dict))
    m = m_value(d, a, x, wrap)
    run_parent(ch, kw, False, m, ABSENT, ABSENT, ('construct', 'update', 'assign'))
    # the middle level itself: stand-alone L3 is the reference
    want = {}
    if d is ABSENT: want['D'] = [None]
    else:
        r = value_result(L3, d, None, True, lambda i: ['sixty six'] if i.n == 66 else [])
        if r[0] == 'bad': want['D'] = r[1]
    if a is not ABSENT:
        r = value_result(L3, a, None, False, no_val)
        if r[0] == 'bad': want['also'] = r[1]
    if x == 'x': want['x'] = [None]
    if want:
        ch.check(isinstance(o.exc, ValidationError), 'invalid nested data was accepted', m, o)
        cmp_raw(ch, o.exc.raw(), want, m)
    else:
        ch.check(o.ok, 'valid nested data was rejected', m, o)


i2 = L2({'D': {'N': 1}})
i2bad = L2({'D': None, 'x': 13})
MIDS = [ABSENT, None, {}, {'D': {'N': 1}}, {'D': {'N': 'x', 's': 0}, 'x': 'q'}, {'D': None, 'x': 13}, {'D': None, 'zz': 1, 'also': {'qq': 0, 'N': 5}}, i2, i2bad, i3, 5, [], '', 0, False,
        {'D': i3s, 'also': i3}, (('D', None),)]
OTHERS = [ABSENT] + D3


def level1(ch):
    kw = ch.pick(KWS, 'kwargs')
    none = ch.flag('none')
    m = ch.pick(MIDS, 'mid')
    o = ch.pick(OTHERS, 'other')
    y = ch.pick([ABSENT, 'ok', 5], 'y')
    config = ch.pick([None, dict(ignore_extra=True), dict(slotted=False, add_repr=False)], 'configuration')
    run_parent(ch, kw, none, m, o, y, ('construct', 'update', 'assign'), config and cfg(**config))


# ---------------------------------------------------------------- dump

U = [ABSENT, 0, 've', 'seq', 'empty', None]


def dump(ch):
    """All combinations of serialization outcomes at three levels."""
    u1, u2, u3, u4 = ch.pick(U[:5], 'u1'), ch.pick(U[:5], 'u2'), ch.pick(U, 'u3'), ch.pick(U[:4], 'u4')
    shape = ch.pick(['full', 'mid None', 'deep None', 'sub'], 'shape')
    cls = mk1(None, True)

    def put(d, u, cond=True):
        if u is not ABSENT:
            d['u'] = u
        return d
    deep = None if shape == 'deep None' else L3Sub(put({'N': 1}, u3)) if shape == 'sub' else L3(put({'N': 1, 's': None}, u3))
    mid = None if shape == 'mid None' else L2(put({'D': deep, 'x': 0}, u2))
    data = put({'M': mid, 'other': put({'N': 7}, u4)}, u1)
    inst = cls(data)

    def alone(x):
        if x is None:
            return Out(None)
        return attempt(x.dump)
    want, exp = {}, {}
    m, o = alone(mid), alone(inst.other)
    if m.ok: exp['mid'] = m.value
    else: want['M'] = [m.exc.raw()]
    if o.ok: exp['other'] = o.value
    else: want['other'] = [o.exc.raw()]
    bad = {'ve': ['und ve'], 'seq': ['und 1', 'und 2'], 'empty': [None]}
    if u1 in bad: want['u'] = bad[u1]
    elif u1 is not ABSENT: exp['u'] = u1
    out = attempt(inst.dump)
    ch.op('dump', data, out)
    if want:
        ch.check(isinstance(out.exc, ValidationError), 'failing nested dump: no ValidationError', data, out)
        cmp_raw(ch, out.exc.raw(), want, data)
        ch.check(out.exc.schema is inst and all(e.schema is inst for e in out.exc.errors), 'wrong attribution of nested dump failures', data)
        check_text(ch, out.exc, data)
    else:
        ch.check(out.ok and eqv(out.value, exp), 'wrong nested dump', data, out, exp)
        ch.check(type(out.value.get('mid')) is type(exp.get('mid')), 'nested value was not dumped')
    # the middle level against its own stand-alone parts
    if mid is not None:
        d3 = alone(deep)
        o2 = alone(mid)
        w2 = {}
        if not d3.ok: w2['D'] = [d3.exc.raw()]
        if u2 in bad: w2['u'] = bad[u2]
        if w2:
            ch.check(isinstance(o2.exc, ValidationError), 'failing nested dump: no ValidationError', data, o2)
            cmp_raw(ch, o2.exc.raw(), w2, data)
        else:
            e2 = {'deep': d3.value, 'x': 0}
            if u2 is not ABSENT: e2['u'] = u2
            ch.check(o2.ok and eqv(o2.value, e2), 'wrong nested dump', data, o2, e2)
            if shape == 'sub':
                ch.check('extra' in o2.value['deep'], 'a subclass instance is not dumped as itself', o2)
    # selections by the parent do not reach nested instances
    sel = attempt(inst.dump, include=['other', 'n'])
    ch.check(sel.ok == o.ok and (not sel.ok or eqv(sel.value, {'other': o.value})), 'selection of the parent changes the nested dump', data, sel)
    ch.state(u1 is ABSENT or u1, u2 is ABSENT or u2, u3 is ABSENT or u3, u4 is ABSENT or u4, shape)


def chain(maxdepth):
    def scenario(ch):
        """Chains of any depth; failures at any subset of levels, for load and dump."""
        depth = 2 + ch.choose(maxdepth - 1, 'depth')
        bad = [ch.flag(f'bad{i}') for i in range(depth)]
        end = ch.pick(['ok', 'missing', 'none', 'scalar', 'instance'], 'end')
        cls = mk('C0', v=fields.Integer(), u=Und(required=False))
        classes = [cls]
        for i in range(1, depth):
            cls = mk(f'C{i}', c=fields.Object(cls), v=fields.Integer(), u=Und(required=False))
            classes.append(cls)
        data = {'v': 'x' if bad[0] else 0}
        want = {'v': [None]} if bad[0] else {}
        okdata = {'v': 1, 'u': 've' if bad[0] else 0}
        dwant = {'u': ['und ve']} if bad[0] else {}
        for i in range(1, depth):
            inner = data
            if i == 1:
                if end == 'missing': inner = ABSENT
                elif end == 'none': inner = None
                elif end == 'scalar': inner = 5
                elif end == 'instance': inner = classes[0]({'v': 4})
            data = {'v': 'x' if bad[i] else i}
            if inner is not ABSENT:
                data['c'] = inner
            w = {'v': [None]} if bad[i] else {}
            if i == 1 and end in ('missing', 'none', 'scalar'):
                w['c'] = [None]
            elif i == 1 and end == 'instance':
                pass
            elif want:
                w['c'] = [want]
            want = w
            okdata = {'v': i, 'u': 've' if bad[i] else 0, 'c': okdata}
            dw = {'u': ['und ve']} if bad[i] else {}
            if dwant:
                dw['c'] = [dwant]
            dwant = dw
        out = attempt(cls, data)
        ch.op('construct', depth, bad, end, out)
        if want:
            ch.check(isinstance(out.exc, ValidationError), 'invalid nested data was accepted', data, out)
            ch.check(shape(out.exc.raw()) == shape(want), 'wrong error structure', out.exc.raw(), want)
            check_text(ch, out.exc, data)
        else:
            ch.check(out.ok, 'valid nested data was rejected', data, out)
            x = out.value
            for i in range(depth - 1, -1, -1):
                ch.check(type(x) is classes[i] and x.v == (4 if i == 0 and end == 'instance' else i), 'wrong nested value', i, x)
                x = x.c if i else None
        inst = cls(okdata)
        out = attempt(inst.dump)
        ch.op('dump', out)
        if dwant:
            ch.check(isinstance(out.exc, ValidationError), 'failing nested dump: no ValidationError', out)
            ch.check(sraw(out.exc.raw()) == sraw(dwant), 'wrong error structure of dump', out.exc.raw(), dwant)
        else:
            ch.check(out.ok and out.value == okdata, 'wrong nested dump', out)
        ch.state(depth, tuple(bad), end)
    return scenario


def shape(x):
    if isinstance(x, dict):
        return ('d', tuple(sorted((k, shape(v)) for k, v in x.items())))
    if isinstance(x, list):
        return ('l', tuple(sorted(map(shape, x), key=repr)))
    return 'msg'


def history(depth):
    """Operations on the parent and on the held nested instances."""
    OPS = [('p', 'upd', {'M': {'D': {'N': 2}}}), ('p', 'upd', {'M': {'D': {'N': 'q'}}}), ('p', 'set', 'mid', {'D': None, 'x': 2}), ('p', 'set', 'mid', i2),
           ('p', 'set', 'mid', {'D': None, 'x': 13}), ('p', 'set', 'mid', None), ('m', 'set', 'x', 5), ('m', 'set', 'x', 'z'), ('m', 'upd', {'D': {'N': 3}, 'zz': 0}),
           ('m', 'upd', {'D': {'N': 8}}), ('d', 'set', 'n', 12), ('d', 'upd', {'N': 101}), ('p', 'dump'), ('m', 'dump')]

    def scenario(ch):
        cls = mk1(ch.pick(KWS[:3], 'kwargs'), True)
        p = cls({'M': {'D': {'N': 1}}})
        mine = L2({'D': {'N': 1}})
        for k in range(depth):
            op = ch.pick(OPS, f'op{k}')
            if op[-1] is i2:
                op = op[:-1] + (mine,)
            m = p.mid
            if op[0] != 'p' and m is None or op[0] == 'd' and m.deep is None:
                raise Skip
            tgt = {'p': p, 'm': m, 'd': m.deep if m is not None else None}[op[0]]
            before = image(p)
            ids = (id(p.mid), id(m.deep) if m is not None else 0)
            o = attempt(tgt.update, op[2]) if op[1] == 'upd' else attempt(tgt.dump) if op[1] == 'dump' else attempt(setattr, tgt, op[2], op[3])
            ch.op(*op, o)
            if not o.ok or op[1] == 'dump':
                ch.check(image(p) == before and p.mid is m and (m is None or id(m.deep) == ids[1]), 'a failed operation or dump changed nested instances', op, before, image(p))
            ch.check((p.mid is m) == (op[0] != 'p' or not o.ok or op[1] == 'dump' or (op[1:3] == ('set', 'mid') and op[3] is m)) or p.mid is mine, 'the held instance was replaced', op)
            d = p.dump()
            ch.check(eqv(d.get('mid', UNSET), p.mid.dump() if p.mid is not None else None), 'parent does not dump the current nested values', d)
            ch.state(repr(image(p)))
    return scenario


def image(p):
    return freeze_input({'x': 0, **{n: sub(p.get_value_for(n, UNSET)) for n in ('mid', 'other', 'y')}})


def sub(x):
    if isinstance(x, Schema):
        return {n: sub(x.get_value_for(n, UNSET)) for n in all_field_names(type(x))}
    return x


class OtherDict(dict):
    def get_extra(self):
        return 'mine'


def hooks(ch):
    """The nested schema's own hooks and configuration: what they see and how often they run is as for the schema on its own."""
    log = []
    pre = ch.pick(['keep', 'rename', 'raise', 'wrong type'], 'preprocess')
    post = ch.flag('post-init raises')
    icfg = ch.pick([None, dict(ignore_extra=True), dict(slotted=False), dict(frozen=True)], 'configuration')
    kw = ch.pick(KWS[:3], 'kwargs')
    depth = ch.pick([1, 2], 'depth')
    value = ch.pick([{'a': 1}, {'a': 'x'}, {'A': 5}, {'a': 101, 'q': 1}, {}, OtherDict(a=3), MyMapping({'a': 2}), collections.OrderedDict(a=1, q=2), types.MappingProxyType({'a': 4})], 'value')
    how = ch.pick(['construct', 'update', 'assign'], 'how')

    class Boom(Exception):
        pass

    def preprocess_data(self, data, /):
        log.append(('pre', data, self.context.state, self.context.is_initialized(), type(self)))
        if pre == 'rename' and isinstance(data, collections.abc.Mapping): return {k.lower(): v for k, v in data.items()}
        if pre == 'raise' and 'a' not in data: raise Boom
        if pre == 'wrong type': return list(data)
        return data

    def post_init(self):
        log.append(('post', self.a, self.context.state, self.context.is_initialized()))
        if post and self.a == 1: raise Boom

    @validate.field('a')
    def check_a(self, value, ctx):
        log.append(('val', value, ctx.value, ctx.is_update() if hasattr(ctx, 'is_update') else None, self.context.state))
        if value > 100: raise ValueError('too big')
    In = mk('In', a=fields.Integer(), b=fields.Any(default=lambda c, f: log.append(('default', c.state, f.name)) or 'made'), preprocess_data=preprocess_data, __schema_post_init__=post_init,
            check_a=check_a, **({'Config': cfg(**icfg)} if icfg else {}))
    alone = attempt(In, value, **(kw or {}))
    want, log[:] = list(log), []
    k = dict(init_kwargs=kw) if kw else {}
    cls = mk('P', n=fields.Object(In, none=True, **k))
    data, at = {'n': value}, lambda p: p.n
    if depth == 2:
        cls = mk('G', n=fields.Object(cls, none=True))
        data, at = {'n': data}, lambda p: p.n.n
    img = freeze_input(data)
    if how == 'construct':
        out = attempt(cls, data, state='outer')
        inst = out.value
    else:
        inst = cls({'n': None}, state='outer')
        out = attempt(inst.update, data) if how == 'update' else attempt(setattr, inst, 'n', data['n'])
    what = (pre, post, icfg, kw, depth, value, how)
    ch.op(*what, out)
    ch.check(len(log) == len(want) and all(a[0] == b[0] and len(a) == len(b) and all(x is y or eqv(x, y) for x, y in zip(a[1:], b[1:])) for a, b in zip(log, want)),
             'the hooks of the nested schema do not see what they see on its own', *what, log, want)
    ch.check(all(a[1] is value for a in log if a[0] == 'pre'), 'preprocessing of nested data does not receive the given data', *what, log)
    ch.check(freeze_input(data) == img, 'the input was modified', *what)
    if alone.ok:
        ch.check(out.ok and eqv(at(inst), alone.value) and at(inst).context.state is alone.value.context.state and at(inst).context.config is alone.value.context.config,
                 'nested instance differs from the stand-alone one', *what, out)
        ch.check(attempt(at(inst).update, {'a': 9}).ok == attempt(alone.value.update, {'a': 9}).ok, 'nested instance differs from the stand-alone one', *what)
    elif isinstance(alone.exc, ValidationError):
        raw = out.exc.raw() if isinstance(out.exc, ValidationError) else None
        w = {'n': [alone.exc.raw()]}
        if depth == 2: w = {'n': [w]}
        ch.check(raw is not None and sraw(raw) == sraw(w), 'the error of the nested schema is not reported completely', *what, out, raw, w)
    elif isinstance(alone.exc, Boom):
        ch.check(isinstance(out.exc, Boom), 'an exception of a nested hook does not propagate', *what, out)
    ch.state(*map(repr, what))


class Sneaky(Exception):
    pass


def boom(*a):
    raise Sneaky('the instance was inspected')


SPECIAL = [('falsy', dict(__bool__=lambda s: False)), ('empty', dict(__len__=lambda s: 0)), ('equal to nothing', dict(__eq__=lambda s, o: False, __hash__=None)), ('equal to all', dict(__eq__=lambda s, o: True, __hash__=lambda s: 0)),
           ('iterable', dict(__iter__=lambda s: iter(()))), ('item access', dict(__getitem__=lambda s, k: 0, keys=lambda s: ['a'])), ('callable', dict(__call__=lambda s: {})), 
           ('text', dict(__str__=lambda s: '', __repr__=lambda s: '')), ('attribute', dict(__getattr__=lambda s, n: boom() if not n.startswith('__') else object.__getattribute__(s, n)))]


def special(ch):
    """Nested schemas that define special methods: an instance is kept, dumped and replaced like any other."""
    name, attrs = ch.pick(SPECIAL, 'special methods')
    depth = ch.pick([1, 2], 'depth')
    none = ch.flag('none')
    given = ch.pick(['instance', 'data', 'subclass instance'], 'given')
    op = ch.pick(['construct', 'update', 'assign', 'over another'], 'operation')
    In = mk('In', {'a': fields.Integer(), 'b': fields.Any(required=False, none=True), **attrs})
    inner = In({'a': 1}) if given == 'instance' else mk('Sub', {}, (In,))({'a': 1}) if given != 'data' else {'a': 1}
    cls = mk('P', n=fields.Object(In, none=none, required=False), g=fields.Integer(default=0))
    value, wantdump = inner, {'a': 1}
    if depth == 2:
        M = cls
        cls = mk('G', n=fields.Object(M, none=none, required=False), g=fields.Integer(default=0))
        value = {'n': inner} if given == 'data' else M({'n': inner})
    if op == 'construct': out = attempt(cls, {'n': value}); x = out.value
    else:
        x = cls({} if op != 'over another' else {'n': {'a': 5} if depth == 1 else {'n': {'a': 5}}})
        out = attempt(setattr, x, 'n', value) if op == 'assign' else attempt(x.update, {'n': value, 'g': 2})
    what = (name, depth, none, given, op)
    ch.op(*what, out)
    ch.check(out.ok, 'a valid nested value was rejected', *what, out)
    got = x.n if depth == 1 else x.n.n
    ch.check(got is inner if given != 'data' else type(got) is In and got.a == 1, 'the nested value', *what)
    d = attempt(x.dump)
    ch.check(d.ok, 'dump', *what, d)
    dd = d.value['n'] if depth == 1 else d.value['n']['n']
    ch.check(type(dd) is dict and dd == wantdump, 'a nested instance is not dumped', *what, d)
    c = x.copy()
    ch.check(c.n is x.n, 'the copy holds another instance', *what)
    bad = attempt(x.update, {'n': {'a': 'x'} if depth == 1 else {'n': {'a': 'x'}}, 'g': 3})
    ch.check(isinstance(bad.exc, ValidationError) and set(bad.exc.raw()) == {'n'} and (x.n if depth == 1 else x.n.n) is got, 'a failed update', *what, bad)
    for e in ({'a': 1, 'z': 0}, [], 5, '', 0, object()):
        o = attempt(cls, {'n': e if depth == 1 else {'n': e}})
        ch.check(isinstance(o.exc, ValidationError), 'an invalid nested value was accepted', *what, e)
    o = attempt(setattr, x, 'n', None)
    ch.check(o.ok == none, 'None for a nested value', *what, o)
    if none: ch.check(x.n is None and x.dump()['n'] is None, 'None is kept', *what)
    ch.state(*what)


from mc.core import Skip


def other_instances(ch):
    """Only instances of the nested class (and its subclasses) are taken; instances of other schemas are no nested values."""
    same = ch.pick(['In', 'Other'], 'class name')
    how = ch.pick(['class itself', 'subclass', 'twin', 'parent', 'sibling', 'outer', 'copy of class', 'type', 'duck', 'mapping', 'mapping subclass', 'dict subclass', 'pairs', 'proxy'], 'given')
    op = ch.pick(['construct', 'assign', 'update'], 'operation')
    none, frozen = ch.flag('none'), ch.flag('frozen')
    conf = lambda: dict(Config=cfg(frozen=frozen))
    Base = mk(same, a=fields.Integer(), __eq__=lambda s, o: True, __hash__=lambda s: 1)
    In = mk('In', dict(b=fields.Any(required=False), **conf()), (Base,))
    Out = mk('Out', n=fields.Object(In, required=False, none=none), a=fields.Integer(required=False))
    twin = mk(same, a=fields.Integer(), b=fields.Any(required=False), **conf())
    data = {'a': 1}

    class Duck:
        def __init__(self): self.a, self.b, self.context, self.__class__name = 1, None, None, In
        def dump(self, **kw): return {'a': 1}
        def keys(self): return ['a']
        def __getitem__(self, k): return 1

    class M(collections.abc.Mapping):
        def __getitem__(self, k): return data[k]
        def __iter__(self): return iter(data)
        def __len__(self): return 1
    mk_ = {'class itself': lambda: In(data), 'subclass': lambda: mk('Sub', {'c': fields.Any(required=False)}, (In,))(data), 'twin': lambda: twin(data), 'parent': lambda: Base(data),
           'sibling': lambda: mk('In', {}, (Base,))(data), 'outer': lambda: Out(data), 'copy of class': lambda: types.new_class('In', (Schema,), {}, lambda ns: ns.update(a=In.a.copy(), b=In.b.copy()))(data), 'type': lambda: In,
           'duck': Duck, 'mapping': M, 'mapping subclass': lambda: type('In', (M,), {})(), 'dict subclass': lambda: type('In', (dict,), {})(data), 'pairs': lambda: [('a', 1)], 'proxy': lambda: types.MappingProxyType(data)}[how]
    v = mk_()
    good = how in ('class itself', 'subclass')
    conv = how in ('mapping', 'mapping subclass', 'dict subclass', 'proxy')
    x = Out({'n': {'a': 9}})
    old = x.n
    if op == 'construct': out = attempt(Out, {'n': v}); x = out.value
    else: out = attempt(setattr, x, 'n', v) if op == 'assign' else attempt(x.update, {'n': v})
    ch.op(same, how, op, out)
    ch.check(out.ok == (good or conv), 'an instance of another class', same, how, op, out)
    if good: ch.check(x.n is v, 'the very instance', how, op)
    elif conv: ch.check(type(x.n) is In and x.n.a == 1 and x.n is not v, 'a mapping becomes an instance', how, op)
    else:
        ch.check(isinstance(out.exc, ValidationError) and [e.key for e in out.exc.errors] == ['n'], 'how it is reported', how, op, out)
        if op != 'construct': ch.check(x.n is old, 'the value changed', how, op)
    ch.state(same, how, op, none, frozen)


def shared_names(ch):
    """Parents and nested schemas whose fields, keys and selections overlap."""
    names = ['a', 'b', 'c', 'n']
    pn = [n for n in names[:3] if ch.flag('parent ' + n)]
    nn = [n for n in names if ch.flag('nested ' + n)]
    keyed = ch.pick(['no', 'parent', 'nested'], 'keys')
    subclass = ch.flag('instance of a subclass')
    K = lambda n, who: {'load_key': n.upper(), 'dump_key': {'a': 'b', 'b': 'c', 'c': 'a', 'n': 'N'}[n]} if keyed == who else {}
    In = mk('In', {n: fields.Any(**K(n, 'nested')) for n in nn})
    Sub = mk('Sub', {n: fields.Any(required=False, default=n + 'dflt') for n in ('s', 'b', 'a') if n not in nn}, (In,))
    P = mk('P', {**{n: fields.Any(**K(n, 'parent')) for n in pn}, 'n': fields.Object(In)})
    lk = lambda n, who: n.upper() if keyed == who else n
    dk = lambda n, who: K(n, who).get('dump_key', n)
    inner = {lk(n, 'nested'): 'in ' + n for n in nn}
    given = Sub(inner) if subclass else inner
    x = P({**{lk(n, 'parent'): 'out ' + n for n in pn}, 'n': given})
    alone = {dk(n, 'nested'): 'in ' + n for n in nn}
    if subclass: alone = given.dump()
    for sel in range(16):
        s = [n for i, n in enumerate(names) if sel >> i & 1]
        for kw, chosen in (({}, pn + ['n']), (dict(include=s), [n for n in pn + ['n'] if n in s]), (dict(exclude=s), [n for n in pn + ['n'] if n not in s])):
            ch.nops += 1
            want = {dk(n, 'parent') if n != 'n' else 'n': 'out ' + n if n != 'n' else alone for n in chosen}
            out = attempt(x.dump, **kw)
            ch.check(out.ok and out.value == want, 'the dump of a nested instance depends on its parent', pn, nn, keyed, subclass, kw, out, want)
    ch.check(all(x.n.get_value_for(n) == 'in ' + n for n in nn) and all(x.get_value_for(n) == 'out ' + n for n in pn), 'values', pn, nn)
    # missing, wrong and unknown keys of either are reported where they are
    for n in nn:
        o = attempt(P, {**{lk(m, 'parent'): 0 for m in pn}, 'n': {k: v for k, v in inner.items() if k != lk(n, 'nested')}})
        ch.check(isinstance(o.exc, ValidationError) and set(o.exc.raw()) == {'n'} and set(o.exc.raw()['n'][0]) == {lk(n, 'nested')}, 'a missing nested key', n, o)
    for n in pn:
        o = attempt(P, {**{lk(m, 'parent'): 0 for m in pn if m != n}, 'n': inner})
        ch.check(isinstance(o.exc, ValidationError) and set(o.exc.raw()) == {lk(n, 'parent')}, 'a missing parent key', n, o)
    for n in names + ['A']:
        if lk(n, 'nested') not in inner and n not in inner:
            o = attempt(P, {**{lk(m, 'parent'): 0 for m in pn}, 'n': {**inner, n: 1}})
            ch.check(isinstance(o.exc, ValidationError) and set(o.exc.raw()) == {'n'} and set(o.exc.raw()['n'][0]) == {n}, 'an unknown nested key', n, o)
    ch.state(tuple(pn), tuple(nn), keyed, subclass)


@also_nested('nested')
@also('keep')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='level3', fn=level3),
        dict(name='level1', fn=level1),
        dict(name='hooks', fn=hooks),
        dict(name='special methods', fn=special),
        dict(name='shared names', fn=shared_names),
        dict(name='other instances', fn=other_instances),
        dict(name='dump', fn=dump),
        dict(name='chain', fn=chain(9 if th else 6)),
        dict(name='history', fn=history(4 if th else 3)),
    ]
