"""C02 A ValidationError reports every failure at once and nothing else."""
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *

INFO = dict(assumptions=['library failures are identified by their documented error codes through format_error'])
I = CODED[fields.Integer]
BASE = CODED[fields.Field]


class VSub(ValueError):
    pass


class ASub(AssertionError):
    pass


class FSub(FieldError):
    pass


class Both(ValueError, KeyError):
    pass


def fail_with(kind, tag):
    if kind == 'pass':
        return
    if kind == 've':
        raise ValueError(tag)
    if kind == 'ae':
        assert False, tag
    if kind == 'fe':
        raise FieldError(tag)
    if kind == 'vsub':
        raise VSub(tag)
    if kind == 'unicode':
        tag.encode('ascii'); (tag + '\u20ac').encode('ascii')
    if kind == 'assub':
        raise ASub(tag)
    if kind == 'fesub':
        raise FSub(tag)
    if kind == 'both':
        raise Both(tag)
    if kind == 'many args':
        raise ValueError(tag, 2)
    if kind == 'int arg':
        raise ValueError(len(tag))
    if kind == 'empty':
        raise ValueError
    if kind == 'aempty':
        raise AssertionError
    if kind == 'seq':
        raise FieldError([tag + '.1', tag + '.2', tag + '.1'])
    if kind == 'dict':
        raise FieldError({'k': tag})
    raise RuntimeError(kind)


def tags(kind, tag):
    special = {'pass': [], 'empty': ['<field.validation_failed>'], 'aempty': ['<field.validation_failed>'],
            'seq': [tag + '.1', tag + '.2', tag + '.1'], 'dict': [{'k': tag}]}
    return special[kind] if kind in special else [text_of(kind, tag)]


def text_of(kind, tag):
    if kind in ('unicode', 'many args', 'int arg', 'both'):
        try:
            fail_with(kind, tag)
        except ValueError as e:
            return str(e)
    return tag


class Script(BASE):
    """Raw values are (load kind, [validator kinds], [raw validator kinds])."""
    __slots__ = ()

    def value_load(self, value, context):
        fail_with(value[0], f'load.{self.name}')
        return ('L',) + value

    def value_dump(self, value, context):
        if isinstance(value, tuple) and value and value[0] == 'D' and value[1] != 'pass':
            fail_with(value[1], f'dump.{self.name}')
        return value


class MCtx:
    pass


def val(i):
    def v(schema, value, ctx):
        fail_with(value[2][i], f'v{i}.{ctx.field.name}')
    return v


def rval(i):
    def r(schema, value, ctx):
        if value is None:
            fail_with(r.on_none, f'r{i}.{ctx.field.name}')
        else:
            fail_with(value[2][i], f'r{i}.{ctx.field.name}')
    r.on_none = 'pass'
    return r


def script_field(nv, nr, rnone='pass', **kw):
    f = Script(**kw)
    for i in range(nv):
        f.add_validator((lambda i: lambda s, v, c: fail_with(v[2][i], f'v{i}.{c.field.name}'))(i))
    for i in range(nr):
        f.add_validator((lambda i: lambda s, v, c: fail_with(rnone if v is None else v[2][i], f'r{i}.{c.field.name}'))(i), raw=True)
    return f


def expected(name, raw, nv, nr, none_ok, rnone='pass'):
    """Messages for one given value."""
    out = []
    if raw is None:
        for i in range(nr):
            out += tags(rnone, f'r{i}.{name}')
        if not none_ok:
            out.append('<field.none_disallowed>')
        return out
    load, vs, rs = raw
    for i in range(nr):
        out += tags(rs[i], f'r{i}.{name}')
    out += tags(load, f'load.{name}')
    if load == 'pass':
        for i in range(nv):
            out += tags(vs[i], f'v{i}.{name}')
    return out


def canon(pairs):
    return sorted(((k, repr(m)) for k, m in pairs), key=repr)


def compare(ch, out, want, what):
    if not want:
        ch.check(out.ok, 'nothing failed but an exception was raised', what, out)
        return
    ch.check(isinstance(out.exc, ValidationError), 'failures did not raise a ValidationError', what, out, want)
    got = canon((e.key, strmsg(e.message)) for e in out.exc.errors)
    ch.check(got == canon(want), 'reported errors differ', what, 'got', got, 'expected', canon(want))
    raw = out.exc.raw()
    ch.check(canon((k, m) for k, ms in raw.items() for m in ms) == got, 'raw() differs from errors', what, raw)


# ------------------------------------------------------------------ many fields, every combination of kinds

def wide(n, kinds, unknown):
    # kinds: (name, raw or ABSENT); validators see raw[1], raw validators raw[2]
    def scenario(ch):
        us = ch.pick(unknown, 'unknown')
        chosen = [ch.pick(kinds, f'f{i}') for i in range(n)]
        attrs = {}
        for i in range(n):
            f = Script()
            f.add_validator(lambda s, v, c: fail_with(v[2][0], f'v0.{c.field.name}'))
            f.add_validator(lambda s, v, c: fail_with('pass' if v is None else v[2][0], f'r0.{c.field.name}'), raw=True)
            attrs[f'f{i}'] = f
        cls = mk('W', attrs)
        data, want = {}, []
        for i, (kn, raw) in enumerate(chosen):
            k = f'f{i}'
            if raw is ABSENT:
                want.append((k, '<field.field_required>'))
            else:
                data[k] = raw
                want += [(k, m) for m in expected(k, raw, 1, 1, False)]
        for u in us:
            data[u] = 1
            want.append((u, 'UNKNOWN'))
        out = attempt(cls, data)
        ch.op('construct', [c[0] for c in chosen], us, out)
        if not out.ok and isinstance(out.exc, ValidationError):
            # the text of the unknown-field error is free
            for e in out.exc.errors:
                if e.key in us and isinstance(e.message, str):
                    e.message = 'UNKNOWN'
        compare(ch, out, want, ('construct', data))
        ch.state('c', tuple(c[0] for c in chosen), us)
        if not (want):
            inst = out.value
            # now update the same instance with every subset the kinds describe
            ch.check(attempt(inst.update, {}).ok, 'empty update failed')
    return scenario


P, V = ('pass', ['pass'], ['pass']), None
WK = [('ok', P), ('absent', ABSENT), ('none', None), ('load', ('ve', ['pass'], ['pass'])),
      ('val', ('pass', ['fe'], ['pass'])), ('raw', ('pass', ['pass'], ['ve'])),
      ('raw+load', ('fe', ['ve'], ['ae'])), ('raw+val', ('pass', ['seq'], ['empty']))]


def updates(n, kinds, unknown):
    def scenario(ch):
        us = ch.pick(unknown, 'unknown')
        chosen = [ch.pick(kinds, f'f{i}') for i in range(n)]
        attrs = {f'f{i}': script_field(1, 1) for i in range(n)}
        cls = mk('W', attrs)
        inst = cls({f'f{i}': P for i in range(n)})
        data, want = {}, []
        for i, (kn, raw) in enumerate(chosen):
            k = f'f{i}'
            if raw is not ABSENT:
                data[k] = raw
                want += [(k, m) for m in expected(k, raw, 1, 1, False)]
        for u in us:
            data[u] = 1
            want.append((u, 'UNKNOWN'))
        out = attempt(inst.update, data)
        ch.op('update', [c[0] for c in chosen], us, out)
        if isinstance(out.exc, ValidationError):
            for e in out.exc.errors:
                if e.key in us and isinstance(e.message, str):
                    e.message = 'UNKNOWN'
        compare(ch, out, want, ('update', data))
        ch.state('u', tuple(c[0] for c in chosen), us)
    return scenario


CLASSES = ['pass', 'unicode', 'assub', 'fesub', 'both', 'many args', 'int arg']
OUTK = ['pass', 've', 'ae', 'fe', 'empty', 'aempty', 'seq', 'vsub', 'dict']


def deep(nv_max, nr_max, okinds):
    """One field with several validators of both kinds: every combination of outcomes, three entry points."""
    def scenario(ch):
        entry = ch.pick(['construct', 'update', 'assign'], 'entry')
        none_ok = ch.flag('none')
        nv, nr = ch.choose(nv_max + 1, 'nv'), ch.choose(nr_max + 1, 'nr')
        load = ch.pick(okinds + ['None'], 'load')
        if load == 'None':
            rnone = ch.pick(okinds, 'rnone') if nr else 'pass'
            raw = None
        else:
            rnone = 'pass'
            vs = [ch.pick(okinds, f'v{i}') for i in range(nv)] if load == 'pass' else ['ve'] * nv
            rs = [ch.pick(okinds, f'r{i}') for i in range(nr)]
            raw = (load, vs, rs)
        cls = mk('D', f=script_field(nv, nr, rnone, none=none_ok), g=fields.Any(required=False))
        want = [('f', m) for m in expected('f', raw, nv, nr, none_ok, rnone)]
        if entry == 'construct':
            out = attempt(cls, {'f': raw, 'g': 1})
        else:
            inst = cls({'f': ('pass', ['pass'] * nv, ['pass'] * nr)})
            if entry == 'update':
                out = attempt(inst.update, {'g': 1, 'f': raw})
            else:
                out = attempt(setattr, inst, 'f', raw)
        ch.op(entry, raw, rnone, out)
        compare(ch, out, want, (entry, raw, rnone))
        ch.state(entry, none_ok, nv, nr, repr(raw), rnone)
    return scenario


def dump(n, kinds=('pass', 've', 'fe', 'empty', 'seq')):
    def scenario(ch):
        attrs = {f'f{i}': script_field(0, 0, required=False, none=True) for i in range(n)}
        cls = mk('D', attrs)
        data, want = {}, []
        for i in range(n):
            k = ch.pick(['absent', *kinds], f'f{i}')
            if k == 'absent':
                continue
            data[f'f{i}'] = k
            want += [(f'f{i}', m) for m in tags(k, f'dump.f{i}')]
        sel = ch.pick(['all', 'include', 'exclude'], 'selection')

        class Raw(Script):
            __slots__ = ()
            def value_load(self, value, context):
                return ('D', value)
        cls = mk('D', {f'f{i}': Raw(required=False) for i in range(n)})
        inst = cls(data)
        kw = {}
        if sel == 'include':
            kw = dict(include=['f0', 'f1'])
            want = [w for w in want if w[0] in ('f0', 'f1')]
        elif sel == 'exclude':
            kw = dict(exclude=['f0'])
            want = [w for w in want if w[0] != 'f0']
        out = attempt(inst.dump, **kw)
        ch.op('dump', data, sel, out)
        compare(ch, out, want, ('dump', data, kw))
        ch.state('dump', repr(data), sel)
    return scenario


def plain(ch):
    """Provided fields with their default messages: exactly one entry per failing key, with a message."""
    kinds = leaf_kinds()
    k1, k2 = ch.pick(kinds, 'k1'), ch.pick(kinds, 'k2')
    entry = ch.pick(['construct', 'update'], 'entry')
    cls = mk('P', f=k1.make(), g=k2.make())
    for v1 in k1.good[:1] + k1.bad + [None]:
        for v2 in k2.good[:1] + k2.bad[:1] + [None]:
            data, want = {'f': v1, 'g': v2}, []
            for key, kind, v in (('f', k1, v1), ('g', k2, v2)):
                try:
                    if v is None:
                        raise Bad
                    kind.load(v)
                except Bad:
                    want.append(key)
            if entry == 'construct':
                out = attempt(cls, data)
            else:
                inst = cls({'f': k1.good[0], 'g': k2.good[0]})
                out = attempt(inst.update, data)
            ch.op(entry, k1, k2, data, out)
            if not want:
                ch.check(out.ok, 'nothing failed', entry, k1, k2, data, out)
            else:
                ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', entry, k1, k2, data, out)
                got = sorted(e.key for e in out.exc.errors)
                ch.check(got == sorted(want), 'failing keys differ', entry, k1, k2, data, got, want)
                ch.check(all(strmsg(e.message) for e in out.exc.errors), 'empty message', entry, k1, k2, data)
            ch.state(k1.name, k2.name, repr(data))


def many(ch):
    """Large numbers of failures."""
    n = ch.pick([1, 11, 40, 150], 'n')
    how = ch.pick(['fields', 'validators', 'rawvalidators', 'unknown', 'required', 'sequence', 'mixed'], 'how')
    entry = ch.pick(['construct', 'update'], 'entry')
    want, data, attrs = [], {}, {}
    if how == 'fields':
        for i in range(n):
            attrs[f'f{i}'] = I()
            data[f'f{i}'] = 'x'
            want.append((f'f{i}', '<integer.invalid_datatype>'))
    elif how in ('validators', 'rawvalidators'):
        f = I()
        for i in range(n):
            f.add_validator((lambda i: lambda s, v, c: fail_with('ve' if v else 'pass', f'm{i}'))(i), raw=how == 'rawvalidators')
            want.append(('f', f'm{i}'))
        attrs['f'] = f
        data['f'] = 3
    elif how == 'unknown':
        for i in range(n):
            data[f'u{i}'] = 0
            want.append((f'u{i}', 'UNKNOWN'))
    elif how == 'required':
        if entry == 'update':
            return
        for i in range(n):
            attrs[f'f{i}'] = I()
            want.append((f'f{i}', '<field.field_required>'))
    elif how == 'sequence':
        attrs['f'] = I(validators=[lambda s, v, c: fail_with('pass', '') if not v else raise_(FieldError(tuple(f'm{i}' for i in range(n))))])
        data['f'] = 1
        want = [('f', f'm{i}') for i in range(n)]
    else:
        for i in range(n):
            attrs[f'f{i}'] = I(validators=[lambda s, v, c: fail_with('ve' if v else 'pass', f'a.{c.field.name}')] * 3)
            data[f'f{i}'] = 1
            want += [(f'f{i}', f'a.f{i}')] * 3
    cls = mk('B', attrs)
    if entry == 'construct':
        out = attempt(cls, data)
    else:
        inst = cls({k: 0 for k in attrs})
        out = attempt(inst.update, data)
    ch.op(entry, how, n)
    if isinstance(out.exc, ValidationError) and how == 'unknown':
        for e in out.exc.errors:
            e.message = 'UNKNOWN'
    compare(ch, out, want, (entry, how, n))
    ch.state(entry, how, n)


def nested_dumps(n):
    def scenario(ch):
        """Every combination of instances, nested instances and plain values that cannot be dumped: each is reported, at every level."""
        class Fd(fields.Any):
            def value_dump(self, v, c):
                if v == 've': raise ValueError('m.' + self.name)
                if v == 'fe': raise FieldError(['m.' + self.name, 'n.' + self.name])
                return v
        In = mk('In', p=Fd(), q=Fd(), In2=fields.Object(mk('In2', r=Fd()), required=False))
        opts = ['ok', 'plain', 'two', 'one ok', 'one', 'both', 'deep', 'deep and one']
        cls = mk('Top', {f'f{i}': Fd(required=False) for i in range(n)} | {f'o{i}': fields.Object(In, required=False) for i in range(n)})
        data, want = {}, {}
        for i in range(n):
            k = ch.pick(opts, f'f{i}')
            if k in ('ok', 'plain', 'two'):
                data[f'f{i}'] = {'ok': 1, 'plain': 've', 'two': 'fe'}[k]
                if k != 'ok': want[f'f{i}'] = [f'm.f{i}'] + [f'n.f{i}'] * (k == 'two')
                continue
            d = data[f'o{i}'] = {'one ok': {'p': 1, 'q': 1}, 'one': {'p': 've', 'q': 1}, 'both': {'p': 've', 'q': 'fe'}, 'deep': {'p': 1, 'q': 1, 'In2': {'r': 've'}}, 'deep and one': {'p': 1, 'q': 'fe', 'In2': {'r': 'fe'}}}[k]
            w = {}
            for key in 'pq':
                if d[key] != 1: w[key] = ['m.' + key] + ['n.' + key] * (d[key] == 'fe')
            if 'In2' in d: w['In2'] = [{'r': ['m.r'] + ['n.r'] * (d['In2']['r'] == 'fe')}]
            if w: want[f'o{i}'] = [w]
        for order in (list(data), list(data)[::-1]):
            x = cls({k: data[k] for k in order})
            out = attempt(x.dump)
            ch.op('dump', data, out)
            if not want: ch.check(out.ok, 'nothing failed', data, out); continue
            ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', data, out)
            ch.check(out.exc.raw() == want, 'the failures reported', data, out.exc.raw(), want)
        ch.state(repr(data))
    return scenario


KEYTEXTS = ['This field must not be None.', 'This field is required.', 'Invalid or unknown field.', 'same text', 'f', 'F', '', ' ', 'None', 'root', 'errors', '<integer.invalid_datatype>', '<field.field_required>', '<field.none_disallowed>', 5, None, (1, 'f'), b'f']


def texts(ch):
    """Keys and messages that look like each other: nothing is hidden."""
    u = [ch.pick(KEYTEXTS, f'unknown {i}') for i in range(2)]
    if u[0] == u[1]: return
    tx = [k if isinstance(k, str) else repr(k) for k in u]
    bad = ch.pick(['none', 'missing', 'type', 'same text', 'key text', 'two same'], 'failure')
    where = ch.pick(['first', 'middle', 'last'], 'position')
    entry = ch.pick(['construct', 'update'], 'entry')
    if bad == 'missing' and entry == 'update': return
    def v(s, value, c):
        if value == 100: return
        if value == 100: return
        if bad == 'same text': raise ValueError('same text')
        if bad == 'key text': raise ValueError(tx[0])
        if bad == 'two same': raise FieldError([tx[1] or 'same text', tx[0] or 'f'])
    cls = mk('T', f=I(validators=[v], load_key='F'), g=I(required=False, validators=[v]))
    if 'F' in u: return
    mine = [] if bad == 'missing' else [('F', None if bad == 'none' else 'x' if bad == 'type' else 1)]
    us = [(k, 0) for k in u]
    order = {'first': mine + us, 'middle': us[:1] + mine + us[1:], 'last': us + mine}[where]
    data = dict(order)
    if 'g' not in data: data['g'] = 1 if bad in ('same text', 'key text', 'two same') else 5
    if entry == 'construct': o = attempt(cls, data)
    else:
        x = cls({'F': 100})
        o = attempt(x.update, data)
    ch.op(entry, u, bad, where, o)
    msgs = {'none': ['<field.none_disallowed>'], 'missing': ['<field.field_required>'], 'type': ['<integer.invalid_datatype>'], 'same text': ['same text'], 'key text': [tx[0]], 'two same': [tx[1] or 'same text', tx[0] or 'f']}[bad]
    ch.check(isinstance(o.exc, ValidationError), 'accepted', u, bad, o)
    got = collections.Counter(e.key for e in o.exc.errors)
    want = collections.Counter(u)
    want['F'] += len(msgs)
    if bad in ('same text', 'key text', 'two same'): want['g'] += len(msgs)
    ch.check(got == want, 'the failures by key', u, bad, where, got, want)
    fs = [str(e.message) for e in o.exc.errors if e.key == 'F']
    if all(msgs): ch.check(fs == msgs, 'the messages', u, bad, fs, msgs)
    raw = o.exc.raw()
    ch.check({k: len(m) for k, m in raw.items()} == dict(want), 'the raw form', raw, want)
    ch.state(tuple(u), bad, where, entry)


def raise_(e):
    raise e


BORROW = ['inner', 'x', 'f', 'g', 'zz', 'b']


def borrowed(ch):
    """Errors that user code took over from another operation neither hide nor replace the failures of this one."""
    key = ch.pick(BORROW, 'key of the borrowed error')
    site = ch.pick(['load', 'validator', 'raw'], 'site')
    how = ch.pick(['missing', 'unknown', 'value'], 'kind of the borrowed error')
    entry = ch.pick(['construct', 'update'], 'entry')
    nborrow = 1 + ch.choose(2, 'borrowers')
    shared = nborrow == 2 and ch.flag('one object for all')
    kept = []
    other = mk('Other', o=I(load_key=key))
    data2 = {'missing': {}, 'unknown': {key: 1, 'zz' + key: 0}, 'value': {key: 'x'}}[how]

    def borrow():
        if shared and kept: raise kept[0]
        out = attempt(other, data2)
        kept.append(out.exc.errors[0])
        raise kept[-1]

    class B(I):
        def value_load(self, value, ctx):
            if site == 'load' and value == 99: borrow()
            return super().value_load(value, ctx)
    def v(s, value, c):
        if value == 99: borrow()
    attrs = dict(f=I(required=False), x=I(load_key='inner'), y=I(load_key='g', required=False))
    data, want = {}, 0
    for i in range(nborrow):
        f = B(load_key='b') if i == 0 else B()
        if site != 'load': f.add_validator(v, raw=site == 'raw')
        attrs[f'b{i}'] = f
        data['b' if i == 0 else f'b{i}'] = 99
        want += 1
    cls = mk('Borrower', attrs)
    faults = {k: ch.pick(opts, k) for k, opts in (('f', ['ok', 'bad']), ('inner', ['ok', 'bad', 'none', 'absent']), ('g', ['absent', 'bad']), ('zz', ['absent', 'given']))}
    codes = []
    for k, w in faults.items():
        if w == 'absent':
            if k == 'inner' and entry == 'construct': codes.append('<field.field_required>')
            continue
        data[k] = {'ok': 1, 'bad': 'x', 'none': None, 'given': 1}[w]
        if w == 'bad': codes.append('<integer.invalid_datatype>')
        if w == 'none': codes.append('<field.none_disallowed>')
    out = attempt(cls, data) if entry == 'construct' else attempt(cls({'inner': 0, 'b': 0, **{f'b{i}': 0 for i in range(1, nborrow)}}).update, data)
    ch.op(entry, key, site, how, data, out)
    ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', key, site, how, out)
    got = [e.message for e in out.exc.errors]
    n = want + len(codes) + (faults['zz'] == 'given')
    ch.check(len(got) == n, 'the number of reported failures', key, site, how, faults, got, n)
    borrowedm = {'missing': '<field.field_required>', 'value': '<integer.invalid_datatype>', 'unknown': None}[how]
    exp = sorted(codes + [borrowedm] * want) if borrowedm else sorted(codes)
    if borrowedm: ch.check(sorted(m for m in got if m.startswith('<')) == exp, 'the reported failures', got, exp)
    else: ch.check(sorted(m for m in got if m.startswith('<')) == exp, 'the reported failures', got, exp)
    ch.state(key, site, how, entry, nborrow, shared, repr(faults))


@also_nested('errors')
@also('errors')
def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='nested dumps', fn=nested_dumps(4 if th else 3)),
        dict(name='wide', fn=wide(5 if th else 4, WK, [(), ('zz',), ('zz', '')])),
        dict(name='wide6', fn=wide(6, WK[:5] if th else [WK[0], WK[1], WK[5], WK[6]], [('zz',)])),
        dict(name='updates', fn=updates(5 if th else 4, WK, [(), ('zz', 'yy')])),
        dict(name='deep', fn=deep(3, 1, OUTK if th else OUTK[:5])),
        dict(name='deep2', fn=deep(1, 3, OUTK if th else ['pass', 've', 'fe', 'seq'])),
        dict(name='deepk', fn=deep(1, 1, OUTK)),
        dict(name='classes', fn=deep(2, 1, CLASSES)),
        dict(name='dump classes', fn=dump(3, CLASSES)),
        dict(name='dump', fn=dump(5 if th else 4)),
        dict(name='plain', fn=plain),
        dict(name='many', fn=many),
        dict(name='texts', fn=texts),
        dict(name='borrowed errors', fn=borrowed),
    ]
