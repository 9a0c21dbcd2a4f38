"""C25 Errors render completely, in raw and text form, with their state."""
import copy, itertools, re
from mc.interplay import also
from mc.nest import also_nested
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['messages have a working str()', 'sequences inside messages that are sequences are not specified', 'the order of the elements of a set is not specified'])


class Obj:
    def __init__(self, tag):
        self.tag = tag
    def __str__(self):
        return 'obj ' + self.tag
    __repr__ = __str__


class FalsyObj(Obj):
    def __bool__(self):
        return False
    def __eq__(self, o):
        return True
    __hash__ = object.__hash__


class StrSub(str):
    pass


class Exc(Exception):
    pass


# one failing validator: tag -> (exception, [messages as they are expected in raw form], [tags shown])
def fe(message, state=None):
    return lambda: FieldError(message, state=state)


def forms():
    """name -> function(tag) -> (raise function, expected raw messages, ordered)"""
    def seq(mk_):
        return lambda g: (fe(mk_([g + 'p', g + 'q', g + 'r'])), [g + 'p', g + 'q', g + 'r'], True)
    return {
        'text': lambda g: (fe(g), [g], True),
        'value error': lambda g: (lambda: ValueError(g), [g], True),
        'assertion': lambda g: (lambda: AssertionError(g), [g], True),
        'list': seq(list),
        'tuple': seq(tuple),
        'set': lambda g: (fe({g + 'p', g + 'q'}), [g + 'p', g + 'q'], False),
        'one element': lambda g: (fe([g]), [g], True),
        'object': lambda g: (fe(Obj(g)), ['obj ' + g], True),
        'falsy object': lambda g: (fe(FalsyObj(g)), ['obj ' + g], True),
        'lines': lambda g: (fe(g + '\n  second line\n'), [g + '\n  second line\n'], True),
        'subclass of str': lambda g: (fe(StrSub(g)), [g], True),
        'exception': lambda g: (fe(Exc(g)), [g], True),
        'objects': lambda g: (fe([Obj(g + 'p'), g + 'q', 7]), ['obj ' + g + 'p', g + 'q', '7'], True),
        'mapping': lambda g: (fe({'mk' + g: 'v' + g}), [{'mk' + g: 'v' + g}], True),
        'mapping of objects': lambda g: (fe({'mk' + g: Obj(g), 2: 3}), [{'mk' + g: 'obj ' + g, 2: '3'}], True),
        'mapping of lists': lambda g: (fe({'mk' + g: ['v' + g, 'w' + g]}), [{'mk' + g: ['v' + g, 'w' + g]}], True),
        'mapping of mappings': lambda g: (fe({'mk' + g: {'in' + g: 5}}), [{'mk' + g: {'in' + g: '5'}}], True),
        'mapping with empty list': lambda g: (fe({'mk' + g: []}), [{'mk' + g: []}], True),
        'mapping of errors and texts': lambda g: (lambda: FieldError({'mk' + g: [FieldError('v' + g), 'w' + g]}), [{'mk' + g: ['v' + g, 'w' + g]}], True),
        'mapping of texts and errors': lambda g: (lambda: FieldError({'mk' + g: ['w' + g, FieldError('v' + g)]}), [{'mk' + g: ['w' + g, 'v' + g]}], True),
        'mapping of an error': lambda g: (lambda: FieldError({'mk' + g: FieldError('v' + g)}), [{'mk' + g: 'v' + g}], True),
        'mapping of errors and a text': lambda g: (lambda: FieldError({'mk' + g: [FieldError('v' + g)], 'nk' + g: 'w' + g}), [{'mk' + g: ['v' + g], 'nk' + g: 'w' + g}], True),
        'errors in a list': lambda g: (lambda: FieldError([FieldError(g + 'p'), g + 'q']), [g + 'p', g + 'q'], True),
        'mappings in a list': lambda g: (fe([{'mk' + g: 1}, g + 'q']), [{'mk' + g: '1'}, g + 'q'], True),
    }


PLAIN = {
    'zero': (lambda: FieldError(0), ['0']), 'none': (lambda: FieldError(None), ['None']), 'empty text': (lambda: FieldError(''), ['']), 'false': (lambda: FieldError(False), ['False']),
    'bytes': (lambda: FieldError(b'x'), ["b'x'"]), 'empty mapping': (lambda: FieldError({}), [{}]), 'float': (lambda: FieldError(1.5), ['1.5']), 'falsy in list': (lambda: FieldError([0, '', None]), ['0', '', 'None']),
    'braces': (lambda: FieldError('{value} {} %s'), ['{value} {} %s']), 'box': (lambda: FieldError('└── In field x:'), ['└── In field x:']),
}
FORMS = forms()


class Node:
    """The expected error structure of one schema: key -> list of (expected message or Node)."""
    def __init__(self):
        self.keys = {}


def raw_of(node):
    return {k: [raw_of(m) if isinstance(m, Node) else m for m in ms] for k, ms in node.keys.items()}


def canon(raw, unordered=False):
    if isinstance(raw, dict):
        return {k: canon(v, unordered) for k, v in raw.items()}
    if isinstance(raw, list):
        r = [canon(x, unordered) for x in raw]
        return sorted(r, key=repr) if unordered else r
    return raw


def column(line):
    m = re.search(r'[^\s│├└─]', line)
    return m.start() if m else None


def leaves(m):
    """Pieces of text that a message must show."""
    if isinstance(m, dict):
        return [x for k, v in m.items() for x in leaves(str(k)) + leaves(v)]
    if isinstance(m, list):
        return [x for v in m for x in leaves(v)]
    return [m]


def check_text(ch, text, node, cls, what):
    lines = text.split('\n')
    heads = [i for i, l in enumerate(lines) if column(l) is not None]
    ch.check(heads, 'the text is empty', what)
    first = lines[heads[0]]
    ch.check(re.search(r'(?<!\w)%d(?!\w)' % len(node.keys), first) and cls.__qualname__ in first, 'the number of failing fields or the schema is not shown', first, len(node.keys), what)
    rest = '\n'.join(lines[heads[0] + 1:])

    def line_of(tag):
        ls = [i for i, l in enumerate(lines) if tag in l and i > heads[0]]
        ch.check(len(ls) == 1 and rest.count(tag) == 1, f'{tag!r} is shown {rest.count(tag)} times', text, what)
        return ls[0]

    def parent(i):
        c = column(lines[i])
        for j in range(i - 1, -1, -1):
            d = column(lines[j])
            if d is not None and d < c and 'second line' not in lines[j]:
                return j
        return None

    def walk(node, above):
        for k, ms in node.keys.items():
            i = line_of(f'{k}')
            if above is None:
                ch.check(i > heads[0], 'a key before the heading', text)
                p = parent(i)
                ch.check(p is None or p == heads[0], 'a top level key is shown under something else', k, text)
            else:
                ch.check(parent(i) == above, 'a nested key is not shown under its parent', k, text)
            for m in ms:
                if isinstance(m, Node):
                    walk(m, i)
                else:
                    for tag in leaves(m):
                        tag = tag.split('\n')[0]
                        if re.search(r'T\d+x', tag):
                            j = line_of(tag)
                            ch.check(parent(j) == i, 'a message is not shown under its key', tag, text)
    walk(node, None)


def check_error(ch, err, node, cls, what, unordered=False, text=True):
    before = [(id(e), e.key, id(e.state)) for e in err.errors]
    want = raw_of(node)
    got = err.raw()
    ch.check(canon(got, unordered) == canon(want, unordered) and list_types(got), 'the raw form is wrong', got, want, what)
    s = str(err)
    if text: check_text(ch, s, node, cls, what)
    # rendering changes nothing and repeats
    got2, first = err.raw(), copy.deepcopy(got)
    ch.check(got2 == got and str(err) == s, 'rendering twice gives different results', what)
    for v in got.values(): v.append('modified')
    got['added'] = 1
    for v in got2.values(): v.clear()
    ch.check(err.raw() == first and str(err) == s, 'the raw form is shared with the error', what)
    ch.check([(id(e), e.key, id(e.state)) for e in err.errors] == before, 'rendering changed the error', what)
    ch.check(isinstance(repr(err), str), 'repr', what)
    # errors in order, one per message
    per = {}
    for e in err.errors: per.setdefault(e.key, []).append(e)
    ch.check({k: len(v) for k, v in per.items()} == {k: len(v) for k, v in want.items()}, 'number of errors per key', what, errs(err))
    ch.nops += 3


def list_types(raw):
    return type(raw) is dict and all(type(v) is list for v in raw.values())


STATES = [('state', 0), 0, '', [], {}, False, 0.0, (), None, object(), FieldError]


class Raiser:
    """A validator raising what it is told; remembers the context and the state of what it raised."""
    def __init__(self, make, state=UNSET, wrap=None):
        self.make, self.state = make, None if state is UNSET else state
        self.last = None
    def __call__(self, schema, value, ctx):
        e = self.make()
        if isinstance(e, FieldError) and self.state is not None:
            e = FieldError(e.message, state=self.state)
        self.last = (e, schema, ctx)
        raise e


COUNT = itertools.count()


def one_key(n, names):
    def scenario(ch):
        """Up to n failing validators of one field, of every form of message."""
        k = ch.choose(n, 'validators') + 1
        fs = [ch.pick(names, f'form{i}') for i in range(k)]
        raw = ch.flag('raw')
        op = ch.pick(['construct', 'update', 'assign'], 'operation')
        keyed = ch.flag('load key')
        run_one_key(ch, fs, raw, op, keyed)
    return scenario


def build_form(f, tag):
    if f in FORMS: return FORMS[f](tag)
    make, msgs = PLAIN[f]
    return make, msgs, True


def run_one_key(ch, fs, raw, op, keyed, states=(['state', 0], None, ['state', 2])):
    node = Node()
    msgs, rs, ordered = [], [], True
    for i, f in enumerate(fs):
        make, ms, o = build_form(f, f'T{i}x')
        msgs += ms; ordered &= o
        rs.append((Raiser(make, state=states[i]), ms, o))
    key = 'KEYZ' if keyed else 'fieldz'
    node.keys[key] = msgs
    fld = fields.Any(required=False, **(dict(load_key=key) if keyed else {}))
    for r, _, _ in rs: fld.add_validator(r, raw=raw)
    cls = mk('SchemaName', fieldz=fld, other=fields.Any(required=False))
    inst = cls({}) if op != 'construct' else None
    out = attempt(cls, {key: 1}) if op == 'construct' else attempt(inst.update, {key: 1}) if op == 'update' else attempt(setattr, inst, 'fieldz', 1)
    what = (fs, raw, op)
    ch.op(*what)
    ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', *what, out)
    err = out.exc
    textual = not any(f in PLAIN for f in fs)
    check_error(ch, err, node, cls, what, not ordered, textual)
    # each error keeps its message, key, schema, context and state
    es = list(err.errors)
    for r, ms, o in rs:
        mine, es = es[:len(ms)], es[len(ms):]
        e0, schema, ctx = r.last
        given = e0.message if isinstance(e0, FieldError) else None
        flat = list(given) if isinstance(given, (list, tuple, set)) else [given]
        for e, m in zip(mine, flat):
            if isinstance(e0, FieldError):
                ch.check(e.message is m or e.message == m, 'the message of an error', what, e.message, m)
                ch.check(e.state is r.state, 'the state of an error is lost', what, e.state)
            ch.check(isinstance(e, FieldError) and e.key == key and e.schema is schema and e.context is ctx and e.field is cls.fieldz, 'attribution of an error', what)
    ch.check(err.schema is schema, 'schema of the error', what)
    ch.state(tuple(fs), raw, op, keyed)


def states(ch):
    """Any state, truthy or not, stays attached to every message."""
    f = ch.pick(list(FORMS) + list(PLAIN), 'form')
    f2 = ch.pick(['text', 'list', 'set', 'one element'], 'second form')
    st = STATES[ch.choose(len(STATES), 'state')]
    st2 = STATES[ch.choose(len(STATES), 'second state')]
    run_one_key(ch, [f, f2], False, ch.pick(['construct', 'update', 'assign'], 'operation'), False, [st, st2])


class EqualField(fields.Any):
    def __eq__(self, o): return True
    __hash__ = lambda self: 0


class EqualError(FieldError):
    def __eq__(self, o): return True
    __hash__ = lambda self: 0


def special_objects(ch):
    """Fields, errors, schemas and states that define their own comparisons and texts."""
    fkind = ch.pick([fields.Any, EqualField], 'field')
    ekind = ch.pick([FieldError, EqualError], 'error')
    n = 1 + ch.choose(3, 'failing fields')
    ms = [ch.pick([['T%dx'], ['T%dx', 'T%dy'], [None]], f'messages{i}') for i in range(n)]
    unknown = ch.flag('unknown key')
    special = ch.pick([{}, dict(__eq__=lambda s, o: True, __hash__=None), dict(__bool__=lambda s: False), dict(__len__=lambda s: 0), dict(__repr__=lambda s: 1 / 0)], 'schema')
    nested = ch.flag('nested')
    attrs, data, node = {}, {}, Node()
    for i, m in enumerate(ms):
        key = f'fn{i}n'
        texts = [x % i for x in m if x]
        f = fkind(required=False)
        if texts: f.add_validator(Raiser(lambda texts=texts: ekind(texts if len(texts) > 1 else texts[0], state=7)))
        attrs[key] = f
        if texts: data[key], node.keys[key] = 1, texts
    if unknown: data['zzn'] = 0
    cls = mk('SchemaName', {**attrs, **special})
    if nested:
        cls = mk('OuterName', outn=fields.Object(cls), **special)
        data = {'outn': data}
    out = attempt(cls, data)
    ch.op('construct', fkind, ekind, ms, unknown)
    if not node.keys and not unknown:
        ch.check(out.ok, 'nothing fails', out.exc)
        return
    e = out.exc
    ch.check(isinstance(e, ValidationError), 'no ValidationError', type(out.exc))
    raw = e.raw()
    text = str(e)
    if nested:
        ch.check(set(raw) == {'outn'} and len(raw['outn']) == 1, 'the raw form is wrong', raw)
        raw = raw['outn'][0]
    z = raw.pop('zzn', None)
    ch.check((z is not None and len(z) == 1 and z[0] and type(z[0]) is str) == unknown and raw == raw_of(node), 'the raw form is wrong', raw, raw_of(node))
    count = 1 if nested else len(node.keys) + unknown
    ch.check(re.search(r'(?<!\w)%d(?!\w)' % count, text.strip('\n│ ').split('\n')[0]) and all(text.count(x) == 1 for k, m in node.keys.items() for x in [k] + m) and text.count('zzn') == unknown, 'the text is wrong', text, count)
    ch.check(str(e) == text, 'rendering twice')
    ch.state(fkind.__name__, ekind.__name__, repr(ms), unknown, nested)


def tree(depth, width, forms_):
    """Nested schemas: every level may fail in its own fields, in its nested schema, and in both."""
    def scenario(ch):
        tags = itertools.count()
        states = {}

        def level(d):
            """(class, data, node or None)"""
            node, attrs, data = Node(), {}, {}
            for i in range(width):
                f = ch.pick(forms_, f'field{d}{i}')
                name, key = f'fn{d}{i}n', f'key{d}{i}n'
                named = (i + d) % 2 == 0
                fld = fields.Any(**({} if named else dict(load_key=key)))
                key = name if named else key
                if f != 'ok':
                    t = next(tags)
                    make, ms, o = build_form(f, f'T{t}x')
                    st = ('state', t)
                    fld.add_validator(Raiser(make, st))
                    node.keys[key] = ms
                    states[(d, key)] = st
                attrs[name], data[key] = fld, 1
            if d < depth:
                kind = ch.pick(['none', 'nested', 'nested+raw'], f'nested{d}') if d else ch.pick(['nested', 'nested+raw'], 'nested0')
                if kind != 'none':
                    sub, sd, sn = level(d + 1)
                    name = f'sub{d}n'
                    fld = fields.Object(sub)
                    ms = []
                    if kind == 'nested+raw':
                        t = next(tags)
                        make, ms, o = build_form('text', f'T{t}x')
                        fld.add_validator(Raiser(make, ('state', t)), raw=True)
                    attrs[name], data[name] = fld, sd
                    if sn.keys or ms:
                        node.keys[name] = ([sn] if sn.keys else []) + ms
            return mk(f'Level{d}', attrs), data, node
        cls, data, node = level(0)
        op = 'construct'
        out = attempt(cls, data)
        ch.op(op, raw_of(node))
        if not node.keys:
            ch.check(out.ok, 'nothing fails but an error is raised', out)
            return
        ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', out)
        check_error(ch, out.exc, node, cls, raw_of(node), unordered=True)

        def nested_states(errors, d):
            for e in errors:
                if isinstance(e.message, dict) and e.key.startswith('sub'):
                    for k, sub in e.message.items():
                        ch.check(isinstance(sub, list) and all(isinstance(s, FieldError) and s.key == k for s in sub), 'nested errors are lost', e.message)
                        nested_states(sub, d + 1)
                elif (d, e.key) in states:
                    ch.check(e.state == states[(d, e.key)] or e.state is None, 'the state of a nested error is lost', d, e.key, e.state)
        nested_states(out.exc.errors, 0)
        ch.state(repr(raw_of(node)))
    return scenario


def library_tree(ch):
    """The failures the library itself detects, at three levels; also for dumps and updates."""
    In = mk('In', **{'inner': fields.Integer(), 'other': fields.String(required=False)})
    Mid = mk('Mid', middle=fields.Object(In, none=True), number=fields.Integer(required=False, load_key='NUM'))
    Top = mk('Top', outer=fields.Object(Mid, required=False), last=fields.List(int, required=False))
    faults = {
        'in': ch.pick(['ok', 'missing', 'bad', 'extra', 'two'], 'inner'),
        'mid': ch.pick(['ok', 'bad', 'extra', 'both', 'none nested', 'wrong nested'], 'middle'),
        'top': ch.pick(['ok', 'bad', 'extra', 'list2'], 'outer'),
    }
    I = {'ok': {'inner': 1}, 'missing': {}, 'bad': {'inner': 'x'}, 'extra': {'inner': 1, 'zz1': 0}, 'two': {'zz1': 0, 'other': 5}}[faults['in']]
    ki = {'ok': [], 'missing': ['inner'], 'bad': ['inner'], 'extra': ['zz1'], 'two': ['zz1', 'other', 'inner']}[faults['in']]
    M = {'middle': I}
    km = {'middle': ki} if ki else {}
    f = faults['mid']
    if f in ('bad', 'both'): M['NUM'] = 'x'; km['NUM'] = 1
    if f in ('extra', 'both'): M['zz2'] = 'x'; km['zz2'] = 1
    if f == 'none nested': M['middle'] = None; km.pop('middle', 0)
    if f == 'wrong nested': M['middle'] = 5; km['middle'] = 1
    T = {'outer': M}
    kt = {'outer': km} if km else {}
    f = faults['top']
    if f == 'bad': T['last'] = 5; kt['last'] = 1
    if f == 'extra': T['zz3'] = 1; kt['zz3'] = 1
    if f == 'list2': T['last'] = ['a', 1, 'b', 'c']; kt['last'] = 3
    op = ch.pick(['construct', 'update', 'assign'], 'operation')
    x = Top({})
    if op == 'construct': out = attempt(Top, T)
    elif op == 'update': out = attempt(x.update, T)
    else:
        out = attempt(setattr, x, 'outer', M)
        kt = {k: v for k, v in kt.items() if k == 'outer'}
    ch.op(op, T, out)
    if not kt:
        ch.check(out.ok, 'nothing fails', out)
        return
    e = out.exc
    r = e.raw()

    def shape(raw, want, path):
        ch.check(type(raw) is dict and set(raw) == set(want), 'keys of the raw form', path, raw, want)
        for k, w in want.items():
            v = raw[k]
            if isinstance(w, dict):
                ch.check(len(v) == 1 and isinstance(v[0], dict), 'nested errors', path, k, v); shape(v[0], w, path + [k])
            elif isinstance(w, list):
                ch.check(len(v) == 1 and isinstance(v[0], dict) and set(v[0]) == set(w) and all(isinstance(z, list) and len(z) == 1 and isinstance(z[0], str) and z[0] for z in v[0].values()), 'nested errors', path, k, v)
            else:
                ch.check(len(v) == w and all(isinstance(z, str) and z for z in v), 'messages', path, k, v)
    shape(r, kt, [])
    node = to_node(r)
    s = str(e)
    lines = s.split('\n')
    for k in all_keys(node):
        ch.check(len([l for l in lines if re.search(r'\b%s\b' % k, l) and 'n field' in l]) == 1, 'a key is not shown once', k, s)
    ch.check(re.search(r'\b%d\b' % len(kt), s) and 'Top' in s and str(e) == s and e.raw() == r, 'the text', s)
    ch.state(repr(faults), op)


def to_node(r):
    n = Node()
    n.keys = {k: [to_node(m) if isinstance(m, dict) else m for m in v] for k, v in r.items()}
    return n


def all_keys(node):
    out = []
    for k, ms in node.keys.items():
        out.append(k)
        for m in ms:
            if isinstance(m, Node): out += all_keys(m)
    return out


def repeated(ch):
    """The same texts and keys at several places: each is shown at its own place, as often as it occurs."""
    tops = [ch.pick([(), ('same',), ('same', 'same'), ('same', 'else')], f'messages{i}') for i in range(2)]
    inner = [ch.pick([(), ('same',), ('else', 'same'), ('same', 'same')], f'inner{i}') for i in range(2)]
    deep = ch.pick([(), ('same',), ('same', 'same', 'same')], 'deep')
    entry = ch.pick(['construct', 'update'], 'operation')

    def fld(msgs):
        f = fields.Any(required=False)
        for m in msgs: f.add_validator(Raiser(fe(m)))
        return f
    D = mk('Level', ab=fld(deep), cd=fld(()))
    M = mk('Level', ab=fld(inner[0]), cd=fld(inner[1]), sub=fields.Object(D))
    T = mk('Level', ab=fld(tops[0]), sub=fields.Object(M, required=False), cd=fld(tops[1]))
    data = {'sub': {'sub': {'ab': 1, 'cd': 1}, 'ab': 1, 'cd': 1}, 'ab': 1, 'cd': 1}

    def node(a, c, sub=None):
        n = Node()
        if a: n.keys['ab'] = list(a)
        if sub is not None and sub.keys: n.keys['sub'] = [sub]
        if c: n.keys['cd'] = list(c)
        return n
    want = node(*tops, node(*inner, node(deep, ())))
    out = attempt(T, data) if entry == 'construct' else attempt(T({}).update, data)
    ch.op(entry, tops, inner, deep, out)
    if not want.keys:
        ch.check(out.ok, 'nothing fails', out)
        return
    what = (tops, inner, deep)
    ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', *what, out)
    ch.check(canon(out.exc.raw(), True) == canon(raw_of(want), True), 'the raw form is wrong', out.exc.raw(), raw_of(want))
    text = str(out.exc)
    lines = [l for l in text.split('\n') if column(l) is not None]
    cols = [column(l) for l in lines]

    def children(i):
        res = []
        for j in range(i + 1, len(lines)):
            if i and cols[j] <= cols[i]: break
            par = next((p for p in range(j - 1, 0, -1) if cols[p] < cols[j]), 0)
            if par == i: res.append(j)
        return res

    def walk(n, i):
        kids = children(i)
        for k, ms in n.keys.items():
            at = [j for j in kids if re.search(r'\b%s\b' % k, lines[j])]
            ch.check(len(at) == 1, 'a key is not shown once at its place', k, text, what)
            sub = children(at[0])
            for m in {m for m in ms if not isinstance(m, Node)}:
                ch.check(sum(m in lines[j] for j in sub) == ms.count(m), 'a message is not shown under its key as often as it occurs', k, m, text, what)
            for m in ms:
                if isinstance(m, Node): walk(m, at[0])
    walk(want, 0)
    ch.state(tuple(tops), tuple(inner), deep)


def many(ch):
    """Many keys with many messages."""
    nk = ch.pick([1, 2, 5, 20], 'keys')
    nm = ch.pick([1, 2, 9], 'messages')
    form = ch.pick(['text', 'list', 'mapping', 'mapping of lists', 'object'], 'form')
    node, attrs = Node(), {}
    for i in range(nk):
        name = f'fn{i:02d}n'
        f = fields.Any()
        ms = []
        for j in range(nm):
            make, m, _ = build_form(form, f'T{i:02d}{j}x')
            f.add_validator(Raiser(make)); ms += m
        attrs[name] = f; node.keys[name] = ms
    cls = mk('Wide', attrs)
    out = attempt(cls, dict.fromkeys(attrs, 1))
    ch.check(isinstance(out.exc, ValidationError), 'no error', out)
    check_error(ch, out.exc, node, cls, (nk, nm, form))
    ch.state(nk, nm, form)


def repeated_texts(length):
    def scenario(ch):
        """Every sequence of messages over three texts: each is reported as often as it was given, in the order it was given."""
        form = ch.pick(['list', 'tuple', 'validators', 'mapping', 'objects'], 'form')
        n = 1 + ch.choose(length, 'length')
        op = ch.pick(['construct', 'update', 'assign'], 'operation')
        for seq in itertools.product(('aTa', 'bTb', 'cTc'), repeat=n):
            if form == 'list': msgs, vs = list(seq), [lambda s, v, c: boom(FieldError(msgs))]
            elif form == 'tuple': msgs, vs = list(seq), [lambda s, v, c: boom(FieldError(tuple(seq)))]
            elif form == 'mapping': msgs, vs = [{'k': list(seq)}], [lambda s, v, c: boom(FieldError({'k': list(seq)}))]
            elif form == 'objects': msgs, vs = ['obj ' + m for m in seq], [lambda s, v, c: boom(FieldError([Obj(m) for m in seq]))]
            else: msgs, vs = list(seq), [(lambda m: lambda s, v, c: boom(ValueError(m)))(m) for m in seq]
            cls = mk('S', f=fields.Any(required=False, validators=vs))
            x = cls({})
            out = attempt(cls, {'f': 1}) if op == 'construct' else attempt(x.update, {'f': 1}) if op == 'update' else attempt(setattr, x, 'f', 1)
            ch.nops += 1
            ch.check(isinstance(out.exc, ValidationError), 'no error', out)
            raw = out.exc.raw()
            ch.check(raw == {'f': msgs}, 'raw form', form, seq, raw)
            text = str(out.exc)
            for m in ('aTa', 'bTb', 'cTc'):
                ch.check(text.count(m) == seq.count(m), 'text form', form, seq, text)
        ch.state(form, n, op)
    return scenario


def boom(e):
    raise e


EXTREMES = [('message length', n) for n in (60, 79, 80, 120, 255, 256, 512, 1000, 1024, 2048, 4096, 10000, 70000)] + [('messages', n) for n in (8, 10, 16, 20, 32, 50, 64, 100, 128, 256, 300)] + \
    [('keys', n) for n in (10, 16, 25, 32, 50, 64, 100, 128, 256, 300)] + [('depth', n) for n in (5, 8, 10, 12, 16, 20, 32, 50)] + [('key length', n) for n in (40, 64, 80, 100, 255, 300, 2000)] + \
    [('unknown keys', n) for n in (10, 33, 100, 300)] + [('lines', n) for n in (3, 10, 50, 200)] + [('width and depth', n) for n in (3, 4, 5)]


def extremes(ch):
    """Sizes far beyond the usual, in every dimension: nothing is cut off, in either form."""
    dim, n = ch.pick(EXTREMES, 'size')
    how = ch.pick(['validators', 'sequence', 'mapping'], 'made by') if dim == 'messages' else ch.pick(['str', 'object'], 'message') if dim in ('message length', 'lines') else 'validators'
    wrap = ch.pick([0, 1, 2], 'nested in')
    op = ch.pick(['construct', 'update'], 'operation')
    node, attrs, data = Node(), {}, {}

    def field(key, make, msgs):
        name = f'f{len(attrs)}'
        f = fields.Any(load_key=key)
        for m in make: f.add_validator(Raiser(m))
        attrs[name], data[key], node.keys[key] = f, 1, msgs
    if dim in ('message length', 'lines'):
        m = 'T0x' + ('y' * n if dim == 'message length' else 'y\nz' * n) + 'T1x'
        o = Obj(m)
        field('keyz', [fe(m if how == 'str' else o)], [m if how == 'str' else str(o)])
        field('keyy', [fe('T2x')], ['T2x'])
    elif dim == 'messages':
        ms = [f'T{i}x' for i in range(n)]
        if how == 'validators': field('keyz', [fe(m) for m in ms], ms)
        elif how == 'sequence': field('keyz', [fe(list(ms))], ms)
        else: field('keyz', [fe({'mapz': list(ms)})], [{'mapz': ms}])
        field('keyy', [fe('T%dx' % n)], ['T%dx' % n])
    elif dim == 'keys':
        for i in range(n): field(f'k{i}z', [fe(f'T{i}x')], [f'T{i}x'])
    elif dim == 'key length':
        field('k' * n + 'z', [fe('T0x')], ['T0x'])
        field('k' * n + 'y', [fe('T1x')], ['T1x'])
    elif dim == 'unknown keys':
        for i in range(n): data[f'k{i}z'] = 0
    cls = mk('Bottom', attrs)
    if dim in ('depth', 'width and depth'):
        width = 1 if dim == 'depth' else 3
        count = itertools.count()

        def level(d):
            a, da, no = {}, {}, Node()
            t = next(count)
            a[f'v{t}n'], da[f'v{t}n'], no.keys[f'v{t}n'] = fields.Any(validators=[Raiser(fe(f'T{t}x'))]), 1, [f'T{t}x']
            if d < n:
                for w in range(width):
                    t = next(count)
                    c, x, sub = level(d + 1)
                    a[f's{t}n'], da[f's{t}n'], no.keys[f's{t}n'] = fields.Object(c), x, [sub]
            return mk(f'L{d}', a), da, no
        cls, data, node = level(0)
    for w in range(wrap):
        cls = mk(f'Up{w}', {f'up{w}': fields.Object(cls, required=False)})
        data = {f'up{w}': data}
        if dim != 'unknown keys':
            node_ = Node(); node_.keys[f'up{w}'] = [node]; node = node_
    if op == 'update' and not wrap:
        raise Skip
    out = attempt(cls, data) if op == 'construct' else attempt(cls({}).update, data)
    ch.op(op, dim, n, wrap)
    e = out.exc
    ch.check(isinstance(e, ValidationError), 'no ValidationError', dim, n, out)
    raw, text = e.raw(), str(e)
    if dim == 'unknown keys':
        for w in range(wrap): raw = raw[f'up{wrap - 1 - w}'][0]
        ch.check(set(raw) == {f'k{i}z' for i in range(n)} and all(len(v) == 1 and v[0] for v in raw.values()), 'the raw form is wrong', dim, n)
        ch.check(all(len(re.findall(r'\bk%dz\b' % i, text)) == 1 for i in range(n)), 'a key is not shown once', dim, n)
        ch.check(wrap or re.search(r'\b%d\b' % n, text), 'the number of failing fields is not shown', dim, n)
    else:
        ch.check(canon(raw, True) == canon(raw_of(node), True), 'the raw form is wrong', dim, n, how)
        tags = [x for x in all_tags(node)]
        squeezed = re.sub(r'[\s│├└─]', '', text)
        for x in tags:
            ch.check(text.count(x) == 1 if '\n' not in x else squeezed.count(re.sub(r'[\s│├└─]', '', x)) == 1, 'a key or message is not shown completely, once', dim, n, how, len(x))
        if dim != 'lines' and how != 'mapping' and dim != 'message length':
            check_text(ch, text, node, cls, (dim, n))
    ch.check(str(e) == text and canon(e.raw(), True) == canon(raw_of(node), True) if dim != 'unknown keys' else str(e) == text, 'rendering twice gives different results', dim, n)
    ch.state(dim, n, how, wrap, op)


ODDKEYS = [1, '1', None, 'None', 1.5, '1.5', (1,), '(1,)', b'a', "b'a'", 'a', False, 'False', '', (), frozenset(), int, 'É', 'e']


def unknown_keys(n):
    def scenario(ch):
        """Unknown keys of every kind, looking alike in text: each is a key of its own in the raw form."""
        k = 1 + ch.choose(n, 'keys')
        idx = []
        for i in range(k):
            rest = [j for j in range(len(ODDKEYS)) if not idx or j > idx[-1]]
            if not rest: raise Skip
            idx.append(ch.pick(rest, f'key{i}'))
        keys = [ODDKEYS[i] for i in idx]
        if ch.flag('reversed'): keys.reverse()
        nested = ch.flag('nested')
        op = ch.pick(['construct', 'update'], 'operation')
        cls = mk('In', known=fields.Integer(required=False))
        data = {q: 0 for q in keys}
        bad = ch.flag('another failure')
        if bad: data['known'] = 'x'
        top = mk('Out', inner=fields.Object(cls, required=False)) if nested else cls
        given = {'inner': data} if nested else data
        out = attempt(top, given) if op == 'construct' else attempt(top({}).update, given)
        ch.op(op, keys, nested, bad, out)
        ch.check(isinstance(out.exc, ValidationError), 'no ValidationError', keys, out)
        raw = out.exc.raw()
        if nested:
            ch.check(list(raw) == ['inner'] and len(raw['inner']) == 1, 'the raw form', raw)
            raw = raw['inner'][0]
        want = keys + (['known'] if bad else [])
        ch.check(len(raw) == len(want) and all(any(x is y or type(x) is type(y) and x == y for x in raw) for y in want), 'the keys of the raw form', list(raw), want)
        ch.check(all(type(v) is list and len(v) == 1 and type(v[0]) is str and v[0] for v in raw.values()), 'one message per key', raw)
        text = str(out.exc)
        first = [l for l in text.split('\n') if column(l) is not None][0]
        ch.check(nested or re.search(r'(?<!\w)%d(?!\w)' % len(want), first.replace('In', '')), 'the number of failing fields', first, want)
        ch.check(all(str(y) in text for y in want), 'a key is not shown', text, want)
        ch.state(tuple(idx), nested, op, bad)
    return scenario


def all_tags(node):
    for k, ms in node.keys.items():
        yield k
        for m in ms:
            if isinstance(m, Node): yield from all_tags(m)
            else: yield from leaves(m)


class RawList(ValidationError):
    """A customised raw form."""
    def raw(self):
        return [(e.key, str(e.message)) for e in self.errors]


def custom_class(ch):
    """Subclasses with another raw form still have the standard text, at any level."""
    depth = ch.choose(3, 'depth')
    old = oblate.config
    cls = mk('Bottom', leafn=fields.Any(validators=[Raiser(fe('T0x', 'st')), Raiser(fe(['T1x', 'T2x'], 'st2'))]))
    data, node = {'leafn': 1}, Node()
    node.keys['leafn'] = ['T0x', 'T1x', 'T2x']
    for d in range(depth):
        cls = mk(f'Up{d}', {f'up{d}n': fields.Object(cls), f'side{d}n': fields.Any(validators=[Raiser(fe(f'T{d + 3}x'))])})
        data = {f'up{d}n': data, f'side{d}n': 0}
        n = Node(); n.keys = {f'up{d}n': [node], f'side{d}n': [f'T{d + 3}x']}
        node = n
    how = ch.pick(['set', 'replace'], 'how')
    try:
        if how == 'set':
            oblate.config.validation_error_cls = RawList
        else:
            oblate.config = oblate.GlobalConfig(validation_error_cls=RawList)
        out = attempt(cls, data)
    finally:
        oblate.config = old
        oblate.config.validation_error_cls = ValidationError
    ch.op('custom', depth, how)
    ch.check(type(out.exc) is RawList, 'the configured class is not used', out)
    check_text(ch, str(out.exc), node, cls, (depth, how))
    ch.check(len(out.exc.raw()) == len(out.exc.errors) and all(len(p) == 2 for p in out.exc.raw()), 'the customised raw form', out.exc.raw())


def dumps(ch):
    """Failures of a dump render alike."""
    fs = [ch.pick(list(FORMS), f'form{i}') for i in range(2)]
    rs = []

    class D(fields.Field):
        def __init__(self, r):
            self.r = r
            super().__init__()
        def value_load(self, v, c): return v
        def value_dump(self, v, c): self.r(c.schema, v, c)
    node, attrs, ordered = Node(), {}, True
    for i, f in enumerate(fs):
        make, ms, o = build_form(f, f'T{i}x')
        ordered &= o
        r = Raiser(make, ('st', i)); rs.append(r)
        attrs[f'fn{i}n'] = D(r); node.keys[f'fn{i}n'] = ms
    nested = ch.flag('nested')
    cls = mk('Dumped', attrs)
    x = cls(dict.fromkeys(attrs, 1))
    if nested:
        cls = mk('Outer', outn=fields.Object(cls))
        n = Node(); n.keys['outn'] = [node]; node = n
        x = cls({'outn': x})
    out = attempt(x.dump)
    ch.op('dump', fs, nested)
    ch.check(isinstance(out.exc, ValidationError), 'no error', out)
    check_error(ch, out.exc, node, cls, (fs, nested), not ordered)
    if not nested:
        for e in out.exc.errors:
            r = rs[int(e.key[2])]
            ch.check(e.context is r.last[2] and e.schema is x and (e.state is r.state or not isinstance(r.last[0], FieldError)), 'attribution', fs)
    ch.state(tuple(fs), nested)


@also_nested('raw')
@also('raw')
def scenarios(tier):
    th = tier == 'thorough'
    few = ['ok', 'text', 'list', 'mapping']
    return [
        dict(name='one key', fn=one_key(2, list(FORMS) + list(PLAIN))),
        dict(name='one key, three validators', fn=one_key(3, ['text', 'list', 'mapping of lists', 'object', 'zero', 'assertion'] if not th else list(FORMS))),
        dict(name='trees', fn=tree(2, 1, ['ok'] + list(FORMS) if th else ['ok', 'text', 'list', 'lines', 'object', 'mapping', 'mapping of lists'])),
        dict(name='wide trees', fn=tree(2, 2, few if th else few[:3])),
        dict(name='deep trees', fn=tree(4, 1, ['ok', 'text', 'list'] if not th else few)),
        dict(name='unknown keys', fn=unknown_keys(3 if th else 2)),
        dict(name='library failures', fn=library_tree),
        dict(name='repeated', fn=repeated),
        dict(name='many', fn=many),
        dict(name='repeated texts', fn=repeated_texts(7 if th else 5)),
        dict(name='extremes', fn=extremes),
        dict(name='custom class', fn=custom_class),
        dict(name='states', fn=states),
        dict(name='special objects', fn=special_objects),
        dict(name='dumps', fn=dumps),
    ]
