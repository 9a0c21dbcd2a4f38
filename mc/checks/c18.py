"""C18 Built-in validators accept exactly their documented sets."""
import collections, enum, itertools, re
from mc.lib import *
from mc.core import Skip

INFO = dict(assumptions=['values given to Range are integers, to Length sized values, to Regex strings'])


def decide(ch, cls, inst, value, want, what, msg=None, via='construct'):
    if via == 'construct':
        out = attempt(cls, {'f': value})
    elif via == 'update':
        out = attempt(inst.update, {'f': value})
    else:
        out = attempt(setattr, inst, 'f', value)
    ch.nops += 1
    ch.note(via, what, value, out)
    ch.check(out.ok or isinstance(out.exc, ValidationError), 'another exception was raised', what, value, out)
    ch.check(out.ok == want, 'a value outside the set is accepted' if out.ok else 'a value of the set is rejected', what, value, via, out)
    if not out.ok:
        e = out.exc.errors
        ch.check(len(e) == 1 and e[0].key == 'f' and strmsg(e[0].message), 'a rejected value is reported without a message or more than once', what, value, errs(out.exc))
        if msg is not None:
            ch.same(strmsg(e[0].message), msg, 'wrong failure message')
    else:
        got = (out.value if via == 'construct' else inst).f
        ch.check(got is value or eqv(got, value), 'the value was changed by a validator', what, value, got)
    return out


def all_ways(ch, field, base, values, what, msg=None):
    """Accepts exactly {v | want(v)} at construction, on update and by assignment; base is an acceptable value or None."""
    cls = mk('S', f=field)
    inst = None
    for v, want in values:
        if want:
            inst = attempt(cls, {'f': v}).value
            break
    for v, want in values:
        decide(ch, cls, None, v, want, what, msg and msg(v))
        if inst is not None:
            decide(ch, cls, inst, v, want, what, msg and msg(v), 'update')
            decide(ch, cls, inst, v, want, what, msg and msg(v), 'assign')
        ch.state(what, repr(v))


class IntSub(int):
    def __repr__(self): return f'IntSub({int(self)})'


class Level(enum.IntEnum):
    NIL = 0
    ONE = 1


def ranges(lo, hi):
    def scenario(ch):
        form = ch.pick(['one', 'two', 'standard'], 'form')
        span = range(lo, hi + 1)
        near = list(range(lo - 3, hi + 4)) + [10 ** 20, -10 ** 20, True, False, IntSub(0), IntSub(2), IntSub(hi), Level.ONE, Level.NIL]
        if form == 'one':
            b = ch.pick(span, 'bound')
            v, want, what = validate.Range(b), (lambda x: 0 <= x <= b), f'Range({b})'
        elif form == 'two':
            a, b = ch.pick(span, 'lower'), ch.pick(span, 'upper')
            v, want, what = validate.Range(a, b), (lambda x: a <= x <= b), f'Range({a}, {b})'
        else:
            a, b, s = ch.pick(span, 'start'), ch.pick(span, 'stop'), ch.pick([1, 2, 3, 5, -1, -2, -3, 7], 'step')
            r = range(a, b, s)
            v, want, what = validate.Range.from_standard(r), (lambda x: x in list(r)), f'Range.from_standard({r})'
        all_ways(ch, fields.Integer(validators=[v]), None, [(x, want(x)) for x in near], what)
    return scenario


def big_ranges(ch):
    L = [0, 1, -1, 255, 256, 257, 10 ** 9, 2 ** 63, -2 ** 63, 10 ** 30]
    a, b = ch.pick(L, 'lower'), ch.pick(L, 'upper')
    near = sorted({x + d for x in (a, b, (a + b) // 2, 0) for d in (-1, 0, 1)})
    all_ways(ch, fields.Integer(validators=[validate.Range(a, b)]), None, [(x, a <= x <= b) for x in near], f'Range({a}, {b})')
    all_ways(ch, fields.Integer(validators=[validate.Range(b)]), None, [(x, 0 <= x <= b) for x in near], f'Range({b})')
    st = ch.pick([1, 1000, -1000], 'step')
    r = range(a, b, st)
    def want(x):
        return (r.start <= x < r.stop or r.start >= x > r.stop) and (x - r.start) % st == 0 and ((st > 0) == (r.start <= x)  or x == r.start) and len_nonempty(r, x)
    def len_nonempty(r, x):
        return (x >= r.start and x < r.stop) if r.step > 0 else (x <= r.start and x > r.stop)
    all_ways(ch, fields.Integer(validators=[validate.Range.from_standard(r)]), None, [(x, want(x)) for x in near + [a + st, a + st - 1]], f'from_standard({r})')


class Sized:
    def __init__(self, n):
        self.n = n
    def __len__(self):
        return self.n
    def __repr__(self):
        return f'Sized({self.n})'


class FalsySized(Sized):
    def __bool__(self):
        return False


def sized(n):
    return ['x' * n, [0] * n, tuple(range(n)), set(range(n)), dict.fromkeys(range(n)), b'b' * n, range(n), Sized(n), FalsySized(n), frozenset(range(n)), 'é' * n, [None] * n]


def lengths(top):
    def scenario(ch):
        form = ch.pick(['min', 'max', 'both', 'exact'], 'form')
        if form == 'both':
            a, b = ch.choose(top + 1, 'min'), ch.choose(top + 1, 'max')
            kw = dict(min=a, max=b)
        else:
            a = ch.choose(top + 1, 'bound')
            kw = {form: a}
        lo = kw.get('min', kw.get('exact', 0))
        hi = kw.get('max', kw.get('exact', 10 ** 9))
        vals = [(x, lo <= n <= hi) for n in range(top + 3) for x in sized(n)]
        all_ways(ch, fields.Any(validators=[validate.Length(**kw)]), None, vals, f'Length({kw})')
    return scenario


def big_lengths(ch):
    a = ch.pick([10, 255, 256, 257, 1000], 'bound')
    form = ch.pick(['min', 'max', 'exact'], 'form')
    vals = [(x, {'min': n >= a, 'max': n <= a, 'exact': n == a}[form]) for n in (0, 1, a - 1, a, a + 1, 2 * a) for x in ('y' * n, [1] * n, Sized(n))]
    all_ways(ch, fields.Any(validators=[validate.Length(**{form: a})]), None, vals, f'Length({form}={a})')


class Same:
    """Equal to every other one."""
    def __eq__(self, other):
        return isinstance(other, Same)
    __hash__ = None
    def __repr__(self):
        return 'Same()'


EX = [0, 1, '', 'a', 1.5, [], [1], {}, {'a': 1}, (), b'a', Same(), True, False, 'A', {1}, 'ab', -1]


def excludes(k, alpha):
    def scenario(ch):
        n = ch.choose(k + 1, 'how many')
        vals = [EX[ch.pick(alpha, f'value{i}')] for i in range(n)]
        want = lambda x: not any(x == y for y in vals)
        all_ways(ch, fields.Any(validators=[validate.Exclude(*vals)]), None, [(x, want(x)) for x in EX + [Same(), 2, [2], 'b', 0.0, [[]]]], f'Exclude{tuple(vals)!r}')
    return scenario


PATTERNS = ['', 'a', 'ab', 'a|b', '^a', 'a$', '^a$', r'\Aa\Z', 'a*', 'a+b', '[ab]+', '.', '.b', 'a.b', '(a)(b)?', r'\bb', '(?i)a', 'b(?=a)', '(?<=a)b', '[^a]', 'a{2}', r'\n', 'A', r'\w+', '(?:ab)+', '$', 'é', '^b.*a$', 'a|ab', 'ab|a']
FLAGS = [0, re.I, re.M, re.S, re.I | re.M, re.M | re.S, re.X, re.A]


def regexes(maxlen, letters, flags):
    strings = [''.join(x) for n in range(maxlen + 1) for x in itertools.product(letters, repeat=n)]

    def scenario(ch):
        pat = ch.pick(PATTERNS, 'pattern')
        fl = ch.pick(flags, 'flags')
        mode = ch.pick(['match', 'fullmatch', 'search'], 'mode')
        form = ch.pick(['text', 'compiled', 'message'], 'form')
        kw = {'fullmatch': dict(full_match=True), 'search': dict(search=True), 'match': {}}[mode]
        rx = re.compile(pat, fl)
        msg = None
        if form == 'text':
            v = validate.Regex(pat, fl, **kw)
        elif form == 'compiled':
            v = validate.Regex(rx, **kw)
        else:
            v = validate.Regex(pat, flags=fl, fail_message='{value} is not {pattern} ({value})', **kw)
            msg = lambda s: f'{s} is not {rx} ({s})'
        want = lambda s: getattr(rx, mode)(s) is not None
        all_ways(ch, fields.String(validators=[v]), None, [(s, want(s)) for s in strings], f'Regex({pat!r}, {fl!r}, {mode}, {form})', msg)
    return scenario


TEXTS = ['', 'a', '{', '}', '{}', '{0}', '{value}', '{pattern}', '{x!r}', '{{', '{{}}', '%s', '%(value)s', '$value', '\\1', '\n', '{value:>9}', '{0.x}', '{a[b]}', 'a{1,2}']
MESSAGES = [None, 'no', '{value}', '{pattern}', '{value}{pattern}', '{pattern} {value} {value!r}', '{{{value}}}', '%s {value}', '{value:>5}', '', '{{}}']
PATS = ['zz', 'a{3,}', r'\{zz\}', 'zz{2}', '{zz}', '[{}]{3}zz', '%s zz', r'(?P<value>zz)']


def fail_messages(ch):
    """Any text, rejected with any message, whatever braces and percent signs are in the text, the pattern and the message."""
    msg = ch.pick(MESSAGES, 'message')
    pat = ch.pick(PATS, 'pattern')
    compiled = ch.flag('compiled')
    kw = ch.pick([{}, dict(full_match=True), dict(search=True)], 'mode')
    rx = re.compile(pat)
    v = validate.Regex(rx if compiled else pat, **kw, **({} if msg is None else dict(fail_message=msg)))
    cls = mk('F', f=fields.String(validators=[v]), g=fields.String(required=False, validators=[v]))
    fn = getattr(rx, 'fullmatch' if 'full_match' in kw else 'search' if kw else 'match')
    for x in TEXTS:
        out = attempt(cls, {'f': x})
        ch.op('Regex', msg, pat, x, out)
        if fn(x):
            ch.check(out.ok, 'an accepted text is rejected', msg, pat, x, out)
            continue
        ch.check(isinstance(out.exc, ValidationError), 'a rejected text is not reported as a validation failure', msg, pat, x, out)
        ms = out.exc.raw()['f']
        ch.check(len(ms) == 1, 'messages', ms)
        if msg == '' or (msg == '{value}' and not x):
            ch.check(ms[0], 'the message is empty', msg, x, ms)
        elif msg is not None:
            ch.check(ms[0] == msg.format(value=x, pattern=rx), 'the message', ms[0], msg, x, pat)
        else:
            ch.check(ms[0].strip(), 'the default message is empty', ms)
        two = attempt(cls, {'f': x, 'g': x})
        ch.check(isinstance(two.exc, ValidationError) and two.exc.raw() == {'f': ms, 'g': ms}, 'the message for another field', two, ms)
    ch.state(msg, pat, compiled, repr(kw))


def odd_values(ch):
    """Sized and comparable values that do not behave like the built-in ones."""
    class Sized_:
        def __init__(self, n): self.n = n
        def __len__(self): return self.n
        def __bool__(self): return False
    class LyingList(list):
        def __len__(self): return 2
    class Truthy(str):
        def __bool__(self): return len(self) == 0
    class EqAll:
        def __eq__(self, o): return True
        __hash__ = None
    class EqNone:
        def __eq__(self, o): return False
        __hash__ = None
    lo = ch.choose(4, 'min') - 1
    hi = ch.choose(4, 'max') - 1
    if lo < 0 and hi < 0 or 0 <= hi < lo: raise Skip
    kw = {k: v for k, v in (('min', lo), ('max', hi)) if v >= 0}
    vals = [Sized_(0), Sized_(1), Sized_(2), Sized_(3), LyingList(), LyingList('abc'), Truthy(''), Truthy('a'), Truthy('abc'), range(0), range(3), {}, {1: 0}, frozenset(), b'', b'ab', bytearray(b'abc'), collections.deque([1]), memoryview(b'ab')]
    vals += ['a ', ' a', '  ', '\n', 'a\n\t', '\0', '\0\0', 'é', 'e\u0301', '\U0001f600', '\ud800', 'ß\u200b', ['', ''], [None], [[]], (0, 0, 0), {None: None}, {'': '', 'a': ''}, b' ', b'\0\0\0']
    want = lambda x: (lo < 0 or len(x) >= lo) and (hi < 0 or len(x) <= hi)
    all_ways(ch, fields.Any(validators=[validate.Length(**kw)]), None, [(x, want(x)) for x in vals], f'Length({kw})')
    v = validate.Exclude('a', 0)
    ea, en = EqAll(), EqNone()
    all_ways(ch, fields.Any(validators=[v]), None, [(ea, False), (en, True), ([], True), ({}, True), (0.0, False), (False, False), ('A', True), ({'a'}, True)], 'Exclude of values with their own equality')
    all_ways(ch, fields.Any(validators=[validate.Exclude(ea)]), None, [(ea, False), (1, False), ('', False), ([], False)], 'Exclude of something equal to all')
    all_ways(ch, fields.Any(validators=[validate.Exclude(en, [])]), None, [(en, False), (1, True), ([], False), ((), True)], 'Exclude of something equal to nothing but itself')


class Boom(Exception):
    pass


LOG = []
RESULTS = ['pass', 've', 'ae', 'fe', 'empty', 'seq', 'falsy', 'verr', 'boom', 'type']


def respond(kind, name):
    LOG.append(name)
    if kind == 've': raise ValueError(name)
    if kind == 'ae': raise AssertionError(name)
    if kind == 'fe': raise FieldError(name, state={'of': name})
    if kind == 'empty': raise ValueError
    if kind == 'seq': raise FieldError([name, name], state=name)
    if kind == 'verr': raise UnicodeDecodeError('u', b'', 0, 0, 'sub of ValueError')
    if kind == 'boom': raise Boom(name)
    if kind == 'type': raise TypeError(name)
    return False if kind == 'falsy' else None


SEEN = []


def inner(kind, i, form):
    name = f'v{i}'
    if form == 0:
        def f(schema, value, ctx):
            SEEN.append((schema, value, ctx))
            return respond(kind, name)
        return f
    class V(validate.Validator, raw=(form == 2)):
        def validate(self, value, ctx):
            SEEN.append((ctx.schema, value, ctx))
            return respond(kind, name)
    return V()


ACCEPT, UNREL = {'pass', 'falsy'}, {'boom', 'type'}


def or_expect(kinds):
    """(outcome, names called) of a list of kinds or nested lists (pairs of index and kind)."""
    log = []
    def run(node):
        if isinstance(node, tuple):
            log.append(f'v{node[0]}')
            return 'accept' if node[1] in ACCEPT else 'raise' if node[1] in UNREL else 'reject'
        for x in node:
            r = run(x)
            if r != 'reject':
                return r
        return 'reject'
    return run(kinds), log


def ors(n, results, forms):
    def scenario(ch):
        k = ch.choose(n + 1, 'how many')
        nest = ch.choose(3, 'nesting')       # 0 flat, 1 first two in an Or, 2 the rest in an Or
        kinds = [(i, ch.pick(results, f'result{i}')) for i in range(k)]
        form = [ch.pick(forms, f'form{i}') if i < 2 else 0 for i in range(k)]
        vs = [inner(kd, i, form[i]) for i, kd in kinds]
        if nest == 0: v, tree = validate.Or(*vs), kinds
        elif nest == 1: v, tree = validate.Or(validate.Or(*vs[:2]), *vs[2:]), [kinds[:2]] + kinds[2:]
        else: v, tree = validate.Or(*vs[:1], validate.Or(*vs[1:])), kinds[:1] + [kinds[1:]]
        want, log = or_expect(tree)
        value = ch.pick([0, '', []], 'value')
        seen = []
        class F(fields.Any):
            __slots__ = ()
            def value_load(self, value, context):
                seen.append(context)
                return value
        cls = mk('S', f=F(validators=[v]), g=fields.Any(required=False))
        for _ in range(2):
            del LOG[:], SEEN[:], seen[:]
            out = attempt(cls, {'f': value})
            ch.op('Or', kinds, nest, form, out)
            ch.same(LOG, log, 'the validators of Or ran differently')
            if want == 'raise':
                ch.check(isinstance(out.exc, (Boom, TypeError)) and str(out.exc) == LOG[-1], 'an unrelated exception of a validator did not pass', kinds, nest, out)
            elif want == 'accept':
                ch.check(out.ok, 'a value accepted by one validator is rejected', kinds, nest, out)
            else:
                ch.check(isinstance(out.exc, ValidationError) and len(out.exc.errors) == 1 and out.exc.errors[0].key == 'f' and strmsg(out.exc.errors[0].message), 'a value accepted by no validator is not reported once', kinds, nest, out)
            for s, x, c in SEEN:
                ch.check(x is value and c is seen[0] and isinstance(s, cls) and s is c.schema, 'a validator of Or got something else', kinds, x, c)
        ch.state(k, nest, tuple(kinds), tuple(form))
    return scenario


def raw_values(ch):
    """Validators used on raw values see every value, None included."""
    vals = [None, 0, '', False, [], {}, 'a', 1, 2.5, True, [None], 'None']
    form = ch.pick(['class', 'inside a function', 'inside a class'], 'form')
    n = ch.choose(4, 'how many')
    pool = [('Exclude(None)', lambda: validate.Exclude(None), lambda x: x is not None), ('Exclude("", "a")', lambda: validate.Exclude('', 'a'), lambda x: x not in ('', 'a')),
            ('not list', lambda: notlist, lambda x: not isinstance(x, list)), ('truthy', lambda: truthy, lambda x: bool(x)),
            ('Or()', lambda: validate.Or(), lambda x: False), ('Or(Exclude(None))', lambda: validate.Or(validate.Exclude(None)), lambda x: x is not None)]
    ps = [pool[ch.choose(len(pool), f'v{i}')] for i in range(n)]
    what = 'Or of ' + ', '.join(p[0] for p in ps)
    vs = [p[1]() for p in ps]
    class ROr(validate.Or, raw=True):
        pass
    f = fields.Any(none=True)
    if form == 'class':
        f.add_validator(ROr(*vs))
    elif form == 'inside a function':
        o = validate.Or(*vs)
        f.add_validator(lambda s, v, c: o(s, v, c), raw=True)
    else:
        o = validate.Or(*vs)
        class W(validate.Validator, raw=True):
            def validate(self, value, ctx):
                o(ctx.schema, value, ctx)
        f.add_validator(W())
    all_ways(ch, f, None, [(x, any(p[2](x) for p in ps)) for x in vals], what)


def notlist(schema, value, ctx):
    assert not isinstance(value, list), 'list'


def truthy(schema, value, ctx):
    if not value:
        raise FieldError('falsy')


def builtins_in_or(ch):
    """Or of built-in validators accepts the union of their sets; as raw validators of other fields they still see the value."""
    pool = [('R(2)', validate.Range(2), lambda x: 0 <= x <= 2), ('R(5,6)', validate.Range(5, 6), lambda x: 5 <= x <= 6), ('E(0)', validate.Exclude(0, 1), lambda x: x not in (0, 1)),
            ('FS', validate.Range.from_standard(range(10, 0, -3)), lambda x: x in (10, 7, 4, 1)), ('Or', validate.Or(validate.Range(-1, -1), validate.Range(8)), lambda x: x == -1 or 0 <= x <= 8),
            ('FS2', validate.Range.from_standard(range(0, 10, 5)), lambda x: x in (0, 5)), ('FS3', validate.Range.from_standard(range(0, 10, 3)), lambda x: x in (0, 3, 6, 9)), ('E(5)', validate.Exclude(5), lambda x: x != 5)]
    a, b, c = (ch.choose(len(pool), f'v{i}') for i in range(3))
    v = validate.Or(pool[a][1], pool[b][1], pool[c][1])
    want = lambda x: any(pool[i][2](x) for i in (a, b, c))
    all_ways(ch, fields.Integer(validators=[v]), None, [(x, want(x)) for x in range(-3, 13)], f'Or of {pool[a][0]} {pool[b][0]} {pool[c][0]}')
    both = lambda x: all(pool[i][2](x) for i in (a, b))
    cls = mk('B', f=fields.Integer(validators=[pool[a][1], pool[b][1]]))
    for x in range(-3, 13):
        out = attempt(cls, {'f': x})
        n = sum(not pool[i][2](x) for i in (a, b))
        ch.check((0 if out.ok else len(out.exc.errors)) == n, 'two validators of one field', pool[a][0], pool[b][0], x, out)


def texts_in_or(ch):
    """The same over texts: validators of one kind with equal messages are still several validators."""
    pool = [('a', validate.Regex('a'), lambda x: x[:1] == 'a'), ('b', validate.Regex('b'), lambda x: x[:1] == 'b'), ('full ab', validate.Regex('ab', full_match=True), lambda x: x == 'ab'),
            ('find b', validate.Regex('b', search=True), lambda x: 'b' in x), ('E a', validate.Exclude('a', 'bb'), lambda x: x not in ('a', 'bb')), ('E b', validate.Exclude('b', ''), lambda x: x not in ('b', '')),
            ('L2', validate.Length(exact=2), lambda x: len(x) == 2), ('L0', validate.Length(max=0), lambda x: x == ''), ('L3', validate.Length(min=3), lambda x: len(x) >= 3),
            ('none', validate.Or(validate.Length(min=9), validate.Length(exact=7)), lambda x: len(x) >= 9 or len(x) == 7)]
    n = ch.choose(3, 'how many') + 1
    ks = [ch.choose(len(pool), f'v{i}') for i in range(n)]
    v = validate.Or(*[pool[i][1] for i in ks])
    texts = [''.join(p) for k in range(4) for p in itertools.product('abc'[:3 if k < 3 else 2], repeat=k)] + ['a' * 7, 'c' * 9]
    F = mk('F', f=fields.String(validators=[v]))
    G = mk('G', f=fields.String(validators=[pool[i][1] for i in ks]))
    for x in texts:
        ch.nops += 1
        want = any(pool[i][2](x) for i in ks)
        out = attempt(F, {'f': x})
        ch.check(out.ok == want, 'an Or decides differently from its validators', [pool[i][0] for i in ks], x, out)
        out = attempt(G, {'f': x})
        bad = sum(not pool[i][2](x) for i in ks)
        ch.check((0 if out.ok else len(out.exc.errors)) == bad, 'each validator of a list decides', [pool[i][0] for i in ks], x, out)
    ch.state(*ks)


def history(ch):
    """A validator shared by several fields and schemas keeps no state between values."""
    k = ch.choose(7, 'validator')
    v, vals, want, mkf = [
        (lambda: validate.Range(1, 3), [0, 1, 3, 4], lambda x: 1 <= x <= 3, fields.Integer),
        (lambda: validate.Range.from_standard(range(1, 6, 2)), [0, 1, 5, 2], lambda x: x in (1, 3, 5), fields.Integer),
        (lambda: validate.Length(min=1, max=2), ['', 'a', 'ab', 'abc'], lambda x: 1 <= len(x) <= 2, fields.String),
        (lambda: validate.Exclude('a', ''), ['', 'a', 'b', 'aa'], lambda x: x not in ('a', ''), fields.String),
        (lambda: validate.Regex('a+$'), ['', 'a', 'ab', 'aa'], lambda x: re.match('a+$', x) is not None, fields.String),
        (lambda: validate.Regex(r'\bb', search=True), ['', 'a b', 'ab', 'b'], lambda x: re.search(r'\bb', x) is not None, fields.String),
        (lambda: validate.Or(validate.Length(exact=0), validate.Regex('^b')), ['', 'a', 'b', 'ab'], lambda x: x == '' or x[0] == 'b', fields.String),
    ][k]
    val = v()
    cls = [mk('H1', f=mkf(validators=[val])), mk('H2', f=mkf(validators=[val], none=True), g=mkf(validators=[val], required=False))]
    good = [x for x in vals if want(x)][0]
    insts = [c({'f': good}) for c in cls]
    for step in range(4):
        x = vals[ch.choose(4, f'value{step}')]
        c = ch.choose(2, f'schema{step}')
        via = ['construct', 'update', 'assign'][step % 3]
        decide(ch, cls[c], insts[c], x, want(x), ('shared', k, step), None, via)
        if not want(x) and c == 1:
            out = attempt(cls[1], {'f': x, 'g': x})
            ch.check(isinstance(out.exc, ValidationError) and sorted(e.key for e in out.exc.errors) == ['f', 'g'], 'one validator on two fields', x, out)
    ch.state(k, snap(insts[0], ['f']))


def scenarios(tier):
    th = tier == 'thorough'
    return [
        dict(name='ranges', fn=ranges(-4, 5) if not th else ranges(-9, 12)),
        dict(name='big ranges', fn=big_ranges),
        dict(name='lengths', fn=lengths(4 if not th else 8)),
        dict(name='big lengths', fn=big_lengths),
        dict(name='excludes', fn=excludes(2, range(len(EX)))),
        dict(name='regexes', fn=regexes(3, 'ab\nA', FLAGS) if not th else regexes(4, 'ab\nA é', FLAGS)),
        dict(name='or', fn=ors(3, RESULTS, (0, 1, 2))),
        dict(name='or of four', fn=ors(4, ['pass', 've', 'fe', 'boom'], (0,)) if not th else ors(4, RESULTS, (0,))),
        dict(name='raw values', fn=raw_values),
        dict(name='fail messages', fn=fail_messages),
        dict(name='odd values', fn=odd_values),
        dict(name='builtins in or', fn=builtins_in_or),
        dict(name='texts in or', fn=texts_in_or),
        dict(name='history', fn=history),
    ] + ([dict(name='excludes of three', fn=excludes(3, range(0, len(EX), 2)))] if th else [])
