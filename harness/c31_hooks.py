from hlib import *

D = decimal_module.Decimal


class Recorder(object):
    def __init__(self, f):
        self.f = f
        self.seen = []

    def __call__(self, value):
        self.seen.append(value)
        return self.f(value)


KINDS = {
    # kind: (field with preprocessor, value given natively, wire spec, preprocessed value)
    'integer': lambda S, p: (Integer(minimum=0, maximum=10, preprocessor=p), S.int('v', -20, 20)),
    'text': lambda S, p: (Text(max_length=2, strip=False, preprocessor=p), S.text('v', 3, 0, 'ab')),
    'token': lambda S, p: (Token(preprocessor=p), S.text('v', 2, 0, 'a:-')),
    'boolean': lambda S, p: (Boolean(constant=True, preprocessor=p), S.bool('v')),
    'float': lambda S, p: (Float(maximum=2.0, preprocessor=p), S.choice('v', [0.0, 1.5, 2.5, -1.0])),
    'decimal': lambda S, p: (Decimal(maximum=D(2), preprocessor=p), S.choice('v', [D('0'), D('1.5'), D('3')])),
    'date': lambda S, p: (Date(minimum=date(2000, 1, 1), preprocessor=p), date(S.int('v', 1, 9999), 5, 17)),
    'time': lambda S, p: (Time(maximum=time(12, 0, 0), preprocessor=p), time(S.int('v', 0, 23), 0, 0)),
    'datetime': lambda S, p: (DateTime(utc=True, preprocessor=p),
        datetime(S.int('v', 1990, 2010), 1, 2, 3, 4, 5, 0, UTC)),
    'enumeration': lambda S, p: (Enumeration(['a', 'aa', 3], preprocessor=p), S.choice('v', ['a', 'b', 3])),
    'binary': lambda S, p: (Binary(max_length=2, preprocessor=p), S.bytes('v', 3)),
    'uuid': lambda S, p: (UUID(preprocessor=p), S.choice('v', ['0' * 8 + '-0000-0000-0000-' + '0' * 12, 'x'])),
    'email': lambda S, p: (Email(preprocessor=p), S.choice('v', ['a@b.co', 'A@b.co', 'x'])),
    'any': lambda S, p: (Field(constant='aa', preprocessor=p), S.text('v', 2, 0, 'ab')),
    'sequence': lambda S, p: (Sequence(Integer(), max_length=2, preprocessor=p),
        [S.int('v%d' % i) for i in range(S.pick('n', 4))]),
    'map': lambda S, p: (Map(Integer(), required_keys='k', preprocessor=p),
        dict((k, S.int(k)) for k in 'jk' if S.bool(k + '?'))),
    'tuple': lambda S, p: (Tuple([Integer(), Integer()], preprocessor=p),
        tuple([S.int('v%d' % i) for i in range(S.pick('n', 4))])),
    'structure': lambda S, p: (Structure({'k': Integer(required=True)}, preprocessor=p),
        dict((k, S.int(k)) for k in 'jk' if S.bool(k + '?'))),
    'polymorphic': lambda S, p: (Structure({'x': {'k': Integer()}, 'y': {'j': Integer()}}, polymorphic_on='t',
        preprocessor=p), dict([('t', S.choice('t', ['x', 'y', 'z']))] + [(k, S.int(k)) for k in 'jk'
        if S.bool(k + '?')])),
}
CHANGES = {
    'integer': lambda v: v + 5, 'text': lambda v: v + 'a', 'token': lambda v: v + 'z',
    'boolean': lambda v: not v, 'float': lambda v: v + 1.0, 'decimal': lambda v: v + 1,
    'date': lambda v: v.replace(year=2001), 'time': lambda v: v.replace(hour=13 if v.hour == 1 else 1),
    'datetime': lambda v: v.replace(year=2000), 'enumeration': lambda v: 'aa' if v == 'a' else v,
    'binary': lambda v: v + b'z', 'uuid': lambda v: v.replace('0', 'f'), 'email': lambda v: 'c' + v,
    'any': lambda v: v + 'a', 'sequence': lambda v: v + [7], 'map': lambda v: dict(v, k=9),
    'tuple': lambda v: v[:1] + v, 'structure': lambda v: dict((k, x) for k, x in v.items() if k != 'j'),
    'polymorphic': lambda v: dict(v, t='x'),
}
PLAINLY = {'integer', 'text', 'token', 'float', 'boolean', 'enumeration', 'uuid', 'email', 'any', 'sequence', 'map',
    'tuple', 'structure', 'polymorphic'}


def natively(kind, v):
    return v if kind in PLAINLY else wire(kind, v)


@harness('C31', variants=sorted(KINDS), covers=['accepted', 'refused', 'null'], quick=8000)
def applied(S, kind):
    """a preprocessor that changes its value and counts its calls, on nineteen kinds of field with limits,
    in any place, in all four calls; values symbolic: called once, with the converted value, before
    validation; never for null"""
    recorder = Recorder(CHANGES[kind])
    # the reference: the same field without a preprocessor judging the changed value
    field, value = KINDS[kind](S, recorder)
    # (an email field's own preprocessor is replaced, not added to)
    plain, _ = KINDS[kind](Repeat(S), (lambda v: v) if kind == 'email' else None)
    null = S.bool('null')
    if null:
        value = None
    phase, serialized = S.choice('call', CALLS)
    place = S.choice('place', ['alone', 'map', 'sequence', 'deep'])
    outer, wrap, unwrap = placed(S, field, place)
    inbound = serialized and phase == INBOUND
    given = natively(kind, value) if inbound else value
    out = attempt(outer.process, wrap(given), phase, serialized)
    if null:
        S.cover('null')
        S.check(out.ok and not recorder.seen, 'null is not preprocessed')
        S.same(unwrap(out.value), None, 'and stays null')
        return
    S.check(len(recorder.seen) == 1, 'called exactly once')
    S.same(recorder.seen[0], value, 'with the converted value')
    changed = CHANGES[kind](value)
    expect = attempt(plain.process, natively(kind, changed) if inbound else changed, phase, serialized)
    if expect.ok:
        S.cover('accepted')
        S.check(out.ok, 'a value that is valid once preprocessed is accepted')
        S.same(unwrap(out.value), expect.value, 'and the preprocessed value is kept')
    else:
        S.cover('refused')
        S.check(out.error, 'a value that is invalid once preprocessed is refused')
        e = error_at(out, place)
        S.same([x['token'] for x in e.errors], [x['token'] for x in expect.value.errors], 'for that reason')


class Repeat(object):
    """Gives some value wherever the symbolic source would be asked again (only the field is used)."""

    def __init__(self, S):
        self.S = S

    def int(self, name, lo=None, hi=None):
        return lo or 1

    def text(self, *a):
        return ''

    def bytes(self, *a):
        return b''

    def bool(self, name):
        return False

    def choice(self, name, values):
        return values[0]

    def pick(self, name, n):
        return 0


@harness('C31', variants=['structure', 'map', 'sequence', 'tuple', 'keys'], covers=['counted'])
def each_element(S, kind):
    """element preprocessors in containers of 0-3 elements (nulls among them): each is called once per
    non-null element with that element, in order, and no other element's is called"""
    a, b = Recorder(lambda v: v + 1), Recorder(lambda v: v + 'x')
    n = S.pick('n', 4)
    values = [None if S.bool('null%d' % i) else S.int('v%d' % i) for i in range(n)]
    if kind == 'structure':
        names = 'abc'[:n]
        field = Structure(dict([(k, Integer(preprocessor=a)) for k in 'abc'] + [('t', Text(preprocessor=b))]))
        value = dict([(k, v) for k, v in zip(names, values)] + [('t', 'q')])
        expect = dict([(k, None if v is None else v + 1) for k, v in zip(names, values)] + [('t', 'qx')])
    elif kind == 'map':
        names = 'abc'[:n]
        field, value = Map(Integer(preprocessor=a)), dict(zip(names, values))
        expect = dict((k, None if v is None else v + 1) for k, v in value.items())
    elif kind == 'keys':
        names = 'abc'[:n]
        field, value = Map(Integer(preprocessor=a), key=Text(preprocessor=b)), dict(zip(names, values))
        expect = dict((k + 'x', None if v is None else v + 1) for k, v in value.items())
    elif kind == 'sequence':
        field, value = Sequence(Integer(preprocessor=a)), values
        expect = [None if v is None else v + 1 for v in values]
    else:
        S.assume(n > 0)
        field = Tuple([Integer(preprocessor=a)] * n + [Text(preprocessor=b)])
        value = tuple(values) + ('q',)
        expect = tuple([None if v is None else v + 1 for v in values]) + ('qx',)
    phase, serialized = S.choice('call', CALLS)
    out = attempt(field.process, value, phase, serialized)
    S.cover('counted')
    S.check(out.ok, 'accepted')
    S.same(out.value, expect, 'every element is preprocessed')
    S.same(a.seen, [v for v in values if v is not None], 'each once')
    if kind == 'keys':
        S.same(b.seen, list(value), 'and each key once')
    elif kind in ('structure', 'tuple'):
        S.same(b.seen, ['q'], 'by its own preprocessor')


FAILING = {
    # kind: (constructor, [(value, token)])
    'integer': (lambda **p: Integer(minimum=0, maximum=5, nonnull=True, **p),
        [(-1, 'minimum'), (9, 'maximum'), ('x', 'invalid'), (None, 'nonnull')]),
    'text': (lambda **p: Text(min_length=2, max_length=3, pattern='^a', nonnull=True, **p),
        [('a', 'min_length'), ('aaaa', 'max_length'), ('bb', 'pattern'), (3, 'invalid'), (None, 'nonnull')]),
    'date': (lambda **p: Date(minimum=date(2000, 1, 1), maximum=date(2001, 1, 1), **p),
        [(date(1999, 1, 1), 'minimum'), (date(2002, 1, 1), 'maximum'), ('x', 'invalid')]),
    'enumeration': (lambda **p: Enumeration(['a', 3], nonnull=True, **p), [('b', 'invalid'), (None, 'nonnull')]),
    'token': (lambda **p: Token(segments=2, nonnull=True, **p), [('a', 'invalid'), (None, 'nonnull')]),
    'sequence': (lambda **p: Sequence(Field(), min_length=1, max_length=2, unique=True, **p),
        [([], 'min_length'), ([1, 2, 3], 'max_length'), ([1, 1], 'duplicate'), ('x', 'invalid')]),
    'map': (lambda **p: Map(Field(), nonnull=True, **p), [('x', 'invalid'), ({1: 1}, 'invalidkeys'),
        (None, 'nonnull')]),
    'tuple': (lambda **p: Tuple([Field()], nonnull=True, **p), [('x', 'invalid'), ([], 'length'),
        (None, 'nonnull')]),
    'structure': (lambda **p: Structure({'x': {}}, polymorphic_on='t', nonnull=True, **p),
        [('x', 'invalid'), ({}, 'required'), ({'t': 'q'}, 'invalid' ), (None, 'nonnull')]),
    'decimal': (lambda **p: Decimal(minimum=D(0), maximum=D(1), **p), [(D(-1), 'minimum'), (D(2), 'maximum'),
        (1.5, 'invalid')]),
    'time': (lambda **p: Time(minimum=time(1), maximum=time(2), nonnull=True, **p), [(time(0), 'minimum'),
        (time(3), 'maximum'), (3, 'invalid'), (None, 'nonnull')]),
    'binary': (lambda **p: Binary(min_length=1, max_length=2, **p), [(b'', 'min_length'), (b'aaa', 'max_length'),
        (3, 'invalid')]),
    'union': (lambda **p: Union([Integer()], nonnull=True, **p), [('x', 'invalid'), (None, 'nonnull')]),
    'boolean': (lambda **p: Boolean(nonnull=True, **p), [(3, 'invalid'), (None, 'nonnull')]),
}


@harness('C31', variants=sorted(FAILING), covers=['custom', 'standard', 'neighbour'])
def errors(S, kind):
    """custom errors for any subset of a field's tokens, for fourteen kinds of field: a failure is reported with
    the custom title and message for a replaced token, with the standard ones for any other, and a
    neighbour or later field of the same type without custom errors keeps the standard ones"""
    make, failures = FAILING[kind]
    tokens = sorted(set([t for _, t in failures]))
    custom = [t for t in tokens if S.bool('custom ' + t)]
    field = make(name='f', errors=[FieldError(t, 'T ' + t, 'M ' + t + ' %(field)s') for t in custom])
    neighbour = make(name='g')
    value, token = S.choice('failure', failures)
    where = S.choice('where', ['first', 'second', 'alone'])
    if where == 'alone':
        e = attempt(field.process, value).value
        other = attempt(neighbour.process, value).value
    else:
        outer = Structure({'f': field, 'g': neighbour} if where == 'first' else {'g': neighbour, 'f': field})
        out = attempt(outer.process, {'f': value, 'g': value})
        S.check(out.error, 'refused')
        e, other = out.value.structure['f'], out.value.structure['g']
    if kind == 'structure' and value == {'t': 'q'}:
        # reported by the discriminator
        S.assume(False)
    S.check(isinstance(e, StructuralError) and isinstance(other, StructuralError), 'both are refused')
    S.same([x['token'] for x in e.errors], [token], 'the failure keeps its token')
    if token in custom:
        S.cover('custom')
        S.same((e.errors[0]['title'], e.errors[0]['message']), ('T ' + token, 'M ' + token + ' f'),
            'with the custom title and message')
    else:
        S.cover('standard')
        S.check(e.errors[0]['title'] != 'T ' + token and not e.errors[0]['message'].startswith('M '),
            'with the standard title and message')
    S.cover('neighbour')
    S.check(other.errors[0]['title'] != 'T ' + token, 'a neighbour keeps its own')
    late = make(name='f')
    again = attempt(late.process, value)
    S.check(again.error and not again.value.errors[0]['title'].startswith('T '),
        'the field type is unchanged')
    if token not in custom:
        S.same((e.errors[0]['title'], e.errors[0]['message']), (again.value.errors[0]['title'],
            again.value.errors[0]['message']), 'other tokens keep the message of the type')
