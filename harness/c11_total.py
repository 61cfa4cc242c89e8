from hlib import *

D = decimal_module.Decimal
CONFIGURED = {
    'integer': [lambda: Integer(minimum=0, maximum=5), lambda: Integer(constant=3)],
    'float': [lambda: Float(minimum=0.5, maximum=5.0), lambda: Float(constant=0.0)],
    'decimal': [lambda: Decimal(minimum=D(0), maximum=D('5.5')), lambda: Decimal(constant=D('1'))],
    'text': [lambda: Text(min_length=1, max_length=2, pattern='^[ab]'), lambda: Text(nonempty=True),
        lambda: Text(constant='a')],
    'token': [lambda: Token(segments=2), lambda: Token(constant='a', nonempty=True)],
    'uuid': [lambda: UUID(nonnull=True)],
    'email': [lambda: Email(nonempty=True), lambda: Email(multiple=True), lambda: Email(extended=True)],
    'enumeration': [lambda: Enumeration(['a', 3, None], ignored_values=['b', 0]),
        lambda: Enumeration([1.5, True, (1, 2)]), lambda: Enumeration('a b c', constant='a')],
    'boolean': [lambda: Boolean(constant=True), lambda: Boolean(constant=False)],
    'binary': [lambda: Binary(min_length=1, max_length=2), lambda: Binary(constant=b'a')],
    'date': [lambda: Date(minimum=date(2000, 1, 1), maximum=date(2001, 1, 1)),
        lambda: Date(constant=date(2000, 1, 1))],
    'time': [lambda: Time(minimum=time(1, 0), maximum=time(2, 0)), lambda: Time(constant=time(1, 0))],
    'datetime': [lambda: DateTime(utc=True, minimum=datetime(2000, 1, 1, tzinfo=UTC)),
        lambda: DateTime(utc=True, maximum=datetime(2000, 1, 1, tzinfo=UTC)),
        lambda: DateTime(timezone=FixedOffsetTimezone(330)),
        lambda: DateTime(utc=True, constant=datetime(2000, 1, 1, tzinfo=UTC))],
    'structure': [lambda: Structure({'a': Integer(required=True), 'b': Text(default='x')}),
        lambda: Structure({'a': Structure({'b': Field()})}, strict=False, key_order='a'),
        lambda: Structure({'a': Sequence(Integer()), 'b': Enumeration('x y', ignore_null=True)},
            nonempty=True)],
    'polymorphic': [lambda: Structure({'x': {'a': Integer()}, 'y': {'b': Text()}}, polymorphic_on='type'),
        lambda: Structure({1: {'a': Integer()}, 0: {'b': Text()}},
            polymorphic_on=Enumeration([0, 1], name='a', nonnull=True)),
        lambda: Structure({'x': {'b': Integer()}, '*': {}}, polymorphic_on=Field(name='a'), strict=False),
        lambda: Structure({'x': {'a': Integer()}, None: {}}, polymorphic_on=Text(name='type'))],
    'map': [lambda: Map(Integer(), required_keys='a b'), lambda: Map(Map(Text())), lambda: Map(Field(),
        nonnull=True)],
    'keyed': [lambda: Map(Field(), key=Enumeration(['a', 1, 1.5])), lambda: Map(Field(), key=Token()),
        lambda: Map(Integer(), key=Field()), lambda: Map(Integer(), key=Text(), required_keys=['a']),
        lambda: Map(Field(), key=Tuple([Integer(), Text()]))],
    'sequence': [lambda: Sequence(Integer(), min_length=1, max_length=1), lambda: Sequence(Sequence(Text())),
        lambda: Sequence(Date(), nonnull=True)],
    'unique': [lambda: Sequence(Field(), unique=True), lambda: Sequence(Map(Field()), unique=True),
        lambda: Sequence(Float(), unique=True)],
    'tuple': [lambda: Tuple([Integer()]), lambda: Tuple([Field(), Map(Integer())]),
        lambda: Tuple([Text(), Boolean()], nonnull=True)],
    'union': [lambda: Union([Integer(), Text()]), lambda: Union([Map(Integer()), Sequence(Map(Text())),
        Decimal()]), lambda: Union([Date(), Time(), DateTime(utc=True), Binary()], nonnull=True)],
    'definition': [lambda: Definition(), lambda: Definition('integer text')],
    'error': [lambda: Error(), lambda: Error(nonnull=True)],
    'any': [lambda: Field(), lambda: Field(constant='a'), lambda: Field(nonnull=True)],
}


def total(S, out, render=False):
    S.check(out.kind != 'raised', 'nothing but a structural error escapes')
    if out.error:
        S.cover('refused')
        e = out.value
        S.check(attempt(e.serialize).ok, 'the error can be serialized')
        if render:
            S.check(attempt(str, e).ok, 'and rendered')
    else:
        S.cover('accepted')


@harness('C11', variants=sorted(CONFIGURED), covers=['refused'], quick=20000)
def plain_values(S, kind):
    """every configured field (60 of 22 kinds) against every plain value: texts and bytes <= 2, numbers
    (integers up to 10^6, fourteen extreme numbers), any date or time, containers of <= 2 scalars; in both
    directions, serialized or not, in any place"""
    makers = CONFIGURED[kind]
    field = makers[S.pick('field', len(makers))]()
    what = S.choice('what', PLAIN)
    if what in ('float', 'decimal'):
        value = S.choice(what, [0.0, -0.0, 1.5, 1e308, float('nan'), float('inf'), -float('inf')]
            if what == 'float' else [D('0'), D('1.10'), D('-Infinity'), D('NaN'), D('1E+999999')])
    elif what == 'list' and kind == 'unique':
        value = [S.choice('v%d' % i, [None, 1, True, 1.0, 1.5, 'a', b'a', [], {}])
            for i in range(S.pick('n', 3))]
    elif what == 'integer' and S.bool('extreme'):
        value = S.choice('huge', [10 ** 400, -10 ** 400, 2 ** 63, -2 ** 63 - 1])
    elif what == 'bytes' and kind in ('float', 'unique'):
        value = S.choice('bytes', [b'', b'1', b'1.5', b'\xff', b'nan', b' 1'])
    elif what == 'integer' and kind in ('float', 'unique'):
        value = S.choice('v', [0, 1, -1, 5, 6])
    elif what == 'integer':
        value = S.int('v', -10 ** 6, 10 ** 6) if kind not in ('float', 'decimal') else S.int('v', -9, 9)
    else:
        numeric = kind in ('float', 'unique')
        value = gen_of_kind(S, what, 'v', 2, 'a@:-.\n\ud800é' if numeric else 'a@1:-.\n\ud800é')
    place = S.choice('place', ['alone', 'deep'])
    outer, wrap, unwrap = placed(S, field, place)
    total(S, attempt(outer.process, wrap(value), *S.choice('call', CALLS)))


SHAPES = ['structure', 'polymorphic', 'map', 'keyed', 'sequence', 'unique', 'tuple', 'union', 'definition',
    'error', 'any']


@harness('C11', variants=[(k, i) for k in SHAPES for i in range(len(CONFIGURED[k]))], covers=[], quick=20000)
def nested_values(S, kind):
    """every configured container against mappings and lists of 0-2 entries nested to depth 3, under keys
    that are texts, numbers, null or tuples"""
    field = CONFIGURED[kind[0]][kind[1]]()
    value = nested(S, 'v', 2)
    total(S, attempt(field.process, value, *S.choice('call', CALLS)), True)


LEAVES = [None, True, 3, 1.5, '', 'a', b'a', (1, 'x'), D('2'), date(2000, 1, 1), {}, [], [[]], [{}], {'a': {}},
    {1: 2}, 'integer', float('nan')]


def nested(S, name, depth):
    kind = S.choice(name + '.kind', ['map', 'list', 'pair'])
    deeper = depth > 1 and S.bool(name + '.deeper')
    n = 2 if kind == 'pair' else 1 if deeper else S.pick(name + '#', 3)
    items = []
    for i in range(n):
        if i:
            items.append(S.choice('%s.%d' % (name, i), [None, 'x', {'a': 1}, [1]]))
        elif deeper:
            items.append(nested(S, name + "'", depth - 1))
        else:
            items.append(S.choice('%s.%d' % (name, i), LEAVES if depth > 1 else LEAVES[::2]))
    if kind == 'map':
        keys = ['a', 'type', 1, None, (1, 'x'), 'fieldtype'] if depth > 1 else ['a', 'type', None]
        return dict(zip([S.choice(name + '.key', keys), S.choice(name + '.other', ['b', 0]) if n > 1 else 'b'],
            items))
    return items if kind == 'list' else tuple(items)


class Own(Exception):
    pass


@harness('C11', variants=['structure', 'polymorphic', 'map', 'sequence', 'tuple', 'union', 'integer', 'text',
    'date', 'enumeration', 'binary', 'boolean', 'any', 'datetime', 'float', 'decimal'], covers=['failed'])
def preprocessors(S, kind):
    """preprocessors that raise one of fifteen exceptions (the library's own among them), for sixteen kinds of field in any place: an
    invalid-value error, in every phase; a preprocessor that does not raise changes nothing"""
    def preprocess(value):
        if how is None:
            return value
        raise how('message', 1)

    how = S.choice('how', [None, ValueError, KeyError, TypeError, AttributeError, ZeroDivisionError, OSError,
        StopIteration, RuntimeError, AssertionError, IndexError, ImportError, StructuralError, ValidationError, UndefinedFieldError, Own])
    values = {'structure': {'a': 1}, 'polymorphic': {'type': 'x', 'a': 1}, 'map': {'k': 1},
        'sequence': [1], 'tuple': (1, 2), 'union': 3, 'integer': S.int('v'), 'text': S.text('t', 1, 0, 'ab'),
        'date': date(2000, 1, 1), 'enumeration': 'red', 'binary': b'ab', 'boolean': S.bool('b'), 'any': 'x',
        'datetime': datetime(2000, 1, 1, tzinfo=UTC), 'float': 1.5, 'decimal': D('1.5')}
    if kind == 'union':
        field = Union([Integer(preprocessor=preprocess)])
    else:
        field = every_field(kind, preprocessor=preprocess)
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, field, place)
    phase, serialized = S.choice('call', CALLS[:1] + CALLS[2:])
    out = attempt(outer.process, wrap(values[kind]), phase, serialized)
    if how is None:
        S.check(out.ok, 'a preprocessor that returns leaves the value acceptable')
        return
    S.cover('failed')
    S.check(out.error, 'a failing preprocessor is a structural error')
    e = error_at(out, place)
    S.check(isinstance(e, InvalidTypeError) and e.errors[0]['token'] == 'invalid', 'an invalid value')
