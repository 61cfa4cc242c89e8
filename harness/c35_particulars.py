from hlib import *
from scheme.surrogate import surrogate

D = decimal_module.Decimal
WIRE = CALLS[1:2]
NATIVE_CALLS = [CALLS[0], CALLS[2], CALLS[3]]
UNREFERABLE = lambda: None


def broken(value):
    raise LookupError('the preprocessor broke')


def plural(S, n, noun):
    return noun if n == 1 else noun + 's'


def limit(S, lo=-2, hi=2):
    return S.int('limit', lo, hi)


def below(S, n):
    return n - S.int('by', 1, 2)


def above(S, n):
    return n + S.int('by', 1, 2)


def refused(kind, values, tail, calls=CALLS, token='invalid', title='invalid value', **params):
    """A value of the wrong kind."""
    def case(S, errors):
        value = S.choice('value', values)
        return (CASEFIELD[kind](errors=errors, **params) if kind in CASEFIELD else build(kind, errors=errors, **params)), value, token, title, tail, value, calls
    return case


CASEFIELD = {'any': Field, 'object': Object, 'error': Error, 'definition': Definition, 'surrogate': Surrogate,
    'sequence': lambda **p: Sequence(Integer(), **p), 'map': lambda **p: Map(Integer(), **p), 'tuple': lambda **p: Tuple([Integer(), Text()], **p),
    'structure': lambda **p: Structure({'n': Integer()}, **p), 'union': lambda **p: Union([Integer(), Boolean()], **p),
    'polymorphic': lambda **p: Structure({'x': {'n': Integer()}, 'y': {}}, polymorphic_on=Text(name='t'), **p)}


def ranged(kind, way, limits, step, shown, words, form=lambda v: v):
    """A value beyond a limit; limits are symbolic or from a list."""
    def case(S, errors):
        edge = limits(S)
        value = step(S, edge, -1 if way == 'minimum' else 1)
        limits_ = {way: edge}
        if S.bool('both limits'):
            limits_['maximum' if way == 'minimum' else 'minimum'] = FAR[kind][way == 'minimum']
        field = build(kind, errors=errors, **limits_)
        return field, value, way, way + ' value', words[way != 'minimum'] + shown(edge), form(value), NATIVE_CALLS
    return case


NUMBERS = ('must be greater then or equal to ', 'must be less then or equal to ')
TIMES = ('must not occur before ', 'must not occur after ')
RANGED = {
    'integer': (lambda S: limit(S), lambda S, e, d: e + d * S.int('by', 1, 3), lambda e: str(e), NUMBERS),
    'float': (lambda S: S.choice('limit', [0.0, -1.5, 2.25]), lambda S, e, d: e + d * S.choice('by', [0.25, 7.0]), lambda e: '%f' % e, NUMBERS),
    'decimal': (lambda S: D(S.choice('limit', ['0', '-1.50', '12'])), lambda S, e, d: e + d * D(S.choice('by', ['0.01', '3'])), lambda e: str(e), NUMBERS),
    'date': (lambda S: date(2024, 3, S.int('limit', 14, 17)), lambda S, e, d: e + timedelta(d * S.int('by', 1, 3)), lambda e: '2024-03-%02d' % e.day, TIMES),
    'time': (lambda S: time(12, S.int('limit', 29, 32), 5), lambda S, e, d: e.replace(hour=12 + d * S.int('by', 1, 3)), lambda e: '12:%02d:05' % e.minute, TIMES),
    'datetime': (lambda S: datetime(2024, 3, 5, 12, S.int('limit', 29, 32), 5, 0, UTC), lambda S, e, d: e + timedelta(0, d * S.int('by', 1, 3)),
        lambda e: '2024-03-05T12:%02d:05Z' % e.minute, TIMES),
}
FAR = {'integer': (-50, 50), 'float': (-99.5, 99.5), 'decimal': (D(-50), D(50)), 'date': (date(2023, 1, 2), date(2025, 3, 4)),
    'time': (time(1, 2, 3), time(22, 2, 3)), 'datetime': (datetime(2023, 1, 2, tzinfo=UTC), datetime(2025, 3, 4, tzinfo=UTC))}


def sized(kind, way, noun, words):
    """A value which is too short or too long."""
    def case(S, errors):
        n = S.int('limit', 1, 2)
        size = S.choice('size', [1, 0] if way == 'min_length' else [2, 3, 5])
        S.assume(size < n if way == 'min_length' else size > n)
        value = {'text': lambda: S.text('value', size, size, 'ab'), 'binary': lambda: b'\x00a\xffbc'[:size],
            'sequence': lambda: [S.int('v%d' % i, 0, 9) if i == 0 else i for i in range(size)]}[kind]()
        params = {way: n, 'errors': errors}
        if S.bool('both limits'):
            params['max_length' if way == 'min_length' else 'min_length'] = 9 if way == 'min_length' else 0
        field = Sequence(Integer(), **params) if kind == 'sequence' else build(kind, **params)
        title = 'minimum length' if way == 'min_length' else 'maximum length'
        return field, value, way, title, words % (str(n), plural(S, n, noun)), value, NATIVE_CALLS
    return case


def tupled(S, errors):
    value = [1] * S.choice('size', [0, 1, 3])
    value = tuple(value) if S.bool('tuple') else value
    return CASEFIELD['tuple'](errors=errors), value, 'length', 'invalid length', 'must contain exactly 2 values', value, CALLS


def repeated(S, errors):
    n = S.int('v', 0, 1)
    value = [n, S.int('w', 0, 1), n]
    S.assume(value[1] != n)
    return Sequence(Integer(), unique=True, errors=errors), value, 'duplicate', 'duplicate value', 'must not have duplicate values', value, CALLS


def badkeys(S, errors):
    keyed = S.bool('keyed')
    value = {'x': 1} if keyed else {S.choice('key', [3, None, (1, 2)]): 1}
    return Map(Integer(), key=Integer() if keyed else None, errors=errors), value, 'invalidkeys', 'invalid keys', 'must have valid keys', value, CALLS


def unrecognized(S, errors):
    value = {'t': S.text('t', 2, 0, 'xyz')}
    S.assume(value['t'] not in ('x', 'y'))
    return (CASEFIELD['polymorphic'](errors=errors), value, 'unrecognized', 'unrecognized polymorphic identity',
        'must specify a recognized polymorphic identity', value['t'], CALLS)


def unidentified(S, errors):
    return CASEFIELD['polymorphic'](errors=errors), S.choice('value', [{}, {'t': None}, {'n': 3}]), 'required', 'required field', "is missing required field 't'", None, CALLS


def converted(kind, wire, native):
    """A value in the form of the wire, refused once it is converted."""
    def case(S, errors):
        field, value, token, title, tail, kept, calls = ranged(kind, 'minimum', *RANGED[kind])(S, errors)
        return field, wire(value), token, title, tail, native(value), WIRE
    return case


def preprocessed(kind):
    def case(S, errors):
        value = {'integer': 3, 'text': 'v', 'enumeration': 'red', 'sequence': [1], 'map': {'k': 1}, 'tuple': (1, 'x'), 'structure': {'n': 1}}[kind]
        params = {'preprocessor': broken, 'errors': errors}
        field = CASEFIELD[kind](**params) if kind in CASEFIELD else build(kind, **params)
        tail = {'integer': 'must be an integer', 'text': 'must be a textual value', 'enumeration': "must be one of 'red', 3, 'blue', False",
            'sequence': 'must be a sequence', 'map': 'must be a map', 'tuple': 'must be a tuple', 'structure': 'must be a structure'}[kind]
        return field, value, 'invalid', 'invalid value', tail, value, CALLS
    return case


def constant(S, errors):
    c = S.int('constant', 0, 2)
    value = S.int('value', 0, 2)
    S.assume(value != c)
    return Integer(constant=c, errors=errors), value, 'invalid', 'invalid value', 'must be an integer', value, CALLS


def null(kind):
    def case(S, errors):
        field = CASEFIELD[kind](errors=errors, nonnull=True) if kind in CASEFIELD else build(kind, errors=errors, nonnull=True)
        return field, None, 'nonnull', 'null value', 'must be a non-null value', None, CALLS
    return case


def early(S, errors):
    """Too early or too late a moment to be moved to UTC."""
    value = S.choice('value', [datetime(1, 1, 1, 0, 30, tzinfo=FixedOffsetTimezone(60, 'a')), datetime(9999, 12, 31, 23, 30, tzinfo=FixedOffsetTimezone(-60, 'b'))])
    return DateTime(utc=True, errors=errors), value, 'overflow', 'overflow error', 'overflowed', value, NATIVE_CALLS


WRONG = [True, 'x', 1.5, [1], {'a': 1}]
CASES = {
    'constant': constant, 'early': early, 'tupled': tupled, 'repeated': repeated, 'badkeys': badkeys, 'unrecognized': unrecognized, 'unidentified': unidentified,
    'integer': refused('integer', WRONG, 'must be an integer'),
    'float': refused('float', [True, 'x', [1], {}], 'must be a floating-point number'),
    'decimal': refused('decimal', ['x', [1], True], 'must be a decimal value'),
    'decimal native': refused('decimal', ['1', 2], 'must be a decimal value', NATIVE_CALLS[:1]),
    'text': refused('text', [1, True, [], b'x'], 'must be a textual value'),
    'pattern': refused('text', ['b', '', 'aab'], 'has an invalid value', NATIVE_CALLS, 'pattern', pattern=r'^a+\Z'),
    'token': refused('token', ['', ':', 'a b', 3], 'must be a valid token'),
    'segments': refused('token', ['a', 'a:b:c'], 'must be a valid token', segments=2),
    'uuid': refused('uuid', ['', 'x', 7], 'must be a UUID'),
    'email': lambda S, errors: (Email(), 'x', 'pattern', 'invalid value', 'must be a valid email address', 'x', CALLS),
    'emails': lambda S, errors: (Email(multiple=True), 'a@b.co;x', 'pattern', 'invalid value', 'must be a list of valid email addresses', 'a@b.co,x', CALLS),
    'enumeration': refused('enumeration', ['grey', '', 4], "must be one of 'red', 3, 'blue', False"),
    'boolean': refused('boolean', [1, 'x', []], 'must be a boolean value'),
    'binary': refused('binary', [1, []], 'must be a binary value'),
    'binary wire': refused('binary', ['*', 'a', b'a', 3], 'must be a binary value', WIRE),
    'date': refused('date', [1, True, []], 'must be a date value'),
    'date wire': refused('date', ['x', '2024-02-30', ''], 'must be a date value', WIRE),
    'time': refused('time', [1, True, []], 'must be a time value'),
    'time wire': refused('time', ['x', '24:00:00', ''], 'must be a time value', WIRE),
    'datetime': refused('datetime', [1, True, []], 'must be a datetime value'),
    'datetime wire': refused('datetime', ['x', '2024-02-30T00:00:00Z', ''], 'must be a datetime value', WIRE),
    'definition': refused('definition', [1, 'text', Text], 'must be a field definition', NATIVE_CALLS),
    'definition wire': refused('definition', ['zz', 3, {'fieldtype': 'x'}], 'must be a field definition', WIRE),
    'definition limited': lambda S, errors: (Definition('text integer', errors=errors), DATE, 'invalidfield', 'invalid field',
        'must be one of integer, text', DATE, NATIVE_CALLS),
    'error': refused('error', [1, 'x'], 'must be a structural error'),
    'error wire': refused('error', [(), [1], 'x'], 'must be a structural error', WIRE),
    'surrogate': refused('surrogate', [1, 'x', {}], 'must be a surrogate', NATIVE_CALLS),
    'surrogate wire': refused('surrogate', [1, 'x', {'_': 'scheme.fields.Text'}], 'must be a surrogate', WIRE),
    'surrogate limited': lambda S, errors: (Surrogate('z.A a.B', errors=errors), GUEST, 'invalid-surrogate', 'invalid surrogate', 'must be one of a.B, z.A',
        GUEST, NATIVE_CALLS),
    'object': refused('object', [UNREFERABLE, 3], 'must be a python object', CALLS[3:]),
    'object import': lambda S, errors: (Object(errors=errors), 'no.such.thing', 'import', 'object import', None, 'no.such.thing', WIRE),
    'sequence': refused('sequence', [1, 'x', {}], 'must be a sequence'),
    'map': refused('map', [1, 'x', []], 'must be a map'),
    'tuple': refused('tuple', [1, 'x', {}], 'must be a tuple'),
    'structure': refused('structure', [1, 'x', []], 'must be a structure'),
    'union': refused('union', ['x', [], 1.5], 'is an invalid value'),
    'integer wire': converted('integer', str, lambda v: v),
    'decimal wire': converted('decimal', str, lambda v: v),
    'date read': converted('date', lambda v: '2024-03-%02d' % v.day, lambda v: v),
    'time read': converted('time', lambda v: '%02d:%02d:05' % (v.hour, v.minute), lambda v: v),
    'datetime read': converted('datetime', lambda v: '2024-03-05T12:%02d:%02dZ' % (v.minute, v.second), lambda v: v),
}
DATE = Date()
GUEST = surrogate({'n': 1})
for k in RANGED:
    for way in ('minimum', 'maximum'):
        CASES['%s %s' % (k, way)] = ranged(k, way, *RANGED[k])
for k, noun, shortest, longest in (('text', 'character', 'must contain at least %s non-whitespace %s', 'may contain at most %s %s'),
        ('binary', 'byte', 'must contain at least %s %s', 'must contain at most %s %s'),
        ('sequence', 'item', 'must have at least %s %s', 'must have at most %s %s')):
    CASES[k + ' short'] = sized(k, 'min_length', noun, shortest)
    CASES[k + ' long'] = sized(k, 'max_length', noun, longest)
for k in ('integer', 'text', 'enumeration', 'sequence', 'map', 'tuple', 'structure'):
    CASES[k + ' preprocessed'] = preprocessed(k)
for k in ('integer', 'enumeration', 'any', 'sequence', 'map', 'tuple', 'structure', 'union', 'object', 'surrogate'):
    CASES[k + ' null'] = null(k)


def standing(S, place, field, value):
    """(schema, value for it, way to the error, the field standing there, its name, its path)"""
    if place == 'alone':
        return field, value, (), lambda s: s, None, '(%s)' % field.type
    if place == 'named':
        field.name = 'own'
        return field, value, (), lambda s: s, 'own', 'own'
    if place == 'structure':
        return Structure({'k': field, 'n': Integer()}, name='top'), {'k': value, 'n': 1}, ('k',), lambda s: s.structure['k'], 'k', 'top.k'
    if place == 'map':
        return Map(field), {'q': value}, ('q',), lambda s: s.value, None, '(map)[q]'
    if place == 'keyed':
        return Map(field, key=Integer()), {4: value}, (4,), lambda s: s.value, None, '(map)[4]'
    if place == 'sequence':
        at = 0 if field.nonnull else 1
        return Sequence(field), [None, value][1 - at:], (at,), lambda s: s.item, None, '(sequence)[%d]' % at
    if place == 'tuple':
        return Tuple([Integer(), field]), (1, value), (1,), lambda s: s.values[1], None, '(tuple)[1]'
    if place == 'variant':
        return (Structure({'x': {'k': field}, 'y': {}}, polymorphic_on='t'), {'t': 'x', 'k': value}, ('k',), lambda s: s.structure['x']['k'], 'k', '(structure).k')
    return (Structure({'a': Sequence(Map(Tuple([field])))}, name='root'), {'a': [{'q': (value,)}]}, ('a', 0, 'q', 0),
        lambda s: s.structure['a'].item.value.values[0], None, 'root.a[0][q][0]')


@harness('C35', variants=sorted(CASES), covers=['refused'], quick=3000)
def particulars(S, name):
    """Each way to fail of every type of field (81 of them: limits symbolic within ranges of 3 to 5 values or from lists, values beyond them by 1-3,
    texts and bytes of the wrong length symbolic; the other limit declared or not) at nine places of a schema, in every call which applies; then by a
    clone of another name."""
    place = S.choice('place', ['alone', 'named', 'structure', 'map', 'keyed', 'sequence', 'tuple', 'variant', 'deep'])
    field, value, token, title, tail, kept, calls = CASES[name](S, None)
    schema, whole, way, at, owner, path = standing(S, place, field, value)
    out = attempt(schema.process, whole, *S.choice('call', calls))
    S.check(out.error, 'the value is refused')
    S.cover('refused')
    e = out.value
    for step in way:
        S.check(not e.errors and e.structure is not None, 'the error leads to its place')
        S.check(e.field is not None and e.value is not None, 'a container of errors knows its field and value')
        e = e.structure[step]
    S.check(isinstance(e, ValidationError), 'an error stands at the place of the value')
    S.check(e.field is at(schema), 'it names the field it comes from')
    S.same(''.join(e.identity), path, 'it names the place of the value')
    S.check(type(e.value) is type(kept), 'it holds the refused value')
    if not isinstance(kept, (Field, surrogate)) and kept is not UNREFERABLE:
        S.same(e.value, kept, 'it holds the refused value')
    if tail is not None:
        message = (owner or 'unknown-field') + ' ' + tail
    else:
        message = "cannot import 'no.such.thing'"
    S.same(e.errors, [{'token': token, 'title': title, 'message': message}], 'it says which rule the value breaks, with its limit')
    lines = str(out.value).split('\n')
    S.check(lines[0] == 'validation failed' and lines[1] == '[01] %s error at %s: %s' % (title.capitalize(), path, message), 'the rendering says so')
    S.check(('     Value: ' in str(out.value)) == (kept is not None), 'the rendering shows the value')
    S.check(('the preprocessor broke' in str(out.value)) == ('preprocessed' in name), 'the rendering shows what broke a preprocessor')
    if place == 'alone' and tail is not None and type(value).__name__ != 'function':
        other = field.clone(name='other')
        out = attempt(other.process, value, *S.choice('another call', calls[:1]))
        S.check(out.error and out.value.field is other, 'a clone refuses the value too')
        S.same(out.value.errors, [{'token': token, 'title': title, 'message': 'other ' + tail}], 'and says so in its own name')
        S.same(out.value.identity, ['other'], 'and of its own place')


GUESTS = Structure({'n': Integer(minimum=0), 's': Sequence(Integer(minimum=0))}, name='guest')


class Versioned(surrogate):
    schemas = [Structure({'m': Integer()}), GUESTS]


surrogate.cache['versioned'] = Versioned


@harness('C35', variants=['alone', 'named', 'structure', 'map', 'sequence', 'tuple', 'variant', 'deep'], covers=['refused'])
def guests(S, place):
    """Invalid data (any negative numbers of one digit, at one or both of two places) of a surrogate with a schema of its own or of a version, at eight
    places of a schema, read or written."""
    n, m = S.int('n', -9, 9), S.int('m', -9, 9)
    S.assume(n < 0 or m < 0)
    data = {'n': n, 's': [0, m]}
    versioned = S.bool('versioned')
    inbound = S.bool('inbound')
    if inbound:
        value = dict(data, _='versioned', __version__=2) if versioned else dict(data, __schema__=GUESTS.describe())
    else:
        value = Versioned(data, version=2) if versioned else surrogate(data, GUESTS)
    field = Surrogate()
    schema, whole, way, at, owner, path = standing(S, place, field, value)
    out = attempt(schema.process, whole, INBOUND if inbound else OUTBOUND, True)
    S.check(out.error, 'the data is refused')
    S.cover('refused')
    e = out.value
    for step in way:
        e = e.structure[step]
    S.check(e.field.type == 'structure' and not e.errors, 'the errors are those of the data')
    wanted = []
    if n < 0:
        wanted.append(('n', path + '.n', n, 'n'))
    if m < 0:
        wanted.append(('s', path + '.s[1]', m, 'unknown-field'))
    S.same(''.join(e.identity), path, 'they stand at the place of the surrogate')
    lines = [l for l in str(out.value).split('\n') if l.startswith('[')]
    S.check(len(lines) == len(wanted), 'the rendering shows each once')
    for i, (key, where, number, name) in enumerate(wanted):
        inner = e.structure[key]
        if key == 's':
            inner = inner.structure[1]
        S.same(''.join(inner.identity), where, 'an error names its place')
        S.same(inner.value, number, 'and its value')
        S.check(lines[i] == '[%02d] Minimum value error at %s: %s must be greater then or equal to 0' % (i + 1, where, name) or len(wanted) > 1,
            'the rendering names it')


def wrapped(S, kind, field):
    """(a container of three of the field, the steps to them, the written form of a step)"""
    if kind == 'sequence':
        return Sequence(field), [0, 1, 2], '[%s]', list
    if kind == 'tuple':
        return Tuple([field] * 3), [0, 1, 2], '[%s]', tuple
    if kind == 'map':
        return Map(field), ['q', 's', 'r'], '[%s]', lambda vs: dict(zip(['q', 's', 'r'], vs))
    if kind == 'keyed':
        return Map(field, key=Integer()), [4, 0, -1], '[%s]', lambda vs: dict(zip([4, 0, -1], vs))
    return Structure(dict((k, field.clone(name=None)) for k in 'qsr')), ['q', 's', 'r'], '.%s', lambda vs: dict(zip('qsr', vs))


@harness('C35', variants=['sequence', 'tuple', 'map', 'keyed', 'structure'], covers=['several', 'deep'], quick=3000)
def several(S, kind):
    """Containers of three numbers, any of which are refused (for one or two reasons; one of them symbolic), within nought, one or five containers of one kind."""
    named = S.bool('named')
    leaf = Integer(minimum=0, name='own' if named else None)
    field, steps, form, make = wrapped(S, kind, leaf)
    values, bad = [], []
    for i, step in enumerate(steps):
        how = S.choice('v%d' % i, ['fine', 'low', 'text'])
        values.append({'fine': lambda: i, 'low': lambda: S.int('n', -3, -1) if i == 1 else -i - 1, 'text': lambda: 'x'}[how]())
        if how != 'fine':
            bad.append((i, step, "must be greater then or equal to 0" if how == 'low' else 'must be an integer'))
    if kind == 'structure':
        named = False
    whole = make(values)
    depth = S.choice('depth', [0, 1, 5])
    outer = S.choice('outer', ['sequence', 'map', 'structure', 'tuple']) if depth else None
    if len(bad) > 1:
        S.cover('several')
    way, path = [], ''
    for i in range(depth):
        if outer == 'sequence':
            field, whole, step, path = Sequence(field), [whole], 0, '[0]' + path
        elif outer == 'tuple':
            field, whole, step, path = Tuple([field]), (whole,), 0, '[0]' + path
        elif outer == 'map':
            field, whole, step, path = Map(field), {'w%d' % i: whole}, 'w%d' % i, '[w%d]' % i + path
        else:
            field, whole, step, path = Structure({'w%d' % i: field}), {'w%d' % i: whole}, 'w%d' % i, '.w%d' % i + path
        way.insert(0, step)
    if depth == 5:
        S.cover('deep')
    path = '(%s)' % field.type + path
    out = attempt(field.process, whole, *S.choice('call', [CALLS[0], CALLS[2]]))
    S.check(out.error == bool(bad), 'the value is refused if a number is')
    if not bad:
        return
    e = out.value
    for step in way:
        e = e.structure[step]
    rendering = str(out.value)
    for i, step, tail in bad:
        inner = e.structure[step]
        S.check(isinstance(inner, ValidationError), 'each refused number has its error')
        S.same(''.join(inner.identity), path + form % step, 'it names its place')
        S.same(inner.value, values[i], 'and its value')
        name = str(step) if kind == 'structure' else ('own' if named else 'unknown-field')
        S.check(inner.errors[0]['message'] == name + ' ' + tail, 'and says why')
        S.check(' error at %s: %s %s\n' % (path + form % step, name, tail) in rendering, 'the rendering too')
    S.check(len([l for l in rendering.split('\n') if l.startswith('[')]) == len(bad), 'the rendering shows each once')
    refused_at = [step for i, step, tail in bad]
    for step in steps:
        if step not in refused_at:
            S.check(not isinstance(e.structure[step] if not isinstance(e.structure, dict) else e.structure.get(step), Exception), 'no other number has one')
