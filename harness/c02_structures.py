from hlib import *

FLAT = [('flat-' + k, ('structure', [('a', k), ('b', 'integer')])) for k in SCALARS
    if k not in ('datetime', 'date', 'decimal')]

SCHEMAS = dict(FLAT + [
    ('flat-date', ('structure', [('a', 'date', {'required': True}), ('b', 'text')])),
    ('flat-datetime', ('structure', [('a', 'datetime', {'required': True}), ('b', 'text')])),
    ('flat-decimal', ('structure', [('a', 'decimal', {'required': True})])),
    ('three', ('structure', [('a', 'integer'), ('b', 'text'), ('c', 'boolean'), ('d', 'float')])),
    ('deep', ('structure', [('a', ('structure', [('a', 'integer'), ('b', 'text')])),
        ('b', ('structure', [('a', ('structure', [('c', 'boolean')]))]))])),
    ('map', ('map', 'integer')),
    ('map-binary', ('map', 'binary')),
    ('map-intkey', ('map', 'text', 'integer')),
    ('map-timekey', ('map', 'boolean', 'time')),
    ('map-of-structure', ('map', ('structure', [('a', 'integer'), ('b', 'time')]))),
    ('map-of-map', ('map', ('map', 'integer'))),
    ('sequence', ('sequence', 'integer')),
    ('sequence-binary', ('sequence', 'binary')),
    ('sequence-time', ('sequence', 'time')),
    ('sequence-of-sequence', ('sequence', ('sequence', 'text'))),
    ('sequence-of-structure', ('sequence', ('structure', [('a', 'integer'), ('b', 'boolean')]))),
    ('sequence-of-tuple', ('sequence', ('tuple', ['integer', 'time']))),
    ('tuple', ('tuple', ['integer', 'text', 'boolean'])),
    ('tuple-time', ('tuple', ['time', 'time', 'binary'])),
    ('tuple-of-sequence', ('tuple', [('sequence', 'integer'), ('sequence', 'text')])),
    ('tuple-of-map', ('tuple', [('map', 'integer'), ('tuple', ['uuid', 'boolean'])])),
    ('mixed-1', ('structure', [('m', ('map', ('sequence', 'integer'))),
        ('t', ('tuple', ['integer', ('structure', [('x', 'time')])]))])),
    ('mixed-2', ('structure', [('m', ('map', ('tuple', ['boolean', 'integer']))),
        ('s', ('sequence', ('map', 'float')))])),
])


@harness('C02', variants=sorted(SCHEMAS), quick=12000, covers=['roundtrip'])
def structured(S, schema):
    """every value of 34 schemas of depth <= 3: any subset of declared keys, <= 2 (3 thorough)
    entries per map and sequence, nulls anywhere, keys of outer maps <= 2 characters, of inner maps 1, texts and bytes <= 2"""
    spec = SCHEMAS[schema]
    field = build(spec)
    value = gen(S, spec, 'v', S.b(2, 3) if schema.count('-of-') == 0 else 2, 2, True)
    S.assume(value is not None)
    expected = wire(spec, value)
    for phase in (INBOUND, OUTBOUND):
        out = attempt(field.process, value, phase)
        S.check(out.ok, 'a valid native value is accepted')
        S.same(out.value, value, 'a valid native value is returned unchanged')
    form = attempt(field.serialize, value)
    S.check(form.ok, 'a valid value can be serialized')
    S.observe('wire', form.value)
    S.same(form.value, expected,
        'the serialized form has every element\'s wire format at its own place')
    back = attempt(field.unserialize, form.value)
    S.check(back.ok, 'the serialized form is accepted on the way in')
    S.cover('roundtrip')
    S.same(back.value, value, 'unserialize(serialize(v)) == v')


KEYED = ('integer', 'date', 'time', 'uuid', 'binary', 'token', 'boolean', 'enumeration')
OVER = [('sequence', 'integer'), ('map', 'integer'), ('tuple', ['time', 'text']),
    ('structure', [('a', 'binary'), ('b', 'integer')]), 'integer', 'datetime']
OVER_NAMES = ['sequence', 'map', 'tuple', 'structure', 'integer', 'datetime']


def roundtrip(S, field, spec, value):
    for phase in (INBOUND, OUTBOUND):
        out = attempt(field.process, value, phase)
        S.check(out.ok, 'a valid native value is accepted')
        S.same(out.value, value, 'a valid native value is returned unchanged')
    form = attempt(field.serialize, value)
    S.check(form.ok, 'a valid value can be serialized')
    S.same(form.value, wire(spec, value),
        'the serialized form has every element\'s wire format at its own place')
    back = attempt(field.unserialize, form.value)
    S.check(back.ok, 'the serialized form is accepted on the way in')
    S.cover('roundtrip')
    S.same(back.value, value, 'unserialize(serialize(v)) == v')


def example(S, spec, name):
    """A cheap value of a spec: symbolic integers, texts and presence, fixed temporal values."""
    if isinstance(spec, str):
        if spec == 'date':
            return date(2000, 1, 2)
        if spec == 'time':
            return time(1, 2, S.int(name, 0, 59))
        if spec == 'datetime':
            return datetime(2000, 1, 2, 3, 4, 5, 0, UTC)
        if spec == 'uuid':
            return '0' * 8 + '-0000-0000-0000-' + '0' * 11 + S.text(name, 1, 1, HEX)
        if spec == 'binary':
            return S.choice(name, [b'', b'\xff?', b'a\n'])
        return gen_scalar(S, spec, name, 1)
    kind = spec[0]
    if kind == 'sequence':
        return [example(S, spec[1], '%s[%d]' % (name, i)) for i in range(S.pick(name + '#', 3))]
    if kind == 'tuple':
        return tuple([example(S, s, '%s[%d]' % (name, i)) for i, s in enumerate(spec[1])])
    if kind == 'map':
        value = {}
        for i in range(S.pick(name + '#', 3)):
            value['k%d' % i] = example(S, spec[1], '%s[%d]' % (name, i))
        return value
    value = {}
    for entry in spec[1]:
        if S.bool('%s.%s?' % (name, entry[0])):
            value[entry[0]] = example(S, entry[1], name + '.' + entry[0])
    return value


@harness('C02', variants=KEYED, covers=['roundtrip'])
def keyed(S, key):
    """maps of <= 2 entries with keys of every hashable scalar type, over sequences, maps, tuples,
    structures, integers and datetimes, null or not"""
    over = S.pick('over', len(OVER))
    n = S.pick('n', 3)
    keys = {'integer': [S.int('k'), 10 ** 9], 'date': [date(5, 1, 2), date(2000, 12, 31)],
        'time': [time(0), time(23, 59, S.int('s', 0, 59))],
        'uuid': ['0' * 8 + '-0000-0000-0000-' + '0' * 11 + S.text('u', 1, 1, '01ab'),
            'ffffffff-0000-0000-0000-000000000000'],
        'binary': [b'\xff\xfe', b''], 'token': ['a:b', S.text('t', 1, 1, 'ab')],
        'boolean': [True, False], 'enumeration': ['red', 3]}[key][:n]
    value = {}
    for i, k in enumerate(keys):
        value[k] = None if S.bool('null%d' % i) else example(S, OVER[over], 'v%d' % i)
    S.assume(len(value) == n)
    spec = ('map', OVER[over], key)
    roundtrip(S, build(spec), spec, value)


@harness('C02', variants=['sequence', 'map', 'structure', 'tuple'], covers=['roundtrip'])
def wide(S, kind):
    """sequences of <= 7 items, maps of <= 6 entries, structures of 8 members, tuples of 7 elements; nulls
    at any place, integers and times"""
    if kind == 'sequence':
        spec = ('sequence', 'time')
        value = [None if S.bool('null%d' % i) else time(1, 2, S.int('s%d' % i, 0, 59))
            for i in range(S.pick('n', 8))]
    elif kind == 'map':
        spec = ('map', ('tuple', ['integer', 'time']))
        value = {}
        for i in range(S.pick('n', 7)):
            value['k%d' % i] = None if S.bool('null%d' % i) else (S.int('v%d' % i), time(i))
    elif kind == 'tuple':
        spec = ('tuple', ['integer', 'time', 'text', 'boolean', 'binary', 'integer', 'token'])
        value = [S.int('a'), time(1), 'x', S.bool('b'), b'\xff', S.int('c'), 'a:b']
        for i in range(7):
            if S.bool('null%d' % i):
                value[i] = None
        value = tuple(value)
    else:
        spec = ('structure', [(c, 'integer' if i % 2 else 'time') for i, c in enumerate('hgfedcba')])
        value = {}
        for i, c in enumerate('abcdefgh'):
            how = S.pick(c + '?', 3 if i < 3 else 2)
            if how:
                value[c] = None if how == 2 else time(i) if c in 'hfdb' else S.int(c)
    roundtrip(S, build(spec), spec, value)


@harness('C02', variants=[(a, b) for a in ('structure', 'map', 'sequence', 'tuple')
    for b in ('structure', 'map', 'sequence', 'tuple')], covers=['roundtrip'])
def nesting(S, variant):
    """every container within every container within every container, over times, binaries and
    integers, with <= 2 entries each, null elements anywhere"""
    def wrapped(kind, inner):
        if kind == 'structure':
            return ('structure', [('a', inner), ('b', 'time')])
        if kind == 'tuple':
            return ('tuple', ['time', inner])
        return (kind, inner)
    leaf = S.choice('leaf', ['time', 'binary', 'integer', 'enumeration'])
    third = S.choice('third', ['structure', 'map', 'sequence', 'tuple'])
    spec = wrapped(variant[0], wrapped(variant[1], wrapped(third, leaf)))
    def value_of(spec, name, wide):
        if not isinstance(spec, str) and S.bool(name + '?null'):
            return None
        if isinstance(spec, str):
            return {'time': time(1, 2, 3), 'binary': b'\xff?', 'enumeration': 'red'}.get(spec) or \
                S.int(name)
        kind = spec[0]
        if kind == 'structure':
            value = {}
            for entry in spec[1]:
                if entry[0] == 'a' or S.bool(name + '?b'):
                    value[entry[0]] = value_of(entry[1], name + entry[0], wide)
            return value
        if kind == 'tuple':
            return tuple([value_of(s, name + str(i), wide) for i, s in enumerate(spec[1])])
        items = [value_of(spec[1], name + '0', wide)]
        if wide:
            items.append(None)
        return items if kind == 'sequence' else dict(zip(['y', 'x'], items))
    value = value_of(spec, 'v', S.bool('wide'))
    S.assume(value is not None)
    roundtrip(S, build(spec), spec, value)
