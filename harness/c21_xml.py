from hlib import *

MARKS = charset("a&<>\"';]\r\n\t /=!-\xe9")
PLACES = ['alone', 'member', 'item', 'mapped', 'placed', 'deep']


def through(S, schema, value, label):
    preamble = label == 'a nesting' or S.bool('preamble')
    out = attempt(lambda: schema.serialize(value, 'xml', preamble=preamble))
    S.check(out.ok and isinstance(out.value, str), label + ' can be written')
    back = attempt(schema.unserialize, out.value, 'xml')
    S.check(back.ok, label + ' can be read')
    S.same(back.value, value, label + ' read as written')
    return out.value


def placed(S, place, field, value):
    """A schema with a field and a value with the value for it."""
    if place == 'alone':
        field.name = S.choice('root', ['r', None])
        return field, value
    if place == 'member':
        return Structure({'m': field, 'n': Integer(), 'o': Text()}), {'m': value, 'n': 4}
    if place == 'item':
        if S.bool('named'):
            field.name = 'i'
        return Sequence(field), [value, value]
    if place == 'mapped':
        return Map(field, name='z'), {'k': value, 'a': value}
    if place == 'placed':
        return Tuple((Integer(), field, Text())), (1, value, 'z')
    return Structure({'s': Sequence(Map(Tuple((field, Boolean()))))}), {'s': [{'k': (value, True), 'l': (value if field.nonnull else None, False)}, {}]}


@harness('C21', variants=PLACES, quick=6000)
def texts(S, place):
    """Every text of 0-2 characters (3 in the thorough tier) of letters, markup signs, quotes, line ends and blanks; alone, in a structure, a sequence, a map, a tuple, four levels deep, with and without preamble."""
    t = S.text('text', S.b(2, 3), 0, MARKS)
    schema, value = placed(S, place, Text(strip=False), t)
    through(S, schema, value, 'a text')


@harness('C21', variants=PLACES, quick=4000)
def wide(S, place):
    """One character of ASCII, Latin, currency and astral characters that XML can hold, alone or between letters, and with references and comments around it."""
    c = S.text('c', 1, 1, XMLCHARS)
    t = S.choice('around', [lambda: c, lambda: 'a' + c + 'b', lambda: '&amp;' + c + '&#13;', lambda: '<!--' + c + '-->', lambda: ']]>' + c])()
    schema, value = placed(S, place, Text(strip=False), t)
    through(S, schema, value, 'a text of any character')


SCALARS = ['integer', 'float', 'boolean', 'date', 'time', 'datetime', 'decimal', 'uuid', 'enumeration', 'token', 'text']


def scalar(S, kind):
    if kind == 'integer':
        return Integer(), S.int('int', -12, 12) if S.bool('small') else S.choice('large', [10**30, -10**18])
    if kind == 'float':
        return Float(), S.choice('float', [0.0, -1.5, 1e300, 1e-7, 1e16, 0.1])
    if kind == 'boolean':
        return Boolean(), S.bool('bool')
    if kind == 'date':
        return Date(), date(2024, S.int('month', 1, 12), 5)
    if kind == 'time':
        return Time(), time(S.int('hour', 0, 23), 5)
    if kind == 'datetime':
        return DateTime(utc=True), datetime(2024, 5, 6, S.int('hour', 0, 23), 7, 8, tzinfo=UTC)
    if kind == 'decimal':
        return Decimal(), decimal_module.Decimal(S.choice('decimal', ['0', '-1.50', '1E+5']))
    if kind == 'uuid':
        return UUID(), '00000000-0000-0000-0000-00000000000' + S.text('digit', 1, 1, charset('09af'))
    if kind == 'enumeration':
        return Enumeration(['red', 'b<&']), S.choice('enum', ['red', 'b<&'])
    if kind == 'token':
        return Token(), 'a:' + S.text('token', 1, 1, charset('az09'))
    return Text(nonnull=True), S.choice('text', ['true', '1', '', 'null'])


@harness('C21', variants=[(k, p) for k in SCALARS for p in PLACES], quick=1000)
def scalars(S, variant):
    """Values of eleven types (integers in [-12, 12] and of many digits, floats, dates, times, decimals, ...), or null, in each of the six places."""
    kind, place = variant
    field, v = scalar(S, kind)
    if not field.nonnull and S.bool('null'):
        v = None
    schema, value = placed(S, place, field, v)
    through(S, schema, value, 'a scalar')


NAMED = charset('abzAZ_09.-')


@harness('C21', variants=[0, 1, 2], quick=6000)
def keys(S, n):
    """Maps of 0-2 entries whose keys are names of 1-2 symbolic characters (letters, underscores, then digits, dots and dashes too), with integer or null values, and maps of maps."""
    value = {}
    for i in range(n):
        k = S.text('first%d' % i, 1, 1, charset('abZ_')) + S.text('rest%d' % i, 1, 0, NAMED)
        value[k] = S.choice('value%d' % i, [1, -20, None])
    schema = Map(Integer())
    if S.bool('twice'):
        schema, value = Map(Map(Integer())), {'k': value, 'l': {}}
    through(S, schema, value, 'a map')


@harness('C21', variants=[0, 1, 2, 3], quick=6000)
def order(S, n):
    """Sequences of 0-3 integers in [0, 3] or null, in a sequence or a structure: order and length are kept."""
    values = [None if S.bool('null%d' % i) else S.int('i%d' % i, 0, 3) for i in range(n)]
    if S.bool('within'):
        return through(S, Sequence(Sequence(Integer(name='v')), name='q'), [values, [], values], 'sequences')
    return through(S, Structure({'s': Sequence(Integer(name='s')), 't': Integer()}), {'s': values, 't': 3}, 'a sequence')


SCHEMAS = {
    'rows': Sequence(Structure({'a': Integer(), 'b': Text(strip=False), 'c': Sequence(Boolean())}, name='row'), name='rows'),
    'table': Map(Sequence(Tuple((Text(strip=False), Integer())))),
    'groups': Structure({'item': Structure({'item': Map(Text(strip=False)), 'value': Integer()}), 'value': Tuple((Structure({'x': Date()}), Map(Float())))}),
}


def filled(S, name, field, depth):
    if S.tier == 'quick' and depth > 1 or depth > 2:
        present = S.choice(name + '?', ['value', 'null'])
    else:
        present = 'value'
    if present == 'null':
        return None
    kind = field.type
    if kind == 'integer':
        return 4
    if kind == 'boolean':
        return False
    if kind == 'float':
        return 0.5
    if kind == 'date':
        return date(2000, 1, 2)
    if kind == 'text':
        return S.choice(name, ['x', '', '\r\n'])
    if kind == 'tuple':
        return tuple([filled(S, name + str(i), f, depth + 1) for i, f in enumerate(field.values)])
    if kind == 'structure':
        out = {}
        for k in sorted(field.structure):
            if S.bool(name + k + '!'):
                out[k] = filled(S, name + k, field.structure[k], depth + 1)
        return out
    inner = field.item if kind == 'sequence' else field.value
    items = [filled(S, name + str(i), inner, depth + 1) for i in range(S.pick(name + '#', 3 if depth == 0 else 2))]
    return items if kind == 'sequence' else dict(zip(['k', 'a-b'], items))


@harness('C21', variants=sorted(SCHEMAS), quick=8000)
def nestings(S, which):
    """Three schemas of nested structures, maps, sequences and tuples; each member of a structure present, absent or null, zero to two entries in each container."""
    through(S, SCHEMAS[which], filled(S, '', SCHEMAS[which], 0), 'a nesting')


@harness('C21', variants=['text', 'integer', 'enumeration'], quick=3000)
def polymorphic(S, sort):
    """Polymorphic structures with three kinds of discriminator, whose variants give the same keys different types, alone and in a sequence."""
    on = {'text': lambda: Text(name='on', nonnull=True), 'integer': lambda: Integer(name='on', nonnull=True), 'enumeration': lambda: 'on'}[sort]()
    first, second = (1, 20) if sort == 'integer' else ('x', 'y<')
    variants = {first: {'p': Integer(), 'q': Text(strip=False)}, second: {'p': Text(strip=False), 'r': Sequence(Integer())}}
    schema = Structure(variants, polymorphic_on=on)
    if S.bool('first'):
        value = {'on': first, 'p': S.int('p', -9, 9), 'q': S.text('q', 1, 0, MARKS)}
    else:
        value = {'on': second, 'p': S.text('p', 1, 0, MARKS), 'r': [S.int('r', 0, 3)] if S.bool('r') else []}
    if S.bool('listed'):
        return through(S, Sequence(schema), [value, {'on': first, 'p': 3}, value], 'polymorphic structures')
    through(S, schema, value, 'a polymorphic structure')
