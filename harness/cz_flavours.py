"""Values whose class is a subclass of the one a field is about (ordered and defaulting dicts, named tuples, subclasses of texts, numbers, moments) are
values of the field like any others; values which only resemble them (byte arrays, sets, views, iterators) are not."""
from hlib import *
from collections import OrderedDict, defaultdict, deque, namedtuple
from datetime import date as day, datetime as moment, time as clock, timedelta
from scheme.formats import *
from scheme.surrogate import surrogate
from scheme.util import format_structure, recursive_merge, set_nested_value, traverse_to_key


class Dict(dict):
    pass


class List(list):
    pass


class Pair(tuple):
    pass


class Str(str):
    pass


class Int(int):
    pass


class Real(float):
    pass


class Bytes(bytes):
    pass


class Day(day):
    pass


class Moment(moment):
    pass


class Clock(clock):
    pass


class Number(decimal_module.Decimal):
    pass


Named = namedtuple('Named', 'a b')
DICTS = [dict, OrderedDict, Dict, surrogate, lambda v: defaultdict(list, v)]
LISTS = [list, List]
TUPLES = [tuple, Pair, lambda v: Named(*v), list, List]


def some_dict(S, value, name='dict'):
    return S.choice(name, DICTS)(value)


def some_list(S, value, name='list'):
    return S.choice(name, LISTS)(value)


def some_pair(S, value, name='pair'):
    return S.choice(name, TUPLES)(value)


def containers(S, kind):
    """A field, and a value for it as plain values and as instances of subclasses."""
    x, y = S.int('x', 0, 9), S.int('y', 0, 9)
    if kind == 'structure':
        return Structure({'a': Integer(), 'b': Integer()}), {'a': x, 'b': y}, some_dict(S, {'a': x, 'b': y})
    if kind == 'polymorphic':
        return Structure({'t': {'a': Integer()}, 'u': {'a': Text()}}, polymorphic_on='on'), {'on': 't', 'a': x}, some_dict(S, {'on': 't', 'a': x})
    if kind == 'map':
        return Map(Integer()), {'a': x, 'b': y}, some_dict(S, {'a': x, 'b': y})
    if kind == 'keyed':
        return Map(Integer(), key=Token()), {'a': x, 'b': y}, some_dict(S, {'a': x, 'b': y})
    if kind == 'sequence':
        return Sequence(Integer()), [x, y], some_list(S, [x, y])
    if kind == 'limited':
        return Sequence(Integer(), max_length=1), [x, y][:S.b(1, 1)], some_list(S, [x])
    if kind == 'tuple':
        return Tuple((Integer(), Integer())), (x, y), some_pair(S, (x, y))
    if kind == 'nested':
        return (Structure({'m': Map(Sequence(Tuple((Integer(), Integer()))))}), {'m': {'k': [(x, y)]}},
            some_dict(S, {'m': some_dict(S, {'k': some_list(S, [some_pair(S, (x, y))])}, 'inner')}))
    if kind == 'union':
        return (Union((Structure({'a': Integer()}), Sequence(Integer()), Text())), *S.choice('member', [
            lambda: ({'a': x}, some_dict(S, {'a': x})), lambda: ([x], some_list(S, [x]))])())


CONTAINERS = ['structure', 'polymorphic', 'map', 'keyed', 'sequence', 'limited', 'tuple', 'nested', 'union']


@harness('C02', variants=CONTAINERS)
def flavoured_containers(S, kind):
    """Nine kinds of containers of symbolic integers, given as any of the subclasses of the container's type (ordered, defaulting and plain subclasses of
    dicts, surrogates, subclasses of lists, named and other tuples): each way of processing gives what it gives for the plain value."""
    field, plain, given = containers(S, kind)
    for phase, serialized in ((INBOUND, False), (INBOUND, True), (OUTBOUND, False), (OUTBOUND, True)):
        got = attempt(field.process, given, phase, serialized)
        S.check(got.ok, 'a value of a subclass is a value')
        S.same(got.value, attempt(field.process, plain, phase, serialized).value, 'and is taken as any other')


@harness('C16', variants=[k for k in CONTAINERS if k != 'union'])
def flavoured_extraction(S, kind):
    """The same containers and subclasses: extraction, instantiation and interpolation give what they give for the plain value."""
    field, plain, given = containers(S, kind)
    S.same(attempt(field.extract, given).value, plain, 'extracted')
    S.same(attempt(field.instantiate, given).value, plain, 'instantiated')
    S.same(attempt(field.interpolate, given, {}).value, plain, 'interpolated')


def scalars(kind):
    if kind == 'text':
        return Text(), ['ab', ' a '], Str
    if kind == 'token':
        return Token(), ['ab', 'a:b'], Str
    if kind == 'email':
        return Email(), ['a@b.co'], Str
    if kind == 'uuid':
        return UUID(), ['01234567-89ab-cdef-0123-456789abcdef'], Str
    if kind == 'integer':
        return Integer(), [0, 7, -2], Int
    if kind == 'float':
        return Float(), [0.0, 1.5], Real
    if kind == 'decimal':
        return Decimal(), [decimal_module.Decimal('1.50'), decimal_module.Decimal('0')], Number
    if kind == 'binary':
        return Binary(), [b'', b'abc'], Bytes
    if kind == 'enumeration':
        return Enumeration(['ab', 'c']), ['ab', 'c'], Str
    if kind == 'date':
        return Date(), [day(2020, 1, 2)], lambda v: Day(v.year, v.month, v.day)
    if kind == 'time':
        return Time(), [clock(0, 0, 0), clock(1, 2, 3)], lambda v: Clock(v.hour, v.minute, v.second)
    if kind == 'datetime':
        return DateTime(utc=True), [moment(2020, 1, 2, 3, 4, 5, tzinfo=UTC)], lambda v: Moment(v.year, v.month, v.day, v.hour, v.minute, v.second, tzinfo=UTC)


@harness('C06', variants=['text', 'token', 'email', 'uuid', 'integer', 'float', 'decimal', 'binary', 'enumeration', 'date', 'time', 'datetime'])
def flavoured_scalars(S, kind):
    """Twelve types of scalars given as instances of subclasses of their type: natively, written and, where it is the wire's form, read; they are what the
    plain values are."""
    field, values, make = scalars(kind)
    plain = S.choice('value', values)
    given = make(plain)
    kept = attempt(field.process, plain).value
    for phase in (INBOUND, OUTBOUND):
        got = attempt(field.process, given, phase)
        S.check(got.ok and got.value == kept, 'a value of a subclass is a value')
    out = attempt(field.serialize, given)
    S.check(out.ok and out.value == attempt(field.serialize, plain).value, 'and is written')
    if kind not in ('decimal', 'binary'):
        back = attempt(field.unserialize, given)
        S.check(back.ok and back.value == kept, 'and read')
    S.check(attempt(Structure({'f': field}).process, {'f': given}).value == {'f': kept}, 'within others as well')


@harness('C03')
def flavoured_moments(S):
    """Dates, times and datetimes of subclasses of those classes, and dates given as datetimes, with limits on, below or above them: they have the place
    of the plain value."""
    kind, shift, which = S.choice('kind', ['date', 'moment as date', 'moment', 'clock']), S.choice('shift', [-1, 0, 1]), S.choice('which', ['minimum', 'maximum'])
    if kind == 'clock':
        field, given, out = Time(**{which: clock(3, 4, 5)}), Clock(3, 4, 5 + shift), '03:04:%02d' % (5 + shift)
    elif kind == 'moment':
        field, given, out = DateTime(utc=True, **{which: moment(2020, 5, 6, 7, 8, 9)}), Moment(2020, 5, 6, 7, 8, 9 + shift), '2020-05-06T07:08:%02dZ' % (9 + shift)
    else:
        field, out = Date(**{which: day(2020, 5, 6)}), '2020-05-%02d' % (6 + shift)
        given = Day(2020, 5, 6 + shift) if kind == 'date' else S.choice('moment', [moment, Moment])(2020, 5, 6 + shift, S.choice('hour', [0, 23]), 59)
    got = attempt(field.serialize, given)
    S.check(got.ok == (shift >= 0 if which == 'minimum' else shift <= 0), 'limits apply to it as to any other')
    if got.ok:
        S.same(got.value, out, 'written as any other')
    S.check(attempt(field.process, given).ok == got.ok, 'natively as well')


@harness('C04')
def flavoured_lengths(S):
    """Texts and bytes of subclasses, with surrounding blanks, against limits of lengths: they are counted as the plain values are."""
    n, limit, which = S.int('n', 0, 3), S.int('limit', 0, 4), S.choice('which', ['min_length', 'max_length'])
    if S.bool('bytes'):
        got, count = attempt(Binary(**{which: limit}).process, Bytes(b'x' * n)), n
    else:
        strip = S.bool('strip')
        got, count = attempt(Text(strip=strip, **{which: limit}).process, Str(' ' + 'x' * n + ' ')), n if strip or not n and strip else n + 2
    S.check(got.ok == (count >= limit if which == 'min_length' else count <= limit), 'counted after stripping')
    if got.ok:
        S.check(len(got.value) == count, 'as it is kept')


LOOKALIKES = {
    'structure': lambda: [[('a', 1)], {'a': 1}.items(), {'a': 1}.keys(), iter({'a': 1}), {'a'}, 'a', Named(1, 2), None.__class__],
    'map': lambda: [[('a', 1)], {'a': 1}.items(), {'a': 1}.keys(), {'a'}, 'a', Named(1, 2)],
    'sequence': lambda: [(1,), {1}, frozenset([1]), deque([1]), range(2), iter([1]), {1: 1}, {1: 1}.values(), '1', b'1', bytearray(b'1'), Named(1, 2)],
    'tuple': lambda: [{1, 2}, frozenset([1, 2]), deque([1, 2]), range(2), iter([1, 2]), {1: 1, 2: 2}, '12', b'12', bytearray(b'12')],
    'text': lambda: [b'a', bytearray(b'a'), ['a'], ('a',), 1, True, 1.5],
    'binary': lambda: ['a', bytearray(b'a'), memoryview(b'a'), [97], 97, Str('a')],
    'integer': lambda: [1.0, 1.5, '1', decimal_module.Decimal(1), 1 + 0j, True, Real(1)],
    'float': lambda: [1, Int(1), '1.0', decimal_module.Decimal(1), 1 + 0j, True],
    'decimal': lambda: [1, 1.0, '1', True, Str('1')],
    'boolean': lambda: [0, 1, 0.0, 1.0, Int(1), 'true', '', decimal_module.Decimal(1), b'1'],
    'date': lambda: ['2020-01-01', clock(1, 2), timedelta(1), 0, (2020, 1, 1)],
    'time': lambda: ['01:02:03', moment(2020, 1, 1), day(2020, 1, 1), timedelta(0), 0],
    'datetime': lambda: ['2020-01-01T00:00:00Z', day(2020, 1, 1), Day(2020, 1, 1), clock(1, 2), timedelta(1), 0.0],
    'token': lambda: [b'a', bytearray(b'a'), ['a'], 1],
    'uuid': lambda: [b'01234567-89ab-cdef-0123-456789abcdef', 1],
    'definition': lambda: [Integer, 'integer', {'fieldtype': 'integer'}, [Integer()]],
    'surrogate': lambda: [{'_': 'scheme.surrogate.surrogate'}, {}, Dict(a=1), OrderedDict(), surrogate, 'a'],
}


@harness('C06', variants=sorted(LOOKALIKES))
def lookalikes(S, kind):
    """Seventeen types, natively inbound and outbound, alone and in a container: values which resemble those of the type without being of it are refused,
    as values of the wrong type."""
    make = {'structure': lambda: Structure({'a': Integer()}), 'map': lambda: Map(Integer()), 'sequence': lambda: Sequence(Integer()),
        'tuple': lambda: Tuple((Integer(), Integer())), 'text': Text, 'binary': Binary, 'integer': Integer, 'float': Float, 'decimal': Decimal,
        'boolean': Boolean, 'date': Date, 'time': Time, 'datetime': DateTime, 'token': Token, 'uuid': UUID, 'definition': Definition,
        'surrogate': Surrogate}[kind]
    field, given = make(), S.choice('given', LOOKALIKES[kind]())
    for phase in (INBOUND, OUTBOUND):
        got = attempt(field.process, given, phase)
        S.check(got.error and got.token == 'invalid' and isinstance(got.value, InvalidTypeError), 'refused for its type')
        S.check(attempt(Sequence(field).process, [given], phase).error, 'within others as well')


@harness('C07')
def crossing_types(S):
    """Constants and enumerations of one type, with equal and other values of another (zero and one, as integers, numbers with fractions and truths): equal
    values are the same value to them."""
    declared, given = S.choice('declared', [0, 1, 2]), S.choice('given', [0, 1, 2, 0.0, 1.0, 2.5, False, True, decimal_module.Decimal(1), Int(2), Real(2)])
    got = attempt(Enumeration([declared, 7]).process, given)
    S.check(got.ok == (given == declared), 'enumerated by value')
    got = attempt(Enumeration([declared, 7], ignored_values=[7]).process, 7.0)
    S.check(got.ok and got.value is None, 'ignored by value')
    if isinstance(given, int) and not isinstance(given, bool):
        S.check(attempt(Integer(constant=float(declared)).process, given).ok == (given == declared), 'constants compare by value')
    text, other = S.choice('text', ['a', 'b']), Str(S.choice('other', ['a', 'b']))
    S.check(attempt(Enumeration([text]).process, other).ok == (text == other), 'texts by their letters')
    S.check(attempt(Text(constant=text).process, other).ok == (text == other), 'whatever their class')


def shaped(S):
    x = S.choice('x', [0, 'a', None, True, 1.5])
    inner = some_dict(S, {'k': x, 'l': some_list(S, [x, 1], 'items')}, 'inner')
    return some_dict(S, {'b': inner, 'a': x}, 'outer'), {'b': {'k': x, 'l': [x, 1]}, 'a': x}


@harness('C22')
def flavoured_json(S):
    """JSON of nested dicts and lists of any of the subclasses, of several values: it reads back as the plain ones."""
    given, plain = shaped(S)
    S.same(attempt(Json.unserialize, attempt(Json.serialize, given).value).value, plain, 'the same data')


@harness('C20')
def flavoured_yaml(S):
    """YAML of nested dicts, lists and tuples of any of the subclasses: it is that of the plain ones, with ordered dicts in their order."""
    x = S.choice('x', [0, 'a', None, True, 1.5])
    pair = some_pair(S, (x, 1))
    inner = some_dict(S, {'k': x, 'p': pair}, 'inner')
    given = some_dict(S, {'a': x, 'b': inner}, 'outer')
    S.same(attempt(Yaml.serialize, given).value, attempt(Yaml.serialize, {'a': x, 'b': {'k': x, 'p': list(pair)}}).value, 'the same text')
    S.same(attempt(Yaml.serialize, {'i': Int(3), 's': Str('a'), 'f': Real(1.5)}).value, 'f: 1.5\ni: 3\ns: a', 'of scalars as well')
    backwards = S.bool('backwards')
    order = ['z', 'a'] if backwards else ['a', 'z']
    S.same(attempt(Yaml.serialize, OrderedDict((k, 1) for k in order)).value, '\n'.join('%s: 1' % k for k in order), 'in their order')


@harness('C18')
def flavoured_texts(S):
    """Structured text and form encoding of nested dicts, lists and tuples of any of the subclasses: they are those of the plain ones."""
    x = S.choice('x', [0, 'a', None, True])
    pair = some_pair(S, (x, 1))
    given, plain = some_dict(S, {'a': x, 'b': some_dict(S, {'p': pair}, 'inner')}, 'outer'), {'a': x, 'b': {'p': list(pair)}}
    for format in (StructuredText, UrlEncoded):
        S.same(attempt(format.serialize, given).value, attempt(format.serialize, plain).value, 'the same text')
    S.same(attempt(StructuredText.serialize, [Int(3), Str('a,b')]).value, attempt(StructuredText.serialize, [3, 'a,b']).value, 'of scalars as well')


@harness('C21')
def flavoured_xml(S):
    """XML of structures, maps, sequences and tuples of any of the subclasses: it is that of the plain ones."""
    x, y = S.int('x', 0, 3), S.int('y', 0, 3)
    schema = Structure({'m': Map(Sequence(Tuple((Integer(), Integer()))))}, name='r')
    given = some_dict(S, {'m': some_dict(S, {'k': some_list(S, [some_pair(S, (x, y))])}, 'inner')})
    text = attempt(Xml.serialize, given, schema)
    S.same(text.value, attempt(Xml.serialize, {'m': {'k': [(x, y)]}}, schema).value, 'the same text')


@harness('C19')
def flavoured_csv(S):
    """CSV of rows which are dicts of any of the subclasses, in lists or tuples, with scalars of subclasses: it is that of the plain ones."""
    x = S.int('x', 0, 3)
    schema = Sequence(Structure({'a': Integer(), 's': Text()}))
    row = some_dict(S, {'a': x, 's': S.choice('text', [str, Str])('u,v')})
    given = S.choice('rows', [list, List, tuple, Pair])([row, {'a': Int(1)}])
    S.same(attempt(Csv.serialize, given, schema).value, attempt(Csv.serialize, [{'a': x, 's': 'u,v'}, {'a': 1}], schema).value, 'the same rows')


@harness('C29')
def flavoured_data(S):
    """Formatting, merging, walking and setting nested data of dicts and lists of any of the subclasses: as of the plain ones."""
    x = S.choice('x', [0, 'a', None])
    make, other = S.choice('dict', DICTS), S.choice('other dict', DICTS)
    given = make({'a': make({'k': x}), 'b': 1})
    S.same(attempt(format_structure, given).value, attempt(format_structure, {'a': {'k': x}, 'b': 1}).value, 'shown as the plain one')
    S.same(attempt(format_structure, List([Str('a'), Named(1, 2)])).value, attempt(format_structure, ['a', (1, 2)]).value, 'lists as well')
    S.check(attempt(traverse_to_key, given, 'a.k').value == x, 'walked')
    merged = attempt(recursive_merge, given, other({'a': other({'l': 2})})).value
    S.check(merged is given and merged == {'a': {'k': x, 'l': 2}, 'b': 1}, 'merged within')
    attempt(set_nested_value, given, 'a.k', 9)
    S.check(given['a']['k'] == 9, 'set within')


@harness('C13')
def flavoured_descriptions(S):
    """Descriptions given as dicts and lists of any of the subclasses rebuild the same field."""
    make, items = S.choice('dict', DICTS), S.choice('list', [list, List, tuple, Pair])
    low = S.int('low', 0, 3)
    parts = items([make({'fieldtype': 'integer', 'minimum': low}), make({'fieldtype': 'text'})])
    field = attempt(Field.reconstruct, make({'fieldtype': 'structure', 'structure': make({'t': make({'fieldtype': 'tuple', 'values': parts})})})).value
    value = S.int('value', 0, 4)
    got = attempt(field.process, {'t': (value, 'a')})
    S.check(got.ok == (value >= low), 'the same limits')
