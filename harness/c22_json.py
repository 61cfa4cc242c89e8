from hlib import *
import json as json_module

PLACES = ['alone', 'member', 'item', 'mapped', 'placed', 'deep']
KINDS = ['text', 'wide', 'integer', 'large', 'float', 'boolean', 'date', 'time', 'datetime', 'decimal', 'uuid', 'token', 'enumeration', 'definition', 'email', 'object', 'union']


def leaf(S, kind):
    if kind == 'text':
        return Text(strip=False), S.text('text', S.b(2, 3), 0, charset('ab"\\/\n\t\x00\x7f\xe9\u2028'))
    if kind == 'wide':
        return Text(strip=False), S.text('text', 1, 0, WIDE)
    if kind == 'integer':
        return Integer(), S.int('int', -20, 20)
    if kind == 'large':
        return Integer(), S.choice('int', [10**40, -2**63, 2**53 + 1])
    if kind == 'float':
        return Float(), S.choice('float', [0.0, -1.5, 1e300, 5e-324, 1e16, 0.1, 1e-7, 123456789.123])
    if kind == 'boolean':
        return Boolean(), S.bool('bool')
    if kind == 'date':
        return Date(), date(S.choice('year', [1, 999, 2024]), S.int('month', 1, 12), 5)
    if kind == 'time':
        return Time(), time(S.int('hour', 0, 23), 5, 59)
    if kind == 'datetime':
        return DateTime(utc=True), datetime(2024, 5, 6, S.int('hour', 0, 23), 7, 8, tzinfo=UTC)
    if kind == 'decimal':
        return Decimal(), decimal_module.Decimal(S.choice('decimal', ['0', '-1.50', '1E+5', '123456789012345678901234567890.5']))
    if kind == 'uuid':
        return UUID(), '00000000-0000-0000-0000-00000000000' + S.text('digit', 1, 1, charset('09af'))
    if kind == 'token':
        return Token(), 'a:' + S.text('token', 1, 1, charset('az09'))
    if kind == 'enumeration':
        return Enumeration([1, 'a', 2.5, '1', False]), S.choice('enum', [1, 'a', 2.5, '1', False])
    if kind == 'definition':
        return Definition(), S.choice('definition', [0, 1]) and Integer(name='x') or Text(name='y')
    if kind == 'email':
        return Email(), S.text('name', 1, 1, charset('az09')) + '@b.com'
    if kind == 'object':
        return Object(), S.choice('object', [Text, Integer])
    return Union((Integer(), Boolean(), Date(), Structure({'a': Text()}), Sequence(Integer()))), S.choice('union', [lambda: 7, lambda: True, lambda: date(2000, 1, 2), lambda: {'a': 'x'}, lambda: [1, 2], lambda: []])()


def judged(S, schema, value, kind, label):
    wire = attempt(schema.serialize, value)
    S.check(wire.ok, label + ' can be serialized')
    out = attempt(schema.serialize, value, 'json')
    S.check(out.ok and isinstance(out.value, str), label + ' can be written')
    S.same(json_module.loads(out.value), plain(wire.value), 'the document holds the serialized data')
    back = attempt(schema.unserialize, out.value, 'json')
    S.check(back.ok, label + ' can be read')
    if kind == 'definition':
        S.same(schema.serialize(back.value), wire.value, 'the same definitions come back')
    else:
        S.same(back.value, value, label + ' read as written')


def plain(value):
    """What a JSON document can hold of serialized data: lists, and keys that are texts."""
    if isinstance(value, dict):
        return dict((k if isinstance(k, str) else str(k), plain(v)) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


@harness('C22', variants=[(k, p) for k in KINDS for p in PLACES], quick=2000)
def values(S, variant):
    """Values of sixteen types and of a union (texts of 0-2 characters of quotes, escapes, controls, letters; one character of the whole range; integers in [-20, 20] and large ones; floats from a list; ...), or null, alone, in a structure, a sequence, a map, a tuple, five levels deep."""
    kind, place = variant
    field, v = leaf(S, kind)
    if S.bool('null'):
        v = None
    if place == 'alone':
        schema, value = field, v
    elif place == 'member':
        schema, value = Structure({'m': field, 'n': Integer(), 'o': Text()}), {'m': v, 'n': 4}
    elif place == 'item':
        schema, value = Sequence(field), [v, v]
    elif place == 'mapped':
        schema, value = Map(field), {'a b': v, '"': v}
    elif place == 'placed':
        schema, value = Tuple((Integer(), field, Text())), (1, v, 'z')
    else:
        schema = Structure({'s': Sequence(Map(Tuple((field, Structure({'x': {'p': field}, 'y': {}}, polymorphic_on='on')))))})
        value = {'s': [{'k': (v, {'on': 'x', 'p': v}), 'l': (None, {'on': 'y'})}, {}]}
    judged(S, schema, value, kind, 'a value')


@harness('C22', variants=['text', 'integer', 'float', 'date', 'decimal'], quick=3000)
def keys(S, kind):
    """Maps of one or two entries with keys of five types (texts of 0-2 symbolic characters, integers in [-9, 9], floats, dates, decimals)."""
    if kind == 'text':
        field, key = Text(strip=False), S.text('key', 2, 0, charset('ab"\\\n:\xe9'))
    elif kind == 'integer':
        field, key = Integer(), S.int('key', -9, 9)
    else:
        field, key = leaf(S, kind)
    value = {key: 3}
    if S.bool('two'):
        other = {'text': 'zz', 'integer': 1000, 'float': 7.5, 'date': date(2025, 1, 1), 'decimal': decimal_module.Decimal('3')}[kind]
        value[other] = None
    schema = Map(Integer(), key=field)
    if S.bool('nested'):
        schema, value = Sequence(schema), [value, {}]
    judged(S, schema, value, kind, 'a map')


@harness('C22', variants=['list', 'map', 'tuple', 'structure'], quick=6000)
def nestings(S, outer):
    """Sequences, maps, tuples and structures nested three deep, each with zero to two entries, with integers, nulls, empty texts as leaves; also through the format itself without a schema."""
    def grown(name, depth):
        kind = S.choice(name, ['list', 'map', 'leaf', 'null'] if depth else ['leaf', 'null'])
        if kind == 'leaf':
            return 5 if depth % 2 else ''
        if kind == 'null':
            return None
        n = S.pick(name + '#', 3)
        items = [grown(name + str(i), depth - 1) for i in range(n)]
        return items if kind == 'list' else dict(zip(['a', '"'], items))
    value = grown('v', 2)
    value = {'list': lambda: [value, value], 'map': lambda: {'k': value, '': [value]}, 'tuple': lambda: [1, [value]], 'structure': lambda: {'k': {'l': value}}}[outer]()
    out = attempt(Json.serialize, value)
    S.check(out.ok, 'any nesting can be written')
    S.same(Json.unserialize(out.value), value, 'and read back')
