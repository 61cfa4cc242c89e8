from hlib import *
from fieldlib import *
import json

PLACES = ['alone', 'member', 'item', 'mapped', 'placed', 'either']
TYPES = ['binary', 'boolean', 'date', 'datetime', 'decimal', 'definition', 'email', 'enumeration', 'error', 'float', 'integer', 'map',
    'object', 'sequence', 'structure', 'surrogate', 'text', 'time', 'token', 'tuple', 'union', 'uuid']
EXAMPLES = {
    'binary': Binary, 'boolean': Boolean, 'date': Date, 'datetime': DateTime, 'decimal': Decimal, 'definition': Definition, 'email': Email,
    'enumeration': lambda: Enumeration('a b'), 'error': Error, 'float': Float, 'integer': Integer, 'map': lambda: Map(Integer()),
    'object': Object, 'sequence': lambda: Sequence(Text()), 'structure': lambda: Structure({'a': Integer()}), 'surrogate': Surrogate,
    'text': Text, 'time': Time, 'token': Token, 'tuple': lambda: Tuple((Integer(), Text())), 'union': lambda: Union((Integer(), Text())),
    'uuid': UUID,
}


def placed(where, field, value):
    if where == 'member':
        return Structure({'s': field, 'n': Integer()}), {'s': value, 'n': 1}
    if where == 'item':
        return Sequence(field), [value, value]
    if where == 'mapped':
        return Map(field), {'k': value}
    if where == 'placed':
        return Tuple((field, Integer())), (value, 1)
    if where == 'either':
        return Union((Integer(), field)), value
    return field, value


def taken(where, value):
    if where == 'member':
        return value['s']
    if where in ('item', 'placed'):
        return value[0]
    if where == 'mapped':
        return value['k']
    return value


@harness('C33', variants=[(p, k) for p in PLACES for k in SIMPLE if k != 'any' and (p in ('alone', 'item') or k in ('integer', 'text', 'date', 'enumeration'))],
    covers=['defined'], quick=20000)
def defined(S, variant):
    """definitions of every scalar type with each parameter of its own absent or symbolic, alone and in any container: through the wire, and
    then the field read and its original given any value of two kinds or null in all four directions"""
    where, kind = variant
    mode = S.choice('mode', ['brief', 'JSON'])
    field = own(S, kind, mode)
    described = field.describe()
    schema, whole = placed(where, Definition(), field)
    S.check(taken(where, attempt(schema.process, whole).value) is field, 'a field is its own value')
    S.check(taken(where, attempt(schema.process, whole, OUTBOUND).value) is field, 'in both directions')
    wire = attempt(schema.serialize, whole)
    S.check(wire.ok, 'it can be serialized')
    S.same(taken(where, wire.value), described, 'into its description')
    S.same(field.describe(), described, 'and left alone')
    source = wire.value
    if mode == 'JSON':
        source = json.loads(json.dumps(source))
    kept = copied(source)
    back = attempt(schema.unserialize, source)
    S.check(back.ok, 'and read back')
    S.same(source, kept, 'leaving the wire form alone')
    other = taken(where, back.value)
    S.cover('defined')
    S.check(type(other) is type(field) and other is not field, 'as another field of its type')
    S.same(untupled(other.describe()), untupled(described), 'described alike')
    S.check(taken(where, attempt(schema.unserialize, whole).value) is field, 'a field itself is read as it is')
    if where == 'alone' and kind not in ('surrogate', 'error', 'definition'):
        alike(S, field, other, judged(S, kind), 'the field read')


@harness('C33', variants=TYPES, covers=['accepted', 'refused'], quick=20000)
def limited(S, kind):
    """a definition field limited to any two of the types or less, as a text, list or tuple, given a field of each type natively, to the wire
    and from it (also as the name of its type)"""
    first = S.choice('first', TYPES)
    second = S.choice('second', ['none', kind, 'text'])
    names = [first] if second in ('none', first) else [first, second]
    form = S.choice('form', ['text', 'list', 'tuple'])
    field = Definition({'text': ' '.join(names), 'list': list(names), 'tuple': tuple(names)}[form])
    S.check(field.valid_fields == tuple(names), 'the limits are kept')
    value = EXAMPLES[kind]()
    mode = S.choice('mode', ['in', 'out', 'serialize', 'unserialize', 'named'])
    if mode == 'named':
        S.assume(kind not in ('enumeration', 'map', 'sequence', 'structure', 'tuple', 'union'))
    got = {'in': lambda: attempt(field.process, value), 'out': lambda: attempt(field.process, value, OUTBOUND),
        'serialize': lambda: attempt(field.serialize, value), 'unserialize': lambda: attempt(field.unserialize, value.describe()),
        'named': lambda: attempt(field.unserialize, kind)}[mode]()
    if kind in names:
        S.cover('accepted')
        S.check(got.ok, 'a field of a listed type is accepted')
        if mode == 'serialize':
            S.same(got.value, value.describe(), 'and described')
        elif mode in ('in', 'out'):
            S.check(got.value is value, 'and returned')
        else:
            S.check(type(got.value) is type(value), 'and constructed')
    else:
        S.cover('refused')
        S.check(got.error and got.token == 'invalidfield', 'any other is refused')
        for name in names:
            S.check(name in got.value.errors[0]['message'], 'naming the listed types')


BROKEN = {
    'unknown': lambda S: {'fieldtype': S.text('type', 3, 0, charset('aet'))},
    'untyped': lambda S: {'name': 'a', 'required': S.bool('required')},
    'empty': lambda S: {},
    'number': lambda S: {'fieldtype': S.int('type')},
    'list': lambda S: {'fieldtype': ['text']},
    'null': lambda S: {'fieldtype': None},
    'parameter': lambda S: {'fieldtype': S.choice('type', ['integer', 'text', 'date', 'float', 'sequence', 'token', 'decimal']),
        S.choice('name', ['minimum', 'min_length', 'segments']): 'x'},
    'missing': lambda S: {'fieldtype': S.choice('type', ['map', 'tuple', 'union', 'structure', 'enumeration', 'sequence'])},
    'member': lambda S: {'fieldtype': 'structure', 'structure': {'a': S.choice('member', [{'fieldtype': 'none'}, {}, 'x', 3, None])}},
    'item': lambda S: {'fieldtype': 'sequence', 'item': S.choice('item', [{'fieldtype': 'none'}, {}, 'x', 3, [], None])},
    'key': lambda S: {'fieldtype': 'map', 'value': {'fieldtype': 'integer'}, 'key': S.choice('key', [{'fieldtype': 'none'}, 3, 'x'])},
    'values': lambda S: {'fieldtype': 'tuple', 'values': S.choice('values', [3, [3], ['x'], [{'fieldtype': 'none'}], None])},
    'plain': lambda S: S.choice('plain', [3, 1.5, [], ['text'], (), b'text', True, date(2000, 1, 2)]),
    'text': lambda S: S.text('text', 3, 0, charset('aet_')),
}


@harness('C33', variants=sorted(BROKEN), covers=['refused'])
def broken(S, which):
    """wire forms that describe no field: unknown, missing and wrong types, wrong and missing parameters at any place, other plain values;
    by the field alone or within a structure or sequence"""
    wire = BROKEN[which](S)
    place = S.choice('place', ['alone', 'member', 'item'])
    field = {'alone': Definition(), 'member': Structure({'s': Definition()}), 'item': Sequence(Definition())}[place]
    kept = copied(wire)
    got = attempt(field.unserialize, {'alone': wire, 'member': {'s': wire}, 'item': [wire]}[place])
    S.same(wire, kept, 'the wire form is left alone')
    S.check(not got.ok or which in ('parameter', 'key', 'item', 'member', 'values', 'missing', 'unknown', 'text'), 'what describes no field is refused')
    S.check(got.ok or got.error, 'as a structural error')
    S.cover('refused')
    if got.error and place == 'alone':
        S.check(got.token == 'invalid', 'for an invalid value')


@harness('C33', covers=['refused'])
def others(S):
    """values that are no fields, natively and to the wire: any integer and text <= 2, booleans, lists, mappings (a description is one)"""
    value = {'int': lambda: S.int('int'), 'text': lambda: S.text('text', 2, 0, ASCII), 'bool': lambda: S.bool('bool'), 'list': lambda: [Integer()],
        'dict': lambda: {'fieldtype': 'integer'}, 'class': lambda: Integer}[S.choice('kind', ['int', 'text', 'bool', 'list', 'dict', 'class'])]()
    field = Definition(S.choice('valid', [None, 'integer']))
    for phase, serialized in ((INBOUND, False), (OUTBOUND, False), (OUTBOUND, True)):
        got = attempt(field.process, value, phase, serialized)
        S.check(got.error and got.token == 'invalid', 'anything else is refused')
    S.cover('refused')


@harness('C33', covers=['made', 'refused'])
def construction(S):
    """definition fields limited to any text <= 4 over five letters, at any place among known types, or to something of another type"""
    which = S.choice('which', ['text', 'listed', 'wrong', 'empty'])
    if which == 'wrong':
        got = attempt(Definition, S.choice('value', [3, True, {'text': 1}]))
        S.check(got.kind == 'raised' and isinstance(got.value, TypeError), 'only texts, lists and tuples limit a definition')
    elif which == 'empty':
        got = attempt(Definition, S.choice('value', [None, [], (), 0]))
        S.check(got.ok and got.value.valid_fields is None, 'nothing limits nothing')
        S.check(attempt(got.value.process, Text()).ok, 'nothing')
    else:
        name = S.text('name', 4, 1, charset('adetx'))
        listed = ['text', 'date', 'token'][:S.choice('others', [0, 1, 3])]
        listed.insert(S.choice('place', list(range(len(listed) + 1))), name)
        got = attempt(Definition, ' '.join(listed) if which == 'text' else listed)
        if name in ('date', 'text'):
            S.cover('made')
            S.check(got.ok, 'known types are taken')
        else:
            S.cover('refused')
            S.check(got.kind == 'raised' and isinstance(got.value, ValueError), 'unknown ones refused')
