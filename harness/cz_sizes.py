"""Many elements and deep nesting: what holds of two elements holds of the twentieth, and twelve levels down.

All but one of the elements are concrete; the place of the symbolic one is any."""
from hlib import *
from fieldlib import copied, untupled
from collections import OrderedDict
from scheme.element import Element
from scheme.formats import *
from scheme.util import *
from scheme.surrogate import surrogate
import json
import sys

EXAMPLES = {
    'binary': Binary, 'boolean': Boolean, 'date': Date, 'datetime': DateTime, 'decimal': Decimal, 'definition': Definition, 'email': Email,
    'enumeration': lambda: Enumeration('a b'), 'error': Error, 'float': Float, 'integer': Integer, 'map': lambda: Map(Integer()),
    'object': Object, 'sequence': lambda: Sequence(Text()), 'structure': lambda: Structure({'a': Integer()}), 'surrogate': Surrogate,
    'text': Text, 'time': Time, 'token': Token, 'tuple': lambda: Tuple((Integer(), Text())), 'union': lambda: Union((Integer(), Text())),
    'uuid': UUID,
}
CONTAINERS = ['structure', 'map', 'keyed', 'sequence', 'tuple']
CHAINS = ['structure', 'map', 'sequence', 'tuple']


def width(S):
    return S.b(13, 30)


def names(n):
    return ['k%d' % i for i in range(n)]


def wide(kind, n, item, **params):
    """A container of n elements; item gives the field of each."""
    if kind == 'structure':
        return Structure(OrderedDict((k, item(i)) for i, k in enumerate(names(n))), **params)
    if kind == 'map':
        return Map(item(0), **params)
    if kind == 'keyed':
        return Map(item(0), key=Integer(), **params)
    if kind == 'sequence':
        return Sequence(item(0), **params)
    return Tuple([item(i) for i in range(n)], **params)


def filled(kind, values):
    """The value of such a container."""
    if kind in ('structure', 'map'):
        return OrderedDict(zip(names(len(values)), values)) if kind == 'structure' else dict(zip(names(len(values)), values))
    if kind == 'keyed':
        return dict((i, v) for i, v in enumerate(values))
    return list(values) if kind == 'sequence' else tuple(values)


def listed(kind, value, n):
    """Its elements, in order."""
    if kind in ('structure', 'map'):
        return [value[k] for k in names(n)]
    if kind == 'keyed':
        return [value[i] for i in range(n)]
    return list(value)


def chain(levels, leaf, first=0):
    """(field, wrap): containers within each other."""
    field, kinds = leaf, [CHAINS[(first + i) % 4] for i in range(levels)]
    for kind in reversed(kinds):
        field = {'structure': lambda: Structure({'s': field, 'z': Boolean()}), 'map': lambda: Map(field), 'sequence': lambda: Sequence(field),
            'tuple': lambda: Tuple([Boolean(), field])}[kind]()

    def wrap(value):
        for kind in reversed(kinds):
            value = {'structure': {'s': value}, 'map': {'m': value}, 'sequence': [value], 'tuple': (True, value)}[kind]
        return value

    return field, wrap, kinds


def steps(kinds):
    return [{'structure': 's', 'map': 'm', 'sequence': 0, 'tuple': 1}[k] for k in kinds]


def reached(value, path):
    for step in path:
        value = value[step]
    return value


def replaced(values, place, value):
    return values[:place] + [value] + values[place + 1:]


@harness('C02', variants=CONTAINERS + ['chain'])
def sized_wire(S, kind):
    """13 (30) elements that are dates, any one of them of a symbolic month or null; dates twelve (thirty) levels deep within structures, maps, sequences and tuples."""
    special = None if S.bool('null') else date(2024, S.int('month', 1, 12), 5)
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(12, 30), Date(), S.pick('first', 4))
        value, expected = wrap(special), wrap(wire('date', special))
    else:
        n = width(S)
        dates = [date(2024, 1 + i % 12, 1 + i % 28) for i in range(n)]
        values = replaced(dates, S.pick('place', n), special)
        field = wide(kind, n, lambda i: Date())
        value, expected = filled(kind, values), filled(kind, [wire('date', v) for v in values])
    out = field.serialize(value)
    S.check(out == expected, 'serialized, each element is at its place')
    S.check(field.unserialize(out) == value, 'unserialized, the value is back')


LETTERS = 'abcdefghijklmnopqrstuvwxyz0123456789'


@harness('C01', variants=['text', 'binary', 'token', 'email', 'integer'])
def sized_values(S, kind):
    """Texts, bytes, tokens, addresses and integers of 40 (150) characters, any one of which is symbolic."""
    n = S.b(40, 150)
    place = S.choice('place', [0, 1, n // 2, n - 2, n - 1])
    base = (LETTERS * 5)[:n]
    if kind == 'text':
        field, value = Text(strip=False), base[:place] + S.text('c', 1, 1) + base[place + 1:]
    elif kind == 'binary':
        field, value = Binary(), base[:place].encode() + S.bytes('c', 1) + base[place + 1:].encode()
    elif kind == 'token':
        value = base[:place] + S.text('c', 1, 1, charset('az09-+.:_')) + base[place + 1:]
        S.assume(is_token(value))
        field = Token()
    elif kind == 'email':
        c = S.text('c', 1, 1, LOWER)
        field, value = Email(), base[:place] + c + base[place + 1:] + '@' + base[:20] + c + '.com'
    else:
        field, value = Integer(), 10 ** n + S.int('c')
    S.same(field.unserialize(field.serialize(value)), value, 'a value of many characters survives')


@harness('C04', variants=['text', 'stripped', 'binary', 'sequence'])
def sized_lengths(S, kind):
    """Limits of 9, 33 and 128, values around them; the text's first character symbolic."""
    limit = S.choice('limit', [9, 33, 128])
    n = limit + S.choice('more', [-1, 0, 1])
    which = S.choice('which', ['min_length', 'max_length'])
    if kind == 'sequence':
        field, value, kept = Sequence(Integer(), **{which: limit}), list(range(n)), None
    elif kind == 'binary':
        field, value = Binary(**{which: limit}), S.bytes('c', 1) + b'x' * n
        value = value[:n]
    else:
        field, value = Text(strip=kind == 'stripped', **{which: limit}), S.text('c', 1, 1) + 'x' * (n - 1)
    out = attempt(field.process, value)
    kept = value.strip() if kind == 'stripped' else value
    size = len(kept)
    good = size >= limit if which == 'min_length' else size <= limit
    S.check(out.ok == good, 'exactly within the limits')
    if good:
        S.check(out.value == kept, 'it is kept')
    else:
        S.check(out.token == which, 'the error names the limit')


@harness('C05', variants=['segments', 'addresses', 'uuid'])
def sized_grammars(S, kind):
    """Tokens of up to 9 segments, with any number declared or none; lists of 7 addresses, any of them with a symbolic character; texts of 36 characters with any symbolic."""
    if kind == 'segments':
        n, declared = 1 + S.pick('n', 9), S.choice('declared', [None] + list(range(1, 10)))
        place = S.pick('place', n)
        parts = replaced(['ab'] * n, place, 'a' + S.text('c', 1, 1, charset('a-_. '))) 
        value = ':'.join(parts)
        out = attempt(Token(segments=declared).process, value)
        S.check(out.ok == is_token(value, declared), 'exactly tokens of that many segments')
    elif kind == 'addresses':
        place, c = S.pick('place', 7), S.text('c', 1, 1, charset('a@ ,.-'))
        value = ','.join(replaced(['x%d@a.co' % i for i in range(7)], place, 'x' + c + '@a.co'))
        out = attempt(Email(multiple=True).process, value)
        good = c in 'a-'
        if c in ' ,.@':
            return
        S.check(out.ok == good, 'exactly lists of addresses')
        S.check(not out.ok or out.value == value, 'the list is kept')
    else:
        place = S.pick('place', 36)
        base = '01234567-89ab-cdef-0123-456789abcdef'
        c = S.text('c', 1, 1)
        value = base[:place] + c + base[place + 1:]
        out = attempt(UUID().process, value)
        S.check(out.ok == (c == '-' if base[place] == '-' else c in '0123456789abcdef'), 'exactly the grammar, at every place')


@harness('C07')
def sized_enumeration(S, variant=None):
    """An enumeration of 13 (30) integers or texts, any integer or text of two digits, one to three values ignored."""
    n = width(S)
    v = S.int('value', -2, n + 2)
    ignored = S.choice('ignored', [None, [n // 2], [0, n - 1, n + 1]])
    out = attempt(Enumeration(list(range(n)), ignored_values=ignored).process, v, S.choice('phase', [INBOUND, OUTBOUND]), S.bool('serialized'))
    if ignored and v in ignored:
        S.check(out.ok and out.value is None, 'an ignored value is null')
    else:
        S.check(out.ok == (0 <= v < n), 'exactly the listed values')


@harness('C08', variants=['invalid', 'absent', 'required', 'default', 'null', 'unknown', 'order', 'partial'])
def sized_structure(S, what):
    """Structures of 13 (30) members; any one of them invalid, absent, required, defaulted or an ignored null; as many unknown keys; an order of that many keys."""
    n = width(S)
    place = S.pick('place', n)
    number = S.int('number')
    key = names(n)[place]
    params = lambda i: {'required': {'required': True}, 'partial': {'required': True}, 'default': {'default': 7}, 'null': {'ignore_null': True}}.get(what, {}) if i == place else {}
    order = list(reversed(names(n)))[:S.choice('ordered', [3, n])] if what == 'order' else None
    field = Structure(OrderedDict((k, Integer(**params(i))) for i, k in enumerate(names(n))), strict=not (what == 'unknown' and S.bool('lax')), key_order=order)
    value = dict(zip(names(n), replaced(list(range(n)), n - 1 - place, number)))
    expected = dict(value)
    if what == 'invalid':
        value[key] = 'x'
    elif what in ('absent', 'required', 'default', 'partial'):
        del value[key]
        del expected[key]
    elif what == 'null':
        value[key] = None
        del expected[key]
    elif what == 'unknown':
        for i in range(place + 1):
            value['u%d' % i] = i
    phase = S.choice('phase', [INBOUND, OUTBOUND])
    out = attempt(field.process, value, phase, False, None, what == 'partial')
    if what == 'default' and phase == INBOUND:
        expected[key] = 7
    if what in ('invalid', 'required'):
        S.check(out.error, 'one member decides')
        S.check(sorted(k for k, v in out.value.structure.items() if isinstance(v, StructuralError)) == [key], 'it is at its key')
    elif what == 'unknown' and field.strict:
        S.check(out.error and sorted(k for k, v in out.value.structure.items() if isinstance(v, StructuralError)) == sorted('u%d' % i for i in range(place + 1)), 'each unknown key is an error')
    else:
        S.check(out.ok and dict(out.value) == expected, 'exactly the declared keys')
        if order:
            S.check(list(out.value)[:len(order)] == order, 'in the order of the keys')


@harness('C09')
def sized_variants(S, variant=None):
    """Twelve variants, the value naming any of them with a member of any of four, its value symbolic."""
    n = 12
    field = Structure(dict(('v%d' % i, {'k%d' % i: Integer(), 'same': Integer(minimum=i)}) for i in range(n)), polymorphic_on='type')
    place, other = S.pick('place', n + 1), S.choice('other', [0, 5, 9, n - 1])
    number = S.int('number', -2, 14)
    same = S.bool('same')
    out = attempt(field.process, {'type': 'v%d' % place, 'same' if same else 'k%d' % other: number}, S.choice('phase', [INBOUND, OUTBOUND]), S.bool('serialized'))
    if place == n:
        S.check(out.token == 'invalid' or out.token == 'unrecognized', 'an unknown variant is refused')
    else:
        S.check(out.ok == (number >= place if same else other == place), 'exactly the variant it names judges it')


def path_of(kinds):
    return ''.join({'structure': '.s', 'map': '[m]', 'sequence': '[0]', 'tuple': '[1]'}[k] for k in kinds)


@harness('C10', variants=CONTAINERS + ['chain'])
def sized_errors(S, kind):
    """13 (30) elements of which all, all but one or just one (any) are invalid; an invalid element 9 (20) levels deep."""
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), Integer(), S.pick('first', 4))
        field.name = 'root'
        e = attempt(field.process, wrap(S.text('bad', 1, 0, charset('ab')))).value
        S.check(isinstance(e, StructuralError), 'a leaf decides')
        lines = e.format_errors()
        S.check(len(lines) == 1 and ('at root' + path_of(kinds) + ': ') in lines[0], 'it is rendered once with its full path')
        error, rendered = e, e.serialize()[1]
        for i, step in enumerate(steps(kinds)):
            error, rendered = error.structure[step], rendered[step]
        S.check(error.errors[0]['token'] == 'invalid' and rendered[0]['token'] == 'invalid' and len(rendered) == 1, 'it is at its place')
        S.same(StructuralError.unserialize(e.serialize()).serialize(), e.serialize(), 'read back it serializes alike')
        return
    n = width(S)
    which, place = S.choice('which', ['all', 'all but one', 'one']), S.pick('place', n)
    bad = [i for i in range(n) if which == 'all' or (i == place) == (which == 'one')]
    values = ['x' if i in bad else i for i in range(n)]
    field = wide(kind, n, lambda i: Integer(), name='root')
    e = attempt(field.process, filled(kind, values)).value
    S.check(isinstance(e, StructuralError), 'one element decides')
    failed = listed(kind, e.structure, n)
    S.check([i for i in range(n) if isinstance(failed[i], StructuralError)] == bad, 'exactly the failing elements')
    rendered = e.format_errors()
    S.check(len(rendered) == len(bad), 'each is rendered once')
    for at, i in enumerate(bad):
        head = '[%02d] Invalid value error at root%s: ' % (at + 1, '.k%d' % i if kind == 'structure' else '[k%d]' % i if kind == 'map' else '[%d]' % i)
        S.check(rendered[at][:len(head)] == head, 'in order, by number, with its path')
    serialized = e.serialize()
    if kind in ('sequence', 'tuple'):
        S.check([i for i in range(n) if serialized[1][i]] == bad and len(serialized[1]) == n, 'the serialized error mirrors it')
    else:
        S.check(len(serialized[1]) == len(bad) and all(failed[i].errors == v for i, v in zip(bad, [serialized[1][names(n)[i] if kind != 'keyed' else i] for i in bad])), 'the serialized error mirrors it')
    S.same(StructuralError.unserialize(serialized).serialize(), serialized, 'read back it serializes alike')


@harness('C11', variants=CONTAINERS + ['chain'])
def sized_garbage(S, kind):
    """A container of 13 (30) elements, any of which is of one of seven kinds; the same 9 (20) levels deep."""
    sort = S.choice('sort', ['null', 'boolean', 'text', 'bytes', 'date', 'list', 'map'])
    bad = {'list': [None, []], 'map': {1: 'x'}}[sort] if sort in ('list', 'map') else gen_of_kind(S, sort, 'bad', 1)
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), Date(), S.pick('first', 4))
        value = wrap(bad)
    else:
        n = width(S)
        field, value = wide(kind, n, lambda i: Date()), filled(kind, replaced(['2024-01-01'] * n, S.choice('place', [0, n // 2, n - 1]), bad))
    S.check(attempt(field.process, value, *S.choice('call', CALLS)).kind != 'raised', 'a value or a structural error')


@harness('C12', variants=CONTAINERS + ['chain'])
def sized_effects(S, kind):
    """A container of 13 (30) elements or 9 (20) levels; five operations on it, the result then emptied."""
    number = S.int('number')
    leaf = lambda: Structure({'n': Integer(), 'd': Sequence(Integer(), default=[1])})
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), leaf(), S.pick('first', 4))
        make = lambda: wrap({'n': number})
    else:
        n = width(S)
        field = wide(kind, n, lambda i: leaf())
        make = lambda: filled(kind, [{'n': number if i == n - 2 else i} for i in range(n)])
    value = make()
    operation = {'process': lambda: field.process(value), 'serialize': lambda: field.serialize(value), 'extract': lambda: field.extract(value),
        'instantiate': lambda: field.instantiate(value), 'interpolate': lambda: field.interpolate(value, {'p': 1})}[S.choice('operation', ['process', 'serialize', 'extract', 'instantiate', 'interpolate'])]
    first = operation()
    S.same(value, make(), 'the value is as it was')
    second = copied(first)

    def emptied(v):
        for w in list(v.values() if isinstance(v, dict) else v):
            if isinstance(w, (dict, list, tuple)):
                emptied(w)
        if isinstance(v, (dict, list)):
            v.clear()

    emptied(first)
    S.same(value, make(), 'the value does not share the result')
    S.same(operation(), second, 'the same call gives the same result')


@harness('C13', variants=CONTAINERS + ['union', 'chain'])
def sized_descriptions(S, kind):
    """A field over 13 (30) fields, one of four with symbolic limits, or one 9 (20) levels deep, described, rebuilt and given a value."""
    low, number = S.int('low', -1, 1), S.int('number', -3, 3)
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), Integer(minimum=low), S.pick('first', 4))
        value = wrap(number)
    else:
        n = width(S)
        place = S.choice('place', [0, 1, 4, n - 1])
        item = lambda i: Integer(minimum=low if i == place or kind in ('map', 'keyed', 'sequence') else -9)
        if kind == 'union':
            field, value = Union([Integer(minimum=low) if i == place else Sequence(Date()) for i in range(n)]), number
        else:
            field, value = wide(kind, n, item), filled(kind, replaced([1] * n, place, number))
    described = field.describe()
    rebuilt = Field.reconstruct(json.loads(json.dumps(described)) if kind != 'keyed' and S.bool('JSON') else described)
    S.same(rebuilt.describe(), field.describe(), 'described alike')
    a, b = attempt(field.process, value), attempt(rebuilt.process, value)
    S.check(a.kind == b.kind and a.ok == (number >= low), 'it judges alike')
    S.check(not a.ok or a.value == b.value, 'it converts alike')


@harness('C14', variants=CONTAINERS + ['union', 'chain'])
def sized_clones(S, kind):
    """A field over 13 (30) fields or 9 (20) levels, cloned; any one of the fields then changed in the original or the clone."""
    from copy import deepcopy
    low, number = S.int('low', -1, 1), S.int('number', -3, 3)
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), Integer(), S.pick('first', 4))
        value = wrap(number)

        def leaf(f):
            for k in kinds:
                f = {'structure': lambda: f.structure['s'], 'map': lambda: f.value, 'sequence': lambda: f.item, 'tuple': lambda: f.values[1]}[k]()
            return f
    else:
        n = width(S)
        place = S.pick('place', n)
        if kind == 'union':
            field, value = Union([Integer() if i == place else Sequence(Date()) for i in range(n)]), number
            leaf = lambda f: f.fields[place]
        else:
            field, value = wide(kind, n, lambda i: Integer()), filled(kind, replaced([5] * n, place, number))
            leaf = {'structure': lambda f: f.structure[names(n)[place]], 'map': lambda f: f.value, 'keyed': lambda f: f.value, 'sequence': lambda f: f.item, 'tuple': lambda f: f.values[place]}[kind]
    clone = deepcopy(field) if S.bool('deepcopy') else field.clone()
    changed, other = (clone, field) if S.bool('the clone') else (field, clone)
    leaf(changed).minimum = low
    S.check(attempt(other.process, value).ok, 'the other is as it was')
    S.check(attempt(changed.process, value).ok == (number >= low), 'the changed one is not')


@harness('C15', variants=['scalars', 'containers', 'refused'])
def sized_unions(S, kind):
    """Unions of 12 members, of which the first that takes the value is any; the value symbolic."""
    n = 12
    place = S.pick('place', n)
    number = S.int('number')
    if kind == 'scalars':
        members = [Sequence(Text())] * place + [Integer(minimum=place)] + [Float()] + [Integer()] * (n - place - 1)
        out = attempt(Union(members).process, number, *S.choice('call', CALLS[:1] + CALLS[2:3]))
        S.check(out.ok == (number >= place), 'the first member that recognizes the type decides')
        S.check(out.value == number if out.ok else out.token == 'minimum', 'with its own result')
    elif kind == 'containers':
        members = [Integer() if i < place else Map(Integer(maximum=i)) for i in range(n)]
        out = attempt(Union(members).process, {'k': number})
        S.check(out.ok == (number <= place), 'the first member that recognizes the type decides')
    else:
        members = [[Text(), Date(), Sequence(Text()), Boolean()][i % 4] for i in range(place + 1)]
        out = attempt(Union(members).process, number)
        S.check(out.token == 'invalid' and isinstance(out.value, InvalidTypeError), 'refused by every member, it is refused')


class Wrapped(object):
    def __init__(self, value):
        self.value = value


@harness('C16', variants=CONTAINERS + ['union', 'chain', 'element', 'excluded'])
def sized_objects(S, kind):
    """13 (30) elements, each instantiated and extracted by its own field, any of them null or symbolic, or excluded; 9 (20) levels; an element of 12 attributes, any of them given."""
    number = S.int('number')
    item = lambda i: Integer(instantiator=lambda f, v, k=None: Wrapped(v), extractor=lambda f, v: v.value)
    if kind == 'element':
        class Thing(Element):
            schema = Structure(dict(('a%d' % i, Integer(default=i)) for i in range(12)), name='thing')

        place = S.pick('place', 12)
        given = Thing(**{'a%d' % place: number})
        expected = dict(('a%d' % i, number if i == place else i) for i in range(12))
        S.check(given.__dict__ == expected, 'given attributes and defaults')
        S.check(given.serialize() == expected and Thing.unserialize(expected).__dict__ == expected, 'the same data')
        return
    if kind == 'excluded':
        n = width(S)
        place = S.pick('place', n)
        field = Structure(dict((k, Integer(mark=i != place)) for i, k in enumerate(names(n))), mark=True)
        out = field.extract(dict((k, number) for k in names(n)), mark=True)
        S.check(out == dict((k, number) for i, k in enumerate(names(n)) if i != place), 'exactly the members which are not excluded')
        return
    if kind == 'union':
        n = width(S)
        place = S.pick('place', n)
        field = Union([Map(Integer())] * place + [Sequence(Integer())] + [Tuple([Integer()])])
        S.check(attempt(field.extract, [number]).value == [number], 'the first member that extracts')
        return
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), item(0), S.pick('first', 4))
        made = field.instantiate(wrap(number))
        found = made
        for step in steps(kinds):
            found = found[step]
        S.check(type(found) is Wrapped and found.value == number, 'instantiated at its place')
        S.check(field.extract(wrap(Wrapped(number))) == wrap(number), 'extracted at its place')
        return
    n = width(S)
    place = S.pick('place', n)
    special = None if S.bool('null') else number
    values = replaced(list(range(n)), place, special)
    field = wide(kind, n, item)
    made = listed(kind, field.instantiate(filled(kind, values)), n)
    S.check([v if v is None else (type(v), v.value) for v in made] == [v if v is None else (Wrapped, v) for v in values], 'each is instantiated')
    out = field.extract(filled(kind, [v if v is None else Wrapped(v) for v in values]))
    expected = filled(kind, values)
    if kind == 'structure' and special is None:
        del expected[names(n)[place]]
    S.check(out == expected, 'each is extracted')


@harness('C17', variants=CONTAINERS + ['union', 'chain', 'text'])
def sized_references(S, kind):
    """13 (30) elements that are references, one of them (any) to an undefined parameter, a symbolic or a null one; 9 (20) levels; texts of 12 references."""
    number = S.int('number', 0, 5)
    parameters = {'p': number, 'z': None, 'q': 'ab'}
    if kind == 'text':
        place = S.pick('place', 12)
        parts = replaced(['x${q}'] * 12, place, 'y${p}')
        S.check(Text().interpolate(' '.join(parts), parameters) == ' '.join(replaced(['xab'] * 12, place, 'y%d' % number)), 'every reference is replaced')
        return
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), Integer(), S.pick('first', 4))
        S.check(field.interpolate(wrap('${p}'), parameters) == wrap(number), 'at any depth')
        return
    if kind == 'union':
        place = S.pick('place', 12)
        field = Union([Map(Integer())] * place + [Sequence(Integer()), Tuple([Integer()])])
        S.check(attempt(field.interpolate, ['${p}'], parameters).value == [number], 'the first member that can take it')
        return
    n = width(S)
    place = S.pick('place', n)
    what = S.choice('what', ['value', 'reference', 'null'] + ([] if kind in ('sequence', 'tuple') else ['undefined']))
    values = replaced(['${p}'] * n, place, {'value': 7, 'reference': '${ p }', 'null': '${z}', 'undefined': '${missing}'}[what])
    expected = filled(kind, replaced([number] * n, place, {'value': 7, 'reference': number}.get(what)))
    if what == 'undefined':
        del expected[place if kind == 'keyed' else names(n)[place]]
    out = wide(kind, n, lambda i: Integer()).interpolate(filled(kind, values), parameters)
    S.check(out == expected, 'every element is interpolated')


@harness('C18', variants=['mapping', 'list', 'form', 'chain', 'numbers'])
def sized_texts(S, kind):
    """13 (30) entries, any one a text of one symbolic character or a nested list; 7 (12) levels."""
    c = S.text('c', 1, 1, charset('ab{]"'))
    if kind == 'chain':
        value, first = c, S.pick('first', 2)
        for i in range(S.b(7, 12)):
            value = [value, {}] if i % 2 == first else {'k': value}
        S.check(StructuredText.unserialize(StructuredText.serialize(value)) == value, 'the same nesting')
        return
    n = S.b(13, 30)
    place = S.pick('place', n)
    entry = c if S.bool('text') else [c, []]
    if kind == 'numbers':
        values = [str(100 + i) for i in range(n)]
        out = StructuredText.unserialize('[%s]' % ','.join(values), parse_numbers=True)
        S.check(out == [100 + i for i in range(n)], 'every text that spells an integer')
    elif kind == 'list':
        value = replaced(['v%d' % i for i in range(n)], place, entry)
        S.check(StructuredText.unserialize(StructuredText.serialize(value)) == value, 'the same list')
    else:
        value = dict(zip(names(n), replaced(['v%d' % i for i in range(n)], place, entry)))
        format = UrlEncoded if kind == 'form' else StructuredText
        S.check(format.unserialize(format.serialize(value)) == value, 'the same mapping')


@harness('C19', variants=['rows', 'columns', 'selection'])
def sized_csv(S, kind):
    """12 rows of 3 columns or 2 rows of 12, any cell a text of one symbolic character or absent; selections of up to 12 columns."""
    rows, columns = (12, 3) if kind == 'rows' else (2, 12)
    schema = Sequence(Structure(dict(('c%02d' % i, Text()) for i in range(columns))))
    data = [dict(('c%02d' % i, 'v%d-%d' % (r, i)) for i in range(columns)) for r in range(rows)]
    r, i = S.pick('row', rows), S.pick('column', columns)
    if S.bool('absent'):
        del data[r]['c%02d' % i]
    else:
        data[r]['c%02d' % i] = S.text('c', 1, 1, charset('a",\n'))
    params, expected = {}, data
    if kind == 'selection':
        chosen = ['c%02d' % k for k in reversed(range(1 + S.pick('chosen', columns)))]
        params = {'columns': chosen if S.bool('list') else ','.join(chosen)}
        expected = [dict((k, v) for k, v in row.items() if k in chosen) for row in data]
    text = Csv.serialize(data, schema, **params)
    if kind == 'selection':
        S.check(text[:text.index('\r\n')] == ','.join('"%s"' % k for k in chosen), 'the header names them in order')
    S.check(Csv.unserialize(text, schema) == expected, 'the same rows')


@harness('C20', variants=['mapping', 'list', 'chain', 'objects'])
def sized_yaml(S, kind):
    """13 (30) entries, any one a text of one symbolic character or an empty list; 8 (16) levels of three arrangements."""
    import yaml as parser
    c = S.text('c', 1, 1, charset('a#: \n'))
    if kind == 'chain':
        value, form = c, S.choice('form', ['lists', 'mappings', 'both', 'wide'])
        for i in range(S.b(8, 16)):
            value = [value] if form == 'lists' or form == 'both' and i % 2 else {'k': value} if form != 'wide' else {'a': 1, 'k': [value, i], 'z': []}
    else:
        n = S.b(13, 30)
        place = S.pick('place', n)
        values = replaced([date(2024, 1, 1 + i % 28) if i % 3 else 'v%d' % i for i in range(n)], place, c if S.bool('text') else [])
        value = values if kind == 'list' else dict(zip(names(n), values)) if kind == 'mapping' else [{'a': v, 'b': [i]} for i, v in enumerate(values)]
    S.check(Yaml.unserialize(Yaml.serialize(value)) == value, 'the same data')


@harness('C21', variants=CONTAINERS[:2] + CONTAINERS[3:] + ['chain'])
def sized_xml(S, kind):
    """13 (30) elements, any one a text of one symbolic character or null; 8 (16) levels."""
    c = S.text('c', 1, 1, charset('a<&" '))
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(8, 16), Text(), S.pick('first', 4))
        value = wrap(c)
    else:
        n = width(S)
        field, value = wide(kind, n, lambda i: Text()), filled(kind, replaced(['v%d' % i for i in range(n)], S.pick('place', n), None if S.bool('null') else c))
    S.check(Xml.unserialize(Xml.serialize(value, field), field) == value, 'the same data')


@harness('C22', variants=CONTAINERS[:2] + CONTAINERS[3:] + ['chain'])
def sized_json(S, kind):
    """13 (30) dates, any one of a symbolic month or null; 9 (20) levels."""
    special = None if S.bool('null') else date(2024, S.int('month', 1, 12), 3)
    if kind == 'chain':
        field, wrap, kinds = chain(S.b(9, 20), Date(), S.pick('first', 4))
        value = wrap(special)
    else:
        n = width(S)
        field, value = wide(kind, n, lambda i: Date()), filled(kind, replaced([date(2024, 1, 1 + i % 28) for i in range(n)], S.pick('place', n), special))
    S.check(field.unserialize(field.serialize(value, 'json'), 'json') == value, 'an equal value')


@harness('C23', variants=['structure', 'tuple', 'chain', 'criteria', 'polymorphic'])
def sized_filters(S, kind):
    """13 (30) fields of which any one lacks the attribute, or all but one; 9 (20) levels; 9 criteria, any of which fails."""
    if kind == 'criteria':
        n = 9
        place, all = S.pick('place', n + 1), S.bool('all')
        field = Integer(**dict(('a%d' % i, i + 1) for i in range(n)))
        criteria = dict(('a%d' % i, 0 if i == place else i + 1) for i in range(n))
        S.check(field.screen(**criteria) == (place == n), 'screened by every criterion')
        S.check((field.filter(all, **criteria) is field) == (place == n or not all), 'kept when the criteria demanded hold')
        only = dict(('a%d' % i, i + 1 if i == place else 0) for i in range(n))
        S.check((field.filter(False, **only) is field) == (place < n), 'kept when any criterion holds')
        return
    if kind == 'chain':
        mark = S.bool('mark')
        first = S.pick('first', 4)

        def levels(kinds):
            if not kinds:
                return Structure({'x': Integer(mark=True), 'y': Integer(mark=mark)}, mark=True)
            inner = levels(kinds[1:])
            return {'structure': lambda: Structure({'s': inner}, mark=True), 'map': lambda: Map(inner, mark=True), 'sequence': lambda: Sequence(inner, mark=True),
                'tuple': lambda: Tuple([Boolean(mark=True), inner], mark=True)}[kinds[0]]()

        kinds = [CHAINS[(first + i) % 4] for i in range(S.b(9, 20))]
        field = levels(kinds)
        found = leaf = field.filter(mark=True)
        original = field
        for k in kinds:
            get = {'structure': lambda f: f.structure['s'], 'map': lambda f: f.value, 'sequence': lambda f: f.item, 'tuple': lambda f: f.values[1]}[k]
            leaf, original = get(leaf), get(original)
        S.check(sorted(leaf.structure) == (['x', 'y'] if mark else ['x']), 'reduced at its place')
        S.check((found is field) == mark and sorted(original.structure) == ['x', 'y'], 'the original is as it was')
        return
    n = width(S)
    place, one = S.pick('place', n), S.bool('one')
    marked = lambda i: (i == place) != one
    if kind == 'tuple':
        field = Tuple([Integer(mark=i != place) for i in range(n)], mark=True)
        S.check(isinstance(attempt(field.filter, mark=True).value, CannotFilterError), 'a tuple that would lose an element cannot be filtered')
        field = Tuple([Integer(mark=True)] * n, mark=True)
        S.check(field.filter(mark=True) is field, 'nothing is excluded')
    elif kind == 'polymorphic':
        field = Structure(dict(('v%d' % i, {'x': Integer(mark=marked(i)), 'y': Integer(mark=True)}) for i in range(n)), polymorphic_on=Text(name='type', mark=True), mark=True)
        out = field.filter(mark=True)
        S.check([sorted(k for k in out.structure['v%d' % i] if k != 'type') for i in range(n)] == [['x', 'y'] if marked(i) else ['y'] for i in range(n)], 'each variant is reduced')
    else:
        field = Structure(dict((k, Integer(mark=marked(i))) for i, k in enumerate(names(n))), mark=True)
        out = field.filter(mark=True)
        S.check(sorted(out.structure) == sorted(k for i, k in enumerate(names(n)) if marked(i)), 'exactly the kept members')
        S.check(len(field.structure) == n, 'the original is as it was')


@harness('C24', variants=['structure', 'tuple', 'union', 'polymorphic', 'chain', 'visit'])
def sized_transforms(S, kind):
    """13 (30) fields any of which is replaced, 9 (20) levels; descriptions of 13 (30) fields."""
    n = width(S)
    new = Text()
    place = S.pick('place', n)
    if kind == 'chain':
        target = Integer()
        field, wrap, kinds = chain(S.b(9, 20), target, place % 4)
        seen = []
        out = field.transform(lambda f: seen.append(f) or (new if f is target else None))
        for k in kinds:
            out = {'structure': lambda: out.structure['s'], 'map': lambda: out.value, 'sequence': lambda: out.item, 'tuple': lambda: out.values[1]}[k]()
        S.check(out is new, 'replaced at its place')
        S.check(len(seen) == len(set(id(f) for f in seen)) and any(f is target for f in seen), 'each is offered once')
        S.check(field.transform(lambda f: None) is field, 'itself when nothing was replaced')
        return
    fields = [Integer() for i in range(n)]
    keys = names(n)
    if kind == 'structure':
        field, get = Structure(dict(zip(keys, fields))), lambda f: [f.structure[k] for k in keys]
    elif kind == 'tuple':
        field, get = Tuple(fields), lambda f: list(f.values)
    elif kind == 'union':
        field, get = Union(fields), lambda f: list(f.fields)
    elif kind == 'polymorphic':
        field, get = Structure(dict((k, {'x': f}) for k, f in zip(keys, fields)), polymorphic_on='type'), lambda f: [f.structure[k]['x'] for k in keys]
    else:
        seen = []

        def callback(description):
            seen.append(description['minimum'])
            return description['minimum']

        which = S.choice('which', ['structure', 'tuple', 'union'])
        fields = [Integer(minimum=i) for i in range(n)]
        if which == 'structure':
            S.check(Field.visit(Structure(dict(zip(keys, fields))).describe(), callback) == {'structure': dict(zip(keys, range(n)))}, 'each under its key')
        elif which == 'tuple':
            S.check(Field.visit(Tuple(fields).describe(), callback) == {'values': tuple(range(n))}, 'each under its index')
        else:
            S.check(Field.visit(Union(fields).describe(), callback) == {'fields': tuple(range(n))}, 'each under its index')
        S.check(sorted(seen) == list(range(n)), 'each once')
        return
    before = get(field)
    seen = []
    out = field.transform(lambda f: seen.append(f) or (new if f is before[place] else None))
    S.check(all((a is new) if i == place else (a is b) for i, (a, b) in enumerate(zip(get(out), before))) and len(get(out)) == n, 'exactly that replacement')
    S.check(all(a is b for a, b in zip(get(field), before)), 'the original is as it was')
    S.check(len(seen) == n + 1, 'each is offered once')


@harness('C25', variants=['merge', 'remove', 'extend', 'replace', 'insert', 'redefine'])
def sized_edits(S, how):
    """Edits of 11 names of a structure of 13 (30), half of them new, merged with and without preference; 11 enumerated values."""
    n = width(S)
    place, prefer = S.pick('place', 11), S.bool('prefer')
    special = Text(max_length=S.int('length', 0, 3))
    field = Structure(dict((k, Integer()) for k in names(n)))
    before = dict(field.structure)
    edit = dict(('k%d' % (2 * i), special if i == place else Date()) for i in range(11))
    if how == 'redefine':
        f = Enumeration(list(range(n)))
        f.redefine(list(range(5, 5 + n + place)), 'replace' if prefer else 'append')
        S.check(f.enumeration == (list(range(5, 5 + n + place)) if prefer else list(range(5 + n + place))), 'appended or replaced')
        return
    if how == 'remove':
        gone = ['k%d' % (2 * i) for i in range(11) if i != place]
        field.remove(*gone)
        S.check(field.structure == dict((k, v) for k, v in before.items() if k not in gone), 'exactly the named members are gone')
        return
    out = field
    if how == 'merge':
        field.merge(edit, prefer)
        expected = dict((k, before.get(k) if k in before and not prefer else edit[k]) for k in edit)
    elif how == 'insert':
        for k, f in sorted(edit.items()):
            f.name = None
            field.insert(f.clone(name=k), prefer)
        expected = dict((k, before.get(k) if k in before and not prefer else edit[k]) for k in edit)
    elif how == 'extend':
        out, expected = field.extend(edit), edit
    else:
        out, expected = field.replace(edit), dict((k, v) for k, v in edit.items() if k in before)
    if out is not field:
        S.check(field.structure == before, 'the original is as it was')
    S.check(sorted(out.structure) == sorted(set(before) | set(expected)), 'exactly the named members')
    S.check(all(type(out.structure[k]) is type(expected[k]) for k in expected), 'every named member is handled')
    S.check(all(type(out.structure[k]) is Integer for k in before if k not in expected), 'the others are untouched')


@harness('C27', variants=['structure', 'tuple', 'union'])
def sized_placeholders(S, kind):
    """9 fields of which any one, or all from it on, are placeholders, defined in either order."""
    n = 9
    place, number = S.pick('place', n), S.int('number')
    several, backwards = S.bool('several'), S.bool('backwards')
    undefined = dict((i, Undefined()) for i in range(place, n if several else place + 1))
    limits = lambda i: Integer(minimum=i)
    if kind == 'union':
        field = Union([undefined.get(i) or Sequence(limits(i)) for i in range(n)])
    elif kind == 'tuple':
        field = Tuple([undefined.get(i) or limits(i) for i in range(n)])
    else:
        field = Structure(dict((k, undefined.get(i) or limits(i)) for i, k in enumerate(names(n))))
    for i in sorted(undefined, reverse=backwards):
        undefined[i].define(Map(limits(i)) if kind == 'union' else limits(i))
    if kind == 'union':
        out = attempt(field.process, {'k': number})
        S.check(out.ok == (number >= place), 'it acts as its field')
        plain = Union([Map(limits(i)) if i in undefined else Sequence(limits(i)) for i in range(n)])
        S.same(field.describe(), plain.describe(), 'beside all others')
        return
    at = S.pick('at', n)
    values = replaced(list(range(n)), at, number)
    out = attempt(field.process, filled(kind, values))
    S.check(out.ok == (number >= at), 'every field acts as it was defined')
    if out.ok:
        S.check(out.value == filled(kind, values), 'every element is there')


@harness('C28', variants=CONTAINERS[1:] + ['required', 'unique', 'lists', 'arity', 'keys'])
def sized_containers(S, kind):
    """13 (30) elements, any one symbolic within limits; ten required keys of which any is missing; equal items at any two places of 13; 0-14 values for a tuple of 13; 13 keys, any of them refused."""
    n = width(S)
    number = S.int('number')
    if kind == 'required':
        place = S.pick('place', 11)
        value = dict(('k%d' % i, i) for i in range(10) if i != place)
        out = attempt(Map(Integer(), required_keys=['k%d' % i for i in range(10)]).process, value)
        S.check(out.ok == (place == 10), 'every required key')
        if out.error:
            S.check([k for k, v in out.value.structure.items() if isinstance(v, StructuralError)] == ['k%d' % place], 'the missing one is named')
    elif kind in ('unique', 'lists'):
        i, j = S.pick('i', 13), S.pick('j', 13)
        S.assume(i < j)
        item = (lambda v: [v]) if kind == 'lists' else (lambda v: v)
        value = [item(v) for v in replaced(list(range(13)), j, S.choice('other', [i, 99]))]
        out = attempt(Sequence(Sequence(Integer()) if kind == 'lists' else Integer(), unique=True).process, value)
        S.check(out.ok == (value[j] == item(99)), 'pairwise different')
    elif kind == 'arity':
        count = S.pick('count', 15)
        out = attempt(Tuple([Integer()] * 13).process, [number] * count)
        S.check(out.ok == (count == 13), 'exactly its arity')
    elif kind == 'keys':
        place = S.pick('place', n)
        field = Map(Boolean(), key=Integer(maximum=n)) if S.bool('keyed') else Map(Boolean())
        keys = replaced(list(range(n)) if field.key else names(n), place, S.choice('key', [99, 'x', None]))
        out = attempt(field.process, dict((k, True) for k in keys))
        S.check(out.ok == (keys[place] == 'x' if not field.key else keys[place] is None), 'every key is held to the key field')
        S.check(not out.ok or list(out.value) == keys, 'the keys are kept')
    else:
        place = S.pick('place', n)
        low = S.int('low', -2, 2)
        out = attempt(wide(kind, n, lambda i: Integer(minimum=low)).process, filled(kind, replaced([5] * n, place, number)))
        S.check(out.ok == (number >= low), 'each element is held to its field')
        if out.ok:
            S.check(listed(kind, out.value, n) == replaced([5] * n, place, number), 'in order')


@harness('C29', variants=['paths', 'merge', 'formatted', 'nested', 'texts'])
def sized_helpers(S, kind):
    """Paths of 1-10 steps; mappings merged 9 levels deep or of 13 entries; data of 13 entries or 8 levels formatted; texts of up to 60 characters."""
    import ast
    number = S.int('number', -1, 3)
    if kind == 'paths':
        steps = 1 + S.pick('steps', 10)
        path = names(steps)
        subject, inner = {'z': 1}, None
        build = {'old': 0, 'z': 1}
        for k in reversed(path[:-1]):
            build = {k: build, 'z': 1}
        before = copied(build)
        set_nested_value(build, '.'.join(path), number)
        S.check(traverse_to_key(build, '.'.join(path)) == number, 'it reads back')
        target = before
        for k in path[:-1]:
            target = target[k]
        target[path[-1]] = number
        S.check(build == before, 'exactly that entry')
        broken = S.pick('broken', steps)
        wrong = replaced(path, broken, 'none')
        if broken < steps - 1:
            S.check(isinstance(attempt(set_nested_value, build, '.'.join(wrong), 1).value, KeyError) and build == before, 'a missing step changes nothing')
        S.check(isinstance(attempt(traverse_to_key, build, '.'.join(wrong)).value, KeyError), 'a missing step is an error')
    elif kind == 'merge':
        levels = S.pick('levels', 9)
        a, b, expected = {'x': 1, 'y': 2}, {'y': number, 'z': 3}, {'x': 1, 'y': number, 'z': 3}
        for i in range(levels):
            a, b, expected = {'n': a, 'a': i}, {'n': b, 'b': i}, {'n': expected, 'a': i, 'b': i}
        for i in range(13):
            a['w%d' % i], expected['w%d' % i] = i, i if i % 2 else -i
            if i % 2 == 0:
                b['w%d' % i] = -i
        out = recursive_merge(a, b)
        S.check(out == expected, 'combined at every level')
    elif kind == 'formatted':
        n = S.b(13, 30)
        place = S.pick('place', n)
        values = replaced([[i, 'v%d' % i] for i in range(n)], place, number)
        data = values if S.bool('list') else dict(zip(names(n), values))
        masks = S.choice('masks', [None, ['k%d' % (n - 1)]])
        text = format_structure(data, masks=masks)
        if masks and isinstance(data, dict):
            S.check("'k%d': ***MASKED***," % (n - 1) in text and 'v%d' % (n - 1) not in text, 'hidden')
        else:
            S.check(ast.literal_eval(text) == data, 'a literal of that data')
    elif kind == 'nested':
        data, form, masked = {'k': number, 'secret': 'abc'}, S.choice('form', ['lists', 'mappings', 'both', 'tuples']), S.bool('masked')
        for i in range(S.b(8, 14)):
            data = [data, i] if form == 'lists' or form == 'both' and i % 2 else (data,) if form == 'tuples' else {'k': data, 'i': i}
        text = format_structure(data, masks=['secret'] if masked else None)
        if masked:
            S.check("'secret': ***MASKED***," in text and 'abc' not in text, 'hidden')
        else:
            S.check(ast.literal_eval(text) == data, 'a literal of that data')
    else:
        n = S.choice('n', [5, 12, 20, 33, 60])
        place = S.choice('place', [0, n // 2 - 1, n // 2, n - 1])
        c = S.text('c', 1, 1, charset('a \n.'))
        base = (LETTERS * 2)[:n]
        value = base[:place] + c + base[place + 1:]
        S.check(minimize_string(value) == ' '.join(w for w in value.replace('\n', ' ').split(' ') if w), 'blanks are minimized')
        S.check(indent(value, 3) == '\n'.join('   ' + l for l in value.split('\n')), 'each line is indented')
        longest = S.choice('longest', [10, 20, 40])
        short = abbreviate_string(value, longest)
        S.check(short == value if n <= longest else len(short) <= longest and '...' in short, 'abbreviated when longer')


class Place(object):
    pass


@harness('C34')
def sized_references_to_objects(S, variant=None):
    """Objects 1-9 attributes deep within a module, by path with periods or a colon, and the same with any step missing."""
    import sys, types
    module = types.ModuleType('sized_module')
    sys.modules['sized_module'] = module
    depth = 1 + S.pick('depth', 9)
    target = module
    for k in names(depth):
        inner = Place()
        setattr(target, k, inner)
        target = inner
    mark = ':' if S.bool('colon') else '.'
    path = 'sized_module' + mark + '.'.join(names(depth))
    S.check(import_object(path) is target, 'exactly what it names')
    wrong = 'sized_module' + mark + '.'.join(replaced(names(depth), S.pick('wrong', depth), 'none'))
    out = attempt(import_object, wrong)
    S.check(isinstance(out.value, ImportError) and str(out.value) == wrong, 'an import error naming it')


@harness('C31', variants=['errors', 'preprocessors'])
def sized_hooks(S, kind):
    """Five custom errors of a field, given as a list or mapping, the error provoked any of four; thirteen members, any with a preprocessor."""
    if kind == 'errors':
        made = [FieldError(t, 'title ' + t, 'message ' + t) for t in ('duplicate', 'min_length', 'invalid', 'nonnull', 'max_length')]
        field = Sequence(Integer(), unique=True, min_length=2, max_length=3, nonnull=True, errors=dict((e.token, e) for e in made) if S.bool('mapping') else made)
        token, value = S.choice('case', [('duplicate', [1, 1]), ('min_length', [1]), ('invalid', 3), ('nonnull', None), ('max_length', [1, 2, 3, 4])])
        error = attempt(field.process, value).value.errors[0]
        S.check(error['token'] == token and error['title'] == 'title ' + token and error['message'] == 'message ' + token, 'each custom error replaces its own')
        return
    n, number = width(S), S.int('number')
    place = S.pick('place', n)
    calls = []

    def preprocessor(value):
        calls.append(value)
        return value + 1

    field = Structure(dict((k, Integer(preprocessor=preprocessor if i == place else None)) for i, k in enumerate(names(n))))
    out = field.process(dict((k, number) for k in names(n)))
    S.check(out == dict((k, number + 1 if i == place else number) for i, k in enumerate(names(n))) and len(calls) == 1, 'applied exactly once where it is declared')


@harness('C35', variants=CONTAINERS + ['chain'])
def sized_particulars(S, kind):
    """13 (30) elements of which any is too large; a value too large 9 (20) levels deep."""
    number, limit = S.int('number', 1, 3), 0
    if kind == 'chain':
        leaf = Integer(maximum=0, title='Leaf')
        field, wrap, kinds = chain(S.b(9, 20), leaf, S.pick('first', 4))
        field.name = 'root'
        e, path = attempt(field.process, wrap(number)).value, ['root'] + [{'structure': '.s', 'map': '[m]', 'sequence': '[0]', 'tuple': '[1]'}[k] for k in kinds]
        for step in steps(kinds):
            e = e.structure[step]
        quoted = '0'
    else:
        n = width(S)
        place = S.pick('place', n)
        field = wide(kind, n, lambda i: Integer(maximum=0), name='root')
        e = listed(kind, attempt(field.process, filled(kind, replaced([0] * n, place, number))).value.structure, n)[place]
        path = ['root', {'structure': '.k%d', 'map': '[k%d]'}.get(kind, '[%d]') % place]
    S.check(list(e.identity) == path, 'the path from the root')
    S.check(e.field.type == 'integer' and e.field.maximum == 0 and e.value == number, 'its field and value')
    S.check(len(e.errors) == 1 and e.errors[0]['token'] == 'maximum' and '0' in e.errors[0]['message'], 'one error quoting the limit')


@harness('C36', variants=['tuple', 'union', 'structure', 'variants', 'enumeration', 'ignored', 'words', 'placeholders'])
def sized_declarations(S, kind):
    """13 (30) fields, values or keys, any one of which is none; as many words in a text; any of 13 (30) fields given as defined placeholders."""
    n = width(S)
    place = S.pick('place', n + 1)
    if kind == 'words':
        words = names(n)
        S.check(Enumeration(' '.join(words)).enumeration == words, 'every word')
        S.check(sorted(Map(Text(), required_keys=' '.join(words)).required_keys) == sorted(words), 'every word')
        S.check(list(Structure(dict((k, Text()) for k in words), key_order=' '.join(words)).key_order) == words, 'every word')
        return
    fields = [Integer(minimum=i) for i in range(n)]
    if kind == 'placeholders':
        given = [Undefined(f) if i <= place else f for i, f in enumerate(fields)]
        S.check(all(a is b for a, b in zip(Tuple(given).values, fields)) and all(a is b for a, b in zip(Union(given).fields, fields)), 'a defined placeholder is its field')
        out = Structure(dict(zip(names(n), given))).structure
        S.check(all(out[k] is f for k, f in zip(names(n), fields)), 'a defined placeholder is its field')
        return
    if place < n:
        fields[place] = S.choice('bad', [None, 3, 'x'])
    values = list(range(n))
    if place < n:
        values[place] = object()
    keys = names(n)
    if kind == 'tuple':
        out = attempt(Tuple, fields)
    elif kind == 'union':
        out = attempt(Union, fields)
    elif kind == 'structure':
        out = attempt(Structure, dict(zip(keys, fields)))
    elif kind == 'variants':
        out = attempt(Structure, dict((k, {'x': f}) for k, f in zip(keys, fields)), polymorphic_on='type')
    elif kind == 'enumeration':
        out = attempt(Enumeration, values)
    else:
        out = attempt(Enumeration, [0], ignored_values=values)
    if place == n:
        S.check(out.ok, 'taken as written')
        held = {'tuple': lambda: list(out.value.values), 'union': lambda: list(out.value.fields), 'structure': lambda: [out.value.structure[k] for k in keys],
            'variants': lambda: [out.value.structure[k]['x'] for k in keys], 'enumeration': lambda: out.value.enumeration, 'ignored': lambda: out.value.ignored_values}[kind]()
        given = values if kind in ('enumeration', 'ignored') else fields
        S.check(len(held) == n and all(a is b or a == b for a, b in zip(held, given)), 'exactly those')
    else:
        S.check(out.kind == 'raised' and isinstance(out.value, (TypeError, ValueError)), 'refused at once')


MANY = 'symscheme_many'


class Versioned(surrogate):
    """An implementation of many versions, each of one more entry."""
    __module__ = MANY
    schemas = [Structure(OrderedDict((k, Date()) for k in names(n + 1))) for n in range(9)]


module = type(sys)(MANY)
module.Versioned = Versioned
sys.modules[MANY] = module


@harness('C32', variants=['versions', 'dynamic', 'deep', 'items'])
def sized_surrogates(S, kind):
    """any of nine versions of an implementation; a schema of its own of 13 (30) entries; a surrogate within twelve levels; 13 (30) of them in a
    sequence, any one of another version"""
    m = S.int('month', 1, 6)
    version = S.choice('version', list(range(1, 10))) if kind in ('versions', 'items') else 2
    if kind == 'dynamic':
        n = width(S)
        place = S.choice('place', list(range(n)))
        schema = wide('structure', n, lambda i: Date())
        data, wire = filled('structure', [date(2000, 1, 2)] * n), filled('structure', ['2000-01-02'] * n)
        data['k%d' % place], wire['k%d' % place] = date(2024, m, 5), '2024-0%d-05' % m
        value = surrogate.construct(None, data, schema)
        wire = dict(wire, _='scheme.surrogate.surrogate', __schema__=schema.describe())
        got = attempt(Surrogate().serialize, value)
        S.check(got.ok, 'a surrogate of many entries can be written')
        S.same(got.value, wire, 'whole')
        back = attempt(Surrogate().unserialize, got.value)
        S.check(back.ok, 'and read')
        S.same(dict(back.value), dict(data), 'whole')
        return

    place = S.choice('place', list(range(version)))
    data = dict((k, date(2000, 1, 2)) for k in names(version))
    wire = dict((k, '2000-01-02') for k in names(version))
    data['k%d' % place], wire['k%d' % place] = date(2024, m, 5), '2024-0%d-05' % m
    wire['_'] = MANY + '.Versioned'
    if version > 1:
        wire['__version__'] = version
    value = Versioned.construct(None, data, version=version)
    first = Versioned.construct(None, {'k0': date(2000, 1, 2)}, version=1)
    early = {'k0': '2000-01-02', '_': MANY + '.Versioned'}
    if kind == 'versions':
        field, whole, written = Surrogate(), value, wire
        taken = lambda v: v
    elif kind == 'items':
        n = width(S)
        at = S.choice('at', [0, 5, n - 1])
        field, whole, written = Sequence(Surrogate()), replaced([first] * n, at, value), replaced([early] * n, at, wire)
        taken = lambda v: v[at]
    else:
        field, wrap, kinds = chain(S.b(12, 30), Surrogate())
        whole, written = wrap(value), wrap(wire)
        taken = lambda v: reached(v, steps(kinds))
    got = attempt(field.serialize, whole)
    S.check(got.ok, 'it can be written')
    S.same(untupled(got.value), untupled(written), 'whole')
    back = attempt(field.unserialize, got.value)
    S.check(back.ok, 'and read')
    S.check(taken(back.value).__class__ is Versioned and taken(back.value).version == version, 'as its version')
    S.same(dict(taken(back.value)), data, 'whole')
    S.check(attempt(Versioned.construct, None, data, version=10).kind == 'raised', 'there are nine versions')
    if kind == 'versions' and version == 9:
        newest = attempt(Versioned.construct, None, data)
        S.check(newest.ok and newest.value.version == 9, 'the ninth is the newest')


@harness('C33', variants=CONTAINERS + ['union', 'chain', 'limits'])
def sized_definitions(S, kind):
    """definitions of containers of 13 (30) elements, any one with a symbolic minimum, or of twelve (thirty) levels; fields limited to all types but
    any one"""
    types = sorted(EXAMPLES)
    if kind == 'limits':
        missing = S.choice('missing', types)
        field = Definition([t for t in types if t != missing])
        asked = S.choice('asked', types)
        value = EXAMPLES[asked]()
        for got in (attempt(field.process, value), attempt(field.unserialize, value.describe())):
            S.check(got.ok if asked != missing else got.error and got.token == 'invalidfield', 'all listed types are accepted, no other')
        return
    minimum = S.int('minimum', -5, 99)
    n = width(S)
    place = S.choice('place', list(range(n))) if kind in ('structure', 'tuple', 'union') else 0
    item = lambda i: Integer(minimum=minimum) if i == place else Date()
    if kind == 'chain':
        subject, wrap, kinds = chain(S.b(12, 30), item(0))
    elif kind == 'union':
        subject = Union([item(i) for i in range(n)])
    else:
        subject = wide(kind, n, item)
    described = subject.describe()
    wire = attempt(Definition().serialize, subject)
    S.check(wire.ok, 'it can be serialized')
    S.same(wire.value, described, 'into its description')
    back = attempt(Definition().unserialize, wire.value)
    S.check(back.ok, 'and read')
    S.same(untupled(back.value.describe()), untupled(described), 'whole')


@harness('C06', variants=['integer', 'float', 'negative', 'boolean', 'date', 'decimal'])
def sized_scalars(S, kind):
    """integers of 13 (30) concrete digits but any one, natively and as texts; numerals of as many decimals; texts of many characters for booleans and
    dates"""
    n = width(S)
    place = S.choice('place', list(range(n)))
    digit = S.choice('digit', ['1', '7', '9', 'x', ' '])
    digits = '123456789012345678901234567890'[:n]
    text = digits[:place] + digit + digits[place + 1:]
    plain = digit not in 'x '
    S.assume(not (kind == 'negative' and digit == ' ' and place == 0))
    if kind in ('integer', 'negative'):
        text = ('-' if kind == 'negative' else '') + text
        got = attempt(Integer().unserialize, text)
        ends = digit == ' ' and place == n - 1 or digit == ' ' and place == 0 and kind == 'integer'
        S.check(got.ok == (plain or ends), 'a numeral of any length is an integer')
        if not plain:
            return
        S.same(got.value, int(text), 'of its value')
        S.same(attempt(Integer().serialize, got.value).value, int(text), 'written whole')
        S.check(attempt(Integer(maximum=int(text) - 1).process, got.value).error, 'and compared whole')
        S.check(attempt(Integer(minimum=int(text)).process, got.value).ok, 'in both directions')
    elif kind == 'float':
        text = '0.' + text
        got = attempt(Float().unserialize, text)
        S.check(got.ok == (plain or digit == ' ' and place == n - 1), 'a numeral of any length is a number')
        if plain:
            S.same(got.value, float(text), 'of its value')
            S.same(attempt(Float().serialize, got.value).value, float(text), 'written whole')
    elif kind == 'decimal':
        text = text[:n // 2] + '.' + text[n // 2:]
        got = attempt(Decimal().unserialize, text)
        if plain:
            S.check(got.ok, 'a numeral of any length is a decimal')
            S.same(attempt(Decimal().serialize, got.value).value, text, 'written whole')
    elif kind == 'boolean':
        S.check(attempt(Boolean().unserialize, 'true' * (place + 2)).error, 'texts of many characters are no booleans')
        S.check(attempt(Boolean().unserialize, text).error, 'nor are others')
    else:
        S.check(attempt(Date().unserialize, '2000-01-02' + text).error, 'what follows a date spoils it')
        S.check(attempt(DateTime().unserialize, '2000-01-02T03:04:05Z' + text).error, 'so it does a time')
        S.check(attempt(Time().unserialize, '03:04:05' + text).error, 'of day')
