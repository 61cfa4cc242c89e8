"""What came before: a field that has been used, refused values or been looked at does what one never used does, and so does a field beside
another that has seen the same values.

Each harness runs any operation (or two, thoroughly) on a field and then any operation again, and compares the outcome with that of the
last operation on a fresh field of the same declaration."""
from hlib import *
from fieldlib import copied, tokens
from collections import OrderedDict
from scheme.element import Element
from scheme.exceptions import *
from scheme.formats import *
from scheme.interpolation import Interpolator
from scheme.surrogate import surrogate
from scheme.util import *
import json
import sys


def result(call):
    """What a call comes to, comparable."""
    got = attempt(call)
    if got.ok:
        return 'value', got.value
    if got.error:
        return 'refused', tokens(got.value), got.value.serialize(True), str(got.value)
    return 'raised', type(got.value).__name__


def after(S, make, operations, label, last=None):
    """operations: names to functions of a fresh or used subject."""
    listed = sorted(operations)
    final = S.choice('last', last or listed)
    earlier = [S.choice('earlier', listed)]
    if S.b(False, True):
        earlier.append(S.choice('earliest', listed))
    expected = result(lambda: operations[final](make()))
    used = make()
    for name in earlier:
        result(lambda: operations[name](used))
    S.same(result(lambda: operations[final](used)), expected, label)
    S.cover('after')


def calls(S, values, modes=('in', 'from wire', 'to wire')):
    """Processing each of some values in each way."""
    operations = {}

    def put(mode, name, value):
        phase, serialized = {'in': (INBOUND, False), 'out': (OUTBOUND, False), 'from wire': (INBOUND, True), 'to wire': (OUTBOUND, True)}[mode]
        operations['%s %s' % (mode, name)] = lambda field: field.process(copied(value), phase, serialized)

    for name in values:
        for mode in modes:
            put(mode, name, values[name])
    return operations


def days(S):
    m = S.int('month', 1, 6)
    return date(2024, m, 5), '2024-0%d-05' % m


CONTAINERS = ['structure', 'map', 'keyed', 'sequence', 'tuple']


def container(kind, item, **params):
    if kind == 'structure':
        return Structure({'a': item(), 'b': item()}, **params)
    if kind == 'map':
        return Map(item(), **params)
    if kind == 'keyed':
        return Map(item(), key=Integer(minimum=0), **params)
    if kind == 'sequence':
        return Sequence(item(), **params)
    return Tuple([item(), item()], **params)


def held(kind, values):
    if kind in ('structure', 'map'):
        return dict(zip('ab', values))
    if kind == 'keyed':
        return dict(enumerate(values))
    return list(values) if kind == 'sequence' else tuple(values)


@harness('C02', variants=CONTAINERS, covers=['after'])
def after_wire(S, kind):
    """containers of dates, used any once (twice) before, with any of four values each way"""
    native, wire = days(S)
    after(S, lambda: container(kind, Date), calls(S, {'one': held(kind, [native, date(2000, 1, 2)]), 'wire': held(kind, [wire, '2000-01-02']),
        'nulls': held(kind, [None, None]), 'bad': held(kind, [3, native])}), 'what was processed before makes no difference')


RANGED = {'integer': (Integer, 0, [-1, 0, 1]), 'float': (Float, 0.5, [-1.5, 0.5, 2.5]), 'decimal': (Decimal, '1.5', ['1.4', '1.5', '2']),
    'date': (Date, date(2024, 3, 5), [date(2024, 3, d) for d in (4, 5, 6)]), 'time': (Time, time(12, 0, 0), [time(11, 59, 59), time(12, 0, 0), time(13, 0, 0)]),
    'datetime': (DateTime, datetime(2024, 3, 5, 12, 0, 0, 0, UTC), [datetime(2024, 3, 5, h, 0, 0, 0, UTC) for h in (11, 12, 13)])}


@harness('C03', variants=[(k, m) for k in sorted(RANGED) for m in ('after', 'beside')])
def after_ranges(S, variant):
    """fields of each limited type with a minimum, a maximum or both, after any value below, at or above was given to it; a field with a minimum beside
    one with the same limit as its maximum, either first"""
    kind, mode = variant
    cls, limit, values = RANGED[kind]
    if kind == 'decimal':
        limit, values = decimal_module.Decimal(limit), [decimal_module.Decimal(v) for v in values]
    if kind == 'datetime':
        make = lambda **p: DateTime(utc=True, **p)
    else:
        make = cls
    if mode == 'after':
        limits = S.choice('limits', [('minimum',), ('maximum',), ('minimum', 'maximum')])
        after(S, lambda: make(**dict((k, limit) for k in limits)), calls(S, {'below': values[0], 'at': values[1], 'above': values[2]}, ('in', 'to wire')),
            'what was processed before makes no difference')
        return
    low, high = make(maximum=limit), make(minimum=limit)
    which, order = S.choice('value', [0, 1, 2]), S.choice('order', [1, -1])
    for round in range(2):
        for field, refused, token in [(low, 2, 'maximum'), (high, 0, 'minimum')][::order]:
            got = attempt(field.process, values[which])
            S.check(got.ok == (which != refused), 'each judges by its own limit')
            S.check(got.ok or got.token == token, 'and names it')


@harness('C04', variants=['text', 'raw', 'binary', 'sequence'], covers=['after'])
def after_lengths(S, kind):
    """fields with both lengths, after any of four values (short, long, blank, right) was given to it; one with a maximum beside one with a minimum"""
    make = {'text': lambda **p: Text(**p), 'raw': lambda **p: Text(strip=False, **p), 'binary': lambda **p: Binary(**p),
        'sequence': lambda **p: Sequence(Text(), **p)}[kind]
    values = {'short': 'x', 'right': 'xx', 'long': 'xxxx', 'blank': '  x '}
    if kind == 'binary':
        values = {'short': b'x', 'right': b'xx', 'long': b'xxxx', 'blank': b'  x '}
    elif kind == 'sequence':
        values = dict((k, list(v)) for k, v in values.items())
    after(S, lambda: make(min_length=2, max_length=3), calls(S, values, ('in', 'out')), 'what was processed before makes no difference')
    fields = [(make(max_length=1), lambda n: n <= 1), (make(min_length=2), lambda n: n >= 2)]
    for field, right in fields[::S.choice('order', [1, -1])]:
        for name in ('right', 'short', 'right', 'long'):
            S.check(attempt(field.process, copied(values[name])).ok == right(len(values[name])), 'each judges by its own lengths')


@harness('C05', variants=['token', 'segments', 'email', 'multiple', 'uuid', 'pattern'], covers=['after'])
def after_grammars(S, kind):
    """grammar fields after any of five texts was given to it, well-formed or not; then beside another of its type declared otherwise"""
    U = 'aaaaaaaa-bbbb-cccc-dddd-eeeeeeeeeeee'
    makes = {'token': Token, 'segments': lambda: Token(segments=2), 'email': Email, 'multiple': lambda: Email(multiple=True), 'uuid': UUID,
        'pattern': lambda: Text(pattern='a+$')}
    texts = ['a', 'a:b', 'a@b.co', ' A@b.co;c@d.org', U, 'aA', '']
    after(S, makes[kind], calls(S, dict((t, t) for t in texts), ('in',)), 'what was processed before makes no difference')
    other, own, foreign = {'token': (lambda: Token(segments=2), 'a', 'a:b'), 'segments': (lambda: Token(segments=1), 'a:b', 'a'),
        'email': (lambda: Email(multiple=True), 'a@b.co', 'a@b.co,c@d.org'), 'multiple': (Email, 'a@b.co,c@d.org', 'a@b.co'),
        'uuid': (Token, U, 'a:b'), 'pattern': (lambda: Text(pattern='b+$'), 'aa', 'bb')}[kind]
    mine, its = makes[kind](), other()
    its.process(foreign)
    S.check(attempt(mine.process, own).ok, 'its own grammar counts')
    S.same(result(lambda: mine.process(foreign)), result(lambda: makes[kind]().process(foreign)), 'and no other')
    S.same(result(lambda: its.process(own)), result(lambda: other().process(own)), 'either way')


ALIKE = [1, True, 1.0, '1', b'1', 0, False, '', None, [1], (1,), {'a': 1}, {1: 1}, date(2000, 1, 2), datetime(2000, 1, 2, 0, 0, 0, 0, UTC), '2000-01-02']


@harness('C06', variants=sorted(OWN) + ['keys', 'items'], covers=['after'])
def after_types(S, kind):
    """fields of every type given any of sixteen values, some of them equal to each other but of other types, then another of them; map keys and items
    likewise"""
    if kind == 'keys':
        make = lambda: Map(Text(), key=Integer())
        values = dict((repr(v), {v: 'x'}) for v in (1, True, 1.0, '1', 0, False))
    elif kind == 'items':
        make = lambda: Sequence(Integer())
        values = dict((repr(v), [v, 1]) for v in (1, True, 1.0, '1', 0, False))
    else:
        make = lambda: field_of(kind)
        values = dict((repr(v), v) for v in ALIKE)
    after(S, make, calls(S, values, ('in', 'from wire')[:S.b(1, 2)] if kind not in ('keys', 'items') else ('in', 'from wire')),
        'what was processed before makes no difference')


@harness('C07', variants=['enumeration', 'falsy', 'ignored', 'constant', 'zero', 'null', 'nonnull'], covers=['after'])
def after_null(S, kind):
    """enumerations, constants and null or non-null fields, after any of nine values"""
    make = {'enumeration': lambda: Enumeration(['a', 1, 'b']), 'falsy': lambda: Enumeration([0, '']), 'ignored': lambda: Enumeration(['a'], ignored_values=['b', 0]),
        'constant': lambda: Integer(constant=1), 'zero': lambda: Integer(constant=0), 'null': lambda: Text(), 'nonnull': lambda: Text(nonnull=True)}[kind]
    after(S, make, calls(S, dict((repr(v), v) for v in ('a', 'b', 1, 0, '', None, 'c', 2, True)), ('in', 'to wire')), 'what was processed before makes no difference')


@harness('C08', variants=['strict', 'loose', 'ordered'], covers=['after'])
def after_keys(S, kind):
    """structures of a required, a defaulted, an ignoring and a plain member, after being used in part or whole with any of seven mappings"""
    make = lambda: Structure(OrderedDict([('a', Integer(required=True)), ('b', Integer(default=4)), ('c', Text(ignore_null=True)), ('d', Sequence(Text(),
        default=['x']))]), strict=kind != 'loose', key_order='d c' if kind == 'ordered' else None)
    n = S.int('n')
    values = {'none': {}, 'a': {'a': n}, 'b': {'b': n}, 'null': {'a': n, 'c': None}, 'unknown': {'a': n, 'z': 1}, 'whole': {'a': n, 'b': n, 'c': 'y', 'd': []},
        'bad': {'a': 'x', 'd': [3]}}
    operations = calls(S, values, ('in', 'to wire'))

    def part(name):
        operations['part ' + name] = lambda f: f.process(copied(values[name]), INBOUND, False, None, True)

    for name in ('none', 'a', 'b', 'bad'):
        part(name)

    def spoilt(f):
        value = f.process({'a': 1})
        value['d'].append('spoilt')
        value['b'] = 5
        value.clear()

    operations['spoilt'] = spoilt
    after(S, make, operations, 'what was processed before makes no difference', sorted(k for k in operations if k != 'spoilt'))


@harness('C09', variants=['process', 'extract', 'instantiate', 'interpolate'], covers=['after'])
def after_variants(S, how):
    """a polymorphic structure after any of eight values, in part or whole, with either discriminator, none, null or a wrong one"""
    make = lambda: Structure({'x': {'a': Integer(default=3)}, 'y': {'a': Text(), 'b': Integer(required=True)}, '*': {'c': Boolean()}}, polymorphic_on='type')
    n = S.int('n', 0, 9)
    values = {'x': {'type': 'x', 'a': n}, 'y': {'type': 'y', 'b': n}, 'y text': {'type': 'y', 'a': 't', 'b': 1}, 'missing': {'a': n}, 'both': {'b': 1, 'a': 't'},
        'null': {'type': None, 'a': 1}, 'wrong': {'type': 'z'}, 'foreign': {'type': 'x', 'b': n}}
    if how == 'process':
        operations = calls(S, values, ('in', 'to wire'))

        def part(name):
            operations['part ' + name] = lambda f: f.process(copied(values[name]), INBOUND, False, None, True)

        for name in values:
            part(name)
    else:
        operations, parameter = {}, S.choice('parameter', [7, 't'])

        def put(name):
            operations[name] = {'extract': lambda f: f.extract(copied(values[name])), 'instantiate': lambda f: f.instantiate(copied(values[name])),
                'interpolate': lambda f: f.interpolate(dict(copied(values[name]), a='${p}'), {'p': parameter})}[how]

        for name in values:
            put(name)
    after(S, make, operations, 'the variant named before makes no difference')


@harness('C10', variants=CONTAINERS, covers=['after'])
def after_errors(S, kind):
    """containers given any of four wrong values before; their errors rendered and serialized, in either order, and once more"""
    make = lambda: container(kind, lambda: Text(max_length=2))
    values = {'first': held(kind, ['xxx', 'y']), 'second': held(kind, ['x', 'yyy']), 'both': held(kind, [3, 'yyy']), 'right': held(kind, ['x', None])}
    after(S, make, calls(S, values, ('in', 'to wire')), 'what was refused before makes no difference')
    bad = S.choice('bad', ['first', 'second', 'both'])
    one, two = attempt(make().process, copied(values[bad])).value, attempt(make().process, copied(values[bad])).value
    if S.bool('rendered first'):
        text, wire = str(one), one.serialize()
    else:
        wire, text = one.serialize(), str(one)
    S.same((str(one), one.serialize(), str(one)), (text, wire, text), 'an error looked at is the same')
    S.same((str(two), two.serialize()), (text, wire), 'as one just raised')
    back = StructuralError.unserialize(wire)
    S.same(back.serialize(), wire, 'and one read back')
    S.same(StructuralError.unserialize(wire).serialize(), wire, 'again')


@harness('C11', variants=sorted(OWN), covers=['after'])
def after_garbage(S, kind):
    """fields of every type with any of sixteen plain values, after another of them: nothing but structural errors"""
    field = field_of(kind)
    first, second = S.choice('first', ALIKE), S.choice('second', ALIKE)
    phase, serialized = S.choice('call', CALLS)
    attempt(field.process, copied(first), phase, serialized)
    got = attempt(field.process, copied(second), phase, serialized)
    S.check(got.ok or got.error, 'nothing but structural errors')
    S.cover('after')


UNIONS = {'numbers': lambda: Union([Integer(minimum=0), Float(), Text()]), 'any first': lambda: Union([Date(), Text(), Token(segments=2)]),
    'wide last': lambda: Union([Token(), Integer(), Field()]), 'mappings': lambda: Union([Structure({'a': Integer()}), Map(Text()), Map(Field())]),
    'nested': lambda: Sequence(Union([Union([UUID(), Enumeration(['a', 3])]), Text(), Integer()])),
    'placed': lambda: Structure({'m': Union([Boolean(), Token(), Text(), Field()])})}


def union_values(kind, n):
    values = {'word': 'a', 'token': 'a:b', 'number': n, 'big': 3, 'float': 1.5, 'true': True, 'day': date(2000, 1, 2), 'day text': '2000-01-02',
        'digits': '12', 'mapping': {'a': 1}, 'texts': {'a': 'x'}, 'other': {'b': None}}
    if kind == 'nested':
        return dict((k, [v]) for k, v in values.items())
    if kind == 'placed':
        return dict((k, {'m': v}) for k, v in values.items())
    return values


@harness('C15', variants=sorted(UNIONS), covers=['after'], quick=20000)
def after_unions(S, kind):
    """six unions whose members can take the same values, after any of twelve values any way, some of which a later member took"""
    n = S.int('n', -1, 1)
    after(S, UNIONS[kind], calls(S, union_values(kind, n)), 'the member that took another value before makes no difference')


@harness('C12', variants=sorted(UNIONS), covers=['after'], quick=20000)
def after_calls(S, kind):
    """six unions whose members can take the same values: any of twelve values extracted, interpolated or processed, after any others"""
    n = S.int('n', -1, 1)
    values = union_values(kind, n)
    operations = calls(S, values, ('in',))

    def put(name):
        operations['extract ' + name] = lambda f: f.extract(copied(values[name]))
        operations['interpolate ' + name] = lambda f: f.interpolate(copied(values[name]), {'p': 1})

    for name in ('word', 'number', 'mapping', 'token', 'day', 'digits', 'day text'):
        put(name)
    after(S, UNIONS[kind], operations, 'calls before make no difference')


DESCRIBED = {'integer': lambda: Integer(minimum=3, default=4), 'text': lambda: Text(max_length=3, name='n', title='T'),
    'enumeration': lambda: Enumeration(['a', 1]), 'structure': lambda: Structure({'a': Sequence(Integer()), 'b': Text(default='x')}, key_order='b a'),
    'polymorphic': lambda: Structure({'x': {'a': Integer()}, 'y': {}}, polymorphic_on='type'), 'map': lambda: Map(Map(Integer()), required_keys='a'),
    'sequence': lambda: Sequence(Date(minimum=date(2000, 1, 2)), min_length=1), 'tuple': lambda: Tuple([Text(), Integer()]),
    'union': lambda: Union([Text(), Integer()]), 'definition': lambda: Definition('text'), 'email': lambda: Email(multiple=True)}


def spoil(value):
    if isinstance(value, dict):
        for k in list(value):
            spoil(value[k])
        value['spoilt'] = True
    elif isinstance(value, list):
        for v in value:
            spoil(v)
        value.append('spoilt')


@harness('C13', variants=sorted(DESCRIBED), covers=['after'])
def after_descriptions(S, kind):
    """eleven fields described in four ways, after being described, used, rebuilt or edited, and after a description was spoilt; two fields rebuilt
    from one description"""
    n = S.int('n', 0, 9)

    def spoilt(f):
        spoil(f.describe())

    def edited(f):
        f.title = 'other'
        f.maximum = n
        return f.describe()

    def rebuilt(f):
        other = Field.reconstruct(f.describe())
        other.name, other.nonnull = 'changed', True
        return other.describe()

    def described_pair(f):
        description = f.describe()
        one, two = Field.reconstruct(description), Field.reconstruct(description)
        one.name, one.nonnull, one.required = 'changed', True, True
        return one is not two, one.describe(), two.describe()

    operations = {'describe': lambda f: f.describe(), 'verbose': lambda f: f.describe(verbose=True), 'parameters': lambda f: f.describe({'spoken': n, 'title': 1}),
        'spoilt': spoilt, 'rebuilt': rebuilt, 'pair': described_pair, 'printed': repr, 'used': lambda f: f.process(3), 'given': lambda f: f.process({'a': [1]}),
        'cloned': lambda f: f.clone(name='c').describe(), 'fields': lambda f: Field.reconstruct(f)}
    del operations['fields']
    after(S, DESCRIBED[kind], operations, 'descriptions before make no difference', sorted(k for k in operations if k not in ('used', 'given', 'spoilt')))
    field = DESCRIBED[kind]()
    before = field.describe()
    S.same(edited(field).get('title'), 'other', 'a description is of the field as it is')
    other = DESCRIBED[kind]()
    S.same(other.describe(), before, 'and of no other')
    pair = described_pair(other)
    S.check(pair[0], 'each description gives a field of its own')
    S.same(dict(pair[1], name=None, nonnull=None, required=None), dict(pair[2], name=None, nonnull=None, required=None), 'of the same declaration')
    S.check('nonnull' not in pair[2] or pair[2]['nonnull'] is False, 'changed alone')


@harness('C14', variants=sorted(DESCRIBED), covers=['after'])
def after_clones(S, kind):
    """eleven fields cloned plainly, with parameters, deeply, or within a structure, after being cloned, used and edited; every clone apart from every
    other"""
    from copy import deepcopy
    n = S.int('n', 0, 9)
    seen = []

    def made(clone):
        seen.append(clone)
        return clone.describe()

    operations = {'clone': lambda f: made(f.clone()), 'named': lambda f: made(f.clone(name='c', default=None)), 'deep': lambda f: made(deepcopy(f)),
        'within': lambda f: made(Structure({'m': f.clone()}).clone().structure['m']), 'used': lambda f: f.process(n), 'titled': lambda f: made(f.clone(title='t', notes=n)),
        'described': lambda f: f.describe()}
    after(S, DESCRIBED[kind], operations, 'clones before make no difference', ['clone', 'named', 'deep', 'within', 'titled'])
    field = DESCRIBED[kind]()
    ways = {'clone': lambda: field.clone(), 'deep': lambda: deepcopy(field), 'within': lambda: deepcopy({'k': [field]})['k'][0], 'listed': lambda: deepcopy([field, field])[1]}
    one, two = ways[S.choice('way', sorted(ways))](), ways[S.choice('other way', sorted(ways))]()
    S.check(one is not two and one is not field and two is not field, 'each is another field')
    before = two.describe()
    one.name, one.nonnull, one.aspects['mine'], one.default = 'mine', True, n, None
    one.errors = {}
    S.same(two.describe(), before, 'changed alone')
    S.same(field.describe(), DESCRIBED[kind]().describe(), 'and not in place of the original')
    S.check(two.errors is not one.errors and field.errors, 'its errors too')


class Holder(object):
    def __init__(self, **params):
        self.__dict__.update(params)


@harness('C16', variants=['structure', 'map', 'sequence', 'tuple', 'scalar', 'element'], covers=['after'])
def after_objects(S, kind):
    """fields with instantiators and extractors that make a new list of what they are given, with equal values before, and objects changed in between; an
    element with nested defaults, of which an earlier one was changed"""
    n = S.int('n', 0, 9)
    if kind == 'element':
        class Thing(Element):
            schema = Structure({'a': Map(Sequence(Integer()), default={'x': [1]}), 'b': Sequence(Sequence(Integer()), default=[[1]]), 'c': Integer(default=2)})

        first = Thing() if S.bool('direct') else Thing.unserialize({})
        spoil(first.a)
        spoil(first.b)
        first.c = n
        second = Thing() if S.bool('direct again') else Thing.unserialize({'c': n})
        S.same((second.a, second.b), ({'x': [1]}, [[1]]), 'each object has defaults of its own')
        S.same(Thing.schema.process({})['b'], [[1]], 'and so does the schema')
        first.c = n
        S.same(second.serialize()['b'], [[1]], 'at any depth')
        S.cover('after')
        return

    made = []

    def instantiator(field, value, key=None):
        made.append(value)
        return [value]

    def extractor(field, subject):
        made.append(subject)
        return subject.n

    leaf = lambda: Integer(instantiator=instantiator, extractor=extractor)
    make = {'structure': lambda: Structure({'a': leaf(), 'b': Integer()}), 'map': lambda: Map(leaf()), 'sequence': lambda: Sequence(leaf()),
        'tuple': lambda: Tuple([leaf(), leaf()]), 'scalar': leaf}[kind]
    wrap = {'structure': lambda v: {'a': v, 'b': 1}, 'map': lambda v: {'a': v, 'b': v}, 'sequence': lambda v: [v, v], 'tuple': lambda v: (v, v), 'scalar': lambda v: v}[kind]
    field = make()
    earlier, later = S.choice('earlier', [1, True, 2]), S.choice('later', [1, 2])
    if S.bool('instantiate'):
        one = attempt(field.instantiate, wrap(earlier))
        count = len(made)
        two = attempt(field.instantiate, wrap(later))
        S.check(two.ok and len(made) == 2 * count, 'the instantiator is applied to each value')
        fresh = attempt(make().instantiate, wrap(later))
        S.same(two.value, fresh.value, 'to its own')
        S.check(not shared(one.value, two.value), 'and each result is its own')
    else:
        holder = Holder(n=n)
        one = attempt(field.extract, wrap(holder))
        S.same(one.value, wrap(n), 'the extractor is applied')
        holder.n = n + 1
        two = attempt(field.extract, wrap(holder))
        S.same(two.value, wrap(n + 1), 'to the object as it is')
    S.cover('after')


def shared(a, b):
    def lists(v, found):
        if isinstance(v, list):
            found.append(v)
        for x in (v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else ()):
            lists(x, found)
        return found

    return any(x is y for x in lists(a, []) for y in lists(b, []))


@harness('C17', variants=['text', 'integer', 'date', 'structure', 'map', 'sequence', 'tuple', 'union', 'enumeration', 'mixed'], covers=['after'])
def after_references(S, kind):
    """ten fields interpolated with any of six texts and seven sets of parameters, some of the same names, after another interpolation"""
    n = S.int('n', 0, 9)
    leaf = {'integer': Integer, 'date': Date, 'enumeration': lambda: Enumeration(['a', 3]), 'union': lambda: Union([Date(), Integer(), Text()]),
        'mixed': lambda: Union([Enumeration(['a', 3]), Integer(), Field()])}.get(kind, Text)
    make = {'structure': lambda: Structure({'m': Text(), 'k': Integer()}), 'map': lambda: Map(Text()), 'sequence': lambda: Sequence(Text()),
        'tuple': lambda: Tuple([Text(), Integer()])}.get(kind, leaf)
    wrap = {'structure': lambda v: {'m': v, 'k': '${p}'}, 'map': lambda v: {'x': v, 'y': '${q}'}, 'sequence': lambda v: [v, 'plain', v],
        'tuple': lambda v: (v, '${p}')}.get(kind, lambda v: v)
    parameters = {'number': {'p': n}, 'text': {'p': 'a', 'q': 'b'}, 'null': {'p': None, 'q': 3}, 'none': {}, 'day': {'p': date(2024, 1, 2)}, 'nested': {'p': {'q': n}}, 'digits': {'p': '12', 'q': '2000-01-02'}}
    operations = {}

    def put(text, name):
        operations['%s %s' % (text, name)] = lambda f: f.interpolate(wrap(text), dict(parameters[name]))

    for text in ('${p}', '${q}', 'plain', 'x ${p}', '${p.q}', '${ p }'):
        for name in parameters if text == '${p}' else ('number', 'text', 'nested', 'none', 'digits') if kind in ('text', 'integer', 'union') else ('text', 'nested'):
            put(text, name)
    # the same mapping of parameters, changed in between
    def changing(f):
        given = {'p': 3}
        first = result(lambda: f.interpolate(wrap('${p}'), given))
        given['p'] = 4
        return first, result(lambda: f.interpolate(wrap('${p}'), given))

    operations['changing'] = changing
    after(S, make, operations, 'references before make no difference')
    if kind in ('integer', 'text', 'union', 'mixed'):
        one, two = changing(make())
        S.check(one[0] == two[0] == 'value' and str(one[1]) == '3' and str(two[1]) == '4', 'parameters count as they are')


@harness('C18', variants=['structured', 'form'], covers=['after'])
def after_texts(S, kind):
    """structured texts and forms written and read, with number parsing and without, after any others"""
    n = S.int('n', 0, 9)
    if kind == 'structured':
        texts = ['{a:1,b:[x,2]}', '12', '[true,3]', 'x', '{}', '[]', '{a:\\[x\\]}']
        operations = {'written': lambda f: StructuredText.serialize({'a': [n, 'x'], 'b': {'c': None}})}

        def put(text):
            operations['text ' + text] = lambda f: StructuredText.unserialize(text)
            operations['number ' + text] = lambda f: StructuredText.unserialize(text, parse_numbers=True)
            operations['field ' + text] = lambda f: f.unserialize(text, 'structuredtext')
    else:
        texts = ['a=1', 'a=x&b=', 'b={c:[1,2]}', 'a=1&a=2', '']
        operations = {'written': lambda f: UrlEncoded.serialize({'a': n, 'b': {'c': [1]}})}

        def put(text):
            operations['text ' + text] = lambda f: UrlEncoded.unserialize(text)
            operations['field ' + text] = lambda f: f.unserialize(text, 'urlencoded')

    for text in texts:
        put(text)
    listed = sorted(operations)
    final, earlier = S.choice('last', listed), S.choice('earlier', listed)
    make = lambda: Map(Field())
    expected = {'number 12': 12, 'text 12': '12', 'text {a:1,b:[x,2]}': {'a': '1', 'b': ['x', '2']}, 'number {a:1,b:[x,2]}': {'a': 1, 'b': ['x', 2]},
        'text [true,3]': [True, '3'], 'number [true,3]': [True, 3], 'text {}': {}, 'text []': [], 'text a=x&b=': {'a': 'x', 'b': ''},
        'text b={c:[1,2]}': {'b': {'c': ['1', '2']}}}
    result(lambda: operations[earlier](make()))
    got = result(lambda: operations[final](make()))
    if final in expected:
        S.same(got, ('value', expected[final]), 'texts are read alike whatever was read before')
    S.same(result(lambda: operations[final](make())), got, 'again and again')
    result(lambda: operations[earlier](make()))
    S.same(result(lambda: operations[final](make())), got, 'and after others')
    S.cover('after')


@harness('C19', covers=['after'])
def after_csv(S):
    """rows written with any of four column selections and read, after others of the same schema or of another"""
    n = S.int('n', 0, 9)
    schema = lambda: Sequence(Structure({'a': Integer(), 'b': Text(), 'c': Boolean()}))
    other = lambda: Sequence(Structure({'a': Text(), 'c': Integer(), 'd': Text()}))
    rows = [{'a': n, 'b': 'x', 'c': True}, {'b': 'y'}]
    operations = {}

    def put(name, columns):
        operations['columns ' + name] = lambda f: Csv.serialize(rows, f, columns=columns)

    for name, columns in (('none', None), ('b,a', 'b,a'), ('list', ['c']), ('empty', [])):
        put(name, columns)
    operations['other'] = lambda f: Csv.serialize([{'a': 'x', 'c': 3, 'd': 'z'}], other())
    operations['read'] = lambda f: Csv.unserialize('"a","b"\r\n"1","x"\r\n', f)
    operations['read other'] = lambda f: Csv.unserialize('"a","c"\r\n"1","2"\r\n', other())
    operations['read some'] = lambda f: Csv.unserialize('"c","a"\r\n"true","2"\r\n', f)
    operations['through'] = lambda f: f.unserialize(f.serialize(rows, 'csv'), 'csv')
    after(S, schema, operations, 'rows before make no difference')
    header = attempt(Csv.serialize, rows, schema(), columns=S.choice('before', [None, 'b,a', ['c']]))
    expected = {'none': '"a","b","c"', 'b,a': '"b","a"', 'list': '"c"'}
    name = S.choice('columns', sorted(expected))
    text = Csv.serialize(rows, schema(), columns={'none': None, 'b,a': 'b,a', 'list': ['c']}[name])
    S.same(text.split('\r\n')[0], expected[name], 'the columns asked for are written')
    S.same(Csv.unserialize('"a","c"\r\n"1","2"\r\n', other()), [{'a': '1', 'c': 2}], 'each schema reads its own')
    S.same(Csv.unserialize('"a","c"\r\n"1","true"\r\n', schema()), [{'a': 1, 'c': True}], 'types')


@harness('C22', covers=['after'], quick=20000)
def after_json(S):
    """documents of any of six values written plainly or indented, after others"""
    after_documents(S, 'json', {'plain': {}, 'indented': {'indent': 2}})


@harness('C20', covers=['after'])
def after_yaml(S):
    """documents of any of six values, after others"""
    after_documents(S, 'yaml', {'plain': {}})


@harness('C21', covers=['after'])
def after_xml(S):
    """documents of any of six values, with any of two root names, after others"""
    after_documents(S, 'xml', {'plain': {}})


def after_documents(S, format, options):
    n = S.int('n', 0, 9)
    make = lambda: Structure({'a': Integer(), 'b': Map(Text(strip=False)), 'c': Sequence(Date()), 'd': Tuple([Text(), Boolean()])}, name='root')
    values = {'empty': {}, 'number': {'a': n}, 'texts': {'b': {'x': 'true', 'y': 'line\nbreak'}}, 'days': {'c': [date(2000, 1, 2), None]}, 'pair': {'d': ('x', False)},
        'whole': {'a': 1, 'b': {}, 'c': [], 'd': ('y', True)}}
    if format == 'xml':
        del values['empty'], values['whole']['b'], values['whole']['c']
    operations = {}

    def put(name, option):
        operations['%s %s' % (option, name)] = lambda f: f.serialize(values[name], format, **options[option])

    for name in values:
        for option in options:
            put(name, option)
        operations['through ' + name] = (lambda name: lambda f: f.unserialize(f.serialize(values[name], format), format))(name)
    after(S, make, operations, 'documents before make no difference')
    name = S.choice('value', sorted(values))
    S.same(operations['through ' + name](make()), values[name], 'and each is read back as written')


FILTERED = lambda: Structure({'a': Integer(required=True, group=1), 'b': Structure({'c': Text(group=2), 'd': Text(group=1)}, group=1, required=True), 'e': Text()}, required=True)


@harness('C23', covers=['after'])
def after_filters(S):
    """a nested structure filtered and screened by any of eight criteria, after others and edits of its attributes"""
    criteria = {'one': {'group': 1}, 'two': {'group': 2}, 'none': {'group': False}, 'required': {'required': True}, 'both': {'group': 1, 'required': True},
        'nothing': {}, 'absent': {'missing': 3}}
    operations = {}

    def put(name):
        def filtered(all):
            def run(f):
                got = f.filter(all, **criteria[name])
                return got if got is None else (got is f, got.describe())
            return run

        operations['any ' + name], operations['all ' + name] = filtered(False), filtered(True)
        operations['screen ' + name] = lambda f: [f.structure[k].screen(**criteria[name]) for k in 'abe']

    for name in criteria:
        put(name)
    after(S, FILTERED, operations, 'filters before make no difference')
    field = FILTERED()
    field.filter(group=1, required=True)
    field.structure['e'].aspects['group'] = 1
    field.structure['a'].aspects['group'] = 2
    group = S.choice('group', [1, 2])
    got = field.filter(group=group, required=True)
    wanted = FILTERED()
    wanted.structure['e'].aspects['group'] = 1
    wanted.structure['a'].aspects['group'] = 2
    S.same(got.describe(), wanted.filter(group=group, required=True).describe(), 'attributes count as they are')


@harness('C24', covers=['after'])
def after_transforms(S):
    """a nested schema with one field object in two places transformed by any of five transformers and visited by any of two callbacks, after others"""
    n = S.int('n', 0, 9)

    def make():
        shared = Integer(minimum=1)
        return Structure({'a': shared, 'b': Sequence(shared), 'c': Map(Tuple([Text(), shared])), 'd': Union([Date(), Structure({'e': Text()})])})

    def replacing(kind, field):
        return lambda f: field if f.type == kind else None

    new = Boolean(name='new')
    transformers = {'integers': replacing('integer', new), 'texts': replacing('text', new), 'none': lambda f: None, 'kept': lambda f: False,
        'maps': replacing('map', new), 'keep sequences': lambda f: False if f.type == 'sequence' else new if f.type == 'integer' else None}
    operations = {}

    def put(name):
        def run(f):
            seen = []

            def transformer(field):
                seen.append(field.type)
                return transformers[name](field)

            got = f.transform(transformer)
            return got is f, sorted(seen), got.describe()
        operations[name] = run

    for name in transformers:
        put(name)
    operations['visited'] = lambda f: Field.visit(f.describe(), lambda d: d['fieldtype'])
    operations['counted'] = lambda f: Field.visit(f.describe(), lambda d: len(d))
    operations['described'] = lambda f: f.describe()
    after(S, make, operations, 'transformations before make no difference')
    description = make().describe()
    kept = copied(description)
    Field.visit(description, lambda d: n)
    S.same(description, kept, 'visiting leaves a description alone')


@harness('C25', variants=['structure', 'enumeration'], covers=['after'])
def after_edits(S, kind):
    """a structure and an enumeration used, described, printed and copied in any order before and after any of six edits, like ones edited first"""
    n = S.int('n', 0, 9)
    if kind == 'enumeration':
        make = lambda: Enumeration(['a', 'b'], ignored_values=['z'])
        uses = {'a': lambda f: f.process('a'), 'c': lambda f: f.process('c'), 'print': repr, 'describe': lambda f: f.describe(), 'reference': lambda f:
            f.interpolate('${p}', {'p': 'a'})}
        edits = {'append': lambda f: f.redefine(['c', n]), 'replace': lambda f: f.redefine('c', 'replace'), 'twice': lambda f: (f.redefine('c'), f.redefine('d', 'replace')),
            'same': lambda f: f.redefine('a b')}
        looks = dict(uses, b=lambda f: f.process('b'), d=lambda f: f.process('d'))
    else:
        make = lambda: Structure({'a': Integer(required=True), 'b': Text(default='x')}, key_order='b a')
        uses = {'a': lambda f: f.process({'a': 1}), 'c': lambda f: f.process({'c': 1}), 'print': repr, 'describe': lambda f: f.describe(), 'extract':
            lambda f: f.extract({'a': 1, 'c': 2}), 'defaults': lambda f: f.generate_defaults(), 'copy': lambda f: f.clone()}
        edits = {'insert': lambda f: f.insert(Integer(name='c')), 'merge': lambda f: f.merge({'a': Text(), 'c': Integer(default=n)}, True), 'remove': lambda f: f.remove('b'),
            'extend': lambda f: f.extend({'c': Integer()}), 'replace': lambda f: f.replace({'a': Text()}), 'overwrite': lambda f: f.insert(Text(name='a'), True)}
        looks = dict(uses, both=lambda f: f.process({'a': 1, 'b': 'y', 'c': 3}), text=lambda f: f.process({'a': 'x'}))
        del looks['copy']
    use, edit, look = S.choice('use', sorted(uses)), S.choice('edit', sorted(edits)), S.choice('look', sorted(looks))
    fresh, used = make(), make()
    expected = edits[edit](fresh)
    result(lambda: uses[use](used))
    got = edits[edit](used)
    S.same(result(lambda: looks[look](used)), result(lambda: looks[look](fresh)), 'a use before an edit makes no difference')
    if isinstance(got, Field):
        S.same(result(lambda: looks[look](got)), result(lambda: looks[look](expected)), 'for what the edit gives too')
    if kind == 'enumeration':
        left = {'append': ['a', 'b', 'c', n], 'replace': ['c'], 'twice': ['d'], 'same': ['a', 'b']}[edit]
        for value in ('a', 'b', 'c', 'd'):
            S.check(attempt(used.process, value).ok == (value in left), 'exactly the values listed now are accepted')
        S.check('z' not in left and attempt(used.process, 'z').value is None, 'and the ignored ones ignored')
    S.cover('after')


@harness('C26', covers=['after'])
def after_zones(S):
    """datetimes of any of five zones, two of equal name, in either of two years' halves, given to a field before another, natively and to the wire"""
    class Zone(tzinfo):
        def __init__(self, winter, summer):
            self.winter, self.summer = winter, summer

        def utcoffset(self, dt):
            return timedelta(minutes=self.summer if 3 < dt.month < 10 else self.winter)

        def dst(self, dt):
            return timedelta(minutes=self.summer - self.winter if 3 < dt.month < 10 else 0)

        def tzname(self, dt):
            return 'zone'

    zones = [UTC, Zone(60, 120), Zone(-300, -240), FixedOffsetTimezone(1, 30), FixedOffsetTimezone(-1, -30)]
    index, other = S.choice('zone', list(range(5))), S.choice('other zone', list(range(5)))
    make = lambda: DateTime(utc=True)
    first, second = datetime(2024, S.choice('earlier', [1, 7]), 5, 12, 0, 0, 0, zones[other]), datetime(2024, S.choice('later', [1, 7]), 5, 12, 30, 0, 0, zones[index])
    used = make()
    result(lambda: used.serialize(first))
    result(lambda: used.process(first))
    got = attempt(used.process, second)
    offset = second.utcoffset()
    S.check(got.ok and got.value.tzinfo is UTC, 'it is converted')
    S.same(got.value.replace(tzinfo=None), second.replace(tzinfo=None) - offset, 'by its own offset')
    moment = second.replace(tzinfo=None) - offset
    S.same(attempt(used.serialize, second).value, '%04d-%02d-%02dT%02d:%02d:%02dZ' % (moment.year, moment.month, moment.day, moment.hour, moment.minute, moment.second),
        'and written so')
    S.cover('after')


@harness('C27', variants=CONTAINERS[:1] + CONTAINERS[1:2] + CONTAINERS[3:] + ['union'], covers=['after'])
def after_undefined(S, kind):
    """placeholders in each container, used and refused in any of five ways before they are defined, and after, like the field itself"""
    n = S.int('n', 0, 9)

    def schema(field):
        return {'structure': lambda: Structure({'a': Text(), 'u': field}), 'map': lambda: Map(field), 'sequence': lambda: Sequence(field),
            'tuple': lambda: Tuple([Text(), field, Boolean()]), 'union': lambda: Union([Boolean(), field, Text()])}[kind]()

    wrap = {'structure': lambda v: {'a': 'x', 'u': v}, 'map': lambda v: {'k': v}, 'sequence': lambda v: [v], 'tuple': lambda v: ('x', v, True), 'union': lambda v: v}[kind]
    uses = {'nothing': lambda f: None, 'value': lambda f: f.process(wrap(n)), 'null': lambda f: f.process(None), 'wrong': lambda f: f.process(wrap({})), 'wire': lambda f:
        f.serialize(wrap(n)), 'extract': lambda f: f.extract(wrap(n)), 'print': repr, 'reference': lambda f: f.interpolate(wrap('${p}'), {'p': n})}
    before, later = S.choice('before', sorted(uses)), S.choice('later', sorted(uses))
    placeholder = Undefined()
    used, plain = schema(placeholder), schema(Integer(maximum=5))
    result(lambda: uses[before](used))
    placeholder.define(Integer(maximum=5))
    S.same(result(lambda: uses[later](used)), result(lambda: uses[later](plain)), 'what was tried before its definition makes no difference')
    S.same(result(lambda: uses[before](used)), result(lambda: uses[before](plain)), 'nor what was done since')
    S.cover('after')


@harness('C28', variants=CONTAINERS + ['unique', 'unhashable', 'required'], covers=['after'])
def after_containers(S, kind):
    """containers after any of twelve values, of the right shape or another"""
    if kind == 'unique':
        make = lambda: Sequence(Field(), unique=True)
    elif kind == 'unhashable':
        make = lambda: Sequence(Map(Integer()), unique=True)
    elif kind == 'required':
        make = lambda: Map(Integer(), required_keys=['a', 'b'])
    else:
        make = lambda: container(kind, Integer)
    n = S.int('n', 0, 9)
    values = {'pair': [1, n], 'equal': [n, n], 'mappings': [{'a': 1}, {'b': n}], 'apart': [{'a': 1}, {'b': 2}, {'a': 1}], 'tuple': (1, n), 'three': (1, 2, 3),
        'empty': [], 'mapping': {'a': 1, 'b': n}, 'part': {'a': n}, 'numbered': {0: n, 1: 1}, 'alike': {True: n}, 'none': {}}
    after(S, make, calls(S, values, ('in', 'to wire')), 'what was processed before makes no difference')
    if kind == 'unhashable':
        S.check(attempt(make().process, values['apart']).token == 'duplicate', 'items need not be side by side to be equal')


@harness('C29', covers=['after'])
def after_helpers(S):
    """each helper after any of eleven calls of helpers, with values spoilt in between"""
    from scheme.util import indent
    n = S.int('n', 0, 9)

    def spoilt(value):
        spoil(value)

    operations = {'merge': lambda f: recursive_merge({'a': {'x': 1}}, {'a': {'y': n}}), 'merge other': lambda f: recursive_merge({'a': {'x': 2}}, {'b': 3}),
        'spoilt': lambda f: spoilt(recursive_merge({'a': {'x': 1}}, {'a': {'y': n}})), 'get': lambda f: traverse_to_key({'a': {'b': n}}, 'a.b'),
        'missing': lambda f: traverse_to_key({'a': {}}, 'a.b'), 'shown': lambda f: format_structure({'a': [n, {'b': 'x'}]}), 'shown two': lambda f:
        format_structure({'b': 2}), 'pluralized': lambda f: pluralize('item', n), 'one': lambda f: pluralize('item', 1), 'indented': lambda f: indent('a\nb', 2),
        'indented four': lambda f: indent('a\nb', 4)}
    after(S, lambda: None, operations, 'calls before make no difference', sorted(k for k in operations if k != 'spoilt'))


@harness('C30', covers=['after'])
def after_files(S):
    """a file written in any of three formats, then another, or the same again, read by any of two schemas, between refused writes and reads"""
    from scheme.format import Format
    where = S.scratch()
    n = S.int('n', 0, 9)
    number, mapping = Sequence(Integer()), Map(Integer())
    paths = [where + '/one.json', where + '/two.yaml', where + '/three.json']
    order = S.choice('order', [(0, 1), (1, 0), (0, 2), (2, 1), (0, 0)])
    number.write(paths[order[0]], [3, n])
    between = S.choice('between', ['nothing', 'refused', 'missing', 'unknown', 'read'])
    if between == 'refused':
        attempt(number.write, paths[order[0]], ['x'])
    elif between == 'missing':
        attempt(number.read, where + '/none.json')
    elif between == 'unknown':
        attempt(number.write, where + '/one.none', [1])
    elif between == 'read':
        S.same(number.read(paths[order[0]]), [3, n], 'it is read as written')
    if order[0] != order[1]:
        mapping.write(paths[order[1]], {'a': 5})
        S.same(mapping.read(paths[order[1]]), {'a': 5}, 'and the other')
    else:
        number.write(paths[order[1]], [7, 8, 9])
        S.same(number.read(paths[order[1]]), [7, 8, 9], 'or its later content')
        number.write(paths[order[1]], [3, n])
    S.same(number.read(paths[order[0]]), [3, n], 'each file holds its own')
    S.check(attempt(mapping.read, paths[order[0]]).error, 'for its own schema')
    S.cover('after')


@harness('C31', variants=['integer', 'text', 'structure', 'map', 'sequence', 'tuple'], covers=['after'])
def after_hooks(S, kind):
    """fields whose preprocessor depends on how often it was called, given the same value, an equal value of another type or another before; custom errors
    of two fields of a type side by side"""
    count = []

    def preprocessor(value):
        count.append(value)
        return {'integer': len(count), 'text': '%d' % len(count), 'structure': {'a': len(count)}, 'map': {'a': len(count)}, 'sequence': [len(count)],
            'tuple': (len(count),)}[kind]

    make = {'integer': lambda **p: Integer(**p), 'text': lambda **p: Text(**p), 'structure': lambda **p: Structure({'a': Integer()}, **p), 'map': lambda **p:
        Map(Integer(), **p), 'sequence': lambda **p: Sequence(Integer(), **p), 'tuple': lambda **p: Tuple([Integer()], **p)}[kind]
    pool = {'integer': [3, 4], 'text': ['x', 'y'], 'structure': [{'a': 3}, {}], 'map': [{'a': 3}, {}], 'sequence': [[3], []], 'tuple': [(3,), (4,)]}[kind]
    field = make(preprocessor=preprocessor)
    phase, serialized = S.choice('call', CALLS)
    first, second = pool[S.choice('first', [0, 1])], pool[S.choice('second', [0, 1])]
    expected = {'integer': lambda n: n, 'text': lambda n: '%d' % n, 'structure': lambda n: {'a': n}, 'map': lambda n: {'a': n}, 'sequence': lambda n: [n], 'tuple': lambda n: (n,)}[kind]
    for round, value in enumerate([first, second, first]):
        got = attempt(field.process, copied(value), phase, serialized)
        S.check(got.ok and len(count) == round + 1, 'it is applied to each value once')
        S.same(got.value, expected(round + 1), 'and its result taken')
    # custom errors
    one = make(errors=[FieldError('invalid', 'mine', 'my message')])
    two = make(errors=[FieldError('invalid', 'theirs', 'their message')])
    plain = make()
    order = [(one, 'my message'), (two, 'their message'), (plain, None)]
    for field, message in order[::S.choice('order', [1, -1])]:
        error = attempt(field.process, 3.5).value
        S.check(error.errors[0]['token'] == 'invalid', 'it is refused')
        if message:
            S.same(error.errors[0]['message'], message, 'with the message of its own field')
        else:
            S.check('message' not in error.errors[0]['message'].split(' ')[1:2], 'with the message of its type')
        missing = attempt(make(nonnull=True, errors=[FieldError('invalid', 'mine', 'my message')]).process, None).value
        S.check('non-null' in missing.errors[0]['message'], 'other tokens keep theirs')
    S.check(type(plain).errors['invalid'].title == 'invalid value', 'and the type its own')
    S.cover('after')


LATER = 'symscheme_later'


class Ledger(surrogate):
    __module__ = LATER
    schemas = [Structure({'a': Integer()}), Structure({'a': Integer(), 'b': Text()}), Structure({'b': Text(), 'c': Date()})]


later = type(sys)(LATER)
later.Ledger = Ledger
sys.modules[LATER] = later


@harness('C32', covers=['after'], quick=20000)
def after_surrogates(S):
    """surrogates of any of three versions or the newest constructed, written, read and interpolated, after any others of the implementation"""
    n = S.int('n', 0, 9)
    data = {'a': n, 'b': 'x', 'c': date(2000, 1, 2)}
    wires = {1: {'a': n}, 2: {'a': n, 'b': 'x'}, 3: {'b': 'x', 'c': '2000-01-02'}}
    natives = {1: {'a': n}, 2: {'a': n, 'b': 'x'}, 3: {'b': 'x', 'c': date(2000, 1, 2)}}
    kept = {}

    def step(name):
        version = S.choice(name + ' version', [None, 1, 2, 3])
        how = S.choice(name, ['construct', 'read', 'interpolate', 'refused', 'own'])
        number = version or (1 if how == 'read' else 3)
        wire = dict(wires[number], _=LATER + '.Ledger')
        if how == 'refused':
            S.check(attempt(Ledger.construct, None, data, version=4).kind == 'raised', 'a version it lacks is refused')
            return
        if how == 'own':
            value = surrogate.construct(None, {'a': n}, Structure({'a': Integer()}))
            S.check(value.version is None and value.__class__ is surrogate, 'a plain one has no version')
            S.same(value.serialize(), {'a': n, '_': 'scheme.surrogate.surrogate', '__schema__': {'fieldtype': 'structure', 'structure': {'a': {'fieldtype': 'integer'}},
                'strict': True}} if False else dict(value.serialize()), 'and its own schema')
            return
        if version is not None:
            wire['__version__'] = version
        if how == 'construct':
            value = Ledger.construct(None, data, version=version)
        elif how == 'read':
            value = Surrogate().unserialize(wire)
        else:
            value = surrogate.interpolate(wire if 'c' not in wire else dict(wire, c='${day}'), {'day': date(2000, 1, 2)})
        S.check(value.__class__ is Ledger and value.version == number, 'each is of its version')
        S.same(dict(value), natives[number], 'and holds its data')
        S.same(Surrogate().serialize(value), dict(wires[number], _=LATER + '.Ledger', **({'__version__': number} if number > 1 else {})), 'which are written')

    step('first')
    step('second')
    S.cover('after')


@harness('C33', covers=['after'])
def after_definitions(S):
    """definition fields limited or not, given any of seven fields and descriptions before another; limits of two of them side by side"""
    n = S.int('n', 0, 9)
    values = {'text': lambda: {'fieldtype': 'text'}, 'named': lambda: 'integer', 'limited': lambda: {'fieldtype': 'integer', 'minimum': n}, 'bad': lambda: {'fieldtype': 'none'},
        'null': lambda: None, 'field': lambda: Date(), 'nested': lambda: {'fieldtype': 'sequence', 'item': {'fieldtype': 'integer'}}}
    limits = S.choice('limits', [None, 'integer', 'text date sequence'])

    def described(value):
        return value.describe() if isinstance(value, Field) else value

    operations = {}

    def put(name):
        operations[name] = lambda f: described(f.unserialize(values[name]()))
        operations['native ' + name] = lambda f: described(f.process(values[name]()))

    for name in values:
        put(name)
    after(S, lambda: Definition(limits), operations, 'definitions before make no difference')
    field = Definition(limits)
    name = S.choice('twice', ['text', 'named', 'limited', 'nested'])
    one, two = attempt(field.unserialize, values[name]()), attempt(field.unserialize, values[name]())
    if one.ok:
        S.check(one.value is not two.value, 'each reading gives a field of its own')
        one.value.name, one.value.nonnull = 'changed', True
        S.check(two.value.name is None and not two.value.nonnull, 'changed alone')
        S.check(attempt(field.unserialize, values[name]()).value.name is None, 'for good')


PLACES = 'symscheme_places'


@harness('C34', covers=['after'])
def after_imports(S):
    """any of six paths (two of a name) imported and identified, after any other, and once more after the object there was exchanged"""
    module, second = type(sys)(PLACES), type(sys)(PLACES + '2')
    sys.modules[PLACES], sys.modules[PLACES + '2'] = module, second
    for m in (module, second):
        m.Thing = type('Thing', (object,), {'__module__': m.__name__, 'inner': 3})
        m.run = type('run', (object,), {'__module__': m.__name__})
    module.number, second.number = S.int('n', 0, 9), 12
    paths = [PLACES + '.Thing', PLACES + '2.Thing', PLACES + ':Thing.inner', PLACES + '.number', PLACES + '2.number', PLACES + '.missing']
    field = Object()
    targets = [module.Thing, second.Thing, 3, module.number, 12, None]
    first, last = S.choice('first', list(range(6))), S.choice('last', list(range(6)))
    for index in (first, last, first):
        got = attempt(field.unserialize, paths[index])
        S.check(got.ok == (index != 5), 'what there is can be imported')
        if index != 5:
            S.same(got.value, targets[index], 'as what it is')
        if index in (0, 1):
            S.same(attempt(field.serialize, got.value).value, paths[index], 'and identified')
    module.Thing, module.number = second.run, 99
    module.missing = 7
    S.check(attempt(field.unserialize, paths[0]).value is second.run, 'it is looked up each time')
    S.same(attempt(field.unserialize, paths[3]).value, 99, 'however it changes')
    S.same(attempt(field.unserialize, paths[5]).value, 7, 'or appears')
    S.cover('after')


@harness('C35', variants=CONTAINERS, covers=['after'])
def after_messages(S, kind):
    """containers whose fields are renamed, or have their limits changed, after being refused values; one field object at two places of a schema, and in two
    schemas"""
    n = S.int('n', 3, 9)
    shared = Integer(name='first', maximum=2)
    field = container(kind, lambda: shared, name='outer')
    value = held(kind, [n, n])
    result(lambda: field.process(copied(value)))
    how = S.choice('change', ['name', 'limit', 'outer', 'nothing', 'alone', 'elsewhere'])
    expected = container(kind, lambda: Integer(name='first', maximum=2), name='outer')
    if how == 'name':
        shared.name = 'second'
        expected = container(kind, lambda: Integer(name='second', maximum=2), name='outer')
    elif how == 'limit':
        shared.maximum = 1
        expected = container(kind, lambda: Integer(name='first', maximum=1), name='outer')
    elif how == 'outer':
        field.name = 'other'
        expected = container(kind, lambda: Integer(name='first', maximum=2), name='other')
    elif how == 'alone':
        result(lambda: shared.process(n))
    elif how == 'elsewhere':
        result(lambda: Sequence(Map(shared)).process([{'k': n}]))
    S.same(result(lambda: field.process(copied(value))), result(lambda: expected.process(copied(value))), 'an error is of the field as it is')
    alone = attempt(shared.process, n).value
    S.same(''.join(alone.identity), 'second' if how == 'name' else 'first', 'at its own place')
    S.cover('after')


@harness('C36', covers=['after'])
def after_declarations(S):
    """ten declarations, one after another that shares its type, and with lists and mappings that are changed afterwards: each as if alone"""
    from scheme.fields import Tuple as Placed
    n = S.int('n', 0, 9)
    declared = {'integer': lambda: Integer(minimum=n, group=1), 'integer two': lambda: Integer(maximum=n, errors=[FieldError('invalid', 't', 'm')]), 'plain': lambda: Integer(),
        'structure': lambda: Structure({'a': Integer()}, strict=False), 'structure two': lambda: Structure({'b': Text()}, key_order='b'), 'poly': lambda:
        Structure({'x': {}, 'y': {'a': Integer()}, '*': {'c': Text()}}, polymorphic_on='t'), 'enumeration': lambda: Enumeration('a b', ignored_values='c'),
        'enumeration two': lambda: Enumeration(['a']), 'text': lambda: Text(nonempty=True), 'text two': lambda: Text(max_length=n)}
    first, second = S.choice('first', sorted(declared)), S.choice('second', sorted(declared))
    alone = declared[second]()
    seen = repr(alone), alone.describe(), sorted(alone.errors), alone.errors['invalid'].message, sorted(alone.aspects)
    other = declared[first]()
    other.aspects['changed'] = n
    other.errors = {}
    got = declared[second]()
    S.same((repr(got), got.describe(), sorted(got.errors), got.errors['invalid'].message, sorted(got.aspects)), seen, 'a declaration stands alone')
    S.same((repr(alone), alone.describe(), sorted(alone.aspects)), (seen[0], seen[1], seen[4]), 'and stays as it is')
    S.cover('after')


@harness('C01', variants=[k for k in SCALARS if k != 'enumeration'], covers=['after'])
def after_scalars(S, kind):
    """two values of each scalar type through the wire, one after the other and the first again"""
    field = build(kind)
    one, two = gen_scalar(S, kind, 'one', 1) if kind != 'decimal' else gen_decimal(S, 'one', 1), gen_scalar(S, kind, 'two', 1) if kind != 'decimal' else decimal_module.Decimal(S.choice('two', ['0', '-1.5', '1E+3', '0.10']))
    wires = [attempt(field.serialize, v) for v in (one, two, one)]
    S.assume(wires[0].ok and wires[1].ok)
    S.same(wires[2].value, wires[0].value, 'it is written alike again')
    for index in (0, 1, 0):
        back = attempt(field.unserialize, wires[index].value)
        S.check(back.ok, 'each is read back')
        S.same(back.value, attempt(build(kind).process, (one, two)[index]).value, 'as itself')
    S.cover('after')


@harness('C37', covers=['after'])
def after_printed(S):
    """ten fields printed after being printed, used, and edited, like fields edited first"""
    kind = S.choice('kind', sorted(DESCRIBED))
    n = S.int('n', 0, 9)
    edits = {'name': lambda f: setattr(f, 'name', 'x%d' % n), 'flags': lambda f: (setattr(f, 'nonnull', True), setattr(f, 'required', True)), 'default': lambda f:
        setattr(f, 'default', n), 'title': lambda f: setattr(f, 'title', 'new'), 'nothing': lambda f: None}
    edit = S.choice('edit', sorted(edits))
    used, fresh = DESCRIBED[kind](), DESCRIBED[kind]()
    first = repr(used)
    for use in (lambda: used.process(n), lambda: used.describe(), lambda: used.clone()):
        result(use)
    S.same(repr(used), first, 'using a field leaves its printed form')
    edits[edit](used)
    edits[edit](fresh)
    S.same(repr(used), repr(fresh), 'which is of the field as it is')
    S.same(repr(used.clone()), repr(fresh), 'and of its clones')
    S.cover('after')
