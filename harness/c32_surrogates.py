from hlib import *
import sys
from scheme.surrogate import surrogate
from scheme.util import import_object

MODULE = 'symscheme_surrogates'
calls = []

ONE = Structure({'id': Integer(), 'name': Text(strip=False)})
TWO = Structure({'id': Integer(), 'name': Text(strip=False), 'day': Date()})
THREE = Structure({'id': Integer(required=True), 'tags': Sequence(Text(strip=False)), 'sub': Map(Integer())})


class Account(surrogate):
    __module__ = MODULE
    schemas = (ONE, TWO, THREE)


class Single(surrogate):
    __module__ = MODULE
    schemas = [ONE]

    @classmethod
    def contribute(cls, value, version):
        calls.append((cls, version))
        value['name'] = 'contributed'

    @classmethod
    def _acquire_surrogate(cls, version, id):
        return {'id': id + version, 'other': 1}


class Free(surrogate):
    __module__ = MODULE


class Derived(Account):
    __module__ = MODULE


class Namesake(surrogate):
    """Another implementation of the name Account."""
    __module__ = MODULE + '_other'
    schemas = [Structure({'id': Integer(), 'mine': Integer()})]


Namesake.__name__ = 'Account'
Namesake.surrogate = MODULE + '_other.Account'
other = type(sys)(MODULE + '_other')
other.Account = Namesake
sys.modules[MODULE + '_other'] = other

module = type(sys)(MODULE)
for cls in (Account, Single, Free, Derived):
    setattr(module, cls.__name__, cls)
module.number = 3
module.Other = Text
sys.modules[MODULE] = module

NAMES = {'account': Account, 'single': Single, 'free': Free, 'derived': Derived}


class Thing(object):
    """Carries its parts as attributes."""

    def __init__(self, parts):
        for k in parts:
            setattr(self, k, parts[k])


def parts(S, version):
    """Data for a version of Account and its wire form; any part may be absent (the identifier of the third is not)."""
    native, wire = {}, {}
    if version == 3 or S.bool('has id'):
        native['id'] = wire['id'] = S.int('id', -9, 99)
    if version < 3 and S.bool('has name'):
        native['name'] = wire['name'] = S.text('name', 2, 0, ASCII)
    if version == 2 and S.bool('has day'):
        m = S.int('month', 1, 12)
        native['day'] = date(2024, m, 5)
        wire['day'] = '2024-%s%s-05' % ('0' if m < 10 else '', m)
    if version == 3 and S.bool('has tags'):
        native['tags'] = [S.text('tag', 1, 0, ASCII)] * S.choice('tags', [0, 1, 2])
        wire['tags'] = list(native['tags'])
    if version == 3 and S.bool('has sub'):
        native['sub'] = {'k': S.int('sub', 0, 9)}
        wire['sub'] = dict(native['sub'])
    return native, wire


PLACES = ['alone', 'member', 'item', 'mapped', 'placed', 'either']


def placed(where, field, value):
    if where == 'member':
        return Structure({'s': field, 'n': Integer()}), {'s': value, 'n': 1}
    if where == 'item':
        return Sequence(field), [value, value]
    if where == 'mapped':
        return Map(field), {'k': value}
    if where == 'placed':
        return Tuple((field, Integer())), (value, 1)
    if where == 'either':
        return Union((Date(), field)), value
    return field, value


def taken(where, value):
    if where == 'member':
        return value['s']
    if where in ('item', 'placed'):
        return value[0]
    if where == 'mapped':
        return value['k']
    return value


def judged(S, got, cls, version, data, label):
    S.check(got.__class__ is cls, label + ' is of its implementation')
    S.check(got.version == version, label + ' is of its version')
    S.same(dict(got), data, label + ' holds its data')


def wired(S, where, value, expected, cls, version, data):
    """Through the wire, at a place: the wire form is as expected, and the same surrogate comes back."""
    before = dict(value)
    schema, whole = placed(where, Surrogate(), value)
    wire = attempt(schema.serialize, whole)
    S.check(wire.ok, 'a surrogate can be serialized')
    S.same(taken(where, wire.value), expected, 'into its data, version and identity')
    S.check(is_native(wire.value), 'which is plain data')
    S.same(dict(value), before, 'and is left alone')
    back = attempt(schema.unserialize, wire.value)
    S.check(back.ok, 'and read back')
    S.same(taken(where, wire.value), expected, 'leaving the wire form alone')
    judged(S, taken(where, back.value), cls, version, data, 'the surrogate read')
    return taken(where, back.value)


@harness('C32', variants=[(p, v) for p in PLACES for v in (1, 2, 3)], covers=['constructed'], quick=20000)
def versions(S, variant):
    """any data (texts <= 2, any part absent) of an implementation with three versions and of one derived from it, from mappings,
    objects, parameters or several of them, with undeclared entries; through the wire alone or in any container"""
    where, version = variant
    name = S.choice('implementation', ['account', 'derived'])
    cls = NAMES[name]
    native, wire = parts(S, version)
    source = S.choice('source', ['mapping', 'object', 'class', 'path', 'mixed', 'direct'])
    asked = None if version == 3 and S.bool('newest') else version
    if source == 'mapping':
        S.assume(True)
        given = dict(native, undeclared=1)
        made = attempt(cls.construct, None, given, version=asked)
        S.same(given, dict(native, undeclared=1), 'the mapping is left alone')
    elif source == 'object':
        made = attempt(cls.construct, None, Thing(dict(native, undeclared=1)), version=asked)
    elif source == 'class':
        made = attempt(surrogate.construct, cls, dict(native), version=asked)
    elif source == 'path':
        made = attempt(surrogate.construct, '%s.%s' % (MODULE, cls.__name__), dict(native), version=asked)
    elif source == 'mixed':
        made = attempt(cls.construct, None, {'id': 1000, 'undeclared': 1}, version=asked, **native)
        if 'id' not in native:
            native = dict(native, id=1000)
            wire = dict(wire, id=1000)
    else:
        made = attempt(cls, dict(native), None, version)
    S.cover('constructed')
    S.check(made.ok, 'it can be constructed')
    if source == 'mixed' or source == 'direct' or asked is not None:
        judged(S, made.value, cls, asked or version, native, 'the surrogate')
    S.check(made.value.surrogate == '%s.%s' % (MODULE, cls.__name__), 'its identity is the path of its implementation')
    S.check(import_object(made.value.surrogate) is cls, 'by which it can be imported')
    value = made.value
    if asked is None and source != 'direct':
        S.check(value.version == 3, 'the newest version when none is asked for')
    expected = dict(wire, _='%s.%s' % (MODULE, cls.__name__))
    if version > 1:
        expected['__version__'] = version
    wired(S, where, value, expected, cls, version, native)


DYNAMIC = {
    'dates': (Structure({'d': Date(), 'n': Integer(default=3)}), {'d': date(2000, 1, 2), 'n': 1}, {'d': '2000-01-02', 'n': 1}),
    'nested': (Structure({'a': Sequence(Time()), 'm': Map(Text())}), {'a': [time(1, 2, 3)], 'm': {'x': 'y'}}, {'a': ['01:02:03'], 'm': {'x': 'y'}}),
    'empty': (Structure({'a': Integer()}), {}, {}),
    'named': (Structure({'t': Token(required=True, segments=2)}, name='named', description='text'), {'t': 'a:b'}, {'t': 'a:b'}),
}


@harness('C32', variants=[(p, d) for p in PLACES for d in sorted(DYNAMIC)], covers=['dynamic'], quick=20000)
def dynamic(S, variant):
    """surrogates with a schema of their own (four schemas), of the general or an own implementation, with undeclared entries, through
    the wire alone or in any container, twice"""
    where, which = variant
    schema, data, wire = DYNAMIC[which]
    cls = S.choice('implementation', [surrogate, Free])
    number = S.int('n', -99, 99)
    if 'n' in data:
        data, wire = dict(data, n=number), dict(wire, n=number)
    made = attempt(cls.construct, None, dict(data, undeclared=number), schema)
    S.check(made.ok, 'it can be constructed')
    value = made.value
    judged(S, value, cls, None, data, 'the surrogate')
    S.check(value.schema is schema, 'with the schema given')
    identity = 'scheme.surrogate.surrogate' if cls is surrogate else MODULE + '.Free'
    expected = dict(wire, _=identity, __schema__=schema.describe())
    S.cover('dynamic')
    for round in (1, 2):
        value = wired(S, where, value, expected, cls, None, data)
        S.same(value.schema.describe(), schema.describe(), 'it has the same schema')
    S.check(attempt(Account.construct, None, {}, schema).kind == 'raised', 'an implementation with versions takes no schema')


@harness('C32', variants=PLACES, covers=['told apart'])
def namesakes(S, where):
    """two implementations of the same name in two modules, in either order, alone or in any container"""
    number = S.int('id', -9, 99)
    for cls in (Account, Namesake) if S.bool('usual one first') else (Namesake, Account):
        value = cls.construct(None, {'id': number}, version=1)
        wired(S, where, value, {'id': number, '_': cls.surrogate}, cls, 1, {'id': number})
    S.cover('told apart')


@harness('C32', covers=['free'])
def free(S):
    """plain surrogates of the general implementation, an own one, or one that names none (any dotted name of four), of any number and text
    <= 2"""
    data = {'a': S.int('a', -9, 9), 'b': [S.text('b', 2, 0, ASCII)]}
    which = S.choice('identity', ['general', 'own', 'none', 'missing', 'unknown module', 'number'])
    identity = {'general': 'scheme.surrogate.surrogate', 'own': MODULE + '.Free', 'missing': MODULE + '.Missing',
        'unknown module': 'symscheme_nowhere.Free', 'number': 3, 'none': None}[which]
    wire = dict(data)
    if which != 'none' or S.bool('null'):
        wire['_'] = identity
    given = dict(wire)
    for unserialize in (Surrogate().unserialize, surrogate.unserialize):
        got = attempt(unserialize, given)
        S.check(got.ok, 'a plain surrogate is read')
        S.same(given, wire, 'its wire form is left alone')
        judged(S, got.value, Free if which == 'own' else surrogate, None, data, 'it')
        S.same(got.value.serialize(), dict(data, _=identity if which == 'own' else 'scheme.surrogate.surrogate'), 'and written again')
    S.cover('free')


@harness('C32', covers=['accepted', 'refused'])
def valid(S):
    """any set of valid surrogates (of three), as text or list, against surrogates of each, native and through the wire"""
    allowed = [n for n in ['account', 'free', 'single'] if S.bool(n)]
    paths = ['%s.%s' % (MODULE, NAMES[n].__name__) for n in allowed]
    form = S.choice('form', ['text', 'list', 'tuple'])
    field = Surrogate({'text': ' '.join(paths) or None, 'list': list(paths), 'tuple': tuple(paths)}[form])
    name = S.choice('value', ['account', 'free', 'single', 'general', 'derived'])
    version = S.choice('version', [1, 3]) if name == 'account' else 1 if name in ('single', 'derived') else None
    cls = surrogate if name == 'general' else NAMES[name]
    value = cls({'id': 5}, None, version)
    wire = value.serialize()
    accepted = not allowed or name in allowed
    S.cover('accepted' if accepted else 'refused')
    mode = S.choice('mode', ['in', 'out', 'unserialize', 'serialize', 'unserialize native'])
    got = {'in': lambda: attempt(field.process, value), 'out': lambda: attempt(field.process, value, OUTBOUND),
        'unserialize': lambda: attempt(field.unserialize, wire), 'serialize': lambda: attempt(field.serialize, value),
        'unserialize native': lambda: attempt(field.unserialize, value)}[mode]()
    if accepted:
        S.check(got.ok, 'a valid surrogate is accepted')
        if mode == 'serialize':
            S.same(got.value, wire, 'and serialized')
        elif mode == 'unserialize':
            judged(S, got.value, cls, version, {'id': 5}, 'it')
        else:
            S.check(got.value is value, 'and returned')
    else:
        S.check(got.error and got.token == 'invalid-surrogate', 'any other is refused')
        message = got.value.errors[0]['message']
        for path in paths:
            S.check(path in message, 'naming the valid ones')


@harness('C32', covers=['accepted', 'refused'], quick=20000)
def malformed(S):
    """wire forms with any of the identities, versions (-3 to 5, of another type, none), data and schemas good and bad, by the field alone
    or within a structure or sequence"""
    wire = {}
    identity = S.choice('identity', ['account', 'single', 'free', 'none', 'text', 'list', 'number', 'field', 'empty'])
    wire['_'] = {'account': MODULE + '.Account', 'single': MODULE + '.Single', 'free': MODULE + '.Free', 'none': None, 'text': MODULE,
        'list': [], 'number': MODULE + '.number', 'field': MODULE + '.Other', 'empty': ''}[identity]
    version = 1
    known = {'account': 3, 'single': 1}.get(identity, 0)
    how = S.choice('version', ['none', 'any', 'text', 'null'])
    if how == 'any':
        version = wire['__version__'] = S.int('version number', -3, 5)
    elif how != 'none':
        version = 0
        wire['__version__'] = {'text': '1', 'null': None}[how]
    data = S.choice('data', ['good', 'bad', 'undeclared', 'empty'])
    wire.update({'good': {'id': 3}, 'bad': {'id': 'x'}, 'undeclared': {'id': 3, 'other': 1}, 'empty': {}}[data])
    schema = S.choice('schema', ['none', 'good', 'unknown', 'number', 'empty'])
    if schema != 'none':
        wire['__schema__'] = {'good': {'fieldtype': 'structure', 'structure': {'id': {'fieldtype': 'integer'}}},
            'unknown': {'fieldtype': 'unknown'}, 'number': 3, 'empty': None}[schema]
    surrogates = ('account', 'single', 'free', 'none', 'empty')
    if identity in ('list', 'text', 'number', 'field'):
        accepted = False
    elif schema != 'none':
        accepted = schema == 'good' and data in ('good', 'empty') and how == 'none'
    elif known:
        accepted = 1 <= version <= known and (data == 'good' or data == 'empty' and version < 3)
    else:
        accepted = True
    place = S.choice('place', ['alone', 'member', 'item'])
    whole = {'alone': wire, 'member': {'s': wire}, 'item': [wire]}[place]
    field = {'alone': Surrogate(), 'member': Structure({'s': Surrogate()}), 'item': Sequence(Surrogate())}[place]
    got = attempt(field.unserialize, whole)
    S.cover('accepted' if accepted else 'refused')
    S.observe('kind', got.kind)
    if accepted:
        S.check(got.ok, 'a proper wire form is read')
    else:
        S.check(got.error, 'anything else is a structural error')


@harness('C32', covers=['refused'])
def others(S):
    """values that are no surrogates: any integer, text <= 2, boolean, list, date, and (natively) mappings"""
    value = S.choice('kind', ['int', 'text', 'bool', 'list', 'date', 'dict'])
    value = {'int': lambda: S.int('int', -3, 3), 'text': lambda: S.text('text', 2, 0, ASCII), 'bool': lambda: S.bool('bool'), 'list': lambda: [{}],
        'date': lambda: date(2000, 1, 2), 'dict': lambda: {'_': MODULE + '.Free'}}[value]()
    field = S.choice('field', [Surrogate, lambda: Surrogate(MODULE + '.Free')])()
    modes = [('in', field.process, INBOUND, False), ('out', field.process, OUTBOUND, False), ('serialize', field.process, OUTBOUND, True)]
    if not isinstance(value, dict):
        modes.append(('unserialize', field.process, INBOUND, True))
    for name, process, phase, serialized in modes:
        got = attempt(process, value, phase, serialized)
        S.check(got.error and got.token == 'invalid', 'anything else is refused')
    S.cover('refused')


@harness('C32', covers=['construction', 'acquired'])
def construction(S):
    """any version between -2 and 5 of an implementation with three; parameters alone or with data; contributions; acquiring"""
    number = S.int('number', -9, 9)
    version = S.int('version', -2, 5)
    got = attempt(Account.construct, None, {'id': number}, version=version)
    if 1 <= version <= 3:
        S.check(got.ok, 'a version the implementation has is constructed')
        judged(S, got.value, Account, version, {'id': number}, 'it')
    else:
        S.check(got.kind == 'raised', 'any other is refused')
    S.check(attempt(Account.construct).kind == 'raised', 'there is no surrogate of nothing')
    S.check(attempt(Free.construct, None, Thing({'a': 1})).kind == 'raised', 'nor one of an object without schema')
    S.cover('construction')
    calls[:] = []
    made = Single.construct(id=number)
    judged(S, made, Single, 1, {'id': number, 'name': 'contributed'}, 'parameters alone make a surrogate, which')
    S.check(calls == [(Single, 1)], 'contributions are asked for once, with the version')
    made = Free.construct(a=number, b=2)
    judged(S, made, Free, None, {'a': number, 'b': 2}, 'parameters of an implementation without schema')
    for impl in (Single, MODULE + '.Single'):
        made = surrogate.acquire(impl, id=number)
        judged(S, made, Single, 1, {'id': number + 1, 'name': 'contributed'}, 'what is acquired')
    S.check(attempt(surrogate.acquire, Free).kind == 'raised', 'nothing is acquired without schema')
    S.cover('acquired')


@harness('C32', variants=['account', 'dynamic', 'text', 'itself', 'other'], covers=['interpolated'])
def interpolation(S, which):
    """wire forms with references to any integer and text <= 2, of each version, of none (the newest is taken), of a schema of their own; and
    references to surrogates"""
    number, text = S.int('n', -9, 99), S.text('t', 2, 0, charset('ab \n{$'))
    parameters = {'n': number, 't': text, 'w': Account({'id': 1}, None, 1)}
    field = Surrogate()
    if which == 'account':
        version = S.choice('version', [None, 1, 2, 3])
        wire = {'_': MODULE + '.Account', 'id': '${n}'}
        expected = {'id': number}
        if version is not None:
            wire['__version__'] = version
        version = version or 3
        if version < 3:
            wire['name'], expected['name'] = 'x${t}y', 'x' + text + 'y'
        else:
            wire['tags'], expected['tags'] = ['${t}'], [text]
        given = dict(wire)
        got = attempt(field.interpolate, given, parameters)
        S.check(got.ok, 'it can be interpolated')
        judged(S, got.value, Account, version, expected, 'it')
        S.same(given, wire, 'the wire form is left alone')
    elif which == 'dynamic':
        schema = Structure({'id': Integer()})
        wire = {'_': MODULE + '.Free', 'id': '${n}', '__schema__': schema.describe()}
        got = attempt(field.interpolate, wire, parameters)
        S.check(got.ok, 'it can be interpolated')
        judged(S, got.value, Free, None, {'id': number}, 'it')
        S.same(got.value.schema.describe(), schema.describe(), 'with its schema')
        S.same(wire['__schema__'], schema.describe(), 'the wire form is left alone')
    elif which == 'text':
        S.check(field.interpolate('${w}', parameters) is parameters['w'], 'a reference to a surrogate yields it')
        got = attempt(field.interpolate, '${n}', parameters)
        S.check(got.kind == 'raised', 'one to anything else is refused')
    elif which == 'itself':
        S.check(field.interpolate(parameters['w'], parameters) is parameters['w'], 'surrogates are kept')
        S.check(field.interpolate(None, parameters) is None, 'null is kept')
    else:
        S.check(attempt(field.interpolate, number, parameters).kind == 'raised', 'a number cannot be interpolated')
        S.check(attempt(field.interpolate, {'_': MODULE + '.Free', 'a': text}, parameters).kind == 'raised', 'nor a plain surrogate')
        S.check(attempt(field.interpolate, {'_': MODULE + '.Account', '__version__': S.choice('bad', [0, 4, -1])}, parameters).kind == 'raised',
            'nor one of an unknown version')
    S.cover('interpolated')


@harness('C32')
def constructed_apart(S):
    """Surrogates constructed from a value and parameters, as one of five implementations or with a schema of its own, and read from their forms: the values,
    schemas and forms given stay as they were, and change apart from the surrogate."""
    how = S.choice('how', ['plain', 'free', 'single', 'account', 'derived', 'dynamic', 'read', 'read dynamic', 'read plain', 'interpolated'])
    value = {'id': S.int('id', 0, 3), 'name': 'n'}
    params = S.choice('params', [{}, {'id': 7}, {'more': 'm'}])
    schema = {'fieldtype': 'structure', 'structure': {'id': {'fieldtype': 'integer'}, 'name': {'fieldtype': 'text', 'title': 't'}}}
    if how == 'read':
        value = dict(value, _=Account.surrogate, __version__=2)
    elif how in ('read dynamic', 'interpolated'):
        value = dict(value, _=Free.surrogate, __schema__=schema)
    elif how == 'read plain':
        value = dict(value, _=Free.surrogate)
    before, shown = dict(value), repr(schema)
    if how == 'interpolated':
        got = attempt(surrogate.interpolate, value, {})
    elif how.startswith('read'):
        got = attempt(surrogate.unserialize, value)
    elif how == 'dynamic':
        got = attempt(surrogate.construct, Free, value, ONE, **params)
    else:
        impl = {'plain': None, 'free': Free, 'single': Single, 'account': Account, 'derived': Derived}[how]
        got = attempt(surrogate.construct, impl, value, **params)
    S.check(got.ok, 'constructed')
    S.same(value, before, 'what was given stays')
    S.same(repr(schema), shown, 'as the schema')
    S.check(got.value is not value, 'it is another')
    if not how.startswith('read') and how != 'interpolated':
        expected = dict(dict(before, **params) if how not in ('account', 'derived') else {'id': before['id']}, **params)
        if how == 'single':
            expected['name'] = 'contributed'
        S.same(dict(got.value), expected, 'with the parameters')
    got.value['name'] = 'changed'
    S.same(value, before, 'and changes apart')
