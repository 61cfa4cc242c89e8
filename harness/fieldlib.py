"""Fields of every type with symbolic parameters, and values to judge by them."""
from hlib import *

SIMPLE = ('integer', 'float', 'decimal', 'text', 'token', 'uuid', 'email', 'enumeration', 'boolean', 'binary', 'date',
    'time', 'datetime', 'any', 'definition', 'error', 'surrogate', 'object')
NESTING = ('structure', 'polymorphic', 'identities', 'map', 'keyed', 'sequence', 'tuple', 'union', 'deep')


MODES = ('brief', 'JSON', 'verbose')


def number(S, name, mode):
    return S.int(name, -1, 1) if mode == 'JSON' else S.int(name)


def string(S, name, mode):
    return S.text(name, 1, 0, charset('a"')) if mode == 'JSON' else S.text(name, 1)


def own(S, kind, mode):
    """A field with every type-specific parameter absent or any value."""
    p = {}

    def put(name, f):
        if S.bool('has ' + name):
            p[name] = f()

    if kind == 'integer':
        put('minimum', lambda: number(S, 'minimum', mode))
        put('maximum', lambda: number(S, 'maximum', mode))
    elif kind == 'float':
        put('minimum', lambda: S.choice('minimum', [0.0, -1.5, float('-inf')]))
        put('maximum', lambda: S.choice('maximum', [0.0, 1e300]))
    elif kind == 'decimal':
        put('minimum', lambda: decimal_module.Decimal(S.choice('minimum', ['0', '-1.50', '1E+3', '-Infinity'])))
        put('maximum', lambda: decimal_module.Decimal(S.choice('maximum', ['0.0', '12', '-7.25'])))
    elif kind in ('text', 'token'):
        put('min_length', lambda: S.int('min_length', 0, 2))
        put('max_length', lambda: S.int('max_length', 0, 2))
        if kind == 'text':
            put('strip', lambda: S.bool('strip'))
        else:
            put('segments', lambda: S.int('segments', 1, 2))
    elif kind == 'binary':
        put('min_length', lambda: S.int('min_length', 0, 2))
        put('max_length', lambda: S.int('max_length', 0, 2))
    elif kind == 'email':
        put('min_length', lambda: S.choice('min_length', [0, 8]))
        which = S.choice('which', [None, 'extended', 'multiple'])
        if which:
            p[which] = True
    elif kind == 'enumeration':
        p['enumeration'] = S.choice('values', ['red green', ['red', 3, 1.5, None], ('x', False)])
        put('ignored_values', lambda: S.choice('ignored', ['grey', ['grey', 4]]))
    elif kind == 'date':
        put('minimum', lambda: date(S.int('minimum', 1, 9999), 3, 5))
        put('maximum', lambda: date(2024, 3, S.int('maximum', 1, 31)))
    elif kind == 'time' and mode == 'copy':
        # copying a time takes it apart into bytes
        put('minimum', lambda: time(S.int('minimum', 10, 14), 30, 59))
        put('maximum', lambda: time(12, S.choice('maximum', [0, 30, 59]), 59))
    elif kind == 'time':
        put('minimum', lambda: time(S.int('minimum', 0, 23), 30, 59))
        put('maximum', lambda: time(12, S.int('maximum', 0, 59), S.choice('seconds', [0, 59])))
    elif kind == 'datetime':
        p['utc'] = True
        put('minimum', lambda: datetime(S.int('minimum', 1, 9999), 3, 5, 4, 3, 2, 0, UTC))
        put('maximum', lambda: datetime(2024, 3, 5, 12, S.int('maximum', 0, 59), 0))
    elif kind == 'definition':
        put('valid_fields', lambda: S.choice('valid', ['text integer', ['date'], []]))
    elif kind == 'surrogate':
        put('valid_surrogates', lambda: S.choice('valid', ['a.B c.D', ['x'], []]))
    if kind == 'any':
        return Field(**p)
    if kind == 'object':
        return Object(**p)
    if kind == 'surrogate':
        return Surrogate(**p)
    if kind in ('definition', 'error'):
        return CALLABLE[kind](**p)
    return CLASSES[kind](**p)


CALLABLE = {'definition': Definition, 'error': Error}


def inner(S, name, mode):
    """A member field with limits of its own."""
    if name in ('b', 'second') or S.b(False, True) and S.bool(name + ' is text'):
        return Text(max_length=S.int(name + ' length', 0, 2), strip=False, required=name == 'b' or S.b(False, True))
    return Integer(minimum=number(S, name + ' minimum', mode), nonnull=name == 'a' or S.b(False, True))


def nesting(S, kind, mode):
    if kind == 'structure':
        return Structure({'a': inner(S, 'a', mode), 'b': inner(S, 'b', mode)}, strict=S.bool('strict'),
            key_order=S.choice('order', [None, 'b a'] if mode == 'brief' else ['a b', ['b', 'a']]))
    if kind == 'polymorphic':
        return Structure({'x': {'a': inner(S, 'a', mode)}, 'y': {'b': inner(S, 'b', mode)}, '*': {'c': Boolean()}},
            polymorphic_on=S.choice('on', ['type', 0]) or Text(name='kind', nonnull=True), strict=S.bool('strict'))
    if kind == 'identities':
        return Structure({'x': {'a': inner(S, 'a', mode)}, 'y': {}}, polymorphic_on=Enumeration(['x', 'y', 'z'], name='type',
            required=S.bool('required')))
    if kind == 'map':
        return Map(inner(S, 'value', mode), required_keys=S.choice('required', [None, 'a', ['a', 'b'], ('b',), []]))
    if kind == 'keyed':
        return Map(inner(S, 'value', mode), key=S.bool('text keys') and Text(min_length=S.int('key length', 0, 2)) or Integer(maximum=5))
    if kind == 'sequence':
        p = {}
        if S.bool('has lengths'):
            p = {'min_length': S.int('min_length', 0, 2), 'max_length': S.int('max_length', 0, 2)}
        return Sequence(inner(S, 'item', mode), unique=S.bool('unique'), **p)
    if kind == 'tuple':
        return Tuple([inner(S, 'first', mode), inner(S, 'second', mode)])
    if kind == 'union':
        return Union((inner(S, 'first', mode), Sequence(inner(S, 'second', mode))))
    return Structure({'s': Sequence(Map(Tuple([inner(S, 'leaf', mode), Boolean()])), min_length=1, required=S.bool('required'))})


def value_of(S, kind, name, mode):
    if kind == 'float':
        return S.choice(name, [0.0, 1.5, -2.0])
    if kind == 'any':
        return S.choice(name, [0, 1, '', 'x', False, True, [1, 'x'], {'a': None}])
    if kind in ('integer', 'text'):
        return number(S, name, mode) if kind == 'integer' else string(S, name, mode)
    return gen_scalar(S, kind, name, 1)


def untupled(value):
    if isinstance(value, (list, tuple)):
        return [untupled(v) for v in value]
    if isinstance(value, dict):
        return dict((k, untupled(v)) for k, v in value.items())
    return value


def copied(value):
    if isinstance(value, list):
        return [copied(v) for v in value]
    if isinstance(value, tuple):
        return tuple([copied(v) for v in value])
    if isinstance(value, dict):
        return dict((k, copied(v)) for k, v in value.items())
    return value


def tokens(error):
    """The shape of a structural error: its tokens and those nested in it."""
    found = [e.get('token') for e in error.errors or []]
    nested = error.structure
    if isinstance(nested, dict):
        return found, dict((k, tokens(v) if isinstance(v, StructuralError) else 'value') for k, v in nested.items())
    if isinstance(nested, (list, tuple)):
        return found, [tokens(v) if isinstance(v, StructuralError) else 'value' for v in nested]
    return found, None


def alike(S, a, b, value, label):
    phase, serialized = S.choice('call', CALLS)
    x, y = attempt(a.process, copied(value), phase, serialized), attempt(b.process, copied(value), phase, serialized)
    S.check(x.kind == y.kind, label + ' accepts the same values')
    if x.ok and y.ok and not isinstance(x.value, StructuralError):
        S.same(x.value, y.value, label + ' converts alike')
    elif x.error and y.error:
        S.check(type(x.value) is type(y.value) and tokens(x.value) == tokens(y.value), label + ' refuses alike')
    else:
        S.check(type(x.value) is type(y.value), label + ' fails alike')
    S.cover('accepted' if x.ok else 'refused')


JUDGED = {
    'decimal': ('decimal', 'text'), 'integer': ('integer', 'boolean'), 'float': ('choice', 'whole'),
    'text': ('text', 'integer'), 'token': ('word', 'list'), 'email': ('address', 'text'), 'enumeration': ('member', 'map'),
    'boolean': ('boolean', 'integer'), 'binary': ('bytes', 'text'), 'date': ('date', 'datetime'), 'time': ('time', 'date'),
    'datetime': ('aware', 'date'), 'uuid': ('text',), 'any': ('integer', 'map'), 'definition': ('field', 'map'),
    'error': ('text', 'list'), 'surrogate': ('surrogate', 'text'), 'object': ('map',),
}


def judged(S, kind):
    """A value that the field may accept, or not."""
    sort = S.choice('sort', ('null',) + JUDGED.get(kind, ('integer', 'text', 'map', 'list')))
    if sort == 'word':
        return S.text('value', 3, 1, charset('a:-'))
    if sort == 'address':
        return S.choice('value', ['a@b.co', 'a@b.co, c@d.org', 'A <a@b.co>', ' a@b.co', 'ab'])
    if sort == 'member':
        return S.choice('value', ['red', 3, 'x', False, 1.5, 'grey', 4])
    if sort == 'choice':
        return S.choice('value', [0.0, -1.5, -1.6, 1e300, float('inf')])
    if sort == 'whole':
        return S.choice('value', [-2, 0, 1])
    if sort == 'field':
        return S.choice('value', [Integer(), Text(), Date()])
    if sort == 'surrogate':
        return scheme.surrogate({'a': 1})
    if sort == 'decimal':
        return decimal_module.Decimal(S.choice('value', ['0', '-1.5', '1000', '12.0', '-7.3', '-Infinity', 'NaN']))
    return gen_of_kind(S, sort, 'value', 1)


def leaf(S, name):
    return S.choice(name + ' kind', [0, 1, 2]) and (S.int(name) if S.bool(name + ' number') else S.text(name, 2, 0, charset('ab'))) or None


def filled(S, kind):
    if S.bool('wrong'):
        return S.choice('value', [None, 3, 'x', [], {}])
    if kind == 'structure':
        value = {}
        for k in S.choice('given', [('a',), ('b', 'a'), ('b', 'q')]):
            value[k] = leaf(S, k) if k != 'q' else 1
        return value
    if kind in ('polymorphic', 'identities'):
        value = {'type': S.choice('type', ['x', 'y', 'z', 3]), 'kind': 'x'}
        if value['type'] == 'x' and S.bool('only'):
            del value['kind']
        value[S.choice('member', ['a', 'b'])] = leaf(S, 'leaf')
        return value
    if kind == 'map':
        return dict((k, leaf(S, k)) for k in S.choice('keys', [(), ('a',), ('b', 'a')]))
    if kind == 'keyed':
        return {S.choice('key', [3, 6, 'a', 'ab', '']): leaf(S, 'leaf')}
    if kind in ('sequence', 'union'):
        if kind == 'union' and S.bool('scalar'):
            return leaf(S, 'leaf')
        return [leaf(S, 'i%d' % i) for i in range(S.pick('count', 3))]
    if kind == 'tuple':
        return tuple([leaf(S, 'i%d' % i) for i in range(S.choice('count', [1, 2]))])
    return {'s': [{'k': (leaf(S, 'leaf'), S.choice('other', [True, 1]))}]}
