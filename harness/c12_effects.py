from hlib import *


def copy_of(v):
    if isinstance(v, dict):
        return dict((k, copy_of(v[k])) for k in v)
    if isinstance(v, list):
        return [copy_of(x) for x in v]
    if isinstance(v, tuple):
        return tuple([copy_of(x) for x in v])
    return v


def containers(v, found):
    """The mutable containers in a value."""
    if isinstance(v, (dict, list)):
        found.append(v)
    if isinstance(v, dict):
        for k in v:
            containers(v[k], found)
    elif isinstance(v, (list, tuple)):
        for x in v:
            containers(x, found)
    return found


ATTRIBUTES = ('name', 'constant', 'default', 'nonnull', 'required', 'ignore_null', 'strict', 'key_order',
    'min_length', 'max_length', 'minimum', 'maximum', 'unique', 'required_keys', 'enumeration',
    'ignored_values', 'segments', 'multiple', 'utc', 'title', 'notes')


def state(field):
    """What can be seen of a field, as plain data: attributes and the fields below it."""
    seen = [(a, copy_of(getattr(field, a))) for a in ATTRIBUTES]
    seen.append(sorted(field.aspects.items()))
    seen.append(sorted(field.errors))
    below = []
    if isinstance(field, Structure):
        for k in field.structure:
            v = field.structure[k]
            below.append((k, state(v) if not isinstance(v, dict) else [(n, state(v[n])) for n in v]))
    elif isinstance(field, Map):
        below = [state(field.value), state(field.key) if field.key else None]
    elif isinstance(field, Sequence):
        below = [state(field.item)]
    elif isinstance(field, Tuple):
        below = [state(f) for f in field.values]
    elif isinstance(field, Union):
        below = [state(f) for f in field.fields]
    return type(field).__name__, seen, below


def make(schema):
    if schema == 'structure':
        return Structure({'a': Sequence(Integer(), min_length=1), 'b': Map(Text()), 'c': Integer(required=True)})
    if schema == 'loose':
        return Structure({'a': Sequence(Integer()), 'b': Text(ignore_null=True), 'c': Structure({'d': Date()},
            strict=False)}, strict=False, key_order='c b a')
    if schema == 'defaults':
        return Structure({'a': Sequence(Integer(), default=[1, 2]), 'b': Map(Sequence(Integer()),
            default={'x': [1]}), 'c': Structure({'d': Sequence(Text()), 'e': Integer(default=0)},
            default={'d': ['q']}), 'f': Tuple([Sequence(Integer())], default=([3],)),
            'g': Sequence(Map(Integer()), default=[])})
    if schema == 'bad defaults':
        return Structure({'a': Integer(default='x'), 'b': Sequence(Integer(), default=[1, 'y']), 'c': Structure({
            'd': Integer(default='z')}), 'e': Integer(required=True), 'f': Text(default='ok'), 'g': Map(Structure({
            'h': Integer(required=True), 'i': Text(default=3)}))}, strict=False)
    if schema == 'polymorphic':
        return Structure({'x': {'a': Sequence(Integer(), default=[7])}, 'y': {'a': Map(Integer()),
            'c': Text(default='z')}}, polymorphic_on='type')
    if schema == 'map':
        return Map(Sequence(Integer()), required_keys=['k'])
    if schema == 'keyed':
        return Map(Map(Integer()), key=Text(max_length=3))
    if schema == 'sequence':
        return Sequence(Structure({'a': Integer(), 'b': Sequence(Text(), default=['d'])}))
    if schema == 'unique':
        return Sequence(Sequence(Integer()), unique=True)
    if schema == 'tuple':
        return Tuple([Sequence(Integer()), Map(Text()), Date()])
    if schema == 'union':
        return Union([Integer(), Sequence(Integer()), Map(Sequence(Integer())), Text()])
    if schema == 'emails':
        return Sequence(Email(multiple=True), default=['a@b.co'])
    if schema == 'enumerations':
        return Map(Enumeration(['a', 3], ignored_values=['x', 4]))
    if schema == 'deep':
        return Structure({'s': Sequence(Map(Structure({'a': Sequence(Integer()), 'b': Integer(default=4)})))})
    raise ValueError(schema)


def integers_of(S, name, most=2):
    """A list of integers, possibly with a text (invalid) or null among them."""
    items = [S.int('%s%d' % (name, i)) for i in range(S.pick(name + '#', most + 1))]
    if items and S.bool(name + '!'):
        items[-1] = S.choice(name + '.odd', ['bad', None])
    return items


def sample(S, schema, name):
    if schema == 'structure':
        value = {'a': integers_of(S, name)}
        if S.bool(name + 'b'):
            value['b'] = {'k': 'x', 'l': S.choice(name + 'l', [' y ', 3])}
        if S.bool(name + 'c'):
            value['c'] = S.int(name + 'c')
        return value
    if schema == 'loose':
        return {'a': integers_of(S, name), 'b': S.choice(name + 'b', [None, ' t ']), 'z': [1],
            'c': {'d': date(2000, 1, S.int(name + 'd', 1, 28)), 'y': 1}}
    if schema == 'defaults':
        value = {}
        if S.bool(name + 'a'):
            value['a'] = integers_of(S, name, 1)
        if S.bool(name + 'c'):
            value['c'] = {'d': ['p']}
        return value
    if schema == 'bad defaults':
        value = {'z': [3]}
        if S.bool(name + 'a'):
            value['a'] = S.int(name + 'a.')
        if S.bool(name + 'b'):
            value['b'] = [4]
        if S.bool(name + 'c'):
            value['c'] = {'d': 3} if S.bool(name + 'd') else {}
        if S.bool(name + 'g'):
            value['g'] = {'k': {}, 'l': {'h': 3}, 'm': {'h': 1, 'i': 'x'}}
        return value
    if schema == 'polymorphic':
        value = {'type': S.choice(name + 'type', ['x', 'y', 'z'])}
        if S.bool(name + 'a'):
            value['a'] = integers_of(S, name) if S.bool(name + 'list') else {'k': S.int(name + 'k')}
        return value
    if schema == 'map':
        return {S.choice(name + 'key', ['k', 'l']): integers_of(S, name)}
    if schema == 'keyed':
        return {S.choice(name + 'key', [' k', 'long', '']): {'n': S.int(name + 'n')}, 'm': {}}
    if schema == 'sequence':
        value = [{'a': S.int(name + 'a')}, {'b': ['x', ' y']}]
        if S.bool(name + 'odd'):
            value.append({'c': 1})
        return value
    if schema == 'unique':
        return [integers_of(S, name + 'p', 1), integers_of(S, name + 'q', 1)]
    if schema == 'tuple':
        return (integers_of(S, name), {'k': S.choice(name + 'k', [' x', 3])},
            date(S.int(name + 'd', 1, 9999), 1, 1))
    if schema == 'union':
        kind = S.choice(name + 'kind', ['list', 'map', 'text'])
        return integers_of(S, name) if kind == 'list' else {'k': integers_of(S, name)} if kind == 'map' else ' t '
    if schema == 'emails':
        return [S.choice(name + 'e', [' A@b.co ;c@d.co', 'bad', 'a@b.co']), 'x@y.zz']
    if schema == 'enumerations':
        return {'p': S.choice(name + 'p', ['a', 'x', 'bad', None]), 'q': S.choice(name + 'q', [3, 4])}
    return {'s': [{'k': {'a': integers_of(S, name)}}, {}]}


OPERATIONS = ['inbound', 'outbound', 'serialize', 'unserialize', 'extract', 'instantiate', 'interpolate']


def operate(field, operation, value):
    if operation == 'inbound':
        return attempt(field.process, value, INBOUND, False)
    if operation == 'outbound':
        return attempt(field.process, value, OUTBOUND, False)
    if operation == 'serialize':
        return attempt(field.serialize, value)
    if operation == 'unserialize':
        return attempt(field.unserialize, value)
    if operation == 'extract':
        return attempt(field.extract, value)
    if operation == 'instantiate':
        return attempt(field.instantiate, value)
    return attempt(field.interpolate, value, {'p': 'q'})


def outcome(out):
    """A copy of what a call did."""
    if out.ok:
        return 'value', copy_of(out.value)
    if out.error:
        return 'structural', type(out.value).__name__, copy_of(out.value.serialize())
    return 'raised', type(out.value).__name__


SCHEMAS = ['structure', 'loose', 'defaults', 'polymorphic', 'map', 'keyed', 'sequence', 'unique', 'tuple',
    'union', 'emails', 'enumerations', 'deep', 'bad defaults']


@harness('C12', variants=SCHEMAS, covers=['value', 'refused'], quick=12000)
def single(S, schema):
    """each of seven operations, once, on each of fourteen schemas (nested lists and mappings, defaults,
    ignored nulls, key orders, unions, variants) with symbolic leaves, valid and not"""
    field = make(schema)
    before = state(field)
    described = attempt(field.describe)
    described = copy_of(described.value) if described.ok else type(described.value)
    value = sample(S, schema, 'v')
    kept = copy_of(value)
    operation = S.choice('operation', OPERATIONS)
    out = operate(field, operation, value)
    S.cover('value' if out.ok else 'refused')
    S.same(value, kept, 'the value passed in is unchanged')
    if isinstance(value, dict):
        S.same(list(value), list(kept), 'its order included')
    S.same(state(field), before, 'the field is unchanged')
    again = attempt(field.describe)
    S.same(again.value if again.ok else type(again.value), described, 'and so is its description')
    if out.ok and not (schema == 'union' and operation == 'extract'):
        # (extracting from a union hands the value through its first, scalar, member)
        given = containers(value, [])
        for c in containers(out.value, []):
            S.check(not any([c is g for g in given]), 'the result shares no container with the value')


@harness('C12', variants=SCHEMAS, covers=['value'], quick=20000)
def history(S, schema):
    """a call, its result emptied, another call on another value, and the first call again: on each of
    fourteen schemas, any two of seven operations"""
    field = make(schema)
    before = state(field)
    first = S.choice('first', OPERATIONS)
    second = S.choice('second', OPERATIONS)
    value = sample(S, schema, 'v')
    other = sample(S, schema, 'w') if schema in ('defaults', 'keyed', 'emails', 'map') else {
        'structure': {'a': [1], 'c': 2, 'b': {'k': 'v'}}, 'loose': {'c': {}}, 'polymorphic': {'type': 'x'},
        'sequence': [{}], 'unique': [[1], [1]], 'tuple': ([], {}, date(1, 1, 1)), 'union': {'k': [2]},
        'enumerations': {'p': 'x', 'r': 3}, 'bad defaults': {'g': {'k': {}}, 'e': 1}, 'deep': {'s': [{'k': {}}]}}[schema]
    out = operate(field, first, copy_of(value))
    expect = outcome(out)
    if out.ok:
        S.cover('value')
        for c in containers(out.value, []):
            if isinstance(c, list):
                c.append('spoiled')
            else:
                c.clear()
    operate(field, second, other)
    S.same(outcome(operate(field, first, value)), expect, 'the same call gives the same result')
    S.same(state(field), before, 'the field is unchanged')


@harness('C12', variants=['process', 'serialize', 'element'], covers=['default'])
def defaults(S, via):
    """structures whose absent members take defaults (lists, mappings, nested): two results of the same field
    share nothing, whatever is done to the first"""
    field = make('defaults')
    expect = {'a': [1, 2], 'b': {'x': [1]}, 'c': {'d': ['q'], 'e': 0}, 'f': ([3],), 'g': []}
    present = dict((k, v) for k, v in (('a', [S.int('a')]), ('b', {'y': []}), ('g', [{}])) if S.bool(k + '?'))
    if via == 'element':
        outer = Sequence(field)
        call = S.choice('call', CALLS[:2])
        run = lambda: outer.process([dict(present)], *call)[0]
    elif via == 'serialize':
        run = lambda: field.unserialize(copy_of(present))
    else:
        run = lambda: field.process(copy_of(present), INBOUND, False)
    S.cover('default')
    one = run()
    kept = copy_of(one)
    for c in containers(one, []):
        if isinstance(c, list):
            c.append('spoiled')
        else:
            c.clear()
    two = run()
    S.same(two, kept, 'a later result is unaffected')
    for k in expect:
        if k not in present:
            S.same(two[k], expect[k], 'and holds the default')
