from hlib import *

POSITIONS = ['structure', 'ordered', 'polymorphic', 'map', 'sequence', 'tuple', 'union', 'nested', 'twice',
    'union-last', 'loose', 'deep-tuple', 'tuple-first', 'tuple-ends', 'members', 'variants', 'union-ends', 'namesakes', 'common']


def make(position, child):
    if position == 'structure':
        return Structure({'a': Integer(), 'u': child, 'z': Text()})
    if position == 'ordered':
        return Structure({'a': Integer(), 'u': child}, key_order='u a')
    if position == 'loose':
        return Structure({'s': Structure({'u': child}, strict=False)}, strict=False)
    if position == 'polymorphic':
        return Structure({'x': {'u': child}, 'y': {'a': Integer()}}, polymorphic_on='t')
    if position == 'map':
        return Map(child, required_keys='k')
    if position == 'sequence':
        return Sequence(child, max_length=2)
    if position == 'tuple':
        return Tuple([Integer(), child])
    if position == 'union':
        return Union([Boolean(), child, Text()])
    if position == 'union-last':
        return Union([Text(), Date(), child])
    if position == 'nested':
        return Structure({'s': Sequence(Map(child)), 'a': Integer(default=4)})
    if position == 'twice':
        return Structure({'u': child, 's': Sequence(child)})
    if position == 'tuple-first':
        return Tuple([child, Integer(), Text()])
    if position == 'tuple-ends':
        return Tuple([child, Text(), child, Map(Integer()), child])
    if position == 'members':
        return Structure({'u': child, 'v': child, 'w': Integer()})
    if position == 'variants':
        return Structure({'x': {'u': child, 'v': child}, 'y': {'u': child}}, polymorphic_on='t')
    if position == 'namesakes':
        return Structure({'x': {'u': child}, 'y': {'u': Boolean()}, 'z': {'u': Text(), 'v': child}}, polymorphic_on='t')
    if position == 'common':
        return Structure({'x': {'a': Boolean()}, '*': {'u': child}}, polymorphic_on='t')
    if position == 'union-ends':
        return Union([child, Boolean(), child, Binary()])
    if position == 'deep-tuple':
        return Sequence(Tuple([child, Map(child)]))
    raise ValueError(position)


def wrap(S, position, v):
    """A value whose placeholder positions hold v, and whether it reaches them."""
    if position == 'structure':
        return {'a': 1, 'u': v, 'z': 'q'}, True
    if position == 'ordered':
        return {'a': 1, 'u': v}, True
    if position == 'loose':
        return {'s': {'u': v, 'w': 1}}, True
    if position == 'polymorphic':
        if S.bool('other variant'):
            return {'t': 'y', 'a': 2}, False
        return {'t': 'x', 'u': v}, True
    if position == 'map':
        return {'k': v}, True
    if position == 'sequence':
        n = S.pick('n', 3)
        return [v] * n, n > 0
    if position == 'tuple':
        return (1, v), True
    if position == 'union':
        if S.bool('boolean'):
            return True, False
        return v, v is not None
    if position == 'union-last':
        if S.bool('text'):
            return 'q', False
        return v, v is not None and not isinstance(v, (str, date))
    if position == 'nested':
        how = S.choice('how', ['full', 'no items', 'no keys', 'absent'])
        if how == 'full':
            return {'s': [{}, {'k': v}]}, True
        return {'no items': {'s': []}, 'no keys': {'s': [{}]}, 'absent': {}}[how], False
    if position == 'twice':
        return {'u': v, 's': [v]}, True
    if position == 'tuple-first':
        return (v, 1, 'q'), True
    if position == 'tuple-ends':
        return (v, 'q', v, {}, v), True
    if position == 'members':
        return {'u': v, 'v': v, 'w': 2}, True
    if position == 'variants':
        return ({'t': 'x', 'u': v, 'v': v} if S.bool('first variant') else {'t': 'y', 'u': v}), True
    if position == 'namesakes':
        how = S.choice('variant', ['x', 'y', 'z'])
        return {'x': {'t': 'x', 'u': v}, 'y': {'t': 'y', 'u': True}, 'z': {'t': 'z', 'u': 'q', 'v': v}}[how], how != 'y'
    if position == 'common':
        return {'t': 'x', 'a': False, 'u': v}, True
    if position == 'union-ends':
        how = S.choice('how', ['value', 'boolean', 'binary'])
        return {'value': v, 'boolean': False, 'binary': b'q'}[how], how != 'value' or v is not None
    return [(v, {'k': v})], True


FIELDS_27 = ['integer', 'structure', 'sequence', 'date', 'default', 'required', 'map']


def definition(kind):
    if kind == 'integer':
        return Integer(minimum=0, maximum=10)
    if kind == 'structure':
        return Structure({'p': Integer(required=True), 'q': Text(default='d')})
    if kind == 'sequence':
        return Sequence(Integer(), max_length=1)
    if kind == 'date':
        return Date(minimum=date(2000, 1, 1))
    if kind == 'default':
        return Integer(default=3, nonnull=True)
    if kind == 'map':
        return Map(Sequence(Integer()))
    return Integer(required=True, name='given')


def sample(S, kind):
    if S.bool('null'):
        return None
    if kind in ('integer', 'default', 'required'):
        return S.int('v') if S.bool('integer') else 'bad'
    if kind == 'structure':
        return dict((k, v) for k, v in (('p', S.int('p')), ('q', 'x'), ('r', 1)) if S.bool(k + '?'))
    if kind == 'sequence':
        return [S.int('v%d' % i) for i in range(S.pick('items', 3))]
    if kind == 'map':
        return {'m': [S.int('v')]} if S.bool('good') else {'m': 3}
    return date(S.int('year', 1, 9999), 1, 2) if S.bool('date') else 3


OPERATIONS = ['inbound', 'outbound', 'serialize', 'unserialize', 'extract', 'instantiate']


def operate(field, operation, value):
    if operation == 'inbound':
        return attempt(field.process, value, INBOUND, False)
    if operation == 'outbound':
        return attempt(field.process, value, OUTBOUND, False)
    if operation == 'serialize':
        return attempt(field.serialize, value)
    if operation == 'unserialize':
        return attempt(field.unserialize, value)
    if operation == 'extract':
        return attempt(field.extract, value)
    return attempt(field.instantiate, value)


def tokens(e):
    """The failures of an error, by place (messages name the field, whose name depends on its first place)."""
    if e.structure is None:
        return [x['token'] for x in e.errors]
    items = e.structure.items() if isinstance(e.structure, dict) else enumerate(e.structure)
    return dict((k, tokens(v) if isinstance(v, StructuralError) else None) for k, v in items)


def count(e):
    if e.structure is None:
        return len(e.errors)
    items = e.structure.values() if isinstance(e.structure, dict) else e.structure
    return sum([count(v) for v in items if isinstance(v, StructuralError)])


def agree(S, out, expect):
    S.check(out.kind == expect.kind, 'the same kind of outcome')
    if expect.ok:
        S.cover('value')
        S.same(out.value, expect.value, 'the same value')
    elif expect.error:
        S.cover('refused')
        S.same(tokens(out.value), tokens(expect.value), 'the same errors')
    else:
        S.check(type(out.value) is type(expect.value), 'the same exception')


WHEN = ['given', 'defined', 'defined after use', 'cloned before', 'cloned after']


@harness('C27', variants=[(p, k) for p in POSITIONS for k in FIELDS_27], covers=['value'], quick=8000)
def as_if_from_the_start(S, variant):
    """placeholders in nineteen positions (structures, variants, maps, sequences, tuples, unions, nested, several at once)
    for seven fields, given at construction, defined later, after being used, or around a clone: six operations
    on symbolic values, present or not, behave as with the field itself"""
    position, kind = variant
    value, _ = wrap(S, position, sample(S, kind))
    operation = S.choice('operation', OPERATIONS)
    if position.startswith('union') and operation == 'instantiate':
        S.assume(False)
    expect = operate(make(position, definition(kind)), operation, value)
    when = S.choice('when', WHEN)
    if when == 'given':
        field = make(position, Undefined(definition(kind)))
    else:
        u = Undefined()
        field = make(position, u)
        if when == 'defined after use':
            operate(field, operation, value)
        if when == 'cloned before':
            field = field.clone()
        u.define(definition(kind))
        if when == 'cloned after':
            field = field.clone()
    agree(S, operate(field, operation, value), expect)


@harness('C27', variants=[(p, k) for p in POSITIONS for k in ('integer', 'structure')], covers=['undefined'],
    quick=8000)
def until_defined(S, variant):
    """the same positions before the placeholder is defined: six operations reaching it raise an undefined-field
    error and nothing else, values that do not reach it are processed as usual"""
    position, kind = variant
    value, reaches = wrap(S, position, sample(S, kind))
    operation = S.choice('operation', OPERATIONS)
    if position.startswith('union') and operation in ('instantiate', 'extract'):
        S.assume(False)
    if operation == 'extract' and value is not None and not reached_by_extract(position, value):
        reaches = False
    field = make(position, Undefined())
    out = operate(field, operation, value)
    if reaches:
        S.cover('undefined')
        S.check(out.kind == 'raised' and isinstance(out.value, UndefinedFieldError),
            'an undefined-field error')
    else:
        agree(S, out, operate(make(position, definition(kind)), operation, value))


def reached_by_extract(position, value):
    """Extraction skips null members of structures."""
    if position in ('structure', 'ordered'):
        return value['u'] is not None
    if position == 'loose':
        return value['s']['u'] is not None
    if position == 'namesakes':
        return value.get('v' if value['t'] == 'z' else 'u') is not None
    if position in ('polymorphic', 'members', 'variants', 'common'):
        return value.get('u') is not None
    if position == 'twice':
        return True
    return True


@harness('C27', covers=['undefined', 'normal'])
def lacking(S):
    """structures whose value lacks the undefined member, whole or partial, alone or nested: partial processing
    works, anything else is an undefined-field error"""
    field = Structure({'a': Integer(), 'u': Undefined()}, strict=S.bool('strict'))
    value = {'a': S.int('a')} if S.bool('a?') else {}
    phase, serialized = S.choice('call', CALLS)
    if S.bool('partial'):
        S.cover('normal')
        out = attempt(field.process, value, phase, serialized, None, True)
        S.check(out.ok, 'partial processing does not reach the member')
        S.same(out.value, value, 'and keeps the rest')
        return
    S.cover('undefined')
    place = S.choice('place', PLACES)
    outer, into, _ = placed(S, field, place)
    out = attempt(outer.process, into(value), phase, serialized)
    S.check(out.kind == 'raised' and isinstance(out.value, UndefinedFieldError), 'an undefined-field error')


RECURSIVE = ['structure', 'sequence', 'map', 'tuple', 'union', 'polymorphic', 'list']


@harness('C27', variants=RECURSIVE, covers=['value', 'refused'])
def recursive(S, shape):
    """schemas that contain themselves: values nested to depth 3 with symbolic leaves are processed level by
    level, an invalid leaf at any depth is refused at its place"""
    u = Undefined()
    if shape == 'structure':
        field = Structure({'v': Integer(minimum=0), 'c': u})
    elif shape == 'list':
        field = Structure({'v': Integer(minimum=0), 'c': Sequence(u)})
    elif shape == 'sequence':
        field = Sequence(Union([Integer(minimum=0), u]))
    elif shape == 'map':
        field = Structure({'v': Integer(minimum=0), 'c': Map(u)})
    elif shape == 'tuple':
        field = Tuple([Integer(minimum=0), u])
    elif shape == 'union':
        field = Union([Integer(minimum=0), Map(u)])
    else:
        field = Structure({'n': {'v': Integer(minimum=0), 'c': u}, 'l': {'v': Integer(minimum=0)}},
            polymorphic_on='t')
    u.define(field)
    depth = 1 + S.pick('depth', 3)
    leaves = [S.int('v%d' % i) for i in range(depth)]
    value = None
    for i in range(depth):
        v, last = leaves[depth - 1 - i], i == 0
        if shape == 'structure':
            value = {'v': v} if last else {'v': v, 'c': value}
        elif shape == 'list':
            value = {'v': v, 'c': [] if last else [value]}
        elif shape == 'sequence':
            value = [v] if last else [v, value]
        elif shape == 'map':
            value = {'v': v, 'c': {} if last else {'k': value}}
        elif shape == 'tuple':
            value = (v, value)
        elif shape == 'union':
            value = v if last else {'k': value}
        else:
            value = {'t': 'l', 'v': v} if last else {'t': 'n', 'v': v, 'c': value}
    if shape == 'union':
        leaves = leaves[-1:]
    phase, serialized = S.choice('call', CALLS)
    out = attempt(field.process, value, phase, serialized)
    if all([v >= 0 for v in leaves]):
        S.cover('value')
        S.check(out.ok, 'accepted')
        S.same(out.value, value, 'and kept')
    else:
        S.cover('refused')
        S.check(out.error, 'refused')
        S.check(count(out.value) == len([v for v in leaves if v < 0]),
            'with one failure for each bad leaf')


@harness('C27', covers=['value'])
def chained(S):
    """placeholders whose definitions hold further placeholders, defined in either order, shared by two schemas"""
    first, second = Undefined(), Undefined()
    field = Structure({'f': first, 's': Sequence(second)})
    other = Map(second)
    inner = Structure({'x': second, 'y': Integer()})
    if S.bool('order'):
        first.define(inner)
        second.define(Integer(minimum=0))
    else:
        second.define(Integer(minimum=0))
        first.define(inner)
    reference = Structure({'f': Structure({'x': Integer(minimum=0), 'y': Integer()}),
        's': Sequence(Integer(minimum=0))})
    value = {'f': {'x': S.int('x'), 'y': S.choice('y', [1, 'bad'])}, 's': [S.int('z')]}
    call = S.choice('call', CALLS)
    agree(S, attempt(field.process, value, *call), attempt(reference.process, value, *call))
    value = {'k': S.int('k')}
    agree(S, attempt(other.process, value, *call), attempt(Map(Integer(minimum=0)).process, value, *call))
