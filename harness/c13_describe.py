from hlib import *
from fieldlib import *
import json


def common(S, kind, mode):
    """A field with the parameters that every type has."""
    p = {}
    what = S.choice('what', ['flags', 'texts', 'constant', 'default', 'aspects', 'keywords', 'nonempty'])
    if what == 'flags':
        p = {'nonnull': S.bool('nonnull'), 'ignore_null': S.bool('ignore_null'), 'required': S.bool('required')}
    elif what == 'texts':
        first = S.choice('first', ['name', 'title', 'notes', 'description'])
        for n in (first, {'name': 'notes', 'title': 'description', 'notes': 'title', 'description': 'name'}[first]):
            if n == first or S.bool('has ' + n):
                p[n] = string(S, n, mode)
    elif what in ('constant', 'default'):
        S.assume(kind in ('integer', 'text', 'token', 'boolean', 'float', 'enumeration', 'uuid', 'any'))
        p[what] = value_of(S, kind, what, mode)
    elif what == 'aspects':
        p['aspects'] = S.choice('aspects', [{}, {'a': 1, 'b': None}, {'a': 0, 'b': False, 'c': ''}])
    elif what == 'keywords':
        p['extra'] = S.bool('list') and [number(S, 'n', mode), {'m': string(S, 't', mode)}, (True, None)] \
            or Integer(minimum=number(S, 'inner', mode))
    else:
        p['nonempty'] = True
    return every_field(kind, **p)


def defaults(S, kind, mode):
    """A structure with a member that has a default in need of conversion."""
    day = lambda n: date(2024, 3, S.int(n, 1, 9))
    if kind == 'structure':
        f = Structure({'a': Date(), 'b': Integer()}, default=S.choice('empty', [0, 1]) and {} or {'a': day('a')})
    elif kind == 'polymorphic':
        f = Structure({'x': {'a': Date()}, 'y': {'b': Integer()}}, polymorphic_on='type',
            default={'type': 'x', 'a': day('a')} if S.bool('x') else {'type': 'y', 'b': number(S, 'b', mode)})
    elif kind == 'map':
        f = Map(Date(), default={'k': day('a')} if S.bool('one') else {})
    elif kind == 'keyed':
        f = Map(Integer(), key=Date(), default={day('a'): number(S, 'n', mode)})
    elif kind == 'sequence':
        f = Sequence(Date(), default=[day('a')] * S.pick('n', 3))
    elif kind == 'tuple':
        f = Tuple([Date(), Integer()], default=(day('a'), number(S, 'n', mode)))
    elif kind == 'nested':
        f = Map(Sequence(Tuple([Time(), Boolean()])), default={'k': [(time(12, S.int('t', 0, 59), 0), S.bool('b'))]})
    elif kind == 'union':
        f = Union([Integer(), Text()], default=number(S, 'n', mode) if S.bool('number') else string(S, 't', mode))
    return Structure({'k': f, 'z': Integer(default=3)})


def rebuilt(S, field, mode):
    """Field -> description -> field, checking what must hold of each."""
    verbose = mode == 'verbose'
    described = field.describe(verbose=verbose)
    S.check(is_native(described), 'a description is plain data')
    source = described
    if mode == 'JSON':
        source = json.loads(json.dumps(described))
        S.same(source, untupled(described), 'a description survives JSON')
    kept = copied(source)
    first = Field.reconstruct(source)
    second = Field.reconstruct(source)
    S.same(source, kept, 'reconstructing leaves the description alone')
    S.check(first is not second and first is not field, 'every reconstruction is a field of its own')
    S.check(type(first) is type(field) and type(second) is type(field), 'the rebuilt field is of the same type')
    S.same(untupled(first.describe(verbose=verbose)), untupled(described), 'the rebuilt field is described alike')
    S.same(field.describe(verbose=verbose), described, 'describing leaves the field as it was')
    return first if mode == 'brief' else second, S.b(mode == 'brief', True)


@harness('C13', variants=list(SIMPLE), quick=8000, covers=['accepted', 'refused'])
def parameters(S, kind):
    """Every scalar type with each parameter of its own absent or symbolic (limits: all integers, dates, times; lengths 0-2; floats, decimals and enumerations from a list), described briefly or verbosely, rebuilt directly or through JSON, then both fields given any value of two kinds or null in all four directions."""
    mode = S.choice('mode', MODES)
    field = own(S, kind, mode)
    other, judge = rebuilt(S, field, mode)
    if kind == 'surrogate':
        S.cover('accepted')
        S.cover('refused')
    if judge:
        alike(S, field, other, judged(S, kind), 'the rebuilt field')
    if kind in ('any', 'object', 'error', 'boolean', 'uuid'):
        S.cover('accepted')
        S.cover('refused')
    for name in ('minimum', 'maximum', 'min_length', 'max_length', 'strip', 'segments', 'ignored_values', 'utc', 'extended', 'multiple'):
        S.same(untupled(getattr(other, name)), untupled(getattr(field, name)), 'parameter ' + name)


@harness('C13', variants=list(NESTING), quick=12000, covers=['accepted', 'refused'])
def nested(S, kind):
    """Every nesting type over two members with symbolic limits, with its own parameters symbolic; both fields given symbolic values (right and wrong kinds, mappings and lists of 0-2) in all four directions."""
    mode = S.choice('mode', MODES)
    field = nesting(S, kind, mode)
    other, judge = rebuilt(S, field, mode)
    if judge:
        alike(S, field, other, filled(S, kind), 'the rebuilt field')
    S.same(other.strict, field.strict, 'parameter strict')
    S.same(untupled(other.required_keys), untupled(field.required_keys), 'parameter required_keys')
    if isinstance(field, Structure):
        S.same(other.key_order, field.key_order, 'parameter key_order')
        if field.polymorphic_on:
            S.same(sorted(other.structure), sorted(field.structure), 'identities')
            S.check(other.polymorphic_on.name == field.polymorphic_on.name, 'discriminator')


@harness('C13', variants=['integer', 'text', 'token', 'boolean', 'float', 'enumeration', 'uuid', 'any', 'decimal', 'date',
    'email', 'binary', 'structure', 'map', 'sequence', 'tuple', 'union', 'polymorphic'], quick=4000)
def shared(S, kind):
    """Every field type with the parameters all types share: flags, names and notes (texts of 0-1 any characters), symbolic constants and defaults (plain scalar types), extension aspects holding numbers, texts, lists and fields."""
    mode = S.choice('mode', MODES)
    field = common(S, kind, mode)
    other, judge = rebuilt(S, field, mode)
    for name in ('nonnull', 'ignore_null', 'required', 'name', 'title', 'notes', 'description', 'constant', 'default', 'a', 'b', 'c'):
        S.same(getattr(other, name), getattr(field, name), 'parameter ' + name)
    if isinstance(field.extra, Field):
        S.check(type(other.extra) is type(field.extra) and other.extra.minimum == field.extra.minimum, 'a field as aspect')
    else:
        S.same(untupled(other.extra), untupled(field.extra), 'aspects')
    if judge:
        value = S.choice('value', [None, 0])
        if value is not None and field.constant is not None:
            value = field.constant
        alike(S, field, other, value, 'the rebuilt field')


@harness('C13', variants=['structure', 'polymorphic', 'map', 'keyed', 'sequence', 'tuple', 'nested', 'union'], quick=4000)
def defaulted(S, kind):
    """A structure with a member of every nesting type whose default holds symbolic dates, times, integers and booleans: after rebuilding, an absent member takes the same default in all four directions."""
    mode = S.choice('mode', MODES)
    field = defaults(S, kind, mode)
    other, judge = rebuilt(S, field, mode)
    S.same(other.structure['k'].default, field.structure['k'].default, 'the rebuilt default')
    if judge:
        alike(S, field, other, {'z': 1}, 'the rebuilt field')
