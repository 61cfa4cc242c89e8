from hlib import *
from scheme.exceptions import CannotFilterError

# shapes: (kind, label, children); a name only says where the field sits
SHAPES = {
    'scalar': ('integer', 'i'),
    'structure': ('structure', 's', {'a': ('integer', 'a'), 'b': ('text', 'b'), 'c': ('date', 'c')}),
    'nested': ('structure', 's', {'a': ('structure', 't', {'x': ('integer', 'x'), 'y': ('text', 'y')}),
        'b': ('text', 'b')}),
    'deep': ('structure', 's', {'a': ('structure', 't', {'b': ('structure', 'u', {'c': ('integer', 'c')})})}),
    'empty': ('structure', 's', {'a': ('structure', 't', {}), 'b': ('text', 'b')}),
    'map': ('map', 'm', ('structure', 's', {'a': ('integer', 'a'), 'b': ('text', 'b')})),
    'sequence': ('sequence', 'q', ('structure', 's', {'a': ('integer', 'a'), 'b': ('text', 'b')})),
    'tuple': ('tuple', 't', [('structure', 's', {'a': ('integer', 'a')}), ('text', 'b')]),
    'containers': ('structure', 's', {'a': ('map', 'm', ('integer', 'i')), 'b': ('sequence', 'q', ('text', 't'))}),
    'maps': ('map', 'm', ('map', 'n', ('sequence', 'q', ('structure', 's', {'a': ('integer', 'a')})))),
    'union': ('structure', 's', {'a': ('union', 'u', [('integer', 'i'), ('text', 't')]), 'b': ('text', 'b')}),
    'polymorphic': ('polymorphic', 'p', {'x': {'a': ('integer', 'a'), 'b': ('text', 'b')}, 'y': {'c': ('date', 'c')}}),
    'variants': ('sequence', 'q', ('polymorphic', 'p', {'x': {'a': ('integer', 'a')}, 'y': {}})),
}
PLAINS = {'integer': Integer, 'text': Text, 'date': Date}
KEEP = {'structure': {'strict': False, 'key_order': 'c a b'}, 'sequence': {'min_length': 1}, 'map': {'description': 'd'},
    'tuple': {'notes': 'n'}, 'union': {'notes': 'n'}, 'polymorphic': {'strict': False}}


def attributes(S, label, names):
    """The attributes of one field: each absent or any of three values."""
    found = {}
    for name in names:
        if S.bool('%s has %s' % (label, name)):
            found[name] = S.int('%s %s' % (label, name), 0, 2)
    return found


def make(S, shape, names, given):
    kind, label = shape[0], shape[1]
    params = given[label] = attributes(S, label, names)
    params = dict(params, title=label)
    if kind in PLAINS:
        return PLAINS[kind](**params)
    params.update(KEEP[kind])
    inner = shape[2]
    if kind == 'structure':
        return Structure(dict((k, make(S, inner[k], names, given)) for k in inner), **params)
    if kind == 'polymorphic':
        return Structure(dict((i, dict((k, make(S, inner[i][k], names, given)) for k in inner[i])) for i in inner),
            polymorphic_on=Enumeration(sorted(inner), name='type', nonempty=True), **params)
    if kind == 'sequence':
        return Sequence(make(S, inner, names, given), **params)
    if kind == 'map':
        return Map(make(S, inner, names, given), **params)
    if kind == 'tuple':
        return Tuple([make(S, t, names, given) for t in inner], **params)
    return Union([make(S, t, names, given) for t in inner], **params)


def members(field):
    if isinstance(field, Structure):
        if field.polymorphic_on:
            return dict(((i, k), field.structure[i][k]) for i in field.structure for k in field.structure[i]
                if k != 'type')
        return dict(field.structure)
    if isinstance(field, Sequence):
        return {'item': field.item}
    if isinstance(field, Map):
        return {'value': field.value}
    if isinstance(field, Tuple):
        return dict(enumerate(field.values))
    return {}


def children(shape):
    if shape[0] == 'structure':
        return dict(shape[2])
    if shape[0] == 'polymorphic':
        return dict(((i, k), shape[2][i][k]) for i in shape[2] for k in shape[2][i])
    if shape[0] == 'sequence':
        return {'item': shape[2]}
    if shape[0] == 'map':
        return {'value': shape[2]}
    if shape[0] == 'tuple':
        return dict(enumerate(shape[2]))
    return {}


class Cannot(Exception):
    pass


def expect(shape, given, criteria, every):
    """None (excluded), True (untouched) or the kept members of a reduced field."""
    values = given[shape[1]]
    hits = [(values[n] if n in values else 0) == criteria[n] for n in criteria]
    if every:
        for h in hits:
            if not h:
                return None
    else:
        kept = False
        for h in hits:
            if h:
                kept = True
        if not kept:
            return None
    inner = children(shape)
    kept, touched = {}, False
    for key in inner:
        got = expect(inner[key], given, criteria, every)
        if got is None:
            if shape[0] not in ('structure', 'polymorphic'):
                raise Cannot()
            touched = True
        else:
            kept[key] = got
            if got is not True:
                touched = True
    return kept if touched else True


def still(S, field, shape, snap):
    """The original holds what it held."""
    now = members(field)
    S.check(list(now) == list(snap[1]) and field.title == snap[0], 'the original keeps its members')
    for key in now:
        S.check(now[key] is snap[1][key][0], 'each the same field')
        still(S, now[key], None, snap[1][key][1])


def snapshot(field):
    return field.title, dict((k, (f, snapshot(f))) for k, f in members(field).items())


def judge(S, got, original, expected, names):
    if expected is True:
        S.check(got is original, 'a field of which nothing is excluded is returned itself')
        return
    S.check(got is not original, 'a reduced field is another one')
    S.check(type(got) is type(original), 'of the same type')
    for name in ('title', 'strict', 'key_order', 'min_length', 'description', 'notes') + tuple(names):
        S.same(getattr(got, name), getattr(original, name), 'with the same attributes')
    now, before = members(got), members(original)
    S.same(list(now), list(expected), 'a reduced field has exactly its kept members, in order')
    for key in expected:
        judge(S, now[key], before[key], expected[key], names)
    if isinstance(got, Structure) and got.polymorphic_on:
        S.same(list(got.structure), list(original.structure), 'every variant remains')
        for i in got.structure:
            S.check(got.structure[i] is not original.structure[i], 'in a mapping of its own')
            S.check(got.structure[i]['type'].constant == i, 'with its discriminator')


WIDE_SHAPES = ('structure', 'nested', 'containers', 'union', 'polymorphic', 'maps')


def cases(tier):
    out = []
    for shape in sorted(SHAPES):
        out.append((shape, 1))
        if shape not in WIDE_SHAPES or tier == 'thorough':
            out.append((shape, 2))
    return out


@harness('C23', variants=cases, quick=40000, thorough=400000, covers=['returned'])
def filtering(S, case):
    """thirteen schemas of depth <= 4 with up to five fields; one or two criteria, each any of three values (0 is
    false, 1 is true), each field having any of the three or lacking the attribute; any or all demanded"""
    name, count = case
    names = ['one', 'two'][:count]
    given = {}
    field = make(S, SHAPES[name], names, given)
    if name == 'polymorphic' or name == 'variants':
        # the discriminator itself has none of the attributes
        given['type'] = {}
    criteria = dict((n, S.int('criterion ' + n, 0, 2)) for n in names)
    every = S.bool('every') if count > 1 or S.bool('given') else False
    before = snapshot(field)
    try:
        expected = expect(SHAPES[name], given, criteria, every)
    except Cannot:
        expected = Cannot
    got = attempt(field.filter, every, **criteria)
    S.cover('returned')
    still(S, field, SHAPES[name], before)
    if expected is Cannot:
        S.check(got.kind == 'raised' and isinstance(got.value, CannotFilterError),
            'a map, sequence or tuple without its elements cannot be filtered')
        return
    S.check(got.ok, 'otherwise filtering succeeds')
    if not got.ok:
        return
    if expected is None:
        S.check(got.value is None, 'an excluded field is dropped')
    elif expected is True and name in ('polymorphic', 'variants'):
        # the discriminator may have been excluded (and is kept all the same)
        if got.value is not field:
            whole = dict((k, True) for k in members(field))
            if name == 'polymorphic':
                judge(S, got.value, field, whole, names)
    else:
        judge(S, got.value, field, expected, names)


@harness('C23', covers=['kept', 'dropped'])
def parameters(S):
    """filtering by the fields' own parameters (required, nonnull, name, minimum), none or any demanded"""
    required, nonnull = S.bool('required'), S.bool('nonnull')
    low = S.int('low', -3, 3) if S.bool('has low') else None
    field = Structure({'a': Integer(required=required, nonnull=nonnull, minimum=low), 'b': Text(required=True)},
        required=True, nonnull=True)
    criteria, values = {}, {'required': required, 'nonnull': nonnull, 'minimum': False if low is None else low,
        'name': 'a'}
    if S.bool('by required'):
        criteria['required'] = True
    if S.bool('by nonnull'):
        criteria['nonnull'] = True
    if S.bool('by minimum'):
        criteria['minimum'] = S.int('minimum', -3, 3)
    if S.bool('by name'):
        criteria['name'] = S.text('name', 1, 1, LOWER)
    every = S.bool('every')
    leaf = field.structure['a']
    got = leaf.filter(every, **criteria)
    hits = [values[n] == criteria[n] for n in criteria]
    if not hits:
        kept = True
    elif every:
        kept = len([h for h in hits if h]) == len(hits)
    else:
        kept = len([h for h in hits if h]) > 0
    if kept:
        S.cover('kept')
        S.check(got is leaf, 'kept')
    else:
        S.cover('dropped')
        S.check(got is None, 'dropped')


@harness('C23', variants=['integer', 'structure', 'map', 'sequence', 'tuple', 'union'], quick=20000,
    covers=['passed', 'refused'])
def screening(S, kind):
    """every kind of field, up to four criteria out of attributes (extra ones, a text, a flag, a limit), each null,
    equal, different, or of an attribute the field lacks"""
    params = {}
    if S.bool('has one'):
        params['one'] = S.int('one', 0, 2)
    params['title'] = S.text('title', 1, 1, LOWER)
    if S.bool('has required'):
        params['required'] = True
    field = {'integer': lambda **p: Integer(**p), 'structure': lambda **p: Structure({'a': Integer()}, **p),
        'map': lambda **p: Map(Integer(), **p), 'sequence': lambda **p: Sequence(Integer(), **p),
        'tuple': lambda **p: Tuple([Integer()], **p), 'union': lambda **p: Union([Integer()], **p)}[kind](**params)
    criteria, passes = {}, True
    for name in ('one', 'title', 'required', 'lacking'):
        state = S.choice('criterion ' + name, ['none', 'null', 'value'])
        if state == 'null':
            criteria[name] = None
        elif state == 'value':
            if name == 'title':
                criteria[name] = S.text('given title', 1, 0, LOWER)
                if criteria[name] != params['title']:
                    passes = False
            elif name == 'required':
                criteria[name] = S.bool('given required')
                if criteria[name] != ('required' in params):
                    passes = False
            else:
                criteria[name] = S.int('given ' + name, 0, 2)
                if name not in params or params[name] != criteria[name]:
                    passes = False
    got = field.screen(**criteria)
    if passes:
        S.cover('passed')
        S.check(got is True, 'a field whose attributes equal every criterion passes')
    else:
        S.cover('refused')
        S.check(got is False, 'any other does not')
    # a screened field extracts, an excluded one does not
    if kind == 'integer' and criteria:
        number = S.int('number')
        out = attempt(field.extract, number, True, **criteria)
        if passes:
            S.check(out.ok and out.value == number, 'a field that passes extracts')
        else:
            S.check(out.kind == 'raised' and isinstance(out.value, FieldExcludedError), 'an excluded one refuses')
