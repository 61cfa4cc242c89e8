from hlib import *
from scheme.exceptions import CannotExtractError, FieldExcludedError
from scheme.element import Element

# shapes: (kind, label, children)
SHAPES = {
    'scalar': ('integer', 'i'),
    'flat': ('structure', 's', {'a': ('integer', 'a'), 'b': ('text', 'b')}),
    'wide': ('structure', 's', {'a': ('integer', 'a'), 'b': ('text', 'b'), 'c': ('integer', 'c'), 'd': ('text', 'd')}),
    'nested': ('structure', 's', {'m': ('structure', 't', {'x': ('integer', 'x')}), 'y': ('text', 'y')}),
    'deep': ('structure', 's', {'m': ('structure', 't', {'n': ('structure', 'u', {'x': ('integer', 'x')})})}),
    'sequence': ('sequence', 'q', ('structure', 's', {'x': ('integer', 'x')})),
    'map': ('map', 'm', ('structure', 's', {'x': ('integer', 'x')})),
    'member map': ('structure', 's', {'m': ('map', 'm', ('integer', 'i'))}),
    'member sequence': ('structure', 's', {'q': ('sequence', 'q', ('integer', 'i'))}),
    'tuple': ('tuple', 't', [('integer', 'a'), ('text', 'b')]),
    'tuples': ('sequence', 'q', ('tuple', 't', [('integer', 'a'), ('map', 'm', ('text', 'b'))])),
    'polymorphic': ('polymorphic', 'p', {'x': {'a': ('integer', 'a')}, 'y': {'a': ('text', 'd'), 'b': ('text', 'b')}}),
    'variants': ('map', 'm', ('polymorphic', 'p', {'x': {'a': ('integer', 'a')}, 'y': {}})),
}
PLAINS = {'integer': Integer, 'text': Text}


class Wrapped(object):
    def __init__(self, value):
        self.inner = value


class Bag(object):
    pass


def unwrap(field, subject):
    return subject.inner


def labels_of(shape):
    found = [shape[1]]
    if len(shape) > 2:
        inner = shape[2]
        if shape[0] == 'polymorphic':
            inner = [inner[i][k] for i in inner for k in inner[i]]
        elif isinstance(inner, dict):
            inner = list(inner.values())
        elif isinstance(inner, tuple):
            inner = [inner]
        for s in inner:
            found.extend(labels_of(s))
    return found


def make(shape, params):
    kind, label = shape[0], shape[1]
    given = params(label)
    if kind in PLAINS:
        return PLAINS[kind](**given)
    inner = shape[2]
    if kind == 'structure':
        return Structure(dict((k, make(inner[k], params)) for k in inner), **given)
    if kind == 'polymorphic':
        return Structure(dict((i, dict((k, make(inner[i][k], params)) for k in inner[i])) for i in inner),
            polymorphic_on=Enumeration(sorted(inner), name='type', nonempty=True, one=1), **given)
    if kind == 'sequence':
        return Sequence(make(inner, params), **given)
    if kind == 'map':
        return Map(make(inner, params), **given)
    return Tuple([make(s, params) for s in inner], **given)


EXCLUDED = ('excluded',)


def subject_of(S, shape, name, wrapped, shown, objects):
    """A subject for a shape and what extracting it gives."""
    kind, label = shape[0], shape[1]
    subject, expected = contents(S, shape, name, wrapped, shown, objects)
    if label in wrapped and subject is not None:
        subject = Wrapped(subject)
    if not shown(label):
        return subject, EXCLUDED
    return subject, expected


def contents(S, shape, name, wrapped, shown, objects):
    kind, label = shape[0], shape[1]
    if S.bool(name + ' is null'):
        return None, None
    if kind == 'integer':
        v = S.int(name)
        return v, v
    if kind == 'text':
        v = S.text(name, 1)
        return v, v
    inner = shape[2]
    if kind in ('structure', 'polymorphic'):
        subject, expected, members = {}, {}, inner
        if kind == 'polymorphic':
            identity = S.choice(name + ' type', sorted(inner))
            subject['type'] = expected['type'] = identity
            members = inner[identity]
        for key in members:
            if not S.bool('%s has %s' % (name, key)):
                continue
            v, e = subject_of(S, members[key], '%s.%s' % (name, key), wrapped, shown, objects)
            subject[key] = v
            if v is not None and e is not EXCLUDED:
                expected[key] = e
        subject['zz'] = 5
        if objects and S.bool(name + ' is object'):
            bag = Bag()
            for key in subject:
                setattr(bag, key, subject[key])
            subject = bag
        return subject, expected
    if kind == 'tuple':
        pairs = [subject_of(S, s, '%s[%d]' % (name, i), wrapped, shown, objects) for i, s in enumerate(inner)]
        return tuple([v for v, e in pairs]), tuple([e for v, e in pairs if e is not EXCLUDED])
    count = S.pick(name + '#', 3 if inner[0] in PLAINS else 2)
    pairs = [subject_of(S, inner, '%s[%d]' % (name, i), wrapped, shown, objects) for i in range(count)]
    if kind == 'sequence':
        return [v for v, e in pairs], [e for v, e in pairs if e is not EXCLUDED]
    keys = ['k', ''][:count]
    return (dict(zip(keys, [v for v, e in pairs])),
        dict((k, e) for k, (v, e) in zip(keys, pairs) if e is not EXCLUDED))


@harness('C16', variants=lambda tier: [(s, m) for s in sorted(SHAPES) for m in ('plain', 'extractors', 'screened',
    'objects') if tier != 'quick' or (s, m) != ('wide', 'screened')],
    covers=['extracted'], quick=20000, thorough=200000)
def extraction(S, case):
    """thirteen schemas of depth <= 4 over any numbers and texts: every pattern of absent, null and undeclared members,
    elements <= 2; extractors on any of the fields; a screening attribute that each field has, has otherwise or lacks;
    objects with attributes in place of the mappings at any level"""
    name, mode = case
    shape = SHAPES[name]
    labels = labels_of(shape)
    wrapped, marks = [], {}
    if mode == 'extractors':
        wrapped = [l for l in labels if S.bool('extractor on ' + l)]
    elif mode == 'screened':
        for l in labels:
            if S.bool(l + ' has one'):
                marks[l] = S.int(l + ' one', 0, 1)
    criterion = {'one': 1} if mode == 'screened' else {}

    def params(label):
        given = {'extractor': unwrap} if label in wrapped else {}
        if label in marks:
            given['one'] = marks[label]
        return given

    def shown(label):
        return mode != 'screened' or label in marks and marks[label] == 1

    field = make(shape, params)
    subject, expected = subject_of(S, shape, 'v', wrapped, shown, mode == 'objects')
    strict = mode != 'objects'
    got = attempt(field.extract, subject, strict, **criterion)
    S.cover('extracted')
    if expected is EXCLUDED:
        S.check(got.kind == 'raised' and isinstance(got.value, FieldExcludedError), 'an excluded field extracts nothing')
        return
    S.check(got.ok, 'anything of the shape of the schema can be extracted')
    S.same(got.value, expected, 'the declared non-null members are extracted, each by its field')
    if isinstance(subject, (dict, list)):
        S.check(got.value is not subject, 'into a new value')


@harness('C16', variants=['structure', 'map', 'sequence', 'tuple', 'object', 'failing', 'polymorphic'], covers=['refused'])
def misfits(S, kind):
    """values that do not have the shape of the schema, at the top or nested"""
    wrong = S.choice('wrong', [5, 'text', True, {'a': 1}, [1], (1, 2), []])
    strict = S.bool('strict')

    def bad(field, subject):
        raise KeyError(subject)

    field, fits = {
        'structure': lambda: (Structure({'a': Integer()}), isinstance(wrong, dict) or not strict),
        'map': lambda: (Map(Integer()), isinstance(wrong, dict)),
        'sequence': lambda: (Sequence(Integer()), isinstance(wrong, (list, tuple))),
        'tuple': lambda: (Tuple([Integer(), Integer()]), isinstance(wrong, tuple)),
        'object': lambda: (Structure({'zz': Integer()}), isinstance(wrong, dict) or not strict),
        'failing': lambda: (Structure({'a': Integer()}, extractor=bad), False),
        'polymorphic': lambda: (Structure({'x': {}}, polymorphic_on='type'), None),
    }[kind]()
    nested = S.bool('nested')
    subject = wrong
    if nested:
        field, subject = Structure({'m': field}), {'m': wrong}
    got = attempt(field.extract, subject, strict)
    if fits is None:
        S.cover('refused')
        S.check(got.kind == 'raised', 'no variant without a discriminator')
    elif fits:
        S.check(got.ok, 'what fits is extracted')
    else:
        S.cover('refused')
        S.check(got.kind == 'raised' and isinstance(got.value, CannotExtractError), 'what does not is refused')


# -- instantiation ------------------------------------------------------------------------------------

class Made(object):
    def __init__(self, label, value, key):
        self.label = label
        self.value = value
        self.key = key


def instantiable(S, shape, name, key, makers, events):
    """A value for a shape; the instance expected of it; the calls expected, innermost first."""
    kind, label = shape[0], shape[1]
    if S.bool(name + ' is null'):
        return None, None
    if kind == 'integer':
        value = instance = S.int(name)
    elif kind == 'text':
        value = instance = S.text(name, 1)
    elif kind in ('structure', 'polymorphic'):
        value, instance, members = {}, {}, shape[2]
        if kind == 'polymorphic':
            identity = S.choice(name + ' type', sorted(members))
            value['type'] = instance['type'] = identity
            members = members[identity]
        for k in members:
            if S.bool('%s has %s' % (name, k)):
                value[k], instance[k] = instantiable(S, members[k], '%s.%s' % (name, k), k, makers, events)
    elif kind == 'tuple':
        pairs = [instantiable(S, s, '%s[%d]' % (name, i), None, makers, events) for i, s in enumerate(shape[2])]
        value, instance = tuple([v for v, _ in pairs]), tuple([i for _, i in pairs])
    else:
        count = S.pick(name + '#', 3 if shape[2][0] in PLAINS else 2)
        keys = ['k', ''][:count] if kind == 'map' else [None] * count
        pairs = [instantiable(S, shape[2], '%s[%d]' % (name, i), keys[i], makers, events) for i in range(count)]
        value, instance = [v for v, _ in pairs], [i for _, i in pairs]
        if kind == 'map':
            value, instance = dict(zip(keys, value)), dict(zip(keys, instance))
    if label in makers:
        events.append((label, instance, key))
        return value, Made(label, instance, key)
    return value, instance


def alike(S, got, expected):
    if isinstance(expected, Made):
        S.check(isinstance(got, Made), 'a field with an instantiator gives what that returns')
        S.check(got.label == expected.label and got.key == expected.key, 'its own, with the key of the value')
        alike(S, got.value, expected.value)
    elif isinstance(expected, dict):
        S.check(isinstance(got, dict) and list(got) == list(expected), 'mappings keep their keys')
        for k in expected:
            alike(S, got[k], expected[k])
    elif isinstance(expected, (list, tuple)):
        S.check(type(got) is type(expected) and len(got) == len(expected), 'sequences and tuples their items')
        for g, e in zip(got, expected):
            alike(S, g, e)
    else:
        S.same(got, expected, 'any other value is kept')


@harness('C16', variants=sorted(SHAPES), covers=['instantiated'], quick=30000, thorough=200000)
def instantiation(S, name):
    """the same schemas with instantiators on any of the fields, every presence pattern and value"""
    shape = SHAPES[name]
    makers = [l for l in labels_of(shape) if S.bool('instantiator on ' + l)]
    calls, events = [], []

    def maker(label):
        def instantiator(field, value, key):
            made = Made(label, value, key)
            calls.append((label, made))
            return made
        return instantiator

    field = make(shape, lambda l: {'instantiator': maker(l)} if l in makers else {})
    key = S.choice('key', [None, 'outer'])
    value, expected = instantiable(S, shape, 'v', key, makers, events)
    got = attempt(field.instantiate, value, key)
    S.cover('instantiated')
    S.check(got.ok, 'a valid value can be instantiated')
    alike(S, got.value, expected)
    S.check([l for l, _ in calls] == [l for l, _, _ in events], 'each instantiator is called once for its value, '
        'innermost first')


# -- elements -----------------------------------------------------------------------------------------

@harness('C16', variants=['serialized', 'direct'], covers=['element'], quick=20000)
def element(S, how):
    """an element of five members (required, defaulted to a number, to a list and to false, a date out of two), any values,
    absent and null members, built from serialized data or from attributes"""
    default = S.int('default')

    class Example(Element):
        schema = Structure({'name': Text(required=True, strip=False), 'count': Integer(default=default),
            'tags': Sequence(Text(strip=False), default=['x']), 'flag': Boolean(default=False), 'day': Date()})

    data, expected = {}, {}
    data['name'] = expected['name'] = S.text('name', 2)
    defaults = {'count': default, 'tags': ['x'], 'flag': False, 'day': None}
    if how == 'direct':
        native = dict(data)
    for key in ('count', 'tags', 'flag', 'day'):
        state = S.choice('state ' + key, ['absent', 'null', 'given'])
        if state == 'absent':
            value = defaults[key]
        elif state == 'null':
            value = data[key] = None
        elif key == 'day':
            value = S.choice('day', [date(2000, 2, 29), date(999, 12, 31)])
            data[key] = value.isoformat()
        else:
            value = data[key] = {'count': lambda: S.int('count'), 'flag': lambda: S.bool('flag'),
                'tags': lambda: [S.text('tag%d' % i, 1) for i in range(S.pick('tags', 3))]}[key]()
        expected[key] = value
        if how == 'direct' and state != 'absent':
            native[key] = value
    if how == 'serialized':
        got = attempt(Example.unserialize, data)
    else:
        got = attempt(Example, **native)
    S.check(got.ok and type(got.value) is Example, 'an element is built')
    instance = got.value
    S.cover('element')
    for key in expected:
        S.same(getattr(instance, key), expected[key], 'its attributes are the values given, or the declared defaults')
    wire = dict((k, data[k] if k in data else defaults[k]) for k in expected if expected[k] is not None)
    back = attempt(instance.serialize)
    S.check(back.ok, 'an element can be serialized')
    S.same(dict(back.value), wire, 'to the data of its non-null attributes')
    # elements do not share what they hold
    other = Example(name='other')
    other.tags.append('y')
    S.same(Example(name='third').tags, ['x'], 'changing an element does not change the next')
    S.same(instance.tags, expected['tags'], 'or another')


@harness('C16', covers=['alpha', 'beta', 'gamma'], quick=20000)
def polymorphic_element(S):
    """a polymorphic element with two implementing classes and one variant without, any values and presence"""
    class Example(Element):
        schema = Structure({'alpha': {'a': Integer(default=4)}, 'beta': {'a': Text(strip=False), 'b': Integer()},
            'gamma': {'c': Boolean()}}, nonempty=True, polymorphic_on='type')

    class Alpha(Example):
        polymorphic_identity = 'alpha'

    class Beta(Example):
        polymorphic_identity = 'beta'

    identity = S.choice('type', ['alpha', 'beta', 'gamma'])
    cls = {'alpha': Alpha, 'beta': Beta, 'gamma': Example}[identity]
    makers = {'alpha': {'a': lambda: S.int('a')}, 'beta': {'a': lambda: S.text('text', 1), 'b': lambda: S.int('b')},
        'gamma': {'c': lambda: S.bool('c')}}[identity]
    data = {'type': identity}
    for key in makers:
        if S.bool('has ' + key):
            data[key] = makers[key]()
    attributes = dict((k, data.get(k)) for k in makers)
    if identity == 'alpha' and 'a' not in data:
        attributes['a'] = 4
    S.cover(identity)
    how = S.choice('how', ['base', 'direct', 'list'])
    if how == 'base':
        got = attempt(Example.unserialize, data)
    elif how == 'direct':
        got = attempt(cls, **data)
    else:
        outer = Sequence(Example.schema)
        got = attempt(lambda: outer.instantiate(outer.unserialize([data]))[0])
    S.check(got.ok and type(got.value) is cls, 'an element of the class of its variant is built')
    S.check(got.value.type == identity, 'with its discriminator')
    for key in attributes:
        S.same(getattr(got.value, key), attributes[key], 'and the attributes of its variant')
    for key in ('a', 'b', 'c'):
        if key not in attributes:
            S.check(not hasattr(got.value, key), 'and no others')
    expected = dict((k, attributes[k]) for k in attributes if attributes[k] is not None)
    expected['type'] = identity
    if how == 'list':
        back = attempt(lambda: outer.serialize(outer.extract([got.value]))[0])
    else:
        back = attempt(got.value.serialize)
    S.check(back.ok, 'it can be serialized')
    S.same(dict(back.value), expected, 'to the same data')


@harness('C16', variants=['map', 'structure', 'sequence', 'nested'], covers=['held'], quick=20000)
def value_elements(S, place):
    """value elements (with a key attribute) and structure elements as members of another element's map, structure,
    sequence and map of sequences; <= 2 elements of any value"""
    class Item(Element):
        schema = Integer(name='value', nonnull=True)
        key_attr = 'key'

    class Pair(Element):
        schema = Structure({'left': Integer(), 'right': Text(strip=False)})
        key_attr = 'key'

    kind = S.choice('element', ['value', 'structure'])
    cls = Item if kind == 'value' else Pair

    class Outer(Element):
        schema = Structure({'items': {'map': lambda: Map(cls.schema), 'structure': lambda: Structure(
            {'k': cls.schema, 'l': cls.schema}), 'sequence': lambda: Sequence(cls.schema),
            'nested': lambda: Map(Sequence(cls.schema))}[place]()})

    def datum(name):
        if kind == 'value':
            return S.int(name)
        value = {}
        if S.bool(name + ' has left'):
            value['left'] = S.int(name + ' left')
        if S.bool(name + ' has right'):
            value['right'] = S.text(name + ' right', 1)
        return value

    count = S.pick('count', 3)
    data = [datum('v%d' % i) for i in range(count)]
    keys = ['k', 'l'][:count]
    if place == 'sequence':
        items = data
    elif place == 'nested':
        items = {'k': data}
    else:
        items = dict(zip(keys, data))
    got = attempt(Outer.unserialize, {'items': items})
    S.check(got.ok and type(got.value) is Outer, 'an element holding elements is built')
    held = got.value.items
    if place == 'nested':
        held = held['k']
    if isinstance(held, dict):
        S.check(list(held) == keys, 'under the same keys')
        held = [held[k] for k in keys]
    S.check(len(held) == count, 'one for each')
    S.cover('held')
    for i, (instance, v) in enumerate(zip(held, data)):
        S.check(type(instance) is cls, 'of the class of the schema')
        if place in ('map', 'structure'):
            S.check(instance.key == keys[i], 'that knows its key')
        if kind == 'value':
            S.check(instance.value == v, 'and its value')
        else:
            S.check(instance.left == v.get('left') and instance.right == v.get('right'), 'and its members')
    back = attempt(got.value.serialize)
    S.check(back.ok, 'and can be serialized')
    S.same(back.value, {'items': items}, 'to the same data')
