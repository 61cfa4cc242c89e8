import json
from hlib import *

# -- schemas in which every element can fail on its own; a failing element and its expected token -------
#
#   'leaf'   Integer(minimum=0): missing type -> invalid, negative -> minimum, null -> nonnull
#   ('structure', [(key, spec)...])  ('map', spec)  ('sequence', spec)  ('tuple', [spec...])

LEAF = {'good': (5, None), 'invalid': ('x', 'invalid'), 'minimum': (-1, 'minimum'), 'nonnull': (None, 'nonnull')}
MESSAGES = {'invalid': ('invalid value', '%s must be an integer'),
    'minimum': ('minimum value', '%s must be greater then or equal to 0'),
    'nonnull': ('null value', '%s must be a non-null value'),
    'unknown': ('unknown field', "%s includes an unknown field '%s'"),
    'required': ('required field', "%s is missing required field '%s'")}


def field_for(spec, name=None):
    if spec == 'leaf':
        return Integer(minimum=0, nonnull=True, name=name)
    kind = spec[0]
    if kind == 'structure':
        return Structure(dict((k, field_for(s)) for k, s in spec[1]), name=name)
    if kind == 'map':
        return Map(field_for(spec[1]), name=name)
    if kind == 'sequence':
        return Sequence(field_for(spec[1]), name=name)
    return Tuple([field_for(s) for s in spec[1]], name=name)


def case(S, spec, name, ways, size, path, owner):
    """(value, expected): expected is None when all is well, or a list of (token, title, message, path)
    for a leaf, or a dict/list of expectations."""
    if spec == 'leaf':
        how = S.choice(name, ways)
        value, token = LEAF[how]
        if how == 'minimum':
            value = S.int(name + '.negative', -9, -1)
        if token is None:
            return S.int(name + '.value', 0, 9), None
        title, message = MESSAGES[token]
        return value, [(token, title, message % (owner or 'unknown-field'), path)]
    kind = spec[0]
    if kind == 'structure':
        value, errors = {}, {}
        for k, s in spec[1]:
            value[k], e = case(S, s, name + k, ways, size, path + '.' + k, k)
            if e is not None:
                errors[k] = e
    elif kind == 'map':
        value, errors = {}, {}
        for k in ['p', 'q', 'r'][:S.pick(name + '#', size + 1)]:
            value[k], e = case(S, spec[1], name + k, ways, size, path + '[' + k + ']', None)
            if e is not None:
                errors[k] = e
    else:
        specs = spec[1] if kind == 'tuple' else [spec[1]] * S.pick(name + '#', size + 1)
        value, errors = [], []
        for i, s in enumerate(specs):
            v, e = case(S, s, name + str(i), ways, size, path + '[%d]' % i, None)
            value.append(v)
            errors.append(e)
        if not [e for e in errors if e is not None]:
            errors = None
        if kind == 'tuple':
            value = tuple(value)
    return value, errors or None


def flat(expected):
    if expected is None:
        return []
    if isinstance(expected, list) and expected and isinstance(expected[0], tuple):
        return list(expected)
    out = []
    for e in (expected.values() if isinstance(expected, dict) else expected):
        out.extend(flat(e))
    return out


def shape(expected):
    """What the serialized error must be."""
    if expected is None:
        return None
    if isinstance(expected, list) and expected and isinstance(expected[0], tuple):
        return [{'token': t, 'title': title, 'message': message} for t, title, message, path in expected]
    if isinstance(expected, dict):
        return dict((k, shape(v)) for k, v in expected.items())
    return [shape(v) for v in expected]


def judge(S, e, expected, label=''):
    """The error tree holds exactly the expected errors at their places."""
    if isinstance(expected, list) and expected and isinstance(expected[0], tuple):
        S.check(isinstance(e, ValidationError), label + 'an error stands at the failing element')
        S.check(e.structure is None, label + 'it is an error of the element itself')
        S.check([d['token'] for d in e.errors] == [t[0] for t in expected],
            label + 'with the token of the element')
        return
    S.check(not e.errors, label + 'no error of its own')
    if isinstance(expected, dict):
        failing = [k for k in e.structure if isinstance(e.structure[k], StructuralError)]
        S.same(sorted(failing), sorted(expected), label + 'exactly the failing keys hold errors')
        for k in expected:
            judge(S, e.structure[k], expected[k], label)
    else:
        S.check(len(e.structure) == len(expected), label + 'every index has its place')
        for i, sub in enumerate(expected):
            if sub is None:
                S.check(not isinstance(e.structure[i], StructuralError),
                    label + 'no error at a valid element')
            else:
                judge(S, e.structure[i], sub, label)


def rendered(S, e, expected, label=''):
    text = str(e)
    lines = [l for l in text.split('\n') if l[:1] == '[' and ' error at ' in l]
    failures = flat(expected)
    S.check(text.split('\n')[0] == 'validation failed', label + 'the rendering says what happened')
    want = ['%s error at %s: %s' % (title.capitalize(), path, message)
        for token, title, message, path in failures]
    S.same(sorted([l[5:] for l in lines]), sorted(want),
        label + 'the rendering lists each failure once, with its full path')
    S.check([l[:4] for l in lines] == ['[%02d]' % (i + 1) for i in range(len(want))],
        label + 'numbered in order')


def serialized(S, e, expected, label=''):
    form = e.serialize()
    if isinstance(expected, list) and expected and isinstance(expected[0], tuple):
        S.same(form, (shape(expected), None), label + 'the serialized error has the error')
    else:
        S.same(form, (None, shape(expected)), label + 'the serialized error mirrors the shape')
    back = attempt(StructuralError.unserialize, form)
    S.check(back.ok and isinstance(back.value, StructuralError), label + 'it can be unserialized')
    S.same(back.value.serialize(), form, label + 'and serializes identically again')
    return form, back.value


SCHEMAS = {
    'leaf': 'leaf',
    'structure': ('structure', [('a', 'leaf'), ('b', 'leaf'), ('c', 'leaf')]),
    'map': ('map', 'leaf'),
    'sequence': ('sequence', 'leaf'),
    'tuple': ('tuple', ['leaf', 'leaf', 'leaf']),
    'structure-of': ('structure', [('a', ('sequence', 'leaf')), ('b', ('map', 'leaf')), ('message', 'leaf')]),
    'structure-of-tuple': ('structure', [('a', ('tuple', ['leaf', 'leaf'])), ('b', ('structure', [('a', 'leaf')]))]),
    'map-of': ('map', ('sequence', 'leaf')),
    'map-of-structure': ('map', ('structure', [('token', 'leaf'), ('message', 'leaf')])),
    'sequence-of-structure': ('sequence', ('structure', [('a', 'leaf'), ('message', 'leaf')])),
    'sequence-of-sequence': ('sequence', ('sequence', 'leaf')),
    'sequence-of-map': ('sequence', ('map', 'leaf')),
    'sequence-of-tuple': ('sequence', ('tuple', ['leaf', 'leaf'])),
    'tuple-of': ('tuple', [('structure', [('a', 'leaf')]), ('sequence', 'leaf'), ('map', 'leaf')]),
    'tuple-of-tuple': ('tuple', [('tuple', ['leaf', 'leaf']), 'leaf']),
    'deep': ('structure', [('x', ('sequence', ('map', ('tuple', ['leaf', ('structure', [('y', 'leaf')])]))))]),
    'deeper': ('map', ('structure', [('x', ('sequence', ('structure', [('y', ('map', 'leaf'))])))])),
}


@harness('C10', variants=sorted(SCHEMAS), covers=['failed'], quick=8000)
def trees(S, schema):
    """every pattern of good, wrong-typed, too small (any) and null elements in 17 nested schemas of depth
    <= 5 (<= 3 entries per map and sequence when flat, <= 2 when nested), in every phase, named or not"""
    spec = SCHEMAS[schema]
    name = S.choice('name', [None, 'root']) if schema != 'deeper' else None
    field = field_for(spec, name)
    flat_schema = schema in ('leaf', 'structure', 'map', 'sequence', 'tuple')
    ways = ['good', 'invalid', 'minimum', 'nonnull'] if flat_schema else ['good', 'minimum']
    path = name or '(%s)' % field.type
    value, expected = case(S, spec, 'v', ways, 3 if flat_schema else 2, path, name)
    out = attempt(field.process, value, *S.choice('call', CALLS if flat_schema else CALLS[1:3] if schema != 'deeper' else CALLS[1:2]))
    if expected is None:
        S.check(out.ok, 'a valid value is accepted')
        return
    S.cover('failed')
    S.check(out.error, 'an invalid value is refused')
    judge(S, out.value, expected)
    rendered(S, out.value, expected)
    serialized(S, out.value, expected)


@harness('C10', variants=['structure', 'map', 'tuple', 'sequence'], covers=['failed'])
def members(S, kind):
    """unknown, missing, wrongly keyed and wrongly sized elements beside failing ones, alone and inside a
    sequence of structures"""
    nested = S.bool('nested')
    prefix = '(sequence)[1].m' if nested else None
    owner = 'm' if nested else 'unknown-field'
    expected = None
    if kind == 'structure':
        field = Structure({'a': Integer(required=True), 'b': Integer(minimum=0)})
        path = prefix or '(structure)'
        value, expected = {}, {}
        if S.bool('a'):
            value['a'] = 1
        else:
            expected['a'] = [('required', 'required field',
                "%s is missing required field 'a'" % owner, path)]
        if S.bool('b'):
            value['b'] = -1
            expected['b'] = [('minimum', 'minimum value',
                'b must be greater then or equal to 0', path + '.b')]
        for k in ('x', 'y'):
            if S.bool(k):
                value[k] = 1
                expected[k] = [('unknown', 'unknown field',
                    "%s includes an unknown field '%s'" % (owner, k), path)]
        expected = expected or None
    elif kind == 'map':
        field = Map(Integer(minimum=0), required_keys=['r', 's'])
        path = prefix or '(map)'
        value, expected = {}, {}
        for k in ('r', 's'):
            if S.bool(k):
                value[k] = 1
            else:
                expected[k] = [('required', 'required key',
                    "%s is missing required key '%s'" % (owner, k), path)]
        if S.bool('b'):
            value['b'] = -1
            expected['b'] = [('minimum', 'minimum value',
                'unknown-field must be greater then or equal to 0', path + '[b]')]
        expected = expected or None
        if S.bool('key'):
            field.key = Integer()
            expected = [('invalidkeys', 'invalid keys', '%s must have valid keys' % owner, path)] \
                if value else expected
    elif kind == 'tuple':
        field = Tuple([Integer(), Integer()])
        path = prefix or '(tuple)'
        value = [1] * S.pick('n', 4)
        if len(value) != 2:
            expected = [('length', 'invalid length', '%s must contain exactly 2 values' % owner, path)]
    else:
        field = Sequence(Integer(), min_length=1, max_length=2, unique=True)
        path = prefix or '(sequence)'
        value = [S.int('v%d' % i, 0, 1) for i in range(S.pick('n', 4))]
        if not value:
            expected = [('min_length', 'minimum length', '%s must have at least 1 item' % owner, path)]
        elif len(value) > 2:
            expected = [('max_length', 'maximum length', '%s must have at most 2 items' % owner, path)]
        elif len(value) == 2 and value[0] == value[1]:
            expected = [('duplicate', 'duplicate value', '%s must not have duplicate values' % owner, path)]
    if nested:
        out = attempt(Sequence(Structure({'m': field, 'n': Integer()})).process,
            [{'n': 1}, {'m': value}, {}], *S.choice('call', CALLS))
        if expected is not None:
            expected = [None, {'m': expected}, None]
    else:
        out = attempt(field.process, value, *S.choice('call', CALLS))
    if expected is None:
        S.check(out.ok, 'a valid value is accepted')
        return
    S.cover('failed')
    S.check(out.error, 'an invalid value is refused')
    judge(S, out.value, expected)
    rendered(S, out.value, expected)
    serialized(S, out.value, expected)


@harness('C10', variants=FIELDS, covers=['failed'])
def placed_errors(S, kind):
    """null and wrong-typed values of every field type among good ones at three places of a schema"""
    field = field_of(kind, nonnull=True)
    how = [S.choice('how%d' % i, ['absent', 'null', 'wrong']) for i in range(3)]
    wrong = Ellipsis
    schema = Structure({'a': field, 'b': Sequence(field_of(kind, nonnull=True)), 'c': Tuple([Integer(),
        field_of(kind, nonnull=True)])})
    value, errors = {}, {}
    bad = {'null': None, 'wrong': wrong}
    token = {'null': 'nonnull', 'wrong': 'invalid'}
    if how[0] != 'absent':
        value['a'] = bad[how[0]]
        errors['a'] = token[how[0]]
    if how[1] != 'absent':
        value['b'] = [bad[how[1]], bad[how[1]]]
        errors['b'] = [token[how[1]]] * 2
    if how[2] != 'absent':
        value['c'] = (2, bad[how[2]])
        errors['c'] = [None, token[how[2]]]
    out = attempt(schema.process, value, *S.choice('call', CALLS))
    if not errors:
        S.check(out.ok, 'a valid value is accepted')
        return
    S.cover('failed')
    def tokens(e):
        if not isinstance(e, StructuralError):
            return None
        if e.structure is None:
            return e.errors[0]['token'] if len(e.errors) == 1 else e.errors
        if isinstance(e.structure, dict):
            return dict((k, tokens(v)) for k, v in e.structure.items()
                if isinstance(v, StructuralError))
        return [tokens(v) for v in e.structure]
    S.check(out.error, 'an invalid value is refused')
    S.same(tokens(out.value), errors, 'exactly the failing elements are reported, with their tokens')
    text = str(out.value)
    S.check(text.count(' error at ') == sum(len([x for x in (e if isinstance(e, list) else [e]) if x])
        for e in errors.values()), 'the rendering lists each failure once')
    form = out.value.serialize()
    back = attempt(StructuralError.unserialize, form)
    S.check(back.ok, 'the serialized error can be unserialized')
    S.same(back.value.serialize(), form, 'and serializes identically again')


@harness('C10', covers=['field'])
def error_field(S):
    """an error field carries errors of any of 7 schemas on the wire and back, JSON in between or not"""
    schema = S.choice('schema', ['leaf', 'structure', 'map', 'sequence-of-structure', 'tuple-of',
        'sequence-of-sequence', 'map-of-structure'])
    spec = SCHEMAS[schema]
    field = field_for(spec)
    value, expected = case(S, spec, 'v', ['good', 'nonnull'], 2, '', None)
    S.assume(expected is not None)
    e = attempt(field.process, value).value
    S.cover('field')
    carrier = Error()
    form = carrier.serialize(e)
    S.same(form, e.serialize(), 'the wire form is the serialized error')
    if S.bool('json'):
        form = json.loads(json.dumps(form))
    back = attempt(carrier.unserialize, form)
    S.check(back.ok and isinstance(back.value, StructuralError), 'it is read back')
    S.same(back.value.serialize(), e.serialize(), 'as the same error')


NAMED = ['structure', 'map', 'structure-map', 'map-structure', 'sequence-structure', 'map-sequence']


@harness('C10', variants=NAMED, covers=['failed'], quick=6000)
def names(S, shape):
    """two failing members of six schemas whose names and keys are symbolic (<= 2 characters of letters, digits, dots,
    brackets, blanks, possibly equal to each other or to the name of the schema, or spelled like a part of a path), beside a
    valid one"""
    kind = shape.split('-')
    def name(label, least=1):
        if S.bool(label + ' like a path'):
            return S.choice(label + ' path', ['[0]', '[a]', '.a', '(map)', 'a.b', 'root', 'b]'])
        return S.text(label, 2 if label == 'key' else 1, least, 'ab.[])0 ')
    root = S.choice('root', [None, 'root', '[a]', '[0]', '.a', 'a'])
    key, other = name('key', 1), name('other') if len(kind) == 1 else S.choice('other', ['z', 'a', '[a]'])
    S.assume(key != other and key != 'ok' and other != 'ok')
    leaf = lambda: Integer(minimum=0)
    title, message = MESSAGES['minimum']
    failure = lambda who, path: [('minimum', title, message % who, path)]
    prefix = root or '(%s)' % kind[0]
    second = S.bool('second')
    if kind[0] == 'structure':
        inner = Map(leaf()) if len(kind) > 1 else leaf()
        field = Structure({key: inner, other: leaf(), 'ok': Integer()}, name=root)
        value = {key: {'k': -1, key: -2} if len(kind) > 1 else -1, other: -3 if second else 3, 'ok': 1}
        path = prefix + '.' + key
        expected = {key: dict((k, failure('unknown-field', path + '[' + k + ']')) for k in {'k': 1, key: 2}) if len(kind) > 1
            else failure(key, path)}
        if second:
            expected[other] = failure(other, prefix + '.' + other)
    elif kind[0] == 'map':
        inner = {'': leaf, 'structure': lambda: Structure({other: leaf(), 'ok': Integer()}),
            'sequence': lambda: Sequence(leaf())}[kind[1] if len(kind) > 1 else '']()
        field = Map(inner, name=root)
        bad = {'': -1, 'structure': {other: -1, 'ok': 1}, 'sequence': [1, -1, -1]}[kind[1] if len(kind) > 1 else '']
        good = {'': 1, 'structure': {}, 'sequence': []}[kind[1] if len(kind) > 1 else '']
        value = {key: bad, 'ok': good, other: bad if second else good}
        def failures(k):
            path = prefix + '[' + k + ']'
            if len(kind) == 1:
                return failure('unknown-field', path)
            if kind[1] == 'structure':
                return {other: failure(other, path + '.' + other)}
            return [None, failure('unknown-field', path + '[1]'), failure('unknown-field', path + '[2]')]
        expected = {key: failures(key)}
        if second:
            expected[other] = failures(other)
    else:
        field = Sequence(Structure({key: leaf(), other: leaf()}), name=root)
        value = [{key: -1, other: 1}, {key: 1}, {key: -1, other: -1 if second else 1}]
        expected = []
        for i in range(3):
            e = dict((k, failure(k, '%s[%d].%s' % (prefix, i, k))) for k in value[i] if value[i][k] == -1)
            expected.append(e or None)
    S.cover('failed')
    out = attempt(field.process, value, *S.choice('call', CALLS[:2]))
    S.check(out.error, 'an invalid value is refused')
    judge(S, out.value, expected)
    rendered(S, out.value, expected)
    serialized(S, out.value, expected)


@harness('C10', variants=[0, 1, 2, 3], covers=['errors', 'none'], quick=4000)
def built(S, steps):
    """errors made by hand: up to three steps of appending (mappings or texts), merging another error, attaching a structure of
    errors, constructing one of the field's own, with serializations in between"""
    field = Integer(minimum=0, name='n')
    errors, structure = [], None
    given = [{'token': S.choice('token%d' % i, ['t', 'u']), 'message': S.text('m%d' % i, 1)} for i in range(S.pick('given', 2))]
    if S.bool('one more'):
        e = ValidationError(*given, field=field, token='w', title='v')
        errors = given + [{'token': 'w', 'title': 'v'}]
    else:
        e = ValidationError(*given, field=field)
        errors = list(given)
    shown = None
    for step in range(steps):
        how = S.choice('step%d' % step, ['append', 'append text', 'merge', 'sequence', 'mapping', 'construct', 'serialize'])
        if how == 'append':
            error = {'token': 'a%d' % step}
            S.check(e.append(error) is e, 'appending gives the error itself')
            errors.append(error)
        elif how == 'append text':
            e.append('text %d' % step)
            errors.append({'message': 'text %d' % step})
        elif how == 'merge':
            other = StructuralError({'token': 'x'}, {'token': 'y%d' % step})
            S.check(e.merge(other) is e, 'merging gives the error itself')
            S.check(len(other.errors) == 2, 'and leaves the other as it was')
            errors.extend([{'token': 'x'}, {'token': 'y%d' % step}])
        elif how == 'sequence':
            S.check(e.attach([None, StructuralError({'token': 'in'}), 3, StructuralError(structure=[StructuralError('deep')])]) is e, 'attaching gives the error itself')
            structure = [None, [{'token': 'in'}], None, [[{'message': 'deep'}]]]
        elif how == 'mapping':
            e.attach({'k': StructuralError('inner'), 'l': 4, 'm': StructuralError(structure={'z': StructuralError({'token': 'in'})})})
            structure = {'k': [{'message': 'inner'}], 'm': {'z': [{'token': 'in'}]}}
        elif how == 'construct':
            S.check(e.construct('minimum', minimum=0) is e, 'constructing gives the error itself')
            errors.append({'token': 'minimum', 'title': 'minimum value', 'message': 'n must be greater then or equal to 0'})
        else:
            e.serialize()
    S.cover('errors' if errors else 'none')
    S.check(bool(e.substantive) == bool(errors or structure), 'an error is substantive when there is an error')
    form = e.serialize(force=True)
    S.same(form, (errors or None, structure), 'the serialized error has every error in order')
    S.same(e.serialize(), form, 'and stays the same')
    back = attempt(StructuralError.unserialize, form)
    S.check(back.ok, 'it can be unserialized')
    S.same(back.value.serialize(), form, 'and serializes identically again')


@harness('C10', covers=['own', 'nested'])
def errors_schema(S):
    """the schema of serialized errors over errors of 7 schemas and of hand-made ones, in every call, JSON in between or not"""
    from scheme.common import Errors
    schema = S.choice('schema', ['leaf', 'structure', 'map', 'sequence-of-structure', 'tuple-of', 'sequence-of-sequence', 'map-of-structure', 'made'])
    if schema == 'made':
        e = StructuralError({'token': 'a', 'message': 'b'}, 'text')
        if S.bool('structure'):
            e.attach({'k': StructuralError('x')})
    else:
        spec = SCHEMAS[schema]
        value, expected = case(S, spec, 'v', ['good', 'nonnull'], 2, '', None)
        S.assume(expected is not None)
        e = attempt(field_for(spec).process, value).value
    form = e.serialize()
    S.cover('own' if form[0] else 'nested')
    out = attempt(Errors.process, form, *S.choice('call', CALLS))
    S.check(out.ok, 'a serialized error is a value of the schema of errors')
    S.same(out.value, form, 'which keeps it')
    text = attempt(Errors.serialize, form, 'json')
    S.check(text.ok, 'it can be written as JSON')
    back = attempt(Errors.unserialize, text.value, 'json')
    S.check(back.ok, 'and read back')
    S.same(back.value, form, 'as the same error')
