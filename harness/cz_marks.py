"""Names, keys and values made of the marks which templates, patterns and paths give a meaning to (percent signs, braces, dollars, backslashes, dots,
brackets, quotes): they are letters like any others."""
from hlib import *
from scheme.formats import *
from scheme.util import format_structure
from scheme.surrogate import surrogate

MARKS = ['%', '%s', '%d', '%(field)s', '%%', '100%', '{}', '{0}', '{field}', '$', '${a}', '\\', '\\1', '\\n', '.', '..', '[0]', "'", '"', '*', '?', '(', '|', '^', '[', '#', '<b>', '&amp;',
    ':', ',', '/', '~', '!', '@', ';', '=', '+', '`']


def mark(S, name='mark'):
    return S.choice(name, MARKS)


def refusing(S, m):
    """A field which refuses any value in a way of its own, the value, the token, and what its message says after the name of the field."""
    return S.choice('way', [
        lambda: (Integer(name=m), 'x', 'invalid', 'must be an integer'),
        lambda: (Integer(name=m, minimum=3), 1, 'minimum', 'must be greater then or equal to 3'),
        lambda: (Text(name=m, min_length=2), 'a', 'min_length', 'must contain at least 2 non-whitespace characters'),
        lambda: (Sequence(Integer(), name=m, max_length=1), [1, 2], 'max_length', 'must have at most 1 item'),
        lambda: (Tuple((Integer(),), name=m), (), 'length', 'must contain exactly 1 values'),
        lambda: (Map(Integer(), name=m, key=Integer()), {'x': 1}, 'invalidkeys', 'must have valid keys'),
        lambda: (Date(name=m, maximum=date(2020, 1, 2)), date(2021, 1, 1), 'maximum', 'must not occur after 2020-01-02'),
        lambda: (Boolean(name=m, nonnull=True), None, 'nonnull', 'must be a non-null value'),
        lambda: (Enumeration(['a', 1], name=m), 'b', 'invalid', "must be one of 'a', 1"),
    ])()


@harness('C35')
def marks_in_names(S):
    """Fields of nine kinds whose name is one of thirty-eight marks, alone and as items: the message, the place and the text of the error tell the name as
    it is."""
    m = mark(S)
    field, value, token, tail = refusing(S, m)
    got = attempt(field.process, value)
    S.check(got.error and got.token == token, 'refused')
    S.same(got.value.errors[0]['message'], m + ' ' + tail, 'the message names the field')
    title = got.value.errors[0]['title']
    S.check(('%s error at ' % title.capitalize()) + m + ': ' + m + ' ' + tail in str(got.value), 'as the text does')
    outer = attempt(Sequence(field, name='o').process, [value])
    S.check('error at o[0]: ' + m + ' ' + tail in str(outer.value), 'and within others')


@harness('C10')
def marks_in_keys(S):
    """Members, keys of maps, unknown and missing members, and required keys, of thirty-eight marks: each is reported under its key, and the text of the error
    tells where."""
    m = mark(S)
    how = S.choice('how', ['member', 'key', 'unknown', 'missing', 'required', 'keyed', 'variant'])
    S.assume(how != 'variant' or m != '*')
    field, value, path, message = {
        'member': lambda: (Structure({m: Integer()}, name='o'), {m: 'x'}, 'o.' + m, m + ' must be an integer'),
        'key': lambda: (Map(Integer(name='v'), name='o'), {m: 'x'}, 'o[' + m + ']', 'v must be an integer'),
        'unknown': lambda: (Structure({}, name='o'), {m: 1}, 'o', "o includes an unknown field '" + m + "'"),
        'missing': lambda: (Structure({m: Integer(required=True)}, name='o'), {}, 'o', "o is missing required field '" + m + "'"),
        'required': lambda: (Map(Integer(), required_keys=[m], name='o'), {}, 'o', "o is missing required key '" + m + "'"),
        'keyed': lambda: (Map(Integer(name='v'), key=Text(), name='o'), {m: 'x'}, 'o[' + m + ']', 'v must be an integer'),
        'variant': lambda: (Structure({m: {'a': Integer()}}, polymorphic_on='t', name='o'), {'t': m, 'a': 'x'}, 'o.a', 'a must be an integer'),
    }[how]()
    got = attempt(field.process, value)
    S.check(got.error, 'refused')
    place = 'a' if how == 'variant' else m
    e = got.value.structure[place]
    S.same(e.errors[0]['message'], message, 'under its key')
    S.check('error at ' + path + ': ' + message in str(got.value), 'at its place')
    S.check(sorted(got.value.serialize()[1]) == [place], 'serialized under it')


@harness('C10')
def composite_keys(S):
    """Maps whose keys are tuples, numbers, truths, or texts, with values that are refused: each is reported under its key, at its place."""
    key = S.choice('key', [(), (1,), (1, 2), ('a', 'b'), 3, True, 1.5, b'k', 'k'])
    value = S.int('value', -1, 2)
    field = Map(Integer(minimum=0, name='v'), key=Field(), name='o')
    got = attempt(field.process, {key: value, 'other': 1})
    S.check(got.error == (value < 0) and (got.ok or got.error), 'refused for its value only')
    if got.ok:
        S.same(got.value, {key: value, 'other': 1}, 'kept')
    else:
        S.check(got.value.structure[key].errors[0]['token'] == 'minimum', 'under its key')
        S.check('error at o[%s]: v must be' % (key,) in str(got.value), 'at its place')
    refused = attempt(Map(Integer(), key=Tuple((Integer(), Integer())), name='o').process, {key: value})
    S.check(refused.ok == (key == (1, 2)) and (refused.ok or refused.token == 'invalidkeys'), 'keys have a field as well')


@harness('C35')
def marks_in_values(S):
    """Values refused by eight kinds of fields, which are or hold one of thirty-eight marks, and choices, surrogates and own messages made of them: messages
    and texts of errors tell them as they are."""
    m = mark(S)
    got = attempt(Integer(name='f').process, m)
    S.check(got.error and got.value.value == m and 'Value: %r' % m in str(got.value), 'the value refused')
    for value in ([m], {m: m}, (m,), (m, m), ()):
        got = attempt(Integer(name='f').process, value)
        S.check(got.error and 'Value: %s' % repr(value) in str(got.value), 'within others')
    got = attempt(Enumeration([m, 'z'], name='f').process, 'b')
    S.same(got.value.errors[0]['message'], "f must be one of %s, 'z'" % repr(m), 'the values offered')
    got = attempt(Surrogate(m + ' z', name='f').process, surrogate({}))
    S.check(got.value.errors[0]['message'].endswith(', '.join(sorted([m, 'z']))), 'the surrogates offered')
    got = attempt(Object(name='f').process, m + 'absent', INBOUND, True)
    S.check(got.error and got.token == 'import' and got.value.errors[0]['message'] == 'cannot import %r' % (m + 'absent'), 'the object not found')
    own = [FieldError('invalid', m + ' title', m.replace('%', '%%') + ' of %(field)s')]
    got = attempt(Integer(name='f', errors=own).process, 'x')
    S.same(got.value.errors[0], {'token': 'invalid', 'title': m + ' title', 'message': m + ' of f'}, 'own messages')
    S.check((m + ' title').capitalize() + ' error at f: ' + m + ' of f' in str(got.value), 'and titles')


@harness('C13')
def marks_described(S):
    """Fields whose name, title, description, default, constant, choices, keys and aspects hold one of thirty-eight marks: a description rebuilds them."""
    m = mark(S)
    field = Structure({m: Enumeration([m, 'z'], default=m, title=m, description=m, notes=m, own=m), 'k': Map(Text(constant=m), required_keys=[m])}, name=m)
    description = attempt(field.describe).value
    again = attempt(Field.reconstruct, description).value
    S.same(attempt(again.describe).value, description, 'described alike')
    S.same(attempt(again.process, {'k': {m: m}}).value, {m: m, 'k': {m: m}}, 'and acting alike')
    S.same(attempt(attempt(again.clone).value.process, {'k': {m: m}}).value, {m: m, 'k': {m: m}}, 'as its clones do')


@harness('C02')
def marks_kept(S):
    """Members, keys, variants and values of the marks other than the star: kept natively, written and read, and by extraction and instantiation."""
    m, n = S.choice('mark', [v for v in MARKS if v != '*']), S.choice('other', ['z', '%s', '\\'])
    field = Structure({m: {'v': Map(Text()), n: Sequence(Enumeration([m, n]))}, 'u': {}}, polymorphic_on='t')
    value = {'t': m, 'v': {m: n, n: m}, n: [m, n]}
    S.same(attempt(field.process, value).value, value, 'natively')
    S.same(attempt(field.unserialize, attempt(field.serialize, value).value).value, value, 'written and read')
    S.same(attempt(field.extract, value).value, value, 'extracted')
    S.same(attempt(field.instantiate, value).value, value, 'instantiated')


@harness('C17')
def marks_interpolated(S):
    """Texts with one of the marks which are no references, references to parameters whose values are marks, and parameters beside them: the marks stay."""
    m = S.choice('mark', [v for v in MARKS if '${' not in v])
    where = S.choice('where', ['before', 'after', 'around', 'alone'])
    subject, expected = {'before': (m + ' ${p}', m + ' pv'), 'after': ('${p}' + m, 'pv' + m), 'around': (m + '${p}' + m, m + 'pv' + m), 'alone': (m, m)}[where]
    S.assume(not (m == '$' and where in ('around', 'before')))
    S.same(attempt(Text().interpolate, subject, {'p': 'pv'}).value, expected, 'stays')
    S.same(attempt(Text().interpolate, 'a${p}b', {'p': m}).value, 'a' + m + 'b', 'comes')
    S.same(attempt(Text().interpolate, '${p}', {'p': m}).value, m, 'alone')
    S.same(attempt(Map(Text()).interpolate, {m: '${p}'}, {'p': m}).value, {m: m}, 'and names')
    S.same(attempt(Enumeration([m, 'z']).interpolate, '${p}', {'p': m}).value, m, 'and choices')


@harness('C29')
def marks_shown(S):
    """Formatted data whose keys and texts are one of thirty-eight marks, masked by name or not: shown as Python would write them."""
    m = mark(S)
    text = attempt(format_structure, {m: m}).value
    S.same(text, '{\n    %r: %r,\n}' % (m, m), 'shown')
    S.same(attempt(format_structure, {m: m, 'z': m}, masks=[m]).value.count('***MASKED***'), 1, 'masked by its name only')
    S.same(attempt(format_structure, [m, (m,)]).value, '[%r, (%r,)]' % (m, m), 'in lists')


@harness('C37')
def marks_printed(S):
    """Fields whose name, title, choices, default and keys hold one of thirty-eight marks: printed as Python would write them."""
    m = mark(S)
    S.same(repr(Integer(name=m, title=m)), 'Integer(name=%r, title=%r)' % (m, m), 'names')
    S.same(repr(Enumeration([m, 'z'])), 'Enumeration(enumeration=[%r, \'z\'])' % m, 'choices')
    S.same(repr(Text(default=m)), 'Text(default=%r)' % m, 'defaults')
    S.same(repr(Map(Text(), required_keys=[m])), 'Map(value=Text(), required_keys=[%r])' % m, 'keys')


@harness('C18', variants=['structured', 'form'])
def marks_written(S, kind):
    """Form encoding and structured text of values of the marks other than commas, backslashes and bars, alone, within lists, within mappings and as keys (where the text has no meaning for
    them): they read back."""
    m = S.choice('mark', [v for v in MARKS if v[0] not in ',\\|'])
    format = {'structured': StructuredText, 'form': UrlEncoded}[kind]
    values = [{'k': [m]}, {'k': {'n': m}}, {'k': [[m, m], m]}] + ([{'k': m}] if m[0] not in '[{' else [])
    value = S.choice('value', values) if len(values) > 3 else S.choice('the value', values)
    S.same(attempt(format.unserialize, attempt(format.serialize, value).value).value, value, 'reads back')
    if m not in ('{}', '[0]', '{0}', '{field}', '${a}', '[', ',', ':', '\\', '\\1', '\\n') and kind == 'form':
        S.same(attempt(format.unserialize, attempt(format.serialize, {m: 'v'}).value).value, {m: 'v'}, 'as do keys')


@harness('C20')
def marks_yaml(S):
    """YAML of values, items and keys of thirty-eight marks, with a letter before, after, on both sides or on none: they read back."""
    m = mark(S)
    t = S.choice('sides', [lambda: m, lambda: 'a' + m, lambda: m + 'a', lambda: 'a' + m + 'a', lambda: 'a ' + m + ' a', lambda: m + ' a'])()
    value = S.choice('place', [lambda: t, lambda: [t], lambda: {'k': t}, lambda: {t: 'v'}, lambda: {'k': [t, {t: [t]}]}])()
    S.same(attempt(Yaml.unserialize, attempt(Yaml.serialize, value).value).value, value, 'the same data')
