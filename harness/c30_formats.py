from hlib import *
import os

IDENTIFIERS = {
    'csv': ['csv', '.csv', 'application/csv', Csv], 'json': ['json', '.json', 'application/json', Json],
    'structuredtext': ['structuredtext', 'text/plain', StructuredText], 'urlencoded': ['urlencoded', 'application/x-www-form-urlencoded', UrlEncoded],
    'xml': ['xml', '.xml', 'application/xml', Xml], 'yaml': ['yaml', '.yaml', '.yml', 'application/x-yaml', Yaml],
}
CLASSES = {'csv': Csv, 'json': Json, 'structuredtext': StructuredText, 'urlencoded': UrlEncoded, 'xml': Xml, 'yaml': Yaml}
EXTENSIONS = {'csv': ['.csv', '.CSV'], 'json': ['.json', '.Json'], 'xml': ['.xml', '.XmL'], 'yaml': ['.yaml', '.yml', '.YAML', '.YmL']}


def sample(S, name, size=2):
    """A schema a format can write, and a value for it."""
    if name == 'csv':
        return Sequence(Structure({'a': Integer(), 'b': Text(strip=False)})), [{'a': S.int('a', -1, 2) if size == 1 else 7, 'b': S.text('b', size, 1, charset('a",\r\n'))}]
    if name == 'structuredtext':
        return Structure({'a': Integer(), 'b': Text(strip=False)}), {'a': S.int('a', -1, 2) if size == 1 else 7, 'b': S.text('b', size, 1, charset('ab\r\n'))}
    if name == 'urlencoded':
        return Structure({'a': Integer(), 'b': Text(strip=False)}), {'a': S.int('a', -1, 2) if size == 1 else 7, 'b': S.text('b', size, 1, charset('ab\r\n&=+'))}
    return Structure({'a': Integer(), 'b': Text(strip=False), 'c': Sequence(Boolean())}), {'a': S.int('a', -1, 2) if size == 1 else 7, 'b': S.text('b', size, 0, charset("a\r\n<'\"\xe9")), 'c': [True]}


@harness('C30', variants=sorted(CLASSES), quick=3000)
def identifiers(S, name):
    """Every pair of identifiers of each of the six formats, with a structure or table of an integer and a text of 0-2 characters (line ends, quotes, markup): serialization through the field, through Format and through the format's own class."""
    schema, value = sample(S, name)
    one = S.choice('identifier', IDENTIFIERS[name])
    wire = schema.serialize(value)
    text = CLASSES[name].serialize(wire, schema)
    S.same(schema.serialize(value, one), text, 'any identifier of a format writes the same')
    S.same(Format.serialize(wire, one, schema), text, 'also without a field')
    S.same(schema.unserialize(text, one), value, 'any identifier of a format reads the same')
    S.same(Format.unserialize(text, one, schema), CLASSES[name].unserialize(text, schema), 'also when reading without a field')


@harness('C30', variants=[(n, w) for n in sorted(CLASSES) for w in ('named', 'extension', 'class')], quick=3000)
def files(S, variant):
    """A structure or table of an integer in [-1, 2] and a text of 0-1 characters (line ends, quotes, markup) written to a new or an existing file and read back: with the format named by any of its identifiers and a file name of any extension, with the format taken from the extension (in mixed case), with the class of the format."""
    name, way = variant
    if way == 'extension' and name not in EXTENSIONS:
        return
    schema, value = sample(S, name, 1)
    path = os.path.join(S.scratch(), 'f.d.')
    given = None
    if way == 'extension':
        path = path + 'x' + S.choice('extension', EXTENSIONS[name])
    else:
        path = path + S.choice('suffix', ['json', 'none', 'csv'])
        given = S.choice('identifier', IDENTIFIERS[name])
    if S.bool('existing'):
        with open(path, 'w', newline='') as f:
            f.write('old content, longer than what is written to it' * 3)
    text = schema.serialize(value, CLASSES[name])
    if way == 'class':
        CLASSES[name].write(path, schema.serialize(value), schema=schema)
        S.same(CLASSES[name].read(path, schema=schema), CLASSES[name].unserialize(text, schema), 'the class of a format reads what it wrote')
    else:
        S.check(schema.write(path, value, given) is None, 'written')
    with open(path, newline='') as f:
        S.same(f.read(), text, 'the file holds what the format writes')
    S.same(schema.read(path, given if way == 'named' else CLASSES[name] if way == 'class' else None), value, 'a value read back from a file')
    S.same(Format.read(path, CLASSES[name], schema), CLASSES[name].unserialize(text, schema), 'the format reads the file')


@harness('C30', variants=['format', 'extension', 'missing', 'value', 'unwritable'], quick=2000)
def refusals(S, sort):
    """Unknown formats and extensions (symbolic names of up to three characters), missing files (quiet or not), values the field refuses or the format cannot write: an error is raised, no file is created and an existing one keeps its content."""
    schema = Structure({'a': Integer()})
    path = os.path.join(S.scratch(), 'f.json')
    existing = S.bool('existing')
    if sort == 'extension':
        path = os.path.join(S.scratch(), 'f' + S.choice('ending', ['', '.', '.txt', '.js', '.jsonx', 'json', '.json.bak', '.xls']))
    if existing:
        with open(path, 'w') as f:
            f.write('{"a": 1}')
    S.assume(existing or sort != 'missing')
    if sort == 'format':
        name = S.text('name', 3, 1, charset('.jsonxmlcv'))
        S.assume(name not in ('xml', 'csv'))
        refused(S, lambda: schema.write(path, {'a': 3}, name))
        refused(S, lambda: Format.write(path, {'a': 3}, name))
        refused(S, lambda: Json.write(path, {'a': 3}, name))
        refused(S, lambda: schema.read(path, name))
        refused(S, lambda: schema.serialize({'a': 3}, name))
        refused(S, lambda: schema.unserialize('{"a": 3}', name))
        refused(S, lambda: Format.serialize({'a': 3}, name))
    elif sort == 'extension':
        refused(S, lambda: schema.write(path, {'a': 3}))
        refused(S, lambda: Format.write(path, {'a': 3}))
        refused(S, lambda: schema.read(path))
        refused(S, lambda: Format.read(path))
    elif sort == 'missing':
        other = os.path.join(S.scratch(), S.choice('file', ['g.json', 'f.jso', 'F.json', 'f']))
        given = S.choice('format', [None, 'json', '.yaml', Xml, 'unknown'])
        refused(S, lambda: schema.read(other, given))
        refused(S, lambda: Format.read(other, given))
        refused(S, lambda: Json.read(other))
        S.check(Format.read(other, given, quiet=True) is False, 'a quiet read of a missing file returns false')
        S.check(Json.read(other, quiet=True) is False, 'also with the class of a format')
        S.check(Format.read(S.choice('no', ['', None]), given, quiet=True) is False, 'no path is a missing file')
        S.check(not os.path.exists(other), 'nothing is created')
    elif sort == 'value':
        refused(S, lambda: schema.write(path, S.choice('value', [lambda: {'a': 'x'}, lambda: {'b': 1}, lambda: 3, lambda: {'a': True}])()))
    else:
        refused(S, lambda: Format.write(path, {'a': object()}, S.choice('format', ['json', 'yaml', 'csv', None])))
    S.check(os.path.exists(path) == existing, 'no file comes or goes')
    if existing:
        with open(path) as f:
            S.same(f.read(), '{"a": 1}', 'an existing file keeps its content')


def refused(S, call):
    out = attempt(call)
    S.check(out.kind != 'ok', 'refused')


@harness('C30', quick=1000)
def registered(S):
    """Every identifier of every format, own formats with and without name, mimetype and extensions (with and without dot)."""
    name = S.choice('format', sorted(CLASSES))
    for identifier in IDENTIFIERS[name]:
        S.check(Format.formats[identifier] is CLASSES[name], 'every identifier stands for its format')
    before = dict(Format.formats)
    try:
        declared = {'name': S.choice('name', [None, 'own']), 'mimetype': S.choice('mimetype', [None, 'x/own']),
            'extensions': S.choice('extensions', [None, ['.own'], ['own', '.o2']]), 'serialize': classmethod(lambda cls, value, schema=None: 'own:' + str(value)),
            'unserialize': classmethod(lambda cls, value, schema=None: int(value[4:]))}
        own = type(Format)('Own', (Format,), declared)
        expected = dict(before)
        if declared['name']:
            expected.update({'own': own, own: own})
            if declared['mimetype']:
                expected['x/own'] = own
            if declared['extensions']:
                expected['.own' if len(declared['extensions']) == 1 else '.o2'] = own
        S.check(set(Format.formats) == set(expected), 'exactly its identifiers are added')
        S.check(all(Format.formats[k] is expected[k] for k in expected), 'no other format changes')
        if declared['name']:
            S.same(Integer().serialize(5, 'own'), 'own:5', 'an own format writes')
            S.same(Integer().unserialize('own:7', own), 7, 'an own format reads')
    finally:
        Format.formats.clear()
        Format.formats.update(before)
