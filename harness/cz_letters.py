"""Awkward letters and numbers at every place that holds a text or a number: combining and composed letters, ligatures, letters whose case changes their
length, marks without width, unassigned and last code points; numbers at the ends of their ranges."""
from hlib import *
from collections import OrderedDict
from scheme.formats import *
import json

ODD = charset('eA\u0301\xe9\xdf\ufb01\u0130\u0131\u212b\u200b\ufeff\xad\u0378\u3000\x1c\u2029\uffff\U0010ffff')
SHOWN = charset('eA\u0301\xe9\xdf\ufb01\u0130\u0131\u212b\u200b\xad\u0378\U0010ffff')
PLACES = ['alone', 'mapped', 'key', 'typed key', 'item', 'member', 'placed', 'choice', 'deep']
FLOATS = [0.0, -0.0, 5e-324, -5e-324, 1.7976931348623157e308, 2.0**53, 2.0**53 + 2, 0.1, 1 / 3.0, 1e16, 1e22, 1e23, 123456789.123456789, -1e-7, 1e15 + 0.3]
DECIMALS = ['0', '-0', '0.0', '-0.00', '1E+3', '1000', '1E-7', '0.10', '123456789012345678901234567890.123456789', '-1E+30', '0E+3', '0E-9']
BASES = [0, 2**31 - 3, 2**32 - 3, 2**53 - 2, 2**63 - 3, 2**64 - 3, 10**17 + 1, 10**30 + 7]


def odd(S, alphabet=ODD):
    return S.choice('before', ['', 'caf']) + S.text('odd', 2, 1, alphabet) + S.choice('after', ['', 'e'])


def around(place, t, field=None):
    """A field and a value with the text (or the value of the field) there."""
    field = Text(strip=False) if field is None else field
    if place == 'alone':
        return field, t
    if place == 'mapped':
        return Map(field), {'k': t, 'l': t}
    if place == 'key':
        return Map(Integer()), {t: 1, 'plain': 2}
    if place == 'typed key':
        return Map(Integer(), key=field), {t: 1}
    if place == 'item':
        return Sequence(field), [t, t]
    if place == 'member':
        return Structure({'a': field, 'b': Integer()}), {'a': t, 'b': 1}
    if place == 'placed':
        return Tuple((Integer(), field)), (1, t)
    if place == 'choice':
        return Enumeration(['plain', t]), t
    return Sequence(Map(Structure({'a': Sequence(field)}))), [{'k': {'a': [t]}}]


@harness('C01')
def letters_kept(S, variant=None):
    """A text of one or two such letters among others, by a field that strips or not, in every direction."""
    t, strip = odd(S), S.bool('strip')
    field = Text(strip=strip)
    kept = t.strip() if strip else t
    S.same(attempt(field.process, t).value, kept, 'kept as it is, natively')
    S.same(attempt(field.serialize, kept).value, kept, 'written as it is')
    S.same(attempt(field.unserialize, t).value, kept, 'and read as it is')


@harness('C04', variants=['min', 'max'])
def letters_counted(S, which):
    """Texts of one or two such letters among others, against limits of 0 to 4: letters are counted, however they combine."""
    t, strip, n = odd(S), S.bool('strip'), S.pick('limit', 5)
    kept = t.strip() if strip else t
    field = Text(strip=strip, **{which + '_length': n})
    got = attempt(field.process, t)
    S.check(got.ok == (len(kept) >= n if which == 'min' else len(kept) <= n), 'letters are counted')


@harness('C02', variants=PLACES)
def letters_within(S, place):
    """Such a text in each of nine places of containers: natively, written, read."""
    field, value = around(place, odd(S))
    for got in (attempt(field.process, value), attempt(field.serialize, value), attempt(field.unserialize, attempt(field.serialize, value).value)):
        S.check(got.ok, 'accepted')
        S.same(got.value, list(value) if isinstance(got.value, list) else value, 'and kept')


@harness('C07')
def letters_told_apart(S, variant=None):
    """Enumerations and constants of such texts against others of such texts: those that merely look or fold alike differ."""
    a, b = S.text('declared', 1, 1, SHOWN), S.text('given', 2, 1, SHOWN)
    S.check(attempt(Enumeration(['plain', a]).process, b).ok == (a == b), 'only the text enumerated')
    S.check(attempt(Text(strip=False, constant=a).process, b).ok == (a == b), 'only the constant')


@harness('C08')
def letters_in_names(S, variant=None):
    """A structure with such a name, given such a name."""
    a, b = S.text('declared', 1, 1, SHOWN), S.text('given', 2, 1, SHOWN)
    got = attempt(Structure({a: Integer()}).process, {b: 1})
    S.check(got.ok == (a == b), 'names are told apart')
    if got.error:
        S.check(attempt(Structure({a: Integer()}, strict=False).process, {b: 1}).value == {}, 'or ignored')


@harness('C28')
def letters_in_containers(S, variant=None):
    """Sequences of two such texts that must be unique, and maps required to have such a key."""
    a, b = S.text('one', 1, 1, SHOWN), S.text('two', 2, 1, SHOWN)
    S.check(attempt(Sequence(Text(), unique=True).process, [a, b]).ok == (a != b), 'unique unless equal')
    S.check(attempt(Map(Integer(), required_keys=[a]).process, {b: 1}).ok == (a == b), 'the key required')


@harness('C10', variants=['member', 'mapped', 'unknown'])
def letters_in_places(S, kind):
    """Errors at members and keys of such names, within another."""
    t = S.text('name', 2, 1, SHOWN)
    if kind == 'member':
        field, value = Structure({t: Integer(), 'plain': Integer()}), {t: 'x', 'plain': 1}
    elif kind == 'mapped':
        field, value = Map(Integer()), {t: 'x', 'plain': 1}
    else:
        field, value = Structure({'plain': Integer()}), {t: 'x', 'plain': 1}
    entry = attempt(field.process, value).value.serialize()[1]
    if kind == 'unknown':
        S.check(sorted(entry) == [t] and entry[t][0]['token'] == 'unknown', 'the unknown name is reported')
        S.check(entry[t][0]['message'].endswith("an unknown field '" + t + "'"), 'and named')
    else:
        S.check(sorted(entry) == [t] and entry[t][0]['token'] == 'invalid', 'the error is at that name')
        S.check(entry[t][0]['message'] == (t if kind == 'member' else 'unknown-field') + ' must be an integer', 'and names it')


@harness('C13')
def letters_described(S, variant=None):
    """Descriptions, defaults, constants, enumerations and keys with such letters, through JSON."""
    t = S.text('t', 2, 1, SHOWN)
    field = S.choice('where', [lambda: Text(description=t), lambda: Text(default=t), lambda: Text(constant=t), lambda: Enumeration(['plain', t]),
        lambda: Map(Text(), required_keys=[t]), lambda: Structure({t: Integer(notes=t)}), lambda: Text(title=t, source=t)])()
    described = field.describe()
    S.same(Field.reconstruct(json.loads(json.dumps(described))).describe(), described, 'rebuilt the same')


@harness('C17', variants=['text', 'value', 'both'])
def letters_interpolated(S, kind):
    """Such letters in the texts and in the values of parameters."""
    t = S.text('t', 2, 1, ODD)
    if kind == 'text':
        S.same(Text(strip=False).interpolate(t + '${p}' + t, {'p': 'v'}), t + 'v' + t, 'the text around a reference is kept')
    elif kind == 'value':
        S.same(Text(strip=False).interpolate('a${p}b', {'p': t}), 'a' + t + 'b', 'the value is put in as it is')
        S.same(Text(strip=False).interpolate('${p}', {'p': t}), t, 'also alone')
    else:
        S.same(Sequence(Text(strip=False)).interpolate([t, '${p}', t + '${p}'], {'p': 'v' + t}), [t, 'v' + t, t + 'v' + t], 'in every element')


@harness('C17')
def letters_of_parameters(S, variant=None):
    """Parameters whose names differ by case only, referred to alone and within texts, as attributes and items."""
    name = S.choice('first', ['a', 'A', 'b', 'B']) + S.choice('second', ['', 'b', 'B'])
    form = S.choice('form', ['${%s}', '${ %s }', 'x${%s}y', '${q.%s}', "${q['%s']}", '${%s|upper}'])
    parameters = {'a': 'one', 'A': 'two', 'ab': 'Three', 'aB': 'Four', 'q': {'a': 'five', 'A': 'six', 'BB': 'Seven'}}
    known = name in parameters['q'] if 'q' in form else name in parameters
    got = attempt(Text().interpolate, form % name, parameters)
    if known:
        v = (parameters['q'] if 'q' in form else parameters)[name]
        S.same(got.value, v.upper() if 'upper' in form else 'x' + v + 'y' if 'x' in form else v, 'the one of that name')
    elif form in ('${%s}', '${ %s }', 'x${%s}y'):
        S.check(got.kind == 'raised' or got.value in ('', 'xy'), 'no other is taken')
    counts = {'a': 1, 'A': 2, 'ab': 3, 'aB': 4, 'q': {'a': 5, 'A': 6, 'BB': 7}}
    if known and form in ('${%s}', '${ %s }', '${q.%s}'):
        number = (counts['q'] if 'q' in form else counts)[name]
        for field in (Integer(), Float(), Sequence(Integer())):
            subject = [form % name] if isinstance(field, Sequence) else form % name
            got = attempt(field.interpolate, subject, counts)
            S.check(got.ok and got.value == ([number] if isinstance(field, Sequence) else number), 'the one of that name also where a number is meant')


@harness('C17', variants=['float', 'decimal', 'integer'])
def numbers_interpolated(S, kind):
    """Fifteen floats, twelve decimals, integers within 5 of eight bounds of machine words, as parameters and subjects, themselves and as texts."""
    if kind == 'float':
        field, v = Float(), S.choice('float', FLOATS)
    elif kind == 'decimal':
        field, v = Decimal(), decimal_module.Decimal(S.choice('decimal', DECIMALS))
    else:
        field, v = Integer(), S.choice('base', BASES) + S.pick('more', 6)
    given = repr(v) if kind == 'float' else str(v)
    exactly(S, attempt(field.interpolate, v, {}), v, 'kept')
    if kind != 'decimal':
        exactly(S, attempt(field.interpolate, '${p}', {'p': v}), v, 'taken')
        exactly(S, attempt(field.interpolate, '${p}', {'p': given}), v, 'read')
        exactly(S, attempt(field.interpolate, given, {}), v, 'read itself')
    exactly(S, attempt(Text().interpolate, '<${p}>', {'p': v}), '<' + str(v) + '>', 'written')


@harness('C18', variants=['text', 'form'])
def letters_texts(S, kind):
    """Such a text as a value and as a key, in lists and nested."""
    t = S.text('t', 2, 1, ODD)
    format = UrlEncoded if kind == 'form' else StructuredText
    value = S.choice('where', [{'k': t}, {t: 'v'}, {'k': [t, 'x']}, {'k': {t: [t]}}])
    S.check(format.unserialize(format.serialize(value)) == value, 'the same data')


@harness('C19')
def letters_csv(S, variant=None):
    """Such a text in a cell, and as the name of a column."""
    t = S.text('t', 2, 1, SHOWN)
    name = S.choice('name', ['k', t])
    schema, rows = Sequence(Structure({name: Text(strip=False), 'z': Integer()})), [{name: t, 'z': 1}, {name: 'x', 'z': 2}]
    S.check(Csv.unserialize(Csv.serialize(rows, schema), schema) == rows, 'the same rows')


@harness('C20', variants=['value', 'key', 'long'])
def letters_yaml(S, kind):
    """Such a text as a value, as a key, within lines of many such letters."""
    t = S.text('t', 2, 1, ODD)
    value = {'value': lambda: [t, {'k': t}], 'key': lambda: {t: 'v'}, 'long': lambda: {'k': '\xe9\xdf ' * 30 + t + '\U0001f600' * 30}}[kind]()
    S.check(Yaml.unserialize(Yaml.serialize(value)) == value, 'the same data')


@harness('C21')
def letters_xml(S, variant=None):
    """Such a text as an element's text, in four places."""
    t = S.text('t', 2, 1, charset('eA\u0301\xe9\xdf\ufb01\u0130\u212b\u200b\xad\u0378\u3000\u2029\U0010ffff'))
    field, value = around(S.choice('place', ['alone', 'mapped', 'item', 'member', 'deep']), t)
    field.name = 'r'
    S.check(Xml.unserialize(Xml.serialize(value, field), field) == value, 'the same data')


@harness('C22', variants=PLACES)
def letters_json(S, place):
    """Such a text in each of nine places."""
    field, value = around(place, S.text('t', 2, 1, ODD))
    S.check(field.unserialize(field.serialize(value, 'json'), 'json') == value, 'an equal value')


def exactly(S, got, v, label):
    S.check(got.ok, label)
    S.check(type(got.value) is type(v) and repr(got.value) == repr(v), label + ', to the last digit and sign')


@harness('C01', variants=['float', 'decimal', 'integer'])
def numbers_kept(S, kind):
    """Fifteen floats and twelve decimals at the ends of their ranges, of either zero; integers within 5 of eight bounds of machine words: to the last
    digit and sign in every direction, alone and in containers."""
    if kind == 'float':
        field, v = Float(), S.choice('float', FLOATS)
        form = v
    elif kind == 'decimal':
        form = S.choice('decimal', DECIMALS)
        field, v = Decimal(), decimal_module.Decimal(form)
    else:
        v = S.choice('base', BASES) + S.pick('more', 6)
        v = -v if S.bool('negative') else v
        field, form = Integer(), v
    exactly(S, attempt(field.process, v), v, 'kept natively')
    exactly(S, attempt(field.serialize, v), form, 'kept on the wire')
    exactly(S, attempt(field.unserialize, form), v, 'kept back')
    exactly(S, attempt(field.unserialize, str(form)), v, 'read from its text')
    if kind != 'decimal':
        exactly(S, attempt(lambda: Sequence(field).process([v])[0]), v, 'kept in a sequence')
        exactly(S, attempt(lambda: Union((Boolean(), field, Text())).process(v)), v, 'kept in a union')


@harness('C03', variants=['min', 'max'])
def numbers_limited(S, which):
    """Integers within 5 of eight bounds of machine words, against limits within 5 of the same: compared to the last digit."""
    base = S.choice('base', BASES)
    base = -base if S.bool('negative') else base
    v, limit = S.int('value', 0, 5), S.int('limit', 0, 5)
    field = Integer(**{which + 'imum': base + limit})
    S.check(attempt(field.process, base + v).ok == (v >= limit if which == 'min' else v <= limit), 'compared to the last digit')


@harness('C06')
def numbers_read(S, variant=None):
    """Texts of integers within 5 of eight bounds of machine words, with leading zeros, plus signs, blanks."""
    v = S.choice('base', BASES) + S.pick('more', 6)
    v = -v if S.bool('negative') else v
    form = S.choice('form', ['%d', ' %d', '%d\n', '%d.0', '%de0', '%d x', '0x%d'])
    text = form % v
    got = attempt(Integer().unserialize, text)
    if form in ('%d', ' %d', '%d\n'):
        exactly(S, got, v, 'read whole')
    else:
        S.check(got.error, 'nothing else is an integer')


@harness('C22')
def numbers_json(S, variant=None):
    """The same floats and integers through JSON."""
    v = S.choice('float', FLOATS) if S.bool('is float') else S.choice('base', BASES) + S.pick('more', 6)
    exactly(S, attempt(lambda: Json.unserialize(Json.serialize([v]))[0]), v, 'kept')


@harness('C20')
def numbers_yaml(S, variant=None):
    """The same floats and integers through YAML."""
    v = S.choice('float', FLOATS) if S.bool('is float') else S.choice('base', BASES) + S.pick('more', 6)
    exactly(S, attempt(lambda: Yaml.unserialize(Yaml.serialize([v]))[0]), v, 'kept')


@harness('C21', variants=['float', 'decimal', 'integer'])
def numbers_xml(S, kind):
    """The same numbers through XML."""
    if kind == 'decimal':
        field, v = Decimal(name='r'), decimal_module.Decimal(S.choice('decimal', DECIMALS))
    elif kind == 'float':
        field, v = Float(name='r'), S.choice('float', FLOATS)
    else:
        field, v = Integer(name='r'), S.choice('base', BASES) + S.pick('more', 6)
    exactly(S, attempt(lambda: field.unserialize(field.serialize(v, 'xml'), 'xml')), v, 'kept')


@harness('C19', variants=['float', 'decimal', 'integer'])
def numbers_csv(S, kind):
    """The same numbers in cells."""
    if kind == 'decimal':
        field, v = Decimal(), decimal_module.Decimal(S.choice('decimal', DECIMALS))
    elif kind == 'float':
        field, v = Float(), S.choice('float', FLOATS)
    else:
        field, v = Integer(), S.choice('base', BASES) + S.pick('more', 6)
    schema = Sequence(Structure({'a': field, 'b': Text()}))
    exactly(S, attempt(lambda: schema.unserialize(schema.serialize([{'a': v, 'b': 'x'}], 'csv'), 'csv')[0]['a']), v, 'kept')


@harness('C18', variants=['text', 'form'])
def numbers_texts(S, kind):
    """The same integers in structured texts and forms whose numbers are read."""
    v = S.choice('base', BASES) + S.pick('more', 6)
    format = UrlEncoded if kind == 'form' else StructuredText
    S.check(format.unserialize(format.serialize({'k': v})) == {'k': str(v)}, 'as the text of its digits')
    S.check(StructuredText.unserialize('{k:%d}' % v, parse_numbers=True) == {'k': v}, 'read as a number when asked')


@harness('C10', variants=['absent', 'wrong', 'unknown'])
def members_named_otherwise(S, kind):
    """Members whose own name is another than their key, in structures alone, nested, polymorphic: errors are placed by key."""
    own = S.choice('own', ['b', 'z', None, ''])
    member = lambda: Integer(name=own, required=kind == 'absent')
    place = S.choice('place', ['alone', 'nested', 'variant', 'item'])
    field = Structure({'a': member(), 'b': Integer()})
    value = {'b': 3} if kind == 'absent' else {'a': 'x', 'b': 3} if kind == 'wrong' else {'a': 1, 'b': 3, 'c': 4}
    if place == 'variant':
        field, value = Structure({'v': {'a': member(), 'b': Integer()}, 'w': {}}, polymorphic_on='t'), dict(value, t='v')
    elif place == 'nested':
        field, value = Structure({'n': field}), {'n': value}
    elif place == 'item':
        field, value = Sequence(field), [value]
    error = attempt(field.process, value).value
    entry = error.serialize()[1]
    if place == 'nested':
        S.check(sorted(entry) == ['n'], 'at the member that holds it')
        entry = entry['n']
    elif place == 'item':
        S.check(len(entry) == 1, 'at the item that holds it')
        entry = entry[0]
    key = {'absent': 'a', 'wrong': 'a', 'unknown': 'c'}[kind]
    S.check(sorted(entry) == [key], 'at its key')
    S.check(entry[key][0]['token'] == {'absent': 'required', 'wrong': 'invalid', 'unknown': 'unknown'}[kind], 'for its reason')
    if kind == 'absent':
        S.check(entry[key][0]['message'].endswith("missing required field 'a'"), 'naming the key')
    elif kind == 'unknown':
        S.check(entry[key][0]['message'].endswith("unknown field 'c'"), 'naming the key')


@harness('C02')
def members_of_other_names(S, variant=None):
    """The same structures, given what they demand: every operation goes by key."""
    own = S.choice('own', ['b', 'z', None, ''])
    member = Date(name=own)
    day = date(2024, S.int('month', 1, 6), 3)
    wire_form = '2024-0%d-03' % day.month
    field = Structure({'a': member, 'b': Integer()}) if S.bool('plain') else Structure({'v': {'a': member, 'b': Integer()}, 'w': {}}, polymorphic_on='t')
    extra = {} if not field.polymorphic_on else {'t': 'v'}
    value = dict({'a': day, 'b': 3}, **extra)
    S.same(attempt(field.process, value).value, value, 'kept by key')
    S.same(attempt(field.serialize, value).value, dict(value, a=wire_form), 'written by key')
    S.same(attempt(field.unserialize, dict(value, a=wire_form)).value, value, 'read by key')
    S.same(attempt(field.extract, value).value, value, 'extracted by key')
    S.same(attempt(field.instantiate, value).value, value, 'instantiated by key')
    described = field.describe()['structure']
    S.same(sorted(described if not extra else described['v']), ['a', 'b'] + (['t'] if extra else []), 'described by key')
