"""Values that are false without being null (zeros, empty texts and containers, the first moment of a day) are values like any others, wherever they are
given."""
from hlib import *
from collections import OrderedDict
from scheme.formats import *
from scheme.surrogate import surrogate
import sys

FALSY = ['integer', 'float', 'boolean', 'text', 'decimal', 'time', 'binary', 'map', 'sequence', 'structure']
FALSY_PLAIN = [k for k in FALSY if k not in ('decimal', 'time', 'binary')]
STRUCTURAL = ['map', 'sequence', 'structure']


def falsy(S, kind):
    """A field, its false value, a true one, and the wire forms of both; which of both is symbolic where used."""
    if kind == 'integer':
        return Integer, 0, 3, 0, 3
    if kind == 'float':
        return Float, 0.0, 1.5, 0.0, 1.5
    if kind == 'boolean':
        return Boolean, False, True, False, True
    if kind == 'text':
        return Text, '', 'a', '', 'a'
    if kind == 'decimal':
        return Decimal, decimal_module.Decimal('0'), decimal_module.Decimal('1.5'), '0', '1.5'
    if kind == 'time':
        return Time, time(0, 0, 0), time(1, 2, 3), '00:00:00', '01:02:03'
    if kind == 'binary':
        return Binary, b'', b'abc', b'', b'YWJj'
    if kind == 'map':
        return (lambda **p: Map(Integer(), **p)), {}, {'k': 0}, {}, {'k': 0}
    if kind == 'sequence':
        return (lambda **p: Sequence(Integer(), **p)), [], [0], [], [0]
    return (lambda **p: Structure({'a': Integer()}, **p)), {}, {'a': 0}, {}, {'a': 0}


def either(S, kind):
    make, no, yes, no_form, yes_form = falsy(S, kind)
    return (make, no, no_form) if S.bool('false') else (make, yes, yes_form)


def holders(S, field, value, form):
    """A container with the value in it, and the container's native and wire values."""
    return S.choice('holder', [
        lambda: (Structure({'f': field, 'o': Integer()}), {'f': value}, {'f': form}),
        lambda: (Structure({'f': field}, strict=False), {'f': value, 'x': 1}, {'f': form, 'x': 1}),
        lambda: (Structure(OrderedDict([('o', Integer()), ('f', field)]), key_order='f o'), {'f': value, 'o': 0}, {'f': form, 'o': 0}),
        lambda: (Structure({'t': {'f': field}, 'u': {}}, polymorphic_on='on'), {'on': 't', 'f': value}, {'on': 't', 'f': form}),
        lambda: (Map(field), {'k': value, '': value}, {'k': form, '': form}),
        lambda: (Map(field, key=Integer()), {0: value}, {'0': form}),
        lambda: (Sequence(field), [value, value], [form, form]),
        lambda: (Tuple((field, Integer())), (value, 0), [form, 0]),
        lambda: (Union((field, Error())), value, form),
        lambda: (Structure({'s': Sequence(Map(Structure({'f': field})))}), {'s': [{'': {'f': value}}]}, {'s': [{'': {'f': form}}]}),
    ])()


@harness('C02', variants=FALSY)
def falsy_values(S, kind):
    """Ten types, the false value and another, in ten containers: natively, written, read."""
    make, value, form = either(S, kind)
    field, native, wire_form = holders(S, make(), value, form)
    declared = native if 'x' not in (native if isinstance(native, dict) else ()) else {'f': value}
    for phase in (INBOUND, OUTBOUND):
        S.check(attempt(field.process, native, phase).value == declared, 'kept natively')
    got = attempt(field.serialize, native)
    S.check(got.ok, 'written')
    S.check(plainly(got.value) == dict((k, v) for k, v in wire_form.items() if k != 'x') if isinstance(wire_form, dict) else plainly(got.value) == wire_form
        or isinstance(got.value, tuple), 'in their wire form')
    S.check(attempt(field.unserialize, wire_form).value == declared, 'and read')


def plainly(v):
    """Keys as texts."""
    if isinstance(v, dict):
        return dict((str(k), plainly(x)) for k, x in v.items())
    return [plainly(x) for x in v] if isinstance(v, (list, tuple)) else v


@harness('C28', variants=['integer', 'float', 'text', 'time'])
def falsy_keys(S, kind):
    """Maps whose keys are of four types, with a false key, another, or both; natively and from texts."""
    make, no, yes, no_form, yes_form = falsy(S, kind)
    field = Map(Text(), key=make())
    value, form = {}, {}
    if S.bool('no'):
        value[no], form[str(no_form)] = '', ''
    if S.bool('yes'):
        value[yes], form[str(yes_form)] = 'x', 'x'
    S.same(attempt(field.process, value).value, value, 'kept natively')
    S.same(attempt(field.unserialize, form).value, value, 'keys are read whatever their truth')
    out = attempt(field.serialize, value).value
    S.same(attempt(field.unserialize, out).value, value, 'and written')


@harness('C07', variants=FALSY)
def falsy_declarations(S, kind):
    """Constants, required members, members that ignore null, and nonnull fields, with the false value, another, or null."""
    make, value, form = either(S, kind)
    make, no, yes, no_form, yes_form = falsy(S, kind)
    S.check(attempt(make(nonnull=True).process, value).ok, 'false is not null')
    S.check(attempt(make(nonnull=True).process, None).error, 'null is')
    S.same(attempt(Structure({'f': make(required=True)}).process, {'f': value}).value, {'f': value}, 'false is not missing')
    S.same(attempt(Structure({'f': make(ignore_null=True)}).process, {'f': value}).value, {'f': value}, 'nor ignored')
    S.same(attempt(Structure({'f': make(ignore_null=True)}).process, {'f': None}).value, {}, 'as null is')
    if kind not in STRUCTURAL:
        constant = no if S.bool('false constant') else yes
        got = attempt(make(constant=constant).process, value)
        S.check(got.ok == (value == constant), 'a false constant is one')
    default = no if S.bool('false default') else yes
    S.same(attempt(Structure({'f': make(default=default)}).process, {}).value, {'f': default}, 'a false default is one')
    S.same(attempt(Structure({'f': make(default=default)}).process, {'f': value}).value, {'f': value}, 'and false is not absent')


@harness('C07', variants=['integer', 'text', 'float', 'boolean'])
def falsy_choices(S, kind):
    """Enumerations of a false value among others, or of others; ignored values that are false."""
    make, no, yes, no_form, yes_form = falsy(S, kind)
    given, with_false, ignoring = S.choice('given', [no, yes, None]), S.bool('with'), S.bool('ignoring')
    field = Enumeration([no, yes] if with_false else [yes], **({'ignored_values': [no]} if ignoring else {}))
    got = attempt(field.process, given)
    if given is None or ignoring and given == no:
        S.check(got.ok and got.value is None, 'null')
    else:
        S.check(got.ok == (with_false or given != no), 'only those enumerated')
        if got.ok:
            S.same(got.value, given, 'as they are')


@harness('C03', variants=['integer', 'float', 'decimal', 'time'])
def falsy_limits(S, kind):
    """Limits of the false value, values on, below or above it."""
    low, on, high = {'integer': (-1, 0, 1), 'float': (-0.5, 0.0, 0.5), 'decimal': tuple(decimal_module.Decimal(d) for d in ('-0.1', '0', '0.1')),
        'time': (time(0, 0, 0), time(0, 0, 0), time(0, 0, 1))}[kind]
    make = {'integer': Integer, 'float': Float, 'decimal': Decimal, 'time': Time}[kind]
    place, which = S.choice('value', [low, on, high]), S.choice('which', ['minimum', 'maximum'])
    got = attempt(make(**{which: on}).process, place)
    S.check(got.ok == (place >= on if which == 'minimum' else place <= on), 'zero is a limit')
    zero = {'min': 0} if S.bool('zero') else {}
    S.check(attempt(Text(max_length=0).process, 'a').error and attempt(Sequence(Integer(), max_length=0).process, [1]).error, 'of lengths as well')


@harness('C13', variants=FALSY_PLAIN)
def falsy_descriptions(S, kind):
    """Defaults and constants that are false, described and rebuilt."""
    make, value, form = either(S, kind)
    params = {'constant' if S.bool('constant') else 'default': value}
    described = make(**params).describe()
    rebuilt = Field.reconstruct(described)
    for k, v in params.items():
        S.check((k in described), 'a false parameter is in the description')
        S.same(getattr(rebuilt, k), v, 'and in the field rebuilt')


@harness('C14', variants=FALSY)
def falsy_clones(S, kind):
    """Clones of fields with a false default or constant, and clones given one."""
    make, value, form = either(S, kind)
    name = S.choice('name', ['default', 'constant'])
    field = make(**{name: value})
    S.same(getattr(field.clone(), name), value, 'kept')
    S.same(getattr(make(**{name: 'other'}).clone(**{name: value}), name), value, 'given')
    S.same(getattr(field.clone(**{name: None}), name), None, 'or taken away')


@harness('C15', variants=FALSY)
def falsy_members(S, kind):
    """Unions whose first or last member takes the value."""
    make, value, form = either(S, kind)
    field = Union((make(), Error()) if S.bool('first') else (Error(), make()))
    for got in (attempt(field.process, value), attempt(field.unserialize, form)):
        S.check(got.ok, 'taken')
        S.same(got.value, value, 'as it is')


@harness('C16', variants=FALSY)
def falsy_extracts(S, kind):
    """Members, elements and keys that are false, in five containers; extractors and instantiators which make something of them or make false values."""
    make, value, form = either(S, kind)
    holder = S.choice('holder', [lambda f: (Structure({'f': f}), {'f': value}), lambda f: (Map(f), {'': value}), lambda f: (Sequence(f), [value]),
        lambda f: (Tuple((f,)), (value,)), lambda f: (Structure({'t': {'f': f}}, polymorphic_on='on'), {'on': 't', 'f': value})])
    field, native = holder(make())
    S.same(attempt(field.extract, native).value, native, 'extracted')
    S.same(attempt(field.instantiate, native).value, native, 'instantiated')
    field, native = holder(make(extractor=lambda f, v: [v], instantiator=lambda f, v, k: (v,)))
    taken = untold(attempt(field.instantiate, native).value)
    S.same(taken, (value,), 'the instantiator is given it')


def untold(v):
    if isinstance(v, dict):
        return v['f'] if 'f' in v else v['']
    return v[0]


@harness('C24', variants=FALSY)
def falsy_transforms(S, kind):
    """Fields with a false default or constant, transformed as members of four containers: copied but for the one replaced."""
    make, value, form = either(S, kind)
    name = S.choice('name', ['default', 'constant', 'mark'])
    kept = make(**{name: value})
    holder = S.choice('holder', [lambda f: Structure({'f': f, 'g': UUID()}), lambda f: Tuple((f, UUID())), lambda f: Structure({'t': {'f': f, 'g': UUID()}}, polymorphic_on='on'),
        lambda f: Union((f, UUID()))])
    field = holder(kept)
    got = field.transform(lambda f: Email() if isinstance(f, UUID) else True)
    S.check(got is not field, 'another')
    members = got.values if isinstance(got, Tuple) else got.fields if isinstance(got, Union) else None
    f, g = members if members else [(got.structure['t'] if got.polymorphic_on else got.structure)[k] for k in 'fg']
    S.check(isinstance(g, Email), 'the one replaced')
    S.same(getattr(f, name), value, 'the other keeps what it had')
    S.check(holder(kept).transform(lambda f: None) is not None, 'nothing replaced')


@harness('C23', variants=['integer', 'boolean', 'text', 'float'])
def falsy_criteria(S, kind):
    """Attributes that are false, against criteria that are false or another."""
    make, no, yes, no_form, yes_form = falsy(S, kind)
    attribute, criterion = S.choice('attribute', [no, yes, None]), S.choice('criterion', [no, yes])
    field = Integer(mark=attribute)
    S.check(field.screen(mark=criterion) == (attribute == criterion), 'met when equal')
    S.check((field.filter(True, mark=criterion) is field) == ((False if attribute is None else attribute) == criterion), 'and kept, null counting as False')


@harness('C17', variants=FALSY)
def falsy_parameters(S, kind):
    """Parameters that are false, alone and within texts; subjects that are."""
    make, value, form = either(S, kind)
    field = make()
    S.same(attempt(field.interpolate, '${p}', {'p': value}).value, value, 'the value itself') if kind != 'text' else None
    S.same(attempt(field.interpolate, value, {}).value, value, 'a subject without references is kept')
    S.same(attempt(Text().interpolate, 'a${p}b', {'p': value}).value, 'a' + str(value) + 'b', 'in a text') if kind in ('integer', 'boolean', 'text', 'float') else None
    S.same(attempt(Sequence(field).interpolate, '${p}', {'p': [value]}).value, [value], 'in a container')


@harness('C22', variants=FALSY_PLAIN)
def falsy_json(S, kind):
    """The same through JSON."""
    make, value, form = either(S, kind)
    field, native, wire_form = holders(S, make(), value, form)
    native = {'f': value} if isinstance(native, dict) and 'x' in native else native
    S.check(attempt(lambda: field.unserialize(field.serialize(native, 'json'), 'json')).value == native, 'kept')


@harness('C31', variants=FALSY)
def falsy_hooks(S, kind):
    """Preprocessors given a false value or giving one, also in place of null."""
    make, value, form = either(S, kind)
    seen = []
    other = falsy(S, kind)[2 if S.bool('other') else 1]

    def preprocess(v):
        seen.append(v)
        return other

    got = attempt(make(preprocessor=preprocess).process, value)
    S.same(seen, [value], 'it is given')
    S.same(got.value, other, 'and what it gives is taken')


FLAGS = [{}, {'required': True}, {'nonnull': True}, {'ignore_null': True}, {'description': 'd', 'notes': 'n', 'title': 't'}, {'source': 's', 'name': 'other'}]


def flagged(S, kind):
    """A field with flags or a default which is false or not, and a value of it."""
    make, value, form = either(S, kind)
    flags = dict(S.choice('flags', FLAGS))
    given = S.choice('default', ['none', 'false', 'true'])
    if given != 'none':
        flags['default'] = falsy(S, kind)[1 if given == 'false' else 2]
    return make(**flags), value


@harness('C19', variants=['integer', 'float', 'boolean', 'text', 'decimal', 'time'])
def falsy_csv(S, kind):
    """Cells of six types, false or not, in columns with one of six sets of flags and a default or none."""
    field, value = flagged(S, kind)
    schema = Sequence(Structure({'a': field, 'b': Text()}))
    out = attempt(schema.serialize, [{'a': value, 'b': 'x'}, {'a': value}], 'csv')
    S.check(out.ok, 'written')
    got = attempt(schema.unserialize, out.value, 'csv')
    if kind == 'text' and value == '' and (field.required or field.default is not None):
        return
    S.check(got.ok, 'read')
    row = {} if kind == 'text' and value == '' else {'a': value}
    S.same(got.value, [dict(row, b='x'), row], 'as it was')


@harness('C21', variants=[k for k in FALSY if k != 'binary'])
def falsy_xml(S, kind):
    """Members of nine types, false or not, with one of six sets of flags and a default or none."""
    field, value = flagged(S, kind)
    schema = Structure({'a': field, 'b': Text()}, name='r')
    S.same(attempt(lambda: schema.unserialize(schema.serialize({'a': value, 'b': 'x'}, 'xml'), 'xml')).value, {'a': value, 'b': 'x'}, 'read as it was')


@harness('C20', variants=FALSY_PLAIN)
def falsy_yaml(S, kind):
    """Members of seven types, false or not, with one of six sets of flags and a default or none."""
    field, value = flagged(S, kind)
    schema = Structure({'a': field, 'b': Text()})
    S.same(attempt(lambda: schema.unserialize(schema.serialize({'a': value, 'b': 'x'}, 'yaml'), 'yaml')).value, {'a': value, 'b': 'x'}, 'read as it was')


@harness('C22', variants=FALSY_PLAIN + ['decimal', 'time'])
def falsy_members_json(S, kind):
    """Members of nine types, false or not, with one of six sets of flags and a default or none."""
    field, value = flagged(S, kind)
    schema = Structure({'a': field, 'b': Text()})
    S.same(attempt(lambda: schema.unserialize(schema.serialize({'a': value, 'b': 'x'}, 'json'), 'json')).value, {'a': value, 'b': 'x'}, 'read as it was')


@harness('C02', variants=FALSY)
def falsy_flagged(S, kind):
    """The same to the wire and back."""
    field, value = flagged(S, kind)
    schema = Structure({'a': field, 'b': Text()})
    S.same(attempt(lambda: schema.unserialize(schema.serialize({'a': value, 'b': 'x'}))).value, {'a': value, 'b': 'x'}, 'read as it was')


@harness('C18')
def falsy_texts(S, variant=None):
    """Mappings and lists of false values among others, as texts and forms."""
    no = S.choice('no', [False, '', None, {}, []])
    form = S.bool('form')
    value = S.choice('where', [{'k': no}, {'k': 'a', 'l': no}, {'k': [no, 'a']}, {'k': ['a', no, no]}, {'': 'a'}, {'k': {'l': no}}, {'k': {'': no}}])
    format = UrlEncoded if form else StructuredText
    got = attempt(lambda: format.unserialize(format.serialize(value)))
    S.check(got.ok and got.value == value, 'as they were')


@harness('C13', variants=['plain', 'polymorphic', 'nested'])
def falsy_defaults(S, kind):
    """Defaults of structures whose members are null, false or absent, described and rebuilt."""
    members = {}
    for k, field, values in (('a', Date(), [None, date(2024, 1, 2)]), ('b', Integer(), [None, 0, 3]), ('c', Text(), ['', None, 'x'])):
        how = S.choice(k, ['absent'] + [str(i) for i in range(len(values))])
        if how != 'absent':
            members[k] = values[int(how)]
    fields = lambda: {'a': Date(), 'b': Integer(), 'c': Text()}
    if kind == 'plain':
        field, default = Structure(fields(), default=members), members
    elif kind == 'polymorphic':
        default = dict(members, t='x')
        field = Structure({'x': fields(), 'y': {}}, polymorphic_on='t', default=default)
    else:
        default = {'s': [members, {}]}
        field = Structure({'s': Sequence(Structure(fields()))}, default=default)
    described = field.describe()
    S.same(described['default'], field.serialize(default), 'the default in its wire form')
    S.same(Field.reconstruct(described).default, default, 'the same default')


class Kept(surrogate):
    __module__ = 'symscheme_falsy'
    schemas = [Structure({'a': Integer(), 'b': Text(), 'c': Sequence(Integer())})]


class Loose(surrogate):
    __module__ = 'symscheme_falsy'


module = type(sys)('symscheme_falsy')
module.Kept, module.Loose = Kept, Loose
sys.modules['symscheme_falsy'] = module


@harness('C32', variants=['declared', 'free'])
def falsy_surrogates(S, kind):
    """Surrogates of data, parameters or both, null, false or not, written and read."""
    impl = Kept if kind == 'declared' else Loose
    data, params = {}, {}
    for k, values in (('a', [None, 0, 3]), ('b', [None, '', 'x']), ('c', [None, [], [0]])):
        how = S.choice(k, ['absent', 'data', 'parameter'] + (['both'] if k == 'a' else []))
        value = values[S.choice(k + ' value', [0, 1, 2])] if how != 'absent' else None
        if how in ('data', 'both'):
            data[k] = value
        if how in ('parameter', 'both'):
            params[k] = 7 if how == 'both' else value
    S.assume(not (kind == 'free' and not data and not params))
    expected = dict((k, v) for k, v in data.items() if v is not None or kind == 'free')
    expected.update(params)
    made = attempt(lambda: impl.construct(None, data, **params))
    S.check(made.ok, 'made')
    S.same(dict(made.value), expected, 'of all of them')
    field = Surrogate()
    back = attempt(lambda: field.unserialize(field.serialize(made.value)))
    S.check(back.ok and type(back.value) is impl, 'written and read')
    S.same(dict(back.value), expected, 'as it was')


@harness('C05', variants=['single', 'multiple'])
def folded_letters(S, kind):
    """E-mail addresses with a letter of any case, or which is one when made small, in three places."""
    c = S.text('c', 1, 1, charset('kKzZ\u212a\u0130\xe9\xdf'))
    address = S.choice('where', ['%s@b.co', 'a@%sb.co', 'a@b.c%s']) % c
    got = attempt(Email(multiple=kind == 'multiple').process, address)
    small = address.lower()
    S.check(got.ok == small.isascii(), 'as its small letters are')
    if got.ok:
        S.same(got.value, small, 'which are kept')
