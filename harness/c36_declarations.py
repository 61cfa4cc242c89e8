from hlib import *
from scheme.surrogate import surrogate

D = decimal_module.Decimal
UTCNOW = datetime(2024, 2, 3, 4, 5, 6, tzinfo=UTC)
FIELD = Integer()
CLASS = object()


def pool(S, name, small=False):
    """A plain value or a few others, and what it is."""
    kind = S.choice(name, ['int', 'none', 'text', 'float', 'decimal', 'date', 'datetime', 'time', 'list', 'dict', 'bytes', 'field', 'object', 'class'])
    return kind, {'int': lambda: S.int(name + '.int', -1, 3) if small else S.int(name + '.int'), 'none': lambda: None, 'text': lambda: S.text(name + '.text', 2, 0, charset('01.a-')),
        'float': lambda: S.choice(name + '.float', [0.0, -1.5, float('inf')]), 'decimal': lambda: D(S.choice(name + '.decimal', ['0', '-1.50', 'Infinity'])),
        'date': lambda: date(2024, S.int(name + '.m', 1, 12), 3), 'datetime': lambda: UTCNOW.replace(minute=S.int(name + '.min', 0, 59)),
        'time': lambda: time(S.int(name + '.h', 0, 23), 5, 6), 'list': lambda: [S.int(name + '.item', 0, 3)], 'dict': lambda: {'a': 1}, 'bytes': lambda: b'1',
        'field': lambda: FIELD, 'object': lambda: CLASS, 'class': lambda: Integer}[kind]()


def refused(S, out, label):
    S.check(out.kind == 'raised' and isinstance(out.value, (TypeError, ValueError)), label)


NUMERAL = {'0': D(0), '1': D(1), '00': D(0), '01': D(1), '10': D(10), '11': D(11), '0.': D(0), '1.': D(1), '.0': D('0.0'), '.1': D('0.1'), '-0': D('-0'), '-1': D(-1)}


@harness('C36', variants=['integer', 'float', 'decimal', 'date', 'time', 'datetime'], covers=['taken', 'refused'])
def limits(S, kind):
    """A limit of any integer, any text of 0-2 digits, periods, signs and letters, dates, times, datetimes and values of eight other types; symbolic within those."""
    what, value = pool(S, 'value')
    which = S.choice('which', ['minimum', 'maximum'])
    other = 'maximum' if which == 'minimum' else 'minimum'
    far = S.choice('far', [None, 0, 1])
    if far is not None:
        far = {'integer': (-5, 5), 'float': (-5.5, 5.5), 'decimal': (D(-5), D(5)), 'date': (date(2023, 1, 1), date(2026, 1, 1)), 'time': (time(0), time(23, 59, 59)),
            'datetime': (datetime(2023, 1, 1, tzinfo=UTC), datetime(2026, 1, 1, tzinfo=UTC))}[kind][far]
    out = attempt(CLASSES[kind], **{which: value, other: far})
    allowed = {'integer': ['int'], 'float': ['float'], 'decimal': ['decimal'], 'date': ['date', 'datetime'], 'time': ['time'], 'datetime': ['datetime']}[kind]
    expected = value
    if kind == 'decimal' and what == 'text' and value in NUMERAL:
        expected = NUMERAL[value]
    elif what != 'none' and what not in allowed:
        S.cover('refused')
        refused(S, out, 'a limit of another type is refused')
        return
    S.cover('taken')
    S.check(out.ok, 'a limit of the type is taken')
    if kind == 'date' and what == 'datetime':
        expected = value.date()
    got = getattr(out.value, which)
    S.check(type(got) is type(expected), 'as it is')
    S.same(got, expected, 'as it is')
    if far is None:
        S.check(getattr(out.value, other) is None, 'the other limit stays absent')
    else:
        S.same(getattr(out.value, other), far, 'the other limit stays as it is')
    if kind == 'date' and what != 'none' and far is None:
        for candidate in (expected, value):
            S.check(attempt(out.value.process, candidate).ok, 'the limit itself is within the limits')


def number(text, lo, hi):
    for c in text:
        if c not in '0123456789':
            return None
    if text == '':
        return None
    n = 0
    for c in text:
        n = n * 10 + (ord(c) - 48)
    return n if lo <= n <= hi else None


@harness('C36', variants=['date', 'time', 'datetime'], covers=['taken', 'refused'])
def texts(S, kind):
    """A limit in the form of a text with any 0-2 digits or letters in place of the day or minute."""
    part = S.text('part', 2, 0, charset('0123456789x'))
    pattern = {'date': '2024-02-%s', 'time': '12:%s:07', 'datetime': '2024-02-%sT03:04:05Z'}[kind]
    which = S.choice('which', ['minimum', 'maximum'])
    n = number(part, 0, 59) if kind == 'time' else number(part, 1, 29)
    out = attempt(CLASSES[kind], **{which: pattern % part})
    if n is None:
        S.cover('refused')
        refused(S, out, 'a text in another form is refused')
        return
    S.cover('taken')
    S.check(out.ok, 'a text in the form is taken')
    expected = {'date': lambda: date(2024, 2, n), 'time': lambda: time(12, n, 7), 'datetime': lambda: datetime(2024, 2, n, 3, 4, 5, tzinfo=UTC)}[kind]()
    S.same(getattr(out.value, which), expected, 'as what it stands for')


@harness('C36', variants=['text', 'binary', 'sequence'], covers=['taken', 'refused'])
def lengths(S, kind):
    """Lengths of any integer and values of thirteen other types, with and without nonempty."""
    what, value = pool(S, 'value')
    which = S.choice('which', ['min_length', 'max_length'])
    nonempty = S.bool('nonempty')
    params = {which: value}
    if nonempty:
        params['nonempty'] = True
    other = 'max_length' if which == 'min_length' else 'min_length'
    if S.bool('both lengths'):
        params[other] = S.int('other', 0, 3)
    out = attempt(Sequence, Integer(), **params) if kind == 'sequence' else attempt(CLASSES[kind], **params)
    if what != 'none' and (what != 'int' or value < 0):
        S.cover('refused')
        refused(S, out, 'a length must be a number of zero or more')
        return
    S.cover('taken')
    S.check(out.ok, 'a length is taken')
    field = out.value
    expected = value
    if which == 'min_length' and what == 'none' and nonempty and kind != 'sequence':
        expected = 1
    S.same(getattr(field, which), expected, 'as it is, or one for a field which must not be empty')
    if other in params:
        S.same(getattr(field, other), params[other], 'the other length too')
    elif which == 'max_length':
        S.check(field.min_length == (1 if nonempty and kind != 'sequence' else None), 'a field which must not be empty has one element at least')
    S.check(field.required is nonempty and field.nonnull is nonempty, 'a field which must not be empty is required and not null')


TYPES = ('text', 'integer', 'date', 'map', 'field')


def split(text):
    parts = ['']
    for c in text:
        if c == ' ':
            parts.append('')
        else:
            parts[-1] += c
    return parts


LISTED = {
    'enumeration': (lambda v: Enumeration(v), lambda f: f.enumeration),
    'ignored_values': (lambda v: Enumeration('a b', ignored_values=v), lambda f: f.ignored_values),
    'required_keys': (lambda v: Map(Integer(), required_keys=v), lambda f: f.required_keys),
    'key_order': (lambda v: Structure({'a': Integer(), 'b': Integer()}, key_order=v), lambda f: f.key_order),
    'valid_surrogates': (lambda v: Surrogate(v), lambda f: f.valid_surrogates),
    'valid_fields': (lambda v: Definition(v), lambda f: f.valid_fields),
}


@harness('C36', variants=sorted(LISTED), covers=['taken'])
def lists(S, kind):
    """Lists of keys or values abbreviated as one text of 0-4 letters and blanks (of the names of field types where those are meant)."""
    build, read = LISTED[kind]
    if kind == 'valid_fields':
        names = [S.choice('n%d' % i, ['text', 'map', 'date', 'txt', '']) for i in range(S.pick('n', 3))]
        text = ' '.join(names)
        parts = split(text)
    else:
        text = S.text('text', 4, 0, 'ab ')
        parts = split(text)
    spelled = S.bool('spelled')
    out = attempt(build, list(parts) if spelled else text)
    if kind == 'valid_fields' and (parts != [''] if not spelled else True) and [p for p in parts if p not in Field.types]:
        refused(S, out, 'the name of no field type is refused')
        return
    if kind == 'valid_fields' and [p for p in parts if p not in Field.types]:
        refused(S, out, 'the name of no field type is refused')
        return
    S.cover('taken')
    S.check(out.ok, 'a list is taken')
    got = read(out.value)
    if text == '' and not spelled and kind == 'key_order':
        S.check(got is None, 'an empty text orders nothing')
        return
    S.check(isinstance(got, (list, tuple)), 'a text stands for a list')
    S.same(list(got), parts, 'of its words')


@harness('C36', variants=['required_keys', 'key_order', 'ignored_values', 'valid_fields', 'enumerated', 'ignored', 'pairs'], covers=['refused'])
def other_lists(S, kind):
    """Values of fourteen types in place of a list of keys or values, or among enumerated and ignored values; two parameters which exclude each other."""
    what, value = pool(S, 'value', kind in ('enumerated', 'ignored'))
    if kind == 'pairs':
        a, b = S.bool('multiple'), S.bool('extended')
        out = attempt(Email, multiple=a, extended=b)
        if a and b:
            S.cover('refused')
            refused(S, out, 'an extended list of addresses is refused')
        else:
            S.check(out.ok and out.value.multiple is a and out.value.extended is b, 'either is taken')
        return
    if kind in ('enumerated', 'ignored'):
        values = [1, value] if S.bool('last') else [value, 'x']
        out = attempt(Enumeration, values) if kind == 'enumerated' else attempt(Enumeration, ['y'], ignored_values=values)
        if what in ('int', 'none', 'text', 'float', 'list', 'dict'):
            S.check(out.ok, 'a plain value is taken')
            S.same(list(out.value.enumeration if kind == 'enumerated' else out.value.ignored_values), values, 'as it is')
        else:
            S.cover('refused')
            refused(S, out, 'any other value is refused')
        return
    S.assume(what not in ('none', 'text', 'list'))
    falsy = what == 'float' and value == 0.0 or what == 'int' and value == 0 or what == 'decimal' and value == 0
    S.assume(not falsy)
    out = attempt({'required_keys': lambda: Map(Integer(), required_keys=value), 'key_order': lambda: Structure({}, key_order=value),
        'ignored_values': lambda: Enumeration(['y'], ignored_values=value), 'valid_fields': lambda: Definition(value)}[kind])
    S.cover('refused')
    refused(S, out, 'what is no list is refused')


NESTED = {'sequence': (lambda v: Sequence(v[0]), lambda f: [f.item], 1), 'map': (lambda v: Map(v[0]), lambda f: [f.value], 1),
    'keys': (lambda v: Map(Integer(), key=v[0]), lambda f: [f.key], 1), 'tuple': (lambda v: Tuple(v), lambda f: list(f.values), 2),
    'union': (lambda v: Union(v), lambda f: list(f.fields), 2), 'structure': (lambda v: Structure(dict(zip('ab', v))), lambda f: [f.structure[k] for k in 'ab'], 2),
    'polymorphic': (lambda v: Structure({'x': {'a': v[0]}, 'y': {'b': v[1]}}, polymorphic_on='t'), lambda f: [f.structure['x']['a'], f.structure['y']['b']], 2),
    'discriminator': (lambda v: Structure({'x': {}}, polymorphic_on=v[0]), lambda f: [f.polymorphic_on], 1)}


@harness('C36', variants=sorted(NESTED), covers=['taken', 'refused'])
def nested(S, kind):
    """Values of fourteen types, defined placeholders and fields in place of each nested field."""
    build, read, size = NESTED[kind]
    values, wanted, wrong = [], [], False
    for i in range(size):
        how = S.choice('how%d' % i, ['field', 'defined', 'other'] if kind not in ('keys', 'discriminator') else ['field', 'other'])
        f = Text(name='t', required=True) if kind == 'discriminator' else Text()
        if how == 'other':
            what, v = pool(S, 'v%d' % i)
            S.assume(what != 'field' and not (kind == 'keys' and what == 'none') and not (kind == 'discriminator' and what not in ('object', 'class', 'bytes', 'list', 'dict')))
            wrong = True
            values.append(v)
        else:
            values.append(Undefined(f) if how == 'defined' else f)
            wanted.append(f)
    if kind in ('tuple', 'union') and S.bool('listed'):
        values = list(values)
    elif kind in ('tuple', 'union'):
        values = tuple(values)
    out = attempt(build, values)
    if wrong:
        S.cover('refused')
        refused(S, out, 'what is no field is refused')
        return
    S.cover('taken')
    S.check(out.ok, 'fields are taken')
    got = read(out.value)
    for a, b in zip(got, wanted):
        S.check(a is b, 'as they are')


@harness('C36', variants=['tuple', 'union', 'structure', 'variant'], covers=['refused'])
def shapes(S, kind):
    """Values of fourteen types, and empty lists, in place of the fields of a tuple, union, structure or variant."""
    what, value = pool(S, 'value')
    if S.bool('empty'):
        value = [] if S.bool('list') else ()
    elif what == 'list':
        value = [3]
    out = attempt({'tuple': lambda: Tuple(value), 'union': lambda: Union(value), 'structure': lambda: Structure(value), 'variant':
        lambda: Structure({'x': value}, polymorphic_on='t')}[kind])
    S.cover('refused')
    refused(S, out, 'what holds no fields is refused')


@harness('C36', covers=['common'])
def variants(S):
    """Members common to all variants, each member named or not, in three variants; the discriminator by name or as a field, required or not."""
    named, own = S.bool('named'), S.bool('own named')
    shared = Integer(name='own') if named else Integer()
    mine = Text(name='other') if own else Text()
    structure = {'x': {'a': mine}, 'y': {}, 'z': {'b': Date()}}
    if S.bool('common'):
        structure['*'] = {'s': shared}
        S.cover('common')
        names = {'x': ['a', 's', 't'], 'y': ['s', 't'], 'z': ['b', 's', 't']}
    else:
        names = {'x': ['a', 't'], 'y': ['t'], 'z': ['b', 't']}
    how = S.choice('how', ['name', 'field', 'required'])
    on = 't' if how == 'name' else Text(name='t', required=how == 'required')
    field = Structure(structure, polymorphic_on=on)
    S.same(sorted(field.structure), ['x', 'y', 'z'], 'the variants are those declared')
    for k in names:
        members = field.structure[k]
        S.same(sorted(members), names[k], 'a variant has its own members, those common to all and the discriminator')
        S.check(members['t'].constant == k and members['t'].required, 'the discriminator of a variant is its name')
        if 's' in members:
            S.check(members['s'] is shared and shared.name == ('own' if named else 's'), 'a common member is that of all variants')
    S.check(field.structure['x']['a'] is mine and mine.name == ('other' if own else 'a'), 'a member is named after its key')
    S.check(field.polymorphic_on.name == 't' and field.polymorphic_on.required, 'the discriminator is required')
    if how == 'name':
        S.check(field.polymorphic_on.nonnull and sorted(field.polymorphic_on.enumeration) == ['x', 'y', 'z'], 'and one of the names of the variants')


class Maker(object):
    @staticmethod
    def __instantiate__(field, value, key=None):
        return ('made', value)

    @staticmethod
    def __extract__(field, subject):
        return ('taken', subject)


def plain(field, value, key=None):
    return ('plain', value)


module = type(scheme)('symscheme_makers')
module.Maker = Maker
module.plain = plain
import sys
sys.modules['symscheme_makers'] = module


@harness('C36', variants=['flags', 'texts', 'values', 'extra', 'makers', 'defaults'])
def common(S, what):
    """The parameters all fields share: flags, texts and values (symbolic), others kept as aspects, makers given or named, generated defaults."""
    cls = S.choice('class', [Integer, Date, Field, Error])
    if what == 'flags':
        p = dict((k, S.bool(k)) for k in ('nonnull', 'required', 'ignore_null') if S.bool('has ' + k))
        nonempty = S.bool('nonempty')
        field = cls(nonempty=nonempty, **p)
        S.check(field.nonnull is (nonempty or p.get('nonnull', False)) and field.required is (nonempty or p.get('required', False)),
            'a field which must not be empty is required and not null')
        S.check(field.ignore_null is p.get('ignore_null', False), 'flags are taken as they are')
    elif what == 'texts':
        p = dict((k, S.text(k, 1)) for k in ('name', 'description', 'title', 'notes') if S.bool('has ' + k))
        field = cls(**p)
        for k in ('name', 'description', 'title', 'notes'):
            S.same(getattr(field, k), p.get(k), 'texts are taken as they are')
    elif what == 'values':
        p = dict((k, S.int(k)) for k in ('default', 'constant') if S.bool('has ' + k))
        field = cls(**p)
        for k in ('default', 'constant'):
            S.same(getattr(field, k), p.get(k), 'values are taken as they are')
    elif what == 'extra':
        aspects = dict((k, S.int('aspect ' + k)) for k in 'ab' if S.bool('aspects ' + k))
        p = dict((k, S.choice('extra ' + k, [None, 0, '', False, 7])) for k in ('b', 'c', '_d') if S.bool('has ' + k))
        given = dict(aspects)
        field = cls(aspects=given, **p)
        S.same(given, aspects, 'the mapping of aspects stays as it is')
        given['a'], given['z'] = 99, 1
        S.check(field.z is None, 'and is not that of the field')
        expected = dict(aspects)
        for k in ('b', 'c'):
            if p.get(k) is not None:
                expected[k] = p[k]
        S.same(field.aspects, expected, 'other parameters which are not null are aspects')
        for k in expected:
            S.check(getattr(field, k) == expected[k], 'aspects can be read as attributes')
        S.check(field.absent is None, 'an absent aspect is null')
    elif what == 'makers':
        which = S.choice('maker', ['Maker', 'plain'])
        maker = getattr(module, which)
        field = cls(instantiator='symscheme_makers.' + which if S.bool('named') else maker, extractor='symscheme_makers.' + which if S.bool('extractor named') else maker)
        value = S.int('value')
        S.same(field.instantiator(field, value), ('made' if which == 'Maker' else 'plain', value), 'the instantiator is what was given or named')
        S.same(field.extractor(field, value), ('taken' if which == 'Maker' else 'plain', value), 'the extractor is what was given or named')
    else:
        d, c = S.choice('default', [None, 0, 7]), S.choice('constant', [None, 0, 5])
        members = {'a': Integer(default=d), 'b': Integer(constant=c), 'c': Integer()}
        how = S.choice('how', [True, False, 'x', 'zz', 3])
        polymorphic = S.bool('polymorphic')
        own = S.choice('own', [None, {'a': 9}])
        expected = dict((k, v) for k, v in (('a', d), ('b', c)) if v is not None)
        if polymorphic:
            out = attempt(Structure, {'x': members, 'y': {}}, polymorphic_on='t', generate_default=how, default=own)
            expected['t'] = 'x'
            wrong = how not in (False, 'x')
        else:
            out = attempt(Structure, members, generate_default=how, default=own)
            wrong = how not in (True, False)
        if own is not None or how is False:
            S.check(out.ok, 'a default can be declared')
            S.same(out.value.default, own, 'a declared default stays')
        elif wrong:
            refused(S, out, 'defaults of no variant are refused')
        else:
            S.check(out.ok, 'defaults can be generated')
            S.same(out.value.default, expected, 'the generated default holds the defaults and constants of the members')
