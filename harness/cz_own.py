"""Types of fields of one's own: subclasses of the library's fields with errors, parameters, patterns, wire forms and checks of their own, or none."""
from hlib import *
from scheme.formats import *
import re


class OwnStepped(Integer):
    """With an error, a parameter and a check of its own."""
    errors = [FieldError('step', 'wrong step', '%(field)s must be a multiple of %(step)d')]
    parameters = {'step': 2}

    def __init__(self, step=2, **params):
        super(OwnStepped, self).__init__(**params)
        self.step = step

    def _validate_value(self, value, ancestry):
        super(OwnStepped, self)._validate_value(value, ancestry)
        if value % self.step:
            raise ValidationError(identity=ancestry, field=self, value=value).construct('step', step=self.step)


class OwnWorded(OwnStepped):
    """Overriding one of its base's errors."""
    errors = [FieldError('invalid', 'own title', '%(field)s is off the mark')]


class OwnMarked(Token):
    """With a pattern of its own."""
    pattern = re.compile('^x+$')


class OwnPair(Field):
    """With a wire form of its own: pairs as texts."""
    errors = [FieldError('invalid', 'invalid value', '%(field)s must be a pair')]

    def _serialize_value(self, value):
        return '%d/%d' % value

    def _unserialize_value(self, value, ancestry):
        if isinstance(value, tuple):
            return value
        try:
            a, b = value.split('/')
            return (int(a), int(b))
        except Exception:
            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')

    def _validate_value(self, value, ancestry):
        if not isinstance(value, tuple):
            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')


class OwnRounded(Integer):
    """Giving another value than the one it is given."""
    def _validate_value(self, value, ancestry):
        super(OwnRounded, self)._validate_value(value, ancestry)
        return value - value % 2


class OwnLoud(Text):
    """Preprocessing on its own."""
    def preprocessor(self, value):
        return value.upper()


class OwnRecord(Structure):
    """A structure of its own, with nothing of its own."""


class OwnRow(Sequence):
    """A sequence of its own."""
    errors = [FieldError('duplicate', 'own duplicate', '%(field)s repeats itself')]


class OwnFirst(Field):
    errors = [FieldError('one', 'one', 'one of the first'), FieldError('both', 'both', 'both of the first')]
    parameters = {'p': 1, 'q': 1}


class OwnSecond(Field):
    errors = [FieldError('two', 'two', 'two of the second'), FieldError('both', 'both', 'both of the second')]
    parameters = {'q': 2, 'r': 2}


class OwnBoth(OwnFirst, OwnSecond):
    pass


PLAINLY = {}
for base in (Integer, Float, Decimal, Text, Token, UUID, Email, Enumeration, Boolean, Binary, Date, Time, DateTime, Field, Structure, Map, Sequence, Tuple,
        Union, Definition, Error, Object, Surrogate):
    PLAINLY[base] = type(base)('OwnPlain' + base.__name__, (base,), {})


def plainly(field):
    """The same field, of a subclass which adds nothing."""
    twin = field.clone()
    twin.__class__ = PLAINLY[type(field)]
    return twin


@harness('C06', variants=EVERY)
def plain_subclasses(S, kind):
    """Twenty-eight kinds of fields, natively and by wire, and one of their subclass which adds nothing: the same values are taken and refused, to the same
    results and errors."""
    field = every_field(kind)
    own = plainly(field)
    given = S.choice('given', [None, 0, 3, 1.5, True, '', 'a', 'a@b.co', 'red', b'ab', [], [1], (1, 2), {}, {'a': 1}, {'type': 'x', 'a': 1}, {'k': 2}, {3: 3},
        date(2020, 1, 2), time(1, 2, 3), datetime(2020, 1, 2, tzinfo=UTC), D('1.5'), Integer(), '2020-01-02', '01:02:03', '2020-01-02T00:00:00Z', '3', '1.5',
        {'fieldtype': 'integer'}, 'scheme.field.Field', [1, 2], [1, 1]])
    phase, serialized = S.choice('call', CALLS)
    expected, got = attempt(field.process, given, phase, serialized), attempt(own.process, given, phase, serialized)
    S.check(got.kind == expected.kind and got.token == expected.token, 'taken and refused alike')
    if got.ok and not isinstance(expected.value, Field):
        S.same(got.value, expected.value, 'to the same value')
    elif not got.ok:
        S.check(type(got.value) is type(expected.value), 'by the same error')
        if got.error:
            S.same(got.value.errors, expected.value.errors, 'and message')


D = decimal_module.Decimal
MAKERS = {
    'stepped': (lambda **p: OwnStepped(**p), 'ownstepped'), 'worded': (lambda **p: OwnWorded(**p), 'ownworded'), 'marked': (lambda **p: OwnMarked(**p), 'ownmarked'),
    'pair': (lambda **p: OwnPair(**p), 'ownpair'), 'rounded': (lambda **p: OwnRounded(**p), 'ownrounded'), 'loud': (lambda **p: OwnLoud(**p), 'ownloud'),
    'record': (lambda **p: OwnRecord({'a': OwnStepped(step=3)}, **p), 'ownrecord'), 'row': (lambda **p: OwnRow(Integer(), unique=True, **p), 'ownrow'),
}
CLASSES_ = {'stepped': OwnStepped, 'worded': OwnWorded, 'marked': OwnMarked, 'pair': OwnPair, 'rounded': OwnRounded, 'loud': OwnLoud, 'record': OwnRecord, 'row': OwnRow}


def acts(S, kind, field, label):
    """Values for the field, and what becomes of them: (value, result, or token and message)."""
    n = S.int('n', -3, 6)
    if kind in ('stepped', 'worded'):
        got = attempt(field.process, n)
        S.check(got.ok == (n % 2 == 0), label + ': its own check')
        if not got.ok:
            S.same(got.value.errors[0], {'token': 'step', 'title': 'wrong step', 'message': 'f must be a multiple of 2'}, label + ': its own error')
        wrong = attempt(field.process, 'x').value.errors[0]
        S.same((wrong['title'], wrong['message']), ('own title', 'f is off the mark') if kind == 'worded' else ('invalid value', 'f must be an integer'),
            label + ': the errors of its base, or its own of their name')
    elif kind == 'marked':
        t = S.text('t', 2, 0, 'xay')
        S.check(attempt(field.process, t).ok == (t in ('x', 'xx')), label + ': its own pattern')
    elif kind == 'pair':
        S.same(attempt(field.unserialize, '%d/7' % n).value, (n, 7), label + ': its own reading')
        S.same(attempt(field.serialize, (n, 7)).value, '%d/7' % n, label + ': its own writing')
        got = attempt(field.unserialize, S.choice('wrong', ['x', '1', '1/2/3', 3, None, []]))
        S.check(got.ok and got.value is None or got.error and got.value.errors[0]['message'] == 'f must be a pair', label + ': its own error')
    elif kind == 'rounded':
        S.same(attempt(field.process, n).value, n - n % 2, label + ': its own value')
        S.same(attempt(field.serialize, n).value, n - n % 2, label + ': written as well')
    elif kind == 'loud':
        S.same(attempt(field.process, S.choice('word', ['ab', 'Ab', 'AB'])).value, 'AB', label + ': its own preprocessing')
    elif kind == 'record':
        got = attempt(field.process, {'a': n})
        S.check(got.ok == (n % 3 == 0), label + ': its members check as well')
    elif kind == 'row':
        got = attempt(field.process, [n, 1])
        S.check(got.ok == (n != 1), label + ': its check')
        if not got.ok:
            S.same(got.value.errors[0]['message'], 'f repeats itself', label + ': its own error')


@harness('C31', variants=sorted(MAKERS))
def own_types(S, kind):
    """Eight types of one's own, alone and as members of seven containers: their own checks, errors, patterns, forms and preprocessing apply, and nowhere else."""
    field = MAKERS[kind][0](name='f')
    if S.bool('alone'):
        acts(S, kind, field, 'alone')
    value = {'stepped': 4, 'worded': 4, 'marked': 'x', 'pair': (1, 2), 'rounded': 4, 'loud': 'A', 'record': {'a': 3}, 'row': [1]}[kind]
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, field, place)
    S.same(attempt(outer.process, wrap(value)).value, wrap(value), 'within others')
    out = attempt(outer.serialize, wrap(value)).value
    S.same(attempt(outer.unserialize, out).value, wrap(value), 'and by the wire')
    for base in (Field, Integer, Text, Token, Structure, Sequence):
        S.check('step' not in base.errors and 'step' not in base.parameters, 'the bases stay')
    S.check(attempt(Integer().process, 3).ok and attempt(Token().process, 'a').ok and attempt(Sequence(Integer()).process, [1, 1]).ok, 'as they act')
    S.same(attempt(Integer(name='f').process, 'x').value.errors[0]['message'], 'f must be an integer', 'and tell')
    S.same(attempt(Sequence(Integer(), unique=True, name='f').process, [1, 1]).value.errors[0]['message'], 'f must not have duplicate values', 'their errors')


@harness('C13', variants=sorted(MAKERS))
def own_described(S, kind):
    """The same eight types, described and rebuilt, alone, within others and from the name of their type: of their type, with their own and inherited parameters,
    and acting alike."""
    make, name = MAKERS[kind]
    field = make(name='f', title='t')
    description = attempt(field.describe).value
    S.check(description['fieldtype'] == name and description['title'] == 't', 'described by its type')
    again = attempt(Field.reconstruct, description).value
    S.check(type(again) is CLASSES_[kind], 'rebuilt of its type')
    S.same(attempt(again.describe).value, description, 'described alike')
    acts(S, kind, again, 'rebuilt')
    nested = attempt(Field.reconstruct, attempt(Map(Structure({'f': field})).describe).value).value
    S.check(type(nested.value.structure['f']) is CLASSES_[kind], 'within others as well')
    S.same(attempt(Definition(valid_fields=[name]).process, field).value, field, 'a definition knows it')
    S.check(attempt(Definition(valid_fields=['boolean']).process, field).error, 'by its type')


@harness('C13')
def own_parameters(S):
    """A type of one's own with a parameter of its own, of any value in 1-4, and limits: its description has both when they differ from what is declared, or all
    of them when verbose, and rebuilds them."""
    step, low = S.int('step', 1, 4), S.choice('low', [None, -1, 2])
    field = S.choice('class', [OwnStepped, OwnWorded])(step=step, minimum=low)
    description = attempt(field.describe).value
    if step != 2:
        S.check(description['step'] == step, 'its own')
    S.check(description.get('minimum') == low and ('minimum' in description) == (low is not None), 'and its base\'s')
    S.check(attempt(field.describe, verbose=True).value['step'] == step, 'verbosely')
    again = attempt(Field.reconstruct, description).value
    n = S.int('n', -4, 6)
    S.check(attempt(again.process, n).ok == (n % step == 0 and (low is None or n >= low)), 'rebuilt')
    S.check(attempt(attempt(field.clone, minimum=0).value.process, n).ok == (n % step == 0 and n >= 0), 'cloned')


@harness('C14', variants=sorted(MAKERS))
def own_cloned(S, kind):
    """The same eight types, cloned, and copied along with what they are within: of their type, and acting alike."""
    field = MAKERS[kind][0](name='f')
    clone = attempt(field.clone).value
    S.check(type(clone) is CLASSES_[kind] and clone is not field, 'of its type')
    acts(S, kind, clone, 'cloned')
    within = attempt(Structure({'f': field}).clone).value
    S.check(type(within.structure['f']) is CLASSES_[kind] and within.structure['f'] is not field, 'within others as well')


@harness('C24')
def own_transformed(S):
    """A record and rows of types of one's own, transformed and visited: each nested field is reached, and the containers keep their type."""
    inner = OwnStepped(step=S.int('step', 1, 3), name='a')
    field = OwnRecord({'a': inner, 'r': OwnRow(OwnRecord({'a': inner.clone()})), 'm': Map(OwnMarked())})
    target = S.choice('target', [OwnStepped, OwnMarked, OwnRow, OwnLoud])
    seen = []

    def transformer(f):
        seen.append(type(f))
        if isinstance(f, target):
            return Boolean(name=f.name)
    got = attempt(field.transform, transformer).value
    S.check((got is field) == (target is OwnLoud) and type(got) is OwnRecord, 'of its type')
    S.check(seen.count(OwnStepped) == (1 if target is OwnRow else 2) and seen.count(OwnMarked) == 1, 'each is reached')
    S.check(type(got.structure['a']) is (Boolean if target is OwnStepped else OwnStepped), 'replaced or not')
    S.check(type(got.structure['r']) is (Boolean if target is OwnRow else OwnRow), 'with what is within')
    visited = []
    attempt(Field.visit, attempt(field.describe).value, lambda spec: visited.append(spec['fieldtype']))
    S.same(sorted(visited), ['map', 'ownrow', 'ownstepped'], 'and visited')


@harness('C36')
def own_errors_of_bases(S):
    """Types of one's own with two bases, and instances with errors of their own: they have the errors and parameters of both, those of the first before those
    of the second, and other types have theirs only."""
    S.check(sorted(t for t in OwnBoth.errors if t in ('one', 'two', 'both', 'invalid', 'nonnull')) == ['both', 'invalid', 'nonnull', 'one', 'two'], 'of both')
    S.same(OwnBoth.errors['both'].message, 'both of the first', 'the first comes first')
    S.check((OwnBoth.parameters['p'], OwnBoth.parameters['q'], OwnBoth.parameters['r']) == (1, 1, 2), 'parameters as well')
    S.check('two' not in OwnFirst.errors and 'one' not in OwnSecond.errors and 'one' not in Field.errors and 'p' not in Field.parameters, 'others have theirs only')
    token = S.choice('token', ['one', 'both', 'invalid', 'new'])
    own = OwnBoth(errors=[FieldError(token, 'own', 'own words')])
    S.check(own.errors[token].message == 'own words' and OwnBoth.errors.get(token) is not own.errors[token], 'and instances of their own')
    S.check(OwnBoth().errors is OwnBoth.errors and OwnBoth.type == 'ownboth' and Field.types['ownboth'] is OwnBoth, 'known by its type')


@harness('C02', variants=['json', 'structuredtext', 'yaml'])
def own_formatted(S, kind):
    """A map of records of types of one's own with wire forms of their own, written as JSON, structured text and YAML, and read back."""
    n = S.int('n', 0, 4)
    field = Map(OwnRecord({'p': OwnPair(), 's': OwnStepped(), 'r': OwnRow(OwnPair())}))
    value = {'k': {'p': (n, 1), 's': 2 * n, 'r': [(n, n), (1, n + 1)]}}
    text = attempt(field.serialize, value, kind)
    S.check(text.ok, 'written')
    S.same(attempt(field.unserialize, text.value, kind).value, value, 'and read')


GOOD = {'binary': b'ab', 'boolean': True, 'date': date(2020, 1, 2), 'datetime': datetime(2020, 1, 2, tzinfo=UTC), 'decimal': D('1.5'), 'definition': Integer(),
    'email': 'a@b.co', 'emails': 'a@b.co,c@d.co', 'extended': 'a@b.co', 'enumeration': 'red', 'error': StructuralError({'token': 't', 'title': 'x', 'message': 'm'}),
    'float': 1.5, 'integer': 3, 'keyed': {3: 4}, 'map': {'k': [1]}, 'sequence': [[1], {}], 'structure': {'a': 1}, 'text': 'ab', 'time': time(1, 2, 3), 'token': 'a:b',
    'tuple': ([1], 2), 'uuid': '01234567-89ab-cdef-0123-456789abcdef', 'any': {'k': [1]}, 'union': 'ab', 'polymorphic': {'type': 'x', 'a': 1},
    'surrogate': scheme.surrogate({'a': 1}), 'object': FieldError, 'unique': [1, 2]}


def snapshot(v):
    """What a value is made of."""
    if isinstance(v, dict):
        return [type(v).__name__] + [(k, snapshot(v[k])) for k in v]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [snapshot(x) for x in v]
    return (type(v).__name__, id(v))


@harness('C12', variants=EVERY)
def every_kind_kept(S, kind):
    """A value of each of twenty-eight kinds of fields, in six places, put through any two of eight operations: it stays as it was, the second time gives what
    the first gave, and what is given can be changed without changing it."""
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, every_field(kind), place)
    operations = [lambda v: outer.process(v), lambda v: outer.process(v, OUTBOUND), lambda v: outer.serialize(v), lambda v: outer.extract(v),
        lambda v: outer.instantiate(v) if kind != 'union' else outer.extract(v), lambda v: outer.unserialize(outer.serialize(v)), lambda v: outer.extract(v, False),
        lambda v: outer.process([v])]
    first, second = S.choice('first', operations), S.choice('second', operations)
    value = wrap(GOOD[kind])
    before = snapshot(value)
    one = attempt(first, value)
    S.same(snapshot(value), before, 'the value stays')
    attempt(second, value)
    S.same(snapshot(value), before, 'again')
    two = attempt(first, value)
    S.check(one.kind == two.kind and (not one.ok or repr(one.value) == repr(two.value) or kind in ('definition', 'error')), 'the same is given again')
    if one.ok and place != 'alone' and isinstance(one.value, (dict, list)):
        S.check(one.value is not value and one.value is not two.value or kind == 'surrogate', 'anew')


@harness('C31', variants=EVERY)
def own_messages_apart(S, kind):
    """Each of twenty-eight kinds of fields with an error of its own, given as a list or a mapping: another field of the kind, made before or after, tells the
    error of the kind, and so do clones of it; the clones of the first tell its own."""
    own = FieldError('nonnull', 'own', 'own words of %(field)s')
    before = every_field(kind, nonnull=True, name='f')
    field = every_field(kind, nonnull=True, name='f', **({} if kind in ('email', 'emails', 'extended') else {'errors': S.choice('errors', [[own], {'nonnull': own}])}))
    after = every_field(kind, nonnull=True, name='f')
    mine = field if kind not in ('email', 'emails', 'extended') else None
    for other in (before, after, before.clone()):
        S.same(attempt(other.process, None).value.errors[0]['message'], 'f must be a non-null value', 'others tell theirs')
    if mine is not None:
        for f in (mine, mine.clone()):
            S.same(attempt(f.process, None).value.errors[0]['message'], 'own words of f', 'it tells its own')
    S.check(all(cls.errors.get('nonnull') is Field.errors['nonnull'] for cls in Field.types.values()), 'as all types do')


@harness('C36', variants=EVERY)
def aspects_apart(S, kind):
    """Each of twenty-eight kinds of fields given aspects as a mapping, with others beside it or not: they are what was given, the mapping stays as it was, and
    two fields given the same mapping change apart."""
    given = {'a': S.int('a', -1, 1), 'b': S.choice('b', ['x', '', False, None, [1]])}
    extra = {'c': 3, 'a': 9} if S.bool('beside') else {}
    before = dict(given)
    one = every_field(kind, aspects=given, **extra)
    two = every_field(kind, aspects=given)
    S.check(one.a == (9 if extra else given['a']) and one.b == given['b'] and one.c == (3 if extra else None), 'what was given')
    S.check(two.a == given['a'] and two.c is None, 'of each')
    S.same(given, before, 'the mapping stays')
    one.aspects['b'] = 'changed'
    S.check(two.b == before['b'] and given['b'] == before['b'], 'they change apart')
    S.check(one.clone().b == 'changed', 'and are cloned')
