"""Callables given by others (extractors, instantiators, transformers) which raise, and operations which fail midway: what they raise comes out as promised,
and what was there before stays."""
from hlib import *
from scheme.formats import *
from scheme.util import set_nested_value
import os


class Own(Exception):
    pass


RAISED = [None, ValueError, KeyError, TypeError, AttributeError, ZeroDivisionError, OSError, StopIteration, RuntimeError, AssertionError, IndexError,
    ImportError, StructuralError, ValidationError, UndefinedFieldError, FieldExcludedError, CannotExtractError, Own]
KINDS = ['structure', 'polymorphic', 'map', 'sequence', 'tuple', 'integer', 'any', 'date']
VALUES = {'structure': {'a': 1}, 'polymorphic': {'type': 'x', 'a': 1}, 'map': {'k': 1}, 'sequence': [1], 'tuple': (1, 2), 'integer': 3, 'any': 'v',
    'date': date(2000, 1, 2)}


@harness('C16', variants=KINDS)
def raising_extractors(S, kind):
    """Extractors of eight kinds of fields, in six places, strictly or not, which raise one of seventeen exceptions or none: extraction fails as one that
    cannot extract, or gives the value."""
    how = S.choice('how', RAISED)

    def extractor(field, subject):
        if how is None:
            return subject
        raise how('message', 1)
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, every_field(kind, extractor=extractor), place)
    got = attempt(outer.extract, wrap(VALUES[kind]), S.bool('strict'))
    if how is None:
        S.check(got.ok, 'extracted')
        S.same(unwrap(got.value), VALUES[kind], 'as it is')
    else:
        S.check(got.kind == 'raised' and isinstance(got.value, CannotExtractError), 'cannot be extracted')


@harness('C16', variants=KINDS)
def raising_instantiators(S, kind):
    """Instantiators of eight kinds of fields, in six places, which raise one of seventeen exceptions or none: what was raised comes out as it is."""
    how = S.choice('how', RAISED)
    raised = how('message', 1) if how is not None else None

    def instantiator(field, value, key):
        if how is None:
            return [value]
        raise raised
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, every_field(kind, instantiator=instantiator), place)
    got = attempt(outer.instantiate, wrap(VALUES[kind]))
    if how is None:
        S.check(got.ok, 'instantiated')
        S.same(unwrap(got.value), [VALUES[kind]], 'by it')
    else:
        S.check(not got.ok and got.value is raised, 'raised as it was')


class Lacking(object):
    """An object whose attributes raise when asked for."""
    def __init__(self, how):
        self.how = how
        self.b = 2

    @property
    def a(self):
        if self.how is None:
            return 1
        raise self.how('message')


@harness('C16')
def lacking_objects(S):
    """Objects extracted loosely, alone, in lists or within others, one of whose attributes gives its value, is null, or raises that there is none: what there
    is is extracted."""
    how, place = S.choice('how', [None, AttributeError]), S.choice('place', ['alone', 'item', 'member', 'value', 'part'])
    field = Structure({'a': Integer(), 'b': Integer(), 'c': Integer()})
    given = Lacking(how)
    outer, subject, path = {'alone': lambda: (field, given, lambda v: v), 'item': lambda: (Sequence(field), [given], lambda v: v[0]),
        'member': lambda: (Structure({'m': field}), {'m': given}, lambda v: v['m']), 'value': lambda: (Map(field), {'k': given}, lambda v: v['k']),
        'part': lambda: (Tuple((field,)), (given,), lambda v: v[0])}[place]()
    got = attempt(outer.extract, subject, False)
    S.check(got.ok, 'extracted')
    S.same(path(got.value), {'b': 2} if how else {'a': 1, 'b': 2}, 'what there is')
    strictly = attempt(outer.extract, subject)
    S.check(strictly.kind == 'raised' and isinstance(strictly.value, CannotExtractError), 'only mappings, strictly')


@harness('C24')
def raising_transformers(S):
    """Transformers which raise at one of the five nested fields: what was raised comes out, and the field is as it was."""
    field = Structure({'s': Sequence(Map(Tuple((Integer(minimum=3), Text()))))})
    before = field.describe()
    at, how = S.choice('at', ['structure', 'sequence', 'map', 'tuple', 'integer', 'none']), S.choice('how', [ValueError, AttributeError, KeyError, Own])
    raised = how('message')

    def transformer(f):
        if f.type == at:
            raise raised
        if f.type == 'text':
            return Integer()
    got = attempt(field.transform, transformer)
    S.check(got.ok if at == 'none' else got.value is raised, 'as it was raised')
    S.same(field.describe(), before, 'as it was')


@harness('C25', variants=['extend', 'merge', 'replace', 'insert'])
def refused_edits(S, how):
    """Edits with a value which is no field, for a member that is there or not: refused; those which make a clone leave the structure as it was."""
    field = Structure({'a': Integer(minimum=1), 'b': Text()})
    before = field.describe()
    name, wrong = S.choice('name', ['a', 'c']), S.choice('wrong', [None, 'integer', Integer, {'fieldtype': 'integer'}, 3])
    if how == 'insert':
        got = attempt(field.insert, wrong, S.bool('overwrite'))
    elif how == 'merge':
        got = attempt(field.merge, {name: wrong}, S.bool('prefer'))
    else:
        got = attempt(getattr(field, how), {'b': Text(max_length=1), name: wrong} if S.bool('others') or how == 'replace' else {name: wrong})
    S.check(got.kind == 'raised' and isinstance(got.value, TypeError), 'refused')
    S.same(field.describe(), before, 'nothing is changed')


@harness('C25')
def edited_arguments(S):
    """Extending, merging and replacing with fields named as the member, otherwise, or not at all: the mapping given keeps its members, and fields named
    otherwise keep their name."""
    own = S.choice('name', ['a', 'b', 'z', None])
    key, how = S.choice('key', ['a', 'c']), S.choice('how', ['extend', 'merge', 'replace'])
    field, given = Structure({'a': Integer(), 'b': Text()}), Integer(name=own, minimum=5)
    argument = {key: given}
    if how == 'merge':
        attempt(field.merge, argument, True)
        edited = field
    else:
        edited = attempt(getattr(field, how), argument).value
        S.check(sorted(field.structure) == ['a', 'b'] and field.structure['a'].minimum is None, 'the structure itself stays')
    S.check(list(argument) == [key] and argument[key] is given, 'the mapping stays')
    S.check(given.name == own or own is None, 'a name stays')
    if how != 'replace' or key == 'a':
        S.check(edited.structure[key].name == key and edited.structure[key].minimum == 5, 'the member is named after its key')
    S.check(len(edited.structure) == (3 if key == 'c' and how != 'replace' else 2), 'and no others come')


@harness('C30')
def refused_writes(S):
    """Writing values that are refused, or cannot be written in a format, over a file and where there is none, through fields and formats: the file stays as
    it was, and none comes to be."""
    there = S.bool('there')
    path = os.path.join(S.scratch(), 'f.json')
    if there:
        with open(path, 'w') as f:
            f.write('before')
    S.choice('how', [
        lambda: attempt(Map(Integer()).write, path, {'k': 'x'}),
        lambda: attempt(Field().write, path, {'k': set()}),
        lambda: attempt(Json.write, path, {'k': set()}),
        lambda: attempt(Format.write, path, {'k': object()}, 'json'),
        lambda: attempt(Format.write, path, 3, 'csv', Sequence(Structure({}))),
        lambda: attempt(Format.write, path, 3, 'xml', None),
        lambda: attempt(Format.write, path, {}, 'absent'),
        lambda: attempt(Map(Integer()).write, path, {'k': 1}, 'absent'),
    ])()
    S.check(os.path.exists(path) == there, 'no file comes to be')
    if there:
        with open(path) as f:
            S.same(f.read(), 'before', 'and none is lost')


@harness('C29')
def refused_sets(S):
    """Setting a nested value whose way is missing or blocked at one of three steps: refused, and the data stay as they were."""
    step, blocked = S.choice('step', [0, 1, 2]), S.choice('blocked', [None, 3, 'text', [1], ()])
    path = ['a', 'b', 'c', 'd']
    data = {'a': {'b': {'c': {}}}, 'z': 1}
    inner = data
    for k in path[:step]:
        inner = inner[k]
    if blocked is None:
        del inner[path[step]]
    else:
        inner[path[step]] = blocked
    before = repr(data)
    got = attempt(set_nested_value, data, '.'.join(path), 9)
    S.check(got.kind == 'raised' and isinstance(got.value, KeyError if blocked is None else TypeError), 'refused')
    S.same(repr(data), before, 'nothing is set')


@harness('C31', variants=KINDS + ['text', 'email', 'enumeration', 'binary', 'definition', 'surrogate', 'object', 'keyed', 'decimal', 'time'])
def raising_preprocessors(S, kind):
    """Preprocessors of eighteen kinds of fields, in six places, which raise one of seventeen exceptions or none: the value is refused for its type there,
    with the traceback of what was raised, or taken."""
    how = S.choice('how', RAISED)

    def preprocessor(value):
        if how is None:
            return value
        raise how('message', 1)
    value = dict(VALUES, text='ab', email='a@b.co', enumeration='red', binary=b'ab', definition=Integer(), surrogate=scheme.surrogate({}), object=FieldError,
        keyed={3: 4}, decimal=decimal_module.Decimal('1.5'), time=time(1, 2, 3))[kind]
    place = S.choice('place', PLACES)
    outer, wrap, unwrap = placed(S, every_field(kind, preprocessor=preprocessor), place)
    got = attempt(outer.process, wrap(value), S.choice('phase', [INBOUND, OUTBOUND]))
    if how is None:
        S.check(got.ok, 'taken')
    else:
        S.check(got.error, 'refused')
        e = error_at(got, place)
        S.check(isinstance(e, InvalidTypeError) and [x['token'] for x in e.errors] == ['invalid'], 'for its type')
        S.check(e.tracebacks and how.__name__ in e.tracebacks[0], 'telling what was raised')
