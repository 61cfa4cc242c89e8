from hlib import *
import sys

# a package q with the modules q.q and q.A, and what is in them; paths are spelled over the alphabet q A . :
PATHS = charset('qA.:')
ModuleType = type(sys)


class A(object):
    __module__ = 'q'


class Inner(object):
    __module__ = 'q'


A.q = Inner
A.A = 7


class QA(object):
    __module__ = 'q.q'


QA.__name__ = 'AA'


def function():
    pass


class Thing(object):
    __module__ = 'q.q'

    def __init__(self, name):
        self.name = name


function.__module__ = 'q.A'
q, qq, qA = ModuleType('q'), ModuleType('q.q'), ModuleType('q.A')
one, two = Thing('one'), Thing('two')
q.__path__ = []
q.q, q.A = qq, qA
q.AA = A
for holder in (A, Inner):
    holder.D = type('D', (), {'__module__': 'q', 'q': type('q', (), {'AA': type('AA', (), {'q': A, 'D': 5}), 'q': 6}), 'AA': QA})
A.__name__ = 'AA'
qq.AA = QA
qq.A = one
qq.qq = two
qA.q = function
qA.A = None
sys.modules['q'], sys.modules['q.q'], sys.modules['q.A'] = q, qq, qA

OBJECTS = {'q': q, 'q.q': qq, 'q.A': qA, 'q.AA': A, 'q.q.AA': QA, 'q.q.A': one, 'q.q.qq': two, 'q.A.q': function}
REACHED = {'q.AA.q': Inner, 'q.AA.A': 7, 'q.A.A': None}
COLONS = {'q:q': qq, 'q:A': qA, 'q:AA': A, 'q.q:AA': QA, 'q.q:A': one, 'q.q:qq': two, 'q.A:q': function, 'q.A:A': None, 'q:q.A': one, 'q:AA.q': Inner,
    'q:AA.A': 7, 'q:A.q': function, 'q:A.A': None, 'q:q.AA': QA, 'q:q.qq': two}
PLACES = ['alone', 'member', 'item', 'mapped', 'placed']


def named(path):
    """(whether the path names something, what)"""
    for table in (OBJECTS, REACHED, COLONS):
        for known in table:
            if path == known:
                return True, table[known]
    return False, None


def placed(where, field, value):
    if where == 'member':
        return Structure({'s': field, 'n': Integer()}), {'s': value, 'n': 1}
    if where == 'item':
        return Sequence(field), [value, value]
    if where == 'mapped':
        return Map(field), {'k': value}
    if where == 'placed':
        return Tuple((field, Integer())), (value, 1)
    return field, value


def taken(where, value):
    if where == 'member':
        return value['s']
    if where in ('item', 'placed'):
        return value[0]
    if where == 'mapped':
        return value['k']
    return value


@harness('C34', variants=[(p, len(o)) for p in PLACES for o in ('q', 'q.A', 'q.AA', 'q.q.A', 'q.q.AA')], covers=['identified'])
def identified(S, variant):
    """modules, classes, functions and other objects of a package of three modules, repeatedly in any order of two, alone and in any container"""
    where, length = variant
    for round in (1, 2):
        path = S.choice('object %d' % round, [p for p in sorted(OBJECTS) if round == 2 or len(p) == length])
        schema, whole = placed(where, Object(), OBJECTS[path])
        S.check(taken(where, attempt(schema.process, whole).value) is OBJECTS[path], 'an object is its own value')
        wire = attempt(schema.serialize, whole)
        S.check(wire.ok, 'an object of a module can be identified')
        S.same(taken(where, wire.value), path, 'by its path')
        back = attempt(schema.unserialize, wire.value)
        S.check(back.ok and taken(where, back.value) is OBJECTS[path], 'which imports it')
        S.check(taken(where, attempt(schema.unserialize, whole).value) is OBJECTS[path], 'what is no text is read as it is')
        S.same(taken(where, attempt(schema.serialize, taken('alone', wire.value)).value) if where == 'alone' else path, path, 'and a path is its own wire form')
    S.cover('identified')


@harness('C34', variants=list(range(8)), covers=[])
def imported(S, length):
    """any path of up to 5 (7) characters over those of the names in the package, a period and a colon"""
    S.assume(length <= S.b(6, 7))
    path = S.text('path', length, length, PATHS)
    exists, what = named(path)
    got = attempt(Object().unserialize, path)
    if exists:
        S.check(got.ok and got.value is what or got.value == what, 'a path yields what it names')
        S.check(scheme.util.import_object(path) is what, 'also when imported directly')
    else:
        S.check(got.error and got.token == 'import', 'a path that names nothing is an import error')
        S.check(path in got.value.errors[0]['message'] or ':' in path, 'which names it')
        direct = attempt(scheme.util.import_object, path)
        S.check(direct.kind == 'raised' and isinstance(direct.value, ImportError), 'also when imported directly')


@harness('C34', covers=['deep', 'nowhere'], quick=20000)
def deep(S):
    """paths of 2 to 6 names, any of two for each, with either separator between each two, into modules and classes four deep"""
    count = S.choice('count', [2, 3, 4, 5, 6])
    names = ['q'] + [S.choice('name %d' % i, ['q', 'AA', 'D'][:2 if i % 2 else 3]) for i in range(1, count)]
    colon = S.choice('colon', [None] + list(range(1, count)))
    path = ''
    for i, name in enumerate(names):
        path += ('' if i == 0 else ':' if i == colon else '.') + name
    target, modules = sys.modules['q'], 1
    for name in names[1:]:
        target = getattr(target, name, None) if target is not None else None
        if isinstance(target, ModuleType):
            modules += 1
    exists = target is not None and (colon is None or colon <= modules)
    got = attempt(Object().unserialize, path)
    if exists:
        S.cover('deep')
        S.check(got.ok and got.value is target, 'a path yields what it names, however deep')
    else:
        S.cover('nowhere')
        S.check(got.error and got.token == 'import', 'a path that names nothing is an import error')


@harness('C34', covers=['nothing'])
def unidentified(S):
    """objects that no module holds: plain values, instances, and functions within others; alone, in a structure and in a sequence"""
    def inner():
        pass
    inner.__module__ = 'q.q'
    value = {'int': lambda: S.int('int', 0, 4), 'list': lambda: [1], 'dict': lambda: {'a': 1}, 'instance': lambda: Thing('other'), 'bool': lambda: S.bool('bool'),
        'float': lambda: 1.5, 'object': lambda: object(), 'inner': lambda: inner}[S.choice('kind', ['int', 'list', 'dict', 'instance', 'bool', 'float', 'object', 'inner'])]()
    place = S.choice('place', ['alone', 'member', 'item'])
    field = {'alone': Object(), 'member': Structure({'s': Object()}), 'item': Sequence(Object())}[place]
    got = attempt(field.serialize, {'alone': value, 'member': {'s': value}, 'item': [value]}[place])
    S.check(got.error, 'what has no path is refused')
    if place == 'alone':
        S.check(got.token == 'invalid', 'as an invalid value')
    S.cover('nothing')
