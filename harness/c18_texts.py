from hlib import *

BRACKETS = charset('{}[]ab1 "%&=+;\n\xe9')
PLAINLY = charset('{a]b\xe9')
NAMES = charset('ab1 &=%+\xe9')

# nestings of leaves ('*'), by way of lists and mappings
SHAPES = {
    'leaf': '*',
    'none': [], 'empty': {},
    'pair': ['*', '*'], 'three': ['*', '*', '*'], 'single': ['*'],
    'mapped': {'k': '*'}, 'two': {'k': '*', 'm': '*'},
    'lists': [['*'], ['*']], 'empties': [[], {}, '*'], 'after': ['*', [], {}],
    'maps': {'k': {'m': '*'}, 'n': '*'}, 'mixed': ['*', {'k': ['*']}], 'within': {'k': ['*', '*']},
    'deep': {'k': [{'m': [['*']]}]}, 'hollow': {'k': [[], [[]], {}], 'm': {'n': {}}}, 'last': [{'k': []}, '*'],
}
SPELLED = ('true', 'false', 'null')


def text(S, name, size, least, alphabet):
    v = S.text(name, size, least, alphabet)
    return v


def leaf(S, name, sorts, size, least, alphabet):
    sort = S.choice(name + ' sort', sorts)
    if sort == 'text':
        return S.text(name, size, least, alphabet)
    if sort == 'integer':
        return S.int(name, -12, 12)
    if sort == 'boolean':
        return S.bool(name)
    if sort == 'null':
        return None
    if sort == 'few':
        return S.choice(name, [None, '{', 'b'])
    return S.choice(name, ['truest', 'nul', 'falsey', 'a' * 40, '12', '-3', '1.5', '{}', '[', 'a]b{c', ' true', '{true}', '[1]', '}{'])


def fill(S, shape, sorts, size, alphabet, lone=False):
    """The shape with a value at every leaf; a text alone in a list is not empty."""
    counter = [0]

    def make(s, lone):
        if s == '*':
            counter[0] += 1
            return leaf(S, 'leaf%d' % counter[0], [sorts, sorts[:2] + ('fixed',), ('few',)][counter[0] - 1], size,
                1 if lone else 0, alphabet)
        if isinstance(s, list):
            return [make(x, len(s) == 1) for x in s]
        return dict((k, make(s[k], False)) for k in s)

    return make(shape, False)


def expected(value, numbers=False):
    if isinstance(value, list):
        return [expected(v, numbers) for v in value]
    if isinstance(value, dict):
        return dict((k, expected(v, numbers)) for k, v in value.items())
    if isinstance(value, bool) or value is None or isinstance(value, str):
        return value
    return value if numbers else str(value)


ALL = ('text', 'null', 'boolean', 'integer', 'fixed')


@harness('C18', variants=sorted(SHAPES), quick=6000)
def structured(S, shape):
    """Seventeen nestings of lists and mappings up to four deep, every leaf null, a boolean, an integer in [-12, 12], a text of 0-2 characters (brackets, quotes, blanks, letters, separators of forms) or one of 14 suspicious texts."""
    value = fill(S, SHAPES[shape], ALL, 2 if shape in ('leaf', 'single', 'mapped') else 1, BRACKETS if shape in ('leaf', 'single', 'mapped') else PLAINLY)
    out = attempt(StructuredText.serialize, value)
    S.check(out.ok and isinstance(out.value, str), 'every value can be written')
    back = attempt(StructuredText.unserialize, out.value)
    S.check(back.ok, 'what was written can be read')
    S.same(back.value, expected(value), 'reading gives the same nesting and texts')


def numberless(v):
    """A text that is no number."""
    return v not in ('12', '-3', '1.5')


@harness('C18', variants=sorted(SHAPES), quick=6000)
def numbers(S, shape):
    """The same nestings read with number parsing: integers in [-12, 12] and floats from a list come back as numbers, texts of brackets and letters as they were."""
    alphabet = charset('{}]ab ')

    def make(s, lone, n=[0]):
        if s == '*':
            n[0] += 1
            name = 'leaf%d' % n[0]
            sort = S.choice(name + ' sort', ['text', 'integer', 'float', 'other'] if n[0] == 1 else ['text', 'integer'])
            if sort == 'text':
                return S.text(name, 2 if n[0] == 1 else 1, 1 if lone else 0, alphabet)
            if sort == 'integer':
                return S.int(name, -12, 12)
            if sort == 'float':
                return S.choice(name, [1.5, -0.25, 2.0, 0.0, 123456.75])
            return S.choice(name, [True, None, 'a.b', '[', '1{', 'truest', '1.5.2', '[1.5'])
        if isinstance(s, list):
            return [make(x, len(s) == 1, n) for x in s]
        return dict((k, make(s[k], False, n)) for k in s)

    value = make(SHAPES[shape], False, [0])
    out = attempt(StructuredText.serialize, value)
    back = attempt(StructuredText.unserialize, out.value, parse_numbers=True)
    S.check(back.ok, 'what was written can be read')
    S.same(back.value, expected(value, True), 'numbers come back as numbers, texts as texts')
    if shape == 'leaf':
        S.check(type(back.value) is type(value), 'of their own types')


@harness('C18', variants=['wide', 'colons', 'names', 'two names'], quick=6000)
def texts(S, sort):
    """Any text of 0-2 characters of the whole range (comma, colon, backslash and vertical bar aside) alone, in a list and in a mapping; texts with colons as values; mappings with one or two symbolic names."""
    if sort == 'wide':
        t = S.text('text', S.b(1, 2), 1, WIDE)
        for c in t:
            S.assume(c not in ',:\\|')
        value = S.choice('place', [0, 1, 2])
        value = [t, [t, 'x'], {'k': t}][value]
    elif sort == 'colons':
        t = S.text('text', 3, 0, charset(':a{'))
        value = {'k': t} if S.bool('in a mapping') else [t, 'z']
    elif sort == 'names':
        value = {S.text('name', 2, 0, NAMES): 'v'}
    else:
        a, b = S.text('first', 1, 0, NAMES), S.text('second', 2, 0, NAMES)
        S.assume(a != b)
        value = {a: True, b: [None]}
    back = attempt(lambda: StructuredText.unserialize(StructuredText.serialize(value)))
    S.check(back.ok, 'what was written can be read')
    S.same(back.value, value, 'reading gives the same data')


@harness('C18', variants=sorted(SHAPES), quick=6000)
def forms(S, shape):
    """The same nestings under a name of a form, next to another named value."""
    value = {'n': fill(S, SHAPES[shape], ALL, 2 if shape in ('leaf',) else 1, BRACKETS if shape == 'leaf' else PLAINLY), 'z': S.choice('other', ['', 'a b'])}
    out = attempt(UrlEncoded.serialize, value)
    S.check(out.ok and isinstance(out.value, str), 'every value can be written')
    back = attempt(UrlEncoded.unserialize, out.value)
    S.check(back.ok, 'what was written can be read')
    S.same(back.value, expected(value), 'reading gives the same named values')


@harness('C18', variants=['name', 'two names', 'wide'], quick=6000)
def named(S, sort):
    """Forms with one or two names of 0-2 characters (separators and escapes of forms included) and a text value of 0-1 characters of the whole range."""
    if sort == 'name':
        value = {S.text('name', 2, 0, NAMES): S.text('value', 1, 0, NAMES)}
    elif sort == 'wide':
        t = S.text('value', 1, 0, WIDE)
        for c in t:
            S.assume(not 0xD800 <= ord(c) <= 0xDFFF)
        value = {'n': t}
    else:
        a, b = S.text('first', 1, 0, NAMES), S.text('second', 1, 0, NAMES)
        S.assume(a != b)
        value = {a: S.text('one', 1, 0, NAMES), b: True}
    back = attempt(lambda: UrlEncoded.unserialize(UrlEncoded.serialize(value)))
    S.check(back.ok, 'what was written can be read')
    S.same(back.value, value, 'reading gives the same data')


SCHEMA = ('structure', [('i', 'integer'), ('b', 'boolean'), ('d', 'date'), ('t', 'text'), ('q', ('sequence', 'integer')), ('m', ('map', 'text'))])


@harness('C18', variants=['structuredtext', 'urlencoded'], quick=6000)
def fields(S, format):
    """A structure of integer, boolean, date, text, sequence and mapping members, each absent or symbolic (integers in [-12, 12], texts of 0-1 characters, sequences of 0-2), through the field's own serialize and unserialize."""
    field = build(SCHEMA)
    value = {}
    first = S.choice('first', ['i', 'b', 'd', 't', 'q', 'm'])
    for k in (first, {'i': 'b', 'b': 'd', 'd': 't', 't': 'q', 'q': 'm', 'm': 'i'}[first]):
        if k == 'i':
            value[k] = S.int('i', -12, 12)
        elif k == 'b':
            value[k] = S.bool('b')
        elif k == 'd':
            value[k] = date(2024, 3, S.int('d', 1, 31))
        elif k == 't':
            value[k] = S.text('t', 1, 0, PLAINLY)
        elif k == 'q':
            value[k] = [S.int('q%d' % i, -12, 12) for i in range(S.pick('#', 3))]
        else:
            value[k] = dict((n, S.text('m' + n, 1, 0, PLAINLY)) for n in S.choice('keys', [(), ('x',), ('y', 'x')]))
    out = attempt(field.serialize, value, format)
    S.check(out.ok and isinstance(out.value, str), 'the field writes its values')
    back = attempt(field.unserialize, out.value, format)
    S.check(back.ok, 'the field reads what it wrote')
    S.same(back.value, value, 'the field reads the same value')


@harness('C18', variants=['spelled', 'listed', 'mapped'], quick=4000)
def spellings(S, place):
    """Integers of up to seven symbolic digits with or without a sign and leading zeros, and the same with a fraction, written by hand, alone, in a list and in a mapping: read as the numbers they spell when numbers are parsed, as their texts otherwise."""
    sign = S.choice('sign', ['', '-', '+'])
    digits = S.text('digits', S.b(4, 6), 1, '0123456789')
    spelled = sign + digits
    number = 0
    for c in digits:
        number = number * 10 + (ord(c) - 48)
    if sign == '-':
        number = -number
    if S.bool('fraction'):
        spelled += '.5'
        number = None
    written = {'spelled': spelled, 'listed': '[x,%s]' % spelled, 'mapped': '{k:%s,l:[%s]}' % (spelled, spelled)}[place]
    unwrap = {'spelled': lambda v: v, 'listed': lambda v: v[1], 'mapped': lambda v: v['k']}[place]
    back = attempt(StructuredText.unserialize, written, parse_numbers=True)
    S.check(back.ok, 'a number can be read')
    if number is None:
        S.check(isinstance(unwrap(back.value), float), 'a fraction is read as a float')
    else:
        S.same(unwrap(back.value), number, 'the number that is spelled')
        S.check(type(unwrap(back.value)) is int, 'an integer')
    S.same(unwrap(StructuredText.unserialize(written)), spelled, 'its text when numbers are not parsed')


@harness('C18', variants=[9, 12, 35, 101], quick=4000)
def many(S, count):
    """Lists and mappings of 9 to 101 containers, side by side or one in another, each holding its own number, with one symbolic member at any place."""
    at = S.choice('at', sorted({0, 1, count // 2, count - 2, count - 1}))
    x = S.text('x', 1, 0, PLAINLY) if S.bool('text') else S.bool('x')
    form = S.choice('form', ['lists', 'maps', 'nested', 'mixed'])
    member = lambda i: [str(i), x] if i == at else [str(i)]
    if form == 'lists':
        value = [member(i) for i in range(count)]
    elif form == 'maps':
        value = dict(('k%d' % i, {'m': member(i)[-1]}) for i in range(count))
    elif form == 'nested':
        value = member(0)
        for i in range(1, count):
            value = member(i) + [value] if i % 2 else [value] + member(i)
    else:
        value = [[] if i % 3 == 0 and i != at else {'k': member(i)} if i % 3 == 1 else member(i) for i in range(count)]
    back = attempt(lambda: StructuredText.unserialize(StructuredText.serialize(value)))
    S.check(back.ok, 'what was written can be read')
    S.same(back.value, value, 'reading gives the same nesting')
    form = attempt(lambda: UrlEncoded.unserialize(UrlEncoded.serialize({'n': value})))
    S.same(form.value, {'n': value}, 'and so do forms')
