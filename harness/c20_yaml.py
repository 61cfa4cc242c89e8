from hlib import *

SIGNS = charset("ab1:-#' ,[]{}\n~.&*!|>%@`\"\\?_+e=<\t")
LONG = ('w' * 30 + ' ') * 4 + 'w'
PLACES = ['alone', 'listed', 'mapped', 'key', 'deep']
LOOKALIKES = ['2000-01-01', '2000-1-1 0:0:0', '1_0', '0x1F', '1.5e+3', '1:30', '.5', '-0b1', 'Yes', 'null', '~', 'On', '<<', '=', '.inf', '-.INF', '.nan',
    '---', '...', '- a', 'a: b', 'a #b', '? a', "''", '"a"', '!!str a', '&a b', '*a', '%a b', '@a', '0o7', '+12', 'false']


def placed(place, value):
    return {'alone': lambda: value, 'listed': lambda: [value, 'z'], 'mapped': lambda: {'k': value, 'z': 'q'},
        'key': lambda: {value: 'z'}, 'deep': lambda: [{'k': [[value], {'m': value}], 'z': [True]}]}[place]()


def round_trip(S, value, label):
    out = attempt(Yaml.serialize, value)
    S.check(out.ok and isinstance(out.value, str), label + ' can be written')
    back = attempt(Yaml.unserialize, out.value)
    S.check(back.ok, label + ' can be read')
    S.same(back.value, value, label + ' read as written')


@harness('C20', variants=PLACES, quick=6000)
def texts(S, place):
    """Every text of 0-2 characters (3 in the thorough tier) of letters, digits, signs with a meaning in YAML, blanks, tabs, line feeds; alone, in a sequence, as a value or a key of a mapping, three levels deep."""
    t = S.text('text', S.b(2, 3) if place != 'deep' else 2, 0, SIGNS)
    round_trip(S, placed(place, t), 'a text')


@harness('C20', variants=[(p, n) for p in ('alone', 'listed', 'mapped', 'key') for n in ((0, 1, 2) if p == 'key' else range(7))], quick=6000)
def wide(S, variant):
    """One character of the whole range (controls, line separators, surrogates, astral) alone or next to letters or a line feed, and before, after and within texts longer than a line."""
    place, n = variant
    c = S.text('c', 1, 1, WIDE)
    round_trip(S, placed(place, [c, 'a' + c + 'b', 'a\n' + c, LONG + c, c + LONG, LONG + c + LONG, LONG + '\n' + c + ' a'][n]), 'a text of any character')


@harness('C20', variants=[(p, n) for n in range(len(LOOKALIKES)) for p in (('alone', 'key') if n % 2 else ('mapped', 'listed'))], quick=3000)
def lookalikes(S, variant):
    """Thirty-three texts that look like numbers, dates, booleans, nulls, markers or other YAML notation, each with any one of its characters replaced by, or one character inserted that is, a symbolic one."""
    place, n = variant
    model = LOOKALIKES[n]
    at = S.pick('at', len(model) + 1)
    c = S.text('c', 1, 0, charset("0179abefnxyZT:-+. _#'"))
    if S.bool('replaced'):
        t = model[:at] + c + model[at + 1:]
    else:
        t = model[:at] + c + model[at:]
    round_trip(S, placed(place, t), 'a text that looks like something else')


@harness('C20', variants=[(p, n) for p in ('alone', 'listed', 'mapped', 'deep') for n in (0, 1, 2)], quick=6000)
def lines(S, variant):
    """Texts of several lines: 0-3 characters of line feeds, blanks, tabs, letters and signs before, between or after two lines."""
    place, n = variant
    t = S.text('text', S.b(3, 4) if place != 'deep' else 2, 1, charset("\n a#\t"))
    round_trip(S, placed(place, [t + 'x\ny', 'x\n' + t + 'y', 'x\ny' + t][n]), 'a text of several lines')


@harness('C20', variants=[(p, n) for p in ('alone', 'listed', 'mapped', 'deep') for n in range(6)], quick=3000)
def long_lines(S, variant):
    """Texts longer than the width of a line (around it and far above it): words and 1-3 symbolic characters at the place where the line is broken, single blanks and others, signs which need quotes or escapes."""
    place, n = variant
    t = S.text('text', 2 if n == 1 else 3, 1, charset(" -a'\n:"))
    word = 'w' * 45
    value = [lambda: t + word * 3, lambda: word + ' ' + word + t + 'x' * S.choice('more', [2, 7, 8, 9, 60]), lambda: word * 2 + ' ' + t + ' ' + word,
        lambda: (word + ' ') * 3 + t, lambda: '[' + word + t + word + ' --- ' + word + '\\',
        lambda: word * 2 + t + '--- ... # ' + word][n]()
    round_trip(S, placed(place, value), 'a long text')


@harness('C20', variants=['int', 'float', 'bool', 'none', 'date', 'datetime', 'text'], quick=4000)
def scalars(S, kind):
    """Integers of all sizes up to 40 digits (any in [-30, 30]), floats from a list of twenty-two with every form of exponent, infinities, booleans, null, dates of any year, times to the second and from a list with microseconds and offsets; alone, in sequences of like and of unlike scalars, in mappings, as keys."""
    if kind == 'int':
        v = S.int('int', -30, 30) if S.bool('small') else S.choice('large', [10**40, -10**40, 2**63, 777, 8, -9])
    elif kind == 'float':
        v = S.choice('float', [0.0, -0.0, 1.0, -1.5, 0.1, 1e16, 1e22, 1.5e16, -1e16, 1e100, 1e-5, 1e-7, 1.25e-7, -1e-300, 5e-324, 1.7976931348623157e308, 123456789.125, 1e15, 3e17, 100.0, float('inf'), float('-inf')])
    elif kind == 'bool':
        v = S.bool('bool')
    elif kind == 'none':
        v = None
    elif kind == 'date':
        v = S.choice('century', [date(1, 1, 1), date(999, 12, 31), date(9999, 12, 31)]) if S.bool('far') else date(2024, S.int('m', 1, 12), S.int('d', 1, 28))
    elif kind == 'datetime':
        if S.bool('far'):
            v = S.choice('when', [datetime(1, 1, 1), datetime(999, 12, 31, 23, 59, 59), datetime(2000, 2, 29, 0, 0, 1),
                datetime(2024, 1, 2, 3, 4, 5, 600), datetime(2024, 1, 2, 3, 4, 5, 999999), datetime(2024, 1, 2, 3, 4, tzinfo=UTC), datetime(2024, 1, 2, 3, 4, tzinfo=FixedOffsetTimezone(330, 'x'))])
        else:
            v = datetime(2024, 5, S.int('d', 1, 28), S.int('h', 0, 23), S.int('mi', 0, 59), 7)
    else:
        v = S.text('text', 1, 0, SIGNS)
    other = S.choice('other', [0, None, 'x', 2.5, True])
    value = S.choice('form', [lambda: v, lambda: [v], lambda: [v, other], lambda: [other, v], lambda: {'k': v, 'l': other}, lambda: {'k': [v, [v, other]]}])()
    round_trip(S, value, 'a scalar')


def grown(S, name, depth):
    kind = S.choice(name, ['leaf', 'text', 'list', 'map'] if depth else ['leaf', 'text'])
    if kind == 'leaf':
        return 7
    if kind == 'text':
        return S.choice(name + 't', ['', 'x\ny'])
    size = S.pick(name + '#', 3)
    if kind == 'list':
        return [grown(S, name + str(i), depth - 1) for i in range(size)]
    return dict((k, grown(S, name + k, depth - 1)) for k in ('a', '1')[:size])


@harness('C20', variants=['list', 'map', 'list list', 'list map', 'map list', 'map map'], quick=12000)
def nestings(S, outer):
    """Every nesting of sequences and mappings of 0-2 members (depth four), with leaves of a number, the empty text and a text of two lines; symbolic choice of the kind of each member."""
    value = [grown(S, 'v', 1 if S.tier == 'quick' else 2), grown(S, 'w', 1)] if ' ' in outer else [grown(S, 'v', 2)]
    for kind in reversed(outer.split()):
        value = list(value) if kind == 'list' else dict(zip('mn', value))
        value = [value, 'z'] if outer == 'list list' else value
    round_trip(S, value, 'a nesting')


SCHEMA = Structure({'t': Text(strip=False), 'i': Integer(), 'f': Float(), 'b': Boolean(), 'd': Date(), 'w': DateTime(utc=True), 'c': Time(), 'm': Map(Text(strip=False)),
    's': Sequence(Sequence(Integer())), 'p': Tuple((Integer(), Text(strip=False))), 'e': Enumeration(['1', 'yes', 'red']), 'n': Decimal()})


@harness('C20', variants=list('tifbdwcmspen'), quick=3000)
def fields(S, k):
    """A structure of twelve types through its schema: one symbolic member at a time over texts, integers, booleans, dates, times, enumerations, decimals, nested sequences and maps."""
    v = {'t': lambda: S.text('text', 2, 0, SIGNS), 'i': lambda: S.int('i', -30, 30), 'f': lambda: S.choice('f', [1e16, -0.5, 1e-7]), 'b': lambda: S.bool('b'),
        'd': lambda: date(2024, S.int('m', 1, 12), 3), 'w': lambda: datetime(2024, 5, S.int('d', 1, 28), S.int('h', 0, 23), 0, 9, tzinfo=UTC),
        'c': lambda: time(S.int('h', 0, 23), S.int('mi', 0, 59), 5), 'm': lambda: {S.text('key', 1, 0, SIGNS): S.text('text', 1, 0, SIGNS)},
        's': lambda: [[S.int('i%d%d' % (i, j), -1, 1) for j in range(S.pick('#%d' % i, 3))] for i in range(S.pick('#', 3))],
        'p': lambda: (S.int('i', -9, 9), S.text('text', 1, 0, SIGNS)), 'e': lambda: S.choice('e', ['1', 'yes', 'red']),
        'n': lambda: decimal_module.Decimal(S.choice('n', ['0', '-1.50', '1E+5', '7']))}[k]()
    value = {k: v, 'i': 4}
    if k == 'i':
        value = {'i': v}
    out = attempt(SCHEMA.serialize, value, 'yaml')
    S.check(out.ok, 'a structure can be written')
    back = attempt(SCHEMA.unserialize, out.value, 'yaml')
    S.check(back.ok, 'a structure can be read')
    S.same(back.value, value, 'a structure read as written')


KEYS = [0, -7, 10**20, 1.5, 1e16, -1e-7, float('inf'), True, False, None, date(2024, 2, 3), date(999, 1, 2), datetime(2024, 2, 3, 4, 5, 6), datetime(2024, 2, 3, 4, 5, 6, 700, tzinfo=UTC),
    'a', '', '1', 'true', 'x\ny', '2024-02-03', '- ', 'None']


@harness('C20', variants=list(range(len(KEYS))), quick=3000)
def keys(S, n):
    """Mappings of one to three keys of like and of unlike types from a list of twenty-two (numbers, booleans, null, dates, texts that look like them), alone, in a sequence, in a mapping; values a number, a text or a sequence."""
    value = {KEYS[n]: S.choice('v', [1, 'x\ny', [2, [3]]])}
    other = S.choice('other', ['none', 'number', 'listed'])
    if other == 'number':
        value[S.int('number', -2, 2)] = {'in': 4}
    elif other == 'listed':
        value[S.choice('key', KEYS)] = {'in': 4}
    if S.bool('third'):
        value['zz'] = ''
    place = S.choice('place', ['alone', 'listed'])
    round_trip(S, {'alone': lambda: value, 'listed': lambda: [value, 'z']}[place](), 'a mapping')
