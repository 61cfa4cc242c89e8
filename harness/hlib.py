"""Shared by the harnesses (runs instrumented under exploration, plain under replay)."""
import scheme
from symscheme.api import DIGITS, WIDE, ASCII, PRINTABLE, LOWER, WORD, XMLCHARS, charset
from scheme import *
from scheme.exceptions import *


class Outcome(object):
    """What a call did: a value, a structural error, or any other exception."""

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    @property
    def ok(self):
        return self.kind == 'value'

    @property
    def error(self):
        return self.kind == 'structural'

    @property
    def token(self):
        """The token of the first structural error."""
        if self.kind != 'structural':
            return None
        errors = self.value.errors
        if errors:
            return errors[0].get('token')
        return None

    def describe(self):
        if self.kind == 'value':
            return ('value', self.value)
        if self.kind == 'structural':
            return ('structural', type(self.value).__name__)
        return ('raised', type(self.value).__name__)


def attempt(f, *args, **params):
    try:
        value = f(*args, **params)
    except StructuralError as e:
        return Outcome('structural', e)
    except Exception as e:
        return Outcome('raised', e)
    return Outcome('value', value)


import datetime as datetime_module
import decimal as decimal_module
from datetime import date, datetime, time, timedelta, tzinfo
from scheme.timezone import UTC, LOCAL, FixedOffsetTimezone

HEX = frozenset(ord(c) for c in '0123456789abcdef')
NATIVE = (int, float, str, bool, list, dict, tuple, type(None))


def is_native(value):
    """Consists of plain data only (what every wire format starts from)."""
    if value is None or isinstance(value, (bool, int, float, str)):
        return True
    if isinstance(value, (list, tuple)):
        for v in value:
            if not is_native(v):
                return False
        return True
    if isinstance(value, dict):
        for k in value:
            if not isinstance(k, (str, int, float, bool)) or not is_native(value[k]):
                return False
        return True
    return False


def gen_uuid(S, name, alphabet=HEX):
    h = S.text(name, 32, 32, alphabet)
    return '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


def gen_date(S, name, lo=1, hi=9999):
    y, m, d = S.ymd(name, lo, hi)
    return date(y, m, d)


def gen_time(S, name):
    h, m, s = S.hms(name)
    return time(h, m, s)


def gen_datetime(S, name, tz=None, lo=1, hi=9999):
    y, m, d = S.ymd(name, lo, hi)
    h, mi, s = S.hms(name)
    return datetime(y, m, d, h, mi, s, 0, tz)


def gen_decimal(S, name, digits=4):
    """[-]digits[.digits][E[+-]digit], with every digit symbolic; optionally a special value."""
    form = S.choice(name + '.form', ['int', 'frac', 'exp', 'special'])
    if form == 'special':
        return decimal_module.Decimal(S.choice(name + '.special',
            ['NaN', 'Infinity', '-Infinity', '-0']))
    sign = S.choice(name + '.sign', ['', '-'])
    text = S.text(name + '.int', digits, 1, DIGITS)
    if form == 'frac':
        text = text + '.' + S.text(name + '.frac', digits, 1, DIGITS)
    if form == 'exp':
        text = text + 'E' + S.choice(name + '.esign', ['+', '-']) + S.text(name + '.exp', 1, 1,
            DIGITS)
    return decimal_module.Decimal(sign + text)


# -- a small schema language, independent of the code under test -----------------------------------
#
#   'integer' 'float' 'decimal' 'text' 'token' 'uuid' 'email' 'enumeration' 'boolean' 'binary'
#   'date' 'time' 'datetime' 'any'
#   ('structure', [(key, spec) | (key, spec, params), ...])
#   ('map', value spec[, key spec])      ('sequence', spec)      ('tuple', [spec, ...])
#   ('union', [spec, ...])

SCALARS = ('integer', 'float', 'decimal', 'text', 'token', 'uuid', 'email', 'enumeration',
    'boolean', 'binary', 'date', 'time', 'datetime')
CLASSES = {'integer': Integer, 'float': Float, 'decimal': Decimal, 'text': Text, 'token': Token,
    'uuid': UUID, 'email': Email, 'enumeration': Enumeration, 'boolean': Boolean,
    'binary': Binary, 'date': Date, 'time': Time, 'datetime': DateTime, 'any': Field}
ENUMERATION = ['red', 3, 'blue', False]


def build(spec, **params):
    """The field a spec stands for."""
    if isinstance(spec, str):
        if spec == 'enumeration':
            params.setdefault('enumeration', list(ENUMERATION))
        elif spec == 'datetime':
            params.setdefault('utc', True)
        elif spec == 'text':
            params.setdefault('strip', False)
        return CLASSES[spec](**params)
    kind = spec[0]
    if kind == 'structure':
        structure = {}
        for entry in spec[1]:
            structure[entry[0]] = build(entry[1], **(entry[2] if len(entry) > 2 else {}))
        return Structure(structure, **params)
    if kind == 'map':
        return Map(build(spec[1]), key=build(spec[2]) if len(spec) > 2 else None, **params)
    if kind == 'sequence':
        return Sequence(build(spec[1]), **params)
    if kind == 'tuple':
        return Tuple([build(s) for s in spec[1]], **params)
    if kind == 'union':
        return Union([build(s) for s in spec[1]], **params)
    raise ValueError(spec)


TOKENCHARS = frozenset(WORD | frozenset(ord(c) for c in '-+.:'))
KEYS = charset('abz09_-. ')


def gen(S, spec, name, size=2, text=2, null=False, optional=True, keys=2):
    """A symbolic native value of a spec; null elements and absent keys included on request."""
    if null and S.bool(name + '?null'):
        return None
    if isinstance(spec, str):
        return gen_scalar(S, spec, name, text)
    kind = spec[0]

    def sub(s, suffix):
        return gen(S, s, name + suffix, size, text, null, optional, 1)

    if kind == 'structure':
        value = {}
        for entry in spec[1]:
            required = len(entry) > 2 and entry[2].get('required')
            if optional and not required and not S.bool('%s.%s?' % (name, entry[0])):
                continue
            value[entry[0]] = sub(entry[1], '.' + entry[0])
        return value
    if kind == 'map':
        n = S.pick('%s#' % name, size + 1)
        value = {}
        for i in range(n):
            if len(spec) > 2:
                key = gen_scalar(S, spec[2], '%s.key%d' % (name, i), keys)
            else:
                key = S.text('%s.key%d' % (name, i), keys, 0 if keys > 1 else 1, KEYS)
            value[key] = sub(spec[1], '[%d]' % i)
        S.assume(len(value) == n)
        return value
    if kind == 'sequence':
        n = S.pick('%s#' % name, size + 1)
        return [sub(spec[1], '[%d]' % i) for i in range(n)]
    if kind == 'tuple':
        return tuple([sub(s, '[%d]' % i) for i, s in enumerate(spec[1])])
    raise ValueError(spec)


def gen_scalar(S, kind, name, text=2):
    if kind == 'integer':
        return S.int(name)
    if kind == 'float':
        return S.float(name)
    if kind == 'decimal':
        return gen_decimal(S, name, 2)
    if kind == 'text':
        return S.text(name, text)
    if kind == 'token':
        v = S.text(name, text, 1, TOKENCHARS)
        S.assume(is_token(v))
        return v
    if kind == 'uuid':
        return gen_uuid(S, name)
    if kind == 'email':
        return S.text(name, 2, 1, LOWER) + '@' + S.text(name + '.domain', 2, 1, LOWER) + '.' + \
            S.text(name + '.tld', 3, 2, LOWER)
    if kind == 'enumeration':
        return S.choice(name, ENUMERATION)
    if kind == 'boolean':
        return S.bool(name)
    if kind == 'binary':
        return S.bytes(name, text)
    if kind == 'date':
        return gen_date(S, name)
    if kind == 'time':
        return gen_time(S, name)
    if kind == 'datetime':
        return gen_datetime(S, name, UTC)
    raise ValueError(kind)


def is_word_char(c):
    return c == '_' or c.isalnum()


def is_token(v, segments=None):
    """One or more colon-separated segments of [-+.\\w] beginning and ending with \\w."""
    parts = v.split(':')
    if segments is not None and len(parts) != segments:
        return False
    for part in parts:
        if not part or not is_word_char(part[0]) or not is_word_char(part[-1]):
            return False
        for c in part:
            if not (is_word_char(c) or c in '-+.'):
                return False
    return True


def wire(spec, value):
    """What serializing a native value must give."""
    if value is None:
        return None
    if isinstance(spec, str):
        if spec == 'decimal':
            return str(value)
        if spec == 'binary':
            return base64_module.urlsafe_b64encode(value)
        if spec == 'date':
            return '%04d-%02d-%02d' % (value.year, value.month, value.day)
        if spec == 'time':
            return '%02d:%02d:%02d' % (value.hour, value.minute, value.second)
        if spec == 'datetime':
            return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (value.year, value.month, value.day,
                value.hour, value.minute, value.second)
        return value
    kind = spec[0]
    if kind == 'structure':
        specs = dict((e[0], e[1]) for e in spec[1])
        out = {}
        for k in value:
            out[k] = wire(specs[k], value[k])
        return out
    if kind == 'map':
        out = {}
        for k in value:
            out[wire(spec[2], k) if len(spec) > 2 else k] = wire(spec[1], value[k])
        return out
    if kind == 'sequence':
        return [wire(spec[1], v) for v in value]
    if kind == 'tuple':
        return tuple([wire(s, v) for s, v in zip(spec[1], value)])
    raise ValueError(spec)


import base64 as base64_module

PLAIN = ('null', 'boolean', 'integer', 'float', 'decimal', 'text', 'bytes', 'date', 'time',
    'datetime', 'aware', 'list', 'tuple', 'map')


def gen_plain(S, name, kinds=PLAIN, text=2, alphabet=None, depth=1):
    """(kind, value): any plain value; containers hold 0-2 scalars (depth 1) or containers."""
    kind = S.choice(name + '.kind', kinds)
    return kind, gen_of_kind(S, kind, name, text, alphabet, depth)


ELEMENTS = ('null', 'boolean', 'integer', 'float', 'text', 'bytes', 'date')


def gen_of_kind(S, kind, name, text=2, alphabet=None, depth=1):
    if kind == 'null':
        return None
    if kind == 'boolean':
        return S.bool(name)
    if kind == 'integer':
        return S.int(name)
    if kind == 'float':
        return S.float(name)
    if kind == 'decimal':
        return decimal_module.Decimal(S.choice(name + '.decimal', ['1', '-0.5', 'NaN', 'Infinity',
            '1E+400']))
    if kind == 'text':
        return S.text(name, text, 0, alphabet or WIDE)
    if kind == 'bytes':
        return S.bytes(name, text)
    if kind == 'date':
        return gen_date(S, name)
    if kind == 'time':
        return gen_time(S, name)
    if kind == 'datetime':
        return gen_datetime(S, name)
    if kind == 'aware':
        return gen_datetime(S, name, UTC)
    if kind in ('list', 'tuple'):
        n = S.pick(name + '#', 3)
        items = []
        for i in range(n):
            items.append(gen_element(S, '%s[%d]' % (name, i), depth, i))
        return items if kind == 'list' else tuple(items)
    if kind == 'map':
        n = S.pick(name + '#', 2)
        value = {}
        for i in range(n):
            key = S.choice('%s.key%d' % (name, i), ['a', 'b', '', 1, None, (1, 'x'), 1.5])
            value[key] = gen_element(S, '%s[%d]' % (name, i), depth, i)
        return value
    raise ValueError(kind)


def gen_element(S, name, depth, i):
    if i:
        return S.choice(name + '.fixed', [None, 'z', 3, []])
    if depth > 1 and S.bool(name + '.deeper'):
        return gen_plain(S, name + "'", ('list', 'map'), 1, None, depth - 1)[1]
    kind = S.choice(name + '.kind', ELEMENTS)
    if kind == 'float':
        return S.choice(name + '.float', [1.5, 2.0, float('nan'), float('-inf')])
    return gen_of_kind(S, kind, name, 1)


# the plain values that are of a field's own type
OWN = {
    'integer': ('integer',), 'float': ('float',), 'decimal': ('decimal',), 'text': ('text',),
    'token': ('text',), 'uuid': ('text',), 'email': ('text',), 'extended': ('text',),
    'emails': ('text',), 'boolean': ('boolean',), 'binary': ('bytes',),
    'date': ('date', 'datetime', 'aware'), 'time': ('time',), 'datetime': ('datetime', 'aware'),
    'structure': ('map',), 'map': ('map',), 'keyed': ('map',), 'sequence': ('list',),
    'tuple': ('list', 'tuple'), 'definition': (), 'error': (), 'enumeration': (),
}
FIELDS = sorted(OWN)


def field_of(kind, **params):
    if kind in CLASSES:
        return build(kind, **params)
    if kind == 'extended':
        return Email(extended=True, **params)
    if kind == 'emails':
        return Email(multiple=True, **params)
    if kind == 'structure':
        return Structure({'a': Integer()}, strict=False, **params)
    if kind == 'map':
        return Map(Field(), **params)
    if kind == 'keyed':
        return Map(Integer(), key=Integer(), **params)
    if kind == 'sequence':
        return Sequence(Field(), **params)
    if kind == 'tuple':
        return Tuple([Field(), Integer()], **params)
    if kind == 'definition':
        return Definition(**params)
    if kind == 'error':
        return Error(**params)
    raise ValueError(kind)


CALLS = [(INBOUND, False), (INBOUND, True), (OUTBOUND, False), (OUTBOUND, True)]
PLACES = ['alone', 'structure', 'map', 'sequence', 'tuple', 'deep']


def placed(S, field, place):
    """(outer field, wrap, unwrap, unwrap error) for a field at some place of a schema."""
    if place == 'structure':
        return (Structure({'k': field, 'z': Integer()}), lambda v: {'z': 1, 'k': v},
            lambda v: v['k'])
    if place == 'map':
        return Map(field), lambda v: {'k': v}, lambda v: v['k']
    if place == 'sequence':
        return Sequence(field), lambda v: [v], lambda v: v[0]
    if place == 'tuple':
        return Tuple([Integer(), field]), lambda v: (1, v), lambda v: v[1]
    if place == 'deep':
        return (Structure({'s': Sequence(Map(field))}), lambda v: {'s': [{'k': v}]},
            lambda v: v['s'][0]['k'])
    return field, lambda v: v, lambda v: v


def error_at(out, place):
    """The error reported for the placed field."""
    e = out.value
    if place in ('structure', 'map'):
        return e.structure['k']
    if place == 'sequence':
        return e.structure[0]
    if place == 'tuple':
        return e.structure[1]
    if place == 'deep':
        return e.structure['s'].structure[0].structure['k']
    return e


EVERY = FIELDS + ['any', 'union', 'polymorphic', 'surrogate', 'object', 'unique']


def every_field(kind, **params):
    if kind == 'any':
        return Field(**params)
    if kind == 'union':
        return Union([Integer(), Text()], **params)
    if kind == 'polymorphic':
        return Structure({'x': {'a': Integer()}, 'y': {'b': Text()}}, polymorphic_on='type',
            **params)
    if kind == 'surrogate':
        return Surrogate(**params)
    if kind == 'object':
        return Object(**params)
    if kind == 'unique':
        return Sequence(Integer(), unique=True, min_length=1, **params)
    return field_of(kind, **params)
