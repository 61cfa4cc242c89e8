"""What a harness sees; importable by the tool interpreter (exploration) and by PyPy (replay).

A harness is a function harness(S) or harness(S, variant).  Under exploration the S object hands
out symbolic values (symscheme.source); under replay this module's Concrete hands out the values a
solver model gave them, and the same harness source drives the uninstrumented repository code.
"""
import os

REGISTRY = {}


class Harness(object):
    def __init__(self, name, property, fn, variants, quick, thorough, covers, bounds):
        self.name = name
        self.property = property
        self.fn = fn
        self.variants = variants
        self.quick = quick              # path budget
        self.thorough = thorough
        self.covers = covers            # reachability witnesses required in every complete run
        self.bounds = bounds

    def variants_for(self, tier):
        v = self.variants
        if v is None:
            return [None]
        if callable(v):
            return list(v(tier))
        return list(v)


def harness(property, variants=None, quick=4000, thorough=60000, covers=(), bounds=''):
    def decorate(fn):
        name = '%s.%s' % (property, fn.__name__)
        if name in REGISTRY:
            raise ValueError('duplicate harness %s' % name)
        REGISTRY[name] = Harness(name, property, fn, variants, quick, thorough, tuple(covers),
            bounds or (fn.__doc__ or '').strip())
        return fn
    return decorate


class Infeasible(BaseException):
    """The inputs do not satisfy the harness's assumptions."""


class Divergence(BaseException):
    """The replay asked for an input the explored path never requested."""


# printable ASCII, controls, and a few characters beyond that matter to case mapping, \s, \d, \w,
# line breaking and encodings
ASCII = frozenset(range(0, 128))
WIDE = frozenset(list(range(0, 128)) + [0x85, 0xa0, 0xc9, 0xe9, 0x130, 0x660, 0x2028, 0x20ac,
    0x1f600])
PRINTABLE = frozenset(range(32, 127))
DIGITS = frozenset(range(48, 58))
LOWER = frozenset(range(97, 123))
WORD = frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95])
XMLCHARS = frozenset([9, 10, 13] + list(range(32, 127)) + [0xa0, 0xe9, 0x20ac, 0x1f600])


def charset(spec):
    if isinstance(spec, frozenset):
        return spec
    return frozenset(ord(c) for c in spec)


CONSTANTS = {'ASCII': ASCII, 'WIDE': WIDE, 'PRINTABLE': PRINTABLE, 'DIGITS': DIGITS,
    'LOWER': LOWER, 'WORD': WORD, 'XMLCHARS': XMLCHARS, 'charset': charset,
    'harness': harness, 'Infeasible': Infeasible}


def type_name(v):
    t = v.__class__
    n = t.__name__
    if n == 'EngineDict':
        return 'dict'
    if n == 'EngineSet':
        return 'set'
    return n


class Base(object):
    tier = 'quick'
    variant = None

    def b(self, quick, thorough):
        """A tier-dependent bound."""
        return thorough if self.tier == 'thorough' else quick

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.pick(name, len(seq))]

    def bool(self, name):
        return self.pick(name, 2) == 1


class Concrete(Base):
    """Concrete inputs: replay of a solver model, under the real interpreter."""

    def __init__(self, inputs, choices, tier, variant, scratch=None):
        self.inputs = inputs
        self.choices = choices
        self.tier = tier
        self.variant = variant
        self.checks = []
        self.obs = []
        self.covered = []
        self._scratch = scratch

    def pick(self, name, n):
        if n <= 1:
            return 0
        if name not in self.choices:
            raise Divergence(name)
        v = self.choices[name]
        if not (0 <= v < n):
            raise Infeasible(name)
        return v

    def _input(self, name):
        if name not in self.inputs:
            raise Divergence(name)
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        return int(self._input(name))

    def float(self, name, special=True):
        v = self._input(name)
        return float.fromhex(v) if v != 'nan' else float('nan')

    def text(self, name, max, min=0, alphabet=WIDE):
        return ''.join(chr(c) for c in self._input(name))

    def bytes(self, name, max, min=0, alphabet=None):
        return bytes(self._input(name))

    def ymd(self, name, lo=1, hi=9999):
        return tuple(int(self._input(name + p)) for p in ('.y', '.m', '.d'))

    def hms(self, name):
        return tuple(int(self._input(name + p)) for p in ('.H', '.M', '.S'))

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, label, known=None):
        self.checks.append((label, bool(cond), known))
        return bool(cond)

    def same(self, a, b, label, known=None):
        r = same(a, b)
        self.checks.append((label, r, known))
        return r

    def equal(self, a, b):
        """Type-strict deep equality as a boolean."""
        return same(a, b)

    def observe(self, name, value):
        self.obs.append((name, canon(value)))

    def cover(self, name):
        if name not in self.covered:
            self.covered.append(name)

    def scratch(self):
        return self._scratch()


def _kind(v):
    """The fields of a value object that the standard library implements differently per
    interpreter, or None."""
    n = v.__class__.__name__
    m = getattr(v.__class__, '__module__', '')
    if m == 'datetime' or m == '_pydatetime':
        if n == 'datetime':
            return ('datetime', (v.year, v.month, v.day, v.hour, v.minute, v.second,
                v.microsecond), v.tzinfo)
        if n == 'date':
            return ('date', (v.year, v.month, v.day), None)
        if n == 'time':
            return ('time', (v.hour, v.minute, v.second, v.microsecond), v.tzinfo)
        if n == 'timedelta':
            return ('timedelta', (v.days, v.seconds, v.microseconds), None)
    return None


def is_decimal(v):
    return v.__class__.__name__ == 'Decimal'


def same(a, b):
    if a.__class__ is not b.__class__:
        return False
    t = a.__class__
    if t is float:
        return a == b or (a != a and b != b)
    if t is list or t is tuple:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return False
        ta = sorted((type(k).__name__ for k in a))
        tb = sorted((type(k).__name__ for k in b))
        return ta == tb
    k = _kind(a)
    if k is not None:
        l = _kind(b)
        return k[1] == l[1] and (k[2] is None) == (l[2] is None) and (
            k[2] is None or a.utcoffset() == b.utcoffset())
    if is_decimal(a):
        return a == b or (a.is_nan() and b.is_nan())
    return a is b or bool(a == b)


def canon(v):
    """A printable, interpreter-independent rendering of a value."""
    t = type(v)
    if v is None or t is bool:
        return repr(v)
    if t is int:
        return str(v)
    if t is float:
        return 'nan' if v != v else v.hex()
    if t is str:
        return 's' + repr([ord(c) for c in v])
    if t is bytes:
        return 'b' + repr(list(v))
    if t is list:
        return '[' + ', '.join(canon(x) for x in v) + ']'
    if t is tuple:
        return '(' + ', '.join(canon(x) for x in v) + ')'
    if isinstance(v, dict):
        return '{' + ', '.join(sorted('%s: %s' % (canon(k), canon(v[k])) for k in v)) + '}'
    if isinstance(v, (set, frozenset)):
        return 'set(' + ', '.join(sorted(canon(x) for x in v)) + ')'
    k = _kind(v)
    if k is not None:
        return '%s%s%s' % (k[0], canon(tuple(k[1])), '' if k[2] is None else 'tz')
    if is_decimal(v):
        s, d, e = v.as_tuple()
        return 'Decimal(%s, %s, %s)' % (s, ''.join(map(str, d)), e)
    if isinstance(v, type):
        return v.__name__
    return '<%s>' % t.__name__
