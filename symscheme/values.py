"""Symbolic scalars: integers, floats, character strings, byte strings, lazily built strings.

A proxy reports the class of the value it stands for; a comparison forks at once and returns a real
bool.  Strings are vectors of characters of a length that is fixed on each path; a character is a
concrete code point or a symbol over a finite alphabet.
"""
import math
import sys
import z3

from .core import EngineSignal, PathAbort, EngineError, cur, fork

_RAW = [0]          # > 0: hash by identity (used by the engine's own containers)


class Ch(object):
    """A symbolic character: an integer expression and the finite set of its possible values."""
    __slots__ = ('expr', 'dom', 'uid')
    _uid = [0]

    def __init__(self, expr, dom):
        self.expr = expr
        self.dom = dom
        Ch._uid[0] += 1
        self.uid = Ch._uid[0]


_SORTED = {}
_FORMULA = {}
_INTERN = {}


def sorted_dom(dom):
    s = _SORTED.get(dom)
    if s is None:
        s = _SORTED[dom] = sorted(dom)
    return s


def runs(dom, subset):
    """Maximal runs of consecutive elements of dom (in order) lying in subset."""
    out = []
    start = prev = None
    for d in sorted_dom(dom):
        if d in subset:
            if start is None:
                start = d
            prev = d
        elif start is not None:
            out.append((start, prev))
            start = None
    if start is not None:
        out.append((start, prev))
    return out


def dom_constraint(expr, dom):
    s = sorted_dom(dom)
    out = []
    start = prev = s[0]
    for d in s[1:]:
        if d != prev + 1:
            out.append((start, prev))
            start = d
        prev = d
    out.append((start, prev))
    return z3.Or([expr == a if a == b else z3.And(expr >= a, expr <= b) for a, b in out])


def char_var(name, dom):
    c = _INTERN.get((name, dom))
    if c is None:
        c = _INTERN[(name, dom)] = Ch(z3.Int(name), dom)
    return c


def ch_in(c, subset):
    """c in subset: True, False or a formula.  ``subset``: a frozenset of code points."""
    if type(c) is int:
        return c in subset
    key = (c.uid, subset)
    f = _FORMULA.get(key)
    if f is not None:
        return f
    dom = c.dom
    inter = dom & subset
    if not inter:
        f = False
    elif len(inter) == len(dom):
        f = True
    else:
        s = sorted_dom(dom)
        rs = runs(dom, inter)
        neg = runs(dom, dom - inter)
        flip = len(neg) < len(rs)
        parts = []
        for a, b in (neg if flip else rs):
            if a == b:
                parts.append(c.expr == a)
            elif a == s[0]:
                parts.append(c.expr <= b)
            elif b == s[-1]:
                parts.append(c.expr >= a)
            else:
                parts.append(z3.And(c.expr >= a, c.expr <= b))
        f = parts[0] if len(parts) == 1 else z3.Or(parts)
        if flip:
            f = z3.Not(f)
    _FORMULA[key] = f
    return f


def ch_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is int:
        if tb is int:
            return a == b
        a, b = b, a
        tb = int
    if tb is int:
        return ch_in(a, frozenset((b,)))
    if a is b or a.expr.eq(b.expr):
        return True
    if not (a.dom & b.dom):
        return False
    return a.expr == b.expr


def ch_expr(c):
    return z3.IntVal(c) if type(c) is int else c.expr


_SUBSETS = {}


def dom_subset(c, predname, pred):
    if type(c) is int:
        return None
    key = (c.dom, predname)
    s = _SUBSETS.get(key)
    if s is None:
        s = _SUBSETS[key] = frozenset(d for d in c.dom if pred(d))
    return s


def ch_pred(c, predname, pred):
    if type(c) is int:
        return bool(pred(c))
    return ch_in(c, dom_subset(c, predname, pred))


_MAPPED = {}


def ch_map(c, name, fn):
    """Apply a character-to-character function; fn(d) gives an int code point."""
    if type(c) is int:
        return fn(c)
    key = (c.uid, name)
    r = _MAPPED.get(key)
    if r is None:
        table = dict((d, fn(d)) for d in c.dom)
        if all(k == v for k, v in table.items()):
            r = c
        else:
            deltas = {}
            for k, v in table.items():
                deltas.setdefault(v - k, set()).add(k)
            image = frozenset(table.values())
            if len(image) == 1:
                r = next(iter(image))
            else:
                order = sorted(deltas, key=lambda d: -len(deltas[d]))
                expr = c.expr + order[0] if order[0] else c.expr
                for d in order[1:]:
                    cond = ch_in(c, frozenset(deltas[d]))
                    expr = z3.If(cond, c.expr + d if d else c.expr, expr)
                r = Ch(expr, image)
        _MAPPED[key] = r
    return r


def zand(parts):
    out = []
    for p in parts:
        if p is False:
            return False
        if p is True:
            continue
        out.append(p)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def zor(parts):
    out = []
    for p in parts:
        if p is True:
            return True
        if p is False:
            continue
        out.append(p)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def znot(p):
    if p is True or p is False:
        return not p
    return z3.Not(p)


def eq_items(a, b):
    if len(a) != len(b):
        return False
    return zand([ch_eq(x, y) for x, y in zip(a, b)])


def lt_items(a, b, or_equal):
    """Lexicographic a < b (or <=) as a formula."""
    n = min(len(a), len(b))
    tail = (len(a) < len(b)) or (or_equal and len(a) == len(b))
    f = tail
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        if type(x) is int and type(y) is int:
            if x < y:
                f = True
            elif x > y:
                f = False
            continue
        lt = ch_expr(x) < ch_expr(y)
        e = ch_eq(x, y)
        f = zor([lt, zand([e, f])])
    return f


# ---------------------------------------------------------------------------------------------


class Sym(object):
    __slots__ = ()


def is_sym(v):
    return isinstance_(v, Sym)


def isinstance_(v, t):
    return issubclass(type(v), t)


def concretize_formula(pick, eq):
    """Enumerate values: pick(model) -> value; eq(value) -> formula."""
    ex = cur()
    if ex is None:
        raise EngineError('concretize outside exploration')
    ex.stats.concretized += 1
    for i in range(ex.conc_limit):
        v = pick(ex.need_model())
        f = eq(v)
        if f is True or fork(f):
            return v
    raise PathAbort('concretization-limit')


class SymInt(Sym):
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    @property
    def __class__(self):
        return int

    def _conc(self):
        e = self.expr
        return concretize_formula(
            lambda m: m.eval(e, model_completion=True).as_long(), lambda v: e == v)

    # conversions
    def __index__(self):
        return self._conc()
    __int__ = __index__

    def __trunc__(self):
        return self
    __pos__ = __floor__ = __ceil__ = conjugate = __trunc__

    def __round__(self, n=None):
        return self

    def __float__(self):
        return float(self._conc())

    def __complex__(self):
        return complex(self._conc())

    def __hash__(self):
        if _RAW[0]:
            return id(self) >> 4
        return hash(self._conc())

    def __bool__(self):
        return fork(self.expr != 0)

    def __repr__(self):
        return repr(self._conc()) if cur() else '<SymInt %s>' % self.expr

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return format(self._conc(), spec)

    real = property(lambda self: self)
    numerator = real
    imag = property(lambda self: 0)
    denominator = property(lambda self: 1)

    def bit_length(self):
        return self._conc().bit_length()

    def to_bytes(self, *a, **k):
        return self._conc().to_bytes(*a, **k)

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (self, 1)

    # comparisons
    def _cmp(self, other, op, frac):
        t = type(other)
        if t is SymInt:
            return fork(op(self.expr, other.expr))
        if t is int or t is bool:
            return fork(op(self.expr, int(other)))
        if t is float:
            if math.isnan(other):
                return op is _ne
            if math.isinf(other):
                return op(0, 1 if other > 0 else -1)
            if other == int(other):
                return fork(op(self.expr, int(other)))
            return frac(self, other)
        if t is SymFloat:
            return op(self._conc(), other)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, _eq, lambda s, o: False)

    def __ne__(self, o):
        return self._cmp(o, _ne, lambda s, o: True)

    def __lt__(self, o):
        return self._cmp(o, _lt, lambda s, o: fork(s.expr <= math.floor(o)))

    def __le__(self, o):
        return self._cmp(o, _le, lambda s, o: fork(s.expr <= math.floor(o)))

    def __gt__(self, o):
        return self._cmp(o, _gt, lambda s, o: fork(s.expr >= math.ceil(o)))

    def __ge__(self, o):
        return self._cmp(o, _ge, lambda s, o: fork(s.expr >= math.ceil(o)))

    # arithmetic
    def _arith(self, o, f, g):
        t = type(o)
        if t is SymInt:
            return mkint(f(self.expr, o.expr))
        if t is int or t is bool:
            return mkint(f(self.expr, z3.IntVal(int(o))))
        if t is float:
            return g(self._conc(), o)
        if t is SymFloat:
            return g(self._conc(), o._conc())
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, bytes, SymStr, SymBytes):
            return o * self._conc()
        if type(o) is SymInt and not (z3.is_int_value(o.expr) or z3.is_int_value(self.expr)):
            return mkint(self.expr * o._conc())
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.expr)

    def __abs__(self):
        return self if fork(self.expr >= 0) else mkint(-self.expr)

    def __floordiv__(self, o):
        return int_divmod(self, o)[0]

    def __mod__(self, o):
        return int_divmod(self, o)[1]

    def __divmod__(self, o):
        return int_divmod(self, o)

    def __rfloordiv__(self, o):
        return o // self._conc()

    def __rmod__(self, o):
        return o % self._conc()

    def __rdivmod__(self, o):
        return divmod(o, self._conc())

    def __truediv__(self, o):
        return self._conc() / conc(o)

    def __rtruediv__(self, o):
        return conc(o) / self._conc()

    def __pow__(self, o, mod=None):
        return pow(self._conc(), conc(o), mod)

    def __rpow__(self, o):
        return conc(o) ** self._conc()

    def __and__(self, o):
        return self._conc() & conc(o)
    __rand__ = __and__

    def __or__(self, o):
        return self._conc() | conc(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self._conc() ^ conc(o)
    __rxor__ = __xor__

    def __lshift__(self, o):
        o = conc(o)
        return mkint(self.expr * (1 << o))

    def __rlshift__(self, o):
        return o << self._conc()

    def __rshift__(self, o):
        o = conc(o)
        return int_divmod(self, 1 << o)[0]

    def __rrshift__(self, o):
        return o >> self._conc()

    def __invert__(self):
        return mkint(-self.expr - 1)


def _eq(a, b):
    return a == b


def _ne(a, b):
    return a != b


def _lt(a, b):
    return a < b


def _le(a, b):
    return a <= b


def _gt(a, b):
    return a > b


def _ge(a, b):
    return a >= b


def mkint(expr):
    if type(expr) is int:
        return expr
    expr = z3.simplify(expr)
    if z3.is_int_value(expr):
        return expr.as_long()
    return SymInt(expr)


def int_expr(v):
    return v.expr if type(v) is SymInt else z3.IntVal(int(v))


def int_divmod(a, b):
    """Python's floor division of a SymInt by a constant, through fresh quotient/remainder."""
    t = type(b)
    if t in (float, SymFloat):
        return divmod(a._conc(), conc(b))
    if t not in (int, bool, SymInt):
        return NotImplemented, NotImplemented
    if t is SymInt:
        b = b._conc()
    b = int(b)
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b == 1:
        return a, 0
    ex = cur()
    cache = ex.user.setdefault('divmod', {})
    key = (a.expr.get_id(), b)
    hit = cache.get(key)
    if hit is not None:
        return hit[0], hit[1]
    name = ex.fresh('q')
    q, r = z3.Int(name), z3.Int(name + 'r')
    if b > 0:
        ex.assume(z3.And(a.expr == q * b + r, r >= 0, r < b), definition=True)
    else:
        ex.assume(z3.And(a.expr == q * b + r, r <= 0, r > b), definition=True)
    cache[key] = (SymInt(q), SymInt(r), a)
    return cache[key][0], cache[key][1]


FP = z3.Float64()


def fpval(f):
    if math.isnan(f):
        return z3.fpNaN(FP)
    if math.isinf(f):
        return z3.fpPlusInfinity(FP) if f > 0 else z3.fpMinusInfinity(FP)
    if f == 0:
        return z3.fpMinusZero(FP) if math.copysign(1, f) < 0 else z3.fpPlusZero(FP)
    return z3.FPVal(f, FP)


def fp_to_py(v):
    if not isinstance(v, z3.FPNumRef):
        v = z3.simplify(v)
    if v.isNaN():
        return float('nan')
    if v.isInf():
        return float('-inf') if v.isNegative() else float('inf')
    if v.isZero():
        return -0.0 if v.isNegative() else 0.0
    import struct
    sign = 1 if v.isNegative() else 0
    exp = v.exponent_as_long(True)
    sig = v.significand_as_long()
    return struct.unpack('>d', struct.pack('>Q', (sign << 63) | (exp << 52) | sig))[0]


class SymFloat(Sym):
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    @property
    def __class__(self):
        return float

    def _conc(self):
        e = self.expr
        return concretize_formula(
            lambda m: fp_to_py(m.eval(e, model_completion=True)), lambda v: e == fpval(v))

    def __float__(self):
        return self._conc()

    def __int__(self):
        return int(self._conc())
    __trunc__ = __int__

    def __round__(self, n=None):
        return round(self._conc(), n) if n is not None else round(self._conc())

    def __hash__(self):
        if _RAW[0]:
            return id(self) >> 4
        return hash(self._conc())

    def __bool__(self):
        return fork(z3.Not(z3.fpIsZero(self.expr)))

    def __repr__(self):
        return repr(self._conc()) if cur() else '<SymFloat>'

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return format(self._conc(), spec)

    real = property(lambda self: self)
    imag = property(lambda self: 0.0)

    def _other(self, o):
        t = type(o)
        if t is SymFloat:
            return o.expr
        if t is float:
            return fpval(o)
        if t is int or t is bool:
            if abs(int(o)) <= 2 ** 53:
                return fpval(float(int(o)))
            return None
        return None

    def _cmp(self, o, f, g):
        e = self._other(o)
        if e is None:
            if type(o) in (int, bool, SymInt):
                return g(self._conc(), conc(o))
            return NotImplemented
        return fork(f(self.expr, e))

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ, _eq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)), _ne)

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT, _lt)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ, _le)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT, _gt)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ, _ge)

    def is_integer(self):
        return self._conc().is_integer()

    def as_integer_ratio(self):
        return self._conc().as_integer_ratio()

    def hex(self):
        return self._conc().hex()

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.expr))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.expr))


def _add_float_ops():
    def make(name):
        def op(self, o, *a):
            f = getattr(float, name)
            c = conc(o)
            if type(c) not in (int, bool, float):
                return NotImplemented
            return f(self._conc(), float(c), *a)
        op.__name__ = name
        return op
    for n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv',
            'rfloordiv', 'mod', 'rmod', 'divmod', 'rdivmod', 'pow', 'rpow'):
        setattr(SymFloat, '__%s__' % n, make('__%s__' % n))


_add_float_ops()


# ---------------------------------------------------------------------------------------------
# strings


def _isspace(d):
    return chr(d).isspace()


def int_to_str(v, cap=26):
    """Decimal representation of a SymInt: forks on sign and number of digits."""
    ex = cur()
    cache = ex.user.setdefault('int2str', {})
    hit = cache.get(v.expr.get_id())
    if hit is not None:
        return hit[0]
    e = v.expr
    neg = fork(e < 0)
    mag = -e if neg else e
    n = 1
    while not fork(mag < 10 ** n):
        n += 1
        if n > cap:
            raise PathAbort('int-digits')
    name = ex.fresh('d')
    digits = frozenset(range(48, 58))
    chars = [char_var('%s_%d' % (name, i), digits) for i in range(n)]
    total = z3.Sum([(c.expr - 48) * 10 ** (n - 1 - i) for i, c in enumerate(chars)])
    cons = [z3.And(c.expr >= 48, c.expr <= 57) for c in chars] + [total == mag]
    ex.assume(z3.And(cons), definition=True)
    s = mkstr(([45] if neg else []) + chars)
    cache[v.expr.get_id()] = (s, v)
    return s


def fixed_digits(v, n):
    """The n decimal digits of a SymInt known to lie in [0, 10**n)."""
    ex = cur()
    cache = ex.user.setdefault('fixed', {})
    key = (v.expr.get_id(), n)
    hit = cache.get(key)
    if hit is not None:
        return hit[0]
    name = ex.fresh('d')
    digits = frozenset(range(48, 58))
    chars = [char_var('%s_%d' % (name, i), digits) for i in range(n)]
    total = z3.Sum([(c.expr - 48) * 10 ** (n - 1 - i) for i, c in enumerate(chars)])
    cons = [z3.And(c.expr >= 48, c.expr <= 57) for c in chars] + [total == v.expr]
    ex.assume(z3.And(cons), definition=True)
    cache[key] = (chars, v)
    return chars


def items_of(v):
    """The character vector of a string-like value."""
    t = type(v)
    if t is str:
        return tuple(map(ord, v))
    if t is SymStr:
        return v.items
    if t is LazyStr:
        return items_of(v.force())
    if issubclass(t, str):
        return tuple(map(ord, v))
    raise TypeError('expected str instance, %s found' % type_name(v))


def type_name(v):
    return v.__class__.__name__ if isinstance_(v, Sym) else type(v).__name__


def mkstr(items):
    for c in items:
        if type(c) is not int:
            return SymStr(tuple(items))
    return ''.join(map(chr, items))


def is_str(v):
    t = type(v)
    return t is str or t is SymStr or t is LazyStr or issubclass(t, str)


class _Vector(Sym):
    """Shared by SymStr and SymBytes."""
    __slots__ = ()

    def __len__(self):
        return len(self.items)

    def __hash__(self):
        if _RAW[0]:
            return id(self) >> 4
        return hash(self._conc())

    def _conc(self):
        items = self.items

        def pick(m):
            out = []
            for c in items:
                if type(c) is int:
                    out.append(c)
                else:
                    v = m.eval(c.expr, model_completion=True).as_long()
                    if v not in c.dom:
                        v = min(c.dom)
                    out.append(v)
            return out
        v = concretize_formula(pick, lambda v: eq_items(items, v))
        return self._real(v)

    def __bool__(self):
        return bool(self.items)

    def _find_at(self, sub, i):
        return eq_items(self.items[i:i + len(sub)], sub) if i + len(sub) <= len(self.items) \
            else False

    def _slice(self, start, end):
        n = len(self.items)
        start, end, _ = slice(conc(start), conc(end)).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        sub = self._coerce1(sub)
        start, end = self._slice(start, end)
        for i in range(start, end - len(sub) + 1):
            if fork(self._find_at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._coerce1(sub)
        start, end = self._slice(start, end)
        for i in range(end - len(sub), start - 1, -1):
            if fork(self._find_at(sub, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        sub = self._coerce1(sub)
        start, end = self._slice(start, end)
        if not sub:
            return end - start + 1
        n, i = 0, start
        while i + len(sub) <= end:
            if fork(self._find_at(sub, i)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, prefix, start=None, end=None):
        start, end = self._slice(start, end)
        prefixes = prefix if type(prefix) is tuple else (prefix,)
        fs = []
        for p in prefixes:
            p = self._coerce(p)
            if start + len(p) <= end:
                fs.append(eq_items(self.items[start:start + len(p)], p))
        return fork(zor(fs))

    def endswith(self, suffix, start=None, end=None):
        start, end = self._slice(start, end)
        suffixes = suffix if type(suffix) is tuple else (suffix,)
        fs = []
        for p in suffixes:
            p = self._coerce(p)
            if end - len(p) >= start:
                fs.append(eq_items(self.items[end - len(p):end], p))
        return fork(zor(fs))

    def replace(self, old, new, count=-1):
        old, new = self._coerce(old), self._coerce(new)
        count = conc(count)
        out, i, n = [], 0, 0
        if not old:
            for j, c in enumerate(self.items):
                if count < 0 or n < count:
                    out.extend(new)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(new)
            return self._make(out)
        while i < len(self.items):
            if (count < 0 or n < count) and fork(self._find_at(old, i)):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(self.items[i])
                i += 1
        return self._make(out)

    def _strip_set(self, chars):
        if chars is None:
            return self._spaces()
        if type(chars) is frozenset:
            return chars
        chars = self._coerce(chars)
        return chars

    def _in_strip(self, c, chars):
        if chars is None:
            return ch_pred(c, self._spacename, self._space)
        if type(chars) is frozenset:
            return ch_in(c, chars)
        if all(type(x) is int for x in chars):
            return ch_in(c, frozenset(chars))
        return zor([ch_eq(c, x) for x in chars])

    def lstrip(self, chars=None):
        chars = self._strip_set(chars)
        i = 0
        while i < len(self.items) and fork(self._in_strip(self.items[i], chars)):
            i += 1
        return self._make(self.items[i:])

    def rstrip(self, chars=None):
        chars = self._strip_set(chars)
        i = len(self.items)
        while i > 0 and fork(self._in_strip(self.items[i - 1], chars)):
            i -= 1
        return self._make(self.items[:i])

    def _spaces(self):
        """The set of characters that strip() and split() count as space."""
        return frozenset(i for i in range(256) if self._space(i))

    def strip(self, chars=None):
        if chars is None:
            chars = self._spaces()
        r = self.lstrip(chars)
        if isinstance_(r, _Vector):
            return r.rstrip(chars)
        if type(chars) is frozenset:
            return r.rstrip(''.join(map(chr, chars)))
        c = conc(chars)
        return r.rstrip(c)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        out = []
        items = self.items
        if sep is None:
            i, n = 0, len(items)
            spaces = self._spaces()
            while i < n:
                while i < n and fork(self._in_strip(items[i], spaces)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    rest = self._make(items[i:])
                    out.append(rest.rstrip())
                    return out
                j = i
                while j < n and not fork(self._in_strip(items[j], spaces)):
                    j += 1
                out.append(self._make(items[i:j]))
                i = j
            return out
        sep = self._coerce(sep)
        if not sep:
            raise ValueError('empty separator')
        i = start = 0
        while i + len(sep) <= len(items) and (maxsplit < 0 or len(out) < maxsplit):
            if fork(self._find_at(sep, i)):
                out.append(self._make(items[start:i]))
                i += len(sep)
                start = i
            else:
                i += 1
        out.append(self._make(items[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self._conc().rsplit(None, maxsplit)
        sep = self._coerce(sep)
        items = self.items
        out, end = [], len(items)
        i = end - len(sep)
        while i >= 0 and len(out) < maxsplit:
            if fork(self._find_at(sep, i)):
                out.insert(0, self._make(items[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.insert(0, self._make(items[:end]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        s = self._coerce(sep)
        if i < 0:
            return (self, self._make(()), self._make(()))
        return (self._make(self.items[:i]), sep, self._make(self.items[i + len(s):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        s = self._coerce(sep)
        if i < 0:
            return (self._make(()), self._make(()), self)
        return (self._make(self.items[:i]), sep, self._make(self.items[i + len(s):]))

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.items)
            out.extend(self._coerce(p))
        return self._make(out)

    def __add__(self, o):
        if not self._kind(o):
            return NotImplemented
        return self._make(self.items + tuple(self._coerce(o)))

    def __radd__(self, o):
        if not self._kind(o):
            return NotImplemented
        return self._make(tuple(self._coerce(o)) + self.items)

    def __mul__(self, n):
        return self._make(self.items * conc(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not self._kind(o):
            return NotImplemented if not isinstance_(o, Sym) else False
        return fork(eq_items(self.items, self._coerce(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        if not self._kind(o):
            return NotImplemented
        return fork(lt_items(self.items, self._coerce(o), False))

    def __le__(self, o):
        if not self._kind(o):
            return NotImplemented
        return fork(lt_items(self.items, self._coerce(o), True))

    def __gt__(self, o):
        if not self._kind(o):
            return NotImplemented
        return fork(lt_items(self._coerce(o), self.items, False))

    def __ge__(self, o):
        if not self._kind(o):
            return NotImplemented
        return fork(lt_items(self._coerce(o), self.items, True))

    def _all(self, name, pred):
        if not self.items:
            return False
        return fork(zand([ch_pred(c, name, pred) for c in self.items]))

    def ljust(self, n, fill=None):
        fill = self._coerce(fill) if fill is not None else (32,)
        return self._make(self.items + tuple(fill) * (conc(n) - len(self.items)))

    def rjust(self, n, fill=None):
        fill = self._coerce(fill) if fill is not None else (32,)
        return self._make(tuple(fill) * (conc(n) - len(self.items)) + self.items)

    def zfill(self, n):
        pad = conc(n) - len(self.items)
        if pad <= 0:
            return self
        if self.items and fork(ch_in(self.items[0], frozenset((43, 45)))):
            return self._make((self.items[0],) + (48,) * pad + self.items[1:])
        return self._make((48,) * pad + self.items)

    def splitlines(self, keepends=False):
        items = self.items
        out = []
        i = start = 0
        n = len(items)
        while i < n:
            if fork(ch_in(items[i], self._breaks)):
                end = i + 1
                if i + 1 < n and fork(ch_eq(items[i], 13)) and fork(ch_eq(items[i + 1], 10)):
                    end = i + 2
                out.append(self._make(items[start:end if keepends else i]))
                start = i = end
            else:
                i += 1
        if start < n:
            out.append(self._make(items[start:]))
        return out

    def expandtabs(self, tabsize=8):
        for c in self.items:
            if fork(ch_eq(c, 9)):
                r = conc(self).expandtabs(tabsize)
                return r
        return self

    def removeprefix(self, p):
        p2 = self._coerce(p)
        if self.startswith(p):
            return self._make(self.items[len(p2):])
        return self

    def removesuffix(self, p):
        p2 = self._coerce(p)
        if p2 and self.endswith(p):
            return self._make(self.items[:-len(p2)])
        return self


_SEPARATORS = frozenset((0x1c, 0x1d, 0x1e, 0x1f))
_ASCII = frozenset(range(128))
_UNICODE_SPACES = frozenset(i for i in range(0x110000) if chr(i).isspace())
_ASCII_SPACES = frozenset((9, 10, 11, 12, 13, 32))


class SymStr(_Vector):
    __slots__ = ('items',)
    _spacename = 'isspace'
    _space = staticmethod(_isspace)
    _breaks = frozenset((10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029))

    def __init__(self, items):
        self.items = items

    def _spaces(self):
        # PyPy strips and splits a text of ASCII only at the six ASCII spaces, any other text at
        # every isspace() character, the separators 0x1c-0x1f included
        if not fork(zor([ch_in(c, _SEPARATORS) for c in self.items])):
            return _UNICODE_SPACES
        if fork(zand([ch_in(c, _ASCII) for c in self.items])):
            return _ASCII_SPACES
        return _UNICODE_SPACES

    @property
    def __class__(self):
        return str

    _make = staticmethod(mkstr)
    _coerce = staticmethod(items_of)
    _coerce1 = staticmethod(items_of)
    _kind = staticmethod(is_str)

    @staticmethod
    def _real(v):
        return ''.join(map(chr, v))

    def __repr__(self):
        return repr(self._conc()) if cur() else '<SymStr %d>' % len(self.items)

    def __str__(self):
        return self._conc() if cur() else '<SymStr %d>' % len(self.items)

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(conc(i.start), conc(i.stop), conc(i.step))
            return mkstr(self.items[i])
        return mkstr((self.items[conc(i)],))

    def __iter__(self):
        for c in self.items:
            yield mkstr((c,))

    def __contains__(self, o):
        if not is_str(o):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type_name(o))
        sub = items_of(o)
        return fork(zor([self._find_at(sub, i)
            for i in range(len(self.items) - len(sub) + 1)]))

    def __mod__(self, args):
        from . import rt
        return rt.mod(self, args)

    def _casemap(self, name):
        f = getattr(str, name)
        out = []
        for c in self.items:
            if type(c) is int:
                out.extend(map(ord, f(chr(c))))
                continue
            odd = dom_subset(c, 'odd' + name, lambda d: len(f(chr(d))) != 1)
            done = False
            for d in sorted(odd):
                if fork(ch_eq(c, d)):
                    out.extend(map(ord, f(chr(d))))
                    done = True
                    break
            if done:
                continue
            if odd:
                out.append(ch_map(c, name, lambda d: ord(f(chr(d))) if d not in odd else d))
            else:
                out.append(ch_map(c, name, lambda d: ord(f(chr(d)))))
        return mkstr(out)

    def lower(self):
        return self._casemap('lower')

    def upper(self):
        return self._casemap('upper')

    def casefold(self):
        return self._casemap('casefold')

    def capitalize(self):
        if not self.items:
            return ''
        first = mkstr(self.items[:1])
        first = first._casemap('title') if isinstance_(first, SymStr) else first.title()
        rest = mkstr(self.items[1:])
        return first + rest.lower()

    def isalnum(self):
        return self._all('isalnum', lambda d: chr(d).isalnum())

    def isalpha(self):
        return self._all('isalpha', lambda d: chr(d).isalpha())

    def isdigit(self):
        return self._all('isdigit', lambda d: chr(d).isdigit())

    def isdecimal(self):
        return self._all('isdecimal', lambda d: chr(d).isdecimal())

    def isnumeric(self):
        return self._all('isnumeric', lambda d: chr(d).isnumeric())

    def isspace(self):
        return self._all('isspace', _isspace)

    def isprintable(self):
        return not self.items or self._all('isprintable', lambda d: chr(d).isprintable())

    def isascii(self):
        return not self.items or self._all('isascii', lambda d: d < 128)

    def translate(self, table):
        out = []
        for c in self.items:
            if type(c) is int:
                out.extend(items_of(chr(c).translate(table)))
                continue
            plain = True
            for d in c.dom:
                r = chr(d).translate(table)
                if len(r) != 1:
                    plain = False
            if plain:
                out.append(ch_map(c, ('translate', id(table)),
                    lambda d: ord(chr(d).translate(table))))
            else:
                out.extend(items_of(mkstr((c,))._conc().translate(table)))
        return mkstr(out)

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        enc = encoding.lower().replace('_', '-')
        for c in self.items:
            if type(c) is int:
                out.extend(chr(c).encode(encoding, errors))
            elif enc in ('utf-8', 'utf8', 'ascii', 'us-ascii', 'latin-1', 'iso-8859-1'):
                limit = 256 if enc in ('latin-1', 'iso-8859-1') else 128
                if fork(ch_pred(c, 'lt%d' % limit, lambda d: d < limit)):
                    out.append(Ch(c.expr, frozenset(d for d in c.dom if d < limit)))
                else:
                    d = self._pick_char(c)
                    out.extend(chr(d).encode(encoding, errors))
            else:
                out.extend(chr(self._pick_char(c)).encode(encoding, errors))
        return mkbytes(out)

    @staticmethod
    def _pick_char(c):
        """Case split over the remaining values of a character (its alphabet is finite)."""
        while True:
            v = cur().need_model().eval(c.expr, model_completion=True).as_long()
            if fork(c.expr == v):
                return v

    def format(self, *a, **k):
        return self._conc().format(*a, **k)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute '%s'" % name)

        def method(*a, **k):
            v = self._conc()
            return getattr(v, name)(*[conc(x) for x in a], **dict((x, conc(y)) for x, y in k.items()))
        return method


def mkbytes(items):
    for c in items:
        if type(c) is not int:
            return SymBytes(tuple(items))
    return bytes(items)


def bytes_items(v):
    t = type(v)
    if t is SymBytes:
        return v.items
    if t in (bytes, bytearray, memoryview) or issubclass(t, bytes):
        return tuple(bytes(v))
    raise TypeError("a bytes-like object is required, not '%s'" % type_name(v))


def bytes_items1(v):
    if type(v) is int:
        return (v,)
    if type(v) is SymInt:
        return (v._conc(),)
    return bytes_items(v)


class SymBytes(_Vector):
    __slots__ = ('items',)
    _spacename = 'bspace'
    _space = staticmethod(lambda d: d in (9, 10, 11, 12, 13, 32))
    _breaks = frozenset((10, 13))

    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return bytes

    _make = staticmethod(mkbytes)
    _coerce = staticmethod(bytes_items)
    _coerce1 = staticmethod(bytes_items1)

    @staticmethod
    def _kind(v):
        return type(v) is SymBytes or issubclass(type(v), (bytes, bytearray))

    @staticmethod
    def _real(v):
        return bytes(v)

    def __repr__(self):
        return repr(self._conc()) if cur() else '<SymBytes %d>' % len(self.items)

    def __str__(self):
        return repr(self)

    def __bytes__(self):
        return self._conc()

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(conc(i.start), conc(i.stop), conc(i.step))
            return mkbytes(self.items[i])
        c = self.items[conc(i)]
        return c if type(c) is int else SymInt(c.expr)

    def __iter__(self):
        for c in self.items:
            yield c if type(c) is int else SymInt(c.expr)

    def __contains__(self, o):
        sub = bytes_items1(o)
        return fork(zor([self._find_at(sub, i)
            for i in range(len(self.items) - len(sub) + 1)]))

    def translate(self, table, delete=b''):
        out = []
        for c in self.items:
            if type(c) is int:
                out.extend(bytes([c]).translate(table, delete))
            else:
                if delete and fork(ch_in(c, frozenset(delete))):
                    continue
                out.append(ch_map(c, ('btrans', bytes(table)), lambda d: table[d]))
        return mkbytes(out)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8', 'latin-1', 'iso-8859-1'):
            limit = 256 if enc in ('latin-1', 'iso-8859-1') else 128
            f = zand([ch_pred(c, 'lt%d' % limit, lambda d: d < limit) for c in self.items])
            if fork(f):
                return mkstr([c if type(c) is int else
                    Ch(c.expr, frozenset(d for d in c.dom if d < limit)) for c in self.items])
        if enc in ('utf-8', 'utf8'):
            # characters below 128 stand for themselves and end any longer sequence
            out = []
            run = []
            for c in self.items:
                if fork(ch_pred(c, 'lt128', lambda d: d < 128)):
                    out.extend(map(ord, bytes(run).decode(encoding, errors)))
                    run = []
                    out.append(c if type(c) is int else
                        Ch(c.expr, frozenset(d for d in c.dom if d < 128)))
                else:
                    run.append(c if type(c) is int else SymStr._pick_char(c))
            out.extend(map(ord, bytes(run).decode(encoding, errors)))
            return mkstr(out)
        return self._conc().decode(encoding, errors)

    def hex(self, *a):
        return self._conc().hex(*a)

    def lower(self):
        return mkbytes([ch_map(c, 'blower', lambda d: bytes([d]).lower()[0]) for c in self.items])

    def upper(self):
        return mkbytes([ch_map(c, 'bupper', lambda d: bytes([d]).upper()[0]) for c in self.items])

    def isdigit(self):
        return self._all('bdigit', lambda d: 48 <= d <= 57)

    def isalnum(self):
        return self._all('balnum', lambda d: bytes([d]).isalnum())

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute '%s'" % name)

        def method(*a, **k):
            v = self._conc()
            return getattr(v, name)(*[conc(x) for x in a], **dict((x, conc(y)) for x, y in k.items()))
        return method


class LazyStr(Sym):
    """A string whose text is computed only when something looks at it (error messages)."""
    __slots__ = ('_thunk', '_value')

    def __init__(self, thunk):
        self._thunk = thunk
        self._value = None

    @property
    def __class__(self):
        return str

    def force(self):
        if self._thunk is not None:
            thunk = self._thunk
            self._value = thunk()
            self._thunk = None
        return self._value

    def _conc(self):
        return conc(self.force())

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return len(self.force()) > 0

    def __hash__(self):
        if _RAW[0]:
            return id(self) >> 4
        return hash(self._conc())

    def __repr__(self):
        return repr(self._conc()) if cur() else '<LazyStr>'

    def __str__(self):
        return self._conc() if cur() else '<LazyStr>'

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __iter__(self):
        return iter(self.force())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(_str_or_sym(self.force()), name)


def _str_or_sym(v):
    return v if type(v) is SymStr else SymStr(items_of(v))


def _add_lazy_ops():
    def make(name):
        def op(self, *a):
            return getattr(_str_or_sym(self.force()), name)(*a)
        op.__name__ = name
        return op
    for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'radd', 'mul', 'rmul', 'getitem',
            'contains', 'mod'):
        setattr(LazyStr, '__%s__' % n, make('__%s__' % n))


_add_lazy_ops()


def conc(v):
    """A concrete value for v (case split, bounded)."""
    if isinstance_(v, Sym):
        return v._conc()
    return v
