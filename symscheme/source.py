"""The S object under exploration: symbolic inputs, checks that the solver decides."""
import z3

from .core import PathAbort, EngineError, cur, fork
from .values import (Sym, SymInt, SymFloat, SymStr, SymBytes, LazyStr, char_var, dom_constraint,
    eq_items, zand, zor, znot, mkstr, mkbytes, items_of, bytes_items, is_str, fp_to_py, FP, fpval,
    conc)
from . import rt
from .api import Base, WIDE, charset, _kind, is_decimal, canon

_BYTES = frozenset(range(256))


class Symbolic(Base):
    def __init__(self, explorer, tier, variant):
        self.ex = explorer
        self.tier = tier
        self.variant = variant

    # -- inputs ---------------------------------------------------------------------------------

    def _new(self, name, desc):
        if name in self.ex.inputs:
            raise EngineError('input %r requested twice' % name)
        self.ex.inputs[name] = desc

    def pick(self, name, n):
        if name in self.ex.choices:
            raise EngineError('choice %r requested twice' % name)
        return self.ex.choose(name, n)

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self._new(name, ('int', e))
        parts = []
        if lo is not None:
            parts.append(e >= lo)
        if hi is not None:
            parts.append(e <= hi)
        if parts:
            self.ex.assume(z3.And(parts), definition=True)
        return SymInt(e)

    def float(self, name, special=True):
        e = z3.FP(name, FP)
        self._new(name, ('float', e))
        if not special:
            self.ex.assume(z3.And(z3.Not(z3.fpIsNaN(e)), z3.Not(z3.fpIsInf(e))), definition=True)
        return SymFloat(e)

    def _chars(self, name, max, min, dom, kind):
        n = min
        if max > min:
            n = min + self.ex.choose('len:' + name, max - min + 1)
        chars = [char_var('%s[%d]' % (name, i), dom) for i in range(n)]
        self._new(name, (kind, chars))
        if chars:
            self.ex.assume(z3.And([dom_constraint(c.expr, dom) for c in chars]), definition=True)
        return chars

    def text(self, name, max, min=0, alphabet=WIDE):
        return mkstr(self._chars(name, max, min, charset(alphabet), 'text'))

    def bytes(self, name, max, min=0, alphabet=None):
        dom = _BYTES if alphabet is None else frozenset(alphabet)
        return mkbytes(self._chars(name, max, min, dom, 'bytes'))

    def ymd(self, name, lo=1, hi=9999):
        """Year, month and day of a valid date."""
        y, m, d = z3.Int(name + '.y'), z3.Int(name + '.m'), z3.Int(name + '.d')
        for part, e in (('.y', y), ('.m', m), ('.d', d)):
            self._new(name + part, ('int', e))
        self.ex.assume(z3.And(y >= lo, y <= hi, m >= 1, m <= 12, d >= 1, d <= 31,
            z3.Or(d <= 28, z3.And(m != 2, z3.Or(d <= 30,
                z3.And([m != x for x in (4, 6, 9, 11)]))),
                z3.And(m == 2, d == 29, y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)))),
            definition=True)
        return SymInt(y), SymInt(m), SymInt(d)

    def hms(self, name):
        return (self.int(name + '.H', 0, 23), self.int(name + '.M', 0, 59),
            self.int(name + '.S', 0, 59))

    # -- assertions -----------------------------------------------------------------------------

    def assume(self, cond):
        if not cond:
            raise PathAbort('infeasible')

    def check(self, cond, label, known=None):
        r = bool(cond)
        self.ex.checks.append((label, r, known))
        self.ex.stats.checks += 1
        return r

    def same(self, a, b, label, known=None):
        r = fork(same_formula(a, b))
        self.ex.checks.append((label, r, known))
        self.ex.stats.checks += 1
        return r

    def equal(self, a, b):
        return fork(same_formula(a, b))

    def observe(self, name, value):
        self.ex.obs.append((name, value))

    def cover(self, name):
        self.ex.cover.add(name)

    def scratch(self):
        return '/virtual/scratch'


def _int_eq(a, b):
    if type(a) is SymInt or type(b) is SymInt:
        return (a.expr if type(a) is SymInt else a) == (b.expr if type(b) is SymInt else b)
    return a == b


def same_formula(a, b):
    """Type-strict deep equality as one formula (forks only where structure depends on data)."""
    ca, cb = a.__class__, b.__class__
    if ca is rt.EngineDict:
        ca = dict
    if cb is rt.EngineDict:
        cb = dict
    if ca is rt.EngineSet:
        ca = set
    if cb is rt.EngineSet:
        cb = set
    if ca is not cb:
        return False
    if a is b and ca is not float:
        return True
    if ca is int:
        return _int_eq(a, b)
    if ca is bool or a is None:
        return a == b
    if ca is float:
        if type(a) is rt.LazyFloat and type(b) is rt.LazyFloat:
            if a.src is b.src or same_formula(a.src, b.src) is True:
                return True
        if type(a) is rt.LazyFloat:
            a = a._conc()
        if type(b) is rt.LazyFloat:
            b = b._conc()
        if type(a) is float and type(b) is float:
            return a == b or (a != a and b != b)
        ea = a.expr if type(a) is SymFloat else fpval(a)
        eb = b.expr if type(b) is SymFloat else fpval(b)
        return z3.Or(z3.fpEQ(ea, eb), z3.And(z3.fpIsNaN(ea), z3.fpIsNaN(eb)))
    if ca is str:
        return eq_items(items_of(a), items_of(b))
    if ca is bytes:
        return eq_items(bytes_items(a), bytes_items(b))
    if ca is list or ca is tuple:
        if len(a) != len(b):
            return False
        return zand([same_formula(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        bb = rt.EngineDict(b)
        parts = []
        for k, v in rt.dict_items(a):
            w = bb.get(k, rt.MISSING)
            if w is rt.MISSING:
                return False
            parts.append(same_formula(v, w))
        if sorted(rt.type_name(k) for k in dict.__iter__(a)) != \
                sorted(rt.type_name(k) for k in dict.__iter__(b)):
            return False
        return zand(parts)
    k = _kind(a)
    if k is not None:
        l = _kind(b)
        if (k[2] is None) != (l[2] is None):
            return False
        f = zand([_int_eq(x, y) for x, y in zip(k[1], l[1])])
        if k[2] is not None:
            f = zand([f, same_formula(a.utcoffset(), b.utcoffset())])
        return f
    if is_decimal(a):
        return bool(a == b) or (bool(a.is_nan()) and bool(b.is_nan()))
    return bool(a == b)


# ---------------------------------------------------------------------------------------------


def evaluate(v, m, depth=8):
    """The plain value that v denotes under the model m (never forks)."""
    t = type(v)
    if issubclass(t, Sym):
        if t is SymInt:
            return m.eval(v.expr, model_completion=True).as_long()
        if t is SymFloat:
            return fp_to_py(m.eval(v.expr, model_completion=True))
        if t is SymStr:
            return ''.join(chr(_evch(c, m)) for c in v.items)
        if t is SymBytes:
            return bytes(_evch(c, m) for c in v.items)
        if t is LazyStr:
            if v._thunk is None:
                return evaluate(v._value, m)
            return Unforced()
        if t is rt.LazyFloat:
            return float(evaluate(v.src, m))
        return Unforced()
    if depth <= 0:
        return Unforced()
    if t is list:
        return [evaluate(x, m, depth - 1) for x in v]
    if t is tuple:
        return tuple(evaluate(x, m, depth - 1) for x in v)
    if issubclass(t, dict):
        return dict((evaluate(k, m, depth - 1), evaluate(x, m, depth - 1))
            for k, x in rt.dict_items(v))
    if issubclass(t, rt.EngineSet):
        return set(evaluate(x, m, depth - 1) for x in v)
    return v


class Unforced(object):
    def __hash__(self):
        return 1


def _evch(c, m):
    if type(c) is int:
        return c
    v = m.eval(c.expr, model_completion=True).as_long()
    return v if v in c.dom else min(c.dom)


def canon_model(v, m):
    """api.canon of v under the model; parts that were never computed become '*'."""
    v = evaluate(v, m)
    return _canon(v, m)


def _canon(v, m):
    t = type(v)
    if t is Unforced:
        return '*'
    if t is list:
        return '[' + ', '.join(_canon(x, m) for x in v) + ']'
    if t is tuple:
        return '(' + ', '.join(_canon(x, m) for x in v) + ')'
    if t is dict:
        return '{' + ', '.join(sorted('%s: %s' % (_canon(k, m), _canon(x, m))
            for k, x in v.items())) + '}'
    if t in (set, frozenset):
        return 'set(' + ', '.join(sorted(_canon(x, m) for x in v)) + ')'
    k = _kind(v)
    if k is not None:
        return '%s%s%s' % (k[0], canon(tuple(evaluate(x, m) for x in k[1])),
            '' if k[2] is None else 'tz')
    if is_decimal(v) and hasattr(v, '_int'):
        return 'Decimal(%s, %s, %s)' % (evaluate(v._sign, m), evaluate(v._int, m),
            evaluate(v._exp, m))
    if isinstance(v, type):
        return v.__name__
    return canon(v)


def input_values(ex, m):
    out = {}
    for name, desc in ex.inputs.items():
        kind = desc[0]
        if kind == 'int':
            out[name] = str(m.eval(desc[1], model_completion=True).as_long())
        elif kind == 'float':
            f = fp_to_py(m.eval(desc[1], model_completion=True))
            out[name] = 'nan' if f != f else f.hex()
        else:
            out[name] = [_evch(c, m) for c in desc[1]]
    choices = dict(ex.choices)
    return out, choices
