"""Runtime support for instrumented modules: calls, formatting, containers."""
import builtins
import functools
import os.path
import re as _re
import sys
import types
import z3

from .core import EngineSignal, PathAbort, EngineError, cur, fork
from .values import (Sym, SymInt, SymFloat, SymStr, SymBytes, LazyStr, Ch, conc, items_of,
    bytes_items, mkstr, mkbytes, mkint, int_to_str, fixed_digits, is_str, _RAW, ch_eq, ch_in, ch_pred, ch_map, int_divmod,
    zand, zor, znot, fork as _f, fpval, FP, type_name, char_var, concretize_formula, fp_to_py)

seen = set()

MISSING = object()
_SAFE_KEYS = (str, int, bool, float, bytes, type(None), type, types.FunctionType,
    types.BuiltinFunctionType, types.ModuleType)


class LazyFloat(Sym):
    """float(text) or float(int) for a symbolic operand whose value nothing has looked at yet."""
    __slots__ = ('src',)

    def __init__(self, src):
        self.src = src

    @property
    def __class__(self):
        return float

    def _conc(self):
        return float(conc(self.src))

    def _exact(self):
        """A whole number that the float represents exactly."""
        return type(self.src) is SymInt and fork(z3.And(self.src.expr >= -2 ** 53,
            self.src.expr <= 2 ** 53))

    __float__ = _conc

    def __int__(self):
        return int(self._conc())
    __trunc__ = __int__

    def __hash__(self):
        if _RAW[0]:
            return id(self) >> 4
        return hash(self._conc())

    def __bool__(self):
        return bool(self._conc())

    def __repr__(self):
        return repr(self._conc()) if cur() else '<LazyFloat>'

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self._conc(), name)


def _lazyfloat_ops():
    def make(name):
        def op(self, o, *a):
            if name[2:4] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and self._exact():
                x = o.src if type(o) is LazyFloat and o._exact() else o
                if type(x) in (SymInt, int, bool):
                    return getattr(self.src, name)(x)
            c = conc(o)
            if type(c) not in (int, bool, float):
                return NotImplemented
            if name == '__eq__' and o is self:
                v = self._conc()
                return v == v
            return getattr(float, name)(self._conc(), float(c) if name[2:4] not in
                ('eq', 'ne', 'lt', 'le', 'gt', 'ge') else c, *a)
        op.__name__ = name
        return op
    for n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv',
            'rfloordiv', 'mod', 'rmod', 'divmod', 'rdivmod', 'pow', 'rpow', 'eq', 'ne', 'lt',
            'le', 'gt', 'ge'):
        setattr(LazyFloat, '__%s__' % n, make('__%s__' % n))


_lazyfloat_ops()


# ---------------------------------------------------------------------------------------------
# containers


def needs_scan(key):
    """Must lookups of this key go through == rather than through its hash?"""
    t = type(key)
    if t in _SAFE_KEYS:
        return False
    if issubclass(t, Sym):
        return True
    if t is tuple:
        return any(needs_scan(x) for x in key)
    if issubclass(t, (Exception, types.MethodType)):
        return False
    h = t.__hash__
    if type(h) is types.FunctionType:
        return '__rt__' in h.__globals__
    return False


def same_key(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (str, SymStr, LazyStr) and tb in (int, float, bool, SymInt, type(None), bytes, tuple):
        return False
    return bool(a == b)


class EngineDict(dict):
    """A dict whose keys may be symbolic; keeps insertion order, never hashes a symbolic key."""
    __slots__ = ('_nsym',)
    __hash__ = None

    def __init__(self, *args, **kw):
        dict.__init__(self)
        self._nsym = 0
        if args or kw:
            self.update(*args, **kw)

    def _find(self, key):
        if needs_scan(key):
            call_hash_check(key)
            for k in dict.__iter__(self):
                if same_key(k, key):
                    return k
            return MISSING
        if dict.__contains__(self, key):
            if self._nsym:
                # the stored key object itself is needed only for its value
                return key
            return key
        if self._nsym:
            for k in dict.__iter__(self):
                if needs_scan(k) and same_key(k, key):
                    return k
        return MISSING

    def _rawget(self, k):
        _RAW[0] += 1
        try:
            return dict.__getitem__(self, k)
        finally:
            _RAW[0] -= 1

    def __contains__(self, key):
        return self._find(key) is not MISSING

    def __getitem__(self, key):
        k = self._find(key)
        if k is MISSING:
            raise KeyError(key)
        return self._rawget(k)

    def get(self, key, default=None):
        k = self._find(key)
        return default if k is MISSING else self._rawget(k)

    def __setitem__(self, key, value):
        k = self._find(key)
        if k is MISSING:
            if needs_scan(key):
                self._nsym += 1
            k = key
        _RAW[0] += 1
        try:
            dict.__setitem__(self, k, value)
        finally:
            _RAW[0] -= 1

    def _remove(self, k):
        if needs_scan(k):
            self._nsym -= 1
        _RAW[0] += 1
        try:
            return dict.pop(self, k)
        finally:
            _RAW[0] -= 1

    def __delitem__(self, key):
        k = self._find(key)
        if k is MISSING:
            raise KeyError(key)
        self._remove(k)

    def pop(self, key, *default):
        k = self._find(key)
        if k is MISSING:
            if default:
                return default[0]
            raise KeyError(key)
        return self._remove(k)

    def popitem(self):
        for k in reversed(list(dict.__iter__(self))):
            v = self._rawget(k)
            self._remove(k)
            return (k, v)
        raise KeyError('popitem(): dictionary is empty')

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is MISSING:
            self[key] = default
            return default
        return self._rawget(k)

    def update(self, *args, **kw):
        if args:
            other = args[0]
            if isinstance(other, dict):
                for k, v in dict_items(other):
                    self[k] = v
            elif hasattr(other, 'keys'):
                for k in other.keys():
                    self[k] = other[k]
            else:
                for pair in other:
                    k, v = pair
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        dict.clear(self)
        self._nsym = 0

    def copy(self):
        return EngineDict(self)

    __copy__ = copy

    @classmethod
    def fromkeys(cls, keys, value=None):
        d = cls()
        for k in keys:
            d[k] = value
        return d

    def __eq__(self, other):
        if not isinstance(other, dict):
            return NotImplemented
        if len(self) != len(other):
            return False
        if not isinstance(other, EngineDict):
            other = EngineDict(other)
        for k, v in dict_items(self):
            w = other.get(k, MISSING)
            if w is MISSING or not (v is w or v == w):
                return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __or__(self, other):
        d = EngineDict(self)
        d.update(other)
        return d

    def __ior__(self, other):
        self.update(other)
        return self

    def __reduce_ex__(self, proto):
        return (EngineDict, (), None, None, iter(list(dict_items(self))))

    def __repr__(self):
        r = repr_(self)
        return r if type(r) is str else conc(r)


class EngineOrderedDict(EngineDict):
    __slots__ = ('__dict__',)
    __hash__ = None

    def move_to_end(self, key, last=True):
        items = list(dict_items(self))
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            rest = list(dict_items(self))
            self.clear()
            self[key] = v
            for k, w in rest:
                self[k] = w

    def popitem(self, last=True):
        if not last:
            for k in dict.__iter__(self):
                v = self._rawget(k)
                self._remove(k)
                return (k, v)
        return EngineDict.popitem(self)

    def copy(self):
        return EngineOrderedDict(self)
    __copy__ = copy

    def __eq__(self, other):
        if isinstance(other, EngineOrderedDict):
            a, b = list(dict_items(self)), list(dict_items(other))
            return a == b
        return EngineDict.__eq__(self, other)

    def __reduce_ex__(self, proto):
        return (EngineOrderedDict, (), None, None, iter(list(dict_items(self))))

    def __reversed__(self):
        return reversed(list(dict.__iter__(self)))


EngineOrderedDict.__name__ = EngineOrderedDict.__qualname__ = 'OrderedDict'


def dict_items(d):
    return dict.items(d)


def call_hash_check(key):
    """hash(key) would raise TypeError for unhashable keys."""
    t = type(key)
    if t is tuple:
        for x in key:
            call_hash_check(x)
    elif t.__hash__ is None:
        raise TypeError("unhashable type: '%s'" % type_(key).__name__)


class EngineSet(set):
    """A set with insertion order, whose items may be symbolic."""
    __hash__ = None

    def __init__(self, items=()):
        set.__init__(self)
        self._d = EngineDict()
        for x in items:
            self.add(x)

    def add(self, x):
        call_hash_check(x)
        self._d.setdefault(x, True)

    def remove(self, x):
        call_hash_check(x)
        del self._d[x]

    def discard(self, x):
        self._d.pop(x, None)

    def pop(self):
        for k in self._d:
            self._d.pop(k)
            return k
        raise KeyError('pop from an empty set')

    def clear(self):
        self._d.clear()

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def copy(self):
        return EngineSet(self)
    __copy__ = copy

    def __contains__(self, x):
        call_hash_check(x)
        return x in self._d

    def __iter__(self):
        return iter(list(dict.__iter__(self._d)))

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def union(self, *others):
        s = EngineSet(self)
        s.update(*others)
        return s

    def intersection(self, *others):
        s = EngineSet(self)
        for o in others:
            o = EngineSet(o)
            s = EngineSet(x for x in s if x in o)
        return s

    def difference(self, *others):
        s = EngineSet(self)
        for o in others:
            o = EngineSet(o)
            s = EngineSet(x for x in s if x not in o)
        return s

    def symmetric_difference(self, o):
        o = EngineSet(o)
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *others):
        self._d = self.difference(*others)._d

    def intersection_update(self, *others):
        self._d = self.intersection(*others)._d

    def issubset(self, o):
        o = EngineSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _op(f):
        def op(self, o):
            if not isinstance(o, (set, frozenset)) and not hasattr(o, 'isdisjoint'):
                return NotImplemented
            return f(self, o)
        return op

    __or__ = __ror__ = _op(lambda s, o: s.union(o))
    __and__ = __rand__ = _op(lambda s, o: s.intersection(o))
    __sub__ = _op(lambda s, o: s.difference(o))
    __rsub__ = _op(lambda s, o: EngineSet(o).difference(s))
    __xor__ = __rxor__ = _op(lambda s, o: s.symmetric_difference(o))
    __le__ = _op(lambda s, o: s.issubset(o))
    __ge__ = _op(lambda s, o: s.issuperset(o))
    __lt__ = _op(lambda s, o: len(s) < len(o) and s.issubset(o))
    __gt__ = _op(lambda s, o: len(s) > len(o) and s.issuperset(o))
    __eq__ = _op(lambda s, o: len(s) == len(o) and s.issubset(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __repr__(self):
        r = repr_(self)
        return r if type(r) is str else conc(r)

    def __reduce_ex__(self, proto):
        return (EngineSet, (list(self),))


EngineDict.__qualname__ = 'dict'


def mkdict(*pairs):
    d = EngineDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def mkset(items):
    return EngineSet(items)


def dictcomp(pairs):
    d = EngineDict()
    for k, v in pairs:
        d[k] = v
    return d


# ---------------------------------------------------------------------------------------------
# deep inspection


def has_sym(v, depth=5):
    t = type(v)
    if t in (str, int, bool, float, bytes, type(None)):
        return False
    if issubclass(t, Sym):
        return True
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset) or issubclass(t, (EngineSet, tuple)):
        return any(has_sym(x, depth - 1) for x in v)
    if issubclass(t, dict):
        return any(has_sym(k, depth - 1) or has_sym(x, depth - 1) for k, x in dict_items(v))
    return False


def deep_conc(v, depth=5):
    """Concrete copy of plain data; engine containers become real ones."""
    if isinstance(v, Sym):
        return conc(v)
    t = type(v)
    if depth <= 0:
        return v
    if t is list:
        return [deep_conc(x, depth - 1) for x in v]
    if t is tuple:
        return tuple(deep_conc(x, depth - 1) for x in v)
    if issubclass(t, tuple) and t.__module__ == 'time':
        return t([deep_conc(x, depth - 1) for x in v])
    if t is EngineDict or t is dict:
        return dict((deep_conc(k, depth - 1), deep_conc(x, depth - 1)) for k, x in dict_items(v))
    if t is EngineSet:
        return set(deep_conc(x, depth - 1) for x in v)
    return v


def conc_arg(v):
    return deep_conc(v) if has_sym(v) else v


# ---------------------------------------------------------------------------------------------
# text


def _plain(v):
    return type(v) in (str, int, bool, float, bytes, type(None))


_HEX = '0123456789abcdef'


def repr_str(v):
    items = items_of(v)
    has_single = fork(zor([ch_eq(c, 39) for c in items]))
    quote = 39
    if has_single and not fork(zor([ch_eq(c, 34) for c in items])):
        quote = 34
    out = [quote]
    special = {9: '\\t', 10: '\\n', 13: '\\r'}
    for c in items:
        if type(c) is int:
            r = repr(chr(c))
            if c in (34, 39):
                if c == quote:
                    out.append(92)
                out.append(c)
            else:
                out.extend(map(ord, r[1:-1]))
            continue
        if fork(zor([ch_eq(c, quote), ch_eq(c, 92)])):
            out.extend((92, c))
        elif fork(ch_pred(c, 'isprintable', lambda d: chr(d).isprintable())):
            out.append(c)
        else:
            d = SymStr._pick_char(c)
            out.extend(map(ord, repr(chr(d))[1:-1]))
    out.append(quote)
    return mkstr(out)


def repr_(v):
    t = type(v)
    if t in (str, int, bool, float, bytes, type(None)):
        return repr(v)
    if issubclass(t, Sym):
        if t is SymStr or t is LazyStr:
            return repr_str(v)
        if t is SymInt:
            return int_to_str(v)
        return repr(conc(v))
    if t is list:
        return concat(['['] + _sep([repr_(x) for x in v]) + [']'])
    if t is tuple:
        if len(v) == 1:
            return concat(['(', repr_(v[0]), ',)'])
        return concat(['('] + _sep([repr_(x) for x in v]) + [')'])
    if t is EngineSet or t is set:
        if not v:
            return 'set()'
        return concat(['{'] + _sep([repr_(x) for x in v]) + ['}'])
    if t is EngineDict or t is dict:
        parts = []
        for k, x in dict_items(v):
            parts.append(concat([repr_(k), ': ', repr_(x)]))
        return concat(['{'] + _sep(parts) + ['}'])
    if t is EngineOrderedDict:
        return concat(['OrderedDict(', repr_([(k, x) for k, x in dict_items(v)]) if v else '', ')'])
    f = t.__repr__
    if type(f) is types.FunctionType:
        r = f(v)
        if not is_str(r):
            raise TypeError('__repr__ returned non-string (type %s)' % type_name(r))
        return r
    if isinstance(v, BaseException) and has_sym(v.args):
        return concat([t.__name__, repr_(tuple(v.args)) if len(v.args) != 1 else
            concat(['(', repr_(v.args[0]), ')'])])
    return repr(v)


def _sep(parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(', ')
        out.append(p)
    return out


def concat(parts):
    if all(type(p) is str for p in parts):
        return ''.join(parts)
    out = []
    for p in parts:
        out.extend(items_of(p))
    return mkstr(out)


def str_(*args, **kw):
    if not args:
        return ''
    v = args[0]
    if len(args) > 1 or kw:
        enc = args[1] if len(args) > 1 else kw.get('encoding', 'utf-8')
        if isinstance(v, SymBytes):
            return v.decode(enc)
        return str(*[conc_arg(a) for a in args], **kw)
    t = type(v)
    if t is str:
        return v
    if t in (int, bool, float, bytes, type(None)):
        return str(v)
    if issubclass(t, Sym):
        if t is SymStr or t is LazyStr:
            return v
        if t is SymInt:
            return int_to_str(v)
        return str(conc(v))
    if t in (list, tuple, EngineDict, dict, EngineSet, EngineOrderedDict):
        return repr_(v)
    f = t.__str__
    if type(f) is types.FunctionType:
        r = f(v)
        if not is_str(r):
            raise TypeError('__str__ returned non-string (type %s)' % type_name(r))
        return r
    if f is object.__str__:
        return repr_(v)
    if isinstance(v, BaseException) and has_sym(v.args):
        if t is KeyError and len(v.args) == 1:
            return repr_(v.args[0])
        if len(v.args) == 1:
            return str_(v.args[0])
        return repr_(tuple(v.args))
    return str(v)


_DIRECTIVE = _re.compile(r'%(?:\(([^()]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', _re.S)


def _pad(text, width, flags):
    if width is None or len(text) >= width:
        return text
    pad = ' ' * (width - len(text))
    return text + pad if '-' in flags else pad + text


def _fmt_int(v, flags, width, prec):
    n = prec if prec is not None else (width if '0' in flags and '-' not in flags else None)
    if n and n <= 12 and '+' not in flags and ' ' not in flags and (
            prec is None or width is None or width <= prec):
        if fork(z3.And(v.expr >= 0, v.expr < 10 ** n)):
            return mkstr(fixed_digits(v, n))
    text = int_to_str(v)
    items = items_of(text)
    neg = bool(items) and type(items[0]) is int and items[0] == 45
    digits = items[1:] if neg else items
    if prec is not None:
        digits = (48,) * (prec - len(digits)) + tuple(digits)
    sign = (45,) if neg else ((43,) if '+' in flags else ((32,) if ' ' in flags else ()))
    if '0' in flags and '-' not in flags and prec is None and width is not None:
        digits = (48,) * (width - len(digits) - len(sign)) + tuple(digits)
    return _pad(mkstr(sign + tuple(digits)), width, flags)


def mod(a, b):
    """The % operator."""
    ta = type(a)
    if not (ta is str or ta is SymStr or ta is LazyStr or ta is bytes):
        return a % b
    if ta is bytes:
        return a % conc_arg(b)
    if ta is not str:
        a = conc(a)
    tb = type(b)
    if tb is tuple:
        if all(_plain(x) for x in b):
            return a % b
    elif _plain(b):
        return a % b
    return format_percent(a, b)


def _defer(v):
    """Values whose text may hide symbolic parts: formatted only when the text is looked at."""
    t = type(v)
    return t in (list, tuple, EngineDict, dict) or getattr(t, '__module__', None) in (
        'datetime', '_pydatetime', '_pydecimal', 'decimal')


def _snapshot(v):
    t = type(v)
    if t is list:
        return [_snapshot(x) for x in v]
    if t is tuple:
        return tuple([_snapshot(x) for x in v])
    if t is EngineDict:
        return v.copy()
    return v


def format_percent(fmt, args):
    parts = []
    lazy = False
    pos = 0
    index = 0
    isdict = isinstance(args, dict) or (not isinstance(args, (tuple, str)) and
        hasattr(args, '__getitem__') and not isinstance(args, Sym))
    seq = args if type(args) is tuple else (args,)
    used_key = False

    def nextarg():
        nonlocal index
        if index >= len(seq):
            raise TypeError('not enough arguments for format string')
        v = seq[index]
        index += 1
        return v

    for m in _DIRECTIVE.finditer(fmt):
        if m.start() < pos:
            continue
        if '%' in fmt[pos:m.start()]:
            raise ValueError('incomplete format')
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append('%')
            continue
        if key is not None:
            if not isdict:
                raise TypeError('format requires a mapping')
            v = args[key]
            used_key = True
        else:
            if width == '*':
                width = conc(nextarg())
            if prec == '*':
                prec = conc(nextarg())
            v = nextarg()
        width = int(width) if width is not None else None
        prec = int(prec) if prec is not None else None
        if conv in 'sra':
            if conv == 's':
                if isinstance(v, SymInt) or isinstance(v, (SymFloat, LazyFloat, SymBytes)):
                    piece = (lambda v=v: str_(v))
                elif _defer(v):
                    piece = (lambda v=_snapshot(v): str_(v))
                else:
                    piece = str_(v)
            elif conv == 'r':
                if isinstance(v, Sym):
                    piece = (lambda v=v: repr_(v))
                elif _defer(v):
                    piece = (lambda v=_snapshot(v): repr_(v))
                else:
                    piece = repr_(v)
            else:
                piece = ascii(conc_arg(v))

            def finish(text, width=width, prec=prec, flags=flags):
                if prec is not None:
                    text = text[:prec]
                return _pad(text, width, flags)
            if callable(piece) and not isinstance(piece, Sym):
                parts.append(lambda piece=piece, finish=finish: finish(piece()))
                lazy = True
            elif width is None and prec is None:
                parts.append(piece)
                lazy = lazy or type(piece) is LazyStr
            else:
                parts.append(finish(piece))
        elif conv in 'diu':
            if isinstance(v, SymInt):
                parts.append(lambda v=v, f=flags, w=width, p=prec: _fmt_int(v, f, w, p))
                lazy = True
            elif isinstance(v, (SymFloat, LazyFloat)):
                d = '%' + flags + (str(width) if width is not None else '') + 'd'
                parts.append(d % conc(v))
            else:
                if isinstance(v, (str, bytes)) or not (hasattr(type(v), '__int__')
                        or hasattr(type(v), '__index__') or hasattr(type(v), '__trunc__')):
                    raise TypeError('%%%s format: a real number is required, not %s' % (
                        conv, type_name(v)))
                d = '%' + flags + (str(width) if width is not None else '') + (
                    '.%d' % prec if prec is not None else '') + 'd'
                if not isinstance(v, (int, float)):
                    v = int_(v)
                    if isinstance(v, SymInt):
                        parts.append(lambda v=v, f=flags, w=width, p=prec: _fmt_int(v, f, w, p))
                        lazy = True
                        continue
                parts.append(d % v)
        elif conv in 'eEfFgG':
            d = '%' + flags + (str(width) if width is not None else '') + (
                '.%d' % prec if prec is not None else '') + conv
            if isinstance(v, (SymFloat, LazyFloat, SymInt)):
                parts.append(lambda d=d, v=v: d % conc(v))
                lazy = True
            else:
                parts.append(d % (conc(v),))
        elif conv in 'xXoc':
            d = '%' + flags + (str(width) if width is not None else '') + (
                '.%d' % prec if prec is not None else '') + conv
            if conv in 'xX' and isinstance(v, SymInt) and '#' not in flags and prec is None:
                parts.append(_fmt_hex(v, conv, flags, width))
                continue
            parts.append(d % (conc(v),))
        else:
            raise ValueError("unsupported format character '%s'" % conv)
    tail = fmt[pos:]
    if '%' in tail:
        raise ValueError('incomplete format')
    parts.append(tail)
    if not isdict and index < len(seq):
        raise TypeError('not all arguments converted during string formatting')

    def build():
        return concat([p() if type(p) is types.FunctionType else p for p in parts])
    return LazyStr(build) if lazy else build()


_HEX = {'x': frozenset(b'0123456789abcdef'), 'X': frozenset(b'0123456789ABCDEF')}


def _fmt_hex(v, conv, flags, width):
    """%x of a symbolic integer: the number of digits is decided, the digits stay symbolic."""
    e = v.expr
    size = 1
    while size < 8 and not fork(z3.And(e >= 0, e < 16 ** size)):
        size += 1
    if size == 8:
        return ('%' + flags + (str(width) if width is not None else '') + conv) % conc(v)
    items = []
    for i in range(size - 1, -1, -1):
        d = (e / (16 ** i)) % 16
        items.append(Ch(z3.If(d < 10, d + 48, d + (87 if conv == 'x' else 55)), _HEX[conv]))
    return _pad_hex(mkstr(items), size, flags, width)


def _pad_hex(text, size, flags, width):
    if width is None or size >= width:
        return text
    fill = width - size
    if '-' in flags:
        return concat([text, ' ' * fill])
    return concat([('0' if '0' in flags else ' ') * fill, text])


def fstring(parts):
    """parts: strings or (value, conversion, spec)."""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conversion, spec = p
        if conversion == 114:
            v = repr_(v)
        elif conversion == 115:
            v = str_(v)
        elif conversion == 97:
            v = ascii(conc_arg(v))
        out.append(format_(v, spec))
    return concat(out)


def format_(v, spec=''):
    spec = conc(spec)
    if not spec:
        return str_(v)
    if isinstance(v, SymInt):
        m = _re.match(r'^(0?)(\d*)d?$', spec)
        if m:
            return _fmt_int(v, m.group(1), int(m.group(2) or 0), None)
        m = _re.match(r'^(0?)(\d*)([xX])$', spec)
        if m:
            return _fmt_hex(v, m.group(3), m.group(1), int(m.group(2) or 0))
    if isinstance(v, Sym):
        return format(conc(v), spec)
    f = type(v).__format__
    if type(f) is types.FunctionType:
        return f(v, spec)
    return format(v, spec)


def str_format(s, args, kw):
    import string
    s = conc(s)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if not _re.match(r'^\w*$', field) or (spec and '{' in spec):
            return s.format(*[conc_arg(a) for a in args],
                **dict((k, conc_arg(v)) for k, v in kw.items()))
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        else:
            v = kw[field]
        if conv == 'r':
            v = repr_(v)
        elif conv == 's':
            v = str_(v)
        elif conv == 'a':
            v = ascii(conc_arg(v))
        out.append(format_(v, spec or ''))
    return concat(out)


# ---------------------------------------------------------------------------------------------
# builtin functions


def type_(*args, **kw):
    if len(args) != 1 or kw:
        return type(*args, **kw)
    t = type(args[0])
    if issubclass(t, Sym):
        return args[0].__class__
    if t is EngineDict:
        return dict
    if t is EngineSet:
        return set
    return t


_INT_RE = None


def _int_pattern():
    global _INT_RE
    if _INT_RE is None:
        from . import symre
        _INT_RE = symre.compile(r'(?:[+-]\s*)?\d+(?:_\d+)*')
    return _INT_RE


def _signed(text):
    """PyPy takes blanks after the sign of an integer."""
    t = text.strip()
    return t[0] + t[1:].lstrip() if t[:1] in ('+', '-') and t[1:2] not in ('+', '-') else text


def parse_int(v, base=10):
    """int(text) for symbolic text."""
    base = conc(base)
    if isinstance(v, SymBytes):
        v = v.decode('latin-1')
    text = v.strip()
    if not isinstance(text, Sym) and not isinstance(text, str):
        text = conc(text)
    if type(text) is str:
        return int(_signed(text), base)
    if base == 16 and 0 < len(text.items) <= 8 and fork(zand([ch_in(c, _HEXDIGIT) for c in text.items])):
        total = 0
        for c in text.items:
            if type(c) is int:
                c = int(chr(c), 16)
            else:
                c = ch_map(narrow(c, c.dom & _HEXDIGIT), 'hexvalue', lambda d: int(chr(d), 16))
                c = c if type(c) is int else c.expr
            total = total * 16 + c
        return total if type(total) is int else SymInt(total)
    if base != 10:
        return int(_signed(conc(text)), base)
    if _int_pattern().fullmatch(text) is None:
        raise ValueError(LazyStr(lambda: concat(
            ['invalid literal for int() with base 10: ', repr_(v)])))
    items = list(text.items)
    neg = False
    if fork(ch_in(items[0], frozenset((43, 45)))):
        neg = fork(ch_eq(items[0], 45))
        items = items[1:]
        while fork(ch_pred(items[0], 'int-blank', lambda d: chr(d).isspace())):
            items = items[1:]
    digits = []
    for c in items:
        if type(c) is int:
            if c != 95:
                digits.append(int(chr(c)))
        elif not fork(ch_eq(c, 95)):
            sub = frozenset(d for d in c.dom if chr(d).isdecimal())
            if sub != c.dom:
                c = narrow(c, sub)
            digits.append(ch_map(c, 'digitvalue', lambda d: int(chr(d))))
    n = len(digits)
    terms = [(d if type(d) is int else d.expr) * 10 ** (n - 1 - i) for i, d in enumerate(digits)]
    total = sum(terms[1:], terms[0])
    if type(total) is int:
        return -total if neg else total
    return mkint(-total if neg else total)


_NARROW = {}


def narrow(c, dom):
    key = (c.uid, dom)
    r = _NARROW.get(key)
    if r is None:
        r = _NARROW[key] = Ch(c.expr, dom)
    return r


def int_(*args, **kw):
    if len(args) == 0:
        return int(**kw)
    v = args[0]
    t = type(v)
    if issubclass(t, Sym):
        if t is SymInt:
            if len(args) > 1 or kw:
                raise TypeError("int() can't convert non-string with explicit base")
            return v
        if t in (SymStr, LazyStr, SymBytes):
            base = args[1] if len(args) > 1 else kw.get('base', 10)
            if t is LazyStr:
                v = v.force()
                if type(v) is str:
                    return int(_signed(v), conc(base))
            return parse_int(v, base)
        if t is SymFloat:
            return float_to_int(v)
        if t is LazyFloat and v._exact():
            return v.src
        return int(conc(v))
    if len(args) > 1 or kw:
        return int(*[conc(a) for a in args], **kw)
    if t is str:
        return int(_signed(v))
    if t in (int, bool, float, bytes):
        return int(v)
    for name in ('__int__', '__index__', '__trunc__'):
        f = getattr(t, name, None)
        if f is not None:
            if type(f) is types.FunctionType:
                return f(v)
            break
    return int(v)


def float_to_int(v):
    e = v.expr
    if fork(z3.fpIsNaN(e)):
        raise ValueError('cannot convert float NaN to integer')
    if fork(z3.fpIsInf(e)):
        raise OverflowError('cannot convert float infinity to integer')
    return int(v._conc())


_FLOAT_RE = None
_NANINF = None


def parse_float(v):
    global _FLOAT_RE, _NANINF
    from . import symre
    if _FLOAT_RE is None:
        d = r'\d+(?:_\d+)*'
        _FLOAT_RE = symre.compile(r'[+-]?(?:%s\.?(?:%s)?|\.%s)(?:[eE][+-]?%s)?' % (d, d, d, d))
        _NANINF = symre.compile(r'[+-]?(?:nan|inf|infinity)', _re.I | _re.A)
    if isinstance(v, SymBytes):
        text = v.decode('latin-1').strip(' \t\n\r\x0b\x0c')
    else:
        text = v.strip()
    if type(text) is str:
        return float(text)
    if _FLOAT_RE.fullmatch(text) is not None:
        return LazyFloat(text)
    if _NANINF.fullmatch(text) is not None:
        items = text.items
        sign = False
        if fork(ch_in(items[0], frozenset((43, 45)))):
            sign = fork(ch_eq(items[0], 45))
            items = items[1:]
        nan = fork(ch_in(items[0], frozenset((78, 110))))
        return float(('-' if sign else '') + ('nan' if nan else 'inf'))
    raise ValueError(LazyStr(lambda: concat(['could not convert string to float: ', repr_(v)])))


def float_(*args):
    if not args:
        return 0.0
    v = args[0]
    t = type(v)
    if issubclass(t, Sym):
        if t in (SymFloat, LazyFloat):
            return v
        if t is SymInt:
            if fork(z3.And(v.expr > -2 ** 1000, v.expr < 2 ** 1000)):
                return LazyFloat(v)
            return float(conc(v))
        if t is LazyStr:
            v = v.force()
            if type(v) is str:
                return float(v)
        return parse_float(v)
    f = getattr(t, '__float__', None)
    if type(f) is types.FunctionType:
        return f(v)
    return float(v)


def bytes_(*args, **kw):
    if args:
        v = args[0]
        t = type(v)
        if t is SymBytes:
            return v
        if t in (SymStr, LazyStr):
            enc = args[1] if len(args) > 1 else kw.get('encoding')
            if enc is None:
                raise TypeError('string argument without an encoding')
            return v.encode(enc)
        if t in (list, tuple) and any(isinstance(x, Sym) for x in v):
            out = []
            for x in v:
                if isinstance(x, SymInt):
                    if not fork(z3.And(x.expr >= 0, x.expr <= 255)):
                        raise ValueError('bytes must be in range(0, 256)')
                    out.append(Ch(x.expr, frozenset(range(256))))
                else:
                    out.append(x)
            return mkbytes(out)
    return bytes(*[conc_arg(a) for a in args], **kw)


def ord_(v):
    if isinstance(v, SymStr) or isinstance(v, SymBytes):
        if len(v) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(v))
        return SymInt(v.items[0].expr)
    return ord(conc(v))


def chr_(v):
    if isinstance(v, SymInt):
        codes = cur().possible_values(v.expr, 400)
        if codes and min(codes) >= 0 and max(codes) <= 0x10ffff:
            return mkstr([Ch(v.expr, frozenset(codes))])
    return chr(conc(v))


def map_(f, *iterables):
    return (call(f, *args) for args in zip(*iterables))


def filter_(f, iterable):
    if f is None:
        return (x for x in iterable if x)
    return (x for x in iterable if call(f, x))


def _wrapkey(k):
    if k is None:
        return None
    return lambda *a: call(k, *a)


def sorted_(it, key=None, reverse=False):
    return sorted(it, key=_wrapkey(key), reverse=reverse)


def min_(*a, **k):
    if k.get('key') is not None:
        k['key'] = _wrapkey(k['key'])
    return min(*a, **k)


def max_(*a, **k):
    if k.get('key') is not None:
        k['key'] = _wrapkey(k['key'])
    return max(*a, **k)


class Partial(object):
    def __init__(self, func, /, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords

    def __call__(self, /, *a, **k):
        kw = dict(self.keywords)
        kw.update(k)
        return call(self.func, *(self.args + a), **kw)


def getattr_(obj, name, *default):
    if isinstance(name, SymStr) and isinstance(obj, (type, types.ModuleType)) and not hasattr(obj, '__getattr__'):
        for candidate in dir(obj):
            if name == candidate:
                return getattr(obj, candidate, *default)
        if default:
            return default[0]
        raise AttributeError('no such attribute')
    return getattr(obj, conc(name), *default)


def setattr_(obj, name, value):
    return setattr(obj, conc(name), value)


def hasattr_(obj, name):
    return hasattr(obj, conc(name))


def delattr_(obj, name):
    return delattr(obj, conc(name))


def print_(*a, **k):
    return None


def frozenset_(items=()):
    items = list(items)
    if any(needs_scan(x) for x in items):
        return EngineSet(items)
    return frozenset(items)


def bool_(*a):
    return bool(*a)


def ascii_(v):
    return ascii(conc_arg(v))


def len_(v):
    return len(v)


def sum_(it, start=0):
    total = start
    for x in it:
        total = total + x
    return total


def int_repr(v):
    if isinstance(v, SymInt):
        return repr_(v)
    return int.__repr__(conc(v))


class VirtualFile(object):
    """An in-memory text file under /virtual (the scratch directory during exploration)."""

    def __init__(self, fs, path, mode, newline):
        self.fs, self.path, self.newline = fs, path, newline
        if mode.startswith('w'):
            fs[path] = ''
        elif path not in fs:
            raise FileNotFoundError(2, 'No such file or directory', path)

    def read(self):
        text = self.fs[self.path]
        if self.newline is None:
            text = callm(callm(text, 'replace', '\r\n', '\n'), 'replace', '\r', '\n')
        return text

    def write(self, text):
        if not is_str(text):
            raise TypeError('write() argument must be str, not %s' % type_name(text))
        callm(text, 'encode', 'utf-8')
        if self.newline in ('\r', '\r\n'):
            self.fs[self.path] = concat([self.fs[self.path], callm(text, 'replace', '\n', self.newline)])
        else:
            self.fs[self.path] = concat([self.fs[self.path], text])
        return len(text)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def open_(path, mode='r', *a, **k):
    ex = cur()
    if ex is None:
        return open(path, mode, *a, **k)
    path = conc(path)
    if not path.startswith('/virtual/') or mode.strip('t') not in ('', 'r', 'w', 'w+'):
        raise EngineError('open(%r, %r) is not modelled' % (path, mode))
    if (a + (None, None))[1] or k.get('encoding') not in (None, 'utf-8', 'utf8', 'UTF-8'):
        raise EngineError('open(%r) with an encoding is not modelled' % path)
    return VirtualFile(ex.user.setdefault('fs', {}), path, mode, k.get('newline', a[3] if len(a) > 3 else None))


def exists_(path):
    ex = cur()
    path = conc(path)
    if ex is None or not path.startswith('/virtual'):
        return os.path.exists(path)
    return path in ex.user.setdefault('fs', {})


def round_(v, *a):
    f = getattr(type(v), '__round__', None)
    if type(f) is types.FunctionType:
        return f(v, *a)
    return round(v, *[conc(x) for x in a])


def abs_(v):
    return abs(v)


def isinstance2(v, t):
    return isinstance(v, t)


def range_(*a):
    return range(*[conc(x) for x in a])


HANDLERS = {}


def handler(f, h):
    HANDLERS[id(f)] = (f, h)


for _b, _h in ((type, type_), (str, str_), (repr, repr_), (int, int_), (float, float_),
        (bytes, bytes_), (ord, ord_), (chr, chr_), (map, map_), (filter, filter_),
        (sorted, sorted_), (min, min_), (max, max_), (getattr, getattr_), (setattr, setattr_),
        (hasattr, hasattr_), (delattr, delattr_), (print, print_), (dict, EngineDict),
        (set, EngineSet), (frozenset, frozenset_), (bool, bool_), (ascii, ascii_), (len, len_),
        (format, format_), (functools.partial, Partial), (open, open_), (round, round_),
        (int.__repr__, int_repr), (os.path.exists, exists_), (os.path.isfile, exists_), (isinstance, isinstance2), (sum, sum_), (range, range_)):
    handler(_b, _h)

def compile_(source, filename='<unknown>', mode='exec', *a, **k):
    """Source generated by the code under analysis (a template compiled to Python) is instrumented too."""
    if mode == 'exec' and not a and not k:
        from .rewrite import instrument
        return instrument(conc(source), conc(filename))
    return compile(conc(source), conc(filename), mode, *a, **k)


def exec_(code, namespace):
    namespace['__rt__'] = sys.modules[__name__]
    if generated_builtins is not None:
        namespace['__builtins__'] = generated_builtins
    exec(code, namespace)


def reduce_(function, sequence, initial=MISSING):
    it = iter(sequence)
    if initial is MISSING:
        try:
            initial = next(it)
        except StopIteration:
            raise TypeError('reduce() of empty iterable with no initial value')
    for x in it:
        initial = call(function, initial, x)
    return initial


handler(functools.reduce, reduce_)
_stash = []


def stash(value):
    """The source text of an expression for a symbolic value, for generated code."""
    if len(_stash) > 10000:
        del _stash[:]
    _stash.append(value)
    return '__rt__.stashed(%d)' % (len(_stash) - 1)


def stashed(i):
    return _stash[i]


generated_builtins = None
handler(compile, compile_)
handler(exec, exec_)

# C-level callables that only move references around, or go through the proxies' own methods
_TRANSPARENT = set(id(f) for f in (list, tuple, enumerate, zip, reversed, iter, next, issubclass,
    callable, id, any, all, abs, divmod, object, super, property, classmethod, staticmethod, slice,
    vars, dir, hash, pow, types.MethodType, types.ModuleType, memoryview))

_BUILTIN = types.BuiltinFunctionType
_DESCRIPTORS = (type(str.lower), type(object.__init__), type(dict.__dict__['fromkeys']))
_FT = types.FunctionType
_MT = types.MethodType

_CONTAINERS = (list, dict, set, frozenset, tuple, EngineDict, EngineSet, EngineOrderedDict)


def _foreign(f):
    g = f.__globals__
    return '__rt__' not in g and not g.get('__name__', '').startswith('symscheme')


def call(f, /, *a, **k):
    t = type(f)
    if t is _FT:
        if '__rt__' in f.__globals__:
            return f(*a, **k)
        if _foreign(f):
            h = HANDLERS.get(id(f))
            if h is not None:
                return h[1](*a, **k)
            return f(*[conc_arg(x) for x in a], **dict((n, conc_arg(x)) for n, x in k.items()))
        return f(*a, **k)
    if t is _MT:
        func = f.__func__
        if type(func) is _FT and _foreign(func) and '__rt__' not in func.__globals__:
            s = f.__self__
            return f(*[conc_arg(x) for x in a], **dict((n, conc_arg(x)) for n, x in k.items()))
        return f(*a, **k)
    h = HANDLERS.get(id(f))
    if h is not None:
        return h[1](*a, **k)
    if t is _BUILTIN:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            if id(f) in _TRANSPARENT:
                return f(*a, **k)
            return f(*[conc_arg(x) for x in a], **dict((n, conc_arg(x)) for n, x in k.items()))
        return callm(s, f.__name__, *a, **k)
    if t in _DESCRIPTORS:
        if a and isinstance(a[0], Sym):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and type(a[0]) in (str, bytes):
            return callm(a[0], f.__name__, *a[1:], **k)
        return f(*a, **k)
    return f(*a, **k)


def _sym_any(a):
    for x in a:
        if isinstance(x, Sym):
            return True
        if type(x) is tuple and any(isinstance(y, Sym) for y in x):
            return True
    return False


_SPACE_METHODS = ('strip', 'lstrip', 'rstrip', 'split')
_PYPY_SPACES = _re.compile('[\x1c-\x1f]')


def callm(obj, name, /, *a, **k):
    t = type(obj)
    if t is str:
        if name == 'join':
            parts = list(a[0])
            for p in parts:
                if isinstance(p, Sym):
                    return SymStr(items_of(obj)).join(parts)
            return obj.join(parts)
        if name == 'format':
            if all(_plain(x) for x in a) and all(_plain(x) for x in k.values()):
                return obj.format(*a, **k)
            return str_format(obj, a, k)
        if (a and _sym_any(a)) or (k and _sym_any(k.values())):
            return getattr(SymStr(items_of(obj)), name)(*a, **k)
        if name in _SPACE_METHODS and (not a or a[0] is None) and _PYPY_SPACES.search(obj):
            return getattr(SymStr(items_of(obj)), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is bytes:
        if name == 'join':
            parts = list(a[0])
            if any(isinstance(p, Sym) for p in parts):
                return SymBytes(tuple(obj)).join(parts)
            return obj.join(parts)
        if a and _sym_any(a):
            return getattr(SymBytes(tuple(obj)), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    if t is dict:
        if a and needs_scan(a[0]) and name in ('get', 'pop', 'setdefault', '__getitem__',
                '__contains__', '__setitem__', '__delitem__'):
            for key in list(obj):
                if same_key(key, a[0]):
                    return getattr(obj, name)(key, *a[1:])
            if name in ('setdefault', '__setitem__'):
                return getattr(obj, name)(conc(a[0]), *a[1:])
            if name == 'get':
                return a[1] if len(a) > 1 else None
            if name == '__contains__':
                return False
            if name == 'pop' and len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return getattr(obj, name)(*a, **k)
    if t is list:
        if name == 'sort' and k.get('key') is not None:
            k = dict(k, key=_wrapkey(k['key']))
        return getattr(obj, name)(*a, **k)
    if t in _CONTAINERS:
        return getattr(obj, name)(*a, **k)
    if issubclass(t, Sym):
        return getattr(obj, name)(*a, **k)
    if obj is int and len(a) == 1 and type(a[0]) is SymInt and name in ('__str__', '__repr__'):
        return repr_(a[0])
    m = getattr(obj, name)
    if type(m) is _BUILTIN:
        s = m.__self__
        if s is obj and t is not types.ModuleType and not isinstance(obj, type):
            # a method of some C-implemented object
            if isinstance(obj, (BaseException, types.GeneratorType)) or issubclass(t, (dict, list,
                    tuple, set)):
                return m(*a, **k)
            return m(*[conc_arg(x) for x in a], **dict((n, conc_arg(x)) for n, x in k.items()))
        if isinstance(obj, (super, type)):
            return m(*a, **k)
        if s is None or type(s) is types.ModuleType:
            return call(m, *a, **k)
        if type(s) in (str, bytes):
            return callm(s, m.__name__, *a, **k)
        return m(*a, **k)
    return call(m, *a, **k)


def kw(d):
    """Operand of ** in a call."""
    if isinstance(d, dict):
        if any(isinstance(x, Sym) for x in d):
            return dict((conc(x), v) for x, v in dict_items(d))
        return d
    return d


def contains(x, c):
    t = type(c)
    if t is str:
        if isinstance(x, Sym):
            return x in SymStr(items_of(c)) if is_str(x) else (conc(x) in c)
        return x in c
    if t is bytes:
        if isinstance(x, Sym):
            return x in SymBytes(tuple(c))
        return x in c
    if t in (dict, set, frozenset):
        if needs_scan(x):
            call_hash_check(x)
            return any(same_key(k, x) for k in list(c))
        return x in c
    return x in c


def not_contains(x, c):
    return not contains(x, c)


def getitem(obj, idx):
    ti = type(idx)
    if ti is SymInt:
        to = type(obj)
        if to is list or to is tuple:
            n = len(obj)
            if n and all(type(x) is int or type(x) is SymInt for x in obj):
                e = idx.expr
                if not fork(z3.And(e >= -n, e < n)):
                    raise IndexError('list index out of range')
                if not fork(e >= 0):
                    e = e + n
                vals = [x if type(x) is int else x.expr for x in obj]
                r = vals[-1] if type(vals[-1]) is not int else z3.IntVal(vals[-1])
                for i in range(n - 2, -1, -1):
                    r = z3.If(e == i, vals[i], r)
                return mkint(r)
            return obj[conc(idx)]
        if to is str or to is bytes:
            return obj[conc(idx)]
    elif ti is not int and type(obj) is dict and needs_scan(idx):
        return callm(obj, '__getitem__', idx)
    elif ti is slice and type(obj) in (str, bytes, list, tuple):
        if isinstance(idx.start, Sym) or isinstance(idx.stop, Sym) or isinstance(idx.step, Sym):
            idx = slice(conc(idx.start), conc(idx.stop), conc(idx.step))
    return obj[idx]


# ---------------------------------------------------------------------------------------------
# support for the models of C-implemented modules


def cmp3(x, y):
    """datetime._cmp: three-way comparison, one formula per question."""
    if type(x) is tuple and type(y) is tuple and len(x) == len(y) and (
            any(isinstance(v, Sym) for v in x) or any(isinstance(v, Sym) for v in y)) and \
            all(type(v) in (int, SymInt) for v in x + y):
        pairs = [(a if type(a) is int else a.expr, b if type(b) is int else b.expr)
            for a, b in zip(x, y)]
        eqs = [a == b for a, b in pairs]
        if fork(zand(eqs)):
            return 0
        f = False
        for a, b in reversed(pairs):
            gt, eq = a > b, a == b
            f = zor([gt, zand([eq, f])])
        return 1 if fork(f) else -1
    return 0 if x == y else 1 if x > y else -1


def _leap(y):
    """The formula of datetime._is_leap, through the divisions the path already knows."""
    if type(y) is int:
        return z3.BoolVal(y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    def rem(n):
        r = int_divmod(y, n)[1]
        return r.expr if type(r) is SymInt else z3.IntVal(r)
    return z3.And(rem(4) == 0, z3.Or(rem(100) != 0, rem(400) == 0))


def days_in_month(original):
    def f(year, month):
        if type(year) is not SymInt and type(month) is not SymInt:
            return original(year, month)
        if not (1 <= month and month <= 12):
            raise AssertionError(month)
        if type(month) is int:
            if month != 2:
                return original(2001, month)
            return mkint(z3.If(_leap(year), z3.IntVal(29), z3.IntVal(28)))
        m = month.expr
        return mkint(z3.If(m == 2, z3.If(_leap(year), z3.IntVal(29), z3.IntVal(28)),
            z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31))))
    return f


def days_before_month(original):
    def f(year, month):
        if type(year) is not SymInt and type(month) is not SymInt:
            return original(year, month)
        if not (1 <= month and month <= 12):
            raise AssertionError(month)
        m = month if type(month) is int else month.expr
        if type(m) is int:
            base = z3.IntVal(original(2001, m))
            if m <= 2:
                return original(2001, m)
        else:
            base = z3.IntVal(original(2001, 12))
            for i in range(11, 0, -1):
                base = z3.If(m == i, z3.IntVal(original(2001, i)), base)
        return mkint(base + z3.If(z3.And(m > 2, _leap(year)), z3.IntVal(1), z3.IntVal(0)))
    return f


def int_items(data):
    """The values of a byte string, as integers."""
    return [c if type(c) is int else SymInt(c.expr) for c in bytes_items(data)]


def raw_items(data):
    return bytes_items(data)


def char_is(c, code):
    return fork(ch_eq(c, code))


def rawbytes(items):
    out = []
    for x in items:
        if type(x) is SymInt:
            x = Ch(x.expr, _BYTE)
        out.append(x)
    return mkbytes(out)


_BYTE = frozenset(range(256))
_B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
_B64SET = frozenset(_B64)


def table(alphabet, idx):
    """alphabet[idx] for base64's alphabet."""
    if type(idx) is int:
        return alphabet[idx]
    e = idx.expr
    expr = z3.If(e < 26, e + 65, z3.If(e < 52, e + 71, z3.If(e < 62, e - 4,
        z3.If(e == 62, z3.IntVal(43), z3.IntVal(47)))))
    return Ch(expr, _B64SET)


def b64value(c):
    if type(c) is int:
        i = _B64.find(bytes([c]))
        return i if i >= 0 else None
    if not fork(ch_in(c, _B64SET)):
        return None
    c = narrow(c, c.dom & _B64SET)
    r = ch_map(c, 'b64value', lambda d: _B64.index(bytes([d])))
    return r if type(r) is int else SymInt(r.expr)


def exploring():
    return cur() is not None


# -- percent encoding ---------------------------------------------------------------------------


_HEXDIGIT = frozenset(b'0123456789abcdefABCDEF')


def percent_quote(data, safe):
    """Every byte outside ``safe`` as %XX."""
    out = []
    for c in bytes_items(data):
        if fork(ch_in(c, safe)):
            out.append(c if type(c) is int else narrow(c, c.dom & safe))
        else:
            if type(c) is not int:
                c = narrow(c, c.dom - safe)
            out.append(37)
            out.append(ch_map(c, 'percent-high', lambda d: ord('%X' % (d >> 4))))
            out.append(ch_map(c, 'percent-low', lambda d: ord('%X' % (d & 15))))
    return mkstr(out)


def percent_value(a, b):
    """The byte two hexadecimal digits stand for, or None."""
    if not fork(zand([ch_in(a, _HEXDIGIT), ch_in(b, _HEXDIGIT)])):
        return None
    if type(a) is int and type(b) is int:
        return int(chr(a) + chr(b), 16)

    def digit(c):
        if type(c) is int:
            return int(chr(c), 16)
        c = ch_map(narrow(c, c.dom & _HEXDIGIT), 'hexvalue', lambda d: int(chr(d), 16))
        return c if type(c) is int else c.expr

    return Ch(16 * digit(a) + digit(b), _BYTE)
