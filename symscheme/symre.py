"""Regular expressions over symbolic strings.

Existence of a match is one formula (set of reachable end positions per pattern node); groups and
extents are found by a backtracking matcher that forks on character tests.
"""
import re as _re
import re._parser as _parser
import re._constants as _c

from .core import fork
from .values import (SymStr, SymBytes, LazyStr, Sym, ch_eq, ch_pred, ch_in, zand, zor, znot,
    items_of, bytes_items, mkstr, mkbytes, conc, is_str, eq_items)

_CATS = {
    _c.CATEGORY_DIGIT: (r'\d', False), _c.CATEGORY_NOT_DIGIT: (r'\d', True),
    _c.CATEGORY_SPACE: (r'\s', False), _c.CATEGORY_NOT_SPACE: (r'\s', True),
    _c.CATEGORY_WORD: (r'\w', False), _c.CATEGORY_NOT_WORD: (r'\w', True),
}


class Unsupported(Exception):
    pass


def _cat(code, d, flags):
    expr, neg = _CATS[code]
    r = _re.match(expr, chr(d), _re.ASCII if flags & _re.ASCII else 0) is not None
    return r != neg


def _variants(d):
    c = chr(d)
    out = {d}
    for v in (c.lower(), c.upper()):
        if len(v) == 1:
            out.add(ord(v))
    return out


def _set_pred(items, flags):
    negate = False
    tests = []
    for op, av in items:
        if op is _c.NEGATE:
            negate = True
        elif op is _c.LITERAL:
            tests.append(('lit', av))
        elif op is _c.RANGE:
            tests.append(('range', av))
        elif op is _c.CATEGORY:
            tests.append(('cat', av))
        else:
            raise Unsupported(op)

    def one(d):
        for kind, av in tests:
            if kind == 'lit':
                if d == av:
                    return True
            elif kind == 'range':
                if av[0] <= d <= av[1]:
                    return True
            elif _cat(av, d, flags):
                return True
        return False

    def pred(d):
        if flags & _re.IGNORECASE:
            r = any(one(v) for v in _variants(d))
        else:
            r = one(d)
        return r != negate
    return pred


class Node(object):
    __slots__ = ('op', 'av', 'name', 'pred', 'kids', 'lo', 'hi', 'group', 'flags')

    def __init__(self, op):
        self.op = op
        self.kids = ()
        self.pred = None


_ids = [0]


def _compile(p, flags):
    seq = []
    for op, av in p:
        _ids[0] += 1
        n = Node(op)
        n.name = 're%d' % _ids[0]
        n.flags = flags
        n.av = av
        if op is _c.LITERAL:
            n.op = 'char'
            if flags & _re.IGNORECASE:
                vs = _variants(av)
                n.pred = lambda d, vs=vs: bool(_variants(d) & vs)
            else:
                n.pred = lambda d, av=av: d == av
        elif op is _c.NOT_LITERAL:
            n.op = 'char'
            if flags & _re.IGNORECASE:
                vs = _variants(av)
                n.pred = lambda d, vs=vs: not (_variants(d) & vs)
            else:
                n.pred = lambda d, av=av: d != av
        elif op is _c.ANY:
            n.op = 'char'
            if flags & _re.DOTALL:
                n.pred = lambda d: True
            else:
                n.pred = lambda d: d != 10
        elif op is _c.IN:
            n.op = 'char'
            n.pred = _set_pred(av, flags)
        elif op is _c.BRANCH:
            n.op = 'branch'
            n.kids = [_compile(x, flags) for x in av[1]]
        elif op is _c.SUBPATTERN:
            group, add, sub, pp = av
            n.op = 'group'
            n.group = group
            n.kids = [_compile(pp, (flags | add) & ~sub)]
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            n.op = 'max' if op is _c.MAX_REPEAT else 'min'
            n.lo, n.hi = av[0], (None if av[1] is _c.MAXREPEAT else av[1])
            n.kids = [_compile(av[2], flags)]
        elif op in (_c.ASSERT, _c.ASSERT_NOT):
            n.op = 'assert' if op is _c.ASSERT else 'assert_not'
            n.lo = av[0]
            n.kids = [_compile(av[1], flags)]
            if av[0] < 0:
                lo, hi = av[1].getwidth()
                if lo != hi:
                    raise Unsupported('variable lookbehind')
                n.hi = lo
        elif op is _c.AT:
            n.op = 'at'
        elif op is _c.GROUPREF:
            n.op = 'ref'
            n.group = av
        else:
            raise Unsupported(op)
        seq.append(n)
    return seq


def _has_ref(seq):
    return any(n.op == 'ref' or any(_has_ref(k) for k in n.kids) for n in seq)


class Subject(object):
    """A string being matched: vector of characters."""

    def __init__(self, items, endpos):
        self.items = items
        self.n = endpos
        self.memo = {}

    def at(self, node, i):
        code, flags = node.av, node.flags
        items, n = self.items, self.n
        multi = flags & _re.MULTILINE
        if code is _c.AT_BEGINNING or code is _c.AT_BEGINNING_LINE:
            if i == 0:
                return True
            return ch_eq(items[i - 1], 10) if multi else False
        if code is _c.AT_BEGINNING_STRING:
            return i == 0
        if code is _c.AT_END or code is _c.AT_END_LINE:
            if i == n:
                return True
            if multi:
                return ch_eq(items[i], 10)
            return ch_eq(items[i], 10) if i == n - 1 else False
        if code is _c.AT_END_STRING:
            return i == n
        if code in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            ascii_ = flags & _re.ASCII

            def word(j):
                if j < 0 or j >= n:
                    return False
                return ch_pred(items[j], 'word%d' % bool(ascii_),
                    lambda d: _cat(_c.CATEGORY_WORD, d, flags))
            a, b = word(i - 1), word(i)
            r = zor([zand([a, znot(b)]), zand([znot(a), b])])
            return r if code is _c.AT_BOUNDARY else znot(r)
        raise Unsupported(code)

    # -- formula ------------------------------------------------------------------------------

    def seq_ends(self, seq, k, i):
        """{end: formula} over matches of seq[k:] starting at i."""
        if k == len(seq):
            return {i: True}
        key = (id(seq), k, i)
        r = self.memo.get(key)
        if r is None:
            out = {}
            for j, f in self.ends(seq[k], i).items():
                for e, g in self.seq_ends(seq, k + 1, j).items():
                    out.setdefault(e, []).append(zand([f, g]))
            r = {}
            for e, fs in out.items():
                f = zor(fs)
                if f is not False:
                    r[e] = f
            self.memo[key] = r
        return r

    def ends(self, node, i):
        op = node.op
        if op == 'char':
            if i >= self.n:
                return {}
            f = ch_pred(self.items[i], node.name, node.pred)
            return {} if f is False else {i + 1: f}
        if op == 'at':
            f = self.at(node, i)
            return {} if f is False else {i: f}
        if op == 'group':
            return self.seq_ends(node.kids[0], 0, i)
        if op == 'branch':
            out = {}
            for kid in node.kids:
                for e, f in self.seq_ends(kid, 0, i).items():
                    out.setdefault(e, []).append(f)
            return dict((e, zor(fs)) for e, fs in out.items())
        if op in ('max', 'min'):
            return self.rep_ends(node, i)
        if op in ('assert', 'assert_not'):
            if node.lo < 0:
                start = i - node.hi
                f = False
                if start >= 0:
                    f = self.seq_ends(node.kids[0], 0, start).get(i, False)
            else:
                f = zor(list(self.seq_ends(node.kids[0], 0, i).values()))
            if op == 'assert_not':
                f = znot(f)
            return {} if f is False else {i: f}
        raise Unsupported(op)

    def rep_ends(self, node, i):
        key = (id(node), 'rep', i)
        r = self.memo.get(key)
        if r is not None:
            return r
        lo, hi = node.lo, node.hi
        kid = node.kids[0]
        result = {}
        frontier = {i: True}
        count = 0
        if lo == 0:
            result[i] = [True]
        while frontier and (hi is None or count < hi):
            nxt = {}
            for j, f in frontier.items():
                for e, g in self.seq_ends(kid, 0, j).items():
                    if e == j and count >= lo:
                        continue
                    nxt.setdefault(e, []).append(zand([f, g]))
            frontier = {}
            for e, fs in nxt.items():
                f = zor(fs)
                if f is not False:
                    frontier[e] = f
            count += 1
            if count >= lo:
                for e, f in frontier.items():
                    result.setdefault(e, []).append(f)
            if count > lo and hi is None and count > self.n + 1:
                break
        r = {}
        for e, fs in result.items():
            f = zor(fs)
            if f is not False:
                r[e] = f
        self.memo[key] = r
        return r

    # -- backtracking ---------------------------------------------------------------------------

    def run(self, seq, k, i, groups, cont):
        if k == len(seq):
            return cont(i, groups)
        node = seq[k]
        op = node.op
        if op == 'char':
            # consume a run of plain characters without recursion
            while True:
                if i >= self.n or not fork(ch_pred(self.items[i], node.name, node.pred)):
                    return None
                i += 1
                k += 1
                if k == len(seq):
                    return cont(i, groups)
                node = seq[k]
                if node.op != 'char':
                    break
            return self.run(seq, k, i, groups, cont)

        def rest(j, g):
            return self.run(seq, k + 1, j, g, cont)

        if op == 'at':
            return rest(i, groups) if fork(self.at(node, i)) else None
        if op == 'group':
            gid = node.group
            if gid is None:
                return self.run(node.kids[0], 0, i, groups, rest)

            def close(j, g):
                g = dict(g)
                g[gid] = (i, j)
                g['last'] = gid
                return rest(j, g)
            return self.run(node.kids[0], 0, i, groups, close)
        if op == 'branch':
            for kid in node.kids:
                r = self.run(kid, 0, i, groups, rest)
                if r is not None:
                    return r
            return None
        if op in ('max', 'min'):
            kid = node.kids[0]
            lo, hi = node.lo, node.hi
            if len(kid) == 1 and kid[0].op == 'char':
                c = kid[0]
                top = self.n if hi is None else min(self.n, i + hi)
                if op == 'max':
                    j = i
                    while j < top and fork(ch_pred(self.items[j], c.name, c.pred)):
                        j += 1
                    while j - i >= lo:
                        r = rest(j, groups)
                        if r is not None:
                            return r
                        j -= 1
                    return None
                j = i
                while True:
                    if j - i >= lo:
                        r = rest(j, groups)
                        if r is not None:
                            return r
                    if j >= top or not fork(ch_pred(self.items[j], c.name, c.pred)):
                        return None
                    j += 1

            def step(count, j, g):
                def again(e, g2):
                    if e == j and count >= lo:
                        return None
                    return step(count + 1, e, g2)
                if op == 'max':
                    if hi is None or count < hi:
                        r = self.run(kid, 0, j, g, again)
                        if r is not None:
                            return r
                    return rest(j, g) if count >= lo else None
                if count >= lo:
                    r = rest(j, g)
                    if r is not None:
                        return r
                if hi is None or count < hi:
                    return self.run(kid, 0, j, g, again)
                return None
            return step(0, i, groups)
        if op in ('assert', 'assert_not'):
            if node.lo < 0:
                start = i - node.hi
                r = None
                if start >= 0:
                    r = self.run(node.kids[0], 0, start, groups,
                        lambda j, g: g if j == i else None)
            else:
                r = self.run(node.kids[0], 0, i, groups, lambda j, g: g)
            if op == 'assert':
                return rest(i, r) if r is not None else None
            return rest(i, groups) if r is None else None
        if op == 'ref':
            span = groups.get(node.group)
            if span is None:
                return None
            want = self.items[span[0]:span[1]]
            e = i + len(want)
            if e > self.n or not fork(eq_items(self.items[i:e], want)):
                return None
            return rest(e, groups)
        raise Unsupported(op)


class SymMatch(object):
    def __init__(self, pattern, string, make, subject, start, whole, pos):
        self.re = pattern
        self.string = string
        self._make = make
        self._subject = subject
        self._start = start
        self._whole = whole
        self._done = None
        self.pos = pos
        self.endpos = subject.n

    def _groups(self):
        if self._done is None:
            self._done = self.re._extent(self._subject, self._start, self._whole)
            if self._done is None:
                raise AssertionError('matcher disagrees with match formula')
        return self._done

    def _span(self, g):
        if g == 0 and type(g) is int:
            return (self._start, self._groups()[0])
        if type(g) is not int:
            g = self.re.groupindex[conc(g)]
        if g > self.re.groups:
            raise IndexError('no such group')
        return self._groups()[1].get(g, (-1, -1))

    def _get(self, g, default=None):
        a, b = self._span(g)
        if a < 0:
            return default
        return self._make(self._subject.items[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._get(i, default)) for n, i in self.re.groupindex.items())

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)

    @property
    def lastindex(self):
        return self._groups()[1].get('last')

    @property
    def lastgroup(self):
        last = self.lastindex
        for n, i in self.re.groupindex.items():
            if i == last:
                return n

    def expand(self, template):
        return _expand(self.re, template)(self)

    def __bool__(self):
        return True


def _expand(pattern, template):
    """A replacement template as a function of the match."""
    template = conc(template)
    parsed = _parser.parse_template(template, pattern._real)
    # 3.12: list alternating literal, group index, literal, ...
    def build(m):
        out = []
        for part in parsed:
            if isinstance(part, int):
                v = m._get(part, '')
                out.extend(pattern._items(v) if len(v) else ())
            else:
                out.extend(pattern._items(part))
        return pattern._make(out)
    return build


class Pattern(object):
    """Stands for a compiled regular expression inside the instrumented code."""
    _cache = {}

    def __init__(self, real):
        self._real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = dict(real.groupindex)
        self._tree = None
        self._bytes = isinstance(real.pattern, bytes)
        self._make = mkbytes if self._bytes else mkstr
        self._items = bytes_items if self._bytes else items_of

    def __repr__(self):
        return repr(self._real)

    def __eq__(self, other):
        return isinstance(other, Pattern) and self._real == other._real

    def __hash__(self):
        return hash(self._real)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _prepare(self):
        if self._tree is None:
            flags = self._real.flags & ~_re.UNICODE
            if self._bytes:
                flags |= _re.ASCII
            p = _parser.parse(self.pattern, self._real.flags & ~(_re.UNICODE))
            self._tree = _compile(p, p.state.flags & ~_re.UNICODE
                | (_re.ASCII if self._bytes else 0))
            self._ref = _has_ref(self._tree)
        return self._tree

    def _symbolic(self, s):
        t = type(s)
        if t is LazyStr:
            s = s.force()
            t = type(s)
        if self._bytes:
            if t is SymBytes:
                return s, True
            if t is SymStr:
                raise TypeError('cannot use a bytes pattern on a string-like object')
        else:
            if t is SymStr:
                return s, True
            if t is SymBytes:
                raise TypeError('cannot use a string pattern on a bytes-like object')
        if issubclass(t, Sym):
            raise TypeError('expected string or bytes-like object')
        return s, False

    def _extent(self, subject, start, whole):
        tree = self._prepare()

        def done(j, g):
            if whole and j != subject.n:
                return None
            return (j, g)
        return subject.run(tree, 0, start, {}, done)

    def _exists(self, subject, start, whole):
        tree = self._prepare()
        if self._ref:
            return None
        ends = subject.seq_ends(tree, 0, start)
        if whole:
            return ends.get(subject.n, False)
        return zor(list(ends.values()))

    def _subject(self, s, pos, endpos):
        items = self._items(s)
        n = len(items)
        pos = max(0, min(conc(pos or 0), n))
        if endpos is not None:
            n = max(0, min(n, conc(endpos)))
        return Subject(items, n), pos

    def _match_at(self, s, subject, i, whole, pos):
        f = self._exists(subject, i, whole)
        if f is None:
            done = self._extent(subject, i, whole)
            if done is None:
                return None
            m = SymMatch(self, s, self._make, subject, i, whole, pos)
            m._done = done
            return m
        if not fork(f):
            return None
        return SymMatch(self, s, self._make, subject, i, whole, pos)

    def match(self, string, pos=0, endpos=None):
        string, sym = self._symbolic(string)
        if not sym:
            return self._wrap(self._call('match', string, pos, endpos))
        subject, pos = self._subject(string, pos, endpos)
        return self._match_at(string, subject, pos, False, pos)

    def fullmatch(self, string, pos=0, endpos=None):
        string, sym = self._symbolic(string)
        if not sym:
            return self._wrap(self._call('fullmatch', string, pos, endpos))
        subject, pos = self._subject(string, pos, endpos)
        return self._match_at(string, subject, pos, True, pos)

    def search(self, string, pos=0, endpos=None):
        string, sym = self._symbolic(string)
        if not sym:
            return self._wrap(self._call('search', string, pos, endpos))
        subject, pos = self._subject(string, pos, endpos)
        self._prepare()
        if not self._ref:
            f = zor([self._exists(subject, i, False) for i in range(pos, subject.n + 1)])
            if not fork(f):
                return None
        for i in range(pos, subject.n + 1):
            m = self._match_at(string, subject, i, False, pos)
            if m is not None:
                return m
        return None

    def _call(self, name, string, pos, endpos):
        pos = conc(pos)
        f = getattr(self._real, name)
        return f(string, pos, conc(endpos)) if endpos is not None else f(string, pos)

    def _wrap(self, m):
        return m

    def finditer(self, string, pos=0, endpos=None):
        string, sym = self._symbolic(string)
        if not sym:
            return self._call('finditer', string, pos, endpos)
        return self._finditer(string, pos, endpos)

    def _finditer(self, string, pos, endpos):
        subject, pos = self._subject(string, pos, endpos)
        i = pos
        last = -1
        while i <= subject.n:
            m = self._match_at(string, subject, i, False, pos)
            if m is None:
                i += 1
                continue
            e = m.end()
            if e == i and i == last:
                # an empty match adjacent to the previous match: look for a non-empty one
                done = subject.run(self._prepare(), 0, i, {},
                    lambda j, g: (j, g) if j > i else None)
                if done is None:
                    i += 1
                    continue
                m = SymMatch(self, string, self._make, subject, i, False, pos)
                m._done = done
                e = m.end()
            yield m
            last = e
            i = e

    def findall(self, string, pos=0, endpos=None):
        string, sym = self._symbolic(string)
        if not sym:
            return self._call('findall', string, pos, endpos)
        out = []
        for m in self._finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._get(1, ''))
            else:
                out.append(m.groups(''))
        return out

    def subn(self, repl, string, count=0):
        string, sym = self._symbolic(string)
        template = not callable(repl) or isinstance(repl, Sym)
        if not sym:
            if template:
                if isinstance(repl, Sym):
                    repl = conc(repl)
                return self._real.subn(repl, string, count)
            # the callback may produce symbolic text
            out, last, n = [], 0, 0
            for m in self._real.finditer(string):
                if count and n >= count:
                    break
                out.extend(self._items(string[last:m.start()]))
                out.extend(self._items(repl(m)))
                last = m.end()
                n += 1
            out.extend(self._items(string[last:]))
            return self._make(out), n
        build = _expand(self, repl) if template else repl
        out, last, n = [], 0, 0
        items = self._items(string)
        for m in self._finditer(string, 0, None):
            if count and n >= count:
                break
            out.extend(items[last:m.start()])
            out.extend(self._items(build(m)))
            last = m.end()
            n += 1
        out.extend(items[last:])
        return self._make(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        string, sym = self._symbolic(string)
        if not sym:
            return self._real.split(string, maxsplit)
        items = self._items(string)
        out, last, n = [], 0, 0
        for m in self._finditer(string, 0, None):
            if maxsplit and n >= maxsplit:
                break
            out.append(self._make(items[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(self._make(items[last:]))
        return out

    def scanner(self, *a):
        raise NotImplementedError


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        real = pattern
    else:
        real = _re.compile(conc(pattern), conc(flags))
    p = Pattern._cache.get(real)
    if p is None:
        p = Pattern._cache[real] = Pattern(real)
    return p


def make_module():
    """The 're' module seen by instrumented code."""
    import types
    mod = types.ModuleType('re')
    for name in _re.__all__:
        setattr(mod, name, getattr(_re, name))
    mod.compile = compile
    mod.Pattern = Pattern
    mod._pattern_type = Pattern

    def delegate(name):
        def f(pattern, *a, **k):
            flags = k.pop('flags', 0)
            p = compile(pattern, flags)
            return getattr(p, name)(*a, **k)
        f.__name__ = name
        return f
    for name in ('match', 'fullmatch', 'search', 'sub', 'subn', 'split', 'findall', 'finditer'):
        setattr(mod, name, delegate(name))

    def escape(s):
        if isinstance(s, Sym):
            s = conc(s)
        return _re.escape(s)
    mod.escape = escape
    mod.compile.__globals__  # keep a reference alive
    return mod
