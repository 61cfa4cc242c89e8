"""Path explorer: depth-first symbolic execution by re-execution.

The program under analysis runs natively; whenever its control flow depends on a symbolic value the
proxy calls fork(), which asks the solver which outcomes are feasible, follows one and queues the
other.  Every path is a conjunction of z3 constraints; constraints stay on the incremental solver
between paths that share a prefix.
"""
import time as _time
import z3

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class EngineSignal(BaseException):
    """Never to be caught by the code under analysis."""


class PathAbort(EngineSignal):
    def __init__(self, reason):
        BaseException.__init__(self, reason)
        self.reason = reason


class EngineError(EngineSignal):
    """An internal error of the engine (nondeterminism, ...)."""


class Decision(object):
    __slots__ = ('kind', 'key', 'value', 'alt', 'depth', 'model', 'alt_model', 'forced')

    def __init__(self, kind, key, value, alt, depth, model, alt_model=None, forced=False):
        self.kind = kind            # 'fork' | 'choose' | 'assume'
        self.key = key              # guard against nondeterminism
        self.value = value
        self.alt = alt              # a further alternative remains to be explored
        self.depth = depth          # number of solver scopes before this decision
        self.model = model          # a model of the prefix including this decision, or None
        self.alt_model = alt_model  # a model of the prefix with this fork flipped
        self.forced = forced


class Stats(object):
    FIELDS = ('queries', 'solver_time', 'unknown', 'forks', 'forced', 'choices', 'paths',
        'aborted', 'infeasible', 'concretized', 'checks')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def asdict(self):
        return dict((f, getattr(self, f)) for f in self.FIELDS)


class Explorer(object):
    current = None

    def __init__(self, max_paths=20000, deadline=None, timeout_ms=10000, conc_limit=6,
            max_decisions=8000):
        self.max_paths = max_paths
        self.deadline = deadline
        self.conc_limit = conc_limit
        self.max_decisions = max_decisions
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.decisions = []
        self.pending = None
        self.root_model = None
        self.notes = {}

    def _begin(self):
        self.pos = 0
        self.known = {}
        self.counter = 0
        self.model = None
        self.inputs = {}      # name -> input descriptor, filled by the source object
        self.choices = {}
        self.incomplete = []  # reasons why this path does not cover everything it stands for
        self.checks = []
        self.obs = []
        self.cover = set()
        self.user = {}

    def fresh(self, prefix='k'):
        self.counter += 1
        return '%s!%d' % (prefix, self.counter)

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    # -- solver ---------------------------------------------------------------------------------

    def check(self, *extra):
        """(sat?, model): sat? is None when the solver gives up."""
        self.stats.queries += 1
        t = _time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_time += _time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            self.note('solver gave up: %s' % self.solver.reason_unknown())
            return None, None
        return r == z3.sat, m

    def need_model(self):
        if self.model is None and self.pos == 0 and self.root_model is not None:
            self.model = self.root_model
        if self.model is None:
            if self.pos < len(self.decisions):
                raise EngineError('model requested in the middle of a replayed prefix')
            r, m = self.check()
            if r is None:
                raise PathAbort('solver-unknown')
            if not r:
                raise PathAbort('infeasible')
            self.model = m
            if self.decisions:
                self.decisions[-1].model = m
            else:
                self.root_model = m
        return self.model

    def eval_bool(self, cond):
        v = self.need_model().eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # -- decisions ------------------------------------------------------------------------------

    def _replay(self, kind, key):
        d = self.decisions[self.pos]
        if d.kind != kind or d.key != key:
            raise EngineError('nondeterministic re-execution at decision %d: %s %s, then %s %s' % (
                self.pos, d.kind, d.key, kind, key))
        self.pos += 1
        self.model = d.model
        return d

    def _record(self, d):
        if len(self.decisions) >= self.max_decisions:
            raise PathAbort('decision-limit')
        if self.deadline is not None and _time.time() > self.deadline:
            raise PathAbort('deadline')
        self.decisions.append(d)
        self.pos += 1
        self.model = d.model
        return d

    def _assert(self, cond):
        self.solver.push()
        self.solver.add(cond)

    def fork(self, cond):
        if cond is True or cond is False:
            return cond
        negated = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            negated = not negated
        if z3.is_true(cond):
            return not negated
        if z3.is_false(cond):
            return negated
        cid = cond.get_id()
        known = self.known.get(cid)
        if known is not None:
            return known[0] != negated
        # (not the hash: z3 orders arguments by identifiers, which differ between re-executions)
        key = (cond.decl().kind(), cond.num_args())
        if self.pos < len(self.decisions):
            d = self._replay('fork', key)
            if d is self.pending:
                self.pending = None
                self._assert(cond if d.value else z3.Not(cond))
            self.known[cid] = (d.value, cond)
            return d.value != negated
        side = self.eval_bool(cond)
        model = self.model
        if side is None:
            r, m = self.check(cond)
            side = r is not False
            if side:
                model = m
        r, alt_model = self.check(z3.Not(cond) if side else cond)
        depth = self.solver.num_scopes()
        if r is None:
            self.incomplete.append('solver-unknown')
            d = Decision('fork', key, side, False, depth, model)
        elif r:
            self.stats.forks += 1
            d = Decision('fork', key, side, True, depth, model, alt_model)
        else:
            self.stats.forced += 1
            d = Decision('fork', key, side, False, depth, model, None, True)
        self._record(d)
        if not d.forced:
            self._assert(cond if side else z3.Not(cond))
        self.known[cid] = (side, cond)
        return side != negated

    def choose(self, name, n):
        """A selector in [0, n); each value gets its own paths."""
        if n <= 1:
            self.choices[name] = 0
            return 0
        key = (name, n)
        if self.pos < len(self.decisions):
            d = self._replay('choose', key)
            if d is self.pending:
                self.pending = None
        else:
            self.stats.choices += 1
            d = self._record(Decision('choose', key, 0, True, self.solver.num_scopes(),
                self.model))
        self.choices[name] = d.value
        return d.value

    def assume(self, cond, definition=False):
        """Constrain the path.  ``definition``: introduces fresh symbols, satisfiable by
        construction."""
        if cond is True or z3.is_true(cond):
            return
        if cond is False or z3.is_false(cond):
            raise PathAbort('infeasible')
        # (not the hash: z3 orders arguments by identifiers, which differ between re-executions)
        key = (cond.decl().kind(), cond.num_args())
        if self.pos < len(self.decisions):
            self._replay('assume', key)
            self.known[cond.get_id()] = (True, cond)
            return
        keep = None
        if self.model is not None:
            if z3.is_true(self.model.eval(cond, model_completion=True)):
                keep = self.model
        self._record(Decision('assume', key, True, False, self.solver.num_scopes(), keep))
        self._assert(cond)
        self.known[cond.get_id()] = (True, cond)
        if keep is None and not definition:
            self.need_model()

    def possible_values(self, expr, limit):
        """Every value an integer expression can have on this path; None when there are more than
        ``limit`` (or the solver gives up)."""
        key = ('values', limit)
        if self.pos < len(self.decisions):
            return self._replay('values', key).value
        found = set()
        model = self.need_model()
        out = frozenset()
        self.solver.push()
        try:
            m = model
            while True:
                v = m.eval(expr, model_completion=True).as_long()
                found.add(v)
                if len(found) > limit:
                    out = None
                    break
                self.solver.add(expr != v)
                r, m = self.check()
                if r is None:
                    out = None
                    break
                if not r:
                    out = frozenset(found)
                    break
        finally:
            self.solver.pop()
        self._record(Decision('values', key, out, False, self.solver.num_scopes(), model))
        return out

    def backtrack(self):
        """Move to the next unexplored alternative; False when none is left."""
        while self.decisions:
            d = self.decisions[-1]
            if d.alt:
                while self.solver.num_scopes() > d.depth:
                    self.solver.pop()
                if d.kind == 'fork':
                    d.value = not d.value
                    d.alt = False
                    d.model = d.alt_model
                    d.alt_model = None
                else:
                    d.value += 1
                    d.alt = d.value + 1 < d.key[1]
                self.pending = d
                return True
            self.decisions.pop()
        while self.solver.num_scopes():
            self.solver.pop()
        return False

    def run(self, fn, on_path):
        """Explore ``fn()``; ``on_path(explorer, outcome)`` after each path, with outcome =
        ('ok', result) | ('raised', exception) | ('abort', reason).  True when exhausted."""
        previous = Explorer.current
        Explorer.current = self
        try:
            while True:
                self._begin()
                try:
                    outcome = ('ok', fn())
                except PathAbort as e:
                    outcome = ('abort', e.reason)
                except EngineSignal:
                    raise
                except Exception as e:
                    outcome = ('raised', e)
                if outcome[0] == 'abort':
                    if outcome[1] == 'infeasible':
                        self.stats.infeasible += 1
                    else:
                        self.stats.aborted += 1
                        self.note('path abandoned: %s' % outcome[1])
                else:
                    self.stats.paths += 1
                if on_path(self, outcome) or outcome == ('abort', 'deadline'):
                    return False
                while len(self.decisions) > self.pos:
                    raise EngineError('re-execution ended early')
                if not self.backtrack():
                    return True
                if self.stats.paths >= self.max_paths or (
                        self.deadline is not None and _time.time() > self.deadline):
                    self.note('exploration budget exhausted')
                    return False
        finally:
            Explorer.current = previous


def cur():
    return Explorer.current


def fork(cond):
    if cond is True or cond is False:
        return cond
    return Explorer.current.fork(cond)
