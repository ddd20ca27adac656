"""Path-exhaustive symbolic execution of the real code by re-execution, with an SMT solver at every branch.

A harness is an ordinary function harness(ctx). Under the symbolic context every ctx.int/bool/str is a solver
variable; the code under test runs on proxies (values.py) and each branch on a proxy asks the solver which sides the
path condition allows. All feasible paths are explored; ctx.check(c) asks the solver for an input of the *path* (all
values at once) that makes c false. Under the concrete context (replay) the same harness runs on plain Python values
taken from a solver model, on the unmodified, uninstrumented modules.
"""
import time
import traceback
from . import smt

_now = time.perf_counter

ACTIVE = None       # the symbolic engine of this process, or None in a replay


class PathAbort(BaseException):
    """Ends the current path (not an Exception: the code under test must not swallow it)."""


class Infeasible(PathAbort):
    pass


class Pruned(PathAbort):
    pass


class PathDone(PathAbort):
    pass


class KnownFinding(PathAbort):
    """The path ended in a finding listed in the known-findings file."""


class ViolationFound(PathAbort):
    def __init__(self, label, detail='', known=None):
        self.label, self.detail, self.known = label, detail, known


class EngineError(BaseException):
    pass


class Decision(object):
    __slots__ = ('term', 'val', 'alt')

    def __init__(self, term, val, alt):
        self.term, self.val, self.alt = term, val, alt


class Engine(object):
    """State of one exploration."""
    symbolic = True

    def __init__(self, harness, params, solver=None, deadline=None, max_paths=None, stop_at_first=True):
        self.harness = harness
        self.params = params
        self.solver = solver or smt.Solver()
        self.deadline = deadline
        self.max_paths = max_paths
        self.decisions = []
        self.alt_model = {}
        self.stats = dict(paths=0, infeasible=0, pruned=0, forks=0, forced=0, checks=0, discharged=0, concretised=0,
                          known=0)
        self.covers = {}
        self.labels = {}
        self.violations = []
        self.witnesses = []
        self.complete = False
        self.concretise_sites = {}
        self.stop_at_first = stop_at_first
        self.max_depth = 0
        self.forced_sizes = {}      # position among the forced choices -> how many alternatives it had
        self.max_violations = 1
        self.path_t0 = None
        self.known_ids = set()
        self.known_found = {}

    # --- one path -------------------------------------------------------------------------------------------

    def _reset(self):
        self.k = 0
        self.prefix = len(self.decisions)
        self.pos = 0
        self.model = self.alt_model
        self.known = {}
        self.names = {}
        self.inputs = {}
        self.log = []
        self.aborting = False
        self.path_terms = []

    def _assert(self, t):
        self.solver.push_at(self.pos, t)
        self.pos += 1

    def branch(self, t):
        if smt.is_const(t):
            return smt.val(t)
        if self.aborting:
            return False
        neg = False
        while t.op == 'not':
            t, neg = t.args[0], not neg
        v = self.known.get(t)
        if v is not None:
            return v != neg
        if self.k < len(self.decisions):
            d = self.decisions[self.k]
            if d.term is not t:
                self.aborting = True
                raise EngineError('non-deterministic re-execution: expected %r, got %r' % (d.term, t))
            self.k += 1
            v = d.val
            self._assert(t if v else smt.lnot(t))
        else:
            if self.deadline is not None and _now() > self.deadline:
                self.aborting = True
                raise EngineError('time limit reached')
            v = bool(smt.ev(t, self.model))
            alt = self.solver.check(self.pos, smt.lnot(t) if v else t)
            if alt is None:
                self.stats['forced'] += 1
            else:
                self.stats['forks'] += 1
            self.decisions.append(Decision(t, v, alt))
            self.k += 1
            self._assert(t if v else smt.lnot(t))
        self.known[t] = v
        return v != neg

    def assume(self, t):
        if smt.is_const(t):
            if not smt.val(t):
                self.aborting = True
                raise Infeasible()
            return
        if self.aborting:
            return
        if not smt.ev(t, self.model):
            if self.k < self.prefix:
                # the model that brought us to the end of the prefix satisfies every assumption inside it
                raise EngineError('assumption inside the prefix not satisfied: %r' % t)
            m = self.solver.check(self.pos, t)
            if m is None:
                self.aborting = True
                raise Infeasible()
            self.model = m
        self._assert(t)

    def feasible(self, t):
        """Does the path condition allow t? (no commitment)"""
        if smt.is_const(t):
            return smt.val(t)
        if smt.ev(t, self.model):
            return True
        return self.solver.check(self.pos, t) is not None

    def check(self, t, label, detail=None, known=None):
        if self.aborting:
            return
        if known is not None:
            return self._check_known(t, label, detail, known)
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.k < self.prefix:
            # the same query, under the same path condition, was discharged on an earlier path
            if not smt.is_const(t):
                self._assert(t)
            return
        self.stats['checks'] += 1
        if smt.is_const(t):
            bad = None if smt.val(t) else self.model
        elif not smt.ev(t, self.model):
            bad = self.model
        else:
            bad = self.solver.check(self.pos, smt.lnot(t))
        if bad is None:
            self.stats['discharged'] += 1
            if not smt.is_const(t):
                self._assert(t)
            return
        self.model = bad
        self.aborting = True
        raise ViolationFound(label, detail() if callable(detail) else (detail or ''))

    def _check_known(self, t, label, detail, known):
        """An assertion on a path with the signature of a listed finding: reported once, assumed afterwards."""
        if known not in self.known_ids:
            return self.check(t, label, detail)
        self.stats['checks'] += 1
        bad = None
        if smt.is_const(t):
            bad = None if smt.val(t) else self.model
        elif not smt.ev(t, self.model):
            bad = self.model
        else:
            bad = self.solver.check(self.pos, smt.lnot(t))
        if bad is None:
            self.stats['discharged'] += 1
        else:
            if known not in self.known_found:
                old, self.model = self.model, bad
                self.known_found[known] = dict(label=label, detail=str(detail() if callable(detail) else detail),
                                               model=self._model_of_inputs())
                self.model = old
            if smt.is_const(t):
                self.aborting = True
                raise KnownFinding()
        self.assume(t)

    def concretise(self, t, what):
        """Fallback: pin a term to one value of the path (recorded: the run is then not exhaustive)."""
        if smt.is_const(t):
            return smt.val(t)
        v = smt.ev(t, self.model)
        self.stats['concretised'] += 1
        site = what + ' @ ' + _site()
        self.concretise_sites[site] = self.concretise_sites.get(site, 0) + 1
        self.assume(smt.eq(t, smt.const(v) if t.sort == 'Int' else smt.bconst(v)))
        return v

    # --- named inputs ---------------------------------------------------------------------------------------

    def fresh(self, name, sort='Int'):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        full = '%s#%d' % (name, n)
        t = smt.var(full, sort)
        self.inputs[full] = t
        return t

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    # --- exploration ----------------------------------------------------------------------------------------

    def run(self, make_ctx):
        global ACTIVE
        ACTIVE = self
        try:
            while True:
                self._reset()
                ctx = make_ctx(self)
                self.path_t0 = _now()
                outcome = self._one(ctx)
                self.path_t0 = None
                self.max_depth = max(self.max_depth, len(self.decisions))
                if outcome == 'violation' and (self.stop_at_first or len(self.violations) >= self.max_violations):
                    return
                while self.decisions and self.decisions[-1].alt is None:
                    self.decisions.pop()
                if not self.decisions:
                    self.complete = True
                    return
                d = self.decisions[-1]
                d.val, self.alt_model, d.alt = (not d.val), d.alt, None
                if self.max_paths and self.stats['paths'] >= self.max_paths:
                    return
                if self.deadline is not None and _now() > self.deadline:
                    raise EngineError('time limit reached')
        finally:
            ACTIVE = None

    def _one(self, ctx):
        try:
            try:
                self.harness(ctx)
            finally:
                ctx.teardown()
            if self.aborting:
                # an abort was swallowed by a bare except in the code under test
                raise EngineError('path abort was swallowed')
        except Infeasible:
            self.stats['infeasible'] += 1
            return 'infeasible'
        except Pruned:
            self.stats['pruned'] += 1
            return 'pruned'
        except KnownFinding:
            self.stats['known'] += 1
            return 'known'
        except PathDone:
            pass
        except ViolationFound as e:
            self._violation(e.label, e.detail)
            return 'violation'
        except EngineError:
            raise
        except Exception as e:
            self._violation('no unexpected exception', '%s: %s\n%s' % (
                type(e).__name__, _safe(e), traceback.format_exc(limit=-6)))
            return 'violation'
        self.stats['paths'] += 1
        self._witness()
        return 'ok'

    def _model_of_inputs(self):
        return {n: smt.ev(t, self.model) for n, t in self.inputs.items()}

    def _violation(self, label, detail):
        self.violations.append(dict(label=label, detail=str(detail), model=self._model_of_inputs()))

    def _witness(self):
        n = self.stats['paths']
        # keep a spread of path witnesses for trace validation: dense at first, then thinning out
        if n <= 20 or (n & (n - 1)) == 0 or n % 97 == 0 and len(self.witnesses) < 160:
            self.witnesses.append(dict(
                model=self._model_of_inputs(),
                log=[[l, render(v, self.model)] for l, v in self.log]))


def _safe(e):
    try:
        return str(e)
    except Exception:
        return '<unprintable>'


def _site():
    for f in reversed(traceback.extract_stack()):
        if '/sx/' not in f.filename:
            return '%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno)
    return '?'


def _num(v):
    return int(v) if v == int(v) else v


def render(v, model):
    """A JSON-able picture of an observed value under a model (plain Python values render to the same picture)."""
    from . import values
    if isinstance(v, values.SymInt):
        return smt.ev(v.t, model)
    if isinstance(v, values.SymFix):
        return _num(smt.ev(v.t, model) / float(values.SCALE))
    if isinstance(v, values.SymBool):
        return bool(smt.ev(v.t, model))
    if isinstance(v, values.SymStr):
        return v.render(model)
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return _num(v)
    if isinstance(v, dict):
        return ['dict'] + sorted(([render(k, model), render(x, model)] for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return ['set'] + sorted((render(x, model) for x in v), key=repr)
    if isinstance(v, (list, tuple)):
        return [render(x, model) for x in v]
    return '<%s>' % type(v).__name__
