"""Hash-consed terms over Int and Bool, an evaluator, and one live z3 process (SMT-LIB 2 over a pipe).

Every term the engine builds is linear integer arithmetic with booleans, so the solver is complete here:
an answer other than sat/unsat is reported as an engine error, never as a pass.
"""
import subprocess
import time

_now = time.perf_counter

_table = {}


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'smt', 'uid')
    _n = 0

    def __repr__(self):
        return self.smt


def _mk(op, args, sort, smt):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.smt = op, args, sort, smt
        Term._n += 1
        t.uid = Term._n
        _table[key] = t
    return t


def var(name, sort='Int'):
    return _mk('var', (name, sort), sort, '|%s|' % name)


def const(n):
    return _mk('const', (int(n), 'Int'), 'Int', str(n) if n >= 0 else '(- %d)' % -n)


TRUE = _mk('const', (True, 'Bool'), 'Bool', 'true')
FALSE = _mk('const', (False, 'Bool'), 'Bool', 'false')


def bconst(b):
    return TRUE if b else FALSE


def is_const(t):
    return t.op == 'const'


def val(t):
    return t.args[0]


def _app(op, sort, *args):
    return _mk(op, args, sort, '(%s %s)' % (op, ' '.join(a.smt for a in args)))


def add(a, b):
    if is_const(a) and is_const(b):
        return const(val(a) + val(b))
    if is_const(a) and val(a) == 0:
        return b
    if is_const(b) and val(b) == 0:
        return a
    return _app('+', 'Int', a, b)


def sub(a, b):
    if is_const(a) and is_const(b):
        return const(val(a) - val(b))
    if a is b:
        return const(0)
    if is_const(b) and val(b) == 0:
        return a
    return _app('-', 'Int', a, b)


def mul(a, b):
    if is_const(a) and is_const(b):
        return const(val(a) * val(b))
    for x, y in ((a, b), (b, a)):
        if is_const(x):
            if val(x) == 0:
                return const(0)
            if val(x) == 1:
                return y
    return _app('*', 'Int', a, b)


def floordiv(a, n):
    """Python's floor division by a positive constant (SMT-LIB div agrees for n > 0)."""
    if is_const(a):
        return const(val(a) // n)
    return _app('div', 'Int', a, const(n))


def mod(a, n):
    if is_const(a):
        return const(val(a) % n)
    return _app('mod', 'Int', a, const(n))


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return bconst(val(a) == val(b))
    if a.sort == 'Bool':
        if is_const(a):
            return b if val(a) else lnot(b)
        if is_const(b):
            return a if val(b) else lnot(a)
    if a.uid > b.uid:
        a, b = b, a
    return _app('=', 'Bool', a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if is_const(a) and is_const(b):
        return bconst(val(a) < val(b))
    return _app('<', 'Bool', a, b)


def le(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return bconst(val(a) <= val(b))
    return _app('<=', 'Bool', a, b)


def lnot(a):
    if is_const(a):
        return bconst(not val(a))
    if a.op == 'not':
        return a.args[0]
    return _app('not', 'Bool', a)


def land(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is not TRUE and x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _app('and', 'Bool', *out)


def lor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is not FALSE and x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _app('or', 'Bool', *out)


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if is_const(c):
        return a if val(c) else b
    if a is b:
        return a
    return _app('ite', a.sort, c, a, b)


def ev(t, model):
    """The value of a term in a model; variables the model does not mention are 0/false."""
    op = t.op
    if op == 'const':
        return t.args[0]
    if op == 'var':
        return model.get(t.args[0], 0 if t.sort == 'Int' else False)
    a = t.args
    if op == 'not':
        return not ev(a[0], model)
    if op == 'and':
        return all(ev(x, model) for x in a)
    if op == 'or':
        return any(ev(x, model) for x in a)
    if op == 'ite':
        return ev(a[1], model) if ev(a[0], model) else ev(a[2], model)
    x, y = ev(a[0], model), ev(a[1], model)
    if op == '=':
        return x == y
    if op == '<':
        return x < y
    if op == '<=':
        return x <= y
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if op == 'div':
        return x // y
    if op == 'mod':
        return x % y
    raise AssertionError(op)


def free_vars(t, acc):
    if t.op == 'var':
        acc[t.args[0]] = t
    elif t.op != 'const':
        for a in t.args:
            free_vars(a, acc)
    return acc


class SolverError(BaseException):
    pass


class Solver(object):
    """Keeps an assertion stack that follows the path being executed; only the differing suffix is re-sent."""

    def __init__(self, cmd=('z3', '-in'), tee=None):
        self.cmd = cmd
        self.p = subprocess.Popen(list(cmd), stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.buf = []
        self.declared = {}
        self.stack = []
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.time = 0.0
        self.tee = tee
        self._send('(set-option :global-declarations true)')
        self._send('(set-option :produce-models true)')
        if 'cvc5' in cmd[0]:
            self._send('(set-logic ALL)')

    def _send(self, s):
        self.buf.append(s)

    def _flush(self):
        data = ('\n'.join(self.buf) + '\n')
        if self.tee is not None:
            self.tee.write(data)
        data = data.encode()
        self.buf = []
        view = memoryview(data)
        while view:
            n = self.p.stdin.write(view)
            view = view[n:]

    def _line(self):
        l = self.p.stdout.readline()
        if not l:
            raise SolverError('solver died')
        return l.decode().strip()

    def _declare(self, t):
        for name, v in free_vars(t, {}).items():
            if name not in self.declared:
                self.declared[name] = v
                self._send('(declare-const |%s| %s)' % (name, v.sort))

    def truncate(self, n):
        k = len(self.stack) - n
        if k > 0:
            self._send('(pop %d)' % k)
            del self.stack[n:]

    def push_at(self, pos, t):
        """Make `t` the assertion at stack position pos."""
        if pos < len(self.stack):
            if self.stack[pos] is t:
                return
            self.truncate(pos)
        self._declare(t)
        self._send('(push 1)')
        self._send('(assert %s)' % t.smt)
        self.stack.append(t)

    def check(self, pos, t=None, want_model=True):
        """sat(stack[:pos] and t)?  -> model dict or None."""
        t0 = _now()
        self.truncate(pos)
        if t is not None:
            self._declare(t)
            self._send('(push 1)')
            self._send('(assert %s)' % t.smt)
        self._send('(check-sat)')
        self._flush()
        r = self._line()
        self.queries += 1
        model = None
        if r == 'sat':
            self.sat += 1
            model = self._model() if want_model else {}
        elif r == 'unsat':
            self.unsat += 1
        else:
            raise SolverError('solver answered %r' % r)
        if t is not None:
            self._send('(pop 1)')
        self.time += _now() - t0
        return model

    def _model(self):
        names = list(self.declared)
        model = {}
        if not names:
            return model
        self._send('(get-value (%s))' % ' '.join('|%s|' % n for n in names))
        self._flush()
        depth, text = 0, []
        while True:
            l = self._line()
            if l.startswith('(error'):
                raise SolverError(l)
            text.append(l)
            inbar = False
            for ch in l:
                if ch == '|':
                    inbar = not inbar
                elif not inbar:
                    if ch == '(':
                        depth += 1
                    elif ch == ')':
                        depth -= 1
            if depth == 0:
                break
        return _parse_values(' '.join(text))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()


def _parse_values(s):
    toks, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif c in '()':
            toks.append(c)
            i += 1
        elif c == '|':
            j = s.index('|', i + 1)
            toks.append(('sym', s[i + 1:j]))
            i = j + 1
        else:
            j = i
            while j < n and not s[j].isspace() and s[j] not in '()':
                j += 1
            toks.append(s[i:j])
            i = j
    pos = [0]

    def expr():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            out = []
            while toks[pos[0]] != ')':
                out.append(expr())
            pos[0] += 1
            return out
        return t

    def value(e):
        if isinstance(e, list):
            assert e[0] == '-'
            return -value(e[1])
        if e == 'true':
            return True
        if e == 'false':
            return False
        return int(e)

    return {(p[0][1] if isinstance(p[0], tuple) else p[0]): value(p[1]) for p in expr()}
