"""symx: a small symbolic executor for Python code that runs the REAL functions of /repo under CPython.

Inputs are proxy numbers (`SymNum`) wrapping z3 terms.  Arithmetic on them builds terms; a comparison gives a `SymBool`
whose truth value, when the interpreter asks for it, is decided by the solver: if the path condition implies it, that
value is used, otherwise the path forks.  All feasible paths are visited depth first, each one by re-running the code
from its start with the recorded decisions (nothing of the code under test is copied, translated or cached: what runs is
what /repo contains now).  At the end of a path, the harness' requirements are formulas over the same terms and the
solver decides whether some input on that path falsifies one.

The same harness also runs with plain Python numbers (`ConcreteEnv`); that is how counterexamples are replayed and how
sampled paths are checked against ordinary execution.
"""
import builtins
import os
import sys
import time as _time
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

INF = float('inf')


class PathAbort(BaseException):
    """The path is infeasible or was cut; BaseException so that the code under test cannot swallow it."""


class Falsified(BaseException):
    """A requirement is false on the current path, whatever the remaining inputs."""


class EngineError(BaseException):
    pass


# --------------------------------------------------------------------------------------------------------------------
# exploration engine

class _Entry(object):
    __slots__ = ('val', 'open', 'pushed', 'key', 'lit', 'altmodel', 'kind', 'n', 'alt')

    def __init__(self, kind, val, open_, pushed, key=None, lit=None, altmodel=None, n=0, alt=None):
        self.kind, self.val, self.open, self.pushed = kind, val, open_, pushed
        self.key, self.lit, self.altmodel, self.n, self.alt = key, lit, altmodel, n, alt


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.forks = 0
        self.requirements = 0
        self.concretised = 0
        self.unknown = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine(object):
    current = None

    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.trail = []
        self.pos = 0
        self.model = None
        self.stats = Stats()
        self.vars = {}
        self.intern = {}
        self.tokens = {}
        self.complete = True
        self._reset_path()

    # -- path-local state
    def _reset_path(self):
        self.pos = 0
        self.rel = {}          # (id, id) -> 0: a <= b, 1: a < b   (transitively closed)
        self.diseq = set()
        self.up = {}
        self.down = {}
        self.known = {}        # formula id -> bool
        self.inputs = {}       # name -> SymNum or chosen value
        self.requirements = []
        self.observations = []
        self.covered = set()
        self.path_concretised = False
        self.tokens = {}

    # -- terms
    def var(self, name, sort):
        v = self.vars.get(name)
        if v is None:
            v = z3.Int(name) if sort == 'int' else z3.Real(name)
            self.vars[name] = v
        return v

    def keep(self, t):
        i = t.get_id()
        self.intern[i] = t
        return i

    # -- order closure: a sound cache of consequences of decisions already made (saves solver calls, decides nothing new)
    def _order_add(self, a, b, strict):
        rel = self.rel
        cur = rel.get((a, b))
        if cur is not None and cur >= strict:
            return
        ups = [(b, 0)] + [(y, s) for y, s in self.up.get(b, {}).items()]
        downs = [(a, 0)] + [(x, s) for x, s in self.down.get(a, {}).items()]
        for x, sx in downs:
            for y, sy in ups:
                if x == y:
                    continue
                s = 1 if (strict or sx or sy) else 0
                c = rel.get((x, y))
                if c is None or c < s:
                    rel[(x, y)] = s
                    self.up.setdefault(x, {})[y] = s
                    self.down.setdefault(y, {})[x] = s

    def _learn(self, key, val):
        op = key[0]
        if op == 'f':
            self.known[key[1]] = val
            return
        a, b = key[1], key[2]
        if op == 'lt':
            if val:
                self._order_add(a, b, 1)
            else:
                self._order_add(b, a, 0)
                if (a, b) in self.diseq:
                    self._order_add(b, a, 1)
        else:
            if val:
                self._order_add(a, b, 0)
                self._order_add(b, a, 0)
            else:
                self.diseq.add((a, b))
                self.diseq.add((b, a))
                if (a, b) in self.rel:
                    self._order_add(a, b, 1)
                if (b, a) in self.rel:
                    self._order_add(b, a, 1)

    def _lookup(self, key):
        op = key[0]
        if op == 'f':
            return self.known.get(key[1])
        a, b = key[1], key[2]
        if a == b:
            return op == 'eq'
        rab = self.rel.get((a, b))
        rba = self.rel.get((b, a))
        if op == 'lt':
            if rab == 1:
                return True
            if rba is not None:
                return False
            return None
        if rab == 1 or rba == 1 or (a, b) in self.diseq:
            return False
        if rab == 0 and rba == 0:
            return True
        return None

    # -- solver
    def check(self):
        t0 = _time.perf_counter()
        r = self.solver.check()
        self.stats.solver_s += _time.perf_counter() - t0
        self.stats.queries += 1
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unknown:
                self.stats.unknown += 1
                self.complete = False
                raise PathAbort('unknown')
            if r == z3.unsat:
                raise PathAbort('infeasible')
            self.model = self.solver.model()

    def branch(self, key, term_fn):
        """Decide a formula on this path; key identifies it, term_fn builds the z3 term when needed."""
        k = self._lookup(key)
        if k is not None:
            return k
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'b' or e.key != key:
                raise EngineError('replay diverged: non-deterministic code or harness (%s vs %s)' % (e.key, key))
            self.pos += 1
            self._learn(key, e.val)
            return e.val
        self.stats.decisions += 1
        term = term_fn()
        self._ensure_model()
        val = z3.is_true(self.model.eval(term, model_completion=True))
        lit = term if val else z3.Not(term)
        alt = z3.Not(term) if val else term
        self.solver.push()
        self.solver.add(alt)
        r = self.check()
        if r == z3.sat:
            altmodel = self.solver.model()
            self.solver.pop()
            self.solver.push()
            self.solver.add(lit)
            self.stats.forks += 1
            e = _Entry('b', val, True, True, key, lit, altmodel, alt=alt)
        else:
            self.solver.pop()
            if r == z3.unknown:
                self.stats.unknown += 1
                self.complete = False
            e = _Entry('b', val, False, False, key)
        self.trail.append(e)
        self.pos += 1
        self._learn(key, val)
        return val

    def peek(self, key):
        return self._lookup(key)

    def choose(self, n):
        """An arbitrary choice among n alternatives (a bounded, explicitly enumerated input)."""
        if n <= 1:
            return 0
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'c' or e.n != n:
                raise EngineError('replay diverged at a choice')
            self.pos += 1
            return e.val
        e = _Entry('c', 0, True, False, n=n)
        self.trail.append(e)
        self.pos += 1
        return 0

    def assume(self, term):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'a':
                raise EngineError('replay diverged at an assumption')
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(term)
        ok = self.model is not None and z3.is_true(self.model.eval(term, model_completion=True))
        self.trail.append(_Entry('a', True, False, True))
        self.pos += 1
        if not ok:
            self.model = None
            self._ensure_model()

    def backtrack(self):
        """Move to the next unexplored path; False when there is none."""
        while self.trail:
            e = self.trail[-1]
            if e.kind == 'c':
                if e.val + 1 < e.n:
                    e.val += 1
                    self.model = None
                    return True
            elif e.kind == 'b' and e.open:
                self.solver.pop()
                self.solver.push()
                self.solver.add(e.alt)
                self.model = e.altmodel
                e.val = not e.val
                e.open = False
                e.altmodel = None
                return True
            if e.pushed:
                self.solver.pop()
            self.trail.pop()
        return False

    # -- requirements
    def path_violation(self):
        """Solver verdict on PC and not(all requirements): None if unsat, else (model, labels of the false ones)."""
        terms = [(t, l) for t, l in self.requirements if t is not True]
        if not terms:
            return None
        self.solver.push()
        self.solver.add(z3.Not(z3.And([t for t, _ in terms])) if len(terms) > 1 else z3.Not(terms[0][0]))
        r = self.check()
        out = None
        if r == z3.sat:
            m = self.nice_model()
            out = (m, [l for t, l in terms if not z3.is_true(m.eval(t, model_completion=True))])
        elif r == z3.unknown:
            self.stats.unknown += 1
            self.complete = False
        self.solver.pop()
        return out

    def nice_model(self):
        """Prefer small integral values, for a readable counterexample; the current assertions are satisfiable."""
        m = self.solver.model()
        vs = [v.t for v in self.inputs.values() if type(v) in (SymNum, SymNode)]
        for bound in (4, 12, 60, 400, 5000):
            self.solver.push()
            for t in vs:
                self.solver.add(t >= -bound, t <= bound)
                if z3.is_real(t):
                    self.solver.add(z3.IsInt(t * 4))
            r = self.check()
            if r == z3.sat:
                m = self.solver.model()
                self.solver.pop()
                return m
            self.solver.pop()
        return m

    def inputs_under(self, m):
        out = {}
        for name, v in self.inputs.items():
            if type(v) in (SymNum, SymNode):
                out[name] = {'v': value_of(m, v.t)}
                if not is_exact(m, v.t):
                    out[name]['exact'] = False
            else:
                out[name] = {'c': v}
        return out


def value_of(m, t):
    r = m.eval(t, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_algebraic_value(r):
        r = r.approx(20)
    f = Fraction(r.numerator_as_long(), r.denominator_as_long())
    return float(f)


def is_exact(m, t):
    r = m.eval(t, model_completion=True)
    if z3.is_int_value(r):
        return True
    if not z3.is_rational_value(r):
        return False
    f = Fraction(r.numerator_as_long(), r.denominator_as_long())
    return Fraction(float(f)) == f


# --------------------------------------------------------------------------------------------------------------------
# proxies

def _eng():
    return Engine.current


def _lift(x):
    """z3 term for a plain number, or None if x is not a finite plain number."""
    if isinstance(x, SymNum):
        return x.t
    tx = type(x)
    if tx is bool or tx is int:
        return z3.IntVal(int(x))
    if tx is SymBool:
        return z3.If(x.term(), z3.IntVal(1), z3.IntVal(0))
    if tx is float:
        if x != x or x in (INF, -INF):
            return None
        return z3.IntVal(int(x)) if x == int(x) else z3.RealVal(str(Fraction(x)))
    if tx is Fraction:
        return z3.RealVal(str(x))
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return z3.IntVal(int(x))
        if isinstance(x, np.floating):
            return _lift(float(x))
    except ImportError:
        pass
    return None


def _pair(a, b):
    if a.is_int() and b.is_real():
        return z3.ToReal(a), b
    if a.is_real() and b.is_int():
        return a, z3.ToReal(b)
    return a, b


class SymBool(object):
    __slots__ = ('key', 'fn', 'neg', '_t')

    def __init__(self, key, fn, neg=False):
        self.key, self.fn, self.neg, self._t = key, fn, neg, None

    def term(self):
        if self._t is None:
            t = self.fn()
            self._t = z3.Not(t) if self.neg else t
        return self._t

    def __bool__(self):
        v = _eng().branch(self.key, self.fn)
        return (not v) if self.neg else v

    @property
    def __class__(self):
        return bool

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __and__(self, o):
        return AND(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return OR(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)
    __rxor__ = __xor__

    def _num(self):
        return SymNum(z3.If(self.term(), z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return bool(self) < o

    def __gt__(self, o):
        return bool(self) > o

    def __le__(self, o):
        return bool(self) <= o

    def __ge__(self, o):
        return bool(self) >= o

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        return 'SymBool'


def mkbool(term):
    """SymBool for a z3 formula (or the Python bool when it is a constant)."""
    if term is True or term is False:
        return term
    if z3.is_true(term):
        return True
    if z3.is_false(term):
        return False
    i = _eng().keep(term)
    return SymBool(('f', i), lambda: term)


HASH = 0x51AB


class SymNum(object):
    """An arbitrary integer or real number."""
    __slots__ = ('t', 'i', 'real', 'label')

    def __init__(self, t, label=None):
        self.t = t
        self.i = _eng().keep(t)
        self.real = z3.is_real(t)
        self.label = label

    @property
    def __class__(self):
        return float if self.real else int

    # every number (of any value) hashes alike, so containers fall back on equality, which the solver decides
    def __hash__(self):
        return HASH

    def _cmp(self, o, op):
        if isinstance(o, float) and type(o) is float and (o in (INF, -INF) or o != o):
            z = 0.0
            return {'lt': z < o, 'le': z <= o, 'gt': z > o, 'ge': z >= o, 'eq': False, 'ne': True}[op]
        lo = _lift(o)
        if lo is None:
            return NotImplemented
        if z3.is_int_value(self.t) and z3.is_int_value(lo):
            a, b = self.t.as_long(), lo.as_long()
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
        eng = _eng()
        ia = self.i
        ib = o.i if type(o) is SymNum else eng.keep(lo)
        a, b = self.t, lo
        if op in ('eq', 'ne'):
            if ia == ib:
                return op == 'eq'
            if ia > ib:
                ia, ib, a, b = ib, ia, b, a

            def fn(a=a, b=b):
                x, y = _pair(a, b)
                return x == y
            return SymBool(('eq', ia, ib), fn, op == 'ne')
        if ia == ib:
            return op in ('le', 'ge')
        neg = False
        if op == 'gt':
            a, b, ia, ib = b, a, ib, ia
        elif op == 'le':       # a <= b  ==  not (b < a)
            a, b, ia, ib, neg = b, a, ib, ia, True
        elif op == 'ge':
            neg = True

        def fn(a=a, b=b):
            x, y = _pair(a, b)
            return x < y
        return SymBool(('lt', ia, ib), fn, neg)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        if o is self:
            return True
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if o is self:
            return False
        r = self._cmp(o, 'ne')
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self._cmp(0, 'ne'))

    def _arith(self, o, f):
        if type(o) is float and (o in (INF, -INF)):
            return NotImplemented
        lo = _lift(o)
        if lo is None:
            return NotImplemented
        x, y = _pair(self.t, lo)
        return SymNum(z3.simplify(f(x, y)))

    def __add__(self, o):
        if type(o) is float and o in (INF, -INF):
            return o
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        if type(o) is float and o in (INF, -INF):
            return o
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        if type(o) is float and o in (INF, -INF):
            return -o
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if type(o) is float and o in (INF, -INF):
            return o
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: b * a)

    def __neg__(self):
        return SymNum(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.t >= 0, self.t, -self.t))

    @staticmethod
    def _div(a, b):
        bb = SymNum(b)
        if bb == 0:
            raise ZeroDivisionError('division by zero')
        ra = z3.ToReal(a) if a.is_int() else a
        rb = z3.ToReal(b) if b.is_int() else b
        return SymNum(z3.simplify(ra / rb))

    def __truediv__(self, o):
        lo = _lift(o)
        return NotImplemented if lo is None else self._div(self.t, lo)

    def __rtruediv__(self, o):
        lo = _lift(o)
        return NotImplemented if lo is None else self._div(lo, self.t)

    @staticmethod
    def _floordiv(a, b):
        bb = SymNum(b)
        if bb == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if a.is_int() and b.is_int():
            if bool(bb > 0):
                return SymNum(z3.simplify(a / b))          # z3 integer division rounds down for positive divisors
            return SymNum(z3.simplify((-a) / (-b)))
        ra = z3.ToReal(a) if a.is_int() else a
        rb = z3.ToReal(b) if b.is_int() else b
        return SymNum(z3.simplify(z3.ToReal(z3.ToInt(ra / rb))))

    def __floordiv__(self, o):
        lo = _lift(o)
        return NotImplemented if lo is None else self._floordiv(self.t, lo)

    def __rfloordiv__(self, o):
        lo = _lift(o)
        return NotImplemented if lo is None else self._floordiv(lo, self.t)

    def __mod__(self, o):
        lo = _lift(o)
        if lo is None:
            return NotImplemented
        q = self._floordiv(self.t, lo)
        return self - q * o

    def __rmod__(self, o):
        lo = _lift(o)
        if lo is None:
            return NotImplemented
        q = self._floordiv(lo, self.t)
        return SymNum(lo) - q * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = SymNum(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return NotImplemented

    # conversions to machine values: the path is split over the feasible values
    def concretise(self, limit=24):
        eng = _eng()
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return value_of_const(t)
        for _ in range(limit):
            if eng.pos < len(eng.trail):
                e = eng.trail[eng.pos]
                if e.kind != 'v' or e.key != t.get_id():
                    raise EngineError('replay diverged while concretising')
                val = e.val
            else:
                eng._ensure_model()
                val = value_of(eng.model, self.t)
                eng.trail.append(_Entry('v', val, False, False, t.get_id(), lit=t))
            eng.pos += 1
            c = self == val
            if c:
                return val
        eng.complete = False
        eng.stats.concretised += 1
        raise PathAbort('concretisation limit')

    def __index__(self):
        if self.real:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.concretise()

    def __int__(self):
        return int(self.concretise()) if not self.real else int(SymNum(z3.simplify(_trunc(self.t))).concretise())

    def __float__(self):
        return float(self.concretise())

    def __trunc__(self):
        return SymNum(_trunc(self.t)) if self.real else self

    def __floor__(self):
        return SymNum(z3.ToInt(self.t)) if self.real else self

    def __ceil__(self):
        return SymNum(-z3.ToInt(-self.t)) if self.real else self

    def __round__(self, n=None):
        if not self.real:
            return self
        if n is not None:
            raise EngineError('round(x, n) of a symbolic real')
        f = z3.ToInt(self.t)
        d = self.t - z3.ToReal(f)
        half = z3.RealVal('1/2')
        return SymNum(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return mkbool(z3.IsInt(self.t)) if self.real else True

    @property
    def real_part(self):
        return self

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # text: an injective, invertible rendering (see DESIGN.md, text I/O).  The token is itself a numeral, of no special
    # value: sym_int and sym_float turn it back into the number it stands for.
    def token(self):
        tok = '77%07d077%s' % (self.i, '.5' if self.real else '')
        _eng().tokens[tok] = self
        return tok

    def __str__(self):
        return self.token()

    __repr__ = __str__

    def __format__(self, spec):
        return self.token()


def _trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)) if t.is_real() else t


def value_of_const(t):
    return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))


class SymNode(SymNum):
    """A graph node: an arbitrary number, known to differ from the other nodes of its group."""
    __slots__ = ('group', 'idx')

    def __init__(self, t, group, idx):
        SymNum.__init__(self, t)
        self.group, self.idx = group, idx

    def __hash__(self):
        return HASH

    def __eq__(self, o):
        if type(o) is SymNode and o.group == self.group:
            return self.idx == o.idx
        return SymNum.__eq__(self, o)

    def __ne__(self, o):
        if type(o) is SymNode and o.group == self.group:
            return self.idx != o.idx
        return SymNum.__ne__(self, o)


# --------------------------------------------------------------------------------------------------------------------
# formulas: the same functions build z3 formulas from symbolic parts and evaluate plain Python values

def fterm(x):
    if type(x) is SymBool:
        return x.term()
    if type(x) is SymNum or type(x) is SymNode:
        return x.t != 0
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
            for y in _flat(x):
                yield y
        else:
            yield x


def AND(*xs):
    out = []
    for x in _flat(xs):
        if type(x) is SymBool:
            v = _eng().peek(x.key)
            if v is not None:
                x = (not v) if x.neg else v
        if type(x) is SymBool:
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mkbool(z3.And([o.term() for o in out]))


def NOT(x):
    if type(x) is SymBool:
        return SymBool(x.key, x.fn, not x.neg)
    return not x


def OR(*xs):
    return NOT(AND([NOT(x) for x in _flat(xs)]))


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if type(a) is not SymBool:
        return b if a else NOT(b)
    if type(b) is not SymBool:
        return a if b else NOT(a)
    return mkbool(a.term() == b.term())


def EQ(a, b):
    """a == b as a formula, without forking; tuples and lists are compared element by element."""
    if isinstance(a, (tuple, list)) and type(a) not in (SymNum,):
        if not isinstance(b, (tuple, list)) or len(a) != len(b):
            return False
        return AND([EQ(x, y) for x, y in zip(a, b)])
    if isinstance(b, (tuple, list)):
        return False
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        if any(type(k) in (SymNum, SymNode) for k in a) or any(type(k) in (SymNum, SymNode) for k in b):
            return AND([OR([AND(EQ(k, k2), EQ(a[k], b[k2])) for k2 in b]) for k in a])
        if set(a) != set(b):
            return False
        return AND([EQ(a[k], b[k]) for k in a])
    return a == b


def ITE(c, a, b):
    if type(c) is SymBool:
        v = _eng().peek(c.key)
        if v is None:
            x, y = _pair(_lift(a), _lift(b))
            return SymNum(z3.If(c.term(), x, y))
        c = (not v) if c.neg else v
    return a if c else b


def COUNT(bools):
    """How many of the formulas hold."""
    n, syms = 0, []
    for b in bools:
        if type(b) is SymBool:
            syms.append(b)
        elif b:
            n += 1
    if not syms:
        return n
    return SymNum(z3.simplify(z3.Sum([z3.IntVal(n)] + [z3.If(s.term(), 1, 0) for s in syms])))


def issym(x):
    return type(x) in (SymNum, SymNode, SymBool)


# --------------------------------------------------------------------------------------------------------------------
# builtins seen by the code under test

def sym_max(*args, **kw):
    return _extreme(builtins.max, 'lt', args, kw)


def sym_min(*args, **kw):
    return _extreme(builtins.min, 'gt', args, kw)


def _extreme(base, op, args, kw):
    if kw.get('key') is not None:
        return base(*args, **kw)
    if len(args) == 1:
        xs = list(args[0])
        if not xs:
            return base(xs, **kw)
    else:
        xs = list(args)
    if not any(type(x) is SymNum for x in xs):
        return base(xs)
    best = xs[0]
    for x in xs[1:]:
        c = (best < x) if op == 'lt' else (best > x)
        if type(c) is SymBool:
            best = ITE(c, x, best)
        elif c:
            best = x
    return best


_real_type = type


class sym_type(type):
    """`type` as seen by the code under test: reports int/float/bool for proxies."""
    def __new__(mcs, *args, **kw):
        if len(args) == 1 and not kw:
            t = _real_type(args[0])
            if t in (SymNum, SymNode):
                return float if args[0].real else int
            if t is SymBool:
                return bool
            return t
        return _real_type(*args, **kw)


class _NumMeta(type):
    """Makes the shadows of int and float behave as the types themselves for isinstance and ==."""
    def __instancecheck__(cls, x):
        return isinstance(x, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


class sym_int(metaclass=_NumMeta):
    """int() for text tokens and symbolic numbers."""
    _base = int

    def __new__(cls, x=0, *a):
        if type(x) in (SymNum, SymNode):
            return SymNum(z3.simplify(_trunc(x.t))) if x.real else x
        if type(x) is str and not a:
            n = _eng().tokens.get(x.strip())
            if n is not None:
                if n.real:
                    raise ValueError('invalid literal for int()')
                return n
        return int(x, *a)


class sym_float(metaclass=_NumMeta):
    """float() for text tokens and symbolic numbers."""
    _base = float

    def __new__(cls, x=0.0):
        if type(x) in (SymNum, SymNode):
            return x if x.real else SymNum(z3.ToReal(x.t))
        if type(x) is str:
            n = _eng().tokens.get(x.strip())
            if n is not None:
                return n if n.real else SymNum(z3.ToReal(n.t))
        return float(x)


# --------------------------------------------------------------------------------------------------------------------
# environments: how a harness gets inputs and states requirements

class BaseEnv(object):
    """What both kinds of environment share: things to undo at the end of a run."""

    reals = False

    def __init__(self):
        self.undo = []

    def patch(self, obj, name, value):
        """Replace an attribute until the end of this run (stubs of the environment of the code under test)."""
        missing = object()
        old = obj.__dict__.get(name, missing)

        def back():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.undo.append(back)
        setattr(obj, name, value)

    def close(self):
        while self.undo:
            self.undo.pop()()


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, eng):
        BaseEnv.__init__(self)
        self.eng = eng

    def num(self, name, sort='int'):
        x = SymNum(self.eng.var(name, 'real' if self.reals else sort), name)
        self.eng.inputs[name] = x
        return x

    def nodes(self, group, n):
        """n distinct arbitrary numbers used as node labels."""
        ts = [self.eng.var('%s%d' % (group, i), 'int') for i in range(n)]
        if n > 1:
            self.eng.assume(z3.Distinct(*ts))
        out = []
        for i, t in enumerate(ts):
            x = SymNode(t, group, i)
            self.eng.inputs['%s%d' % (group, i)] = x
            out.append(x)
        return out

    def choose(self, name, options):
        options = list(options)
        if name in self.eng.inputs:
            raise EngineError('an input is named twice: ' + name)
        k = self.eng.choose(len(options))
        self.eng.inputs[name] = k
        return options[k]

    def flag(self, name):
        return self.choose(name, [False, True])

    def assume(self, cond):
        if type(cond) is SymBool:
            v = self.eng.peek(cond.key)
            if v is None:
                self.eng.assume(cond.term())
                # an assumed order atom is as good as a decided one
                self.eng._learn(cond.key, not cond.neg)
                return
            cond = (not v) if cond.neg else v
        if not cond:
            raise PathAbort('assume')

    def require(self, cond, label):
        self.eng.stats.requirements += 1
        if type(cond) is SymBool:
            v = self.eng.peek(cond.key)
            if v is None:
                self.eng.requirements.append((cond.term(), label))
                return
            cond = (not v) if cond.neg else v
        if not cond:
            raise Falsified(label)

    def observe(self, label, value):
        self.eng.observations.append((label, value))

    def cover(self, label):
        self.eng.covered.add(label)


class ConcreteEnv(BaseEnv):
    symbolic = False

    def __init__(self, inputs):
        BaseEnv.__init__(self)
        self.inputs = inputs
        self.observations = []
        self.failures = []
        self.covered = set()

    def num(self, name, sort='int'):
        x = self.inputs[name]['v']
        return float(x) if sort == 'real' or self.reals else x

    def nodes(self, group, n):
        return [self.inputs['%s%d' % (group, i)]['v'] for i in range(n)]

    def choose(self, name, options):
        return list(options)[self.inputs[name]['c']]

    def flag(self, name):
        return self.choose(name, [False, True])

    def assume(self, cond):
        if not cond:
            raise PathAbort('assume')

    def require(self, cond, label):
        if not cond:
            self.failures.append(label)

    def observe(self, label, value):
        self.observations.append((label, value))

    def cover(self, label):
        self.covered.add(label)


def under_model(m, x):
    """A result containing proxies, evaluated under a model, in a canonical printable form."""
    t = type(x)
    if t in (SymNum, SymNode):
        return value_of(m, x.t)
    if t is SymBool:
        return z3.is_true(m.eval(x.term(), model_completion=True))
    if t in (tuple, list):
        return t(under_model(m, y) for y in x)
    if t is dict:
        return {under_model(m, k): under_model(m, v) for k, v in x.items()}
    if t in (set, frozenset):
        return set(under_model(m, y) for y in x)
    return x


def canon(x):
    """Order-insensitive printable form of an observation."""
    t = type(x)
    if t is bool or x is None or t is str:
        return repr(x)
    if t in (int, float):
        return repr(float(x))
    if t is tuple:
        return '(' + ','.join(canon(y) for y in x) + ')'
    if t is list:
        return '[' + ','.join(sorted(canon(y) for y in x)) + ']'
    if t in (set, frozenset):
        return '{' + ','.join(sorted(canon(y) for y in x)) + '}'
    if isinstance(x, dict):
        return '{' + ','.join(sorted(canon(k) + ':' + canon(v) for k, v in x.items())) + '}'
    return repr(x)


# --------------------------------------------------------------------------------------------------------------------
# exploring one harness

class Violation(object):
    def __init__(self, labels, inputs, detail=''):
        self.labels, self.inputs, self.detail = labels, inputs, detail


def explore(fn, params, deadline, on_violation=None, on_sample=None, sample_every=0, max_samples=0, path_limit=None,
            max_unconfirmed=12):
    """Visit every feasible path of fn(env, **params).

    on_violation(v) replays a counterexample and says whether it is confirmed; exploration stops at a confirmed one.
    on_sample(inputs, observations) gets a model of every sample_every-th path (fewer and fewer of them), with what the
    symbolic execution computed, evaluated under that model."""
    import traceback
    eng = Engine()
    Engine.current = eng
    violations, covered = [], set()
    samples = unconfirmed = 0
    next_sample = 1
    timed_out = False
    confirmed = False
    while True:
        eng._reset_path()
        env = SymEnv(eng)
        bad = None
        ok = False
        try:
            fn(env, **params)
            ok = True
        except PathAbort:
            eng.stats.aborted += 1
        except Falsified as e:
            bad = ([str(e)], '')
        except EngineError:
            raise
        except Exception as e:          # the code under test raised where the harness expected an answer
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            bad = (['exception %s: %s' % (type(e).__name__, str(e)[:120])], where)
        finally:
            env.close()
        if eng.pos != len(eng.trail):
            raise EngineError('replay diverged: path ended early')
        if ok or bad:
            eng.stats.paths += 1
        v = None
        if bad is None and ok:
            r = eng.path_violation()
            if r is not None:
                v = Violation(r[1], eng.inputs_under(r[0]))
            else:
                covered |= eng.covered
                if on_sample and samples < max_samples and eng.stats.paths >= next_sample:
                    if eng.check() == z3.sat:
                        m = eng.nice_model()
                        samples += 1
                        next_sample = eng.stats.paths + sample_every * (1 + samples // 5) ** 2
                        inputs = eng.inputs_under(m)
                        if all(not isinstance(x, dict) or x.get('exact', True) for x in inputs.values()):
                            on_sample(inputs, [(l, canon(under_model(m, o))) for l, o in eng.observations])
                            Engine.current = eng
        elif bad is not None:
            r = eng.check()
            if r == z3.sat:
                v = Violation(bad[0], eng.inputs_under(eng.nice_model()), bad[1])
            elif r == z3.unknown:
                eng.complete = False
        if v is not None:
            violations.append(v)
            if on_violation is None or on_violation(v):
                confirmed = True
                break
            Engine.current = eng
            unconfirmed += 1
            eng.complete = False
            if unconfirmed >= max_unconfirmed:
                break
        if path_limit and eng.stats.paths >= path_limit:
            timed_out = True
            break
        if _time.time() > deadline:
            timed_out = True
            break
        if not eng.backtrack():
            break
    Engine.current = None
    return {'stats': eng.stats.as_dict(), 'violations': [(v.labels, v.inputs, v.detail) for v in violations],
            'covered': sorted(covered), 'complete': eng.complete and not timed_out and not violations,
            'timed_out': timed_out, 'nsamples': samples}
