"""Symbolic execution of the real Python source, with obligations discharged by z3 (cvc5 as fallback).

A path is executed natively on proxies (SInt, SReal, SBool, arrays in arrays.py). A branch on a symbolic condition forks by
re-executing the harness with a longer trace of decisions. Loops over symbolic ranges are cut by invariants (loops.py).
"""
import time, itertools, fractions, subprocess, tempfile, os, shutil
import z3

_ctx = None


def ctx():
    return _ctx


class PathEnd(BaseException):
    """The rest of this path is covered by an invariant (loop cut) or infeasible"""


class Unsupported(Exception):
    """The verifier cannot interpret the code"""


class Failed(Exception):
    pass


class Stats:
    def __init__(self):
        self.obligations = []          # dict(name, where, status, backend, s)
        self.solver_s = 0.0
        self.queries = 0
        self.by_back_end = {}
        self.failed = []
        self.assumptions = set()
        self.vacuity = 0
        self.skipped = False


TRACE = os.environ.get('PYDV_TRACE')
CVC5 = shutil.which('cvc5')


class Ctx:
    def __init__(self, stats, mode='verify', quick_ms=8000):
        self.stats, self.mode = stats, mode
        self.timeout = quick_ms
        self.memo = {}
        self.seen_obl = set()
        self.keep = []
        self.loopstate = {}       # loop id -> loops.LoopInfo (survives paths)
        self.nofork = 0
        self.harness = ''
        self.start([])

    # ---- path state
    def start(self, trace):
        self.trace, self.pos = trace, 0
        self.pc = []
        self.n = 0
        self.forks = []
        self.writes = []          # log of (buffer, index) since start
        self.loops = []           # stack of active loop cuts
        self.bufs = 0
        self.ghost = {}
        self.axiom_done = set()
        self.rng = None

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def fresh_name(self, name):
        self.n += 1
        return '%s!%d' % (name, self.n)

    def assume(self, *facts):
        for f in facts:
            f = tobool(f)
            if f is True or z3.is_true(f):
                continue
            self.pc.append(z3.BoolVal(False) if f is False else f)

    # ---- solver
    def _query(self, facts, timeout, mbqi=False, hard=False):
        t = time.time()
        key = (mbqi, hard, tuple(f.get_id() for f in facts))
        if key in self.memo:
            return self.memo[key]
        s = z3.Solver() if mbqi else z3.SimpleSolver()
        s.set('timeout', timeout)
        if not mbqi:
            s.set('smt.mbqi', False)
        s.add(*facts)
        try:
            r = str(s.check())
        except z3.Z3Exception as e:
            r = 'unknown'
        if r == 'unknown' and hard and time.time() - t < timeout / 3000:          # it gave up early: a literal that triggers nothing
            s = z3.SimpleSolver()
            s.set('timeout', min(timeout, 1000))
            s.set('smt.mbqi', False)
            s.set('smt.relevancy', 0)
            s.add(*facts)
            try:
                r = str(s.check())
            except z3.Z3Exception:
                pass
            r = 'unknown' if r != 'unsat' else r
        m = None
        if TRACE and r == 'unknown':
            print('    unknown: %s (%.1f s)' % (s.reason_unknown(), time.time() - t))
        if r == 'sat':
            m = s.model()
        dt = time.time() - t
        self.stats.solver_s += dt
        self.stats.queries += 1
        self.keep.extend(facts)
        self.memo[key] = (r, m)
        return r, m

    def feasible(self, cond):
        r, _ = self._query(self.pc + [cond], 400)
        return r != 'unsat'

    def valid(self, goal, timeout=None):
        """'proved', or 'refuted'/'unknown' """
        goal = tobool(goal)
        if goal is True:
            return 'proved', None, 'trivial'
        if goal is False:
            goal = z3.BoolVal(False)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'proved', None, 'simplifier'
        r, m = self._query(self.pc + [z3.Not(goal)], timeout or self.timeout, hard=True)
        if r == 'unsat':
            return 'proved', None, 'z3'
        return ('refuted' if r == 'sat' else 'unknown'), m, 'z3'

    def prove(self, name, goal, soft=False):
        """Obligation: goal holds on this path. Afterwards it is assumed."""
        if self.mode == 'infer':
            self.assume(goal)
            return True
        t = time.time()
        hopeless = sum(1 for o in self.stats.obligations[-400:] if o[1] != 'proved') >= 3          # enough has failed to report: spend less on the rest
        status, model, backend = self.valid(goal, 700 if hopeless else None)
        if status == 'unknown' and not hopeless:
            g = tobool(goal)
            r, m = self._query(self.pc + [z3.Not(z3.BoolVal(g) if isinstance(g, bool) else z3.simplify(g))], self.timeout, mbqi=True)
            if r == 'unsat':
                status = 'proved'
            elif r == 'sat':
                status, model = 'refuted', m
        if status == 'unknown' and CVC5 and not hopeless:
            if self.cvc5(tobool(goal)):
                status, backend = 'proved', 'cvc5'
        full = self.harness + '/' + name
        key = (full, tuple(f.get_id() for f in self.pc), str(tobool(goal)) if isinstance(tobool(goal), bool) else tobool(goal).get_id())
        if key in self.seen_obl:            # the same obligation of a re-executed prefix
            self.assume(goal)
            return status == 'proved'
        self.seen_obl.add(key)
        self.keep.extend(self.pc)
        if not isinstance(tobool(goal), bool):
            self.keep.append(tobool(goal))
        self.stats.obligations.append((full, status, backend))
        self.stats.by_back_end[backend] = self.stats.by_back_end.get(backend, 0) + (status == 'proved')
        if status != 'proved':
            out = None
            if model is not None:
                try:
                    out = str(model)[:3000]
                except Exception:
                    pass
            if full not in [f['name'] for f in self.stats.failed]:
                self.stats.failed.append(dict(name=full, reason='%s on path %s' % (status, self.trace[:self.pos]), goal=str(tobool(goal))[:2000],
                                              model=out, path=[str(p)[:1500] for p in self.pc[-80:]]))
        self.assume(goal)
        return status == 'proved'

    def cvc5(self, goal):
        s = z3.Solver()
        s.add(*self.pc)
        if goal is False:
            goal = z3.BoolVal(False)
        s.add(z3.Not(goal))
        text = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(text)
        t = time.time()
        try:
            r = subprocess.run([CVC5, '--tlimit=8000', f.name], capture_output=True, text=True, timeout=20)
            return r.stdout.strip().startswith('unsat')
        except Exception:
            return False
        finally:
            self.stats.solver_s += time.time() - t
            os.unlink(f.name)

    def lemma(self, name, goal):
        """Obligation on its own (independent of the path), proved once"""
        if self.mode == 'infer' or (name, 'lemma') in self.seen_obl:
            return
        self.seen_obl.add((name, 'lemma'))
        pc, self.pc = self.pc, []
        try:
            status, backend = ('proved', 'cvc5') if CVC5 and self.cvc5(goal) else (self.valid(goal)[0], 'z3')
        finally:
            self.pc = pc
        self.stats.obligations.append((self.harness + '/' + name, status, backend))
        self.stats.by_back_end[backend] = self.stats.by_back_end.get(backend, 0) + (status == 'proved')
        if status != 'proved':
            self.stats.failed.append(dict(name=self.harness + '/' + name, reason=status))

    def fail(self, name, reason):
        if self.mode == 'infer':
            return
        full = self.harness + '/' + name
        self.stats.obligations.append((full, 'failed', 'engine'))
        if full not in [f['name'] for f in self.stats.failed]:
            self.stats.failed.append(dict(name=full, reason=str(reason)))

    # ---- branching
    def branch(self, cond):
        """Python truth value of a symbolic condition: forks"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.nofork:
            raise Unsupported('branching on a symbolic condition inside a specification: %s' % str(cond)[:200])
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd
            d = t
            if t and f:
                self.forks.append(self.trace[:self.pos] + [False])
            self.trace = self.trace + [d]
        self.pos += 1
        self.pc.append(cond if d else z3.Not(cond))
        return d

    def choose(self, label):
        """Unconstrained two-way fork (e.g. another iteration / no more iterations)"""
        return self.branch(self.fresh('choice_' + label, z3.BoolSort()))


def explore(c, harness, max_paths=4000):
    """Runs the harness on every feasible path"""
    global _ctx
    work, paths = [[]], 0
    while work:
        trace = work.pop()
        c.start(trace)
        prev, _ctx = _ctx, c
        try:
            harness(c)
        except PathEnd:
            pass
        finally:
            _ctx = prev
        work.extend(c.forks)
        paths += 1
        if paths > max_paths:
            raise Unsupported('too many paths')
    return paths


# ------------------------------------------------------------------------------------------------ proxies
NUM = (int, float, fractions.Fraction)


def isnum(x):
    import numpy as np
    return isinstance(x, NUM + (np.integer, np.floating, np.bool_)) and not isinstance(x, bool) or isinstance(x, (bool,))


def tobool(x):
    import numpy as np
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('not a Boolean: %r' % (x,))


def zbool(x):
    x = tobool(x)
    return z3.BoolVal(x) if x is True or x is False else x


def zint(x):
    import numpy as np
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return z3.IntVal(int(x))
    raise Unsupported('not an integer: %r' % (x,))


def zreal(x):
    """(value term, is-minus-infinity term or False)"""
    import numpy as np
    if isinstance(x, SReal):
        return x.z, x.inf
    if isinstance(x, SInt):
        return z3.ToReal(x.z), False
    if isinstance(x, SBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0)), False
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return z3.RealVal(int(x)), False
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x == float('-inf'):
            return z3.RealVal(0), True
        if x != x or x == float('inf'):
            raise Unsupported('value %r' % x)
        fr = fractions.Fraction(x).limit_denominator(10**12) if abs(x) > 1e-6 or x == 0 else fractions.Fraction(x)
        if float(fr) != x:
            fr = fractions.Fraction(x)
        return z3.RealVal(str(fr)), False
    if isinstance(x, z3.ArithRef):
        return (z3.ToReal(x) if x.is_int() else x), False
    raise Unsupported('not a number: %r' % (x,))


def zor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def zb(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


class Proxy:
    __array_ufunc__ = None
    __hash__ = object.__hash__


class SBool(Proxy):
    def __init__(self, z):
        self.z = zb(z)

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o): return SBool(z3.And(self.z, zbool(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.z, zbool(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(self.z, zbool(o)))
    def __invert__(self): return SBool(z3.Not(self.z))
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)): return SBool(self.z == zbool(o))
        if isinstance(o, (int, SInt)): return SInt(zint(self)) == o
        return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r
    def __repr__(self): return 'SBool(%s)' % self.z
    __hash__ = object.__hash__
    def _i(self): return SInt(zint(self))
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()


class SNum(Proxy):
    __hash__ = object.__hash__


def _isreal(x):
    import numpy as np
    return isinstance(x, (SReal, float, np.floating)) or (isinstance(x, z3.ArithRef) and x.is_real())


def _isnumlike(x):
    import numpy as np
    return isinstance(x, (SNum, SBool, bool, int, float, np.integer, np.floating, np.bool_, z3.ArithRef))


class SInt(SNum):
    def __init__(self, z):
        self.z = z if isinstance(z, z3.ExprRef) else z3.IntVal(int(z))

    def _bin(self, o, f, swap=False):
        if not _isnumlike(o):
            return NotImplemented
        if _isreal(o):
            a, b = SReal(zreal(self)[0]), o
            a, b = (b, a) if swap else (a, b)
            return getattr(SReal, f)(a if isinstance(a, SReal) else SReal(*zreal(a)), b)
        x, y = self.z, zint(o)
        if swap:
            x, y = y, x
        return {'__add__': lambda: SInt(x + y), '__sub__': lambda: SInt(x - y), '__mul__': lambda: SInt(imul(x, y))}[f]()

    def __add__(self, o): return self._bin(o, '__add__')
    def __radd__(self, o): return self._bin(o, '__add__', True)
    def __sub__(self, o): return self._bin(o, '__sub__')
    def __rsub__(self, o): return self._bin(o, '__sub__', True)
    def __mul__(self, o): return self._bin(o, '__mul__')
    def __rmul__(self, o): return self._bin(o, '__mul__', True)
    def __truediv__(self, o): return SReal(*zreal(self)) / o
    def __rtruediv__(self, o): return SReal(*zreal(o)) / self
    def __neg__(self): return SInt(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.z >= 0, self.z, -self.z))

    def __floordiv__(self, o):
        return SInt(idivmod(self.z, zint(o))[0])

    def __mod__(self, o):
        return SInt(idivmod(self.z, zint(o))[1])

    def __rfloordiv__(self, o): return SInt(zint(o)) // self
    def __rmod__(self, o): return SInt(zint(o)) % self
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return divmod(SInt(zint(o)), self)
    def __rshift__(self, k): return self // (2 ** k)
    def __int__(self): raise Unsupported('int() of a symbolic value')
    def __index__(self):
        v = z3.simplify(self.z)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('concrete index needed for %s' % self.z)
    def __bool__(self): return ctx().branch(self.z != 0)

    def _cmp(self, o, op):
        if not _isnumlike(o):
            return NotImplemented
        if _isreal(o):
            return SReal(*zreal(self))._cmp(o, op)
        x, y = self.z, zint(o)
        return SBool(_OPS[op](x, y))

    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')
    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __repr__(self): return 'SInt(%s)' % self.z
    __hash__ = object.__hash__


import operator
_OPS = dict(eq=operator.eq, ne=operator.ne, lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge)


class SReal(SNum):
    """Extended real: value, or minus infinity where `inf` holds"""
    def __init__(self, z, inf=False):
        self.z, self.inf = z, inf

    def finite(self):
        return SBool(z3.Not(zb(self.inf)))

    def __add__(self, o):
        if not _isnumlike(o): return NotImplemented
        v, i = zreal(o)
        return SReal(self.z + v, zor(self.inf, i))
    __radd__ = __add__

    def __sub__(self, o):
        if not _isnumlike(o): return NotImplemented
        v, i = zreal(o)
        if i is not False:
            ctx().prove('subtracted value is finite', z3.Not(zb(i)))
        return SReal(self.z - v, self.inf)

    def __rsub__(self, o): return SReal(*zreal(o)) - self
    def __neg__(self):
        if self.inf is not False:
            ctx().prove('negated value is finite', z3.Not(zb(self.inf)))
        return SReal(-self.z)
    def __pos__(self): return self

    def __mul__(self, o):
        if not _isnumlike(o): return NotImplemented
        v, i = zreal(o)
        if self.inf is not False:
            ctx().prove('product with minus infinity is defined', z3.Implies(zb(self.inf), z3.And(v > 0, z3.Not(zb(i)))))
        if i is not False:
            ctx().prove('product with minus infinity is defined', z3.Implies(zb(i), z3.And(self.z > 0, z3.Not(zb(self.inf)))))
        return SReal(mul(self.z, v), zor(self.inf, i))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnumlike(o): return NotImplemented
        v, i = zreal(o)
        ctx().prove('divisor is finite and not 0', z3.And(v != 0, z3.Not(zb(i))))
        if self.inf is not False:
            ctx().prove('quotient of minus infinity is defined', z3.Implies(zb(self.inf), v > 0))
        return SReal(div(self.z, v), self.inf)

    def __rtruediv__(self, o): return SReal(*zreal(o)) / self
    def __abs__(self): return SReal(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, op):
        if not _isnumlike(o): return NotImplemented
        v, i = zreal(o)
        if self.inf is False and i is False:
            return SBool(_OPS[op](self.z, v))
        a, b = zb(self.inf), zb(i)
        lt = z3.Or(z3.And(a, z3.Not(b)), z3.And(z3.Not(a), z3.Not(b), self.z < v))
        eq = z3.Or(z3.And(a, b), z3.And(z3.Not(a), z3.Not(b), self.z == v))
        return SBool({'eq': eq, 'ne': z3.Not(eq), 'lt': lt, 'le': z3.Or(lt, eq), 'gt': z3.Not(z3.Or(lt, eq)), 'ge': z3.Not(lt)}[op])

    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')
    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __bool__(self): return bool(self != 0)
    def __float__(self): raise Unsupported('float() of a symbolic value')
    def __repr__(self): return 'SReal(%s%s)' % (self.z, '' if self.inf is False else ' | %s' % self.inf)
    __hash__ = object.__hash__


# Products and quotients of two symbolic reals stay uninterpreted in code obligations (congruence is all they need); the
# lemmas of the contracts state the few arithmetic facts about them, and those are proved with real arithmetic.
_mul = z3.Function('mul', z3.RealSort(), z3.RealSort(), z3.RealSort())
_div = z3.Function('div', z3.RealSort(), z3.RealSort(), z3.RealSort())


def mul(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_rational_value(a) or z3.is_rational_value(b):
        return a * b
    if a.get_id() > b.get_id() and False:
        a, b = b, a
    return a * b if NONLINEAR else _mul(a, b)


def div(a, b):
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        if b.as_fraction() == 1:
            return a
        return a / b
    return a / b if NONLINEAR else _div(a, b)


_imul = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())
_idiv = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
_imod = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())


def imul(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(a) or z3.is_int_value(b):
        return a * b
    return _imul(a, b)


def idivmod(a, d):
    d = z3.simplify(d)
    c = ctx()
    if z3.is_int_value(d):
        c.prove('divisor is positive', d > 0)
        return a / d, a % d
    c.prove('divisor is positive', d > 0)
    q, m = _idiv(a, d), _imod(a, d)
    c.assume(z3.Implies(d > 0, z3.And(a == imul(q, d) + m, m >= 0, m < d)), z3.Implies(z3.And(a >= 0, d > 0), q >= 0))
    return q, m


NONLINEAR = False
EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())
LOG = z3.Function('log', z3.RealSort(), z3.RealSort())


def exp(x):
    """exp on extended reals, exp(-inf) = 0; axiom exp > 0 instantiated at the argument"""
    v, i = zreal(x)
    c = ctx()
    c.assume(EXP(v) > 0)
    if i is False:
        return SReal(EXP(v))
    return SReal(z3.If(zb(i), z3.RealVal(0), EXP(v)))


def log(x):
    """log on non-negative reals, log(0) = -inf"""
    v, i = zreal(x)
    ctx().prove('argument of log is not negative', z3.And(v >= 0, z3.Not(zb(i))))
    return SReal(LOG(v), v == 0)


def access(self, kind, arr, key):
    """Log of the element accesses (for the modifies sets of loops and the independence of parallel iterations)"""
    if self.nofork:
        return
    if kind == 'w' and arr.buf.id in self.ghost.get('published', ()):
        raise Unsupported('write to an array that is already stored in a container')
    idx = tuple(([] if arr.row is None else [arr.row]) + [None if k is None else zint(k) for k in key])
    self.writes.append((kind, arr.buf.id, idx))


Ctx.access = access
