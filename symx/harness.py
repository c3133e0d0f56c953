"""Harness environment, path runner, prover and replay.

A harness is a function `h(env)`.  It is run
  * symbolically (SymEnv): inputs are solver variables, every path of the code
    under verification is explored, every `env.check/close` becomes a query;
  * concretely (ConcEnv): on the unpatched code with float64 inputs taken from
    an assignment; used to replay counterexamples and to validate the encoding.
"""
from __future__ import annotations

import fractions
import json
import math
import os
import random
import time
import traceback
import warnings

import numpy as np

from . import core, norm
from .core import CTX, Inconclusive, PathAbort, Sym, SymBool, SymC, Unsupported, rv, z3

MARGIN = 2.0  # the solver disproves 2*tol, the replay confirms 1*tol


class Violated(Exception):
    """raised by an env check in concrete mode"""


class Stop(Exception):
    pass


# --------------------------------------------------------------- base helpers
class EnvBase:
    symbolic = False
    ints = ()  # names of the inputs that are integers in this case

    def __init__(self):
        self.obs = []  # (label, flat list of elements)

    # spec-side elementwise functions work in both modes
    def exp(self, x):
        return x.exp() if isinstance(x, Sym) else float(np.exp(float(x)))

    def log(self, x):
        if isinstance(x, Sym):
            return x.log()
        return float(np.log(float(x))) if x > 0 else math.nan

    def sqrt(self, x):
        if isinstance(x, Sym):
            return x.sqrt()
        return math.sqrt(x) if x >= 0 else math.nan

    def sin(self, x):
        return x.sin() if isinstance(x, Sym) else float(np.sin(float(x)))

    def cos(self, x):
        return x.cos() if isinstance(x, Sym) else float(np.cos(float(x)))

    def tan(self, x):
        return x.tan() if isinstance(x, Sym) else float(np.tan(float(x)))

    def acos(self, x):
        if isinstance(x, Sym):
            return x.arccos()
        return float(np.arccos(float(x))) if -1 <= x <= 1 else math.nan

    def ite(self, c, a, b):
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        return core.ite(c, a, b)

    def And(self, *a):
        return core.mkb(core.b_and(*[core.raw(x) if isinstance(x, SymBool) else bool(x) for x in a]))

    def Or(self, *a):
        return core.mkb(core.b_or(*[core.raw(x) if isinstance(x, SymBool) else bool(x) for x in a]))

    def Not(self, a):
        return core.mkb(core.b_not(core.raw(a) if isinstance(a, SymBool) else bool(a)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def fmin(self, a, b):
        return core.fmin(a, b)

    def fmax(self, a, b):
        return core.fmax(a, b)

    def isnan(self, x):
        if isinstance(x, (Sym, SymC)):
            return x.isnan()
        if isinstance(x, SymBool):
            return False
        return bool(x != x)

    @staticmethod
    def flat(x):
        """any array-like -> list of python elements (C order)."""
        if hasattr(x, 'to_numpy') and hasattr(x, 'dims'):
            x = x.data
        if hasattr(x, 'compute') and hasattr(x, 'dask'):
            x = x.compute(scheduler='synchronous')
        if isinstance(x, (Sym, SymBool, SymC)):
            return [x]
        if isinstance(x, np.ndarray):
            return list(x.view(np.ndarray).reshape(-1)) if x.ndim else [x.view(np.ndarray)[()]]
        if isinstance(x, (list, tuple)):
            out = []
            for e in x:
                out += EnvBase.flat(e)
            return out
        return [x]

    @staticmethod
    def shape(x):
        return tuple(np.shape(x)) if not isinstance(x, (list, tuple)) else tuple(np.shape(np.empty(_lshape(x))))


def _lshape(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_lshape(x[0]) if x else ())
    return tuple(getattr(x, 'shape', ()))


# --------------------------------------------------------------- concrete env
class ConcEnv(EnvBase):
    def __init__(self, assign, strict=True):
        super().__init__()
        self.a = assign
        self.failed = []
        self.strict = strict
        self.assumed_ok = True

    def real(self, name, lo=None, hi=None, nan=False):
        if nan and name not in self.ints and self.a.get(name + '.bad'):
            return math.nan
        v = self.a.get(name)
        if v is None:
            v = 0.0 if lo is None else lo
        return int(round(v)) if name in self.ints else float(v)

    def integer(self, name, lo, hi):
        v = self.a.get(name)
        return int(round(lo if v is None else v))

    def boolean(self, name):
        return bool(self.a.get(name, False))

    def choice(self, name, opts):
        return opts[self.integer(name, 0, len(opts) - 1)]

    def array(self, name, shape, lo=None, hi=None, nan=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        r = np.empty(shape, dtype=float)
        if name in self.ints:
            r = np.empty(shape, dtype=np.int64)
            for i in np.ndindex(shape):
                v = self.real(name + ''.join(f'_{k}' for k in i), lo, hi)
                r[i] = round(v)
            return r
        for i in np.ndindex(shape):
            r[i] = self.real(name + ''.join(f'_{k}' for k in i), lo, hi, nan)
        return r

    def mkarray(self, elems, shape=None):
        r = np.array(elems, dtype=float)
        return r if shape is None else r.reshape(shape)

    def assume(self, c):
        if not bool(c):
            self.assumed_ok = False
            raise Stop('assumption not met')

    def _fail(self, label, info=''):
        self.failed.append((label, info))

    def check(self, label, cond):
        for c in self.flat(cond):
            if not bool(c):
                self._fail(label)
                return

    def close(self, label, got, want, rtol=1e-9, atol=1e-9):
        g, w = self.flat(got), self.flat(want)
        self.obs.append((label, [complex(x) if isinstance(x, (complex, np.complexfloating)) else _tofloat(x) for x in g]))
        if len(g) != len(w):
            self._fail(label, f'size {len(g)} != {len(w)}')
            return
        for i, (x, y) in enumerate(zip(g, w)):
            if isinstance(x, (complex, np.complexfloating)) or isinstance(y, (complex, SymC)):
                x, y = complex(x), complex(y)
                ok = abs(x - y) <= atol + rtol * abs(y)
            else:
                x, y = _tofloat(x), _tofloat(y)
                if math.isnan(y) or math.isnan(x):
                    ok = math.isnan(x) and math.isnan(y)
                elif math.isinf(x) or math.isinf(y):
                    ok = x == y
                else:
                    ok = abs(x - y) <= atol + rtol * abs(y)
            if not ok:
                self._fail(label, f'[{i}] got {x!r} want {y!r}')
                return

    def within(self, label, x, lo=None, hi=None, atol=1e-9):
        for i, e in enumerate(self.flat(x)):
            e = _tofloat(e)
            if lo is not None and not e >= lo - atol:
                self._fail(label, f'[{i}] {e!r} < {lo!r}')
                return
            if hi is not None and not e <= hi + atol:
                self._fail(label, f'[{i}] {e!r} > {hi!r}')
                return

    def same(self, label, a, b):
        """structural fact (not symbolic)"""
        if a is not b and a != b:
            self._fail(label, f'{a!r} != {b!r}')

    def observe(self, label, got):
        self.obs.append((label, [_tofloat(x) for x in self.flat(got)]))

    def raises(self, label, exc, f):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f()
        except exc:
            return True
        except Exception as e:
            self._fail(label, f'raised {type(e).__name__}: {e}')
            return False
        self._fail(label, 'no exception')
        return False

    def witness(self, label, cond=True):
        pass


def _tofloat(x):
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    return float(x)


# --------------------------------------------------------------- symbolic env
class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, prover):
        super().__init__()
        self.p = prover
        self.witnessed = set()

    def _var(self, name, lo, hi):
        v = CTX.vars.get(name)
        if v is None:
            v = z3.Real(name)
            CTX.vars[name] = v
            CTX.bounds[name] = (lo, hi)
            if lo is not None:
                CTX.base.append(v >= rv(lo))
            if hi is not None:
                CTX.base.append(v <= rv(hi))
        return v

    def real(self, name, lo=None, hi=None, nan=False):
        v = self._var(name, lo, hi)
        bad = False
        if nan and name not in self.ints:
            bn = name + '.bad'
            if bn not in CTX.vars:
                CTX.vars[bn] = z3.Bool(bn)
                CTX.bounds[bn] = 'b'
            bad = CTX.vars[bn]
        if name in self.ints:
            # every integer in [lo, hi].  The query variable ranges over the reals
            # between them (a superset); a counterexample is looked for among the
            # integers first and confirmed on the real code
            CTX.intvars.add(name)
            return Sym(v, False, True)
        return Sym(v, bad)

    def integer(self, name, lo, hi):
        """integer input, enumerated by the solver within [lo, hi]"""
        if name not in CTX.vars:
            i = z3.Int(name)
            CTX.vars[name] = i
            CTX.bounds[name] = ('i', lo, hi)
            CTX.base += [i >= lo, i <= hi]
        return CTX.concretise(Sym(z3.ToReal(CTX.vars[name]), False, True))

    def boolean(self, name):
        if name not in CTX.vars:
            CTX.vars[name] = z3.Bool(name)
            CTX.bounds[name] = 'b'
        return CTX.decide(CTX.vars[name])

    def choice(self, name, opts):
        return opts[self.integer(name, 0, len(opts) - 1)]

    def array(self, name, shape, lo=None, hi=None, nan=False):
        from .arr import SymArray

        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        r = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            r[i] = self.real(name + ''.join(f'_{k}' for k in i), lo, hi, nan and name not in self.ints)
            if name in self.ints:
                CTX.intvars.add(r[i].v.decl().name())
                r[i] = Sym(r[i].v, False, True)
        return r.view(SymArray)

    def mkarray(self, elems, shape=None):
        from .arr import arr

        r = arr([core.cast(e, float) if isinstance(e, Sym) and e.isint else e for e in elems])
        return r if shape is None else r.reshape(shape)

    def assume(self, c):
        if isinstance(c, SymBool):
            if CTX.concolic is not None:
                if not core.evaluate(c.b, CTX.concolic):
                    raise PathAbort()
            CTX.path.append(c.b)
        elif not bool(c):
            raise PathAbort()

    def check(self, label, cond):
        for c in self.flat(cond):
            self.p.obligation(label, core.raw(c) if isinstance(c, SymBool) else bool(c))

    def close(self, label, got, want, rtol=1e-9, atol=1e-9):
        g, w = self.flat(got), self.flat(want)
        self.obs.append((label, g))
        if len(g) != len(w):
            self.p.obligation(label, False)
            return
        for i, (x, y) in enumerate(zip(g, w)):
            if isinstance(x, (SymC, complex, np.complexfloating)) or isinstance(y, (SymC, complex, np.complexfloating)):
                x, y = SymC.of(x), SymC.of(y)
                self._close1(label, x.re, y.re, rtol, atol)
                self._close1(label, x.im, y.im, rtol, atol)
            else:
                self._close1(label, x, y, rtol, atol)

    def _close1(self, label, x, y, rtol, atol):
        if core.is_conc(x) and core.is_conc(y):
            x, y = float(x), float(y)
            ok = (math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= atol + rtol * abs(y)
            self.p.obligation(label, ok)
            return
        for q in (x, y):
            if core.is_conc(q) and core._isinf(q):
                # an infinite constant against a symbolic term: only equal if bad
                self.p.obligation(label, False)
                return
        xv, xb = core.term(x)
        yv, yb = core.term(y)
        if not (xb is False and yb is False):
            zb = lambda b: b if isinstance(b, z3.BoolRef) else z3.BoolVal(bool(b))
            self.p.obligation(label + '/missing', zb(xb) == zb(yb))
        ok_v = core.b_not(core.b_or(xb, yb))
        hint = (xv, yv, ok_v, rtol * MARGIN, atol * MARGIN)
        d = z3.simplify(xv - yv, som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            self.p.trivial(label)
            return
        tol = rv(fractions.Fraction(repr(float(atol))) * int(MARGIN))
        if rtol:
            ay = z3.If(yv >= 0, yv, -yv)
            tol = tol + rv(fractions.Fraction(repr(float(rtol))) * int(MARGIN)) * ay
        c = z3.And(xv - yv <= tol, yv - xv <= tol)
        if ok_v is not True:
            c = z3.Implies(ok_v, c) if ok_v is not False else z3.BoolVal(True)
        self.p.obligation(label, c, hint)

    def within(self, label, x, lo=None, hi=None, atol=1e-9):
        a = atol * MARGIN
        for e in self.flat(x):
            cs = []
            if isinstance(e, Sym):
                cs.append(e.isfinite())
            if lo is not None:
                cs.append(e >= lo - a)
            if hi is not None:
                cs.append(e <= hi + a)
            self.check(label, [self.And(*cs)])

    def same(self, label, a, b):
        self.p.obligation(label, bool(a is b or a == b))

    def observe(self, label, got):
        self.obs.append((label, self.flat(got)))

    def raises(self, label, exc, f):
        try:
            f()
        except exc:
            self.p.obligation(label, True)
            return True
        except (Unsupported, Inconclusive):
            raise
        except Exception:
            self.p.obligation(label, False)
            return False
        self.p.obligation(label, False)
        return False

    def witness(self, label, cond=True):
        """reachability witness: `cond` must be satisfiable on some path."""
        self.p.witness(label, core.raw(cond) if isinstance(cond, SymBool) else bool(cond))


# --------------------------------------------------------------- the prover
class Found(BaseException):
    def __init__(self, cex):
        self.cex = cex


class Prover:
    def __init__(self, case, opts):
        self.case = case
        self.timeout = opts.get('timeout', 20)
        self.rounds = opts.get('rounds', 40)
        self.rng = random.Random(opts.get('seed', 1))
        self.stats = CTX.stats
        self.labels = {}
        self.n_trivial = 0
        self.inconclusive = []
        self.wit = {}
        self.rejected = 0
        self.lemmas = {}
        self.samples = []
        self.vectors = []
        self.seen = set()
        self.deadline = opts.get('deadline')
        self.pathconds = []

    def trivial(self, label):
        if CTX.concolic is not None:
            return
        self.n_trivial += 1
        self.labels[label] = self.labels.get(label, 0) + 1

    def witness(self, label, cond):
        if CTX.concolic is not None:
            return
        if self.wit.get(label):
            return
        r = False
        if cond is True:
            r = CTX.feasible(z3.BoolVal(True))
        elif cond is not False:
            r = CTX.feasible(cond)
        self.wit[label] = bool(r)

    def obligation(self, label, cond, hint=None):
        """cond must hold on the current path."""
        if CTX.concolic is not None:
            return
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond is True:
            self.n_trivial += 1
            return
        if cond is False:
            neg = z3.BoolVal(True)
        else:
            neg = z3.simplify(z3.Not(cond))
            if z3.is_false(neg):
                self.n_trivial += 1
                return
        self.discharge(label, neg, hint)

    # -- core query --------------------------------------------------------
    def discharge(self, label, neg, hint=None):
        fs = CTX.base + CTX.path + [neg]
        t0 = time.time()
        res, model = self.solve(fs, label, hint)
        dt = time.time() - t0
        st = CTX.stats
        st.slowest = max(st.slowest, dt)
        if res == 'unsat':
            st.unsat += 1
            if len(self.samples) < 3:
                self.samples.append({'case': self.case.name, 'obligation': label, 'negated_goal': str(neg)[:300], 'verdict': 'unsat'})
            # later queries on this path may use the proved fact
            return
        if res == 'sat':
            st.sat += 1
            raise Found({'label': label, 'assign': model})
        st.unknown += 1
        self.inconclusive.append(f'{label}: {res}')

    def solve(self, fs, label, hint=None):
        """-> ('unsat', None) | ('sat', confirmed assignment) | ('unknown..', None)"""
        ax, es = CTX.axioms(fs) if CTX.apps else ([], [])
        if hint is not None:
            r, _ = self.timed('z3', fs + ax, 0.7)
            if r == 'unsat':
                return 'unsat', None
            if r == 'unknown' or es:
                self.nsplit = 0
                hint = (norm.boolify(hint[0]), norm.boolify(hint[1])) + tuple(hint[2:])
                if self.split(fs[:-1], hint, time.time() + 12):
                    return 'unsat', None
        extra = []
        for e in es:
            extra += self.lemmas.get(id(e), [])
        trans = bool(es)
        limit = time.time() + self.timeout
        last = 'unknown'
        blocked = []
        for rnd in range(self.rounds if trans else 6):
            left = limit - time.time()
            if left <= 0:
                last = 'unknown (time)'
                break
            r, m = self.engines(fs + ax + extra + blocked, left)
            if r == 'unsat':
                if blocked:
                    # only the neighbourhood of unconfirmed models was excluded
                    return 'unknown (spurious models only)', None
                return 'unsat', None
            if r != 'sat':
                last = r
                break
            if CTX.intvars:
                ints = [z3.IsInt(CTX.vars[n]) for n in sorted(CTX.intvars)]
                r2, m2 = self.run_engine('z3', fs + ax + extra + blocked + ints, 3.0)
                if r2 == 'unsat' and not blocked:
                    return 'unsat', None
                if r2 == 'sat':
                    m = m2
            assign = self.model_assign(m)
            if trans and not self.numerically_true(fs, assign):
                # refine with tangent/point facts at the model's arguments
                new = self.refine(es, m)
                if new:
                    extra += new
                    continue
            ok = self.confirm(label, assign)
            if ok:
                return 'sat', ok
            self.rejected += 1
            # nudge away from this point
            blocked.append(self.block(assign))
            last = 'unknown (model not reproduced)'
        # partially concretised queries
        r = self.partial(fs, ax + extra, label)
        if r is not None:
            return 'sat', r
        return last, None

    def timed(self, eng, fs, t):
        st = CTX.stats
        t0 = time.time()
        st.queries += 1
        r = self.run_engine(eng, fs, t)
        st.solver_s += time.time() - t0
        st.by_engine[eng] = st.by_engine.get(eng, 0) + 1
        return r

    def split(self, fs, hint, limit):
        """close obligation by case analysis on if-then-else conditions, each leaf
        decided on its polynomial normal form (norm.py) or by the solver."""
        x, y, ok, rtol, atol = hint
        if time.time() > limit or self.nsplit > 400:
            return False
        self.nsplit += 1
        ax, _ = CTX.axioms(fs + [x == y])if CTX.apps else ([], [])
        okf = [] if ok is True else [z3.simplify(ok) if isinstance(ok, z3.BoolRef) else z3.BoolVal(bool(ok))]
        c = norm.find_arith(x)
        if c is None:
            c = norm.find_arith(y)
        if c is None:
            c = norm.find_cond(x)
            if c is None:
                c = norm.find_cond(y)
            if c is not None:
                x, y = norm.context(x), norm.context(y)
                if self.normal_form(x, y, rtol, atol, fs + okf + ax):
                    return True
        if c is None:
            if self.normal_form(x, y, rtol, atol, fs + okf + ax):
                return True
            d = x - y
            tol = rv(fractions.Fraction(repr(float(atol))))
            neg = z3.Or(d > tol, d < -tol)
            if rtol:
                ay = z3.If(y >= 0, y, -y)
                tol = tol + rv(fractions.Fraction(repr(float(rtol)))) * ay
                neg = z3.Or(d > tol, d < -tol)
            return self.timed('z3', fs + okf + ax + [neg], 3.0)[0] == 'unsat'
        same, dens = norm.same_comparisons(c, (x, y))
        if any(self.timed('z3', fs + okf + ax + [d == 0], 1.0)[0] != 'unsat' for d in dens):
            same = []
        for val in (True, False):
            lit = c if val else z3.Not(c)
            sub = [(c, z3.BoolVal(val))] + [(d, z3.BoolVal(val == pos)) for d, pos in same]
            x2, y2 = (z3.simplify(z3.substitute(t, *sub)) for t in (x, y))
            ok2 = ok
            if isinstance(ok, z3.BoolRef):
                ok2 = z3.simplify(z3.substitute(ok, *sub))
                if z3.is_false(ok2):
                    continue
                if z3.is_true(ok2):
                    ok2 = True
            r, _ = self.timed('z3', fs + okf + ax + [lit], 0.5)
            if r == 'unsat':
                continue
            if not self.split(fs + [lit], (x2, y2, ok2, rtol, atol), limit):
                return False
        return True

    def normal_form(self, x, y, rtol, atol, ctx):
        q = norm.close_query(x, y, rtol, atol)
        if q is None:
            return False
        goal, dens = q
        r, _ = self.timed('z3-normal-form', goal, 2.0)
        return r == 'unsat' and all(self.timed('z3', ctx + [d == 0], 1.5)[0] == 'unsat' for d in dens)

    def engines(self, fs, left):
        st = CTX.stats
        plan = [('z3', min(left, 4.0)), ('nlsat', min(left, 6.0)), ('z3', left), ('cvc5', left)]
        for eng, t in plan:
            t = min(t, left)
            if t <= 0.05:
                break
            t0 = time.time()
            st.queries += 1
            r, m = self.run_engine(eng, fs, t)
            dt = time.time() - t0
            st.solver_s += dt
            st.by_engine[eng] = st.by_engine.get(eng, 0) + 1
            left -= dt
            if r in ('sat', 'unsat'):
                return r, m
        return 'unknown', None

    def run_engine(self, eng, fs, t):
        if eng == 'z3-normal-form':
            eng = 'z3'
        if eng == 'cvc5':
            return self.run_cvc5(fs, t)
        if eng == 'nlsat':
            s = z3.Then(z3.With('simplify', som=True), 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'qfnra-nlsat').solver() if False else z3.Tactic('qfnra-nlsat').solver()
        else:
            s = z3.Solver()
        s.set('timeout', int(t * 1000) + 1)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            return 'unknown', None
        if r == z3.sat:
            return 'sat', s.model()
        return ('unsat', None) if r == z3.unsat else ('unknown', None)

    def run_cvc5(self, fs, t):
        try:
            import cvc5
        except Exception:
            return 'unknown', None
        s = z3.Solver()
        s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(int(t * 1000) + 1))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(slv, sm)
                if 'error' in o:
                    return 'unknown', None
                if o.strip() == 'unsat':
                    return 'unsat', None
        except Exception:
            return 'unknown', None
        return 'unknown', None

    # -- models ------------------------------------------------------------
    def model_assign(self, m):
        a = {}
        for n, v in CTX.vars.items():
            val = m.eval(v, model_completion=True)
            a[n] = _pyval(val)
        return a

    def numerically_true(self, fs, assign):
        memo = {}
        try:
            for f in fs:
                if not core.evaluate(f, assign, memo):
                    return False
        except Exception:
            return False
        return True

    def refine(self, es, m):
        out = []
        for e in es:
            v = m.eval(e.arg, model_completion=True)
            p = _pyval(v)
            if p is None:
                continue
            pf = fractions.Fraction(p).limit_denominator(10**7)
            r = m.eval(e.res, model_completion=True)
            try:
                tv = core.FN[e.f](float(pf))
                if abs(_pyval(r) - tv) <= 1e-9 * (1 + abs(tv)):
                    continue
            except (ValueError, OverflowError):
                continue
            ls = core.point_lemma(e, pf)
            # avoid repeating
            key = (id(e), pf)
            if key in self.seen:
                # repeat point: use a finer one
                pf = fractions.Fraction(p).limit_denominator(10**12)
                key = (id(e), pf)
                if key in self.seen:
                    continue
                ls = core.point_lemma(e, pf)
            self.seen.add(key)
            self.lemmas.setdefault(id(e), []).extend(ls)
            out += ls
        return out

    def block(self, assign):
        ds = []
        for n, v in CTX.vars.items():
            if z3.is_bool(v):
                ds.append(v != z3.BoolVal(bool(assign[n])))
                continue
            if z3.is_int(v):
                ds.append(v != int(assign[n]))
                continue
            lo, hi = CTX.bounds[n]
            w = 1.0 if lo is None or hi is None else max((hi - lo) / 16.0, 1e-6)
            c = float(assign[n])
            ds += [v > rv(c + w * self.rng.random()), v < rv(c - w * self.rng.random())]
        return z3.Or(*ds) if ds else z3.BoolVal(False)

    def sample_point(self):
        a = {}
        for n, v in CTX.vars.items():
            b = CTX.bounds[n]
            if b == 'b':
                a[n] = self.rng.random() < 0.25
            elif b[0] == 'i':
                a[n] = self.rng.randint(b[1], b[2])
            else:
                lo, hi = b
                lo = -8.0 if lo is None else lo
                hi = lo + 16.0 if hi is None else hi
                if n in CTX.intvars:
                    a[n] = self.rng.randint(int(lo), int(hi))
                    continue
                a[n] = round(self.rng.uniform(float(lo), float(hi)), 4) if hi - lo > 1e-2 else self.rng.uniform(float(lo), float(hi))
        return a

    def partial(self, fs, ax, label):
        names = [n for n in CTX.vars]
        reals = [n for n in names if CTX.bounds[n] != 'b' and CTX.bounds[n][0] != 'i']
        for attempt in range(24):
            if self.deadline and time.time() > self.deadline:
                return None
            pt = self.sample_point()
            k = [0, 1, 2, 3][attempt % 4]
            free = set(self.rng.sample(reals, min(k, len(reals))))
            sub = [(CTX.vars[n], rv(pt[n])) for n in reals if n not in free]
            g = [z3.simplify(z3.substitute(f, *sub)) for f in fs + ax]
            if any(z3.is_false(x) for x in g):
                continue
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*g)
            CTX.stats.queries += 1
            t0 = time.time()
            r = s.check()
            CTX.stats.solver_s += time.time() - t0
            if r == z3.sat:
                m = s.model()
                a = dict(pt)
                for n, v in CTX.vars.items():
                    if n in free or n not in reals:
                        a[n] = _pyval(m.eval(v, model_completion=True))
                ok = self.confirm(label, a)
                if ok:
                    return ok
        return None

    # -- replay ------------------------------------------------------------
    def confirm(self, label, assign):
        """run the unpatched code on the assignment (in this process, patches
        off); a fresh-process replay follows before anything is reported."""
        for a in (assign, _nice(assign)):
            f = run_concrete(self.case, a)
            if f:
                return a
        return None


def _nice(a):
    out = {}
    for k, v in a.items():
        out[k] = v if isinstance(v, (bool, int)) else round(v * 64) / 64.0
    return out


def _pyval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return 0.0


# --------------------------------------------------------------- runners
class Case:
    """One bounded configuration of a property."""

    def __init__(self, name, fn, **opts):
        self.name = name
        self.fn = fn
        self.opts = opts

    def integers(self, *names):
        """the same case with integer values (dtype int64) of the named inputs"""
        return Case(self.name + '-integers', self.fn, **dict(self.opts, ints=names))


def run_concrete(case, assign):
    """-> list of failures [(label, info)] on the unpatched code ([] = holds)."""
    from . import patch

    was = patch._active
    over = case.opts.get('np_over')
    if was:
        patch.deactivate()
    try:
        env = ConcEnv(assign)
        env.ints = case.opts.get('ints', ())
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                case.fn(env)
        except Stop:
            return []
        except Exception as e:
            if not env.assumed_ok:
                return []
            if isinstance(e, (Unsupported, Inconclusive)):
                raise
            env.failed.append(('no-exception', f'{type(e).__name__}: {e}'))
        case.last_obs = env.obs
        return env.failed
    finally:
        if was:
            patch.activate(over)


def run_case(case, tier='quick', seed=1):
    """Explore all paths symbolically.  -> result dict."""
    from . import patch

    t0 = time.time()
    CTX.reset()
    CTX.bounds = {}
    CTX.intvars = set()
    opts = dict(case.opts)
    opts['seed'] = seed
    budget = opts.get('budget', 240 if tier == 'quick' else 1500)
    opts['deadline'] = t0 + budget
    pr = Prover(case, opts)
    CTX.max_paths = opts.get('max_paths', 3000)
    res = {'case': case.name, 'status': 'ok', 'notes': []}
    patch.activate(opts.get('np_over'))
    exceptions = 0
    try:
        prefix = []
        todo = [prefix]
        while todo:
            if time.time() > opts['deadline']:
                raise Inconclusive('time budget exhausted')
            if CTX.stats.paths > CTX.max_paths:
                raise Inconclusive('path budget exhausted')
            CTX.prefix = todo.pop()
            CTX.pos = 0
            CTX.path = []
            CTX._memo = {}
            CTX.pending = []
            env = SymEnv(pr)
            env.ints = case.opts.get('ints', ())
            try:
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    case.fn(env)
                CTX.stats.paths += 1
                if len(pr.pathconds) < 64:
                    pr.pathconds.append(list(CTX.path))
            except PathAbort:
                pass
            except (Unsupported, Inconclusive):
                if os.environ.get('SYMX_TB'):
                    traceback.print_exc()
                raise
            except Exception as e:
                # the code raised on a feasible path: is it real?
                exceptions += 1
                CTX.stats.paths += 1
                tb = traceback.format_exc(limit=-4)
                cex = exception_cex(pr, e)
                if cex is None:
                    res['notes'].append(f'exception only in the encoding: {type(e).__name__}: {e}\n{tb}')
                    raise Unsupported(f'{type(e).__name__}: {e}\n{tb}')
                raise Found(cex)
            todo += CTX.pending
        if pr.inconclusive:
            raise Inconclusive('; '.join(pr.inconclusive[:3]))
        missing = [k for k, v in pr.wit.items() if not v]
        if missing:
            raise Inconclusive(f'unreached witness {missing}')
        if not pr.labels:
            raise Inconclusive('no obligation reached (vacuous)')
    except Found as f:
        res['status'] = 'violation'
        res['cex'] = f.cex
    except (Unsupported, Inconclusive) as e:
        res['status'] = 'inconclusive'
        res['notes'].append(f'{type(e).__name__}: {e}')
        if os.environ.get('VERIF_DEBUG'):
            res['notes'].append(traceback.format_exc())
    finally:
        patch.deactivate()
    # encoding validation: same harness, concolic vs real float64 code
    val = {'vectors': 0, 'values': 0, 'mismatch': []}
    vec_viol = None
    if res['status'] != 'violation':
        try:
            if res['status'] == 'ok':
                vec_viol = validate(case, pr, val, n=opts.get('vectors', 2))
            else:
                vec_viol = concrete_only(case, pr, 16)
        except (Unsupported, Inconclusive) as e:
            res['notes'].append(f'validation: {e}')
    if vec_viol is not None:
        res['status'] = 'violation'
        res['cex'] = vec_viol
    elif val['mismatch'] and res['status'] == 'ok':
        res['status'] = 'inconclusive'
        res['notes'].append(f'encoding and implementation disagree: {val["mismatch"][:2]}')
    elif res['status'] == 'ok' and not val['vectors'] and CTX.vars and not opts.get('novectors'):
        res['status'] = 'inconclusive'
        res['notes'].append('no validation vector could be executed')
    st = CTX.stats
    res.update(
        paths=st.paths,
        decisions=st.decisions,
        queries=st.queries + st.feas,
        feasibility_queries=st.feas,
        unsat=st.unsat,
        sat=st.sat,
        unknown=st.unknown,
        trivial=pr.n_trivial,
        solver_s=round(st.solver_s, 3),
        slowest=round(st.slowest, 3),
        engines=dict(st.by_engine),
        labels=pr.labels,
        variables=len(CTX.vars),
        exceptions=exceptions,
        witnesses=pr.wit,
        rejected_models=pr.rejected,
        validation=val,
        samples=pr.samples,
        wall_s=round(time.time() - t0, 2),
        apps=len(CTX.apps),
    )
    return res


def exception_cex(pr, exc):
    fs = CTX.base + CTX.path
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*fs)
    ax, _ = CTX.axioms(fs) if CTX.apps else ([], [])
    s.add(*ax)
    pts = []
    if s.check() == z3.sat:
        pts.append(pr.model_assign(s.model()))
    for _ in range(3):
        pts.append(pr.sample_point())
    for a in pts:
        f = run_concrete(pr.case, a)
        if f:
            return {'label': f[0][0], 'assign': a}
    return None


def _range(nm):
    b = CTX.bounds[nm]
    if b[0] == 'i':
        return b[1], b[2]
    lo, hi = b
    lo = -8.0 if lo is None else float(lo)
    return lo, (lo + 16.0 if hi is None else float(hi))


def feasible_points(pr, n):
    """assignments satisfying the base constraints."""
    out = []
    for k in range(60):
        if len(out) >= n:
            break
        a = pr.sample_point()
        try:
            if all(core.evaluate(b, a, {}) for b in CTX.base) and (
                not pr.pathconds or any(all(core.evaluate(b, a, {}) for b in pc) for pc in pr.pathconds)
            ):
                out.append(a)
        except Exception:
            pass
    # models of explored paths, pushed towards a random point
    pcs = list(pr.pathconds) or [[]]
    pr.rng.shuffle(pcs)
    k = 0
    while len(out) < n and k < 2 * n:
        fs = CTX.base + pcs[k % len(pcs)]
        k += 1
        ax, _ = CTX.axioms(fs) if CTX.apps else ([], [])
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*fs)
        s.add(*ax)
        if s.check() != z3.sat:
            continue
        m = s.model()
        pt = pr.sample_point()
        names = [x for x in CTX.vars if not z3.is_bool(CTX.vars[x])]
        pr.rng.shuffle(names)
        s.set('timeout', 300)
        for nm in names[:24]:
            v = CTX.vars[nm]
            lo, hi = _range(nm)
            w = (hi - lo) / 8
            s.push()
            s.add(v >= rv(pt[nm] - w), v <= rv(pt[nm] + w))
            if s.check() == z3.sat:
                m = s.model()
            else:
                s.pop()
        a = pr.model_assign(m)
        a.update({n: round(a[n]) for n in CTX.intvars if n in a})
        try:
            if all(core.evaluate(b, a, {}) for b in fs):
                out.append(a)
        except Exception:
            pass
    return out


def validate(case, pr, val, n=2):
    """evaluate the encoding at concrete points and compare with the real run."""
    from . import patch

    tries = 0
    pts = []
    hint = case.opts.get('points')
    if hint:
        pts += hint(pr.rng)[:n]
    pts += feasible_points(pr, n * 4)
    for a in pts:
        if val['vectors'] >= n:
            break
        case.last_obs = None
        fails = run_concrete(case, a)
        if fails:
            return {'label': fails[0][0], 'assign': a, 'from': 'validation vector'}
        robs = case.last_obs
        if robs is None:
            continue
        patch.activate(case.opts.get('np_over'))
        try:
            CTX.path, CTX.prefix, CTX.pos, CTX._memo, CTX.pending = [], [], 0, {}, []
            full = dict(a)
            CTX.concolic = full
            env = SymEnv(pr)
            env.ints = case.opts.get('ints', ())
            try:
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    case.fn(env)
            except PathAbort:
                continue
            except (Unsupported, Inconclusive):
                raise
            except Exception as e:
                val['mismatch'].append(f'encoding raised {type(e).__name__}: {e}; real code did not')
                continue
            sobs = env.obs
            memo = {}
            if len(sobs) != len(robs):
                val['mismatch'].append(f'{len(sobs)} vs {len(robs)} observations')
                continue
            for (l1, g), (l2, r) in zip(sobs, robs):
                if l1 != l2 or len(g) != len(r):
                    val['mismatch'].append(f'{l1}/{l2} shapes {len(g)},{len(r)}')
                    break
                for x, y in zip(g, r):
                    xv = numeric(x, full, memo)
                    val['values'] += 1
                    if not _agree(xv, y):
                        val['mismatch'].append(f'{l1}: encoding {xv!r} implementation {y!r}')
            val['vectors'] += 1
        finally:
            CTX.concolic = None
            patch.deactivate()
    return None


def concrete_only(case, pr, n):
    """undecided case: still replay sample points on the real code (not a verdict)."""
    pts = []
    hint = case.opts.get('points')
    if hint:
        pts += hint(pr.rng)
    if CTX.vars:
        pts += feasible_points(pr, n)
    for a in pts or [{}]:
        fails = run_concrete(case, a)
        if fails:
            return {'label': fails[0][0], 'assign': a, 'from': 'replayed sample point of an undecided case'}
    return None


def _agree(x, y, tol=1e-6):
    if isinstance(x, complex) or isinstance(y, complex):
        return abs(complex(x) - complex(y)) <= tol * (1 + abs(complex(y)))
    if x != x or y != y or math.isinf(y) or math.isinf(x):
        return (x != x or math.isinf(x)) and (y != y or math.isinf(y))
    return abs(x - y) <= tol * (1 + abs(y))


def numeric(x, env, memo):
    if isinstance(x, SymC):
        return complex(numeric(x.re, env, memo), numeric(x.im, env, memo))
    if isinstance(x, SymBool):
        return float(bool(core.evaluate(x.b, env, memo)))
    if isinstance(x, Sym):
        if x.bad is True or (isinstance(x.bad, z3.BoolRef) and core.evaluate(x.bad, env, memo)):
            return math.nan
        return float(core.evaluate(x.v, env, memo))
    if isinstance(x, (complex, np.complexfloating)):
        return complex(x)
    return float(x)
