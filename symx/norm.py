"""Exact normalisation of real terms to quotients of polynomials, and a sound
linear abstraction of the result.

`ratform` turns an if-then-else free z3 real term into (numerator, denominator)
polynomials with rational coefficients over the term's atoms (variables, function
applications, opaque sub-terms).  `linear_query` replaces every monomial by a
fresh solver variable confined to the interval its atoms allow; the solver then
decides the resulting linear problem.
"""
from __future__ import annotations

import math
from fractions import Fraction

from .core import CTX, z3

LIMIT = 6000


class TooBig(Exception):
    pass


def _mulmono(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = 1 if k < 0 else d.get(k, 0) + e  # indicators are idempotent
    return tuple(sorted(d.items()))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 20:
        raise TooBig
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mulmono(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


def const(c):
    return {(): Fraction(c)} if c else {}


class Norm:
    def __init__(self):
        self.atoms = {}  # id -> z3 term
        self.memo = {}
        self.dens = []
        self.facs = []  # denominators' factors (polynomials)
        self.fkey = {}

    def atom(self, t):
        self.atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}

    def indicator(self, c):
        """0/1 polynomial of a condition built from Boolean inputs only, else None"""
        if z3.is_true(c):
            return const(1)
        if z3.is_false(c):
            return {}
        k = c.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and not c.children():
            key = -c.get_id() - 1
            self.atoms[key] = z3.If(c, z3.RealVal(1), z3.RealVal(0))
            return {((key, 1),): Fraction(1)}
        if k == z3.Z3_OP_NOT:
            p = self.indicator(c.children()[0])
            return None if p is None else padd(const(1), p, -1)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = const(1)
            for a in c.children():
                p = self.indicator(a)
                if p is None:
                    return None
                r = pmul(r, p if k == z3.Z3_OP_AND else padd(const(1), p, -1))
            return r if k == z3.Z3_OP_AND else padd(const(1), r, -1)
        return None

    def rat(self, t):
        """-> (num, den) polys"""
        p, q = self.ratf(t)
        return p, self.expand(q)

    def expand(self, q):
        r = const(1)
        for k, e in q:
            for _ in range(e):
                r = pmul(r, self.facs[k])
        return r

    def factor(self, u):
        """non-constant polynomial -> (leading coefficient, factored form)"""
        c = u[min(u)]
        u = {m: x / c for m, x in u.items()}
        d, out = _content(u), []
        u = _strip(u, d)
        for i, e in d.items():
            out.append((self.fac({((i, 1),): Fraction(1)}), e))
        if not (len(u) == 1 and () in u):
            out.append((self.fac(u), 1))
        return c, tuple(sorted(out))

    def fac(self, u):
        k = tuple(sorted(u.items()))
        if k not in self.fkey:
            self.fkey[k] = len(self.facs)
            self.facs.append(u)
        return self.fkey[k]

    @staticmethod
    def lcm(q, v):
        """-> lcm, the factors missing in q, the factors missing in v"""
        a, b = dict(q), dict(v)
        l = {k: max(a.get(k, 0), b.get(k, 0)) for k in {*a, *b}}
        miss = lambda d: tuple(sorted((k, e - d.get(k, 0)) for k, e in l.items() if e > d.get(k, 0)))
        return tuple(sorted(l.items())), miss(a), miss(b)

    def common(self, a, b):
        """numerators of two quotients over their common denominator"""
        (p, q), (u, v) = a, b
        _, mq, mv = self.lcm(q, v)
        return pmul(p, self.expand(mq)) if mq else p, pmul(u, self.expand(mv)) if mv else u

    def ratf(self, t):
        """-> (numerator polynomial, factored denominator)"""
        stack = [t]
        memo = self.memo
        while stack:
            n = stack[-1]
            i = n.get_id()
            if i in memo:
                stack.pop()
                continue
            k = n.decl().kind()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                ch = n.children()
                todo = [c for c in ch if c.get_id() not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                memo[i] = self.op(k, [memo[c.get_id()] for c in ch], n)
            elif k == z3.Z3_OP_ITE and self.indicator(n.children()[0]) is not None:
                ch = n.children()[1:]
                todo = [c for c in ch if c.get_id() not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                a, b = (memo[c.get_id()] for c in ch)
                one = const(1)
                if a[1] or b[1]:
                    memo[i] = (self.atom(n), ())
                else:
                    w = self.indicator(n.children()[0])
                    memo[i] = (padd(pmul(w, a[0]), pmul(padd(one, w, -1), b[0])), ())
            elif z3.is_rational_value(n):
                memo[i] = (const(n.as_fraction()), ())
            elif z3.is_int_value(n):
                memo[i] = (const(n.as_long()), ())
            else:
                memo[i] = (self.atom(n), ())
            stack.pop()
        return memo[t.get_id()]

    def op(self, k, a, n):
        if k == z3.Z3_OP_UMINUS:
            return ({m: -c for m, c in a[0][0].items()}, a[0][1])
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = a[0]
            for b in a[1:]:
                r = self.add(r, b, 1 if k == z3.Z3_OP_ADD else -1)
            return r
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for b in a[1:]:
                r = (pmul(r[0], b[0]), self.dmul(r[1], b[1]))
            return r
        if k == z3.Z3_OP_DIV:
            (p, q), (u, v) = a
            if not u:
                return (self.atom(n), ())
            if len(u) == 1 and () in u:
                return self.cancel({m: c / u[()] for m, c in p.items()}, q, v)
            self.dens.append(u)
            c, f = self.factor(u)
            return self.cancel({m: x / c for m, x in p.items()}, self.dmul(q, f), v)
        if k == z3.Z3_OP_POWER:
            (p, q), (u, v) = a
            if not v and len(u) <= 1:
                e = u.get((), Fraction(0))
                if set(u) <= {()} and e.denominator == 1 and 0 <= e <= 8:
                    r = (const(1), ())
                    for _ in range(int(e)):
                        r = (pmul(r[0], p), self.dmul(r[1], q))
                    return r
            return (self.atom(n), ())

    def cancel(self, p, q, v):
        """p * v / q with common factors removed (v, q factored)"""
        d, rest = dict(q), []
        for k, e in v:
            g = min(e, d.get(k, 0))
            if g:
                d[k] -= g
            if e > g:
                rest.append((k, e - g))
        return pmul(p, self.expand(rest)) if rest else p, tuple(sorted((k, e) for k, e in d.items() if e))

    def dmul(self, a, b):
        if not a or not b:
            return a or b
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        return tuple(sorted(d.items()))

    def add(self, a, b, s):
        if a[1] == b[1]:
            return (padd(a[0], b[0], s), a[1])
        l, mq, mv = self.lcm(a[1], b[1])
        p = pmul(a[0], self.expand(mq)) if mq else a[0]
        u = pmul(b[0], self.expand(mv)) if mv else b[0]
        return (padd(p, u, s), l)

    # ---------------------------------------------------------------- intervals
    def iv_atom(self, i):
        key = ('iv', i)
        if key in self.memo:
            return self.memo[key]
        r = iv(self.atoms[i])
        self.memo[key] = r
        return r

    def iv_mono(self, m):
        r = (1.0, 1.0)
        for i, e in m:
            b = self.iv_atom(i)
            if b is None:
                return None
            r = _ivmul(r, _ivpow(b, e))
        return r


def _w(lo, hi):
    """outward rounding"""
    return (lo - abs(lo) * 1e-14 - 1e-300, hi + abs(hi) * 1e-14 + 1e-300)


def _ivmul(a, b):
    c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return _w(min(c), max(c))


def _ivpow(b, e):
    r = b
    for _ in range(e - 1):
        r = _ivmul(r, b)
    if e % 2 == 0:
        lo = 0.0 if b[0] <= 0 <= b[1] else min(abs(b[0]), abs(b[1])) ** e
        r = _w(lo, max(abs(b[0]), abs(b[1])) ** e)
        r = (max(r[0], 0.0), r[1])
    return r


_ivmemo = {}


def iv(t):
    """interval of a z3 real term from the declared input ranges (or None)."""
    k = t.decl().kind()
    if z3.is_rational_value(t):
        f = float(t.as_fraction())
        return _w(f, f)
    if z3.is_int_value(t):
        f = float(t.as_long())
        return (f, f)
    if k == z3.Z3_OP_UNINTERPRETED:
        e = CTX.appres.get(t.get_id())
        if e is None:
            b = CTX.bounds.get(t.decl().name())
            if b is None or b == 'b':
                return None
            if b[0] == 'i':
                return (float(b[1]), float(b[2]))
            if b[0] is None or b[1] is None:
                return None
            return (float(b[0]), float(b[1]))
        a = iv(e.arg)
        f = e.f
        if f in ('sin', 'cos'):
            return (-1.0, 1.0)
        if f == 'arctan':
            return (-1.5708, 1.5708)
        if f == 'arccos':
            return (0.0, 3.1416)
        if a is None:
            return None
        try:
            if f == 'exp':
                return _w(math.exp(a[0]) * (1 - 1e-12), math.exp(a[1]) * (1 + 1e-12))
            if f == 'log':
                if a[0] <= 0:
                    return None
                return (math.log(a[0]) - 1e-9, math.log(a[1]) + 1e-9)
            if f == 'sqrt':
                if a[0] < 0:
                    return None
                return _w(math.sqrt(a[0]), math.sqrt(a[1]))
        except OverflowError:
            return None
        return None
    ch = t.children()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
        vs = [iv(c) for c in ch]
        if any(v is None for v in vs):
            return None
        r = vs[0]
        for v in vs[1:]:
            if k == z3.Z3_OP_ADD:
                r = _w(r[0] + v[0], r[1] + v[1])
            elif k == z3.Z3_OP_SUB:
                r = _w(r[0] - v[1], r[1] - v[0])
            else:
                r = _ivmul(r, v)
        return r
    if k == z3.Z3_OP_UMINUS:
        v = iv(ch[0])
        return None if v is None else (-v[1], -v[0])
    if k == z3.Z3_OP_DIV:
        a, b = iv(ch[0]), iv(ch[1])
        if a is None or b is None or b[0] <= 0 <= b[1]:
            return None
        return _ivmul(a, _w(1 / b[1], 1 / b[0]))
    if k == z3.Z3_OP_ITE:
        a, b = iv(ch[1]), iv(ch[2])
        if a is None or b is None:
            return None
        return (min(a[0], b[0]), max(a[1], b[1]))
    if k == z3.Z3_OP_TO_REAL:
        return iv(ch[0])
    if k == z3.Z3_OP_TO_INT:
        v = iv(ch[0])
        return None if v is None else (math.floor(v[0]), math.floor(v[1]))
    return None


# ---------------------------------------------------------------- obligations
def _same_constants(x, y, nm, p, q):
    """the numerator of x - y without the monomials whose coefficients in x and in y
    agree to 1e-14, as after folding constants in another order (rounding)."""
    try:
        (px, qx), (py, qy) = nm.rat(x), nm.rat(y)
        if qx != qy:
            px, py, qx = pmul(px, qy), pmul(py, qx), pmul(qx, qy)
    except TooBig:
        return p, q
    d = {}
    for m in px.keys() | py.keys():
        a, b = px.get(m, 0), py.get(m, 0)
        if abs(a - b) > Fraction(1, 10**14) * abs(b):
            d[m] = a - b
    return (d, qx) if len(d) < len(p) else (p, q)


def close_query(x, y, rtol, atol):
    """|x - y| <= atol + rtol*|y| as a solver problem on the normal form.

    -> list of z3 formulas whose unsatisfiability implies the claim provided the
    returned denominators are non-zero, plus these denominators (z3 terms);
    None when no useful normal form exists."""
    nm = Norm()
    try:
        p, q = nm.rat(x - y)
    except TooBig:
        return None
    dens = [to_z3(d, nm) for d in nm.dens]
    if not p:
        return [z3.BoolVal(False)], dens
    p, q = _same_constants(x, y, nm, p, q)
    if not p:
        return [z3.BoolVal(False)], dens
    # bound |p| / |q| : numerator by monomial abstraction, denominator's interval
    dn = (1.0, 1.0)
    if not (len(q) == 1 and () in q):
        dn = _polyiv(q, nm)
        if dn is None or dn[0] <= 0 <= dn[1]:
            # bound factor by factor
            dn = (1.0, 1.0)
            for d in nm.dens:
                b = _polyiv(d, nm)
                if b is None or b[0] <= 0 <= b[1]:
                    return None
                dn = None
                break
            if dn is None:
                return None
        dmin = min(abs(dn[0]), abs(dn[1]))
    else:
        dmin = abs(float(q[()])) * (1 - 1e-12)
    cons, tot = [], []
    for j, (m, c) in enumerate(p.items()):
        if not m:
            tot.append(_rv(c))
            continue
        b = nm.iv_mono(m)
        if b is None or not (math.isfinite(b[0]) and math.isfinite(b[1])):
            return None
        v = z3.Real(f'mono!{j}')
        cons += [v >= _rv(Fraction(b[0])), v <= _rv(Fraction(b[1]))]
        tot.append(_rv(c) * v)
    s = z3.Sum(*tot) if len(tot) > 1 else tot[0]
    t = _rv(Fraction(repr(float(atol))) * Fraction(dmin))
    return cons + [z3.Or(s > t, s < -t)], dens


def _polyiv(p, nm):
    lo = hi = 0.0
    for m, c in p.items():
        b = nm.iv_mono(m)
        if b is None:
            return None
        c = float(c)
        u = _ivmul(b, _w(c, c))
        lo, hi = _w(lo + u[0], hi + u[1])
    return (lo, hi)


def to_z3(p, nm):
    ts = []
    for m, c in p.items():
        t = _rv(c)
        for i, e in m:
            for _ in range(e):
                t = t * nm.atoms[i]
        ts.append(t)
    return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))


def _rv(f):
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def find_cond(t, seen=None):
    """an if-then-else condition in t that contains no if-then-else itself."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        n = stack.pop()
        i = n.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = n.children()
        if n.decl().kind() == z3.Z3_OP_ITE:
            c = ch[0]
            inner = find_cond(c)
            return inner if inner is not None else atomic(c)
        stack.extend(ch)
    return None


def context(t, memo=None):
    """use the condition of an if-then-else (a Boolean input) inside its branches"""
    memo = {} if memo is None else memo
    key = t.get_id()
    if key in memo:
        return memo[key]
    ch = t.children()
    if not ch:
        r = t
    elif t.decl().kind() == z3.Z3_OP_ITE and z3.is_real(t):
        c, a, b = ch
        lit, pos = (c.children()[0], False) if z3.is_not(c) else (c, True)
        if lit.decl().kind() == z3.Z3_OP_UNINTERPRETED and not lit.children():
            a = z3.simplify(z3.substitute(a, (lit, z3.BoolVal(pos))))
            b = z3.simplify(z3.substitute(b, (lit, z3.BoolVal(not pos))))
        r = z3.If(c, context(a, memo), context(b, memo))
    elif z3.is_real(t):
        r = t.decl()(*[context(c, memo) if z3.is_real(c) else c for c in ch])
    else:
        r = t
    memo[key] = r
    memo[('keep', key)] = t
    return r


def boolify(t):
    """replace comparisons that depend on at most three Boolean inputs only by
    the equivalent Boolean formula"""
    seen, stack, sub = set(), [t], []
    while stack:
        n = stack.pop()
        if n.get_id() in seen:
            continue
        seen.add(n.get_id())
        if z3.is_bool(n) and n.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and not z3.is_bool(n.children()[0]):
            vs = _leaves(n, 3)
            if vs is not None:
                sub.append((n, _table(n, vs)))
                continue
        stack.extend(n.children())
    return z3.simplify(z3.substitute(t, *sub)) if sub else t


def _leaves(n, limit):
    seen, stack, vs = set(), [n], []
    while stack:
        c = stack.pop()
        if c.get_id() in seen:
            continue
        seen.add(c.get_id())
        if len(seen) > 60:
            return None
        if c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not z3.is_bool(c) or c.children() or len(vs) == limit:
                return None
            vs.append(c)
        stack.extend(c.children())
    return vs


def _table(n, vs):
    if not vs:
        return z3.simplify(n)
    b = vs[0]
    t, f = (_table(z3.simplify(z3.substitute(n, (b, z3.BoolVal(v)))), vs[1:]) for v in (True, False))
    if t.eq(f):
        return t
    return z3.simplify(z3.Or(z3.And(b, t), z3.And(z3.Not(b), f)))


def boolean(c):
    """condition built from Boolean inputs only"""
    stack = [c]
    while stack:
        n = stack.pop()
        k = n.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            stack.extend(n.children())
        elif k != z3.Z3_OP_UNINTERPRETED or n.children():
            return False
    return True


def find_arith(t, seen=None):
    """an if-then-else condition in t comparing numbers, with no other such inside."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        n = stack.pop()
        i = n.get_id()
        if i in seen:
            continue
        seen.add(i)
        ch = n.children()
        if n.decl().kind() == z3.Z3_OP_ITE and not boolean(ch[0]):
            inner = find_arith(ch[0])
            return inner if inner is not None else atomic_arith(ch[0])
        stack.extend(ch)
    return None


def atomic_arith(c):
    while True:
        k = c.decl().kind()
        ch = c.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0])):
            c = next(a for a in ch if not boolean(a))
        else:
            return c


def atomic(c):
    while True:
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            c = c.children()[0]
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(c.children()[0]):
            c = c.children()[0]
        else:
            return c


# ------------------------------------------------------- congruence of comparisons
def literal(c):
    """comparison -> (e, positive) meaning e <= 0 (or its negation), else None"""
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return None
    a, b = c.children()
    if k == z3.Z3_OP_LE:
        return a - b, True
    if k == z3.Z3_OP_GE:
        return b - a, True
    if k == z3.Z3_OP_LT:  # a < b  <->  not b - a <= 0
        return b - a, False
    return a - b, False


def comparisons(ts):
    """if-then-else free comparisons occurring in the terms"""
    seen, out = set(), {}
    stack = list(ts)
    while stack:
        n = stack.pop()
        if n.get_id() in seen:
            continue
        seen.add(n.get_id())
        if z3.is_bool(n) and literal(n) is not None and not has_ite(n):
            out[n.get_id()] = n
        stack.extend(n.children())
    return list(out.values())


def has_ite(t):
    seen, stack = set(), [t]
    while stack:
        n = stack.pop()
        if n.get_id() in seen:
            continue
        seen.add(n.get_id())
        if n.decl().kind() == z3.Z3_OP_ITE:
            return True
        stack.extend(n.children())
    return False


def same_comparisons(c, ts):
    """comparisons in ts equivalent to c by exact rational algebra
    -> ([(comparison, same sign)], denominators that must be non-zero)"""
    lit = literal(c)
    if lit is None or has_ite(c):
        return [], []
    others = [d for d in comparisons(ts) if not d.eq(c)]
    if not others or len(others) > 40:
        return [], []
    nm = Norm()
    out = []
    try:
        p = nm.ratf(lit[0])
        for d in others:
            e, pos = literal(d)
            if not padd(*nm.common(p, nm.ratf(e)), -1):
                out.append((d, pos == lit[1]))
    except TooBig:
        pass
    if not out:
        return [], []
    dens = {}
    for d in nm.dens:
        dens[tuple(sorted(d.items()))] = d
    return out, [to_z3(d, nm) for d in dens.values()]


def root_of(arg, known):
    """a known square root application and a positive factor f (z3 term or None)
    with sqrt(arg) = f * known, by exact rational algebra (radicands that differ by
    an even monomial of non-negative atoms only); None if there is none"""
    nm = Norm()
    try:
        p = nm.ratf(arg)
        for e in known:
            r = _monomial_ratio(*nm.common(p, nm.ratf(e.arg)))
            if r is None:
                continue
            c, mono = r
            f = _root(c)
            if f is None or any(x % 2 for _, x in mono):
                continue
            t = None if f == 1 else _rv(f)
            ok = True
            for i, x in mono:
                iv_ = nm.iv_atom(i)
                if iv_ is None or iv_[0] < 0:
                    ok = False
                    break
                for _ in range(abs(x) // 2):
                    g = nm.atoms[i] if x > 0 else 1 / nm.atoms[i]
                    t = g if t is None else t * g
            if ok:
                return e, t
    except TooBig:
        import os
        if os.environ.get('SYMX_TB'): print('TooBig root')
    return None


def _root(c):
    n, d = math.isqrt(c.numerator) if c > 0 else 0, math.isqrt(c.denominator)
    return Fraction(n, d) if c > 0 and n * n == c.numerator and d * d == c.denominator else None


def _monomial_ratio(a, b):
    """a == c * mono * b for polynomials a, b -> (c, mono) or None"""
    if not a or len(a) != len(b):
        return None
    ma, mb = _content(a), _content(b)
    ra, rb = _strip(a, ma), _strip(b, mb)
    k = min(ra)
    if k not in rb:
        return None
    c = ra[k] / rb[k]
    if any(m not in rb or rb[m] * c != x for m, x in ra.items()):
        return None
    d = dict(ma)
    for i, e in mb.items():
        d[i] = d.get(i, 0) - e
    return c, [(i, e) for i, e in d.items() if e]


def _content(p):
    it = iter(p)
    d = dict(next(it))
    for m in it:
        m = dict(m)
        d = {i: min(e, m[i]) for i, e in d.items() if i in m}
    return d


def _strip(p, content):
    return {tuple((i, e - content.get(i, 0)) for i, e in m if e - content.get(i, 0)): c for m, c in p.items()}


def settle(t, holds):
    """replace if-then-elses whose condition the path decides; `holds(c)` -> bool"""
    for _ in range(60):
        done = True
        for c in conditions(t):
            v = True if holds(c) else False if holds(z3.Not(c)) else None
            if v is not None:
                t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(v))))
                done = False
                break
        if done:
            break
    return t


def conditions(t):
    """innermost if-then-else conditions (atoms) of t"""
    seen, out = set(), {}
    stack = [t]
    while stack:
        n = stack.pop()
        if n.get_id() in seen:
            continue
        seen.add(n.get_id())
        if n.decl().kind() == z3.Z3_OP_ITE:
            c = atomic(n.children()[0])
            if not has_ite(c):
                out[c.get_id()] = c
        stack.extend(n.children())
    return list(out.values())
