"""Symbolic strings over finite tables, and sets with an arbitrary iteration order.

A `Str` is a string whose content is `vals[idx]`, `idx` being a solver integer
(or None for a known string).  All of them hash alike, so that dictionaries and
sets compare them with `==`, which yields a formula.  `transform` re-executes a
module from its source with its string literals and set displays replaced, so
that every set iterates in the order the harness chose.
"""
from __future__ import annotations

import ast
import collections.abc
import inspect

from .core import CTX, Sym, mkb, z3


class Str(str):
    def __new__(cls, vals, idx=None, name=None):
        r = str.__new__(cls, vals if idx is None else f'<{name or idx}>')
        r.vals = (str(vals),) if idx is None else tuple(vals)
        r.idx = idx
        return r

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = self, o if isinstance(o, Str) else Str(o)
        if a is b:
            return True
        if a.idx is None and b.idx is None:
            return a.vals[0] == b.vals[0]
        if a.idx is None:
            a, b = b, a
        if b.idx is None:
            ks = [i for i, s in enumerate(a.vals) if s == b.vals[0]]
            return mkb(z3.Or([a.idx == i for i in ks])) if ks else False
        ks = [(i, j) for i, s in enumerate(a.vals) for j, t in enumerate(b.vals) if s == t]
        return mkb(z3.Or([z3.And(a.idx == i, b.idx == j) for i, j in ks])) if ks else False

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else mkb(z3.Not(r.b))

    def known(self):
        """the content, forking over the table"""
        if self.idx is None:
            return self.vals[0]
        return self.vals[CTX.concretise(Sym(z3.ToReal(self.idx), False, True))]

    def test(self, f):
        """truth of f(content)"""
        ks = [i for i, s in enumerate(self.vals) if f(s)]
        if len(ks) in (0, len(self.vals)):
            return bool(ks)
        return CTX.decide(z3.Or([self.idx == i for i in ks]))

    def __bool__(self):
        return self.test(bool)

    def __contains__(self, s):
        s = s.known() if isinstance(s, Str) else s
        return self.test(lambda t: s in t)

    def __lt__(self, o):
        o = o.known() if isinstance(o, Str) else o
        return self.test(lambda t: t < o)

    def __gt__(self, o):
        o = o.known() if isinstance(o, Str) else o
        return self.test(lambda t: t > o)

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o


def _plain(x):
    if isinstance(x, Str):
        return x.known()
    if isinstance(x, (tuple, list)):
        return type(x)(_plain(e) for e in x)
    if isinstance(x, dict) or not isinstance(x, collections.abc.Iterable) or isinstance(x, str):
        return x
    return [_plain(e) for e in x]


def _wrap(x):
    if type(x) is str:
        return Str(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_wrap(e) for e in x)
    return x


def _method(n):
    def f(self, *a, **k):
        a = [_plain(q) for q in a]
        k = {q: _plain(v) for q, v in k.items()}
        if self.idx is None:
            return _wrap(getattr(self.vals[0], n)(*a, **k))
        rs = [getattr(s, n)(*a, **k) for s in self.vals]
        if all(isinstance(r, bool) for r in rs):
            it = iter(rs)
            return self.test(lambda s: next(it))
        if all(isinstance(r, str) for r in rs):
            return Str(rs, self.idx, str.__str__(self))
        return _wrap(getattr(self.known(), n)(*a, **k))

    f.__name__ = n
    return f


for _n in (
    'lower upper capitalize title casefold swapcase strip lstrip rstrip replace split rsplit partition rpartition '
    'startswith endswith join removeprefix removesuffix find rfind index rindex count zfill center ljust rjust translate '
    'splitlines expandtabs isupper islower istitle isalpha isdigit isalnum isidentifier isspace isnumeric __add__ __getitem__ __len__ __mul__ __mod__'
).split():
    setattr(Str, _n, _method(_n))
Str.__iter__ = lambda self: iter([Str(c) for c in self.known()])
Str.__radd__ = lambda self, o: Str(_plain(o) + self.known())
Str.__deepcopy__ = Str.__copy__ = lambda self, *a: self


class NSet(collections.abc.MutableSet):
    """a set that iterates in the order number `order()`"""

    order = staticmethod(lambda: 0)  # asked only when a set is iterated

    def __init__(self, xs=()):
        self.e = []
        for x in xs:
            self.add(x)

    def __contains__(self, x):
        bs = []
        for y in self.e:
            b = x is y or x == y
            if b is True:
                return True
            if b is not False:
                bs.append(b.b)
        return CTX.decide(z3.Or(bs)) if bs else False

    def __iter__(self):
        e, n = self.e, len(self.e)
        if not n:
            return iter(())
        k = NSet.order() if n > 1 else 0
        e = e[k % n :] + e[: k % n]
        return iter(e[::-1] if k > 3 else e)

    def __len__(self):
        return len(self.e)

    def add(self, x):
        if x not in self:
            self.e.append(x)

    def discard(self, x):
        self.e = [y for y in self.e if not (y is x or y == x)]

    def union(self, *o):
        r = NSet(self.e)
        for x in o:
            for y in x:
                r.add(y)
        return r

    def update(self, *o):
        self.e = self.union(*o).e

    def copy(self):
        return NSet(self.e)

    def intersection(self, *o):
        return NSet(y for y in self.e if all(y in x for x in o))

    def difference(self, *o):
        return NSet(y for y in self.e if not any(y in x for x in o))

    def issubset(self, o):
        return all(y in o for y in self.e)

    def issuperset(self, o):
        return all(y in self for y in o)


class _T(ast.NodeTransformer):
    def __init__(self, strings):
        self.strings = strings

    def visit_JoinedStr(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(b) for b in n.body]
        d = n.args
        d.defaults = [self.visit(q) for q in d.defaults]
        d.kw_defaults = [q and self.visit(q) for q in d.kw_defaults]
        return n

    def visit_AnnAssign(self, n):
        n.value = n.value and self.visit(n.value)
        return n

    def visit_keyword(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_Constant(self, n):
        if self.strings and type(n.value) is str:
            return ast.copy_location(ast.Call(ast.Name('_Str', ast.Load()), [n], []), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('_NSet', ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('_NSet', ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)


def transform(module, strings):
    """the module's namespace, re-executed from its current source"""
    t = ast.parse(inspect.getsource(module))
    body = []
    for b in t.body:
        if isinstance(b, ast.ImportFrom) and b.level:
            continue  # names already bound in the module
        body.append(_T(strings).visit(b))
    t.body = body
    ast.fix_missing_locations(t)
    ns = dict(module.__dict__)
    ns.update(_Str=Str, _NSet=NSet, set=NSet, frozenset=NSet)
    if strings:
        ns['str'] = Str
    exec(compile(t, module.__file__, 'exec'), ns)
    return ns


def string(env, name, table):
    """a string input from the table"""
    if not env.symbolic:
        return env.choice(name, table)
    if name not in CTX.vars:
        i = z3.Int(name)
        CTX.vars[name] = i
        CTX.bounds[name] = ('i', 0, len(table) - 1)
        CTX.base += [i >= 0, i < len(table)]
    return Str(table, CTX.vars[name], name)


def const(env, s):
    return Str(s) if env.symbolic else s
