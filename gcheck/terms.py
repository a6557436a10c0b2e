"""Hash-consed scalar terms: polynomials with rational coefficients over atoms.

A term is the abstract value of one number: one entry of a tensor, a size, an
index.  Atoms are symbols, entries of unknown tensors, function applications,
indicators of conditions ([c], 0 or 1), and binders (sums, order statistics...)
over closed lambdas.  The constructors keep a normal form; two terms are proved
equal when they are the same object.
"""
from fractions import Fraction
import hashlib
import itertools
import math
import random

_MASK = (1 << 61) - 1


def _h(*parts):
    d = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big")


class TermError(Exception):
    pass


class TooBig(Exception):
    """Normal form grew past the bound; reported as 'analysis incomplete'."""


class Atom:
    __slots__ = ("kind", "args", "id", "sh", "is_int", "lvl", "hasiv", "hasind", "_free")

    def __repr__(self):
        return show_atom(self)


class Term:
    """Sum of coef * product(atom ** exp)."""
    __slots__ = ("poly", "id", "_sh", "_flags", "_free")

    def __repr__(self):
        return show(self)

    # arithmetic ----------------------------------------------------------
    def __add__(self, o):
        return add(self, tt(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, scale(tt(o), -1))

    def __rsub__(self, o):
        return add(tt(o), scale(self, -1))

    def __mul__(self, o):
        return mul(self, tt(o))

    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, -1)

    def __truediv__(self, o):
        return mul(self, inv(tt(o)))

    def __rtruediv__(self, o):
        return mul(tt(o), inv(self))

    def __pow__(self, n):
        return power(self, n)

    @property
    def const(self):
        """Rational value, or None."""
        p = self.poly
        if not p:
            return 0
        if len(p) == 1 and not p[0][0]:
            return p[0][1]
        return None

    @property
    def sh(self):
        s = self._sh
        if s is None:
            s = self._sh = sum(_h("m", c.numerator if isinstance(c, Fraction) else c,
                                  c.denominator if isinstance(c, Fraction) else 1,
                                  sum(_h(a.sh, e) for a, e in m) & _MASK) for m, c in self.poly) & _MASK
        return s

    @property
    def flags(self):
        f = self._flags
        if f is None:
            f = self._flags = (
                all((c.denominator == 1 if isinstance(c, Fraction) else True) and
                    all(a.is_int and e > 0 for a, e in m) for m, c in self.poly),
                max((a.lvl for m, _ in self.poly for a, _ in m), default=0),
                any(a.hasiv for m, _ in self.poly for a, _ in m),
                any(a.hasind for m, _ in self.poly for a, _ in m))
        return f

    @property
    def is_int(self):
        return self.flags[0]

    @property
    def lvl(self):
        return self.flags[1]


class Lam:
    """Closed function of index variables: sizes and a body over 'bv' atoms."""
    __slots__ = ("sizes", "levels", "body", "id", "sh")

    def __repr__(self):
        return "\\%s. %r" % (",".join("b%d<%r" % (l, s) for l, s in zip(self.levels, self.sizes)), self.body)


_atoms = {}
_terms = {}
_lams = {}
_ids = itertools.count(1)
LIMIT = 60000


def _arg_lvl(x):
    if isinstance(x, Term):
        return x.lvl
    if isinstance(x, Lam):
        return max(max(x.levels, default=0), x.body.lvl)
    if isinstance(x, tuple):
        return max((_arg_lvl(y) for y in x), default=0)
    return 0


def _arg_iv(x):
    if isinstance(x, Term):
        return x.flags[2]
    if isinstance(x, Lam):
        return x.body.flags[2] or any(s.flags[2] for s in x.sizes)
    if isinstance(x, tuple):
        return any(_arg_iv(y) for y in x)
    return False


def _arg_sh(x):
    if isinstance(x, (Term, Lam)):
        return x.sh
    if isinstance(x, tuple):
        return _h("t", *[_arg_sh(y) for y in x])
    if hasattr(x, "sh"):
        return x.sh
    return _h("c", repr(x))


INT_KINDS = {"fd", "md", "ind", "bv", "iv", "argos", "iperm", "nth", "rank", "count"}


def atom(kind, *args, is_int=None):
    k = (kind, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args = kind, args
        a.id = next(_ids)
        a._free = None
        if kind == "iv":
            a.sh = _h("iv", args[0])
            a.hasiv = True
            a.lvl = 0
        elif kind == "bv":
            a.sh = _h("bv", args[0])
            a.hasiv = False
            a.lvl = args[0]
        else:
            a.sh = _h(kind, *[_arg_sh(x) for x in args])
            a.hasiv = any(_arg_iv(x) for x in args)
            a.lvl = max((_arg_lvl(x) for x in args), default=0)
        a.hasind = kind == "ind"
        if is_int is None:
            is_int = kind in INT_KINDS or (kind == "sym" and args[1].is_int) or (kind == "elem" and args[0].is_int)
        a.is_int = is_int
        _atoms[k] = a
    return a


def _mk(d):
    """Term from dict mono -> coef (already reduced)."""
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > LIMIT:
        raise TooBig("term with %d monomials" % len(items))
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    key = tuple(items)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.poly = key
        t.id = next(_ids)
        t._sh = None
        t._flags = None
        t._free = None
        _terms[key] = t
    return t


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    if isinstance(c, float):
        c = Fraction(repr(c)) if math.isfinite(c) else c
    if isinstance(c, float):
        if c != c:
            return of_atom(atom("sym", "nan", SymInfo(False)))
        return of_atom(INF) if c > 0 else -of_atom(INF)
    if isinstance(c, bool):
        c = int(c)
    return _mk({(): _norm(c)})


class SymInfo:
    """Facts about a symbol; compared by value so that equal symbols intern."""
    __slots__ = ("is_int", "lo", "note")

    def __init__(self, is_int, lo=None, note=""):
        self.is_int, self.lo, self.note = is_int, lo, note

    def _k(self):
        return (self.is_int, self.lo, self.note)

    def __eq__(self, o):
        return isinstance(o, SymInfo) and self._k() == o._k()

    def __hash__(self):
        return hash(self._k())

    def __repr__(self):
        return "SymInfo%r" % (self._k(),)


def of_atom(a, e=1):
    return _mk({((a, e),): 1})


def sym(name, is_int=False, lo=None, note=""):
    return of_atom(atom("sym", name, SymInfo(is_int, lo, note)))


def size(name):
    """A size: an arbitrary positive integer."""
    return sym(name, True, 1)


def tt(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, (int, Fraction, float, bool)):
        return const(x)
    if hasattr(x, "term"):
        return x.term
    raise TermError("not a number: %r" % (x,))


INF = atom("sym", "inf", SymInfo(False))
PI = of_atom(atom("sym", "pi", SymInfo(False)))
ZERO = const(0)
ONE = const(1)
_iv_count = itertools.count(1)
_iv_size = {}


def fresh(size_, hint="i"):
    """A fresh index variable ranging over 0 <= v < size."""
    a = atom("iv", next(_iv_count), hint)
    _iv_size[a] = tt(size_)
    return of_atom(a)


def iv_size(a):
    return _iv_size[a]


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if not a.poly:
        return b
    if not b.poly:
        return a
    d = dict(a.poly)
    for m, c in b.poly:
        c2 = d.get(m, 0) + c
        if c2:
            d[m] = _norm(c2)
        else:
            d.pop(m, None)
    t = _mk(d)
    return _recombine(t)


def addmany(ts):
    d = {}
    for t in ts:
        for m, c in t.poly:
            c2 = d.get(m, 0) + c
            if c2:
                d[m] = _norm(c2)
            else:
                d.pop(m, None)
    return _recombine(_mk(d))


def scale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return _mk({m: _norm(k * c) for m, k in a.poly})


def _recombine(t):
    """D * (y div D) + (y mod D)  ->  y."""
    mds = None
    for m, c in t.poly:
        for a, e in m:
            if a.kind == "md" and e == 1:
                mds = mds or []
                mds.append((m, c, a))
    if not mds:
        return t
    d = dict(t.poly)
    for m, c, a in mds:
        if m not in d or d[m] != c:
            continue
        y, D = a.args
        fd = atom("fd", y, D)
        # coefficient monomial of md: rest
        rest = tuple((x, e) for x, e in m if x is not a)
        want = mul(mul(_mk({rest: c}), D), of_atom(fd))
        if len(want.poly) >= 1 and all(d.get(mm) == cc for mm, cc in want.poly):
            for mm, cc in want.poly:
                del d[mm]
            del d[m]
            r = add(_mk(d), mul(_mk({rest: c}), y))
            return r
    return t


def _merge(m1, m2):
    """Product of monomials; returns (mono, needs_reduction)."""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    out = []
    i = j = 0
    red = False
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            if a.kind == "sum" and e + f != 0:
                pass
            if e + f:
                out.append((a, e + f))
                red = True
            i += 1
            j += 1
        elif a.id < b.id:
            out.append((a, e))
            i += 1
        else:
            out.append((b, f))
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    if not red:
        red = sum(1 for a, _ in out if a.kind == "ind") > 1
    return tuple(out), red


FOLD = 20000


def fold(t):
    """The same value as a single opaque factor (its definition is kept, its normal form is not)."""
    return of_atom(atom("let", t, is_int=t.is_int))


def mul(a, b):
    pa, pb = a.poly, b.poly
    if not pa or not pb:
        return ZERO
    if a.const is not None:
        return scale(b, a.const)
    if b.const is not None:
        return scale(a, b.const)
    if len(pa) * len(pb) > FOLD:
        return mul(fold(a) if len(pa) > 60 else a, fold(b) if len(pb) > 60 else b)
    d = {}
    extra = []
    for m1, c1 in pa:
        for m2, c2 in pb:
            m, red = _merge(m1, m2)
            c = c1 * c2
            if red:
                r = _reduce(m)
                if r is not None:
                    for mm, cc in r.poly:
                        v = d.get(mm, 0) + cc * c
                        if v:
                            d[mm] = _norm(v)
                        else:
                            d.pop(mm, None)
                    continue
            v = d.get(m, 0) + c
            if v:
                d[m] = _norm(v)
            else:
                d.pop(m, None)
    return _recombine(_mk(d))


def power(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(power(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


# rules that rewrite a power of an atom: kind -> fn(atom, exp) -> Term or None
def _rule_pow(a, e):
    k = a.kind
    if k == "ind":
        if e > 1:
            return of_atom(a)
        return None
    if k == "elem":
        leaf = a.args[0]
        if leaf.sign and (e >= 2 or e < 0):
            return of_atom(a) if e % 2 else ONE
        if leaf.unit_first and e >= 2:
            r = leaf.unit_square(a)
            if r is not None:
                return mul(r, of_atom(a, e - 2) if e > 2 else ONE)
        return None
    if k == "sin" and e >= 2:
        c = of_atom(atom("cos", *a.args))
        return mul(ONE - c * c, of_atom(a, e - 2) if e > 2 else ONE)
    if k == "sqrt":
        if e >= 2:
            return mul(a.args[0], of_atom(a, e - 2) if e > 2 else ONE)
        if e <= -2:
            return mul(inv(a.args[0]), of_atom(a, e + 2) if e < -2 else ONE)
    if k == "abs":
        if e >= 2:
            x = a.args[0]
            return mul(x * x, of_atom(a, e - 2) if e > 2 else ONE)
        if e <= -2:
            x = inv(a.args[0])
            return mul(x * x, of_atom(a, e + 2) if e < -2 else ONE)
    if k == "sgn" and (e >= 2 or e < 0):
        return of_atom(a) if e % 2 else ONE
    if k == "poly" and e > 0:
        return mul(a.args[0], of_atom(a, e - 1) if e > 1 else ONE)
    return None


def _reduce(m):
    """Rewrite monomial m by the power and indicator rules; None if normal."""
    for n, (a, e) in enumerate(m):
        if e != 1:
            r = _rule_pow(a, e)
            if r is not None:
                rest = _mk({m[:n] + m[n + 1:]: 1}) if len(m) > 1 else ONE
                return mul(rest, r)
    inds = [a for a, _ in m if a.kind == "ind"]
    if len(inds) > 1:
        # [p = 0] [p + c = 0] = 0 ; [p<0][p=0] = 0 ; substitute p = const inside others
        for i, x in enumerate(inds):
            for y in inds[i + 1:]:
                if _exclusive(x, y):
                    return ZERO
                k = _implies(x, y)
                if k:
                    drop = y if k == 1 else x
                    return _reduce_or(tuple(z for z in m if z[0] is not drop))
    return None


def _reduce_or(m):
    r = _reduce(m)
    return r if r is not None else _mk({m: 1})


def _exclusive(x, y):
    if x.args[0] == "eq" and y.args[0] == "eq":
        p, q = x.args[1], y.args[1]
        d1 = (p - q).const
        if d1:
            return True
        d1 = (p + q).const
        if d1:
            return True
        return False
    if x.args[0] == "lt" and y.args[0] == "lt":
        # p < 0 and q < 0 with p + q >= 0 constant
        s = (x.args[1] + y.args[1]).const
        if s is not None and s >= 0:
            return True
        if x.args[1].is_int and y.args[1].is_int and s is not None and s > -2:
            return True
        return False
    if x.args[0] == "streq" and y.args[0] == "streq":
        return x.args[1] == y.args[1] and x.args[2] != y.args[2]
    e, l = (x, y) if x.args[0] == "eq" else (y, x)
    if e.args[0] == "eq" and l.args[0] == "lt":
        for s in (1, -1):
            d = (l.args[1] + scale(e.args[1], s)).const
            if d is not None and d >= 0:
                return True
    return False


def _implies(x, y):
    """1 if [x] implies [y], 2 if [y] implies [x], else 0."""
    if x.args[0] == "lt" and y.args[0] == "lt":
        d = (x.args[1] - y.args[1]).const
        if d is not None:
            return 1 if d >= 0 else 2
    if x.args[0] == "eq" and y.args[0] == "lt":
        for s in (1, -1):
            d = (y.args[1] + scale(x.args[1], s)).const
            if d is not None and d < 0:
                return 1
    if y.args[0] == "eq" and x.args[0] == "lt":
        for s in (1, -1):
            d = (x.args[1] + scale(y.args[1], s)).const
            if d is not None and d < 0:
                return 2
    return 0


def inv(a):
    c = a.const
    if c is not None:
        if c == 0:
            return of_atom(INF)
        return const(Fraction(1) / c)
    if len(a.poly) == 1:
        (m, c), = a.poly
        if any(x.kind == "ind" for x, _ in m):
            return of_atom(atom("poly", a), -1)
        im = tuple((x, -e) for x, e in m)
        r = _reduce(im)
        return scale(r if r is not None else _mk({im: 1}), Fraction(1) / c)
    if a.flags[3]:
        r = _lift("inv", (a,), inv)
        if r is not None:
            return r
    lc = a.poly[0][1]
    p = scale(a, Fraction(1) / lc)
    return scale(of_atom(atom("poly", p), -1), Fraction(1) / lc)


# ---------------------------------------------------------------- integers
def div_exact(p, d):
    """Exact polynomial quotient p / d, or None."""
    if d is ONE:
        return p
    c = d.const
    if c is not None:
        return scale(p, Fraction(1) / c) if c else None
    if len(d.poly) == 1:
        (dm, dc), = d.poly
        out = {}
        for m, c in p.poly:
            q = _mono_div(m, dm)
            if q is None:
                return None
            out[q] = _norm(Fraction(c) / dc)
        return _mk(out)
    # multivariate division by leading term (lex on atom ids, highest first)
    def lead(t):
        return max(t.poly, key=lambda mc: tuple(sorted(((a.id, e) for a, e in mc[0]), reverse=True)))
    q = ZERO
    r = p
    dm, dc = lead(d)
    for _ in range(200):
        if not r.poly:
            return q
        m, c = lead(r)
        x = _mono_div(m, dm)
        if x is None:
            return None
        t = _mk({x: _norm(Fraction(c) / dc)})
        q = q + t
        r = r - t * d
    return None


def _mono_div(m, d):
    dd = dict(m)
    for a, e in d:
        k = dd.get(a, 0)
        if k < e:
            return None
        if k == e:
            del dd[a]
        else:
            dd[a] = k - e
    return tuple(sorted(dd.items(), key=lambda ae: ae[0].id))


def _split_div(p, d):
    """p = d*q + r by monomials divisible by d (d a monomial or constant)."""
    q, r = {}, {}
    if len(d.poly) != 1:
        e = div_exact(p, d)
        if e is not None and e.is_int:
            return e, ZERO
        return _split_poly(p, d)
    (dm, dc), = d.poly
    for m, c in p.poly:
        x = _mono_div(m, dm)
        if x is None:
            r[m] = c
            continue
        k = Fraction(c) / dc
        if k.denominator == 1:
            q[x] = k.numerator
        else:
            f = math.floor(k)
            if f:
                q[x] = f
            r[m] = _norm(c - f * dc)
    return _mk(q), _mk(r)


def _split_poly(p, d):
    """d has several monomials (for example n + m): try p = d * v * k + r for index variables v."""
    q = ZERO
    r = p
    vs = {a for m, _ in p.poly for a, _ in m if a.kind in ("iv", "bv", "fd", "md")}
    for a in sorted(vs, key=lambda a: a.id):
        co, rest = linear(r, a)
        if co is None:
            continue
        e = div_exact(co, d)
        if e is not None and e.is_int:
            q = q + e * of_atom(a)
            r = rest
    return q, r


def linear(p, a):
    """(coef, rest) with p = coef * a + rest, or (None, None) if not linear."""
    co, rest = {}, {}
    for m, c in p.poly:
        e = dict(m).get(a, 0)
        if e == 0:
            if any(_mentions(x, a) for x, _ in m):
                return None, None
            rest[m] = c
        elif e == 1:
            mm = tuple(x for x in m if x[0] is not a)
            if any(_mentions(x, a) for x, _ in mm):
                return None, None
            co[mm] = c
        else:
            return None, None
    return _mk(co), _mk(rest)


def _mentions(x, a):
    if x is a:
        return True
    return a in free_atoms(x)


def floordiv(a, b):
    a, b = tt(a), tt(b)
    if b is ONE:
        return a
    ca, cb = a.const, b.const
    if ca is not None and cb:
        return const(math.floor(Fraction(ca) / cb))
    q, r = _split_div(a, b)
    if not r.poly:
        return q
    if nonneg(r) and nonneg(b - 1 - r):
        return q
    if len(r.poly) == 1 and len(r.poly[0][0]) == 1 and r.poly[0][1] == 1 and r.poly[0][0][0][1] == 1:
        x = r.poly[0][0][0][0]
        if x.kind == "fd":
            return q + floordiv(x.args[0], x.args[1] * b)
    if r.flags[3]:
        x = _lift("fd", (r, b), floordiv)
        if x is not None:
            return q + x
    return q + of_atom(atom("fd", r, b))


def mod(a, b):
    a, b = tt(a), tt(b)
    if b is ONE and a.is_int:
        return ZERO
    ca, cb = a.const, b.const
    if ca is not None and cb:
        return const(ca - cb * math.floor(Fraction(ca) / cb))
    if not (a.is_int and b.is_int):
        return fmod(a, b)
    q, r = _split_div(a, b)
    if not r.poly:
        return ZERO
    if nonneg(r) and nonneg(b - 1 - r):
        return r
    if r.flags[3]:
        x = _lift("md", (r, b), mod)
        if x is not None:
            return x
    return of_atom(atom("md", r, b))


def fmod(a, b):
    """Real a mod b (Python sign convention); multiples of b and inner mods are dropped."""
    out = {}
    for m, c in a.poly:
        t = _mk({m: c})
        k = div_exact(t, b)
        if k is not None and k.is_int:
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fmod" and m[0][0].args[1] is b and _is_intc(c):
            inner = scale(m[0][0].args[0], c)
            for mm, cc in inner.poly:
                out[mm] = out.get(mm, 0) + cc
            continue
        out[m] = out.get(m, 0) + c
    r = _mk(out)
    if not r.poly:
        return ZERO
    cr, cb = r.const, b.const
    if cr is not None and cb:
        return const(_norm(cr - cb * math.floor(Fraction(cr) / Fraction(cb))))
    if r.flags[3]:
        x = _lift("fmod", (r, b), fmod)
        if x is not None:
            return x
    if not r.flags[0] or not b.flags[0]:
        k = r / b
        lo, hi = real_bounds(r, b)
        if lo and hi:
            return r
    return of_atom(atom("fmod", r, b))


def real_bounds(r, b):
    """(r >= 0, r < b) provably, for r = b * index / size forms."""
    k = div_exact(r, b)
    if k is None:
        # allow division by sizes: r/b polynomial with negative exponents
        k = r * inv(b)
    den = ONE
    for m, c in k.poly:
        for a, e in m:
            if e < 0 and a.kind == "sym" and a.args[1].lo is not None and a.args[1].lo >= 1:
                den = den * of_atom(a, -e) if _mono_div(den.poly[0][0], ((a, -e),)) is None else den
    p = k * den
    den2 = ONE
    for m, c in p.poly:
        if isinstance(c, Fraction):
            den2 = scale(den2, c.denominator)
    p = p * den2
    tot = den * den2
    if not p.is_int:
        return False, False
    return nonneg(p), nonneg(tot - 1 - p)


def _is_intc(c):
    return not isinstance(c, Fraction) or c.denominator == 1


_nn_cache = {}


def nonneg(p, depth=0):
    """Provably p >= 0 for all values of its (bounded) variables."""
    c = p.const
    if c is not None:
        return c >= 0
    if not p.is_int:
        return False
    r = _nn_cache.get(p)
    if r is None:
        if depth > 14:
            return False
        r = _nonneg(p, depth)
        _nn_cache[p] = r
    return r


def _nonneg(p, depth):
    # eliminate bounded variables one at a time
    for m, _ in p.poly:
        for a, _e in m:
            hi = None
            if a.kind == "iv":
                hi = _iv_size[a] - 1
            elif a.kind == "md":
                hi = a.args[1] - 1
            elif a.kind == "ind":
                hi = ONE
            elif a.kind in ("argos", "iperm"):
                hi = a.args[0].sizes[0] - 1
            elif a.kind == "rank":
                hi = count(a.args[0]) - 1
            elif a.kind == "nth":
                hi = a.args[0].sizes[a.args[2]] - 1
            elif a.kind == "fd":
                num, den = a.args
                if not nonneg(num, depth + 1):
                    continue
                co, rest = linear(p, a)
                if co is None:
                    continue
                if nonneg(co, depth + 1) and nonneg(rest, depth + 1):
                    return True
                if nonneg(-co, depth + 1):
                    # fd(num, den) <= max(num)/den; use k with num <= den*k + den-1
                    ub = _fd_upper(num, den, depth + 1)
                    if ub is not None and nonneg(rest + co * ub, depth + 1):
                        return True
                continue
            else:
                continue
            co, rest = linear(p, a)
            if co is None:
                continue
            if nonneg(co, depth + 1):
                return nonneg(rest, depth + 1)
            if nonneg(-co, depth + 1):
                return nonneg(rest + co * hi, depth + 1)
            # sign of the coefficient unknown: need both ends
            return nonneg(rest, depth + 1) and nonneg(rest + co * hi, depth + 1)
    # only size-like symbols: shift by lower bounds
    sub = {}
    for m, _ in p.poly:
        for a, _e in m:
            lo = _lower(a)
            if lo is None:
                return False
            if lo:
                sub[a] = of_atom(a) + lo
    q = p
    if sub:
        q = ZERO
        for m, c in p.poly:
            t = const(c)
            for a, e in m:
                t = t * power(sub.get(a, of_atom(a)), e)
            q = q + t
    return all(c >= 0 for _, c in q.poly)


def _fd_upper(num, den, depth):
    """An upper bound of num // den."""
    # max of num by replacing variables with their upper ends
    p = num
    for _ in range(8):
        for m, _c in p.poly:
            v = next((a for a, _ in m if a.kind == "iv"), None)
            if v is not None:
                break
        else:
            break
        co, rest = linear(p, v)
        if co is None:
            return None
        if nonneg(co, depth):
            p = rest + co * (_iv_size[v] - 1)
        elif nonneg(-co, depth):
            p = rest
        else:
            return None
    q, r = _split_div(p + 1, den)
    if not r.poly:
        return q - 1
    return q if nonneg(den - r, depth) else None


def _lower(a):
    if a.kind == "sym":
        return a.args[1].lo if a.args[1].is_int else None
    if a.kind in ("count", "rank", "nth", "argos", "iperm", "md", "ind", "bv"):
        return 0
    if a.kind == "fd":
        return 0 if nonneg(a.args[0]) else None
    return None


# ---------------------------------------------------------------- conditions (0/1 terms)
def ind(op, *args):
    return of_atom(atom("ind", op, *args))


def lnot(c):
    return ONE - c


def land(a, b):
    return a * b


def lor(a, b):
    return a + b - a * b


def ite(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    return b + c * (a - b)


def numeric_const(t):
    """Float value of a term without variables, or None."""
    try:
        if free_atoms(t):
            return None
        return evaluate(t, Valuation(0))
    except Exception:
        return None


def _nonzero(x):
    return x.kind == "exp" or x.kind == "elem" and x.args[0].sign or x is _PIM[0][0] \
        or x.kind == "sym" and x.args[1].lo is not None and x.args[1].lo > 0


def eq(a, b):
    a, b = tt(a), tt(b)
    d = a - b
    c = d.const
    if c is not None:
        return ONE if c == 0 else ZERO
    if len(d.poly) > 120:
        d = fold(d)
    if d.flags[3]:
        x = _lift("eq", (d,), lambda z: eq(z, ZERO))
        if x is not None:
            return x
    if d.is_int:
        if nonneg(d - 1) or nonneg(-d - 1):
            return ZERO
        # d = c1*x + c0 with c1 not dividing c0
    else:
        v = numeric_const(d)
        if v is not None:
            return ONE if abs(v) < 1e-12 else ZERO
        lo, hi = interval(d)
        if lo > 0 or hi < 0:
            return ZERO
    if len(d.poly) == 1:
        if all(_nonzero(x) for x, e in d.poly[0][0]):
            return ZERO
    # [c = 1] for a sign valued entry c is (1 + c)/2
    s = _sign_eq(d)
    if s is not None:
        return s
    lc = d.poly[-1][1]
    d = scale(d, Fraction(1) / lc)
    den = 1
    for _, c in d.poly:
        if isinstance(c, Fraction):
            den = den * c.denominator // math.gcd(den, c.denominator)
    d = scale(d, den)
    return ind("eq", d)


def _sign_eq(d):
    """Equation linear in one sign-valued entry: k*s + c = 0."""
    if len(d.poly) > 2:
        return None
    ms = [(m, c) for m, c in d.poly if m]
    if len(ms) != 1:
        return None
    m, k = ms[0]
    if not all(a.kind == "elem" and a.args[0].sign and e == 1 for a, e in m):
        return None
    c0 = dict(d.poly).get((), 0)
    v = Fraction(-c0) / k
    if v == 1:
        return scale(ONE + _mk({m: 1}), Fraction(1, 2))
    if v == -1:
        return scale(ONE - _mk({m: 1}), Fraction(1, 2))
    return ZERO


def lt(a, b):
    """a < b"""
    a, b = tt(a), tt(b)
    d = a - b
    c = d.const
    if c is not None:
        return ONE if c < 0 else ZERO
    if INF in free_inf(d):
        co = dict(d.poly).get(((INF, 1),), 0)
        if co:
            return ONE if co < 0 else ZERO
    if len(d.poly) > 120:
        d = fold(d)
    if d.flags[3]:
        x = _lift("lt", (d,), lambda z: lt(z, ZERO))
        if x is not None:
            return x
    if d.is_int:
        if nonneg(-d - 1):
            return ONE
        if nonneg(d):
            return ZERO
    else:
        v = numeric_const(d)
        if v is not None:
            return ONE if v < 0 else ZERO
        if len(d.poly) == 1 and d.poly[0][1] and all(x.kind == "exp" or x is _PIM[0][0] for x, e in d.poly[0][0]):
            return ONE if d.poly[0][1] < 0 else ZERO
        lo, hi = interval(d)
        if hi < 0:
            return ONE
        if lo >= 0:
            return ZERO
    s = _sign_lt(d)
    if s is not None:
        return s
    lc = abs(d.poly[-1][1])
    d = scale(d, Fraction(1) / lc)
    den = 1
    for _, c in d.poly:
        if isinstance(c, Fraction):
            den = den * c.denominator // math.gcd(den, c.denominator)
    d = scale(d, den)
    return ind("lt", d)


_ivl_memo = {}


def interval(t):
    """Real interval certainly containing t (floats, rounded outwards a little)."""
    r = _ivl_memo.get(t)
    if r is not None:
        return r
    lo = hi = 0.0
    for m, c in t.poly:
        a, b = 1.0, 1.0
        for x, e in m:
            p, q = _atom_interval(x)
            if e < 0 or not isinstance(e, int) and e != int(e):
                if p > 0 and e == -1:
                    p, q = 1 / q if q else math.inf, 1 / p
                elif p >= 0:
                    p, q = 0.0, math.inf
                else:
                    p, q = -math.inf, math.inf
            elif e % 2 == 0:
                big = max(abs(p), abs(q))
                sm = 0.0 if p <= 0 <= q else min(abs(p), abs(q))
                p, q = sm ** e, big ** e
            elif e != 1:
                p, q = p ** e, q ** e
            vals = [_m0(a, p), _m0(a, q), _m0(b, p), _m0(b, q)]
            a, b = min(vals), max(vals)
        c = float(c)
        lo += min(_m0(a, c), _m0(b, c))
        hi += max(_m0(a, c), _m0(b, c))
        if lo == -math.inf and hi == math.inf:
            break
    eps = 1e-12 * max(1.0, abs(lo) if abs(lo) < math.inf else 1, abs(hi) if abs(hi) < math.inf else 1)
    # sums that cancel exactly (pi - pi) are exact in the term; only the interval arithmetic rounds
    r = (lo - eps if lo != 0 else lo, hi + eps if hi != 0 else hi)
    _ivl_memo[t] = r
    return r


def _m0(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def _atom_interval(x):
    k = x.kind
    if k == "sym":
        if x.args[0] == "pi":
            return (math.pi, math.pi)
        lo = x.args[1].lo
        return (float(lo) if lo is not None else -math.inf, math.inf)
    if k in ("iv", "bv"):
        return (0.0, math.inf)
    if k == "let":
        return interval(x.args[0])
    if k == "ind":
        return (0.0, 1.0)
    if k in ("cos", "sin", "sgn", "tanh"):
        return (-1.0, 1.0)
    if k in ("abs", "sqrt", "exp"):
        return (0.0, math.inf)
    if k == "acos":
        l, h = interval(x.args[0])
        return (math.acos(min(1.0, max(-1.0, h))), math.acos(max(-1.0, min(1.0, l))))
    if k in ("asin", "atan"):
        return (-math.pi / 2, math.pi / 2)
    if k == "atan2":
        return (-math.pi, math.pi)
    if k == "clamp":
        l, h = interval(x.args[1])[0], interval(x.args[2])[1]
        return (l, h) if l <= h else (-math.inf, math.inf)
    if k in ("max", "min"):
        (a, b), (c, d) = interval(x.args[0]), interval(x.args[1])
        return (max(a, c), max(b, d)) if k == "max" else (min(a, c), min(b, d))
    if k == "elem" and x.args[0].unit_first:
        return (-1.0, 1.0)
    return (-math.inf, math.inf)


def free_inf(d):
    return {a for m, _ in d.poly for a, _ in m if a is INF}


def _sign_lt(d):
    ms = [(m, c) for m, c in d.poly if m]
    if len(ms) != 1:
        return None
    m, k = ms[0]
    if not all(a.kind == "elem" and a.args[0].sign and e == 1 for a, e in m):
        return None
    c0 = dict(d.poly).get((), 0)
    p = k + c0 < 0
    n = -k + c0 < 0
    s = _mk({m: 1})
    r = ZERO
    if p:
        r = r + scale(ONE + s, Fraction(1, 2))
    if n:
        r = r + scale(ONE - s, Fraction(1, 2))
    return r


def le(a, b):
    a, b = tt(a), tt(b)
    if a.is_int and b.is_int:
        return lt(a, b + 1)
    return lnot(lt(b, a))


def streq(name, value):
    """Condition: the text option `name` has the value `value`."""
    return ind("streq", name, value)


# ---------------------------------------------------------------- functions
def top_inds(t):
    s = []
    for m, _ in t.poly:
        for a, _e in m:
            if a.kind == "ind" and a not in s:
                s.append(a)
    return s


def restrict(t, a, v):
    """Cofactor: replace the indicator atom a by v (0 or 1) at top level of t."""
    d = {}
    for m, c in t.poly:
        mm = m
        if any(x is a for x, _ in m):
            if v == 0:
                continue
            mm = tuple(x for x in m if x[0] is not a)
        elif v == 1:
            dead = False
            for x, _ in m:
                if x.kind == "ind":
                    if _exclusive(x, a):
                        dead = True
                        break
                    if _implies(a, x) == 1:
                        mm = tuple(z for z in mm if z[0] is not x)
            if dead:
                continue
        d[mm] = d.get(mm, 0) + c
    return _mk(d)


def _lift(name, args, fn, maxn=12):
    """f(.. [c] ..) -> [c] f(..1..) + (1-[c]) f(..0..), for function arguments with indicators."""
    inds = []
    for t in args:
        if isinstance(t, Term):
            for a in top_inds(t):
                if a not in inds:
                    inds.append(a)
    if not inds or len(inds) > maxn:
        return None
    a = inds[0]
    hi = tuple(restrict(t, a, 1) if isinstance(t, Term) else t for t in args)
    lo = tuple(restrict(t, a, 0) if isinstance(t, Term) else t for t in args)
    # the lifted results carry [a] themselves: drop indicators made impossible
    one = fn(*hi)
    zero = fn(*lo)
    ca = of_atom(a)
    return ca * one + zero - ca * zero


def fun(name, *args):
    """Application of a scalar function with the usual simplifications."""
    args = tuple(tt(a) for a in args)
    if any(len(a.poly) > 120 for a in args):
        args = tuple(fold(a) if len(a.poly) > 120 else a for a in args)
    if any(a.flags[3] for a in args):
        r = _lift(name, args, lambda *xs: fun(name, *xs))
        if r is not None:
            return r
    f = _SIMPL.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return of_atom(atom(name, *args))


def _strip_turns(t):
    """Drop whole turns and inner 'mod 2 pi' from an angle."""
    d = {}
    for m, c in t.poly:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fmod" and _is_intc(c) and \
                m[0][0].args[1] is scale(PI, 2):
            for mm, cc in scale(m[0][0].args[0], c).poly:
                d[mm] = d.get(mm, 0) + cc
            continue
        d[m] = d.get(m, 0) + c
    return _mk(d)


_PIM = PI.poly[0][0]


def _trig(t):
    """(cos, sin) of an angle term, expanded over its additive parts."""
    t = _strip_turns(t)
    co, si = ONE, ZERO
    for m, c in t.poly:
        c = Fraction(c)
        if m == _PIM:
            c2, s2 = _pi_frac(c)
        elif m and _PIM[0] in m and all(a.is_int and e > 0 for a, e in m if a is not _PIM[0][0]) and (2 * c).denominator == 1 \
                and c % 2 == 0:
            continue
        else:
            if m == ():
                base = const(abs(c))
                if c == 0:
                    continue
                k = 1 if c > 0 else -1
            else:
                k = c.numerator
                base = _mk({m: Fraction(1, c.denominator)})
            n = abs(k)
            if n > 12:
                base = scale(base, n)
                n = 1
            b_c, b_s = of_atom(atom("cos", base)), of_atom(atom("sin", base))
            c2, s2 = b_c, b_s
            for _ in range(n - 1):
                c2, s2 = c2 * b_c - s2 * b_s, s2 * b_c + c2 * b_s
            if k < 0:
                s2 = -s2
        co, si = co * c2 - si * s2, si * c2 + co * s2
    return co, si


def _pi_frac(c):
    c = c % 2
    tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
    if c in tab:
        a, b = tab[c]
        return const(a), const(b)
    k, den = c.numerator, c.denominator
    base = scale(PI, Fraction(1, den))
    b_c, b_s = of_atom(atom("cos", base)), of_atom(atom("sin", base))
    c2, s2 = b_c, b_s
    for _ in range(k - 1):
        c2, s2 = c2 * b_c - s2 * b_s, s2 * b_c + c2 * b_s
    return c2, s2


def _s_cos(t):
    if t.poly and all(len(m) == 1 and m[0][0].kind == "acos" and m[0][1] == 1 and c == 1 for m, c in t.poly) and len(t.poly) == 1:
        return t.poly[0][0][0][0].args[0]
    if t.flags[2] and False:
        return None
    return _trig(t)[0]


def _s_sin(t):
    return _trig(t)[1]


def _s_sqrt(t):
    c = t.const
    if c is not None and c >= 0:
        f = Fraction(c)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return const(Fraction(a, b))
        return None
    if len(t.poly) == 1:
        (m, c), = t.poly
        f = Fraction(c)
        if f > 0 and all(e % 2 == 0 for _, e in m):
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                r = const(Fraction(a, b))
                for x, e in m:
                    r = r * fun("abs", of_atom(x, e // 2))
                return r
    # common square monomial factor: sqrt(w^2 * p) = |w| sqrt(p)
    common = None
    for m, c in t.poly:
        d = dict(m)
        if common is None:
            common = {a: e for a, e in d.items()}
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (d[a] > 0) == (e > 0)}
    common = {a: (e if e % 2 == 0 else e - (1 if e > 0 else -1)) for a, e in (common or {}).items()}
    common = {a: e for a, e in common.items() if e}
    if common and len(t.poly) > 1:
        q = ONE
        out = ONE
        for a, e in common.items():
            q = q * of_atom(a, e)
            out = out * fun("abs", of_atom(a, e // 2))
        r = ZERO
        for m, c in t.poly:
            dd = dict(m)
            for a, e in common.items():
                dd[a] -= e
                if not dd[a]:
                    del dd[a]
            r = r + _mk({tuple(sorted(dd.items(), key=lambda ae: ae[0].id)): c})
        return out * fun("sqrt", r)
    return None


_POS = {"exp", "sqrt", "abs", "acos"}


def _s_abs(t):
    c = t.const
    if c is not None:
        return const(abs(c))
    if t.is_int and nonneg(t):
        return t
    if t.is_int and nonneg(-t):
        return -t
    if len(t.poly) == 1:
        (m, c), = t.poly
        r = const(abs(c))
        rest = []
        ok = True
        for a, e in m:
            if e % 2 == 0 or a.kind in _POS or (a.kind == "sym" and a.args[1].lo is not None and a.args[1].lo >= 0) \
                    or a is _PIM[0][0]:
                r = r * of_atom(a, e)
            elif a.kind == "elem" and a.args[0].sign:
                pass
            elif a.kind == "sgn":
                pass
            else:
                rest.append((a, e))
                ok = ok
        if len(rest) == 1 and rest[0][1] == 1:
            return r * of_atom(atom("abs", of_atom(rest[0][0])))
        for a, e in rest:
            x = fun("abs", of_atom(a)) if e > 0 else inv(fun("abs", of_atom(a)))
            r = r * power(x, abs(e))
        return r
    # |p| = |-p|: fix the sign by the coefficient of the last monomial
    if t.poly[-1][1] < 0:
        return fun("abs", -t)
    return None


def _s_exp(t):
    if t.const == 0:
        return ONE
    return None


def _s_log(t):
    if t.const == 1:
        return ZERO
    return None


def _s_acos(t):
    c = t.const
    if c == 1:
        return ZERO
    if c == 0:
        return scale(PI, Fraction(1, 2))
    if c == -1:
        return PI
    return None


def _s_sgn(t):
    c = t.const
    if c is not None:
        return const((c > 0) - (c < 0))
    if len(t.poly) == 1 and len(t.poly[0][0]) == 1 and t.poly[0][0][0][1] == 1:
        a = t.poly[0][0][0][0]
        if a.kind == "elem" and a.args[0].sign:
            return scale(of_atom(a), 1 if t.poly[0][1] > 0 else -1)
    return None


def _s_atan2(y, x):
    # atan2(s sin b, s cos b) handled by the checks that need it
    if y.const == 0 and x.const is not None and x.const > 0:
        return ZERO
    return None


def _s_max(a, b):
    c = numeric_const(a - b)
    if c is not None:
        return a if c >= 0 else b
    if (a - b).is_int:
        if nonneg(a - b):
            return a
        if nonneg(b - a):
            return b
    if a.id > b.id:
        return fun("max", b, a)
    return None


def _s_min(a, b):
    c = numeric_const(a - b)
    if c is not None:
        return b if c >= 0 else a
    if (a - b).is_int:
        if nonneg(a - b):
            return b
        if nonneg(b - a):
            return a
    if a.id > b.id:
        return fun("min", b, a)
    return None


def _s_clamp(x, lo, hi):
    if x.const is not None and lo.const is not None and hi.const is not None:
        return const(min(max(x.const, lo.const), hi.const))
    return None


def _s_floor(t):
    if t.const is not None:
        return const(math.floor(t.const))
    if t.is_int:
        return t
    return None


_SIMPL = {"cos": _s_cos, "sin": _s_sin, "sqrt": _s_sqrt, "abs": _s_abs, "exp": _s_exp, "log": _s_log,
          "acos": _s_acos, "sgn": _s_sgn, "atan2": _s_atan2, "max": _s_max, "min": _s_min,
          "clamp": _s_clamp, "floor": _s_floor}


# ---------------------------------------------------------------- leaves
class Leaf:
    """An unknown tensor (input, parameter, random draw): its entries are 'elem' atoms."""
    _by = {}

    def __new__(cls, name, *, sign=False, is_int=False, unit_first=False, note="", rot=False):
        k = (name, sign, is_int, unit_first, note, rot)
        x = cls._by.get(k)
        if x is None:
            x = object.__new__(cls)
            x.name, x.sign, x.is_int, x.unit_first, x.note, x.rot = k
            x.sh = _h("leaf", *k)
            cls._by[k] = x
        return x

    def unit_square(self, a):
        """first component squared = 1 - other components squared (unit vectors of length unit_first)."""
        idx = a.args[1:]
        if idx[-1].const != 0:
            return None
        r = ONE
        for k in range(1, self.unit_first):
            e = of_atom(atom("elem", self, *idx[:-1], const(k)))
            r = r - e * e
        return r

    def __call__(self, *idx):
        return elem(self, *idx)

    def __repr__(self):
        return self.name


def elem(leaf, *idx):
    idx = tuple(tt(i) for i in idx)
    if any(i.flags[3] for i in idx):
        r = _lift("elem", idx, lambda *xs: elem(leaf, *xs))
        if r is not None:
            return r
    x = of_atom(atom("elem", leaf, *idx))
    if leaf.sign:
        # a sign is written 2 [positive] - 1, so that case distinctions on it are indicators
        return scale(ind("pos", x), 2) - 1
    return x


def opq(name, *args, is_int=False):
    """Uninterpreted application; args may be terms, lambdas, tuples of these, strings."""
    if name.startswith("padidx_"):
        i, n = args
        if i.const is not None and n.const is not None and -n.const < i.const < 2 * n.const - 1:
            a, m = int(i.const), int(n.const)
            if name == "padidx_replicate":
                return tt(min(max(a, 0), m - 1))
            if name == "padidx_circular":
                return tt(a % m)
            return tt(-a if a < 0 else a if a < m else 2 * (m - 1) - a)
    return of_atom(atom("opq", name, *args, is_int=is_int))


# ---------------------------------------------------------------- substitution and binders
def free_atoms(x):
    """Symbols, index variables and leaves' entries' own atoms occurring in x (transitively)."""
    if isinstance(x, Term):
        if x._free is None:
            s = frozenset()
            for m, _ in x.poly:
                for a, _e in m:
                    s |= free_atoms(a)
            x._free = s
        return x._free
    if isinstance(x, Atom):
        if x._free is None:
            if x.kind in ("iv", "sym", "bv"):
                x._free = frozenset() if (x.kind == "sym" and x.args[0] in ("pi", "inf", "nan")) else frozenset([x])
            else:
                s = frozenset([x]) if x.kind == "elem" else frozenset()
                for y in x.args:
                    s |= free_atoms(y)
                if x.kind == "ind" and x.args[0] == "streq":
                    s |= frozenset([x])
                if x.kind == "opq" and not s:
                    s = frozenset([x])
                x._free = s
        return x._free
    if isinstance(x, Lam):
        s = free_atoms(x.body)
        for z in x.sizes:
            s |= free_atoms(z)
        lv = set(x.levels)
        return frozenset(a for a in s if not (a.kind == "bv" and a.args[0] in lv))
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= free_atoms(y)
        return s
    return frozenset()


class Subst:
    """Simultaneous replacement of atoms (and leaves) by terms, rebuilding normal forms."""

    def __init__(self, mp, leaf=None, rebuild=None):
        self.mp = mp
        self.leaf = leaf or {}
        self.keys = frozenset(mp)
        self.memo = {}
        self.rebuild = rebuild

    def hit(self, x):
        if self.leaf or self.rebuild:
            return True
        if self.keys & free_atoms(x):
            return True
        # keys that are not 'free' atoms (functions, opaque)
        return any(k.kind not in ("iv", "sym", "bv", "elem") for k in self.keys)

    def term(self, t):
        if not isinstance(t, Term):
            return self.arg(t)
        r = self.memo.get(t)
        if r is not None:
            return r
        if not self.hit(t):
            return t
        parts = []
        changed = False
        for m, c in t.poly:
            f = const(c)
            ch = False
            for a, e in m:
                b = self.atom(a)
                if not (len(b.poly) == 1 and b.poly[0][0] == ((a, 1),) and b.poly[0][1] == 1):
                    ch = True
                f = f * power(b, e)
            changed = changed or ch
            parts.append(f)
        r = addmany(parts) if changed else t
        self.memo[t] = r
        return r

    def atom(self, a):
        r = self.mp.get(a)
        if r is not None:
            return r
        r = self.memo.get(a)
        if r is not None:
            return r
        if not a.args or a.kind in ("iv", "sym", "bv"):
            return of_atom(a)
        if not self.hit(a):
            return of_atom(a)
        if a.kind == "elem":
            lf = a.args[0]
            idx = tuple(self.arg(x) for x in a.args[1:])
            if lf in self.leaf:
                r = self.leaf[lf](*idx)
            else:
                r = elem(lf, *idx)
        else:
            args = tuple(self.arg(x) for x in a.args)
            if self.rebuild is not None:
                r = self.rebuild(a, args)
                if r is not None:
                    self.memo[a] = r
                    return r
            if all(x is y for x, y in zip(args, a.args)):
                r = of_atom(a)
            else:
                r = build(a.kind, args, a.is_int)
        self.memo[a] = r
        return r

    def arg(self, x):
        if isinstance(x, Term):
            return self.term(x)
        if isinstance(x, Lam):
            if not self.hit(x):
                return x
            vs, body = open_lam(x)
            nb = self.term(body)
            ns = tuple(self.term(s) for s in x.sizes)
            if nb is body and ns == x.sizes:
                return x
            for v, s in zip(vs, ns):
                _iv_size[v.poly[0][0][0][0]] = s
            return close(vs, nb)
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return x


def subst(t, mp, leaf=None):
    """mp: dict from Term (single atom) or Atom to Term."""
    d = {}
    for k, v in mp.items():
        if isinstance(k, Term):
            k = k.poly[0][0][0][0]
        d[k] = tt(v)
    return Subst(d, leaf).term(t)


def build(kind, args, is_int=None):
    """Rebuild an atom of `kind` from new arguments through its smart constructor."""
    if kind == "fd":
        return floordiv(*args)
    if kind == "md":
        return mod(*args)
    if kind == "fmod":
        return fmod(*args)
    if kind == "poly":
        return args[0]
    if kind == "let":
        return args[0] if len(args[0].poly) <= 30 else of_atom(atom("let", *args, is_int=is_int))
    if kind == "ind":
        op = args[0]
        if op == "eq":
            return eq(args[1], ZERO)
        if op == "lt":
            return lt(args[1], ZERO)
        if op == "pos":
            return scale(args[1] + 1, Fraction(1, 2))
        return of_atom(atom("ind", *args))
    if kind == "sum":
        vs, body = open_lam(args[0])
        return sum_over(vs, body)
    if kind in ("os", "argos"):
        return order_stat(kind, args[0], *args[1:])
    if kind == "nth":
        return nth(*args)
    if kind == "opq":
        return opq(*args, is_int=is_int)
    if kind == "iperm":
        return iperm(*args)
    if kind in ("rank", "count", "prod", "matinv", "uninit"):
        return of_atom(atom(kind, *args, is_int=is_int))
    return fun(kind, *args)


def open_lam(l):
    """Instantiate a lambda with fresh index variables; returns (vars, body)."""
    vs = tuple(fresh(s) for s in l.sizes)
    mp = {atom("bv", lv): v for lv, v in zip(l.levels, vs)}
    return vs, Subst(mp).term(l.body)


def apply_lam(l, args):
    mp = {atom("bv", lv): tt(v) for lv, v in zip(l.levels, args)}
    return Subst(mp).term(l.body)


def close(vs, body):
    """Closed lambda over the given index variables."""
    base = body.lvl + 1
    mp = {}
    sizes = []
    for k, v in enumerate(vs):
        a = v.poly[0][0][0][0]
        mp[a] = of_atom(atom("bv", base + k))
        sizes.append(_iv_size[a])
    b = Subst(mp).term(body)
    levels = tuple(range(base, base + len(vs)))
    key = (tuple(sizes), levels, b)
    l = _lams.get(key)
    if l is None:
        l = Lam()
        l.sizes, l.levels, l.body = tuple(sizes), levels, b
        l.id = next(_ids)
        l.sh = _h("lam", *[s.sh for s in sizes], *levels, b.sh)
        _lams[key] = l
    return l


def lam(sizes, fn):
    vs = tuple(fresh(s) for s in sizes)
    return close(vs, fn(*vs))


_MARK = atom("sym", "*mark*", SymInfo(True, 0))
_OTHER = atom("sym", "*other*", SymInfo(True, 0))


def sum_over(vs, body):
    """Sum of body over index variables vs (each over its range), in normal form."""
    vs = list(vs)
    if not vs:
        return body
    # concrete ranges are expanded
    for v in vs:
        a = v.poly[0][0][0][0]
        n = _iv_size[a].const
        if n is not None and n <= 64:
            rest = [w for w in vs if w is not v]
            return sum_over(rest, addmany([subst(body, {a: const(k)}) for k in range(int(n))]))
    va = {v.poly[0][0][0][0] for v in vs}
    sp = _split_var(va, body)
    if sp is not None:
        v, D = sp
        a_ = fresh(div_exact(_iv_size[v], D))
        b_ = fresh(D)
        body = subst(body, {v: a_ * D + b_})
        return sum_over([of_atom(x) for x in va if x is not v] + [a_, b_], body)
    out = []
    for m, c in body.poly:
        out.append(scale(_sum_mono(m, va), c))
    return addmany(out)


def _split_var(va, body):
    """A summation index that occurs as q // D or q % D with D a proper divisor of its range."""
    cand = []
    for x in collect(body, lambda a: a.kind in ("fd", "md") and bool(free_atoms(a) & va)):
        y, D = x.args
        for v in va:
            if v not in free_atoms(y):
                continue
            co, rest = linear(y, v)
            if co is not ONE:
                continue
            n = _iv_size[v]
            if D is n or v in free_atoms(D):
                continue
            e = div_exact(n, D)
            if e is None or not e.is_int or (rest.poly and div_exact(rest, D) is None and rest.flags[2]):
                continue
            cand.append((len(D.poly), len(D.poly[0][0]), D.sh, v, D))
    if not cand:
        return None
    cand.sort(key=lambda c: (-c[1], c[2]))
    return cand[0][3], cand[0][4]


def _sum_mono(m, va):
    """Sum over va of a monomial: factor out, merge inner sums, split into components."""
    # merge inner sums that depend on va (or simply open all sums with exponent 1 touching va)
    outer = []
    inner = []
    newva = set(va)
    work = list(m)
    opened = None
    for a, e in work:
        if a.kind == "sum" and e == 1 and (free_atoms(a) & va):
            vs2, b2 = open_lam(a.args[0])
            rest = _mk({tuple(x for x in m if x[0] is not a): 1})
            body = rest * b2
            return sum_over([of_atom(x) for x in va] + list(vs2), body)
    for a, e in work:
        if free_atoms(a) & va:
            inner.append((a, e))
        else:
            outer.append((a, e))
    res = _mk({tuple(outer): 1}) if outer else ONE
    # [v = e] fixes v
    for a, e in inner:
        if a.kind == "ind" and a.args[0] == "eq":
            for v in va:
                co, rest = linear(a.args[1], v)
                if co is not None and co.const in (1, -1) and not (free_atoms(rest) & {v}):
                    val = scale(rest, -1 if co.const == 1 else 1)
                    n = _iv_size[v]
                    if nonneg(val) and nonneg(n - 1 - val):
                        body = _mk({tuple(x for x in inner if x[0] is not a): 1}) if len(inner) > 1 else ONE
                        body = subst(body, {v: val})
                        return res * sum_over([of_atom(x) for x in va if x is not v], body)
    # unused variables: factor size
    used = set()
    for a, e in inner:
        used |= free_atoms(a) & va
    for v in va:
        if v not in used and not any(v in free_atoms(_iv_size[w]) for w in used):
            res = res * _iv_size[v]
    if not inner:
        return res
    # connected components
    comps = []
    for a, e in inner:
        s = set(free_atoms(a) & va)
        for w in list(s):
            s |= free_atoms(_iv_size[w]) & va
        hits = [c for c in comps if c[0] & s]
        mem = [(a, e)]
        for c in hits:
            s |= c[0]
            mem += c[1]
            comps.remove(c)
        comps.append((s, mem))
    for s, mem in comps:
        mem = tuple(sorted(mem, key=lambda ae: ae[0].id))
        res = res * _sum_atom(s, _mk({mem: 1}))
    return res


def _sum_atom(vset, body):
    vs = sorted(vset, key=lambda a: a.id)
    if len(vs) == 1:
        order = vs
        l = close([of_atom(a) for a in order], body)
        return of_atom(atom("sum", l))
    # canonical order of the bound variables
    col = {}
    for v in vs:
        mp = {w: of_atom(_OTHER) for w in vs}
        mp[v] = of_atom(_MARK)
        try:
            col[v] = (_iv_size[v].sh, Subst(mp).term(body).sh)
        except (ZeroDivisionError, TooBig):
            col[v] = (_iv_size[v].sh, 0)
    vs.sort(key=lambda v: col[v])
    groups = [list(g) for _, g in itertools.groupby(vs, key=lambda v: col[v])]
    npm = 1
    for g in groups:
        npm *= math.factorial(len(g))
    if npm > 48:
        best = close([of_atom(a) for a in vs], body)
    else:
        best = None
        for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
            order = [of_atom(a) for g in perm for a in g]
            l = close(order, body)
            if best is None or l.sh < best.sh:
                best = l
    return of_atom(atom("sum", best))


def _partition_argsort(l, k):
    """argsort of the concatenated positions of two complementary conditions is known in closed form."""
    if not any(a.kind == "nth" for m, _ in l.body.poly for a, _ in m):
        return None
    (v,), body = open_lam(l)
    va = v.poly[0][0][0][0]
    inds = [a for a in top_inds(body) if va in free_atoms(a)]
    if len(inds) != 1 or inds[0].args[0] != "lt":
        return None
    co, rest = linear(inds[0].args[1], va)
    if co is not ONE:
        return None
    cut = -rest
    one, two = restrict(body, inds[0], 1), restrict(body, inds[0], 0)

    def single(t, shift):
        if len(t.poly) == 1 and t.poly[0][1] == 1 and len(t.poly[0][0]) == 1 and t.poly[0][0][0][1] == 1:
            a = t.poly[0][0][0][0]
            if a.kind == "nth" and len(a.args[0].sizes) == 1 and a.args[1] is v - shift:
                return a.args[0]
        return None
    m1, m2 = single(one, ZERO), single(two, cut)
    if m1 is None or m2 is None or cut is not count(m1) or m1.sizes[0] is not m2.sizes[0]:
        return None
    w = fresh(m1.sizes[0])
    if apply_lam(m1, (w,)) + apply_lam(m2, (w,)) is not ONE:
        return None
    c = apply_lam(m1, (k,))
    return ite(c, rank(m1, k), cut + rank(m2, k))


def order_stat(kind, l, k, largest=False):
    """k-th smallest of l over its (first) variable ('os') or its position ('argos')."""
    if kind == "argos" and not largest:
        r = _partition_argsort(l, tt(k))
        if r is not None:
            return r
    if isinstance(k, Term) and k.const is None:
        if kind == "argos" and len(k.poly) == 1 and len(k.poly[0][0]) == 1 and k.poly[0][1] == 1 \
                and k.poly[0][0][0][1] == 1:
            a = k.poly[0][0][0][0]
            if a.kind == "iperm" and a.args[0] is l and a.args[2] == largest:
                return a.args[1]
        return of_atom(atom(kind, l, k, largest))
    n = l.sizes[0].const
    if n is not None and n == 1:
        return apply_lam(l, (ZERO,)) if kind == "os" else ZERO
    return of_atom(atom(kind, l, tt(k), largest))


def iperm(l, j, largest=False):
    """Position of entry j in the sorted order of l (inverse of 'argos')."""
    j = tt(j)
    if len(j.poly) == 1 and len(j.poly[0][0]) == 1 and j.poly[0][1] == 1 and j.poly[0][0][0][1] == 1:
        a = j.poly[0][0][0][0]
        if a.kind == "argos" and a.args[0] is l and a.args[2] == largest:
            return a.args[1]
    return of_atom(atom("iperm", l, j, largest))


def nth(mask, k, d):
    """Coordinate d of the k-th position where mask holds."""
    k = tt(k)
    if len(k.poly) == 1 and len(k.poly[0][0]) == 1 and k.poly[0][1] == 1:
        a, e = k.poly[0][0][0]
        if e == 1 and a.kind == "rank" and a.args[0] is mask:
            return a.args[1 + d]
    return of_atom(atom("nth", mask, k, d))


def rank(mask, *idx):
    return of_atom(atom("rank", mask, *[tt(i) for i in idx]))


def count(mask):
    return of_atom(atom("count", mask))


def collect(x, pred, out=None, seen=None):
    """All atoms satisfying pred anywhere inside x (also under binders)."""
    if out is None:
        out, seen = [], set()
    if isinstance(x, Term):
        if x in seen:
            return out
        seen.add(x)
        for m, _ in x.poly:
            for a, _e in m:
                collect(a, pred, out, seen)
    elif isinstance(x, Atom):
        if x in seen:
            return out
        seen.add(x)
        if pred(x):
            out.append(x)
        for y in x.args:
            collect(y, pred, out, seen)
    elif isinstance(x, Lam):
        collect(x.body, pred, out, seen)
        for s in x.sizes:
            collect(s, pred, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            collect(y, pred, out, seen)
    return out


# ---------------------------------------------------------------- display
def show_atom(a):
    k = a.kind
    if k == "sym":
        return a.args[0]
    if k == "iv":
        return "%s%d" % (a.args[1], a.args[0])
    if k == "bv":
        return "b%d" % a.args[0]
    if k == "elem":
        return "%s[%s]" % (a.args[0].name, ",".join(map(repr, a.args[1:])))
    if k == "ind":
        if a.args[0] in ("eq", "lt"):
            return "[%r %s 0]" % (a.args[1], "=" if a.args[0] == "eq" else "<")
        return "[%s]" % " ".join(map(str, a.args))
    if k == "opq":
        return "%s(%s)" % (a.args[0], ", ".join(map(repr, a.args[1:])))
    return "%s(%s)" % (k, ", ".join(map(repr, a.args)))


def show(t, limit=600):
    if not t.poly:
        return "0"
    out = []
    n = 0
    for m, c in t.poly:
        f = []
        for a, e in m:
            f.append(show_atom(a) + ("" if e == 1 else "^%d" % e))
        s = "*".join(f)
        if c == 1 and s:
            out.append(s)
        elif c == -1 and s:
            out.append("-" + s)
        else:
            out.append(str(c) + ("*" + s if s else ""))
        n += len(out[-1])
        if n > limit:
            out.append("...")
            break
    return " + ".join(out).replace("+ -", "- ")


def brief(t, limit=160):
    s = show(t, limit)
    return s if len(s) <= limit else s[:limit] + "..."


# ---------------------------------------------------------------- identity testing of terms
class Undefined(Exception):
    nan = False


class Valuation:
    """Random values for symbols and unknown entries; used only to decide equality of two
    terms whose normal forms differ."""

    def __init__(self, seed, sizes=None, fixed=None, unit=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.val = dict(fixed or {})
        self.sizes = sizes or [2, 3, 2, 3, 4, 5]
        self.n = 0
        self.leafval = {}
        self.memo = {}
        self.strs = {}
        self.budget = 400000

    def symbol(self, a):
        v = self.val.get(a)
        if v is None:
            name, info = a.args[0], a.args[1]
            if name == "pi":
                v = math.pi
            elif name == "inf":
                v = math.inf
            elif name == "nan":
                v = math.nan
            elif info.is_int:
                lo = info.lo if info.lo is not None else -3
                v = lo + self.rng.choice([0, 1, 1, 2, 2]) if info.lo is not None else self.rng.randint(-3, 3)
                if info.lo == 1:
                    v = self.rng.choice(self.sizes)
            elif info.lo is not None:
                v = info.lo + self.rng.uniform(0.1, 1.5)
            else:
                v = self.rng.uniform(-1.5, 1.5)
            self.val[a] = v
        return v

    def entry(self, leaf, idx):
        k = (leaf, idx)
        v = self.leafval.get(k)
        if v is None:
            h = _h("v", self.seed, leaf.name, leaf.note, idx)
            r = random.Random(h)
            if leaf.unit_first:
                base = (leaf, idx[:-1])
                q = self.leafval.get(base)
                if q is None:
                    rr = random.Random(_h("q", self.seed, leaf.name, idx[:-1]))
                    q = [rr.gauss(0, 1) for _ in range(leaf.unit_first)]
                    s = math.sqrt(sum(x * x for x in q))
                    q = [x / s for x in q]
                    self.leafval[base] = q
                if not (isinstance(idx[-1], (int, float)) and 0 <= int(idx[-1]) < leaf.unit_first):
                    raise Undefined("index")
                v = q[int(idx[-1])]
            elif leaf.rot:
                # entries of a rotation matrix, row by row
                base = (leaf, idx[:-1])
                m = self.leafval.get(base)
                if m is None:
                    rr = random.Random(_h("q", self.seed, leaf.name, idx[:-1]))
                    q = [rr.gauss(0, 1) for _ in range(4)]
                    n2 = sum(x * x for x in q)
                    w, a, b, c = q
                    m = [w * w + a * a - b * b - c * c, 2 * (a * b - c * w), 2 * (a * c + b * w),
                         2 * (a * b + c * w), w * w - a * a + b * b - c * c, 2 * (b * c - a * w),
                         2 * (a * c - b * w), 2 * (b * c + a * w), w * w - a * a - b * b + c * c]
                    m = [x / n2 for x in m]
                    self.leafval[base] = m
                if not (isinstance(idx[-1], (int, float)) and 0 <= int(idx[-1]) < 9):
                    raise Undefined("index")
                v = m[int(idx[-1])]
            elif leaf.sign:
                v = r.choice([-1, 1])
            elif leaf.is_int:
                v = r.randint(0, 3)
            else:
                v = r.uniform(-1.5, 1.5)
            self.leafval[k] = v
        return v


def evaluate(t, va, env=None):
    """Numeric value of a term under a valuation; env maps bound levels to ints."""
    env = env or {}
    return _ev(t, va, env)


def _ev(t, va, env):
    va.budget -= 1
    if va.budget < 0:
        raise Undefined("budget")
    key = None
    if t.lvl == 0 or not env:
        key = (t, ())
    else:
        key = (t, tuple(sorted((k, v) for k, v in env.items() if k <= t.lvl)))
    r = va.memo.get(key)
    if r is not None:
        return r
    tot = 0
    for m, c in t.poly:
        # indicators first: a false guard hides undefined factors
        p = 1
        rest = []
        for a, e in m:
            if a.kind == "ind":
                if not _ev_atom(a, va, env):
                    p = 0
                    break
            else:
                rest.append((a, e))
        if p == 0:
            continue
        p = c if not isinstance(c, Fraction) else float(c)
        for a, e in rest:
            v = _ev_atom(a, va, env)
            if e < 0 and v == 0:
                raise Undefined("division by zero")
            p = p * (v ** e)
        tot = tot + p
    if len(va.memo) < 200000:
        va.memo[key] = tot
    return tot


def _ev_arg(x, va, env):
    """Hashable rounded value of an opaque argument."""
    if isinstance(x, Term):
        v = _ev(x, va, env)
        return _rnd(v)
    if isinstance(x, Lam):
        dims = [int(_ev(s, va, env)) for s in x.sizes]
        n = 1
        for d in dims:
            n *= d
        if n > 4096:
            raise Undefined("large lambda")
        out = []
        for idx in itertools.product(*[range(d) for d in dims]):
            e = dict(env)
            e.update(zip(x.levels, idx))
            try:
                out.append(_rnd(_ev(x.body, va, e)))
            except Undefined:
                out.append("undef")
        return ("lam", tuple(dims), tuple(out))
    if isinstance(x, tuple):
        return tuple(_ev_arg(y, va, env) for y in x)
    return repr(x)


def _rnd(v):
    if isinstance(v, int):
        return v
    if v != v or v in (math.inf, -math.inf):
        return str(v)
    if abs(v - round(v)) < 1e-7:
        return int(round(v))
    return float("%.7g" % v)


def _ev_atom(a, va, env):
    k = a.kind
    if k == "sym":
        return va.symbol(a)
    if k == "iv":
        v = va.val.get(a)
        if v is None:
            n = int(_ev(_iv_size[a], va, env))
            if n <= 0:
                raise Undefined("empty range")
            v = va.rng.randrange(n)
            va.val[a] = v
        return v
    if k == "bv":
        return env[a.args[0]]
    if k == "let":
        return _ev(a.args[0], va, env)
    if k == "elem":
        return va.entry(a.args[0], tuple(_rnd(_ev(x, va, env)) for x in a.args[1:]))
    if k == "ind":
        op = a.args[0]
        if op in ("eq", "lt"):
            v = _ev(a.args[1], va, env)
            if op == "eq":
                return 1 if abs(v) < 1e-9 else 0
            if isinstance(v, int):
                return 1 if v < 0 else 0
            return 1 if v < -1e-12 else 0
        if op == "pos":
            return 1 if _ev_atom(a.args[1].poly[0][0][0][0], va, env) > 0 else 0
        if op == "streq":
            s = va.strs.get(a.args[1])
            if s is None:
                s = va.strs[a.args[1]] = "?"
            return 1 if s == a.args[2] else 0
        return _h("ind", va.seed, _ev_arg(a.args, va, env)) & 1
    if k == "sum":
        l = a.args[0]
        dims = [int(_ev(s, va, env)) for s in l.sizes]
        tot = 0
        for idx in itertools.product(*[range(d) for d in dims]):
            e = dict(env)
            e.update(zip(l.levels, idx))
            tot = tot + _ev(l.body, va, e)
        return tot
    if k == "prod":
        l = a.args[0]
        tot = 1
        for i in range(int(_ev(l.sizes[0], va, env))):
            e = dict(env)
            e[l.levels[0]] = i
            tot = tot * _ev(l.body, va, e)
        return tot
    if k in ("os", "argos"):
        l, kk, largest = a.args
        n = int(_ev(l.sizes[0], va, env))
        vals = []
        for i in range(n):
            e = dict(env)
            e[l.levels[0]] = i
            vals.append((_ev(l.body, va, e), i))
        vals.sort(key=lambda vi: (-vi[0], vi[1]) if largest else vi)
        q = int(_ev(kk, va, env))
        if not 0 <= q < n:
            raise Undefined("order statistic")
        return vals[q][0 if k == "os" else 1]
    if k == "iperm":
        l, j, largest = a.args
        n = int(_ev(l.sizes[0], va, env))
        vals = []
        for i in range(n):
            e = dict(env)
            e[l.levels[0]] = i
            vals.append((_ev(l.body, va, e), i))
        vals.sort(key=lambda vi: (-vi[0], vi[1]) if largest else vi)
        q = int(_ev(j, va, env))
        if not 0 <= q < n:
            raise Undefined("permutation")
        return [i for _, i in vals].index(q)
    if k == "count":
        return len(_true(a.args[0], va, env))
    if k == "nth":
        tr = _true(a.args[0], va, env)
        i = int(_ev(a.args[1], va, env))
        if not 0 <= i < len(tr):
            raise Undefined("nth")
        return tr[i][a.args[2]]
    if k == "rank":
        tr = _true(a.args[0], va, env)
        x = tuple(int(_ev(i, va, env)) for i in a.args[1:])
        if x not in tr:
            raise Undefined("rank")
        return tr.index(x)
    if k == "matinv":
        l, i, j = a.args
        n = int(_ev(l.sizes[0], va, env))
        key = (l, tuple(sorted(env.items())))
        M = va.memo.get(("mi", key))
        if M is None:
            rows = []
            for r in range(n):
                row = []
                for c in range(n):
                    e = dict(env)
                    e[l.levels[0]], e[l.levels[1]] = r, c
                    row.append(float(_ev(l.body, va, e)))
                rows.append(row)
            M = _matinv(rows)
            va.memo[("mi", key)] = M
        x, y = int(_ev(i, va, env)), int(_ev(j, va, env))
        if not (0 <= x < n and 0 <= y < n):
            raise Undefined("index")
        return M[x][y]
    if k == "fd":
        d = _ev(a.args[1], va, env)
        if d == 0:
            raise Undefined("division by zero")
        return _ev(a.args[0], va, env) // d
    if k == "md":
        d = _ev(a.args[1], va, env)
        if d == 0:
            raise Undefined("division by zero")
        return _ev(a.args[0], va, env) % d
    if k == "fmod":
        x, d = _ev(a.args[0], va, env), _ev(a.args[1], va, env)
        r = x - d * math.floor(x / d)
        if abs(r - d) < 1e-9:
            r = 0.0
        return r
    if k == "poly":
        return _ev(a.args[0], va, env)
    if k in ("opq", "uninit"):
        h = _h(k, va.seed, _ev_arg(a.args, va, env))
        r = random.Random(h)
        return r.randint(0, 3) if a.is_int else r.choice((-1, 1)) * r.uniform(0.2, 1.5)
    xs = [_ev(x, va, env) for x in a.args]
    try:
        return _NUM[k](*xs)
    except (ValueError, OverflowError, ZeroDivisionError):
        u = Undefined("%s of %s" % (k, ", ".join("%.4g" % x for x in xs)))
        u.nan = k in ("acos", "asin") and abs(xs[0]) > 1.001 or k in ("sqrt", "log") and xs[0] < -1e-3
        raise u
    except KeyError:
        h = _h(k, va.seed, tuple(_rnd(x) for x in xs))
        return random.Random(h).uniform(0.2, 1.5)


def _true(l, va, env):
    dims = [int(_ev(s, va, env)) for s in l.sizes]
    out = []
    for idx in itertools.product(*[range(d) for d in dims]):
        e = dict(env)
        e.update(zip(l.levels, idx))
        if _ev(l.body, va, e):
            out.append(idx)
    return out


def _matinv(rows):
    n = len(rows)
    M = [r[:] + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(rows)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-9:
            raise Undefined("singular")
        M[c], M[p] = M[p], M[c]
        f = M[c][c]
        M[c] = [x / f for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


_NUM = {
    "cos": math.cos, "sin": math.sin, "tan": math.tan, "exp": math.exp, "log": math.log,
    "acos": lambda x: math.acos(max(-1.0, min(1.0, x))) if abs(x) < 1 + 1e-9 else math.acos(x),
    "asin": math.asin, "atan": math.atan, "atan2": math.atan2, "sqrt": lambda x: math.sqrt(x if x > 0 else (0.0 if x > -1e-12 else x)),
    "abs": abs, "sgn": lambda x: (x > 0) - (x < 0), "max": max, "min": min,
    "clamp": lambda x, lo, hi: min(max(x, lo), hi), "floor": math.floor, "ceil": math.ceil,
    "round": round, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh,
    "erf": math.erf, "pow": lambda x, y: x ** y if x > 0 or float(y).is_integer() else (_ for _ in ()).throw(ValueError()),
}


class Same:
    """Outcome of comparing two terms."""
    def __init__(self, ok, how, detail=""):
        self.ok, self.how, self.detail = ok, how, detail

    def __bool__(self):
        return self.ok


def same(a, b, trials=6, fixed=None, assume=(), strs=None, tol=1e-6, seed=0):
    """Decide a = b: by normal form, else by identity testing of the two terms.

    assume: conditions (terms) that must evaluate to 1 for a valuation to count."""
    if a is b:
        return Same(True, "normal form")
    d = a - b
    if not d.poly:
        return Same(True, "normal form")

    def pred(xs):
        x, y = xs
        if x != x and y != y:
            return 0.0
        return abs(x - y) / max(1.0, abs(x), abs(y)) if x != y else 0.0
    r = same_by([a, b], pred, trials, fixed, assume, strs, tol, seed)
    if r.how == "undecided":
        x = nowhere(a, b, fixed, assume, strs, seed)
        return r if x is None else x
    return r


def nowhere(a, b, fixed=None, assume=(), strs=None, seed=0, trials=12):
    """a is not a number (a function outside its domain) at every valuation where b has a value."""
    pos = [c for c in assume if c is not ONE]
    n, why = 0, ""
    for i in range(trials * 30):
        va = Valuation(seed * 1000 + i, fixed=fixed)
        va.strs.update(strs or {})
        try:
            if not all(_ev(c, va, {}) for c in pos):
                continue
            y = _ev(b, va, {})
            if y != y:
                continue
        except Undefined:
            continue
        try:
            _ev(a, va, {})
            return None
        except Undefined as u:
            if not u.nan:
                return None
            n, why = n + 1, str(u)
        if n >= trials:
            return Same(False, "refuted", "it is not a number anywhere, e.g. %s where %.6g is expected" % (why, y))
    return None


def same_by(terms, pred, trials=6, fixed=None, assume=(), strs=None, tol=1e-6, seed=0):
    """pred(values of the terms) is a deviation that must be <= tol at every valuation."""
    pos = [c for c in assume if c is not ONE]
    good = 0
    wit = None
    n = 0
    limit = trials * (30 if pos else 6)
    for i in range(limit):
        va = Valuation(seed * 1000 + i, fixed=fixed)
        if i >= limit // 2:
            va.sizes = [1, 2, 3, 4, 6, 8, 26, 40, 70]
        va.strs.update(strs or {})
        try:
            ok = True
            for c in pos:
                if not _ev(c, va, {}):
                    ok = False
                    break
            if not ok:
                continue
            xs = [_ev(t, va, {}) for t in terms]
        except Undefined:
            continue
        good += 1
        dev = pred(xs)
        if not dev <= tol:
            wit = {repr(k): v for k, v in list(va.val.items())[:8] if repr(k) != "pi"}
            lv = {"%s%s" % (k[0].name, list(k[1])): round(v, 4) if isinstance(v, float) else v
                  for k, v in list(va.leafval.items())[:8] if isinstance(v, (int, float))}
            wit.update(lv)
            return Same(False, "refuted", "e.g. %s: %s" % (wit, " vs ".join("%.6g" % x for x in xs[:6])))
        if good >= trials:
            return Same(True, "identity test")
    if good:
        return Same(True, "identity test")
    return Same(False, "undecided", "no valuation satisfies the assumptions")
