"""Abstract tensors: symbolic shape, lazily evaluated contents (index -> Term), aliasing storages.

A tensor is a view (index map) of a storage.  Out-of-place operations build new
storages whose content function reads the operands as they were at that moment;
in-place operations replace the content function of the storage they alias.
"""
from fractions import Fraction
import itertools
import weakref

from . import terms as T
from .terms import Term, ZERO, ONE, tt, ite, lam, fresh


class Incomplete(Exception):
    """The analysis does not model a construct; nothing is concluded."""


class LibError(Exception):
    """A modelled library call raises a Python exception: (class name, message)."""

    def __init__(self, cls, msg=""):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


class Device:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Device) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


CPU = Device("cpu")

FLOATS = ("float16", "bfloat16", "float32", "float64")
INTS = ("uint8", "int8", "int16", "int32", "int64")


def is_float(d):
    return d in FLOATS


def is_intd(d):
    return d in INTS


def category(d):
    return 0 if d == "bool" else 1 if d in INTS else 2 if d in FLOATS else 3


_ORDER = ("bool", "uint8", "int8", "int16", "int32", "int64", "bfloat16", "float16", "float32", "float64", "complex64")


def promote2(a, b):
    if {a, b} == {"bfloat16", "float16"}:
        return "float32"
    return a if _ORDER.index(a) >= _ORDER.index(b) else b


# ------------------------------------------------------------------ context shared with the interpreter
class Context:
    """Assumptions of the current trace partition and the events recorded on it."""

    def __init__(self):
        self.events = []
        self.assumed = []        # (indicator atom, bool)
        self.sub = {}            # symbol atom -> term
        self.node = None         # where we are (file, line, function)
        self.stamp = itertools.count(1)
        self.uninit = itertools.count(1)
        self.loops = []          # active loop frames
        self.decider = None
        self.grad_on = True
        self.precision = False   # record operations that lose precision
        self.barrier = False     # values that lose their gradients are marked
        self.draws = 0
        self.draw_log = []
        self.storages = []
        self.loop_records = []
        self.hints = []      # (size, constant): the program treats the size in blocks of that constant
        self.leaves = {}

    def where(self):
        return self.node() if self.node else ("?", 0, "?")

    def event(self, kind, detail, **kw):
        e = dict(kind=kind, detail=detail, where=self.where(), **kw)
        self.events.append(e)
        return e


class _Cur:
    ctx = Context()


def ctx():
    return _Cur.ctx


def set_ctx(c):
    _Cur.ctx = c


def norm(t):
    """Apply the equalities assumed on this trace."""
    c = _Cur.ctx
    if c.sub and isinstance(t, Term):
        t = T.Subst(c.sub).term(t)
    if c.assumed and isinstance(t, Term) and t.flags[3]:
        for a, v in c.assumed:
            t = T.restrict(t, a, v)
    return t


_exp_memo = {}


def _expand_counts(t):
    r = _exp_memo.get(t)
    if r is None:
        cs = T.collect(t, lambda a: a.kind == "count")
        if not cs:
            r = t
        else:
            mp = {}
            for a in cs:
                vs, b = T.open_lam(a.args[0])
                mp[a] = T.sum_over(list(vs), b)
            r = T.Subst(mp).term(t)
        _exp_memo[t] = r
    return r


def same_size(a, b):
    a, b = norm(tt(a)), norm(tt(b))
    if a is b:
        return True
    d = norm(_expand_counts(a - b))
    return not d.poly


def is_one(a):
    return norm(tt(a)).const == 1


def differ(a, b):
    """Provably different sizes."""
    d = norm(tt(a) - tt(b))
    if d.const is not None:
        return d.const != 0
    return T.nonneg(d - 1) or T.nonneg(-d - 1)


def show_shape(s):
    return "(" + ", ".join(T.brief(norm(x), 40) for x in s) + ")"


# ------------------------------------------------------------------ storages and tensors
class Storage:
    __slots__ = ("shape", "fn", "memo", "origin", "stamp", "grad", "ver", "captured", "__weakref__")

    def __init__(self, shape, fn, origin="fresh", grad=frozenset()):
        self.shape = tuple(shape)
        self.fn = fn
        self.memo = {}
        self.origin = origin
        self.stamp = next(_Cur.ctx.stamp)
        self.grad = grad
        self.ver = 0
        _Cur.ctx.storages.append(weakref.ref(self))

    def reader(self):
        """Content function as of now."""
        for fr in _Cur.ctx.loops:
            fr.captured(self)
        fn, memo = self.fn, self.memo

        def read(idx):
            r = memo.get(idx)
            if r is None:
                r = memo[idx] = tt(fn(*idx))
            return r
        return read

    def replace(self, fn):
        self.fn = fn
        self.memo = {}
        self.ver += 1


class Tensor:
    __slots__ = ("st", "shape", "fwd", "inv", "dtype", "device", "requires_grad", "name", "contig", "grad_t",
                 "is_param", "leaf_name", "expanded", "is_leaf_view", "attrs", "nograd")

    def __init__(self, st, shape, fwd=None, inv=None, dtype="float32", device=CPU, contig=True, name=None):
        self.st = st
        self.shape = tuple(shape)
        self.fwd = fwd
        self.inv = inv
        self.dtype = dtype
        self.device = device
        self.requires_grad = False
        self.name = name
        self.contig = contig
        self.grad_t = None
        self.is_param = False
        self.leaf_name = None
        self.expanded = False
        self.nograd = False
        self.attrs = {}

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        idx = tuple(tt(i) for i in idx)
        if len(idx) != len(self.shape):
            raise Incomplete("internal: %d indices for shape %s" % (len(idx), show_shape(self.shape)))
        return self.reader()(idx)

    def reader(self):
        r = self.st.reader()
        f = self.fwd
        if f is None:
            return r
        return lambda idx: r(f(idx))

    @property
    def grad_deps(self):
        return frozenset() if self.nograd else self.st.grad

    def generic(self, hint="i"):
        """(index variables, content at them)"""
        vs = tuple(fresh(s, hint) for s in self.shape)
        return vs, self.at(*vs)

    def lam(self):
        return lam(self.shape, lambda *v: self.at(*v))

    def __repr__(self):
        return "<tensor %s %s %s>" % (show_shape(self.shape), self.dtype, self.device)


def marked(fn):
    return lambda *i: T.opq("barrier", tt(fn(*i)))


def mk(shape, fn, dtype="float32", device=CPU, grad=frozenset(), origin="fresh", contig=True):
    shape = tuple(norm(tt(s)) for s in shape)
    if not _Cur.ctx.grad_on or not is_float(dtype):
        if grad and _Cur.ctx.barrier and is_float(dtype):
            fn = marked(fn)
        grad = frozenset()
    return Tensor(Storage(shape, fn, origin, grad), shape, dtype=dtype, device=device, contig=contig)


def leaf_tensor(name, shape, *, sign=False, is_int=False, unit_first=False, dtype=None, device=CPU, origin=None,
                note=""):
    lf = T.Leaf(name, sign=sign, is_int=is_int, unit_first=unit_first, note=note)
    t = mk(shape, lambda *i: T.elem(lf, *i), dtype or ("int64" if is_int else "float32"), device,
           origin=origin or ("arg", name))
    t.name = name
    return t


def scalar_of(t):
    """Content of a one-element tensor."""
    return t.at(*([ZERO] * t.ndim))


# ------------------------------------------------------------------ devices and types
def join_device(ts, what):
    """Device of a result combining tensors ts; records a clash."""
    devs = []
    for t in ts:
        if t.device not in [d for d, _ in devs]:
            devs.append((t.device, t))
    if not devs:
        return CPU
    if len(devs) == 1:
        return devs[0][0]
    big = {}
    for t in ts:
        if not (t.ndim == 0 and t.device == CPU):
            big.setdefault(t.device, t)
    if len(big) > 1:
        names = sorted(d.name for d in big)
        _Cur.ctx.event("device", "%s combines tensors on %s" % (what, " and ".join(names)))
    if not big:
        return devs[0][0]
    for t in ts:
        if t.device in big and t.device != CPU:
            return t.device
    return next(iter(big))


def result_dtype(args):
    """Type promotion of tensors and Python numbers (0-dim tensors count less, numbers least)."""
    best = {0: None, 1: None, 2: None}
    for a in args:
        if isinstance(a, Tensor):
            lv, d = (2 if a.ndim else 1), a.dtype
        else:
            lv = 0
            d = "bool" if num_kind(a) == "bool" else "int64" if num_kind(a) == "int" else "float32"
        best[lv] = d if best[lv] is None else promote2(best[lv], d)
    r = None
    for lv in (2, 1, 0):
        d = best[lv]
        if d is None:
            continue
        if r is None:
            r = d
        elif category(d) > category(r):
            r = d
    return r


def same_dtype(what, *ts):
    """Operations that do not promote: all operands have one dtype."""
    ds = [t.dtype for t in ts if isinstance(t, Tensor)]
    if len(set(ds)) > 1:
        raise LibError("RuntimeError", "%s: expected operands of the same dtype, got %s" % (what, " and ".join(ds)))


def note_mix(ts, what):
    """Operands of different precision: remember the content of the less precise ones."""
    if not _Cur.ctx.precision:
        return
    fs = [t for t in ts if isinstance(t, Tensor) and is_float(t.dtype)]
    if len({t.dtype for t in fs}) > 1:
        hi = max(_ORDER.index(t.dtype) for t in fs)
        for t in fs:
            if _ORDER.index(t.dtype) < hi and t.ndim:
                _Cur.ctx.event("mixed", "%s combines %s and %s values" % (what, t.dtype, _ORDER[hi]), lam=t.lam())


def note_narrow(src, dst, t, what):
    if _Cur.ctx.precision and is_float(src) and is_float(dst) and src != dst:
        down = _ORDER.index(dst) < _ORDER.index(src)
        _Cur.ctx.event("narrow" if down else "widen", "%s turns %s values into %s" % (what, src, dst), lam=t.lam())


class Num:
    """A Python number that is not a concrete int or bool."""
    __slots__ = ("term", "kind")

    def __init__(self, term, kind):
        self.term = tt(term)
        self.kind = kind

    def __repr__(self):
        return "%s:%s" % (T.brief(self.term, 60), self.kind)


def num_kind(a):
    if isinstance(a, bool):
        return "bool"
    if isinstance(a, int):
        return "int"
    if isinstance(a, Num):
        return a.kind
    if isinstance(a, float):
        return "float"
    if isinstance(a, Term):
        return "int" if a.is_int else "float"
    raise Incomplete("number expected, got %r" % (a,))


def is_num(a):
    return isinstance(a, (bool, int, float, Num))


def num_term(a):
    if isinstance(a, Num):
        return a.term
    return tt(a)


def mknum(t, kind):
    t = norm(tt(t))
    c = t.const
    if c is not None:
        if kind == "bool":
            return bool(c)
        if kind == "int" and not isinstance(c, Fraction):
            return int(c)
    return Num(t, kind)


def size_num(t):
    return mknum(t, "int")


# ------------------------------------------------------------------ broadcasting
def broadcast_shapes(shapes, what="operation"):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        cur = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if is_one(d):
                continue
            if is_one(cur):
                cur = d
            elif not same_size(cur, d):
                raise LibError("RuntimeError", "%s: sizes %s and %s do not match in %s" % (
                    what, T.brief(norm(cur), 40), T.brief(norm(d), 40), " with ".join(show_shape(s) for s in shapes)))
        out.append(norm(cur))
    return tuple(out)


def bmap(shape, out_shape):
    """Index map from the broadcast result to an operand."""
    k = len(out_shape) - len(shape)
    ones = [is_one(d) and not is_one(o) or is_one(d) for d, o in zip(shape, out_shape[k:])]
    if k == 0 and not any(ones):
        return lambda idx: idx

    def f(idx):
        idx = idx[k:]
        return tuple(ZERO if o else i for i, o in zip(idx, ones))
    return f


def ew(fn, args, dtype=None, what="elementwise operation", grad=True):
    """Elementwise function over broadcast tensors and numbers."""
    ts = [a for a in args if isinstance(a, Tensor)]
    shape = broadcast_shapes([t.shape for t in ts], what)
    dev = join_device(ts, what)
    if dtype is None:
        dtype = result_dtype(args)
    if dtype != "bool":
        note_mix(ts, what)
    rd = []
    g = frozenset()
    for a in args:
        if isinstance(a, Tensor):
            r, m = a.reader(), bmap(a.shape, shape)
            rd.append(lambda idx, r=r, m=m: r(m(idx)))
            if is_float(a.dtype):
                g |= a.grad_deps
        else:
            v = num_term(a)
            rd.append(lambda idx, v=v: v)
    contig = True if all(t.contig is True for t in ts) else None
    return mk(shape, lambda *idx: fn(*[r(idx) for r in rd]), dtype, dev, g if grad else frozenset(), contig=contig)


# ------------------------------------------------------------------ views
def _view(t, shape, fwd, inv, contig=None):
    """View of t: fwd maps view index -> index of t; inv maps index of t -> (condition, view index)."""
    f0, i0 = t.fwd, t.inv
    nf = fwd if f0 is None else (lambda idx: f0(fwd(idx)))
    if inv is None:
        ni = False
    elif i0 is False:
        ni = False
    elif i0 is None:
        ni = inv
    else:
        def ni(b):
            c, j = i0(b)
            c2, k = inv(j)
            return T.land(c, c2), k
    r = Tensor(t.st, tuple(norm(tt(s)) for s in shape), nf, ni, t.dtype, t.device, contig)
    r.nograd = t.nograd
    return r


def permute(t, perm):
    perm = [p % t.ndim if t.ndim else 0 for p in perm]
    if sorted(perm) != list(range(t.ndim)):
        raise LibError("RuntimeError", "permute: bad dimensions %s for %s" % (perm, show_shape(t.shape)))
    if perm == list(range(t.ndim)):
        return _view(t, t.shape, lambda i: i, lambda b: (ONE, b), t.contig)
    inv = [perm.index(k) for k in range(len(perm))]
    shape = [t.shape[p] for p in perm]
    # moving size-one axes does not change the memory order
    core = [p for p in perm if not is_one(t.shape[p])]
    c = t.contig if core == sorted(core) else (False if t.contig is True else None)
    return _view(t, shape, lambda i: tuple(i[inv[k]] for k in range(len(inv))),
                 lambda b: (ONE, tuple(b[p] for p in perm)), c)


def transpose(t, a, b):
    a, b = dim_of(a, t.ndim), dim_of(b, t.ndim)
    p = list(range(t.ndim))
    p[a], p[b] = p[b], p[a]
    return permute(t, p)


def dim_of(d, n, what="dimension", extra=0):
    if isinstance(d, Num):
        d = d.term.const
    if not isinstance(d, int) or isinstance(d, bool):
        raise Incomplete("axis %r is not a concrete integer" % (d,))
    m = max(n + extra, 1)
    if not -m <= d < m:
        raise LibError("IndexError", "%s out of range (got %d for %d axes)" % (what, d, n))
    return d % m


def unsqueeze(t, d):
    d = dim_of(d, t.ndim, extra=1)
    shape = t.shape[:d] + (ONE,) + t.shape[d:]
    return _view(t, shape, lambda i: i[:d] + i[d + 1:], lambda b: (ONE, b[:d] + (ZERO,) + b[d:]), t.contig)


def squeeze(t, dims=None):
    if dims is None:
        ds = []
        for k, s in enumerate(t.shape):
            s = norm(s)
            if s.const is None and not T.nonneg(s - 2) and _Cur.ctx.decider is not None:
                if _Cur.ctx.decider(T.eq(s, ONE)):
                    ds.append(k)
            elif s.const == 1:
                ds.append(k)
    else:
        if not isinstance(dims, (tuple, list)):
            dims = (dims,)
        ds = []
        for d in dims:
            d = dim_of(d, t.ndim)
            s = norm(t.shape[d])
            if s.const is None and not T.nonneg(s - 2) and _Cur.ctx.decider is not None:
                if _Cur.ctx.decider(T.eq(s, ONE)):
                    ds.append(d)
            elif s.const == 1:
                ds.append(d)
    keep = [k for k in range(t.ndim) if k not in ds]

    def fwd(i):
        it = iter(i)
        return tuple(ZERO if k in ds else next(it) for k in range(len(keep) + len(ds)))
    return _view(t, [t.shape[k] for k in keep], fwd, lambda b: (ONE, tuple(b[k] for k in keep)), t.contig)


def select(t, d, i):
    """t[..., i, ...] for one number i."""
    d = dim_of(d, t.ndim)
    n = norm(t.shape[d])
    i = norm(num_term(i))
    i = wrap_index(i, n)
    c = i.const
    if (c is not None and n.const is not None and not 0 <= c < n.const) or \
            (n.const is None and T.nonneg(i - n)):
        raise LibError("IndexError", "index %r is out of bounds for axis %d with size %s" % (c, d, T.brief(n)))
    shape = t.shape[:d] + t.shape[d + 1:]
    contig = t.contig if d == 0 and t.contig is True else (False if t.contig is True and any(
        not is_one(s) for s in t.shape[:d]) else None)
    if contig is False and all(is_one(s) for s in t.shape[d + 1:]):
        contig = None
    return _view(t, shape, lambda x: x[:d] + (i,) + x[d:], lambda b: (T.eq(b[d], i), b[:d] + b[d + 1:]), contig)


def wrap_index(i, n):
    if i.const is not None:
        return i if i.const >= 0 else n + i
    if T.nonneg(i):
        return i
    if T.nonneg(-i - 1):
        return n + i
    # entries of integer tensors used as positions: taken as given unless visibly negative
    ats = {a.kind for m, _ in i.poly for a, _e in m}
    if ats <= {"elem", "iv", "nth", "argos", "opq", "ind", "sym", "fd", "md", "rank", "count"} and \
            all(c > 0 for m, c in i.poly):
        return i
    return ite(T.lt(i, ZERO), n + i, i)


def clamp_bound(v, n, default):
    """Resolve one slice bound against the axis size n."""
    if v is None:
        return default
    v = norm(num_term(v))
    if v.const is not None and v.const < 0 or (v.const is None and T.nonneg(-v - 1)):
        w = norm(n + v)
        return w if T.nonneg(w) else T.fun("max", w, ZERO)
    if T.nonneg(n - v):
        return v
    if T.nonneg(v - n):
        return n
    if v.const is None and n.const is None:
        d = _Cur.ctx.decider
        if d is not None:
            if d(T.le(v, n)):
                return v
            return n
        return v
    d = _Cur.ctx.decider
    if d is not None:
        return v if d(T.le(v, n)) else n
    return v


def slice_dim(t, d, lo, hi, step=None):
    d = dim_of(d, t.ndim)
    n = norm(t.shape[d])
    if step is None:
        step = 1
    if isinstance(step, Num):
        step = step.term.const if step.term.const is not None else step.term
    lo_t = clamp_bound(lo, n, ZERO)
    hi_t = clamp_bound(hi, n, n)
    if isinstance(step, int) and step <= 0:
        raise LibError("ValueError", "step must be greater than zero")
    st = tt(step)
    ln = norm(hi_t - lo_t)
    if st is not ONE:
        ln = T.floordiv(ln + st - 1, st)
    if ln.const is not None and ln.const < 0:
        ln = ZERO
    elif ln.const is None and not T.nonneg(ln):
        if T.nonneg(-ln):
            ln = ZERO
        else:
            dd = _Cur.ctx.decider
            if dd is not None:
                if dd(T.lt(ln, ZERO)):
                    ln = ZERO
    shape = t.shape[:d] + (ln,) + t.shape[d + 1:]
    full = lo_t is ZERO and same_size(hi_t, n) and st is ONE
    if full:
        return _view(t, t.shape, lambda i: i, lambda b: (ONE, b), t.contig)

    def fwd(i):
        return i[:d] + (lo_t + i[d] * st,) + i[d + 1:]

    def inv(b):
        j = b[d] - lo_t
        c = T.land(T.le(lo_t, b[d]), T.lt(b[d], hi_t))
        if st is not ONE:
            c = T.land(c, T.eq(T.mod(j, st), ZERO))
            j = T.floordiv(j, st)
        return c, b[:d] + (j,) + b[d + 1:]
    c = t.contig if (t.contig is True and st is ONE and all(is_one(s) for s in t.shape[:d])) else \
        (False if t.contig is True and any(not is_one(s) for s in t.shape[:d]) else None)
    return _view(t, shape, fwd, inv, c)


def expand(t, sizes):
    sizes = list(sizes)
    k = len(sizes) - t.ndim
    if k < 0:
        raise LibError("RuntimeError", "expand: %d sizes for a tensor of shape %s" % (len(sizes), show_shape(t.shape)))
    shape = []
    grown = False
    for j, s in enumerate(sizes):
        s = norm(num_term(s))
        if s.const == -1:
            if j < k:
                raise LibError("RuntimeError", "expand: -1 for a new axis")
            shape.append(t.shape[j - k])
            continue
        if j >= k:
            o = t.shape[j - k]
            if not is_one(o) and not same_size(o, s):
                raise LibError("RuntimeError", "expand: size %s of axis %d cannot become %s" % (
                    T.brief(norm(o)), j - k, T.brief(s)))
            if is_one(o) and s.const != 1:
                grown = True
        elif s.const != 1:
            grown = True
        shape.append(s)
    m = bmap(t.shape, shape)
    inv = None
    if not grown:
        kk = k
        inv = lambda b: (ONE, (ZERO,) * kk + tuple(b))
    r = _view(t, shape, m, inv, False if grown else t.contig)
    r.expanded = grown
    return r


def numel(shape):
    r = ONE
    for s in shape:
        r = r * s
    return r


def infer_shape(shape, total, what="view"):
    """Resolve -1 and check the number of entries."""
    sh = [norm(num_term(s)) for s in shape]
    neg = [k for k, s in enumerate(sh) if s.const == -1]
    total = norm(total)
    if len(neg) > 1:
        raise LibError("RuntimeError", "%s: only one dimension can be inferred" % what)
    if neg:
        rest = numel([s for k, s in enumerate(sh) if k != neg[0]])
        if rest.const == 0:
            raise LibError("RuntimeError", "%s: cannot infer -1 with zero entries" % what)
        q = T.div_exact(total, rest)
        if q is None or not q.is_int:
            q2 = T.div_exact(norm(_expand_counts(total)), rest)
            q = q2
        if q is None:
            raise LibError("RuntimeError", "%s: shape %s is invalid for %s entries" % (
                what, show_shape(sh), T.brief(total, 80)))
        sh[neg[0]] = q
    else:
        d = norm(numel(sh) - total)
        if d.poly and norm(_expand_counts(d)).poly:
            raise LibError("RuntimeError", "%s: shape %s is invalid for %s entries" % (
                what, show_shape(sh), T.brief(total, 80)))
    return tuple(sh)


def regroup(old, new):
    """Split two factorizations of the same count into matching blocks [(old dims, new dims)]."""
    out = []
    i = j = 0
    while i < len(old) or j < len(new):
        a, b = [], []
        pa = pb = ONE
        ok = False
        if i < len(old):
            a.append(i)
            pa = old[i]
            i += 1
        if j < len(new):
            b.append(j)
            pb = new[j]
            j += 1
        for _ in range(60):
            if same_size(pa, pb):
                ok = True
                break
            if i < len(old) and (j >= len(new) or _smaller(pa, pb)):
                pa = pa * old[i]
                a.append(i)
                i += 1
            elif j < len(new):
                pb = pb * new[j]
                b.append(j)
                j += 1
            elif i < len(old):
                pa = pa * old[i]
                a.append(i)
                i += 1
            else:
                break
        if not ok:
            return None
        # absorb trailing size-one axes
        out.append((a, b))
    return out


def _smaller(a, b):
    q = T.div_exact(b, a)
    if q is not None and q.is_int:
        return True
    q = T.div_exact(a, b)
    if q is not None and q.is_int:
        return False
    return True


def linearize(idx, sizes):
    r = ZERO
    for i, s in zip(idx, sizes):
        r = r * s + i
    return r


def delinearize(lin, sizes):
    """Multi-index of a position in an array of the given sizes."""
    if not sizes:
        return ()
    out = []
    for k in range(len(sizes) - 1, 0, -1):
        s = sizes[k]
        if s is ONE:
            out.append(ZERO)
            continue
        out.append(T.mod(lin, s))
        lin = T.floordiv(lin, s)
    out.append(ZERO if sizes[0] is ONE else lin)
    return tuple(reversed(out))


def remap(old, new):
    """Index map new -> old for a reshape."""
    blocks = regroup(old, new)
    if blocks is None:
        return lambda idx: delinearize(linearize(idx, new), old)

    def f(idx):
        out = [None] * len(old)
        for a, b in blocks:
            if len(a) == 1 and len(b) == 1:
                out[a[0]] = idx[b[0]]
                continue
            lin = linearize([idx[k] for k in b], [new[k] for k in b])
            for k, v in zip(a, delinearize(lin, [old[k] for k in a])):
                out[k] = v
        return tuple(out)
    return f


def view(t, shape, what="view"):
    shape = infer_shape(shape, numel(t.shape), what)
    old = tuple(norm(s) for s in t.shape)
    if what == "view" and (t.contig is False or t.expanded):
        bl = regroup(old, shape)
        bad = bl is None or any(len([k for k in a if not is_one(old[k])]) > 1 for a, b in bl)
        if bad:
            if t.contig is False and _definitely_scattered(t, bl, old):
                raise LibError("RuntimeError", "view: %s -> %s on a tensor that is not contiguous (use reshape)" % (
                    show_shape(old), show_shape(shape)))
    f, g = remap(old, shape), remap(shape, old)
    return _view(t, shape, f, lambda b: (ONE, g(b)), t.contig if t.contig is True else None)


def _definitely_scattered(t, bl, old):
    """Merged axes are provably not adjacent in memory (only decided for plain permutations of fresh storages)."""
    st = t.st
    if t.fwd is None:
        return False
    vs = tuple(fresh(s) for s in old)
    b = t.fwd(vs)
    if len(b) != len(st.shape):
        return False
    lin = linearize(b, [norm(s) for s in st.shape])
    strides = []
    for v, s in zip(vs, old):
        co, rest = T.linear(lin, v.poly[0][0][0][0])
        if co is None:
            return False
        strides.append(co)
    if bl is None:
        return True
    for a, _b in bl:
        a = [k for k in a if not is_one(old[k])]
        for x, y in zip(a, a[1:]):
            if not same_size(strides[x], strides[y] * old[y]):
                return True
    return False


def reshape(t, shape):
    """reshape: a view where possible, otherwise a copy; the copy is assumed only if the data is scattered."""
    shape = infer_shape(shape, numel(t.shape), "reshape")
    if t.contig is False or t.expanded:
        old = tuple(norm(s) for s in t.shape)
        bl = regroup(old, shape)
        if bl is None or any(len([k for k in a if not is_one(old[k])]) > 1 for a, b in bl):
            if t.expanded or _definitely_scattered(t, bl, old):
                r = t.reader()
                f = remap(old, shape)
                return mk(shape, lambda *i: r(f(i)), t.dtype, t.device, t.grad_deps)
    return view(t, shape, "reshape")


def flatten(t, a=0, b=-1):
    if t.ndim == 0:
        return view(t, (1,), "flatten")
    a, b = dim_of(a, t.ndim), dim_of(b, t.ndim)
    if a > b:
        raise LibError("RuntimeError", "flatten: start_dim after end_dim")
    if a == b:
        return t
    return reshape(t, list(t.shape[:a]) + [numel(t.shape[a:b + 1])] + list(t.shape[b + 1:]))


def unflatten(t, d, sizes):
    d = dim_of(d, t.ndim)
    sizes = infer_shape(sizes, t.shape[d], "unflatten")
    return view(t, list(t.shape[:d]) + list(sizes) + list(t.shape[d + 1:]), "unflatten")


def diagonal(t, offset=0, d1=0, d2=1):
    d1, d2 = dim_of(d1, t.ndim), dim_of(d2, t.ndim)
    if offset != 0:
        raise Incomplete("diagonal with offset")
    n, m = t.shape[d1], t.shape[d2]
    if not same_size(n, m):
        n = T.fun("min", n, m)
    rest = [k for k in range(t.ndim) if k not in (d1, d2)]
    shape = [t.shape[k] for k in rest] + [n]

    def fwd(i):
        out = [None] * (len(rest) + 2)
        for k, v in zip(rest, i):
            out[k] = v
        out[d1] = out[d2] = i[-1]
        return tuple(out)

    def inv(b):
        return T.eq(b[d1], b[d2]), tuple(b[k] for k in rest) + (b[d1],)
    return _view(t, shape, fwd, inv, None)


# ------------------------------------------------------------------ writing
def write(t, value, what="in-place write", cond=None):
    """t[...] = value (broadcast), through the view t; cond(idx) optionally restricts the entries."""
    st = t.st
    if t.inv is False:
        if t.expanded:
            raise LibError("RuntimeError", "%s: more than one element of the written-to tensor refers to a single "
                           "memory location" % what)
        raise Incomplete("write through a view without inverse")
    if isinstance(value, Tensor):
        sh = value.shape
        # leading extra size-one axes are allowed
        k = len(sh) - t.ndim
        if k > 0:
            if not all(is_one(s) for s in sh[:k]):
                raise LibError("RuntimeError", "%s: value of shape %s for entries of shape %s" % (
                    what, show_shape(sh), show_shape(t.shape)))
            for _ in range(k):
                value = select(value, 0, 0)
            sh = value.shape
        for a, b in zip(reversed(sh), reversed(t.shape)):
            if not is_one(a) and not same_size(a, b):
                raise LibError("RuntimeError", "%s: value of shape %s cannot be written to entries of shape %s" % (
                    what, show_shape(sh), show_shape(t.shape)))
        rv, m = value.reader(), bmap(sh, t.shape)
        val = lambda idx: rv(m(idx))
        if value.device != t.device and not (value.ndim == 0 and value.device == CPU):
            _Cur.ctx.event("device", "%s mixes %s and %s" % (what, t.device, value.device))
        g = value.grad_deps if is_float(value.dtype) else frozenset()
        vd = value.dtype
        note_narrow(vd, t.dtype, value, what)
    else:
        v = num_term(value)
        val = lambda idx: v
        g = frozenset()
        vd = None
    trunc = vd is not None and is_intd(t.dtype) and is_float(vd)
    old = st.reader()
    inv = t.inv
    note_write(t, what)

    def newfn(*b):
        if inv is None:
            c, vi = ONE, b
        else:
            c, vi = inv(b)
        if cond is not None:
            c = T.land(c, cond(vi))
        if c is ZERO:
            return old(b)
        x = val(vi)
        if trunc:
            x = T.fun("trunc", x)
        if c is ONE:
            return x
        x = x if not c.flags[3] else guard(x, c)
        return ite(c, x, old(b))
    st.replace(newfn)
    if _Cur.ctx.grad_on:
        st.grad = st.grad | g if (inv is not None or cond is not None) else (g | frozenset())
    for fr in _Cur.ctx.loops:
        fr.wrote(st, inv, cond, val)
    return t


def guard(x, c):
    """Simplify x knowing that condition c (a product of indicators) holds."""
    if len(c.poly) == 1 and c.poly[0][1] == 1:
        for a, e in c.poly[0][0]:
            if a.kind == "ind":
                if a in T.top_inds(x):
                    x = T.restrict(x, a, 1)
    return x


def note_write(t, what):
    o = t.st.origin
    if o != "fresh":
        _Cur.ctx.event("write", "%s modifies %s" % (what, describe_origin(o)), origin=o, stamp=t.st.stamp)


def describe_origin(o):
    return "%s '%s'" % ({"arg": "argument", "global": "shared state", "buffer": "buffer", "param": "parameter",
                         "default": "default argument"}.get(o[0], o[0]), o[1])


# ------------------------------------------------------------------ indexing
class Idx:
    """Parsed advanced index of one axis group."""


def as_index_list(ix):
    return list(ix) if isinstance(ix, tuple) else [ix]


def parse_index(t, ix):
    """Normalize an index expression to a list with one entry per consumed axis/new axis."""
    items = as_index_list(ix)
    out = []
    used = 0
    for x in items:
        if x is Ellipsis or x is None:
            continue
        if isinstance(x, bool):
            continue
        if isinstance(x, Tensor) and x.dtype == "bool":
            used += x.ndim
        else:
            used += 1
    if used > t.ndim:
        raise LibError("IndexError", "too many indices for tensor of dimension %d" % t.ndim)
    seen = False
    for x in items:
        if x is Ellipsis:
            if seen:
                raise LibError("IndexError", "an index can only have a single ellipsis")
            seen = True
            out.extend([slice(None)] * (t.ndim - used))
        else:
            out.append(x)
    if not seen:
        out.extend([slice(None)] * (t.ndim - used))
    return out


def mask_lam(m):
    r = m.reader()
    return lam([norm(s) for s in m.shape], lambda *v: r(v))


def index(t, ix):
    """(view, advanced) : apply basic items as views; collect advanced ones."""
    items = parse_index(t, ix)
    v = t
    d = 0
    adv = []          # (axis in v, kind, payload)
    for x in items:
        if x is None:
            v = unsqueeze(v, d)
            d += 1
        elif isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                d += 1
            else:
                v = slice_dim(v, d, _one(x.start), _one(x.stop), _one(x.step))
                d += 1
        elif isinstance(x, bool):
            m = mk((), lambda b=x: ONE if b else ZERO, "bool", t.device)
            v = unsqueeze(v, d)
            raise Incomplete("index with a Python bool")
        elif isinstance(x, Tensor):
            if x.dtype == "bool":
                if x.ndim == 0:
                    # scalar condition: adds an axis of length 0 or 1
                    v = unsqueeze(v, d)
                    adv.append((d, "mask1", x))
                    d += 1
                    continue
                for k in range(x.ndim):
                    if not same_size(x.shape[k], v.shape[d + k]):
                        raise LibError("IndexError", "the shape of the mask %s does not match the indexed tensor %s" % (
                            show_shape(x.shape), show_shape(v.shape)))
                adv.append((d, "mask", x))
                d += x.ndim
            elif is_intd(x.dtype):
                if x.ndim == 0:
                    v = select(v, d, Num(scalar_of(x), "int"))
                    if x.device != t.device and x.device != CPU:
                        _Cur.ctx.event("device", "index on %s for a tensor on %s" % (x.device, t.device))
                else:
                    adv.append((d, "int", x))
                    d += 1
            else:
                raise LibError("IndexError", "tensors used as indices must be integer or bool tensors")
            if x.device != t.device and x.device != CPU:
                _Cur.ctx.event("device", "index on %s for a tensor on %s" % (x.device, t.device))
        elif isinstance(x, (int, Num)):
            if isinstance(x, Num) and x.kind != "int":
                raise LibError("TypeError", "index must be an integer")
            v = select(v, d, x)
        elif isinstance(x, (list, range)):
            x = list(x)
            adv.append((d, "int", tensor_from(x)))
            d += 1
        else:
            raise Incomplete("index of type %s" % type(x).__name__)
    return v, adv


def _one(x):
    if isinstance(x, Tensor):
        return Num(scalar_of(x), "int")
    return x


def tensor_from(x, dtype=None, device=CPU):
    """Nested lists of numbers -> tensor."""
    def shape_of(y):
        if isinstance(y, (list, tuple)):
            if not y:
                return (0,)
            return (len(y),) + shape_of(y[0])
        if isinstance(y, Tensor):
            return tuple(y.shape)
        return ()
    sh = shape_of(x)
    flat = {}
    kinds = set()

    def rec(y, pre):
        if isinstance(y, (list, tuple)):
            for k, z in enumerate(y):
                rec(z, pre + (k,))
        elif isinstance(y, Tensor):
            flat[pre] = y
            kinds.add("float" if is_float(y.dtype) else "bool" if y.dtype == "bool" else "int")
        else:
            flat[pre] = num_term(y)
            kinds.add(num_kind(y))
    rec(x, ())
    for p in flat:
        if not isinstance(flat[p], Tensor) and len(p) != len(sh):
            raise LibError("ValueError", "expected sequence of equal lengths")
    if dtype is None:
        dtype = "float32" if ("float" in kinds or not kinds) else "int64" if "int" in kinds else "bool"
    dims = [s for s in sh if isinstance(s, int)]

    def fn(*idx):
        cand = _table(flat, tuple(idx), [s if isinstance(s, int) else s for s in sh])
        return cand
    # entries that are tensors: their readers now
    fl2 = {}
    for p, v in flat.items():
        fl2[p] = v.reader() if isinstance(v, Tensor) else v
    flat = fl2
    return mk([tt(s) for s in sh], fn, dtype, device)


def _table(flat, idx, sh, pre=()):
    """Entry of a literal table at a possibly symbolic index."""
    if not idx:
        v = flat[pre]
        return v(()) if callable(v) else v
    if pre in flat:
        v = flat[pre]
        return v(idx) if callable(v) else v
    i = idx[0]
    n = sh[len(pre)]
    c = i.const
    if c is not None:
        return _table(flat, idx[1:], sh, pre + (int(c),))
    if n == 0:
        return ZERO
    r = _table(flat, idx[1:], sh, pre + (n - 1,))
    vals = [_table(flat, idx[1:], sh, pre + (k,)) for k in range(n)]
    if all(v is vals[0] for v in vals):
        return vals[0]
    r = ZERO
    for k in range(n):
        if vals[k].poly:
            r = r + T.eq(i, T.const(k)) * vals[k]
    return r


def adv_layout(v, adv):
    """Broadcast shape of the advanced part and, per advanced axis, a function k-idx -> position."""
    shapes = []
    parts = []
    for d, kind, x in adv:
        if kind == "mask":
            ml = mask_lam(x)
            shapes.append((norm(T.count(ml)),))
            for k in range(x.ndim):
                parts.append((d + k, "mask", ml, k, x))
        elif kind == "mask1":
            c = norm(scalar_of(x))
            if c.const is None:
                dd = _Cur.ctx.decider
                c = ONE if dd(c) else ZERO
            shapes.append((c,))
            parts.append((d, "zero", None, 0, x))
        else:
            shapes.append(tuple(x.shape))
            parts.append((d, "int", x, None, x))
    B = broadcast_shapes(shapes, "indexing")
    fs = []
    for (d, kind, a, k, x) in parts:
        if kind == "mask":
            fs.append((d, kind, (lambda kk, a=a, k=k: T.nth(a, kk[-1], k)), a, k))
        elif kind == "zero":
            fs.append((d, kind, (lambda kk: ZERO), None, 0))
        else:
            r, m = a.reader(), bmap(a.shape, B)
            n = norm(v.shape[d])
            fs.append((d, kind, (lambda kk, r=r, m=m, n=n: wrap_index(norm(r(m(kk))), n)), a, None))
    return B, fs


def adv_shape(v, adv, B):
    axes = []
    for d, kind, x in adv:
        axes.extend(range(d, d + (x.ndim if kind == "mask" else 1)))
    rest = [k for k in range(v.ndim) if k not in axes]
    first = axes[0]
    adjacent = axes == list(range(axes[0], axes[0] + len(axes)))
    # adjacency is judged on the axes left after integer selection, as torch does
    pos = len([k for k in rest if k < first]) if adjacent else 0
    shape = [v.shape[k] for k in rest[:pos]] + list(B) + [v.shape[k] for k in rest[pos:]]
    return axes, rest, pos, shape


def getitem(t, ix):
    v, adv = index(t, ix)
    if not adv:
        if v is t:
            v = _view(t, t.shape, lambda i: i, lambda b: (ONE, b), t.contig)
        return v
    B, fs = adv_layout(v, adv)
    axes, rest, pos, shape = adv_shape(v, adv, B)
    r = v.reader()
    nb = len(B)
    fmap = {d: f for d, _, f, _, _ in fs}
    nd = v.ndim

    def fn(*idx):
        kk = idx[pos:pos + nb]
        others = idx[:pos] + idx[pos + nb:]
        out = [None] * nd
        for k, o in zip(rest, others):
            out[k] = o
        for a in axes:
            out[a] = fmap[a](kk)
        return r(tuple(out))
    return mk(shape, fn, t.dtype, t.device, t.grad_deps)


def setitem(t, ix, value, op=None):
    """t[ix] = value."""
    v, adv = index(t, ix)
    if not adv:
        write(v, cast_value(value, v), "assignment to entries of a tensor")
        return
    B, fs = adv_layout(v, adv)
    axes, rest, pos, shape = adv_shape(v, adv, B)
    tgt = tuple(norm(tt(s)) for s in shape)
    if isinstance(value, Tensor):
        same_dtype("index put", t, value)
        sh = value.shape
        k = len(sh) - len(tgt)
        while k > 0 and is_one(value.shape[0]):
            value = select(value, 0, 0)
            k -= 1
        sh = value.shape
        for a, b in zip(reversed(sh), reversed(tgt)):
            if not is_one(a) and not same_size(a, b):
                raise LibError("RuntimeError", "shape mismatch: value of shape %s cannot be written to indexed entries "
                               "of shape %s" % (show_shape(sh), show_shape(tgt)))
        if len(sh) > len(tgt):
            raise LibError("RuntimeError", "shape mismatch: value of shape %s for entries of shape %s" % (
                show_shape(sh), show_shape(tgt)))
        rv, m = value.reader(), bmap(sh, tgt)
        val = lambda idx: rv(m(idx))
        if value.device != t.device and not (value.ndim == 0 and value.device == CPU):
            _Cur.ctx.event("device", "assignment mixes %s and %s" % (t.device, value.device))
        g = value.grad_deps if is_float(value.dtype) else frozenset()
    else:
        x = num_term(value)
        val = lambda idx: x
        g = frozenset()
    solve = invert_adv(B, fs)
    nb = len(B)

    def cond_val(vi):
        c, kk = solve({d: vi[d] for d in axes})
        others = tuple(vi[k] for k in rest)
        return c, others[:pos] + tuple(kk) + others[pos:]
    st = v.st
    old = st.reader()
    note_write(t, "assignment to indexed entries")
    inv = v.inv
    if inv is False:
        raise Incomplete("write through a view without inverse")

    def newfn(*b):
        if inv is None:
            c, vi = ONE, b
        else:
            c, vi = inv(b)
        if c is ZERO:
            return old(b)
        c2, full = cond_val(vi)
        c = T.land(c, c2)
        if c is ZERO:
            return old(b)
        x = val(full)
        if c is ONE:
            return x
        return ite(c, guard(x, c), old(b))
    st.replace(newfn)
    if _Cur.ctx.grad_on:
        st.grad = st.grad | g
    for fr in _Cur.ctx.loops:
        fr.wrote(st, "adv", None, None)


def cast_value(value, v):
    return value


def invert_adv(B, fs):
    """solve(positions) -> (condition, k) with k the (last) index of the advanced part hitting the positions."""
    masks = {}
    for d, kind, f, a, k in fs:
        if kind == "mask":
            masks.setdefault(a, {})[k] = d
    nb = len(B)

    def solve(posn):
        kk = [None] * nb
        cond = ONE
        for a, ax in masks.items():
            coords = tuple(posn[ax[k]] for k in range(len(a.sizes)))
            c = T.apply_lam(a, coords)
            cond = T.land(cond, c)
            kk[nb - 1] = T.rank(a, *coords)
        todo = [(d, f) for d, kind, f, a, k in fs if kind == "int"]
        for d, kind, f, a, k in fs:
            if kind == "zero":
                kk[nb - 1] = ZERO
                if norm(tt(B[nb - 1])).const == 0:
                    cond = ZERO
        progress = True
        while todo and progress:
            progress = False
            for d, f in list(todo):
                ks = [fresh(B[q]) if kk[q] is None else kk[q] for q in range(nb)]
                unknown = [q for q in range(nb) if kk[q] is None]
                x = f(tuple(ks))
                used = [q for q in unknown if _atom_of(ks[q]) in T.free_atoms(x)]
                if not used:
                    cond = T.land(cond, T.eq(x, posn[d]))
                    todo.remove((d, f))
                    progress = True
                    continue
                if len(used) == 1:
                    q = used[0]
                    va = _atom_of(ks[q])
                    r = solve_for(x, va, B[q], posn[d])
                    if r is not None:
                        c, val = r
                        cond = T.land(cond, c)
                        kk[q] = val
                        todo.remove((d, f))
                        progress = True
                        continue
        if todo:
            # enumerate one small unknown axis, last write wins
            unknown = [q for q in range(nb) if kk[q] is None]
            if len(unknown) == 1 and norm(B[unknown[0]]).const is not None and norm(B[unknown[0]]).const <= 64:
                q = unknown[0]
                n = int(norm(B[q]).const)
                c_all = ZERO
                kval = ZERO
                for j in range(n):
                    kj = [T.const(j) if y == q else kk[y] for y in range(nb)]
                    c = ONE
                    for d, f in todo:
                        c = T.land(c, T.eq(f(tuple(kj)), posn[d]))
                    kval = ite(c, T.const(j), kval)
                    c_all = T.lor(c_all, c)
                kk[q] = kval
                return T.land(cond, c_all), tuple(kk)
            raise Incomplete("assignment through an index tensor that cannot be inverted")
        for q in range(nb):
            if kk[q] is None:
                kk[q] = norm(B[q]) - 1
        return cond, tuple(kk)
    return solve


def _atom_of(v):
    return v.poly[0][0][0][0]


def solve_for(x, va, n, target):
    """Solve x(v) = target for index variable v in range(n): (condition, value) or None."""
    x = norm(x)
    co, rest = T.linear(x, va)
    if co is not None and co.const in (1, -1):
        val = (target - rest) if co.const == 1 else (rest - target)
        return T.land(T.le(ZERO, val), T.lt(val, n)), val
    if len(x.poly) == 1 and x.poly[0][1] == 1 and len(x.poly[0][0]) == 1 and x.poly[0][0][0][1] == 1:
        a = x.poly[0][0][0][0]
        if a.kind == "nth" and len(a.args[0].sizes) == 1 and a.args[1] is T.of_atom(va):
            m = a.args[0]
            return T.apply_lam(m, (target,)), T.rank(m, target)
        if a.kind == "argos" and a.args[1] is T.of_atom(va):
            return ONE, T.iperm(a.args[0], target, a.args[2])
        if a.kind == "iperm" and a.args[1] is T.of_atom(va):
            return ONE, T.order_stat("argos", a.args[0], target, a.args[2])
    # ite(cond(v), f(v), g(v)) for concatenations: [v < c]
    inds = [a for a in T.top_inds(x) if va in T.free_atoms(a)]
    if len(inds) == 1 and inds[0].args[0] == "lt":
        co, rest = T.linear(inds[0].args[1], va)
        if co is ONE:
            cut = -rest
            hi, lo = T.restrict(x, inds[0], 1), T.restrict(x, inds[0], 0)
            r1 = solve_for(hi, va, cut, target)
            sh = T.subst(lo, {va: T.of_atom(va) + cut})
            r2 = solve_for(sh, va, norm(n - cut), target)
            if r1 is not None and r2 is not None:
                c1, v1 = r1
                c2, v2 = r2
                return T.lor(c1, c2), ite(c1, v1, v2 + cut)
    return None


# ------------------------------------------------------------------ joining
def cat(ts, dim=0):
    ts = list(ts)
    if not ts:
        raise LibError("RuntimeError", "cat: expected a non-empty list of tensors")
    real = [t for t in ts if not (t.ndim == 1 and norm(t.shape[0]).const == 0)]
    if not real:
        return ts[0]
    dev = join_device(ts, "cat")
    nd = real[0].ndim
    for t in real:
        if t.ndim != nd:
            raise LibError("RuntimeError", "cat: tensors must have the same number of axes (%s)" % ", ".join(
                show_shape(t.shape) for t in real))
    d = dim_of(dim, nd)
    for t in real:
        for k in range(nd):
            if k != d and not same_size(t.shape[k], real[0].shape[k]):
                raise LibError("RuntimeError", "cat along axis %d: sizes differ in %s" % (
                    d, ", ".join(show_shape(t.shape) for t in real)))
    dtype = real[0].dtype
    note_mix(real, "cat")
    for t in ts[0:]:
        dtype = promote2(dtype, t.dtype) if t in real else dtype
    total = ZERO
    offs = []
    rs = []
    g = frozenset()
    for t in real:
        offs.append(total)
        total = norm(total + t.shape[d])
        rs.append(t.reader())
        g |= t.grad_deps
    shape = list(real[0].shape)
    shape[d] = total
    ends = offs[1:] + [total]

    def fn(*idx):
        i = norm(idx[d])

        def piece(k):
            return rs[k](idx[:d] + (i - offs[k],) + idx[d + 1:])

        def go(k):
            if k == len(real) - 1:
                return piece(k)
            c = T.lt(i, ends[k])
            if c is ONE:
                return piece(k)
            if c is ZERO:
                return go(k + 1)
            return _ite_guard(c, i, offs, ends, k)

        def _ite_guard(c, i, offs, ends, k):
            # split on the indicators of the position, so that each case reads one piece
            a = T.top_inds(c)[0]
            hi, lo = T.restrict(i, a, 1), T.restrict(i, a, 0)
            if a in T.top_inds(i):
                x = fn(*(idx[:d] + (hi,) + idx[d + 1:]))
                y = fn(*(idx[:d] + (lo,) + idx[d + 1:]))
                return ite(T.of_atom(a), T.restrict(x, a, 1), T.restrict(y, a, 0))
            x, y = piece(k), go(k + 1)
            if len(c.poly) == 1:
                x, y = T.restrict(x, a, 1), T.restrict(y, a, 0)
            return ite(c, x, y)
        return go(0)
    return mk(shape, fn, dtype, dev, g)


def stack(ts, dim=0):
    ts = list(ts)
    if not ts:
        raise LibError("RuntimeError", "stack expects a non-empty list of tensors")
    d = dim_of(dim, ts[0].ndim, extra=1)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim or not all(same_size(a, b) for a, b in zip(t.shape, ts[0].shape)):
            raise LibError("RuntimeError", "stack expects each tensor to be equal size, got %s" % ", ".join(
                show_shape(t.shape) for t in ts))
    dev = join_device(ts, "stack")
    rs = [t.reader() for t in ts]
    dtype = ts[0].dtype
    note_mix(ts, "stack")
    g = frozenset()
    for t in ts:
        dtype = promote2(dtype, t.dtype)
        g |= t.grad_deps
    shape = list(ts[0].shape)
    shape.insert(d, T.const(len(ts)))

    def fn(*idx):
        i = norm(idx[d])
        rest = idx[:d] + idx[d + 1:]
        if i.const is not None:
            return rs[int(i.const)](rest)
        vals = [r(rest) for r in rs]
        if all(v is vals[0] for v in vals):
            return vals[0]
        out = ZERO
        for k, v in enumerate(vals):
            if v.poly:
                out = out + T.eq(i, T.const(k)) * v
        return out
    return mk(shape, fn, dtype, dev, g)


# ------------------------------------------------------------------ reductions
def red_dims(t, dim):
    if dim is None:
        return list(range(t.ndim))
    if isinstance(dim, (tuple, list)):
        if not dim:
            return list(range(t.ndim))
        ds = [dim_of(d, t.ndim) for d in dim]
        if len(set(ds)) != len(ds):
            raise LibError("RuntimeError", "dim appears multiple times in the list of dims")
        return ds
    return [dim_of(dim, t.ndim)]


def reduce_(t, dim, keepdim, body, dtype=None, grad=True):
    """body(vars, content) -> Term."""
    ds = red_dims(t, dim)
    r = t.reader()
    shape = []
    for k, s in enumerate(t.shape):
        if k in ds:
            if keepdim:
                shape.append(ONE)
        else:
            shape.append(s)
    sizes = [norm(s) for s in t.shape]

    def fn(*idx):
        it = iter(idx)
        out = []
        vs = []
        for k in range(len(sizes)):
            if k in ds:
                if keepdim:
                    next(it)
                v = fresh(sizes[k])
                vs.append(v)
                out.append(v)
            else:
                out.append(next(it))
        return body(vs, r(tuple(out)))
    return mk(shape, fn, dtype or t.dtype, t.device, t.grad_deps if grad else frozenset())


def sum_(t, dim=None, keepdim=False, dtype=None):
    d = dtype or ("int64" if t.dtype == "bool" or is_intd(t.dtype) else t.dtype)
    return reduce_(t, dim, keepdim, lambda vs, c: T.sum_over(vs, c), d)


def mean_(t, dim=None, keepdim=False):
    if not is_float(t.dtype):
        raise LibError("RuntimeError", "mean(): could not infer output dtype. Input dtype must be floating point, got %s" % t.dtype)
    n = numel([norm(t.shape[k]) for k in red_dims(t, dim)])
    return reduce_(t, dim, keepdim, lambda vs, c: T.sum_over(vs, c) * T.inv(n))


def os_reduce(t, dim, keepdim, largest):
    r = t
    for d in sorted(red_dims(t, dim), reverse=True):
        r = reduce_(r, d, True, lambda vs, c: T.order_stat("os", T.close(vs, c), 0, largest))
    if not keepdim:
        ds = red_dims(t, dim)
        keep = [k for k in range(t.ndim) if k not in ds]
        rr = r.reader()

        def fwd(i):
            it = iter(i)
            return tuple(ZERO if k in ds else next(it) for k in range(t.ndim))
        r = mk([t.shape[k] for k in keep], lambda *i: rr(fwd(i)), t.dtype, t.device, t.grad_deps)
    return r


def arg_extreme(vs, c, largest):
    """Position of the extreme entry; over a short fixed axis as a case distinction."""
    a = T.order_stat("argos", T.close(vs, c), 0, largest)
    n = norm(T.iv_size(_atom_of(vs[0]))).const if len(vs) == 1 else None
    if n is None or n > 6 or a.const is not None or a.flags[3]:
        return a
    r, rest = ZERO, ONE
    for j in range(1, int(n)):
        e = T.eq(a, tt(j))
        r = r + e * j
    return r


def arg_reduce(t, dim, keepdim, largest):
    fn = lambda vs, c: arg_extreme(vs, c, largest)
    if dim is None:
        f = flatten(t) if t.ndim != 1 else t
        return reduce_(f, 0, False, fn, "int64", grad=False)
    return reduce_(t, dim, keepdim, fn, "int64", grad=False)


def sort_(t, dim=-1, descending=False, count=None, largest=None):
    """(values, indices); count limits to the first entries (topk)."""
    if t.ndim == 0:
        z = mk((), lambda: ZERO, "int64", t.device)
        return t, z
    d = dim_of(dim, t.ndim)
    r = t.reader()
    n = norm(t.shape[d])
    big = descending if largest is None else largest
    shape = list(t.shape)
    if count is not None:
        count = norm(num_term(count))
        if differ(count, n) and T.nonneg(count - n - 1):
            raise LibError("RuntimeError", "selected index k out of range")
        shape[d] = count

    def f(kind):
        def fn(*idx):
            v = fresh(n)
            body = r(idx[:d] + (v,) + idx[d + 1:])
            return T.order_stat(kind, T.close([v], body), idx[d], big)
        return fn
    return (mk(shape, f("os"), t.dtype, t.device, t.grad_deps),
            mk(shape, f("argos"), "int64", t.device))


# ------------------------------------------------------------------ linear algebra
def matmul(a, b, what="matmul"):
    if a.ndim == 0 or b.ndim == 0:
        raise LibError("RuntimeError", "%s: both arguments need to be at least 1-dimensional" % what)
    if is_float(a.dtype) != is_float(b.dtype) or (is_float(a.dtype) and a.dtype != b.dtype):
        raise LibError("RuntimeError", "%s: expected operands of the same dtype, got %s and %s" % (what, a.dtype, b.dtype))
    dev = join_device([a, b], what)
    A, B = a, b
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        A = unsqueeze(a, 0)
    if vb:
        B = unsqueeze(b, 1)
    if not same_size(A.shape[-1], B.shape[-2]):
        raise LibError("RuntimeError", "%s: shapes %s and %s cannot be multiplied" % (
            what, show_shape(a.shape), show_shape(b.shape)))
    bs = broadcast_shapes([A.shape[:-2], B.shape[:-2]], what)
    ra, rb = A.reader(), B.reader()
    ma, mb = bmap(A.shape[:-2], bs), bmap(B.shape[:-2], bs)
    n = norm(A.shape[-1])
    nb = len(bs)

    def fn(*idx):
        bi = idx[:nb]
        rest = idx[nb:]
        i = ZERO if va else rest[0]
        j = ZERO if vb else rest[-1]
        k = fresh(n)
        return T.sum_over([k], ra(ma(bi) + (i, k)) * rb(mb(bi) + (k, j)))
    shape = list(bs) + ([] if va else [A.shape[-2]]) + ([] if vb else [B.shape[-1]])
    return mk(shape, fn, promote2(a.dtype, b.dtype), dev, a.grad_deps | b.grad_deps)


def einsum(eq, ops):
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, out = eq.split("->")
    else:
        lhs, out = eq, None
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise LibError("RuntimeError", "einsum: %d subscripts for %d operands" % (len(ins), len(ops)))
    sizes = {}
    ell = ()
    lab = []
    for s, t in zip(ins, ops):
        ls = []
        if "..." in s:
            pre, post = s.split("...")
            ne = t.ndim - len(pre) - len(post)
            if ne < 0:
                raise LibError("RuntimeError", "einsum: too many subscripts")
            k = len(pre)
            esh = t.shape[k:k + ne]
            ell = broadcast_shapes([ell, esh], "einsum")
            ls = list(pre) + [("e", ne - 1 - q) for q in range(ne)] + list(post)
        else:
            ls = list(s)
            if len(ls) != t.ndim:
                raise LibError("RuntimeError", "einsum: %d subscripts for a tensor of shape %s" % (
                    len(ls), show_shape(t.shape)))
        for c, n in zip(ls, t.shape):
            if isinstance(c, str):
                if c in sizes and not is_one(sizes[c]) and not is_one(n) and not same_size(sizes[c], n):
                    raise LibError("RuntimeError", "einsum: subscript %s has sizes %s and %s" % (
                        c, T.brief(norm(sizes[c])), T.brief(norm(n))))
                if c not in sizes or is_one(sizes[c]):
                    sizes[c] = n
        lab.append(ls)
    for q in range(len(ell)):
        sizes[("e", len(ell) - 1 - q)] = ell[q]
    if out is None:
        cnt = {}
        for s in ins:
            for c in s.replace("...", ""):
                cnt[c] = cnt.get(c, 0) + 1
        ol = [("e", len(ell) - 1 - q) for q in range(len(ell))] + sorted(c for c in cnt if cnt[c] == 1)
    elif "..." in out:
        pre, post = out.split("...")
        ol = list(pre) + [("e", len(ell) - 1 - q) for q in range(len(ell))] + list(post)
    else:
        ol = list(out)
    dev = join_device(ops, "einsum")
    same_dtype("einsum", *ops)
    rs = [t.reader() for t in ops]
    red = [c for c in sizes if c not in ol]
    g = frozenset()
    dt = ops[0].dtype
    for t in ops:
        g |= t.grad_deps
        dt = promote2(dt, t.dtype)
    shapes = [t.shape for t in ops]

    def fn(*idx):
        env = dict(zip(ol, idx))
        vs = []
        for c in red:
            v = fresh(norm(sizes[c]))
            env[c] = v
            vs.append(v)
        p = ONE
        for r, ls, sh in zip(rs, lab, shapes):
            p = p * r(tuple(ZERO if is_one(n) else env[c] for c, n in zip(ls, sh)))
        return T.sum_over(vs, p)
    return mk([sizes[c] for c in ol], fn, dt, dev, g)


def matinv_at(l, i, j):
    return T.of_atom(T.atom("matinv", l, tt(i), tt(j)))


def inverse(A):
    n = A.shape[-1]
    if not same_size(A.shape[-2], n):
        raise LibError("RuntimeError", "inverse: matrix must be square, got %s" % show_shape(A.shape))
    r = A.reader()
    n = norm(n)

    def fn(*idx):
        l = lam((n, n), lambda p, q: r(idx[:-2] + (p, q)))
        return matinv_at(l, idx[-2], idx[-1])
    return mk(A.shape, fn, A.dtype, A.device, A.grad_deps)


def solve(A, B, left=True):
    if A.ndim < 2 or not same_size(A.shape[-1], A.shape[-2]):
        raise LibError("RuntimeError", "linalg.solve: A must be square matrices, got %s" % show_shape(A.shape))
    dev = join_device([A, B], "linalg.solve")
    same_dtype("linalg.solve", A, B)
    vec = B.ndim == 1 or (A.ndim - 1 == B.ndim and all(same_size(x, y) for x, y in zip(B.shape, A.shape[:-1])))
    if vec:
        B = unsqueeze(B, -1)
    if not same_size(A.shape[-1], B.shape[-2]):
        raise LibError("RuntimeError", "linalg.solve: incompatible shapes %s and %s" % (
            show_shape(A.shape), show_shape(B.shape)))
    bs = broadcast_shapes([A.shape[:-2], B.shape[:-2]], "linalg.solve")
    ra, rb = A.reader(), B.reader()
    ma, mb = bmap(A.shape[:-2], bs), bmap(B.shape[:-2], bs)
    n = norm(A.shape[-1])
    nb = len(bs)

    def fn(*idx):
        if vec:
            idx = idx + (ZERO,)
        bi = idx[:nb]
        l = lam((n, n), lambda p, q: ra(ma(bi) + (p, q)))
        k = fresh(n)
        return T.sum_over([k], matinv_at(l, idx[-2], k) * rb(mb(bi) + (k, idx[-1])))
    shape = list(bs) + [A.shape[-1]] + ([] if vec else [B.shape[-1]])
    return mk(shape, fn, A.dtype, dev, A.grad_deps | B.grad_deps)


def norm_(t, p=2, dim=None, keepdim=False):
    if p == "fro" or p is None:
        p = 2
    if isinstance(p, Num) and p.term.const is not None:
        p = p.term.const
    if not is_float(t.dtype):
        raise LibError("RuntimeError", "norm: expected a floating point tensor, got %s" % t.dtype)
    if p == 2:
        return reduce_(t, dim, keepdim, lambda vs, c: T.fun("sqrt", T.sum_over(vs, c * c)))
    if p == 1:
        return reduce_(t, dim, keepdim, lambda vs, c: T.sum_over(vs, T.fun("abs", c)))
    if isinstance(p, Num) and p.term is T.of_atom(T.INF):
        a = ew(lambda x: T.fun("abs", x), [t], t.dtype)
        return os_reduce(a, dim, keepdim, True)
    pt = num_term(p)
    return reduce_(t, dim, keepdim, lambda vs, c: T.fun("pow", T.sum_over(vs, T.fun("pow", T.fun("abs", c), pt)), T.inv(pt)))
