"""Library functions written as interpreted source over the modelled ones."""
import ast

from .tensor import ctx, Incomplete
from .lib import LIB, METHODS, Lazy


def _I():
    from . import interp
    return interp


SRC = '''
import math
import torch
import torch.nn.functional as F


# ---------------------------------------------------------------- tensors
def signbit(input):
    return input < 0


def logaddexp(input, other):
    return torch.log(torch.exp(input) + torch.exp(other))


def xlogy(input, other):
    return torch.where(input == 0, torch.zeros_like(input), input * torch.log(other))


def logit(input, eps=None):
    if eps is not None:
        input = torch.clamp(input, eps, 1 - eps)
    return torch.log(input / (1 - input))


def acosh(input):
    return torch.log(input + torch.sqrt(input * input - 1))


def asinh(input):
    return torch.log(input + torch.sqrt(input * input + 1))


def atanh(input):
    return 0.5 * torch.log((1 + input) / (1 - input))


def erfc(input):
    return 1 - torch.erf(input)


def heaviside(input, values):
    return torch.where(input == 0, values, (input > 0).to(values.dtype))


def isposinf(input):
    return input == math.inf


def isneginf(input):
    return input == -math.inf


def isreal(input):
    return torch.ones_like(input, dtype=torch.bool)


def same(input):
    return input


def kthvalue(input, k, dim=-1, keepdim=False):
    v, i = torch.topk(input, k, dim=dim, largest=False, sorted=True)
    v, i = v.narrow(dim, k - 1, 1), i.narrow(dim, k - 1, 1)
    return named("values indices", v, i) if keepdim else named("values indices", v.squeeze(dim), i.squeeze(dim))


def hsplit(input, n):
    return torch.tensor_split(input, n, dim=0 if input.ndim == 1 else 1)


def vsplit(input, n):
    return torch.tensor_split(input, n, dim=0)


def dsplit(input, n):
    return torch.tensor_split(input, n, dim=2)


def unfold(input, dimension, size, step):
    d = dimension if dimension >= 0 else dimension + input.ndim
    n = (input.shape[d] - size) // step + 1
    i = torch.arange(n)[:, None] * step + torch.arange(size)
    r = input.index_select(d, i.reshape(-1)).unflatten(d, (n, size))
    return torch.movedim(r, d + 1, -1)


def select_scatter(input, src, dim, index):
    r = input.clone()
    r.select(dim, index).copy_(src)
    return r


def slice_scatter(input, src, dim=0, start=None, end=None, step=1):
    r = input.clone()
    k = [slice(None)] * input.ndim
    k[dim] = slice(start, end, step)
    r[tuple(k)] = src
    return r


def diagonal_scatter(input, src, offset=0, dim1=0, dim2=1):
    r = input.clone()
    torch.diagonal(r, offset, dim1, dim2).copy_(src)
    return r


def atleast_3d(*ts):
    def one(t):
        if t.ndim == 0:
            return t.reshape(1, 1, 1)
        if t.ndim == 1:
            return t[None, :, None]
        if t.ndim == 2:
            return t[:, :, None]
        return t
    if len(ts) == 1 and torch.is_tensor(ts[0]):
        return one(ts[0])
    return tuple(one(t) for t in (ts[0] if len(ts) == 1 else ts))


def block_diag(*ts):
    ts = [t.reshape(1, -1) if t.ndim < 2 else t for t in ts]
    r = ts[0].new_zeros(sum(t.shape[0] for t in ts), sum(t.shape[1] for t in ts))
    a, b = 0, 0
    for t in ts:
        r[a:a + t.shape[0], b:b + t.shape[1]] = t
        a, b = a + t.shape[0], b + t.shape[1]
    return r


def isin(elements, test_elements, assume_unique=False, invert=False):
    if not torch.is_tensor(test_elements):
        r = elements == test_elements
    else:
        r = (elements[..., None] == test_elements.reshape(-1)).any(-1)
    return ~r if invert else r


def pairwise_distance(x1, x2, p=2.0, eps=1e-6, keepdim=False):
    return torch.linalg.vector_norm(x1 - x2 + eps, p, dim=-1, keepdim=keepdim)


def pdist(input, p=2.0):
    i = torch.triu_indices(input.shape[0], input.shape[0], 1)
    return torch.linalg.vector_norm(input[i[0]] - input[i[1]], p, dim=-1)


def combinations(input, r=2, with_replacement=False):
    n = input.shape[0]
    if r != 2:
        raise NotImplementedError("combinations")
    i = torch.triu_indices(n, n, 0 if with_replacement else 1)
    return torch.stack((input[i[0]], input[i[1]]), dim=-1)


def vander(x, N=None, increasing=False):
    N = x.shape[0] if N is None else N
    c = [x ** k for k in range(N)]
    return torch.stack(c if increasing else c[::-1], dim=-1)


def diagflat(input, offset=0):
    return torch.diag(input.reshape(-1), offset)


def addr(input, vec1, vec2, beta=1, alpha=1):
    return beta * input + alpha * torch.outer(vec1, vec2)


def trapezoid(y, x=None, dx=1, dim=-1):
    n = y.shape[dim]
    a, b = y.narrow(dim, 0, n - 1), y.narrow(dim, 1, n - 1)
    if x is None:
        return ((a + b) * (dx / 2)).sum(dim)
    return ((a + b) / 2 * torch.diff(x)).sum(dim)


def nansum(input, dim=None, keepdim=False, dtype=None):
    return input.sum() if dim is None else input.sum(dim, keepdim=keepdim)


def nanmean(input, dim=None, keepdim=False, dtype=None):
    return input.mean() if dim is None else input.mean(dim, keepdim=keepdim)


def vmap(func, in_dims=0, out_dims=0, **options):
    def mapped(*args):
        dims = in_dims if isinstance(in_dims, (tuple, list)) else (in_dims,) * len(args)
        n = [a.shape[d] for a, d in zip(args, dims) if d is not None][0]
        rows = [func(*[a if d is None else a.select(d, k) for a, d in zip(args, dims)]) for k in range(n)]
        if isinstance(rows[0], tuple):
            od = out_dims if isinstance(out_dims, (tuple, list)) else (out_dims,) * len(rows[0])
            return tuple(torch.stack([r[j] for r in rows], dim=od[j]) for j in range(len(rows[0])))
        return torch.stack(rows, dim=out_dims)
    return mapped


# ---------------------------------------------------------------- linear algebra
def logdet(input):
    return torch.log(torch.linalg.det(input))


def inv_ex(A, check_errors=False):
    return named("inverse info", torch.linalg.inv(A), torch.zeros(A.shape[:-2], dtype=torch.int32))


def solve_ex(A, B, left=True, check_errors=False):
    return named("result info", torch.linalg.solve(A, B, left=left), torch.zeros(A.shape[:-2], dtype=torch.int32))


def solve_triangular(A, B, upper, left=True, unitriangular=False):
    A = torch.triu(A) if upper else torch.tril(A)
    if unitriangular:
        n = A.shape[-1]
        A = A * (1 - torch.eye(n)) + torch.eye(n)
    return torch.linalg.solve(A, B, left=left)


def linalg_diagonal(A, offset=0, dim1=-2, dim2=-1):
    return torch.diagonal(A, offset, dim1, dim2)


# ---------------------------------------------------------------- functional
def rms_norm(input, normalized_shape, weight=None, eps=None):
    dims = tuple(range(-len(normalized_shape), 0))
    r = input * torch.rsqrt((input * input).mean(dims, keepdim=True) + (1.1920928955078125e-07 if eps is None else eps))
    return r if weight is None else r * weight


def glu(input, dim=-1):
    a, b = torch.chunk(input, 2, dim)
    return a * torch.sigmoid(b)


def pixel_unshuffle(input, downscale_factor):
    *b, c, h, w = input.shape
    k = downscale_factor
    r = input.reshape(*b, c, h // k, k, w // k, k)
    n = len(b)
    r = r.permute(*range(n + 1), n + 2, n + 4, n + 1, n + 3)
    return r.reshape(*b, c * k * k, h // k, w // k)


def pixel_shuffle(input, upscale_factor):
    *b, c, h, w = input.shape
    k = upscale_factor
    n = len(b)
    r = input.reshape(*b, c // (k * k), k, k, h, w).permute(*range(n + 1), n + 3, n + 1, n + 4, n + 2)
    return r.reshape(*b, c // (k * k), h * k, w * k)


def constant_pad_nd(input, pad, value=0):
    return F.pad(input, pad, "constant", value)


def grid_sampler(input, grid, interpolation_mode, padding_mode, align_corners):
    return F.grid_sample(input, grid, ("bilinear", "nearest", "bicubic")[interpolation_mode],
                         ("zeros", "border", "reflection")[padding_mode], align_corners)


def softmin(input, dim=None, dtype=None):
    return F.softmax(-input, dim)


# ---------------------------------------------------------------- math
def m_expm1(x):
    return math.exp(x) - 1


def m_sinh(x):
    return (math.exp(x) - math.exp(-x)) / 2


def m_cosh(x):
    return (math.exp(x) + math.exp(-x)) / 2


def m_tanh(x):
    return m_sinh(x) / m_cosh(x)


def m_asinh(x):
    return math.log(x + math.sqrt(x * x + 1))


def m_acosh(x):
    return math.log(x + math.sqrt(x * x - 1))


def m_atanh(x):
    return math.log((1 + x) / (1 - x)) / 2


def m_log1p(x):
    return math.log(1 + x)


def m_exp2(x):
    return 2.0 ** x


def m_cbrt(x):
    return x ** (1 / 3) if x >= 0 else -((-x) ** (1 / 3))


def m_copysign(x, y):
    return abs(x) if y >= 0 else -abs(x)


def m_dist(p, q):
    return math.sqrt(sum([(a - b) * (a - b) for a, b in zip(p, q)]))


def m_fsum(xs):
    return sum(xs, 0.0)


def m_sumprod(p, q):
    return sum([a * b for a, b in zip(p, q)])


def m_lcm(*xs):
    r = 1
    for x in xs:
        r = r * x // math.gcd(r, x) if x else 0
    return r


def m_perm(n, k=None):
    r = 1
    for j in range(n if k is None else k):
        r = r * (n - j)
    return r


def m_modf(x):
    t = float(math.trunc(x))
    return x - t, t


def m_remainder(x, y):
    return x - y * round(x / y)


# ---------------------------------------------------------------- operator
def o_abs(a):
    return abs(a)


def o_and(a, b):
    return a & b


def o_or(a, b):
    return a | b


def o_xor(a, b):
    return a ^ b


def o_not(a):
    return not a


def o_invert(a):
    return ~a


def o_pos(a):
    return +a


def o_truth(a):
    return bool(a)


def o_is(a, b):
    return a is b


def o_is_not(a, b):
    return a is not b


def o_contains(a, b):
    return b in a


def o_concat(a, b):
    return a + b


def o_getitem(a, b):
    return a[b]


def o_setitem(a, b, c):
    a[b] = c


def o_delitem(a, b):
    del a[b]


def o_index(a):
    return a


def o_iadd(a, b):
    a += b
    return a


def o_isub(a, b):
    a -= b
    return a


def o_imul(a, b):
    a *= b
    return a


def o_itruediv(a, b):
    a /= b
    return a


def o_attrgetter(*names):
    def one(o, name):
        for n in name.split("."):
            o = getattr(o, n)
        return o
    if len(names) == 1:
        return lambda o: one(o, names[0])
    return lambda o: tuple(one(o, n) for n in names)


def o_methodcaller(name, *args, **kwargs):
    return lambda o: getattr(o, name)(*args, **kwargs)


# ---------------------------------------------------------------- itertools
def i_zip_longest(*xs, fillvalue=None):
    xs = [list(x) for x in xs]
    n = max([len(x) for x in xs]) if xs else 0
    return [tuple([x[k] if k < len(x) else fillvalue for x in xs]) for k in range(n)]


def i_accumulate(xs, func=None, *, initial=None):
    r = [] if initial is None else [initial]
    for x in xs:
        if not r:
            r.append(x)
        else:
            r.append(r[-1] + x if func is None else func(r[-1], x))
    return r


def i_starmap(f, xs):
    return [f(*x) for x in xs]


def i_islice(xs, *k):
    xs = list(xs)
    return xs[slice(*k)]


def i_pairwise(xs):
    xs = list(xs)
    return [(xs[k], xs[k + 1]) for k in range(len(xs) - 1)]


def i_batched(xs, n):
    xs = list(xs)
    return [tuple(xs[k:k + n]) for k in range(0, len(xs), n)]


def i_takewhile(f, xs):
    r = []
    for x in xs:
        if not f(x):
            break
        r.append(x)
    return r


def i_dropwhile(f, xs):
    xs = list(xs)
    k = 0
    while k < len(xs) and f(xs[k]):
        k += 1
    return xs[k:]


def i_filterfalse(f, xs):
    return [x for x in xs if not (x if f is None else f(x))]


def i_compress(xs, ss):
    return [x for x, s in zip(xs, ss) if s]


def i_tee(xs, n=2):
    xs = list(xs)
    return tuple([list(xs) for _ in range(n)])


def i_combinations_with_replacement(xs, r):
    xs = list(xs)
    if r == 0:
        return [()]
    return [(xs[k],) + t for k in range(len(xs)) for t in i_combinations_with_replacement(xs[k:], r - 1)]


# ---------------------------------------------------------------- contextlib, functools, collections
class GeneratorManager:
    def __init__(self, func, args, kwds):
        self.func, self.args, self.kwds = func, args, kwds
        self.gen = func(*args, **kwds)

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, typ, value, traceback):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration as e:
            return e is not value
        except BaseException as e:
            if e is value:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")

    def __call__(self, f):
        def inner(*args, **kwds):
            with GeneratorManager(self.func, self.args, self.kwds):
                return f(*args, **kwds)
        return inner


def contextmanager(func):
    def helper(*args, **kwds):
        return GeneratorManager(func, args, kwds)
    return helper


class ContextDecorator:
    def __call__(self, f):
        def inner(*args, **kwds):
            with self:
                return f(*args, **kwds)
        return inner


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class ExitStack:
    def __init__(self):
        self.exits = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        r = enter_manager(cm)
        self.exits.append(lambda e: exit_manager(cm, e))
        return r

    def callback(self, f, *args, **kwds):
        def run(e):
            f(*args, **kwds)
            return False
        self.exits.append(run)
        return f

    def push(self, cm):
        self.exits.append(lambda e: exit_manager(cm, e))
        return cm

    def pop_all(self):
        r = ExitStack()
        r.exits = self.exits
        self.exits = []
        return r

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, traceback):
        done = False
        e = value
        while self.exits:
            if self.exits.pop()(e):
                e = None
                done = True
        return done and typ is not None


class cached_property:
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        v = self.func(instance)
        instance.__dict__[self.attrname] = v
        return v


class singledispatch:
    def __init__(self, func):
        self.func = func
        self.impls = []

    def register(self, cls, func=None):
        if func is None:
            if not isinstance(cls, type):
                unmodelled("singledispatch by annotation")

            def deco(f):
                self.impls.append((cls, f))
                return f
            return deco
        self.impls.append((cls, func))
        return func

    def dispatch_value(self, v):
        best = None
        for c, f in self.impls:
            if isinstance(v, c) and (best is None or issubclass(c, best[0])):
                best = (c, f)
        return self.func if best is None else best[1]

    def __call__(self, *args, **kwds):
        return self.dispatch_value(args[0])(*args, **kwds)


class singledispatchmethod:
    def __init__(self, func):
        self.d = singledispatch(func)

    def register(self, cls, method=None):
        return self.d.register(cls, method)

    def __get__(self, obj, cls=None):
        def call(*args, **kwds):
            return self.d.dispatch_value(args[0])(obj, *args, **kwds)
        return call


class partialmethod:
    def __init__(self, func, *args, **kwds):
        self.func, self.args, self.kwds = func, args, kwds

    def __get__(self, obj, cls=None):
        return functools_partial(bind_method(self.func, obj), *self.args, **self.kwds)


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __contains__(self, k):
        return any(k in m for m in self.maps)

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def keys(self):
        out = []
        for m in reversed(self.maps):
            for k in m:
                if k not in out:
                    out.append(k)
        return out

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)


def logcumsumexp(input, dim):
    return torch.log(torch.cumsum(torch.exp(input), dim))


def cov(input, correction=1):
    if input.ndim < 2:
        input = input.reshape(1, -1)
    d = input - input.mean(1, keepdim=True)
    r = d @ d.T / (input.shape[1] - correction)
    return r.squeeze()


def bucketize(input, boundaries, right=False):
    x, b = input.unsqueeze(-1), boundaries
    return (b <= x if right else b < x).sum(-1)


def searchsorted(sorted_sequence, input, out_int32=False, right=False, side=None):
    if side is not None:
        right = side == "right"
    x, b = input.unsqueeze(-1), sorted_sequence.unsqueeze(-2)
    return (b <= x if right else b < x).sum(-1)
'''

BOTH = ("signbit logaddexp xlogy logit acosh asinh atanh erfc heaviside isposinf isneginf isreal kthvalue hsplit vsplit dsplit "
        "select_scatter slice_scatter diagonal_scatter diagflat addr nansum nanmean logdet").split()
ALIAS = {"arccosh": "acosh", "arcsinh": "asinh", "arctanh": "atanh", "conj": "same", "resolve_conj": "same", "resolve_neg": "same",
         "real": "same", "conj_physical": "same", "trapz": "trapezoid"}
TORCH = ("atleast_3d block_diag isin pairwise_distance pdist combinations vander trapezoid trapz rms_norm constant_pad_nd grid_sampler "
         "vmap pixel_shuffle pixel_unshuffle cov bucketize searchsorted logcumsumexp").split() + list(ALIAS)
ONLY = ["unfold", "conj", "real", "arccosh", "arcsinh", "arctanh", "resolve_conj", "resolve_neg"]
LINALG = {"inv_ex": "inv_ex", "solve_ex": "solve_ex", "solve_triangular": "solve_triangular", "diagonal": "linalg_diagonal",
          "vander": "vander"}
FUNCTIONAL = "rms_norm glu pixel_shuffle pixel_unshuffle pairwise_distance pdist softmin".split()
NAMES = {"contextlib": {n: n for n in ("contextmanager", "ExitStack", "ContextDecorator", "closing")},
         "functools": {n: n for n in ("cached_property", "singledispatch", "singledispatchmethod", "partialmethod")},
         "collections": {"ChainMap": "ChainMap"},
         "math": {n[2:]: n for n in ("m_expm1 m_sinh m_cosh m_tanh m_asinh m_acosh m_atanh m_log1p m_exp2 m_cbrt m_copysign m_dist m_fsum "
                                    "m_sumprod m_lcm m_perm m_modf m_remainder").split()},
         "operator": {"abs": "o_abs", "and_": "o_and", "or_": "o_or", "xor": "o_xor", "not_": "o_not", "invert": "o_invert",
                      "inv": "o_invert", "pos": "o_pos", "truth": "o_truth", "is_": "o_is", "is_not": "o_is_not",
                      "contains": "o_contains", "concat": "o_concat", "getitem": "o_getitem", "setitem": "o_setitem",
                      "delitem": "o_delitem", "index": "o_index", "iadd": "o_iadd", "isub": "o_isub", "imul": "o_imul",
                      "itruediv": "o_itruediv", "attrgetter": "o_attrgetter", "methodcaller": "o_methodcaller"},
         "itertools": {n[2:]: n for n in ("i_zip_longest i_accumulate i_starmap i_islice i_pairwise i_batched i_takewhile i_dropwhile "
                                         "i_filterfalse i_compress i_tee i_combinations_with_replacement").split()}}

_tree = None


def module(it):
    m = it.__dict__.get("py_prelude")
    if m is None:
        global _tree
        if _tree is None:
            _tree = ast.parse(SRC, "<library>")
        m = it.__dict__["py_prelude"] = it.load_prelude("torch.library", _tree)
        B = _I().Builtin
        raiser = lambda e: None if e is None else _I().PyRaise(e, it.where(), it.stack())
        m.ns["enter_manager"] = B("enter_manager", lambda c: it.enter(c))
        m.ns["exit_manager"] = B("exit_manager", lambda c, e: it.exit(c, raiser(e)))

        def unmodelled(what):
            raise Incomplete(what)
        from .torchlib import nt
        m.ns["named"] = B("named", lambda names, *v: nt(tuple(names.split()), *v))
        m.ns["functools_partial"] = LIB["functools.partial"].fn(it)
        m.ns["bind_method"] = B("bind_method", lambda f, o: _I().BoundMethod(f, o))
        m.ns["unmodelled"] = B("unmodelled", unmodelled)
    return m


def value(name):
    return Lazy(lambda it: module(it).ns[name])


def bound(name):
    def fn(t, *a, **k):
        it = ctx().interp
        return it.call(module(it).ns[name], [t] + list(a), k)
    return fn


for _n in BOTH:
    LIB.setdefault("torch." + _n, value(_n))
    METHODS.setdefault(_n, bound(_n))
for _n in TORCH:
    LIB.setdefault("torch." + _n, value(ALIAS.get(_n, _n)))
for _n in ONLY:
    METHODS.setdefault(_n, bound(ALIAS.get(_n, _n)))
for _n, _f in LINALG.items():
    LIB.setdefault("torch.linalg." + _n, value(_f))
LIB.setdefault("torch.func.vmap", value("vmap"))
LIB.setdefault("torch.special.xlogy", value("xlogy"))
LIB.setdefault("torch.special.logit", value("logit"))
for _n in FUNCTIONAL:
    LIB.setdefault("torch.nn.functional." + _n, value(_n))
for _n in ("batch_norm", "layer_norm", "instance_norm", "group_norm", "max_pool2d", "max_pool3d", "cosine_similarity", "dropout",
           "celu", "selu", "prelu", "adaptive_avg_pool1d", "embedding", "bilinear"):
    if "torch.nn.functional." + _n in LIB and _n not in ("batch_norm", "layer_norm", "instance_norm", "group_norm"):
        LIB.setdefault("torch." + _n, LIB["torch.nn.functional." + _n])
for _m, _d in NAMES.items():
    for _n, _f in _d.items():
        p = _m + "." + _n
        if p not in LIB or _m == "itertools":
            LIB[p] = value(_f)
