"""Model of torch tensors: operators, methods and functions of the torch namespace."""
import inspect

from . import terms as T
from . import tensor as X
from .terms import ZERO, ONE, tt
from .tensor import Tensor, Num, Incomplete, LibError, num_term, num_kind, mknum, is_num, norm, Device, CPU, ctx
from .lib import LIB, METHODS, DType, Lazy, to_device, to_dtype, text_key


def _I():
    from . import interp
    return interp


def any_(t):
    return METHODS["any"](t)


def all_storages():
    return [r() for r in ctx().storages]


# ------------------------------------------------------------------ helpers
def fl(t):
    """dtype of a function with real values"""
    return t.dtype if X.is_float(t.dtype) else "float32"


def plain(x):
    I = _I()
    if isinstance(x, I.PyList):
        return [plain(y) for y in x.items]
    if isinstance(x, tuple):
        return [plain(y) for y in x]
    if isinstance(x, range):
        return list(x)
    return x


def seq(x):
    """list or tuple (also a shape given by separate arguments)"""
    I = _I()
    if isinstance(x, I.PyList):
        return list(x.items)
    if isinstance(x, (tuple, list, range)):
        return list(x)
    if isinstance(x, I.Native) and "iterable" in x.attrs:
        return seq(x.attrs["iterable"])
    if isinstance(x, Tensor) and x.ndim == 1:
        n = norm(x.shape[0]).const
        if n is None:
            raise Incomplete("sequence of symbolic length")
        return [mknum(x.at(tt(k)), "int") for k in range(int(n))]
    return None


def sizes(a):
    """sizes from f(2, 3) or f((2, 3))"""
    if len(a) == 1:
        s = seq(a[0])
        if s is not None:
            a = s
    r = []
    for v in a:
        if isinstance(v, Tensor):
            v = Num(X.scalar_of(v), "int")
        if not is_num(v):
            from .lib import type_name
            raise LibError("TypeError", "sizes must be integers, got %s" % type_name(v))
        if num_kind(v) == "float":
            raise LibError("TypeError", "sizes must be integers, not float")
        r.append(norm(num_term(v)))
    return tuple(r)


def check_sizes(sh):
    for s in sh:
        c = s.const
        if c is not None and c < 0:
            raise LibError("RuntimeError", "negative dimension %s" % c)
    return sh


def shape_value(t):
    return tuple(X.size_num(s) for s in t.shape)


def cdim(d):
    if isinstance(d, Num):
        c = norm(d.term).const
        if c is None:
            raise Incomplete("symbolic axis number")
        return int(c)
    return d


def cdims(d):
    s = seq(d)
    if s is not None:
        return tuple(cdim(x) for x in s)
    return cdim(d)


def as_tensor(v, like=None):
    if isinstance(v, Tensor):
        return v
    if is_num(v):
        k = num_kind(v)
        t = num_term(v)
        return X.mk((), lambda: t, "float32" if k == "float" else "bool" if k == "bool" else "int64")
    s = seq(v)
    if s is not None:
        return X.tensor_from(plain(v))
    raise Incomplete("tensor expected, got %r" % (v,))


def need(v, what="argument"):
    if not isinstance(v, Tensor):
        from .lib import type_name
        raise LibError("TypeError", "%s must be Tensor, not %s" % (what, type_name(v)))
    return v


# ------------------------------------------------------------------ operators
_ARITH = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "MatMult": "matmul", "Pow": "pow", "Mod": "remainder",
          "FloorDiv": "floor_divide", "BitAnd": "bitwise_and", "BitOr": "bitwise_or", "BitXor": "bitwise_xor"}


def pow_term(x, y, isint=False):
    c = y.const
    if c is not None and int(c) == c and abs(c) <= 12:
        n = int(abs(c))
        r = ONE
        for _ in range(n):
            r = r * x
        return r if c >= 0 else T.inv(r)
    if c is not None and c * 2 == 1:
        return T.fun("sqrt", x)
    if c is not None and c * 2 == -1:
        return T.inv(T.fun("sqrt", x))
    return T.fun("pow", x, y)


def _bool_guard(op, a, b):
    ds = [x.dtype if isinstance(x, Tensor) else num_kind(x) for x in (a, b)]
    if op == "sub" and all(d == "bool" for d in ds):
        raise LibError("RuntimeError", "subtraction of two bool tensors is not supported")


def arith(op, a, b):
    dt = X.result_dtype([a, b])
    what = "torch." + op
    if op == "add":
        if dt == "bool":
            return X.ew(T.lor, [a, b], dt, what)
        return X.ew(lambda x, y: x + y, [a, b], dt, what)
    if op == "sub":
        _bool_guard(op, a, b)
        return X.ew(lambda x, y: x - y, [a, b], dt, what)
    if op == "mul":
        return X.ew(lambda x, y: x * y, [a, b], dt, what)
    if op == "div":
        if not X.is_float(dt):
            dt = "float32"
        return X.ew(lambda x, y: x * T.inv(y), [a, b], dt, what)
    if op == "floor_divide":
        if X.is_float(dt):
            return X.ew(lambda x, y: T.fun("floor", x * T.inv(y)), [a, b], dt, what, grad=False)
        return X.ew(T.floordiv, [a, b], dt, what)
    if op == "remainder":
        if X.is_float(dt):
            return X.ew(T.fmod, [a, b], dt, what)
        return X.ew(T.mod, [a, b], dt, what)
    if op == "pow":
        return X.ew(pow_term, [a, b], dt, what)
    if op == "matmul":
        return X.matmul(need(a), need(b))
    if op in ("bitwise_and", "bitwise_or", "bitwise_xor"):
        if dt != "bool":
            raise Incomplete(op + " on integers")
        f = {"bitwise_and": T.land, "bitwise_or": T.lor, "bitwise_xor": lambda x, y: T.lnot(T.eq(x, y))}[op]
        return X.ew(f, [a, b], "bool", what)
    raise Incomplete("operation " + op)


def tensor_binop(it, op, a, b):
    for x in (a, b):
        if not isinstance(x, Tensor) and not is_num(x):
            from .lib import type_name
            if op in ("Add", "Sub", "Mult", "Div", "Pow", "Mod"):
                it.raise_("TypeError", "unsupported operand type(s) for %s: %s and %s" % (
                    op, type_name(a), type_name(b)), lib=True)
            raise Incomplete("tensor operation with %r" % (x,))
    try:
        return arith(_ARITH[op], a, b)
    except LibError as e:
        it.raise_(e.cls, e.msg, lib=True)
    except KeyError:
        raise Incomplete("tensor operator " + op)


def tensor_unop(it, op, a):
    try:
        if op == "USub":
            if a.dtype == "bool":
                raise LibError("RuntimeError", "negation of a bool tensor is not supported")
            return X.ew(lambda x: -x, [a], a.dtype)
        if op == "UAdd":
            return a
        if op == "Invert":
            if a.dtype == "bool":
                return X.ew(T.lnot, [a], "bool")
            if X.is_intd(a.dtype):
                return X.ew(lambda x: -x - 1, [a], a.dtype)
            raise LibError("TypeError", "~ (operator.invert) is only implemented on integer and Boolean-type tensors")
    except LibError as e:
        it.raise_(e.cls, e.msg, lib=True)
    raise Incomplete("tensor operator " + op)


_CMP = {"Eq": lambda x, y: T.eq(x, y), "NotEq": lambda x, y: T.lnot(T.eq(x, y)), "Lt": lambda x, y: T.lt(x, y),
        "LtE": lambda x, y: T.le(x, y), "Gt": lambda x, y: T.lt(y, x), "GtE": lambda x, y: T.le(y, x)}


def cmp(op, a, b):
    return X.ew(_CMP[op], [a, b], "bool", "comparison", grad=False)


def tensor_compare(it, op, a, b):
    try:
        return cmp(op, a, b)
    except LibError as e:
        it.raise_(e.cls, e.msg, lib=True)


def check_leaf_write(it, t):
    if ctx().grad_on and not t.nograd and any(k == ("leaf", t.st.stamp) for k in t.st.grad):
        raise LibError("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation.")


def assign(t, v, what):
    """In-place result: dtype and shape rules, then write."""
    if isinstance(v, Tensor):
        if X.category(v.dtype) > X.category(t.dtype):
            raise LibError("RuntimeError", "result type %s can't be cast to the desired output type %s" % (v.dtype, t.dtype))
        if len(v.shape) != t.ndim or not all(X.same_size(a, b) for a, b in zip(v.shape, t.shape)):
            sh = X.broadcast_shapes([t.shape, v.shape], what)
            if len(sh) != t.ndim or not all(X.same_size(a, b) for a, b in zip(sh, t.shape)):
                raise LibError("RuntimeError", "%s: output with shape %s doesn't match the broadcast shape %s" % (
                    what, X.show_shape(t.shape), X.show_shape(sh)))
    check_leaf_write(None, t)
    X.write(t, v, what)
    return t


def inplace_binop(it, op, cur, val):
    if not isinstance(val, Tensor) and not is_num(val):
        raise Incomplete("in-place tensor operation with %r" % (val,))
    try:
        r = arith(_ARITH[op], cur, val)
        return assign(cur, r, "in-place " + _ARITH[op])
    except LibError as e:
        it.raise_(e.cls, e.msg, lib=True)


# ------------------------------------------------------------------ method tables
def method(*names):
    def deco(fn):
        for n in names:
            METHODS[n] = fn
        return fn
    return deco


def both(*names):
    """Method of tensors and function of the torch namespace."""
    def deco(fn):
        for n in names:
            METHODS[n] = fn
            LIB["torch." + n] = _builtin("torch." + n, fn)
        return fn
    return deco


def func(*names):
    def deco(fn):
        for n in names:
            LIB[n] = _builtin(n, fn)
        return fn
    return deco


def _builtin(name, fn):
    return Lazy(lambda it: _I().Builtin(name, fn))


def _cast(t, d):
    if t.dtype == d:
        return t
    if d == "bool":
        return X.ew(lambda x: T.lnot(T.eq(x, ZERO)), [t], d, grad=False)
    if X.is_intd(d) and X.is_float(t.dtype):
        return X.ew(lambda x: x if x.is_int else T.fun("trunc", x), [t], d, grad=False)
    X.note_narrow(t.dtype, d, t, "conversion")
    return X.ew(lambda x: x, [t], d)


def to_(t, dev=None, dtype=None):
    """t.to(...): the tensor itself when nothing changes."""
    r = t if dtype is None else _cast(t, dtype)
    if dev is not None and dev != r.device:
        q = X.ew(lambda x: x, [r], r.dtype)
        q.device = dev
        r = q
    return r


def copy_of(t):
    q = X.ew(lambda x: x, [t], t.dtype)
    q.device = t.device
    return q


def detach(t):
    if ctx().barrier and t.grad_deps and X.is_float(t.dtype):
        return X.mk(t.shape, X.marked(lambda *i, r=t.reader(): r(i)), t.dtype, t.device)
    r = X._view(t, t.shape, lambda i: i, lambda b: (ONE, b), t.contig)
    r.nograd = True
    return r


def requires(t):
    return bool(t.grad_deps)


def is_leaf(t):
    return not t.grad_deps or any(k == ("leaf", t.st.stamp) for k in t.grad_deps)


def set_requires(t, v):
    k = ("leaf", t.st.stamp)
    if v:
        if not X.is_float(t.dtype):
            raise LibError("RuntimeError", "only Tensors of floating point dtype can require gradients")
        if not t.st.grad:
            t.st.grad = t.st.grad | {k}
            ctx().leaves[t.st.stamp] = t
        t.nograd = False
        t.requires_grad = True
    else:
        if t.grad_deps and k not in t.grad_deps:
            raise LibError("RuntimeError", "you can only change requires_grad flags of leaf variables.")
        t.st.grad = t.st.grad - {k}
        ctx().leaves.pop(t.st.stamp, None)
        t.requires_grad = False


def tensor_attr(it, t, name):
    I = _I()
    if name in ("shape",):
        return shape_value(t)
    if name in ("ndim",):
        return t.ndim
    if name == "device":
        return t.device
    if name == "dtype":
        return DType(t.dtype)
    if name == "requires_grad":
        return requires(t)
    if name == "is_leaf":
        return is_leaf(t)
    if name == "grad":
        return t.attrs.get("grad")
    if name == "data":
        return detach(t)
    if name == "T":
        if t.ndim < 2:
            return t
        return X.permute(t, list(reversed(range(t.ndim))))
    if name in ("mT", "H", "mH"):
        return X.transpose(t, -1, -2)
    if name == "is_cuda":
        return t.device.name.startswith("cuda")
    if name == "grad_fn":
        return None if is_leaf(t) else I.Native("grad_fn")
    if name == "names":
        return (None,) * t.ndim
    if name == "layout":
        return I.Native("strided")
    if name == "itemsize":
        return 4
    if name in ("__class__",):
        return it.param_type if t.is_param else it.tensor_type
    if name in t.attrs:
        return t.attrs[name]
    if name.startswith("__") and name.endswith("__"):
        op = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__matmul__": "MatMult",
              "__pow__": "Pow", "__mod__": "Mod"}.get(name)
        if op:
            return I.Builtin(name, lambda o: tensor_binop(it, op, t, o))
        if name == "__getitem__":
            return I.Builtin(name, lambda i: it.getitem(t, i))
        if name == "__len__":
            return I.Builtin(name, lambda: X.size_num(t.shape[0]))
    fn = METHODS.get(name)
    if fn is not None:
        return I.Builtin("Tensor." + name, _bound(fn, t))
    if name.endswith("_") and not name.startswith("_") and name[:-1] in METHODS:
        base = METHODS[name[:-1]]
        return I.Builtin("Tensor." + name, _inplace(base, t, name))
    if name in _NOT_MODELLED or name.startswith("_"):
        raise Incomplete("Tensor.%s is not modelled" % name)
    it.raise_("AttributeError", "'Tensor' object has no attribute %r" % name)


_NOT_MODELLED = {"numpy", "tolist", "storage", "stride", "data_ptr", "register_hook", "unfold", "as_strided", "svd", "qr",
                 "fft", "histc", "bincount", "unique_consecutive", "index_copy_", "index_put_", "put_", "cpu_",
                 "share_memory_", "is_shared", "storage_offset", "untyped_storage", "retain_grad", "apply_", "map_",
                 "cholesky", "eig", "symeig", "kthvalue", "mode", "quantile", "nanquantile", "lerp", "logcumsumexp"}


def _bound(fn, t):
    def f(*a, **k):
        return fn(t, *a, **k)
    try:
        sg = inspect.signature(fn)
        ps = list(sg.parameters.values())
        if ps and ps[0].kind in (ps[0].POSITIONAL_ONLY, ps[0].POSITIONAL_OR_KEYWORD):
            ps = ps[1:]
        f.__signature__ = sg.replace(parameters=ps)
    except (TypeError, ValueError):
        pass
    return f


def _inplace(fn, t, name):
    g = _bound(fn, t)

    def f(*a, **k):
        return assign(t, g(*a, **k), "Tensor." + name)
    if hasattr(g, "__signature__"):
        f.__signature__ = g.__signature__
    return f


def tensor_setattr(it, t, name, v):
    try:
        if name == "requires_grad":
            set_requires(t, it.truth(v))
            return
        if name == "data":
            if not isinstance(v, Tensor):
                raise LibError("TypeError", "Variable data has to be a tensor, but got %r" % (v,))
            if t.fwd is None and t.is_param:
                X.note_write(t, "assignment to .data")
                r = v.reader()
                t.st.replace(lambda *i: r(i))
                t.st.shape = v.shape
                t.shape = v.shape
                return
            X.write(detach(t), v, "assignment to .data")
            return
        if name == "grad":
            t.attrs["grad"] = v
            return
        t.attrs[name] = v
    except LibError as e:
        it.raise_(e.cls, e.msg, lib=True)


# ------------------------------------------------------------------ conversions and simple methods
@method("size")
def m_size(t, dim=None):
    if dim is None:
        return shape_value(t)
    return X.size_num(t.shape[X.dim_of(cdim(dim), t.ndim)])


@method("dim", "ndimension")
def m_dim(t):
    return t.ndim


@both("numel")
def m_numel(t):
    return X.size_num(X.numel(t.shape))


LIB["torch.is_tensor"] = _builtin("torch.is_tensor", lambda x: isinstance(x, Tensor))
METHODS["nelement"] = m_numel


@method("element_size")
def m_esize(t):
    return 4


@method("is_contiguous")
def m_is_contiguous(t):
    if t.contig is None:
        raise Incomplete("is_contiguous of a tensor of unknown layout")
    return t.contig is True


@method("item")
def m_item(t):
    for s in t.shape:
        if norm(s).const not in (None, 1):
            raise LibError("RuntimeError", "a Tensor with %s elements cannot be converted to Scalar" % X.show_shape(t.shape))
    return mknum(X.scalar_of(t), "float" if X.is_float(t.dtype) else "bool" if t.dtype == "bool" else "int")


@method("tolist")
def m_tolist(t):
    I = _I()
    if t.ndim == 0:
        return m_item(t)
    n = norm(t.shape[0]).const
    if n is None:
        raise Incomplete("tolist of symbolic length")
    return I.PyList([m_tolist(X.select(t, 0, k)) for k in range(int(n))])


@method("to")
def m_to(t, *a, device=None, dtype=None, non_blocking=False, copy=False, memory_format=None, other=None):
    I = _I()
    dev, dt = device, dtype
    for x in a:
        if isinstance(x, Tensor):
            dev, dt = x.device, DType(x.dtype)
        elif isinstance(x, DType) or isinstance(x, I.TypeV):
            dt = x
        elif isinstance(x, (str, I.SymStr, Device)) or (isinstance(x, int) and not isinstance(x, bool)):
            dev = x
        elif isinstance(x, bool) or x is None:
            pass
        else:
            raise LibError("TypeError", "to() received an invalid argument")
    if other is not None:
        dev, dt = other.device, DType(other.dtype)
    r = to_(t, None if dev is None else to_device(None, dev), to_dtype(dt))
    if copy is True and r is t:
        r = copy_of(t)
    return r


@method("cpu")
def m_cpu(t, memory_format=None):
    return to_(t, CPU)


@method("cuda")
def m_cuda(t, device=None, non_blocking=False, memory_format=None):
    return to_(t, Device("cuda") if device is None else to_device(None, device))


def _castm(name, d):
    METHODS[name] = lambda t, memory_format=None: to_(t, None, d)


for _n, _d in (("float", "float32"), ("double", "float64"), ("half", "float16"), ("bfloat16", "bfloat16"),
               ("long", "int64"), ("int", "int32"), ("short", "int16"), ("char", "int8"), ("byte", "uint8"),
               ("bool", "bool")):
    _castm(_n, _d)


@method("type")
def m_type(t, dtype=None, non_blocking=False):
    if dtype is None:
        return "torch.FloatTensor"
    return to_(t, None, to_dtype(dtype))


@method("type_as")
def m_type_as(t, other):
    return to_(t, other.device, other.dtype)


@method("is_floating_point")
def m_isf(t):
    return X.is_float(t.dtype)


LIB["torch.is_floating_point"] = _builtin("torch.is_floating_point", m_isf)


@method("detach", "detach_", "data_")
def m_detach(t):
    return detach(t)


@both("clone")
def m_clone(t, memory_format=None):
    return copy_of(t)


@method("contiguous")
def m_contiguous(t, memory_format=None):
    if t.contig is True:
        return t
    if t.contig is None:
        # copy or alias: only a later write could tell them apart
        r = copy_of(t)
        r.attrs["maybe_alias"] = t
        return r
    return copy_of(t)


@method("requires_grad_")
def m_rg(t, requires_grad=True):
    set_requires(t, bool(requires_grad))
    return t


@method("get_device")
def m_getdev(t):
    return -1 if t.device == CPU else 0


@method("zero_")
def m_zero_(t):
    check_leaf_write(None, t)
    return X.write(t, 0, "Tensor.zero_")


@method("fill_")
def m_fill_(t, value):
    check_leaf_write(None, t)
    if isinstance(value, Tensor):
        value = mknum(X.scalar_of(value), "float")
    return X.write(t, value, "Tensor.fill_")


@method("copy_")
def m_copy_(t, src, non_blocking=False):
    check_leaf_write(None, t)
    src = need(src)
    if src.device != t.device:
        src = to_(src, t.device)
    return X.write(t, src, "Tensor.copy_")


@method("uniform_")
def m_uniform_(t, a=0.0, b=1.0, generator=None):
    check_leaf_write(None, t)
    d = draw("uniform", t.shape, t.dtype, t.device)
    lo, hi = num_term(a), num_term(b)
    X.write(t, X.ew(lambda x: lo + x * (hi - lo), [d], t.dtype), "Tensor.uniform_")
    return t


@method("normal_")
def m_normal_(t, mean=0.0, std=1.0, generator=None):
    check_leaf_write(None, t)
    d = draw("normal", t.shape, t.dtype, t.device)
    m, s = num_term(mean), num_term(std)
    X.write(t, X.ew(lambda x: m + x * s, [d], t.dtype), "Tensor.normal_")
    return t


@method("set_")
def m_set_(t, source=None):
    raise Incomplete("Tensor.set_")


@method("new_tensor")
def m_new_tensor(t, data, dtype=None, device=None, requires_grad=False):
    return f_tensor(data, dtype=dtype or DType(t.dtype), device=device or t.device)


# ------------------------------------------------------------------ factories
def _flag(t, requires_grad):
    if requires_grad is True:
        set_requires(t, True)
    return t


def dt_of(dtype, default):
    return to_dtype(dtype) or default


def const_tensor(sh, v, dtype, device):
    v = tt(v)
    return X.mk(check_sizes(sh), lambda *i: v, dtype, device)


def uninit(sh, dtype, device):
    n = next(ctx().uninit)
    return X.mk(check_sizes(sh), lambda *i: T.of_atom(T.atom("uninit", n, *[tt(x) for x in i])), dtype, device)


def draw(kind, sh, dtype, device, lo=None, hi=None):
    c = ctx()
    c.draws += 1
    name = "%s#%d" % (kind, c.draws)
    lf = T.Leaf(name, is_int=(kind == "randint"), note=kind)
    c.draw_log.append({"kind": kind, "shape": tuple(sh), "where": c.where(), "leaf": lf, "lo": lo, "hi": hi})
    return X.mk(check_sizes(tuple(sh)), lambda *i: T.elem(lf, *i), dtype, device)


def _factory(name, make):
    def f(*size, out=None, dtype=None, layout=None, device=None, pin_memory=False, requires_grad=False,
          generator=None, memory_format=None, names=None):
        if not size:
            size = ((),)
        return _flag(make(sizes(size), dt_of(dtype, "float32"), to_device(None, device)), requires_grad)
    LIB["torch." + name] = _builtin("torch." + name, f)

    def g(t, *size, dtype=None, device=None, requires_grad=False, layout=None, pin_memory=False):
        return _flag(make(sizes(size), dt_of(dtype, t.dtype), t.device if device is None else to_device(None, device)),
                     requires_grad)
    METHODS["new_" + name] = g

    def h(input, dtype=None, layout=None, device=None, requires_grad=False, memory_format=None):
        t = need(input)
        return _flag(make(tuple(norm(s) for s in t.shape), dt_of(dtype, t.dtype),
                          t.device if device is None else to_device(None, device)), requires_grad)
    LIB["torch.%s_like" % name] = _builtin("torch.%s_like" % name, h)


_factory("zeros", lambda s, d, v: const_tensor(s, ZERO, d, v))
_factory("ones", lambda s, d, v: const_tensor(s, ONE, d, v))
_factory("empty", uninit)
_factory("rand", lambda s, d, v: draw("uniform", s, d, v))
_factory("randn", lambda s, d, v: draw("normal", s, d, v))


@func("torch.full")
def f_full(size, fill_value, out=None, dtype=None, layout=None, device=None, requires_grad=False):
    if isinstance(fill_value, Tensor):
        fill_value = mknum(X.scalar_of(fill_value), "float")
    k = num_kind(fill_value)
    d = dt_of(dtype, "float32" if k == "float" else "bool" if k == "bool" else "int64")
    return _flag(const_tensor(sizes((size,)), num_term(fill_value), d, to_device(None, device)), requires_grad)


@func("torch.full_like")
def f_full_like(input, fill_value, dtype=None, layout=None, device=None, requires_grad=False, memory_format=None):
    return const_tensor(tuple(norm(s) for s in input.shape), num_term(fill_value), dt_of(dtype, input.dtype),
                        input.device if device is None else to_device(None, device))


@method("new_full")
def m_new_full(t, size, fill_value, dtype=None, device=None, requires_grad=False):
    return f_full(size, fill_value, dtype=dtype or DType(t.dtype), device=device or t.device)


@func("torch.randint")
def f_randint(low, high=None, size=None, generator=None, out=None, dtype=None, layout=None, device=None,
              requires_grad=False):
    if size is None:
        low, high, size = 0, low, high
    return draw("randint", sizes((size,)), dt_of(dtype, "int64"), to_device(None, device), low, high)


@func("torch.randperm")
def f_randperm(n, generator=None, out=None, dtype=None, layout=None, device=None, requires_grad=False):
    d = draw("randperm", (norm(num_term(n)),), dt_of(dtype, "int64"), to_device(None, device))
    return d


@func("torch.normal")
def f_normal(mean, std=1.0, size=None, generator=None, out=None, dtype=None, device=None):
    if size is not None:
        sh = sizes((size,))
    else:
        sh = X.broadcast_shapes([x.shape for x in (mean, std) if isinstance(x, Tensor)])
    d = draw("normal", sh, dt_of(dtype, "float32"), to_device(None, device))
    return X.ew(lambda x, m, s: m + x * s, [d, mean, std], d.dtype)


@func("torch.bernoulli")
def f_bernoulli(input, generator=None, out=None):
    d = draw("uniform", input.shape, input.dtype, input.device)
    return X.ew(lambda u, p: T.lt(u, p), [d, input], input.dtype, grad=False)


METHODS["bernoulli"] = lambda t, p=None, generator=None: f_bernoulli(t)


@func("torch.tensor")
def f_tensor(data, dtype=None, device=None, requires_grad=False, pin_memory=False):
    dev = to_device(None, device)
    dt = to_dtype(dtype)
    if isinstance(data, Tensor):
        r = copy_of(data)
        r.st.grad = frozenset()
        r = to_(r, dev if device is not None else None, dt)
        return _flag(r, requires_grad)
    if is_num(data):
        r = as_tensor(data)
        r = _cast(r, dt) if dt else r
        r.device = dev
        return _flag(r, requires_grad)
    s = seq(data)
    if s is None:
        raise LibError("TypeError", "new(): data must be a sequence, got %r" % (data,))
    return _flag(X.tensor_from(plain(data), dt, dev), requires_grad)


@func("torch.as_tensor", "torch.asarray")
def f_as_tensor(data, dtype=None, device=None, copy=None):
    if isinstance(data, Tensor):
        return to_(data, None if device is None else to_device(None, device), to_dtype(dtype))
    return f_tensor(data, dtype, device)


@func("torch.from_numpy")
def f_np(x):
    raise Incomplete("numpy")


@func("torch.scalar_tensor")
def f_scalar_tensor(s, dtype=None, device=None):
    return f_tensor(s, dtype, device)


@func("torch.eye")
def f_eye(n, m=None, out=None, dtype=None, layout=None, device=None, requires_grad=False):
    sh = sizes(((n, n if m is None else m),))
    return _flag(X.mk(check_sizes(sh), lambda i, j: T.eq(i, j), dt_of(dtype, "float32"), to_device(None, device)),
                 requires_grad)


@func("torch.arange")
def f_arange(*a, start=None, end=None, step=None, out=None, dtype=None, layout=None, device=None, requires_grad=False):
    a = list(a)
    if end is not None:
        lo, hi, st = (start if start is not None else (a[0] if a else 0)), end, step if step is not None else 1
    elif len(a) == 1:
        lo, hi, st = 0, a[0], 1 if step is None else step
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1 if step is None else step
    else:
        lo, hi, st = a
    lo, hi, st = [mknum(X.scalar_of(x), "float" if X.is_float(x.dtype) else "int") if isinstance(x, Tensor) else x
                  for x in (lo, hi, st)]
    fltd = "float" in (num_kind(lo), num_kind(hi), num_kind(st))
    lo, hi, st = norm(num_term(lo)), norm(num_term(hi)), norm(num_term(st))
    if st.const == 0:
        raise LibError("RuntimeError", "step must be nonzero")
    d = hi - lo
    if d.const is not None and st.const is not None:
        import math
        from fractions import Fraction
        n = tt(max(0, math.ceil(Fraction(d.const) / Fraction(st.const))))
    elif st.const in (1, -1):
        n = d * st
        if not n.is_int:
            n = -T.fun("floor", -n)
        if not T.nonneg(n):
            if ctx().decider is not None and ctx().decider(T.lt(n, ZERO)):
                n = ZERO
    elif d.is_int and st.is_int:
        n = T.floordiv(d + st - 1, st)
    else:
        n = -T.fun("floor", -(d * T.inv(st)))
        if not n.is_int:
            # length of a real range
            r = d * T.inv(st)
            if not r.is_int:
                raise Incomplete("arange of real length")
            n = r
    return _flag(X.mk((norm(n),), lambda i: lo + i * st, dt_of(dtype, "float32" if fltd else "int64"),
                      to_device(None, device)), requires_grad)


@func("torch.linspace")
def f_linspace(start, end, steps, out=None, dtype=None, layout=None, device=None, requires_grad=False):
    a, b = [X.scalar_of(x) if isinstance(x, Tensor) else num_term(x) for x in (start, end)]
    if isinstance(steps, Tensor):
        steps = mknum(X.scalar_of(steps), "int")
    if num_kind(steps) == "float":
        raise LibError("TypeError", "linspace(): steps must be int, not float")
    n = norm(num_term(steps))
    if n.const is not None and n.const < 0:
        raise LibError("RuntimeError", "number of steps must be non-negative")
    one = n.const == 1
    if n.const is None and not T.nonneg(n - 2):
        if ctx().decider is None:
            raise Incomplete("linspace of unknown length")
        one = ctx().decider(T.eq(n, ONE))
        n = norm(n)
    if one:
        fn = lambda i: a
    else:
        q = T.inv(n - 1)
        fn = lambda i: a + (b - a) * i * q
    return _flag(X.mk((n,), fn, dt_of(dtype, "float32"), to_device(None, device)), requires_grad)


@func("torch.logspace")
def f_logspace(start, end, steps, base=10.0, **k):
    r = f_linspace(start, end, steps)
    b = num_term(base)
    return X.ew(lambda x: T.fun("pow", b, x), [r])


@func("torch.meshgrid")
def f_meshgrid(*tensors, indexing=None):
    ts = tensors
    if len(ts) == 1 and seq(ts[0]) is not None and not isinstance(ts[0], Tensor):
        ts = seq(ts[0])
    ts = [need(t) for t in ts]
    xy = indexing == "xy"
    if indexing not in (None, "ij", "xy"):
        raise LibError("RuntimeError", "meshgrid: indexing must be 'xy' or 'ij'")
    order = list(range(len(ts)))
    if xy and len(ts) >= 2:
        order[0], order[1] = 1, 0
    sh = [ts[k].shape[0] if ts[k].ndim else ONE for k in order]
    out = []
    for k, t in enumerate(ts):
        pos = order.index(k)
        v = t if t.ndim else X.unsqueeze(t, 0)
        for _ in range(pos):
            v = X.unsqueeze(v, 0)
        for _ in range(len(ts) - 1 - pos):
            v = X.unsqueeze(v, v.ndim)
        out.append(X.expand(v, [mknum(s, "int") for s in sh]))
    return tuple(out)


@func("torch.cartesian_prod")
def f_cart(*tensors):
    g = f_meshgrid(*tensors, indexing="ij")
    return X.stack([X.flatten(x) for x in g], -1)


def _tri_indices(name, keep):
    @func("torch.%s_indices" % name)
    def f(row, col, offset=0, dtype=None, device=None, layout=None):
        r, c, o = (norm(num_term(v)).const for v in (row, col, offset))
        if r is None or c is None or o is None:
            raise Incomplete("index factories of symbolic size")
        ps = [(i, j) for i in range(int(r)) for j in range(int(c)) if keep(i, j, int(o))]
        if not ps:
            return X.mk((tt(2), ZERO), lambda *i: ZERO, "int64")
        return X.tensor_from([[p[k] for p in ps] for k in range(2)], "int64", to_device(None, device))
    return f


_tri_indices("tril", lambda i, j, o: j - i <= o)
_tri_indices("triu", lambda i, j, o: j - i >= o)


@func("torch.manual_seed", "torch.seed", "torch.random.manual_seed")
def f_seed(seed=0):
    ctx().event("rng", "the global random state is reset")


@func("torch.Generator")
def f_generator(device=None):
    I = _I()
    g = I.Native("generator")
    g.attrs["manual_seed"] = I.Builtin("manual_seed", lambda s: g)
    return g


@func("torch.device")
def f_device(type, index=None):
    if isinstance(type, Device):
        return type
    return to_device(None, type if index is None else "%s:%d" % (type, index))


@func("torch.get_default_dtype")
def f_gdd():
    return DType("float32")


@func("torch.is_grad_enabled")
def f_ige():
    return ctx().grad_on


@func("torch.set_grad_enabled")
def f_sge(mode=True):
    I = _I()
    old = ctx().grad_on
    ctx().grad_on = mode
    n = I.Native("gradmode", on=mode)
    n.attrs["saved"] = []
    n.attrs["before"] = old
    return n


@func("torch.cuda.is_available")
def f_cuda_av():
    return mknum(T.ind("streq", "cuda", "available"), "bool")


def gradmode(on):
    def f(orig_func=None):
        I = _I()
        if orig_func is not None:
            return decorate(orig_func)
        n = I.Native("gradmode", on=on)
        n.attrs["call"] = decorate
        return n

    def decorate(f):
        I = _I()
        if isinstance(f, I.Func):
            g = I.Func(f.node, f.module, f.closure, f.name, f.qual, f.defaults, f.kwdefaults, f.cls, f.is_lambda)
            g.attrs = dict(f.attrs)
            g.attrs["*grad"] = on
            return g
        raise Incomplete("no_grad around %r" % (f,))
    return f


LIB["torch.no_grad"] = _builtin("torch.no_grad", gradmode(False))
LIB["torch.inference_mode"] = _builtin("torch.inference_mode", lambda mode=True: gradmode(not mode)())
LIB["torch.enable_grad"] = _builtin("torch.enable_grad", gradmode(True))
LIB["torch.autograd.no_grad"] = LIB["torch.no_grad"]
LIB["torch.autograd.set_detect_anomaly"] = _builtin("x", lambda *a, **k: _I().Native("nullcontext"))

for _d in X.FLOATS + X.INTS + ("bool", "complex64"):
    LIB["torch." + _d] = DType(_d)
for _a, _d in (("float", "float32"), ("double", "float64"), ("half", "float16"), ("long", "int64"), ("int", "int32"),
               ("short", "int16")):
    LIB["torch." + _a] = DType(_d)
LIB["torch.pi"] = Num(T.PI, "float")
LIB["torch.inf"] = Num(T.of_atom(T.INF), "float")
LIB["torch.e"] = Num(T.fun("exp", ONE), "float")
LIB["torch.nan"] = Num(T.opq("nan"), "float")
for _n in ("strided", "contiguous_format", "channels_last", "preserve_format"):
    LIB["torch." + _n] = Lazy(lambda it: _I().Native("layout"))
LIB["torch.Tensor"] = Lazy(lambda it: it.tensor_type)
LIB["torch.FloatTensor"] = Lazy(lambda it: it.tensor_type)
LIB["torch.dtype"] = Lazy(lambda it: _I().TypeV("dtype", None, lambda x: isinstance(x, DType)))
LIB["torch.Size"] = Lazy(lambda it: _I().TypeV("Size", lambda x=(): tuple(it.iterate(x)), lambda x: isinstance(x, tuple)))
LIB["torch.BoolTensor"] = LIB["torch.LongTensor"] = LIB["torch.Tensor"]


def dtype_limits(dtype=None):
    I = _I()
    return I.Native("finfo", eps=Num(T.sym("eps"), "float"), max=Num(T.sym("fmax"), "float"),
                    min=Num(-T.sym("fmax"), "float"), tiny=Num(T.sym("tiny"), "float"))


LIB["torch.finfo"] = _builtin("torch.finfo", dtype_limits)


# ------------------------------------------------------------------ elementwise functions
def _unary(name, f, keep=False, grad=True, *alias):
    def g(input, out=None):
        t = need(input, "torch.%s argument 'input'" % name)
        r = X.ew(f, [t], t.dtype if keep else fl(t), "torch." + name, grad=grad)
        return into(out, r)
    g.__name__ = name
    for n in (name,) + alias:
        METHODS[n] = g
        LIB["torch." + n] = _builtin("torch." + n, g)
        LIB["torch.special." + n] = _builtin("torch." + n, g)


def into(out, r):
    if out is None:
        return r
    return assign(out, r, "out=")


_unary("sin", lambda x: T.fun("sin", x))
_unary("cos", lambda x: T.fun("cos", x))
_unary("tan", lambda x: T.fun("sin", x) * T.inv(T.fun("cos", x)))
_unary("asin", lambda x: T.scale(T.PI, T.Fraction(1, 2)) - T.fun("acos", x), False, True, "arcsin")
_unary("acos", lambda x: T.fun("acos", x), False, True, "arccos")
_unary("atan", lambda x: T.fun("atan2", x, ONE), False, True, "arctan")
_unary("sinh", lambda x: (T.fun("exp", x) - T.fun("exp", -x)) / 2)
_unary("cosh", lambda x: (T.fun("exp", x) + T.fun("exp", -x)) / 2)
_unary("tanh", lambda x: T.fun("tanh", x))
_unary("sigmoid", lambda x: T.inv(ONE + T.fun("exp", -x)), False, True, "expit")
_unary("exp", lambda x: T.fun("exp", x))
_unary("exp2", lambda x: T.fun("pow", tt(2), x))
_unary("expm1", lambda x: T.fun("exp", x) - 1)
_unary("log", lambda x: T.fun("log", x))
_unary("log1p", lambda x: T.fun("log", x + 1))
_unary("log2", lambda x: T.fun("log", x) * T.inv(T.fun("log", tt(2))))
_unary("log10", lambda x: T.fun("log", x) * T.inv(T.fun("log", tt(10))))
_unary("sqrt", lambda x: T.fun("sqrt", x))
_unary("rsqrt", lambda x: T.inv(T.fun("sqrt", x)))
_unary("square", lambda x: x * x, True)
_unary("abs", lambda x: T.fun("abs", x), True, True, "absolute")
_unary("neg", lambda x: -x, True, True, "negative")
_unary("positive", lambda x: x, True)
_unary("sign", lambda x: T.fun("sgn", x), True, False, "sgn")
_unary("floor", lambda x: T.fun("floor", x), True, False)
_unary("ceil", lambda x: -T.fun("floor", -x), True, False)
_unary("round", lambda x: x if x.is_int else T.fun("round", x), True, False)
_unary("trunc", lambda x: x if x.is_int else T.fun("trunc", x), True, False, "fix")
_unary("frac", lambda x: x - T.fun("trunc", x), True)
_unary("reciprocal", lambda x: T.inv(x))
_unary("deg2rad", lambda x: x * T.PI * T.inv(tt(180)))
_unary("rad2deg", lambda x: x * T.inv(T.PI) * 180)
_unary("erf", lambda x: T.fun("erf", x))
_unary("relu", lambda x: T.fun("max", x, ZERO), True)
_unary("sinc", lambda x: T.fun("sinc", x))


def _pred(name, f):
    def g(input):
        return X.ew(f, [need(input)], "bool", grad=False)
    METHODS[name] = g
    LIB["torch." + name] = _builtin("torch." + name, g)


_pred("isnan", lambda x: T.eq(x, T.opq("nan")) if x.const is None else ZERO)
_pred("isinf", lambda x: ONE if x is T.of_atom(T.INF) else ZERO if x.const is not None else T.of_atom(T.atom("ind", "nz", T.fun("isinf", x))))
_pred("isfinite", lambda x: ZERO if x is T.of_atom(T.INF) else ONE if x.const is not None else ONE - T.of_atom(T.atom("ind", "nz", T.fun("isinf", x))))


@both("logical_not")
def f_not(input, out=None):
    return X.ew(T.lnot, [_cast(need(input), "bool")], "bool", grad=False)


@both("bitwise_not")
def f_bnot(input, out=None):
    return tensor_unop(ctx().interp, "Invert", input)


def _logic(name, f):
    def g(input, other, out=None):
        return X.ew(f, [_cast(as_tensor(input), "bool"), _cast(as_tensor(other), "bool")], "bool", grad=False)
    METHODS[name] = g
    LIB["torch." + name] = _builtin("torch." + name, g)


_logic("logical_and", T.land)
_logic("logical_or", T.lor)
_logic("logical_xor", lambda x, y: T.lnot(T.eq(x, y)))


def _check_operand(x, name):
    if not isinstance(x, Tensor) and not is_num(x):
        from .lib import type_name
        raise LibError("TypeError", "torch.%s(): argument must be Tensor or number, not %s" % (name, type_name(x)))


def _binary(name, op, alpha=False):
    if alpha:
        def g(input, other, alpha=1, out=None):
            _check_operand(other, name)
            if not (isinstance(alpha, int) and alpha == 1):
                other = arith("mul", other, alpha) if isinstance(other, Tensor) else mknum(
                    num_term(other) * num_term(alpha), "float")
            return into(out, arith(op, input, other))
    else:
        def g(input, other, out=None):
            _check_operand(other, name)
            if not isinstance(input, Tensor) and not isinstance(other, Tensor):
                raise LibError("TypeError", "torch.%s needs a tensor" % name)
            return into(out, arith(op, input, other))
    METHODS[name] = g
    LIB["torch." + name] = _builtin("torch." + name, g)


_binary("add", "add", True)
_binary("sub", "sub", True)
_binary("subtract", "sub", True)
_binary("mul", "mul")
_binary("multiply", "mul")
_binary("true_divide", "div")
_binary("floor_divide", "floor_divide")
_binary("remainder", "remainder")
_binary("bitwise_and", "bitwise_and")
_binary("bitwise_or", "bitwise_or")
_binary("bitwise_xor", "bitwise_xor")
_binary("matmul", "matmul")


@both("div", "divide")
def f_div(input, other, rounding_mode=None, out=None):
    r = arith("div", input, other)
    if rounding_mode == "floor":
        r = arith("floor_divide", input, other)
    elif rounding_mode == "trunc":
        r = X.ew(lambda x: T.fun("trunc", x), [r])
    return into(out, r)


@both("pow")
def f_pow(input, exponent, out=None):
    return into(out, arith("pow", input, exponent))


@both("fmod")
def f_fmod(input, other, out=None):
    # sign of the dividend
    dt = X.result_dtype([input, other])
    return X.ew(lambda x, y: T.fun("cfmod", x, y), [input, other], dt)


@both("rsub")
def f_rsub(input, other, alpha=1):
    return arith("sub", other, input)


@both("float_power")
def f_fpow(input, exponent):
    return arith("pow", input, exponent)


@both("addcmul")
def f_addcmul(input, t1, t2, value=1):
    v = num_term(value)
    return X.ew(lambda a, b, c: a + v * b * c, [input, t1, t2])


@both("addcdiv")
def f_addcdiv(input, t1, t2, value=1):
    v = num_term(value)
    return X.ew(lambda a, b, c: a + v * b * T.inv(c), [input, t1, t2])


@both("lerp")
def f_lerp(input, end, weight):
    X.same_dtype("lerp", input, end, weight)
    return X.ew(lambda a, b, w: a + w * (b - a), [input, end, weight])


@both("atan2", "arctan2")
def f_atan2(input, other, out=None):
    a, b = as_tensor(input), as_tensor(other)
    dt = X.result_dtype([a, b])
    return X.ew(lambda y, x: T.fun("atan2", y, x), [a, b], dt if X.is_float(dt) else "float32")


@both("hypot")
def f_hypot(input, other):
    return X.ew(lambda x, y: T.fun("sqrt", x * x + y * y), [input, other])


@both("copysign")
def f_copysign(input, other):
    return X.ew(lambda x, y: T.fun("abs", x) * T.ite(T.lt(y, ZERO), tt(-1), ONE), [input, other])


def _cmpf(name, op):
    def g(input, other, out=None):
        return cmp(op, input, other)
    for n in name:
        METHODS[n] = g
        LIB["torch." + n] = _builtin("torch." + n, g)


_cmpf(("eq",), "Eq")
_cmpf(("ne", "not_equal"), "NotEq")
_cmpf(("lt", "less"), "Lt")
_cmpf(("le", "less_equal"), "LtE")
_cmpf(("gt", "greater"), "Gt")
_cmpf(("ge", "greater_equal"), "GtE")


@both("equal")
def f_equal(input, other):
    if input.ndim != other.ndim:
        return False
    for a, b in zip(input.shape, other.shape):
        if not X.same_size(a, b):
            if X.differ(a, b):
                return False
            if not ctx().decider(T.eq(a, b)):
                return False
    return mknum(X.scalar_of(METHODS["all"](cmp("Eq", input, other))), "bool")


def close_to(x, y, rtol, atol):
    return T.le(T.fun("abs", x - y), atol + rtol * T.fun("abs", y))


@both("isclose")
def f_isclose(input, other, rtol=Num(tt(1e-5), "float"), atol=Num(tt(1e-8), "float"), equal_nan=False):
    r, a = num_term(rtol), num_term(atol)
    return X.ew(lambda x, y: close_to(x, y, r, a), [input, other], "bool", grad=False)


@both("allclose")
def f_allclose(input, other, rtol=Num(tt(1e-5), "float"), atol=Num(tt(1e-8), "float"), equal_nan=False):
    return mknum(X.scalar_of(METHODS["all"](f_isclose(input, other, rtol, atol))), "bool")


@both("clamp", "clip")
def f_clamp(input, min=None, max=None, out=None):
    t = need(input)
    if min is None and max is None:
        raise LibError("ValueError", "clamp: at least one of min or max must not be None")
    args = [t] + [m for m in (min, max) if m is not None]
    dt = X.result_dtype(args)
    if min is None:
        r = X.ew(lambda x, h: T.fun("min", x, h), args, dt)
    elif max is None:
        r = X.ew(lambda x, l: T.fun("max", x, l), args, dt)
    else:
        r = X.ew(lambda x, l, h: T.fun("clamp", x, l, h), args, dt)
    return into(out, r)


@both("clamp_min")
def f_clamp_min(input, min):
    return f_clamp(input, min)


@both("clamp_max")
def f_clamp_max(input, max):
    return f_clamp(input, None, max)


@both("nan_to_num")
def f_n2n(input, nan=0.0, posinf=None, neginf=None):
    return X.ew(lambda x: x, [input], input.dtype)


@both("maximum", "fmax")
def f_maximum(input, other, out=None):
    return into(out, X.ew(lambda x, y: T.fun("max", x, y), [need(input), need(other)]))


@both("minimum", "fmin")
def f_minimum(input, other, out=None):
    return into(out, X.ew(lambda x, y: T.fun("min", x, y), [need(input), need(other)]))


@both("where")
def f_where(condition, input=None, other=None, out=None):
    if input is None:
        return f_nonzero(condition, as_tuple=True)
    c = need(condition)
    if c.dtype != "bool":
        raise LibError("RuntimeError", "where expected condition to be a boolean tensor")
    for v in (input, other):
        _check_operand(v, "where")
    dt = X.result_dtype([input, other])

    def f(c_, x, y):
        return T.ite(c_, x, y)
    return into(out, X.ew(f, [c, input, other], dt, "torch.where"))


METHODS["where"] = lambda t, condition, other: f_where(condition, t, other)


@both("nonzero")
def f_nonzero(input, as_tuple=False, out=None):
    t = need(input)
    m = X.mask_lam(_cast(t, "bool"))
    n = T.count(m)
    cols = [X.mk((n,), lambda k, d=d: T.nth(m, k, d), "int64", t.device) for d in range(t.ndim)]
    if as_tuple:
        return tuple(cols)
    return X.stack(cols, 1)


@both("argwhere")
def f_argwhere(input):
    return f_nonzero(input)


@both("masked_fill")
def f_masked_fill(input, mask, value):
    v = mknum(X.scalar_of(value), "float") if isinstance(value, Tensor) and value.ndim == 0 else value
    r = X.ew(lambda x, m, w: T.ite(m, w, x), [input, _cast(mask, "bool"), v], input.dtype)
    return r


@both("masked_select")
def f_masked_select(input, mask, out=None):
    sh = X.broadcast_shapes([input.shape, mask.shape])
    e = [X.size_num(s) for s in sh]
    return X.getitem(X.expand(input, e), X.expand(mask, e))


# ------------------------------------------------------------------ reductions
class NT(tuple):
    """Named result of torch functions that return several tensors."""
    fields = ("values", "indices")


def nt(fields, *v):
    r = NT(v)
    r.fields = fields
    return r


def _dimarg(dim):
    return None if dim is None else cdims(dim)


@both("sum")
def f_sum(input, dim=None, keepdim=False, dtype=None, out=None):
    t = need(input)
    d = to_dtype(dtype)
    if d:
        t = _cast(t, d)
    return into(out, X.sum_(t, _dimarg(dim), keepdim))


@both("mean")
def f_mean(input, dim=None, keepdim=False, dtype=None, out=None):
    t = need(input)
    d = to_dtype(dtype)
    if d:
        t = _cast(t, d)
    return into(out, X.mean_(t, _dimarg(dim), keepdim))


def _var(t, dim, correction, keepdim):
    ds = X.red_dims(t, dim)
    n = X.numel([norm(t.shape[k]) for k in ds])
    c = num_term(correction)
    m = X.mean_(t, dim, True)
    d = X.ew(lambda x, y: (x - y) * (x - y), [t, m])
    s = X.sum_(d, dim, keepdim)
    return X.ew(lambda x: x * T.inv(n - c), [s])


@both("var")
def f_var(input, dim=None, unbiased=True, keepdim=False, correction=None):
    if isinstance(dim, bool):
        dim, unbiased = None, dim
    return _var(input, _dimarg(dim), (1 if unbiased else 0) if correction is None else correction, keepdim)


@both("std")
def f_std(input, dim=None, unbiased=True, keepdim=False, correction=None):
    v = f_var(input, dim, unbiased, keepdim, correction)
    return X.ew(lambda x: T.fun("sqrt", x), [v])


@both("var_mean")
def f_var_mean(input, dim=None, unbiased=True, keepdim=False, correction=None):
    return f_var(input, dim, unbiased, keepdim, correction), X.mean_(input, _dimarg(dim), keepdim)


@both("std_mean")
def f_std_mean(input, dim=None, unbiased=True, keepdim=False, correction=None):
    return f_std(input, dim, unbiased, keepdim, correction), X.mean_(input, _dimarg(dim), keepdim)


@both("prod")
def f_prod(input, dim=None, keepdim=False, dtype=None):
    t = need(input)
    ds = X.red_dims(t, _dimarg(dim))
    r = t
    for d in sorted(ds, reverse=True):
        n = norm(r.shape[d]).const
        if n is not None and n <= 8:
            rd = r.reader()

            def fn(*idx, d=d, n=int(n), rd=rd):
                p = ONE
                for k in range(n):
                    p = p * rd(idx[:d] + (tt(k),) + idx[d + 1:])
                return p
            sh = r.shape[:d] + (ONE,) + r.shape[d + 1:]
            r = X.mk(sh, fn, t.dtype, t.device, t.grad_deps)
        else:
            r = X.reduce_(r, d, True, lambda vs, c: T.of_atom(T.atom("prod", T.close(vs, c))))
    if not keepdim:
        r = X.squeeze(r, ds) if ds else r
    return r


def _minmax(largest):
    name = "max" if largest else "min"

    def f(input, dim=None, keepdim=False, other=None, out=None):
        t = need(input)
        if isinstance(dim, Tensor) or isinstance(other, Tensor):
            o = dim if isinstance(dim, Tensor) else other
            return X.ew(lambda x, y: T.fun(name, x, y), [t, o])
        if dim is None:
            return X.os_reduce(t, None, False, largest)
        d = cdim(dim)
        return nt(("values", "indices"), X.os_reduce(t, d, keepdim, largest), X.arg_reduce(t, d, keepdim, largest))
    METHODS[name] = f
    LIB["torch." + name] = _builtin("torch." + name, f)

    def am(input, dim=None, keepdim=False):
        t = need(input)
        return X.os_reduce(t, _dimarg(dim), keepdim, largest)
    METHODS["a" + name] = am
    LIB["torch.a" + name] = _builtin("torch.a" + name, am)

    def arg(input, dim=None, keepdim=False):
        return X.arg_reduce(need(input), None if dim is None else cdim(dim), keepdim, largest)
    METHODS["arg" + name] = arg
    LIB["torch.arg" + name] = _builtin("torch.arg" + name, arg)


_minmax(True)
_minmax(False)


@both("aminmax")
def f_aminmax(input, dim=None, keepdim=False):
    return nt(("min", "max"), X.os_reduce(input, _dimarg(dim), keepdim, False),
              X.os_reduce(input, _dimarg(dim), keepdim, True))


def _all_term(vs, c):
    n = T.sum_over(vs, ONE - c)
    return T.eq(n, ZERO)


def _some(vs, c):
    return T.lnot(T.eq(T.sum_over(vs, c), ZERO))


@both("all")
def f_all(input, dim=None, keepdim=False, out=None):
    t = need(input)
    t = t if t.dtype == "bool" else _cast(t, "bool")
    return X.reduce_(t, _dimarg(dim), keepdim, _all_term, "bool", grad=False)


@both("any")
def f_any(input, dim=None, keepdim=False, out=None):
    t = need(input)
    t = t if t.dtype == "bool" else _cast(t, "bool")
    return X.reduce_(t, _dimarg(dim), keepdim, _some, "bool", grad=False)


@both("count_nonzero")
def f_count_nonzero(input, dim=None):
    return X.sum_(_cast(need(input), "bool"), _dimarg(dim), False)


@both("median")
def f_median(input, dim=None, keepdim=False):
    t = need(input)
    if dim is None:
        f = X.flatten(t)
        n = norm(f.shape[0])
        return X.reduce_(f, 0, False, lambda vs, c: T.order_stat("os", T.close(vs, c), T.floordiv(n - 1, tt(2)), False))
    d = X.dim_of(cdim(dim), t.ndim)
    n = norm(t.shape[d])
    k = T.floordiv(n - 1, tt(2))
    v = X.reduce_(t, d, keepdim, lambda vs, c: T.order_stat("os", T.close(vs, c), k, False))
    i = X.reduce_(t, d, keepdim, lambda vs, c: T.order_stat("argos", T.close(vs, c), k, False), "int64", grad=False)
    return nt(("values", "indices"), v, i)


@both("sort")
def f_sort(input, dim=-1, descending=False, stable=False, out=None):
    a, b = X.sort_(need(input), cdim(dim), bool(descending))
    return nt(("values", "indices"), a, b)


@both("argsort")
def f_argsort(input, dim=-1, descending=False, stable=False):
    return X.sort_(need(input), cdim(dim), bool(descending))[1]


@both("msort")
def f_msort(input):
    return X.sort_(need(input), 0)[0]


@both("topk")
def f_topk(input, k, dim=-1, largest=True, sorted=True, out=None):
    t = need(input)
    a, b = X.sort_(t, cdim(dim), count=num_of(k), largest=bool(largest))
    return nt(("values", "indices"), a, b)


def num_of(k):
    if isinstance(k, Tensor):
        return mknum(X.scalar_of(k), "int")
    return k


@both("logsumexp")
def f_lse(input, dim, keepdim=False):
    return X.reduce_(input, _dimarg(dim), keepdim, lambda vs, c: T.fun("log", T.sum_over(vs, T.fun("exp", c))), fl(input))


@both("softmax")
def f_softmax(input, dim=None, dtype=None, _stacklevel=3):
    if dim is None:
        raise Incomplete("softmax without axis")
    e = X.ew(lambda x: T.fun("exp", x), [need(input)], fl(input))
    s = X.sum_(e, cdim(dim), True)
    return X.ew(lambda a, b: a * T.inv(b), [e, s])


@both("log_softmax")
def f_log_softmax(input, dim=None, dtype=None, _stacklevel=3):
    s = f_lse(input, dim, True)
    return X.ew(lambda a, b: a - b, [input, s])


@both("cumsum")
def f_cumsum(input, dim, dtype=None):
    t = need(input)
    d = X.dim_of(cdim(dim), t.ndim)
    r = t.reader()

    def fn(*idx):
        v = T.fresh(idx[d] + 1)
        return T.sum_over([v], r(idx[:d] + (v,) + idx[d + 1:]))
    return X.mk(t.shape, fn, "int64" if t.dtype == "bool" else t.dtype, t.device, t.grad_deps)


@both("cumprod")
def f_cumprod(input, dim, dtype=None):
    t = need(input)
    d = X.dim_of(cdim(dim), t.ndim)
    r = t.reader()

    def fn(*idx):
        v = T.fresh(idx[d] + 1)
        return T.of_atom(T.atom("prod", T.close([v], r(idx[:d] + (v,) + idx[d + 1:]))))
    return X.mk(t.shape, fn, t.dtype, t.device, t.grad_deps)


@both("diff")
def f_diff(input, n=1, dim=-1, prepend=None, append=None):
    t = need(input)
    d = X.dim_of(cdim(dim), t.ndim)
    a = X.slice_dim(t, d, 1, None)
    b = X.slice_dim(t, d, None, -1)
    return arith("sub", a, b)


@both("unique")
def f_unique(input, sorted=True, return_inverse=False, return_counts=False, dim=None):
    raise Incomplete("torch.unique")


# ------------------------------------------------------------------ shapes
@method("view")
def m_view(t, *size, dtype=None):
    if size and isinstance(size[0], DType):
        return to_(t, None, size[0].name)
    return X.view(t, sizes(size))


@method("view_as")
def m_view_as(t, other):
    return X.view(t, tuple(norm(s) for s in other.shape))


@method("reshape")
def m_reshape(t, *shape):
    return X.reshape(t, sizes(shape))


@method("reshape_as")
def m_reshape_as(t, other):
    return X.reshape(t, tuple(norm(s) for s in other.shape))


@func("torch.reshape")
def f_reshape(input, shape):
    return X.reshape(need(input), sizes((shape,)))


@both("flatten", "ravel")
def f_flatten(input, start_dim=0, end_dim=-1):
    return X.flatten(need(input), cdim(start_dim), cdim(end_dim))


@both("unflatten")
def f_unflatten(input, dim, sizes):
    return X.unflatten(need(input), cdim(dim), globals()["sizes"]((sizes,)))


@both("unsqueeze")
def f_unsqueeze(input, dim):
    return X.unsqueeze(need(input), cdim(dim))


@both("squeeze")
def f_squeeze(input, dim=None):
    return X.squeeze(need(input), _dimarg(dim))


@method("permute")
def m_permute(t, *dims):
    if len(dims) == 1 and seq(dims[0]) is not None:
        dims = seq(dims[0])
    dims = [cdim(d) for d in dims]
    if len(dims) != t.ndim:
        raise LibError("RuntimeError", "permute(sparse_coo): number of dimensions in the tensor input does not match "
                       "the length of the desired ordering of dimensions")
    return X.permute(t, [X.dim_of(d, t.ndim) for d in dims])


@func("torch.permute")
def f_permute(input, dims):
    return m_permute(need(input), dims)


@both("transpose", "swapaxes", "swapdims")
def f_transpose(input, dim0, dim1):
    return X.transpose(need(input), cdim(dim0), cdim(dim1))


@both("t")
def f_t(input):
    if input.ndim > 2:
        raise LibError("RuntimeError", "t() expects a tensor with <= 2 dimensions")
    return input if input.ndim < 2 else X.transpose(input, 0, 1)


@both("adjoint")
def f_adj(input):
    return X.transpose(input, -1, -2)


@both("movedim", "moveaxis")
def f_movedim(input, source, destination):
    s, d = cdims(source), cdims(destination)
    s = list(s) if isinstance(s, tuple) else [s]
    d = list(d) if isinstance(d, tuple) else [d]
    n = input.ndim
    s = [X.dim_of(x, n) for x in s]
    d = [X.dim_of(x, n) for x in d]
    order = [None] * n
    for a, b in zip(s, d):
        order[b] = a
    rest = [k for k in range(n) if k not in s]
    for k in range(n):
        if order[k] is None:
            order[k] = rest.pop(0)
    return X.permute(input, order)


@method("expand")
def m_expand(t, *size, implicit=False):
    return X.expand(t, [mknum(s, "int") for s in sizes(size)])


@method("expand_as")
def m_expand_as(t, other):
    return X.expand(t, [mknum(norm(s), "int") for s in other.shape])


@both("broadcast_to")
def f_broadcast_to(input, size=None, shape=None):
    return X.expand(input, [mknum(s, "int") for s in sizes((size if size is not None else shape,))])


@func("torch.broadcast_tensors")
def f_broadcast_tensors(*tensors):
    sh = X.broadcast_shapes([t.shape for t in tensors])
    return tuple(X.expand(t, [mknum(s, "int") for s in sh]) for t in tensors)


@func("torch.broadcast_shapes")
def f_broadcast_shapes(*shapes):
    return tuple(mknum(s, "int") for s in X.broadcast_shapes([sizes((s,)) for s in shapes]))


def tile(t, reps):
    """Copies along each axis: result index i reads i mod n."""
    k = len(reps) - t.ndim
    for _ in range(max(k, 0)):
        t = X.unsqueeze(t, 0)
    sh = [norm(s) for s in t.shape]
    rd = t.reader()

    def fn(*idx):
        return rd(tuple(i if r.const == 1 else T.mod(i, n) if n.const != 1 else ZERO for i, n, r in zip(idx, sh, reps)))
    return X.mk([n * r for n, r in zip(sh, reps)], fn, t.dtype, t.device, t.grad_deps)


@method("repeat")
def m_repeat(t, *repeats):
    r = sizes(repeats)
    if len(r) < t.ndim:
        raise LibError("RuntimeError", "Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
    return tile(t, list(check_sizes(r)))


@method("tile")
def m_tile(t, *dims):
    r = list(sizes(dims))
    return tile(t, [ONE] * (t.ndim - len(r)) + r)


LIB["torch.tile"] = _builtin("torch.tile", lambda input, dims: m_tile(input, dims))


@both("repeat_interleave")
def f_repeat_interleave(input, repeats, dim=None, output_size=None):
    t = need(input)
    if isinstance(repeats, Tensor):
        if X.numel(repeats.shape).const != 1:
            raise Incomplete("repeat_interleave with several counts")
        repeats = mknum(X.scalar_of(repeats), "int")
    if dim is None:
        t, d = X.flatten(t), 0
    else:
        d = X.dim_of(cdim(dim), t.ndim)
    r = norm(num_term(repeats))
    check_sizes((r,))
    rd = t.reader()

    def fn(*idx):
        return rd(idx[:d] + (T.floordiv(idx[d], r),) + idx[d + 1:])
    return X.mk(t.shape[:d] + (norm(t.shape[d]) * r,) + t.shape[d + 1:], fn, t.dtype, t.device, t.grad_deps)


def tlist(ts, what):
    s = seq(ts)
    if s is None or isinstance(ts, Tensor):
        raise LibError("TypeError", "%s(): argument 'tensors' must be tuple of Tensors" % what)
    for x in s:
        need(x, "%s(): element of tensors" % what)
    return s


@func("torch.cat", "torch.concat", "torch.concatenate")
def f_cat(tensors, dim=0, out=None):
    return into(out, X.cat(tlist(tensors, "cat"), cdim(dim)))


@func("torch.stack")
def f_stack(tensors, dim=0, out=None):
    return into(out, X.stack(tlist(tensors, "stack"), cdim(dim)))


def atleast(t, n):
    t = as_tensor(t)
    while t.ndim < n:
        t = X.unsqueeze(t, 0)
    return t


@func("torch.hstack")
def f_hstack(tensors, out=None):
    ts = [atleast(t, 1) for t in tlist(tensors, "hstack")]
    return X.cat(ts, 0 if ts and ts[0].ndim == 1 else 1)


@func("torch.vstack", "torch.row_stack")
def f_vstack(tensors, out=None):
    return X.cat([atleast(t, 2) for t in tlist(tensors, "vstack")], 0)


@func("torch.column_stack")
def f_column_stack(tensors, out=None):
    return X.cat([X.unsqueeze(t, 1) if t.ndim == 1 else t for t in tlist(tensors, "column_stack")], 1)


@func("torch.dstack")
def f_dstack(tensors):
    ts = [X.unsqueeze(atleast(t, 2), 2) if t.ndim < 3 else t for t in tlist(tensors, "dstack")]
    return X.cat(ts, 2)


@func("torch.atleast_1d")
def f_al1(*t):
    return atleast(t[0], 1)


@func("torch.atleast_2d")
def f_al2(*t):
    return atleast(t[0], 2)


@both("chunk")
def f_chunk(input, chunks, dim=0):
    d = X.dim_of(cdim(dim), input.ndim)
    c = ctx().interp.concrete_int(chunks)
    n = norm(input.shape[d])
    if n.const is not None:
        import math
        q = math.ceil(n.const / c)
        return tuple(X.slice_dim(input, d, k * q, min((k + 1) * q, n.const)) for k in range(math.ceil(n.const / q) if q else 1))
    q = T.div_exact(n, tt(c))
    if q is None or not q.is_int:
        ctx().hints.append((n, int(c)))
        raise Incomplete("chunks of an axis of symbolic size")
    return tuple(X.slice_dim(input, d, mknum(q * k, "int"), mknum(q * (k + 1), "int")) for k in range(c))


@both("split")
def f_split(input, split_size, dim=0, split_size_or_sections=None):
    if split_size_or_sections is not None:
        split_size = split_size_or_sections
    d = X.dim_of(cdim(dim), input.ndim)
    n = norm(input.shape[d])
    s = seq(split_size)
    if s is None:
        q = norm(num_term(split_size))
        if n.const is not None and q.const is not None:
            s = []
            left = int(n.const)
            while left > 0:
                s.append(min(int(q.const), left))
                left -= int(q.const)
        else:
            c = T.div_exact(n, q)
            if c is None or c.const is None:
                if q.const is not None:
                    ctx().hints.append((n, int(q.const)))
                raise Incomplete("split of an axis of symbolic size")
            s = [mknum(q, "int")] * int(c.const)
    tot = ZERO
    for x in s:
        tot = tot + num_term(x)
    if not X.same_size(tot, n):
        raise LibError("RuntimeError", "split_with_sizes expects split_sizes to sum exactly to %s" % T.brief(n))
    out = []
    pos = ZERO
    for x in s:
        out.append(X.slice_dim(input, d, mknum(pos, "int"), mknum(pos + num_term(x), "int")))
        pos = pos + num_term(x)
    return tuple(out)


METHODS["split_with_sizes"] = lambda t, split_sizes, dim=0: f_split(t, split_sizes, dim)


@both("tensor_split")
def f_tensor_split(input, indices_or_sections, dim=0):
    s = seq(indices_or_sections)
    d = X.dim_of(cdim(dim), input.ndim)
    if s is None:
        return f_chunk(input, indices_or_sections, dim)
    pts = [0] + list(s) + [None]
    return tuple(X.slice_dim(input, d, a, b) for a, b in zip(pts, pts[1:]))


@both("unbind")
def f_unbind(input, dim=0):
    d = X.dim_of(cdim(dim), input.ndim)
    n = norm(input.shape[d]).const
    if n is None:
        raise Incomplete("unbind of an axis of symbolic size")
    return tuple(X.select(input, d, k) for k in range(int(n)))


@both("select")
def f_select(input, dim, index):
    return X.select(input, cdim(dim), index)


@both("narrow")
def f_narrow(input, dim, start, length):
    return X.slice_dim(input, X.dim_of(cdim(dim), input.ndim), start, mknum(num_term(start) + num_term(length), "int"))


@both("index_select")
def f_index_select(input, dim, index, out=None):
    d = X.dim_of(cdim(dim), input.ndim)
    return X.getitem(input, tuple([slice(None)] * d + [need(index)]))


@both("take_along_dim")
def f_take_along_dim(input, indices, dim=None):
    return f_gather(input, dim, indices, broadcast=True)


@both("gather")
def f_gather(input, dim, index, sparse_grad=False, out=None, broadcast=False):
    t, ix = need(input), need(index)
    d = X.dim_of(cdim(dim), t.ndim)
    if ix.ndim != t.ndim:
        raise LibError("RuntimeError", "Index tensor must have the same number of dimensions as input tensor")
    if not X.is_intd(ix.dtype):
        raise LibError("RuntimeError", "gather(): Expected dtype int64 for index")
    X.join_device([t, ix], "gather")
    rt, ri = t.reader(), ix.reader()
    tsh, ish = [norm(s) for s in t.shape], [norm(s) for s in ix.shape]
    sh = list(ish)
    if broadcast:
        for k in range(t.ndim):
            if k != d:
                sh[k] = X.broadcast_shapes([(tsh[k],), (ish[k],)])[0]
    else:
        for k in range(t.ndim):
            if k != d and T.nonneg(ish[k] - tsh[k] - 1):
                raise LibError("RuntimeError", "gather: index of size %s exceeds input of size %s on axis %d" % (
                    T.brief(ish[k]), T.brief(tsh[k]), k))

    def fn(*idx):
        a = tuple(ZERO if broadcast and ish[k].const == 1 else idx[k] for k in range(len(idx)))
        j = ri(a)
        j = X.wrap_index(j, tsh[d]) if not broadcast else j
        b = tuple(j if k == d else (ZERO if broadcast and tsh[k].const == 1 else idx[k]) for k in range(len(idx)))
        return rt(b)
    return X.mk(sh, fn, t.dtype, t.device, t.grad_deps)


@both("take")
def f_take(input, index):
    return X.getitem(X.flatten(input), index)


@both("scatter")
def f_scatter(input, dim, index, src=None, value=None, reduce=None):
    t, ix = need(input), need(index)
    v = src if src is not None else value
    d = X.dim_of(cdim(dim), t.ndim)
    if t.ndim != 2 or reduce is not None:
        raise Incomplete("scatter")
    n = norm(ix.shape[1 - d])
    if not X.same_size(n, t.shape[1 - d]):
        raise Incomplete("scatter over part of an axis")
    X.same_dtype("scatter", t, v)
    r = copy_of(t)
    rows = f_arange(mknum(n, "int"))
    if d == 1:
        X.setitem(r, (X.unsqueeze(rows, 1), ix), v)
    else:
        X.setitem(r, (ix, X.unsqueeze(rows, 0)), v)
    return r


@both("index_add", "index_copy", "index_fill", "scatter_add", "index_put", "masked_scatter")
def f_index_x(input, *a, **k):
    raise Incomplete("indexed update functions")


@both("roll")
def f_roll(input, shifts, dims=None):
    t = need(input)
    if dims is None:
        f = f_roll(X.flatten(t), shifts, 0)
        return X.reshape(f, tuple(norm(s) for s in t.shape))
    sh, ds = seq(shifts), seq(dims)
    sh = sh if sh is not None else [shifts]
    ds = [X.dim_of(cdim(d), t.ndim) for d in (ds if ds is not None else [dims])]
    rd = t.reader()
    sz = [norm(s) for s in t.shape]
    tot = {}
    for s, d in zip(sh, ds):
        tot[d] = tot.get(d, ZERO) + num_term(s)

    def fn(*idx):
        return rd(tuple(T.mod(i - tot[k], sz[k]) if k in tot else i for k, i in enumerate(idx)))
    return X.mk(t.shape, fn, t.dtype, t.device, t.grad_deps)


@method("flip")
def m_flip(t, *dims):
    if len(dims) == 1 and seq(dims[0]) is not None:
        dims = seq(dims[0])
    ds = [X.dim_of(cdim(d), t.ndim) for d in dims]
    rd = t.reader()
    sz = [norm(s) for s in t.shape]
    return X.mk(t.shape, lambda *idx: rd(tuple(sz[k] - 1 - i if k in ds else i for k, i in enumerate(idx))),
                t.dtype, t.device, t.grad_deps)


LIB["torch.flip"] = _builtin("torch.flip", lambda input, dims: m_flip(input, dims))


@both("fliplr")
def f_fliplr(input):
    return m_flip(input, 1)


@both("flipud")
def f_flipud(input):
    return m_flip(input, 0)


@both("rot90")
def f_rot90(input, k=1, dims=(0, 1)):
    a, b = [X.dim_of(cdim(d), input.ndim) for d in seq(dims)]
    k = ctx().interp.concrete_int(k) % 4
    t = input
    for _ in range(k):
        t = m_flip(X.transpose(t, a, b), a)
    return t


@both("diagonal")
def f_diagonal(input, offset=0, dim1=0, dim2=1):
    return X.diagonal(need(input), offset, cdim(dim1), cdim(dim2))


@both("diag_embed")
def f_diag_embed(input, offset=0, dim1=-2, dim2=-1):
    t = need(input)
    if (offset, dim1, dim2) != (0, -2, -1):
        raise Incomplete("diag_embed with other axes")
    rd = t.reader()
    return X.mk(t.shape + (t.shape[-1],), lambda *i: T.ite(T.eq(i[-1], i[-2]), rd(i[:-1]), ZERO), t.dtype, t.device,
                t.grad_deps)


@both("diag")
def f_diag(input, diagonal=0):
    return f_diag_embed(input, diagonal) if input.ndim == 1 else X.diagonal(input, diagonal)


def _tri(name, keep):
    def f(input, diagonal=0):
        t = need(input)
        rd = t.reader()
        k = num_term(diagonal)
        return X.mk(t.shape, lambda *i: T.ite(keep(i[-2], i[-1], k), rd(i), ZERO), t.dtype, t.device, t.grad_deps)
    METHODS[name] = f
    LIB["torch." + name] = _builtin("torch." + name, f)


_tri("tril", lambda i, j, k: T.le(j - i, k))
_tri("triu", lambda i, j, k: T.le(k, j - i))


@both("one_hot_")
def f_oh(input, num_classes):
    raise Incomplete("one_hot")


# ------------------------------------------------------------------ linear algebra
@both("mm", "bmm", "mv")
def f_mm(input, mat2=None, vec=None, out=None):
    return into(out, X.matmul(need(input), need(mat2 if mat2 is not None else vec)))


LIB["torch.linalg.matmul"] = LIB["torch.matmul"]


@both("dot", "vdot", "inner_")
def f_dot(input, other=None, tensor=None):
    o = other if other is not None else tensor
    if input.ndim != 1 or o.ndim != 1:
        raise LibError("RuntimeError", "1D tensors expected")
    return X.matmul(input, o)


@both("inner")
def f_inner(input, other):
    return X.matmul(input, X.transpose(other, -1, -2) if other.ndim > 1 else other)


@both("outer", "ger")
def f_outer(input, vec2):
    return arith("mul", X.unsqueeze(input, 1), X.unsqueeze(vec2, 0))


@func("torch.linalg.vecdot")
def f_vecdot(input, other, dim=-1):
    X.same_dtype("linalg.vecdot", input, other)
    return X.sum_(arith("mul", input, other), cdim(dim))


@both("baddbmm", "addmm", "addmv", "addbmm")
def f_addmm(input, mat1, mat2, beta=1, alpha=1):
    m = X.matmul(mat1, mat2)
    X.same_dtype("addmm", input, m)
    return X.ew(lambda a, b: a * num_term(beta) + b * num_term(alpha), [input, m])


@func("torch.einsum")
def f_einsum(equation, *operands):
    ops = operands
    if len(ops) == 1 and seq(ops[0]) is not None and not isinstance(ops[0], Tensor):
        ops = seq(ops[0])
    if not isinstance(equation, str):
        raise Incomplete("einsum with unknown equation")
    return X.einsum(equation, [need(o) for o in ops])


@func("torch.tensordot")
def f_tensordot(input, b, dims=2, out=None):
    a = input
    s = seq(dims)
    if s is None:
        k = ctx().interp.concrete_int(dims)
        da, db = list(range(a.ndim - k, a.ndim)), list(range(k))
    else:
        da = [X.dim_of(cdim(d), a.ndim) for d in seq(s[0])]
        db = [X.dim_of(cdim(d), b.ndim) for d in seq(s[1])]
    L = "abcdefghijklmnopqrstuvwxyz"
    la = list(L[:a.ndim])
    lb = list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(da, db):
        lb[y] = la[x]
    out_ = [c for k, c in enumerate(la) if k not in da] + [c for k, c in enumerate(lb) if k not in db]
    return X.einsum("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out_)), [a, b])


@both("kron")
def f_kron(input, other):
    raise Incomplete("kron")


@both("trace")
def f_trace(input):
    return X.sum_(X.diagonal(input))


@both("cross")
def f_cross(input, other, dim=None, out=None):
    a, b = need(input), need(other)
    if dim is None:
        # the first axis of length three
        sh = X.broadcast_shapes([a.shape, b.shape], "cross")
        for k, n in enumerate(sh):
            n = norm(n)
            if n.const == 3 or n.const is None and ctx().decider(T.eq(n, tt(3))):
                dim = k
                break
        else:
            raise LibError("RuntimeError", "no dimension of size 3 in input")
    return f_lcross(a, b, dim)


@func("torch.linalg.cross")
def f_lcross(input, other, dim=-1):
    a, b = need(input), need(other)
    X.same_dtype("linalg.cross", a, b)
    sh = X.broadcast_shapes([a.shape, b.shape], "cross")
    d = X.dim_of(cdim(dim), len(sh))
    if norm(sh[d]).const not in (3, None):
        raise LibError("RuntimeError", "linalg.cross: inputs dimension %d must have length 3, got %s" % (d, T.brief(sh[d])))
    e = [mknum(s, "int") for s in sh]
    a, b = X.expand(a, e), X.expand(b, e)
    c = [[X.select(t, d, k) for k in range(3)] for t in (a, b)]
    (a0, a1, a2), (b0, b1, b2) = c
    m = lambda p, q: arith("mul", p, q)
    s = lambda p, q: arith("sub", p, q)
    return X.stack([s(m(a1, b2), m(a2, b1)), s(m(a2, b0), m(a0, b2)), s(m(a0, b1), m(a1, b0))], d)


def det_term(r, pre, n):
    if n == 0:
        return ONE
    idx = list(range(n))

    def minor(rows, cols):
        if len(rows) == 1:
            return r(pre + (tt(rows[0]), tt(cols[0])))
        out = ZERO
        for k, c in enumerate(cols):
            x = r(pre + (tt(rows[0]), tt(c)))
            m = minor(rows[1:], cols[:k] + cols[k + 1:])
            out = out + x * m if k % 2 == 0 else out - x * m
        return out
    return minor(idx, idx)


@both("det")
def f_det(input):
    t = need(input)
    if t.ndim < 2 or not X.same_size(t.shape[-1], t.shape[-2]):
        raise LibError("RuntimeError", "linalg.det: A must be batches of square matrices, but they are %s" % X.show_shape(t.shape))
    n = norm(t.shape[-1]).const
    r = t.reader()
    if n is None:
        k = norm(t.shape[-1])
        return X.mk(t.shape[:-2], lambda *i: T.opq("det", T.lam((k, k), lambda a, b: r(i + (a, b)))), t.dtype, t.device,
                    t.grad_deps)
    return X.mk(t.shape[:-2], lambda *i: det_term(r, i, int(n)), t.dtype, t.device, t.grad_deps)


LIB["torch.linalg.det"] = LIB["torch.det"]


@both("slogdet")
def f_slogdet(input):
    d = f_det(input)
    return nt(("sign", "logabsdet"), X.ew(lambda x: T.fun("sgn", x), [d]), X.ew(lambda x: T.fun("log", T.fun("abs", x)), [d]))


@both("inverse")
def f_inverse(input, out=None):
    return X.inverse(need(input))


LIB["torch.linalg.inv"] = LIB["torch.inverse"]


@both("pinverse")
def f_pinv(input, rcond=None):
    return X.mk(input.shape[:-2] + (input.shape[-1], input.shape[-2]), _opq_mat("pinv", input), input.dtype, input.device,
                input.grad_deps)


def _opq_mat(name, t):
    r = t.reader()
    m, n = norm(t.shape[-2]), norm(t.shape[-1])

    def fn(*i):
        return T.opq(name, T.lam((m, n), lambda a, b: r(tuple(i[:-2]) + (a, b))), i[-2], i[-1])
    return fn


LIB["torch.linalg.pinv"] = LIB["torch.pinverse"]


@func("torch.linalg.solve")
def f_solve(A, B, left=True, out=None):
    if left is not True:
        At = X.transpose(need(A), -1, -2)
        return X.transpose(X.solve(At, X.transpose(B, -1, -2)), -1, -2)
    return X.solve(need(A), need(B))


@func("torch.linalg.lstsq")
def f_lstsq(input, b, rcond=None, driver=None):
    A, B = need(input), need(b)
    if not X.same_size(A.shape[-2], B.shape[-2]):
        raise LibError("RuntimeError", "torch.linalg.lstsq: input.size(-2) should match other.size(-2)")
    ra, rb = A.reader(), B.reader()
    m, n, q = norm(A.shape[-2]), norm(A.shape[-1]), norm(B.shape[-1])
    bs = X.broadcast_shapes([A.shape[:-2], B.shape[:-2]])
    ma, mb = X.bmap(A.shape[:-2], bs), X.bmap(B.shape[:-2], bs)

    def fn(*i):
        pre = tuple(i[:-2])
        return T.opq("lstsq", T.lam((m, n), lambda a, c: ra(ma(pre) + (a, c))),
                     T.lam((m,), lambda a: rb(mb(pre) + (a, i[-1]))), i[-2])
    sol = X.mk(tuple(bs) + (n, q), fn, A.dtype, X.join_device([A, B], "lstsq"), A.grad_deps | B.grad_deps)
    return nt(("solution", "residuals", "rank", "singular_values"), sol, None, None, None)


@func("torch.linalg.norm", "torch.linalg.vector_norm")
def f_lnorm(input, ord=None, dim=None, keepdim=False, dtype=None, out=None):
    d = _dimarg(dim)
    if isinstance(d, tuple) and len(d) == 2 and ord is not None and ord != "fro":
        raise Incomplete("matrix norm")
    return X.norm_(need(input), 2 if ord is None else ord, d, keepdim)


@both("norm")
def f_norm(input, p="fro", dim=None, keepdim=False, out=None, dtype=None):
    return X.norm_(need(input), p, _dimarg(dim), keepdim)


@func("torch.linalg.matrix_norm")
def f_mnorm(input, ord="fro", dim=(-2, -1), keepdim=False):
    if ord != "fro":
        raise Incomplete("matrix norm")
    return X.norm_(input, 2, cdims(dim), keepdim)


@both("dist")
def f_dist(input, other, p=2):
    return X.norm_(arith("sub", input, other), p)


@func("torch.cdist")
def f_cdist(x1, x2=None, p=2, compute_mode=None, input=None, other=None):
    a, b = x1 if x1 is not None else input, x2 if x2 is not None else other
    d = arith("sub", X.unsqueeze(need(a), -2), X.unsqueeze(need(b), -3))
    return X.norm_(d, 2 if (isinstance(p, Num) and p.term.const == 2) else p, -1)


@func("torch.matrix_exp", "torch.linalg.matrix_exp")
def f_matexp(input):
    t = need(input)
    return X.mk(t.shape, _opq_mat("matexp", t), t.dtype, t.device, t.grad_deps)


METHODS["matrix_exp"] = f_matexp


@func("torch.linalg.multi_dot", "torch.chain_matmul")
def f_multi_dot(*tensors):
    ts = seq(tensors[0]) if len(tensors) == 1 and not isinstance(tensors[0], Tensor) else list(tensors)
    r = ts[0]
    for t in ts[1:]:
        r = X.matmul(r, t)
    return r


def _decomp(name):
    def f(*a, **k):
        raise Incomplete("torch.linalg.%s" % name)
    LIB["torch.linalg." + name] = _builtin(name, f)


for _n in ("svd", "qr", "eig", "eigh", "cholesky", "lu", "matrix_power", "svdvals", "eigvals"):
    _decomp(_n)


@both("matrix_power")
def f_matpow(input, n):
    n = ctx().interp.concrete_int(n)
    if n < 0:
        return f_matpow(X.inverse(input), -n)
    if n == 0:
        return X.ew(lambda x: x, [X.expand(f_eye(mknum(input.shape[-1], "int")), list(shape_value(input)))])
    r = input
    for _ in range(n - 1):
        r = X.matmul(r, input)
    return r


@func("torch.jit.script", "torch.jit.ignore", "torch.jit.unused", "torch.jit.export", "torch.compile")
def f_script(obj=None, **k):
    return obj


@func("torch.cuda.synchronize", "torch.cuda.empty_cache", "torch.set_printoptions", "torch.set_num_threads")
def f_nop(*a, **k):
    return None


@func("torch.set_default_dtype", "torch.set_default_device", "torch.set_default_tensor_type")
def f_setdef(*a, **k):
    raise Incomplete("changing torch defaults")


# ------------------------------------------------------------------ autograd and optimizers
def grad_of(loss, t):
    """The gradient of a scalar as an opaque function of the whole computation."""
    k = next(ctx().stamp)
    e = X.scalar_of(loss) if loss.ndim == 0 else loss.lam()
    vs, cur = t.generic()
    wrt = T.close(vs, cur) if vs else cur

    def fn(*i):
        return T.opq("grad", e, wrt, tuple(i))
    return X.mk(t.shape, fn, t.dtype, t.device)


@method("backward")
def m_backward(t, gradient=None, retain_graph=None, create_graph=False, inputs=None):
    c = ctx()
    if not t.grad_deps:
        raise LibError("RuntimeError", "element 0 of tensors does not require grad and does not have a grad_fn")
    if t.ndim and not all(X.is_one(s) for s in t.shape) and gradient is None:
        raise LibError("RuntimeError", "grad can be implicitly created only for scalar outputs")
    e = c.event("backward", "backward", deps=frozenset(t.grad_deps), loss=t)
    for st, lf in list(c.leaves.items()):
        if ("leaf", st) in t.grad_deps:
            g = grad_of(t, lf)
            old = lf.attrs.get("grad")
            lf.attrs["grad"] = g if old is None else X.ew(lambda a, b: a + b, [old, g])
            e.setdefault("leaves", []).append(lf)


@func("torch.autograd.grad")
def f_agrad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, allow_unused=False):
    ins = [inputs] if isinstance(inputs, Tensor) else seq(inputs)
    if not outputs.grad_deps:
        raise LibError("RuntimeError", "element 0 of tensors does not require grad and does not have a grad_fn")
    ctx().event("backward", "autograd.grad", deps=frozenset(outputs.grad_deps), loss=outputs, leaves=list(ins))
    return tuple(grad_of(outputs, i) for i in ins)


def _optim(kind):
    def make(params, lr=None, **kw):
        I = _I()
        ps = [params] if isinstance(params, Tensor) else seq(params)
        if isinstance(params, Tensor):
            raise LibError("TypeError", "params argument given to the optimizer should be an iterable of Tensors or dicts")
        if not ps:
            raise LibError("ValueError", "optimizer got an empty parameter list")
        for p in ps:
            if not isinstance(p, Tensor):
                raise Incomplete("parameter groups")
            if not is_leaf(p):
                raise LibError("ValueError", "can't optimize a non-leaf Tensor")
        o = I.Native("optimizer", params=ps)

        def zero_grad(set_to_none=True):
            for p in ps:
                g = p.attrs.get("grad")
                if g is not None:
                    p.attrs["grad"] = None if set_to_none else const_tensor(tuple(p.shape), ZERO, p.dtype, p.device)

        def step(closure=None):
            r = None
            if closure is not None:
                r = ctx().interp.call(closure, [])
            ctx().event("step", "optimizer step", params=list(ps))
            for p in ps:
                g = p.attrs.get("grad")
                if g is None:
                    continue
                if kind == "SGD" and not kw.get("momentum") and not kw.get("weight_decay") and not kw.get("nesterov"):
                    l = num_term(lr if lr is not None else Num(tt(1e-3), "float"))
                    v = X.ew(lambda x, d: x - l * d, [detach(p), g])
                else:
                    ops = tuple(sorted((k, T.show(num_term(x)) if is_num(x) else str(x)) for k, x in kw.items()))
                    v = X.ew(lambda x, d: T.opq("optim_" + kind, x, d, ops), [detach(p), g])
                v.st.grad = frozenset()
                grad = p.st.grad
                X.write(p, v, "optimizer step")
                p.st.grad = grad
            return r
        o.attrs["zero_grad"] = I.Builtin("zero_grad", zero_grad)
        o.attrs["step"] = I.Builtin("step", step)
        o.attrs["param_groups"] = I.PyList([I.PyDict({"params": I.PyList(ps), "lr": lr})])
        return o
    return make


for _n in ("SGD", "Adam", "AdamW", "RMSprop", "Adagrad"):
    LIB["torch.optim." + _n] = _builtin("torch.optim." + _n, _optim(_n))
