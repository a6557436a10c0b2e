"""Models of the Python builtins and of the library namespaces the package uses."""
import inspect
from fractions import Fraction

from . import terms as T
from . import tensor as X
from .terms import ZERO, ONE
from .tensor import Tensor, Num, Incomplete, LibError, num_term, num_kind, mknum, is_num, norm, Device, CPU

STDLIB = {"math", "typing", "warnings", "functools", "itertools", "operator", "collections", "abc", "dataclasses",
          "enum", "os", "sys", "copy", "contextlib", "logging", "numbers", "random", "types", "re", "time", "json",
          "inspect", "string", "pathlib", "typing_extensions"}


class DType:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "torch." + self.name


class Lazy:
    """Library value built for one interpreter."""

    def __init__(self, fn):
        self.fn = fn


LIB = {}
METHODS = {}


def _I():
    from . import interp
    return interp


def attach(it):
    from . import nnprelude
    it.param_type = nnprelude.make_param_type(it)


def builtin(name, fn, raw=False):
    return _I().Builtin(name, fn, raw)


# ------------------------------------------------------------------ signatures
_sig_memo = {}
_ALIAS = {"axis": "dim", "keepdims": "keepdim", "axis0": "dim0", "axis1": "dim1", "x1": "input", "x2": "other",
          "a": "input", "A": "input", "tensor": "input", "x": "input", "self": "input", "seq": "tensors"}


def check_sig(f, args, kw):
    """Keyword aliases; a call the model has no parameters for is not analysed."""
    fn = f.fn
    sg = getattr(fn, "__signature__", None) or _sig_memo.get(fn)
    if sg is None:
        try:
            sg = inspect.signature(fn)
        except (TypeError, ValueError):
            sg = False
        _sig_memo[fn] = sg
    if not sg:
        return
    for k in list(kw):
        if k not in sg.parameters and k in _ALIAS and _ALIAS[k] in sg.parameters:
            kw[_ALIAS[k]] = kw.pop(k)
    try:
        sg.bind(*args, **kw)
    except TypeError as e:
        if getattr(fn, "strict", False):
            raise LibError("TypeError", "%s: %s" % (f.name, e))
        raise Incomplete("call of %s: %s" % (f.name, e))


def strict(fn):
    fn.strict = True
    return fn


# ------------------------------------------------------------------ names of types and texts
def type_name(v):
    I = _I()
    if v is None:
        return "NoneType"
    if isinstance(v, (bool, int, str, tuple, range, slice)):
        return type(v).__name__
    if isinstance(v, Num):
        return v.kind
    if isinstance(v, I.SymStr):
        return "str"
    if isinstance(v, I.PyList):
        return "list"
    if isinstance(v, I.PyDict):
        return "dict"
    if isinstance(v, I.PySet):
        return "set"
    if isinstance(v, Tensor):
        return "Tensor"
    if isinstance(v, I.Instance):
        return v.cls.name
    if isinstance(v, (I.Func, I.BoundMethod, I.Builtin)):
        return "function"
    if isinstance(v, Device):
        return "device"
    return type(v).__name__


def to_text(it, v):
    I = _I()
    if isinstance(v, str):
        return v
    if isinstance(v, (bool, int)) or v is None:
        return repr(v)
    if isinstance(v, Num):
        c = v.term.const
        if c is not None:
            return repr(float(c)) if v.kind == "float" else repr(bool(c)) if v.kind == "bool" else repr(int(c))
        return "<%s #%x>" % (T.brief(v.term, 40), id(v.term))
    if isinstance(v, I.SymStr):
        return v
    if isinstance(v, I.ExcVal):
        return " ".join(str(a) for a in v.args)
    return repr(v)


class Opaque(Exception):
    pass


def py_value(v):
    """The Python value to format, or Opaque."""
    I = _I()
    if isinstance(v, (I.EStr, I.EInt)):
        raise Opaque()
    if isinstance(v, (str, bool, int)) or v is None:
        return v
    if isinstance(v, Num):
        c = v.term.const
        if c is None:
            raise Opaque()
        return float(c) if v.kind == "float" else bool(c) if v.kind == "bool" else int(c)
    if isinstance(v, tuple):
        return tuple(py_value(x) for x in v)
    if isinstance(v, I.PyList):
        return [py_value(x) for x in v.items]
    if isinstance(v, I.PyDict) and not v.sym:
        return {k: py_value(x) for k, x in v.d.items()}
    raise Opaque()


def formatted(f, *a, **k):
    """f over Python values; an unknown text when a value is not known."""
    try:
        return f(*[py_value(x) for x in a], **{n: py_value(x) for n, x in k.items()})
    except Opaque:
        return None
    except Exception as e:
        raise LibError(type(e).__name__, str(e))


def text_key(it, s):
    """A text option as an argument of an opaque function."""
    I = _I()
    if isinstance(s, str) or s is None:
        return s
    if isinstance(s, I.SymStr):
        for a, v in it.ctx.assumed:
            if v and a.args[0] == "streq" and a.args[1] == s.name:
                return a.args[2]
        return "$" + s.name
    raise Incomplete("text expected, got %r" % (s,))


def text_is(it, s, value):
    return it.truth(it.compare("Eq", s, value))


# ------------------------------------------------------------------ builtins
def make_builtins(it):
    I = _I()
    b = {}

    def reg(name, fn, raw=False):
        b[name] = I.Builtin(name, fn, raw)

    for n, c in I._exc_classes.items():
        b[n] = c
    b["True"], b["False"], b["None"] = True, False, None
    b["NotImplemented"] = I.Native("NotImplemented")
    b["Ellipsis"] = Ellipsis
    b["__debug__"] = True

    def length(x):
        if isinstance(x, (str, tuple, range)):
            return len(x)
        if isinstance(x, (I.PyList, I.PySet)):
            return len(x.items)
        if isinstance(x, I.PyDict):
            return len(x.d) + len(x.sym)
        if isinstance(x, Tensor):
            if x.ndim == 0:
                raise LibError("TypeError", "len() of a 0-d tensor")
            return X.size_num(x.shape[0])
        if isinstance(x, I.SymRange):
            return mknum(x.n, "int")
        if isinstance(x, I.Instance):
            f, _ = x.cls.lookup("__len__")
            if f is not None:
                return it.call(I.BoundMethod(f, x), [])
        if isinstance(x, I.Native) and "iterable" in x.attrs:
            return length(x.attrs["iterable"])
        if is_num(x) or x is None:
            raise LibError("TypeError", "object of type %r has no len()" % type_name(x))
        raise Incomplete("len of %r" % (x,))
    reg("len", length)

    def range_(*a):
        v = [it.lib_index(x) for x in a]
        c = [norm(num_term(x)).const for x in v]
        if all(x is not None for x in c):
            return range(*[int(x) for x in c])
        ts = [norm(num_term(x)) for x in v]
        lo, hi = (ZERO, ts[0]) if len(ts) == 1 else (ts[0], ts[1])
        st = ts[2] if len(ts) > 2 else ONE
        n = hi - lo
        if st.const is not None and st.const < 0:
            raise Incomplete("descending range of symbolic length")
        if st is not ONE:
            if st.const is not None:
                X.ctx().hints.append((n, int(st.const)))
            n = T.floordiv(n + st - 1, st)
        if not T.nonneg(n):
            if it.decide(T.lt(n, ZERO)):
                return range(0)
        n = norm(n)
        if n.const is not None and lo.const is not None and st.const is not None:
            return range(int(lo.const), int(lo.const + n.const * st.const), int(st.const))
        return I.SymRange(lo, n, st)

    def lib_index(x):
        if isinstance(x, Tensor):
            return Num(X.scalar_of(x), "int")
        if not is_num(x) or num_kind(x) == "float":
            raise LibError("TypeError", "%r object cannot be interpreted as an integer" % type_name(x))
        return x
    it.lib_index = lib_index
    reg("range", range_)

    def int_(x=0, base=10):
        if isinstance(x, str):
            try:
                return int(x, base)
            except ValueError as e:
                raise LibError("ValueError", str(e))
        if isinstance(x, Tensor):
            t = X.scalar_of(x)
            if X.is_float(x.dtype) and not t.is_int:
                t = T.fun("trunc", t)
            return mknum(t, "int")
        if isinstance(x, (bool, int)):
            return int(x)
        if isinstance(x, Num):
            t = norm(x.term)
            if t.const is not None:
                return int(t.const)
            if t.is_int:
                return Num(t, "int")
            return mknum(T.fun("trunc", t), "int")
        if x is None or isinstance(x, (tuple, I.PyList)):
            raise LibError("TypeError", "int() argument must be a string or a number, not %s" % type_name(x))
        raise Incomplete("int of %r" % (x,))

    def float_(x=0):
        if isinstance(x, str):
            return Num(T.tt(float(x)), "float")
        if isinstance(x, Tensor):
            return Num(X.scalar_of(x), "float")
        return Num(num_term(x), "float")

    def bool_(x=False):
        if isinstance(x, Num) and x.kind == "bool":
            return x
        if isinstance(x, Num):
            return mknum(T.lnot(T.eq(x.term, ZERO)), "bool")
        return it.truth(x)

    def str_(x=""):
        return to_text(it, x)

    def tuple_(x=()):
        return tuple(it.iterate(x))

    def list_(x=()):
        return I.PyList(it.iterate(x))

    def set_(x=()):
        return I.PySet(it.iterate(x))

    def dict_(*a, **kw):
        d = I.PyDict()
        if a:
            if isinstance(a[0], I.PyDict):
                d.d.update(a[0].d)
                d.sym = list(a[0].sym)
            else:
                for kv in it.iterate(a[0]):
                    k, v = it.iterate(kv)
                    it.dict_set(d, k, v)
        d.d.update(kw)
        return d

    def mkt(name, make, pred):
        b[name] = I.TypeV(name, make, pred)

    mkt("int", int_, lambda x: isinstance(x, (bool, int)) or isinstance(x, Num) and x.kind in ("int", "bool"))
    mkt("float", float_, lambda x: isinstance(x, Num) and x.kind == "float")
    mkt("bool", bool_, lambda x: isinstance(x, bool) or isinstance(x, Num) and x.kind == "bool")
    mkt("str", str_, lambda x: isinstance(x, (str, I.SymStr)))
    mkt("tuple", tuple_, lambda x: isinstance(x, tuple))
    mkt("list", list_, lambda x: isinstance(x, I.PyList) and not x.deque)
    mkt("dict", dict_, lambda x: isinstance(x, I.PyDict))
    mkt("set", set_, lambda x: isinstance(x, I.PySet))
    mkt("frozenset", set_, lambda x: isinstance(x, I.PySet))
    mkt("object", lambda: I.Instance(I.Class("object", [], {}, None, "object")), lambda x: True)
    mkt("bytes", None, lambda x: isinstance(x, bytes))
    mkt("complex", None, lambda x: False)
    mkt("slice", lambda *a: slice(*a), lambda x: isinstance(x, slice))
    mkt("type", lambda *a: type_of(a), lambda x: isinstance(x, (I.Class, I.TypeV, I.ExcClass)))
    mkt("range", range_, lambda x: isinstance(x, (range, I.SymRange)))
    it.tensor_type = tensor_type(it)

    def type_of(a):
        if len(a) != 1:
            raise Incomplete("type() with three arguments")
        x = a[0]
        if isinstance(x, (I.Instance, I.NTup, I.EStr, I.EInt)):
            return x.cls
        if isinstance(x, I.ExcVal):
            return x.cls
        if isinstance(x, Tensor):
            return it.param_type if x.is_param else it.tensor_type
        n = type_name(x)
        if n in b and isinstance(b[n], I.TypeV):
            return b[n]
        if x is None:
            return none_type
        raise Incomplete("type of %r" % (x,))
    none_type = I.TypeV("NoneType", lambda: None, lambda x: x is None)

    def isinstance_(x, c):
        if isinstance(c, tuple):
            return any(isinstance_(x, k) for k in c)
        if c is None:
            return x is None
        if isinstance(c, I.TypeV):
            return bool(c.pred(x))
        if isinstance(c, I.Class):
            if isinstance(x, (I.NTup, I.EStr, I.EInt)):
                return x.cls.is_sub(c)
            return isinstance(x, I.Instance) and x.cls.is_sub(c) or isinstance(x, I.ExcVal) and \
                isinstance(x.cls, I.Class) and x.cls.is_sub(c)
        if isinstance(c, I.ExcClass):
            return isinstance(x, I.ExcVal) and I.exc_matches(x, c)
        if isinstance(c, I.Native) and c.kind == "typing":
            a = c.attrs.get("args")
            if isinstance(a, tuple) and len(a) == 2:
                if isinstance(a[0], (I.TypeV, I.Class)) or a[0] is None:
                    return isinstance_(x, a[0]) or isinstance_(x, a[1])
            n = c.attrs.get("name", "")
            if n == "Callable":
                return callable_(x)
            seq = isinstance(x, (tuple, I.PyList, str, I.SymStr, range, I.SymRange))
            inst = lambda m: isinstance(x, I.Instance) and x.cls.lookup(m)[0] is not None
            if n == "Sequence":
                return seq
            if n == "Iterable":
                return seq or isinstance(x, (I.PyDict, I.PySet, Tensor, I.Gen)) or inst("__iter__") or \
                    isinstance(x, I.Native) and ("iterable" in x.attrs or x.kind == "stream")
            if n in ("Sized", "Collection"):
                return seq or isinstance(x, (I.PyDict, I.PySet, Tensor)) or inst("__len__")
            if n in ("Iterator", "Generator"):
                return isinstance(x, I.Gen) or isinstance(x, I.Native) and x.kind in ("iter", "stream") or \
                    n == "Iterator" and inst("__next__")
            if n == "Hashable":
                return not isinstance(x, (I.PyList, I.PyDict, I.PySet))
            if n in ("MutableSequence", "List"):
                return isinstance(x, I.PyList)
            if n == "Tuple":
                return isinstance(x, tuple)
            if n in ("Set", "MutableSet", "FrozenSet"):
                return isinstance(x, I.PySet)
            if n in ("Mapping", "Dict", "MutableMapping"):
                return isinstance(x, I.PyDict)
            if n == "NoneType":
                return x is None
            if n in ("FunctionType", "LambdaType"):
                return isinstance(x, I.Func)
            if n == "MethodType":
                return isinstance(x, I.BoundMethod)
            if n == "GeneratorType":
                return isinstance(x, I.Gen)
            if n == "ModuleType":
                return isinstance(x, I.ModuleV)
            if n in ("Number", "Real", "Integral"):
                return is_num(x) and (n != "Integral" or num_kind(x) != "float")
        raise Incomplete("isinstance with %r" % (c,))
    reg("isinstance", isinstance_)

    def issubclass_(x, c):
        if isinstance(c, tuple):
            return any(issubclass_(x, k) for k in c)
        if isinstance(x, I.Class) and isinstance(c, (I.Class, I.ExcClass)):
            return x.is_sub(c)
        raise Incomplete("issubclass")
    reg("issubclass", issubclass_)

    def callable_(x):
        if isinstance(x, I.Instance):
            return x.cls.lookup("__call__")[0] is not None
        return isinstance(x, (I.Func, I.Builtin, I.BoundMethod, I.Class, I.TypeV, I.ExcClass)) or \
            isinstance(x, I.Native) and "call" in x.attrs
    reg("callable", callable_)

    def hasattr_(o, n):
        try:
            r = it.getattr(o, n)
            if isinstance(r, I.Lib):
                raise Incomplete("hasattr of %s" % r.path)
            return True
        except I.PyRaise as e:
            if e.val.name == "AttributeError":
                return False
            raise
    reg("hasattr", hasattr_)

    def getattr_(o, n, *d):
        try:
            return it.getattr(o, n)
        except I.PyRaise as e:
            if d and e.val.name == "AttributeError":
                return d[0]
            raise
    reg("getattr", getattr_)
    reg("setattr", lambda o, n, v: it.setattr(o, n, v))
    reg("delattr", lambda o, n: o.attrs.pop(n, None))

    def sum_(x, start=0):
        r = start
        for v in it.iterate(x):
            r = it.binop("Add", r, v)
        return r
    reg("sum", sum_)

    def any_(x):
        if isinstance(x, Tensor) and x.ndim == 1 and x.dtype == "bool":
            return it.truth(METHODS["any"](x))
        return any(it.truth(v) for v in it.iterate(x))

    def all_(x):
        if isinstance(x, Tensor) and x.ndim == 1 and x.dtype == "bool":
            return it.truth(METHODS["all"](x))
        return all(it.truth(v) for v in it.iterate(x))
    reg("any", any_)
    reg("all", all_)

    def minmax(name):
        def f(*a, key=None, default=I._UNSET):
            xs = it.iterate(a[0]) if len(a) == 1 else list(a)
            if not xs:
                if default is not I._UNSET:
                    return default
                raise LibError("ValueError", "%s() arg is an empty sequence" % name)
            if key is not None:
                ks = [it.call(key, [x]) for x in xs]
                best = 0
                for k in range(1, len(xs)):
                    c = it.compare("Lt", ks[k], ks[best]) if name == "min" else it.compare("Gt", ks[k], ks[best])
                    if it.truth(c):
                        best = k
                return xs[best]
            if all(is_num(x) for x in xs):
                r = num_term(xs[0])
                kind = num_kind(xs[0])
                for x in xs[1:]:
                    r = T.fun(name, r, num_term(x))
                    if num_kind(x) == "float":
                        kind = "float"
                return mknum(r, kind)
            best = xs[0]
            for x in xs[1:]:
                if it.truth(it.compare("Lt" if name == "min" else "Gt", x, best)):
                    best = x
            return best
        return f
    reg("min", minmax("min"))
    reg("max", minmax("max"))

    def abs_(x):
        if isinstance(x, Tensor):
            return METHODS["abs"](x)
        return mknum(T.fun("abs", num_term(x)), num_kind(x))
    reg("abs", abs_)

    def round_(x, n=None):
        t = norm(num_term(x))
        if t.const is not None:
            v = round(Fraction(t.const), n) if n else round(Fraction(t.const))
            return mknum(T.tt(v), "int" if n is None else "float")
        if t.is_int:
            return x
        return mknum(T.fun("round", t), "int" if n is None else "float")
    reg("round", round_)
    reg("divmod", lambda a, c: (it.binop("FloorDiv", a, c), it.binop("Mod", a, c)))
    reg("pow", lambda a, c, m=None: it.binop("Pow", a, c) if m is None else it.binop("Mod", it.binop("Pow", a, c), m))
    reg("ord", lambda c: ord(c) if isinstance(c, str) else _no("ord"))
    reg("chr", lambda n: chr(it.concrete_int(n)))
    reg("bin", lambda n: bin(it.concrete_int(n)))
    reg("hex", lambda n: hex(it.concrete_int(n)))
    reg("oct", lambda n: oct(it.concrete_int(n)))
    reg("ascii", lambda x: to_text(it, x))
    reg("format", lambda x, s="": formatted(lambda v, w: format(v, w), x, s) or "text")
    b["NotImplemented"] = I.Native("NotImplemented")
    b["Ellipsis"] = Ellipsis

    def endless(v):
        return isinstance(v, I.Native) and v.kind == "stream" and v.attrs.get("endless")

    def zipped(xs, strict=False):
        """The tuples of zip, drawn as it draws them."""
        its = [it.lazily(v) for v in xs]
        out = []
        while xs:
            row = []
            for k, x in enumerate(its):
                try:
                    row.append(next(x))
                except StopIteration:
                    if it.truth(strict):
                        if k or any(next(y, I._UNSET) is not I._UNSET for y in its[1:]):
                            raise LibError("ValueError", "zip() arguments have different lengths")
                    return out
            out.append(tuple(row))
            if len(out) > 20000:
                raise Incomplete("endless iterator")
        return out
    def zip_(*a, strict=False):
        if a and all(endless(v) for v in a):
            return stream(lambda: tuple(v.attrs["pull"]() for v in a))
        return I.PyList(zipped(a, strict))
    def stream(pull):
        return I.Native("stream", pull=pull, endless=True)
    it.stream = stream
    reg("zip", zip_)

    def enumerate_(x, start=0):
        if isinstance(x, I.SymRange) and x.wrap is None and x.lo is ZERO:
            return I.SymRange(x.lo, x.n, x.step, wrap=lambda v: (it.binop("Add", v, start), v))
        if endless(x):
            n = [start]

            def pull():
                r = (n[0], x.attrs["pull"]())
                n[0] = it.binop("Add", n[0], 1)
                return r
            return stream(pull)
        return I.PyList([(it.binop("Add", start, k), v) for k, v in enumerate(it.iterate(x))])
    reg("enumerate", enumerate_)

    def map_(f, *xs):
        if xs and all(endless(x) for x in xs):
            return stream(lambda: it.call(f, [x.attrs["pull"]() for x in xs]))
        return I.PyList([it.call(f, list(v)) for v in zipped(xs)])
    reg("map", map_)
    reg("filter", lambda f, x: I.PyList([v for v in it.iterate(x) if it.truth(v if f is None else it.call(f, [v]))]))
    reg("reversed", lambda x: I.PyList(list(reversed(it.iterate(x)))))

    def sorted_(x, key=None, reverse=False):
        import functools
        xs = it.iterate(x)
        ks = [it.call(key, [v]) for v in xs] if key is not None else xs

        def cmp(p, q):
            if it.truth(it.compare("Lt", ks[p], ks[q])):
                return -1
            if it.truth(it.compare("Lt", ks[q], ks[p])):
                return 1
            return 0
        o = sorted(range(len(xs)), key=functools.cmp_to_key(cmp), reverse=bool(reverse))
        return I.PyList([xs[k] for k in o])
    reg("sorted", sorted_)
    reg("print", lambda *a, **k: None)
    reg("repr", lambda x: to_text(it, x))
    reg("id", lambda x: id(x))
    reg("hash", lambda x: 0)
    def iter_(x, *sentinel):
        if sentinel:
            def pull():
                v = it.call(x, [])
                if it.truth(it.compare("Eq", v, sentinel[0])):
                    raise I.StopGen()
                return v
            return I.Native("stream", pull=pull)
        if isinstance(x, I.Gen) or isinstance(x, I.Native) and x.kind in ("iter", "stream"):
            return x
        if isinstance(x, I.Instance):
            f, _ = x.cls.lookup("__iter__")
            if f is not None:
                return it.call(I.BoundMethod(f, x), [])
        return I.Native("iter", iterable=I.PyList(it.iterate(x)))
    reg("iter", iter_)

    def next_(x, *d):
        if isinstance(x, I.Instance):
            f, _ = x.cls.lookup("__next__")
            if f is None:
                raise LibError("TypeError", "%r object is not an iterator" % x.cls.name)
            try:
                return it.call(I.BoundMethod(f, x), [])
            except I.PyRaise as e:
                if d and e.val.name == "StopIteration":
                    return d[0]
                raise
        if isinstance(x, I.PyList):
            # results of zip, map and generator expressions are kept as lists, from which next() takes the head
            if x.items:
                return x.items.pop(0)
        elif isinstance(x, I.Gen) or isinstance(x, I.Native) and x.kind in ("iter", "stream"):
            for v in it.lazily(x):
                return v
        elif isinstance(x, (tuple, str, I.PyDict, I.PySet, range, Tensor)) or is_num(x) or x is None:
            raise LibError("TypeError", "%r object is not an iterator" % type_name(x))
        else:
            raise Incomplete("next of %r" % (x,))
        if d:
            return d[0]
        raise LibError("StopIteration", "")
    reg("next", next_)
    b["property"] = I.Builtin("property", lambda fget=None, fset=None, fdel=None, doc=None: I.PropertyV(fget, fset, fdel))
    b["staticmethod"] = I.Builtin("staticmethod", lambda f: I.StaticV(f))
    b["classmethod"] = I.Builtin("classmethod", lambda f: I.ClassMethodV(f))
    reg("super", lambda c, o: I.SuperV(c, o, o.cls if isinstance(o, I.Instance) else o))
    reg("vars", lambda o: I.PyDict(o.ns if isinstance(o, (I.ModuleV, I.Class)) else o.attrs))
    reg("dir", lambda o: I.PyList(sorted(o.ns)))

    def globals_(it_, env, args, kw):
        d = I.PyDict()
        d.d = env.module.ns
        d.origin = ("global", env.module.name)
        return d

    def locals_(it_, env, args, kw):
        return I.PyDict(env.vars)
    reg("globals", globals_, True)
    reg("locals", locals_, True)
    return b


def tensor_type(it):
    I = _I()
    if getattr(it, "tensor_type", None) is not None:
        return it.tensor_type

    def make(*a, device=None):
        if len(a) == 1 and isinstance(a[0], (I.PyList, tuple)):
            return X.tensor_from(it.plain(a[0]), "float32", to_device(it, device))
        if all(is_num(x) for x in a) and a:
            return LIB["torch.empty"].fn(it)(*a, device=device) if isinstance(LIB["torch.empty"], Lazy) else None
        if len(a) == 1 and isinstance(a[0], Tensor):
            return a[0]
        if not a:
            return X.mk((ZERO,), lambda i: ZERO, "float32")
        raise Incomplete("Tensor(...)")
    it.tensor_type = I.TypeV("Tensor", make, lambda x: isinstance(x, Tensor))
    return it.tensor_type


def to_device(it, d):
    I = _I()
    if d is None:
        return CPU
    if isinstance(d, Device):
        return d
    if isinstance(d, str):
        return Device(d)
    if isinstance(d, I.SymStr):
        return Device("$" + d.name)
    if isinstance(d, int):
        return Device("cuda:%d" % d)
    raise LibError("TypeError", "invalid device %s" % type_name(d))


def to_dtype(d):
    I = _I()
    if d is None:
        return None
    if isinstance(d, DType):
        return d.name
    if isinstance(d, I.TypeV):
        return {"float": "float32", "int": "int64", "bool": "bool"}[d.name]
    raise Incomplete("dtype %r" % (d,))


# ------------------------------------------------------------------ numbers
def num_pow(x, y, kind):
    c = y.const
    if c is not None:
        if int(c) == c:
            n = int(c)
            if n >= 0:
                r = ONE
                for _ in range(n):
                    r = r * x
                return mknum(r, kind)
            return mknum(T.inv(num_term(num_pow(x, T.tt(-n), kind))), "float")
        if c == Fraction(1, 2):
            return mknum(T.fun("sqrt", x), "float")
    if x.const is not None and y.const is not None:
        return Num(T.tt(float(x.const) ** float(y.const)), "float")
    return Num(T.fun("pow", x, y), "float")


# ------------------------------------------------------------------ library namespaces
def lib_value(it, path):
    v = LIB.get(path)
    if v is None:
        return None
    if isinstance(v, Lazy):
        memo = it.__dict__.setdefault("lazy_memo", {})
        if path not in memo:
            memo[path] = v.fn(it)
        return memo[path]
    return v


def lib_attr(it, o, name):
    I = _I()
    p = o.path + "." + name
    if p in LIB:
        return lib_value(it, p)
    if any(k.startswith(p + ".") for k in LIB):
        return I.Lib(p)
    if o.path in ("typing", "collections.abc", "typing_extensions", "types", "numbers"):
        return I.Native("typing", name=name)
    from . import nnprelude
    v = nnprelude.lookup(it, p)
    if v is not None:
        return v
    # an unknown library value: harmless until it is used
    return I.Lib(p)


def import_external(it, name):
    I = _I()
    top = name.split(".")[0]
    allowed = getattr(it, "allowed_imports", None)
    if allowed is not None and top not in allowed and top not in _stdlib_names():
        raise I.PyRaise(I.exc("ModuleNotFoundError", "No module named %r" % top), it.where(), it.stack())
    if name in LIB:
        return lib_value(it, name)
    return I.Lib(name)


def _stdlib_names():
    import sys
    return sys.stdlib_module_names


def module_class(it):
    from . import nnprelude
    return nnprelude.module_class(it)


# ------------------------------------------------------------------ attributes of plain values
def value_attr(it, o, name):
    I = _I()
    B = lambda fn: I.Builtin(name, fn)
    if isinstance(o, (str, I.SymStr)):
        return str_attr(it, o, name)
    if isinstance(o, I.PyList):
        return list_attr(it, o, name)
    if isinstance(o, I.PyDict):
        return dict_attr(it, o, name)
    if isinstance(o, I.PySet):
        if name in ("add", "discard", "remove", "update"):
            def ch(x):
                it.note_write(o, "changing a set")
                if name == "add":
                    if x not in o.items:
                        o.items.append(x)
                elif name == "update":
                    for y in it.iterate(x):
                        if y not in o.items:
                            o.items.append(y)
                elif x in o.items:
                    o.items.remove(x)
                elif name == "remove":
                    raise LibError("KeyError", x)
            return B(ch)
        if name in ("union", "__or__"):
            return B(lambda x: I.PySet(o.items + it.iterate(x)))
        if name == "copy":
            return B(lambda: I.PySet(o.items))
        if name == "issubset":
            return B(lambda x: all(y in it.iterate(x) for y in o.items))
    if isinstance(o, tuple):
        if name in getattr(o, "fields", ()):
            return o[o.fields.index(name)]
        if name == "numel":
            def numel():
                r = ONE
                for s in o:
                    r = r * num_term(s)
                return mknum(r, "int")
            return B(numel)
        if name == "index":
            def index(v):
                for k, x in enumerate(o):
                    if it.truth(it.compare("Eq", x, v)):
                        return k
                raise LibError("ValueError", "tuple.index(x): x not in tuple")
            return B(index)
        if name == "count":
            return B(lambda v: sum(1 for x in o if it.truth(it.compare("Eq", x, v))))
    if isinstance(o, I.Native):
        if name in o.attrs:
            return o.attrs[name]
        if o.kind == "pbar":
            return B(lambda *a, **k: None)
        if o.kind == "typing":
            return I.Native("typing", name=name)
        raise Incomplete("attribute %s of %r" % (name, o))
    if isinstance(o, Device):
        if name == "type":
            return o.name.split(":")[0]
        if name == "index":
            return None
    if isinstance(o, I.TypeV):
        if name == "__name__":
            return o.name
        if o.name == "Tensor":
            if name in METHODS:
                return I.Builtin(name, lambda t, *a, **k: it.call(tensor_attr(it, t, name), list(a), k))
        if o.name == "dict" and name == "fromkeys":
            def fromkeys(ks, v=None):
                return I.PyDict({k: v for k in it.iterate(ks)})
            return B(fromkeys)
        if o.name == "object":
            if name == "__setattr__":
                return B(lambda s, n, v: it.setattr(s, n, v, raw=True))
            if name == "__getattribute__":
                return B(lambda s, n: it.getattr(s, n))
            if name == "__new__":
                return B(lambda c, *a, **k: I.Instance(c))
            if name == "__delattr__":
                return B(lambda s, n: s.attrs.pop(n, None))
            if name == "__repr__":
                return B(lambda s: to_text(it, s))
        if o.name == "str" and name in ("lower", "upper", "strip"):
            return I.Builtin(name, lambda s: it.call(str_attr(it, s, name), []))
        if name == "__init__":
            return B(lambda *a, **k: None)
    if isinstance(o, DType):
        if name == "is_floating_point":
            return X.is_float(o.name)
    if is_num(o):
        if name == "item":
            pass
        if name in ("real", "numerator"):
            return o
        if name == "is_integer":
            return B(lambda: norm(num_term(o)).is_int)
    if isinstance(o, range):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
    if isinstance(o, slice) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if isinstance(o, tuple) and name in ("__len__", "__getitem__", "__contains__", "__iter__"):
        return {"__len__": B(lambda: len(o)), "__getitem__": B(lambda k: it.getitem(o, k)), "__contains__": B(lambda k: it.contains(o, k)),
                "__iter__": B(lambda: it.call(it.builtins["iter"], [o]))}[name]
    if isinstance(o, I.PySet) and name in ("intersection", "difference", "symmetric_difference", "issuperset", "isdisjoint", "pop",
                                           "clear", "intersection_update", "difference_update"):
        def other(x):
            return it.iterate(x)
        if name == "intersection":
            return B(lambda *xs: I.PySet([v for v in o.items if all(v in other(x) for x in xs)]))
        if name == "difference":
            return B(lambda *xs: I.PySet([v for v in o.items if not any(v in other(x) for x in xs)]))
        if name == "symmetric_difference":
            return B(lambda x: I.PySet([v for v in o.items if v not in other(x)] + [v for v in other(x) if v not in o.items]))
        if name == "issuperset":
            return B(lambda x: all(v in o.items for v in other(x)))
        if name == "isdisjoint":
            return B(lambda x: not any(v in o.items for v in other(x)))
        if name == "clear":
            return B(lambda: (it.note_write(o, "set.clear"), o.items.clear())[1])
        raise Incomplete("method %s of a set" % name)
    real = type(None) if o is None else tuple if isinstance(o, tuple) else set if isinstance(o, I.PySet) else \
        None if isinstance(o, Device) else {"int": int, "bool": bool, "float": float}.get(num_kind(o)) if is_num(o) else None
    if real is not None and hasattr(real, name):
        raise Incomplete("attribute %s of a %s" % (name, real.__name__))
    if o is None or is_num(o) or isinstance(o, (tuple, I.PySet, Device)):
        it.raise_("AttributeError", "%r object has no attribute %r" % (type_name(o), name))
    raise Incomplete("attribute %s of %r" % (name, o))


def str_attr(it, o, name):
    I = _I()
    B = lambda fn: I.Builtin(name, fn)
    if isinstance(o, I.SymStr):
        if name in ("lower", "upper", "strip", "casefold"):
            return B(lambda *a: I.SymStr("%s(%s)" % (name, o.name)))
        if name == "format":
            return B(lambda *a, **k: I.SymStr("text"))
        if name in ("startswith", "endswith", "isupper", "islower"):
            return B(lambda *a: mknum(T.ind("streq", o.name, (name,) + tuple(map(str, a))), "bool"))
        raise Incomplete("method %s of an unknown text" % name)
    if name == "format":
        def fmt(*a, **k):
            r = formatted(o.format, *a, **k)
            return I.SymStr("%s %% (%s)" % (o, ", ".join(map(str, [to_text(it, x) for x in a + tuple(k.values())])))) if r is None else r
        return B(fmt)
    if name == "join":
        return B(lambda xs: o.join(str(to_text(it, x)) for x in it.iterate(xs)))
    if hasattr(o, name):
        m = getattr(o, name)

        def call(*a, **k):
            if any(not isinstance(x, (str, int, type(None), tuple)) for x in a):
                raise Incomplete("text method on unknown values")
            r = m(*a, **k)
            return I.PyList(r) if isinstance(r, list) else r
        return B(call)
    it.raise_("AttributeError", "'str' object has no attribute %r" % name)


def missing(it, typ, name):
    """Access of an attribute the model lacks: an error only if the real type lacks it too."""
    if hasattr(typ, name):
        raise Incomplete("attribute %s of a %s" % (name, typ.__name__))
    it.raise_("AttributeError", "%r object has no attribute %r" % (typ.__name__, name))


def _no(what):
    raise Incomplete(what)


def list_attr(it, o, name):
    I = _I()
    B = lambda fn: I.Builtin(name, fn)

    def w():
        it.note_write(o, "list." + name)
    if o.deque:
        import collections
        n = None if o.maxlen is None else it.concrete_int(o.maxlen)

        def trim(left):
            if n is not None and len(o.items) > n:
                if left:
                    del o.items[:len(o.items) - n]
                else:
                    del o.items[n:]
        if name in ("append", "extend"):
            return B(lambda x: (w(), o.items.extend([x] if name == "append" else it.iterate(x)), trim(True))[0])
        if name in ("appendleft", "extendleft"):
            return B(lambda x: (w(), o.items.__setitem__(slice(0, 0), [x] if name == "appendleft" else it.iterate(x)[::-1]),
                                trim(False))[0])
        if name == "popleft":
            def popleft():
                w()
                if not o.items:
                    raise LibError("IndexError", "pop from an empty deque")
                return o.items.pop(0)
            return B(popleft)
        if name == "rotate":
            def rotate(k=1):
                w()
                d = collections.deque(o.items)
                d.rotate(it.concrete_int(k))
                o.items[:] = list(d)
            return B(rotate)
        if name == "maxlen":
            return o.maxlen
    if name == "append":
        return B(lambda x: (w(), o.items.append(x))[1])
    if name == "extend":
        return B(lambda x: (w(), o.items.extend(it.iterate(x)))[1])
    if name == "insert":
        return B(lambda k, x: (w(), o.items.insert(it.concrete_int(k), x))[1])
    if name == "pop":
        def pop(k=-1):
            w()
            if not o.items:
                raise LibError("IndexError", "pop from empty list")
            return o.items.pop(it.concrete_int(k))
        return B(pop)
    if name == "copy":
        return B(lambda: I.PyList(o.items))
    if name == "clear":
        return B(lambda: (w(), o.items.clear())[1])
    if name == "reverse":
        return B(lambda: (w(), o.items.reverse())[1])
    if name == "sort":
        def sort(key=None, reverse=False):
            w()
            o.items[:] = it.call(it.builtins["sorted"], [o], {"key": key, "reverse": reverse}).items
        return B(sort)
    if name == "index":
        def index(v):
            for k, x in enumerate(o.items):
                if it.truth(it.compare("Eq", x, v)):
                    return k
            raise LibError("ValueError", "not in list")
        return B(index)
    if name == "count":
        return B(lambda v: sum(1 for x in o.items if it.truth(it.compare("Eq", x, v))))
    if name == "remove":
        def remove(v):
            w()
            for k, x in enumerate(o.items):
                if it.truth(it.compare("Eq", x, v)):
                    del o.items[k]
                    return
            raise LibError("ValueError", "not in list")
        return B(remove)
    if name == "__len__":
        return B(lambda: len(o.items))
    if name == "__getitem__":
        return B(lambda k: it.getitem(o, k))
    if name == "__contains__":
        return B(lambda k: it.contains(o, k))
    if name == "__iter__":
        return B(lambda: it.call(it.builtins["iter"], [o]))
    missing(it, list, name)


def dict_attr(it, o, name):
    I = _I()
    B = lambda fn: I.Builtin(name, fn)

    def w():
        it.note_write(o, "dict." + name)
    if name == "get":
        return B(lambda k, d=None: it.dict_get(o, k, d))
    if name in ("items", "keys", "values"):
        def seq():
            if o.sym:
                raise Incomplete("iteration over a dict with unknown keys")
            return I.PyList([(k, v) if name == "items" else k if name == "keys" else v for k, v in o.d.items()])
        return B(seq)
    if name == "update":
        def update(*a, **kw):
            w()
            for x in a:
                if isinstance(x, I.PyDict):
                    for k, v in x.d.items():
                        o.d[k] = v
                    for k, v in x.sym:
                        it.dict_set(o, k, v)
                else:
                    for kv in it.iterate(x):
                        it.dict_set(o, kv[0], kv[1])
            o.d.update(kw)
        return B(update)
    if name == "pop":
        def pop(k, *d):
            w()
            v = it.dict_get(o, k, *d)
            kk = it.dkey(k)
            if kk in o.d:
                del o.d[kk]
            return v
        return B(pop)
    if name == "setdefault":
        def setdefault(k, v=None):
            if it.dict_has(o, k):
                return it.dict_get(o, k)
            w()
            it.dict_set(o, k, v)
            return v
        return B(setdefault)
    if name == "copy":
        def copy():
            d = I.PyDict(o.d)
            d.sym = list(o.sym)
            return d
        return B(copy)
    if name == "clear":
        return B(lambda: (w(), o.d.clear())[1])
    if name == "__getitem__":
        return B(lambda k: it.dict_get(o, k))
    if name == "__contains__":
        return B(lambda k: it.dict_has(o, k))
    if name == "__setitem__":
        return B(lambda k, v: it.setitem(o, k, v))
    if name == "__len__":
        return B(lambda: len(o.d) + len(o.sym))
    if name == "popitem":
        def popitem(last=True):
            w()
            if o.sym:
                raise Incomplete("popitem of a dict with unknown keys")
            if not o.d:
                raise LibError("KeyError", "popitem(): dictionary is empty")
            k = list(o.d)[-1 if it.truth(last) else 0]
            return (k, o.d.pop(k))
        return B(popitem)
    if name == "move_to_end":
        def move(key, last=True):
            w()
            v = o.d.pop(key)
            if it.truth(last):
                o.d[key] = v
            else:
                r = dict(o.d)
                o.d.clear()
                o.d[key] = v
                o.d.update(r)
        return B(move)
    if name == "default_factory":
        return o.factory
    if o.counter and name in ("most_common", "elements"):
        if name == "elements":
            return B(lambda: I.PyList([k for k, v in o.d.items() for _ in range(it.concrete_int(v))]))
        return B(lambda n=None: I.PyList(sorted(o.d.items(), key=lambda e: -it.concrete_int(e[1]))[:n]))
    missing(it, dict, name)


from .torchlib import (tensor_attr, tensor_setattr, tensor_binop, tensor_unop, tensor_compare, inplace_binop,  # noqa: E402
                       check_leaf_write, any_, all_storages)
from .nnprelude import module_setattr  # noqa: E402
from . import pylib  # noqa: E402,F401
from . import pyprelude  # noqa: E402,F401
