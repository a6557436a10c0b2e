"""Model of the parts of the standard library (and tqdm) the package uses."""
from . import terms as T
from . import tensor as X
from .terms import ZERO, ONE, tt
from .tensor import Tensor, Num, Incomplete, LibError, num_term, num_kind, mknum, is_num, norm, ctx
from .lib import LIB, METHODS, Lazy


def _I():
    from . import interp
    return interp


def reg(*names):
    def deco(fn):
        for n in names:
            LIB[n] = Lazy(lambda it, n=n: _I().Builtin(n, fn))
        return fn
    return deco


def regit(*names):
    """Function that needs the interpreter as first argument."""
    def deco(fn):
        for n in names:
            LIB[n] = Lazy(lambda it, n=n: _I().Builtin(n, lambda *a, **k: fn(it, *a, **k)))
        return fn
    return deco


def num(x):
    if isinstance(x, Tensor):
        return X.scalar_of(x)
    if not is_num(x):
        from .lib import type_name
        raise LibError("TypeError", "must be real number, not %s" % type_name(x))
    return norm(num_term(x))


# ------------------------------------------------------------------ math
LIB["math.pi"] = Num(T.PI, "float")
LIB["math.tau"] = Num(T.PI * 2, "float")
LIB["math.inf"] = Num(T.of_atom(T.INF), "float")
LIB["math.nan"] = Num(T.opq("nan"), "float")
LIB["math.e"] = Num(T.fun("exp", ONE), "float")


def _m(name, f, kind="float"):
    LIB["math." + name] = Lazy(lambda it: _I().Builtin("math." + name, lambda *a: mknum(f(*[num(x) for x in a]), kind)))


_m("sqrt", lambda x: T.fun("sqrt", x))
_m("sin", lambda x: T.fun("sin", x))
_m("cos", lambda x: T.fun("cos", x))
_m("tan", lambda x: T.fun("sin", x) * T.inv(T.fun("cos", x)))
_m("acos", lambda x: T.fun("acos", x))
_m("asin", lambda x: T.PI / 2 - T.fun("acos", x))
_m("atan", lambda x: T.fun("atan2", x, ONE))
_m("atan2", lambda y, x: T.fun("atan2", y, x))
_m("exp", lambda x: T.fun("exp", x))
_m("fabs", lambda x: T.fun("abs", x))
_m("radians", lambda x: x * T.PI / 180)
_m("degrees", lambda x: x * T.inv(T.PI) * 180)
_m("fmod", lambda x, y: T.fun("cfmod", x, y))
_m("hypot", lambda x, y: T.fun("sqrt", x * x + y * y))
_m("log", lambda x, b=None: T.fun("log", x) if b is None else T.fun("log", x) * T.inv(T.fun("log", b)))
_m("log2", lambda x: T.fun("log", x) * T.inv(T.fun("log", tt(2))))
_m("log10", lambda x: T.fun("log", x) * T.inv(T.fun("log", tt(10))))
_m("floor", lambda x: T.fun("floor", x), "int")
_m("ceil", lambda x: -T.fun("floor", -x), "int")
_m("trunc", lambda x: x if x.is_int else T.fun("trunc", x), "int")
_m("isqrt", lambda x: T.fun("floor", T.fun("sqrt", x)), "int")


@reg("math.pow")
def m_pow(x, y):
    from .lib import num_pow
    return num_pow(num(x), num(y), "float")


@regit("math.prod")
def m_prod(it, xs, start=1):
    r = start
    for x in it.iterate(xs):
        r = it.binop("Mult", r, x)
    return r


@reg("math.isclose")
def m_isclose(a, b, rel_tol=Num(tt(1e-9), "float"), abs_tol=Num(ZERO, "float")):
    x, y = num(a), num(b)
    return mknum(T.le(T.fun("abs", x - y), T.fun("max", num(rel_tol) * T.fun("max", T.fun("abs", x), T.fun("abs", y)),
                                                 num(abs_tol))), "bool")


@reg("math.gcd")
def m_gcd(*a):
    import math
    return math.gcd(*[int(num(x).const) for x in a])


@reg("math.factorial", "math.comb")
def m_fact(*a):
    import math
    c = [num(x).const for x in a]
    if any(x is None for x in c):
        raise Incomplete("factorial of a symbol")
    return math.factorial(int(c[0])) if len(c) == 1 else math.comb(int(c[0]), int(c[1]))


_m("isnan", lambda x: ZERO, "bool")
_m("isinf", lambda x: ONE if x is T.of_atom(T.INF) else ZERO, "bool")
_m("isfinite", lambda x: ZERO if x is T.of_atom(T.INF) else ONE, "bool")


# ------------------------------------------------------------------ functools, itertools, operator, copy
@regit("functools.partial")
def f_partial(it, f, *a, **k):
    I = _I()
    n = I.Native("partial", func=f, args=tuple(a), keywords=I.PyDict(k))
    n.attrs["call"] = lambda *b, **kw: it.call(f, list(a) + list(b), {**k, **kw})
    return n


@regit("functools.reduce")
def f_reduce(it, f, xs, *init):
    l = it.iterate(xs)
    if init:
        r = init[0]
    else:
        if not l:
            raise LibError("TypeError", "reduce() of empty iterable with no initial value")
        r = l.pop(0)
    for x in l:
        r = it.call(f, [r, x])
    return r


@reg("functools.wraps")
def f_wraps(f, *a, **k):
    return _I().Builtin("wraps", lambda g: f_update_wrapper(g, f))


@reg("functools.update_wrapper")
def f_update_wrapper(g, f, *a, **k):
    I = _I()
    if isinstance(g, I.Func):
        g.attrs.update(f.attrs if isinstance(f, I.Func) else {})
        g.attrs.pop("*grad", None)
        g.attrs.update({"__wrapped__": f, "__name__": getattr(f, "name", g.name)})
    return g


@regit("functools.lru_cache", "functools.cache")
def f_cache(it, f=None, maxsize=None, typed=False):
    I = _I()

    def deco(g):
        memo = []
        b = I.Native("cached", func=g, memo=memo)

        def call(*a, **k):
            for (aa, kk), v in memo:
                if len(aa) == len(a) and set(kk) == set(k) and all(it.equal_key(x, y) for x, y in zip(aa, a)) and \
                        all(it.equal_key(kk[n], k[n]) for n in k):
                    return v
            v = it.call(g, list(a), k)
            memo.append(((a, k), v))
            I.mark_origin(v, ("global", "cache of %s" % getattr(g, "qual", "function")))
            return v
        b.attrs["call"] = call
        b.attrs["cache_clear"] = I.Builtin("cache_clear", lambda: memo.clear())
        b.attrs["__wrapped__"] = g
        return b
    if f is None or is_num(f):
        return I.Builtin("lru_cache", deco)
    return deco(f)


@regit("itertools.product")
def f_product(it, *xs, repeat=1):
    import itertools
    l = [it.iterate(x) for x in xs] * it.concrete_int(repeat)
    return _I().PyList(list(itertools.product(*l)))


@regit("itertools.combinations", "itertools.permutations_")
def f_comb(it, x, r):
    import itertools
    return _I().PyList(list(itertools.combinations(it.iterate(x), it.concrete_int(r))))


@regit("itertools.permutations")
def f_perm(it, x, r=None):
    import itertools
    return _I().PyList(list(itertools.permutations(it.iterate(x), r)))


def f_chain(it, *xs):
    return _I().PyList([v for x in xs for v in it.iterate(x)])


def _chain(it):
    f = _I().Builtin("itertools.chain", lambda *xs: f_chain(it, *xs))
    f.attrs["from_iterable"] = _I().Builtin("from_iterable", lambda iterable: f_chain(it, *it.iterate(iterable)))
    return f


LIB["itertools.chain"] = Lazy(_chain)


@regit("itertools.repeat")
def f_repeat(it, object, times=None):
    if times is None:
        return it.stream(lambda: object)
    return _I().PyList([object] * it.concrete_int(times))


@regit("itertools.count")
def f_count(it, start=0, step=1):
    n = [start]

    def pull():
        r = n[0]
        n[0] = it.binop("Add", r, step)
        return r
    return it.stream(pull)


@regit("itertools.cycle")
def f_cycle(it, xs):
    I = _I()
    l = it.iterate(xs)
    k = [0]

    def pull():
        if not l:
            raise I.StopGen()
        k[0] += 1
        return l[(k[0] - 1) % len(l)]
    return it.stream(pull)


@regit("itertools.groupby")
def f_groupby(it, xs, key=None):
    I = _I()
    out = []
    for v in it.iterate(xs):
        k = v if key is None else it.call(key, [v])
        if out and it.truth(it.compare("Eq", out[-1][0], k)):
            out[-1][1].items.append(v)
        else:
            out.append((k, I.PyList([v])))
    return I.PyList(out)


for _n, _op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("matmul", "MatMult"),
                ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow")):
    LIB["operator." + _n] = Lazy(lambda it, op=_op: _I().Builtin(op, lambda a, b: it.binop(op, a, b)))
for _n, _op in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
    LIB["operator." + _n] = Lazy(lambda it, op=_op: _I().Builtin(op, lambda a, b: it.compare(op, a, b)))


@regit("operator.itemgetter")
def f_itemgetter(it, *ks):
    if len(ks) == 1:
        return _I().Builtin("itemgetter", lambda o: it.getitem(o, ks[0]))
    return _I().Builtin("itemgetter", lambda o: tuple(it.getitem(o, k) for k in ks))


@regit("operator.neg")
def f_neg(it, a):
    return it.unop("USub", a)


def copy_value(it, v, how, memo):
    """copy.deepcopy (how "deep") or a pickle round trip (how "pickle")."""
    I = _I()
    if id(v) in memo:
        return memo[id(v)][1]

    def done(r):
        memo[id(v)] = (v, r)
        return r
    c = lambda x: copy_value(it, x, how, memo)
    if isinstance(v, Tensor):
        from .torchlib import copy_of, is_leaf, set_requires, requires
        if requires(v) and not is_leaf(v) and how == "deep":
            raise LibError("RuntimeError", "Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol")
        r = copy_of(v)
        r.st.grad = frozenset()
        r.is_param = v.is_param
        r.name = v.name
        if requires(v):
            set_requires(r, True)
        return done(r)
    if isinstance(v, I.PyList):
        r = done(I.PyList([]))
        r.deque, r.maxlen = v.deque, v.maxlen
        r.items.extend(c(x) for x in v.items)
        return r
    if isinstance(v, I.PyDict):
        d = done(I.PyDict({}))
        d.factory, d.counter = v.factory, v.counter
        if d.factory is not None and not d.counter:
            c(d.factory)
        d.d.update({c(k) if isinstance(k, (tuple, I.Instance)) else k: c(x) for k, x in v.d.items()})
        d.sym = list(v.sym)
        return d
    if isinstance(v, I.PySet):
        return done(I.PySet(v.items))
    if isinstance(v, I.NTup):
        if how == "pickle" and v.cls.module is not None:
            c(v.cls)
        return I.NTup.of(v.cls, [c(x) for x in v])
    if isinstance(v, tuple):
        return tuple(c(x) for x in v)
    if isinstance(v, I.Gen):
        raise LibError("TypeError", "cannot pickle 'generator' object")
    if isinstance(v, I.Instance) and v.cls.ns.get("*members"):
        if how == "pickle":
            c(v.cls)
        return v
    if isinstance(v, I.BoundMethod):
        return done(I.BoundMethod(v.func, c(v.self)))
    if isinstance(v, I.Native) and v.kind == "partial":
        return done(f_partial(it, c(v.attrs["func"]), *[c(x) for x in v.attrs["args"]],
                              **{k: c(x) for k, x in v.attrs["keywords"].d.items()}))
    if isinstance(v, I.Func) and how == "pickle":
        if isinstance(v.module, I.ModuleV) and v.module is it.__dict__.get("py_prelude"):
            if v.closure is not None and not importable(v, I):
                raise Incomplete("pickling a library object")
            return v
        if v.is_lambda or not importable(v, I):
            raise LibError("AttributeError", "Can't pickle %s: it is not found under its name in %s" % (
                v.qual, v.module.name if isinstance(v.module, I.ModuleV) else v.module))
        return v
    if isinstance(v, I.Class) and how == "pickle":
        if not importable(v, I):
            raise LibError("AttributeError", "Can't pickle %s: it is not found under its name" % v.qual)
        return v
    if isinstance(v, I.Instance):
        if how == "pickle":
            c(v.cls)
        for n in (("__deepcopy__",) if how == "deep" else ()) + ("__reduce_ex__", "__reduce__", "__getnewargs__", "__getstate__", "__setstate__"):
            f, where = v.cls.lookup(n)
            if f is None or isinstance(f, I.Builtin):
                continue
            if n == "__deepcopy__":
                return done(it.call(I.BoundMethod(f, v), [I.PyDict({})]))
            raise Incomplete("copying an object that defines " + n)
        o = done(I.Instance(v.cls))
        m = lambda d: None if d is None else {k: c(x) for k, x in d.items()}
        o.attrs = m(v.attrs)
        o.params, o.buffers, o.modules = m(v.params), m(v.buffers), m(v.modules)
        o.native = {k: dict(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x for k, x in v.native.items()}
        return o
    return v


def importable(v, I):
    """The function or class is found in its module under its qualified name."""
    m = v.module
    if not isinstance(m, I.ModuleV):
        return True
    name = getattr(v, "attrs", {}).get("__name__", v.name) if isinstance(v, I.Func) else v.name
    if m.ns.get(name) is v:
        return True
    cls = getattr(v, "cls", None)
    if isinstance(cls, I.Class):
        f = cls.ns.get(name)
        f = getattr(f, "f", f)
        return f is v and importable(cls, I)
    return False


@regit("copy.copy")
def f_copy(it, v):
    I = _I()
    if isinstance(v, I.PyList):
        r = I.PyList(v.items)
        r.deque, r.maxlen = v.deque, v.maxlen
        return r
    if isinstance(v, I.PyDict):
        d = I.PyDict(v.d)
        d.factory, d.counter = v.factory, v.counter
        d.sym = list(v.sym)
        return d
    if isinstance(v, I.PySet):
        return I.PySet(v.items)
    if isinstance(v, I.Instance):
        o = I.Instance(v.cls)
        o.attrs = dict(v.attrs)
        # torch modules share the dictionaries of parameters, buffers and submodules with a shallow copy
        o.params, o.buffers, o.modules = v.params, v.buffers, v.modules
        o.native = dict(v.native)
        return o
    return v


@regit("copy.deepcopy")
def f_deepcopy(it, v, memo=None):
    return copy_value(it, v, "deep", {})


@regit("pickle.roundtrip")
def f_pickled(it, v):
    """Specification side only: pickle.loads(pickle.dumps(v))."""
    return copy_value(it, v, "pickle", {})


# ------------------------------------------------------------------ warnings, contextlib, logging, collections
@reg("warnings.warn", "logging.warning", "warnings.warn_explicit")
def f_warn(*a, **k):
    ctx().event("warning", "warning: %s" % (a[0] if a else "",))


@reg("warnings.filterwarnings", "warnings.simplefilter", "logging.info", "logging.debug")
def f_none(*a, **k):
    return None


@reg("warnings.catch_warnings")
def f_catch(record=False, **k):
    return _I().Native("catch_warnings")


@reg("logging.getLogger")
def f_logger(*a):
    I = _I()
    b = I.Builtin("log", lambda *a, **k: None)
    return I.Native("logger", info=b, debug=b, warning=b, error=b)


@reg("contextlib.nullcontext")
def f_null(enter_result=None):
    return _I().Native("nullcontext", value=enter_result)


@reg("contextlib.suppress")
def f_suppress(*c):
    return _I().Native("suppress", classes=list(c))


@regit("collections.OrderedDict")
def f_od(it, *a, **k):
    return it.call(it.builtins["dict"], list(a), k)


@regit("collections.defaultdict")
def f_defaultdict(it, default_factory=None, *a, **k):
    d = it.call(it.builtins["dict"], list(a), k)
    d.factory = default_factory
    return d


@regit("collections.Counter")
def f_counter(it, *a, **k):
    I = _I()
    d = I.PyDict({})
    d.factory, d.counter = I.Builtin("zero", lambda: 0), True
    for x in a:
        if isinstance(x, I.PyDict):
            d.d.update(x.d)
        else:
            for v in it.iterate(x):
                it.dict_set(d, v, it.binop("Add", it.dict_get(d, v), 1))
    d.d.update(k)
    return d


@regit("collections.deque")
def f_deque(it, iterable=(), maxlen=None):
    r = _I().PyList(it.iterate(iterable))
    r.deque, r.maxlen = True, maxlen
    if maxlen is not None:
        n = it.concrete_int(maxlen)
        del r.items[:max(0, len(r.items) - n)]
    return r


def gen_attr(it, g, name):
    I = _I()

    def step(v):
        try:
            return g.resume(v)
        except I.StopGen as e:
            x = I.exc("StopIteration", "")
            x.attrs["value"] = e.v
            raise I.PyRaise(x, it.where(), it.stack())

    def close():
        if g.state == "suspended":
            try:
                g.resume(I.PyRaise(I.exc("GeneratorExit", ""), it.where(), it.stack()))
            except I.StopGen:
                return
            except I.PyRaise as e:
                if e.val.name == "GeneratorExit":
                    return
                raise
        g.state = "done"

    def throw(e, *a):
        if isinstance(e, (I.ExcClass, I.Class)):
            e = it.call(e, [])
        return step(I.PyRaise(e, it.where(), it.stack()))
    f = {"send": lambda v: step(v), "__next__": lambda: step(None), "throw": throw, "close": close, "__iter__": lambda: g}.get(name)
    if f is None:
        it.raise_("AttributeError", "'generator' object has no attribute %r" % name)
    return I.Builtin(name, f)


# ------------------------------------------------------------------ named tuples, enumerations, data classes
def nt_class(it, c, names, defaults):
    I = _I()
    c.ns["*fields"] = tuple(names)
    c.ns["_fields"] = tuple(names)
    c.ns["_field_defaults"] = I.PyDict(defaults)
    c.ns["__match_args__"] = tuple(names)

    def make(c, args, kw):
        new, k = c.lookup("__new__")
        if new is not None:
            raise Incomplete("a named tuple with __new__")
        if len(args) > len(names):
            raise LibError("TypeError", "%s() takes %d positional arguments but %d were given" % (c.name, len(names) + 1, len(args) + 1))
        v = dict(zip(names, args))
        for n, x in kw.items():
            if n not in names or n in v:
                raise LibError("TypeError", "%s() got an unexpected or repeated argument %r" % (c.name, n))
            v[n] = x
        for n in names:
            if n not in v:
                if n not in defaults:
                    raise LibError("TypeError", "%s() missing required argument: %r" % (c.name, n))
                v[n] = defaults[n]
        return I.NTup.of(c, [v[n] for n in names])
    c.ns["*make"] = make

    def replace(s, **kw):
        for n in kw:
            if n not in names:
                raise LibError("ValueError", "Got unexpected field names: %r" % [n])
        return I.NTup.of(s.cls, [kw.get(n, x) for n, x in zip(names, s)])
    c.ns["_replace"] = I.Builtin("_replace", replace)
    c.ns["_asdict"] = I.Builtin("_asdict", lambda s: I.PyDict(dict(zip(names, s))))
    c.ns["_make"] = I.ClassMethodV(I.Builtin("_make", lambda c, xs: make(c, it.iterate(xs), {})))


@regit("collections.namedtuple")
def f_namedtuple(it, typename, field_names, rename=False, defaults=None, module=None):
    I = _I()
    names = field_names.replace(",", " ").split() if isinstance(field_names, str) else list(it.iterate(field_names))
    d = [] if defaults is None else it.iterate(defaults)
    c = I.Class(typename, [], {}, None, typename)
    nt_class(it, c, names, dict(zip(names[len(names) - len(d):], d)))
    return c


def special_class(it, c, special, mixin):
    """A class statement with NamedTuple, TypedDict or an enumeration among its bases."""
    I = _I()
    if special == "NamedTuple":
        names = [n for n, _ in c.ns.get("*ann", [])]
        nt_class(it, c, names, {n: c.ns.pop(n) for n in names if n in c.ns})
        return
    if special == "TypedDict":
        c.ns["*make"] = lambda c, a, k: it.call(it.builtins["dict"], list(a), k)
        return
    base, _ = c.lookup("*enum")
    if base is None:
        return
    mixin = mixin or next((b.ns["*mixin"] for b in c.mro if isinstance(b, I.Class) and b.ns.get("*mixin")), None)
    if any(isinstance(b, I.Class) and b.ns.get("*members") for b in c.mro[1:]):
        raise LibError("TypeError", "cannot extend an enumeration")
    members = {}
    byval = []
    count = 0
    for n, v in list(c.ns.items()):
        if n.startswith("*") or n.startswith("_") or isinstance(v, (I.Func, I.PropertyV, I.StaticV, I.ClassMethodV)):
            continue
        if isinstance(v, I.Instance) and v.cls.lookup("__get__")[0] is not None:
            continue
        if isinstance(v, I.Native) and v.kind == "enum.auto":
            v = n.lower() if mixin == "str" else count + 1
        if not isinstance(v, (str, bool)) and is_num(v) and num(v).const is not None:
            count = int(num(v).const)
        m = next((m for w, m in byval if type(w) is type(v) and it.truth(it.compare("Eq", w, v))), None)
        if m is None:
            if mixin == "str" and isinstance(v, str):
                m = I.EStr(v)
                m.cls = c
            elif mixin == "int" and not isinstance(v, str):
                m = I.EInt(it.concrete_int(v))
                m.cls = c
            elif mixin:
                raise Incomplete("an enumeration with a mixed-in type")
            else:
                m = I.Instance(c)
                m.attrs.update({"value": v, "name": n, "_value_": v, "_name_": n})
                init, _ = c.lookup("__init__")
                if init is not None:
                    it.call(I.BoundMethod(init, m), list(v) if isinstance(v, tuple) else [v])
            byval.append((v, m))
        members[n] = m
        c.ns[n] = m
    c.ns["*mixin"] = mixin
    if not members:
        return
    c.ns["*members"] = members

    def make(c, a, k):
        if len(a) != 1 or k:
            raise Incomplete("functional enumeration")
        for m in members.values():
            if a[0] is m:
                return m
        for w, m in byval:
            if it.truth(it.compare("Eq", w, a[0])):
                return m
        f, _ = c.lookup("_missing_")
        if f is not None:
            r = it.call(f.f if isinstance(f, I.ClassMethodV) else f, [c, a[0]])
            if r is not None:
                return r
        raise LibError("ValueError", "not a valid %s" % c.name)
    c.ns["*make"] = make


def _enum(name, mixin):
    return Lazy(lambda it: _I().Class(name, [], {"*enum": True, "*mixin": mixin}, None, "enum." + name))


LIB["enum.Enum"] = _enum("Enum", None)
LIB["enum.IntEnum"] = _enum("IntEnum", "int")
LIB["enum.StrEnum"] = _enum("StrEnum", "str")
LIB["enum.auto"] = Lazy(lambda it: _I().Builtin("auto", lambda: _I().Native("enum.auto")))
LIB["enum.unique"] = Lazy(lambda it: _I().Builtin("unique", lambda c: c))


MISSING = object()


@reg("dataclasses.field")
def f_field(default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False):
    return _I().Native("dc.field", default=default, factory=default_factory, init=init, compare=compare, kw_only=kw_only)


@regit("dataclasses.dataclass")
def f_dataclass(it, cls=None, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, match_args=True,
                kw_only=False, slots=False, weakref_slot=False):
    I = _I()

    def deco(c):
        fields = {}
        for b in reversed(c.mro[1:]):
            if isinstance(b, I.Class):
                fields.update(b.ns.get("*dc", {}))
        kwo = False
        for n, ann in c.ns.get("*ann", []):
            if "ClassVar" in ann:
                continue
            if ann.strip("'\"").split(".")[-1] == "KW_ONLY":
                kwo = True
                continue
            if "InitVar" in ann:
                raise Incomplete("dataclass with InitVar")
            v = c.ns.get(n, MISSING)
            if isinstance(v, I.Native) and v.kind == "dc.field":
                f = dict(v.attrs)
                if f["default"] is MISSING:
                    c.ns.pop(n, None)
                else:
                    c.ns[n] = f["default"]
            else:
                if isinstance(v, (I.PyList, I.PyDict, I.PySet)):
                    raise LibError("ValueError", "mutable default for field %s is not allowed: use default_factory" % n)
                f = {"default": v, "factory": MISSING, "init": True, "compare": True, "kw_only": False}
            f["kw_only"] = f["kw_only"] or kwo or kw_only
            fields[n] = f
        c.ns["*dc"] = fields
        pos = [n for n, f in fields.items() if f["init"] and not f["kw_only"]]
        seen = None
        for n in pos:
            f = fields[n]
            if f["default"] is MISSING and f["factory"] is MISSING:
                if seen:
                    raise LibError("TypeError", "non-default argument %r follows default argument %r" % (n, seen))
            else:
                seen = n

        def init_(self, *a, **k):
            if len(a) > len(pos):
                raise LibError("TypeError", "__init__() takes %d positional arguments but %d were given" % (len(pos) + 1, len(a) + 1))
            v = dict(zip(pos, a))
            for n, x in k.items():
                if n not in fields or not fields[n]["init"] or n in v:
                    raise LibError("TypeError", "__init__() got an unexpected or repeated argument %r" % n)
                v[n] = x
            for n, f in fields.items():
                if n in v:
                    x = v[n]
                elif f["default"] is not MISSING:
                    x = f["default"]
                elif f["factory"] is not MISSING:
                    x = it.call(f["factory"], [])
                elif not f["init"]:
                    continue
                else:
                    raise LibError("TypeError", "__init__() missing required argument: %r" % n)
                it.setattr(self, n, x, raw=frozen)
            p, _ = self.cls.lookup("__post_init__")
            if p is not None:
                it.call(I.BoundMethod(p, self), [])
        if init and "__init__" not in c.ns:
            c.ns["__init__"] = I.Builtin("__init__", init_)
        if eq and "__eq__" not in c.ns:
            def eq_(self, o):
                if not isinstance(o, I.Instance) or o.cls is not self.cls:
                    return self is o
                vals = lambda s: tuple(it.getattr(s, n) for n, f in fields.items() if f["compare"])
                return it.compare("Eq", vals(self), vals(o))
            c.ns["__eq__"] = I.Builtin("__eq__", eq_)
        if order:
            for m, op in (("__lt__", "Lt"), ("__le__", "LtE"), ("__gt__", "Gt"), ("__ge__", "GtE")):
                c.ns[m] = I.Builtin(m, lambda self, o, op=op: it.compare(op, *[
                    tuple(it.getattr(s, n) for n, f in fields.items() if f["compare"]) for s in (self, o)]))
        if frozen:
            def frozen_(self, n, v):
                raise LibError("AttributeError", "cannot assign to field %r" % n)
            c.ns["__setattr__"] = I.Builtin("__setattr__", frozen_)
        c.ns.setdefault("__match_args__", tuple(pos))
        return c
    return deco(cls) if cls is not None else I.Builtin("dataclass", deco)


def _dc(it, o):
    f, c = (o if isinstance(o, _I().Class) else o.cls).lookup("*dc")
    if c is None:
        raise LibError("TypeError", "not a dataclass")
    return f


@regit("dataclasses.fields")
def f_fields(it, o):
    return tuple(_I().Native("dc.info", name=n) for n in _dc(it, o))


@regit("dataclasses.is_dataclass")
def f_is_dc(it, o):
    I = _I()
    c = o if isinstance(o, I.Class) else getattr(o, "cls", None)
    return isinstance(c, I.Class) and c.lookup("*dc")[1] is not None


@regit("dataclasses.asdict", "dataclasses.astuple")
def f_asdict(it, o):
    raise Incomplete("dataclasses.asdict")


@regit("dataclasses.replace")
def f_replace(it, o, **k):
    return it.call(o.cls, [], {**{n: it.getattr(o, n) for n, f in _dc(it, o).items() if f["init"]}, **k})


@reg("abc.abstractmethod", "abc.abstractproperty")
def f_abstract(f):
    g = getattr(f, "f", None) or getattr(f, "fget", None) or f
    if isinstance(g, _I().Func):
        g.attrs["*abstract"] = True
    return f


@reg("typing.no_type_check", "typing.overload", "typing.final", "typing.runtime_checkable", "typing.override",
     "typing_extensions.override", "typing_extensions.final", "typing_extensions.runtime_checkable")
def f_id(f):
    return f


@reg("types.SimpleNamespace")
def f_ns(**k):
    I = _I()
    o = I.Instance(I.Class("SimpleNamespace", [], {}, None, "types.SimpleNamespace"))
    o.attrs.update(k)
    return o


@regit("types.MethodType")
def f_mt(it, f, o):
    return _I().BoundMethod(f, o)


@regit("types.MappingProxyType")
def f_mp(it, d):
    return d


LIB["abc.ABC"] = Lazy(lambda it: _I().Class("ABC", [], {}, None, "abc.ABC"))
LIB["abc.ABCMeta"] = Lazy(lambda it: _I().Native("metaclass"))
LIB["typing.TYPE_CHECKING"] = False
LIB["typing.cast"] = Lazy(lambda it: _I().Builtin("cast", lambda t, v: v))
LIB["random.random"] = Lazy(lambda it: _I().Builtin("random", lambda: _rand()))
LIB["time.time"] = Lazy(lambda it: _I().Builtin("time", lambda: Num(T.sym("time"), "float")))
LIB["time.perf_counter"] = LIB["time.time"]


def _rand():
    raise Incomplete("Python's own random numbers")


# ------------------------------------------------------------------ tqdm
@regit("tqdm.trange", "tqdm.auto.trange", "tqdm.notebook.trange")
def f_trange(it, *a, **k):
    r = it.call(it.builtins["range"], list(a))
    return _I().Native("pbar", iterable=r)


@reg("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.notebook.tqdm")
def f_tqdm(iterable=None, *a, **k):
    return _I().Native("pbar", iterable=iterable)
