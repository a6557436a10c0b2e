"""C27: computations keep the precision of their inputs."""
from .. import catalogue as CT
from .. import layers as LY
from .. import ready as R
from .. import slots as SL
from .. import tensor as X
from .. import terms as T
from ..terms import tt
from .c21 import tensors_of
from .c22 import FULL, MODES

EXPLANATION = """Every call of the catalogue (gcheck/catalogue.py) that works on tensors is run abstractly with a number format attached to
every tensor and with type promotion and the operations that refuse mixed formats (matrix products, linear solves, convolution,
sampling, assignment through a mask) following torch.  Tensors get double precision arguments; modules are constructed, converted with
.double() and called with double precision inputs, also when they were constructed from a given double precision grid, and back and
forth.  Every floating point result has to be in double precision; and on the way there no single precision value may enter a double
precision one (by promotion, conversion or assignment), unless it is exact in both (truth values, whole numbers, binary fractions) or
random or a single scalar, and no double precision value may be stored in single precision."""
RULE = "format of every floating point result = format of the inputs; no conversion that rounds values in between"


def exact(x, seen=None):
    """Whatever the arguments, the value has few binary digits (or is random)."""
    if isinstance(x, T.Lam):
        x = x.body
    for m, c in x.poly:
        den = getattr(c, "denominator", 1)
        if den & (den - 1) or abs(c) >= 2 ** 11 or den > 2 ** 11:
            return False
        for a, e in m:
            if a.kind == "ind":
                continue
            if a.kind == "sym" and a.args[0] not in ("pi", "inf", "nan") and e > 0:
                continue
            if a.kind in ("iv", "bv") and e > 0:
                continue
            return False
    return True


def random_value(K, x):
    ls = {d["leaf"] for d in K.it.ctx.draw_log}
    return bool(T.collect(x.body if isinstance(x, T.Lam) else x, lambda a: a.kind == "elem" and a.args[0] in ls))


def clean(K, what, mark):
    for e in K.it.ctx.events[mark:]:
        if e["kind"] not in ("mixed", "narrow", "widen"):
            continue
        if exact(e["lam"]) or random_value(K, e["lam"]):
            continue
        K.violate("precision", "%s computes in the precision of its inputs" % what, e["detail"],
                  where="%s:%d %s" % e["where"] if e["where"][0] != "?" else None)
    K.good()


def results(K, r, dt, what):
    for n, t in tensors_of(r):
        if X.is_float(t.dtype):
            K.require(t.dtype == dt, "dtype", "%s of %s is %s like the inputs" % (n, what, dt), "it is %s" % t.dtype)


def state(K, m, dt):
    for n, t in SL.params(m) + SL.buffers(m):
        if X.is_float(t.dtype):
            K.require(t.dtype == dt, "dtype", "%s is converted with its module" % n, "it is %s" % t.dtype)


def inputs(K, item):
    K.it.ctx.precision = True
    A = CT.Args(K, dtype="float64")
    f, a, kw = item.make(A)
    mark = len(K.it.ctx.events)
    r = K.call(f, *a, **kw)
    clean(K, item.title, mark)
    results(K, r, "float64", item.title)
    if A.module is not None:
        state(K, A.module, "float64")


def converted(K, item):
    """Double and back: single precision inputs give single precision results again, then double once more."""
    K.it.ctx.precision = True
    A = CT.Args(K)
    A.stub_kernel = True
    f, a, kw = item.make(A)
    m = A.module
    names = {n for n, _ in SL.params(m) + SL.buffers(m)}
    for how, dt in (("double", "float64"), ("float", "float32"), ("to", "float64")):
        if how == "to":
            K.method(m, how, K.lib("torch." + dt))
        else:
            K.method(m, how)
        K.require({n for n, _ in SL.params(m) + SL.buffers(m)} == names, "registered", "the registered tensors stay the same",
                  "they change")
        for _, t, _, _ in A.tensors:
            if X.is_float(t.dtype):
                t.dtype = dt
        mark = len(K.it.ctx.events)
        r = K.call(m, *a, **kw)
        clean(K, "%s after .%s" % (item.title, how), mark)
        results(K, r, dt, item.title)
        state(K, m, dt)


def from_grid(K, g, kind):
    """Constructed from a double precision grid."""
    K.it.ctx.precision = True
    A = CT.Args(K, dtype="float64")
    G = R.Group(g)
    H = A.signed(g.lower().replace("e", "o"), "H", 2, 2) if G.two else CT.elements(A, G, "H", 3)
    kw = {"grid_H": H, "permute_output_grid": False}
    if G.two:
        kw["group_kernel_size"] = (2, 2)
    m = CT.build(A, CT.GN + CT.LAYER[kind] + g, 2, 2, 3, **kw)
    x = A.leaf("x", (2, 2) + ((2,) if kind != "lifting" else ()) + (4, 5, 6)[:G.d])
    a = [x] + ([CT.elements(A, G, "inH", 2)] if kind != "lifting" else [])
    mark = len(K.it.ctx.events)
    r = K.call(m, *a)
    clean(K, "layer", mark)
    results(K, r, "float64", "layer")
    state(K, m, "float64")


def check(ck):
    stubs = dict(R.sampler_stubs())
    for item in CT.items():
        if item.factory:
            continue
        st = dict(stubs) if item.cls else dict(FULL) if item.heavy else None
        ck.case("%s, double precision" % item.title, lambda K, item=item: inputs(K, item), item.entry, stubs=st, modes=MODES)
        if item.cls:
            ck.case("%s, converted to and fro" % item.title, lambda K, item=item: converted(K, item), item.entry, stubs=st, modes=MODES)
    for g in CT.GROUPS:
        for kind in CT.LAYER:
            e = CT.GN + CT.LAYER[kind] + g
            ck.case("%s%s from a double precision grid" % (CT.LAYER[kind], g), lambda K, g=g, kind=kind: from_grid(K, g, kind), e,
                    stubs=dict(stubs), modes=MODES)
