"""C18: pooling keeps channels and elements apart and reduces the right axes."""
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO

EXPLANATION = """Every pooling layer is constructed abstractly with unknown window options (one number for all axes, and one per
axis) and applied to an unknown feature map of symbolic sizes.  The value at a generic (batch, channel, element, position) is
compared, as a term, with the same pooling of torch applied to that single map alone, respectively with the maximum or mean
over exactly the element axis, or over the element and spatial axes."""
RULE = "output[n, c, h, p] has the value number of pool(x[n, c, h])[p]; grid returned is the grid passed in"
GN = "gconv.gnn:"
F = "torch.nn.functional."


def feature(K, d, lo=1):
    B, C, H = K.size("B"), K.size("C"), K.size("H")
    ns = tuple(K.size("X%d" % j, lo=lo, conc=(3 if lo == 1 else 7) + j) for j in range(d))
    return B, C, H, ns, K.leaf("x", (B, C, H) + ns)


def windows(K, d, kind, rank):
    """Window options by name; rank: one per axis or one for all."""
    def opt(name, lo, conc):
        if rank == "axis":
            return tuple(K.int(K.size("%s%d" % (name, j), lo=lo, conc=conc[j % 2])) for j in range(d))
        return K.int(K.size(name, lo=lo, conc=conc[0]))
    return opt


def check(ck):
    for d in (2, 3):
        for kind in ("Max", "Avg"):
            cls = "G%sSpatialPool%dd" % (kind, d)
            for rank in ("axis", "scalar"):
                for opts in ((), ("stride",), ("stride", "padding"), ("dilation",), ("ceil_mode",), ("count_include_pad",),
                             ("divisor_override",), ("stride", "padding", "dilation", "ceil_mode", "count_include_pad",
                                                     "divisor_override")):
                    own = {"Max": ("stride", "padding", "dilation", "ceil_mode"),
                           "Avg": ("stride", "padding", "ceil_mode", "count_include_pad", "divisor_override")}[kind]
                    use = tuple(o for o in opts if o in own)
                    if opts and (not use or len(use) == 1 and use[0] not in opts[:1]):
                        continue
                    for pos in (False, True) if len(opts) > 4 else (False,):
                        def body(K, d=d, kind=kind, cls=cls, rank=rank, use=use, own=own, pos=pos):
                            o = windows(K, d, kind, rank)
                            kw = {"kernel_size": o("W", 2, (2, 3))}
                            for u in use:
                                kw[u] = (o("S", 1, (2, 1)) if u == "stride" else 1 if u == "padding" else o(
                                    "D", 1, (2, 1)) if u == "dilation" else u == "ceil_mode" if u != "divisor_override" else 5)
                            run(K, cls, kw, d, F + "%s_pool%dd" % (kind.lower(), d), [own if pos else ()][0])
                        ck.case("%s, %s%s%s" % (cls, "options by axis" if rank == "axis" else "scalar options",
                                                "".join(", " + u for u in use), ", by position" if pos else ""), body, GN + cls)
            cls = "GAdaptive%sSpatialPool%dd" % (kind, d)
            for size in ("int", "axis", "none", 1):
                def adaptive(K, d=d, kind=kind, cls=cls, size=size):
                    v = (K.int(K.size("O")) if size == "int" else 1 if size == 1 else tuple(
                        None if size == "none" and j == 0 else K.int(K.size("O%d" % j)) for j in range(d)))
                    run(K, cls, {"output_size": v}, d, F + "adaptive_%s_pool%dd" % (kind.lower(), d), ())
                ck.case("%s, output size %s" % (cls, size), adaptive, GN + cls)
    for kind in ("Max", "Avg"):
        for d in (0, 1, 2, 3):
            for withgrid in (False, True):
                def group(K, d=d, kind=kind, withgrid=withgrid):
                    B, C, H, ns, x = feature(K, d)
                    L = K.call(GN + "G%sGroupPool" % kind)
                    r = K.call(L, x, *([K.leaf("grid", (H, 2))] if withgrid else []))
                    K.tensor(r, (B, C) + ns, lambda n, c, *p: reduce(kind, (H,), lambda h: x.at(n, c, h, *p)), "pooled")
                    K.require(r.dtype == x.dtype, "dtype", "pooled features keep their type", "they are %s" % r.dtype)
                ck.case("G%sGroupPool, %d spatial axes%s" % (kind, d, ", grid given" if withgrid else ""), group,
                        GN + "G%sGroupPool" % kind)

                def glob(K, d=d, kind=kind, withgrid=withgrid):
                    B, C, H, ns, x = feature(K, d)
                    L = K.call(GN + "G%sGlobalPool" % kind)
                    r = K.call(L, x, *([K.leaf("grid", (H, 2))] if withgrid else []))
                    K.require(isinstance(r, X.Tensor), "type", "result is a tensor", "it is %s" % (r,))
                    K.require(r.ndim >= 2 and all(X.is_one(s) for s in r.shape[2:]), "shape",
                              "one value per batch and channel", "result has shape %s" % X.show_shape(r.shape))
                    K.tensor(r, (B, C) + (tt(1),) * (r.ndim - 2),
                             lambda n, c, *p: reduce(kind, (H,) + ns, lambda *q: x.at(n, c, *q)), "pooled")
                ck.case("G%sGlobalPool, %d spatial axes%s" % (kind, d, ", grid given" if withgrid else ""), glob,
                        GN + "G%sGlobalPool" % kind)


def reduce(kind, dims, f):
    vs = [T.fresh(s) for s in dims]
    if kind == "Avg":
        return T.sum_over(vs, f(*vs)) * T.inv(X.numel(dims))
    n = X.numel(dims)
    k = T.fresh(n)
    idx, rest = [], k
    for s in dims[::-1]:
        idx.append(X.norm(T.mod(rest, s)))
        rest = X.norm(T.floordiv(rest, s))
    return T.order_stat("os", T.close([k], f(*idx[::-1])), 0, True)


def run(K, cls, kw, d, fn, order):
    """The layer on an unknown map against torch's function on one map."""
    B, C, H, ns, x = feature(K, d, 1 if "output_size" in kw else 6)
    if order:
        args, rest = [kw["kernel_size"]], dict(kw)
        del rest["kernel_size"]
        for name in order_of(cls):
            if name not in rest:
                break
            args.append(rest.pop(name))
        L = K.call(GN + cls, *args, **rest)
    else:
        L = K.call(GN + cls, **kw)
    g = K.leaf("grid", (H, 2))
    r = K.call(L, x, g)
    K.require(isinstance(r, tuple) and len(r) == 2, "type", "result is (features, grid)", "it is %s" % (r,))
    y, h = r
    K.require(h is g, "grid", "the grid is returned unchanged", "it is %s" % (h,))
    n, c, e = K.fresh(B), K.fresh(C), K.fresh(H)
    one = X.mk((tt(1), tt(1)) + ns, lambda a, b, *p: x.at(n, c, e, *p), x.dtype)
    want = K.call(K.lib(fn), one, **kw)
    K.shape(y, (B, C, H) + tuple(want.shape[2:]), "pooled features")
    p = [K.fresh(s) for s in want.shape[2:]]
    K.eq(y.at(n, c, e, *p), want.at(ZERO, ZERO, *p), "pooled features at a position")


def order_of(cls):
    return (("stride", "padding", "dilation") if "Max" in cls else
            ("stride", "padding", "ceil_mode", "count_include_pad", "divisor_override"))
