"""C19: norm, activation and wrapper layers act per feature and pass the grid on."""
from .. import interp as I
from .. import slots as SL
from .. import terms as T
from .. import tensor as X
from ..torchlib import copy_of

EXPLANATION = """Activation layers are constructed abstractly with every option of the torch module they specialize and applied
to an unknown feature map; the value at a generic index is compared with the same torch function of that entry.  Normalization
layers are compared with (x - mean) / sqrt(variance + eps) * weight + bias, where mean and variance are sums over exactly the
batch (batch normalization only), element and spatial axes of the entry's own channel, in training and evaluation mode, and
with and without affine parameters and running statistics.  The running statistics after the call, and after two batches of
different size followed by an evaluation, are compared with the exponential (or cumulative) average of those means and unbiased
variances.  All axes may have size one (torch itself refuses statistics over a single value).  The wrapper is given an unknown module.  The grid returned has to
be the grid passed in, and the input must not be written to unless an in-place option asks for it."""
RULE = "output entry has the value number of the specialized operation; returned grid is the argument"
GN = "gconv.gnn:"


def feature(K, d, wide=None):
    """An unknown feature map; every axis may have size one, except for the one named (0 batch, 1 element, 2.. spatial)."""
    lo = [2 if wide == k else 1 for k in range(d + 2)]
    B, C, H = K.size("B", lo=lo[0]), K.size("C"), K.size("H", lo=lo[1])
    ns = tuple(K.size("X%d" % j, lo=lo[2 + j], conc=3 + j) for j in range(d))
    return B, C, H, ns, K.leaf("x", (B, C, H) + ns)


def pair(K, r, g):
    K.require(isinstance(r, tuple) and len(r) == 2, "type", "result is (features, grid)", "it is %s" % (r,))
    K.require(r[1] is g, "grid", "the grid is returned unchanged", "it is %s" % (r[1],))
    return r[0]


def act_check(K, cls, kw, fn, fkw, d=2, **opts):
    B, C, H, ns, x = feature(K, d)
    L = K.call(GN + cls, **kw)
    g = K.leaf("grid", (H, 2))
    x0 = copy_of(x) if kw.get("inplace") else x
    y = pair(K, K.call(L, x, g), g)
    want = K.call(K.lib("torch.nn.functional." + fn), x0, **fkw)
    K.tensor(y, x0.shape, lambda *i: want.at(*i), "features", enum=0)


def check(ck):
    for inplace in (False, True):
        kw = {"inplace": True} if inplace else {}
        ck.case("GReLU%s" % (", in place" if inplace else ""),
                lambda K, kw=kw: act_check(K, "GReLU", kw, "relu", {}), GN + "GReLU")
        ck.case("GLeakyReLU%s" % (", in place" if inplace else ""),
                lambda K, kw=kw: act_check(K, "GLeakyReLU", kw, "leaky_relu", {}), GN + "GLeakyReLU")

        def slope(K, kw=kw):
            s = K.positive("slope")
            act_check(K, "GLeakyReLU", dict(kw, negative_slope=s), "leaky_relu", {"negative_slope": s})
        ck.case("GLeakyReLU, slope%s" % (", in place" if inplace else ""), slope, GN + "GLeakyReLU")
    for a in (None, "none", "tanh"):
        kw = {} if a is None else {"approximate": a}
        ck.case("GGELU, approximate %s" % a, lambda K, kw=kw: act_check(K, "GGELU", kw, "gelu", kw, 3), GN + "GGELU")

    for kind in ("BatchNorm", "InstanceNorm"):
        for d in (2, 3):
            cls = "G%s%dd" % (kind, d)
            for affine in (None, True, False):
                for track in (None, True, False):
                    for train in (True, False):
                        aff = affine if affine is not None else kind == "BatchNorm"
                        tr = track if track is not None else kind == "BatchNorm"
                        # statistics over a single value are refused by torch: one axis at a time is known to be longer
                        wides = [None] if not train and tr else [2] if (affine, track) != (None, None) else (
                            [0] if kind == "BatchNorm" else []) + list(range(1, d + 2))
                        for wide in wides:
                            ck.case("%s, affine %s, running statistics %s, %s%s" % (
                                cls, affine, track, "training" if train else "evaluation", "" if wide is None else
                                ", axis %d longer than one" % wide),
                                lambda K, a=(kind, d, cls, affine, track, train, aff, tr, wide): norm(K, *a), GN + cls)
            ck.case("%s, default options" % cls, lambda K, cls=cls, d=d: defaults(K, cls, d), GN + cls)
            for momentum in (True, None):
                ck.case("%s, statistics over two batches, momentum %s" % (cls, "given" if momentum else "none"),
                        lambda K, a=(kind, d, cls, momentum): history(K, *a), GN + cls)
    for d in (2, 3):
        for k in range(1, d + 2):
            for affine in (True, False):
                def layer(K, d=d, k=k, affine=affine):
                    B, C, H, ns, x = feature(K, d)
                    sh = ((C, H) + ns)[d + 2 - k:]
                    eps = K.positive("eps")
                    L = K.call(GN + "GLayerNorm", tuple(K.int(s) for s in sh), eps=eps, elementwise_affine=affine)
                    w, b = (params(K, L, affine, *sh))
                    g = K.leaf("grid", (H, 2))
                    y = pair(K, K.call(L, x, g), g)

                    def want(*i):
                        pre, own = i[:len(i) - k], i[len(i) - k:]
                        inv = T.inv(X.numel(sh))
                        vs, us = [T.fresh(s) for s in sh], [T.fresh(s) for s in sh]
                        m = T.sum_over(vs, x.at(*pre, *vs)) * inv
                        v = T.sum_over(us, (x.at(*pre, *us) - m) * (x.at(*pre, *us) - m)) * inv
                        r = (x.at(*i) - m) * T.inv(T.fun("sqrt", v + X.num_term(eps)))
                        return r * T.elem(w, *own) + T.elem(b, *own) if affine else r
                    K.tensor(y, (B, C, H) + ns, want, "normalized features", enum=0)
                ck.case("GLayerNorm, last %d of %d axes%s" % (k, d + 3, ", affine" if affine else ""), layer, GN + "GLayerNorm")
    wrap(ck)


def moments(kind, x, B, H, ns):
    """(count, mean, sum of squared deviations) at (n, c) over the batch (batch normalization), element and spatial axes."""
    axes = ((B,) if kind == "BatchNorm" else ()) + (H,) + ns

    def at(n, c):
        get = (lambda a, *q: x.at(a, c, *q)) if kind == "BatchNorm" else (lambda *q: x.at(n, c, *q))
        vs = [T.fresh(s) for s in axes]
        m = T.sum_over(vs, get(*vs)) * T.inv(X.numel(axes))
        us = [T.fresh(s) for s in axes]
        return m, T.sum_over(us, (get(*us) - m) * (get(*us) - m))
    return X.numel(axes), at


def averaged(kind, x, B, H, ns, c):
    """Mean and unbiased variance that enter the running statistics of channel c."""
    n, at = moments(kind, x, B, H, ns)
    if kind == "BatchNorm":
        m, ss = at(None, c)
        return m, ss * T.inv(n - 1)
    b, e = T.fresh(B), T.fresh(B)
    return T.sum_over([b], at(b, c)[0]) * T.inv(B), T.sum_over([e], at(e, c)[1] * T.inv(n - 1)) * T.inv(B)


def norm(K, kind, d, cls, affine, track, train, aff, tr, wide):
    B, C, H, ns, x = feature(K, d, wide)
    kw = {"affine": affine, "track_running_stats": track}
    kw = {k: v for k, v in kw.items() if v is not None}
    eps, mom = K.positive("eps"), K.positive("momentum")
    L = K.call(GN + cls, K.int(C), eps=eps, momentum=mom, **kw)
    if not train:
        K.call(K.attr(L, "eval"))
    w, b = params(K, L, aff, C)
    rm, rv = stats(K, L, tr, C)
    g = K.leaf("grid", (H, 2))
    y = pair(K, K.call(L, x, g), g)
    size, at = moments(kind, x, B, H, ns)

    def want(n, c, h, *p):
        if train or not tr:
            m, v = at(n, c)
            v = v * T.inv(size)
        else:
            m, v = T.elem(rm, c), T.elem(rv, c) * T.elem(rv, c)
        r = (x.at(n, c, h, *p) - m) * T.inv(T.fun("sqrt", v + X.num_term(eps)))
        return r * T.elem(w, c) + T.elem(b, c) if aff else r
    K.tensor(y, (B, C, H) + ns, want, "normalized features", enum=0)
    if tr:
        mo = X.num_term(mom)
        for name, k, old in (("running_mean", 0, lambda c: T.elem(rm, c)),
                             ("running_var", 1, lambda c: T.elem(rv, c) * T.elem(rv, c))):
            def after(c, k=k, old=old):
                return old(c) * (1 - mo) + averaged(kind, x, B, H, ns, c)[k] * mo if train else old(c)
            K.tensor(K.attr(L, name), (C,), after, name, enum=0)


def history(K, kind, d, cls, momentum):
    """Two training batches of different sizes, then evaluation: features are normalized by the statistics of both."""
    kw = {"momentum": K.positive("momentum") if momentum else None}
    B, C, H, ns, x = feature(K, d, 2)
    L = K.call(GN + cls, K.int(C), track_running_stats=True, **kw)
    w, b = params(K, L, kind == "BatchNorm", C)
    g = K.leaf("grid", (H, 2))
    pair(K, K.call(L, x, g), g)
    B2 = K.size("B2")
    z = K.leaf("x2", (B2, C, H) + ns)
    pair(K, K.call(L, z, g), g)
    K.call(K.attr(L, "eval"))
    q = K.leaf("x3", (B, C, H) + ns)
    y = pair(K, K.call(L, q, g), g)
    if momentum:
        f1 = f2 = X.num_term(kw["momentum"])
    elif kind == "BatchNorm":
        f1, f2 = T.tt(1), T.tt(1) * T.inv(T.tt(2))
    else:
        f1 = f2 = T.ZERO

    def want(n, c, h, *p):
        m1, v1 = averaged(kind, x, B, H, ns, c)
        m2, v2 = averaged(kind, z, B2, H, ns, c)
        m = m1 * f1 * (1 - f2) + m2 * f2
        v = (T.ONE * (1 - f1) + v1 * f1) * (1 - f2) + v2 * f2
        r = (q.at(n, c, h, *p) - m) * T.inv(T.fun("sqrt", v + X.num_term(K.attr(L, "eps"))))
        return r * T.elem(w, c) + T.elem(b, c) if kind == "BatchNorm" else r
    K.tensor(y, (B, C, H) + ns, want, "features normalized by running statistics", enum=0)


def params(K, L, aff, *sh):
    ps = SL.params(L)
    if not aff:
        K.require(not ps, "parameters", "no parameters without affine", "there is %s" % [n for n, _ in ps])
        return None, None
    by = {}
    for n, p in ps:
        by[n.split(".")[-1]] = p
    K.require(sorted(by) == ["bias", "weight"] and len(ps) == 2, "parameters", "weight and bias are parameters",
              "parameters are %s" % [n for n, _ in ps])
    for n, p in by.items():
        K.shape(p, sh, n)
    return SL.content(by["weight"], "weight"), SL.content(by["bias"], "bias")


def stats(K, L, tr, C):
    bs = {n.split(".")[-1]: b for n, b in SL.buffers(L)}
    if not tr:
        K.require("running_mean" not in bs, "buffers", "no running statistics", "there are")
        return None, None
    K.require("running_mean" in bs and "running_var" in bs, "buffers", "running statistics are kept", "buffers are %s" % sorted(bs))
    rm = SL.content(bs["running_mean"], "running_mean")
    rv = T.Leaf("running_sd")
    t = bs["running_var"]
    sq = X.mk(t.shape, lambda c: T.elem(rv, c) * T.elem(rv, c), t.dtype)
    X.write(t, sq)
    return rm, rv


def defaults(K, cls, d):
    B, C, H, ns, x = feature(K, d, 2)
    L = K.call(GN + cls, K.int(C))
    g = K.leaf("grid", (H, 2))
    y = pair(K, K.call(L, x, g), g)
    K.shape(y, (B, C, H) + ns, "normalized features")


def wrap(ck):
    def body(K, d=2):
        B, C, H, ns, x = feature(K, d)
        asked = []

        def run(*a, **k):
            asked.append((a, k))
            return X.mk(x.shape, lambda *i: T.opq("module", *i), x.dtype)
        mod = K.call(nn(K, "Module"))
        mod.attrs["forward"] = I.Builtin("an unknown module", run)
        L = K.call(GN + "GWrap", mod)
        g = K.leaf("grid", (H, 2))
        y = pair(K, K.call(L, x, g), g)
        K.require(len(asked) == 1 and len(asked[0][0]) == 1 and asked[0][0][0] is x and not asked[0][1], "call",
                  "the module is called once, on the features", "it was called with %s" % (asked,))
        K.tensor(y, x.shape, lambda *i: T.opq("module", *i), "features", enum=0)
    ck.case("GWrap of an unknown module", body, GN + "GWrap")

    def registered(K):
        mod = K.call(nn(K, "PReLU"))
        L = K.call(GN + "GWrap", mod)
        ps = SL.params(L)
        K.require(len(ps) == 1, "registered", "the wrapped module's parameters are the wrapper's", "there are %d" % len(ps))
    ck.case("GWrap registers the wrapped module", registered, GN + "GWrap")


def nn(K, name):
    from ..nnprelude import lookup
    return lookup(K.it, "torch.nn." + name)
