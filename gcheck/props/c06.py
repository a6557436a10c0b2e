"""C06: a lifting kernel is the base kernel moved by each group element."""
from .. import slots as SL
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """GLiftingKernel is constructed and sampled abstractly with opaque group operations in its slots (inverse,
action, determinant, spatial sampling: pure and otherwise unknown, so the verdict holds for every group), an unknown
learned weight, unknown grids and mask, and symbolic channel, element and spatial sizes.  The entry of the result at a
generic (channel, element, input channel, position) is compared with the specification as a term: opaque applications
are equal only if they get the same operands, so mixing up elements, channels, options, inverse or mask changes it."""
RULE = "result[o, h, i, s] has the value number of mask[s] * sample(W[o, i], act(inv(H[h]), grid[s])) / |det(H[h])|"
KER = "gconv.gnn.kernels:"


def kernel_args(K, d, sl, mask, det, opts=True, groups=None, lifting=True, square=False):
    """Sizes, grids and keyword arguments shared by the base kernel checks."""
    gr = K.size("G") if groups is None else tt(groups)
    co_g, ci_g = K.size("Og"), K.size("Ig")
    co, ci = co_g * gr, ci_g * gr
    ks = tuple(K.size("K%d" % j) for j in range(d)) if not square else (K.size("K0"),) * d
    N = K.size("N")
    gridH = K.leaf("gridH", (N,) + sl.es)
    gridRn = K.leaf("gridRn", ks + (d,))
    m = K.leaf("mask", ks) if mask else None
    kw = dict(groups=K.int(gr), mask=m)
    kw["inverse_H"] = sl.b("inverse_H")
    kw["left_apply_to_Rn"] = sl.b("left_apply_to_Rn")
    kw["sample_Rn"] = sl.b("sample_Rn")
    kw["det_H"] = sl.b("det_H") if det else None
    rn = {"mode": "m1", "padding_mode": "p1"} if opts else {}
    if opts:
        from .. import interp as I
        kw["sample_Rn_kwargs"] = I.PyDict(rn)
    return gr, co, ci, ci_g, ks, N, gridH, gridRn, m, kw, rn


def spatial_shape(K, p, ks):
    return p.ndim >= len(ks) and all(X.same_size(a, b) for a, b in zip(p.shape[p.ndim - len(ks):], ks))


SHAPES = [(1,), (2,), (2, 2)]


def check(ck):
    for d in (2, 3):
        for es in SHAPES:
            for mask in (True, False):
                for det in (True, False):
                    for opts in ((True, False) if es == (2,) else (True,)):
                        one(ck, d, es, mask, det, opts)
    independence(ck)


def one(ck, d, es, mask, det, opts):
    def body(K):
        sl = SL.Slots(es, d)
        gr, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn = kernel_args(K, d, sl, mask, det, opts)
        k = K.call(KER + "GLiftingKernel", K.int(ci), K.int(co), tuple(K.int(s) for s in ks), (K.int(N),),
                   gridH, gridRn, **kw)
        ps = SL.params(k)
        if len(ps) != 1:
            raise X.Incomplete("parameters %s" % [n for n, _ in ps])
        W = ps[0][1]
        K.shape(W, (co, cig) + ks, "learned weight")
        lw = SL.content(W, "W")
        M = K.size("M")
        H = K.leaf("H", (M,) + es)
        r = K.call(k, H)

        def want(o, h, i, *s):
            x = SL.comps(H, (h,), es)
            y = SL.act_(SL.inv_(x), [gridRn.at(*s, tt(j)) for j in range(d)])
            w = SL.sampleRn_(T.lam(ks, lambda *q: T.elem(lw, o, i, *q)), y, rn)
            if mask:
                w = w * m.at(*s)
            if det:
                w = w * T.inv(T.fun("abs", SL.det_(x)))
            return w
        K.tensor(r, (co, M, cig) + ks, want, "sampled lifting kernel", enum=0)
    ck.case("GLiftingKernel %dD, elements %s%s%s%s" % (
        d, es, ", mask" if mask else "", ", det" if det else "", ", options" if opts else ""), body,
        KER + "GLiftingKernel")


def histories(ck, one, label, entry, **kw):
    """one(K, prepare, between): prepare(k) sets the kernel up; between(k, first, leafs) happens between the calls.

    Training and evaluation, gradients on and off; a second call for other elements (of another or the same number),
    for the same tensor after it was changed in place, and after the weights changed."""
    for state in ("training", "evaluation", "evaluation, no gradients"):
        for kind in ("other number of elements", "other elements", "elements changed in place", "weights changed"):
            def body(K, state=state, kind=kind):
                def prepare(k):
                    if state != "training":
                        K.method(k, "eval")
                    if state.endswith("no gradients"):
                        K.call(K.lib("torch.set_grad_enabled"), False)
                one(K, prepare, kind)
            ck.case("%s, %s, second call: %s" % (label, state, kind), body, entry, **kw)


def other(K, first, kind, name, es):
    """The tensor of elements of the second call."""
    if kind == "other number of elements":
        return K.leaf(name, (K.size("n" + name),) + es)
    if kind == "other elements":
        return K.leaf(name, (first.shape[0],) + es)
    if kind == "elements changed in place":
        SL.content(first, name)
    return first


def independence(ck):
    """A second, different request to the same kernel is answered from its own arguments."""
    def one(K, prepare, kind):
        sl = SL.Slots((2,), 2)
        gr, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn = kernel_args(K, 2, sl, True, True)
        k = K.call(KER + "GLiftingKernel", K.int(ci), K.int(co), tuple(K.int(s) for s in ks), (K.int(N),),
                   gridH, gridRn, **kw)
        W = SL.params(k)[0][1]
        lw = SL.content(W, "W")
        prepare(k)
        H1 = K.leaf("H1", (K.size("M1"), 2))
        K.call(k, H1)
        H2 = other(K, H1, kind, "H2", (2,))
        if kind == "weights changed":
            lw = SL.content(W, "V")
        r = K.call(k, H2)

        def want(o, h, i, *s):
            x = SL.comps(H2, (h,), (2,))
            y = SL.act_(SL.inv_(x), [gridRn.at(*s, tt(j)) for j in range(2)])
            w = SL.sampleRn_(T.lam(ks, lambda *q: T.elem(lw, o, i, *q)), y, rn)
            return w * m.at(*s) * T.inv(T.fun("abs", SL.det_(x)))
        K.tensor(r, (co, H2.shape[0], cig) + ks, want, "second sampling", enum=0)
    histories(ck, one, "GLiftingKernel", KER + "GLiftingKernel")
