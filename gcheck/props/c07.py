"""C07: group kernels depend on input and output elements only relatively."""
from .. import slots as SL
from .. import terms as T
from .. import tensor as X
from .. import interp as I
from ..terms import tt, ZERO, ONE
from .c06 import kernel_args, SHAPES, KER, histories, other

EXPLANATION = """GKernel, GSeparableKernel and GSubgroupKernel are constructed and sampled abstractly with opaque group
operations in their slots (pure and otherwise unknown, so the verdict holds for every group), an unknown learned weight,
unknown grids and mask, and symbolic channel, element and spatial sizes (input and output grids of different size).  The
entry of the result at a generic (channel, output element, input channel, input element, position) is compared with the
specification as a term.  Which learned weight serves which channel pair is only required to be one bijection that is
the same for all elements."""
RULE = ("result[o, g, i, h, s] has the value number of mask[s] * sampleRn(sampleH(W[pair(o, i)], g^-1 h), g^-1 grid[s]) "
        "/ |det g|, with pair a bijection of channel pairs")


def layouts(co, ci):
    """Candidate bijections (o, i) -> (o', i')."""
    yield "direct", lambda o, i: (o, i)
    yield "input-major", lambda o, i: (T.floordiv(i * co + o, ci), T.mod(i * co + o, ci))


def find_layout(K, got, want, co, ci, what):
    """got(o, i): term of the result for one channel pair at fixed generic other indices;
    want(o', i'): specification when (o', i') is the learned pair."""
    o, i = K.fresh(co), K.fresh(ci)
    for name, f in layouts(co, ci):
        w = want(*f(o, i))
        if X.norm(got(o, i)) is X.norm(tt(w)):
            K.good()
            return f
    for name, f in layouts(co, ci):
        if T.same(X.norm(got(o, i)), X.norm(tt(want(*f(o, i)))), assume=K.path_terms(), seed=K.ck.seed).ok:
            K.good("identity test")
            return f
    if K.mode is None:
        raise X.Incomplete("%s: unknown assignment of learned weights to channel pairs" % what)
    nco, nci = int(co.const), int(ci.const)
    free = [(a, b) for a in range(nco) for b in range(nci)]
    table = {}
    for a in range(nco):
        for b in range(nci):
            g = X.norm(got(tt(a), tt(b)))
            for c in free:
                if T.same(g, X.norm(tt(want(tt(c[0]), tt(c[1])))), assume=K.path_terms(), seed=K.ck.seed).ok:
                    table[(a, b)] = c
                    free.remove(c)
                    break
            else:
                K.violate("value", "%s of output channel %d and input channel %d is the sampled learned kernel of one "
                          "channel pair" % (what, a, b), "got %s; with the pair itself it would be %s" % (
                              T.brief(g, 400), T.brief(X.norm(tt(want(tt(a), tt(b)))), 400)))
    K.good("identity test", len(table))

    def f(o, i):
        o, i = X.norm(tt(o)), X.norm(tt(i))
        if o.const is not None and i.const is not None:
            a, b = table[(int(o.const), int(i.const))]
            return tt(a), tt(b)
        ra = rb = ZERO
        for (x, y), (a, b) in table.items():
            g = T.eq(o, tt(x)) * T.eq(i, tt(y))
            ra, rb = ra + g * a, rb + g * b
        return ra, rb
    return f


FIXED = [{"default": [2, 3, 2, 2, 2, 3, 2, 3, 2]}, {"default": [1, 2, 3, 3, 2, 2, 3, 2, 2]}]


def check(ck):
    for d in (2, 3):
        for es in SHAPES:
            for mask in (True, False):
                for det in (True, False):
                    for opts in ((True, False) if es == (2,) and mask == det else (True,)):
                        full(ck, d, es, mask, det, opts)
                        separable(ck, d, es, mask, det, opts)
        for es in SHAPES:
            subgroup(ck, d, es)
    again(ck)


def setup(K, d, es, mask, det, opts):
    sl = SL.Slots(es, d)
    gr, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn = kernel_args(K, d, sl, mask, det, opts)
    h = {"mode": "hm", "width": 3} if opts else {}
    kw["left_apply_to_H"] = sl.b("left_apply_to_H")
    kw["sample_H"] = sl.b("sample_H")
    if opts:
        kw["sample_H_kwargs"] = I.PyDict(h)
    return sl, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn, h


def grids(K, es, tag=""):
    a, b = K.size("P" + tag), K.size("Q" + tag)
    return a, b, K.leaf("inH" + tag, (a,) + es), K.leaf("outH" + tag, (b,) + es)


def full_case(K, k, es, d, inH, outH, a, b, co, cig, ks, N, gridH, gridRn, m, det, lw, h, rn, what):
    r = K.call(k, inH, outH)
    K.shape(r, (co, b, cig, a) + ks, what)
    gl = T.lam((N,) + tuple(tt(e) for e in es), lambda *q: gridH.at(*q))
    g, e = K.fresh(b), K.fresh(a)
    s = [K.fresh(x) for x in ks]
    xi = SL.inv_(SL.comps(outH, (g,), es))
    q = SL.prod_(xi, SL.comps(inH, (e,), es))
    y = SL.act_(xi, [gridRn.at(*s, tt(j)) for j in range(d)])

    def want(o, i):
        img = T.lam(ks, lambda *p: SL.sampleH_(q, T.lam((N,), lambda n: T.elem(lw, n, o, i, *p)), gl, h))
        w = SL.sampleRn_(img, y, rn)
        if m is not None:
            w = w * m.at(*s)
        if det:
            w = w * T.inv(T.fun("abs", SL.det_(SL.comps(outH, (g,), es))))
        return w
    find_layout(K, lambda o, i: r.at(o, g, i, e, *s), want, co, cig, what)


def one_param(K, k, rank, what):
    ps = [(n, p) for n, p in SL.params(k) if p.ndim == rank]
    if len(ps) != 1:
        raise X.Incomplete("%s: parameters %s" % (what, [n for n, _ in SL.params(k)]))
    return ps[0][1]


def full(ck, d, es, mask, det, opts):
    def body(K):
        sl, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn, h = setup(K, d, es, mask, det, opts)
        k = K.call(KER + "GKernel", K.int(ci), K.int(co), tuple(K.int(s) for s in ks), (K.int(N),), gridH, gridRn, **kw)
        W = one_param(K, k, 3 + d, "learned weight")
        K.shape(W, (N, co, cig) + ks, "learned weight")
        lw = SL.content(W, "W")
        a, b, inH, outH = grids(K, es)
        full_case(K, k, es, d, inH, outH, a, b, co, cig, ks, N, gridH, gridRn, m, det, lw, h, rn, "sampled group kernel")
    ck.case("GKernel %dD, elements %s%s%s%s" % (
        d, es, ", mask" if mask else "", ", det" if det else "", ", options" if opts else ""), body, KER + "GKernel",
        modes=FIXED)


def separable(ck, d, es, mask, det, opts):
    def body(K):
        sl, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn, h = setup(K, d, es, mask, det, opts)
        k = K.call(KER + "GSeparableKernel", K.int(ci), K.int(co), tuple(K.int(s) for s in ks), (K.int(N),), gridH,
                   gridRn, **kw)
        sep_case(K, k, es, d, co, cig, ks, N, gridH, gridRn, m, det, h, rn, *grids(K, es))
    ck.case("GSeparableKernel %dD, elements %s%s%s%s" % (
        d, es, ", mask" if mask else "", ", det" if det else "", ", options" if opts else ""), body,
        KER + "GSeparableKernel", modes=FIXED)


def sep_case(K, k, es, d, co, cig, ks, N, gridH, gridRn, m, det, h, rn, a, b, inH, outH, what="sampled separable kernel"):
    WH, WS = one_param(K, k, 3, "subgroup weight"), one_param(K, k, 2 + d, "spatial weight")
    K.shape(WH, (N, co, cig), "learned subgroup weight")
    K.shape(WS, (co, tt(1)) + ks, "learned spatial weight")
    lh, ls = SL.content(WH, "WH"), SL.content(WS, "WS")
    r = K.call(k, inH, outH)
    K.require(isinstance(r, tuple) and len(r) == 2, "type", "%s is a pair" % what, "it is %s" % (r,))
    rh, rs = r
    K.shape(rh, (co, b, cig, a) + (tt(1),) * d, what + ", subgroup part")
    K.shape(rs, (co, b, tt(1)) + ks, what + ", spatial part")
    gl = T.lam((N,) + tuple(tt(e) for e in es), lambda *q: gridH.at(*q))
    g, e = K.fresh(b), K.fresh(a)
    s = [K.fresh(x) for x in ks]
    xi = SL.inv_(SL.comps(outH, (g,), es))
    q = SL.prod_(xi, SL.comps(inH, (e,), es))
    y = SL.act_(xi, [gridRn.at(*s, tt(j)) for j in range(d)])
    find_layout(K, lambda o, i: rh.at(o, g, i, e, *([ZERO] * d)),
                lambda o, i: SL.sampleH_(q, T.lam((N,), lambda n: T.elem(lh, n, o, i)), gl, h), co, cig,
                what + ", subgroup part")
    o = K.fresh(co)
    w = SL.sampleRn_(T.lam(ks, lambda *p: T.elem(ls, o, ZERO, *p)), y, rn)
    if m is not None:
        w = w * m.at(*s)
    if det:
        w = w * T.inv(T.fun("abs", SL.det_(SL.comps(outH, (g,), es))))
    K.eq(rs.at(o, g, ZERO, *s), w, what + ", spatial part")


def subgroup(ck, d, es):
    def body(K):
        sl, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn, h = setup(K, d, es, False, False, True)
        k = K.call(KER + "GSubgroupKernel", K.int(ci), K.int(co), (1,) * d, (K.int(N),), gridH, groups=kw["groups"],
                   inverse_H=kw["inverse_H"], left_apply_to_H=kw["left_apply_to_H"], sample_H=kw["sample_H"],
                   sample_H_kwargs=kw["sample_H_kwargs"])
        W = one_param(K, k, 3, "learned weight")
        K.shape(W, (N, co, cig), "learned weight")
        lw = SL.content(W, "W")
        a, b, inH, outH = grids(K, es)
        r = K.call(k, inH, outH)
        what = "sampled subgroup kernel"
        K.shape(r, (co, b, cig, a) + (tt(1),) * d, what)
        gl = T.lam((N,) + tuple(tt(e) for e in es), lambda *q: gridH.at(*q))
        g, e = K.fresh(b), K.fresh(a)
        q = SL.prod_(SL.inv_(SL.comps(outH, (g,), es)), SL.comps(inH, (e,), es))
        find_layout(K, lambda o, i: r.at(o, g, i, e, *([ZERO] * d)),
                    lambda o, i: SL.sampleH_(q, T.lam((N,), lambda n: T.elem(lw, n, o, i)), gl, h), co, cig, what)
    ck.case("GSubgroupKernel %dD, elements %s" % (d, es), body, KER + "GSubgroupKernel", modes=FIXED)


def again(ck):
    """The same kernel sampled for other grids, and with the same grid on both sides."""
    def body(K):
        sl, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn, h = setup(K, 2, (2,), True, True, True)
        k = K.call(KER + "GKernel", K.int(ci), K.int(co), tuple(K.int(s) for s in ks), (K.int(N),), gridH, gridRn, **kw)
        lw = SL.content(one_param(K, k, 5, "learned weight"), "W")
        a, b, inH, outH = grids(K, (2,))
        K.call(k, inH, outH)
        a2, b2, inH2, outH2 = grids(K, (2,), "2")
        full_case(K, k, (2,), 2, inH2, outH2, a2, b2, co, cig, ks, N, gridH, gridRn, m, True, lw, h, rn,
                  "second sampling of a group kernel")
        full_case(K, k, (2,), 2, inH2, inH2, a2, a2, co, cig, ks, N, gridH, gridRn, m, True, lw, h, rn,
                  "group kernel with equal grids")
        full_case(K, k, (2,), 2, gridH, outH, N, b, co, cig, ks, N, gridH, gridRn, m, True, lw, h, rn,
                  "group kernel on its own grid")
    ck.case("GKernel sampled repeatedly", body, KER + "GKernel", modes=FIXED)

    def kernel(K, prepare, kind):
        sl, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn, h = setup(K, 2, (2,), True, True, True)
        k = K.call(KER + "GKernel", K.int(ci), K.int(co), tuple(K.int(s) for s in ks), (K.int(N),), gridH, gridRn, **kw)
        W = one_param(K, k, 5, "learned weight")
        lw = SL.content(W, "W")
        prepare(k)
        a, b, inH, outH = grids(K, (2,))
        K.call(k, inH, outH)
        inH, outH = other(K, inH, kind, "inH2", (2,)), other(K, outH, kind, "outH2", (2,))
        if kind == "weights changed":
            lw = SL.content(W, "V")
        full_case(K, k, (2,), 2, inH, outH, inH.shape[0], outH.shape[0], co, cig, ks, N, gridH, gridRn, m, True, lw, h, rn,
                  "second sampling")
    histories(ck, kernel, "GKernel", KER + "GKernel", modes=FIXED)

    def sep(K, prepare, kind):
        sl, co, ci, cig, ks, N, gridH, gridRn, m, kw, rn, h = setup(K, 2, (2,), True, True, True)
        k = K.call(KER + "GSeparableKernel", K.int(ci), K.int(co), tuple(K.int(s) for s in ks), (K.int(N),), gridH,
                   gridRn, **kw)
        for n, p in SL.params(k):
            SL.content(p, "first " + n)
        prepare(k)
        a, b, inH, outH = grids(K, (2,))
        K.call(k, inH, outH)
        inH, outH = other(K, inH, kind, "inH2", (2,)), other(K, outH, kind, "outH2", (2,))
        sep_case(K, k, (2,), 2, co, cig, ks, N, gridH, gridRn, m, True, h, rn, inH.shape[0], outH.shape[0], inH, outH,
                 "second sampling")
    histories(ck, sep, "GSeparableKernel", KER + "GSeparableKernel", modes=FIXED)
