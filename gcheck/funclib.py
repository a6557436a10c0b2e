"""Model of torch.nn.functional, torch.nn.init and torch.nn.modules.utils."""
from . import terms as T
from . import tensor as X
from .terms import ZERO, ONE, tt
from .tensor import Tensor, Num, Incomplete, LibError, num_term, num_kind, mknum, is_num, norm, ctx
from .lib import LIB, METHODS, Lazy, text_key
from .torchlib import func, need, seq, sizes, plain, fl, draw, assign, check_leaf_write, cdim, cdims, _builtin, nt, arith


def _I():
    from . import interp
    return interp


def ff(*names):
    return func(*["torch.nn.functional." + n for n in names])


def ntuple(v, n, what="argument"):
    """int or sequence -> n size terms"""
    s = seq(v)
    if s is None:
        if not is_num(v):
            from .lib import type_name
            raise LibError("TypeError", "%s must be int or tuple, not %s" % (what, type_name(v)))
        s = [v] * n
    if len(s) == 1:
        s = list(s) * n
    if len(s) != n:
        raise LibError("RuntimeError", "%s has %d entries, expected %d" % (what, len(s), n))
    for x in s:
        if num_kind(x) == "float":
            raise LibError("TypeError", "%s must be ints" % what)
    return [norm(num_term(x)) for x in s]


def text_option(it, s, options, what):
    """The option a text equals, deciding among the known ones; None for any other text."""
    for o in options:
        if it.truth(it.compare("Eq", s, o)):
            return o
    return None


# ------------------------------------------------------------------ convolution
def conv_out(n, k, s, p, d):
    return T.floordiv(n + p - d * (k - 1) - 1, s) + 1


def conv_n(nd, input, weight, bias, stride, padding, dilation, groups):
    it = ctx().interp
    what = "conv%dd" % nd
    x, w = need(input, what + "(): argument 'input'"), need(weight, what + "(): argument 'weight'")
    if w.ndim != nd + 2:
        raise LibError("RuntimeError", "Expected %d-dimensional weight for %s, got %s" % (nd + 2, what, X.show_shape(w.shape)))
    unb = x.ndim == nd + 1
    if unb:
        x = X.unsqueeze(x, 0)
    if x.ndim != nd + 2:
        raise LibError("RuntimeError", "Expected %dD or %dD input to %s, but got input of size: %s" % (
            nd + 1, nd + 2, what, X.show_shape(x.shape)))
    if X.is_float(x.dtype) and x.dtype != w.dtype:
        raise LibError("RuntimeError", "Input type (%s) and weight type (%s) should be the same" % (x.dtype, w.dtype))
    st, dl = ntuple(stride, nd, "stride"), ntuple(dilation, nd, "dilation")
    ks = [norm(s) for s in w.shape[2:]]
    ns = [norm(s) for s in x.shape[2:]]
    I = _I()
    if isinstance(padding, (str, I.SymStr)):
        o = text_option(it, padding, ("same", "valid"), "padding")
        if o is None:
            raise LibError("RuntimeError", "Invalid padding string: %s" % padding)
        if o == "valid":
            lo = [ZERO] * nd
            tot = [ZERO] * nd
        else:
            for s in st:
                if s.const != 1:
                    if s.const is not None or not ctx().decider(T.eq(s, ONE)):
                        raise LibError("RuntimeError", "padding='same' is not supported for strided convolutions")
            st = [norm(s) for s in st]
            tot = [d * (k - 1) for d, k in zip(dl, ks)]
            lo = [T.floordiv(t, tt(2)) for t in tot]
    else:
        lo = ntuple(padding, nd, "padding")
        for p in lo:
            if p.const is not None and p.const < 0:
                raise LibError("RuntimeError", "negative padding is not supported")
        tot = [p * 2 for p in lo]
    for s in st + dl:
        if s.const is not None and s.const <= 0:
            raise LibError("RuntimeError", "non-positive stride or dilation is not supported")
    g = norm(num_term(groups))
    cout, cg = norm(w.shape[0]), norm(w.shape[1])
    if not X.same_size(x.shape[1], cg * g):
        raise LibError("RuntimeError", "Given groups=%s, weight of size %s, expected input%s to have %s channels, but got %s "
                       "channels instead" % (T.brief(g), X.show_shape(w.shape), X.show_shape(x.shape), T.brief(cg * g),
                                             T.brief(norm(x.shape[1]))))
    per = T.div_exact(cout, g)
    if per is None or not per.is_int:
        raise LibError("RuntimeError", "Given groups=%s, expected weight to be divisible by it at dimension 0, but got weight "
                       "of size %s" % (T.brief(g), X.show_shape(w.shape)))
    outs = [norm(conv_out(n, k, s, t, d)) for n, k, s, t, d in zip(ns, ks, st, tot, dl)]
    for o, n in zip(outs, ns):
        if o.const is not None and o.const <= 0:
            raise LibError("RuntimeError", "Calculated padded input size per channel is smaller than the kernel size")
    ops = [x, w]
    if bias is not None:
        if not isinstance(bias, Tensor):
            raise LibError("TypeError", "bias must be a tensor")
        if bias.ndim != 1 or not X.same_size(bias.shape[0], cout):
            raise LibError("RuntimeError", "Given weight of size %s, expected bias to be 1-dimensional with %s elements, but "
                           "got bias of size %s instead" % (X.show_shape(w.shape), T.brief(cout), X.show_shape(bias.shape)))
        ops.append(bias)
    dev = X.join_device(ops, what)
    rx, rw = x.reader(), w.reader()
    rb = bias.reader() if bias is not None else None
    gr = frozenset()
    for o in ops:
        gr |= o.grad_deps

    def fn(*idx):
        if unb:
            idx = (ZERO,) + idx
        b, o = idx[0], idx[1]
        pos = idx[2:]
        gi = T.floordiv(o, per) if g.const != 1 else ZERO
        i = T.fresh(cg, "ci")
        taps = [T.fresh(k, "tap") for k in ks]
        c = ONE
        src = []
        for q in range(nd):
            s = pos[q] * st[q] + taps[q] * dl[q] - lo[q]
            if not T.nonneg(s):
                c = T.land(c, T.le(ZERO, s))
            if not T.nonneg(ns[q] - 1 - s):
                c = T.land(c, T.lt(s, ns[q]))
            src.append(s)
        xv = rx((b, gi * cg + i) + tuple(src))
        body = rw((o, i) + tuple(taps)) * xv
        if c is not ONE:
            body = c * body
        r = T.sum_over([i] + taps, body)
        if rb is not None:
            r = r + rb((o,))
        return r
    r = X.mk((x.shape[0], cout) + tuple(outs), fn, x.dtype, dev, gr)
    ctx().event("conv", what, input=x, weight=w, stride=st, padding=(lo, tot), dilation=dl, groups=g)
    return X.squeeze(r, 0) if unb else r


def _conv(nd):
    def f(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
        return conv_n(nd, input, weight, bias, stride, padding, dilation, groups)
    LIB["torch.nn.functional.conv%dd" % nd] = _builtin("torch.nn.functional.conv%dd" % nd, f)
    LIB["torch.conv%dd" % nd] = LIB["torch.nn.functional.conv%dd" % nd]


for _k in (1, 2, 3):
    _conv(_k)


@ff("linear")
def f_linear(input, weight, bias=None):
    r = X.matmul(need(input), X.transpose(weight, 0, 1) if weight.ndim == 2 else weight)
    if bias is not None:
        r = arith("add", r, bias)
    return r


# ------------------------------------------------------------------ padding
@ff("pad")
def f_pad(input, pad, mode="constant", value=None):
    it = ctx().interp
    t = need(input)
    I = _I()
    s = seq(pad)
    if s is None:
        raise LibError("TypeError", "pad(): argument 'pad' must be tuple of ints")
    if len(s) % 2:
        raise LibError("RuntimeError", "Padding length must be divisible by 2")
    k = len(s) // 2
    if k > t.ndim:
        raise LibError("RuntimeError", "Padding length should be less than or equal to two times the input dimension")
    amounts = {}
    for q in range(k):
        amounts[t.ndim - 1 - q] = (norm(num_term(s[2 * q])), norm(num_term(s[2 * q + 1])))
    if isinstance(mode, (str, I.SymStr)):
        m = text_option(it, mode, ("constant", "reflect", "replicate", "circular"), "mode")
    else:
        raise LibError("TypeError", "pad mode must be a text")
    if m is None:
        raise LibError("NotImplementedError", "Unrecognised padding mode %s" % mode)
    if m != "constant" and (k != t.ndim - 2 and k != t.ndim - 1):
        raise LibError("NotImplementedError", "padding of %d axes of a %dD input is not implemented for mode %s" % (k, t.ndim, m))
    if m != "constant" and k > 3:
        raise LibError("NotImplementedError", "Only 2D, 3D, 4D, 5D padding with non-constant padding are supported")
    if m != "constant":
        for d, (a, b) in amounts.items():
            n = norm(t.shape[d])
            lim = n - 1 if m == "reflect" else n if m == "circular" else None
            if lim is not None:
                for p in (a, b):
                    if T.nonneg(p - lim - 1):
                        raise LibError("RuntimeError", "Padding size should be less than the corresponding input dimension")
    rd = t.reader()
    sh = [norm(x) for x in t.shape]
    v = ZERO if value is None else num_term(value)
    out = [sh[d] + amounts[d][0] + amounts[d][1] if d in amounts else sh[d] for d in range(t.ndim)]

    def fn(*idx):
        c = ONE
        src = list(idx)
        for d, (a, b) in amounts.items():
            if a.const == 0 and b.const == 0:
                continue
            n = sh[d]
            i = idx[d] - a
            if m == "constant":
                if not T.nonneg(i):
                    c = T.land(c, T.le(ZERO, i))
                if not T.nonneg(n - 1 - i):
                    c = T.land(c, T.lt(i, n))
                src[d] = i
            else:
                src[d] = pad_index(m, i, n)
        if c is ONE:
            return rd(tuple(src))
        if c is ZERO:
            return v
        return T.ite(c, rd(tuple(src)), v)
    return X.mk(out, fn, t.dtype, t.device, t.grad_deps)


def pad_index(mode, i, n):
    """Source index of a padded position: the same function for every analysis."""
    if T.nonneg(i) and T.nonneg(n - 1 - i):
        return i
    return T.opq("padidx_" + mode, i, n, is_int=True)


# ------------------------------------------------------------------ sampling
@ff("grid_sample")
def f_grid_sample(input, grid, mode="bilinear", padding_mode="zeros", align_corners=None):
    it = ctx().interp
    I = _I()
    t, g = need(input), need(grid)
    nd = t.ndim - 2
    if nd not in (2, 3) or g.ndim != t.ndim:
        raise LibError("RuntimeError", "grid_sampler(): expected 4D or 5D input and grid with same number of dimensions, but "
                       "got input with sizes %s and grid with sizes %s" % (X.show_shape(t.shape), X.show_shape(g.shape)))
    if not X.same_size(t.shape[0], g.shape[0]):
        raise LibError("RuntimeError", "grid_sampler(): expected grid and input to have same batch size, but got input with "
                       "sizes %s and grid with sizes %s" % (X.show_shape(t.shape), X.show_shape(g.shape)))
    if not X.same_size(g.shape[-1], tt(nd)):
        raise LibError("RuntimeError", "grid_sampler(): expected grid to have size %d in last dimension, but got grid with "
                       "sizes %s" % (nd, X.show_shape(g.shape)))
    if t.dtype != g.dtype:
        raise LibError("RuntimeError", "grid_sampler(): expected input and grid to have same dtype")
    mk = _opt(it, mode, ("bilinear", "nearest", "bicubic"), "mode")
    pk = _opt(it, padding_mode, ("zeros", "border", "reflection"), "padding_mode")
    if align_corners is None or align_corners is False:
        ac = "False"
    elif align_corners is True:
        ac = "True"
    else:
        ac = "True" if it.truth(align_corners) else "False"
    rt, rg = t.reader(), g.reader()
    ins = [norm(s) for s in t.shape[2:]]
    # a plain lookup of nearest samples does not move with the coordinates' gradient, but depends on both values
    gr = t.grad_deps | g.grad_deps

    def fn(*idx):
        n, c = idx[0], idx[1]
        o = tuple(idx[2:])
        coords = tuple(rg((n,) + o + (tt(d),)) for d in range(nd))
        q = [T.fresh(s, "q") for s in ins]
        w = T.opq("gs", mk, pk, ac, coords, tuple(q), tuple(ins))
        return T.sum_over(q, rt((n, c) + tuple(q)) * w)
    dev = X.join_device([t, g], "grid_sample")
    ctx().event("grid_sample", "grid_sample", input=t, grid=g, mode=mk, padding_mode=pk, align=ac)
    return X.mk((t.shape[0], t.shape[1]) + tuple(g.shape[1:-1]), fn, t.dtype, dev, gr)


def _opt(it, s, known, what):
    I = _I()
    if isinstance(s, str):
        if s not in known:
            raise LibError("ValueError", "expected %s to be one of %s, but got: %r" % (what, ", ".join(known), s))
        return s
    if isinstance(s, I.SymStr):
        return text_key(it, s)
    raise LibError("TypeError", "%s must be a text" % what)


@ff("affine_grid", "interpolate", "unfold", "fold", "one_hot", "embedding", "upsample", "multi_head_attention_forward",
    "scaled_dot_product_attention", "conv_transpose2d", "conv_transpose3d")
def f_nomodel(*a, **k):
    raise Incomplete("a torch.nn.functional operation that is not modelled")


# ------------------------------------------------------------------ pooling
def _pool_axes(t, nd, what):
    if t.ndim not in (nd + 1, nd + 2):
        raise LibError("RuntimeError", "%s: expected %dD or %dD input, got %s" % (what, nd + 1, nd + 2, X.show_shape(t.shape)))
    return t.ndim - nd


def pool_n(kind, nd, input, kernel_size, stride, padding, ceil_mode=False, count_include_pad=True, divisor_override=None,
           dilation=1):
    """Window reduction over the last nd axes; the window reduction itself is uninterpreted."""
    it = ctx().interp
    t = need(input)
    a = _pool_axes(t, nd, kind)
    ks = ntuple(kernel_size, nd, "kernel_size")
    st = ntuple(stride, nd, "stride") if stride is not None and seq(stride) != [] else ks
    pd = ntuple(padding, nd, "padding")
    dl = ntuple(dilation, nd, "dilation")
    cm = it.truth(ceil_mode)
    cip = it.truth(count_include_pad)
    div = None if divisor_override is None else norm(num_term(divisor_override))
    ns = [norm(s) for s in t.shape[a:]]
    for k, p in zip(ks, pd):
        # pad should be at most half of the effective kernel size
        if p.const is not None and k.const is not None and p.const * 2 > k.const:
            raise LibError("RuntimeError", "pad should be at most half of effective kernel size")
    outs = []
    for n, k, s, p, d in zip(ns, ks, st, pd, dl):
        if cm:
            o = T.opq("pool_ceil_len", n, k, s, p, d, is_int=True)
        else:
            o = conv_out(n, k, s, p * 2, d)
        outs.append(norm(o))
    rd = t.reader()

    # an axis with a window of one and stride one is not reduced
    live = [j for j in range(nd) if not (ks[j].const == 1 and st[j].const == 1 and pd[j].const == 0)]
    scale = ONE
    if div is not None and not live:
        scale = T.inv(div)

    def fn(*idx):
        pre = tuple(idx[:a])
        if not live:
            return rd(tuple(idx)) * scale if kind != "argmax" else T.opq("argpos", tuple(idx[a:]), tuple(ns))

        def full(q):
            out = list(idx[a:])
            for j, x in zip(live, q):
                out[j] = x
            return pre + tuple(out)
        l = T.lam([ns[j] for j in live], lambda *q: rd(full(q)))
        pick = lambda v: tuple(v[j] for j in live)  # noqa: E731
        return T.opq("%s_pool" % kind, l, pick(idx[a:]), pick(ks), pick(st), pick(pd), pick(dl),
                     "ceil" if cm else "floor", "pad" if cip else "nopad", ZERO if div is None else div)
    ctx().event("pool", "%s_pool%dd" % (kind, nd), axes=list(range(a, t.ndim)), input=t)
    return X.mk(tuple(t.shape[:a]) + tuple(outs), fn, t.dtype, t.device, t.grad_deps)


def _pools(nd):
    def avg(input, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
        return pool_n("avg", nd, input, kernel_size, stride, padding, ceil_mode, count_include_pad, divisor_override)

    def mx(input, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
        v = pool_n("max", nd, input, kernel_size, stride, padding, ceil_mode, True, None, dilation)
        if ctx().interp.truth(return_indices):
            i = pool_n("argmax", nd, input, kernel_size, stride, padding, ceil_mode, True, None, dilation)
            i.dtype = "int64"
            return v, i
        return v
    for n, f in (("avg_pool%dd" % nd, avg), ("max_pool%dd" % nd, mx)):
        LIB["torch.nn.functional." + n] = _builtin("torch.nn.functional." + n, f)

    def adapt(kind):
        def f(input, output_size, return_indices=False):
            t = need(input)
            a = _pool_axes(t, nd, "adaptive")
            s = seq(output_size)
            s = [output_size] * nd if s is None else list(s)
            if len(s) == 1:
                s = s * nd
            if len(s) != nd:
                raise LibError("RuntimeError", "adaptive_%s_pool%dd: output_size must have %d entries" % (kind, nd, nd))
            ns = [norm(x) for x in t.shape[a:]]
            os_ = [n if v is None else norm(num_term(v)) for n, v in zip(ns, s)]
            rd = t.reader()

            def make(tag, dt):
                def fn(*idx):
                    pre = tuple(idx[:a])
                    if tag == "avg" and all(o.const == 1 for o in os_):
                        vs = [T.fresh(n) for n in ns]
                        return T.sum_over(vs, rd(pre + tuple(vs))) * T.inv(X.numel(ns))
                    if tag == "max" and all(o.const == 1 for o in os_):
                        c = rd
                        # maximum over the axes, last to first
                        def red(k, got):
                            if k < 0:
                                return rd(pre + tuple(got))
                            v = T.fresh(ns[len(ns) - 1 - k])
                            return T.order_stat("os", T.close([v], red(k - 1, got + [v])), 0, True)
                        return red(len(ns) - 1, [])
                    l = T.lam(ns, lambda *q: rd(pre + tuple(q)))
                    return T.opq("adaptive_%s" % tag, l, tuple(idx[a:]), tuple(os_))
                return X.mk(tuple(t.shape[:a]) + tuple(os_), fn, dt, t.device, t.grad_deps)
            ctx().event("pool", "adaptive_%s_pool%dd" % (kind, nd), axes=list(range(a, t.ndim)), input=t)
            v = make(kind, t.dtype)
            if kind == "max" and ctx().interp.truth(return_indices):
                return v, make("argmax", "int64")
            return v
        return f
    for kind in ("avg", "max"):
        n = "adaptive_%s_pool%dd" % (kind, nd)
        LIB["torch.nn.functional." + n] = _builtin("torch.nn.functional." + n, adapt(kind))


for _k in (1, 2, 3):
    _pools(_k)


# ------------------------------------------------------------------ normalization
def normalize_stats(t, axes, eps, what):
    """(x - mean) / sqrt(var + eps) with statistics over the given axes."""
    rd = t.reader()
    sh = [norm(s) for s in t.shape]
    n = X.numel([sh[k] for k in axes])
    e = num_term(eps)

    def fn(*idx):
        def at(vs):
            out = list(idx)
            for k, v in zip(axes, vs):
                out[k] = v
            return rd(tuple(out))
        vs = [T.fresh(sh[k]) for k in axes]
        m = T.sum_over(vs, at(vs)) * T.inv(n)
        ws = [T.fresh(sh[k]) for k in axes]
        d = at(ws) - m
        var = T.sum_over(ws, d * d) * T.inv(n)
        return (rd(tuple(idx)) - m) * T.inv(T.fun("sqrt", var + e))
    ctx().event("norm", what, axes=list(axes), input=t)
    return X.mk(t.shape, fn, t.dtype, t.device, t.grad_deps)


def more_than_one(n, what):
    if ctx().interp.decide(T.eq(norm(n), ONE)):
        raise LibError("ValueError", "Expected more than 1 %s when training" % what)


def running_stats(t, mean, var, momentum, over):
    """Exponential average of the mean and the unbiased variance over the batch and spatial axes; over the spatial axes alone
    and then averaged over the batch if over is "instance"."""
    if mean is None and var is None:
        return
    rd = t.reader()
    sh = [norm(s) for s in t.shape]
    axes = ([0] if over == "batch" else []) + list(range(2, t.ndim))
    n = X.numel([sh[k] for k in axes])
    m = num_term(momentum)

    def stat(c, second):
        def one(b):
            def at(vs):
                out = [b, c] + [None] * (t.ndim - 2)
                for k, v in zip(axes, vs):
                    out[k] = v
                return rd(tuple(out))
            vs = [T.fresh(sh[k]) for k in axes]
            mu = T.sum_over(vs, at(vs)) * T.inv(n)
            if not second:
                return mu
            ws = [T.fresh(sh[k]) for k in axes]
            d = at(ws) - mu
            return T.sum_over(ws, d * d) * T.inv(n - 1)
        if over == "batch":
            return one(None)
        b = T.fresh(sh[0])
        return T.sum_over([b], one(b)) * T.inv(sh[0])
    for buf, second in ((mean, False), (var, True)):
        if buf is None:
            continue
        if not X.same_size(buf.shape[0], sh[1]):
            raise LibError("RuntimeError", "running statistics of size %s for %s channels" % (
                X.show_shape(buf.shape), T.brief(sh[1])))
        old = buf.reader()
        new = X.mk(buf.shape, lambda c, old=old, second=second: old((c,)) * (ONE - m) + stat(c, second) * m, buf.dtype,
                   buf.device)
        org, buf.st.origin = buf.st.origin, "fresh"
        try:
            X.write(buf, new)
        finally:
            buf.st.origin = org
    ctx().event("running", "batch statistics update", origin=("buffer", "running"))


def _affine(r, weight, bias, d):
    for p, op in ((weight, "mul"), (bias, "add")):
        if p is not None:
            q = p
            if not X.same_size(p.shape[0], r.shape[d]):
                raise LibError("RuntimeError", "affine parameter of size %s for %s channels" % (
                    X.show_shape(p.shape), T.brief(norm(r.shape[d]))))
            for _ in range(r.ndim - d - 1):
                q = X.unsqueeze(q, q.ndim)
            r = arith(op, r, q)
    return r


@ff("batch_norm")
def f_batch_norm(input, running_mean=None, running_var=None, weight=None, bias=None, training=False, momentum=0.1,
                 eps=Num(tt(1e-5), "float")):
    it = ctx().interp
    t = need(input)
    if it.truth(training):
        more_than_one(X.numel([t.shape[0]] + list(t.shape[2:])), "value per channel")
        r = normalize_stats(t, [0] + list(range(2, t.ndim)), eps, "batch_norm")
        running_stats(t, running_mean, running_var, momentum, "batch")
    else:
        if running_mean is None or running_var is None:
            raise LibError("ValueError", "Expected running_mean and running_var to be defined when training=False")
        m, v = running_mean, running_var
        for _ in range(t.ndim - 2):
            m, v = X.unsqueeze(m, m.ndim), X.unsqueeze(v, v.ndim)
        e = num_term(eps)
        r = X.ew(lambda x, a, b: (x - a) * T.inv(T.fun("sqrt", b + e)), [t, m, v], t.dtype)
    return _affine(r, weight, bias, 1)


@ff("instance_norm")
def f_instance_norm(input, running_mean=None, running_var=None, weight=None, bias=None, use_input_stats=True, momentum=0.1,
                    eps=Num(tt(1e-5), "float")):
    it = ctx().interp
    t = need(input)
    if it.truth(use_input_stats):
        more_than_one(X.numel(list(t.shape[2:])), "spatial element")
        r = normalize_stats(t, list(range(2, t.ndim)), eps, "instance_norm")
        running_stats(t, running_mean, running_var, momentum, "instance")
        return _affine(r, weight, bias, 1)
    return f_batch_norm(t, running_mean, running_var, weight, bias, False, momentum, eps)


@ff("layer_norm")
def f_layer_norm(input, normalized_shape, weight=None, bias=None, eps=Num(tt(1e-5), "float")):
    t = need(input)
    ns = sizes((normalized_shape,)) if seq(normalized_shape) is not None else (norm(num_term(normalized_shape)),)
    k = len(ns)
    if k > t.ndim or not all(X.same_size(a, b) for a, b in zip(ns, t.shape[t.ndim - k:])):
        raise LibError("RuntimeError", "Given normalized_shape=%s, expected input with shape [*, %s], but got input of size%s" % (
            X.show_shape(ns), X.show_shape(ns), X.show_shape(t.shape)))
    r = normalize_stats(t, list(range(t.ndim - k, t.ndim)), eps, "layer_norm")
    if weight is not None:
        r = arith("mul", r, weight)
    if bias is not None:
        r = arith("add", r, bias)
    return r


@ff("group_norm")
def f_group_norm(input, num_groups, weight=None, bias=None, eps=Num(tt(1e-5), "float")):
    t = need(input)
    g = norm(num_term(num_groups))
    c = norm(t.shape[1])
    q = T.div_exact(c, g)
    if q is None or not q.is_int:
        raise LibError("RuntimeError", "Expected number of channels in input to be divisible by num_groups")
    v = X.reshape(t, [t.shape[0], g, q] + list(t.shape[2:]))
    r = normalize_stats(v, list(range(2, v.ndim)), eps, "group_norm")
    r = X.reshape(r, list(t.shape))
    return _affine(r, weight, bias, 1)


@ff("normalize")
def f_normalize(input, p=2, dim=1, eps=Num(tt(1e-12), "float"), out=None):
    t = need(input)
    n = X.norm_(t, 2 if (isinstance(p, Num) and p.term.const == 2) else p, cdims(dim), True)
    e = num_term(eps)
    return X.ew(lambda x, y: x * T.inv(T.fun("max", y, e)), [t, n])


@ff("cosine_similarity")
def f_cosine(x1, x2=None, dim=1, eps=Num(tt(1e-8), "float")):
    raise Incomplete("cosine_similarity")


# ------------------------------------------------------------------ activations
def act(name, f, *extra):
    def g(input, *a, inplace=False, **k):
        t = need(input)
        ps = [num_term(x) if is_num(x) else x for x in a] + [num_term(k[x]) if is_num(k[x]) else k[x] for x in sorted(k)]
        r = X.ew(lambda x: f(x, *ps), [t], fl(t))
        if inplace is True:
            return assign(t, r, name)
        return r
    LIB["torch.nn.functional." + name] = _builtin("torch.nn.functional." + name, g)
    return g


act("relu", lambda x: T.fun("max", x, ZERO))
act("gelu", lambda x, *p: T.opq("gelu", x, *p))
act("silu", lambda x: x * T.inv(ONE + T.fun("exp", -x)))
act("sigmoid", lambda x: T.inv(ONE + T.fun("exp", -x)))
act("tanh", lambda x: T.fun("tanh", x))
for _n in ("elu", "selu", "celu", "leaky_relu", "softplus", "hardtanh", "relu6", "mish", "hardswish", "softsign",
           "logsigmoid", "hardsigmoid", "tanhshrink", "threshold", "rrelu"):
    act(_n, lambda x, *p, _n=_n: T.opq(_n, x, *p))


@ff("leaky_relu")
def f_leaky(input, negative_slope=Num(tt(0.01), "float"), inplace=False):
    s = num_term(negative_slope)
    t = need(input)
    r = X.ew(lambda x: T.opq("leaky_relu", x, s), [t], fl(t))
    return assign(t, r, "leaky_relu") if inplace is True else r


@ff("prelu")
def f_prelu(input, weight):
    t, w = need(input), need(weight)
    for _ in range(max(t.ndim - 2, 0)):
        w = X.unsqueeze(w, w.ndim) if w.ndim and not X.is_one(w.shape[0]) else w
    return X.ew(lambda x, a: T.opq("leaky_relu", x, a), [t, w])


@ff("gelu")
def f_gelu(input, approximate="none"):
    it = ctx().interp
    k = text_key(it, approximate)
    return X.ew(lambda x: T.opq("gelu", x, k), [need(input)], fl(input))


@ff("dropout", "dropout2d", "dropout3d")
def f_dropout(input, p=0.5, training=True, inplace=False):
    if training is False:
        return input
    raise Incomplete("dropout")


LIB["torch.nn.functional.softmax"] = LIB["torch.softmax"]
LIB["torch.nn.functional.log_softmax"] = LIB["torch.log_softmax"]


@ff("mse_loss", "l1_loss", "smooth_l1_loss", "cross_entropy", "nll_loss")
def f_loss(input, target, reduction="mean", **k):
    return X.mean_(X.ew(lambda a, b: (a - b) * (a - b), [input, target]))


# ------------------------------------------------------------------ initialisation
def _init(name):
    def f(tensor, *a, generator=None, **k):
        t = need(tensor)
        args = []
        for x in list(a) + [k[q] for q in sorted(k)]:
            if is_num(x):
                args.append(num_term(x))
        d = draw("init", t.shape, t.dtype, t.device)
        c = ctx()
        c.event("init", name, args=args, tensor=t, leaf=c.draw_log[-1]["leaf"])
        return X.write(t, d, "init." + name) if not c.grad_on else _nograd_write(t, d, name)
    LIB["torch.nn.init." + name] = _builtin("torch.nn.init." + name, f)


def _nograd_write(t, d, name):
    c = ctx()
    c.grad_on = False
    try:
        X.write(t, d, "init." + name)
    finally:
        c.grad_on = True
    return t


for _n in ("uniform_", "normal_", "kaiming_uniform_", "kaiming_normal_", "xavier_uniform_", "xavier_normal_",
           "trunc_normal_", "orthogonal_", "sparse_"):
    _init(_n)


def _fill(name, v):
    def f(tensor, val=None):
        t = need(tensor)
        x = X.mk((), lambda: tt(v) if v is not None else num_term(val), t.dtype)
        x.device = t.device
        return _nograd_write(t, x, name)
    LIB["torch.nn.init." + name] = _builtin("torch.nn.init." + name, f)


_fill("zeros_", 0)
_fill("ones_", 1)
_fill("constant_", None)


@func("torch.nn.init._calculate_fan_in_and_fan_out")
def f_fans(tensor):
    t = need(tensor)
    if t.ndim < 2:
        raise LibError("ValueError", "Fan in and fan out can not be computed for tensor with fewer than 2 dimensions")
    rf = X.numel(t.shape[2:])
    return mknum(t.shape[1] * rf, "int"), mknum(t.shape[0] * rf, "int")


@func("torch.nn.init._calculate_correct_fan")
def f_fan(tensor, mode):
    a, b = f_fans.fn(None).fn(tensor) if False else _fans(tensor)
    return a if mode == "fan_in" else b


def _fans(t):
    rf = X.numel(t.shape[2:])
    return mknum(t.shape[1] * rf, "int"), mknum(t.shape[0] * rf, "int")


@func("torch.nn.init.calculate_gain")
def f_gain(nonlinearity, param=None):
    p = num_term(param) if is_num(param) else ZERO
    return Num(T.opq("gain", str(nonlinearity), p), "float")


# ------------------------------------------------------------------ small helpers of torch.nn.modules.utils
def _nt(n):
    def f(x):
        s = seq(x)
        if s is not None:
            return tuple(s)
        return (x,) * n
    return f


for _n, _c in (("_single", 1), ("_pair", 2), ("_triple", 3), ("_quadruple", 4)):
    LIB["torch.nn.modules.utils." + _n] = _builtin(_n, _nt(_c))


@func("torch.nn.modules.utils._ntuple")
def f_ntuple(n, name="parse"):
    return _I().Builtin("ntuple", _nt(ctx().interp.concrete_int(n)))


@func("torch.nn.modules.utils._reverse_repeat_tuple")
def f_rrt(t, n):
    n = ctx().interp.concrete_int(n)
    return tuple(x for x in reversed(seq(t)) for _ in range(n))


@func("torch.nn.modules.utils._list_with_default")
def f_lwd(out_size, defaults):
    s = seq(out_size)
    if s is None:
        return out_size
    d = seq(defaults)
    return tuple(v if v is not None else e for v, e in zip(s, d[-len(s):]))


@func("torch.nn.utils.parameters_to_vector", "torch.nn.utils.clip_grad_norm_", "torch.nn.utils.clip_grad_value_")
def f_nnutils(*a, **k):
    raise Incomplete("torch.nn.utils")
