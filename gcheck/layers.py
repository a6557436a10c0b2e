"""Specification of group convolution layers, and layers with a kernel of unknown weights."""
from . import slots as SL
from . import terms as T
from . import tensor as X
from . import interp as I
from .terms import tt, ZERO, ONE
from .funclib import pad_index
from .tensor import LibError

KER = "gconv.gnn.kernels:"
MOD = "gconv.gnn.modules.gconv:"


def padded(x, pos, ns, mode):
    """Value of x (function of positions) at possibly outside positions under the padding mode."""
    c = ONE
    src = []
    for p, n in zip(pos, ns):
        if mode == "zeros":
            if not T.nonneg(p):
                c = T.land(c, T.le(ZERO, p))
            if not T.nonneg(n - 1 - p):
                c = T.land(c, T.lt(p, n))
            src.append(p)
        else:
            src.append(pad_index(mode, p, n))
    v = x(*src)
    return v if c is ONE else c * v


def out_sizes(ns, ks, st, tot, dl):
    return [X.norm(T.floordiv(n + t - d * (k - 1) - 1, s) + 1) for n, k, s, t, d in zip(ns, ks, st, tot, dl)]


class Opts:
    """Resolved spatial options: what an ordinary convolution does with them."""

    def __init__(self, d, st=None, lo=None, tot=None, dl=None, mode="zeros"):
        self.st = list(st) if st else [ONE] * d
        self.dl = list(dl) if dl else [ONE] * d
        self.lo = list(lo) if lo else [ZERO] * d
        self.tot = list(tot) if tot else [2 * p for p in self.lo]
        # no padding: nothing outside is ever read
        self.mode = "zeros" if all(tt(t).const == 0 for t in self.tot) else mode


def same_opts(d, ks, dl, mode):
    tot = [q * (k - 1) for q, k in zip(dl, ks)]
    return Opts(d, dl=dl, lo=[T.floordiv(t, tt(2)) for t in tot], tot=tot, mode=mode)


def conv_at(o, gdim, pos, xs, w, sums, ns, ks, op):
    """sum over sums (index variables) and taps of w(*sums, *taps) * padded x(*sums)(position)."""
    taps = [T.fresh(k, "tap") for k in ks]
    src = [p * s + t * d - l for p, s, t, d, l in zip(pos, op.st, taps, op.dl, op.lo)]
    body = w(*sums, *taps) * padded(lambda *q: xs(*sums, *q), src, ns, op.mode)
    return T.sum_over(list(sums) + taps, body)


class Layer:
    """A base layer whose kernel yields unknown weights (leaves), recording the grids it is asked for."""

    xlo = 4  # least spatial size of the input

    def __init__(self, K, kind, d, bias=False, ks=None, groups=None, es=(2,), gks=None, **options):
        self.K, self.kind, self.d = K, kind, d
        self.sl = SL.Slots(es, d)
        gr = K.size("G") if groups is None else tt(groups)
        og, ig = K.size("Og"), K.size("Ig")
        self.gr, self.og, self.cig = gr, og, ig
        self.co, self.ci = og * gr, ig * gr
        self.ks = tuple(ks) if ks else tuple(K.size("K%d" % j) for j in range(d))
        self.N = K.size("N")
        self.gridH = K.leaf("gridH", (self.N,) + es)
        self.gridRn = K.leaf("gridRn", self.ks + (d,))
        sl = self.sl
        self.cls = {"lifting": "GLiftingKernel", "separable": "GSeparableKernel", "full": "GKernel"}[kind]
        kw = dict(groups=K.int(gr), inverse_H=sl.b("inverse_H"), left_apply_to_Rn=sl.b("left_apply_to_Rn"),
                  sample_Rn=sl.b("sample_Rn"))
        if kind != "lifting":
            kw.update(left_apply_to_H=sl.b("left_apply_to_H"), sample_H=sl.b("sample_H"))
        kst = tuple(K.int(s) for s in self.ks)
        self.kernel = K.call(KER + self.cls, K.int(self.ci), K.int(self.co), kst, (K.int(self.N),), self.gridH,
                             self.gridRn, **kw)
        name = {"lifting": "GLiftingConv%dd", "separable": "GSeparableConv%dd", "full": "GConv%dd"}[kind] % d
        self.name = name
        self.layer = K.call(MOD + name, K.int(self.ci), K.int(self.co), kst, K.int(self.N) if gks is None else gks,
                            self.kernel, groups=K.int(gr), bias=bias, **options)
        self.record()
        self.find_bias(bias)

    def record(self):
        self.asked = []
        self.kernel.attrs["forward"] = I.Builtin("kernel weights", self.weights)

    def find_bias(self, bias):
        """The bias the layer adds: one unknown number per output channel."""
        K = self.K
        kp = [p for _, p in SL.params(self.kernel)]
        bp = [(n, p) for n, p in SL.params(self.layer) if not any(p is q for q in kp)]
        self.bias = None
        if bias:
            if len(bp) != 1:
                raise X.Incomplete("bias parameters %s" % [n for n, _ in bp])
            p = bp[0][1]
            K.require(p.ndim >= 1 and X.same_size(p.shape[0], self.co), "shape", "bias has one entry per output channel",
                      "it has shape %s" % X.show_shape(p.shape))
            for s in p.shape[1:]:
                K.require(X.is_one(s), "shape", "bias has one entry per output channel",
                          "it has shape %s" % X.show_shape(p.shape))
            lf = SL.content(p, "bias")
            self.bias = lambda o, r=p.ndim: T.elem(lf, o, *([ZERO] * (r - 1)))
        else:
            K.require(not bp, "bias", "no parameter besides the kernel's when no bias is requested", "there is %s" % [
                n for n, _ in bp])

    def weights(self, *grids):
        self.asked.append(grids)
        d = self.d
        for g in grids:
            if not isinstance(g, X.Tensor):
                raise LibError("TypeError", "kernel got %s" % (g,))
        tag = "" if len(self.asked) == 1 else str(len(self.asked))
        if self.kind == "lifting":
            if len(grids) != 1:
                raise LibError("TypeError", "lifting kernel takes one grid")
            return X.leaf_tensor("KW" + tag, (self.co, grids[0].shape[0], self.cig) + self.ks)
        if len(grids) != 2:
            raise LibError("TypeError", "kernel takes two grids")
        a, b = grids
        if self.kind == "full":
            return X.leaf_tensor("KW" + tag, (self.co, b.shape[0], self.cig, a.shape[0]) + self.ks)
        return (X.leaf_tensor("KH" + tag, (self.co, b.shape[0], self.cig, a.shape[0]) + (tt(1),) * d),
                X.leaf_tensor("KW" + tag, (self.co, b.shape[0], tt(1)) + self.ks))

    def input(self, P=None):
        K = self.K
        self.B = K.size("B")
        self.ns = tuple(K.size("X%d" % j, lo=self.xlo, conc=7 + j) for j in range(self.d))
        sh = (self.B, self.ci) + (() if self.kind == "lifting" else (P,)) + self.ns
        self.x = K.leaf("x", sh)
        return self.x

    def check(self, op, what="output"):
        """Run the layer on an unknown input and compare with the specification under options op."""
        K, d = self.K, self.d
        es = self.sl.es
        Q = K.size("Q")
        out = K.leaf("outH", (Q,) + es)
        lw = T.Leaf("KW")
        if self.kind == "lifting":
            x = self.input()
            r = K.call(self.layer, x, out)
            grids = (out,)
        else:
            P = K.size("P")
            inH = K.leaf("inH", (P,) + es)
            x = self.input(P)
            r = K.call(self.layer, x, inH, out)
            grids = (inH, out)
        K.require(isinstance(r, tuple) and len(r) == 2, "type", "%s is (features, grid)" % what, "it is %s" % (r,))
        y, h = r
        if len(self.asked) > 1:
            raise X.Incomplete("the kernel is sampled %d times for one call" % len(self.asked))
        K.require(len(self.asked) == 1 and len(self.asked[0]) == len(grids), "grids",
                  "the kernel is sampled once, for the given grids", "it was sampled for %s" % (self.asked,))
        for a, b in zip(self.asked[0], grids):
            if a is not b:
                K.tensor(a, b.shape, lambda *i: b.at(*i), "grid the kernel is sampled for", rule="grids", enum=0)
        if h is not out:
            K.tensor(h, out.shape, lambda *i: out.at(*i), "returned grid", rule="grids", enum=0)
        ns, ks = self.ns, self.ks
        outs = out_sizes(ns, ks, op.st, op.tot, op.dl)
        K.shape(y, (self.B, self.co, Q) + tuple(outs), what)
        n, g = K.fresh(self.B), K.fresh(Q)
        # output channel = its group and its place in it
        gi, oi = K.fresh(self.gr), K.fresh(self.og)
        o = gi * self.og + oi
        pos = [K.fresh(s) for s in outs]
        i = K.fresh(self.cig)
        got = y.at(n, o, g, *pos)
        if self.kind == "lifting":
            want = conv_at(o, g, pos, lambda i, *q: x.at(n, gi * self.cig + i, *q),
                           lambda i, *t: T.elem(lw, o, g, i, *t), [i], ns, ks, op)
        elif self.kind == "full":
            e = K.fresh(P)
            want = conv_at(o, g, pos, lambda i, e, *q: x.at(n, gi * self.cig + i, e, *q),
                           lambda i, e, *t: T.elem(lw, o, g, i, e, *t), [i, e], ns, ks, op)
        else:
            lh = T.Leaf("KH")

            def sub(*q):
                i, e = T.fresh(self.cig), T.fresh(P)
                return T.sum_over([i, e], x.at(n, gi * self.cig + i, e, *q) * T.elem(lh, o, g, i, e, *([ZERO] * d)))
            want = conv_at(o, g, pos, sub, lambda *t: T.elem(lw, o, g, ZERO, *t), [], ns, ks, op)
        if self.bias is not None:
            want = want + self.bias(o)
        K.eq(got, want, "%s[n, group*%s+o, g, position]" % (what, "channels"))
