"""Opaque group operations: pure, elementwise, otherwise unknown.  Base kernels are analysed with these in their slots,
so that a verdict holds for every group."""
import itertools

from . import terms as T
from . import tensor as X
from . import interp as I
from .terms import tt, ZERO
from .tensor import LibError
from . import lib  # noqa: F401
from .nnprelude import named



def comps(t, pre, es):
    """Entries of the element of t at position pre, in order."""
    return [t.at(*pre, *[tt(k) for k in idx]) for idx in itertools.product(*[range(int(tt(e).const)) for e in es])]


def leafcomps(leaf, pre, es):
    return [T.elem(leaf, *pre, *[tt(k) for k in idx])
            for idx in itertools.product(*[range(int(tt(e).const)) for e in es])]


def position(idx, es):
    """Linear position of constant or symbolic component indices."""
    p = ZERO
    for i, e in zip(idx, es):
        p = p * tt(e) + tt(i)
    return p


def need_same(a, b, what):
    if not X.same_size(a, b) and X.differ(a, b):
        raise LibError("RuntimeError", "%s: sizes %s and %s differ" % (what, T.brief(tt(a)), T.brief(tt(b))))


def opt(v):
    """An option value as an opaque argument."""
    if isinstance(v, X.Num):
        return X.num_term(v)
    if isinstance(v, (tuple, I.PyList)):
        return ("seq",) + tuple(opt(x) for x in (v if isinstance(v, tuple) else v.items))
    if isinstance(v, (str, int, float, bool)) or v is None:
        return ("lit", repr(v))
    if isinstance(v, X.Tensor):
        return ("tensor", v.lam())
    return ("obj", repr(v))


def opts(kw):
    return tuple((k, opt(kw[k])) for k in sorted(kw))


# ------------------------------------------------------------------ the operations as terms
def inv_(x):
    return [T.opq("inv", tt(k), *x) for k in range(len(x))]


def prod_(x, y):
    return [T.opq("prod", tt(k), *(list(x) + list(y))) for k in range(len(x))]


def act_(x, v):
    return [T.opq("act", tt(k), *(list(x) + list(v))) for k in range(len(v))]


def det_(x):
    return T.opq("det", *x)


def sampleH_(query, sig, grid, kw):
    """sig: Lam over reference elements; grid: Lam over (element, component)."""
    return T.opq("sampleH", tuple(query), sig, grid, opts(kw))


def sampleRn_(img, coord, kw):
    return T.opq("sampleRn", img, tuple(coord), opts(kw))


class Slots:
    """Callables for the slots of a base kernel, for elements of shape es acting on R^d."""

    def __init__(self, es, d):
        self.es = tuple(es)
        self.n = 1
        for e in self.es:
            self.n *= e
        self.d = d

    def at(self, vals, idx):
        """vals[position] for component indices idx."""
        p = X.norm(position(idx, self.es))
        if p.const is not None:
            return vals[int(p.const)]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = T.ite(T.eq(p, tt(j)), vals[j], r)
        return r

    def comps_or_raise(self, t, what):
        es = t.shape[t.ndim - len(self.es):]
        if t.ndim < len(self.es) or any(not X.same_size(a, tt(b)) for a, b in zip(es, self.es)):
            raise LibError("RuntimeError", "%s got elements of shape %s" % (what, X.show_shape(t.shape)))
        return t.shape[:t.ndim - len(self.es)]

    def inverse(self, H):
        B = self.comps_or_raise(H, "inverse")
        nb = len(B)
        return X.mk(H.shape, lambda *i: self.at(inv_(comps(H, i[:nb], self.es)), i[nb:]), dtype=H.dtype,
                    device=H.device, grad=H.grad_deps)

    def to_H(self, A, B):
        ba, bb = self.comps_or_raise(A, "product"), self.comps_or_raise(B, "product")
        if len(ba) != 1 or len(bb) != 1:
            raise LibError("RuntimeError", "product expects grids of elements")
        return X.mk((ba[0], bb[0]) + self.es,
                    lambda g, h, *k: self.at(prod_(comps(A, (g,), self.es), comps(B, (h,), self.es)), k),
                    dtype=A.dtype, device=X.join_device([A, B], "product"), grad=A.grad_deps | B.grad_deps)

    def to_Rn(self, A, G):
        ba = self.comps_or_raise(A, "action")
        if len(ba) != 1:
            raise LibError("RuntimeError", "action expects a grid of elements")
        if not X.same_size(G.shape[-1], tt(self.d)):
            raise LibError("RuntimeError", "action expects vectors of size %d" % self.d)

        def fn(g, *i):
            v = act_(comps(A, (g,), self.es), [G.at(*i[:-1], tt(k)) for k in range(self.d)])
            k = i[-1]
            if k.const is not None:
                return v[int(k.const)]
            r = v[-1]
            for j in range(self.d - 2, -1, -1):
                r = T.ite(T.eq(k, tt(j)), v[j], r)
            return r
        return X.mk((ba[0],) + G.shape, fn, dtype=A.dtype, device=X.join_device([A, G], "action"),
                    grad=A.grad_deps | G.grad_deps)

    def det(self, H):
        B = self.comps_or_raise(H, "det")
        nb = len(B)
        return X.mk(B, lambda *i: det_(comps(H, i[:nb], self.es)), dtype=H.dtype, device=H.device, grad=H.grad_deps)

    def sample_H(self, H, signal, grid, **kw):
        B = self.comps_or_raise(H, "sampling")
        if len(B) != 1 or signal.ndim != 2:
            raise LibError("RuntimeError", "sampling expects (M, ...) elements and an (N, C) signal, got %s and %s" % (
                X.show_shape(H.shape), X.show_shape(signal.shape)))
        bg = self.comps_or_raise(grid, "sampling")
        need_same(bg[0], signal.shape[0], "sampling: reference elements and signal rows")
        gl = self.gridlam(grid)

        def fn(m, c):
            return sampleH_(comps(H, (m,), self.es), T.lam((signal.shape[0],), lambda n: signal.at(n, c)), gl, kw)
        return X.mk((B[0], signal.shape[1]), fn, dtype=signal.dtype,
                    device=X.join_device([H, signal, grid], "sampling"),
                    grad=H.grad_deps | signal.grad_deps | grid.grad_deps)

    def gridlam(self, grid):
        return T.lam(grid.shape, lambda *i: grid.at(*i))

    def sample_Rn(self, x, g, **kw):
        if x.ndim != self.d + 2 or g.ndim != self.d + 2 or not X.same_size(g.shape[-1], tt(self.d)):
            raise LibError("RuntimeError", "spatial sampling of %s at %s" % (X.show_shape(x.shape), X.show_shape(g.shape)))
        need_same(x.shape[0], g.shape[0], "spatial sampling: batch sizes")

        def fn(b, c, *s):
            img = T.lam(x.shape[2:], lambda *k: x.at(b, c, *k))
            return sampleRn_(img, [g.at(b, *s, tt(k)) for k in range(self.d)], kw)
        return X.mk(x.shape[:2] + g.shape[1:-1], fn, dtype=x.dtype, device=X.join_device([x, g], "spatial sampling"),
                    grad=x.grad_deps | g.grad_deps)

    def b(self, name):
        f = {"inverse_H": self.inverse, "left_apply_to_H": self.to_H, "left_apply_to_Rn": self.to_Rn,
             "det_H": self.det, "sample_H": self.sample_H, "sample_Rn": self.sample_Rn}[name]
        return I.Builtin("slot " + name, f)


def params(obj):
    """Registered parameters: [(name, tensor)]."""
    return [(n, t) for n, t, _, _ in named(obj, "params")]


def buffers(obj):
    return [(n, t) for n, t, _, _ in named(obj, "buffers")]


def content(t, name, **kw):
    """Gives a tensor the content of an unknown leaf."""
    leaf = T.Leaf(name, **kw)
    if t.fwd is not None:
        raise X.Incomplete("parameter is a view")
    t.st.replace(lambda *i: T.elem(leaf, *i))
    return leaf
