"""The ready-made groups: their elements, operations and ready-made kernels, as specification terms."""
from . import slots as SL
from . import spec as S
from . import terms as T
from . import tensor as X
from . import interp as I
from .terms import tt, ZERO, ONE

GEO = "gconv.geometry.groups."
KER = "gconv.gnn.kernels:"


def sampler_stubs():
    """The group sampling functions as unknown pure functions of (query, signal column, grid, options); they are
    analysed by themselves under C15 and C16."""
    out = {}
    for g in ("so2", "so3", "o2", "o3"):
        name = GEO + g + ".grid_sample"

        def make(it, f, g=g):
            def fn(*args, **kw):
                v = it.bind_args(f, args, kw)
                names = f.info.params
                q, s, gr = (v[n] for n in names[:3])
                o = tuple((n, SL.opt(v[n])) for n in sorted(names[3:]))
                if not all(isinstance(t, X.Tensor) for t in (q, s, gr)):
                    raise X.LibError("TypeError", "grid_sample expects tensors")
                es = q.shape[1:]
                if s.ndim != 2 or gr.ndim != q.ndim or any(not X.same_size(a, b) for a, b in zip(es, gr.shape[1:])):
                    raise X.LibError("RuntimeError", "%s.grid_sample of %s at %s defined on %s" % (
                        g, X.show_shape(s.shape), X.show_shape(q.shape), X.show_shape(gr.shape)))
                SL.need_same(s.shape[0], gr.shape[0], "grid_sample")
                want = {"so2": (1,), "o2": (2,), "o3": (10,)}.get(g)
                if want and any(not X.same_size(a, tt(b)) for a, b in zip(es, want)):
                    raise X.LibError("RuntimeError", "%s.grid_sample got elements of shape %s" % (g, X.show_shape(es)))
                if g == "so3" and not (len(es) == 2 or len(es) == 1 and X.same_size(es[0], tt(4))):
                    raise X.LibError("RuntimeError", "so3.grid_sample got elements of shape %s" % X.show_shape(es))
                if g == "so3" and len(es) == 2 and any(not X.same_size(a, tt(3)) for a in es):
                    raise X.LibError("RuntimeError", "so3.grid_sample got elements of shape %s" % X.show_shape(es))
                gl = T.lam(gr.shape, lambda *i: gr.at(*i))

                def at(m, c):
                    return T.opq(g + ".grid_sample", tuple(SL.comps(q, (m,), es)),
                                 T.lam((s.shape[0],), lambda n: s.at(n, c)), gl, o)
                return X.mk((q.shape[0], s.shape[1]), at, s.dtype, X.join_device([q, s, gr], "grid_sample"),
                            q.grad_deps | s.grad_deps | gr.grad_deps)
            return I.Builtin(name, fn)
        out[name] = make
    return out


class Group:
    """Element layout and group law of a ready-made layer's group."""

    def __init__(self, name):
        self.name = name
        self.d = 2 if name in ("SE2", "E2") else 3
        self.es = {"SE2": (1,), "E2": (2,), "SE3": (3, 3), "SO3": (3, 3), "E3": (10,)}[name]
        self.mod = {"SE2": "so2", "E2": "o2", "SE3": "so3", "SO3": "so3", "E3": "o3"}[name]
        self.two = name in ("E2", "E3")

    # elements: lists of components
    def grid(self, K, name, n, general=True):
        """A reference grid: n elements (for O(n): a pair of sizes, rotations first)."""
        if not self.two:
            return self.elements(K, name, n)
        a, b = n if isinstance(n, tuple) else (n, n)
        N = X.norm(tt(a) + tt(b))
        lf = T.Leaf(name)

        def fn(i, k):
            k = X.norm(k)
            c = T.ite(T.lt(i, tt(a)), ONE, -ONE)
            if k.const is not None:
                return c if k.const == 0 else T.elem(lf, i, k - 1)
            return T.ite(T.eq(k, ZERO), c, T.elem(lf, i, k - 1))
        t = X.mk((N,) + tuple(tt(e) for e in self.es), fn, origin=("arg", name))
        t.name = name
        return t

    def elements(self, K, name, n):
        """n unknown elements in any order."""
        if not self.two:
            return K.leaf(name, (tt(n),) + self.es)
        if self.name == "E2":
            return S.o2_elems(K, name, (tt(n),))[0]
        return S.o3_elems(K, name, (tt(n),), general=True)[0]

    def comps(self, t, *pre):
        return SL.comps(t, pre, self.es)

    def _m(self, x):
        return [x[0:3], x[3:6], x[6:9]]

    def inv(self, x):
        if self.name == "SE2":
            return [T.mod(-x[0], S.TWO_PI)]
        if self.name == "E2":
            # coefficient s, angle a: acts as s Rot(a)
            return [x[0], T.mod(-x[1], S.TWO_PI)]
        if self.name == "E3":
            return [x[0]] + [y for r in S.mT(self._m(x[1:])) for y in r]
        return [y for r in S.mT(self._m(x)) for y in r]

    def prod(self, x, y):
        if self.name == "SE2":
            return [T.mod(x[0] + y[0], S.TWO_PI)]
        if self.name == "E2":
            return [x[0] * y[0], T.mod(x[1] + y[1], S.TWO_PI)]
        if self.name == "E3":
            return [x[0] * y[0]] + [z for r in S.mmul(self._m(x[1:]), self._m(y[1:])) for z in r]
        return [z for r in S.mmul(self._m(x), self._m(y)) for z in r]

    def act(self, x, v):
        if self.name == "SE2":
            return S.mvec(S.rot2(x[0]), v)
        if self.name == "E2":
            return [x[0] * y for y in S.mvec(S.rot2(x[1]), v)]
        if self.name == "E3":
            return [x[0] * y for y in S.mvec(self._m(x[1:]), v)]
        return S.mvec(self._m(x), v)

    def sampler(self):
        return GEO + self.mod + ":grid_sample"


def coords(k, d, pos):
    """Reference coordinates of size k at a position: last spatial axis first, [-1, 1] in equal steps, the origin for 1."""
    k = tt(k)

    def c(p):
        if k.const == 1:
            return ZERO
        v = 2 * p * T.inv(k - 1) - 1
        if k.const is None and not T.nonneg(k - 2):
            return T.ite(T.lt(ONE, k), v, ZERO)
        return v
    return [c(pos[d - 1 - j]) for j in range(d)]


def mask_at(k, d, pos):
    """1 within the sphere, 0 outside."""
    xs = coords(k, d, pos)
    n = T.fun("sqrt", T.addmany([x * x for x in xs]))
    from fractions import Fraction
    return T.lt(n, T.const(Fraction("1.1")))


def spatial_sample(img, ks, at, mode, pad):
    """img(*q): image; at: coordinates; as torch's grid_sample without aligned corners."""
    q = [T.fresh(k, "q") for k in ks]
    w = T.opq("gs", mode, pad, "False", tuple(at), tuple(q), tuple(ks))
    return T.sum_over(q, img(*q) * w)


class Kernel:
    """Specification of a ready-made kernel with a given reference grid."""

    def __init__(self, K, G, k, co, cig, ks, gridH, mode="bilinear", pad="border", mask=True, hkw=None):
        self.K, self.G, self.k, self.co, self.cig = K, G, tt(k), tt(co), tt(cig)
        self.kk = (self.k,) * G.d
        self.gridH, self.mode, self.pad, self.mask, self.hkw = gridH, mode, pad, mask, hkw or {}

    def moved(self, img, x, pos):
        """img sampled at the reference position pos moved by the inverse of element x, masked."""
        G = self.G
        at = G.act(G.inv(x), coords(self.k, G.d, pos))
        w = spatial_sample(img, self.kk, at, self.mode, self.pad)
        return w * mask_at(self.k, G.d, pos) if self.mask else w

    def subgroup(self, x, y, col):
        """Signal column col(n) on the reference grid interpolated at x^-1 y, with the group's own sampling function."""
        G, K = self.G, self.K
        q = G.prod(G.inv(x), y)
        sl = SL.Slots(G.es, G.d)
        Q = X.mk((ONE,) + tuple(tt(e) for e in G.es), lambda b, *i: sl.at(q, i))
        N = self.gridH.shape[0]
        sig = X.mk((N, ONE), lambda n, c: col(n))
        r = K.call(G.sampler(), Q, sig, self.gridH, **self.hkw)
        return r.at(ZERO, ZERO)


def lifting(K, sp, W, H, o, h, i, pos):
    G = sp.G
    return sp.moved(lambda *q: T.elem(W, o, i, *q), G.comps(H, h), pos)


def full(K, sp, W, inH, outH, o, g, i, e, pos):
    G = sp.G
    x, y = G.comps(outH, g), G.comps(inH, e)
    return sp.moved(lambda *q: sp.subgroup(x, y, lambda n: T.elem(W, n, o, i, *q)), x, pos)
