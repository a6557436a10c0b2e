"""C11: a layer returns the element grid its output is defined on."""
import math

from .. import interp as I
from .. import ready as R
from .. import slots as SL
from .. import terms as T
from .. import tensor as X
from ..ready import Group
from ..terms import tt, ZERO

EXPLANATION = """Each of the twelve ready-made layers is constructed abstractly with an unknown reference grid (and with its
default one), its kernel's forward is replaced by one that records the grids it is asked for and returns unknown weights, and
the layer is called once and twice with unknown inputs, with and without output grid, with output permutation on, off and at
its default.  The returned grid has to equal, as a term, the grid the kernel was asked for; with permutation off it has to
equal the given grid or the documented default; with permutation on, ret[h] * H[h]^-1 has to be one valid group element that
does not depend on h and that comes from random draws made in that very call.  The stored reference grid is compared before
and after."""
RULE = "returned grid = grid the kernel was sampled for = (one random element) * (given or default grid)"

NAMES = {"lifting": "GLiftingConv", "separable": "GSeparableConv", "full": "GConv"}
MOD = "gconv.gnn.modules:"
GROUPS = ("SE2", "E2", "SE3", "E3")
MODES = [{"default": [2, 3, 2, 2, 3, 2, 2, 3, 2]}, {"default": [3, 2, 2, 3, 2, 2, 3, 1, 2]}]


def elements(K, G, name, n):
    """n unknown valid elements of the group."""
    n = tt(n)
    s, lf = T.Leaf(name + ".coeff", sign=True), T.Leaf(name + ".rot", rot=G.d == 3)
    if G.name == "SE2":
        return K.leaf(name, (n, 1))
    if G.name == "E2":
        fn = lambda i, k: T.ite(T.eq(k, ZERO), T.elem(s, i), T.elem(lf, i))  # noqa: E731
    elif G.name == "SE3":
        fn = lambda i, a, b: T.elem(lf, i, 3 * a + b)  # noqa: E731
    else:
        fn = lambda i, k: T.ite(T.eq(k, ZERO), T.elem(s, i), T.elem(lf, i, k - 1))  # noqa: E731
    t = X.mk((n,) + tuple(tt(e) for e in G.es), fn, origin=("arg", name))
    t.name = name
    return t


def quotient(G, x, y):
    """x y^-1 as numbers: (coefficient, rotation matrix), and how far it is from a group element."""
    def split(v):
        if G.name in ("SE2", "E2"):
            c = v[0] if G.two else 1.0
            a = v[-1]
            return c, [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]
        c = v[0] if G.two else 1.0
        m = v[1:] if G.two else v
        return c, [m[0:3], m[3:6], m[6:9]]
    (c, A), (s, B) = split(x), split(y)
    n = len(A)
    return [c * s] + [sum(A[i][k] * B[j][k] for k in range(n)) for i in range(n) for j in range(n)]


def is_element(G, q):
    n = G.d
    m = [q[1 + n * i:1 + n * (i + 1)] for i in range(n)]
    d = max(abs(sum(m[a][k] * m[b][k] for k in range(n)) - (a == b)) for a in range(n) for b in range(n))
    if n == 2:
        det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    else:
        det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
               + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    return max(d, abs(det - 1), abs(abs(q[0]) - 1))


class Made:
    """A ready-made layer whose kernel records what it is asked for."""

    def __init__(self, K, g, kind, own=True, **kw):
        G = self.G = Group(g)
        self.K, self.kind = K, kind
        self.cig, self.co = K.size("Ig"), K.size("Og")
        self.tol = 1e-4 if own else 5e-3      # the stored tables are rounded to four digits
        self.ent = MOD + NAMES[kind] + g
        if own:
            n = (K.size("Nr", lo=1), K.size("Nm", lo=1)) if G.two else K.size("N", lo=1)
            kw["grid_H"] = G.grid(K, "gridH", n)
            if G.two and kind != "lifting":
                kw["group_kernel_size"] = (2, 2)
                kw.setdefault("group_rotation_sampling_width", K.positive("w1"))
                kw.setdefault("group_reflection_sampling_width", K.positive("w2"))
            elif kind != "lifting":
                kw.setdefault("group_sampling_width", K.positive("w"))
        elif G.two and kind != "lifting":
            kw["group_kernel_size"] = (3, 2)
        self.layer = K.call(self.ent, K.int(self.cig), K.int(self.co), 3, **kw)
        self.kernel = K.attr(self.layer, "kernel")
        self.asked = []
        self.kernel.attrs["forward"] = I.Builtin("kernel weights", self.weights)
        es = G.es
        self.stored = [(n, b, b.lam()) for n, b in SL.buffers(self.kernel)]
        bs = [b for n, b in SL.buffers(self.kernel) if n.endswith("grid_H")] or \
            [b for n, b in SL.buffers(self.kernel) if b.ndim == 1 + len(es) and all(
                X.same_size(x, tt(c)) for x, c in zip(b.shape[1:], es))]
        K.require(len(bs) == 1, "reference-grid", "the kernel has one registered reference grid", "it has %d" % len(bs))
        ref = bs[0]
        r = ref.reader()
        self.ref = X.mk(ref.shape, lambda *i: r(i))

    def weights(self, *grids):
        self.asked.append(tuple(X.mk(g.shape, (lambda r: lambda *i: r(i))(g.reader())) for g in grids))
        d = self.G.d
        tag = str(len(self.asked))
        k3 = (tt(3),) * d
        if self.kind == "lifting":
            return X.leaf_tensor("KW" + tag, (self.co, grids[0].shape[0], self.cig) + k3)
        a, b = grids
        if self.kind == "full":
            return X.leaf_tensor("KW" + tag, (self.co, b.shape[0], self.cig, a.shape[0]) + k3)
        return (X.leaf_tensor("KH" + tag, (self.co, b.shape[0], self.cig, a.shape[0]) + (tt(1),) * d),
                X.leaf_tensor("KW" + tag, (self.co, b.shape[0], tt(1)) + k3))

    def run(self, tag, out, permute, how="position"):
        """One call; the returned grid is compared with what the property says."""
        K, G, d = self.K, self.G, self.G.d
        ns = tuple(K.size("X%d" % j, conc=4 + j) for j in range(d))
        B = K.size("B")
        args, base = [], None
        if self.kind == "lifting":
            args = [K.leaf("x" + tag, (B, self.cig) + ns)]
        else:
            P = K.size("P")
            inH = elements(K, G, "inH" + tag, P)
            args = [K.leaf("x" + tag, (B, self.cig, P) + ns), inH]
        given = elements(K, G, "out" + tag, K.size("Q")) if out else None
        if given is not None:
            base = given
        elif self.kind == "lifting" or G.two:
            base = self.ref
        else:
            base = inH
        before = len(K.it.ctx.draw_log)
        n = len(self.asked)
        if out and how == "position":
            r = K.call(self.layer, *args, given)
        elif out:
            name = {"lifting": "H"}.get(self.kind, "H_out" if G.two else "out_H")
            r = K.call(self.layer, *args, **{name: given})
        else:
            r = K.call(self.layer, *args)
        K.require(isinstance(r, tuple) and len(r) == 2, "type", "the result is (features, grid)", "it is %s" % (r,))
        y, h = r
        K.shape(h, base.shape, "returned grid")
        if len(self.asked) > n + 1:
            raise X.Incomplete("the kernel is sampled in several parts")
        K.require(bool(self.asked), "sampled", "the kernel is sampled for the call", "it is not")
        # a kernel that is kept has to have been sampled for this grid: the comparison below is with the last sampling
        ask = self.asked[-1]
        K.tensor(h, ask[-1].shape, lambda *i: ask[-1].at(*i), "returned grid, against the grid the kernel was sampled for",
                 rule="sampled", enum=0)
        if self.kind != "lifting":
            K.tensor(ask[0], inH.shape, lambda *i: inH.at(*i), "input grid the kernel was sampled for", rule="sampled", enum=0)
        K.shape(y, (B, self.co, base.shape[0]) + tuple(X.norm(s - 2) for s in ns), "features")
        draws = K.it.ctx.draw_log[before:]
        i, j = K.fresh(base.shape[0]), K.fresh(base.shape[0])
        if not permute:
            K.tensor(h, base.shape, lambda *i: base.at(*i), "returned grid, permutation off", rule="grid", enum=0)
        else:
            a, b = G.comps(h, i), G.comps(base, i)
            c, e = G.comps(h, j), G.comps(base, j)
            m = len(a)
            K.require(len(draws) > 0, "random", "the permuting element is drawn in this call", "nothing is drawn")
            want = "one group element times the grid"

            def one(v):
                p, q = quotient(G, v[:m], v[m:2 * m]), quotient(G, v[2 * m:3 * m], v[3 * m:])
                return max([abs(x - y) for x, y in zip(p, q)] + [is_element(G, p)])
            K.holds(a + b + c + e, one, "returned grid, permutation on", rule="permuted", want=want, tol=self.tol, trials=12)
            # the element must depend on what was drawn
            leaves = {x["leaf"] for x in draws}
            used = T.collect(T.addmany([x * x for x in a]), lambda z: z.kind == "elem" and z.args[0] in leaves)
            K.require(bool(used), "random", "the permuting element depends on the draw of this call", "it does not")
            if G.two:
                used0 = T.collect(a[0], lambda z: z.kind == "elem" and z.args[0] in leaves)
                K.require(bool(used0), "random", "the sign of the permuting element is random", "it is not")
        for (nm, b, l0) in self.stored:
            l1 = b.lam()
            if l1 is not l0:
                K.tensor(b, b.shape, lambda *i: T.apply_lam(l0, i) if isinstance(l0, T.Lam) else l0,
                         "buffer %s after the call" % nm, rule="stored grid", enum=0)
            else:
                K.good()
        return h


def check(ck):
    for g in GROUPS:
        for kind in NAMES:
            ent = MOD + NAMES[kind] + g
            for permute in (False, True, None):
                for out in (False, True):
                    def body(K, g=g, kind=kind, permute=permute, out=out):
                        kw = {} if permute is None else {"permute_output_grid": permute}
                        m = Made(K, g, kind, **kw)
                        fix(m)
                        m.run("a", out, permute is not False, "keyword" if permute else "position")
                    ck.case("%s%s, permutation %s, output grid %s" % (
                        NAMES[kind], g, {None: "default", True: "on", False: "off"}[permute], "given" if out else "default"),
                        body, ent, modes=MODES)
                def twice(K, g=g, kind=kind, permute=permute, ev=False):
                    kw = {} if permute is None else {"permute_output_grid": permute}
                    m = Made(K, g, kind, **kw)
                    fix(m)
                    if ev:
                        K.method(m.layer, "eval")
                    m.run("a", False, permute is not False)
                    m.run("b", False, permute is not False)
                    m.run("c", True, permute is not False)
                    m.run("d", False, permute is not False)
                if permute is not None:
                    ck.case("%s%s, four calls, permutation %s" % (NAMES[kind], g, "on" if permute else "off"), twice, ent,
                            modes=MODES)
                    ck.case("%s%s, four calls in evaluation mode, permutation %s" % (NAMES[kind], g, "on" if permute else "off"),
                            lambda K, f=twice: f(K, ev=True), ent, modes=MODES)

            def own(K, g=g, kind=kind):
                m = Made(K, g, kind, own=False)
                m.run("a", False, True)
                m.run("b", True, True)
            ck.case("%s%s, default reference grid" % (NAMES[kind], g), own, ent, stubs=R.sampler_stubs(), modes=MODES)


def fix(m):
    """The unknown reference grid holds valid elements."""
    G, K = m.G, m.K
    for n, b in SL.buffers(m.kernel):
        if b.ndim == 1 + len(G.es) and len(b.shape) == m.ref.ndim and all(X.same_size(x, y) for x, y in zip(b.shape, m.ref.shape)):
            v = elements(K, G, "gridH", b.shape[0])
            b.st.replace(lambda *i: v.at(*i))
            m.ref = v
    m.stored = [(n, b, b.lam()) for n, b in SL.buffers(m.kernel)]
