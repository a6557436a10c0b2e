"""C26: repulsion honours its in-place contract and minimizes the stated energy."""
from .. import interp as I
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """repulse is run abstractly for 0 to 3 steps on grids of unknown elements with an unknown element-wise
transformation, a Euclidean or unknown symmetric metric, an unknown energy function, unknown step size, noise strength and
normalization constant.  The gradient of a loss is an uninterpreted function of the whole loss (as a term of the current
grid), so the grid after s steps is a term that is compared with grid_s = grid_{s-1} - step_size * (gradient of the mean of
energy(d(t(x_i), t(x_j)) / c) over i != j + (steps - s + 1)/steps * alpha * noise_s), noise_s being a fresh normal draw of
the shape of the grid.  The caller's grid is compared before and after, with in-place operation on and off."""
RULE = "result, caller's grid and gradient flags after n steps have the value numbers of n specified descent steps"
NOTE = "Step counts 0 to 3 (thorough: 4) and grids of 2 to 4 elements."

E = "gconv.geometry.repulsion:repulse"


def metric(K, opaque):
    norm = K.lib("torch.linalg.vector_norm")
    if not opaque:
        return I.Builtin("euclidean distance", lambda a, b: K.call(norm, X.ew(lambda x, y: x - y, [a, b], "float32"), dim=-1))
    s = K.lib("torch.sum")
    return I.Builtin("unknown metric", lambda a, b: X.ew(lambda d: T.fun("sqrt", T.fun("exp", d) - 1), [
        K.call(s, X.ew(lambda x, y: (x - y) * (x - y), [a, b], "float32"), dim=-1)]))


def mfun(opaque, n, x, y):
    k = T.fresh(n)
    d = x(k) - y(k)
    s = T.sum_over([k], d * d)
    return T.fun("sqrt", T.fun("exp", s) - 1) if opaque else T.fun("sqrt", s)


def check(ck):
    for steps in range(5 if ck.thorough else 4):
        for n in (2, 3) + ((4,) if ck.thorough or steps == 1 else ()):
            for inplace in (True, False):
                for opts in ("all", "defaults", "norm"):
                    if opts != "all" and (n != 2 or steps > 2):
                        continue
                    one(ck, steps, n, inplace, opts)
    every_pair(ck)
    energy(ck)


def every_pair(ck):
    """For every number of elements, an energy of each pair is computed: with an unknown energy function, fewer
    energies than unordered pairs cannot be the stated loss."""
    def body(K):
        n = K.size("n", lo=2)
        seen = []

        def energy(d):
            seen.append(d.shape)
            return X.ew(lambda x: T.opq("phi", x), [d], "float32")
        K.call(E, K.leaf("grid", (n, tt(2))), steps=1, show_pbar=False, metric_fn=metric(K, False),
               energy_fn=I.Builtin("unknown energy", energy))
        total = ZERO
        for s in seen:
            m = ONE
            for x in s:
                m = m * x
            total = total + m
        sym = [a for a in T.free_atoms(n)]
        for k in (2, 3, 5, 9, 17, 33, 65, 129, 257, 513, 1025, 4097):
            if sym and (len(sym) != 1 or not K.possible({sym[0]: tt(k - 1)})):
                continue
            c = X.norm(T.subst(total, {sym[0]: tt(k - 1)}) if sym else total).const
            if c is None:
                raise X.Incomplete("number of energies: %r" % total)
            kk = k if sym else int(X.norm(n).const)
            K.require(c >= kk * (kk - 1) // 2, "pairs", "every pair of elements contributes to the energy",
                      "%d elements form %d pairs, %s energies are computed" % (kk, kk * (kk - 1) // 2, c))
    ck.case("repulse, any number of elements, energies computed", body, E)


def one(ck, steps, n, inplace, opts):
    def body(K):
        D = tt(2)
        lf = T.Leaf("grid")
        grid = K.leaf("grid", (n, D))
        kw = dict(steps=steps, in_place=inplace, show_pbar=False)
        lr, alpha, c = tt(10), X.num_term(0.001), ONE
        opaque = opts == "all"
        kw["metric_fn"] = metric(K, opaque)
        phi = lambda d: T.inv(d * d)  # noqa: E731
        tr = lambda x: x  # noqa: E731
        if opts == "all":
            a, b, cc = K.positive("lr"), K.positive("alpha"), K.positive("c")
            lr, alpha, c = (X.num_term(v) for v in (a, b, cc))
            phi = lambda d: T.opq("phi", d)  # noqa: E731
            tr = lambda x: T.opq("tr", x)  # noqa: E731
            kw.update(step_size=a, alpha=b, dist_normalization_constant=cc,
                      energy_fn=I.Builtin("unknown energy", lambda d: X.ew(phi, [d], "float32")),
                      transform_fn=I.Builtin("unknown transformation", lambda x: X.ew(tr, [x], "float32")))
        elif opts == "norm":
            cc = K.positive("c")
            c = X.num_term(cc)
            kw["dist_normalization_constant"] = cc
        first = len(K.it.ctx.draw_log)
        r = K.call(E, grid, **kw)
        draws = K.it.ctx.draw_log[first:]
        K.shape(r, (tt(n), D), "result")
        K.require(len(draws) == steps, "noise", "one draw of noise per step", "%d draws in %d steps" % (len(draws), steps))
        for d in draws:
            K.require(d["kind"] == "normal", "noise", "the noise is normally distributed", "it is drawn by %s" % d["kind"])
            K.require(len(d["shape"]) == 2 and X.same_size(d["shape"][0], tt(n)) and X.same_size(d["shape"][1], D), "noise",
                      "every coordinate gets noise of its own", "it has shape %s" % X.show_shape(d["shape"]))
        cur = {(i, j): T.elem(lf, tt(i), tt(j)) for i in range(n) for j in range(2)}

        def at(vals):
            return lambda i, j: _pick(vals, n, tt(i), tt(j))
        for s in range(steps):
            f = at(cur)
            loss = ZERO
            for i in range(n):
                for j in range(n):
                    if i != j:
                        loss = loss + phi(mfun(opaque, D, lambda k, i=i: tr(f(i, k)), lambda k, j=j: tr(f(j, k))) * T.inv(c))
            loss = loss * T.inv(tt(n * (n - 1)))
            wrt = T.lam((tt(n), D), lambda i, j: f(i, j))
            cur = {(i, j): cur[i, j] - lr * (T.opq("grad", loss, wrt, (tt(i), tt(j))) + tt(steps - s) * T.inv(tt(steps)) * alpha *
                                             T.elem(draws[s]["leaf"], tt(i), tt(j))) for i in range(n) for j in range(2)}
        for i in range(n):
            for j in range(2):
                K.eq(r.at(tt(i), tt(j)), cur[i, j], "result[%d, %d] after %d steps" % (i, j, steps), tol=1e-4)
        what = "caller's grid"
        for i in range(n):
            for j in range(2):
                K.eq(grid.at(tt(i), tt(j)), cur[i, j] if inplace else T.elem(lf, tt(i), tt(j)), what + "[%d, %d]" % (i, j),
                     rule="in place" if inplace else "not in place", tol=1e-4)
        K.require(K.attr(r, "requires_grad") is False, "detached", "the result does not track gradients", "it does")
        K.require(K.attr(grid, "requires_grad") is False, "detached", "gradient tracking is off again on the caller's grid",
                  "it is on")
        if not inplace:
            K.require(r.st is not grid.st, "not in place", "the result does not share memory with the caller's grid", "it does")
    ck.case("repulse, %d steps, %d elements, %s, %s" % (steps, n, "in place" if inplace else "copy", opts), body, E)


def _pick(vals, n, i, j):
    r = ZERO
    for a in range(n):
        for b in range(2):
            r = r + T.eq(i, tt(a)) * T.eq(j, tt(b)) * vals[a, b]
    return r


def energy(ck):
    ent = "gconv.geometry.repulsion:columb_energy"

    def body(K, k=None):
        d = K.leaf("d", (K.size("A"), K.size("B")))
        r = K.call(ent, d) if k is None else K.call(ent, d, k=k)
        n = 2 if k is None else k
        K.tensor(r, d.shape, lambda *i: T.inv(_pow(d.at(*i), n)), "energy")
    ck.case("columb_energy", body, ent)
    for k in (1, 2, 3):
        ck.case("columb_energy, k=%d" % k, lambda K, k=k: body(K, k), ent)


def _pow(x, n):
    r = ONE
    for _ in range(n):
        r = r * x
    return r
