"""C05: uniform rotation grids and their cache are valid and isolated."""
from fractions import Fraction

from .. import interp as I
from .. import spec as S
from .. import terms as T
from .. import tensor as X
from ..lib import to_device
from ..terms import tt, ONE
from .c03 import dev, euler_num

EXPLANATION = """so3.uniform_grid is run abstractly.  For every size with a precomputed table and both parameterizations the
returned constants are checked to be unit quaternions / rotation matrices, pairwise different, and row by row the same
rotation.  Histories of two and three calls in one abstract state (request, in-place edit of the returned tensor by fill_,
index assignment, augmented assignment, .data or copy_, request again; store, edit, request; request with cache_grid, edit,
request again; O(3) grids built on SO(3) tables) are run with unknown stored grids and compared as terms.  Grids that are
optimized on the spot are run with the optimizer replaced by an unknown in-place update of the grid of Euler angles; the
result has to represent the rotations of those angles in the requested parameterization.  Unknown parameterizations have to
raise ValueError, whatever the size."""
RULE = "values and aliasing of the returned tensors over call histories; numeric validity of the precomputed constants"
ASSUMPTIONS = ["Grids optimized on the spot are pairwise different (this depends on the optimizer and the random draw)."]
NOTE = "Tables are checked to the four to five digits they are written with."

SO3 = "gconv.geometry.groups.so3:"
O3 = "gconv.geometry.groups.o3:"
CACHE = "gconv.geometry.groups._grid_cache:"
TAIL = {"quat": (4,), "matrix": (3, 3), "euler": (3,)}


def num(t):
    t = X.norm(tt(t))
    if t.const is not None:
        return float(t.const)
    v = T.numeric_const(t)
    if v is None:
        raise X.Incomplete("grid entry is not a constant: %s" % T.brief(t))
    return float(v)


def table(K, t, n, p, what):
    K.shape(t, (tt(n),) + tuple(tt(x) for x in TAIL[p]), what)
    if p == "matrix":
        return [[[num(t.at(tt(i), tt(a), tt(b))) for b in range(3)] for a in range(3)] for i in range(n)]
    return [[num(t.at(tt(i), tt(a))) for a in range(TAIL[p][0])] for i in range(n)]


def qmat(q):
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), w * w - x * x + y * y - z * z, 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), w * w - x * x - y * y + z * z]]


def valid(K, rows, p, what):
    mats = []
    for i, r in enumerate(rows):
        if p == "quat":
            n2 = sum(x * x for x in r)
            K.require(abs(n2 - 1) < 2e-3, "unit", "%s: element %d is a unit quaternion" % (what, i), "its squared norm is %.6g" % n2)
            mats.append(qmat(r))
        else:
            m = r
            dev = max(abs(sum(m[a][c] * m[b][c] for c in range(3)) - (a == b)) for a in range(3) for b in range(3))
            det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                   + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
            K.require(dev < 2e-3 and abs(det - 1) < 5e-3, "rotation", "%s: element %d is a rotation matrix" % (what, i),
                      "its rows have inner products off by %.2g, its determinant is %.3g" % (dev, det))
            mats.append(m)
    for i in range(len(mats)):
        for j in range(i):
            d = max(abs(mats[i][a][b] - mats[j][a][b]) for a in range(3) for b in range(3))
            K.require(d > 1e-2, "distinct", "%s: elements %d and %d are different rotations" % (what, j, i),
                      "their matrices differ by at most %.2g" % d)
    return mats


def no_repulse(it, f):
    """Grid optimization as an unknown in-place update of the grid."""
    def fn(*args, **kw):
        v = it.bind_args(f, args, kw)
        names = f.info.params
        g = v[names[0]]
        ip = it.truth(v["in_place"]) if "in_place" in v else False
        lf = T.Leaf("optimized")
        new = X.mk(g.shape, lambda *i: T.elem(lf, *i), g.dtype, g.device)
        if ip:
            X.write(g, new, "repulse")
            return g
        return new
    return I.Builtin("repulse", fn)


def any_euler(it, f):
    def fn(*args, **kw):
        v = it.bind_args(f, args, kw)
        n = v[f.info.params[0]]
        n = n if isinstance(n, tuple) else (n,)
        lf = T.Leaf("random angles")
        return X.mk(tuple(X.num_term(x) for x in n) + (tt(3),), lambda *i: T.elem(lf, *i),
                    device=to_device(it, v.get("device")))
    return I.Builtin("random_euler", fn)


def any_angles(it, f):
    """Euler angles as an unknown function of the matrix."""
    def fn(*args, **kw):
        R = it.bind_args(f, args, kw)[f.info.params[0]]
        return X.mk(R.shape[:-2] + (tt(3),), lambda *i: T.opq("angle", i[-1], *[
            R.at(*i[:-1], tt(a), tt(b)) for a in range(3) for b in range(3)]), R.dtype, R.device)
    return I.Builtin("matrix_to_euler", fn)


def exact_matrix(it, f):
    """Matrices of Euler angles, as stated by C03."""
    def fn(*args, **kw):
        g = it.bind_args(f, args, kw)[f.info.params[0]]
        return X.mk(g.shape[:-1] + (tt(3), tt(3)), lambda *i: S.by_index(i[-2], [S.by_index(i[-1], r) for r in S.euler(
            *[g.at(*i[:-2], tt(k)) for k in range(3)])]), g.dtype, g.device)
    return I.Builtin("euler_to_matrix", fn)


STUBS = {"gconv.geometry.repulsion.repulse": no_repulse, "gconv.geometry.groups.so3.random_euler": any_euler}


def same(K, got, shape, fn, what, rule):
    K.tensor(got, shape, fn, what, rule=rule, enum=0)


def edits(K):
    """Ways to change a tensor in place."""
    def fill(t):
        K.method(t, "fill_", 7)

    def index(t):
        K.it.setitem(t, 0, 7)

    def scale(t):
        K.method(t, "mul_", 3)

    def copy(t):
        K.method(t, "copy_", X.mk(t.shape, lambda *i: tt(5)))

    def view(t):
        K.method(K.method(t, "view", -1), "fill_", 2)
    return [("fill_", fill), ("index assignment", index), ("mul_", scale), ("copy_", copy), ("a view", view)]


def check(ck):
    for n in range(1, 25):
        tables(ck, n)
    for n in (1, 2, 3, 8, 24):
        for p in ("quat", "matrix"):
            for k in range(5 if n in (2, 24) else 1):
                isolated(ck, n, p, k)
    for n in (2, 5):
        for k in range(5):
            o3_isolated(ck, n, k)
    for p in ("quat", "matrix", "Quat", "MATRIX"):
        for n in (1, 2, 3, 25, 26):
            optimized(ck, n, p)
    for p in ("euler", "Euler"):
        optimized(ck, None, p)
    for p in ("quat", "matrix", "euler"):
        for n in (25, 31):
            stored(ck, n, p, False)
            cached(ck, n, p)
        stored(ck, 3, p, True)
    stored(ck, 2, "euler", False)
    cached(ck, 2, "euler")
    for p in ("rpy", "", "quaternion", "mat"):
        for n in (1, 2, 24, 25):
            unknown(ck, n, p)
    default(ck)


def tables(ck, n):
    ent = SO3 + "uniform_grid"

    def body(K):
        mats = {}
        for p in ("quat", "matrix"):
            t = K.call(ent, n, p, show_pbar=False)
            mats[p] = valid(K, table(K, t, n, p, "%s grid" % p), p, "%s grid of %d" % (p, n))
        for i in range(n):
            a, b = mats["quat"][i], mats["matrix"][i]
            d = max(abs(a[x][y] - b[x][y]) for x in range(3) for y in range(3))
            K.require(d < 2e-3, "same rotations", "element %d of the quaternion and the matrix grid of %d agree" % (i, n),
                      "their rotation matrices differ by %.3g" % d)
    ck.case("precomputed grids of %d" % n, body, ent, stubs=STUBS)


def isolated(ck, n, p, k):
    ent = SO3 + "uniform_grid"

    def body(K):
        name, edit = edits(K)[k]
        a = K.call(ent, n, p, show_pbar=False)
        before = table(K, a, n, p, "first result")
        edit(a)
        b = K.call(ent, n, p, show_pbar=False)
        after = table(K, b, n, p, "second result")
        K.require(before == after, "isolation", "a request after the first result was changed by %s returns the same grid" % name,
                  "it starts with %s instead of %s" % (after[0], before[0]))
        edit(b)
        c = table(K, K.call(ent, n, p, show_pbar=False), n, p, "third result")
        K.require(before == c, "isolation", "a request after the second result was changed by %s returns the same grid" % name,
                  "it starts with %s instead of %s" % (c[0], before[0]))
    ck.case("request, edit, request: %d, %s, edit %d" % (n, p, k), body, ent, stubs=STUBS)


def o3_isolated(ck, n, k):
    ent = O3 + "uniform_grid"

    def body(K):
        name, edit = edits(K)[k]
        for size in ((n, 0), (n, n - 1), (0, n)):
            for only in (False, True):
                def get():
                    t = K.call(ent, size, only)
                    return t, [num(x) for x in entries(t)]
                t, before = get()
                edit(t)
                _, after = get()
                K.require(before == after, "isolation", "the O(3) grid of %s after the first result was changed by %s" % (size, name),
                          "it changed")
                m = table(K, K.call(SO3 + "uniform_grid", n, "matrix", show_pbar=False), n, "matrix", "SO(3) grid")
                valid(K, m, "matrix", "SO(3) grid after editing an O(3) grid")
    ck.case("O(3) request, edit, request: %d, edit %d" % (n, k), body, ent, stubs=STUBS)


def entries(t):
    import itertools
    for i in itertools.product(*[range(int(X.norm(s).const)) for s in t.shape]):
        yield t.at(*[tt(x) for x in i])


def optimized(ck, n, p):
    """Uncached grids represent the rotations of the optimized Euler angles."""
    ent = SO3 + "uniform_grid"
    low = p.lower()
    cached_ = low != "euler" and n <= 24

    def body(K, n=n):
        if n is None:
            n = K.size("N")
            t = K.call(ent, K.int(n), p, show_pbar=False, steps=3)
        else:
            t = K.call(ent, n, p, show_pbar=False, steps=3)
        K.shape(t, (tt(n),) + tuple(tt(x) for x in TAIL[low]), "grid")
        if cached_:
            valid(K, table(K, t, n, low, "grid"), low, "grid")
            return
        lf = T.Leaf("optimized")
        i = K.fresh(tt(n))
        ang = [T.elem(lf, i, tt(c)) for c in range(3)]
        # away from the poles, where the third angle is undetermined
        c = T.fun("cos", ang[1])
        away = (T.lt(T.const(Fraction(1, 1000)), ONE - c * c),)
        k = 1
        for x in TAIL[low]:
            k *= x
        if low == "matrix":
            got = [t.at(i, tt(a), tt(b)) for a in range(3) for b in range(3)]
            rot = lambda v: [v[0:3], v[3:6], v[6:9]]  # noqa: E731
        else:
            got = [t.at(i, tt(a)) for a in range(k)]
            rot = qmat if low == "quat" else (lambda v: euler_num(*v))
        K.holds(got + ang, lambda v: dev(rot(v[:k]), euler_num(*v[k:])), "rotation of an element", tol=1e-3,
                want="the rotation of the optimized angles", assume=away, vacuous=n not in (25, 26))
        if low == "quat":
            q = [t.at(i, tt(a)) for a in range(4)]
            K.holds(q, lambda v: abs(sum(x * x for x in v) - 1), "norm of an element", tol=1e-3, want="1")
    ck.case("grid of %s as %s" % (n or "any size", p), body, ent, stubs=STUBS if n else dict(STUBS, **{
        "gconv.geometry.groups.so3.euler_to_matrix": exact_matrix}))


def stored(ck, n, p, overwrite):
    ent = CACHE + "save_grid"

    def body(K):
        sh = (tt(n),) + tuple(tt(x) for x in TAIL[p])
        for k, (name, edit) in enumerate(edits(K)[:3]):
            lf = T.Leaf("stored%d" % k)
            g = K.leaf("stored%d" % k, sh)
            kw = {"overwrite": True} if overwrite or k else {}
            K.call(ent, g, "so3", p, **kw)
            a = K.call(SO3 + "uniform_grid", n, p, show_pbar=False)
            same(K, a, sh, lambda *i: T.elem(lf, *i), "grid requested after storing one", "stored")
            edit(a)
            b = K.call(SO3 + "uniform_grid", n, p, show_pbar=False)
            same(K, b, sh, lambda *i: T.elem(lf, *i), "grid requested after the last result was changed by %s" % name, "isolation")
            for q in TAIL:
                if q != p and (n > 24 or q == "euler"):
                    continue
                if q != p:
                    o = K.call(SO3 + "uniform_grid", n, q, show_pbar=False)
                    valid(K, table(K, o, n, q, "grid"), q, "%s grid after storing a %s grid" % (q, p))
    ck.case("store %d as %s%s, request" % (n, p, ", overwriting" if overwrite else ""), body, ent, stubs=STUBS)


def cached(ck, n, p):
    ent = SO3 + "uniform_grid"

    def body(K):
        sh = (tt(n),) + tuple(tt(x) for x in TAIL[p])
        a = K.call(ent, n, p, show_pbar=False, cache_grid=True)
        K.shape(a, sh, "first result")
        first = K.call(K.lib("torch.clone"), a)
        name, edit = edits(K)[0]
        edit(a)
        b = K.call(ent, n, p, show_pbar=False)
        same(K, b, sh, lambda *i: first.at(*i), "second result", "isolation")
        for q in TAIL:
            if q != p:
                o = K.call(ent, n, q, show_pbar=False)
                K.shape(o, (tt(n),) + tuple(tt(x) for x in TAIL[q]), "%s grid after caching a %s grid" % (q, p))
    ck.case("cache %d as %s, edit, request" % (n, p), body, ent, stubs=dict(STUBS, **{
        "gconv.geometry.groups.so3.matrix_to_euler": any_angles}))


def unknown(ck, n, p):
    ent = SO3 + "uniform_grid"

    def body(K):
        for kw in ({}, {"cache_grid": True}):
            K.expect_raise("ValueError", ent, n, p, show_pbar=False, what="parameterization %r is rejected" % p, **kw)
    ck.case("unknown parameterization %r, %d" % (p, n), body, ent, stubs=STUBS)


def default(ck):
    ent = SO3 + "uniform_grid"

    def body(K):
        a = table(K, K.call(ent, 5), 5, "quat", "grid")
        valid(K, a, "quat", "grid")
    ck.case("default parameterization", body, ent, stubs=STUBS)
