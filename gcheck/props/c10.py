"""C10: invalid layer configurations are rejected, valid ones accepted."""
import ast
import os

from .. import layers as LY
from .. import slots as SL
from .. import interp as I
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ZERO, ONE

EXPLANATION = """Every constructor is run abstractly with unknown integers for groups, channel counts, stride and subgroup
sizes: on every path that ends in ValueError the specified condition for rejection must hold, and on every path that ends
normally it must not.  Text options are enumerated: the valid ones, near misses, and every text literal that occurs in the
package's layer and interpolation code, so that no value the code treats specially is left out.  The twelve ready-made
layers are constructed with fixed small options on both sides of every condition."""
RULE = "constructor raises ValueError exactly on the specified combinations, on every path"

BASE = [(k, d) for d in (2, 3) for k in ("lifting", "separable", "full")]
NAMES = {"lifting": "GLiftingConv%dd", "separable": "GSeparableConv%dd", "full": "GConv%dd"}
KERN = {"lifting": "GLiftingKernel", "separable": "GSeparableKernel", "full": "GKernel"}
MODES = ("zeros", "reflect", "replicate", "circular")


def literals(root, sub):
    """Short text literals in the code below a directory."""
    out = set()
    for d, _, fs in os.walk(os.path.join(root, sub)):
        if "tests" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except (OSError, SyntaxError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) <= 20 \
                            and all(c.isalnum() or c in "_- +/" for c in n.value):
                        out.add(n.value)
    return out


def mk_kernel(K, kind, d):
    sl = SL.Slots((2,), d)
    ks = tuple(K.size("K%d" % j) for j in range(d))
    N = K.size("N")
    kw = dict(inverse_H=sl.b("inverse_H"), left_apply_to_Rn=sl.b("left_apply_to_Rn"), sample_Rn=sl.b("sample_Rn"))
    if kind != "lifting":
        kw.update(left_apply_to_H=sl.b("left_apply_to_H"), sample_H=sl.b("sample_H"))
    kst = tuple(K.int(s) for s in ks)
    k = K.call(LY.KER + KERN[kind], 1, 1, kst, (K.int(N),), K.leaf("gridH", (N, 2)), K.leaf("gridRn", ks + (d,)), **kw)
    return k, kst, K.int(N)


def outcome(K, res, invalid, vals, what):
    """The outcome on this path against the specified condition on these terms (None: unconditionally)."""
    kind, v = res
    if kind == "raise" and v.val.name not in ("ValueError",):
        K.raised(v)
        return
    if not vals:
        bad = invalid()
        if kind == "raise":
            K.require(bad, "rejected", what, "valid, but ValueError is raised: %s" % (v.val.args,),
                      where="%s:%d %s" % v.where if v.where else None)
        else:
            K.require(not bad, "accepted", what, "invalid, but no ValueError is raised")
        return
    if kind == "raise":
        K.holds(vals, lambda x: 0 if invalid(*x) else 1, what + ": a ValueError", rule="rejected", want="an invalid value",
                vacuous=True, trials=40)
    else:
        K.holds(vals, lambda x: 1 if invalid(*x) else 0, what + ": accepted", rule="accepted", want="a valid value",
                vacuous=True, trials=40)


def check(ck):
    for kind, d in BASE:
        ent = LY.MOD + NAMES[kind] % d

        def make(K, kind=kind, d=d, ci=2, co=2, gks=None, ent=ent, **kw):
            k, ks, N = mk_kernel(K, kind, d)
            return K.try_call(ent, ci, co, ks, N if gks is None else gks, k, **kw)

        def chan(K, make=make):
            g = T.sym("groups", is_int=True)
            ci, co = K.size("Cin"), K.size("Cout")
            r = make(K, ci=K.int(ci), co=K.int(co), groups=K.int(g))
            outcome(K, r, lambda a, b, c: a <= 0 or b % a != 0 or c % a != 0, [g, ci, co], "groups and channels")
        ck.case("%s: groups and channel counts" % ent[len(LY.MOD):], chan, ent, fallback=False)

        def sizes(K, make=make, n=2):
            xs = [T.sym("s%d" % j, is_int=True) for j in range(n)]
            r = make(K, gks=tuple(K.int(x) for x in xs))
            outcome(K, r, lambda *v: any(x < 0 for x in v) or sum(v) <= 0, xs, "subgroup sizes")
        for n in (1, 2, 3):
            ck.case("%s: %d subgroup sizes" % (ent[len(LY.MOD):], n), lambda K, f=sizes, n=n: f(K, n=n), ent,
                    fallback=False)

        for g, ci, co in [(g, a, b) for g in (-2, -1, 0, 1, 2, 3) for a in (1, 2, 3, 4, 6) for b in (1, 2, 4, 6)]:
            def fixed(K, make=make, g=g, ci=ci, co=co):
                r = make(K, ci=ci, co=co, groups=g)
                outcome(K, r, lambda: g <= 0 or ci % g != 0 or co % g != 0, [],
                        "in_channels=%d, out_channels=%d, groups=%d" % (ci, co, g))
            if kind == "lifting" or g in (-1, 0, 2):
                ck.case("%s: groups %d of %d -> %d" % (ent[len(LY.MOD):], g, ci, co), fixed, ent)
        lits = literals(ck.root, "gconv/gnn")
        for p in sorted({"same", "valid"} | lits | {"Same", "full", "zeros", "", "SAME", "same ", "0"}):
            def pad(K, make=make, p=p):
                outcome(K, make(K, padding=p), lambda: p not in ("same", "valid"), [], "padding=%r" % p)
            ck.case("%s: padding %r" % (ent[len(LY.MOD):], p), pad, ent)
        for m in sorted(set(MODES) | lits | {"Zeros", "constant", "symmetric", "", "wrap", "reflection", "ZEROS"}):
            def mode(K, make=make, m=m):
                outcome(K, make(K, padding_mode=m), lambda: m not in MODES, [], "padding_mode=%r" % m)
            ck.case("%s: padding_mode %r" % (ent[len(LY.MOD):], m), mode, ent)

        def strided(K, make=make, d=d, p="same"):
            st = [K.size("S%d" % j) for j in range(d)]
            r = make(K, stride=tuple(K.int(s) for s in st), padding=p)
            outcome(K, r, lambda *v: p == "same" and any(x != 1 for x in v), st, "padding=%r with a stride" % p)

        def strided1(K, make=make, p="same"):
            s = K.size("S")
            r = make(K, stride=K.int(s), padding=p)
            outcome(K, r, lambda v: p == "same" and v != 1, [s], "padding=%r with a stride" % p)
        for p in ("same", "valid"):
            ck.case("%s: padding %r, strides by axis" % (ent[len(LY.MOD):], p), lambda K, f=strided, p=p: f(K, p=p), ent)
            ck.case("%s: padding %r, one stride" % (ent[len(LY.MOD):], p), lambda K, f=strided1, p=p: f(K, p=p), ent)

        def fine(K, make=make, m="zeros", p=0, bias=False, dil=1, st=1):
            g, a, b = K.size("G"), K.size("A"), K.size("B")
            r = make(K, ci=K.int(g * a), co=K.int(g * b), groups=K.int(g), padding_mode=m, padding=p, bias=bias,
                     dilation=K.int(K.size("D")), stride=1 if p == "same" else K.int(K.size("S")))
            outcome(K, r, lambda: False, [], "valid options")
        for m in MODES:
            for p in ("same", "valid", 0, 2, "any"):
                for bias in (False, True):
                    ck.case("%s: valid options, %s, padding %s%s" % (ent[len(LY.MOD):], m, p, ", bias" if bias else ""),
                            lambda K, f=fine, m=m, p=p, bias=bias: f(
                                K, m=m, p=K.int(T.sym("pad", is_int=True, lo=0)) if p == "any" else p, bias=bias), ent)
    readymade(ck)
    sampling(ck)


READY = {
    "GLiftingConvSE2": 2, "GSeparableConvSE2": 2, "GConvSE2": 2, "GLiftingConvSE3": 3, "GSeparableConvSE3": 3, "GConvSE3": 3,
    "GLiftingConvE2": 2, "GSeparableConvE2": 2, "GConvE2": 2, "GLiftingConvE3": 3, "GSeparableConvE3": 3, "GConvE3": 3,
}


def group_of(name):
    return name[name.index("Conv") + 4:]


def given_grid(K, name, n=3):
    """A reference grid of unknown elements of the layer's group (rotations first)."""
    from . import c12
    return c12.Group(group_of(name)).grid(K, "gridH", n)


def readymade(ck):
    cases = []
    for g, ci, co in ((0, 2, 2), (-1, 2, 2), (-2, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 4), (2, 4, 2), (1, 3, 2), (3, 3, 3)):
        cases.append(("groups %d of %d -> %d" % (g, ci, co), dict(ci=ci, co=co, groups=g),
                      g <= 0 or ci % g != 0 or co % g != 0))
    for p in ("foo", "full", "zeros", "same", "valid", ""):
        cases.append(("padding %r" % p, dict(padding=p), p not in ("same", "valid")))
    for m in ("foo", "constant", "border") + MODES:
        cases.append(("padding_mode %r" % m, dict(padding_mode=m), m not in MODES))
    for s, bad in ((1, False), (2, True), (3, True)):
        cases.append(("padding 'same', stride %d" % s, dict(padding="same", stride=s), bad))
    cases.append(("stride 2, padding 'valid'", dict(padding="valid", stride=2), False))
    for name in READY:
        for title, kw, bad in cases:
            def body(K, name=name, kw=kw, bad=bad):
                kw = dict(kw)
                ci, co = kw.pop("ci", 2), kw.pop("co", 2)
                grid = given_grid(K, name)
                from . import c12
                r = K.try_call("gconv.gnn:" + name, ci, co, 3, grid_H=grid, **c12.size_args(group_of(name), name), **kw)
                outcome(K, r, lambda: bad, [], ", ".join("%s=%r" % x for x in kw.items()))
            ck.case("%s: %s" % (name, title), body, "gconv.gnn:" + name)


def sampling(ck):
    lits = literals(ck.root, "gconv/geometry")
    for g in ("so2", "so3", "o2", "o3"):
        ent = "gconv.geometry.groups.%s:grid_sample" % g
        for m in sorted(lits | {"rbf", "nearest", "RBF", "bilinear", "linear", "", "Nearest", "barycentric"}):
            def body(K, g=g, m=m, ent=ent):
                n, q, c = K.size("N", lo=1), K.size("Q"), K.size("C")
                if g == "so2":
                    args = [K.leaf("q", (q, 1)), K.leaf("s", (n, c)), K.leaf("g", (n, 1))]
                    kw = {}
                elif g == "so3":
                    from .. import spec as S
                    args = [S.rotmats(K, "q", (q,))[0], K.leaf("s", (n, c)), S.rotmats(K, "g", (n,))[0]]
                    kw = {}
                else:
                    from .. import spec as S
                    el = S.o2_elems if g == "o2" else S.o3_elems
                    r = K.size("R", lo=1)
                    args = [el(K, "q", (q,))[0], K.leaf("s", (n + r, c)), el(K, "g", (n + r,))[0]]
                    kw = {"signal_grid_size": (K.int(n), K.int(r))}
                outcome(K, K.try_call(ent, *args, mode=m, **kw), lambda: m not in ("rbf", "nearest"), [], "mode=%r" % m)
            ck.case("%s.grid_sample mode %r" % (g, m), body, ent)
