"""C28: copies and pickles of modules are complete and independent."""
from .. import catalogue as CT
from .. import interp as I
from .. import ready as R
from .. import slots as SL
from .. import tensor as X
from .. import terms as T
from ..terms import tt, ZERO
from .c21 import tensors_of
from .c22 import MODES

EXPLANATION = """The construction and one call of every module of the catalogue (gcheck/catalogue.py) are interpreted abstractly; then the
object graph of the module is copied the way copy.deepcopy and a pickle round trip copy it (functions by reference, bound methods with
their object, tensors with their content, tensors in the middle of a gradient graph refused, functions and classes found again by their
qualified name or refused).  Afterwards every parameter and buffer of the original gets unknown other content, the copy has to keep its
own, and the copy made by deepcopy is called
with the same arguments: its result has to have the value number of the original's result before the change, so that nothing it uses
(a closure, a bound method, a shared tensor, a table) still belongs to the original.  The text shown for a module is computed as well."""
RULE = "result of the copy after changing the original = result of the original before; no tensor shared; every object can be copied and pickled"


def own_weights(K, m, kind, d):
    """The layer's kernel yields unknown weights computed from its own parameters."""
    ker = K.attr(m, "kernel")
    ps = [t for _, t in SL.params(ker)]

    def w(*grids):
        k3, two = (tt(3),) * d, tt(2)
        n = [g.shape[0] for g in grids]
        sh = {"lifting": [(two, n[0], two) + k3], "full": [(two, n[-1], two, n[0]) + k3],
              "separable": [(two, n[-1], two, n[0]) + (T.ONE,) * d, (two, n[-1], T.ONE) + k3]}[kind]
        out = []
        for j, s in enumerate(sh):
            lf = T.Leaf("KW%d" % j)
            own = [t.at(*[ZERO] * t.ndim) for t in ps]
            out.append(X.mk(s, lambda *i, lf=lf, own=own: sum((o for o in own), T.elem(lf, *i)), device=grids[0].device,
                            grad=frozenset().union(*[t.grad_deps for t in ps])))
        return tuple(out) if len(out) > 1 else out[0]
    ker.attrs["forward"] = I.Builtin("kernel weights", w)
    return ker


def content(t):
    return t.lam() if t.ndim else t.at()


def contents(r):
    return [(n, content(t), t.shape, t.dtype) for n, t in tensors_of(r)]


def copied(K, item, how):
    A = CT.Args(K)
    f, a, kw = item.make(A)
    m = A.module
    layer = A.layer_kind
    ker = own_weights(K, m, *layer) if layer else None
    random = item.random
    r = K.call(m, *a, **kw)
    want = None if random or how == "pickle" else contents(r)
    if ker is not None:
        del ker.attrs["forward"]
    before = [(n, content(t), t.shape) for n, t in SL.params(m) + SL.buffers(m)]
    st, c = K.try_call(K.lib("copy.deepcopy" if how == "deepcopy" else "pickle.roundtrip"), m)
    K.require(st == "return", "copy", "the module can be copied with %s" % how, "%s" % (c.val if st != "return" else ""))
    after = dict(SL.params(c) + SL.buffers(c))
    K.require([n for n, _, _ in before] == list(after), "copy", "the copy has the same registered state", "%s and %s" % (
        [n for n, _, _ in before], list(after)))
    orig = SL.params(m) + SL.buffers(m)
    for n, t in orig:
        K.require(all(t.st is not u.st for u in after.values()), "shared", "the copy has its own %s" % n, "it is shared")
    for n, t in orig:
        if X.is_float(t.dtype) and t.fwd is None:
            SL.content(t, "changed." + n)
    if how != "pickle":
        if layer:
            own_weights(K, c, *layer)
        r = K.call(c, *a, **kw)
    for n, l, sh in before:
        if X.is_float(after[n].dtype) and "running" not in n and "batches" not in n:
            same(K, content(after[n]), l, "state", "%s of the copy" % n)
    if want is None:
        return
    have = contents(r)
    K.require(len(have) == len(want), "result", "the copy returns the same kind of result", "%s" % (r,))
    for (n, l, sh, dt), (_, l0, sh0, dt0) in zip(have, want):
        K.require(len(sh) == len(sh0) and all(X.same_size(p, q) for p, q in zip(sh, sh0)), "result",
                  "%s of the copy has the shape %s" % (n, X.show_shape(sh0)), X.show_shape(sh))
        same(K, l, l0, "result", "%s of the copy" % n)


def same(K, a, b, rule, what):
    if a is b:
        K.good()
        return
    sz = a.sizes if isinstance(a, T.Lam) else ()
    idx = tuple(T.fresh(X.norm(n)) for n in sz)
    x = T.apply_lam(a, idx) if isinstance(a, T.Lam) else a
    y = T.apply_lam(b, idx) if isinstance(b, T.Lam) else b
    K.eq(x, y, "%s is that of the original before the original changed" % what, rule)


def shown(K, item):
    """The text describing a module can be computed."""
    A = CT.Args(K)
    item.make(A)
    todo = [A.module]
    while todo:
        m = todo.pop()
        todo.extend((m.modules or {}).values())
        K.method(m, "extra_repr")
        K.good()


def check(ck):
    stubs = dict(R.sampler_stubs())
    for item in CT.items():
        if not item.cls:
            continue
        slow = any(x in item.title for x in ("no mask", "nearest"))
        for how in ("pickle",) if slow and not ck.thorough else ("deepcopy", "pickle"):
            ck.case("%s, %s" % (item.title, how), lambda K, item=item, how=how: copied(K, item, how), item.entry, stubs=stubs, modes=MODES)
        ck.case("%s, shown" % item.title, lambda K, item=item: shown(K, item), item.entry, stubs=stubs, modes=MODES)
