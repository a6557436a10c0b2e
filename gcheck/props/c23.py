"""C23: learned and stored state is registered, trainable and initialized."""
import itertools

from .. import catalogue as CT
from .. import interp as I
from .. import layers as LY
from .. import ready as R
from .. import slots as SL
from .. import terms as T
from .. import tensor as X
from ..terms import tt, ONE
from .c05 import STUBS, any_angles, exact_matrix
from .c21 import tensors_of

EXPLANATION = """Memory: every public call of the catalogue is run abstractly with distinct unknowns as the content of every
uninitialized tensor; if one of them occurs in a result, the call is analysed again with other unknowns and the results have to
agree.  State: every module of the catalogue (and the ready-made and base layers with and without bias) is constructed; its
parameters and buffers must hold no uninitialized memory, its parameters must require gradients, and names and identities must
stay what they are through forward, save, load and moving.  Gradients: gradient dependencies are tracked through every operation
and every gradient barrier (detach, no_grad, .data) leaves a mark in the value; the output must depend on every parameter outside
comparisons, rounding and marks, and on no parameter behind a mark.  Storage: the content of every tensor a module holds without
registering it is replaced by an unknown, which must not reach the output; a second module with other grids and draws that loads
the state of the first must compute the same output."""
RULE = ("params and buffers contain no uninit atom; leaf(param) in smooth positions of the output, none under a gradient barrier; "
        "output after load_state_dict has the value number of the saved module's output")
MODES = [{"default": [2, 3, 2, 2, 3, 2, 2, 3, 2]}]


# ------------------------------------------------------------------ uninitialized memory
def uninit_atoms(x):
    return T.collect(x, lambda a: a.kind == "uninit")


def content(t):
    return t.lam() if t.ndim else t.at()


def memory(K, item):
    """Results are the same whatever uninitialized memory held."""
    ctx = K.it.ctx
    A = CT.Args(K)
    A.stub_kernel = True
    f, a, kw = item.make(A)
    seed, ctx.uninit = ctx.draws, itertools.count(1000000)
    r = K.call(f, *a, **kw)
    first = tensors_of(r)
    dirty = [(n, idx, t.at(*idx)) for n, t in first if uninit_atoms(t.generic()[1]) for idx in entries(t.shape)]
    dirty = [(n, idx, x) for n, idx, x in dirty if uninit_atoms(x)]
    if not dirty:
        K.good(n=max(1, len(first)))
        return
    ctx.draws, ctx.uninit = seed, itertools.count(2000000)
    if A.module is None:
        f, a, kw = item.make(CT.Args(K))
        ctx.draws, ctx.uninit = seed, itertools.count(2000000)
    r2 = K.call(f, *a, **kw)
    second = dict(tensors_of(r2))
    for n, idx, x in dirty:
        K.eq(second[n].at(*idx), x, "%s does not depend on uninitialized memory" % n, "uninitialized")


def entries(shape):
    """Generic indices; up to two small trailing axes are enumerated."""
    ax, k = [], 1
    for d in range(len(shape) - 1, -1, -1):
        c = tt(shape[d]).const
        if c is not None and len(shape) - d <= 2 and k * c <= 24:
            ax.insert(0, [tt(j) for j in range(int(c))])
            k *= int(c)
        else:
            ax.insert(0, [T.fresh(shape[d])])
    return itertools.product(*ax)


# ------------------------------------------------------------------ state
def initialized(K, m, what=""):
    for kind, ts in (("parameter", SL.params(m)), ("buffer", SL.buffers(m))):
        for n, t in ts:
            K.require(not uninit_atoms(content(t)), "uninitialized", "%s%s %s is initialized" % (what, kind, n),
                      "its entries are those of uninitialized memory")
            if kind == "parameter":
                K.require(bool(t.grad_deps), "trainable", "%sparameter %s requires gradients" % (what, n), "it does not")


def idents(m):
    return [(n, id(t.st)) for n, t in SL.params(m)], [n for n, _ in SL.buffers(m)]


def smooth(x, leafs, seen=None, out=None):
    """Parameter leafs outside comparisons, rounding and index selection."""
    if out is None:
        out, seen = set(), set()
    if isinstance(x, (T.Term, T.Atom, T.Lam)) and id(x) in seen:
        return out
    if isinstance(x, T.Term):
        seen.add(id(x))
        for m, _ in x.poly:
            for a, _e in m:
                smooth(a, leafs, seen, out)
    elif isinstance(x, T.Atom):
        seen.add(id(x))
        if x.kind == "elem" and x.args[0] in leafs:
            out.add(x.args[0])
        if x.kind in ("ind", "fd", "md", "rank", "count", "nth", "iperm", "argos") or x.kind == "opq" and x.args[0] == "barrier":
            return out
        for y in x.args:
            smooth(y, leafs, seen, out)
    elif isinstance(x, T.Lam):
        seen.add(id(x))
        smooth(x.body, leafs, seen, out)
    elif isinstance(x, tuple):
        for y in x:
            smooth(y, leafs, seen, out)
    return out


def gradients(K, m, r, leafs, what):
    """leafs: {Leaf: (name, stamp)}"""
    ts = tensors_of(r)
    deps = frozenset().union(*[t.grad_deps for _, t in ts]) if ts else frozenset()
    found = set()
    for _, t in ts:
        smooth(content(t), leafs, set(), found)
        for b in T.collect(content(t), lambda a: a.kind == "opq" and a.args[0] == "barrier"):
            inside = T.collect(b.args, lambda a: a.kind == "elem" and a.args[0] in leafs)
            K.require(not inside, "detached", "%s: no gradient barrier between parameters and output" % what,
                      "part of the output depends on %s through a detached value" % sorted({leafs[a.args[0]][0] for a in inside}))
    for lf, (n, stamp) in sorted(leafs.items(), key=lambda x: x[1][0]):
        K.require(stamp is None or ("leaf", stamp) in deps, "gradient", "%s: gradients flow from the output to parameter %s" % (what, n),
                  "the output does not depend on it in a way that is tracked")
        K.require(lf in found, "gradient", "%s: the output depends on parameter %s" % (what, n),
                  "its value does not occur in the output, or only in comparisons, rounding or selections")


def name_params(m):
    """Unknown content for every parameter; {leaf: (name, stamp)}"""
    out = {}
    for n, t in SL.params(m):
        out[SL.content(t, "P." + n)] = (n, t.st.stamp)
    return out


def stub_weights(K, m, kind, d, leafs):
    """The kernel of a layer yields unknown weights that carry the gradients of the kernel's parameters."""
    kp = [t for _, t in SL.params(K.attr(m, "kernel"))]
    for lf, (n, st) in list(leafs.items()):
        if any(t.st.stamp == st for t in kp):
            del leafs[lf]

    def w(*grids):
        k3, two = (tt(3),) * d, tt(2)
        n = [g.shape[0] for g in grids]
        deps = frozenset().union(*[t.grad_deps for t in kp])

        def t(name, sh):
            lf = T.Leaf(name)
            leafs[lf] = ("of the kernel", None)
            x = X.mk(sh, lambda *i: T.elem(lf, *i), grad=deps, origin=("arg", name))
            return x
        if kind == "lifting":
            return t("KW", (two, n[0], two) + k3)
        if kind == "full":
            return t("KW", (two, n[1], two, n[0]) + k3)
        return t("KH", (two, n[1], two, n[0]) + (ONE,) * d), t("KW", (two, n[1], ONE) + k3)
    K.attr(m, "kernel").attrs["forward"] = I.Builtin("kernel weights", w)


def unregistered(v, m, seen, out, name, depth=0):
    """Tensors with axes that a module holds but does not register."""
    if id(v) in seen or depth > 6:
        return
    seen.add(id(v))
    if isinstance(v, X.Tensor):
        if v.ndim >= 1:
            out.append((name, v))
    elif isinstance(v, I.Instance):
        if K_module(v):
            for _, t in list((v.params or {}).items()) + list((v.buffers or {}).items()):
                seen.add(id(t))
            for n, x in (v.modules or {}).items():
                unregistered(x, m, seen, out, "%s.%s" % (name, n), depth + 1)
        for n, x in v.attrs.items():
            unregistered(x, m, seen, out, "%s.%s" % (name, n), depth + 1)
    elif isinstance(v, I.PyDict):
        for k, x in v.d.items():
            unregistered(x, m, seen, out, "%s[%r]" % (name, k), depth + 1)
    elif isinstance(v, (I.PyList, tuple)):
        for k, x in enumerate(v.items if isinstance(v, I.PyList) else v):
            unregistered(x, m, seen, out, "%s[%d]" % (name, k), depth + 1)


def K_module(v):
    return v.params is not None or v.buffers is not None


def state(K, item):
    """Initialization, names, gradients and unregistered tensors of one module."""
    ctx = K.it.ctx
    A = CT.Args(K)
    f, a, kw = item.make(A)
    m = A.module
    initialized(K, m)
    K.require(not [1 for p in SL.params(m) for b in SL.buffers(m) if p[0] == b[0]], "registered", "names are distinct", "they are not")
    before = idents(m)
    leafs = name_params(m)
    if A.layer_kind:
        stub_weights(K, m, A.layer_kind[0], A.layer_kind[1], leafs)
    stray = []
    unregistered(m, m, {id(t) for _, t, _, _ in A.tensors}, stray, "module")
    # tensors registered under another name share their storage
    reg = {id(t.st) for _, t in SL.params(m) + SL.buffers(m)}
    given = {id(t.st) for _, t, _, _ in A.tensors}
    marks = {}
    for n, t in stray:
        if id(t.st) in reg or id(t.st) in given:
            continue
        if t.fwd is not None:
            raise X.Incomplete("%s is a view" % n)
        marks[SL.content(t, "stray")] = n
    ctx.barrier = True
    r = K.call(f, *a, **kw)
    ctx.barrier = False
    for n, t in tensors_of(r):
        bad = T.collect(content(t), lambda x: x.kind == "elem" and x.args[0] in marks)
        K.require(not bad, "unregistered", "%s is computed from registered state" % n,
                  "it depends on %s, which is neither parameter nor buffer" % sorted({marks[x.args[0]] for x in bad}))
    K.require(idents(m) == before, "registered", "parameters and buffers are the same ones after a call",
              "before %s, after %s" % (before, idents(m)))
    gradients(K, m, r, leafs, "output")
    if item.entry.split(":")[1] in list(CT.CLASS.values()) + ["%s%dd" % (x, d) for x in CT.LAYER.values() for d in (2, 3)]:
        leafs = name_params(m)
        K.call(K.attr(m, "eval"))
        ctx.barrier = True
        r = K.call(f, *a, **kw)
        ctx.barrier = False
        gradients(K, m, r, leafs, "output in evaluation mode")


# ------------------------------------------------------------------ save and load
def roundtrip(K, item):
    """The registered state of a second module is that of the first after loading; the output is computed from it (state)."""
    A, B = CT.Args(K), CT.Args(K)
    item.make(A)
    item.make(B)
    ma, mb = A.module, B.module
    for n, t in SL.params(ma):
        SL.content(t, "saved." + n)
    grids(K, ma, "saved")
    grids(K, mb, "other")
    want = [(n, content(t), t.shape) for n, t in SL.params(ma) + SL.buffers(ma)]
    sd = K.method(ma, "state_dict")
    K.method(mb, "load_state_dict", sd)
    have = dict(SL.params(mb) + SL.buffers(mb))
    K.require(sorted(have) == sorted(n for n, _, _ in want), "load", "the loading module has the same state names", "%s and %s" % (
        sorted(have), sorted(n for n, _, _ in want)))
    for n, c, sh in want:
        t = have[n]
        K.shape(t, sh, n)
        if content(t) is c:
            K.good()
            continue
        K.tensor(t, sh, (lambda *i, c=c: T.apply_lam(c, i) if t.ndim else c), "%s of the module that loaded the state" % n,
                 rule="load", enum=0)
    pa, pb = dict(SL.params(ma)), dict(SL.params(mb))
    for n in pa:
        K.require(pa[n].st is not pb[n].st, "load", "the modules have parameters of their own", "%s is shared" % n)


def grids(K, m, tag):
    """Each module's reference grid of elements differs."""
    k = m.attrs.get("kernel") or (m.modules or {}).get("kernel") or m
    for n, t in SL.buffers(k):
        if "grid_H" in n.split(".") and t.fwd is None:
            SL.content(t, "%s.%s" % (tag, n))


# ------------------------------------------------------------------ bias
def base_bias(K, kind, d, how):
    """A base layer has a bias exactly when asked for."""
    sl = SL.Slots((2,), d)
    gr, og, ig, n = K.size("G"), K.size("Og"), K.size("Ig"), K.size("N")
    ks = tuple(K.size("K%d" % j) for j in range(d))
    H, Rn = K.leaf("grid_H", (n, 2)), K.leaf("grid_Rn", ks + (d,))
    kw = {k: sl.b(k) for k in ("inverse_H", "left_apply_to_Rn", "sample_Rn")}
    if kind != "lifting":
        kw.update({k: sl.b(k) for k in ("left_apply_to_H", "sample_H")})
    kst = tuple(K.int(s) for s in ks)
    co, ci = K.int(og * gr), K.int(ig * gr)
    k = K.call(CT.KER + CT.CLASS[kind], ci, co, kst, (K.int(n),), H, Rn, groups=K.int(gr), **kw)
    m = K.call(CT.MOD + "%s%dd" % (CT.LAYER[kind], d), ci, co, kst, (K.int(n),), k, groups=K.int(gr),
               **({} if how is None else {"bias": how}))
    bias_of(K, m, bool(how), og * gr, d)
    again(K, m)


def again(K, m):
    """Resetting a module draws all its parameters anew, from the distribution they are constructed with."""
    ps = SL.params(m)
    leaves = {n: SL.content(p, "kept.%s" % n) for n, p in ps}
    K.call(K.attr(m, "reset_parameters"))
    now = SL.params(m)
    K.require([n for n, _ in now] == [n for n, _ in ps], "reset", "resetting keeps the parameters", "they are %s" % [n for n, _ in now])
    for n, p in now:
        t = p.at(*[K.fresh(s) for s in p.shape])
        kept = T.collect(t, lambda a: a.kind == "elem" and a.args[0] is leaves[n])
        K.require(not kept, "reset", "resetting the module draws %s anew" % n, "it keeps its value")
    initialized(K, m)


def bias_of(K, m, want, co, d):
    kp = [p for _, p in SL.params(K.attr(m, "kernel"))]
    bp = [(n, p) for n, p in SL.params(m) if not any(p is q for q in kp)]
    K.require(bool(bp) == want, "bias", "a bias exists exactly when requested", "%s although %srequested" % (
        "there are parameters %s" % [n for n, _ in bp] if bp else "there is none", "" if want else "not "))
    if want:
        sz = ONE
        for _, p in bp:
            for s in p.shape:
                sz = sz * s
        K.require(len(bp) == 1 and X.same_size(X.norm(sz), X.norm(co)), "bias", "there is one bias per output channel", "it has shape %s" % [
            X.show_shape(p.shape) for _, p in bp])
    initialized(K, m)


def ready_bias(K, g, kind, how):
    kw = {} if how is None else {"bias": how}
    if kind != "lifting" and R.Group(g).two:
        kw["group_kernel_size"] = (3, 2)
    m = K.call(CT.GN + CT.LAYER[kind] + g, 4, 2, 3, **kw)
    bias_of(K, m, bool(how), tt(2), R.Group(g).d)


def check(ck):
    stubs = dict(R.sampler_stubs())
    heavy = dict(STUBS, **{"gconv.geometry.groups.so3.euler_to_matrix": exact_matrix,
                           "gconv.geometry.groups.so3.matrix_to_euler": any_angles})
    for item in CT.items():
        st = dict(stubs) if item.cls else dict(heavy) if item.heavy else None
        ck.case(item.title + ", memory", lambda K, item=item: memory(K, item), item.entry, stubs=st, modes=MODES)
        if item.cls:
            ck.case(item.title + ", state", lambda K, item=item: state(K, item), item.entry, stubs=st, modes=MODES)
            if "permuted" not in item.title and item.entry.split(":")[1][:7] in ("GLiftin", "GSepara", "GKernel", "GConvSE", "GConvE2",
                                                                               "GConvE3", "GConv2d", "GConv3d", "GSubgro"):
                ck.case(item.title + ", saved and loaded", lambda K, item=item: roundtrip(K, item), item.entry, stubs=st, modes=MODES)
    for how in (None, False, True):
        for kind in ("lifting", "separable", "full"):
            for d in (2, 3):
                ck.case("%s%dd, bias=%s" % (CT.LAYER[kind], d, how), lambda K, kind=kind, d=d, how=how: base_bias(K, kind, d, how),
                        CT.MOD + "%s%dd" % (CT.LAYER[kind], d), modes=MODES)
            for g in CT.GROUPS:
                ck.case("%s%s, bias=%s" % (CT.LAYER[kind], g, how), lambda K, kind=kind, g=g, how=how: ready_bias(K, g, kind, how),
                        CT.GN + CT.LAYER[kind] + g, stubs=dict(stubs), modes=MODES)
