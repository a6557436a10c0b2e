"""C21: functions leave their arguments and shared state untouched."""
import itertools

from .. import catalogue as CT
from .. import interp as I
from .. import ready as R
from .. import slots as SL
from .. import terms as T
from .. import tensor as X
from .c05 import STUBS, any_angles, exact_matrix
from ..terms import tt

EXPLANATION = """Every public function of the geometry, interpolation, repulsion, coordinate and mask modules, and the forward of
every kernel and layer, is run abstractly on unknown valid arguments (catalogue in gcheck/catalogue.py).  The values (as terms)
of all argument tensors, the entries of all argument lists and dictionaries, all tensors and containers reachable from module
globals, all function default arguments, and the parameters and buffers of the module called are taken before and compared
after the call.  Then the result of the call is overwritten in place and the call is made again on equal arguments, with the
same random draws; the second result has to equal the first as it was."""
RULE = "content of every argument, global, default and registered tensor has the same value number before and after the call"
NOTE = "Operations the caller asks to be in place (repulse in_place, activations with inplace=True) and save_grid are exceptions."


def reach(v, name, out, seen, depth=0):
    """Tensors and containers reachable from a value."""
    if id(v) in seen or depth > 5:
        return
    if isinstance(v, X.Tensor):
        seen.add(id(v))
        out.append((name, v))
    elif isinstance(v, I.PyDict):
        seen.add(id(v))
        out.append((name, v))
        for k, x in list(v.d.items()):
            reach(x, "%s[%r]" % (name, k), out, seen, depth + 1)
    elif isinstance(v, I.PyList):
        seen.add(id(v))
        out.append((name, v))
        for k, x in enumerate(v.items):
            reach(x, "%s[%d]" % (name, k), out, seen, depth + 1)
    elif isinstance(v, tuple):
        for k, x in enumerate(v):
            reach(x, "%s[%d]" % (name, k), out, seen, depth + 1)


def shared(K):
    """Module globals and default arguments of the package."""
    out, seen = [], set()
    for mn, m in sorted(K.it.mods.items()):
        if not mn.startswith("gconv"):
            continue
        for n, v in list(m.ns.items()):
            if n.startswith("__"):
                continue
            if isinstance(v, I.Func):
                defaults(v, mn, out, seen)
            elif isinstance(v, I.Class):
                for a, f in list(v.ns.items()):
                    if isinstance(f, I.Func):
                        defaults(f, mn, out, seen)
                    elif not a.startswith("__"):
                        reach(f, "%s.%s.%s" % (mn, n, a), out, seen)
            else:
                reach(v, "%s.%s" % (mn, n), out, seen)
    return out


def defaults(f, mn, out, seen):
    if f.module is None or f.module.name != mn:
        return
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
        if not n.startswith("_"):
            reach(v, "default of %s in %s.%s" % (n, mn, f.qual), out, seen)
    kd = f.kwdefaults
    for n, v in (kd.items() if isinstance(kd, dict) else []):
        if not n.startswith("_"):
            reach(v, "default of %s in %s.%s" % (n, mn, f.qual), out, seen)


def snap(pairs, lazy=False):
    """What they hold; lazily (by the reader) for large tables."""
    r = []
    for name, v in pairs:
        if isinstance(v, X.Tensor):
            if lazy:
                rd, ver = v.reader(), v.st.ver
                r.append((name, v, rd, v.shape, ver))
            else:
                r.append((name, v, v.lam() if v.ndim else v.at(), v.shape, None))
        elif isinstance(v, I.PyDict):
            r.append((name, v, dict(v.d), None, None))
        else:
            r.append((name, v, list(v.items), None, None))
    return r


def unchanged(K, before, rule, what):
    for name, v, c, sh, st in before:
        if isinstance(v, X.Tensor):
            if st is not None:
                if v.st.ver == st and v.shape == sh:
                    K.good()
                    continue
                K.shape(v, sh, "%s %s" % (what, name))
                K.tensor(v, sh, lambda *i, c=c: c(i), "%s after the call" % name, rule=rule, enum=0)
                continue
            now = v.lam() if v.ndim else v.at()
            if len(sh) == len(v.shape) and all(a is b for a, b in zip(sh, v.shape)) and now is c:
                K.good()
                continue
            K.shape(v, sh, "%s %s" % (what, name))
            K.tensor(v, sh, (lambda *i, c=c: T.apply_lam(c, i) if v.ndim else c), "%s after the call" % name, rule=rule, enum=0)
        elif isinstance(v, I.PyDict):
            lost = [k for k in c if k not in v.d or not same(v.d[k], c[k])]
            more = [k for k in v.d if k not in c]
            if what.startswith("default") or what.startswith("argument"):
                lost += more
            K.require(not lost, rule, "%s has its entries after the call" % name, "entries %s changed" % lost)
        else:
            ok = len(c) == len(v.items) and all(same(a, b) for a, b in zip(c, v.items))
            K.require(ok, rule, "%s has its entries after the call" % name, "it is %s" % (v.items,))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, X.Num) and isinstance(b, X.Num):
        return X.num_term(a) is X.num_term(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and not isinstance(a, (X.Tensor, I.PyDict, I.PyList)) and a == b


def tensors_of(r, pre="result"):
    if isinstance(r, X.Tensor):
        return [(pre, r)]
    if isinstance(r, tuple):
        return [x for k, v in enumerate(r) for x in tensors_of(v, "%s[%d]" % (pre, k))]
    if isinstance(r, I.PyList):
        return [x for k, v in enumerate(r.items) for x in tensors_of(v, "%s[%d]" % (pre, k))]
    return []


def split(K, it):
    """Shared state and default arguments apart."""
    allv = shared(K)
    return snap([x for x in allv if not x[0].startswith("default")], True), snap([x for x in allv if x[0].startswith("default")])


def run(K, item, edit=True):
    A = CT.Args(K)
    A.stub_kernel = True
    K.it.get("gconv.gnn:GConvSE2")
    glob, defs = split(K, item)
    f, a, kw = item.make(A)
    args = snap([(n, t) for n, t, _, _ in A.tensors]) + snap([(n, o) for n, o, _ in A.objects])
    state = snap([("parameter " + n, t) for n, t in SL.params(A.module)] + [("buffer " + n, t) for n, t in SL.buffers(A.module)]) \
        if A.module is not None else []
    ctx = K.it.ctx
    seed, ctx.uninit = ctx.draws, itertools.count(1000000)
    r = K.call(f, *a, **kw)
    unchanged(K, args, "argument", "argument")
    unchanged(K, state, "state", "state")
    unchanged(K, glob, "shared", "shared")
    unchanged(K, defs, "default", "default")
    if not edit:
        return
    first = [(n, t, t.lam() if t.ndim else t.at(), t.shape) for n, t in tensors_of(r)]
    own = {id(t.st) for _, t, _, _ in A.tensors} | {id(x[1].st) for x in state}
    if A.module is None:
        B = CT.Args(K)
        g, b, kwb = item.make(B)
    else:
        # the same module again, on the same arguments; what the first call returned is left as it is
        g, b, kwb, B = f, a, kw, A
    if A.module is None:
        for n, t, _, _ in first:
            if t.dtype == "bool" or id(t.st) in own:
                continue
            was, K.it.ctx.grad_on = K.it.ctx.grad_on, False
            try:
                X.write(t, X.mk((), lambda: tt(7), t.dtype, t.device), "the caller")
            finally:
                K.it.ctx.grad_on = was
    # the same draws again
    K.it.ctx.draws, K.it.ctx.uninit = seed, itertools.count(1000000)
    r2 = K.call(g, *b, **kwb)
    unchanged(K, args, "argument", "argument")
    unchanged(K, state, "state", "state")
    unchanged(K, defs, "default", "default")
    unchanged(K, glob, "shared", "shared")
    second = tensors_of(r2)
    K.require(len(first) == len(second), "repeat", "a repeated call returns as many tensors", "%d and %d" % (len(first), len(second)))
    for (n, t, c, sh), (_, u) in zip(first, second):
        K.shape(u, sh, "%s of a repeated call" % n)
        now = u.lam() if u.ndim else u.at()
        if now is c:
            K.good()
            continue
        K.tensor(u, sh, (lambda *i, c=c: T.apply_lam(c, i) if u.ndim else c), "%s of a repeated call" % n, rule="repeat", enum=0)


def check(ck):
    stubs = dict(R.sampler_stubs())
    for item in CT.items():
        st = None
        if item.heavy:
            st = dict(stubs) if item.cls else dict(STUBS, **{
                "gconv.geometry.groups.so3.euler_to_matrix": exact_matrix, "gconv.geometry.groups.so3.matrix_to_euler": any_angles})
        elif item.cls:
            st = dict(stubs)
        ck.case(item.title, lambda K, item=item: run(K, item), item.entry, stubs=st, modes=MODES)


MODES = [{"default": [2, 3, 2, 2, 3, 2, 2, 3, 2]}]
