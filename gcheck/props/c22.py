"""C22: results live on the device the caller chose."""
from .. import catalogue as CT
from .. import ready as R
from .. import slots as SL
from .. import tensor as X
from .c05 import STUBS, any_angles, exact_matrix
from .c21 import tensors_of
from ..terms import tt

EXPLANATION = """Every public call of the catalogue (gcheck/catalogue.py) is run abstractly with a device attached to every tensor.
Functions of tensors get their arguments on a second device: the results have to be there and no operation may combine tensors of
two devices (a zero-dimensional CPU tensor may be combined with any).  Functions that take a device are called with that device
given by name, as a device object and by position where they publish one, and the results have to be there; without one, on the
CPU.  Modules are constructed, moved with .to(device), .cuda()-like moves included, and called with inputs there.  Histories of
grid requests and stores on different devices have to give each caller the grid on the device asked for."""
RULE = "device of every result = requested device or device of the inputs; no operation mixes devices"

DEV = X.Device("cuda:1")
FULL = dict(STUBS, **{"gconv.geometry.groups.so3.euler_to_matrix": exact_matrix,
                      "gconv.geometry.groups.so3.matrix_to_euler": any_angles})


def clean(K, what):
    ev = K.events("device")
    if ev:
        e = ev[0]
        K.violate("mixed", "%s uses tensors of one device" % what, e["detail"],
                  where="%s:%d %s" % e["where"] if e["where"][0] != "?" else None)
    K.good()


def on(K, r, dev, what):
    ts = tensors_of(r)
    K.require(len(ts) > 0, "type", "%s returns tensors" % what, "it returns %s" % (r,))
    for n, t in ts:
        K.require(t.device == dev, "device", "%s is on %s" % (n, dev.name), "it is on %s" % t.device.name)


def inputs(K, item):
    A = CT.Args(K, DEV)
    f, a, kw = item.make(A)
    r = K.call(f, *a, **kw)
    clean(K, item.title)
    on(K, r, DEV, item.title)
    if A.module is not None:
        for n, t in SL.params(A.module) + SL.buffers(A.module):
            K.require(t.device == DEV, "device", "%s moved along" % n, "it is on %s" % t.device.name)


def factory(K, item, how):
    A = CT.Args(K)
    f, a, kw = item.make(A)
    d = {"name": "cuda:1", "object": DEV, "none": None, "cpu": "cpu"}.get(how)
    want = DEV if how in ("name", "object") else X.CPU
    if how != "default":
        kw = dict(kw, device=d)
    r = K.call(f, *a, **kw)
    clean(K, item.title)
    on(K, r, want, item.title)


def moved(K, item):
    """Constructed, moved there, back and there again by different means."""
    A = CT.Args(K)
    f, a, kw = item.make(A)
    m = A.module
    ptrs = {n for n, _ in SL.params(m) + SL.buffers(m)}
    K.method(m, "to", "cuda:1")
    K.method(m, "cpu")
    r = K.call(m, *a, **kw)
    clean(K, item.title)
    on(K, r, X.CPU, item.title)
    K.method(m, "cuda", 1)
    K.require({n for n, _ in SL.params(m) + SL.buffers(m)} == ptrs, "registered", "the registered tensors stay the same", "they change")
    for n, t, _, _ in A.tensors:
        t.device = DEV
    r = K.call(m, *a, **kw)
    clean(K, item.title)
    on(K, r, DEV, item.title)


def check(ck):
    stubs = dict(R.sampler_stubs())
    for item in CT.items():
        st = dict(stubs) if item.cls else dict(FULL) if item.heavy else None
        if not item.factory:
            ck.case(item.title, lambda K, item=item: inputs(K, item), item.entry, stubs=st, modes=MODES)
            if item.cls:
                ck.case(item.title + ", moved to and fro", lambda K, item=item: moved(K, item), item.entry, stubs=st, modes=MODES)
        else:
            for how in ("name", "object", "none", "cpu", "default"):
                ck.case("%s, device %s" % (item.title, how), lambda K, item=item, how=how: factory(K, item, how), item.entry,
                        stubs=st, modes=MODES)
    histories(ck)


MODES = [{"default": [2, 3, 2, 2, 3, 2, 2, 3, 2]}]
UG = CT.SO3 + "uniform_grid"


def histories(ck):
    for p in ("quat", "matrix"):
        for n in (3, 25):
            def two(K, n=n, p=p):
                for k, d in enumerate(("cuda:1", "cpu", "cuda:2", "cuda:1", "cpu")):
                    r = K.call(UG, n, p, show_pbar=False, steps=1, cache_grid=k % 2 == 0, device=d)
                    clean(K, "request %d" % (k + 1))
                    on(K, r, X.Device(d) if d else X.CPU, "request %d" % (k + 1))
            ck.case("so3.uniform_grid(%d, %s) requested on changing devices" % (n, p), two, UG, stubs=STUBS)

            def stored(K, n=n, p=p):
                sh = {"quat": (4,), "matrix": (3, 3)}[p]
                g = K.leaf("stored", (tt(n),) + tuple(tt(x) for x in sh))
                g.device = DEV
                K.call("gconv.geometry.groups._grid_cache:save_grid", g, "so3", p, overwrite=True)
                for d in ("cpu", "cuda:1", "cuda:2"):
                    r = K.call(UG, n, p, show_pbar=False, device=d)
                    on(K, r, X.Device(d) if d else X.CPU, "request on %s" % d)
                clean(K, "requests")
            ck.case("so3 grid of %d (%s) stored from a device" % (n, p), stored, UG, stubs=STUBS)
    for g, a in (("so2", (5,)), ("o2", ((2, 3),)), ("o3", ((2, 3),)), ("so3", (5,))):
        ent = "gconv.geometry.groups.%s:uniform_grid" % g

        def pos(K, ent=ent, a=a):
            r = K.call(ent, *a, device=DEV)
            on(K, r, DEV, "grid")
            s = K.call(ent, *a)
            on(K, s, X.CPU, "grid without device")
            clean(K, "grid")
        ck.case("%s.uniform_grid on a device, then without" % g, pos, ent)
