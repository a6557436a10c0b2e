"""C20: reference coordinates follow the sampling convention; masks are radial."""
from .. import ready as R
from .. import terms as T
from .. import tensor as X
from ..terms import tt

EXPLANATION = """The grid and mask functions are run abstractly for an unknown size (and for every size up to a bound, so that
size-dependent branches show), and every entry is compared with the specification: coordinate j of the entry at position
(p_1..p_d) is 2 p_{d-j}/(k-1) - 1, the origin for size one; the mask is one where the norm of these coordinates is below 1.1."""
RULE = "entry has the value number of the specified coordinate / indicator"

FN = "gconv.gnn.functional:"


def check(ck):
    for d in (2, 3):
        ks = list(range(1, 25 if d == 2 else 12))
        if ck.thorough:
            ks += list(range(25, 41)) if d == 2 else list(range(12, 17))
        for dev in (False, True):
            def grid(K, k, d=d, dev=dev):
                kw = {"device": X.Device("dev")} if dev else {}
                t = K.call(FN + "create_grid_R%d" % d, K.int(k) if isinstance(k, T.Term) else k, **kw)
                k = tt(k)

                def want(*i):
                    return R.coords(k, d, i[:d])[int(i[d].const)]
                K.tensor(t, (k,) * d + (tt(d),), want, "coordinate grid", enum=max(4, int(k.const or 0)))
                K.require(t.dtype == "float32", "dtype", "coordinates are floating point", "they are %s" % t.dtype)

            def mask(K, k, d=d, dev=dev):
                kw = {"device": X.Device("dev")} if dev else {}
                t = K.call(FN + "create_spherical_mask_R%d" % d, K.int(k) if isinstance(k, T.Term) else k, **kw)
                k = tt(k)
                K.tensor(t, (k,) * d, lambda *i: R.mask_at(k, d, i), "mask", enum=max(4, int(k.const or 0)))
                K.require(t.dtype == "float32", "dtype", "mask is floating point", "it is %s" % t.dtype)
            for f, name in ((grid, "create_grid_R%d"), (mask, "create_spherical_mask_R%d")):
                ent = FN + name % d
                tag = ", device" if dev else ""
                ck.case("%s, any size%s" % (name % d, tag), lambda K, f=f: f(K, K.size("k")), ent)
                if not dev:
                    for k in ks:
                        ck.case("%s, size %d" % (name % d, k), lambda K, f=f, k=k: f(K, k), ent)
