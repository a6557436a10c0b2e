"""C09: stride, padding, dilation and padding mode act once, on the spatial filter."""
from .. import layers as LY
from .. import terms as T
from ..terms import tt, ZERO, ONE

EXPLANATION = """Every layer is run abstractly on an unknown input with a kernel of unknown weights and symbolic stride,
padding and dilation, a different symbol for every axis and option (tuples) and one symbol for all axes (scalars), for every
padding mode and for 'same' and 'valid'.  The output sizes and the value at a generic position are compared, as terms, with
an ordinary convolution with these options applied once to the spatial filter."""
RULE = "output sizes floor((n + pad - d (k-1) - 1) / s) + 1 and x read at p*s + tap*d - pad, by axis, in the padding mode"
MODES = ("zeros", "reflect", "replicate", "circular")


def check(ck):
    kinds = [(k, d) for d in (2, 3) for k in ("lifting", "separable", "full")]
    for kind, d in kinds:
        ent = LY.MOD + {"lifting": "GLiftingConv%dd", "separable": "GSeparableConv%dd", "full": "GConv%dd"}[kind] % d

        def run(title, body, limit=None, modes=MODES):
            for mode in modes:
                ck.case("%s layer %dD, %s, %s" % (kind, d, title, mode), lambda K, mode=mode: body(K, mode), ent, limit=limit)

        def tuples(K, mode):
            st = [K.size("S%d" % j, conc=1 + (j + 1) % 3) for j in range(d)]
            dl = [K.size("D%d" % j, conc=1 + j % 2) for j in range(d)]
            pd = [K.size("A%d" % j, lo=0, conc=(j + 1) % 3) for j in range(d)]
            L = LY.Layer(K, kind, d, True, stride=tuple(map(K.int, st)), dilation=tuple(map(K.int, dl)),
                         padding=tuple(map(K.int, pd)), padding_mode=mode)
            L.xlo = 1 if mode == "zeros" else 4
            L.check(LY.Opts(d, st, pd, None, dl, mode))
        run("options by axis", tuples)

        def scalars(K, mode):
            s, q, p = K.size("S", conc=2), K.size("D", conc=2), K.size("A", lo=0, conc=1)
            L = LY.Layer(K, kind, d, False, stride=K.int(s), dilation=K.int(q), padding=K.int(p), padding_mode=mode)
            L.xlo = 1 if mode == "zeros" else 4
            L.check(LY.Opts(d, [s] * d, [p] * d, None, [q] * d, mode))
        run("scalar options", scalars)

        def same(K, mode):
            dl = [K.size("D%d" % j, conc=1 + j % 2) for j in range(d)]
            L = LY.Layer(K, kind, d, False, dilation=tuple(map(K.int, dl)), padding="same", padding_mode=mode)
            L.xlo = 1 if mode == "zeros" else 4
            L.check(LY.same_opts(d, L.ks, dl, mode))
        run("padding='same'", same)

        def same1(K, mode):
            q = K.size("D", conc=2)
            L = LY.Layer(K, kind, d, True, stride=1, dilation=K.int(q), padding="same", padding_mode=mode)
            L.xlo = 1 if mode == "zeros" else 4
            L.check(LY.same_opts(d, L.ks, [q] * d, mode))
        run("padding='same', scalar dilation", same1)

        def valid(K, mode):
            st = [K.size("S%d" % j, conc=1 + (j + 1) % 3) for j in range(d)]
            dl = [K.size("D%d" % j, conc=1 + j % 2) for j in range(d)]
            L = LY.Layer(K, kind, d, False, stride=tuple(map(K.int, st)), dilation=tuple(map(K.int, dl)), padding="valid",
                         padding_mode=mode)
            L.xlo = 1 if mode == "zeros" else 4
            L.check(LY.Opts(d, st, None, None, dl, mode))
        run("padding='valid'", valid)

        def default(K, mode):
            L = LY.Layer(K, kind, d, False, padding_mode=mode)
            L.xlo = 1 if mode == "zeros" else 4
            L.check(LY.Opts(d, mode=mode))
        run("default options", default)
