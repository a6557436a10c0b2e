"""C08: a group convolution sums over its channel group and all input elements."""
from .. import layers as LY
from .. import terms as T

EXPLANATION = """The 2D and 3D lifting, separable and full group convolution layers are run abstractly on an unknown input
with a kernel of unknown weights, for symbolic batch, channel, group, element and spatial sizes.  The value of the output
at a generic (batch, channel group, channel in group, element, position) is compared, as a term, with the specified sum
over the input channels of that channel group, all input elements and kernel positions, plus the channel's bias."""
RULE = "output[n, c, g, p] has the value number of sum_{i in group(c), h, taps} w[c, g, i, h, tap] x[n, i, h, p + tap] + b[c]"


def check(ck):
    for d in (2, 3):
        for kind in ("lifting", "separable", "full"):
            for bias in (False, True):
                for groups in (1, 2, None):
                    def body(K, d=d, kind=kind, bias=bias, groups=groups):
                        L = LY.Layer(K, kind, d, bias, groups=groups)
                        L.xlo = 1
                        L.check(LY.Opts(d))
                    ck.case("%s layer %dD, groups %s%s" % (kind, d, groups or "symbolic", ", bias" if bias else ""),
                            body, LY.MOD + {"lifting": "GLiftingConv%dd", "separable": "GSeparableConv%dd",
                                            "full": "GConv%dd"}[kind] % d)
