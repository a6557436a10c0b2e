"""C13: every constructor option reaches what it configures."""
from .. import layers as LY
from .. import interp as I
from .. import ready as R
from .. import slots as SL
from .. import terms as T
from .. import tensor as X
from ..layers import Opts, same_opts
from ..ready import Group
from ..terms import tt, ZERO, ONE
from . import c12

EXPLANATION = """All thirteen ready-made kernels and twelve ready-made layers are constructed abstractly with every option
alone set to another value than its default, and with all options set at once, by keyword and by position in the published
order.  The kernel is then sampled for unknown grids and compared, as a term, with the specification under exactly the given
sampling modes, widths, padding modes, mask, sizes, groups and reference grid; and the layer is applied to an unknown input
with unknown kernel weights and compared with the specification of a group convolution under exactly the given stride,
padding, dilation, padding mode, groups and bias.  The 2d and 3d base layers are called with all options by position."""
RULE = "behaviour term = specification under the given option values (and the defaults for the omitted ones)"

LIFT_K = ["in", "out", "kernel_size", "group_kernel_size", "groups", "sampling_mode", "sampling_padding_mode", "mask", "grid_H"]
SEN_K = ["in", "out", "kernel_size", "group_kernel_size", "groups", "group_sampling_mode", "group_sampling_width",
         "spatial_sampling_mode", "spatial_sampling_padding_mode", "mask", "grid_H"]
SUB_K = ["in", "out", "group_kernel_size", "groups", "sampling_mode", "sampling_width", "grid_H"]
LIFT_L = ["in", "out", "kernel_size", "groups", "stride", "padding", "dilation", "group_kernel_size", "grid_H", "padding_mode",
          "permute_output_grid", "sampling_mode", "sampling_padding_mode", "bias", "mask"]
SEN_L = ["in", "out", "kernel_size", "group_kernel_size", "groups", "stride", "padding", "dilation", "padding_mode",
         "permute_output_grid", "group_sampling_mode", "group_sampling_width", "spatial_sampling_mode",
         "spatial_sampling_padding_mode", "mask", "bias", "grid_H"]
BASE_L = ["in", "out", "kernel_size", "group_kernel_size", "kernel", "groups", "stride", "padding", "dilation", "padding_mode",
          "bias"]
WIDTHS = ["group_rotation_sampling_width", "group_reflection_sampling_width"]


def order(G, kind, layer):
    o = (LIFT_L if layer else LIFT_K) if kind == "lifting" else (SEN_L if layer else SEN_K)
    if not G.two or kind == "lifting":
        return o
    i = o.index("group_sampling_width")
    return o[:i] + WIDTHS + o[i + 1:]


def spatial_names(kind):
    return ("sampling_mode", "sampling_padding_mode") if kind == "lifting" else (
        "spatial_sampling_mode", "spatial_sampling_padding_mode")


class Case:
    """One construction: the chosen option values and what they stand for."""

    def __init__(self, K, g, kind, layer, chosen, positional=False):
        G = self.G = Group(g)
        self.K, self.kind, self.d = K, kind, G.d
        c = dict(chosen)
        self.ch = c
        names = order(G, kind, layer)
        gr = K.size("G") if "groups" in c else ONE
        self.gr, self.og, self.cig = gr, K.size("Og"), K.size("Ig")
        self.co, self.ci = gr * self.og, gr * self.cig
        ks = c.get("kernel_size", 3)
        self.ksz = ks
        vals = {"in": K.int(self.ci), "out": K.int(self.co), "kernel_size": ks}
        if "groups" in c:
            vals["groups"] = K.int(gr)
        for n in ("stride", "padding", "dilation", "padding_mode", "bias", "mask", "group_sampling_mode") + spatial_names(kind):
            if n in c:
                vals[n] = c[n]
        if layer:
            vals["permute_output_grid"] = False
        # reference grid
        self.gridH = None
        n = c.get("group_kernel_size")
        if c.get("grid_H", True):
            self.sizes = c12.grid_sizes(K, G)[0]
            self.gridH = G.grid(K, "gridH", self.sizes)
            vals["grid_H"] = self.gridH
            if n is not None or (G.two and kind != "lifting") or positional:
                vals["group_kernel_size"] = n if n is not None else (5, 2) if G.two else 5
        else:
            vals["group_kernel_size"] = n
            self.sizes = (n, n) if G.two and isinstance(n, int) else n
        self.hkw = {}
        if kind != "lifting":
            w, self.hkw = c12.width_args(G, K, kind)
            vals.update(w)
        ent = (R_MOD if layer else R.KER) + (LAYER if layer else c12.CLASS)[kind] + g
        if positional:
            missing = [m for m in names if m not in vals]
            if missing:
                raise X.Incomplete("no value for %s" % missing)
            self.obj = K.call(ent, *[vals[m] for m in names])
        else:
            a = [vals.pop(m) for m in ("in", "out", "kernel_size")]
            self.obj = K.call(ent, *a, **vals)
        self.kernel = K.attr(self.obj, "kernel") if layer else self.obj
        if self.gridH is None:
            N = sum(self.sizes) if G.two else self.sizes
            bs = [b for _, b in SL.buffers(self.kernel) if b.ndim == 1 + len(G.es) and all(
                X.same_size(a, tt(e)) for a, e in zip(b.shape, (N,) + G.es))]
            K.require(len(bs) >= 1, "group_kernel_size", "the default reference grid has %s elements" % (n,),
                      "registered buffers have shapes %s" % [X.show_shape(b.shape) for _, b in SL.buffers(self.kernel)])
            self.gridH = bs[0]
            c12.valid_grid(K, G, self.gridH, self.sizes, "default reference grid")
        else:
            c12.buffer_grid(K, self.kernel, self.gridH, "grid_H")
        if G.two and kind != "lifting":
            self.hkw["signal_grid_size"] = tuple(K.int(x) if not isinstance(x, int) else x for x in self.sizes)

    def sampling(self):
        c = self.ch
        m, p = spatial_names(self.kind)
        c12.check_kernel(self.K, self.G, self.kind, self.kernel, self.co, self.cig, self.ksz, self.gridH, self.hkw,
                         mode=c.get(m, "bilinear"), pad=c.get(p, "border"), mask=c.get("mask", True),
                         hmode=c.get("group_sampling_mode", "rbf"))

    def convolution(self):
        c, d = self.ch, self.d
        ly = LY.Layer.__new__(LY.Layer)
        ly.K, ly.kind, ly.d = self.K, self.kind, d
        ly.sl = SL.Slots(self.G.es, d)
        ly.gr, ly.og, ly.cig, ly.co, ly.ci = self.gr, self.og, self.cig, self.co, self.ci
        ly.ks = (tt(self.ksz),) * d
        ly.layer, ly.kernel = self.obj, self.kernel
        ly.record()
        ly.find_bias(bool(c.get("bias")))
        st = [tt(c["stride"])] * d if "stride" in c else None
        dl = [tt(c["dilation"])] * d if "dilation" in c else [ONE] * d
        mode = c.get("padding_mode", "zeros")
        p = c.get("padding", 0)
        if p == "same":
            op = same_opts(d, ly.ks, dl, mode)
        else:
            op = Opts(d, st, [tt(0 if p == "valid" else p)] * d, None, dl, mode)
        ly.check(op)


R_MOD = "gconv.gnn.modules:"
LAYER = {"lifting": "GLiftingConv", "separable": "GSeparableConv", "full": "GConv"}


def kernel_options(G, kind):
    m, p = spatial_names(kind)
    out = [{}, {m: "nearest"}, {p: "zeros"}, {p: "reflection"}, {"mask": False}, {"mask": True}, {"groups": True},
           {"kernel_size": 5}, {"kernel_size": 1}]
    n = [(2, 3), 3] if G.two else [3]
    out += [{"grid_H": False, "group_kernel_size": k} for k in n]
    if kind != "lifting":
        out += [{"group_sampling_mode": "nearest"}, {"group_sampling_mode": "rbf", m: "nearest"},
                {"group_sampling_mode": "nearest", m: "bilinear"}]
    return out


def full_sets(G, kind, layer):
    m, p = spatial_names(kind)
    a = {"groups": True, "kernel_size": 3, m: "nearest", p: "zeros", "mask": False}
    b = {"groups": True, "kernel_size": 5, m: "bilinear", p: "reflection", "mask": True}
    if kind != "lifting":
        a["group_sampling_mode"], b["group_sampling_mode"] = "rbf", "nearest"
    if layer:
        a.update(stride=2, padding=1, dilation=3, padding_mode="circular", bias=True)
        b.update(stride=1, padding="same", dilation=2, padding_mode="replicate", bias=False)
        b["kernel_size"] = 3
    return [a, b]


CONV = [{"stride": 2}, {"padding": 1}, {"padding": "same"}, {"padding": "valid"}, {"dilation": 2}, {"bias": True},
        {"padding": 1, "padding_mode": "circular"}, {"padding": 1, "padding_mode": "reflect"},
        {"padding": 2, "padding_mode": "replicate"}, {"groups": True}, {}]


def show(c):
    return ", ".join("%s=%s" % (k, "g" if k == "groups" else v) for k, v in c.items()) or "defaults"


def check(ck):
    stubs = R.sampler_stubs()
    for g in c12.GROUPS:
        G = Group(g)
        for kind in c12.KINDS:
            kn, ln = c12.CLASS[kind] + g, LAYER[kind] + g
            for c in kernel_options(G, kind):
                def body(K, g=g, kind=kind, c=c, layer=False):
                    Case(K, g, kind, layer, c).sampling()
                ck.case("%s, %s" % (kn, show(c)), body, R.KER + kn, stubs=stubs, modes=c12.FIXED)

                def lbody(K, b=body):
                    b(K, layer=True)
                ck.case("%s kernel, %s" % (ln, show(c)), lbody, R_MOD + ln, stubs=stubs, modes=c12.FIXED)
            for n, c in enumerate(full_sets(G, kind, False)):
                def body(K, g=g, kind=kind, c=c):
                    Case(K, g, kind, False, c, positional=True).sampling()
                ck.case("%s, by position %d" % (kn, n), body, R.KER + kn, stubs=stubs, modes=c12.FIXED)
            for n, c in enumerate(full_sets(G, kind, True)):
                for pos in (True, False):
                    def body(K, g=g, kind=kind, c=c, pos=pos):
                        o = Case(K, g, kind, True, c, positional=pos)
                        o.sampling()
                        o.convolution()
                    ck.case("%s, by %s %d" % (ln, "position" if pos else "keyword", n), body, R_MOD + ln, stubs=stubs,
                            modes=c12.FIXED)
            for c in CONV:
                def body(K, g=g, kind=kind, c=c):
                    Case(K, g, kind, True, c).convolution()
                ck.case("%s, %s" % (ln, show(c)), body, R_MOD + ln, stubs=stubs, modes=c12.FIXED)
    so3(ck, stubs)
    for kind in c12.KINDS:
        for d in (2, 3):
            for n in (0, 1):
                def body(K, kind=kind, d=d, n=n):
                    base(K, kind, d, n)
                ck.case("%s%dd, by position %d" % (LAYER[kind], d, n), body, LY.MOD + LAYER[kind] + "%dd" % d, modes=c12.FIXED)


def base(K, kind, d, n):
    """A base layer with all options by position."""
    ly = LY.Layer(K, kind, d, groups=None, bias=False)
    st, p, dl, mode, bias = [((2,) * d, 1, (1,) * d, "circular", True), ((1,) * d, 2, (2,) * d, "zeros", False)][n]
    vals = {"in": K.int(ly.ci), "out": K.int(ly.co), "kernel_size": tuple(K.int(k) for k in ly.ks),
            "group_kernel_size": K.int(ly.N), "kernel": ly.kernel, "groups": K.int(ly.gr), "stride": st, "padding": p,
            "dilation": dl, "padding_mode": mode, "bias": bias}
    ly.layer = K.call(LY.MOD + ly.name, *[vals[m] for m in BASE_L])
    ly.record()
    ly.find_bias(bias)
    ly.check(Opts(d, [tt(s) for s in st], [tt(p)] * d, None, [tt(s) for s in dl], mode))


def so3(ck, stubs):
    ent = R.KER + "GSubgroupKernelSO3"
    for pos in (True, False):
        for c in ({}, {"sampling_mode": "nearest"}, {"groups": True}, {"sampling_mode": "rbf", "groups": True},
                  {"sampling_mode": "nearest", "groups": True}, {"group_kernel_size": 3}):
            full = set(c) >= {"sampling_mode", "groups"}
            if pos and not full:
                continue

            def body(K, c=c, pos=pos):
                G = Group("SO3")
                gr = K.size("G") if "groups" in c else ONE
                og, cig = K.size("Og"), K.size("Ig")
                w, hkw = c12.subkernel_args(G, K)
                vals = {"in": K.int(gr * cig), "out": K.int(gr * og), "groups": K.int(gr)}
                vals.update(w)
                if "sampling_mode" in c:
                    vals["sampling_mode"] = c["sampling_mode"]
                if "group_kernel_size" in c:
                    n = vals["group_kernel_size"] = c["group_kernel_size"]
                    gridH = None
                else:
                    gridH = vals["grid_H"] = G.grid(K, "gridH", K.size("N"))
                    vals["group_kernel_size"] = 7
                if pos:
                    k = K.call(ent, *[vals[m] for m in SUB_K])
                else:
                    a = [vals.pop(m) for m in ("in", "out", "group_kernel_size")]
                    if "groups" not in c:
                        vals.pop("groups")
                    k = K.call(ent, *a, **vals)
                if gridH is None:
                    bs = [b for _, b in SL.buffers(k) if b.ndim == 3 and X.same_size(b.shape[0], tt(n))]
                    K.require(len(bs) == 1, "group_kernel_size", "the default reference grid has %d elements" % n,
                              "registered buffers have shapes %s" % [X.show_shape(b.shape) for _, b in SL.buffers(k)])
                    gridH = bs[0]
                    c12.valid_grid(K, G, gridH, n, "default reference grid")
                else:
                    c12.buffer_grid(K, k, gridH, "grid_H")
                c12.check_kernel(K, G, "subgroup", k, gr * og, cig, 1, gridH, hkw, hmode=c.get("sampling_mode", "rbf"))
            ck.case("GSubgroupKernelSO3, %s%s" % (show(c), ", by position" if pos else ""), body, ent, stubs=stubs,
                    modes=c12.FIXED)
