"""Model of torch.nn: modules and their state, written as interpreted source over native primitives."""
import ast

from . import terms as T
from . import tensor as X
from .terms import ZERO, ONE, tt
from .tensor import Tensor, Num, Incomplete, LibError, num_term, mknum, is_num, norm, ctx
from .lib import LIB, METHODS, Lazy, to_device, to_dtype, DType
from .torchlib import func, need, to_, set_requires, detach, is_leaf, copy_of, const_tensor
from . import funclib  # noqa: F401


def _I():
    from . import interp
    return interp


SRC = '''
import torch
import torch.nn.functional as F
from torch import _g


class Module:
    training = True

    def __init__(self, *args, **kwargs):
        _g.module_init(self)

    def __call__(self, *args, **kwargs):
        _g.check_init(self)
        return self.forward(*args, **kwargs)

    def forward(self, *args, **kwargs):
        raise NotImplementedError("Module is missing the required forward function")

    def register_buffer(self, name, tensor, persistent=True):
        _g.register_buffer(self, name, tensor, persistent)

    def register_parameter(self, name, param):
        _g.register_parameter(self, name, param)

    def add_module(self, name, module):
        _g.add_module(self, name, module)

    def register_module(self, name, module):
        _g.add_module(self, name, module)

    def named_parameters(self, prefix="", recurse=True, remove_duplicate=True):
        return _g.named(self, "params", prefix, recurse)

    def parameters(self, recurse=True):
        return [p for _, p in _g.named(self, "params", "", recurse)]

    def named_buffers(self, prefix="", recurse=True, remove_duplicate=True):
        return _g.named(self, "buffers", prefix, recurse)

    def buffers(self, recurse=True):
        return [b for _, b in _g.named(self, "buffers", "", recurse)]

    def named_children(self):
        return _g.children(self)

    def children(self):
        return [m for _, m in _g.children(self)]

    def named_modules(self, memo=None, prefix="", remove_duplicate=True):
        return _g.all_modules(self, prefix)

    def modules(self):
        return [m for _, m in _g.all_modules(self, "")]

    def get_parameter(self, target):
        return _g.find(self, "params", target)

    def get_buffer(self, target):
        return _g.find(self, "buffers", target)

    def state_dict(self, destination=None, prefix="", keep_vars=False):
        return _g.state_dict(self, prefix)

    def load_state_dict(self, state_dict, strict=True, assign=False):
        return _g.load_state_dict(self, state_dict, strict)

    def to(self, *args, **kwargs):
        _g.move(self, *args, **kwargs)
        return self

    def cuda(self, device=None):
        _g.move(self, "cuda" if device is None else device)
        return self

    def cpu(self):
        _g.move(self, "cpu")
        return self

    def float(self):
        _g.move(self, torch.float32)
        return self

    def double(self):
        _g.move(self, torch.float64)
        return self

    def half(self):
        _g.move(self, torch.float16)
        return self

    def type(self, dst_type):
        _g.move(self, dst_type)
        return self

    def train(self, mode=True):
        self.training = mode
        for m in self.children():
            m.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, requires_grad=True):
        for p in self.parameters():
            p.requires_grad_(requires_grad)
        return self

    def zero_grad(self, set_to_none=True):
        for p in self.parameters():
            p.grad = None

    def apply(self, fn):
        for m in self.children():
            m.apply(fn)
        fn(self)
        return self

    def extra_repr(self):
        return ""

    def __setattr__(self, name, value):
        _g.module_setattr(self, name, value)


class Identity(Module):
    def __init__(self, *args, **kwargs):
        super().__init__()

    def forward(self, input):
        return input


class Sequential(Module):
    def __init__(self, *args):
        super().__init__()
        if len(args) == 1 and isinstance(args[0], dict):
            for k, m in args[0].items():
                self.add_module(k, m)
        else:
            for k, m in enumerate(args):
                self.add_module(str(k), m)

    def __len__(self):
        return len(self.children())

    def __iter__(self):
        return iter(self.children())

    def __getitem__(self, k):
        if isinstance(k, slice):
            return type(self)(dict(list(self._modules.items())[k]))
        return self.children()[k]

    def append(self, module):
        self.add_module(str(len(self)), module)
        return self

    def forward(self, input):
        for m in self.children():
            input = m(input)
        return input


class ModuleList(Module):
    def __init__(self, modules=None):
        super().__init__()
        if modules is not None:
            for k, m in enumerate(modules):
                self.add_module(str(k), m)

    def __len__(self):
        return len(self.children())

    def __iter__(self):
        return iter(self.children())

    def __getitem__(self, k):
        if isinstance(k, slice):
            return type(self)(self.children()[k])
        if isinstance(k, str):
            raise TypeError("list indices must be integers")
        return self.children()[k]

    def append(self, module):
        self.add_module(str(len(self)), module)
        return self

    def extend(self, modules):
        for m in modules:
            self.append(m)
        return self


class ModuleDict(Module):
    def __init__(self, modules=None):
        super().__init__()
        if modules is not None:
            for k, m in modules.items():
                self.add_module(k, m)

    def __getitem__(self, k):
        return self._modules[k]

    def __setitem__(self, k, m):
        self.add_module(k, m)

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules)

    def __contains__(self, k):
        return k in self._modules

    def keys(self):
        return self._modules.keys()

    def items(self):
        return self._modules.items()

    def values(self):
        return self._modules.values()

    def update(self, modules):
        for k, m in modules.items():
            self.add_module(k, m)


class ParameterList(Module):
    def __init__(self, values=None):
        super().__init__()
        if values is not None:
            for k, p in enumerate(values):
                self.register_parameter(str(k), p)

    def __len__(self):
        return len(self.parameters())

    def __iter__(self):
        return self.parameters()

    def __getitem__(self, k):
        return self.parameters()[k]


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = torch.nn.Parameter(torch.empty(out_features, in_features, device=device))
        torch.nn.init.kaiming_uniform_(self.weight)
        if bias:
            self.bias = torch.nn.Parameter(torch.empty(out_features, device=device))
            torch.nn.init.uniform_(self.bias)
        else:
            self.register_parameter("bias", None)

    def forward(self, input):
        return F.linear(input, self.weight, self.bias)


class _Pool(Module):
    _nd = 2
    _kind = "max"


class _MaxPoolNd(Module):
    def __init__(self, kernel_size, stride=None, padding=0, dilation=1, return_indices=False, ceil_mode=False):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = stride if stride is not None else kernel_size
        self.padding = padding
        self.dilation = dilation
        self.return_indices = return_indices
        self.ceil_mode = ceil_mode


class MaxPool1d(_MaxPoolNd):
    def forward(self, input):
        return F.max_pool1d(input, self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode, return_indices=self.return_indices)


class MaxPool2d(_MaxPoolNd):
    def forward(self, input):
        return F.max_pool2d(input, self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode, return_indices=self.return_indices)


class MaxPool3d(_MaxPoolNd):
    def forward(self, input):
        return F.max_pool3d(input, self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode, return_indices=self.return_indices)


class _AvgPoolNd(Module):
    pass


class AvgPool2d(_AvgPoolNd):
    def __init__(self, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = stride if stride is not None else kernel_size
        self.padding = padding
        self.ceil_mode = ceil_mode
        self.count_include_pad = count_include_pad
        self.divisor_override = divisor_override

    def forward(self, input):
        return F.avg_pool2d(input, self.kernel_size, self.stride, self.padding, self.ceil_mode, self.count_include_pad, self.divisor_override)


class AvgPool3d(AvgPool2d):
    def forward(self, input):
        return F.avg_pool3d(input, self.kernel_size, self.stride, self.padding, self.ceil_mode, self.count_include_pad, self.divisor_override)


class _AdaptiveMaxPoolNd(Module):
    def __init__(self, output_size, return_indices=False):
        super().__init__()
        self.output_size = output_size
        self.return_indices = return_indices


class AdaptiveMaxPool2d(_AdaptiveMaxPoolNd):
    def forward(self, input):
        return F.adaptive_max_pool2d(input, self.output_size, self.return_indices)


class AdaptiveMaxPool3d(_AdaptiveMaxPoolNd):
    def forward(self, input):
        return F.adaptive_max_pool3d(input, self.output_size, self.return_indices)


class _AdaptiveAvgPoolNd(Module):
    def __init__(self, output_size):
        super().__init__()
        self.output_size = output_size


class AdaptiveAvgPool2d(_AdaptiveAvgPoolNd):
    def forward(self, input):
        return F.adaptive_avg_pool2d(input, self.output_size)


class AdaptiveAvgPool3d(_AdaptiveAvgPoolNd):
    def forward(self, input):
        return F.adaptive_avg_pool3d(input, self.output_size)


class _NormBase(Module):
    _affine = True
    _track = True

    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=None, track_running_stats=None, device=None, dtype=None):
        super().__init__()
        self.num_features = num_features
        self.eps = eps
        self.momentum = momentum
        self.affine = self._affine if affine is None else affine
        self.track_running_stats = self._track if track_running_stats is None else track_running_stats
        if self.affine:
            self.weight = torch.nn.Parameter(torch.ones(num_features, device=device))
            self.bias = torch.nn.Parameter(torch.zeros(num_features, device=device))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)
        if self.track_running_stats:
            self.register_buffer("running_mean", torch.zeros(num_features, device=device))
            self.register_buffer("running_var", torch.ones(num_features, device=device))
            self.register_buffer("num_batches_tracked", torch.tensor(0, dtype=torch.long))
        else:
            self.register_buffer("running_mean", None)
            self.register_buffer("running_var", None)
            self.register_buffer("num_batches_tracked", None)


class _BatchNorm(_NormBase):
    _dims = (4,)

    def forward(self, input):
        if input.dim() not in self._dims:
            raise ValueError("expected input of another rank")
        factor = 0.0 if self.momentum is None else self.momentum
        if self.training and self.track_running_stats:
            if self.num_batches_tracked is not None:
                self.num_batches_tracked.add_(1)
                if self.momentum is None:
                    factor = 1.0 / float(self.num_batches_tracked)
        keep = not self.training or self.track_running_stats
        use = self.training or (self.running_mean is None and self.running_var is None)
        return F.batch_norm(input, self.running_mean if keep else None, self.running_var if keep else None, self.weight, self.bias,
                            use, factor, self.eps)


class BatchNorm1d(_BatchNorm):
    _dims = (2, 3)


class BatchNorm2d(_BatchNorm):
    _dims = (4,)


class BatchNorm3d(_BatchNorm):
    _dims = (5,)


class _InstanceNorm(_NormBase):
    _affine = False
    _track = False
    _dims = (3, 4)

    def forward(self, input):
        if input.dim() not in self._dims:
            raise ValueError("expected input of another rank")
        if input.dim() == self._dims[0]:
            return self._run(input.unsqueeze(0)).squeeze(0)
        return self._run(input)

    def _run(self, input):
        use = self.training or not self.track_running_stats
        return F.instance_norm(input, self.running_mean, self.running_var, self.weight, self.bias, use,
                               0.0 if self.momentum is None else self.momentum, self.eps)


class InstanceNorm1d(_InstanceNorm):
    _dims = (2, 3)


class InstanceNorm2d(_InstanceNorm):
    _dims = (3, 4)


class InstanceNorm3d(_InstanceNorm):
    _dims = (4, 5)


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True, bias=True, device=None, dtype=None):
        super().__init__()
        self.normalized_shape = normalized_shape if isinstance(normalized_shape, (tuple, list)) else (normalized_shape,)
        self.normalized_shape = tuple(self.normalized_shape)
        self.eps = eps
        self.elementwise_affine = elementwise_affine
        if elementwise_affine:
            self.weight = torch.nn.Parameter(torch.ones(self.normalized_shape, device=device))
            if bias:
                self.bias = torch.nn.Parameter(torch.zeros(self.normalized_shape, device=device))
            else:
                self.register_parameter("bias", None)
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def forward(self, input):
        return F.layer_norm(input, self.normalized_shape, self.weight, self.bias, self.eps)


class GroupNorm(Module):
    def __init__(self, num_groups, num_channels, eps=1e-5, affine=True, device=None, dtype=None):
        super().__init__()
        self.num_groups = num_groups
        self.eps = eps
        if affine:
            self.weight = torch.nn.Parameter(torch.ones(num_channels, device=device))
            self.bias = torch.nn.Parameter(torch.zeros(num_channels, device=device))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def forward(self, input):
        return F.group_norm(input, self.num_groups, self.weight, self.bias, self.eps)


class ReLU(Module):
    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace

    def forward(self, input):
        return F.relu(input, inplace=self.inplace)


class ReLU6(ReLU):
    def forward(self, input):
        return F.relu6(input, inplace=self.inplace)


class SiLU(ReLU):
    def forward(self, input):
        return F.silu(input, inplace=self.inplace)


class Mish(ReLU):
    def forward(self, input):
        return F.mish(input, inplace=self.inplace)


class SELU(ReLU):
    def forward(self, input):
        return F.selu(input, inplace=self.inplace)


class Hardswish(ReLU):
    def forward(self, input):
        return F.hardswish(input, inplace=self.inplace)


class GELU(Module):
    def __init__(self, approximate="none"):
        super().__init__()
        self.approximate = approximate

    def forward(self, input):
        return F.gelu(input, approximate=self.approximate)


class LeakyReLU(Module):
    def __init__(self, negative_slope=1e-2, inplace=False):
        super().__init__()
        self.negative_slope = negative_slope
        self.inplace = inplace

    def forward(self, input):
        return F.leaky_relu(input, self.negative_slope, self.inplace)


class ELU(Module):
    def __init__(self, alpha=1.0, inplace=False):
        super().__init__()
        self.alpha = alpha
        self.inplace = inplace

    def forward(self, input):
        return F.elu(input, self.alpha, inplace=self.inplace)


class PReLU(Module):
    def __init__(self, num_parameters=1, init=0.25, device=None, dtype=None):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.empty(num_parameters, device=device).fill_(init))

    def forward(self, input):
        return F.prelu(input, self.weight)


class Tanh(Module):
    def forward(self, input):
        return torch.tanh(input)


class Sigmoid(Module):
    def forward(self, input):
        return torch.sigmoid(input)


class Softplus(Module):
    def __init__(self, beta=1, threshold=20):
        super().__init__()
        self.beta = beta
        self.threshold = threshold

    def forward(self, input):
        return F.softplus(input, self.beta, self.threshold)


class Softmax(Module):
    def __init__(self, dim=None):
        super().__init__()
        self.dim = dim

    def forward(self, input):
        return F.softmax(input, self.dim)


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        super().__init__()
        self.p = p
        self.inplace = inplace

    def forward(self, input):
        return F.dropout(input, self.p, self.training)


class Dropout2d(Dropout):
    pass


class Dropout3d(Dropout):
    pass


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        super().__init__()
        self.start_dim = start_dim
        self.end_dim = end_dim

    def forward(self, input):
        return input.flatten(self.start_dim, self.end_dim)


class Unflatten(Module):
    def __init__(self, dim, unflattened_size):
        super().__init__()
        self.dim = dim
        self.unflattened_size = unflattened_size

    def forward(self, input):
        return input.unflatten(self.dim, self.unflattened_size)


class _ConvNd(Module):
    _nd = 2

    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__()
        nd = self._nd
        ks = kernel_size if isinstance(kernel_size, (tuple, list)) else (kernel_size,) * nd
        self.in_channels = in_channels
        self.out_channels = out_channels
        self.kernel_size = tuple(ks)
        self.stride = stride
        self.padding = padding
        self.dilation = dilation
        self.groups = groups
        self.weight = torch.nn.Parameter(torch.empty(out_channels, in_channels // groups, *ks, device=device))
        torch.nn.init.kaiming_uniform_(self.weight)
        if bias:
            self.bias = torch.nn.Parameter(torch.empty(out_channels, device=device))
            torch.nn.init.uniform_(self.bias)
        else:
            self.register_parameter("bias", None)


class Conv2d(_ConvNd):
    _nd = 2

    def forward(self, input):
        return F.conv2d(input, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups)


class Conv3d(_ConvNd):
    _nd = 3

    def forward(self, input):
        return F.conv3d(input, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups)


class MSELoss(Module):
    def forward(self, input, target):
        return F.mse_loss(input, target)
'''

_tree = None


def prelude(it):
    if it.prelude is None:
        global _tree
        if _tree is None:
            _tree = ast.parse(SRC, "<torch.nn>")
        it.prelude = it.load_prelude("torch.nn", _tree)
    return it.prelude


def module_class(it):
    m = it.prelude
    if m is None or not m.done:
        return m.ns.get("Module") if m is not None else None
    return m.ns["Module"]


_SUB = ("conv", "pooling", "activation", "batchnorm", "instancenorm", "normalization", "linear", "container", "module",
        "dropout", "flatten", "loss")


def lookup(it, path):
    parts = path.split(".")
    if parts[:2] == ["torch", "nn"]:
        if parts[-1] == "Parameter":
            return it.param_type
        if parts == ["torch", "nn", "parameter"]:
            return _I().Lib(path)
        if parts[:3] == ["torch", "nn", "modules"] and len(parts) == 4 and parts[3] in _SUB:
            return _I().Lib(path)
        if len(parts) == 3 or parts[2] == "modules":
            ns = prelude(it).ns
            if parts[-1] in ns and parts[-1][0] != "_" or parts[-1].startswith("_") and parts[-1].endswith("Nd") or \
                    parts[-1] in ("_BatchNorm", "_InstanceNorm", "_NormBase"):
                return ns.get(parts[-1])
        return None
    if path in ("torch.autograd", "torch.cuda", "torch.optim", "torch.linalg", "torch.jit", "torch.random", "torch.special",
                "torch.utils", "torch.utils.data", "torch.types", "torch.backends", "torch.distributions"):
        return _I().Lib(path)
    return None


def make_param_type(it):
    I = _I()

    def make(data=None, requires_grad=True):
        if data is None:
            data = X.mk((ZERO,), lambda i: ZERO)
        t = need(data, "Parameter data")
        if t.grad_deps and not (t.fwd is None and any(k == ("leaf", t.st.stamp) for k in t.st.grad)):
            t = copy_of(t)
            t.st.grad = frozenset()
        p = X._view(t, t.shape, lambda i: i, lambda b: (ONE, b), t.contig)
        if t.fwd is None and t.inv is None:
            p.fwd, p.inv = None, None
        p.is_param = True
        p.device = t.device
        if t.st.origin == "fresh":
            t.st.origin = ("param", "parameter")
        ctx().event("parameter", "parameter created", tensor=p)
        if requires_grad is True or (not isinstance(requires_grad, bool) and it.truth(requires_grad)):
            set_requires(p, True)
        return p
    return I.TypeV("Parameter", make, lambda v: isinstance(v, Tensor) and v.is_param)


# ------------------------------------------------------------------ module state
def _attr_error(msg):
    raise LibError("AttributeError", msg)


def module_setattr(it, o, name, v):
    try:
        _setattr(it, o, name, v)
    except LibError as e:
        it.raise_(e.cls, e.msg, lib=True)


def _setattr(it, o, name, v):
    I = _I()

    def drop(*ds):
        for d in ds:
            if d is not None:
                d.pop(name, None)
    if isinstance(v, Tensor) and v.is_param:
        if o.params is None:
            _attr_error("cannot assign parameters before Module.__init__() call")
        drop(o.attrs, o.buffers, o.modules)
        o.params[name] = v
        if v.st.origin == ("param", "parameter"):
            v.st.origin = ("param", name)
        v.leaf_name = v.leaf_name or name
        return
    if o.params is not None and name in o.params:
        if v is not None:
            raise LibError("TypeError", "cannot assign %r as parameter %r (torch.nn.Parameter or None expected)" % (
                type(v).__name__, name))
        o.params[name] = None
        return
    if isinstance(v, I.Instance) and it.is_module(v):
        if o.modules is None:
            _attr_error("cannot assign module before Module.__init__() call")
        drop(o.attrs, o.params, o.buffers)
        o.modules[name] = v
        return
    if o.modules is not None and name in o.modules:
        if v is not None:
            raise LibError("TypeError", "cannot assign %r as child module %r (torch.nn.Module or None expected)" % (
                type(v).__name__, name))
        o.modules[name] = None
        return
    if o.buffers is not None and name in o.buffers:
        if v is not None and not isinstance(v, Tensor):
            raise LibError("TypeError", "cannot assign %r as buffer %r (torch.Tensor or None expected)" % (type(v).__name__, name))
        ctx().event("state", "buffer %s is replaced" % name, module=o, name=name)
        o.buffers[name] = v
        return
    ctx().event("state", "attribute %s is set" % name, module=o, name=name)
    o.attrs[name] = v


def g(name):
    def deco(fn):
        LIB["torch._g." + name] = Lazy(lambda it: _I().Builtin(name, lambda *a, **k: fn(it, *a, **k)))
        return fn
    return deco


LIB["torch._g"] = Lazy(lambda it: _I().Lib("torch._g"))


@g("module_init")
def g_init(it, o):
    o.params, o.buffers, o.modules = {}, {}, {}
    o.native["persistent"] = {}
    o.attrs["training"] = True


@g("check_init")
def g_check(it, o):
    if o.params is None:
        _attr_error("%r object has no attribute '_backward_hooks' (Module.__init__ was not called)" % o.cls.name)


@g("module_setattr")
def g_setattr(it, o, name, v):
    _setattr(it, o, name, v)


@g("register_buffer")
def g_rb(it, o, name, t, persistent=True):
    if o.buffers is None:
        _attr_error("cannot assign buffer before Module.__init__() call")
    if not isinstance(name, str):
        raise LibError("TypeError", "buffer name should be a string")
    if "." in name or name == "":
        raise LibError("KeyError", "buffer name can't contain \".\" or be empty")
    if (name in o.attrs or name in o.params or name in o.modules or o.cls.lookup(name)[1] is not None) and name not in o.buffers:
        raise LibError("KeyError", "attribute %r already exists" % name)
    if t is not None and not isinstance(t, Tensor):
        raise LibError("TypeError", "cannot assign %r object to buffer %r (torch Tensor or None required)" % (
            type(t).__name__, name))
    o.buffers[name] = t
    o.native["persistent"][name] = it.truth(persistent)
    if t is not None and t.st.origin == "fresh":
        t.st.origin = ("buffer", name)


@g("register_parameter")
def g_rp(it, o, name, p):
    if o.params is None:
        _attr_error("cannot assign parameter before Module.__init__() call")
    if not isinstance(name, str):
        raise LibError("TypeError", "parameter name should be a string")
    if "." in name or name == "":
        raise LibError("KeyError", "parameter name can't contain \".\"")
    if (name in o.attrs or name in o.buffers or name in o.modules or o.cls.lookup(name)[1] is not None) and name not in o.params:
        raise LibError("KeyError", "attribute %r already exists" % name)
    if p is None:
        o.params[name] = None
        return
    if not isinstance(p, Tensor) or not p.is_param:
        raise LibError("TypeError", "cannot assign %r object to parameter %r (torch.nn.Parameter or None required)" % (
            type(p).__name__, name))
    _setattr(it, o, name, p)


@g("add_module")
def g_am(it, o, name, m):
    if o.modules is None:
        _attr_error("cannot assign module before Module.__init__() call")
    if m is not None and not (isinstance(m, _I().Instance) and it.is_module(m)):
        raise LibError("TypeError", "%r is not a Module subclass" % (m,))
    o.modules[name] = m


def walk(o, prefix="", seen=None):
    seen = [] if seen is None else seen
    if any(o is x for x in seen):
        return
    seen.append(o)
    yield prefix, o
    for k, m in (o.modules or {}).items():
        if m is not None:
            yield from walk(m, prefix + ("." if prefix else "") + k, seen)


def named(o, what, prefix="", recurse=True):
    out = []
    seen = []
    for pre, m in (walk(o, prefix) if recurse else [(prefix, o)]):
        for k, t in (getattr(m, what) or {}).items():
            if t is None or any(t is x for x in seen):
                continue
            seen.append(t)
            out.append((pre + ("." if pre else "") + k, t, m, k))
    return out


@g("named")
def g_named(it, o, what, prefix, recurse):
    return _I().PyList([(n, t) for n, t, _, _ in named(o, what, prefix, recurse)])


@g("children")
def g_children(it, o):
    return _I().PyList([(k, m) for k, m in (o.modules or {}).items() if m is not None])


@g("all_modules")
def g_all(it, o, prefix):
    return _I().PyList([(k, m) for k, m in walk(o, prefix)])


@g("find")
def g_find(it, o, what, target):
    for n, t, _, _ in named(o, what):
        if n == target:
            return t
    _attr_error("no attribute %s" % target)


@g("state_dict")
def g_state(it, o, prefix=""):
    d = _I().PyDict()
    for pre, m in walk(o):
        for k, t in (m.params or {}).items():
            if t is not None:
                d.d[prefix + pre + ("." if pre else "") + k] = detach(t)
        for k, t in (m.buffers or {}).items():
            if t is not None and m.native["persistent"].get(k, True):
                d.d[prefix + pre + ("." if pre else "") + k] = detach(t)
    return d


@g("load_state_dict")
def g_load(it, o, sd, strict=True):
    own = {}
    for pre, m in walk(o):
        for k, t in list((m.params or {}).items()) + [
                (k, t) for k, t in (m.buffers or {}).items() if m.native["persistent"].get(k, True)]:
            if t is not None:
                own[pre + ("." if pre else "") + k] = t
    miss = [k for k in own if k not in sd.d]
    extra = [k for k in sd.d if k not in own]
    if strict and (miss or extra):
        raise LibError("RuntimeError", "Error(s) in loading state_dict: missing %s, unexpected %s" % (miss, extra))
    c = ctx()
    old = c.grad_on
    c.grad_on = False
    try:
        for k, t in own.items():
            if k in sd.d:
                v = sd.d[k]
                if len(v.shape) != t.ndim or not all(X.same_size(a, b) for a, b in zip(v.shape, t.shape)):
                    raise LibError("RuntimeError", "size mismatch for %s" % k)
                X.write(t, to_(v, t.device), "load_state_dict")
    finally:
        c.grad_on = old
    return _I().Native("keys")


@g("move")
def g_move(it, o, *a, device=None, dtype=None, non_blocking=False, memory_format=None):
    I = _I()
    dev, dt = device, dtype
    for x in a:
        if isinstance(x, Tensor):
            dev, dt = x.device, DType(x.dtype)
        elif isinstance(x, (DType, I.TypeV)):
            dt = x
        elif isinstance(x, bool) or x is None:
            pass
        else:
            dev = x
    dev = None if dev is None else to_device(it, dev)
    d = to_dtype(dt)
    for pre, m in walk(o):
        for k, t in (m.params or {}).items():
            if t is None:
                continue
            if dev is not None:
                t.device = dev
            if d is not None and X.is_float(t.dtype):
                t.dtype = d
        for k, t in list((m.buffers or {}).items()):
            if t is None:
                continue
            m.buffers[k] = to_(t, dev, d if d is not None and X.is_float(t.dtype) else None)
