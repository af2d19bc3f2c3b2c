"""An emulated accelerator: a second torch device, computing on the CPU but refusing what real devices refuse

Tensors on the device "acc" carry their data in a CPU tensor out of reach of the code under test.  Every operation is
observed: operands on different devices raise, as they do on a graphics card (except for the few mixtures torch allows).
"""
import types

import torch
from torch.overrides import TorchFunctionMode
from torch.utils import _pytree as pytree
from torch.utils._python_dispatch import TorchDispatchMode, return_and_correct_aliasing
from torch.utils.backend_registration import _setup_privateuseone_for_python_backend

_setup_privateuseone_for_python_backend("acc")
DEVICE = torch.device("acc:0")
aten = torch.ops.aten

# Operations which real devices allow to mix with the CPU
MIXING = {aten.copy_.default, aten._to_copy.default, aten.set_.source_Tensor}
INDEXING = {"aten::index", "aten::index_put", "aten::index_put_", "aten::_index_put_impl_", "aten::_unsafe_index"}


class DeviceError(RuntimeError):
    """Operands on different devices"""


class Acc(torch.Tensor):
    """A tensor on the emulated device"""

    @staticmethod
    def __new__(cls, inner):
        return torch.Tensor._make_wrapper_subclass(
            cls, inner.shape, strides=inner.stride(), storage_offset=inner.storage_offset(), dtype=inner.dtype,
            device=DEVICE, requires_grad=False)

    def __init__(self, inner):
        self.inner = inner

    def __repr__(self, **kwargs):
        return f"Acc({self.inner})"

    def __tensor_flatten__(self):
        return ["inner"], None

    @staticmethod
    def __tensor_unflatten__(inner, meta, size, stride):
        return Acc(inner["inner"])

    @classmethod
    def __torch_dispatch__(cls, func, kinds, args=(), kwargs=None):
        return run(func, args, kwargs or {}, None)


def is_acc(d):
    return d is not None and torch.device(d).type == "acc"


def run(func, args, kwargs, log):
    """Do what the device would do"""
    flat, spec = pytree.tree_flatten((args, kwargs))
    on = [x for x in flat if isinstance(x, Acc)]
    off = [x for x in flat if isinstance(x, torch.Tensor) and not isinstance(x, Acc)]
    target = kwargs.get("device")
    if not on and not is_acc(target):
        return func(*args, **kwargs)
    if log is not None:
        log[0] += 1
    if on and off and func not in MIXING:
        bad = [x for x in off if x.dim() > 0]
        if func._schema.name in INDEXING and isinstance(args[0], Acc):
            extra = [x for x in args[1] if x is not None]
            bad = [x for x in bad if not any(x is y for y in extra)]
        if bad:
            raise DeviceError(f"Expected all tensors to be on the same device: {func} with shapes "
                              f"{[tuple(x.shape) for x in on]} on acc and {[tuple(x.shape) for x in bad]} on cpu")
    inner = [x.inner if isinstance(x, Acc) else x for x in flat]
    a, k = pytree.tree_unflatten(inner, spec)
    back = bool(on)
    if target is not None:
        back = is_acc(target)
        k = {**k, "device": torch.device("cpu")}
    if func is aten.copy_.default:
        func(*a, **k)
        return args[0]
    out = func(*a, **k)
    if func is aten._to_copy.default or (target is not None and on):
        # a change of device is a copy
        if any(out is x for x in inner):
            out = out.clone()
        return pytree.tree_map_only(torch.Tensor, Acc, out) if back else out
    out = pytree.tree_map_only(torch.Tensor, Acc, out)
    if not on:
        return out
    return return_and_correct_aliasing(func, args, kwargs, out)


class _Make(TorchFunctionMode):
    """Tensors made of Python data, which torch does not show to the observer of operations"""

    def __torch_function__(self, func, kinds, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        if func is torch.Tensor.tolist and isinstance(args[0], Acc):
            return args[0].inner.tolist()
        if func in (torch.tensor, torch.as_tensor, torch.asarray, torch.scalar_tensor):
            data = args[0] if args else kwargs.get("data", kwargs.get("obj"))
            dev = kwargs.get("device")
            if isinstance(data, Acc):
                return data.clone() if dev is None else data.to(dev)
            if isinstance(data, (list, tuple)):
                data = pytree.tree_map_only(Acc, lambda x: x.item(), data)
                args = (data, *args[1:])
            if is_acc(dev):
                kwargs["device"] = "cpu"
                grad = kwargs.pop("requires_grad", False)
                return func(*args, **kwargs).to(DEVICE).requires_grad_(grad)
        return func(*args, **kwargs)


class _Operations(TorchDispatchMode):
    """Everything else"""

    def __init__(self, log):
        super().__init__()
        self.log = log

    def __torch_dispatch__(self, func, kinds, args=(), kwargs=None):
        return run(func, args, kwargs or {}, self.log)


class Watch:
    """Observes every operation"""

    def __init__(self):
        self.log = [0]
        self.modes = [_Make(), _Operations(self.log)]

    def __enter__(self):
        for m in self.modes:
            m.__enter__()
        return self

    def __exit__(self, *a):
        for m in reversed(self.modes):
            m.__exit__(*a)


def send(x):
    """CPU tensor to the device"""
    return Acc(x.detach().clone())


def fetch(x):
    """Back, for the oracles"""
    return x.inner.detach().clone()


class Mover:
    """Moves every tensor reachable from an object, keeping what is shared shared"""

    def __init__(self):
        self.done, self.keep = {}, []

    def tensor(self, x):
        if isinstance(x, Acc):
            return x
        if id(x) not in self.done:
            n = send(x)
            if isinstance(x, torch.nn.Parameter):
                n = torch.nn.Parameter(n, requires_grad=x.requires_grad)
            elif x.requires_grad:
                n.requires_grad_(True)
            self.done[id(x)] = n
            self.keep.append(x)
        return self.done[id(x)]

    def __call__(self, o):
        if isinstance(o, torch.Tensor):
            return self.tensor(o)
        if isinstance(o, tuple) and type(o) is tuple:
            return tuple(self(x) for x in o)
        if o is None or isinstance(o, (str, bytes, int, float, complex, type, types.ModuleType, torch.dtype,
                                       torch.device)):
            return o
        if id(o) in self.done:
            return o
        self.done[id(o)] = o
        self.keep.append(o)
        if isinstance(o, list):
            o[:] = [self(x) for x in o]
        elif isinstance(o, dict):
            for k in list(o):
                o[k] = self(o[k])
        elif isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                n = self(v)
                if n is not v:
                    c.cell_contents = n
        elif isinstance(o, types.MethodType):
            self(o.__self__)
        elif hasattr(o, "__dict__"):
            self(o.__dict__)
        return o
