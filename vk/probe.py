"""A merge method registered through the documented decorator that records what the
merge engine hands to a merge method: which tensors, in which order, which parameters.

Input checkpoints carry an identity code in every element, so each tensor the engine
passes in identifies the model and the weight it was really read from.  The output of
every call is filled with the call's sequence number, so the finished checkpoint maps
each output name back to the call that produced it.
"""

import threading
from typing import List, Optional

import torch
from mergekit.architecture import WeightInfo
from mergekit.common import ModelReference
from mergekit.merge_methods.easy_define import merge_method

CALLS = []
_lock = threading.Lock()
UNSET = -12345.0


def reset():
    CALLS.clear()


def _record(kind, tensors, base_tensor, per_model, scalars, output_weight, base_model):
    def ident(t):
        if t is None:
            return None
        v = t.reshape(-1)
        return (float(v[0]), bool((v == v[0]).all()), tuple(t.shape), str(t.dtype))

    with _lock:
        seq = len(CALLS) + 1
        CALLS.append(dict(kind=kind, seq=seq, tensors=[ident(t) for t in tensors], base=ident(base_tensor),
                          per_model=per_model, scalars=scalars, name=output_weight.name,
                          base_model=str(base_model) if base_model is not None else None))
    ref = tensors[0] if tensors else base_tensor
    return torch.full_like(ref, float(seq))


@merge_method(name="vk_probe", pretty_name="probe")
def _probe(tensors: List[torch.Tensor], output_weight: WeightInfo, alpha: List[float], beta: List[float] = UNSET,
           gamma: float = UNSET, delta: float = UNSET):
    return _record("plain", tensors, None, dict(alpha=list(alpha), beta=list(beta)), dict(gamma=gamma, delta=delta),
                   output_weight, None)


@merge_method(name="vk_probe_base", pretty_name="probe with base")
def _probe_base(tensors: List[torch.Tensor], output_weight: WeightInfo, base_model: Optional[ModelReference],
                alpha: List[float], base_tensor: Optional[torch.Tensor] = None, beta: List[float] = UNSET,
                gamma: float = UNSET, delta: float = UNSET):
    return _record("base", tensors, base_tensor, dict(alpha=list(alpha), beta=list(beta)),
                   dict(gamma=gamma, delta=delta), output_weight, base_model)


@merge_method(name="vk_probe_opt", pretty_name="probe, all optional")
def _probe_opt(tensors: List[torch.Tensor], output_weight: WeightInfo, alpha: List[float] = UNSET,
               beta: List[float] = UNSET, gamma: float = UNSET, delta: float = UNSET):
    return _record("plain", tensors, None, dict(alpha=list(alpha), beta=list(beta)), dict(gamma=gamma, delta=delta),
                   output_weight, None)
