"""P31: merge methods written against the documented interface get what was configured."""

import itertools
import os
import threading
from typing import Any, Dict, List, Optional

import torch
from mergekit.architecture import WeightInfo
from mergekit.common import ImmutableMap, ModelReference
from mergekit.config import MergeConfiguration
from mergekit.graph import Task
from mergekit.merge import run_merge
from mergekit.merge_methods.base import ConfigParameterDef, MergeMethod, MergeTensorInput
from mergekit.merge_methods.easy_define import merge_method
from mergekit.merge_methods.registry import REGISTERED_MERGE_METHODS
from mergekit.options import MergeOptions

from vk.ckpt import read_checkpoint
from vk.core import Check, Workload
from vk.models import llama_config, llama_shapes, write_ckpt

COUNT = itertools.count(1)
LOCK = threading.Lock()
CALLS = []
GONE = object()


def ident(t):
    """which model and weight a tensor comes from (every element says so)"""
    if t is None:
        return None
    v = t.reshape(-1)
    return (int(v[0]) // 100, int(v[0]) % 100) if bool((v == v[0]).all()) else "mixed"


def called(**kw):
    with LOCK:
        CALLS.append(kw)
        return len(CALLS)


def models(ctx, rng, n, layers):
    """n checkpoints whose elements name the model and weight -> paths, names"""
    cfg = llama_config(layers=layers, hidden=4, inter=6, heads=2, vocab=8)
    names = sorted(llama_shapes(cfg))
    paths = []
    for m in range(n):
        t = {nm: torch.full(sh, float(m * 100 + i)) for i, (nm, sh) in enumerate((k, llama_shapes(cfg)[k]) for k in names)}
        p = ctx.path(f"m{m}")
        write_ckpt(p, cfg, t, rng.choice(["st", "bin"]), rng.choice([None, 2]), rng)
        paths.append(p)
    return paths, names


SCALARS = dict(int=lambda r: r.choice([0, 1, -3, 7]), float=lambda r: r.choice([0.0, 0.25, -1.5, 1e-8, 3.0]), bool=lambda r: r.random() < 0.5)


def signature(rng):
    """A function's arguments -> (source of them, description)"""
    d = dict(base=rng.choice([None, "torch.Tensor", "Optional[torch.Tensor]", "Optional[torch.Tensor] = None"]), weight=rng.random() < 0.7, ref=rng.random() < 0.5, scalars={}, vectors={})
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        ty = rng.choice(sorted(SCALARS))
        d["scalars"][f"s{i}"] = (ty, GONE if rng.random() < 0.4 else SCALARS[ty](rng))
    for i in range(rng.choice([0, 1, 1, 2])):
        ty = rng.choice(["int", "float"])
        d["vectors"][f"v{i}"] = (rng.choice(["List", "list"]) + f"[{ty}]", GONE if rng.random() < 0.4 else SCALARS[ty](rng))
    args = ["output_weight: WeightInfo"] * d["weight"] + ["base_model: Optional[ModelReference]"] * d["ref"] + ([f"base_tensor: {d['base']}"] if d["base"] else [])
    for nm, (ty, dv) in {**d["scalars"], **d["vectors"]}.items():
        args.append(f"{nm}: {ty}" + ("" if dv is GONE else f" = {dv!r}"))
    rng.shuffle(args)
    if rng.random() < 0.5:
        args = ["*"] * bool(args) + args  # by keyword only
    else:
        args.sort(key=lambda a: "=" in a)
    return ", ".join(["tensors: " + rng.choice(["List", "list"]) + "[torch.Tensor]"] + args), d


def wl_decorator(ctx, rng):
    args, d = signature(rng)
    name = rng.choice(["vk_method_{}", "vk method {}", "VK-Method.{}"]).format(next(COUNT))
    pretty, url = rng.choice([None, f"Méthode no. {rng.randrange(100)}"]), rng.choice([None, "https://example.com/paper"])
    n = rng.choice([1, 2, 2, 3, 4])
    layers = rng.choice([1, 2])
    paths, names = models(ctx, rng, n, layers)
    base = rng.choice([None, "in", "in", "out"])
    order = rng.sample(range(n), n)
    if base == "out":
        if n == 1:
            base = None
        else:
            b, order = order[0], order[1:]
    if base == "in":
        b = rng.choice(order)
    if base is None:
        b = None
    env = dict(List=List, Optional=Optional, torch=torch, WeightInfo=WeightInfo, ModelReference=ModelReference)
    exec(f"def f({args}):\n    return record(locals())\n", env)

    def record(kw):
        seq = called(tensors=[ident(t) for t in kw["tensors"]], base=ident(kw["base_tensor"]) if "base_tensor" in kw else GONE,
                     weight=getattr(kw.get("output_weight"), "name", None), ref=str(kw["base_model"]) if kw.get("base_model") is not None else None,
                     params={k: v for k, v in kw.items() if k[0] in "sv" and k[1:].isdigit()})
        return torch.full_like((kw["tensors"] + [kw.get("base_tensor")])[0], float(seq))

    env["record"] = record
    f = env["f"]
    ctx.ok(merge_method(name=name, pretty_name=pretty, reference_url=url)(f) is f, "decorator", lambda: "does not return the function")
    # configuration, and what it means
    c = dict(merge_method=name, dtype="float32", models=[dict(model=paths[i]) for i in order])
    if b is not None:
        c["base_model"] = paths[b]
    missing = False
    want_s, top, per = {}, {}, {i: {} for i in order}
    for nm, (ty, dv) in d["scalars"].items():
        if rng.random() < 0.65:
            top[nm] = want_s[nm] = SCALARS[ty](rng)
        elif dv is not GONE:
            want_s[nm] = dv
        else:
            missing = True
    want_v = {}
    for nm, (ty, dv) in d["vectors"].items():
        ty = ty[5:-1]
        glob = SCALARS[ty](rng) if rng.random() < 0.4 else None
        if glob is not None:
            top[nm] = glob
        want_v[nm] = {}
        for i in sorted(set(order) | ({b} if b is not None else set())):
            if i in per and rng.random() < (0.9 if dv is GONE else 0.5):
                per[i][nm] = want_v[nm][i] = SCALARS[ty](rng)
            elif glob is not None:
                want_v[nm][i] = glob
            elif dv is not GONE:
                want_v[nm][i] = dv
            elif i != b:
                missing = True
            else:
                want_v[nm][i] = GONE  # a base model may do without
    if top:
        c["parameters"] = top
    for e, i in zip(c["models"], order):
        if per[i]:
            e["parameters"] = per[i]
    need_base = d["base"] == "torch.Tensor" and b is None
    CALLS.clear()
    out = ctx.path("out")
    ctx.describe(dict(args=args, config=c, base=b, order=order))
    err = None
    try:
        run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(quiet=True, copy_tokenizer=False, lazy_unpickle=rng.random() < 0.5))
    except Exception as e:
        err = repr(e)[:300]
    try:
        if missing or need_base:
            ctx.ok(err is not None, "missing-accepted", lambda: f"({args}) with {c} should be refused")
            ctx.ok(not os.path.exists(os.path.join(out, "config.json")), "missing-accepted", lambda: "the refused merge looks finished")
            ctx.event("refused")
            ctx.nontrivial(args, "refused", rng.random())
            return
        if not ctx.ok(err is None, "runs", lambda: f"({args}) with {c}: {err}"):
            return
        got = {k: set(v.reshape(-1).tolist()) for k, v in read_checkpoint(out)[0].items()}
        ctx.ok(sorted(got) == names and len(CALLS) == len(names) and all(len(v) == 1 for v in got.values()), "once-per-weight",
               lambda: f"{len(CALLS)} calls for {len(names)} weights, {len(got)} written")
        in_list = [i for i in order if i != b]
        want_t = in_list if d["base"] else ([b] if b is not None else []) + in_list
        for nm, v in got.items():
            call = CALLS[int(next(iter(v))) - 1]
            w = names.index(nm)
            ctx.event("call-judged")
            ctx.ok(call["tensors"] == [(i, w) for i in want_t], "tensors", lambda: f"({args}) {nm}: models {call['tensors']} instead of {want_t} (base {b}, listed {order})")
            if d["base"]:
                ctx.ok(call["base"] == (None if b is None else (b, w)), "base-tensor", lambda: f"({args}) {nm}: {call['base']} instead of {b}")
                ctx.event("base-tensor:" + ("none" if b is None else "given"))
            if d["weight"]:
                ctx.ok(call["weight"] == nm, "output-weight", lambda: f"{call['weight']} for {nm}")
            if d["ref"]:
                ctx.ok(call["ref"] == (None if b is None else paths[b]), "base-model", lambda: f"{call['ref']} instead of {b}")
            p = call["params"]
            ctx.ok(set(p) == set(d["scalars"]) | set(d["vectors"]), "parameters", lambda: f"{sorted(p)}")
            for s, x in want_s.items():
                ctx.ok(p[s] == x, "scalar", lambda: f"({args}) {s}: {p[s]!r} instead of {x!r} from {c}")
                ctx.event("scalar:" + ("configured" if s in top else "default"))
            for s, x in want_v.items():
                w_ = [x[i] for i in want_t]
                ctx.ok(len(p[s]) == len(w_) and all(b_ is GONE or a_ == b_ for a_, b_ in zip(p[s], w_)), "vector", lambda: f"({args}) {s}: {p[s]} instead of {w_} from {c}")
                ctx.event("vector")
        with open(os.path.join(out, "README.md"), encoding="utf-8") as fh:
            card = fh.read()
        ctx.ok((pretty or name) in card and (not url or url in card), "card", lambda: card[:300])
        ctx.nontrivial(args, base, n, tuple(order), rng.random())
    finally:
        REGISTERED_MERGE_METHODS.pop(name, None)


BAD = ["", "x: float", "tensors", "tensors: torch.Tensor", "tensors: List[float]", "tensors: List[torch.Tensor], base_tensor: float", "tensors: List[torch.Tensor], base_tensor",
       "tensors: List[torch.Tensor], base_tensor: List[torch.Tensor]", "tensors: List[torch.Tensor], x", "tensors: List[torch.Tensor], x=1.0", "tensors: List[torch.Tensor], x: str = 'a'",
       "tensors: List[torch.Tensor], x: List[str]", "tensors: List[torch.Tensor], x: List[float] = [0.5]", "tensors: List[torch.Tensor], x: List[float] = None",
       "tensors: List[torch.Tensor], x: Optional[float] = None", "tensors: List[torch.Tensor], x: dict", "tensors: Dict[str, torch.Tensor]"]


def wl_invalid(ctx, rng):
    args = BAD[ctx.case % len(BAD)]
    name = f"vk_bad_{next(COUNT)}"
    env = dict(List=List, Dict=Dict, Optional=Optional, torch=torch)
    exec(f"def f({args}):\n    return tensors[0]\n", env)
    ctx.describe(dict(args=args))
    try:
        merge_method(name=name)(env["f"])
        err = None
    except (ValueError, TypeError) as e:
        err = repr(e)
    ctx.ok(err is not None, "invalid-accepted", lambda: f"({args})")
    ctx.ok(name not in REGISTERED_MERGE_METHODS, "invalid-registered", lambda: f"({args})")
    REGISTERED_MERGE_METHODS.pop(name, None)
    ctx.event("invalid")
    ctx.nontrivial(args)


# ---- classes -----------------------------------------------------------------------------------------------------------
RUNS = {}


def ran(key):
    with LOCK:
        RUNS[key] = RUNS.get(key, 0) + 1


class Shared(Task[float]):
    """needed by every weight"""

    tag: str

    def arguments(self) -> Dict[str, Task]:
        return {}

    def execute(self) -> float:
        ran(("shared", self.tag))
        return 42.0


class Stage(Task[torch.Tensor]):
    gather_tensors: MergeTensorInput
    weight_info: WeightInfo
    model: ModelReference
    level: int
    accel: bool

    def arguments(self) -> Dict[str, Task]:
        return {"tensors": self.gather_tensors}

    def priority(self) -> int:
        return self.level

    def group_label(self) -> Optional[str]:
        return self.gather_tensors.group_label()

    def uses_accelerator(self) -> bool:
        return self.accel

    def execute(self, tensors: Dict[ModelReference, torch.Tensor]) -> torch.Tensor:
        ran(("stage", self.weight_info.name, str(self.model)))
        return tensors[self.model] + 0.5


class Final(Task[torch.Tensor]):
    gather_tensors: MergeTensorInput
    stages: ImmutableMap[str, Task]
    weight_info: WeightInfo
    parameters: ImmutableMap[str, Any]
    tensor_parameters: ImmutableMap[ModelReference, ImmutableMap[str, Any]]
    base_model: Optional[ModelReference]
    shared: Optional[Task] = None
    accel: bool = False

    def arguments(self) -> Dict[str, Task]:
        res = {"tensors": self.gather_tensors, **{k: v for k, v in self.stages.items()}}
        if self.shared is not None:
            res["dependency"] = self.shared
        return res

    def group_label(self) -> Optional[str]:
        return self.weight_info.name

    def uses_accelerator(self) -> bool:
        return self.accel

    def execute(self, tensors: Dict[ModelReference, torch.Tensor], dependency: float = None, **stages) -> torch.Tensor:
        seq = called(weight=self.weight_info.name, tensors={str(k): ident(v) for k, v in tensors.items()}, stages={k: ident(v - 0.5) for k, v in stages.items()}, dependency=dependency,
                     base=str(self.base_model) if self.base_model is not None else None, parameters={k: self.parameters[k] for k in self.parameters},
                     per={str(m): {k: x[k] for k in x} for m, x in self.tensor_parameters.items()})
        return torch.full_like(next(iter(tensors.values())), float(seq))


class Custom(MergeMethod):
    def __init__(self, name, tag, scalars, vectors, accel, levels, shared):
        self.n, self.tag, self.scalars, self.vectors, self.accel, self.levels, self.shared = name, tag, scalars, vectors, accel, levels, shared

    def name(self):
        return self.n

    def parameters(self):
        return self.scalars

    def tensor_parameters(self):
        return self.vectors

    def make_task(self, *, output_weight, tensors, parameters, tensor_parameters, base_model, **_kwargs):
        stages = {}
        if self.levels:
            for i, m in enumerate(tensor_parameters):
                stages[f"stage_{i}"] = Stage(gather_tensors=tensors, weight_info=output_weight, model=m, level=self.levels[i % len(self.levels)], accel=self.accel)
        return Final(gather_tensors=tensors, stages=ImmutableMap(stages), weight_info=output_weight, parameters=parameters, tensor_parameters=tensor_parameters, base_model=base_model,
                     shared=Shared(tag=self.tag) if self.shared else None, accel=self.accel)


def wl_class(ctx, rng):
    name = f"vk_class_{next(COUNT)}"
    n = rng.choice([1, 2, 2, 3, 4])
    paths, names = models(ctx, rng, n, rng.choice([1, 2]))
    order = rng.sample(range(n), n)
    b = rng.choice([None] + order)
    value = lambda: rng.choice([0, 1, 0.5, -2.25, 1e-8, 3])
    mk = lambda k, m: [ConfigParameterDef(name=f"{k}{i}", **(dict(required=True) if rng.random() < 0.3 else dict(default_value=rng.choice([value(), None, 7.0])))) for i in range(m)]
    scalars, vectors = mk("s", rng.choice([0, 1, 2, 3])), mk("v", rng.choice([0, 1, 2]))
    method = Custom(name, ctx.path(""), scalars, vectors, rng.random() < 0.5, [rng.randint(-3, 3) for _ in range(rng.choice([0, 1, 2]))], rng.random() < 0.6)
    c = dict(merge_method=name, dtype="float32", models=[dict(model=paths[i]) for i in order])
    if b is not None:
        c["base_model"] = paths[b]
    top, missing, want_s, want_v = {}, False, {}, {i: {} for i in order}
    for p in scalars:
        if rng.random() < 0.7:
            top[p.name] = want_s[p.name] = value()
        else:
            missing |= p.required
            want_s[p.name] = p.default_value
    for p in vectors:
        if rng.random() < 0.4:
            top[p.name] = value()
        for e, i in zip(c["models"], order):
            if rng.random() < 0.7:
                e.setdefault("parameters", {})[p.name] = want_v[i][p.name] = value()
            elif p.name in top:
                want_v[i][p.name] = top[p.name]
            else:
                missing |= p.required and i != b
                want_v[i][p.name] = p.default_value
    if top:
        c["parameters"] = top
    CALLS.clear(), RUNS.clear()
    REGISTERED_MERGE_METHODS[name] = method
    out = ctx.path("out")
    ctx.describe(dict(config=c, scalars=[p.model_dump() for p in scalars], vectors=[p.model_dump() for p in vectors], levels=method.levels, shared=method.shared))
    err = None
    try:
        run_merge(MergeConfiguration.model_validate(c), out, MergeOptions(quiet=True, copy_tokenizer=False))
    except Exception as e:
        err = repr(e)[:300]
    finally:
        REGISTERED_MERGE_METHODS.pop(name, None)
    if missing:
        ctx.ok(err is not None, "missing-accepted", lambda: f"{c} should be refused")
        ctx.event("refused-class")
        ctx.nontrivial("refused", rng.random())
        return
    if not ctx.ok(err is None, "runs", lambda: f"{c}: {err}"):
        return
    got = {k: set(v.reshape(-1).tolist()) for k, v in read_checkpoint(out)[0].items()}
    ctx.ok(sorted(got) == names and len(CALLS) == len(names), "once-per-weight", lambda: f"{len(CALLS)} calls for {len(names)} weights, {len(got)} written", stop=True)
    if method.shared:
        ctx.ok(RUNS.get(("shared", method.tag)) == 1, "shared-once", lambda: f"{RUNS}")
        ctx.event("shared-dependency")
    if method.levels:
        ctx.ok(all(RUNS.get(("stage", nm, paths[i])) == 1 for nm in names for i in order), "stages-once", lambda: f"{RUNS}"[:300])
        ctx.event("stages")
    for nm, v in got.items():
        call = CALLS[int(next(iter(v))) - 1]
        w = names.index(nm)
        ctx.event("class-call-judged")
        ctx.ok(call["weight"] == nm and call["base"] == (None if b is None else paths[b]), "task-context", lambda: f"{nm}: {call}")
        ctx.ok(call["tensors"] == {paths[i]: (i, w) for i in order}, "tensors", lambda: f"{nm}: {call['tensors']}")
        ctx.ok(call["dependency"] == (42.0 if method.shared else None), "dependency", lambda: f"{call['dependency']}")
        ctx.ok(call["parameters"] == want_s, "scalar", lambda: f"{nm}: {call['parameters']} instead of {want_s}")
        ctx.ok(call["per"] == {paths[i]: want_v[i] for i in order}, "vector", lambda: f"{nm}: {call['per']} instead of {want_v}")
        ctx.ok(not method.levels or sorted(call["stages"].values()) == sorted((i, w) for i in order), "stage-values", lambda: f"{nm}: {call['stages']}")
    ctx.nontrivial(n, b, tuple(order), len(scalars), len(vectors), tuple(method.levels), method.shared, rng.random())


CHECK = Check(
    prop="P31",
    level="exploration",
    rule="generated method functions (every kind of base tensor, parameter type, default and argument order) and method classes (dependent tasks, priorities, shared dependencies) are "
    "registered through the documented interface and run through merges of checkpoints whose elements name their model and weight; every call's arguments are compared with the "
    "configuration, every weight is traced back to the one call that produced it; invalid signatures must be refused; distinct by signature and configuration",
    workloads=[
        Workload("decorator", wl_decorator, 500, 12000, require=["call-judged", "refused", "base-tensor:none", "base-tensor:given", "scalar:configured", "scalar:default", "vector"]),
        Workload("invalid", wl_invalid, 34, 68, require=["invalid"]),
        Workload("class", wl_class, 200, 4000, require=["class-call-judged", "shared-dependency", "stages", "refused-class"]),
    ],
)
