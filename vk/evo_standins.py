"""Stand-ins for the packages mergekit-evolve needs and this sandbox lacks (ray, cma, lm_eval): they run what they are
given, record it, and decide nothing about merges."""

import asyncio
import importlib.machinery
import inspect
import random
import sys
import threading
import time
import types

import numpy as np

LOG = dict(evals=[], asked=[], rng=random.Random(0), fail=None)


# ---- ray: a remote call runs when its result is asked for; several run in any order -------------------------------------
class Ref:
    def __init__(self, fn, args, kw):
        self.call, self.done, self.value, self.error = (fn, args, kw), False, None, None

    def run(self):
        if self.done:
            return
        fn, args, kw = self.call
        self.done = True
        try:
            args = [a.get() if isinstance(a, Ref) else a for a in args]
            kw = {k: v.get() if isinstance(v, Ref) else v for k, v in kw.items()}
            self.value = fn(*args, **kw)
        except Exception as e:
            self.error = e

    def get(self):
        self.run()
        if self.error:
            raise self.error
        return self.value

    def __await__(self):
        return self.get()
        yield


class Running(Ref):
    """a call of an actor that runs by itself"""

    def __init__(self, future):
        self.future = future

    def run(self):
        pass

    def get(self):
        return self.future.result(timeout=60)


def run_all(refs):
    order = list(refs)
    LOG["rng"].shuffle(order)
    for r in order:
        r.run()


class RemoteFn:
    def __init__(self, fn):
        self.fn = fn

    def options(self, **_):
        return self

    def remote(self, *a, **k):
        return Ref(self.fn, a, k)


class Handle:
    def __init__(self, obj):
        self._obj = obj
        self._loop = None
        if any(inspect.iscoroutinefunction(getattr(obj, n)) for n in dir(obj) if not n.startswith("__")):
            self._loop = asyncio.new_event_loop()
            threading.Thread(target=self._loop.run_forever, daemon=True).start()
            LOG.setdefault("loops", []).append(self._loop)

    def __getattr__(self, name):
        fn = getattr(self._obj, name)
        if self._loop is not None:
            return types.SimpleNamespace(remote=lambda *a, **k: Running(asyncio.run_coroutine_threadsafe(fn(*a, **k), self._loop)))
        return RemoteFn(fn)


def stop_loops():
    """end the actors that run by themselves -> what goes on in them"""
    left = []
    for loop in LOG.pop("loops", []):
        tasks = asyncio.all_tasks(loop)
        left += [t for t in tasks]
        loop.call_soon_threadsafe(lambda: [t.cancel() for t in tasks])
        time.sleep(0.02)
        loop.call_soon_threadsafe(loop.stop)
    return left


SLEEP = asyncio.sleep


def ray_wait(refs, num_returns=1, timeout=None, fetch_local=True):
    if not refs:
        return [], []
    r = LOG["rng"].choice(refs)
    r.run()
    return [r], [x for x in refs if x is not r]


class RemoteCls:
    def __init__(self, cls):
        self.cls = cls

    def options(self, **_):
        return self

    def remote(self, *a, **k):
        return Handle(self.cls(*a, **k))


def remote(*a, **k):
    if len(a) == 1 and not k and callable(a[0]):
        return RemoteCls(a[0]) if isinstance(a[0], type) else RemoteFn(a[0])
    return remote


def ray_get(x):
    run_all(x if isinstance(x, list) else [x])
    return [r.get() for r in x] if isinstance(x, list) else x.get()


class ActorPool:
    def __init__(self, actors):
        self.actors = list(actors)

    def map(self, fn, values):
        refs = [fn(self.actors[i % len(self.actors)], v) for i, v in enumerate(values)]
        run_all(refs)
        return (r.get() for r in refs)


# ---- cma: a random search that asks in generations ---------------------------------------------------------------------
def fmin2(objective, x0=None, sigma0=0.1, options=None, parallel_objective=None, callback=None, **_):
    rng = np.random.default_rng(LOG["rng"].randrange(1 << 30))
    best, fbest, n = None, np.inf, 0
    es = types.SimpleNamespace()
    while n < options["maxfevals"]:
        pop = options.get("popsize") or 4
        xs = [np.asarray(x0, dtype=float) + (sigma0 * rng.standard_normal(len(x0)) if i or n else 0) for i in range(pop)]
        LOG["asked"].append([x.copy() for x in xs])
        fs = parallel_objective(xs)
        for x, f in zip(xs, fs):
            if f < fbest:
                best, fbest = x, f
        n += len(xs)
        es.result = types.SimpleNamespace(xbest=best, fbest=fbest, evaluations=n, xfavorite=best, stds=best)
        if callback:
            callback(es)
        if LOG["fail"] is not None and n >= LOG["fail"]:
            raise KeyboardInterrupt()
    return best, es


# ---- lm_eval: the score is a function of the weights -------------------------------------------------------------------
def score_of(tensors, task):
    g = np.random.default_rng(sum(map(ord, task)))
    s = 0.0
    for k in sorted(tensors):
        v = tensors[k].float().numpy().ravel().astype(np.float64)
        s += float(v @ g.standard_normal(v.size))
    return s


class HFLM:
    def __init__(self, pretrained=None, **_):
        self.model = pretrained


class Data:
    def __init__(self, shuffled=0):
        self.shuffled = shuffled

    def shuffle(self):
        return Data(self.shuffled + 1)


class Task:
    def download(self):
        self.dataset = Data()


class ConfigurableTask(Task):
    def download(self):
        self.dataset = Data()


DOWNLOADS = {c: c.download for c in (Task, ConfigurableTask)}


def fresh():
    """as in processes of their own: what was patched is gone"""
    for c, f in DOWNLOADS.items():
        c.download = f
    if "_monkey_patched" in vars(Task):
        del Task._monkey_patched


class TaskManager:
    def __init__(self, include_path=None, **_):
        self.include_path = include_path


def simple_evaluate(model=None, model_args=None, tasks=(), **kw):
    LOG["called"] = LOG.get("called", 0) + 1
    if LOG.get("broken") is not None and LOG["called"] > LOG["broken"]:
        raise ValueError("planted failure")
    if isinstance(model, str):
        from vk.ckpt import read_checkpoint

        t = read_checkpoint(model_args["pretrained"], "safetensors")[0]
        where = model_args["pretrained"]
        if LOG.get("load"):
            # as the harness does
            import transformers

            for cls in (transformers.AutoModelForCausalLM, transformers.AutoTokenizer):
                cls.from_pretrained(where, trust_remote_code=model_args.get("trust_remote_code", False))
    else:
        t = {k: v.detach() for k, v in model.model.state_dict().items()}
        where = None
    task = ConfigurableTask()
    task.download()
    LOG["evals"].append(dict(where=where, tensors={k: v.clone() for k, v in t.items()}, tasks=list(tasks), kw=dict(kw), model_args=dict(model_args or {}), model=model, shuffled=task.dataset.shuffled))
    return dict(results={x: {"acc,none": score_of(t, x), "other": -score_of(t, x)} for x in tasks})


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__path__ = []
    m.__spec__ = importlib.machinery.ModuleSpec(name, None)
    sys.modules[name] = m
    if "." in name:
        p, c = name.rsplit(".", 1)
        setattr(sys.modules[p], c, m)
    return m


def install():
    if "ray" in sys.modules:
        return
    # actors that look for work look often
    asyncio.sleep = lambda t, *a: SLEEP(min(t, 0.005), *a)
    mod("ray", remote=remote, get=ray_get, ObjectRef=Ref, shutdown=lambda: None, wait=ray_wait)
    mod("ray.util", ActorPool=ActorPool, placement_group=lambda *a, **k: object(), remove_placement_group=lambda *a: None)
    mod("ray.util.queue")
    mod("ray.util.scheduling_strategies", PlacementGroupSchedulingStrategy=lambda **k: None)
    mod("cma", fmin2=fmin2, CMAEvolutionStrategy=object)
    mod("lm_eval", simple_evaluate=simple_evaluate)
    mod("lm_eval.api")
    mod("lm_eval.api.model", LM=object)
    mod("lm_eval.api.task", Task=Task, ConfigurableTask=ConfigurableTask)
    mod("lm_eval.models")
    mod("lm_eval.models.huggingface", HFLM=HFLM)
    mod("lm_eval.models.vllm_causallms", VLLM=type("VLLM", (), {}))
    mod("lm_eval.tasks", TaskManager=TaskManager)
