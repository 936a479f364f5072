"""P02: lifetime and placement of intermediate results during graph execution."""

import gc
import itertools
import os
import weakref

import torch
from mergekit.graph import Executor, TaskUniverse

from vk.core import Check, Workload
from vk.dag import Graph, Val, random_nodes

_gid = itertools.count(1)
# A result may survive its last use by this many further task starts (a local
# variable still naming it is not a leak); anything longer is retention.
SLACK = 2


def wl_lifetime(ctx, rng):
    nodes, shape = random_nodes(rng, n=rng.choice([4, 6, 10, 16, 24, 40]))
    n = len(nodes)
    g = Graph(next(_gid), nodes)
    targets = rng.sample(range(n), rng.randint(1, max(1, n // 2)))
    cached = {}
    if rng.random() < 0.3:
        need0 = sorted(g.needed(targets))
        for i in rng.sample(need0, rng.randint(0, len(need0) // 2)):
            cached[i] = Val(1000 + i)
    need = g.needed(targets, cached)
    consumers = {i: {c for c in need if any(d == i for _, d in nodes[c].args)} for i in need}
    finished = set()
    starts = []
    refs = {}
    expired_at = {}  # idx -> number of task starts when it had no consumer left
    peak = [0]
    last_yield = []

    def judge(now):
        alive = [i for i, r in refs.items() if r() is not None]
        peak[0] = max(peak[0], len(alive))
        for i in alive:
            if i in last_yield:
                continue  # the pair handed out last may still be named by the generator
            if i in expired_at and now - expired_at[i] > SLACK:
                ctx.fail("retained-past-last-use",
                         f"result of task {i} still alive {now - expired_at[i]} task starts after its last use "
                         f"(order {starts}, targets {targets})", stop=True)
        ctx.event("live-set-inspected")

    def on_execute(idx, kwargs):
        starts.append(idx)
        for a, d in nodes[idx].args:
            want_alive = kwargs.get(a)
            ctx.ok(isinstance(want_alive, Val), "available-while-needed",
                   lambda: f"task {idx} got {want_alive!r} for {a}")
        judge(len(starts))
        v = Val(idx)
        refs[idx] = weakref.ref(v)
        return v

    orig = on_execute

    def on_execute2(idx, kwargs):
        finished.update(starts)
        for i in list(refs):
            if i not in expired_at and i in finished and consumers[i] <= finished:
                expired_at[i] = len(starts) + 1
        return orig(idx, kwargs)

    g.on_execute = on_execute2
    try:
        if cached:
            uni = TaskUniverse([g.task(i) for i in range(n)])
            ex = Executor([uni.get_handle(g.task(t)) for t in targets],
                          cached_values={uni.get_handle(g.task(i)): v for i, v in cached.items()})
        else:
            ex = Executor([g.task(t) for t in targets])
        it = ex.run(quiet=True)
        count = 0
        for pair in it:
            count += 1
            t, v = pair
            last_yield[:] = (last_yield + [t.idx])[-2:]
            ctx.ok(isinstance(v, Val), "target-available", "")
            del pair, v, t
        # run over: nothing produced may be kept by the executor
        alive = [i for i, r in refs.items() if r() is not None]
        ctx.ok(not alive, "retained-after-run", lambda: f"still alive after the run: {alive}")
        ctx.state(shape, tuple(starts), peak[0])
        if len(expired_at) > 1:
            ctx.event("results-expired", len(expired_at))
            ctx.nontrivial(shape, n, tuple(targets), tuple(sorted(cached)), tuple(starts))
        ctx.describe(dict(shape=shape, tasks=n, targets=len(targets), peak_live=peak[0]))
    finally:
        g.close()


def _walk(v):
    if isinstance(v, torch.Tensor):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from _walk(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from _walk(x)


def _nest(rng, t, depth=0):
    k = rng.choice(["t", "d", "l", "u"]) if depth < 3 else "t"
    if k == "t":
        return t
    if k == "d":
        return {"a": _nest(rng, t, depth + 1), "b": 1, "c": None}
    if k == "l":
        return [_nest(rng, t, depth + 1), "x"]
    return (3, _nest(rng, t, depth + 1))


def _shape(v):
    if isinstance(v, torch.Tensor):
        return ("T", tuple(v.shape))
    if isinstance(v, dict):
        return ("D", tuple((k, _shape(x)) for k, x in v.items()))
    if isinstance(v, list):
        return ("L", tuple(map(_shape, v)))
    if isinstance(v, tuple):
        return ("U", tuple(map(_shape, v)))
    return ("V", v)


def wl_devices(ctx, rng):
    """Placement: 'meta' stands in for the accelerator (cpu->meta moves are legal)."""
    nodes, shape = random_nodes(rng, n=rng.choice([2, 4, 8, 14]))
    n = len(nodes)
    mode = rng.choice(["math-meta", "storage-meta", "both-meta", "cpu"])
    math = torch.device("meta" if mode in ("math-meta", "both-meta") else "cpu")
    stor = torch.device("meta" if mode in ("storage-meta", "both-meta") else "cpu")
    for nd in nodes:
        # a non-accelerated task may see storage tensors; reading meta->cpu is impossible,
        # so with storage-meta nothing is accelerated
        nd.accel = rng.random() < 0.5 and mode != "storage-meta"
    g = Graph(next(_gid), nodes)
    targets = rng.sample(range(n), rng.randint(1, n))
    made = {}

    def on_execute(idx, kwargs):
        nd = nodes[idx]
        for a, d in nd.args:
            ts = list(_walk(kwargs[a]))
            want = math if nd.accel else stor
            for t in ts:
                ctx.event("placement-checked")
                ctx.ok(t.device == want, "input-placement",
                       lambda: f"{'accelerated' if nd.accel else 'plain'} task {idx} input {a} on {t.device}, want {want} ({mode})")
            ctx.ok(_shape(kwargs[a]) == made[d], "structure-preserved",
                   lambda: f"{_shape(kwargs[a])} vs {made[d]}")
        v = _nest(rng, torch.zeros(idx + 1))
        made[idx] = _shape(v)
        return v

    g.on_execute = on_execute
    try:
        mk = (lambda d: d) if rng.random() < 0.5 else (lambda d: str(d))
        for t, v in Executor([g.task(t) for t in targets], math_device=mk(math), storage_device=mk(stor)).run(quiet=True):
            ctx.ok(_shape(v) == made[t.idx], "structure-preserved", "target structure")
            for x in _walk(v):
                ctx.event("placement-checked")
                ctx.ok(x.device == stor, "result-placement", lambda: f"target on {x.device}, want {stor} ({mode})")
        ctx.nontrivial("dev", mode, shape, n, tuple(targets))
    finally:
        g.close()


CHECK = Check(
    prop="P02",
    level="exploration",
    rule="random DAGs whose results are weak-referenceable sentinels; at every task start the monitor inspects which "
    "sentinels are alive and compares with the consumers still to run; non-trivial = at least two results expired "
    "during the run; distinct by graph + execution order; a state = order + peak live set",
    assumptions=[
        "CPython reference counting: a result without references dies at once",
        f"a result may outlive its last use by at most {SLACK} task starts (stack locals)",
        "the meta device stands in for an accelerator; meta tensors carry no data, so only placement is judged there",
    ],
    workloads=[
        Workload("lifetime", wl_lifetime, 8000, 100000, require=["live-set-inspected", "results-expired"]),
        Workload("devices", wl_devices, 4000, 40000, require=["placement-checked"]),
    ],
)
